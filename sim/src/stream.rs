//! C09: MDCT streams over a simulated channel.  Encoder and decoder nodes are tasks of the scheduler; the
//! channel (delay, loss, duplication, reordering, corruption, partition) is a discrete-event simulation.
use crate::engine::{self, ctx, Mode, Sched};
use crate::inst::*;
use crate::report::{rep, stat, violation, St};
use crate::rng::{mix2, Rng};
use crate::spec::*;
use crate::world::*;
use rustdct::DctPlanner;
use std::cell::UnsafeCell;

crate::inst::rec! { struct Strm { len: usize, win: Win, blocks: usize, enc: usize, dec: usize, src: u8, seed: u64, gain: u8, quiet: u64, near: u64 } }
crate::inst::rec! {
    enum Sact {
        Encode { s: usize, f: usize, crash: Option<u32> },
        // what arrives at the decoder
        Apply { s: usize, f: usize, corrupt: u8, crash: Option<u32>, restart: bool },
        Save { s: usize },
        // the whole node crashes between frames and comes back with what it saved
        Restart,
    }
}
crate::inst::rec! { struct StreamSpec { num: Num, planners: usize, replan: bool, share: bool, streams: Vec<Strm>, nodes: Vec<Vec<Sact>>, sched: Sched, env: EnvCfg, time: u64, losses: u64, dups: u64, reorders: u64, partitions: u64 } }

pub fn gen(seed: u64, index: u64) -> StreamSpec {
    let mut rr = Rng::new(mix2(mix2(seed, 0xC09), index));
    let r = &mut rr;
    let num = *r.pick(&[Num::Sim, Num::Sim, Num::F64, Num::F32]);
    let ns = 1 + r.us(4);
    let (ne, nd) = (1 + r.us(2), 1 + r.us(2));
    let span = *r.pick(&[4, 12, 24, 60]);
    // systematically: every even length up to 1000
    let index = index.saturating_sub(crate::props::FIRST.load(std::sync::atomic::Ordering::SeqCst));
    let swept = index < if engine::instrumented() { 120 } else { 500 };
    let base = if swept { 2 * (index as usize + 1) } else { 2 * (1 + r.us(span)) };
    let big = r.chance(1, if engine::instrumented() { 120 } else { 30 }) || base > 200;
    let streams: Vec<Strm> = (0..ns).map(|_| {
        let len = if swept { base } else if big && r.chance(1, 2) { let o = 2 * (600 + r.us(1500)); *r.pick(&[256, 512, 1024, 2048, 4096, 960, 1152, 576, 1920, o]) } else if big { 2 * (100 + r.us(500)) } else if r.chance(2, 3) { base } else { 2 * (1 + r.us(40)) };
        let win = match r.us(6) { 0 => Win::Mp3, 1 => Win::Mp3Inv, 2 => Win::Vorbis, 3 => Win::VorbisInv, 4 => Win::One, _ => Win::Inv };
        Strm { len, win, blocks: 3 + r.us(7), enc: r.us(ne), dec: ne + r.us(nd), src: r.weighted(&[6, 1, 1]) as u8, seed: r.u64() >> 16, gain: r.weighted(&[5, 1, 1, 1, 3]) as u8, quiet: 0, near: 0 }
    }).collect();
    let mut streams = streams;
    // streams of one kind, so that they can share instances; some carry the same signal but for details
    if r.chance(1, 2) { let a = streams[0].clone(); for st in streams[1..].iter_mut() { if r.chance(2, 3) { st.len = a.len; st.win = a.win.clone(); st.src = a.src; } } }
    if r.chance(1, 3) { let a = streams[0].clone(); for st in streams[1..].iter_mut() { if r.chance(2, 3) { *st = Strm { enc: st.enc, dec: st.dec, near: st.seed | 1, ..a.clone() }; } } }
    // stretches of digital silence, long enough for silent frames
    for st in streams.iter_mut() {
        if r.chance(1, 3) { let k = 1 + r.us(2); for _ in 0..k { let (a, n) = (r.us(st.blocks), r.range(2, 4)); st.quiet |= ((1u64 << n) - 1) << a; } }
    }
    // swarm: which faults does this run have
    let on = |r: &mut Rng| r.chance(1, 2);
    let (loss, dup, reord, corr, ecr, dcr, save, part) = (on(r), on(r), on(r), on(r), on(r), on(r), on(r), r.chance(1, 4));
    let rate = *r.pick(&[4u64, 8, 16]);
    let mut nodes: Vec<Vec<Sact>> = vec![vec![]; ne + nd];
    let mut s = StreamSpec { num, planners: 1 + r.us(2), replan: r.chance(1, 2), share: r.chance(2, 3), streams: streams.clone(), nodes: vec![], sched: Sched { mode: Mode::Walk { mean: 20 }, seed: r.u64() >> 16, fine: false, hot: 0 }, env: EnvCfg::plain(), time: 0, losses: 0, dups: 0, reorders: 0, partitions: 0 };
    if engine::instrumented() && !big && r.chance(1, 2) { s.sched.fine = true; s.sched.hot = *r.pick(&[0, 1, 1, 3, 10]); }
    for st in s.streams.iter_mut() { if st.src != 0 && st.len > if engine::instrumented() { 300 } else { 800 } { st.src = 0; } }
    s.sched.mode = match r.us(4) { 0 => Mode::Walk { mean: 2 }, 1 => Mode::Walk { mean: 40 }, 2 => Mode::Bursty { short: 2, long: 400 }, _ => Mode::Robin { quantum: 1 + r.below(60) } };
    // encoders: frames of their streams interleaved, one every simulated 20 ms
    let mut sends: Vec<(u64, usize, usize)> = vec![];
    let mut pend: Vec<Vec<(usize, usize)>> = vec![vec![]; ne];
    for (k, st) in streams.iter().enumerate() { for f in 0..st.blocks - 1 { pend[st.enc].push((f, k)); } }
    for e in 0..ne {
        pend[e].sort();
        let mut t = r.below(20_000);
        for &(f, k) in &pend[e] {
            let crash = if ecr && r.chance(1, rate) { Some(r.us(1_000_001) as u32) } else { None };
            nodes[e].push(Sact::Encode { s: k, f, crash });
            if crash.is_some() {
                // the frame is lost, or encoded again
                if r.chance(1, 2) { nodes[e].push(Sact::Encode { s: k, f, crash: None }); } else { s.losses += 1; continue; }
            }
            sends.push((t, k, f));
            t += 20_000;
        }
        s.time = s.time.max(t);
    }
    // the channel
    let pw = (r.below(s.time + 1), 40_000 + r.below(80_000));
    if part { s.partitions = 1; }
    let mut arr: Vec<(u64, u64, usize, usize, u8)> = vec![];
    let mut seq = 0;
    for &(t, k, f) in &sends {
        if loss && r.chance(1, rate) { s.losses += 1; continue; }
        if part && t >= pw.0 && t < pw.0 + pw.1 { s.losses += 1; continue; }
        let copies = if dup && r.chance(1, rate) { s.dups += 1; 2 } else { 1 };
        for _ in 0..copies {
            let d = 5_000 + if reord { r.below(90_000) } else { r.below(5_000) };
            let c = if corr && r.chance(1, rate) { 1 + r.us(3) as u8 } else { 0 };
            seq += 1;
            arr.push((t + d, seq, k, f, c));
        }
    }
    arr.sort();
    if let Some(l) = arr.last() { s.time = s.time.max(l.0); }
    let mut last = vec![0usize; ns];
    let mut since: Vec<Vec<(usize, usize)>> = vec![vec![]; ne + nd];
    for (_, _, k, f, c) in arr {
        if f < last[k] { s.reorders += 1; }
        last[k] = f;
        let d = streams[k].dec;
        let crash = if dcr && r.chance(1, rate) { Some(r.us(1_000_001) as u32) } else { None };
        let restart = crash.is_some() && r.chance(1, 2);
        nodes[d].push(Sact::Apply { s: k, f, corrupt: c, crash, restart });
        if crash.is_none() && c == 0 { since[d].push((k, f)); }
        let re = restart || (dcr && r.chance(1, 4 * rate));
        if re {
            if !restart { nodes[d].push(Sact::Restart); }
            // some of what was applied since the last save is sent again
            let lost = std::mem::take(&mut since[d]);
            for (k2, f2) in lost { if r.chance(3, 4) { nodes[d].push(Sact::Apply { s: k2, f: f2, corrupt: 0, crash: None, restart: false }); since[d].push((k2, f2)); } }
            if restart && r.chance(1, 2) { nodes[d].push(Sact::Apply { s: k, f, corrupt: 0, crash: None, restart: false }); since[d].push((k, f)); }
        }
        if save && r.chance(1, 3) { nodes[d].push(Sact::Save { s: k }); since[d].retain(|x| x.0 != k); }
    }
    s.nodes = nodes;
    s
}

/// how often each frame went into the decoder state, and how: 0 not, 1 once and clean, 2 otherwise
#[derive(Clone, Default)]
struct DecModel { st: Vec<u8>, seq: Vec<usize> }
impl DecModel {
    fn apply(&mut self, f: usize, clean: bool) -> bool {
        // the decoder drops what it has already applied cleanly
        if self.st[f] != 0 { return false; }
        self.st[f] = if clean { 1 } else { 2 };
        self.seq.push(f);
        true
    }
}
struct Dec<T> { blocks: Vec<Vec<T>>, m: DecModel, saved: Vec<Vec<T>>, sm: DecModel }
struct W<'a, T: Lib> {
    spec: &'a StreamSpec,
    inst: Vec<(Inst<T>, Inst<T>)>,
    samples: Vec<Vec<Vec<T>>>,
    frames: UnsafeCell<Vec<Vec<Option<Vec<T>>>>>,
    dead: UnsafeCell<Vec<Vec<bool>>>,
    dec: UnsafeCell<Vec<Dec<T>>>,
    done: UnsafeCell<Vec<bool>>,
    planner: UnsafeCell<(Option<DctPlanner<T>>, bool)>,
}
unsafe impl<T: Lib> Sync for W<'_, T> {}
fn scale(w: &Win, n: usize) -> f64 { match w { Win::Mp3 | Win::Vorbis => n as f64 / 2.0, Win::One => n as f64, _ => 1.0 } }
/// what a codec would have sent: a quantised (integer) spectrum with stretches of zeros
fn spectrum(st: &Strm, f: usize) -> Vec<f64> {
    let n = st.len;
    let mut r = Rng::new(mix2(st.seed, 0x5bec + f as u64));
    let mut v = vec![0.0; n];
    if st.quiet >> f & 1 == 1 || r.chance(1, 5) { return v; }
    let (a, b) = match r.us(5) { 0 => (0, n), 1 => (r.us(n), n), 2 => (0, 1 + r.us(n)), 3 => { let a = r.us(n); (a, a + 1) } _ => { let a = r.us(n); (a, r.range(a + 1, n)) } };
    let sparse = r.chance(1, 2);
    for x in &mut v[a..b.min(n)] { if !sparse || r.chance(1, 4) { *x = r.us(201) as f64 - 100.0; } }
    if st.near != 0 { let mut q = Rng::new(mix2(st.near, f as u64)); if q.chance(1, 2) { v[q.us(n)] += 3.0; } }
    v
}
/// gain 4: the signal is synthesised from such spectra, so that its MDCT frames are these integers (the MDCT is an
/// orthogonal lapped transform) and sending them rounded loses nothing
const QUANT: u8 = 4;
fn synth(st: &Strm, j: usize) -> Vec<f64> {
    let n = st.len;
    let (w, sc) = (window_ref(&st.win, 2 * n), scale(&st.win, n));
    let mut y = vec![0.0; n];
    if j > 0 { let x = crate::refr::eval(Kind::Imdct, n, &spectrum(st, j - 1)); for i in 0..n { y[i] += x[n + i] * w[n + i] / sc; } }
    if j + 1 < st.blocks { let x = crate::refr::eval(Kind::Imdct, n, &spectrum(st, j)); for i in 0..n { y[i] += x[i] * w[i] / sc; } }
    y
}
fn quantise<T: Lib>(st: &Strm, o: &mut [T]) { if st.gain == QUANT { for x in o { *x = T::of(x.to().round()); } } }
fn sample(st: &Strm, j: usize) -> Vec<f64> {
    if st.gain == QUANT { return synth(st, j); }
    if st.quiet >> j & 1 == 1 { return vec![0.0; st.len]; }
    let class = [0u8, 0, 0, 4, 10, 12, 7, 9][(st.seed as usize + j) % 8];
    let mut v = Inp { class, seed: mix2(st.seed, j as u64) >> 16 }.make(st.len, false);
    if st.near != 0 { let mut q = Rng::new(mix2(st.near, j as u64)); if q.chance(1, 2) { let k = q.us(st.len); v[k] = if v[k].abs() < 0.5 { 0.75 } else { -0.5 * v[k] }; } }
    for x in v.iter_mut() { *x = match st.gain { 1 => (*x * 32767.0).round(), 2 => *x / 65536.0, 3 => (*x * 128.0).round() / 128.0, _ => *x } }
    v
}
fn key(s: usize, f: usize) -> usize { 0x10000 + s * 64 + f }

pub fn pass<T: Lib>(spec: &StreamSpec, refpass: bool, record: bool) {
    begin::<T>(&spec.env, false);
    let mut ps: Vec<DctPlanner<T>> = vec![];
    for _ in 0..spec.planners { match sut(1, Arm::default(), T::new_planner).0 { Ok(p) => ps.push(p), Err(_) => violation("plan-panicked", "DctPlanner::new panicked") } }
    let mk = |ps: &mut Vec<DctPlanner<T>>, k: usize, st: &Strm| -> Inst<T> {
        let i = k % ps.len();
        let (r, _) = sut(1, Arm::default(), || match st.src {
            0 => T::plan(&mut ps[i], Fam::Mdct, Req::A, st.len, &st.win, WinFault::None),
            1 => T::build(&Recipe::Naive { fam: Fam::Mdct, len: st.len, win: st.win.clone() }, WinFault::None),
            _ => T::build(&Recipe::MdctVia { inner: Box::new(Recipe::Naive { fam: Fam::T4, len: st.len, win: Win::One }), win: st.win.clone() }, WinFault::None),
        });
        match r { Ok(i) => i, Err(_) => violation("plan-refused", "a valid MDCT request was refused") }
    };
    let mut inst: Vec<(Inst<T>, Inst<T>)> = vec![];
    for (k, st) in spec.streams.iter().enumerate() {
        if let Some(j) = (0..k).find(|j| { let o = &spec.streams[*j]; spec.share && (o.len, o.src) == (st.len, st.src) && o.win == st.win }) { let c = inst[j].clone(); inst.push(c); continue; }
        let a = mk(&mut ps, k, st);
        let b = if spec.replan { mk(&mut ps, k + 1, st) } else { a.clone() };
        inst.push((a, b));
    }
    let w = W {
        spec, inst,
        samples: spec.streams.iter().map(|st| (0..st.blocks).map(|j| sample(st, j).into_iter().map(T::of).collect()).collect()).collect(),
        frames: UnsafeCell::new(spec.streams.iter().map(|st| vec![None; st.blocks - 1]).collect()),
        dead: UnsafeCell::new(spec.streams.iter().map(|st| vec![false; st.blocks - 1]).collect()),
        dec: UnsafeCell::new(spec.streams.iter().map(|st| {
            let b = vec![vec![T::of(0.0); st.len]; st.blocks];
            let m = DecModel { st: vec![0; st.blocks - 1], seq: vec![] };
            Dec { blocks: b.clone(), m: m.clone(), saved: b, sm: m }
        }).collect()),
        done: UnsafeCell::new(vec![false; spec.nodes.len()]),
        planner: UnsafeCell::new((None, false)),
    };
    let _ = &w.planner;
    if refpass { reference(&w); std::mem::forget(w); return; }
    let wr = &w;
    if spec.sched.fine { stat(St::FineRuns, 1) }
    engine::run(spec.nodes.len(), &spec.sched, record, &|t| node(wr, t));
    finish(&w);
    std::mem::forget(w);
}
/// what an undisturbed system produces for the same sequence of applied frames
fn effective(spec: &StreamSpec) -> Vec<Vec<usize>> {
    let mut m: Vec<(DecModel, DecModel)> = spec.streams.iter().map(|st| { let d = DecModel { st: vec![0; st.blocks - 1], seq: vec![] }; (d.clone(), d) }).collect();
    for (t, acts) in spec.nodes.iter().enumerate() {
        for a in acts {
            match a {
                Sact::Apply { s, f, corrupt, crash, restart } => {
                    if *restart { for k in 0..m.len() { if spec.streams[k].dec == t { m[k].0 = m[k].1.clone(); } } }
                    else { m[*s].0.apply(*f, *corrupt == 0 && crash.is_none()); }
                }
                Sact::Save { s } => m[*s].1 = m[*s].0.clone(),
                Sact::Restart => for k in 0..m.len() { if spec.streams[k].dec == t { m[k].0 = m[k].1.clone(); } },
                _ => (),
            }
        }
    }
    m.into_iter().map(|x| x.0.seq.iter().copied().filter(|f| x.0.st[*f] == 1).collect()).collect()
}
fn reference<T: Lib>(w: &W<T>) {
    let seqs = effective(w.spec);
    let b = base();
    for (k, st) in w.spec.streams.iter().enumerate() {
        let n = st.len;
        let mut frames = vec![];
        let mut steps = (0, 0);
        for f in 0..st.blocks - 1 {
            let (mut a, mut c, mut o) = (w.samples[k][f].clone(), w.samples[k][f + 1].clone(), vec![T::of(0.0); n]);
            let mut s = vec![T::of(0.0); w.inst[k].0.scratch()];
            let (r, u) = sut(1, Arm::default(), || w.inst[k].0.run_mdct(Kind::Mdct, &mut a, &mut c, &mut o, &mut s));
            if r.is_err() { violation("call-refused", "an MDCT call of the right lengths panicked"); }
            steps.0 = u.steps;
            quantise(st, &mut o);
            frames.push(o);
        }
        let mut out = vec![vec![T::of(0.0); n]; st.blocks];
        for &f in &seqs[k] {
            let (x, y) = out.split_at_mut(f + 1);
            let mut s = vec![T::of(0.0); w.inst[k].1.scratch()];
            let mut fr = frames[f].clone();
            let (r, u) = sut(1, Arm::default(), || w.inst[k].1.run_mdct(Kind::Imdct, &mut fr, &mut x[f], &mut y[0], &mut s));
            if r.is_err() { violation("call-refused", "an IMDCT call of the right lengths panicked"); }
            steps.1 = u.steps;
        }
        let r = &mut b.recs[k];
        r.status = 1;
        r.steps = steps.0;
        r.allocs = steps.1.max(steps.0);
        r.off = b.top;
        r.n = (st.blocks * n) as u64;
        for blk in out { for v in blk { b.data[b.top as usize] = v.bits(); b.top += 1; } }
    }
}
fn at(ppm: Option<u32>, steps: u64) -> Option<u64> { ppm.and_then(|p| if steps == 0 { None } else { Some(1 + ((steps - 1) as u128 * p as u128 / 1_000_000) as u64) }) }

fn node<T: Lib>(w: &W<T>, t: usize) {
    let spec = w.spec;
    let frames = || unsafe { &mut *w.frames.get() };
    let dec = || unsafe { &mut *w.dec.get() };
    // one scratch slice per node, shared by all its streams and never cleaned
    let need = (0..spec.streams.len()).filter(|k| spec.streams[*k].enc == t || spec.streams[*k].dec == t).map(|k| w.inst[k].0.scratch().max(w.inst[k].1.scratch())).max().unwrap_or(0);
    let mut scratch: Vec<T> = vec![T::of(0.0); need];
    let maxn = spec.streams.iter().map(|s| s.len).max().unwrap_or(0);
    let mut obuf: Vec<T> = vec![T::of(0.0); maxn];
    let restore = |t: usize| {
        stat(St::DecRestart, 1);
        for (k, d) in dec().iter_mut().enumerate() { if spec.streams[k].dec == t { d.blocks = d.saved.clone(); d.m = d.sm.clone(); } }
    };
    for (ai, a) in spec.nodes[t].iter().enumerate() {
        ctx(|c| c.op.set(ai as u32));
        engine::point();
        stat(St::Ops, 1);
        match a {
            Sact::Encode { s, f, crash } => {
                let (s, f) = (*s, *f);
                let st = &spec.streams[s];
                let arm = Arm { crash: at(*crash, base().recs[s].steps), ..Default::default() };
                let (xa, xb) = (&w.samples[s][f], &w.samples[s][f + 1]);
                let inst = &w.inst[s].0;
                stat(St::Calls, 1);
                let (r, u) = sut(1, arm, || {
                    // inputs are shared between nodes, read only
                    if let Inst::Mdct(x) = inst { x.process_mdct_with_scratch(xa, xb, &mut obuf[..st.len], &mut scratch) }
                });
                rep().steps += u.steps;
                match r {
                    Ok(()) => {
                        if crash.is_none() || arm.crash.is_none() || !fires(&u) { let mut v = obuf[..st.len].to_vec(); quantise(st, &mut v); frames()[s][f] = Some(v); }
                    }
                    Err(Stop::Fault) => {
                        stat(St::EncCrash, 1);
                        let again = matches!(spec.nodes[t].get(ai + 1), Some(Sact::Encode { s: s2, f: f2, .. }) if *s2 == s && *f2 == f);
                        if !again { unsafe { (&mut *w.dead.get())[s][f] = true; } }
                    }
                    Err(Stop::Refused(m)) => violation("call-refused", &format!("an MDCT call of the right lengths panicked: {}", m)),
                }
                engine::wake_lock(key(s, f));
            }
            Sact::Apply { s, f, corrupt, crash, restart } => {
                let (s, f) = (*s, *f);
                while frames()[s][f].is_none() && !unsafe { (&*w.dead.get())[s][f] } {
                    if spec.streams[s].enc < spec.nodes.len() && unsafe { (&*w.done.get())[spec.streams[s].enc] } { break; }
                    engine::wait_lock(key(s, f));
                }
                let Some(mut fr) = frames()[s][f].clone() else { continue };
                let st = &spec.streams[s];
                if *corrupt > 0 {
                    stat(St::FrameCorrupt, 1);
                    let mut r = Rng::new(st.seed ^ f as u64);
                    for _ in 0..1 + st.len / 4 { let i = r.us(st.len); fr[i] = match corrupt { 1 => T::of(f64::NAN), 2 => T::of(f64::INFINITY), _ => T::of(r.unit() * 1e6) }; }
                }
                let clean = *corrupt == 0 && crash.is_none();
                let inst = &w.inst[s].1;
                if !*restart && dec()[s].m.st[f] != 0 { continue; }
                if !*restart { dec()[s].m.apply(f, clean); }
                let d = &mut dec()[s];
                let (x, y) = d.blocks.split_at_mut(f + 1);
                let (oa, ob) = (&mut x[f][..], &mut y[0][..]);
                let arm = Arm { crash: at(*crash, base().recs[s].allocs), ..Default::default() };
                stat(St::Calls, 1);
                let (r, u) = sut(1, arm, || if let Inst::Mdct(x) = inst { x.process_imdct_with_scratch(&fr, oa, ob, &mut scratch) });
                rep().steps += u.steps;
                match r {
                    Ok(()) => (),
                    Err(Stop::Fault) => stat(St::DecCrash, 1),
                    Err(Stop::Refused(m)) => violation("call-refused", &format!("an IMDCT call of the right lengths panicked: {}", m)),
                }
                if *restart { restore(t); }
            }
            Sact::Save { s } => { let d = &mut dec()[*s]; d.saved = d.blocks.clone(); d.sm = d.m.clone(); }
            Sact::Restart => restore(t),
        }
    }
    unsafe { (&mut *w.done.get())[t] = true }
    for (k, st) in spec.streams.iter().enumerate() { if st.enc == t { for f in 0..st.blocks - 1 { engine::wake_lock(key(k, f)); } } }
}
fn finish<T: Lib>(w: &W<T>) {
    let spec = w.spec;
    for (st, n) in [(St::FrameLost, spec.losses), (St::FrameDup, spec.dups), (St::FrameReorder, spec.reorders), (St::Partition, spec.partitions)] { stat(st, n); }
    rep().sim_time += spec.time;
    let seqs = effective(spec);
    for (k, st) in spec.streams.iter().enumerate() {
        let d = unsafe { &(&*w.dec.get())[k] };
        let n = st.len;
        // after minimisation a frame may have no encoder: then the model and the run differ, and only the run counts
        let same = seqs[k] == d.m.seq.iter().copied().filter(|f| d.m.st[*f] == 1).collect::<Vec<_>>();
        let ok = |f: usize| d.m.st[f] == 1;
        let sc = scale(&st.win, n);
        for j in 0..st.blocks {
            let left = if j == 0 { None } else { Some(j - 1) };
            let right = if j == st.blocks - 1 { None } else { Some(j) };
            let touched_badly = [left, right].iter().flatten().any(|f| d.m.st[*f] == 2);
            let b = &base().recs[k];
            if same && !touched_badly {
                stat(St::Compared, 1);
                for i in 0..n {
                    let want = base().data[b.off as usize + j * n + i];
                    if d.blocks[j][i].bits() != want {
                        violation("stream-differs", &format!("stream {} ({:?}, length {}): block {} sample {} is {:e}, an undisturbed decoder applying the same frames has {:e}", k, st.win, n, j, i, d.blocks[j][i].to(), T::from_bits(want).to()));
                    }
                }
            }
            if let (Some(l), Some(r)) = (left, right) {
                if ok(l) && ok(r) {
                    stat(St::Blocks, 1);
                    let x = &w.samples[k][j];
                    let mut mx = 0.0f64;
                    for q in [j - 1, j, j + 1] { for v in &w.samples[k][q] { mx = mx.max(v.to().abs()); } }
                    let unit = T::EPS * sc * mx * ((n as f64).sqrt() + 8.0) + 1e-300;
                    for i in 0..n {
                        let e = (d.blocks[j][i].to() - sc * x[i].to()).abs() / unit;
                        let e = if e.is_nan() { f64::INFINITY } else { e };
                        if e > rep().maxerr { rep().maxerr = e; }
                        if e > 8.0 {
                            violation("block-not-reconstructed", &format!("stream {} ({:?}, length {}): block {} had both its frames applied once, but sample {} is {:e} instead of {:e}", k, st.win, n, j, i, d.blocks[j][i].to(), sc * x[i].to()));
                        }
                    }
                } else { stat(St::BlocksDamaged, 1); rep().nontrivial += 1; }
            }
        }
        let mut h = k as u64;
        for b in &d.blocks { for v in b { h = mix2(h, v.bits()); } }
        rep().digest = mix2(rep().digest, h);
    }
}

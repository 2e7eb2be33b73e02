//! From (property, seed, run index, tier) to the specification of one simulated run.
use crate::engine::{instrumented, Mode, Sched};
use crate::inst::*;
use crate::rng::{mix2, Rng};
use crate::spec::*;

pub const PROPS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11"];

fn blank(num: Num) -> RunSpec {
    RunSpec {
        num, nslots: 0, nplanners: 0, setup: vec![], tasks: vec![], finale: vec![], sched: Sched { mode: Mode::Walk { mean: 10 }, seed: 1, fine: false, hot: 0 },
        env: EnvCfg::plain(), watch: false, fresh: false, bitcmp: false, math: false, budget: false, noalloc: false, leak: false, envcmp: false, noref: false,
    }
}
fn num_any(r: &mut Rng) -> Num { *r.pick(&[Num::Sim, Num::Sim, Num::F64, Num::F32]) }
fn sched(r: &mut Rng, fine: bool, total: u64) -> Sched {
    let k = if !fine { 1 } else if instrumented() { 6 } else { 20 };
    let mode = match r.us(10) {
        0 | 1 => Mode::Walk { mean: k * *r.pick(&[1, 2, 3, 5]) },
        2 | 3 => Mode::Walk { mean: k * *r.pick(&[10, 30, 100, 300]) },
        4 => Mode::Robin { quantum: k * *r.pick(&[1, 2, 3, 7, 20, 64]) },
        5 | 6 => Mode::Bursty { short: k * r.range(1, 4) as u64, long: k * r.range(50, 1500) as u64 },
        _ => {
            let d = r.range(1, 8);
            let mut points: Vec<u64> = (0..d).map(|_| r.below(total.max(2) * k)).collect();
            points.sort();
            points.dedup();
            Mode::Pct { points }
        }
    };
    Sched { mode, seed: r.u64() >> 16, fine, hot: if fine && instrumented() { *r.pick(&[0, 1, 1, 3, 10]) } else { 0 } }
}
/// schedule this run at the finest granularity?  Costly without callbacks, and only possible for native numbers
fn fine_grain(r: &mut Rng, plain: u64) -> bool { if instrumented() { r.chance(3, 5) } else { plain > 0 && r.chance(1, plain) } }
fn is_prime(n: usize) -> bool { n >= 2 && (2..).take_while(|d| d * d <= n).all(|d| n % d != 0) }
/// a length, with the shapes that select different code paths well represented
pub fn len_of(r: &mut Rng, max: usize) -> usize {
    let l = match r.us(10) {
        0 | 1 => 1 + r.us(12.min(max)),
        2 => 1 << r.us(usize::BITS as usize - 1 - max.leading_zeros() as usize + 1),
        3 => { let mut l = 1 + r.us(max); while !is_prime(l) && l > 2 { l -= 1; } l }
        4 => *r.pick(&[5, 6, 7, 9, 10, 11, 22, 24, 25, 26, 43, 44, 45, 46, 12, 48]),
        5 => 3 * (1 + r.us((max / 3).max(1))),
        _ => 1 + r.us(max),
    };
    l.min(max).max(1)
}
fn related(r: &mut Rng, l: usize, max: usize) -> usize {
    let x = match r.us(16) {
        0..=3 => l, 4 | 5 => 2 * l, 6 => l / 2, 7 => 2 * l + 1, 8 => l + 1, 9 => l.saturating_sub(1), 10 => 4 * l, 11 => 2 * (l + 1),
        // lengths that agree in their low bits, or in all but one
        12 => l ^ (1 << r.us(11)), 13 => l + (1 << r.us(11)),
        14 => l + 1, _ => l.saturating_sub(1),
    };
    x.min(max).max(1)
}
const SLOW: &[Fam] = &[Fam::Dct5, Fam::Dst5, Fam::Dct67, Fam::Dct8, Fam::Dst8];
fn fam(r: &mut Rng) -> Fam { if r.chance(1, 4) { *r.pick(FAMS) } else { *r.pick(&[Fam::T23, Fam::T4, Fam::Mdct, Fam::Dct1, Fam::Dst1, Fam::Dst67, Fam::T23]) } }
/// a composition of public constructors
pub fn recipe_t23(r: &mut Rng, max: usize, custom: bool) -> Recipe {
    let len = len_of(r, max);
    match r.us(if custom { 8 } else { 6 }) {
        0 => Recipe::Planned { fam: Fam::T23, len, win: Win::One },
        1 => Recipe::Naive { fam: Fam::T23, len: len.min(200), win: Win::One },
        2 => Recipe::ViaFft { fam: Fam::T23, len, fft: fft_src(r, len, custom) },
        3 => Recipe::Bfly { len: *r.pick(&[2, 3, 4, 8, 16]) },
        4 | 5 if max >= 4 => { let k = r.range(2, (max as f64).log2() as usize); split(r, 1 << k, custom) }
        _ => Recipe::Custom { fam: Fam::T23, len: len.min(64), need: need(r, len.min(64)) },
    }
}
fn need(r: &mut Rng, len: usize) -> usize { match r.us(6) { 0 => 0, 1 => len, 2 => len + 1, 3 => 3 * len + r.us(40), 4 => r.us(len + 1), _ => 2 * len } }
fn fft_src(r: &mut Rng, len: usize, custom: bool) -> FftSrc {
    match r.us(if custom && len <= CUSTOM_MAX { 4 } else { 2 }) { 0 => FftSrc::Planner, 1 => FftSrc::Scalar, _ => FftSrc::Custom { need: need(r, len) } }
}
/// exactly `len` (a power of two)
fn pow2(r: &mut Rng, len: usize, custom: bool) -> Recipe {
    match r.us(if custom && len <= 64 { 6 } else { 5 }) {
        0 => Recipe::Planned { fam: Fam::T23, len, win: Win::One },
        1 if len <= 256 => Recipe::Naive { fam: Fam::T23, len, win: Win::One },
        2 => Recipe::ViaFft { fam: Fam::T23, len, fft: fft_src(r, len, custom) },
        3 if matches!(len, 2 | 4 | 8 | 16) => Recipe::Bfly { len },
        5 => Recipe::Custom { fam: Fam::T23, len, need: need(r, len) },
        _ if len >= 4 => split(r, len, custom),
        _ => Recipe::Naive { fam: Fam::T23, len, win: Win::One },
    }
}
fn split(r: &mut Rng, len: usize, custom: bool) -> Recipe { Recipe::Split { half: Box::new(pow2(r, len / 2, custom)), quarter: Box::new(pow2(r, len / 4, custom)) } }
pub fn recipe_t4(r: &mut Rng, max: usize, custom: bool) -> Recipe {
    let len = len_of(r, max);
    match r.us(if custom { 8 } else { 6 }) {
        0 => Recipe::Planned { fam: Fam::T4, len, win: Win::One },
        1 => Recipe::Naive { fam: Fam::T4, len: len.min(200), win: Win::One },
        2 => Recipe::ViaFft { fam: Fam::T4, len: len | 1, fft: fft_src(r, len | 1, custom) },
        3..=5 => Recipe::T4Even { inner: Box::new(recipe_t23(r, (max / 2).max(1), custom)) },
        _ => Recipe::Custom { fam: Fam::T4, len: len.min(64), need: need(r, len.min(64)) },
    }
}
pub fn recipe(r: &mut Rng, max: usize, custom: bool) -> Recipe {
    match r.us(12) {
        0 | 1 => recipe_t23(r, max, custom),
        2 | 3 => recipe_t4(r, max, custom),
        4 | 5 => {
            let win = Win::gen(r);
            for _ in 0..20 { let i = recipe_t4(r, max, custom); if i.len() % 2 == 0 { return Recipe::MdctVia { inner: Box::new(i), win }; } }
            Recipe::Naive { fam: Fam::Mdct, len: 2 * (1 + r.us(max / 2 + 1)), win }
        }
        6 => { let l = len_of(r, max).max(2); Recipe::ViaFft { fam: Fam::Dct1, len: l, fft: fft_src(r, 2 * l, custom && l < 200) } }
        7 => { let l = len_of(r, max); Recipe::ViaFft { fam: Fam::Dst1, len: l, fft: fft_src(r, 2 * l, custom && l < 200) } }
        8 => { let l = len_of(r, max); Recipe::ViaFft { fam: Fam::Dst67, len: l, fft: fft_src(r, 2 * l, custom && l < 200) } }
        9 => { let f = *r.pick(FAMS); let l = len_of(r, max).min(300); Recipe::Naive { fam: f, len: f.fix_len(l), win: Win::gen(r) } }
        _ => { let f = fam(r); let l = len_of(r, max); Recipe::Planned { fam: f, len: f.fix_len(l), win: Win::gen(r) } }
    }
}

// ------------------------------------------------------------------ small builders
#[derive(Clone)]
struct SlotInfo { fam: Fam, len: usize }
fn call(slot: usize, kind: Kind, inp: Inp) -> Op { Op::Call { slot, kind, inp, scr: Scr::clean(), conv: false, place: Place::plain(), old: Inp::zeros(), deny: false, fault: Fault::None } }
fn plain_call(r: &mut Rng, slot: usize, f: Fam, ordinary: bool) -> Op {
    let kind = *r.pick(f.kinds());
    let old = if kind == Kind::Imdct && r.chance(1, 2) { Inp::gen(r, ordinary) } else { Inp::zeros() };
    Op::Call { slot, kind, inp: Inp::gen(r, ordinary), scr: Scr::clean(), conv: r.chance(1, 4), place: Place::plain(), old, deny: false, fault: Fault::None }
}
/// the same, sometimes with more scratch than required (clean)
fn roomy_call(r: &mut Rng, slot: usize, f: Fam, ordinary: bool) -> Op {
    let mut o = plain_call(r, slot, f, ordinary);
    if let Op::Call { scr, conv, .. } = &mut o { if !*conv && r.chance(1, 5) { scr.extra = *r.pick(&[1, 2, 3, 7, 16, 64, 300]); } }
    o
}
fn plan_op(r: &mut Rng, p: usize, f: Fam, len: usize, slot: usize) -> Op {
    let len = f.fix_len(len);
    Op::Plan { p, fam: f, req: Req::gen(r), len, win: Win::gen(r), slot, fault: Fault::None }
}
fn ppm(r: &mut Rng) -> u32 { if r.chance(1, 6) { *r.pick(&[0u32, 1, 500_000, 999_999, 1_000_000]) } else { r.us(1_000_001) as u32 } }
fn set_fault(op: &mut Op, f: Fault) {
    match op { Op::Plan { fault, .. } | Op::Build { fault, .. } | Op::Call { fault, .. } => *fault = f, _ => () }
}
fn bad(r: &mut Rng, planner: bool) -> (Bad, usize) {
    let len = if r.chance(1, 6) { 40 + r.us(400) } else { 1 + r.us(40) };
    let f5 = *r.pick(&[Fam::Dct1, Fam::Dst1, Fam::T23, Fam::T4, Fam::Dst67]);
    let b = match if planner { *r.pick(&[0, 1, 1, 1, 5]) } else { r.us(7) } {
        0 => Bad::OddMdct { planner },
        1 => {
            let even = (len + 1) & !1;
            let odd = r.us(200);
            Bad::WindowLen { planner, wlen: *r.pick(&[0, 1, even, 2 * even - 1, 2 * even + 1, 2 * even + 2, 2 * even - 2, 4 * even, odd]) }
        }
        2 => Bad::InverseFft { fam: f5 },
        3 => Bad::ParityFft { fam: *r.pick(&[Fam::Dct1, Fam::Dst1, Fam::T4, Fam::Dst67]) },
        4 => { let h = *r.pick(&[2usize, 4, 8, 16, 32, 6, 3, 12, 1, 64, 128, 256]); Bad::SplitMismatch { half: h, quarter: *r.pick(&[h, h / 2 + 1, 1, h * 2, 2, 4, 8, (h / 2).max(1), (h / 4).max(1)]) } }
        5 => Bad::Dct1One { planner },
        _ => Bad::OddInnerMdct,
    };
    (b, len)
}
fn bad_call(r: &mut Rng, slot: usize, f: Fam, len: usize) -> Op {
    let kind = *r.pick(f.kinds());
    let l = len as i64;
    let wrong = |r: &mut Rng| *r.pick(&[1i64, -1, 1, -1, l, -l, -(l / 2), 2 * l, 2, -2, 7, l + 1]);
    let mut d = vec![0i64; 4];
    match r.us(5) {
        0 | 1 => d[if f == Fam::Mdct { r.us(3) } else { 0 }] = wrong(r),
        2 | 3 => d[3] = *r.pick(&[-1i64, -1, -1, -2, -1_000_000, -l, -(l / 2)]),
        _ => { d[if f == Fam::Mdct { r.us(3) } else { 0 }] = wrong(r); d[3] = *r.pick(&[-1i64, 5, -1_000_000]); }
    }
    // MDCT: several slices wrong by the same amount (consistent with each other, not with the instance)
    if f == Fam::Mdct && r.chance(1, 4) { let w = wrong(r); d[0] = w; d[1] = w; d[2] = w; }
    // or by opposite amounts: a boundary in the wrong place
    if f == Fam::Mdct && r.chance(1, 3) { let w = wrong(r); let a = r.us(3); d = vec![0; 4]; d[a] = w; d[(a + 1 + r.us(2)) % 3] = -w; }
    if r.chance(1, 12) { let w = wrong(r); d = vec![0; 4]; d[0] = w; d[3] = -w; }
    if f != Fam::Mdct && d[0] != 0 && r.chance(1, 4) { d[3] = i64::MAX; }
    Op::BadCall { slot, kind, inp: Inp { class: *r.pick(&[0u8, 10, 12]), seed: r.u64() >> 16 }, delta: d, scr: Scr { class: *r.pick(&[0u8, 8, 4]), extra: 0, seed: 3 }, place: Place::plain() }
}

/// planners serving related requests: fills the setup and returns what is in which slot
fn setup_mix(r: &mut Rng, s: &mut RunSpec, planners: usize, per: usize, max: usize, builds: bool, custom: bool) -> Vec<SlotInfo> {
    let mut info = vec![];
    // sometimes nearly all requests are for one family, and the planners serve neighbouring lengths
    let focus = if r.chance(1, 3) { Some(*r.pick(FAMS)) } else { None };
    let mut basel = len_of(r, max);
    for p in 0..planners {
        s.setup.push(Op::NewPlanner { p });
        if p > 0 && r.chance(1, 2) { basel = len_of(r, max); }
        for _ in 0..per {
            let f = match focus { Some(f) if r.chance(3, 4) => f, _ => fam(r) };
            let mut l = related(r, basel, max);
            if SLOW.contains(&f) { l = l.min(120); }
            let l = f.fix_len(l);
            let op = plan_op(r, p, f, l, info.len());
            s.setup.push(op);
            info.push(SlotInfo { fam: f, len: l });
        }
    }
    if builds {
        for _ in 0..1 + r.us(2) {
            let rec = recipe(r, max.min(200), custom);
            info.push(SlotInfo { fam: rec.fam(), len: rec.len() });
            s.setup.push(Op::Build { rec, slot: info.len() - 1, fault: Fault::None });
        }
    }
    s.nslots = info.len();
    s.nplanners = planners;
    info
}
/// no transform long enough to make a run at the finest granularity slow
fn small(s: &RunSpec) -> bool {
    let ok = |o: &Op| match o { Op::Plan { len, fam, .. } => *len <= if SLOW.contains(fam) { 100 } else { 300 }, Op::Build { rec, .. } => rec.len() <= 100, _ => true };
    s.setup.iter().chain(s.tasks.iter().flatten()).all(ok)
}
fn est(s: &RunSpec) -> u64 {
    // rough number of steps of the concurrent phase
    let mut t = 0u64;
    for ops in &s.tasks { for o in ops { if let Op::Call { .. } = o { t += 400 } else { t += 100 } } }
    t.max(50)
}

/// where this process's share of the runs begins (both builds do the systematic runs)
pub static FIRST: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn gen(prop: &str, seed: u64, index: u64, thorough: bool) -> RunSpec {
    let pi = PROPS.iter().position(|p| *p == prop).unwrap() as u64;
    let mut r = Rng::new(mix2(mix2(seed, 0xD15C + pi), index));
    let r = &mut r;
    let index = index.saturating_sub(FIRST.load(std::sync::atomic::Ordering::SeqCst));
    let mut s = match prop {
        "C01" => c01(r, index, thorough),
        "C02" => c02(r, index),
        "C03" => c03(r, index),
        "C04" => c04(r, index),
        "C05" => c05(r, index),
        "C06" => c06(r, index),
        "C07" => c07(r, index),
        "C08" => c08(r, index),
        "C10" => c10(r, index),
        _ => c11(r, index),
    };
    if index >= SWEEP && r.chance(1, 25) { burst(r, &mut s, prop); }
    if prop == "C03" && r.chance(1, 6) { s.env.unwind = r.u64() | 1; }
    if r.chance(1, if prop == "C04" { 2 } else { 4 }) { echo(r, &mut s); }
    s
}
/// one instance is called very often; one planner gets the same requests very often
fn burst(r: &mut Rng, s: &mut RunSpec, prop: &str) {
    let fine = s.sched.fine;
    let cand: Vec<(usize, Fam, usize)> = s.setup.iter().filter_map(|o| match o {
        Op::Plan { slot, fam, len, fault: Fault::None, .. } => Some((*slot, *fam, *len)),
        Op::Build { slot, rec, fault: Fault::None, .. } => Some((*slot, rec.fam(), rec.len())),
        _ => None,
    }).filter(|c| c.2 <= if fine { 30 } else { 60 }).collect();
    if !cand.is_empty() {
        let (slot, f, len) = *r.pick(&cand);
        let times = if len <= 16 && !fine { *r.pick(&[40, 140, 270, 300, 530, 1030]) } else { *r.pick(&[20, 40, 70, 140, 270]) };
        let mode = match prop { "C06" => *r.pick(&[0u8, 1, 2, 2]), "C03" | "C08" | "C10" => *r.pick(&[0u8, 1, 2, 3, 3]), _ => r.us(2) as u8 };
        let op = Op::Burst { slot, kind: *r.pick(f.kinds()), inp: Inp { class: *r.pick(&[0u8, 0, 10, 12]), seed: r.u64() >> 16 }, times, mode, conv: r.chance(1, 4) };
        match r.us(3) {
            0 if !s.tasks.is_empty() => { let t = r.us(s.tasks.len()); let k = r.us(s.tasks[t].len() + 1); s.tasks[t].insert(k, op); }
            1 => { let mut v = vec![op]; v.append(&mut s.finale); s.finale = v; }
            _ => s.setup.push(op),
        }
        let again = plain_call(r, slot, f, true);
        if !s.finale.iter().any(|o| matches!(o, Op::Drop { .. })) { s.finale.push(again); }
    }
    if s.nplanners > 0 && prop != "C11" && prop != "C02" && r.chance(1, 2) && s.setup.iter().all(|o| match o { Op::Plan { len, .. } => *len <= 400, _ => true }) {
        s.setup.push(Op::Repeat { p: r.us(s.nplanners), times: *r.pick(&[20, 70, 140, 300]) });
    }
}
/// callers who transform the same data again, or data that differs in a detail only
fn echo(r: &mut Rng, s: &mut RunSpec) {
    let mut seen: Vec<Inp> = vec![];
    for o in s.setup.iter_mut().chain(s.tasks.iter_mut().flatten()).chain(&mut s.finale) {
        if let Op::Call { inp, .. } = o {
            if !seen.is_empty() && r.chance(3, 5) {
                let p = if r.chance(1, 2) { seen[seen.len() - 1].clone() } else { r.pick(&seen).clone() };
                if p.ordinary() || !inp.ordinary() { *inp = p.echo(r); }
            }
            seen.push(inp.clone());
        }
    }
}

/// slices of the length range that are visited systematically
fn sweep(i: u64, seed_off: usize) -> Option<(Fam, Vec<usize>)> {
    // per family: 1..=1000 in chunks of 25, then powers of two and neighbours
    let fams = FAMS.len() as u64;
    let f = FAMS[(i % fams) as usize];
    let c = i / fams;
    let slow = SLOW.contains(&f);
    if instrumented() && c >= 24 { return None; }
    if c < 40 {
        let a = 25 * c as usize + 1;
        let step = if slow && a > 300 { 5 } else { 1 };
        Some((f, (a..a + 25).filter(|l| step == 1 || l % step == (seed_off % step)).collect()))
    } else if c < 44 && !slow {
        let k = 10 + (c - 40) as usize;
        Some((f, vec![1 << k, (1 << k) + 1, (1 << k) - 1]))
    } else { None }
}
const SWEEP: u64 = 44 * 11;

fn c01(r: &mut Rng, index: u64, thorough: bool) -> RunSpec {
    let mut s = blank(num_any(r));
    s.math = true;
    s.noref = true;
    if index < SWEEP {
        // every length of every family, requested in random order from planners that have served something else before
        s.num = match index / 11 % 3 { 0 => Num::F64, 1 => Num::Sim, _ => Num::F32 };
        if let Some((f, lens)) = sweep(index, (index / 11) as usize) {
            s.nplanners = 1;
            s.setup.push(Op::NewPlanner { p: 0 });
            let mut lens = lens;
            r.shuffle(&mut lens);
            let mut done: Vec<(usize, usize)> = vec![];
            for l in lens {
                let l = f.fix_len(l);
                if r.chance(1, 3) { let (g, l2) = (fam(r), related(r, l, 2048).min(if SLOW.contains(&f) { 200 } else { 2048 })); s.setup.push(plan_op(r, 0, g, l2, s.nslots)); s.nslots += 1; }
                if r.chance(1, 30) { let (bad, len) = bad(r, true); s.setup.push(Op::BadReq { p: 0, bad, len }); }
                s.setup.push(plan_op(r, 0, f, l, s.nslots));
                done.push((s.nslots, l));
                s.nslots += 1;
                for &k in f.kinds() { s.setup.push(call(s.nslots - 1, k, Inp::gen(r, true))); }
                // an instance handed out earlier, or one requested again
                if r.chance(1, 4) { let (sl, l) = *r.pick(&done); if r.chance(1, 2) { s.setup.push(plain_call(r, sl, f, true)); } else { s.setup.push(plan_op(r, 0, f, l, s.nslots)); s.setup.push(plain_call(r, s.nslots, f, true)); s.nslots += 1; } }
            }
        }
        return s;
    }
    // histories
    if r.chance(1, 70) {
        // one planner serves hundreds of requests
        s.nplanners = 1;
        s.setup.push(Op::NewPlanner { p: 0 });
        let focus = if r.chance(1, 2) { Some(*r.pick(FAMS)) } else { None };
        let max = *r.pick(&[12, 30, 80, 150, 400]);
        let mut info: Vec<SlotInfo> = vec![];
        for _ in 0..300 + r.us(500) {
            let f = match focus { Some(f) if r.chance(4, 5) => f, _ => *r.pick(FAMS) };
            let l = f.fix_len(1 + r.us(if SLOW.contains(&f) { max.min(100) } else { max }));
            let op = plan_op(r, 0, f, l, info.len());
            s.setup.push(op);
            info.push(SlotInfo { fam: f, len: l });
            if r.chance(1, 4) { s.setup.push(plain_call(r, info.len() - 1, f, true)); }
            if r.chance(1, 8) { let k = r.us(info.len()); s.setup.push(plain_call(r, k, info[k].fam, true)); }
        }
        s.nslots = info.len();
        return s;
    }
    if r.chance(1, 40) {
        // lengths that agree in their low bits, far apart
        s.num = if r.chance(1, 2) { Num::F64 } else { Num::F32 };
        s.nplanners = 1;
        s.setup.push(Op::NewPlanner { p: 0 });
        let f = *r.pick(FAMS);
        let k = 11 + r.us(if SLOW.contains(&f) { 9 } else { 7 });
        let a = 1 + r.us(if SLOW.contains(&f) { 60 } else { 300 });
        let mut lens = vec![a, a + (1 << k), a + r.us(2), a + (1 << r.range(11, k))];
        r.shuffle(&mut lens);
        for l in lens {
            let l = f.fix_len(l);
            s.setup.push(plan_op(r, 0, f, l, s.nslots));
            s.nslots += 1;
            if l < 400 || !SLOW.contains(&f) && r.chance(1, 2) { s.setup.push(plain_call(r, s.nslots - 1, f, true)); }
        }
        return s;
    }
    s.noref = false;
    let np = 1 + r.us(2);
    s.nplanners = np;
    for p in 0..np { s.setup.push(Op::NewPlanner { p }); }
    let huge = r.chance(1, if thorough { 12 } else { 25 });
    let max = if huge { if !matches!(s.num, Num::Sim) && r.chance(1, 4) { 140_000 } else { 20000 } } else { *r.pick(&[16, 40, 100, 100, 300, 1200]) };
    let nb = 1 + r.us(4);
    let basel: Vec<usize> = (0..nb).map(|_| len_of(r, max)).collect();
    let ntasks = if r.chance(1, 3) && !huge { 2 + r.us(3) } else { 0 };
    let mut slots: Vec<SlotInfo> = vec![];
    let faulty = r.chance(1, 2);
    let sys_fault = !matches!(s.num, Num::Sim);
    let mut mdcts: Vec<(usize, usize, Win)> = vec![];
    let mut ops_for = |r: &mut Rng, s: &mut RunSpec, n: usize, out: &mut Vec<Op>| {
        let mut mine: Vec<usize> = vec![];
        for _ in 0..n {
            let p = r.us(np);
            match r.us(12) {
                0 if faulty => { let (b, len) = bad(r, true); out.push(Op::BadReq { p, bad: b, len }); }
                1 | 2 if !mine.is_empty() => { let k = *r.pick(&mine); out.push(plain_call(r, k, slots[k].fam, true)); }
                3 if !mdcts.is_empty() => {
                    // the same planner and length again, with a window that differs in a detail
                    let (p, l, w): (usize, usize, Win) = r.pick(&mdcts).clone();
                    let w = w.near(r);
                    let k = s.nslots;
                    s.nslots += 1;
                    slots.push(SlotInfo { fam: Fam::Mdct, len: l });
                    out.push(Op::Plan { p, fam: Fam::Mdct, req: Req::A, len: l, win: w.clone(), slot: k, fault: Fault::None });
                    out.push(plain_call(r, k, Fam::Mdct, true));
                    mdcts.push((p, l, w));
                    mine.push(k);
                }
                _ => {
                    let f = if huge { *r.pick(&[Fam::T23, Fam::T4, Fam::Mdct, Fam::Dct1, Fam::Dst1, Fam::Dst67]) } else if r.chance(1, 3) { *r.pick(FAMS) } else { fam(r) };
                    let l = f.fix_len({ let b = *r.pick(&basel); let x = related(r, b, max); if SLOW.contains(&f) { x.min(400) } else { x } });
                    let k = s.nslots;
                    s.nslots += 1;
                    slots.push(SlotInfo { fam: f, len: l });
                    let mut op = plan_op(r, p, f, l, k);
                    if let Op::Plan { fam: Fam::Mdct, win, len, .. } = &op { mdcts.push((p, *len, win.clone())); }
                    if faulty && r.chance(1, 5) {
                        let f = match r.us(if sys_fault { 3 } else { 5 }) { 0 => Fault::WinBefore, 1 => Fault::WinAfter, 2 => Fault::AllocFail { nth: r.us(60) as u64, forever: r.chance(1, 3) }, _ => Fault::Crash { ppm: ppm(r) } };
                        let mut failed = op.clone();
                        set_fault(&mut failed, f);
                        out.push(failed);
                        if r.chance(1, 3) { let g = related(r, l, max); let o = fam(r); s.nslots += 1; slots.push(SlotInfo { fam: o, len: o.fix_len(g) }); let sl = s.nslots - 1; let o2 = plan_op(r, p, o, g.min(400), sl); out.push(o2); slots[sl].len = o.fix_len(g.min(400)); mine.push(sl); }
                        if r.chance(3, 4) { set_fault(&mut op, Fault::None); out.push(op); }
                    } else { out.push(op); }
                    mine.push(k);
                    if r.chance(1, 2) { out.push(plain_call(r, k, f, true)); }
                }
            }
        }
        mine
    };
    let n0 = if huge { 3 + r.us(3) } else { 3 + r.us(14) };
    let mut v = vec![];
    let mut all = ops_for(r, &mut s, n0, &mut v);
    s.setup.append(&mut v);
    for _ in 0..ntasks {
        let mut v = vec![];
        let n = 2 + r.us(4);
        all.append(&mut ops_for(r, &mut s, n, &mut v));
        s.tasks.push(v);
    }
    let fg = fine_grain(r, 0) && small(&s); s.sched = sched(r, fg, est(&s) * 3);
    r.shuffle(&mut all);
    let lim = if huge { 4 } else { 40 };
    for k in all.into_iter().take(lim) { let f = slots[k].fam; let o = plain_call(r, k, f, true); s.finale.push(o); }
    if !faulty || huge { s.noref = true; }
    s
}

/// the systematic runs: 25 lengths of one family on one planner
fn swept(r: &mut Rng, s: &mut RunSpec, index: u64, cap: usize) -> Vec<SlotInfo> {
    let mut info = vec![];
    if let Some((f, lens)) = sweep(index, (index / 11) as usize) {
        s.nplanners = 1;
        s.setup.push(Op::NewPlanner { p: 0 });
        for l in lens {
            let l = f.fix_len(l);
            if l > cap || SLOW.contains(&f) && l > cap / 2 { continue; }
            s.setup.push(plan_op(r, 0, f, l, info.len()));
            info.push(SlotInfo { fam: f, len: l });
        }
        s.nslots = info.len();
    }
    info
}
fn c02(r: &mut Rng, index: u64) -> RunSpec {
    if index < SWEEP {
        // two callers go through the instances of every length together
        let mut s = blank(if instrumented() { num_any(r) } else { Num::Sim });
        s.bitcmp = true;
        let info = swept(r, &mut s, index, if instrumented() { 400 } else { 1100 });
        for _ in 0..2 { let mut v = vec![]; for (k, i) in info.iter().enumerate() { v.push(plain_call(r, k, i.fam, false)); } s.tasks.push(v); }
        let fg = instrumented() && r.chance(1, 2) && small(&s);
        s.sched = sched(r, fg, est(&s));
        return s;
    }
    if r.chance(1, 25) {
        // a caller who is overtaken by hundreds of calls on the same instance
        let mut s = blank(Num::Sim);
        s.bitcmp = true;
        let info = setup_mix(r, &mut s, 1, 1, 12, false, false);
        let (f, nt) = (info[0].fam, 1 + r.us(2));
        for _ in 0..nt {
            let mut v = vec![];
            for _ in 0..1 + r.us(2) { let mut o = plain_call(r, 0, f, true); set_fault(&mut o, Fault::Stall { ppm: ppm(r), dur: 4_000_000 }); v.push(o); }
            s.tasks.push(v);
        }
        for _ in 0..1 + r.us(2) { s.tasks.push(vec![Op::Burst { slot: 0, kind: *r.pick(f.kinds()), inp: Inp { class: *r.pick(&[0u8, 0, 10, 12]), seed: r.u64() >> 16 }, times: *r.pick(&[40, 140, 270, 300, 530, 1100]), mode: r.us(2) as u8, conv: r.chance(1, 4) }]); }
        s.sched = sched(r, false, 20_000);
        return s;
    }
    let fine = fine_grain(r, 12);
    let mut s = blank(if !fine { Num::Sim } else if instrumented() { num_any(r) } else { *r.pick(&[Num::F64, Num::F32]) });
    s.bitcmp = true;
    s.fresh = r.chance(1, 3);
    let max = if fine && instrumented() { *r.pick(&[8, 16, 24, 24, 40, 64, 130]) } else if fine { 24 } else { *r.pick(&[8, 20, 40, 40, 70, 130, 300, 1100]) };
    let big = max > 200;
    let (np, per) = (1 + r.us(2), if big { 1 + r.us(2) } else { 1 + r.us(4) });
    let info = setup_mix(r, &mut s, np, per, max, r.clone().chance(1, 3) && !big, false);
    // some runs: everybody on one instance
    let focus = if r.chance(1, 2) { Some(r.us(info.len())) } else { None };
    let same = if r.chance(1, 2) { focus.map(|k| *r.pick(info[k].fam.kinds())) } else { None };
    let nt = if fine { 2 + r.us(2) } else { 2 + r.us(5) };
    for _ in 0..nt {
        let mut v = vec![];
        for _ in 0..1 + r.us(if fine || big { 2 } else { 4 }) {
            let k = focus.filter(|_| r.chance(4, 5)).unwrap_or(r.us(info.len()));
            let mut o = roomy_call(r, k, info[k].fam, false);
            if let (Op::Call { kind, old, .. }, Some(kd)) = (&mut o, same) { if focus == Some(k) { *kind = kd; if kd == Kind::Imdct && r.chance(1, 2) { *old = Inp::gen(r, false); } } }
            v.push(o);
        }
        s.tasks.push(v);
    }
    // meanwhile somebody plans, and drops planners
    if r.chance(1, 3) && !fine {
        let mut v = vec![];
        for _ in 0..1 + r.us(3) {
            let p = r.us(np);
            let k = s.nslots;
            s.nslots += 1;
            let (b, f) = (info[r.us(info.len())].len, fam(r));
            let l = f.fix_len(related(r, b, max).min(200));
            v.push(plan_op(r, p, f, l, k));
            v.push(roomy_call(r, k, f, true));
        }
        if r.chance(1, 2) { v.push(Op::DropPlanner { p: r.us(np) }); }
        s.tasks.push(v);
    }
    s.sched = sched(r, fine, est(&s));
    for (k, i) in info.iter().enumerate() { if r.chance(1, 3) { s.finale.push(roomy_call(r, k, i.fam, false)); } }
    s
}

fn c03(r: &mut Rng, index: u64) -> RunSpec {
    if index < SWEEP {
        // a request, a call, and their retries, at every length
        let mut s = blank(Num::Sim);
        s.bitcmp = true;
        if let Some((f, lens)) = sweep(index, (index / 11) as usize) {
            s.nplanners = 1;
            s.setup.push(Op::NewPlanner { p: 0 });
            for l in lens {
                let l = f.fix_len(l);
                if SLOW.contains(&f) && l > 500 || instrumented() && l > 600 { continue; }
                let op = plan_op(r, 0, f, l, s.nslots);
                if r.chance(1, 2) { let mut o = op.clone(); set_fault(&mut o, match r.us(3) { 0 => Fault::AllocFail { nth: r.us(80) as u64, forever: r.chance(1, 3) }, 1 if f == Fam::Mdct => Fault::WinAfter, _ => Fault::Crash { ppm: ppm(r) } }); s.finale.push(o); }
                s.finale.push(op);
                let c = plain_call(r, s.nslots, f, false);
                let mut o = c.clone();
                set_fault(&mut o, Fault::Crash { ppm: ppm(r) });
                s.finale.push(o);
                if r.chance(1, 2) { s.finale.push(plain_call(r, s.nslots, f, false)); }
                s.finale.push(c);
                s.nslots += 1;
            }
        }
        return s;
    }
    let native = r.chance(1, 6);
    let mut s = blank(if native { *r.pick(&[Num::F64, Num::F32]) } else { Num::Sim });
    s.bitcmp = true;
    s.fresh = r.chance(1, 2);
    let max = *r.pick(&[8, 20, 40, 50, 70, 130, 300, 40, 50, 70, 2000]);
    let (np, per) = (1 + r.us(2), 1 + r.us(3));
    let info = setup_mix(r, &mut s, np, per, max, r.clone().chance(1, 2), true);
    let crash_call = |r: &mut Rng, k: usize, f: Fam| -> Op {
        let mut op = roomy_call(r, k, f, false);
        if let Op::Call { conv, fault, .. } = &mut op {
            if r.chance(1, if native { 2 } else { 5 }) { *conv = true; *fault = Fault::AllocFail { nth: r.us(6) as u64, forever: r.chance(1, 3) }; }
            else { *fault = Fault::Crash { ppm: ppm(r) }; }
        }
        op
    };
    let crash_plan = |r: &mut Rng, s: &mut RunSpec, info: &[SlotInfo], out: &mut Vec<Op>| {
        let p = r.us(np);
        let (b, f) = (info[r.us(info.len())].len, fam(r));
        let k = s.nslots;
        s.nslots += 1;
        let l = f.fix_len(related(r, b, max).min(300));
        let op = plan_op(r, p, f, l, k);
        let mut bad = op.clone();
        let fl = match r.us(if native { 3 } else { 6 }) { 0 => Fault::WinBefore, 1 => Fault::WinAfter, 2 => Fault::AllocFail { nth: r.us(80) as u64, forever: r.chance(1, 3) }, _ => Fault::Crash { ppm: ppm(r) } };
        set_fault(&mut bad, fl);
        out.push(bad);
        // something related in between, then the retry
        if r.chance(1, 2) { let g = fam(r); let l2 = g.fix_len(related(r, l, max).min(300)); let k2 = s.nslots; s.nslots += 1; out.push(plan_op(r, p, g, l2, k2)); out.push(roomy_call(r, k2, g, true)); }
        out.push(op);
        for _ in 0..1 + r.us(2) { out.push(roomy_call(r, k, f, true)); }
    };
    let mixed = |r: &mut Rng, s: &mut RunSpec, n: usize, pf: u64| -> Vec<Op> {
        let mut v = vec![];
        for _ in 0..n {
            let k = r.us(info.len());
            if r.chance(pf, 10) {
                if r.chance(1, 3) { crash_plan(r, s, &info, &mut v); }
                else { let c = crash_call(r, k, info[k].fam); let mut again = c.clone(); v.push(c); if r.chance(2, 3) { set_fault(&mut again, Fault::None); v.push(again); } }
            } else { v.push(roomy_call(r, k, info[k].fam, false)); }
        }
        v
    };
    let v = { let n = r.us(4); mixed(r, &mut s, n, 5) };
    s.setup.extend(v);
    if r.chance(2, 3) {
        for t in 0..2 + r.us(3) { let n = 1 + r.us(4); let v = mixed(r, &mut s, n, if t == 0 { 8 } else { 3 }); s.tasks.push(v); }
    } else { let n = 2 + r.us(8); let v = mixed(r, &mut s, n, 5); s.finale.extend(v); }
    let fg = fine_grain(r, 0) && small(&s); s.sched = sched(r, fg, est(&s));
    for (k, i) in info.iter().enumerate() { s.finale.push(roomy_call(r, k, i.fam, false)); if r.chance(1, 3) { s.finale.push(roomy_call(r, k, i.fam, false)); } }
    s
}

fn c04(r: &mut Rng, index: u64) -> RunSpec {
    let mut s = blank(num_any(r));
    s.bitcmp = true;
    s.fresh = true;
    let mut info: Vec<SlotInfo> = vec![];
    if index < SWEEP {
        // every length range of every family once
        if let Some((f, lens)) = sweep(index, 0) {
            s.nplanners = 1;
            s.fresh = false;
            s.setup.push(Op::NewPlanner { p: 0 });
            for l in lens { let l = f.fix_len(l); s.setup.push(plan_op(r, 0, f, l, info.len())); info.push(SlotInfo { fam: f, len: l }); }
            s.nslots = info.len();
        }
    } else {
        let max = *r.pick(&[8, 20, 40, 60, 60, 130, 300, 1500, 60, 9000]);
        let (np, per) = (r.us(2) + 1, if max > 200 { 1 } else { 1 + r.us(3) });
        info = setup_mix(r, &mut s, np, per, max, true, true);
    }
    if info.is_empty() { return s; }
    let dirty = |r: &mut Rng, k: usize, f: Fam| -> Op {
        let kind = *r.pick(f.kinds());
        let old = match kind { Kind::Mdct => Inp { class: *r.pick(&[0u8, 6, 8, 8, 12]), seed: r.u64() >> 16 }, Kind::Imdct => Inp::gen(r, false), _ => Inp::zeros() };
        Op::Call { slot: k, kind, inp: Inp::gen(r, false), scr: if r.chance(1, 8) { Scr { class: 0, extra: r.us(300), seed: 0 } } else { Scr::gen(r) }, conv: r.chance(1, 10), place: Place::gen(r), old, deny: false, fault: Fault::None }
    };
    if r.chance(1, 5) && info.len() < 20 {
        for _ in 0..2 + r.us(2) { let mut v = vec![]; for _ in 0..1 + r.us(3) { let k = r.us(info.len()); v.push(dirty(r, k, info[k].fam)); } s.tasks.push(v); }
        let fg = fine_grain(r, 0) && small(&s); s.sched = sched(r, fg, est(&s));
    }
    for (k, i) in info.iter().enumerate() {
        for &kind in i.fam.kinds() {
            let mut op = dirty(r, k, i.fam);
            if let Op::Call { kind: k2, old, .. } = &mut op { *k2 = kind; if kind == Kind::Mdct { *old = Inp { class: *r.pick(&[0u8, 6, 8, 8, 12]), seed: r.u64() >> 16 } } }
            s.finale.push(op);
        }
    }
    let big = info.iter().any(|i| i.len > 400);
    for _ in 0..if big { 0 } else { r.us(6) } { let k = r.us(info.len()); s.finale.push(dirty(r, k, info[k].fam)); }
    if r.chance(1, 2) {
        // one caller goes on with what its last call left behind, on (almost) the same data
        let k = r.us(info.len());
        let mut last: Option<Inp> = None;
        for _ in 0..if big { 2 } else { 2 + r.us(4) } {
            let mut o = dirty(r, k, info[k].fam);
            if let Op::Call { inp, scr, conv, .. } = &mut o {
                if let Some(l) = &last { *inp = l.echo(r); *scr = Scr { class: *r.pick(&[9u8, 9, 9, 10, 11, 12]), extra: if r.chance(1, 3) { r.us(50) } else { 0 }, seed: r.u64() >> 16 }; }
                *conv = false;
                last = Some(inp.clone());
            }
            s.finale.push(o);
        }
    }
    s
}

fn c05(r: &mut Rng, index: u64) -> RunSpec {
    let mut s = blank(num_any(r));
    s.bitcmp = true;
    s.noalloc = true;
    let mut info: Vec<SlotInfo> = vec![];
    if index < SWEEP {
        if let Some((f, lens)) = sweep(index, 1) {
            s.nplanners = 1;
            s.setup.push(Op::NewPlanner { p: 0 });
            let mut lens = lens;
            r.shuffle(&mut lens);
            for l in lens {
                let l = f.fix_len(l);
                if r.chance(1, 4) { let (g, l2) = (fam(r), related(r, l, 2048)); if !SLOW.contains(&g) { s.setup.push(plan_op(r, 0, g, l2, info.len())); info.push(SlotInfo { fam: g, len: g.fix_len(l2) }); } }
                s.setup.push(plan_op(r, 0, f, l, info.len()));
                info.push(SlotInfo { fam: f, len: l });
            }
            s.nslots = info.len();
        }
    } else if r.chance(3, 5) {
        let max = *r.pick(&[8, 20, 40, 64, 64, 130, 256, 1024]);
        let n = 1 + r.us(3);
        for k in 0..n {
            let rec = recipe(r, max, true);
            info.push(SlotInfo { fam: rec.fam(), len: rec.len() });
            s.setup.push(Op::Build { rec, slot: k, fault: Fault::None });
        }
        s.nslots = n;
    } else {
        let max = *r.pick(&[20, 60, 130, 600, 2500, 130, 600, 20000]);
        let (np, per) = (1, 2 + r.us(4));
        info = setup_mix(r, &mut s, np, per, max, true, true);
    }
    let exact = |r: &mut Rng, k: usize, kind: Kind| -> Op {
        let old = if kind == Kind::Imdct { Inp::gen(r, true) } else { Inp::zeros() };
        Op::Call { slot: k, kind, inp: Inp::gen(r, false), scr: Scr::clean(), conv: false, place: Place { mode: r.weighted(&[2, 2, 1]) as u8, off: r.us(8) as u8, gap: 4 }, old, deny: r.chance(2, 3), fault: Fault::None }
    };
    if r.chance(1, 6) && !info.is_empty() && info.len() < 20 {
        for _ in 0..2 + r.us(2) { let mut v = vec![]; for _ in 0..1 + r.us(2) { let k = r.us(info.len()); let kind = *r.pick(info[k].fam.kinds()); v.push(exact(r, k, kind)); } s.tasks.push(v); }
        let fg = fine_grain(r, 0) && small(&s); s.sched = sched(r, fg, est(&s));
    }
    for (k, i) in info.iter().enumerate() { for &kind in i.fam.kinds() { s.finale.push(exact(r, k, kind)); } }
    if info.len() < 10 { for (k, i) in info.iter().enumerate() { for &kind in i.fam.kinds() { if r.chance(1, 3) { s.finale.push(exact(r, k, kind)); } } } }
    s
}

fn c06(r: &mut Rng, index: u64) -> RunSpec {
    let mut s = blank(num_any(r));
    s.bitcmp = true;
    if index < SWEEP {
        // every length of every family
        if let Some((f, lens)) = sweep(index, (index / 11) as usize) {
            s.nplanners = 1;
            s.setup.push(Op::NewPlanner { p: 0 });
            for l in lens {
                let l = f.fix_len(l);
                s.setup.push(plan_op(r, 0, f, l, s.nslots));
                s.nslots += 1;
                for _ in 0..3 { s.finale.push(bad_call(r, s.nslots - 1, f, l)); }
            }
        }
        return s;
    }
    let max = *r.pick(&[6, 12, 24, 40, 70, 130, 300, 130, 70, 2500]);
    let (np, per) = (1 + r.us(2), 2 + r.us(4));
    let info = setup_mix(r, &mut s, np, per, max, true, true);
    let mixed = |r: &mut Rng, s: &mut RunSpec, n: usize| -> Vec<Op> {
        let mut v = vec![];
        for _ in 0..n {
            let k = r.us(info.len());
            match r.us(10) {
                0..=3 => { v.push(bad_call(r, k, info[k].fam, info[k].len)); if r.chance(1, 2) { v.push(plain_call(r, k, info[k].fam, false)); } }
                4 | 5 => { let pl = r.chance(1, 2); let (b, len) = bad(r, pl); v.push(Op::BadReq { p: r.us(np), bad: b, len }); }
                6 => {
                    // a planner that refused something is asked for the same length again, properly
                    let len = 2 + 2 * r.us(max / 2 + 1);
                    let p = r.us(np);
                    let wlen = *r.pick(&[0usize, 1, len, 2 * len - 1, 2 * len + 1, 4 * len]);
                    let k2 = s.nslots;
                    s.nslots += 1;
                    if r.chance(1, 3) { v.push(plan_op(r, p, Fam::Mdct, len, k2)); }
                    v.push(Op::BadReq { p, bad: Bad::WindowLen { planner: true, wlen }, len });
                    v.push(plan_op(r, p, Fam::Mdct, len, k2));
                    v.push(plain_call(r, k2, Fam::Mdct, true));
                }
                _ => v.push(plain_call(r, k, info[k].fam, false)),
            }
        }
        v
    };
    let v = { let n = r.us(4); mixed(r, &mut s, n) };
    s.setup.extend(v);
    if r.chance(1, 2) { for _ in 0..2 + r.us(2) { let n = 1 + r.us(4); let v = mixed(r, &mut s, n); s.tasks.push(v); } let fg = fine_grain(r, 0) && small(&s); s.sched = sched(r, fg, est(&s)); }
    let v = { let n = 3 + r.us(8); mixed(r, &mut s, n) };
    s.finale.extend(v);
    for (k, i) in info.iter().enumerate() { s.finale.push(bad_call(r, k, i.fam, i.len)); s.finale.push(plain_call(r, k, i.fam, false)); }
    s
}

fn c07(r: &mut Rng, index: u64) -> RunSpec {
    if index < SWEEP {
        let mut s = blank(num_any(r));
        s.bitcmp = true;
        s.watch = true;
        let info = swept(r, &mut s, index, if instrumented() { 700 } else { 9000 });
        let (mode, gap) = (r.weighted(&[4, 1, 1]) as u8, r.us(3) as u8);
        for (k, i) in info.iter().enumerate() {
            for &kd in i.fam.kinds() { let mut o = plain_call(r, k, i.fam, false); if let Op::Call { kind, place, .. } = &mut o { *kind = kd; *place = Place { mode, off: 0, gap }; } s.finale.push(o); }
        }
        return s;
    }
    let fine = fine_grain(r, 12);
    let mut s = blank(if fine && instrumented() { num_any(r) } else if fine { *r.pick(&[Num::F64, Num::F32]) } else if r.chance(1, 4) { *r.pick(&[Num::F64, Num::F32]) } else { Num::Sim });
    s.bitcmp = true;
    s.watch = true;
    let max = if fine && instrumented() { *r.pick(&[8, 20, 40, 60, 130]) } else if fine { 20 } else { *r.pick(&[8, 20, 40, 60, 130, 300, 60, 130, 1500]) };
    let (np, per) = (1, 1 + r.us(3));
    let info = setup_mix(r, &mut s, np, per, max, true, !fine || instrumented());
    let gap = *r.pick(&[0u8, 0, 1, 2, 3]);
    let mode = r.weighted(&[5, 1, 1]) as u8;
    let one = |r: &mut Rng, k: usize, f: Fam| -> Op {
        if r.chance(1, 10) { return match bad_call(r, k, f, info[k].len) { Op::BadCall { slot, kind, inp, delta, scr, .. } => Op::BadCall { slot, kind, inp, delta, scr, place: Place { mode, off: 0, gap } }, o => o }; }
        let mut op = plain_call(r, k, f, false);
        if let Op::Call { place, scr, fault, old, kind, .. } = &mut op {
            *place = Place { mode, off: 0, gap };
            if r.chance(1, 4) { scr.extra = r.us(40); }
            if *kind == Kind::Mdct && r.chance(1, 2) { *old = Inp::gen(r, true); }
            if (!fine || instrumented()) && r.chance(1, 8) { *fault = Fault::Crash { ppm: ppm(r) }; }
        }
        op
    };
    if fine || r.chance(3, 4) {
        for _ in 0..2 + r.us(if fine { 2 } else { 4 }) { let mut v = vec![]; for _ in 0..1 + r.us(if fine { 2 } else { 3 }) { let k = r.us(info.len()); v.push(one(r, k, info[k].fam)); } s.tasks.push(v); }
        s.sched = sched(r, fine, est(&s));
    }
    for (k, i) in info.iter().enumerate() { for &kd in i.fam.kinds() { let mut o = one(r, k, i.fam); if let Op::Call { kind, .. } = &mut o { *kind = kd; } s.finale.push(o); } }
    s
}

fn c08(r: &mut Rng, index: u64) -> RunSpec {
    if index < SWEEP {
        let mut s = blank(num_any(r));
        s.bitcmp = true;
        s.watch = true;
        s.leak = true;
        let info = swept(r, &mut s, index, if instrumented() { 700 } else { 5000 });
        if s.nplanners == 0 { return s; }
        if r.chance(1, 2) { s.finale.push(Op::Repeat { p: 0, times: 2 }); }
        let early = r.us(info.len() + 1);
        let mut order: Vec<usize> = (0..info.len()).collect();
        r.shuffle(&mut order);
        for (j, k) in order.into_iter().enumerate() {
            if j == early { s.finale.push(Op::DropPlanner { p: 0 }); }
            s.finale.push(plain_call(r, k, info[k].fam, false));
            s.finale.push(Op::Drop { slot: k });
        }
        s.finale.push(Op::DropPlanner { p: 0 });
        s.finale.push(Op::LeakCheck { p: 0 });
        return s;
    }
    let native = r.chance(1, 4);
    let mut s = blank(if native { *r.pick(&[Num::F64, Num::F32]) } else { Num::Sim });
    s.bitcmp = true;
    s.watch = true;
    s.leak = true;
    if r.chance(1, 40) {
        // one planner serves very many lengths, and all of them again
        s.watch = false;
        s.noref = true;
        s.bitcmp = false;
        s.nplanners = 1;
        s.nslots = 1;
        s.setup.push(Op::NewPlanner { p: 0 });
        let f = *r.pick(FAMS);
        let max = *r.pick(&[40, 100, 200, 300]);
        let mut lens: Vec<usize> = (1..=max).map(|l| f.fix_len(l)).collect();
        lens.sort(); lens.dedup();
        if r.chance(1, 2) { r.shuffle(&mut lens); }
        for l in lens {
            s.setup.push(plan_op(r, 0, f, l, 0));
            s.setup.push(Op::Drop { slot: 0 });
            if r.chance(1, 20) { let (b, len) = bad(r, true); s.setup.push(Op::BadReq { p: 0, bad: b, len }); }
        }
        for _ in 0..1 + r.us(3) { s.finale.push(Op::Repeat { p: 0, times: *r.pick(&[1, 2, 3, 8]) }); }
        s.finale.push(Op::DropPlanner { p: 0 });
        s.finale.push(Op::LeakCheck { p: 0 });
        return s;
    }
    let max = *r.pick(&[6, 12, 30, 50, 70, 130, 400, 30, 50, 2000]);
    let np = 1 + r.us(3);
    let per = 1 + r.us(4);
    let info = setup_mix(r, &mut s, np, per, max, r.clone().chance(1, 3), true);
    let shared = info.len();
    let of_planner = |k: usize| -> Option<usize> { if k < np * per { Some(k / per) } else { None } };
    // each task gets copies of its own and drops them when it likes
    let nt = if r.chance(2, 3) { 1 + r.us(4) } else { 0 };
    let mut copies: Vec<Vec<(usize, usize)>> = vec![];
    for _ in 0..nt {
        let mut c = vec![];
        for _ in 0..1 + r.us(3) { let k = r.us(shared); s.setup.push(Op::Copy { from: k, to: s.nslots }); c.push((s.nslots, k)); s.nslots += 1; }
        copies.push(c);
    }
    let abort = |r: &mut Rng, s: &mut RunSpec, out: &mut Vec<Op>| {
        let p = r.us(np);
        match r.us(4) {
            0 => { let (b, len) = bad(r, true); out.push(Op::BadReq { p, bad: b, len }); }
            1 => { let (b, len) = bad(r, false); out.push(Op::BadReq { p, bad: b, len }); }
            _ => {
                let f = fam(r);
                let l = f.fix_len(len_of(r, max).min(200));
                let mut op = plan_op(r, p, f, l, s.nslots);
                s.nslots += 1;
                set_fault(&mut op, match r.us(if native { 3 } else { 5 }) { 0 => Fault::WinBefore, 1 => Fault::WinAfter, 2 => Fault::AllocFail { nth: r.us(80) as u64, forever: r.chance(1, 3) }, _ => Fault::Crash { ppm: ppm(r) } });
                out.push(op);
            }
        }
    };
    let mut v = vec![];
    for _ in 0..r.us(4) { if r.chance(1, 2) { abort(r, &mut s, &mut v); } else { v.push(Op::Repeat { p: r.us(np), times: 1 + r.us(3) }); } }
    s.setup.extend(v);
    for c in &copies {
        let mut v = vec![];
        let mut left = c.clone();
        for _ in 0..2 + r.us(5) {
            match r.us(10) {
                0 if !left.is_empty() => { let i = r.us(left.len()); v.push(Op::Drop { slot: left.swap_remove(i).0 }); }
                1 => { let p = r.us(np); v.push(Op::DropPlanner { p }); v.push(Op::LeakCheck { p }); }
                2 => abort(r, &mut s, &mut v),
                _ => if !left.is_empty() { let (sl, k) = *r.pick(&left); let mut o = plain_call(r, sl, info[k].fam, false); if !native && r.chance(1, 6) { set_fault(&mut o, Fault::Crash { ppm: ppm(r) }); } v.push(o); },
            }
        }
        r.shuffle(&mut left);
        for (sl, _) in left { v.push(Op::Drop { slot: sl }); }
        s.tasks.push(v);
    }
    let fg = fine_grain(r, 0) && small(&s); s.sched = sched(r, fg, est(&s));
    // finale: drop in random order, planner somewhere in between, survivors must stay exact
    let mut order: Vec<usize> = (0..shared + np).collect();
    r.shuffle(&mut order);
    if r.chance(1, 2) { s.finale.push(Op::Repeat { p: r.us(np), times: 1 + r.us(3) }); }
    let mut alive: Vec<usize> = (0..shared).collect();
    for o in order {
        if o < shared {
            s.finale.push(Op::Drop { slot: o });
            alive.retain(|x| *x != o);
            if let Some(p) = of_planner(o) { s.finale.push(Op::LeakCheck { p }); }
        } else {
            s.finale.push(Op::DropPlanner { p: o - shared });
            s.finale.push(Op::LeakCheck { p: o - shared });
        }
        if !alive.is_empty() && r.chance(1, 2) { let k = *r.pick(&alive); s.finale.push(plain_call(r, k, info[k].fam, false)); }
    }
    s
}

fn c10(r: &mut Rng, index: u64) -> RunSpec {
    let mut s = blank(Num::Sim);
    s.budget = true;
    let fast = [Fam::T23, Fam::T4, Fam::Mdct, Fam::Dct1, Fam::Dst1, Fam::Dst67];
    if index < SWEEP {
        // every length, after whatever else the planner has served
        if instrumented() { s.num = num_any(r); }
        let info = swept(r, &mut s, index, if instrumented() { 1100 } else { 9000 });
        for (k, i) in info.iter().enumerate() { for &kd in i.fam.kinds() { s.finale.push(call(k, kd, Inp::gen(r, false))); } }
        return s;
    }
    let index = index - SWEEP;
    if index % 20_000 < 480 {
        // large lengths of every shape, after different histories; without simulated arithmetic only the build
        // with callbacks can measure, and it can afford longer ones
        let native = instrumented() && r.chance(1, 2);
        if native { s.num = *r.pick(&[Num::F64, Num::F32]); }
        let e = if native { 3 } else { 0 };
        let f = fast[(index % 6) as usize];
        let shape = index / 6;
        let prime = |r: &mut Rng, a: usize, w: usize| { let mut l = a + r.us(w); while !is_prime(l) { l += 1; } l };
        let l = match shape % 10 {
            0 => 1 << (9 + r.us(6 + e)),
            1 => prime(r, 1000 << e, 5000 << e),
            2 => 2 * prime(r, 1000 << e, 4000 << e),
            3 => (1 << (9 + r.us(5 + e))) + 1 - 2 * r.us(2),
            4 => 3usize.pow(6 + r.us(2 + e / 2) as u32),
            5 => (1000 << e) + r.us(7000 << e),
            6 => 4 * prime(r, 500 << e, 1000 << e),
            7 => (1 << (9 + r.us(4 + e))) - 1,
            8 => *r.pick(&[5usize, 7, 25, 49, 35, 125]) * 3usize.pow(r.range(4, 5 + e / 2) as u32) | 1,
            _ => 2 * 3 * 5 * 7 * (2 + r.us(40 << e)),
        };
        // a transform of that length, or one whose natural FFT has it
        let l = if r.chance(1, 2) { match f { Fam::Dct1 => (l + 1) / 2 + 1, Fam::Dst1 => (l + 1) / 2 - 1, Fam::Dst67 => (l - 1) / 2, Fam::T4 | Fam::Mdct => 2 * l, _ => l } } else { l };
        let l = f.fix_len(l);
        s.nplanners = 1;
        s.setup.push(Op::NewPlanner { p: 0 });
        // what the planner has served before: a little, or a lot (much of it for the family in question)
        let many = r.chance(1, 3);
        let k = if many { 8 + r.us(60) } else { r.us(4) };
        for i in 0..k {
            let g = if many && r.chance(2, 3) { f } else if r.chance(1, 3) { *r.pick(SLOW) } else { *r.pick(&fast) };
            let l2 = if many { 1 + r.us(120) } else { related(r, l, 9000 << e) };
            s.setup.push(plan_op(r, 0, g, l2, i));
        }
        s.setup.push(plan_op(r, 0, f, l, k));
        s.nslots = k + 1;
        for &kind in f.kinds() { s.finale.push(call(k, kind, Inp::gen(r, false))); }
        return s;
    }
    let max = *r.pick(&[8, 20, 40, 70, 130, 300, 1100]);
    let big = max > 200;
    let (np, per) = (1 + r.us(2), if big { 1 + r.us(2) } else { 1 + r.us(3) });
    let info = setup_mix(r, &mut s, np, per, max, r.clone().chance(1, 3) && !big, false);
    let focus = if r.chance(2, 3) { Some(r.us(info.len())) } else { None };
    let nt = 2 + r.us(4);
    for t in 0..nt {
        let mut v = vec![];
        for _ in 0..1 + r.us(if big { 2 } else { 3 }) {
            let k = focus.filter(|_| r.chance(4, 5)).unwrap_or(r.us(info.len()));
            let mut o = plain_call(r, k, info[k].fam, false);
            if t == 0 || r.chance(1, 4) {
                let f = match r.us(5) { 0 | 1 => Fault::Stall { ppm: ppm(r), dur: 0 }, 2 => Fault::Stall { ppm: ppm(r), dur: r.below(20_000) + 1 }, 3 => Fault::Crash { ppm: ppm(r) }, _ => Fault::None };
                set_fault(&mut o, f);
            }
            v.push(o);
        }
        s.tasks.push(v);
    }
    if r.chance(1, 3) {
        let mut v = vec![];
        for _ in 0..1 + r.us(2) {
            let p = r.us(np);
            let k = s.nslots;
            s.nslots += 1;
            let (b, f) = (info[r.us(info.len())].len, fam(r));
            let l = f.fix_len(related(r, b, max).min(200));
            let mut o = plan_op(r, p, f, l, k);
            if r.chance(1, 4) { set_fault(&mut o, Fault::Stall { ppm: ppm(r), dur: r.below(20_000) }); }
            v.push(o);
            v.push(plain_call(r, k, f, true));
        }
        s.tasks.push(v);
    }
    let fg = fine_grain(r, 0) && small(&s); s.sched = sched(r, fg, est(&s));
    for (k, i) in info.iter().enumerate() { if r.chance(1, 2) { s.finale.push(plain_call(r, k, i.fam, false)); } }
    s
}

fn c11(r: &mut Rng, index: u64) -> RunSpec {
    if index < SWEEP {
        let mut s = blank(num_any(r));
        s.bitcmp = true;
        s.envcmp = true;
        s.env = EnvCfg::random(r);
        let info = swept(r, &mut s, index, if instrumented() { 700 } else { 9000 });
        for (k, i) in info.iter().enumerate() {
            let mut o = plain_call(r, k, i.fam, false);
            if let Op::Call { place, .. } = &mut o { *place = Place { mode: 0, off: r.us(8) as u8, gap: 1 + r.us(16) as u8 }; }
            s.finale.push(o);
        }
        return s;
    }
    let mut s = blank(num_any(r));
    s.bitcmp = true;
    s.envcmp = true;
    s.env = EnvCfg::random(r);
    let max = *r.pick(&[10, 30, 60, 60, 130, 130, 300, 1500, 60, 130, 10000]);
    let big = max > 200;
    let (np, per) = (1 + r.us(2), if big { 1 + r.us(3) } else { 2 + r.us(5) });
    let info = setup_mix(r, &mut s, np, per, max, true, true);
    let place = |r: &mut Rng, o: &mut Op| if let Op::Call { place, .. } = o { *place = Place { mode: 0, off: r.us(8) as u8, gap: 1 + r.us(16) as u8 }; };
    // each planner is used by one thread at a time, in the same order everywhere
    if r.chance(1, 2) {
        for t in 0..2 + r.us(2) {
            let mut v = vec![];
            let p = s.nplanners;
            if t < 2 { s.nplanners += 1; v.push(Op::NewPlanner { p }); }
            for _ in 0..1 + r.us(if big { 2 } else { 4 }) {
                if t < 2 && r.chance(1, 2) {
                    let (b, f) = (info[r.us(info.len())].len, fam(r));
                    let l = f.fix_len(related(r, b, max).min(300));
                    let k = s.nslots;
                    s.nslots += 1;
                    v.push(plan_op(r, p, f, l, k));
                    let mut o = plain_call(r, k, f, false);
                    place(r, &mut o);
                    v.push(o);
                } else { let k = r.us(info.len()); let mut o = plain_call(r, k, info[k].fam, false); place(r, &mut o); v.push(o); }
            }
            s.tasks.push(v);
        }
        let fg = fine_grain(r, 0) && small(&s); s.sched = sched(r, fg, est(&s));
    }
    for (k, i) in info.iter().enumerate() {
        for &kd in i.fam.kinds() {
            if r.chance(2, 3) { let mut o = plain_call(r, k, i.fam, false); if let Op::Call { kind, .. } = &mut o { *kind = kd; } place(r, &mut o); s.finale.push(o); }
            else if r.chance(1, 6) { s.finale.push(bad_call(r, k, i.fam, i.len)); }
        }
    }
    s
}

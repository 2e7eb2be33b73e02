//! Runs batches of simulated runs in worker processes, minimises and replays violations, writes the evidence.
use crate::engine::Mode;
use crate::inst;
use crate::raw;
use crate::report::{self, rep, NSTAT, STAT_NAMES};
use crate::rng::{mix, mix2};
use crate::ser::{Rd, Ser};
use crate::spec::*;
use crate::stream::{self, Sact, StreamSpec};
use crate::world::{self, Pass};
use std::collections::HashSet;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

crate::inst::rec! { enum Spec { Run { r: RunSpec }, Stream { s: StreamSpec } } }

#[derive(Clone, Debug, PartialEq)]
pub enum Out { Ok, Violation(String, String), Harness(String) }

pub fn gen(prop: &str, seed: u64, index: u64, thorough: bool) -> Spec {
    if prop == "C09" { Spec::Stream { s: stream::gen(seed, index) } } else { Spec::Run { r: crate::props::gen(prop, seed, index, thorough) } }
}
/// seconds of real time without any operation begun or switch made after which a run counts as hung (what spins is
/// found by the watchdog long before); a run that is merely long is cut short without a verdict
static ALARM: AtomicU64 = AtomicU64::new(120);
static BEAT: AtomicU64 = AtomicU64::new(0);
static BELLS: AtomicU64 = AtomicU64::new(0);
unsafe extern "C" fn on_alarm(_s: i32, _i: *const u8, _u: *const u8) {
    let r = rep();
    let b = r.beats + r.stats[report::St::Ops as usize];
    let k = BELLS.fetch_add(1, SeqCst);
    if b != BEAT.swap(b, SeqCst) {
        if k >= 2 { r.stats[report::St::LongCut as usize] += 1; raw::_exit(0) }
    } else if k >= 1 { report::violation("hang", "no end in sight: no operation begun and no switch made for a long time, while library code ran") }
}
fn child(f: &dyn Fn()) -> Option<Out> {
    let pid = unsafe { raw::fork() };
    if pid < 0 { return Some(Out::Harness("fork failed".into())); }
    if pid == 0 {
        unsafe {
            raw::prctl(1, 9, 0, 0, 0);
            let sa = raw::SigAction { handler: on_alarm as *const () as usize, mask: [0; 16], flags: 0x1000_0000 | 4, restorer: 0 };
            raw::sigaction(14, &sa, std::ptr::null_mut());
            let half = ALARM.load(SeqCst) as i64 / 2;
            let t = [half, 0, half, 0];
            raw::setitimer(0, &t, std::ptr::null_mut());
        }
        f();
        unsafe { raw::_exit(0) }
    }
    let mut st = 0;
    unsafe { while raw::waitpid(pid, &mut st, 0) < 0 {} }
    if st == 0 { return None; }
    let r = rep();
    if st & 0x7f == 0 {
        match (st >> 8) & 0xff {
            42 if r.status == 2 => return Some(Out::Violation(report::class(), report::message())),
            43 if r.status == 3 => return Some(Out::Harness(report::message())),
            c => return Some(Out::Harness(format!("a run ended with exit code {}", c))),
        }
    }
    let sig = st & 0x7f;
    if sig == 9 { return Some(Out::Harness("a run was killed (out of memory?)".into())); }
    let what = match sig { 11 | 7 => "invalid memory access", 6 => "abort", 4 => "illegal instruction", 14 => "no end in sight", _ => "signal" };
    let class = if sig == 14 { "hang".to_string() } else { format!("signal-{}", sig) };
    Some(Out::Violation(class, format!("the process was killed by signal {} ({}) while library code ran", sig, what)))
}
pub fn run_once(spec: &Spec, record: bool) -> Out {
    report::reset();
    match spec {
        Spec::Run { r } => {
            let nops = r.setup.len() + r.tasks.iter().map(|t| t.len()).sum::<usize>() + r.finale.len() + 1;
            world::base_reset(nops);
            let go = |p: Pass| match r.num {
                Num::Sim => world::pass::<crate::num::Sim64>(r, p, record),
                Num::F64 => world::pass::<f64>(r, p, record),
                Num::F32 => world::pass::<f32>(r, p, record),
            };
            if !r.noref { if let Some(o) = child(&|| go(Pass::Ref)) { return o; } }
            let rp = rep();
            rp.digest = 0;
            rp.stats = [0; NSTAT];
            rp.steps = 0;
            if let Some(o) = child(&|| go(Pass::Run)) { return o; }
        }
        Spec::Stream { s } => {
            world::base_reset(s.streams.len() + 1);
            let go = |p: bool| match s.num {
                Num::Sim => stream::pass::<crate::num::Sim64>(s, p, record),
                Num::F64 => stream::pass::<f64>(s, p, record),
                Num::F32 => stream::pass::<f32>(s, p, record),
            };
            if let Some(o) = child(&|| go(true)) { return o; }
            let rp = rep();
            rp.digest = 0;
            rp.stats = [0; NSTAT];
            rp.steps = 0;
            if let Some(o) = child(&|| go(false)) { return o; }
        }
    }
    Out::Ok
}

// ------------------------------------------------------------------ workers
const MAXTRACES: usize = 1 << 20;
#[repr(C)]
struct Shared {
    runs: u64, stats: [u64; NSTAT], switches: u64, inner: u64, sim_time: u64, steps: u64, nontrivial: u64, maxerr: f64, digest: u64,
    bad_index: u64, bad_harness: u64, known: [u64; 16], ntraces: u64, done: u64, cur: u64,
    class: [u8; 64], class_n: u64, msg: [u8; 4096], msg_n: u64,
    traces: [u64; MAXTRACES],
}
pub struct Cfg { pub prop: String, pub seed: u64, pub thorough: bool, pub from: u64, pub runs: u64, pub workers: usize, pub max_secs: u64, pub dir: String, pub known: Vec<(String, String)>, pub label: String, pub minimise: bool }
#[derive(Default, Clone)]
pub struct Total { pub runs: u64, pub stats: Vec<u64>, pub switches: u64, pub inner: u64, pub sim_time: u64, pub steps: u64, pub nontrivial: u64, pub maxerr: f64, pub digest: u64, pub traces: HashSet<u64>, pub known: Vec<u64>, pub truncated: bool }

pub fn batch(c: &Cfg) -> (Total, Option<(u64, Out)>) {
    let w = c.workers;
    let sz = std::mem::size_of::<Shared>();
    let mem: Vec<*mut Shared> = (0..w).map(|_| raw::map_shared(sz) as *mut Shared).collect();
    let stop = raw::map_shared(4096) as *mut AtomicU64;
    unsafe { (*stop).store(u64::MAX, SeqCst) };
    let t0 = raw::now_ns();
    let mut pids = vec![];
    for k in 0..w {
        let pid = unsafe { raw::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe { raw::prctl(1, 9, 0, 0, 0) };
            raw::pin(k);
            report::init();
            world::base_init();
            let s = unsafe { let m = mem[k]; &mut *m };
            s.bad_index = u64::MAX;
            let mut i = c.from + k as u64;
            while i < c.from + c.runs {
                if i > unsafe { (*stop).load(SeqCst) } { break; }
                if (raw::now_ns() - t0) / 1_000_000_000 > c.max_secs { break; }
                s.cur = i;
                let spec = gen(&c.prop, c.seed, i, c.thorough);
                let o = run_once(&spec, false);
                let r = rep();
                s.runs += 1;
                for (a, b) in s.stats.iter_mut().zip(&r.stats) { *a += b }
                s.switches += r.switches;
                s.inner += r.inner_switches;
                s.sim_time += r.sim_time;
                s.steps += r.steps;
                let nt = r.inner_switches > 0 || r.nontrivial > 0 || faults(&r.stats) > 0 || r.stats[report::St::CheckedMath as usize] > 0 || r.stats[report::St::Compared as usize] > 0;
                if nt { s.nontrivial += 1; }
                if r.maxerr > s.maxerr { s.maxerr = r.maxerr; }
                s.digest ^= mix2(r.digest ^ r.trace, i);
                if nt && (s.ntraces as usize) < MAXTRACES { s.traces[s.ntraces as usize] = mix2(r.trace, r.digest); s.ntraces += 1; }
                match o {
                    Out::Ok => (),
                    Out::Violation(cl, m) => {
                        if let Some(j) = c.known.iter().position(|(kc, km)| *kc == cl && m.contains(km.as_str())) { s.known[j] += 1; i += w as u64; continue; }
                        set(s, &cl, &m);
                        s.bad_index = i;
                        unsafe { (*stop).fetch_min(i, SeqCst) };
                        break;
                    }
                    Out::Harness(m) => { set(s, "harness", &m); s.bad_index = i; s.bad_harness = 1; unsafe { (*stop).fetch_min(i, SeqCst) }; break; }
                }
                i += w as u64;
            }
            s.done = 1 + (i < c.from + c.runs) as u64;
            unsafe { raw::_exit(0) }
        }
        pids.push(pid);
    }
    for p in pids { let mut st = 0; unsafe { while raw::waitpid(p, &mut st, 0) < 0 {} } }
    let mut t = Total { stats: vec![0; NSTAT], known: vec![0; 16], ..Default::default() };
    let mut best: Option<(u64, Out)> = None;
    for m in &mem {
        let s = unsafe { &**m };
        t.runs += s.runs;
        for (a, b) in t.stats.iter_mut().zip(&s.stats) { *a += b }
        for (a, b) in t.known.iter_mut().zip(&s.known) { *a += b }
        t.switches += s.switches;
        t.inner += s.inner;
        t.sim_time += s.sim_time;
        t.steps += s.steps;
        t.nontrivial += s.nontrivial;
        t.maxerr = t.maxerr.max(s.maxerr);
        t.digest ^= s.digest;
        t.traces.extend(&s.traces[..s.ntraces as usize]);
        if s.done == 0 { best = Some((s.cur, Out::Harness("a worker process died".into()))); }
        if s.done == 2 && s.bad_index == u64::MAX && unsafe { (*stop).load(SeqCst) } == u64::MAX { t.truncated = true; }
        if s.bad_index != u64::MAX && s.done != 0 && best.as_ref().map_or(true, |b| s.bad_index < b.0) {
            let msg = String::from_utf8_lossy(&s.msg[..s.msg_n as usize]).into_owned();
            best = Some((s.bad_index, if s.bad_harness == 1 { Out::Harness(msg) } else { Out::Violation(String::from_utf8_lossy(&s.class[..s.class_n as usize]).into_owned(), msg) }));
        }
    }
    (t, best)
}
fn set(s: &mut Shared, c: &str, m: &str) {
    let n = c.len().min(64);
    s.class[..n].copy_from_slice(&c.as_bytes()[..n]);
    s.class_n = n as u64;
    let n = m.len().min(4096);
    s.msg[..n].copy_from_slice(&m.as_bytes()[..n]);
    s.msg_n = n as u64;
}
fn faults(st: &[u64]) -> u64 { STAT_NAMES.iter().zip(st).filter(|(n, _)| n.starts_with("fault_")).map(|(_, v)| *v).sum() }

// ------------------------------------------------------------------ minimising
struct Min { class: String, left: u32, t0: u64 }
impl Min {
    fn fails(&mut self, s: &Spec) -> bool {
        if self.left == 0 || raw::now_ns() - self.t0 > 60_000_000_000 { return false; }
        self.left -= 1;
        matches!(run_once(s, true), Out::Violation(c, _) if c == self.class)
    }
    /// with the schedule that was just recorded
    fn explicit(&mut self, s: &RunSpec) -> Option<RunSpec> {
        let r = rep();
        if r.slices_truncated != 0 { return None; }
        let sl: Vec<(u32, u64)> = r.slices[..r.nslices as usize].to_vec();
        let mut e = s.clone();
        e.sched.mode = Mode::Explicit { slices: sl };
        if self.fails(&Spec::Run { r: e.clone() }) { Some(e) } else { None }
    }
}
pub fn minimise(spec: &Spec, class: &str) -> Spec {
    let mut m = Min { class: class.to_string(), left: 600, t0: raw::now_ns() };
    ALARM.store(20, SeqCst);
    let s = match spec {
        Spec::Run { r } => Spec::Run { r: min_run(r, &mut m) },
        Spec::Stream { s } => Spec::Stream { s: min_stream(s, &mut m) },
    };
    ALARM.store(120, SeqCst);
    s
}
fn min_stream(s: &StreamSpec, m: &mut Min) -> StreamSpec {
    let mut best = s.clone();
    for round in 0..2 {
        for t in 0..best.nodes.len() {
            let mut chunk = (best.nodes[t].len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < best.nodes[t].len() {
                    let mut c = best.clone();
                    let e = (i + chunk).min(c.nodes[t].len());
                    c.nodes[t].drain(i..e);
                    if m.fails(&Spec::Stream { s: c.clone() }) { best = c; } else { i += chunk; }
                }
                if chunk == 1 { break; }
                chunk /= 2;
            }
        }
        for t in 0..best.nodes.len() {
            for i in 0..best.nodes[t].len() {
                let mut c = best.clone();
                let ch = match &mut c.nodes[t][i] {
                    Sact::Encode { crash, .. } if crash.is_some() => { *crash = None; true }
                    Sact::Apply { corrupt, crash, restart, .. } if *corrupt != 0 || crash.is_some() => { *corrupt = 0; *crash = None; *restart = false; true }
                    _ => false,
                };
                if ch && m.fails(&Spec::Stream { s: c.clone() }) { best = c; }
            }
        }
        if round == 0 {
            let mut c = best.clone();
            c.sched.mode = Mode::Explicit { slices: vec![] };
            if m.fails(&Spec::Stream { s: c.clone() }) { best = c; }
        }
    }
    best
}
fn ops(s: &mut RunSpec, l: usize) -> &mut Vec<Op> {
    let n = s.tasks.len();
    if l == 0 { &mut s.setup } else if l <= n { &mut s.tasks[l - 1] } else { &mut s.finale }
}
fn min_run(s: &RunSpec, m: &mut Min) -> RunSpec {
    let mut best = s.clone();
    let try_ = |m: &mut Min, best: &mut RunSpec, c: RunSpec| -> bool { if m.fails(&Spec::Run { r: c.clone() }) { *best = c; true } else { false } };
    for round in 0..3 {
        // whole tasks
        let mut t = 0;
        while t < best.tasks.len() {
            let mut c = best.clone();
            c.tasks.remove(t);
            if let Mode::Explicit { slices } = &mut c.sched.mode { slices.retain(|x| x.0 != t as u32); for x in slices.iter_mut() { if x.0 > t as u32 { x.0 -= 1 } } }
            if !try_(m, &mut best, c) { t += 1; }
        }
        // operations, in shrinking chunks, from the back
        for l in (0..best.tasks.len() + 2).rev() {
            let mut chunk = (ops(&mut best, l).len() / 2).max(1);
            loop {
                let mut i = ops(&mut best, l).len();
                while i > 0 {
                    let a = i.saturating_sub(chunk);
                    let mut c = best.clone();
                    ops(&mut c, l).drain(a..i);
                    try_(m, &mut best, c);
                    i = a;
                }
                if chunk == 1 { break; }
                chunk /= 2;
            }
        }
        // simpler operations
        for l in 0..best.tasks.len() + 2 {
            for i in 0..ops(&mut best, l).len() {
                for step in 0..6 {
                    let mut c = best.clone();
                    let mut ch = false;
                    match &mut ops(&mut c, l)[i] {
                        Op::Call { inp, scr, conv, place, old, deny, fault, .. } => match step {
                            0 if *fault != Fault::None => { *fault = Fault::None; ch = true }
                            1 if *inp != (Inp { class: 12, seed: 0 }) => { *inp = Inp { class: 12, seed: 0 }; ch = true }
                            2 if *scr != Scr::clean() => { *scr = Scr::clean(); ch = true }
                            3 if *place != Place::plain() => { *place = Place::plain(); ch = true }
                            4 if *old != Inp::zeros() => { *old = Inp::zeros(); ch = true }
                            5 if *conv || *deny => { *conv = false; *deny = false; ch = true }
                            _ => (),
                        },
                        Op::Plan { fault, .. } | Op::Build { fault, .. } if step == 0 && *fault != Fault::None => { *fault = Fault::None; ch = true }
                        _ => (),
                    }
                    if ch { try_(m, &mut best, c); }
                }
            }
        }
        if best.env != EnvCfg::plain() {
            for k in 0..6 {
                let mut c = best.clone();
                let p = EnvCfg::plain();
                match k {
                    0 => c.env = p,
                    1 => { c.env.entropy = p.entropy; c.env.stack = 0; }
                    2 => { c.env.shift = 0; c.env.reuse = false; c.env.fill = 0; c.env.skew = 0; }
                    3 => { c.env.clock = p.clock; c.env.clock_step = p.clock_step; }
                    4 => { c.env.vars = 0; c.env.warm = 0; }
                    _ => c.env.thread = false,
                }
                if c.env != best.env { try_(m, &mut best, c); }
            }
        }
        // the schedule
        if best.tasks.len() > 1 && !best.sched.fine {
            if round == 0 || !matches!(best.sched.mode, Mode::Explicit { .. }) {
                if m.fails(&Spec::Run { r: best.clone() }) { if let Some(e) = m.explicit(&best) { best = e; } }
            }
            if let Mode::Explicit { slices } = best.sched.mode.clone() {
                let mut c = best.clone();
                c.sched.mode = Mode::Explicit { slices: vec![] };
                if !try_(m, &mut best, c) {
                    let mut chunk = (slices.len() / 2).max(1);
                    loop {
                        let mut i = 0;
                        loop {
                            let Mode::Explicit { slices } = best.sched.mode.clone() else { break };
                            if i >= slices.len() { break; }
                            let mut v = slices.clone();
                            let e = (i + chunk).min(v.len());
                            v.drain(i..e);
                            // neighbours of the same task merge
                            let mut w: Vec<(u32, u64)> = vec![];
                            for x in v { if let Some(l) = w.last_mut() { if l.0 == x.0 { l.1 += x.1; continue; } } w.push(x); }
                            let mut c = best.clone();
                            c.sched.mode = Mode::Explicit { slices: w };
                            if !try_(m, &mut best, c) { i += chunk; }
                        }
                        if chunk == 1 { break; }
                        chunk /= 2;
                    }
                }
            }
        } else if best.tasks.is_empty() {
            let mut c = best.clone();
            c.sched.mode = Mode::Explicit { slices: vec![] };
            if c.sched != best.sched { try_(m, &mut best, c); }
        }
    }
    best
}

// ------------------------------------------------------------------ replay files
pub fn write_replay(path: &str, label: &str, prop: &str, seed: u64, index: u64, class: &str, msg: &str, spec: &Spec) {
    let mut o = String::new();
    let _ = writeln!(o, "dctsim-replay 1\nproperty {}\nbuild {}\nseed {} run {}\nclass {}\nmessage {}", prop, label, seed, index, class, msg.replace('\n', " "));
    let _ = writeln!(o, "--- readable");
    match spec {
        Spec::Run { r } => {
            let _ = writeln!(o, "number type {:?}, schedule {:?}", r.num, r.sched);
            for x in &r.setup { let _ = writeln!(o, "setup: {:?}", x); }
            for (t, v) in r.tasks.iter().enumerate() { for x in v { let _ = writeln!(o, "task {}: {:?}", t, x); } }
            for x in &r.finale { let _ = writeln!(o, "afterwards: {:?}", x); }
            if r.env != EnvCfg::plain() { let _ = writeln!(o, "environment: {:?}", r.env); }
        }
        Spec::Stream { s } => {
            let _ = writeln!(o, "number type {:?}, schedule {:?}", s.num, s.sched);
            for x in &s.streams { let _ = writeln!(o, "stream: {:?}", x); }
            for (t, v) in s.nodes.iter().enumerate() { for x in v { let _ = writeln!(o, "node {}: {:?}", t, x); } }
        }
    }
    let _ = writeln!(o, "--- data");
    spec.put(&mut o);
    o.push('\n');
    std::fs::write(path, o).expect("write replay file");
}
pub fn read_replay(path: &str) -> (String, String, Spec) {
    let t = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
    let field = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let data = t.split("--- data\n").nth(1).expect("replay file without data");
    (field("property "), field("class "), Spec::get(&mut Rd::new(data)))
}

// ------------------------------------------------------------------ evidence
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o.push('"');
    o
}
pub fn describe(s: &Spec) -> String {
    let mut o = String::new();
    match s {
        Spec::Run { r } => {
            let _ = write!(o, "{:?}; {:?}; setup {:?}; tasks {:?}; afterwards {:?}", r.num, r.sched, r.setup, r.tasks, r.finale);
        }
        Spec::Stream { s } => { let _ = write!(o, "{:?}; streams {:?}; nodes {:?}", s.num, s.streams, s.nodes); }
    }
    if o.len() > 1500 { let mut k = 1500; while !o.is_char_boundary(k) { k -= 1; } o.truncate(k); o.push_str(" ..."); }
    o
}
pub fn evidence(c: &Cfg, parts: &[(String, Total)], wall: f64, violations: u64, extra: &str) -> String {
    let mut t = Total { stats: vec![0; NSTAT], ..Default::default() };
    let mut labels = String::new();
    for (l, p) in parts {
        t.runs += p.runs;
        for (a, b) in t.stats.iter_mut().zip(&p.stats) { *a += b }
        t.switches += p.switches;
        t.inner += p.inner;
        t.sim_time += p.sim_time;
        t.steps += p.steps;
        t.nontrivial += p.nontrivial;
        t.maxerr = t.maxerr.max(p.maxerr);
        t.traces.extend(&p.traces);
        t.truncated |= p.truncated;
        let _ = write!(labels, "{}{}: {}", if labels.is_empty() { "" } else { ", " }, js(l), p.runs);
    }
    let get = |n: &str| t.stats[STAT_NAMES.iter().position(|x| *x == n).unwrap()];
    let mut f = String::new();
    let mut o2 = String::new();
    for (n, v) in STAT_NAMES.iter().zip(&t.stats) {
        if n.starts_with("fault_") || n.starts_with("placement_") { if *v > 0 { let _ = write!(f, "{}{}: {}", if f.is_empty() { "" } else { ", " }, js(n), v); } }
        else if *v > 0 { let _ = write!(o2, "{}{}: {}", if o2.is_empty() { "" } else { ", " }, js(n), v); }
    }
    let _ = get;
    let mut samples = String::new();
    for k in [0u64, 1, 2, 3, 5, 7, 500, 501] {
        let i = c.from + k;
        if k >= c.runs { continue; }
        if samples.matches("\"run ").count() >= 4 { break; }
        let s = gen(&c.prop, c.seed, i, c.thorough);
        let _ = write!(samples, "{}{}", if samples.is_empty() { "" } else { ", " }, js(&format!("run {}: {}", i, describe(&s))));
    }
    let tier = if c.thorough { "thorough" } else { "quick" };
    let rph = if wall > 0.0 { (t.runs as f64 * 3600.0 / wall) as u64 } else { 0 };
    format!(
        "{{\n \"property\": {}, \"tier\": \"{}\", \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"seeds_executed\": {},\n  \"runs_per_hour\": {},\n  \"runs_by_build\": {{{}}},\n  \"stopped_early_by_time_cap\": {},\n  \"simulated_time_ticks\": {},\n  \"steps_inside_calls\": {},\n  \"task_switches\": {},\n  \"task_switches_inside_library_calls\": {},\n  \"worst_rounding_in_envelopes\": {:.3},\n  \"faults_fired\": {{{}}},\n  \"counters\": {{{}}},\n  \"components\": {{\"real\": [\"rustdct (all of /repo/src, unmodified)\", \"rustfft\", \"num-complex\", \"std threads, Arc, HashMap, locks\"], \"simulated\": [\"scheduler (who runs, for how many steps)\", \"futex, sleep, yield\", \"global allocator\", \"hash seeds, clocks, environment variables\", \"number type Sim64 (f64 arithmetic with a scheduling, crash and stall point per operation) in runs of type Sim\", \"caller memory\"{}]}},\n  {}\"samples\": [{}]\n }},\n \"assumptions\": [\"seeded sampling of schedules, faults and inputs: a clean batch is evidence, not proof\", \"interleaving is at arithmetic-operation granularity for Sim64 and at machine-instruction granularity for runs marked fine; sequentially consistent memory\", \"x86-64 Linux, AVX as detected on this machine\"],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        js(&c.prop), tier, c.seed, t.runs, t.traces.len(),
        js("each run is generated from (VERIF_SEED, property, run index); distinct = different hash of (every task switch with the operation and step where it happened, every result bit pattern); all counted runs executed library calls whose outcome was checked"),
        t.runs, rph, labels, t.truncated, t.sim_time, t.steps, t.switches, t.inner, t.maxerr, f, o2,
        if c.prop == "C09" { ", \"channel (discrete-event)\", \"decoder stable storage\"" } else { "" }, extra, samples, wall, violations)
}
pub fn known(path: &str, prop: &str) -> Vec<(String, String, String)> {
    // finding: property=<id> class=<class> match=<<text>> <what fails>
    let Ok(t) = std::fs::read_to_string(path) else { return vec![] };
    t.lines().filter_map(|l| {
        let l = l.strip_prefix("finding: ")?;
        let p = l.split_whitespace().find_map(|w| w.strip_prefix("property="))?;
        if p != prop { return None; }
        let c = l.split_whitespace().find_map(|w| w.strip_prefix("class="))?;
        let a = l.find("match=<<")? + 8;
        let b = l[a..].find(">>")? + a;
        Some((c.to_string(), l[a..b].to_string(), l[b + 2..].trim().to_string()))
    }).collect()
}
pub fn selfhash(s: &Spec) -> u64 { let mut o = String::new(); s.put(&mut o); o.bytes().fold(7, |h, b| mix(h ^ b as u64)) }
pub const _K: usize = inst::CUSTOM_MAX;

//! What one simulated run does: a pure value, generated from a seed, written to and read from replay files.
use crate::engine::Sched;
use crate::inst::*;
use crate::rng::Rng;
pub use crate::umem::Place;

crate::inst::rec! { #[derive(Copy)] enum Num { Sim, F64, F32 } }
crate::inst::rec! { struct Inp { class: u8, seed: u64 } }
crate::inst::rec! { struct Scr { class: u8, extra: usize, seed: u64 } }
crate::inst::rec! {
    enum Fault {
        None,
        // panic in the number type, at this many millionths of the call's undisturbed step count
        Crash { ppm: u32 },
        AllocFail { nth: u64, forever: bool },
        WinBefore,
        WinAfter,
        Stall { ppm: u32, dur: u64 },
    }
}
crate::inst::rec! {
    enum Bad {
        OddMdct { planner: bool },
        WindowLen { planner: bool, wlen: usize },
        InverseFft { fam: Fam },
        ParityFft { fam: Fam },
        SplitMismatch { half: usize, quarter: usize },
        Dct1One { planner: bool },
        OddInnerMdct,
    }
}
crate::inst::rec! {
    enum Op {
        NewPlanner { p: usize },
        Plan { p: usize, fam: Fam, req: Req, len: usize, win: Win, slot: usize, fault: Fault },
        Build { rec: Recipe, slot: usize, fault: Fault },
        BadReq { p: usize, bad: Bad, len: usize },
        Call { slot: usize, kind: Kind, inp: Inp, scr: Scr, conv: bool, place: Place, old: Inp, deny: bool, fault: Fault },
        BadCall { slot: usize, kind: Kind, inp: Inp, delta: Vec<i64>, scr: Scr, place: Place },
        // many calls in a row: 0 the same input, 1 three inputs in turn, 2 refused calls and 3 aborted calls in between
        Burst { slot: usize, kind: Kind, inp: Inp, times: usize, mode: u8, conv: bool },
        Drop { slot: usize },
        Copy { from: usize, to: usize },
        DropPlanner { p: usize },
        Repeat { p: usize, times: usize },
        LeakCheck { p: usize },
        LeakCheckAll,
    }
}
crate::inst::rec! { struct EnvCfg { entropy: u64, shift: usize, reuse: bool, fill: u8, fill_seed: u64, skew: usize, clock: u64, clock_step: u64, vars: u64, stack: u64, warm: u64, thread: bool, unwind: u64 } }
crate::inst::rec! {
    struct RunSpec {
        num: Num,
        nslots: usize,
        nplanners: usize,
        setup: Vec<Op>,
        tasks: Vec<Vec<Op>>,
        finale: Vec<Op>,
        sched: Sched,
        env: EnvCfg,
        // check ownership and canaries at every switch
        watch: bool,
        // the reference results come from a freshly built world for every single call
        fresh: bool,
        bitcmp: bool,
        math: bool,
        budget: bool,
        noalloc: bool,
        leak: bool,
        // the run differs from the reference only in the environment: everything must be equal
        envcmp: bool,
        // no reference pass is needed
        noref: bool,
    }
}
impl EnvCfg {
    pub fn plain() -> EnvCfg { EnvCfg { entropy: 1, shift: 0, reuse: false, fill: 0, fill_seed: 0, skew: 0, clock: 1_000_000_000_000, clock_step: 1000, vars: 0, stack: 0, warm: 0, thread: false, unwind: 0 } }
    pub fn random(r: &mut Rng) -> EnvCfg {
        EnvCfg { entropy: r.u64(), shift: r.us(256) * 16, reuse: r.chance(1, 3), fill: r.us(3) as u8, fill_seed: r.u64(), skew: r.us(2), clock: r.u64() >> r.us(40),
            clock_step: if r.chance(1, 3) { r.u64() >> 20 } else { r.below(10_000_000) }, vars: if r.chance(1, 2) { r.u64() } else { 0 }, stack: r.u64(), warm: if r.chance(1, 2) { r.u64() } else { 0 }, thread: r.chance(1, 2), unwind: if r.chance(1, 3) { r.u64() | 1 } else { 0 } }
    }
}
impl Inp {
    pub fn zeros() -> Inp { Inp { class: 3, seed: 0 } }
    /// finite and of ordinary magnitude: the definition's rounding envelope applies
    pub fn ordinary(&self) -> bool { !matches!(self.class & 31, 5 | 6 | 8) }
    /// the same values again, or all but a detail of them
    pub fn echo(&self, r: &mut Rng) -> Inp { Inp { class: self.class & 31 | if r.chance(1, 4) { 0 } else { 1 + r.us(7) as u8 } << 5, seed: self.seed } }
    pub fn make(&self, n: usize, f32_range: bool) -> Vec<f64> {
        let mut v = self.base(n, f32_range);
        if n == 0 { return v; }
        match self.class >> 5 {
            0 => (),
            1 => v[n - 1] += 1.0,
            2 => v[n / 2] -= 1.0,
            3 => v[0] += 1.0,
            4 => { let i = (self.seed >> 7) as usize % n; v[i] = -0.5 - v[i]; }
            5 => for x in &mut v[n / 2..] { *x = -*x },
            6 => v.swap(0, n - 1),
            _ => for x in &mut v { *x = -*x },
        }
        v
    }
    fn base(&self, n: usize, f32_range: bool) -> Vec<f64> {
        let mut r = Rng::new(self.seed);
        let g = |r: &mut Rng| ((r.unit() * 2.0 - 1.0) as f32) as f64;
        match self.class & 31 {
            1 => { let mut v = vec![0.0; n]; if n > 0 { let i = r.us(n); v[i] = 1.0 + r.unit() as f32 as f64; } v }
            2 => { let c = g(&mut r); vec![c; n] }
            3 => vec![0.0; n],
            4 => { let c = g(&mut r); (0..n).map(|i| if i % 2 == 0 { c } else { -c }).collect() }
            5 => (0..n).map(|_| g(&mut r) * if f32_range { 1e-40 } else { 1e-310 }).collect(),
            6 => (0..n).map(|_| g(&mut r) * if f32_range { 1e37 } else { 1e300 }).collect(),
            7 => (0..n).map(|_| if r.chance(1, 5) { g(&mut r) } else { 0.0 }).collect(),
            8 => (0..n).map(|_| match r.us(6) { 0 => f64::NAN, 1 => f64::INFINITY, 2 => f64::NEG_INFINITY, _ => g(&mut r) }).collect(),
            9 => (0..n).map(|_| match r.us(3) { 0 => -0.0, 1 => 0.0, _ => g(&mut r) }).collect(),
            10 => (0..n).map(|_| r.us(17) as f64 - 8.0).collect(),
            11 => { let mut v = vec![0.0; n]; if n > 0 { v[n - 1] = -1.5; } v }
            12 => (0..n).map(|i| (i as f64 + 1.0) / 64.0).collect(),
            _ => (0..n).map(|_| g(&mut r)).collect(),
        }
    }
    pub fn gen(r: &mut Rng, ordinary: bool) -> Inp {
        let class = if ordinary { *r.pick(&[0u8, 0, 0, 0, 1, 2, 4, 7, 9, 10, 11, 12]) } else { *r.pick(&[0u8, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]) };
        Inp { class, seed: r.u64() >> 16 }
    }
}
impl Scr {
    pub fn clean() -> Scr { Scr { class: 0, extra: 0, seed: 0 } }
    pub fn dirty(&self) -> bool { self.class != 0 }
    /// filled with what this task's previous call left behind (9: its scratch, 10: the same, displaced,
    /// 11: its results) or with this call's own input (12)
    pub fn kept(&self) -> bool { self.class >= 9 }
    /// bit patterns to put into scratch (of an 8-byte float)
    pub fn make(&self, n: usize) -> Vec<f64> {
        let mut r = Rng::new(self.seed ^ 0x77);
        (0..n).map(|i| match self.class {
            0 => 0.0,
            1 => f64::NAN,
            2 => if r.chance(1, 2) { f64::INFINITY } else { f64::NEG_INFINITY },
            3 => { let b = r.u64(); f64::from_bits(if b & 0xffff_ffff_0000_0000 == 0x7ff4_dead_0000_0000 { 1 } else { b }) }
            4 => 1.0 + i as f64,
            5 => (r.unit() - 0.5) * 1e30,
            6 => f64::from_bits(r.u64() >> 12),
            7 => if i == (self.seed as usize % n.max(1)) { 3.0 } else { 0.0 },
            _ => r.unit() * 2.0 - 1.0,
        }).collect()
    }
    pub fn gen(r: &mut Rng) -> Scr {
        Scr { class: *r.pick(&[1u8, 2, 3, 4, 5, 6, 7, 8, 8, 9, 9, 10, 11, 12]), extra: match r.us(5) { 0 | 1 => 0, 2 => 1 + r.us(7), 3 => r.us(70), _ => r.us(700) }, seed: r.u64() >> 16 }
    }
}
pub trait GenWin { fn gen(r: &mut Rng) -> Win; fn near(&self, r: &mut Rng) -> Win; }
pub trait GenReq { fn gen(r: &mut Rng) -> Req; }
pub trait GenPlace { fn plain() -> Place; fn gen(r: &mut Rng) -> Place; }
impl GenPlace for Place {
    fn plain() -> Place { Place { mode: 0, off: 0, gap: 8 } }
    fn gen(r: &mut Rng) -> Place { Place { mode: r.weighted(&[4, 1, 1]) as u8, off: r.us(8) as u8, gap: *r.pick(&[0u8, 1, 2, 3, 5, 8, 16]) } }
}
impl GenWin for Win {
    fn gen(r: &mut Rng) -> Win {
        match r.us(10) { 0 => Win::Mp3, 1 => Win::Mp3Inv, 2 => Win::Vorbis, 3 => Win::VorbisInv, 4 => Win::One, 5 => Win::Inv, 6 | 7 => Win::Near { base: r.us(9) as u8, how: r.us(12) as u8, at: r.us(4096) as u64 }, _ => Win::Rand { seed: if r.chance(1, 2) { 6 + r.us(3) as u64 } else { r.us(1000) as u64 } } }
    }
    /// something a careless comparison could take for `self`
    fn near(&self, r: &mut Rng) -> Win {
        let base = match self { Win::Mp3 => 0, Win::Vorbis => 1, Win::One => 2, Win::Inv => 3, Win::Mp3Inv => 4, Win::VorbisInv => 5, Win::Rand { seed } if *seed < 256 && *seed > 5 => *seed as u8, Win::Near { base, .. } => *base, _ => return Win::gen(r) };
        if r.chance(1, 5) { return near_base(base); }
        Win::Near { base, how: r.us(12) as u8, at: r.us(4096) as u64 }
    }
}
impl GenReq for Req { fn gen(r: &mut Rng) -> Req { *r.pick(&[Req::A, Req::B, Req::C, Req::D]) } }

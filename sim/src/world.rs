//! One simulated process: planners, instances, callers, and the checks made on every operation.
use crate::alloc;
use crate::engine::{self, ctx, Injected, InjectedAlloc, FIRED_ALLOC, FIRED_CRASH, FIRED_STALL, FIRED_WIN};
use crate::inst::*;
use crate::{raw, report};
use crate::refr;
use crate::report::{watching, harness_error, rep, stat, violation, St};
use crate::rng::mix2;
use crate::spec::*;
use crate::umem::{self, Region};
use rustdct::rustfft::FftDirection;
use rustdct::DctPlanner;
use std::cell::UnsafeCell;

// ------------------------------------------------------------------ reference records (shared memory)
#[derive(Clone, Copy)]
#[repr(C)]
pub struct OpRec { pub status: u32, pub scratch: u32, pub steps: u64, pub work: u64, pub allocs: u64, pub off: u64, pub n: u64 }
pub const MAXOPS: usize = 4096;
pub const BASECAP: usize = 12 << 20;
#[repr(C)]
pub struct Base { pub top: u64, pub recs: [OpRec; MAXOPS], pub data: [u64; BASECAP] }
pub static mut BASE: *mut Base = std::ptr::null_mut();
pub fn base_init() { unsafe { BASE = raw::map_shared(std::mem::size_of::<Base>()) as *mut Base } }
#[allow(static_mut_refs)]
pub fn base() -> &'static mut Base { unsafe { &mut *BASE } }
pub fn base_reset(nops: usize) {
    if nops > MAXOPS { harness_error("too many operations in one run"); }
    let b = base();
    b.top = 0;
    for r in b.recs[..nops].iter_mut() { *r = OpRec { status: 0, scratch: 0, steps: 0, work: 0, allocs: 0, off: 0, n: 0 } }
}

// ------------------------------------------------------------------ what runs right now (for the switch hooks)
#[derive(Clone, Copy)]
struct Act { on: bool, n: usize, regs: [(Region, bool, u64); 4] }
const NOREG: Region = Region { ptr: 0, len: 0, pre: 0, post: 0, elem: 8 };
static mut ACT: [Act; 65] = [Act { on: false, n: 0, regs: [(NOREG, false, 0); 4] }; 65];
#[allow(static_mut_refs)]
fn acts() -> &'static mut [Act; 65] { unsafe { &mut ACT } }
fn check_act(i: usize, a: &Act, own: bool) {
    for k in 0..a.n {
        let (r, ro, h) = a.regs[k];
        if !r.guards_ok() { violation("canary", &format!("memory next to slice {} of the call of task {} was written", k, i as i64 - 1)); }
        if (ro || !own) && r.hash() != h {
            if own { violation("input-written", &format!("read-only input slice {} of a call was written", k)) }
            violation("foreign-write", &format!("slice {} of a call in progress (task {}) was written by another caller", k, i as i64 - 1));
        }
    }
    stat(St::Ownership, 1);
}
/// from here on every load and store of this thread's call is checked against its slices (build with callbacks)
fn guard(regs: &[(Region, bool, u64)]) {
    if !watching() { return; }
    let mut a = [(0usize, 0usize, false); 4];
    for (x, (r, ro, _)) in a.iter_mut().zip(regs) { *x = (r.ptr, r.ptr + r.len * r.elem, *ro); }
    ctx(|c| { c.regs.set(a); c.nreg.set(regs.len()); });
    if engine::instrumented() { stat(St::Accessed, 1); }
}
fn unguard() { ctx(|c| c.nreg.set(0)) }
fn hook_out(me: usize) {
    if !watching() { return; }
    let a = acts();
    for i in 1..65 {
        if !a[i].on { continue; }
        let act = a[i];
        check_act(i, &act, i == me + 1);
        if i == me + 1 { for k in 0..act.n { if !act.regs[k].1 { a[i].regs[k].2 = act.regs[k].0.hash(); } } }
    }
}
fn hook_in(me: usize) {
    if !watching() { return; }
    let act = acts()[me + 1];
    if act.on { check_act(me + 1, &act, false); }
}

// ------------------------------------------------------------------ entering and leaving the library
pub enum Stop { Fault, Refused(String) }
thread_local! { static PANIC_MSG: UnsafeCell<([u8; 240], usize)> = const { UnsafeCell::new(([0; 240], 0)) }; }
pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| {
        let (sut, tid) = ctx(|c| { c.no_yield.set(c.no_yield.get() + 1); c.unwinding.set(true); (c.in_sut.replace(0), c.tid.get()) });
        if sut == 0 {
            // the simulator itself failed
            harness_error(&format!("panic in the simulator (task {}): {}", tid, info));
        }
        let s = info.payload();
        let loc = info.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default();
        let m = if let Some(s) = s.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = s.downcast_ref::<String>() { s.clone() } else { "?".into() };
        let m = format!("{} at {}", m, loc);
        PANIC_MSG.with(|p| unsafe {
            let p = &mut *p.get();
            p.1 = m.len().min(240);
            p.0[..p.1].copy_from_slice(&m.as_bytes()[..p.1]);
        });
        drop(m);
        ctx(|c| { c.in_sut.set(sut); c.no_yield.set(c.no_yield.get() - 1); });
    }));
    std::alloc::set_alloc_error_hook(|l| {
        if ctx(|c| c.in_sut.get() > 0 && c.fired.get() & FIRED_ALLOC != 0) {
            ctx(|c| c.unwinding.set(true));
            std::panic::resume_unwind(Box::new(InjectedAlloc));
        }
        harness_error(&format!("out of memory: {} bytes", l.size()));
    });
    unsafe { engine::HOOKS = engine::Hooks { out: hook_out, inn: hook_in } };
    engine::install_trap();
}
fn panic_msg() -> String { PANIC_MSG.with(|p| unsafe { let p = &*p.get(); String::from_utf8_lossy(&p.0[..p.1]).into_owned() }) }

#[derive(Clone, Copy, Default)]
pub struct Arm { pub crash: Option<u64>, pub stall: Option<(u64, u64)>, pub budget: Option<u64>, pub work: Option<u64>, pub fail_from: Option<u64>, pub forever: bool }
pub struct Used { pub steps: u64, pub work: u64, pub allocs: u64, pub fired: u32 }

/// run library code
pub fn sut<R>(tag: u32, arm: Arm, f: impl FnOnce() -> R) -> (Result<R, Stop>, Used) {
    let fine = ctx(|c| c.fine.get());
    let (s0, a0, w0) = ctx(|c| {
        c.fired.set(0);
        c.tag.set(tag);
        c.heap_mark.set(alloc::mark());
        c.work_at.set(c.isteps.get() + arm.work.unwrap_or(engine::WORK_CAP));
        c.work_cap.set(arm.work.is_none());
        c.arm(arm.crash, arm.stall, arm.budget);
        let a0 = c.alloc_n.get();
        if let Some(k) = arm.fail_from {
            c.alloc_fail_from.set(a0 + k);
            c.alloc_fail_to.set(if arm.forever { u64::MAX } else { a0 + k + 1 });
        }
        c.op_start.set(c.steps.get());
        c.entries.set(c.entries.get() + 1);
        report::rep().beats += 1;
        c.in_sut.set(1);
        (c.steps.get(), a0, c.isteps.get())
    });
    if fine { engine::trap_on(); }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    if fine { engine::trap_off(); }
    let used = ctx(|c| {
        c.in_sut.set(0);
        c.work_at.set(engine::NEVER);
        c.disarm();
        c.alloc_fail_from.set(u64::MAX);
        c.alloc_fail_to.set(u64::MAX);
        c.unwinding.set(false);
        Used { steps: c.steps.get() - s0, work: c.isteps.get() - w0, allocs: c.alloc_n.get() - a0, fired: c.fired.get() }
    });
    let r = match r {
        Ok(v) => Ok(v),
        Err(p) => {
            let st = if p.is::<Injected>() || p.is::<InjectedAlloc>() { Stop::Fault } else { Stop::Refused(panic_msg()) };
            drop(p);
            Err(st)
        }
    };
    (r, used)
}
/// drop a library value
pub fn sut_drop<X>(tag: u32, x: X) {
    let (r, _) = sut(tag, Arm::default(), move || drop(x));
    if let Err(Stop::Refused(m)) = r { violation("drop-panicked", &format!("dropping an instance or planner panicked: {}", m)); }
}

// ------------------------------------------------------------------ the world
pub const TAG_BUILD: u32 = 40;
pub const TAG_WARM: u32 = 50;
pub struct PlannerSt<T: Lib> { pl: Option<DctPlanner<T>>, busy: bool, dirty: bool, served: Vec<(Fam, Req, usize, Win)> }
pub struct Slot<T: Lib> { inst: Option<Inst<T>>, fam: Fam, len: usize, win: Win, exact: bool, tag: u32, scratch: usize, planned: bool, base_steps: u64 }
#[derive(Clone, Copy, PartialEq)]
pub enum Pass { Ref, Run }
pub struct World<'a, T: Lib> {
    spec: &'a RunSpec,
    pass: Pass,
    planners: UnsafeCell<Vec<PlannerSt<T>>>,
    slots: UnsafeCell<Vec<Slot<T>>>,
    phase: UnsafeCell<u8>,
    /// what the previous call of every task left in its scratch, and its results
    left: UnsafeCell<Vec<[Vec<T>; 2]>>,
    keeps: bool,
}
unsafe impl<T: Lib> Sync for World<'_, T> {}

/// f runs in a destructor, while the thread unwinds
fn in_destructor(f: &mut dyn FnMut()) {
    struct G<'a>(&'a mut dyn FnMut());
    impl Drop for G<'_> { fn drop(&mut self) { (self.0)() } }
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _g = G(f); std::panic::resume_unwind(Box::new(0u8)) }));
}
fn lock_key(p: usize) -> usize { 0x1000 + p }
pub fn fires(u: &Used) -> bool { u.fired & (FIRED_CRASH | FIRED_ALLOC | FIRED_WIN) != 0 }
fn at(ppm: u32, steps: u64) -> Option<u64> { if steps == 0 { None } else { Some(1 + ((steps - 1) as u128 * ppm as u128 / 1_000_000) as u64) } }

pub const TOL: f64 = 6.0;
/// Upper bounds on the arithmetic steps of a call, and on its branches and memory accesses ("work", seen by the
/// build with callbacks): c n log n for the kinds the planner has fast algorithms for, c n^2 otherwise.  The
/// constants are about 2.4 times the largest cost over all lengths (`dctsim calib`), separately for lengths whose
/// natural FFT length has only the factors 2, 3, 5, 7 and for all others.
pub fn bounds(kind: Kind, planned: bool, n: usize, sim: bool) -> (u64, u64) {
    use Kind::*;
    let slow = matches!(kind, Dct5 | Dct6 | Dct7 | Dct8 | Dst5 | Dst8);
    let x = n as f64;
    if slow || !planned { return ((if slow { 8.0 } else { 40.0 } * x * x + 4000.0) as u64, (if slow { 70.0 } else { 500.0 } * x * x + 60000.0) as u64); }
    let wide = matches!(kind, Dct1 | Dst1 | Dst6 | Dst7);
    let mut q = match kind { Dct1 => 2 * (n - 1), Dst1 => 2 * (n + 1), Dst6 | Dst7 => 2 * n + 1, Dct4 | Dst4 | Mdct | Imdct if n % 2 == 0 => n / 2, _ => n }.max(1);
    for p in [2, 3, 5, 7] { while q % p == 0 { q /= p } }
    let (c, w, v) = match (q == 1, wide) { (true, true) => (40.0, 180.0, 160.0), (true, false) => (21.0, 100.0, 90.0), (false, true) => (220.0, 600.0, 360.0), (false, false) => (100.0, 300.0, 180.0) };
    let nl = x * (x + 2.0).log2();
    ((c * nl + 4000.0) as u64, (if sim { w } else { v } * nl + 60000.0) as u64)
}

impl<'a, T: Lib> World<'a, T> {
    pub fn new(spec: &'a RunSpec, pass: Pass) -> Self {
        World {
            spec, pass,
            planners: UnsafeCell::new((0..spec.nplanners).map(|_| PlannerSt { pl: None, busy: false, dirty: false, served: vec![] }).collect()),
            slots: UnsafeCell::new((0..spec.nslots).map(|_| Slot { inst: None, fam: Fam::T23, len: 0, win: Win::One, exact: false, tag: 0, scratch: 0, planned: false, base_steps: 0 }).collect()),
            phase: UnsafeCell::new(0),
            left: UnsafeCell::new((0..65).map(|_| [vec![], vec![]]).collect()),
            keeps: spec.setup.iter().chain(spec.tasks.iter().flatten()).chain(&spec.finale).any(|o| matches!(o, Op::Call { scr, .. } if scr.kept())),
        }
    }
    #[allow(clippy::mut_from_ref)]
    fn pl(&self, p: usize) -> &mut PlannerSt<T> { unsafe { &mut (&mut *self.planners.get())[p] } }
    #[allow(clippy::mut_from_ref)]
    fn slot(&self, s: usize) -> &mut Slot<T> { unsafe { &mut (&mut *self.slots.get())[s] } }
    pub fn set_phase(&self, x: u8) { unsafe { *self.phase.get() = x } }
    fn in_setup(&self) -> bool { unsafe { *self.phase.get() == 0 } }
    fn lock(&self, p: usize) {
        while self.pl(p).busy { engine::wait_lock(lock_key(p)); }
        self.pl(p).busy = true;
    }
    fn unlock(&self, p: usize) { self.pl(p).busy = false; engine::wake_lock(lock_key(p)); }
    fn strict(&self) -> bool { self.spec.math || self.spec.noalloc }

    pub fn exec(&self, id: usize, op: &Op) {
        ctx(|c| c.op.set(id as u32));
        engine::point();
        stat(St::Ops, 1);
        match op {
            Op::NewPlanner { p } => self.new_planner(*p),
            Op::Plan { p, fam, req, len, win, slot, fault } => self.plan(id, *p, *fam, *req, *len, win, *slot, fault),
            Op::Build { rec, slot, fault } => self.build(id, rec, *slot, fault),
            Op::BadReq { p, bad, len } => self.bad_req(*p, bad, *len),
            Op::Burst { slot, kind, inp, times, mode, conv } => self.burst(*slot, *kind, inp, *times, *mode, *conv),
            Op::Call { slot, kind, inp, scr, conv, place, old, deny, fault } if self.pass == Pass::Run && self.spec.env.unwind != 0 && mix2(self.spec.env.unwind, id as u64) % 4 == 0 => {
                stat(St::InDestructor, 1);
                in_destructor(&mut || self.call(id, *slot, *kind, inp, scr, *conv, place, old, *deny, fault));
            }
            Op::Call { slot, kind, inp, scr, conv, place, old, deny, fault } => self.call(id, *slot, *kind, inp, scr, *conv, place, old, *deny, fault),
            Op::BadCall { slot, kind, inp, delta, scr, place } => self.bad_call(*slot, *kind, inp, delta, scr, place),
            Op::Drop { slot } => self.drop_slot(*slot),
            Op::Copy { from, to } => {
                let f = self.slot(*from);
                let (i, fam, len, win, exact, tag, scratch, planned, bs) = (f.inst.clone(), f.fam, f.len, f.win.clone(), f.exact, f.tag, f.scratch, f.planned, f.base_steps);
                self.drop_slot(*to);
                *self.slot(*to) = Slot { inst: i, fam, len, win, exact, tag, scratch, planned, base_steps: bs };
            }
            Op::DropPlanner { p } => {
                self.lock(*p);
                let x = self.pl(*p).pl.take();
                if x.is_some() { stat(St::PlannerDrops, 1); sut_drop(1 + *p as u32, x); }
                self.unlock(*p);
            }
            Op::Repeat { p, times } => self.repeat(*p, *times),
            Op::LeakCheck { p } => self.leak_check(*p),
            Op::LeakCheckAll => {
                if self.pass != Pass::Run { return; }
                let any = unsafe { (*self.planners.get()).iter().any(|p| p.pl.is_some()) || (*self.slots.get()).iter().any(|s| s.inst.is_some()) };
                if any { return; }
                stat(St::LeakChecks, 1);
                let (b, n) = alloc::live_all();
                if b != 0 || n != 0 {
                    let who: Vec<String> = (0..alloc::NTAG as u32).filter(|&t| alloc::live(t) != (0, 0)).map(|t| format!("owner {}:{}", t, alloc::describe_live(t))).collect();
                    violation("leak", &format!("{} bytes in {} blocks still allocated after every planner and instance was dropped: {}", b, n, who.join("; ")));
                }
            }
        }
    }
    fn drop_slot(&self, s: usize) {
        let tag = self.slot(s).tag;
        if let Some(i) = self.slot(s).inst.take() { stat(St::Drops, 1); sut_drop(tag.max(1), i); }
    }
    fn new_planner(&self, p: usize) {
        self.lock(p);
        if let Some(x) = self.pl(p).pl.take() { sut_drop(1 + p as u32, x); }
        let (r, _) = sut(1 + p as u32, Arm::default(), T::new_planner);
        match r {
            Ok(x) => *self.pl(p) = PlannerSt { pl: Some(x), busy: true, dirty: false, served: vec![] },
            Err(_) => violation("plan-panicked", "DctPlanner::new panicked"),
        }
        self.unlock(p);
    }
    fn arm_for(&self, id: usize, f: &Fault) -> (Arm, WinFault) {
        let mut a = Arm::default();
        let mut w = WinFault::None;
        if self.pass == Pass::Ref { return (a, w); }
        let b = &base().recs[id];
        match f {
            Fault::None => (),
            Fault::Crash { ppm } => a.crash = at(*ppm, b.steps),
            Fault::Stall { ppm, dur } => a.stall = at(*ppm, b.steps).map(|x| (x, *dur)),
            Fault::AllocFail { nth, forever } => if b.allocs > 0 { a.fail_from = Some(nth % b.allocs); a.forever = *forever; },
            Fault::WinBefore => w = WinFault::PanicBefore,
            Fault::WinAfter => w = WinFault::PanicAfter,
        }
        (a, w)
    }
    fn note(&self, id: usize, status: u32, u: &Used, scratch: usize) {
        if self.pass == Pass::Ref {
            let r = &mut base().recs[id];
            r.status = status;
            r.steps = u.steps;
            r.work = u.work;
            r.allocs = u.allocs;
            r.scratch = scratch as u32;
        }
        rep().digest = mix2(rep().digest, mix2(id as u64, status as u64 ^ (scratch as u64) << 8));
    }
    fn plan(&self, id: usize, p: usize, fam: Fam, req: Req, len: usize, win: &Win, slot: usize, fault: &Fault) {
        self.lock(p);
        self.drop_slot(slot);
        let st = self.pl(p);
        if st.pl.is_none() { self.unlock(p); return; }
        stat(St::Plans, 1);
        let (arm, wf) = self.arm_for(id, fault);
        let tag = 1 + p as u32;
        let (r, u) = if self.spec.budget && self.pass == Pass::Ref {
            sut(tag, arm, || T::plan(&mut T::new_planner(), fam, req, len, win, wf))
        } else {
            sut(tag, arm, || T::plan(self.pl(p).pl.as_mut().unwrap(), fam, req, len, win, wf))
        };
        let st = self.pl(p);
        match r {
            Ok(i) => {
                // a fault that fired inside and was swallowed may have left a different (but valid) history
                if fires(&u) { st.dirty = true; }
                if i.len() != len {
                    if self.strict() || self.spec.bitcmp { violation("wrong-length", &format!("plan of {:?} length {} returned an instance of length {}", fam, len, i.len())); }
                }
                let scratch = i.scratch();
                self.note(id, 1, &u, scratch);
                if !st.served.iter().any(|x| x.0 == fam && x.2 == len && x.3 == *win) { st.served.push((fam, req, len, win.clone())); }
                // without SIMD, planning does not depend on what else was planned
                let exact = (self.in_setup() || self.spec.envcmp) && !st.dirty || T::SIM && !fires(&u);
                if self.pass == Pass::Run && exact && self.spec.envcmp && base().recs[id].scratch != scratch as u32 {
                    violation("scratch-len-differs", &format!("the instance for {:?} {} advertises scratch {} here and {} elsewhere", fam, len, scratch, base().recs[id].scratch));
                }
                *self.slot(slot) = Slot { inst: Some(i), fam, len, win: win.clone(), exact, tag, scratch, planned: true, base_steps: 0 };
            }
            Err(Stop::Fault) => { st.dirty = true; self.note(id, 3, &u, 0); }
            Err(Stop::Refused(m)) => {
                self.note(id, 2, &u, 0);
                if self.pass == Pass::Run && fires(&u) { st.dirty = true; self.unlock(p); return; }
                st.dirty = true;
                if self.strict() || (self.pass == Pass::Run && base().recs[id].status == 1) {
                    violation("plan-refused", &format!("a valid request ({:?} of length {}) was refused: {}", fam, len, m));
                }
            }
        }
        self.unlock(p);
    }
    fn build(&self, id: usize, rec: &Recipe, slot: usize, fault: &Fault) {
        self.drop_slot(slot);
        stat(St::Builds, 1);
        let (arm, wf) = self.arm_for(id, fault);
        let (r, u) = sut(TAG_BUILD, arm, || T::build(rec, wf));
        match r {
            Ok(i) => {
                let scratch = i.scratch();
                self.note(id, 1, &u, scratch);
                if i.len() != rec.len() && self.strict() { violation("wrong-length", &format!("{:?} has length {} instead of {}", rec, i.len(), rec.len())); }
                let exact = !fires(&u);
                if self.pass == Pass::Run && exact && self.spec.envcmp && base().recs[id].scratch != scratch as u32 {
                    violation("scratch-len-differs", &format!("{:?} advertises scratch {} here and {} elsewhere", rec, scratch, base().recs[id].scratch));
                }
                let planned = matches!(rec, Recipe::Planned { .. });
                *self.slot(slot) = Slot { inst: Some(i), fam: rec.fam(), len: rec.len(), win: rec.win(), exact, tag: TAG_BUILD, scratch, planned, base_steps: 0 };
            }
            Err(Stop::Fault) => self.note(id, 3, &u, 0),
            Err(Stop::Refused(m)) => {
                self.note(id, 2, &u, 0);
                if !fires(&u) && (self.strict() || (self.pass == Pass::Run && base().recs[id].status == 1)) {
                    violation("plan-refused", &format!("a valid construction ({:?}) was refused: {}", rec, m));
                }
            }
        }
    }
    /// construction requests that must be refused
    fn bad_req(&self, p: usize, bad: &Bad, len: usize) {
        if self.pass == Pass::Ref { return; }
        stat(St::BadBuilds, 1);
        let use_planner = matches!(bad, Bad::OddMdct { planner: true } | Bad::WindowLen { planner: true, .. } | Bad::Dct1One { planner: true });
        if use_planner {
            self.lock(p);
            if self.pl(p).pl.is_none() { self.unlock(p); return; }
        }
        let tag = if use_planner { 1 + p as u32 } else { TAG_BUILD };
        let w = Win::One;
        let odd = len | 1;
        let even = (len + 1) & !1;
        let (r, _) = sut(tag, Arm::default(), || -> Option<Inst<T>> {
            Some(match bad {
                Bad::OddMdct { planner: true } => T::plan(self.pl(p).pl.as_mut().unwrap(), Fam::Mdct, Req::A, odd, &w, WinFault::None),
                Bad::OddMdct { .. } => T::build(&Recipe::Naive { fam: Fam::Mdct, len: odd, win: w.clone() }, WinFault::None),
                Bad::OddInnerMdct => T::build(&Recipe::MdctVia { inner: Box::new(Recipe::Naive { fam: Fam::T4, len: odd, win: Win::One }), win: w.clone() }, WinFault::None),
                Bad::WindowLen { planner: true, wlen } => T::plan(self.pl(p).pl.as_mut().unwrap(), Fam::Mdct, Req::A, even, &w, WinFault::Len(if *wlen == 2 * even { wlen + 1 } else { *wlen })),
                Bad::WindowLen { wlen, .. } => {
                    let wf = WinFault::Len(if *wlen == 2 * even { wlen + 1 } else { *wlen });
                    if wlen % 2 == 0 { T::build(&Recipe::Naive { fam: Fam::Mdct, len: even, win: w.clone() }, wf) }
                    else { T::build(&Recipe::MdctVia { inner: Box::new(Recipe::Naive { fam: Fam::T4, len: even, win: Win::One }), win: w.clone() }, wf) }
                }
                Bad::InverseFft { fam } => T::via(*fam, fft_len(*fam, if *fam == Fam::T4 { odd } else { len.max(2) }), true),
                Bad::ParityFft { fam } => T::via(*fam, match fam { Fam::Dct1 | Fam::Dst1 => odd.max(5), _ => even }, false),
                Bad::SplitMismatch { half, quarter } => {
                    // (3 * 2^k halves are wrong whatever the quarter is)
                    if *half == 2 * *quarter && half.is_power_of_two() && *half > 1 { return None; }
                    T::build(&Recipe::Split { half: Box::new(Recipe::Naive { fam: Fam::T23, len: *half, win: Win::One }), quarter: Box::new(Recipe::Naive { fam: Fam::T23, len: *quarter, win: Win::One }) }, WinFault::None)
                }
                Bad::Dct1One { planner: true } => T::plan(self.pl(p).pl.as_mut().unwrap(), Fam::Dct1, Req::A, 1, &w, WinFault::None),
                Bad::Dct1One { .. } => T::build(&Recipe::Naive { fam: Fam::Dct1, len: 1, win: Win::One }, WinFault::None),
            })
        });
        match r {
            Ok(Some(i)) => violation("invalid-accepted", &format!("an invalid request ({:?}, {}) was accepted and yielded an instance of length {}", bad, len, i.len())),
            Ok(None) => (),
            Err(_) => stat(St::Refused, 1),
        }
        if use_planner { self.pl(p).dirty = true; self.unlock(p); }
    }

    // -------------------------------------------------------------- calls
    #[allow(clippy::too_many_arguments)]
    fn call(&self, id: usize, slot: usize, kind: Kind, inp: &Inp, scr: &Scr, conv: bool, place: &Place, old: &Inp, deny: bool, fault: &Fault) {
        let s = self.slot(slot);
        let Some(inst) = s.inst.clone() else { return };
        let (n, need, exact, tag, planned, win) = (s.len, s.scratch, s.exact, s.tag, s.planned, s.win.clone());
        if !s.fam.kinds().contains(&kind) { sut_drop(tag, inst); return; }
        if self.spec.noalloc && inst.scratch() != need { violation("scratch-len-changed", &format!("the advertised scratch length changed from {} to {}", need, inst.scratch())); }
        let isref = self.pass == Pass::Ref;
        let clean = Scr::clean();
        let plain = Place::plain();
        let unlimited = Scr { class: 0, extra: if self.spec.noalloc { 4096 + 8 * n } else { 0 }, seed: 0 };
        let scr = if isref { if self.spec.noalloc { &unlimited } else { &clean } } else { scr };
        let place = if isref { &plain } else { place };
        let conv = conv && !isref && !kind.is_mdct();
        stat(St::Calls, 1);
        if n >= 512 { stat(St::LoadTemp, 1); }
        // caller memory
        let f32r = T::EPS > 1e-10;
        let nin = if kind == Kind::Mdct { 2 * n } else { n };
        let x = inp.make(nin, f32r);
        let zero = Inp::zeros();
        let oldv = match kind {
            Kind::Mdct => (if isref { &zero } else { old }).make(n, f32r),
            Kind::Imdct => old.make(2 * n, f32r),
            _ => vec![],
        };
        let put = |r: &Region, v: &[f64]| unsafe { let d = r.slice::<T>(); for (a, b) in d.iter_mut().zip(v) { *a = T::of(*b) } };
        let mut regs = [(NOREG, false, 0u64); 4];
        let nreg = if kind.is_mdct() { 4 } else if conv { 1 } else { 2 };
        let slen = need + scr.extra;
        match kind {
            Kind::Mdct => {
                for (k, (len, v, ro)) in [(n, &x[..n], true), (n, &x[n..], true), (n, &oldv[..], false)].iter().enumerate() { regs[k] = (umem::get::<T>(*len, place), *ro, 0); put(&regs[k].0, v); }
            }
            Kind::Imdct => {
                for (k, (len, v, ro)) in [(n, &x[..], true), (n, &oldv[..n], false), (n, &oldv[n..], false)].iter().enumerate() { regs[k] = (umem::get::<T>(*len, place), *ro, 0); put(&regs[k].0, v); }
            }
            _ => { regs[0] = (umem::get::<T>(n, place), false, 0); put(&regs[0].0, &x); }
        }
        if !conv {
            let k = nreg - 1;
            regs[k] = (umem::get::<T>(slen, place), false, 0);
            if scr.kept() && !isref {
                let d = unsafe { regs[k].0.slice::<T>() };
                let l = &unsafe { &*self.left.get() }[(ctx(|c| c.tid.get()) + 1) as usize];
                let src: &[T] = match scr.class { 9 | 10 => &l[0], 11 => &l[1], _ => unsafe { regs[0].0.slice::<T>() } };
                let by = if scr.class == 10 { (scr.seed % 7) as usize } else { 0 };
                let m = src.len();
                for (i, a) in d.iter_mut().enumerate() { *a = if m == 0 { T::of(0.0) } else { src[(i + by) % m] } }
            } else { put(&regs[k].0, &scr.make(slen)); }
        }
        if !isref {
            if scr.dirty() && !conv && slen > 0 { stat(St::DirtyScratch, 1); }
            if scr.extra > 0 && !conv { stat(St::Oversize, 1); }
            if kind == Kind::Mdct && old.class != 3 { stat(St::DirtyOut, 1); }
            if conv { stat(St::NestedConv, 1); }
        }
        let tid = ctx(|c| c.tid.get());
        let me = (tid + 1) as usize;
        for r in regs[..nreg].iter_mut() { r.2 = r.0.hash(); }
        acts()[me] = Act { on: true, n: nreg, regs };
        let (mut arm, _) = self.arm_for(id, fault);
        if deny && !isref && !conv { arm.fail_from = Some(0); arm.forever = true; stat(St::AllocDenied, 1); }
        if self.spec.budget {
            let (mut b, mut w) = bounds(kind, planned, n, T::SIM);
            // the same call was made with a planner that had served nothing before
            if !isref && exact {
                b = b.min(3 * base().recs[id].steps + 8 * n as u64 + 256);
                w = w.min(4 * base().recs[id].work + 400 * n as u64 + 40_000);
            }
            if T::SIM { arm.budget = Some(b + 64); stat(St::Budgets, 1); }
            if engine::instrumented() { arm.work = Some(w); stat(St::WorkBudgets, 1); }
        }
        let sl = |k: usize| unsafe { regs[k].0.slice::<T>() };
        guard(&regs[..nreg]);
        let (r, u) = sut(tag, arm, || {
            if kind.is_mdct() { inst.run_mdct(kind, sl(0), sl(1), sl(2), sl(3)) }
            else if conv { inst.run(kind, sl(0), None) }
            else { inst.run(kind, sl(0), Some(sl(1))) }
        });
        unguard();
        rep().steps += u.steps;
        sut_drop(tag, inst);
        acts()[me].on = false;
        if watching() {
            for k in 0..nreg {
                if !regs[k].0.guards_ok() { violation("canary", &format!("{:?} of length {} wrote to memory next to slice {}", kind, n, k)); }
                if regs[k].1 && regs[k].0.hash() != regs[k].2 { violation("input-written", &format!("{:?} of length {} changed its read-only input", kind, n)); }
            }
        }
        if self.spec.noalloc && !conv && u.allocs > 0 && (r.is_ok() || u.fired & FIRED_ALLOC != 0) {
            violation("allocates", &format!("{:?} of length {} with caller scratch made {} heap allocations", kind, n, u.allocs));
        }
        let out = |k: usize| unsafe { regs[k].0.slice::<T>() as &[T] };
        let result = |f: &mut dyn FnMut(T)| match kind {
            Kind::Mdct => for &v in out(2) { f(v) },
            Kind::Imdct => { for &v in out(1) { f(v) } for &v in out(2) { f(v) } }
            _ => for &v in out(0) { f(v) },
        };
        if self.keeps && !isref {
            let l = &mut unsafe { &mut *self.left.get() }[me];
            if !conv { l[0].clear(); l[0].extend_from_slice(out(nreg - 1)); }
            l[1].clear();
            result(&mut |v| l[1].push(v));
        }
        let b = base();
        match r {
            Err(Stop::Fault) => { self.note(id, 3, &u, need); return; }
            Err(Stop::Refused(m)) => {
                self.note(id, 2, &u, need);
                if fires(&u) { return; }
                if self.strict() || (!isref && b.recs[id].status == 1) {
                    violation("call-refused", &format!("{:?} of length {} with buffers of the right length and scratch {} (advertised {}) panicked: {}", kind, n, slen, need, m));
                }
                return;
            }
            Ok(()) => self.note(id, 1, &u, need),
        }
        let mut h = 0u64;
        result(&mut |v| h = mix2(h, v.bits()));
        rep().digest = mix2(rep().digest, h);
        if isref {
            let off = b.top as usize;
            let mut k = 0;
            result(&mut |v| { if off + k < BASECAP { b.data[off + k] = v.bits(); } k += 1; });
            if off + k > BASECAP { harness_error("reference results do not fit"); }
            b.recs[id].off = off as u64;
            b.recs[id].n = k as u64;
            b.top += k as u64;
        } else if exact && self.spec.bitcmp && b.recs[id].status == 1 {
            stat(St::Compared, 1);
            let off = b.recs[id].off as usize;
            let mut k = 0;
            let mut bad: Option<(usize, T)> = None;
            result(&mut |v| { if v.bits() != b.data[off + k] && bad.is_none() { bad = Some((k, v)); } k += 1; });
            if let Some((k, v)) = bad {
                let w = T::from_bits(b.data[off + k]);
                violation("wrong-result", &format!("{:?} of length {}: element {} is {:e}, but {:e} when the same call runs alone from a clean state", kind, n, k, v.to(), w.to()));
            }
        }
        if (self.spec.math || (self.spec.bitcmp && !exact && !isref)) && inp.ordinary() && old.ordinary() {
            stat(St::CheckedMath, 1);
            self.math(kind, n, &win, &x, &oldv, &result, exact);
        }
        if u.fired & FIRED_STALL != 0 || scr.dirty() { rep().nontrivial += 1; }
    }
    fn math(&self, kind: Kind, n: usize, win: &Win, x: &[f64], old: &[f64], result: &dyn Fn(&mut dyn FnMut(T)), exact: bool) {
        let mut xi: Vec<f64> = x.iter().map(|v| T::of(*v).to()).collect();
        let w = if kind.is_mdct() { window_ref(win, 2 * n) } else { vec![] };
        if kind == Kind::Mdct { for (a, b) in xi.iter_mut().zip(&w) { *a *= *b } }
        let mut y = refr::eval(kind, n, &xi);
        let mut nrm = refr::norm(&xi);
        if kind == Kind::Mdct {
            // window values carry rounding errors relative to the largest one
            let wm = w.iter().fold(0.0f64, |a, b| a.max(b.abs()));
            nrm += 0.5 * wm * x.iter().map(|v| v * v).sum::<f64>().sqrt();
        }
        if kind == Kind::Imdct {
            let wm = w.iter().fold(0.0f64, |a, b| a.max(b.abs()));
            for (a, b) in y.iter_mut().zip(&w) { *a *= *b }
            nrm *= wm.max(1e-30);
            for (a, b) in y.iter_mut().zip(old) { *a += T::of(*b).to() }
            nrm += refr::norm(old) / 8.0;
        }
        let unit = refr::unit(T::EPS, n, nrm) + f64::MIN_POSITIVE;
        let mut k = 0;
        let mut worst = (0.0f64, 0usize, 0.0f64);
        result(&mut |v| {
            let e = (v.to() - y[k]).abs() / unit;
            let e = if e.is_nan() { f64::INFINITY } else { e };
            if e > worst.0 { worst = (e, k, v.to()); }
            k += 1;
        });
        if worst.0 > rep().maxerr { rep().maxerr = worst.0; }
        if worst.0 > TOL * 1.0 {
            violation("not-the-transform", &format!("{:?} of length {} (window {:?}): element {} is {:e}, the definition gives {:e} ({}; {:.1} times the rounding envelope)", kind, n, win, worst.1, worst.2, y[worst.1],
                if exact { "undisturbed planning history" } else { "disturbed planning history" }, worst.0));
        }
    }
    /// many calls in a row on one instance: the first result for each input is the reference for the rest
    fn burst(&self, slot: usize, kind: Kind, inp: &Inp, times: usize, mode: u8, conv: bool) {
        if self.pass == Pass::Ref { return; }
        let s = self.slot(slot);
        let Some(inst) = s.inst.clone() else { return };
        let (n, need, tag, planned) = (s.len, s.scratch, s.tag, s.planned);
        if !s.fam.kinds().contains(&kind) { sut_drop(tag, inst); return; }
        let conv = conv && !kind.is_mdct();
        let f32r = T::EPS > 1e-10;
        let (nin, nout) = match kind { Kind::Mdct => (2 * n, n), Kind::Imdct => (n, 2 * n), _ => (n, n) };
        let ins: Vec<Vec<f64>> = (0..if mode == 1 { 3u8 } else { 1 }).map(|k| Inp { class: inp.class & 31 | [0u8, 1, 5][k as usize] << 5, seed: inp.seed }.make(nin, f32r)).collect();
        let place = Place::plain();
        let bufs: Vec<Region> = match kind { Kind::Mdct | Kind::Imdct => vec![umem::get::<T>(n, &place), umem::get::<T>(n, &place), umem::get::<T>(n, &place), umem::get::<T>(need, &place)], _ => vec![umem::get::<T>(n, &place), umem::get::<T>(need, &place)] };
        let nreg = if conv { 1 } else { bufs.len() };
        let mut regs = [(NOREG, false, 0u64); 4];
        for k in 0..nreg { regs[k].0 = bufs[k]; }
        if kind == Kind::Mdct { regs[0].1 = true; regs[1].1 = true; }
        if kind == Kind::Imdct { regs[0].1 = true; }
        let sl = |k: usize| unsafe { bufs[k].slice::<T>() };
        for v in sl(bufs.len() - 1) { *v = T::of(0.0) }
        let mut first: Vec<(u64, u64, u64)> = vec![];
        let mut rng = crate::rng::Rng::new(inp.seed ^ 0xB0);
        for k in 0..times {
            let x = &ins[k % ins.len()];
            let disturb = mode >= 2 && k % 3 == 1;
            match kind {
                Kind::Mdct => for (i, v) in x.iter().enumerate() { sl(i / n)[i % n] = T::of(*v) },
                Kind::Imdct => { for (a, v) in sl(0).iter_mut().zip(x) { *a = T::of(*v) } for j in 1..3 { for a in sl(j) { *a = T::of(0.0) } } }
                _ => for (a, v) in sl(0).iter_mut().zip(x) { *a = T::of(*v) },
            }
            let cut = if disturb && mode == 2 { 1 } else { 0 };
            let mut arm = Arm::default();
            let f = first.get(k % ins.len()).copied();
            if disturb && mode == 3 && T::SIM { arm.crash = f.and_then(|f| at(rng.us(1_000_001) as u32, f.1)); }
            if self.spec.budget && !disturb {
                let (mut b, mut w) = bounds(kind, planned, n, T::SIM);
                if let Some(f) = f { b = b.min(3 * f.1 + 8 * n as u64 + 256); w = w.min(4 * f.2 + 400 * n as u64 + 40_000); }
                if T::SIM { arm.budget = Some(b + 64); }
                if engine::instrumented() { arm.work = Some(w); }
            }
            stat(St::BurstCalls, 1);
            guard(&regs[..nreg]);
            let (r, u) = sut(tag, arm, || {
                if kind.is_mdct() { let a = sl(0); let l = a.len() - cut; inst.run_mdct(kind, &mut a[..l], sl(1), sl(2), sl(3)) }
                else if conv { inst.run(kind, sl(0), None) }
                else { let a = sl(0); let l = a.len() - cut; inst.run(kind, &mut a[..l], Some(sl(1))) }
            });
            unguard();
            rep().steps += u.steps;
            if self.spec.noalloc && !conv && u.allocs > 0 && r.is_ok() { violation("allocates", &format!("{:?} of length {} with caller scratch made {} heap allocations (call {} in a row)", kind, n, u.allocs, k)); }
            match r {
                Err(Stop::Fault) => continue,
                Err(Stop::Refused(m)) => { if !fires(&u) && !(cut == 1 && !conv) { violation("call-refused", &format!("call {} in a row of {:?}, length {}, panicked: {}", k, kind, n, m)); } continue; }
                Ok(()) if cut == 1 && !conv => violation("not-refused", &format!("{:?} of length {} accepted a slice that is too short (call {} in a row)", kind, n, k)),
                Ok(()) => (),
            }
            let mut h = 0u64;
            match kind { Kind::Mdct => for v in sl(2) { h = mix2(h, v.bits()) }, Kind::Imdct => for j in 1..3 { for v in sl(j) { h = mix2(h, v.bits()) } }, _ => for v in sl(0) { h = mix2(h, v.bits()) } }
            match f {
                None if first.len() == k => { first.push((h, u.steps, u.work)); rep().digest = mix2(rep().digest, h); }
                Some(f) if f.0 != h => violation("wrong-result", &format!("{:?} of length {}: call {} in a row gives another result than the first one did for the same input", kind, n, k)),
                _ => (),
            }
        }
        let _ = nout;
        sut_drop(tag, inst);
        if watching() { for k in 0..nreg { if !bufs[k].guards_ok() { violation("canary", &format!("{:?} of length {} wrote to memory next to slice {}", kind, n, k)); } } }
    }
    fn bad_call(&self, slot: usize, kind: Kind, inp: &Inp, delta: &[i64], scr: &Scr, place: &Place) {
        if self.pass == Pass::Ref { return; }
        let s = self.slot(slot);
        let Some(inst) = s.inst.clone() else { return };
        let (n, need, tag) = (s.len, s.scratch, s.tag);
        if !s.fam.kinds().contains(&kind) { sut_drop(tag, inst); return; }
        let mut d = [0i64; 4];
        for (a, b) in d.iter_mut().zip(delta) { *a = *b }
        let nb = if kind.is_mdct() { 3 } else { 1 };
        let conv = !kind.is_mdct() && d[3] == i64::MAX;
        let mut lens = [0usize; 4];
        for k in 0..nb { lens[k] = (n as i64 + d[k].max(-(n as i64))) as usize; }
        lens[3] = if conv { 0 } else { (need as i64 + d[3].clamp(-(need as i64), 1 << 20)) as usize };
        let buf_bad = (0..nb).any(|k| lens[k] != n);
        if !buf_bad && (conv || lens[3] >= need) { lens[0] = n + 1; }
        stat(St::BadCalls, 1);
        let nreg = if kind.is_mdct() { 4 } else if conv { 1 } else { 2 };
        let mut regs = [(NOREG, false, 0u64); 4];
        for k in 0..nreg {
            let l = if k == nreg - 1 && !conv { lens[3] } else { lens[k] };
            regs[k].0 = umem::get::<T>(l, place);
            let sl = unsafe { regs[k].0.slice::<T>() };
            if k == nreg - 1 && !conv { for (a, b) in sl.iter_mut().zip(scr.make(l)) { *a = T::of(b) } }
            else { for (a, b) in sl.iter_mut().zip(Inp { class: inp.class, seed: inp.seed ^ k as u64 }.make(l, T::EPS > 1e-10)) { *a = T::of(b) } }
            regs[k].2 = regs[k].0.hash();
        }
        let me = (ctx(|c| c.tid.get()) + 1) as usize;
        acts()[me] = Act { on: true, n: nreg, regs };
        let sl = |k: usize| unsafe { regs[k].0.slice::<T>() };
        guard(&regs[..nreg]);
        let (r, u) = sut(tag, Arm::default(), || {
            if kind.is_mdct() { inst.run_mdct(kind, sl(0), sl(1), sl(2), sl(3)) }
            else if conv { inst.run(kind, sl(0), None) }
            else { inst.run(kind, sl(0), Some(sl(1))) }
        });
        let _ = u;
        unguard();
        sut_drop(tag, inst);
        acts()[me].on = false;
        match r {
            Ok(()) => violation("not-refused", &format!("{:?} of an instance of length {} (scratch {}) accepted slices of lengths {:?}{}", kind, n, need, &lens[..nb], if conv { String::new() } else { format!(" and scratch of {}", lens[3]) })),
            Err(_) => {
                stat(St::Refused, 1);
                let nbuf = if conv { 1 } else { nreg - 1 };
                for k in 0..nbuf {
                    if regs[k].0.hash() != regs[k].2 {
                        violation("changed-before-refusal", &format!("{:?} of an instance of length {} (scratch {}) refused slices of lengths {:?}, scratch {}, but had already changed slice {}", kind, n, need, &lens[..nb], lens[3], k));
                    }
                }
                if watching() { for r in &regs[..nreg] { if !r.0.guards_ok() { violation("canary", "a refused call wrote to memory next to its slices"); } } }
            }
        }
    }
    fn repeat(&self, p: usize, times: usize) {
        if self.pass != Pass::Run { return; }
        self.lock(p);
        if self.pl(p).pl.is_some() {
            let served = self.pl(p).served.clone();
            let tag = 1 + p as u32;
            let before = alloc::live(tag);
            for _ in 0..times {
                for (fam, req, len, win) in &served {
                    let (r, _) = sut(tag, Arm::default(), || drop(T::plan(self.pl(p).pl.as_mut().unwrap(), *fam, *req, *len, win, WinFault::None)));
                    if let Err(Stop::Refused(m)) = r { violation("plan-refused", &format!("a repeated request ({:?} of length {}) was refused: {}", fam, len, m)); }
                }
            }
            stat(St::MemChecks, 1);
            let after = alloc::live(tag);
            if self.spec.leak && (after.0 > before.0 || after.1 > before.1) {
                violation("memory-grows", &format!("repeating {} served requests {} times retained {} more bytes in {} more blocks", served.len(), times, after.0 - before.0, after.1 - before.1));
            }
        }
        self.unlock(p);
    }
    fn leak_check(&self, p: usize) {
        if self.pass != Pass::Run { return; }
        let tag = 1 + p as u32;
        let held = self.pl(p).pl.is_some() || self.pl(p).busy || unsafe { (*self.slots.get()).iter().any(|s| s.inst.is_some() && s.tag == tag) };
        if held { return; }
        // calls in progress hold instances of their own
        if acts().iter().any(|a| a.on) { return; }
        stat(St::LeakChecks, 1);
        let (b, n) = alloc::live(tag);
        if b != 0 || n != 0 {
            violation("leak", &format!("{} bytes in {} blocks of planner {} still allocated after it and all its instances were dropped:{}", b, n, p, alloc::describe_live(tag)));
        }
    }
}
/// used by the FFT-direction helper of bad requests
pub const _FWD: FftDirection = FftDirection::Forward;

// ------------------------------------------------------------------ the two passes over a specification
fn dirty_stack(seed: u64) {
    #[inline(never)]
    fn f(seed: u64, d: usize) -> u64 {
        let mut a = [0u64; 512];
        let mut r = seed;
        for x in a.iter_mut() { r = r.wrapping_mul(6364136223846793005).wrapping_add(d as u64 | 1); *x = r & !(0x7ff0 << 48) | (0x3ff << 52); }
        std::hint::black_box(&mut a);
        if d == 0 { a[7] } else { f(r, d - 1) ^ a[9] }
    }
    std::hint::black_box(f(seed, 24));
}
pub fn begin<T: Lib>(e: &EnvCfg, watch: bool) {
    umem::start();
    alloc::start(e.shift, e.reuse, e.fill, e.fill_seed, e.skew);
    unsafe {
        engine::ENV = engine::Env { active: true, entropy: e.entropy, clock: e.clock, clock_step: e.clock_step, vars: e.vars, facts: crate::rng::mix(e.entropy) };
        report::WATCH = watch;
    }
    if e.vars != 0 { unsafe { raw::fake_environ(e.vars) } }
    if e.stack != 0 { dirty_stack(e.stack); }
    engine::start_watchdog(!T::SIM);
    if e.warm != 0 {
        // something else in this process used the library before
        let mut r = crate::rng::Rng::new(e.warm);
        let lots = r.chance(1, 10);
        let (_, _) = sut(TAG_WARM, Arm::default(), || {
            let mut p = T::new_planner();
            for _ in 0..if lots { 100 + r.us(250) } else { 1 + r.us(6) } {
                let fam = *r.pick(FAMS);
                let len = fam.fix_len(1 + r.us(if lots { 24 } else { 70 }));
                let i = T::plan(&mut p, fam, Req::gen(&mut r), len, &Win::gen(&mut r), WinFault::None);
                if fam != Fam::Mdct { let mut b: Vec<T> = (0..len).map(|i| T::of(i as f64)).collect(); i.run(fam.kinds()[0], &mut b, None); }
                if r.chance(1, 3) { p = T::new_planner(); }
            }
        });
    }
}
/// the same call from a stack pointer so many bytes lower
fn lower(by: usize, f: &mut dyn FnMut()) {
    #[inline(never)]
    fn pad<const N: usize>(f: &mut dyn FnMut()) { let a = [1u8; N]; std::hint::black_box(&a); f(); std::hint::black_box(&a); }
    match by % 12 { 0 => f(), 1 => pad::<16>(f), 2 => pad::<32>(f), 3 => pad::<48>(f), 4 => pad::<64>(f), 5 => pad::<80>(f), 6 => pad::<96>(f), 7 => pad::<112>(f), 8 => pad::<1000>(f), 9 => pad::<4096>(f), 10 => pad::<4112>(f), _ => pad::<30000>(f) }
}
fn exec_seq<T: Lib>(w: &World<T>, id: usize, op: &Op) {
    if w.pass == Pass::Run && w.spec.env.stack != 0 {
        lower((mix2(w.spec.env.stack, id as u64) >> 7) as usize, &mut || exec_on::<T>(w, id, op));
    } else { exec_on::<T>(w, id, op) }
}
fn exec_on<T: Lib>(w: &World<T>, id: usize, op: &Op) {
    if w.pass == Pass::Run && w.spec.env.thread && id % 2 == 1 {
        std::thread::scope(|s| { s.spawn(|| w.exec(id, op)).join().ok(); });
    } else {
        w.exec(id, op);
    }
}
pub fn pass<T: Lib>(spec: &RunSpec, pass: Pass, record: bool) {
    let plain = EnvCfg::plain();
    begin::<T>(if pass == Pass::Ref { &plain } else { &spec.env }, spec.watch && pass == Pass::Run);
    let w = World::<T>::new(spec, pass);
    let mut id = 0;
    let ids: Vec<usize> = std::iter::once(0).chain(spec.tasks.iter().scan(spec.setup.len(), |a, t| { let r = *a; *a += t.len(); Some(r) })).collect();
    let fin0 = spec.setup.len() + spec.tasks.iter().map(|t| t.len()).sum::<usize>();
    let one = |w: &World<T>, id: usize, op: &Op| {
        if pass == Pass::Ref && spec.fresh && matches!(op, Op::Call { .. }) {
            // every reference call is the first one ever made in its own process
            let pid = unsafe { raw::fork() };
            if pid == 0 { engine::start_watchdog(!T::SIM); w.exec(id, op); unsafe { raw::_exit(0) } }
            let mut st = 0;
            unsafe { raw::waitpid(pid, &mut st, 0) };
            if st != 0 { propagate(st) }
        } else {
            exec_seq(w, id, op);
        }
    };
    for op in &spec.setup { one(&w, id, op); id += 1; }
    w.set_phase(1);
    if pass == Pass::Ref {
        for t in &spec.tasks { for op in t { one(&w, id, op); id += 1; } }
    } else if !spec.tasks.is_empty() {
        let wr = &w;
        if spec.sched.fine { stat(St::FineRuns, 1) }
        engine::run(spec.tasks.len(), &spec.sched, record, &|t| {
            for (k, op) in spec.tasks[t].iter().enumerate() { wr.exec(ids[t + 1] + k, op); }
        });
    }
    w.set_phase(2);
    let mut id = fin0;
    for op in &spec.finale { one(&w, id, op); id += 1; }
    if spec.leak && pass == Pass::Run {
        for s in 0..spec.nslots { w.drop_slot(s); }
        for p in 0..spec.nplanners { w.exec(id.min(MAXOPS - 1), &Op::DropPlanner { p }); }
        w.exec(id.min(MAXOPS - 1), &Op::LeakCheckAll);
    }
    if pass == Pass::Run && spec.watch { alloc::audit(); }
    std::mem::forget(w);
}
/// end this process the way a child of it ended
pub fn propagate(st: i32) -> ! {
    if st & 0x7f == 0 { unsafe { raw::_exit((st >> 8) & 0xff) } }
    violation(&format!("signal-{}", st & 0x7f), &format!("the process was killed by signal {} inside a library call", st & 0x7f));
}

/// what calls really cost: prints the largest steps and work per n log n (or n^2), to calibrate the budgets
pub fn calibrate<T: Lib>(max: usize) {
    for &fam in FAMS {
        for &kind in fam.kinds() {
            let fast = !matches!(kind, Kind::Dct5 | Kind::Dct6 | Kind::Dct7 | Kind::Dct8 | Kind::Dst5 | Kind::Dst8);
            let mut top: [(f64, usize); 4] = [(0.0, 0); 4];
            let mut lens: Vec<usize> = (1..=if fast { max } else { 300 }).collect();
            if fast { for k in 8..14 { lens.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]); } lens.extend([4099, 8198, 5003, 10006, 6561, 7919, 15838, 9000, 32768, 65536, 131072, 19683, 59049, 27001, 60001, 60002, 32769, 32767, 65535, 65537]); }
            for n in lens {
                if fam.fix_len(n) != n { continue; }
                let (r, _) = sut(0, Arm::default(), || T::plan(&mut T::new_planner(), fam, Req::A, n, &Win::Mp3, WinFault::None));
                let Ok(inst) = r else { continue };
                let mut b: Vec<Vec<T>> = [if kind.is_mdct() { n } else { n }, n, n, inst.scratch()].iter().map(|l| vec![T::of(0.5); *l]).collect();
                let (x, rest) = b.split_at_mut(1);
                let (y, rest) = rest.split_at_mut(1);
                let (z, sc) = rest.split_at_mut(1);
                let (_, u) = sut(0, Arm::default(), || if kind.is_mdct() { inst.run_mdct(kind, &mut x[0], &mut y[0], &mut z[0], &mut sc[0]) } else { inst.run(kind, &mut x[0], Some(&mut sc[0])) });
                let d = if fast { n as f64 * (n as f64 + 2.0).log2() } else { (n * n) as f64 };
                let m = match kind { Kind::Dct1 => 2 * (n - 1), Kind::Dst1 => 2 * (n + 1), Kind::Dst6 | Kind::Dst7 => 2 * n + 1, Kind::Dct4 | Kind::Dst4 | Kind::Mdct | Kind::Imdct if n % 2 == 0 => n / 2, _ => n };
                let mut q = m.max(1);
                for p in [2, 3, 5, 7] { while q % p == 0 { q /= p } }
                let extra = if fast { 6000.0 } else { 2000.0 };
                for (k, v) in [u.steps, u.work].iter().enumerate() {
                    let v = (*v as f64 - extra).max(0.0) / d;
                    let i = 2 * k + (q == 1) as usize;
                    if v > top[i].0 { top[i] = (v, n); }
                }
            }
            println!("{:?}: steps {:.1} (n={}), smooth {:.1} (n={}); work {:.1} (n={}), smooth {:.1} (n={})", kind, top[0].0, top[0].1, top[1].0, top[1].1, top[2].0, top[2].1, top[3].0, top[3].1);
        }
    }
}

//! The scheduler.  Tasks are real OS threads, but exactly one of them runs at any time: the one holding
//! the baton, for exactly as many steps as the scheduler granted.  A step is one arithmetic operation of the
//! simulated number type (or, in fine mode, one machine instruction).
use crate::raw;
use crate::rng::{mix2, Rng};
use crate::report::{rep, stat, St};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const NEVER: u64 = u64::MAX;

pub struct Ctx {
    pub steps: Cell<u64>,
    next: Cell<u64>,
    pub isteps: Cell<u64>,
    inext: Cell<u64>,
    pub tid: Cell<i32>,
    pub in_sut: Cell<u32>,
    pub no_yield: Cell<u32>,
    pub tag: Cell<u32>,
    crash_at: Cell<u64>,
    stall_at: Cell<u64>,
    stall_dur: Cell<u64>,
    budget_at: Cell<u64>,
    slice_end: Cell<u64>,
    pub alloc_n: Cell<u64>,
    pub alloc_fail_from: Cell<u64>,
    pub alloc_fail_to: Cell<u64>,
    pub fine: Cell<bool>,
    pub unwinding: Cell<bool>,
    pub fired: Cell<u32>,
    pub op: Cell<u32>,
    pub op_start: Cell<u64>,
    /// the slices of the call in progress (start, end, read-only), when its accesses are to be checked
    pub nreg: Cell<usize>,
    pub regs: Cell<[(usize, usize, bool); 4]>,
    /// heap above this address was allocated by the call in progress
    pub heap_mark: Cell<usize>,
    hot_now: Cell<bool>,
    /// entries into library code
    pub entries: Cell<u64>,
    pub work_at: Cell<u64>,
    /// the limit on work is only there to end calls that never finish
    pub work_cap: Cell<bool>,
}
thread_local! {
    pub static CTX: Ctx = const { Ctx {
        steps: Cell::new(0), next: Cell::new(NEVER), isteps: Cell::new(0), inext: Cell::new(NEVER), tid: Cell::new(-1),
        in_sut: Cell::new(0), no_yield: Cell::new(0), tag: Cell::new(0), crash_at: Cell::new(NEVER), stall_at: Cell::new(NEVER),
        stall_dur: Cell::new(0), budget_at: Cell::new(NEVER), slice_end: Cell::new(NEVER), alloc_n: Cell::new(0),
        alloc_fail_from: Cell::new(NEVER), alloc_fail_to: Cell::new(NEVER), fine: Cell::new(false),
        unwinding: Cell::new(false), fired: Cell::new(0), op: Cell::new(0), op_start: Cell::new(0),
        nreg: Cell::new(0), regs: Cell::new([(0, 0, false); 4]), heap_mark: Cell::new(usize::MAX), hot_now: Cell::new(false), entries: Cell::new(0), work_at: Cell::new(NEVER), work_cap: Cell::new(false),
    } };
}
#[inline(always)]
pub fn ctx<R>(f: impl FnOnce(&Ctx) -> R) -> R { CTX.with(f) }

pub const FIRED_CRASH: u32 = 1;
pub const FIRED_ALLOC: u32 = 2;
pub const FIRED_WIN: u32 = 4;
pub const FIRED_STALL: u32 = 8;

/// payload of an injected panic in caller-supplied code
pub struct Injected;
/// payload of an injected failing allocation
pub struct InjectedAlloc;

impl Ctx {
    fn set_next(&self) {
        let mut n = self.crash_at.get().min(self.stall_at.get()).min(self.budget_at.get());
        if !self.fine.get() { n = n.min(self.slice_end.get()); }
        self.next.set(n);
        self.inext.set(if self.fine.get() { self.slice_end.get() } else { NEVER }.min(self.work_at.get()));
    }
    /// arm faults for one call, relative to the current step count
    pub fn arm(&self, crash: Option<u64>, stall: Option<(u64, u64)>, budget: Option<u64>) {
        let s = self.steps.get();
        self.crash_at.set(crash.map_or(NEVER, |x| s.saturating_add(x.max(1))));
        self.stall_at.set(stall.map_or(NEVER, |x| s.saturating_add(x.0.max(1))));
        self.stall_dur.set(stall.map_or(0, |x| x.1));
        self.budget_at.set(budget.map_or(NEVER, |x| s.saturating_add(x)));
        self.set_next();
    }
    pub fn disarm(&self) {
        self.crash_at.set(NEVER);
        self.stall_at.set(NEVER);
        self.budget_at.set(NEVER);
        self.set_next();
    }
}

/// one step of the number type
#[inline(always)]
pub fn tick() {
    CTX.with(|c| {
        let s = c.steps.get() + 1;
        c.steps.set(s);
        if s >= c.next.get() { slow(c, s); }
    })
}
#[cold]
#[inline(never)]
fn slow(c: &Ctx, s: u64) {
    if s >= c.budget_at.get() {
        c.budget_at.set(NEVER);
        crate::report::violation("step-budget", &format!("a call exceeded its step budget (op {} of task {})", c.op.get(), c.tid.get()));
    }
    if s >= c.stall_at.get() {
        c.stall_at.set(NEVER);
        c.set_next();
        if c.tid.get() >= 0 && c.no_yield.get() == 0 {
            c.fired.set(c.fired.get() | FIRED_STALL);
            stat(St::Stalls, 1);
            let d = c.stall_dur.get();
            eng().stop(c, State::Stalled(if d == 0 { NEVER } else { eng().clock(c).saturating_add(d) }));
        }
    }
    if !c.fine.get() && s >= c.slice_end.get() {
        if c.tid.get() < 0 {
            c.slice_end.set(NEVER);
        } else if c.no_yield.get() == 0 {
            eng().stop(c, State::Ready);
        } else {
            c.slice_end.set(s + 1);
        }
        c.set_next();
    }
    if s >= c.crash_at.get() {
        c.crash_at.set(NEVER);
        c.set_next();
        if c.in_sut.get() > 0 && !std::thread::panicking() {
            c.fired.set(c.fired.get() | FIRED_CRASH);
            stat(St::Crashes, 1);
            c.unwinding.set(true);
            std::panic::resume_unwind(Box::new(Injected));
        }
    }
}
/// an extra scheduling point that is not an arithmetic step (between calls, at allocations)
pub fn point() {
    CTX.with(|c| {
        if c.tid.get() < 0 || c.no_yield.get() > 0 || std::thread::panicking() || c.fine.get() && c.in_sut.get() > 0 { return; }
        let s = c.steps.get() + 1;
        c.steps.set(s);
        if s >= c.slice_end.get() { eng().stop(c, State::Ready); }
        c.set_next();
    })
}

// ------------------------------------------------------------------ tasks

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum State { Ready, Stalled(u64), Futex(usize), Lock(usize), Done }

struct Task { baton: AtomicU32, state: State, grant: u64, ran_from: u64, woken: bool, vrun: u64 }

crate::rec! {
    /// how the scheduler decides who runs next and for how long
    enum Mode {
        Walk { mean: u64 },
        Robin { quantum: u64 },
        // priorities change at `points` (global step counts)
        Pct { points: Vec<u64> },
        // short and long slices mixed
        Bursty { short: u64, long: u64 },
        // (task, steps) in this order; afterwards each task runs to completion in index order
        Explicit { slices: Vec<(u32, u64)> },
    }
}
// fine: a step is one instruction (or, in the build with callbacks, one branch, load or store);
// hot: 1 in so many accesses to memory that calls share ends the slice (0: none)
crate::rec! { struct Sched { mode: Mode, seed: u64, fine: bool, hot: u64 } }

pub struct Engine {
    tasks: Vec<Task>,
    mode: Mode,
    rng: Rng,
    fine: bool,
    now: u64,
    pos: usize,
    prio: Vec<u64>,
    low: u64,
    main: AtomicU32,
    idle_yields: u64,
    trace: u64,
    picks: u64,
    switches: u64,
    inner_switches: u64,
    record: bool,
    hot: u64,
    hrng: Rng,
    bloom: [u64; 64],
}
static mut ENG: *mut Engine = std::ptr::null_mut();
#[allow(static_mut_refs)]
fn eng() -> &'static mut Engine { unsafe { &mut *ENG } }

pub struct Hooks { pub out: fn(usize), pub inn: fn(usize) }
pub static mut HOOKS: Hooks = Hooks { out: |_| (), inn: |_| () };

impl Engine {
    fn used(&self, c: &Ctx) -> u64 {
        let t = &self.tasks[c.tid.get() as usize];
        (if self.fine { c.isteps.get() } else { c.steps.get() }).saturating_sub(t.ran_from)
    }
    fn clock(&self, c: &Ctx) -> u64 { self.now + self.used(c) }

    /// the running task stops running in the given state; somebody else gets the baton
    fn stop(&mut self, c: &Ctx, st: State) {
        c.no_yield.set(c.no_yield.get() + 1);
        let sut = c.in_sut.replace(0);
        let me = c.tid.get() as usize;
        let used = self.used(c);
        self.now += used;
        if used > 0 { self.idle_yields = 0; }
        self.tasks[me].state = st;
        unsafe {
            #[allow(static_mut_refs)]
            (HOOKS.out)(me)
        };
        self.log(me, used);
        self.picks += 1;
        rep().beats += 1;
        let (n, len) = self.pick(me);
        if st == State::Done && n == me { return; }
        if n != me {
            self.switches += 1;
            if sut > 0 && st != State::Done { self.inner_switches += 1; }
            self.trace = mix2(self.trace, ((me as u64) << 56) ^ ((n as u64) << 48) ^ ((c.op.get() as u64) << 32) ^ (c.steps.get().wrapping_sub(c.op_start.get())));
        }
        self.tasks[n].grant = len;
        self.tasks[n].state = State::Ready;
        if n != me {
            self.tasks[n].baton.store(1, SeqCst);
            unsafe { raw::futex_wake(self.tasks[n].baton.as_ptr(), 1) };
            if st == State::Done { return; }
            self.wait_baton(me);
        }
        CUR.store(gettid(), SeqCst);
        self.begin_slice(c, me);
        unsafe {
            #[allow(static_mut_refs)]
            (HOOKS.inn)(me)
        };
        c.in_sut.set(sut);
        c.no_yield.set(c.no_yield.get() - 1);
    }
    fn wait_baton(&self, me: usize) {
        let b = &self.tasks[me].baton;
        while b.swap(0, SeqCst) == 0 { unsafe { raw::futex_wait(b.as_ptr(), 0) } }
    }
    fn begin_slice(&mut self, c: &Ctx, me: usize) {
        let base = if self.fine { c.isteps.get() } else { c.steps.get() };
        let t = &mut self.tasks[me];
        t.ran_from = base;
        c.slice_end.set(base.saturating_add(t.grant));
        c.set_next();
    }
    fn log(&mut self, me: usize, used: u64) {
        if !self.record { return; }
        let r = rep();
        let k = r.nslices as usize;
        if k < r.slices.len() {
            if k > 0 && r.slices[k - 1].0 == me as u32 {
                r.slices[k - 1].1 += used;
            } else {
                r.slices[k] = (me as u32, used);
                r.nslices += 1;
            }
        } else { r.slices_truncated = 1; }
    }
    fn ready(&self, out: &mut [usize; 64]) -> usize {
        let mut n = 0;
        for (i, t) in self.tasks.iter().enumerate() {
            if t.state == State::Ready { out[n] = i; n += 1; }
        }
        n
    }
    fn pick(&mut self, me: usize) -> (usize, u64) {
        for t in self.tasks.iter_mut() {
            if let State::Stalled(u) = t.state { if u <= self.now { t.state = State::Ready } }
        }
        let mut r = [0usize; 64];
        let mut n = self.ready(&mut r);
        if n == 0 {
            // nobody can run: let simulated time pass until a finite stall ends
            let next = self.tasks.iter().filter_map(|t| if let State::Stalled(u) = t.state { if u != NEVER { Some(u) } else { None } } else { None }).min();
            if let Some(u) = next {
                self.now = u;
                for t in self.tasks.iter_mut() { if t.state == State::Stalled(u) { t.state = State::Ready } }
            } else {
                let forever = self.tasks.iter().filter(|t| t.state == State::Stalled(NEVER)).count();
                let sut = self.tasks.iter().filter(|t| matches!(t.state, State::Futex(_))).count();
                if sut > 0 {
                    let (cl, what) = if forever > 0 { ("blocked-by-stalled", "a caller waits for ever for a lock held by a caller that is stalled mid-call") }
                        else { ("deadlock", "callers wait for ever for locks nobody will release") };
                    crate::report::violation(cl, &format!("{}: task states {:?}", what, self.tasks.iter().map(|t| t.state).collect::<Vec<_>>()));
                }
                if forever > 0 {
                    // everybody else is done: the stalled callers may go on (only to check what they leave behind)
                    stat(St::StalledForever, forever as u64);
                    for t in self.tasks.iter_mut() { if t.state == State::Stalled(NEVER) { t.state = State::Ready } }
                } else if self.tasks.iter().all(|t| t.state == State::Done) {
                    self.main.store(1, SeqCst);
                    unsafe { raw::futex_wake(self.main.as_ptr(), 1) };
                    return (me, 0);
                } else {
                    crate::report::harness_error(&format!("scheduler stuck: {:?}", self.tasks.iter().map(|t| t.state).collect::<Vec<_>>()));
                }
            }
            n = self.ready(&mut r);
        }
        let r = &r[..n];
        let cap = if self.fine { 150_000 } else { NEVER };
        if ctx(|c| c.hot_now.replace(false)) {
            // right after an access to memory that calls share: somebody else goes on, for a while
            let others: Vec<usize> = r.iter().copied().filter(|&i| i != me).collect();
            if !others.is_empty() {
                let t = others[self.hrng.us(others.len())];
                let l = match self.hrng.us(4) { 0 => self.hrng.geom(12), 1 => self.hrng.geom(300), _ => cap };
                return (t, l.min(cap));
            }
        }
        let (t, len) = match &self.mode {
            Mode::Walk { mean } => { let m = *mean; (r[self.rng.us(n)], self.rng.geom(m)) }
            Mode::Robin { quantum } => {
                let t = *r.iter().find(|&&i| i > me).unwrap_or(&r[0]);
                (t, *quantum)
            }
            Mode::Bursty { short, long } => {
                let (s, l) = (*short, *long);
                let m = if self.rng.chance(1, 2) { s } else { l };
                (r[self.rng.us(n)], self.rng.geom(m))
            }
            Mode::Pct { points } => {
                let mut hit = false;
                while self.pos < points.len() && points[self.pos] <= self.now { self.pos += 1; hit = true; }
                if hit { self.low = self.low.wrapping_sub(1); self.prio[me] = self.low; }
                let t = *r.iter().max_by_key(|&&i| (self.prio[i], i)).unwrap();
                let len = points.get(self.pos).map_or(NEVER, |p| p - self.now);
                (t, len)
            }
            Mode::Explicit { slices } => {
                let mut got = None;
                while self.pos < slices.len() {
                    let (t, l) = slices[self.pos];
                    self.pos += 1;
                    if r.contains(&(t as usize)) && l > 0 { got = Some((t as usize, l)); break; }
                }
                got.unwrap_or((r[0], NEVER))
            }
        };
        // slices grow over a long run, so that long runs stay affordable
        let len = if matches!(self.mode, Mode::Walk { .. } | Mode::Robin { .. } | Mode::Bursty { .. }) { len.saturating_mul(1 << (self.picks / 1200).min(14)) } else { len };
        // fine mode: a task that spins without finishing must not keep the others from running
        if self.fine && len > cap && (len == NEVER || !matches!(self.mode, Mode::Explicit { .. })) {
            let t2 = *r.iter().min_by_key(|&&i| (self.tasks[i].vrun, i)).unwrap();
            let t = if self.tasks[t].vrun > 40 { t2 } else { t };
            self.tasks[t].vrun += 1;
            return (t, cap);
        }
        (t, len)
    }
}

/// Runs `n` tasks to completion under the given schedule.
pub fn run(n: usize, sched: &Sched, record: bool, body: &(dyn Fn(usize) + Sync)) {
    assert!(n <= 64);
    let mut rng = Rng::new(sched.seed ^ 0x5eed);
    let mut prio: Vec<u64> = (0..n as u64).map(|i| i + (1 << 32)).collect();
    rng.shuffle(&mut prio);
    let e = Box::new(Engine {
        tasks: (0..n).map(|_| Task { baton: AtomicU32::new(0), state: State::Ready, grant: 1, ran_from: 0, woken: false, vrun: 0 }).collect(),
        mode: sched.mode.clone(), rng, fine: sched.fine, now: 0, pos: 0, prio, low: 1 << 31, main: AtomicU32::new(0),
        idle_yields: 0, trace: mix2(n as u64, 77), picks: 0, switches: 0, inner_switches: 0, record, hot: if matches!(sched.mode, Mode::Explicit { .. }) { 0 } else { sched.hot }, hrng: Rng::new(sched.seed ^ 0x407), bloom: [0; 64],
    });
    unsafe { ENG = Box::into_raw(e) };
    struct P(*const (dyn Fn(usize) + Sync));
    unsafe impl Send for P {}
    let up = std::sync::Arc::new(AtomicU32::new(0));
    let exit = std::sync::Arc::new(AtomicU32::new(0));
    let mut hs = Vec::new();
    let env = ctx(|c| c.fine.get());
    let _ = env;
    for i in 0..n {
        let body: *const (dyn Fn(usize) + Sync) = unsafe { std::mem::transmute::<&(dyn Fn(usize) + Sync), &'static (dyn Fn(usize) + Sync)>(body) };
        let p = P(body);
        let (up2, exit2) = (up.clone(), exit.clone());
        let fine = sched.fine;
        let mut b = std::thread::Builder::new().stack_size(1 << 20);
        if env_files() {
            // threads of the environment's own: other thread ids, and names
            let k = unsafe { mix2(ENV.facts, 0x7ead + i as u64) };
            for _ in 0..k % 3 { let _ = std::thread::spawn(|| ()).join(); }
            if let Some(name) = [None, Some("main"), Some("worker-0"), Some("worker-7"), Some("audio"), Some("rt")][(k >> 8) as usize % 6] { b = b.name(name.into()); }
        }
        let h = b.spawn(move || {
            let p = p;
            ctx(|c| { c.tid.set(i as i32); c.fine.set(fine); c.no_yield.set(1); });
            up2.store(i as u32 + 1, SeqCst);
            unsafe { raw::futex_wake(up2.as_ptr(), 1) };
            eng().wait_baton(i);
            CUR.store(gettid(), SeqCst);
            ctx(|c| { eng().begin_slice(c, i); c.no_yield.set(0); });
            unsafe { (*p.0)(i) };
            ctx(|c| eng().stop(c, State::Done));
            // threads end one at a time, in index order (thread-local destructors)
            loop {
                let v = exit2.load(SeqCst);
                if v == i as u32 + 1 { break; }
                unsafe { raw::futex_wait(exit2.as_ptr(), v) };
            }
        }).expect("spawn");
        loop {
            let v = up.load(SeqCst);
            if v == i as u32 + 1 { break; }
            unsafe { raw::futex_wait(up.as_ptr(), v) };
        }
        hs.push(h);
    }
    if n > 0 {
        let e = eng();
        let (t, len) = e.pick(n - 1);
        e.tasks[t].grant = len;
        e.tasks[t].baton.store(1, SeqCst);
        unsafe { raw::futex_wake(e.tasks[t].baton.as_ptr(), 1) };
        while e.main.load(SeqCst) == 0 { unsafe { raw::futex_wait(e.main.as_ptr(), 0) } }
    }
    for (i, h) in hs.into_iter().enumerate() {
        exit.store(i as u32 + 1, SeqCst);
        unsafe { raw::futex_wake(exit.as_ptr(), 64) };
        h.join().expect("task thread died");
    }
    let e = eng();
    let r = rep();
    r.trace = mix2(r.trace, e.trace);
    r.switches += e.switches;
    r.inner_switches += e.inner_switches;
    r.sim_time += e.now;
    unsafe { drop(Box::from_raw(ENG)); ENG = std::ptr::null_mut(); }
}

/// harness-level lock wait (a planner in use by another task)
pub fn wait_lock(key: usize) { ctx(|c| if c.tid.get() >= 0 { eng().stop(c, State::Lock(key)) }) }
pub fn wake_lock(key: usize) {
    if unsafe { ENG.is_null() } { return; }
    for t in eng().tasks.iter_mut() { if t.state == State::Lock(key) { t.state = State::Ready } }
}

// ------------------------------------------------------------------ seams
#[inline]
pub fn in_sim_sut() -> bool { ctx(|c| c.in_sut.get() > 0) }

pub unsafe fn sim_futex(addr: *const u32, op: i64, val: u32, timeout: *const [i64; 2]) -> i64 {
    let op = op & 0x7f;
    let c: *const Ctx = ctx(|c| c as *const Ctx);
    let c = &*c;
    match op {
        0 | 9 => {
            if *addr != val { return -11; }
            stat(St::FutexWaits, 1);
            if c.tid.get() < 0 || ENG.is_null() {
                crate::report::violation("deadlock", "a call blocks on a lock although no other thread exists");
            }
            if c.no_yield.get() > 0 { return -4; }
            let e = eng();
            if !timeout.is_null() {
                let ns = (*timeout)[0] as u64 * 1_000_000_000 + (*timeout)[1] as u64;
                let until = e.clock(c).saturating_add(1 + (ns / 1000).min(1 << 40));
                e.tasks[c.tid.get() as usize].woken = false;
                e.stop(c, State::Stalled(until));
                return -110;
            }
            e.stop(c, State::Futex(addr as usize));
            0
        }
        1 | 10 => {
            if ENG.is_null() { return 0; }
            let mut n = 0;
            for t in eng().tasks.iter_mut() {
                if n < val as i64 && t.state == State::Futex(addr as usize) { t.state = State::Ready; n += 1; }
            }
            n
        }
        _ => -38,
    }
}
thread_local! { static YIELDS: Cell<(u64, u64)> = const { Cell::new((0, 0)) }; }
pub fn sim_yield() {
    ctx(|c| {
        if c.in_sut.get() > 0 {
            // one call giving way this often without a step in between waits for something
            let y = YIELDS.with(|y| { let (k, n) = y.get(); let k2 = mix2(c.steps.get(), c.op.get() as u64); let n = if k == k2 { n + 1 } else { 1 }; y.set((k2, n)); n });
            if c.tid.get() < 0 && y > 100_000 { c.in_sut.set(0); crate::report::violation("hang", "a call waits for ever although nothing else runs"); }
        }
        if c.tid.get() < 0 || c.no_yield.get() > 0 { return; }
        let e = eng();
        e.idle_yields += 1;
        if e.idle_yields > 20_000 {
            // everybody who can run only spins; if somebody is stalled for ever that is who they wait for
            let forever = e.tasks.iter().any(|t| t.state == State::Stalled(NEVER));
            let finite = e.tasks.iter().any(|t| matches!(t.state, State::Stalled(u) if u != NEVER));
            if !finite {
                crate::report::violation(if forever { "blocked-by-stalled" } else { "livelock" }, "callers spin without making progress");
            }
            e.now += 1 << 20;
        }
        let y = e.idle_yields;
        c.steps.set(c.steps.get());
        e.stop(c, State::Ready);
        eng().idle_yields = y;
    })
}
pub fn sim_sleep(ns: u64) {
    unsafe { ENV.clock = ENV.clock.wrapping_add(ns) };
    ctx(|c| {
        if c.tid.get() < 0 || c.no_yield.get() > 0 { return; }
        let e = eng();
        e.stop(c, State::Stalled(e.clock(c) + 1 + ns / 1000));
    })
}

/// the simulated process environment
pub struct Env { pub active: bool, pub entropy: u64, pub clock: u64, pub clock_step: u64, pub vars: u64, pub facts: u64 }
pub static mut ENV: Env = Env { active: false, entropy: 1, clock: 0, clock_step: 1000, vars: 0, facts: 0 };
/// facts about the process that stay the same while it lives: its number, how many processors it may use
pub fn env_fact(k: u64) -> u64 { stat(St::EnvReads, 1); unsafe { mix2(ENV.facts, k) >> 8 } }
pub fn env_files() -> bool { unsafe { ENV.vars != 0 } }
pub fn env_active() -> bool { unsafe { ENV.active } }
pub fn env_entropy() -> u8 {
    unsafe {
        ENV.entropy = crate::rng::mix(ENV.entropy);
        (ENV.entropy >> 32) as u8
    }
}
pub fn env_clock() -> u64 {
    stat(St::ClockReads, 1);
    unsafe { ENV.clock = ENV.clock.wrapping_add(ENV.clock_step); ENV.clock & !(1 << 63) }
}
static VALS: [&[u8]; 10] = [b"1\0", b"0\0", b"naive\0", b"true\0", b"\0", b"4\0", b"off\0", b"512\0", b"fft\0", b"/w\0"];
pub fn env_var(name: &[u8]) -> *const std::ffi::c_char {
    stat(St::EnvReads, 1);
    let v = unsafe { ENV.vars };
    if v == 0 { return std::ptr::null(); }
    let mut h = v;
    for &b in name { h = mix2(h, b as u64); }
    if h & 1 == 0 { return std::ptr::null(); }
    VALS[(h >> 8) as usize % VALS.len()].as_ptr() as *const std::ffi::c_char
}

// ------------------------------------------------------------------ fine mode: one instruction = one step
unsafe extern "C" fn on_trap(_sig: i32, _info: *const u8, _uc: *const u8) {
    CTX.with(|c| {
        let s = c.isteps.get() + 1;
        c.isteps.set(s);
        if s >= c.inext.get() { fine_slow(c, s) }
    })
}
#[cold]
#[inline(never)]
fn fine_slow(c: &Ctx, s: u64) {
    if s >= c.work_at.get() && c.in_sut.get() > 0 {
        c.work_at.set(NEVER);
        c.in_sut.set(0);
        let e = unsafe { ENG };
        if c.work_cap.get() {
            let forever = !e.is_null() && eng().tasks.iter().any(|t| t.state == State::Stalled(NEVER));
            crate::report::violation(if forever { "blocked-by-stalled" } else { "hang" }, &format!("a call goes on and on without finishing (op {} of task {})", c.op.get(), c.tid.get()));
        }
        crate::report::violation("work-budget", &format!("a call exceeded its budget of branches and memory accesses (op {} of task {})", c.op.get(), c.tid.get()));
    }
    if s >= c.slice_end.get() && c.fine.get() && c.no_yield.get() == 0 && c.in_sut.get() > 0 && !c.unwinding.get() && c.tid.get() >= 0 {
        let e = eng();
        if e.now > if instrumented() { FINE_CAP_I } else { FINE_CAP } { c.in_sut.set(0); stat(St::FineCut, 1); unsafe { raw::_exit(0) } }
        e.stop(c, State::Ready);
    }
}
/// no call of any run comes near this much work
pub const WORK_CAP: u64 = 1_000_000_000;
// a run at the finest granularity that gets this long is cut off (counted, and not a finding)
const FINE_CAP: u64 = 6_000_000;
const FINE_CAP_I: u64 = 3_000_000_000;

// The build with callbacks: the library's branches, loads and stores report here.
static mut CALLBACKS: u64 = 0;
static mut INSTR: bool = false;
pub fn instrumented() -> bool { unsafe { INSTR } }
/// `f` is instrumented code: does it report?
pub fn detect(f: &dyn Fn()) { unsafe { CALLBACKS = 0; f(); INSTR = CALLBACKS > 0; } }
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    CTX.with(|c| {
        if c.in_sut.get() == 0 { if !instrumented() { unsafe { CALLBACKS += 1 } } return; }
        let s = c.isteps.get() + 1;
        c.isteps.set(s);
        if s >= c.inext.get() { fine_slow(c, s) }
    })
}
#[inline(always)]
fn access(a: usize, n: usize, store: bool) {
    CTX.with(|c| {
        if c.in_sut.get() == 0 { return; }
        let s = c.isteps.get() + 1;
        c.isteps.set(s);
        if a >= crate::alloc::BASE && a < ARENAS_END || static_data(a) { arena(c, a, n, store); }
        if s >= c.inext.get() { fine_slow(c, s) }
    })
}
extern "C" { static __data_start: u8; static _end: u8; }
#[inline(always)]
fn static_data(a: usize) -> bool { a >= &raw const __data_start as usize && a < &raw const _end as usize }
const ARENAS_END: usize = crate::umem::BASE + crate::umem::SIZE;
#[inline(never)]
fn arena(c: &Ctx, a: usize, n: usize, store: bool) {
    if a >= crate::umem::BASE && a < ARENAS_END {
        let k = c.nreg.get();
        if k == 0 { return; }
        let r = c.regs.get();
        for &(s, e, ro) in &r[..k] {
            if a >= s && a + n <= e {
                if store && ro { c.in_sut.set(0); crate::report::violation("input-written", "a call stored to one of its read-only input slices"); }
                return;
            }
        }
        c.in_sut.set(0);
        crate::report::violation("foreign-access", &format!("a call {} {} bytes of caller memory outside the slices it was given", if store { "wrote" } else { "read" }, n));
    }
    // heap or static data that exists independently of this call
    if !c.fine.get() || c.tid.get() < 0 || c.no_yield.get() > 0 || c.unwinding.get() || a >= c.heap_mark.get() && !static_data(a) { return; }
    unsafe { if ENG.is_null() { return; } }
    let e = eng();
    let h = crate::rng::mix(a as u64 >> 3);
    let (w, b) = ((h >> 6) as usize & 63, 1u64 << (h & 63));
    if store {
        if e.bloom[w] & b == 0 { e.bloom[w] |= b; stat(St::SharedStores, 1); }
    } else if e.bloom[w] & b == 0 { return; }
    if e.hot > 0 && e.hrng.chance(1, e.hot) {
        stat(St::HotSwitches, 1);
        c.hot_now.set(true);
        // callbacks come before the access; the slice ends a few steps later
        let d = e.hrng.below(5);
        c.slice_end.set(c.isteps.get() + d);
        c.set_next();
    }
}
macro_rules! cb { ($($l:ident $s:ident $n:literal),*) => { $(
    #[no_mangle] pub extern "C" fn $l(a: usize) { access(a, $n, false) }
    #[no_mangle] pub extern "C" fn $s(a: usize) { access(a, $n, true) }
)* } }
cb!(__sanitizer_cov_load1 __sanitizer_cov_store1 1, __sanitizer_cov_load2 __sanitizer_cov_store2 2, __sanitizer_cov_load4 __sanitizer_cov_store4 4,
    __sanitizer_cov_load8 __sanitizer_cov_store8 8, __sanitizer_cov_load16 __sanitizer_cov_store16 16);
#[allow(unexpected_cfgs)]
#[cfg(instr)]
pub mod wrapped {
    extern "C" {
        fn __real_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
        fn __real_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
        fn __real_memset(d: *mut u8, c: i32, n: usize) -> *mut u8;
    }
    #[no_mangle]
    pub unsafe extern "C" fn __wrap_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { if n > 0 { super::access(s as usize, n, false); super::access(d as usize, n, true); } __real_memcpy(d, s, n) }
    #[no_mangle]
    pub unsafe extern "C" fn __wrap_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { if n > 0 { super::access(s as usize, n, false); super::access(d as usize, n, true); } __real_memmove(d, s, n) }
    #[no_mangle]
    pub unsafe extern "C" fn __wrap_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 { if n > 0 { super::access(d as usize, n, true); } __real_memset(d, c, n) }
}
pub fn install_trap() {
    let sa = raw::SigAction { handler: on_trap as *const () as usize, mask: [0; 16], flags: 0x4000_0000 | 4, restorer: 0 };
    unsafe { raw::sigaction(5, &sa, std::ptr::null_mut()) };
}
#[inline(always)]
pub fn trap_on() { if instrumented() { return; } unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") } }
#[inline(always)]
pub fn trap_off() { if instrumented() { return; } unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") } }

// ------------------------------------------------------------------ watchdog
// A caller that spins without doing arithmetic never reaches a scheduling point.  A CPU-time timer finds it
// (no step for a long time) and switches it out there: the step count at the switch is what is recorded.
struct Dog { key: u64, idle: u32, first: u32, assists: u32 }
static mut DOG: Dog = Dog { key: 0, idle: 0, first: 10, assists: 0 };
static CUR: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);
fn gettid() -> i32 { unsafe { raw::sys6(186, 0, 0, 0, 0, 0, 0) as i32 } }
pub fn start_watchdog(native: bool) {
    unsafe {
        DOG = Dog { key: 0, idle: 0, first: if native { 60 } else { 10 }, assists: 0 };
        let sa = raw::SigAction { handler: on_prof as *const () as usize, mask: [0; 16], flags: 0x1000_0000 | 4, restorer: 0 };
        raw::sigaction(27, &sa, std::ptr::null_mut());
        let t = [0i64, 100_000, 0, 100_000];
        raw::setitimer(2, &t, std::ptr::null_mut());
    }
}
#[allow(static_mut_refs)]
unsafe extern "C" fn on_prof(_sig: i32, _info: *const u8, _uc: *const u8) {
    let cur = CUR.load(SeqCst);
    if !ENG.is_null() && cur != 0 && gettid() != cur {
        raw::sys6(234, raw::sys6(39, 0, 0, 0, 0, 0, 0), cur as i64, 27, 0, 0, 0);
        return;
    }
    CTX.with(|c| {
        let d = &mut DOG;
        let key = mix2(mix2(c.steps.get() ^ c.entries.get() << 40, if c.fine.get() { c.isteps.get() } else { 0 }), (c.op.get() as u64) << 8 | (c.tid.get() + 1) as u64);
        if c.in_sut.get() == 0 || c.no_yield.get() > 0 || c.unwinding.get() { return; }
        if key != d.key { d.key = key; d.idle = 0; return; }
        d.idle += 1;
        if c.tid.get() < 0 || c.fine.get() || ENG.is_null() {
            if d.idle >= 100 { crate::report::violation("hang", &format!("operation {} does not finish although nothing else runs", c.op.get())); }
            return;
        }
        if d.idle < d.first { return; }
        d.assists += 1;
        stat(St::SpinAssist, 1);
        d.first = 2;
        d.idle = 0;
        let e = &mut *ENG;
        let forever = e.tasks.iter().any(|t| t.state == State::Stalled(NEVER));
        if d.assists > 24 {
            let class = if forever { "blocked-by-stalled" } else { "livelock" };
            crate::report::violation(class, &format!("a caller (task {}) spins without making progress; task states {:?}", c.tid.get(), e.tasks.iter().map(|t| t.state).collect::<Vec<_>>()));
        }
        e.stop(c, State::Ready);
    })
}

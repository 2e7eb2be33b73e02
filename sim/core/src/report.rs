//! What a run tells the process that forked it: one block of shared memory.
use crate::raw;

macro_rules! stats { ($($v:ident => $n:literal),* $(,)?) => {
    #[derive(Clone, Copy)] #[repr(usize)] pub enum St { $($v),*, Count }
    pub const STAT_NAMES: &[&str] = &[$($n),*];
} }
stats! {
    Ops => "operations", Calls => "transform_calls", Plans => "planning_requests", Builds => "direct_constructions",
    Compared => "results_compared_bitwise", CheckedMath => "results_checked_against_definition",
    Crashes => "fault_panic_in_number_type", WinPanics => "fault_panic_in_window_function", AllocFails => "fault_allocation_failed",
    Stalls => "fault_caller_stalled", StalledForever => "fault_caller_stalled_for_ever", BadCalls => "fault_mis_sized_call", BadBuilds => "fault_invalid_construction",
    DirtyScratch => "fault_scratch_corrupted", DirtyOut => "fault_old_output_corrupted", Oversize => "fault_scratch_oversized", GuardPage => "placement_against_unmapped_page",
    WrongWindow => "fault_window_of_wrong_length", AllocDenied => "calls_run_with_every_allocation_denied", Canaries => "canary_checks", Ownership => "ownership_hash_checks",
    FutexWaits => "simulated_lock_waits", ClockReads => "simulated_clock_reads", EnvReads => "simulated_environment_reads", LeakChecks => "leak_checks", MemChecks => "memory_growth_checks",
    Drops => "instances_dropped", PlannerDrops => "planners_dropped", FrameLost => "fault_frame_lost", FrameDup => "fault_frame_duplicated", FrameReorder => "fault_frame_reordered",
    FrameCorrupt => "fault_frame_corrupted", DecCrash => "fault_decoder_crashed", DecRestart => "decoder_restarts", Blocks => "stream_blocks_checked", BlocksDamaged => "stream_blocks_legitimately_damaged",
    EncCrash => "fault_encoder_crashed_mid_frame", Partition => "fault_channel_partitioned", Budgets => "step_budgets_checked", Refused => "requests_refused",
    CustomInner => "caller_written_inner_transforms_run", FineRuns => "runs_at_instruction_granularity", SpinAssist => "spinning_callers_preempted",
    NestedConv => "convenience_method_calls", LoadTemp => "large_length_calls", SharedStores => "shared_locations_written_by_calls", HotSwitches => "switches_right_after_shared_accesses", Accessed => "calls_with_every_access_checked", WorkBudgets => "work_budgets_checked", FineCut => "fine_runs_cut_short", BurstCalls => "calls_in_bursts", InDestructor => "calls_made_while_unwinding", LongCut => "runs_cut_short_after_minutes",
}
pub const NSTAT: usize = St::Count as usize;
pub const MAXSLICES: usize = 40_000;

#[repr(C)]
pub struct Rep {
    pub status: u32, // 0 running, 1 ok, 2 violation, 3 harness error
    pub class_len: u32,
    pub msg_len: u32,
    pub nslices: u32,
    pub slices_truncated: u32,
    pub class: [u8; 64],
    pub msg: [u8; 4096],
    pub stats: [u64; NSTAT],
    pub trace: u64,
    pub switches: u64,
    pub inner_switches: u64,
    pub sim_time: u64,
    pub steps: u64,
    pub nontrivial: u64,
    pub beats: u64,
    pub maxerr: f64,
    pub digest: u64,
    pub slices: [(u32, u64); MAXSLICES],
}
pub static mut REP: *mut Rep = std::ptr::null_mut();
#[allow(static_mut_refs)]
pub fn rep() -> &'static mut Rep { unsafe { &mut *REP } }
pub fn init() { unsafe { REP = raw::map_shared(std::mem::size_of::<Rep>()) as *mut Rep } }
pub fn reset() {
    let r = rep();
    r.status = 0; r.class_len = 0; r.msg_len = 0; r.nslices = 0; r.slices_truncated = 0;
    r.stats = [0; NSTAT];
    r.trace = 0; r.switches = 0; r.inner_switches = 0; r.sim_time = 0; r.steps = 0; r.nontrivial = 0; r.beats = 0; r.maxerr = 0.0; r.digest = 0;
}
#[inline]
pub fn stat(s: St, n: u64) { unsafe { (*REP).stats[s as usize] += n } }

/// Quiet = while working out the reference results; violations there are reported like any other
pub fn violation(class: &str, msg: &str) -> ! { finish(2, class, msg) }
pub fn harness_error(msg: &str) -> ! { crate::raw::say(msg); finish(3, "harness", msg) }
fn finish(status: u32, class: &str, msg: &str) -> ! {
    crate::engine::ctx(|c| { c.no_yield.set(1 << 20); c.in_sut.set(0); });
    let r = rep();
    if r.status == 0 {
        let c = class.as_bytes();
        let n = c.len().min(64);
        r.class[..n].copy_from_slice(&c[..n]);
        r.class_len = n as u32;
        let m = msg.as_bytes();
        let n = m.len().min(4096);
        r.msg[..n].copy_from_slice(&m[..n]);
        r.msg_len = n as u32;
        r.status = status;
    }
    unsafe { raw::_exit(if status == 2 { 42 } else { 43 }) }
}
pub fn class() -> String { let r = rep(); String::from_utf8_lossy(&r.class[..r.class_len as usize]).into_owned() }
pub fn message() -> String { let r = rep(); String::from_utf8_lossy(&r.msg[..r.msg_len as usize]).into_owned() }

/// are ownership and canaries checked in this run?
pub static mut WATCH: bool = false;
pub fn watching() -> bool { unsafe { WATCH } }

//! Raw system calls, and the libc entry points the simulator takes over.
#![allow(clippy::missing_safety_doc)]
use std::arch::asm;
use std::ffi::{c_char, c_int, c_void};

#[inline(always)]
pub unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
         in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

pub const SYS_FUTEX: i64 = 202;
const SYS_GETRANDOM: i64 = 318;
const SYS_CLOCK_GETTIME: i64 = 228;

extern "C" {
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, status: *mut c_int, opt: c_int) -> c_int;
    pub fn _exit(code: c_int) -> !;
    pub fn mmap(a: *mut c_void, n: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
    pub fn mprotect(a: *mut c_void, n: usize, prot: c_int) -> c_int;
    pub fn setitimer(which: c_int, new: *const [i64; 4], old: *mut [i64; 4]) -> c_int;
    pub fn sigaction(sig: c_int, new: *const SigAction, old: *mut SigAction) -> c_int;
    pub fn personality(p: u64) -> c_int;
    pub fn __errno_location() -> *mut c_int;
    pub fn prctl(op: c_int, a: u64, b: u64, c: u64, d: u64) -> c_int;
    static mut environ: *const *const c_char;
}
#[repr(C)]
pub struct SigAction { pub handler: usize, pub mask: [u64; 16], pub flags: c_int, pub restorer: usize }

pub const PROT_NONE: c_int = 0;
pub const PROT_RW: c_int = 3;
pub const MAP_SHARED: c_int = 1;
pub const MAP_PRIVATE: c_int = 2;
pub const MAP_ANON: c_int = 0x20;
pub const MAP_NORESERVE: c_int = 0x4000;
pub const MAP_FIXED_NOREPLACE: c_int = 0x100000;

pub fn map_shared(n: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), n, PROT_RW, MAP_SHARED | MAP_ANON | MAP_NORESERVE, -1, 0) };
    assert!(p as isize != -1, "mmap shared failed");
    p as *mut u8
}
pub fn map_at(addr: usize, n: usize) -> *mut u8 {
    let p = unsafe { mmap(addr as *mut c_void, n, PROT_RW, MAP_PRIVATE | MAP_ANON | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) };
    assert!(p as usize == addr, "mmap at fixed address failed");
    p as *mut u8
}

pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    sys6(SYS_FUTEX, addr as i64, 128, val as i64, 0, 0, 0);
}
pub unsafe fn futex_wake(addr: *const u32, n: i64) {
    sys6(SYS_FUTEX, addr as i64, 129, n, 0, 0, 0);
}

/// real time, for budgets of the driver only
pub fn now_ns() -> u64 {
    let mut ts = [0i64; 2];
    unsafe { sys6(SYS_CLOCK_GETTIME, 1, ts.as_mut_ptr() as i64, 0, 0, 0, 0) };
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}

// ---------------------------------------------------------------- seams in libc

/// every std lock, parker and once goes through here
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r = if n == SYS_FUTEX && crate::engine::in_sim_sut() {
        crate::engine::sim_futex(a as *const u32, b, c as u32, d as *const [i64; 2])
    } else {
        sys6(n, a, b, c, d, e, f)
    };
    if r < 0 && r > -4096 {
        *__errno_location() = (-r) as c_int;
        -1
    } else {
        r
    }
}

/// hash seeds
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    if crate::engine::env_active() {
        for i in 0..n { *p.add(i) = crate::engine::env_entropy(); }
        return n as isize;
    }
    let r = sys6(SYS_GETRANDOM, p as i64, n as i64, flags as i64, 0, 0, 0);
    if r < 0 { *__errno_location() = (-r) as c_int; -1 } else { r as isize }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut [i64; 2]) -> c_int {
    if crate::engine::in_sim_sut() {
        let t = crate::engine::env_clock();
        *ts = [(t / 1_000_000_000) as i64, (t % 1_000_000_000) as i64];
        return 0;
    }
    sys6(SYS_CLOCK_GETTIME, id as i64, ts as i64, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: c_int, fl: c_int, req: *const [i64; 2], rem: *mut [i64; 2]) -> c_int {
    if crate::engine::in_sim_sut() {
        crate::engine::sim_sleep((*req)[0] as u64 * 1_000_000_000 + (*req)[1] as u64);
        return 0;
    }
    -sys6(230, id as i64, fl as i64, req as i64, rem as i64, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], rem: *mut [i64; 2]) -> c_int {
    if crate::engine::in_sim_sut() {
        crate::engine::sim_sleep((*req)[0] as u64 * 1_000_000_000 + (*req)[1] as u64);
        return 0;
    }
    sys6(35, req as i64, rem as i64, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if crate::engine::in_sim_sut() { crate::engine::sim_yield(); return 0; }
    sys6(24, 0, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    if crate::engine::in_sim_sut() { return (crate::engine::env_fact(1) % 4_000_000) as c_int + 2; }
    sys6(39, 0, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: c_int, n: usize, mask: *mut u8) -> c_int {
    if crate::engine::in_sim_sut() && n >= 16 {
        // between 1 and 64 processors
        let k = 1 + crate::engine::env_fact(2) % 64;
        for i in 0..n { *mask.add(i) = 0; }
        for i in 0..k as usize { *mask.add(i / 8) |= 1 << (i % 8); }
        return 0;
    }
    let r = sys6(204, pid as i64, n as i64, mask as i64, 0, 0, 0);
    if r < 0 { *__errno_location() = (-r) as c_int; -1 } else { 0 }
}
/// environment variables the library might look at: absent or present at the simulator's whim
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
    if crate::engine::in_sim_sut() {
        return crate::engine::env_var(std::ffi::CStr::from_ptr(name).to_bytes());
    }
    let want = std::ffi::CStr::from_ptr(name).to_bytes();
    let mut p = environ;
    if p.is_null() { return std::ptr::null(); }
    while !(*p).is_null() {
        let e = std::ffi::CStr::from_ptr(*p).to_bytes();
        if e.len() > want.len() && e[want.len()] == b'=' && &e[..want.len()] == want {
            return (*p).add(want.len() + 1);
        }
        p = p.add(1);
    }
    std::ptr::null()
}


// files: what the library could find or leave on disk is a small store of the simulator's own, seeded per process,
// that reads back what was written and never reaches the real file system
struct VFile { path: u64, fd: c_int }
static mut VFS: [VFile; 64] = [const { VFile { path: 0, fd: -1 } }; 64];
unsafe fn path_key(p: *const c_char) -> u64 {
    let mut h = 0x517e;
    for &b in std::ffi::CStr::from_ptr(p).to_bytes() { h = crate::rng::mix2(h, b as u64); }
    h | 1
}
#[allow(static_mut_refs)]
unsafe fn vfile(p: *const c_char, create: bool) -> c_int {
    let k = path_key(p);
    let Some(f) = VFS.iter_mut().find(|f| f.path == k || f.path == 0) else { return -1 };
    if f.path == 0 {
        f.path = k;
        let seed = crate::engine::env_fact(k);
        if crate::engine::env_files() && seed & 1 == 1 {
            // somebody left a file
            f.fd = sys6(319, c"v".as_ptr() as i64, 0, 0, 0, 0, 0) as c_int;
            let mut r = crate::rng::Rng::new(seed);
            let mut b = [0u8; 200];
            let n = *r.pick(&[0usize, 2, 5, 64, 200]);
            let text = r.chance(2, 3);
            for x in &mut b { *x = if text { *r.pick(b"0123456789 \n=truenaive") } else { r.u64() as u8 } }
            if n > 0 { b[n - 1] = b'\n'; }
            sys6(1, f.fd as i64, b.as_ptr() as i64, n as i64, 0, 0, 0);
        }
    }
    if f.fd < 0 && create { f.fd = sys6(319, c"v".as_ptr() as i64, 0, 0, 0, 0, 0) as c_int; }
    f.fd
}
unsafe fn err(e: c_int) -> c_int { *__errno_location() = e; -1 }
unsafe fn vopen(p: *const c_char, fl: c_int) -> c_int {
    let fd = vfile(p, fl & 0o100 != 0);
    if fd < 0 { return err(2); }
    // a descriptor of its own, at the start of the file
    let mut name = *b"/proc/self/fd/\0\0\0\0\0\0\0\0";
    let (mut v, mut i) = (fd as u32, 14);
    let mut digits = [0u8; 8];
    let mut n = 0;
    loop { digits[n] = b'0' + (v % 10) as u8; n += 1; v /= 10; if v == 0 { break } }
    while n > 0 { n -= 1; name[i] = digits[n]; i += 1; }
    let r = sys6(2, name.as_ptr() as i64, (fl & !0o300) as i64, 0, 0, 0, 0);
    if r < 0 { err(-r as c_int) } else { r as c_int }
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, fl: c_int, mode: u32) -> c_int {
    if crate::engine::in_sim_sut() { return vopen(p, fl); }
    let r = sys6(2, p as i64, fl as i64, mode as i64, 0, 0, 0);
    if r < 0 { err(-r as c_int) } else { r as c_int }
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, p: *const c_char, fl: c_int, mask: u32, buf: *mut u8) -> c_int {
    let r = if crate::engine::in_sim_sut() && *p != 0 {
        let fd = vfile(p, false);
        if fd < 0 { -2 } else { sys6(332, fd as i64, c"".as_ptr() as i64, 0x1000, mask as i64, buf as i64, 0) }
    } else { sys6(332, dir as i64, p as i64, fl as i64, mask as i64, buf as i64, 0) };
    if r < 0 { err(-r as c_int) } else { r as c_int }
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if crate::engine::in_sim_sut() {
        if vfile(p, false) < 0 { return err(2); }
        let k = path_key(p);
        for f in VFS.iter_mut() { if f.path == k { f.fd = -1; } }
        return 0;
    }
    let r = sys6(87, p as i64, 0, 0, 0, 0, 0);
    if r < 0 { err(-r as c_int) } else { 0 }
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if crate::engine::in_sim_sut() {
        let fd = vfile(a, false);
        if fd < 0 { return err(2); }
        vfile(b, false);
        let (ka, kb) = (path_key(a), path_key(b));
        for f in VFS.iter_mut() { if f.path == ka { f.fd = -1 } else if f.path == kb { f.fd = fd } }
        return 0;
    }
    let r = sys6(82, a as i64, b as i64, 0, 0, 0, 0);
    if r < 0 { err(-r as c_int) } else { 0 }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: u32) -> c_int {
    if crate::engine::in_sim_sut() { return 0; }
    let r = sys6(83, p as i64, mode as i64, 0, 0, 0, 0);
    if r < 0 { err(-r as c_int) } else { 0 }
}
unsafe fn some_path(k: u64, buf: *mut u8, n: usize) -> usize {
    let t: &[u8] = match crate::engine::env_fact(k) % 4 { 0 => b"/", 1 => b"/opt/app/dct", 2 => b"/home/x", _ => b"/srv/7" };
    let l = t.len().min(n);
    std::ptr::copy_nonoverlapping(t.as_ptr(), buf, l);
    l
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut u8, n: usize) -> *mut u8 {
    if crate::engine::in_sim_sut() && n > 0 {
        let l = some_path(3, buf, n - 1);
        *buf.add(l) = 0;
        return buf;
    }
    let r = sys6(79, buf as i64, n as i64, 0, 0, 0, 0);
    if r < 0 { err(-r as c_int); std::ptr::null_mut() } else { buf }
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut u8, n: usize) -> isize {
    if crate::engine::in_sim_sut() { return some_path(path_key(p), buf, n) as isize; }
    let r = sys6(89, p as i64, buf as i64, n as i64, 0, 0, 0);
    if r < 0 { err(-r as c_int) as isize } else { r as isize }
}
/// the block of environment variables that programs can enumerate
pub unsafe fn fake_environ(seed: u64) {
    static mut PTRS: [*const c_char; 24] = [std::ptr::null(); 24];
    static TEXT: [&std::ffi::CStr; 23] = [c"HOME=/root", c"PATH=/bin", c"LANG=C", c"DCT=1", c"RUST_DCT=naive", c"RUSTDCT=1", c"RUST_DCT_NAIVE=1", c"RUST_BACKTRACE=0", c"NUM_THREADS=4",
        c"OMP_NUM_THREADS=1", c"RAYON_NUM_THREADS=3", c"RUST_LOG=debug", c"DEBUG=1", c"CI=1", c"RUST_DCT_PLAN=fft", c"FFTW_WISDOM=/w", c"TMPDIR=/tmp", c"USER=x", c"SHELL=/bin/sh", c"TERM=dumb", c"LC_ALL=C", c"HOSTNAME=h", c"PWD=/"];
    let mut n = 0;
    let mut r = crate::rng::Rng::new(seed);
    for t in TEXT { if r.chance(1, 2) { PTRS[n] = t.as_ptr(); n += 1; } }
    PTRS[n] = std::ptr::null();
    environ = &raw const PTRS as *const *const c_char;
}

/// straight to standard error
pub fn say(m: &str) {
    extern "C" { fn write(fd: i32, b: *const c_void, n: usize) -> isize; }
    unsafe { write(2, b"simulator: ".as_ptr() as _, 11); write(2, m.as_ptr() as _, m.len()); write(2, b"\n".as_ptr() as _, 1); }
}

/// keep this process on the k-th of the processors it may use (cheaper task switches); best effort
pub fn pin(k: usize) {
    unsafe {
        let mut m = [0u64; 16];
        if sys6(204, 0, 128, m.as_mut_ptr() as i64, 0, 0, 0) <= 0 { return; }
        let cpus: Vec<usize> = (0..1024).filter(|i| m[i / 64] >> (i % 64) & 1 == 1).collect();
        if cpus.is_empty() { return; }
        let c = cpus[k % cpus.len()];
        let mut o = [0u64; 16];
        o[c / 64] = 1 << (c % 64);
        sys6(203, 0, 128, o.as_ptr() as i64, 0, 0, 0);
    }
}

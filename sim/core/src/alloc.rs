//! The simulator's global allocator.  Memory the library asks for (while a thread is inside a library call of
//! a simulated run) comes from an arena with red zones, poison and accounting per owner; everything else goes
//! to the system allocator.
use crate::engine::{ctx, FIRED_ALLOC};
use crate::num::{P_FREED, P_RED, P_UNINIT};
use crate::report::{stat, St};
use std::alloc::{GlobalAlloc, Layout, System};

pub const BASE: usize = 0x6000_0000_0000;
pub const SIZE: usize = 3 << 30;
const RED: usize = 64;
const MAGIC: u64 = 0xA11C_0FFE_E5EE_D001;
pub const NTAG: usize = 64;

#[repr(C)]
struct Hdr { magic: u64, size: usize, total: usize, start: usize, tag: u32, live: u32, next_free: usize, seq: u64, _pad: u64 }
const HDR: usize = 64;

pub struct Heap {
    pub active: bool,
    top: usize,
    first: usize,
    pub live_bytes: [i64; NTAG],
    pub live_count: [i64; NTAG],
    free: [usize; 48],
    pub reuse: bool,
    /// 0 canary, 1 zero, 2 pseudo-random
    pub fill: u8,
    pub fill_seed: u64,
    pub skew: usize,
    seq: u64,
    pub total_allocs: u64,
}
pub static mut HEAP: Heap = Heap {
    active: false, top: 0, first: 0, live_bytes: [0; NTAG], live_count: [0; NTAG], free: [0; 48], reuse: false, fill: 0, fill_seed: 0, skew: 0, seq: 0, total_allocs: 0,
};
#[allow(static_mut_refs)]
pub fn heap() -> &'static mut Heap { unsafe { &mut HEAP } }

/// called once in the forked child, before any library code runs
pub fn start(shift: usize, reuse: bool, fill: u8, fill_seed: u64, skew: usize) {
    crate::raw::map_at(BASE, SIZE);
    let h = heap();
    h.top = BASE + shift;
    h.first = h.top;
    h.reuse = reuse;
    h.fill = fill;
    h.fill_seed = fill_seed;
    h.skew = skew;
    h.active = true;
}
pub fn mark() -> usize { let h = heap(); if h.active { h.top } else { usize::MAX } }
pub fn ours(p: usize) -> bool { (BASE..BASE + SIZE).contains(&p) }

unsafe fn fill(p: *mut u8, n: usize, pat: u64) {
    let w = p as *mut u64;
    for i in 0..n / 8 { w.add(i).write_unaligned(pat); }
    for i in n / 8 * 8..n { *p.add(i) = (pat >> (8 * (i % 8))) as u8; }
}
unsafe fn intact(p: *const u8, n: usize, pat: u64) -> bool {
    let w = p as *const u64;
    for i in 0..n / 8 { if w.add(i).read_unaligned() != pat { return false; } }
    for i in n / 8 * 8..n { if *p.add(i) != (pat >> (8 * (i % 8))) as u8 { return false; } }
    true
}
fn class(total: usize) -> usize { (usize::BITS - (total - 1).leading_zeros()) as usize }

impl Heap {
    unsafe fn alloc(&mut self, l: Layout, tag: u32) -> *mut u8 {
        self.seq += 1;
        self.total_allocs += 1;
        let align = l.align().max(16);
        let size = l.size();
        // header | red zone | (aligned) payload | red zone
        let need = HDR + RED + align + 64 + size + RED + 8;
        let total = if self.reuse { 1usize << class(need) } else { (need + 15) & !15 };
        let mut b = 0;
        if self.reuse {
            let c = class(total);
            if self.free[c] != 0 {
                b = self.free[c];
                self.free[c] = (*(b as *const Hdr)).next_free;
            }
        }
        let stale = b != 0;
        if b == 0 {
            b = self.top;
            if b + total > BASE + SIZE { return std::ptr::null_mut(); }
            self.top += total;
        }
        let mut p = (b + HDR + RED + align - 1) & !(align - 1);
        if self.skew != 0 && align <= 16 { p += (crate::rng::mix2(self.fill_seed, self.seq) as usize % 4) * 16; }
        let h = b as *mut Hdr;
        h.write(Hdr { magic: MAGIC, size, total, start: p, tag, live: 1, next_free: 0, seq: self.seq, _pad: 0 });
        // the word before the payload tells where the header is
        fill((b + HDR) as *mut u8, p - b - HDR, P_RED);
        *((p - 8) as *mut usize) = b;
        fill((p + size) as *mut u8, RED.min(b + total - p - size), P_RED);
        if !stale {
            match self.fill {
                0 => fill(p as *mut u8, size, P_UNINIT),
                1 => (),
                _ => {
                    let mut r = crate::rng::mix2(self.fill_seed, self.seq);
                    let w = p as *mut u64;
                    for i in 0..size / 8 { r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); w.add(i).write_unaligned(r & !(0x7ff0 << 48) | (0x3ff << 52)); }
                }
            }
        }
        self.live_bytes[tag as usize] += size as i64;
        self.live_count[tag as usize] += 1;
        p as *mut u8
    }
    unsafe fn free(&mut self, p: *mut u8) {
        let b = *((p as usize - 8) as *const usize);
        if b < self.first || b >= self.top || (*(b as *const Hdr)).magic != MAGIC {
            crate::report::violation("heap-corrupted", "the memory just before a heap block was overwritten");
        }
        let h = &mut *(b as *mut Hdr);
        if h.live != 1 || h.start != p as usize { crate::report::violation("double-free", "a heap block was released twice"); }
        check_block(h, b);
        h.live = 0;
        self.live_bytes[h.tag as usize] -= h.size as i64;
        self.live_count[h.tag as usize] -= 1;
        if self.reuse {
            // stale contents stay, as with a real allocator, except for a poisoned middle
            let c = class(h.total);
            h.next_free = self.free[c];
            self.free[c] = b;
        } else {
            fill(p, h.size, P_FREED);
        }
    }
}
unsafe fn check_block(h: &Hdr, b: usize) {
    let p = h.start;
    if !intact((b + HDR) as *const u8, p - 8 - b - HDR, P_RED) || *((p - 8) as *const usize) != b {
        crate::report::violation("heap-corrupted", "the memory just before a heap block was overwritten");
    }
    if !intact((p + h.size) as *const u8, RED.min(b + h.total - p - h.size), P_RED) {
        crate::report::violation("heap-corrupted", "the memory just after a heap block was overwritten");
    }
}
/// walk all blocks ever handed out: red zones intact, freed blocks untouched
pub fn audit() {
    let h = heap();
    if !h.active || h.reuse { return; }
    let mut b = h.first;
    while b < h.top {
        unsafe {
            let k = &*(b as *const Hdr);
            if k.magic != MAGIC { crate::report::violation("heap-corrupted", "a heap block header was overwritten"); }
            check_block(k, b);
            if k.live == 0 && !intact(k.start as *const u8, k.size, P_FREED) {
                crate::report::violation("write-after-free", "memory was written after it had been released");
            }
            b += k.total;
        }
    }
}
pub fn describe_live(tag: u32) -> String {
    let h = heap();
    if h.reuse { return String::new(); }
    let mut s = String::new();
    let mut b = h.first;
    while b < h.top {
        unsafe {
            let k = &*(b as *const Hdr);
            if k.live == 1 && k.tag == tag && s.len() < 200 { s.push_str(&format!(" {}B(#{})", k.size, k.seq)); }
            b += k.total;
        }
    }
    s
}
pub fn live(tag: u32) -> (i64, i64) { let h = heap(); (h.live_bytes[tag as usize], h.live_count[tag as usize]) }
pub fn live_all() -> (i64, i64) { let h = heap(); (h.live_bytes.iter().sum(), h.live_count.iter().sum()) }

pub struct Glob;
unsafe impl GlobalAlloc for Glob {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        #[allow(static_mut_refs)]
        if !HEAP.active { return System.alloc(l); }
        match enter() {
            None => System.alloc(l),
            Some(None) => std::ptr::null_mut(),
            Some(Some(tag)) => {
                let p = heap().alloc(l, tag);
                ctx(|c| c.no_yield.set(c.no_yield.get() - 1));
                p
            }
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        #[allow(static_mut_refs)]
        if !HEAP.active { return System.alloc_zeroed(l); }
        let p = self.alloc(l);
        if !p.is_null() { std::ptr::write_bytes(p, 0, l.size()); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ours(p as usize) {
            ctx(|c| {
                c.no_yield.set(c.no_yield.get() + 1);
                heap().free(p);
                c.no_yield.set(c.no_yield.get() - 1);
            });
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        #[allow(static_mut_refs)]
        if !HEAP.active || (!ours(p as usize) && !ctx(|c| c.in_sut.get() > 0)) { return System.realloc(p, l, n); }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
/// None: not the library's; Some(None): this allocation fails; Some(Some(tag)): serve it from the arena
fn enter() -> Option<Option<u32>> {
    ctx(|c| {
        if c.in_sut.get() == 0 { return None; }
        crate::engine::point();
        let k = c.alloc_n.get();
        c.alloc_n.set(k + 1);
        if k >= c.alloc_fail_from.get() && k < c.alloc_fail_to.get() && !std::thread::panicking() {
            c.fired.set(c.fired.get() | FIRED_ALLOC);
            stat(St::AllocFails, 1);
            return Some(None);
        }
        c.no_yield.set(c.no_yield.get() + 1);
        Some(Some(c.tag.get()))
    })
}

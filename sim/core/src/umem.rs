//! Caller memory: where the buffers and scratch passed to the library live, with canaries or unmapped pages next to them.
use crate::num::{Real, P_GUARD};
use crate::raw;
use crate::report::{stat, St};

// mode 0 packed, 1 ends at an unmapped page, 2 starts after an unmapped page
crate::rec! { struct Place { mode: u8, off: u8, gap: u8 } }
pub const BASE: usize = 0x6100_0000_0000;
pub const SIZE: usize = 3 << 30;
const PAGE: usize = 4096;
static mut TOP: usize = 0;

#[derive(Clone, Copy)]
pub struct Region { pub ptr: usize, pub len: usize, pub pre: usize, pub post: usize, pub elem: usize }

pub fn start() {
    raw::map_at(BASE, SIZE);
    unsafe { TOP = BASE + PAGE }
}
unsafe fn paint<T: Real>(a: usize, n: usize) {
    let p = a as *mut T;
    for i in 0..n { p.add(i).write(T::from_raw(P_GUARD)) }
}
pub fn get<T: Real>(len: usize, pl: &Place) -> Region {
    let e = std::mem::size_of::<T>();
    unsafe {
        let bytes = len * e;
        let r = match pl.mode {
            1 => {
                let a = (TOP + PAGE - 1) & !(PAGE - 1);
                let lead = 8 * e;
                let pages = (lead + bytes + PAGE - 1) / PAGE;
                let end = a + pages * PAGE;
                raw::mprotect(end as *mut _, PAGE, raw::PROT_NONE);
                TOP = end + PAGE;
                stat(St::GuardPage, 1);
                Region { ptr: end - bytes, len, pre: 8, post: 0, elem: e }
            }
            2 => {
                let a = (TOP + PAGE - 1) & !(PAGE - 1);
                raw::mprotect(a as *mut _, PAGE, raw::PROT_NONE);
                let p = a + PAGE;
                TOP = p + bytes + 8 * e;
                stat(St::GuardPage, 1);
                Region { ptr: p, len, pre: 0, post: 8, elem: e }
            }
            _ => {
                let g = pl.gap as usize;
                let mut p = TOP + g * e;
                if pl.off > 0 || g > 3 { p = ((p + 63) & !63) + pl.off as usize * e; }
                let pre = if pl.off > 0 || g > 3 { g } else { g.min((p - TOP) / e) };
                TOP = p + bytes + g * e;
                Region { ptr: p, len, pre, post: g, elem: e }
            }
        };
        if TOP > BASE + SIZE - (1 << 20) { crate::report::harness_error("caller memory exhausted"); }
        paint::<T>(r.ptr - r.pre * e, r.pre);
        paint::<T>(r.ptr + bytes, r.post);
        r
    }
}
impl Region {
    pub unsafe fn slice<T: Real>(&self) -> &'static mut [T] { std::slice::from_raw_parts_mut(self.ptr as *mut T, self.len) }
    pub fn guards_ok(&self) -> bool {
        stat(St::Canaries, 1);
        unsafe {
            let ok = |a: usize, n: usize| -> bool {
                if self.elem == 8 {
                    (0..n).all(|i| *((a + 8 * i) as *const u64) == P_GUARD)
                } else {
                    let w = (P_GUARD ^ (P_GUARD >> 32)) as u32;
                    (0..n).all(|i| *((a + 4 * i) as *const u32) == w)
                }
            };
            ok(self.ptr - self.pre * self.elem, self.pre) && ok(self.ptr + self.len * self.elem, self.post)
        }
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        unsafe {
            if self.elem == 8 {
                for i in 0..self.len { h = (h ^ *((self.ptr + 8 * i) as *const u64)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23); }
            } else {
                for i in 0..self.len { h = (h ^ *((self.ptr + 4 * i) as *const u32) as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23); }
            }
        }
        h
    }
}

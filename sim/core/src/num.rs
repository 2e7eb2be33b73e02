//! The number types the library is instantiated with.  `Sim64` is the seam: an f64 whose every operation is
//! a scheduling point, a crash point and a step of simulated time.
use crate::engine::tick;
use rustdct::num_traits::{FloatConst, FromPrimitive, Num, One, Signed, Zero};
use rustdct::DctNum;
use std::ops::*;

pub const P_GUARD: u64 = 0x7ff4_dead_beef_0001;
pub const P_FREED: u64 = 0x7ff4_dead_beef_0002;
pub const P_UNINIT: u64 = 0x7ff4_dead_beef_0003;
pub const P_RED: u64 = 0x7ff4_dead_beef_0004;

pub trait Real: DctNum {
    const SIM: bool;
    const EPS: f64;
    fn of(x: f64) -> Self;
    fn to(self) -> f64;
    fn bits(self) -> u64;
    fn from_raw(b: u64) -> Self;
    /// inverse of `bits`
    fn from_bits(b: u64) -> Self;
}
impl Real for f64 {
    const SIM: bool = false;
    const EPS: f64 = f64::EPSILON;
    fn of(x: f64) -> f64 { x }
    fn to(self) -> f64 { self }
    fn bits(self) -> u64 { if self.is_nan() { 0x7ff8_0000_0000_0000 } else { self.to_bits() } }
    fn from_raw(b: u64) -> f64 { f64::from_bits(b) }
    fn from_bits(b: u64) -> f64 { f64::from_bits(b) }
}
impl Real for f32 {
    const SIM: bool = false;
    const EPS: f64 = f32::EPSILON as f64;
    fn of(x: f64) -> f32 { x as f32 }
    fn to(self) -> f64 { self as f64 }
    fn bits(self) -> u64 { if self.is_nan() { 0x7fc0_0000 } else { self.to_bits() as u64 } }
    fn from_raw(b: u64) -> f32 { f32::from_bits((b ^ (b >> 32)) as u32) }
    fn from_bits(b: u64) -> f32 { f32::from_bits(b as u32) }
}
#[derive(Copy)]
#[repr(transparent)]
pub struct Sim64(pub f64);
impl Real for Sim64 {
    const SIM: bool = true;
    const EPS: f64 = f64::EPSILON;
    fn of(x: f64) -> Sim64 { Sim64(x) }
    fn to(self) -> f64 { self.0 }
    fn bits(self) -> u64 { if self.0.is_nan() { 0x7ff8_0000_0000_0000 } else { self.0.to_bits() } }
    fn from_raw(b: u64) -> Sim64 { Sim64(f64::from_bits(b)) }
    fn from_bits(b: u64) -> Sim64 { Sim64(f64::from_bits(b)) }
}
#[inline(always)]
fn chk(x: f64) -> f64 {
    let b = x.to_bits();
    if b & 0xffff_ffff_ffff_fff8 == 0x7ff4_dead_beef_0000 { poison(b) }
    x
}
#[cold]
#[inline(never)]
fn poison(b: u64) {
    let what = match b {
        P_GUARD => "memory next to the caller's slices",
        P_FREED => "memory that was already freed",
        P_UNINIT => "memory that was never initialised",
        P_RED => "memory next to a heap block",
        _ => return,
    };
    if !crate::report::watching() { return; }
    crate::report::violation("foreign-read", &format!("the library computed with a value read from {}", what));
}
macro_rules! bin { ($tr:ident, $m:ident) => {
    impl $tr for Sim64 { type Output = Sim64; #[inline(never)] fn $m(self, o: Sim64) -> Sim64 { tick(); Sim64(chk(self.0).$m(chk(o.0))) } }
    impl<'a> $tr<&'a Sim64> for Sim64 { type Output = Sim64; #[inline] fn $m(self, o: &Sim64) -> Sim64 { $tr::$m(self, *o) } }
} }
bin!(Add, add);
bin!(Sub, sub);
bin!(Mul, mul);
bin!(Div, div);
bin!(Rem, rem);
impl Neg for Sim64 { type Output = Sim64; #[inline(never)] fn neg(self) -> Sim64 { tick(); Sim64(-chk(self.0)) } }
#[allow(clippy::non_canonical_clone_impl)]
impl Clone for Sim64 { #[inline(never)] fn clone(&self) -> Sim64 { tick(); *self } }
impl PartialEq for Sim64 { #[inline(never)] fn eq(&self, o: &Sim64) -> bool { tick(); chk(self.0) == chk(o.0) } }
impl PartialOrd for Sim64 { #[inline(never)] fn partial_cmp(&self, o: &Sim64) -> Option<std::cmp::Ordering> { tick(); chk(self.0).partial_cmp(&chk(o.0)) } }
impl std::fmt::Debug for Sim64 { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { tick(); write!(f, "{}", self.0) } }
impl Zero for Sim64 { #[inline(never)] fn zero() -> Sim64 { tick(); Sim64(0.0) } #[inline(never)] fn is_zero(&self) -> bool { tick(); chk(self.0) == 0.0 } }
impl One for Sim64 { #[inline(never)] fn one() -> Sim64 { tick(); Sim64(1.0) } }
impl Num for Sim64 {
    type FromStrRadixErr = ();
    fn from_str_radix(s: &str, _: u32) -> Result<Sim64, ()> { tick(); s.parse().map(Sim64).map_err(|_| ()) }
}
impl Signed for Sim64 {
    fn abs(&self) -> Sim64 { tick(); Sim64(chk(self.0).abs()) }
    fn abs_sub(&self, o: &Sim64) -> Sim64 { tick(); Sim64((chk(self.0) - chk(o.0)).max(0.0)) }
    fn signum(&self) -> Sim64 { tick(); Sim64(chk(self.0).signum()) }
    fn is_positive(&self) -> bool { tick(); chk(self.0) > 0.0 }
    fn is_negative(&self) -> bool { tick(); chk(self.0) < 0.0 }
}
impl FromPrimitive for Sim64 {
    fn from_i64(n: i64) -> Option<Sim64> { tick(); Some(Sim64(n as f64)) }
    fn from_u64(n: u64) -> Option<Sim64> { tick(); Some(Sim64(n as f64)) }
    fn from_f32(n: f32) -> Option<Sim64> { tick(); Some(Sim64(n as f64)) }
    fn from_f64(n: f64) -> Option<Sim64> { tick(); Some(Sim64(n)) }
}
macro_rules! consts { ($($n:ident),*) => { $( fn $n() -> Sim64 { tick(); Sim64(<f64 as FloatConst>::$n()) } )* } }
#[allow(non_snake_case)]
impl FloatConst for Sim64 {
    consts!(E, FRAC_1_PI, FRAC_1_SQRT_2, FRAC_2_PI, FRAC_2_SQRT_PI, FRAC_PI_2, FRAC_PI_3, FRAC_PI_4, FRAC_PI_6, FRAC_PI_8,
        LN_10, LN_2, LOG10_E, LOG2_E, PI, SQRT_2, TAU, LOG10_2, LOG2_10);
}

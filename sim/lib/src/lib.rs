//! Everything the library can hand out, behind one handle, and the recipes to build it.  All library code is
//! instantiated in this crate (see `Lib`), which one of the builds compiles with a callback at every branch,
//! load and store.
#![allow(clippy::all)]
pub use dctcore::*;
pub use dctcore::kinds::*;
use crate::engine::tick;
use crate::num::{Real, Sim64};
use crate::report::{stat, St};
use crate::rng::Rng;
use rustdct::algorithm::type2and3_butterflies::*;
use rustdct::algorithm::*;
use rustdct::mdct::{window_fn, Mdct, MdctNaive, MdctViaDct4};
use rustdct::num_complex::Complex;
use rustdct::rustfft::{Direction, Fft, FftDirection, FftPlanner, FftPlannerScalar, Length};
use rustdct::*;
use std::sync::Arc;

pub enum Inst<T: Real> {
    Dct1(Arc<dyn Dct1<T>>),
    Dst1(Arc<dyn Dst1<T>>),
    T23(Arc<dyn TransformType2And3<T>>),
    T4(Arc<dyn TransformType4<T>>),
    Dct5(Arc<dyn Dct5<T>>),
    Dst5(Arc<dyn Dst5<T>>),
    Dct67(Arc<dyn Dct6And7<T>>),
    Dst67(Arc<dyn Dst6And7<T>>),
    Dct8(Arc<dyn Dct8<T>>),
    Dst8(Arc<dyn Dst8<T>>),
    Mdct(Arc<dyn Mdct<T>>),
}
macro_rules! each { ($s:expr, $x:ident => $e:expr) => { match $s {
    Inst::Dct1($x) => $e, Inst::Dst1($x) => $e, Inst::T23($x) => $e, Inst::T4($x) => $e, Inst::Dct5($x) => $e, Inst::Dst5($x) => $e,
    Inst::Dct67($x) => $e, Inst::Dst67($x) => $e, Inst::Dct8($x) => $e, Inst::Dst8($x) => $e, Inst::Mdct($x) => $e,
} } }
impl<T: Real> Clone for Inst<T> {
    fn clone(&self) -> Self {
        match self {
            Inst::Dct1(x) => Inst::Dct1(x.clone()), Inst::Dst1(x) => Inst::Dst1(x.clone()), Inst::T23(x) => Inst::T23(x.clone()),
            Inst::T4(x) => Inst::T4(x.clone()), Inst::Dct5(x) => Inst::Dct5(x.clone()), Inst::Dst5(x) => Inst::Dst5(x.clone()),
            Inst::Dct67(x) => Inst::Dct67(x.clone()), Inst::Dst67(x) => Inst::Dst67(x.clone()), Inst::Dct8(x) => Inst::Dct8(x.clone()),
            Inst::Dst8(x) => Inst::Dst8(x.clone()), Inst::Mdct(x) => Inst::Mdct(x.clone()),
        }
    }
}
impl<T: Real> Inst<T> {
    pub fn len(&self) -> usize { each!(self, x => x.len()) }
    pub fn scratch(&self) -> usize { each!(self, x => x.get_scratch_len()) }
    /// in-place kinds; `None` scratch = the convenience method
    pub fn run(&self, k: Kind, buf: &mut [T], scr: Option<&mut [T]>) {
        macro_rules! go { ($x:expr, $a:ident, $b:ident) => { match scr { Some(s) => $x.$b(buf, s), None => $x.$a(buf) } } }
        match (self, k) {
            (Inst::Dct1(x), Kind::Dct1) => go!(x, process_dct1, process_dct1_with_scratch),
            (Inst::Dst1(x), Kind::Dst1) => go!(x, process_dst1, process_dst1_with_scratch),
            (Inst::T23(x), Kind::Dct2) => go!(x, process_dct2, process_dct2_with_scratch),
            (Inst::T23(x), Kind::Dct3) => go!(x, process_dct3, process_dct3_with_scratch),
            (Inst::T23(x), Kind::Dst2) => go!(x, process_dst2, process_dst2_with_scratch),
            (Inst::T23(x), Kind::Dst3) => go!(x, process_dst3, process_dst3_with_scratch),
            (Inst::T4(x), Kind::Dct4) => go!(x, process_dct4, process_dct4_with_scratch),
            (Inst::T4(x), Kind::Dst4) => go!(x, process_dst4, process_dst4_with_scratch),
            (Inst::Dct5(x), Kind::Dct5) => go!(x, process_dct5, process_dct5_with_scratch),
            (Inst::Dst5(x), Kind::Dst5) => go!(x, process_dst5, process_dst5_with_scratch),
            (Inst::Dct67(x), Kind::Dct6) => go!(x, process_dct6, process_dct6_with_scratch),
            (Inst::Dct67(x), Kind::Dct7) => go!(x, process_dct7, process_dct7_with_scratch),
            (Inst::Dst67(x), Kind::Dst6) => go!(x, process_dst6, process_dst6_with_scratch),
            (Inst::Dst67(x), Kind::Dst7) => go!(x, process_dst7, process_dst7_with_scratch),
            (Inst::Dct8(x), Kind::Dct8) => go!(x, process_dct8, process_dct8_with_scratch),
            (Inst::Dst8(x), Kind::Dst8) => go!(x, process_dst8, process_dst8_with_scratch),
            _ => crate::report::harness_error(&format!("instance cannot run {:?}", k)),
        }
    }
    /// MDCT: a, b inputs, c output.  IMDCT: a input, b, c outputs.
    pub fn run_mdct(&self, k: Kind, a: &mut [T], b: &mut [T], c: &mut [T], s: &mut [T]) {
        match (self, k) {
            (Inst::Mdct(x), Kind::Mdct) => x.process_mdct_with_scratch(a, b, c, s),
            (Inst::Mdct(x), Kind::Imdct) => x.process_imdct_with_scratch(a, b, c, s),
            _ => crate::report::harness_error("not an mdct"),
        }
    }
}

// ------------------------------------------------------------------ windows
pub fn window<T: Real>(w: &Win, len: usize) -> Vec<T> {
    match w {
        Win::Mp3 => window_fn::mp3(len),
        Win::Mp3Inv => window_fn::mp3_invertible(len),
        Win::Vorbis => window_fn::vorbis(len),
        Win::VorbisInv => window_fn::vorbis_invertible(len),
        Win::One => window_fn::one(len),
        Win::Inv => window_fn::invertible(len),
        Win::Rand { .. } | Win::Near { .. } => window_ref(w, len).into_iter().map(T::of).collect(),
    }
}
/// the documented window values, worked out independently of the library
pub fn window_ref(w: &Win, len: usize) -> Vec<f64> {
    let pi = std::f64::consts::PI;
    let base = |i: usize| (pi * (2 * i + 1) as f64 / (2 * len) as f64).sin();
    let norm = (4.0 / len as f64).sqrt();
    let vor = |i: usize| { let s = base(i); (pi / 2.0 * s * s).sin() };
    match w {
        Win::Mp3 => (0..len).map(base).collect(),
        Win::Mp3Inv => (0..len).map(|i| base(i) * norm).collect(),
        Win::Vorbis => (0..len).map(vor).collect(),
        Win::VorbisInv => (0..len).map(|i| vor(i) * norm).collect(),
        Win::One => vec![1.0; len],
        Win::Inv => vec![(2.0 / len as f64).sqrt(); len],
        Win::Rand { seed } => { let mut r = Rng::new(*seed); (0..len).map(|_| (r.unit() * 2.0 - 0.5) as f32 as f64).collect() }
        // like another window, except for a detail
        Win::Near { base, how, at } => {
            let mut v = window_ref(&near_base(*base), len);
            let n = v.len().max(1) as u64;
            let (i, j) = ((at % n) as usize, (at / n % n) as usize);
            match how {
                0 => v[i] += 0.25 + 0.5 * v[i].abs(),
                1 => v.reverse(),
                2 => v.swap(i, j),
                3 => for x in v.iter_mut() { *x = -*x },
                4 => for x in v.iter_mut().skip(1).take((n as usize).saturating_sub(2)) { *x *= 0.5 },
                5 => v[i] = -v[i],
                6 => for x in v.iter_mut().take(i) { *x *= 0.75 },
                7 => v.rotate_left(i),
                // silent in places, as the low-overlap windows of real codecs are
                8 => for x in v.iter_mut().take(i / 2) { *x = 0.0 },
                9 => for x in v.iter_mut().skip(n as usize - i / 2) { *x = 0.0 },
                10 => for x in v.iter_mut().skip(i).take(j.max(2)) { *x = 0.0 },
                _ => { let q = i / 4; for k in 0..q { v[k] = 0.0; let e = v.len() - 1 - k; v[e] = 0.0 } }
            }
            v
        }
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum WinFault { None, PanicBefore, PanicAfter, Len(usize) }
pub fn faulty_window<T: Real>(w: &Win, f: WinFault, len: usize) -> Vec<T> {
    let boom = || -> ! {
        crate::engine::ctx(|c| { c.fired.set(c.fired.get() | crate::engine::FIRED_WIN); c.unwinding.set(true); });
        stat(St::WinPanics, 1);
        std::panic::resume_unwind(Box::new(crate::engine::Injected))
    };
    match f {
        WinFault::None => window(w, len),
        WinFault::PanicBefore => boom(),
        WinFault::PanicAfter => { let _v: Vec<T> = window(w, len); boom() }
        WinFault::Len(n) => { stat(St::WrongWindow, 1); let v: Vec<T> = window(w, n.max(1)); let mut v = v; v.truncate(n); v }
    }
}

// ------------------------------------------------------------------ construction
pub fn plan<T: Real>(p: &mut DctPlanner<T>, fam: Fam, req: Req, len: usize, win: &Win, wf: WinFault) -> Inst<T> {
    match (fam, req) {
        (Fam::Dct1, _) => Inst::Dct1(p.plan_dct1(len)),
        (Fam::Dst1, _) => Inst::Dst1(p.plan_dst1(len)),
        (Fam::T23, Req::A) => Inst::T23(p.plan_dct2(len)),
        (Fam::T23, Req::B) => Inst::T23(p.plan_dct3(len)),
        (Fam::T23, Req::C) => Inst::T23(p.plan_dst2(len)),
        (Fam::T23, Req::D) => Inst::T23(p.plan_dst3(len)),
        (Fam::T4, Req::A | Req::C) => Inst::T4(p.plan_dct4(len)),
        (Fam::T4, _) => Inst::T4(p.plan_dst4(len)),
        (Fam::Dct5, _) => Inst::Dct5(p.plan_dct5(len)),
        (Fam::Dst5, _) => Inst::Dst5(p.plan_dst5(len)),
        (Fam::Dct67, Req::A | Req::C) => Inst::Dct67(p.plan_dct6(len)),
        (Fam::Dct67, _) => Inst::Dct67(p.plan_dct7(len)),
        (Fam::Dst67, Req::A | Req::C) => Inst::Dst67(p.plan_dst6(len)),
        (Fam::Dst67, _) => Inst::Dst67(p.plan_dst7(len)),
        (Fam::Dct8, _) => Inst::Dct8(p.plan_dct8(len)),
        (Fam::Dst8, _) => Inst::Dst8(p.plan_dst8(len)),
        (Fam::Mdct, _) => { let w = win.clone(); Inst::Mdct(p.plan_mdct(len, move |n| faulty_window(&w, wf, n))) }
    }
}
pub fn fft_of<T: Real>(src: &FftSrc, len: usize, inverse: bool) -> Arc<dyn Fft<T>> {
    let d = if inverse { FftDirection::Inverse } else { FftDirection::Forward };
    match src {
        FftSrc::Planner => FftPlanner::<T>::new().plan_fft(len, d),
        FftSrc::Scalar => FftPlannerScalar::<T>::new().plan_fft(len, d),
        FftSrc::Custom { need } => Arc::new(CustomFft::<T>::new(len, *need, d)),
    }
}
pub fn fft_len(fam: Fam, len: usize) -> usize {
    match fam { Fam::Dct1 => 2 * (len - 1), Fam::Dst1 => 2 * (len + 1), Fam::Dst67 => 2 * len + 1, _ => len }
}
pub fn build<T: Real>(r: &Recipe, wf: WinFault) -> Inst<T> {
    match r {
        Recipe::Planned { fam, len, win } => { let mut p = DctPlanner::new(); plan(&mut p, *fam, Req::A, *len, win, wf) }
        Recipe::Naive { fam, len, win } => match fam {
            Fam::Dct1 => Inst::Dct1(Arc::new(Dct1Naive::new(*len))),
            Fam::Dst1 => Inst::Dst1(Arc::new(Dst1Naive::new(*len))),
            Fam::T23 => Inst::T23(Arc::new(Type2And3Naive::new(*len))),
            Fam::T4 => Inst::T4(Arc::new(Type4Naive::new(*len))),
            Fam::Dct5 => Inst::Dct5(Arc::new(Dct5Naive::new(*len))),
            Fam::Dst5 => Inst::Dst5(Arc::new(Dst5Naive::new(*len))),
            Fam::Dct67 => Inst::Dct67(Arc::new(Dct6And7Naive::new(*len))),
            Fam::Dst67 => Inst::Dst67(Arc::new(Dst6And7Naive::new(*len))),
            Fam::Dct8 => Inst::Dct8(Arc::new(Dct8Naive::new(*len))),
            Fam::Dst8 => Inst::Dst8(Arc::new(Dst8Naive::new(*len))),
            Fam::Mdct => { let w = win.clone(); Inst::Mdct(Arc::new(MdctNaive::new(*len, move |n| faulty_window(&w, wf, n)))) }
        },
        Recipe::ViaFft { fam, len, fft } => {
            let f = fft_of::<T>(fft, fft_len(*fam, *len), false);
            via_fft(*fam, f)
        }
        Recipe::Bfly { len } => Inst::T23(match len {
            2 => Arc::new(Type2And3Butterfly2::new()),
            3 => Arc::new(Type2And3Butterfly3::new()),
            4 => Arc::new(Type2And3Butterfly4::new()),
            8 => Arc::new(Type2And3Butterfly8::new()),
            _ => Arc::new(Type2And3Butterfly16::new()),
        }),
        Recipe::Split { half, quarter } => Inst::T23(Arc::new(Type2And3SplitRadix::new(t23(half), t23(quarter)))),
        Recipe::T4Even { inner } => Inst::T4(Arc::new(Type4ConvertToType3Even::new(t23(inner)))),
        Recipe::MdctVia { inner, win } => {
            let i = match build::<T>(inner, WinFault::None) { Inst::T4(x) => x, _ => panic!("recipe: T4 expected") };
            let w = win.clone();
            Inst::Mdct(Arc::new(MdctViaDct4::new(i, move |n| faulty_window(&w, wf, n))))
        }
        Recipe::Custom { fam, len, need } => match fam {
            Fam::T23 => Inst::T23(Arc::new(Custom::<T>::new(*len, *need))),
            _ => Inst::T4(Arc::new(Custom::<T>::new(*len, *need))),
        },
    }
}
pub fn via_fft<T: Real>(fam: Fam, f: Arc<dyn Fft<T>>) -> Inst<T> {
    match fam {
        Fam::Dct1 => Inst::Dct1(Arc::new(Dct1ConvertToFft::new(f))),
        Fam::Dst1 => Inst::Dst1(Arc::new(Dst1ConvertToFft::new(f))),
        Fam::T23 => Inst::T23(Arc::new(Type2And3ConvertToFft::new(f))),
        Fam::T4 => Inst::T4(Arc::new(Type4ConvertToFftOdd::new(f))),
        _ => Inst::Dst67(Arc::new(Dst6And7ConvertToFft::new(f))),
    }
}
pub fn t23<T: Real>(r: &Recipe) -> Arc<dyn TransformType2And3<T>> {
    match build::<T>(r, WinFault::None) { Inst::T23(x) => x, _ => panic!("recipe: T23 expected") }
}

// ------------------------------------------------------------------ caller-written inner transforms
pub const CUSTOM_MAX: usize = 256;
/// a naive DCT2/3, DST2/3, DCT4, DST4 with an arbitrary scratch requirement, which it scribbles over
pub struct Custom<T> { len: usize, need: usize, tab: Vec<T> }
impl<T: Real> Custom<T> {
    fn new(len: usize, need: usize) -> Self {
        assert!(len <= CUSTOM_MAX);
        let per = 8 * len;
        Custom { len, need, tab: (0..per).map(|i| T::of((std::f64::consts::PI * i as f64 / (4 * len) as f64).cos())).collect() }
    }
    fn go(&self, k: Kind, buf: &mut [T], scr: &mut [T]) {
        stat(St::CustomInner, 1);
        assert_eq!(buf.len(), self.len, "inner transform called with a wrong buffer length");
        assert!(scr.len() >= self.need, "inner transform needs {} scratch, was given {}", self.need, scr.len());
        let d = crate::refr::def(k, self.len);
        let per = 4 * d.d2;
        // angle unit is pi/(2 d2) = pi/(4 len); sin(x) = cos(x - pi/2)
        let shift = if d.sin { per - d.d2 } else { 0 };
        let mut tmp = [T::from_raw(0); CUSTOM_MAX];
        tmp[..self.len].copy_from_slice(buf);
        if d.half_first { tmp[0] = tmp[0] * T::of(0.5); }
        if d.half_last { tmp[self.len - 1] = tmp[self.len - 1] * T::of(0.5); }
        // all the scratch it asked for is its to destroy
        for (i, s) in scr[..self.need].iter_mut().enumerate() { *s = T::of(1e9 + i as f64); }
        for kk in 0..self.len as u64 {
            let st = (2 * (2 * kk + d.b)) % per;
            let mut m = (d.a * (2 * kk + d.b) + shift) % per;
            let mut s = T::of(0.0);
            if !T::SIM { tick(); }
            for &v in &tmp[..self.len] {
                s = s + v * self.tab[m as usize];
                m += st;
                if m >= per { m -= per; }
            }
            buf[kk as usize] = s;
        }
    }
}
impl<T: Real> RequiredScratch for Custom<T> { fn get_scratch_len(&self) -> usize { self.need } }
impl<T: Real> Length for Custom<T> { fn len(&self) -> usize { self.len } }
impl<T: Real> Dct2<T> for Custom<T> { fn process_dct2_with_scratch(&self, b: &mut [T], s: &mut [T]) { self.go(Kind::Dct2, b, s) } }
impl<T: Real> Dct3<T> for Custom<T> { fn process_dct3_with_scratch(&self, b: &mut [T], s: &mut [T]) { self.go(Kind::Dct3, b, s) } }
impl<T: Real> Dst2<T> for Custom<T> { fn process_dst2_with_scratch(&self, b: &mut [T], s: &mut [T]) { self.go(Kind::Dst2, b, s) } }
impl<T: Real> Dst3<T> for Custom<T> { fn process_dst3_with_scratch(&self, b: &mut [T], s: &mut [T]) { self.go(Kind::Dst3, b, s) } }
impl<T: Real> Dct4<T> for Custom<T> { fn process_dct4_with_scratch(&self, b: &mut [T], s: &mut [T]) { self.go(Kind::Dct4, b, s) } }
impl<T: Real> Dst4<T> for Custom<T> { fn process_dst4_with_scratch(&self, b: &mut [T], s: &mut [T]) { self.go(Kind::Dst4, b, s) } }
impl<T: Real> TransformType2And3<T> for Custom<T> {}
impl<T: Real> TransformType4<T> for Custom<T> {}

/// a naive DFT with an arbitrary scratch requirement
pub struct CustomFft<T> { len: usize, need: usize, dir: FftDirection, tab: Vec<Complex<T>> }
impl<T: Real> CustomFft<T> {
    fn new(len: usize, need: usize, dir: FftDirection) -> Self {
        assert!(len <= 2 * CUSTOM_MAX + 2);
        let sg = if dir == FftDirection::Forward { -1.0 } else { 1.0 };
        CustomFft { len, need, dir, tab: (0..len).map(|i| {
            let t = 2.0 * std::f64::consts::PI * i as f64 / len as f64;
            Complex { re: T::of(t.cos()), im: T::of(sg * t.sin()) }
        }).collect() }
    }
    fn dft(&self, x: &[Complex<T>], y: &mut [Complex<T>]) {
        for (k, o) in y.iter_mut().enumerate() {
            let mut s = Complex { re: T::of(0.0), im: T::of(0.0) };
            if !T::SIM { tick(); }
            let mut m = 0;
            for v in x {
                let t = self.tab[m];
                s = Complex { re: s.re + v.re * t.re - v.im * t.im, im: s.im + v.re * t.im + v.im * t.re };
                m += k;
                if m >= self.len { m -= self.len; }
            }
            *o = s;
        }
    }
}
impl<T: Real> Direction for CustomFft<T> { fn fft_direction(&self) -> FftDirection { self.dir } }
impl<T: Real> Length for CustomFft<T> { fn len(&self) -> usize { self.len } }
impl<T: Real> Fft<T> for CustomFft<T> {
    fn process_with_scratch(&self, buf: &mut [Complex<T>], scr: &mut [Complex<T>]) {
        stat(St::CustomInner, 1);
        assert_eq!(buf.len() % self.len, 0, "inner FFT called with a wrong buffer length");
        assert!(scr.len() >= self.need, "inner FFT needs {} scratch, was given {}", self.need, scr.len());
        let z = Complex { re: T::from_raw(0), im: T::from_raw(0) };
        let mut tmp = [z; 2 * CUSTOM_MAX + 2];
        for (i, s) in scr[..self.need].iter_mut().enumerate() { *s = Complex { re: T::of(1e9), im: T::of(-(i as f64)) }; }
        for ch in buf.chunks_exact_mut(self.len) {
            tmp[..self.len].copy_from_slice(ch);
            self.dft(&tmp[..self.len], ch);
        }
    }
    fn process_outofplace_with_scratch(&self, i: &mut [Complex<T>], o: &mut [Complex<T>], _s: &mut [Complex<T>]) {
        for (a, b) in i.chunks_exact(self.len).zip(o.chunks_exact_mut(self.len)) { self.dft(a, b); }
    }
    fn process_immutable_with_scratch(&self, i: &[Complex<T>], o: &mut [Complex<T>], _s: &mut [Complex<T>]) {
        for (a, b) in i.chunks_exact(self.len).zip(o.chunks_exact_mut(self.len)) { self.dft(a, b); }
    }
    fn get_inplace_scratch_len(&self) -> usize { self.need }
    fn get_outofplace_scratch_len(&self) -> usize { 0 }
    fn get_immutable_scratch_len(&self) -> usize { 0 }
}

// ------------------------------------------------------------------ instantiation in this crate
pub trait Lib: Real {
    fn new_planner() -> DctPlanner<Self>;
    fn drop_planner(p: DctPlanner<Self>);
    fn plan(p: &mut DctPlanner<Self>, fam: Fam, req: Req, len: usize, win: &Win, wf: WinFault) -> Inst<Self>;
    fn build(r: &Recipe, wf: WinFault) -> Inst<Self>;
    fn via(fam: Fam, len: usize, inverse: bool) -> Inst<Self>;
}
macro_rules! lib { ($($t:ty),*) => { $(impl Lib for $t {
    #[inline(never)]
    fn new_planner() -> DctPlanner<$t> { DctPlanner::new() }
    #[inline(never)]
    fn drop_planner(p: DctPlanner<$t>) { drop(p) }
    #[inline(never)]
    fn plan(p: &mut DctPlanner<$t>, fam: Fam, req: Req, len: usize, win: &Win, wf: WinFault) -> Inst<$t> { plan(p, fam, req, len, win, wf) }
    #[inline(never)]
    fn build(r: &Recipe, wf: WinFault) -> Inst<$t> { build(r, wf) }
    #[inline(never)]
    fn via(fam: Fam, len: usize, inverse: bool) -> Inst<$t> { via_fft(fam, fft_of(&FftSrc::Scalar, len, inverse)) }
})* } }
lib!(f64, f32, Sim64);
/// does this build report its memory accesses?
#[inline(never)]
pub fn probe(v: &mut [u64]) -> u64 { let mut s = 0; for x in v.iter_mut() { s += *x; *x = s; } s }

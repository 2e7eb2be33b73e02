//! The documented definitions, evaluated directly (small sizes) or by the chirp-z transform (large sizes);
//! all angles are reduced in integers.
use crate::kinds::Kind;
use std::f64::consts::PI;

pub struct Def { pub a: u64, pub b: u64, pub d2: u64, pub sin: bool, pub half_first: bool, pub half_last: bool, pub nin: usize, pub nout: usize }

/// y_k = sum_j w_j x_j trig(pi (2j+a)(2k+b) / (2 d2))
pub fn def(kind: Kind, n: usize) -> Def {
    use Kind::*;
    let m = n as u64;
    let (a, b, d2, sin, hf, hl) = match kind {
        Dct1 => (0, 0, 2 * m - 2, false, true, true),
        Dct2 => (1, 0, 2 * m, false, false, false),
        Dct3 => (0, 1, 2 * m, false, true, false),
        Dct4 => (1, 1, 2 * m, false, false, false),
        Dct5 => (0, 0, 2 * m - 1, false, true, false),
        Dct6 => (1, 0, 2 * m - 1, false, false, true),
        Dct7 => (0, 1, 2 * m - 1, false, true, false),
        Dct8 => (1, 1, 2 * m + 1, false, false, false),
        Dst1 => (2, 2, 2 * m + 2, true, false, false),
        Dst2 => (1, 2, 2 * m, true, false, false),
        Dst3 => (2, 1, 2 * m, true, false, true),
        Dst4 => (1, 1, 2 * m, true, false, false),
        Dst5 => (2, 2, 2 * m + 1, true, false, false),
        Dst6 => (1, 2, 2 * m + 1, true, false, false),
        Dst7 => (2, 1, 2 * m + 1, true, false, false),
        Dst8 => (1, 1, 2 * m - 1, true, false, true),
        Mdct => (1 + m, 1, 2 * m, false, false, false),
        Imdct => (1, 1 + m, 2 * m, false, false, false),
    };
    Def { a, b, d2, sin, half_first: hf, half_last: hl,
        nin: if kind == Mdct { 2 * n } else { n }, nout: if kind == Imdct { 2 * n } else { n } }
}

fn weighted(d: &Def, x: &[f64]) -> Vec<f64> {
    let mut w = x.to_vec();
    let l = w.len();
    if d.half_first { w[0] *= 0.5; }
    if d.half_last { w[l - 1] *= 0.5; }
    w
}
pub fn direct(d: &Def, x: &[f64]) -> Vec<f64> {
    let w = weighted(d, x);
    let per = 4 * d.d2;
    let tab: Vec<f64> = (0..per).map(|i| { let t = PI * i as f64 / (2 * d.d2) as f64; if d.sin { t.sin() } else { t.cos() } }).collect();
    (0..d.nout as u64).map(|k| {
        let st = (2 * (2 * k + d.b)) % per;
        let mut m = (d.a * (2 * k + d.b)) % per;
        let mut s = 0.0;
        for &v in &w {
            s += v * tab[m as usize];
            m += st;
            if m >= per { m -= per; }
        }
        s
    }).collect()
}

// ---- our own power-of-two complex FFT
const TAB: usize = 1 << 21;
static mut TW: Vec<(f64, f64)> = Vec::new();
/// computed once per worker, before any run is forked
#[allow(static_mut_refs)]
pub fn init() { unsafe { TW = (0..TAB / 2).map(|i| { let t = 2.0 * PI * i as f64 / TAB as f64; (t.cos(), t.sin()) }).collect(); } }
#[allow(static_mut_refs)]
fn fft(v: &mut [(f64, f64)], inv: bool) {
    let n = v.len();
    assert!(n.is_power_of_two() && n <= TAB);
    let tw = unsafe { &TW };
    let mut j = 0;
    for i in 1..n {
        let mut bit = n >> 1;
        while j & bit != 0 { j ^= bit; bit >>= 1; }
        j ^= bit;
        if i < j { v.swap(i, j); }
    }
    let mut len = 2;
    while len <= n {
        let st = TAB / len;
        for s in (0..n).step_by(len) {
            for k in 0..len / 2 {
                let (c, mut sn) = tw[k * st];
                if !inv { sn = -sn; }
                let (ar, ai) = v[s + k];
                let (br, bi) = v[s + k + len / 2];
                let (tr, ti) = (br * c - bi * sn, br * sn + bi * c);
                v[s + k] = (ar + tr, ai + ti);
                v[s + k + len / 2] = (ar - tr, ai - ti);
            }
        }
        len *= 2;
    }
    if inv { for x in v.iter_mut() { x.0 /= n as f64; x.1 /= n as f64; } }
}
pub fn chirp(d: &Def, x: &[f64]) -> Vec<f64> {
    let w = weighted(d, x);
    let per = 4 * d.d2;
    let e = |m: u64| -> (f64, f64) { let t = PI * (m % per) as f64 / (2 * d.d2) as f64; (t.cos(), t.sin()) };
    let (nj, nk) = (d.nin, d.nout);
    let l = (nj + nk).next_power_of_two();
    let mut p = vec![(0.0, 0.0); l];
    for j in 0..nj as u64 {
        let (c, s) = e(2 * j * j + 2 * j * d.b);
        p[j as usize] = (w[j as usize] * c, w[j as usize] * s);
    }
    let mut q = vec![(0.0, 0.0); l];
    let big = nj.max(nk) as u64;
    for t in 0..big {
        let (c, s) = e(2 * t * t);
        if (t as usize) < nk { q[t as usize] = (c, -s); }
        if t > 0 && (t as usize) < nj { q[l - t as usize] = (c, -s); }
    }
    fft(&mut p, false);
    fft(&mut q, false);
    for i in 0..l { let (a, b) = p[i]; let (c, s) = q[i]; p[i] = (a * c - b * s, a * s + b * c); }
    fft(&mut p, true);
    (0..nk as u64).map(|k| {
        let (c, s) = e(2 * k * k + 2 * k * d.a + d.a * d.b);
        let (a, b) = p[k as usize];
        if d.sin { a * s + b * c } else { a * c - b * s }
    }).collect()
}
pub fn eval(kind: Kind, n: usize, x: &[f64]) -> Vec<f64> {
    let d = def(kind, n);
    assert_eq!(x.len(), d.nin);
    if n <= 48 { direct(&d, x) } else { chirp(&d, x) }
}
pub fn norm(x: &[f64]) -> f64 { x.iter().map(|v| v * v).sum::<f64>().sqrt() }

/// how far a result may be from the definition: a rounding-error envelope, far below any semantic difference
pub fn unit(eps: f64, n: usize, norm_in: f64) -> f64 { eps * norm_in * (8.0 + 0.5 * n as f64 + 0.1 * (n as f64).powf(1.5)) }

pub fn selftest() -> f64 {
    let mut worst: f64 = 0.0;
    for &k in crate::kinds::KINDS {
        for n in [2usize, 4, 6, 10, 48, 50, 96, 130, 256] {
            let d = def(k, n);
            let x: Vec<f64> = (0..d.nin).map(|i| ((i * 37 + 11) % 101) as f64 / 50.0 - 1.0).collect();
            let (p, q) = (direct(&d, &x), chirp(&d, &x));
            let sc = unit(f64::EPSILON, n, norm(&x));
            for i in 0..d.nout { worst = worst.max((p[i] - q[i]).abs() / sc); }
        }
    }
    worst
}

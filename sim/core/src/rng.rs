//! The one pseudo-random generator every choice is drawn from.
#[derive(Clone)]
pub struct Rng { s: [u64; 2] }

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn mix2(a: u64, b: u64) -> u64 { mix(mix(a) ^ b.rotate_left(17)) }

impl Rng {
    pub fn new(seed: u64) -> Rng { let a = mix(seed); Rng { s: [a | 1, mix(a)] } }
    pub fn u64(&mut self) -> u64 {
        // xorshift128+
        let mut x = self.s[0];
        let y = self.s[1];
        self.s[0] = y;
        x ^= x << 23;
        self.s[1] = x ^ y ^ (x >> 17) ^ (y >> 26);
        mix(self.s[1].wrapping_add(y))
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.us(b - a + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn unit(&mut self) -> f64 { (self.u64() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.us(v.len())] }
    /// geometric-like, mean about m, at least 1
    pub fn geom(&mut self, m: u64) -> u64 {
        if m <= 1 { return 1; }
        let u = self.unit().max(1e-12);
        1 + (-(u.ln()) * (m as f64 - 1.0)) as u64
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { let j = self.us(i + 1); v.swap(i, j); }
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let t: u64 = w.iter().sum();
        let mut x = self.below(t);
        for (i, &v) in w.iter().enumerate() { if x < v { return i; } x -= v; }
        w.len() - 1
    }
}

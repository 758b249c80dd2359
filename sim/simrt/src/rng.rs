//! The one source of randomness (xoshiro256**, seeded by splitmix64).
#[derive(Clone, Debug)]
pub struct Rng { s: [u64; 4] }

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn mix2(a: u64, b: u64) -> u64 { mix(mix(a) ^ b.rotate_left(17)) }
pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = seed ^ 0xcbf29ce484222325;
    for c in b.chunks(8) {
        let mut v = 0u64;
        for (i, x) in c.iter().enumerate() { v |= (*x as u64) << (8 * i); }
        h = (h ^ v).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29);
    }
    mix(h ^ b.len() as u64)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut s = [0u64; 4];
        for v in s.iter_mut() { x = x.wrapping_add(0x9E3779B97F4A7C15); *v = mix(x); }
        Rng { s }
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1]; self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 { if n <= 1 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 } }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn idx(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn f(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn chance(&mut self, p: f64) -> bool { self.f() < p }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.idx(v.len()); &v[i] }
    /// roughly log-uniform in 1..=max
    pub fn log(&mut self, max: u64) -> u64 {
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.below(bits + 1);
        let hi = if b >= 63 { max } else { (1u64 << b).min(max) };
        1 + self.below(hi)
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u64 = w.iter().map(|x| *x as u64).sum();
        let mut r = self.below(t);
        for (i, x) in w.iter().enumerate() { if r < *x as u64 { return i; } r -= *x as u64; }
        w.len() - 1
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { let j = self.idx(i + 1); v.swap(i, j); }
    }
    /// number of failures before the next success of probability p
    pub fn gap(&mut self, p: f64) -> u64 {
        if p <= 0.0 { return u64::MAX / 4; }
        if p >= 1.0 { return 0; }
        let u = 1.0 - self.f();
        (u.ln() / (1.0 - p).ln()) as u64
    }
}

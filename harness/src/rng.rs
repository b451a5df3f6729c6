//! Deterministic random numbers (splitmix64 seeded xoshiro256**).
#[derive(Clone)]
pub struct Rng { s: [u64; 4] }

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, stream: &str, idx: u64) -> Rng {
        let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
        for b in stream.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
        h ^= idx.wrapping_mul(0xD6E8FEB86659FD93);
        let mut s = [0u64; 4];
        for v in s.iter_mut() { *v = splitmix(&mut h); }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3];
        self.s[2] ^= t; self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize { (self.u64() % (n as u64)) as usize }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    /// true with probability p percent
    pub fn pct(&mut self, p: usize) -> bool { self.below(100) < p }
    pub fn pick<'a, T: ?Sized>(&mut self, xs: &'a [&'a T]) -> &'a T { xs[self.below(xs.len())] }
    pub fn one<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
}

//! The only source of randomness: a splitmix64/xoshiro-style generator seeded explicitly.

#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

#[allow(dead_code)]
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x5151_0f0f_a3a3_7e7e))
    }
    /// A generator for a named sub-stream; independent of how much the parent was used.
    pub fn sub(seed: u64, a: u64, b: u64) -> Self {
        Rng::new(mix(mix(seed).wrapping_add(mix(a.wrapping_mul(31).wrapping_add(7)))) ^ mix(b ^ 0xabcdef))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// True with p percent
    pub fn pct(&mut self, p: u32) -> bool {
        self.below(100) < u64::from(p)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| u64::from(*x)).sum();
        if total == 0 {
            return 0;
        }
        let mut k = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if k < u64::from(*x) {
                return i;
            }
            k -= u64::from(*x);
        }
        unreachable!()
    }
    pub fn byte(&mut self) -> u8 {
        (self.next() >> 24) as u8
    }
}

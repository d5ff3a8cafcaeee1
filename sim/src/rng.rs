//! Small deterministic generators.
#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0x5851f42d4c957f2d))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    /// uniform in 0..n (0 when n == 0)
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.u64() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn pm(&mut self, per_mille: u32) -> bool {
        self.below(1000) < per_mille as u64
    }
    pub fn pct(&mut self, p: u32) -> bool {
        self.below(100) < p as u64
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn fork(&mut self) -> u64 {
        self.u64()
    }
}

/// FNV-1a style accumulator used for signatures and log hashes
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Sig(pub u64);
impl Sig {
    pub fn new() -> Sig {
        Sig(0xcbf29ce484222325)
    }
    pub fn add(&mut self, v: u64) {
        self.0 = mix(self.0 ^ v).wrapping_mul(0x100000001b3);
    }
    pub fn bytes(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.add(u64::from_le_bytes(x));
        }
        self.add(b.len() as u64);
    }
}

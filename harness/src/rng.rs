//! Small deterministic generator; every random choice comes from
//! (VERIF_SEED, property, case number), so that a case can be replayed alone.
#[derive(Clone)]
pub struct R(u64, u64);

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl R {
    pub fn new(seed: u64, name: &str, case: u64) -> R {
        let mut h = mix(seed.wrapping_add(0x9e3779b97f4a7c15));
        for b in name.bytes() {
            h = mix(h ^ (b as u64).wrapping_mul(0x100000001b3));
        }
        R(mix(h ^ mix(case.wrapping_mul(0x9e3779b97f4a7c15))), case)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0 ^ self.1.rotate_left(32))
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        (self.u64() % n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability pct %
    pub fn pct(&mut self, pct: u64) -> bool {
        self.u64() % 100 < pct
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            xs.swap(i, self.below(i + 1));
        }
    }
    pub fn fork(&mut self) -> R {
        let a = self.u64();
        R(a, self.u64())
    }
}

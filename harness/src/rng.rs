//! deterministic generator (splitmix64)
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.u64() % n } }
    pub fn usize(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { (a as i128 + (self.u64() as u128 % ((b as i128 - a as i128) as u128 + 1)) as i128) as i64 }
    pub fn bool(&mut self) -> bool { self.u64() & 1 == 1 }
    pub fn one_in(&mut self, n: u64) -> bool { self.below(n) == 0 }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.usize(xs.len()); &xs[i] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.u64() as u8).collect() }
    /// u64 biased to boundaries
    pub fn edge_u64(&mut self) -> u64 {
        match self.below(6) {
            0 => self.below(300),
            1 => { let k = self.below(64) as u32; 1u64 << k }
            2 => { let k = self.below(64) as u32; (1u64 << k).wrapping_sub(1) }
            3 => u64::MAX - self.below(3),
            4 => { let k = 7 * (1 + self.below(9)) as u32; (1u64 << k).wrapping_add(self.below(3)).wrapping_sub(1) }
            _ => { let s = self.below(64); self.u64() >> s }
        }
    }
    pub fn len(&mut self, max: usize) -> usize {
        match self.below(5) { 0 => 0, 1 => 1.min(max), 2 => self.usize(4.min(max + 1)), _ => self.usize(max + 1) }
    }
}

//! splitmix64: the only source of randomness, so that a case is a function of (seed, property, index)
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, tag: &str, idx: u64) -> Rng {
        let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9e3779b97f4a7c15);
        for b in tag.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
        let mut r = Rng(h ^ idx.wrapping_mul(0xd1342543de82ef95));
        r.u64(); r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize { (self.u64() % n as u64) as usize }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + (self.u64() % ((hi - lo + 1) as u64)) as i64 }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize { self.range(lo as i64, hi as i64) as usize }
    pub fn unit(&mut self) -> f64 { (self.u64() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn chance(&mut self, p: f64) -> bool { self.unit() < p }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    pub fn logu(&mut self, lo: f64, hi: f64) -> f64 { (lo.ln() + self.unit() * (hi.ln() - lo.ln())).exp() }
    pub fn sign(&mut self) -> f64 { if self.chance(0.5) { 1.0 } else { -1.0 } }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); }
    }
}
pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    h
}

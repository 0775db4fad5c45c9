/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn n(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    /// true with probability a/b
    pub fn p(&mut self, a: usize, b: usize) -> bool {
        self.n(b) < a
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.n(xs.len())]
    }
    /// small number, geometric
    pub fn geo(&mut self, max: usize) -> usize {
        let mut k = 0;
        while k < max && self.p(1, 2) {
            k += 1;
        }
        k
    }
}
pub fn mix(a: u64, b: u64) -> u64 {
    Rng(a ^ b.wrapping_mul(0xD6E8FEB86659FD93)).next()
}

//! The one source of randomness: splitmix64, seeded from (VERIF_SEED, property, run index).
#[derive(Clone)]
pub struct Rng(u64);
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn fnv(h: u64, bytes: &[u8]) -> u64 {
    bytes.iter().fold(h, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3))
}
pub fn hash_str(s: &str) -> u64 { mix(fnv(0xcbf29ce484222325, s.as_bytes())) }
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed) }
    pub fn run(seed: u64, tag: &str, index: u64) -> Self {
        Rng(mix(mix(seed) ^ hash_str(tag) ^ mix(index.wrapping_mul(0xD1342543DE82EF95))))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, pct: u32) -> bool { self.below(100) < pct as usize }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.below(xs.len()); &xs[i] }
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let t: u32 = ws.iter().sum();
        let mut x = self.below(t.max(1) as usize) as u32;
        for (i, w) in ws.iter().enumerate() { if x < *w { return i; } x -= w; }
        ws.len() - 1
    }
}

//! The one source of choices. Every stream is derived from VERIF_SEED.
#[derive(Clone)]
pub struct Rng(pub u64);
pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(17);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn of(seed: u64, parts: &[u64]) -> Rng {
        let mut h = mix(seed, 0x5eed);
        for p in parts {
            h = mix(h, *p);
        }
        Rng(h)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.u64() >> 11) % n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability pm/1000
    pub fn pm(&mut self, pm: usize) -> bool {
        self.below(1000) < pm
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}
pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(h, b.len() as u64)
}
pub fn hash128(b: &[u8]) -> [u64; 2] {
    let mut h = 0x243F6A8885A308D3u64;
    for x in b {
        h = (h.rotate_left(5) ^ *x as u64).wrapping_mul(0x517cc1b727220a95);
    }
    [hash(b), mix(h, 0x1234)]
}

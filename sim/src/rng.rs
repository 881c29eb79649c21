//! Small deterministic PRNG (xoshiro256**, seeded by splitmix64).
#[derive(Clone, Debug)]
pub struct Rng([u64; 4]);
pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        let mut s = seed ^ stream.wrapping_mul(0xD6E8_FEB8_6659_FD93);
        let mut a = [0; 4];
        for v in &mut a {
            *v = splitmix(&mut s);
        }
        Self(a)
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    /// Uniform in a..=b.
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    /// True with probability ppm / 1_000_000.
    pub fn ppm(&mut self, ppm: u64) -> bool {
        ppm > 0 && self.below(1_000_000) < ppm
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// Roughly log-uniform in a..=b.
    pub fn logrange(&mut self, a: u64, b: u64) -> u64 {
        let la = (a.max(1) as f64).ln();
        let lb = (b.max(1) as f64).ln();
        let u = (self.next() >> 11) as f64 / (1u64 << 53) as f64;
        ((la + (lb - la) * u).exp() as u64).clamp(a, b)
    }
    pub fn fill(&mut self, buf: &mut [u8]) {
        for c in buf.chunks_mut(8) {
            let v = self.next().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
}
/// Fast 64-bit digest for large images.
pub fn digest(b: &[u8]) -> u64 {
    let mut h = b.len() as u64 ^ 0x9e37_79b9_7f4a_7c15;
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0xff51_afd7_ed55_8ccd);
        h ^= h >> 29;
    }
    for x in it.remainder() {
        h = (h ^ u64::from(*x)).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

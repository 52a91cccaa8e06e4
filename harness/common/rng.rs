
//! SplitMix64.
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03));
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// An unsigned number: small, at a power-of-two boundary, or anything.
    pub fn u64ish(&mut self) -> u64 {
        match self.below(10) {
            0..=2 => self.below(26) as u64,
            3 => *self.pick(&[22, 23, 24, 25, 254, 255, 256, 257, 65534, 65535, 65536, 65537]),
            4..=6 => {
                let k = self.below(65);
                let b = if k == 64 { u64::MAX } else { 1u64 << k };
                b.wrapping_add(self.below(3) as u64).wrapping_sub(1)
            }
            7 => *self.pick(&[0xFFFF_FFFE, 0xFFFF_FFFF, 0x1_0000_0000, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX]),
            _ => self.next() >> self.below(64),
        }
    }
}

/// splitmix64: deterministic, seeded from VERIF_SEED.
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn chance(&mut self, one_in: u64) -> bool {
        self.below(one_in) == 0
    }
    /// a number with a bias to the ends and to the neighbourhood of powers of two
    pub fn edgy(&mut self) -> u64 {
        match self.below(6) {
            0 => self.below(4),
            1 => u64::MAX - self.below(4),
            2 => (1u64 << self.below(64)).wrapping_sub(self.below(3)),
            3 => (1u64 << self.below(64)).wrapping_add(self.below(3)),
            4 => self.below(300),
            _ => self.next(),
        }
    }
}

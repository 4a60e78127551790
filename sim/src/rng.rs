//! The only source of randomness in the simulator: a SplitMix64 generator. Every choice of a
//! run comes from one of these, seeded from VERIF_SEED and the run number.

#[derive(Clone, Debug)]
pub struct Rng {
    s: u64,
    /// Numbers that lengths of runs may also be.
    pub favoured: Vec<i64>,
}

mod literals {
    include!(concat!(env!("OUT_DIR"), "/literals.rs"));
}
pub use literals::TEXTS;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Hash of several integers; used to derive independent sub-seeds.
pub fn mix_all(xs: &[u64]) -> u64 {
    let mut h = 0x1234_5678_9abc_def0u64;
    for &x in xs {
        h = mix(h ^ mix(x));
    }
    h
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng { s: mix(seed ^ 0xD1B5_4A32_D192_ED03), favoured: vec![] }
    }
    pub fn u64(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.idx(xs.len())]
    }
    /// A number around which programs like to decide: one the repository's sources mention, or a
    /// power of two or ten; or next to one.
    pub fn magic(&mut self) -> i64 {
        let n = match self.below(5) {
            0 => 1i64 << self.below(63),
            1 => 10i64.pow(self.below(19) as u32),
            _ if literals::INTS.is_empty() => self.below(100) as i64,
            _ => *self.pick(literals::INTS),
        };
        match self.below(6) {
            0 | 1 => n.saturating_add(1),
            2 => n.saturating_sub(1),
            3 => n.saturating_mul(*self.pick(&[2i64, 3, 8])).saturating_add(self.below(3) as i64 - 1),
            _ => n,
        }
    }
    /// One of those within lo..=hi, or any number there.
    pub fn magic_in(&mut self, lo: u64, hi: u64) -> u64 {
        for _ in 0..20 {
            let n = self.magic();
            if n >= 0 && n as u64 >= lo && n as u64 <= hi {
                return n as u64;
            }
        }
        self.range(lo, hi)
    }
    pub fn u128(&mut self) -> u128 {
        ((self.u64() as u128) << 64) | self.u64() as u128
    }
}

/// FNV-1a style rolling hash for event logs.
#[derive(Clone, Copy, Debug)]
pub struct Trace(pub u64);

impl Trace {
    pub fn new() -> Trace {
        Trace(0xcbf2_9ce4_8422_2325)
    }
    pub fn add(&mut self, x: u64) {
        self.0 = mix(self.0 ^ x.wrapping_mul(0x100_0000_01b3));
    }
    pub fn bytes(&mut self, b: &[u8]) {
        let mut h = self.0;
        for &x in b {
            h = (h ^ x as u64).wrapping_mul(0x100_0000_01b3);
        }
        self.0 = mix(h ^ b.len() as u64);
    }
}

//! Deterministic PRNG (splitmix64 / xoshiro-like), so that every case of a run
//! is a function of (VERIF_SEED, section, index) alone.

/// Whether inputs are made for interpreted code, which is slow; a native run does
/// the same when its observations are compared with interpreted ones.
pub fn slow() -> bool {
    use std::sync::OnceLock;
    static SLOW: OnceLock<bool> = OnceLock::new();
    cfg!(miri) || *SLOW.get_or_init(|| std::env::var_os("VERIF_SLOW").is_some())
}

#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for &x in if slow() { &b[..b.len().min(24)] } else { b } {
        h ^= x as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    mix(h ^ (b.len() as u64))
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed))
    }
    pub fn for_case(seed: u64, section: &str, index: u64) -> Rng {
        Rng::new(mix(seed) ^ hash_bytes(section.as_bytes()) ^ mix(index.wrapping_mul(0x1234_5677)))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u16(&mut self) -> u16 {
        (self.u64() >> 48) as u16
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        if slow() {
            // Interpreted code is slow: few random bytes, the rest in bulk.
            let mut v = vec![self.u8(); n];
            v.iter_mut().take(6).for_each(|x| *x = self.u8());
            if let Some(x) = v.last_mut() {
                *x = self.u8();
            }
            return v;
        }
        let mut v: Vec<u8> = (0..n).map(|_| self.u8()).collect();
        // Some are not random at all.
        if n > 0 && self.chance(1, 6) {
            let k = self.below(n) + 1;
            match self.below(6) {
                0 => v.fill(0),
                1 => v.fill(0xff),
                2 => v[..k].fill(0),
                3 => v[n - k..].fill(0),
                4 => {
                    let x = v[0];
                    v.fill(x)
                }
                _ => (0..n).for_each(|i| v[i] = b' ' + v[i] % 95),
            }
        }
        v
    }
    /// A length in 0..=max, biased to the boundaries.
    pub fn len_upto(&mut self, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        if slow() && max > 64 && self.chance(9, 10) {
            return self.below(5);
        }
        match self.below(8) {
            0 => 0,
            1 => max,
            2 => max - 1,
            3 => 1,
            4 | 5 => self.below(max.min(8) + 1),
            _ => self.below(max + 1),
        }
    }
    /// An integer biased to boundary values.
    pub fn edgy_u64(&mut self, bits: u32) -> u64 {
        let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let v = match self.below(10) {
            0 => 0,
            1 => 1,
            2 => mask,
            3 => mask - 1,
            4 => 1u64 << self.below(bits as usize),
            5 => (1u64 << self.below(bits as usize)).wrapping_sub(1),
            6 => self.below(256) as u64,
            _ => self.u64(),
        };
        v & mask
    }
}

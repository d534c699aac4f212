//! Choice-sequence source: every random decision of a case is one recorded draw, so a case is
//! replayed and shrunk by editing the sequence. Draw 0 is always the simplest alternative.

#[derive(Clone)]
pub struct Src {
    prefix: Vec<u32>,
    pub record: Vec<u32>,
    rng: Option<u64>,
    pub limit: usize,
}

pub fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.wrapping_mul(0xD6E8FEB86659FD93);
    splitmix(&mut s);
    splitmix(&mut s)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut x = h;
    splitmix(&mut x)
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { prefix: vec![], record: vec![], rng: Some(seed), limit: 20000 }
    }

    pub fn replay(choices: &[u32]) -> Self {
        Src { prefix: choices.to_vec(), record: vec![], rng: None, limit: usize::MAX }
    }

    /// A value in 0..n.
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        if n <= 1 {
            return 0;
        }
        let pos = self.record.len();
        let v = if pos < self.prefix.len() {
            (self.prefix[pos] as usize).min(n - 1)
        } else if pos > self.limit {
            0
        } else if let Some(state) = self.rng.as_mut() {
            ((splitmix(state) as u128 * n as u128) >> 64) as usize
        } else {
            0
        };
        self.record.push(v as u32);
        v
    }

    /// True with probability num/den; false is the simple choice.
    /// A length far from what is common, close to a limit somebody may have thought of.
    pub fn large(&mut self) -> usize {
        match self.below(16) {
            0..=3 => self.range(120, 300),
            4..=7 => self.range(400, 1100),
            8 | 9 => self.range(2000, 2100),
            10 | 11 => self.range(4000, 4200),
            12 => self.range(8000, 8300),
            13 => self.range(9990, 10_100),
            14 => self.range(65_400, 66_000),
            _ => self.range(66_000, 101_000),
        }
    }

    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<'a, T: ?Sized>(&mut self, items: &[&'a T]) -> &'a T {
        items[self.below(items.len())]
    }

    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    /// Index chosen by weight.
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let mut v = self.below(total as usize) as u32;
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        weights.len() - 1
    }

    /// Geometric-ish count 0..=max.
    pub fn count(&mut self, max: usize) -> usize {
        let mut n = 0;
        while n < max && self.chance(1, 2) {
            n += 1;
        }
        n
    }
}

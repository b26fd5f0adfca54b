//! The source of all choices a case makes: a seeded generator or a recorded list.
//! Every choice is recorded, so that a failing case can be replayed and shrunk.

pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub record: Vec<u64>,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

impl Src {
    pub fn seeded(seed: u64) -> Src {
        Src { state: mix(seed ^ 0x1234_5678_9abc_def1), replay: None, pos: 0, record: Vec::new() }
    }
    pub fn replay(list: Vec<u64>) -> Src {
        Src { state: 0, replay: Some(list), pos: 0, record: Vec::new() }
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    /// A number below `n` (0 if n is 0).
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = match self.replay {
            Some(ref list) => list.get(self.pos).map(|v| (*v % n as u64) as usize).unwrap_or(0),
            None => {
                self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
                (mix(self.state) % n as u64) as usize
            }
        };
        self.pos += 1;
        self.record.push(v as u64);
        v
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with a chance of num/den. The recorded choice is 0 for false.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }
    /// Index by weight.
    pub fn weighted(&mut self, weights: &[usize]) -> usize {
        let total: usize = weights.iter().sum();
        let mut at = self.below(total.max(1));
        for (i, w) in weights.iter().enumerate() {
            if at < *w {
                return i;
            }
            at -= *w;
        }
        0
    }
    /// A length, mostly small, sometimes up to `max`.
    pub fn len(&mut self, max: usize) -> usize {
        match self.below(8) {
            0 => 0,
            1 | 2 | 3 => self.below(max.min(3) + 1),
            4 | 5 | 6 => self.below(max.min(8) + 1),
            _ => self.below(max + 1),
        }
    }
}

//! A small deterministic generator: every case is a function of (seed, case number).
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64, case: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ case.wrapping_mul(0xd1342543de82ef95) ^ 0x5851f42d4c957f2d);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn u128(&mut self) -> u128 {
        ((self.next() as u128) << 64) | self.next() as u128
    }
    /// An integer whose bit length is uniform, with boundary values being common.
    pub fn int(&mut self, bits: u32) -> u128 {
        let mask = if bits >= 128 { !0u128 } else { (1u128 << bits) - 1 };
        let k = self.below(bits as usize + 1) as u32;
        let base = if k >= 128 { 0 } else { 1u128 << k };
        (match self.below(6) {
            0 => base,
            1 => base.wrapping_sub(1),
            2 => base.wrapping_add(1),
            3 => !base,
            _ => {
                if k == 0 {
                    0
                } else {
                    self.u128() >> (128 - k)
                }
            }
        }) & mask
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn char(&mut self) -> char {
        loop {
            let n = match self.below(8) {
                0 => self.below(0x80) as u32,
                1 => *self.pick(&[0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x3fff, 0x4000]),
                2 => self.below(0x800) as u32,
                3 => self.below(0x10000) as u32,
                4 => 0xd7f0 + self.below(16) as u32,
                5 => 0xe000 + self.below(16) as u32,
                _ => self.below(0x110000) as u32,
            };
            if let Some(c) = char::from_u32(n) {
                return c;
            }
        }
    }
    pub fn string(&mut self) -> String {
        let n = match self.below(12) {
            0 => 0,
            1 => 127 + self.below(3),
            2 => self.below(300),
            _ => self.below(6),
        };
        let mut s = String::new();
        let ascii = self.chance(1, 2);
        while s.len() < n {
            if ascii {
                s.push((b'a' + self.below(26) as u8) as char)
            } else {
                s.push(self.char())
            }
        }
        s
    }
    pub fn bytes(&mut self) -> Vec<u8> {
        let n = match self.below(12) {
            0 => 0,
            1 => 127 + self.below(3),
            2 => self.below(300),
            _ => self.below(6),
        };
        (0..n).map(|_| self.next() as u8).collect()
    }
}

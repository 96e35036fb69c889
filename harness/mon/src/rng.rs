//! xoshiro256** seeded by splitmix64: reproducible from (seed, case).
pub struct Rng([u64; 4]);

fn sm(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, case: u64) -> Self {
        let mut x = seed ^ case.wrapping_mul(0xd1342543de82ef95);
        Rng([sm(&mut x), sm(&mut x), sm(&mut x), sm(&mut x)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 }
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive.
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as u64) as i64
    }
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.usize(i + 1);
            v.swap(i, j);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mode = self.below(4);
        (0..n)
            .map(|_| match mode {
                0 => self.next() as u8,
                1 => *self.pick(&[0u8, 1, 0x7f, 0x80, 0xff]),
                2 => (self.next() as u8) | 0x80,
                _ => (self.below(4)) as u8,
            })
            .collect()
    }
    /// A number whose size is spread over all magnitudes up to `bits` bits, with favoured borders.
    pub fn mag(&mut self, bits: u32) -> u64 {
        let b = self.below(bits as u64 + 1) as u32;
        let top = if b == 0 { 0 } else { 1u64 << (b - 1) };
        let max = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        if self.one_in(32) {
            if let Some(n) = self.word_int() {
                return n & max;
            }
        }
        let v = match self.below(5) {
            0 => top,
            1 => top.wrapping_sub(1),
            2 => top.wrapping_add(1),
            3 => max - self.below(3).min(max),
            _ => {
                if b == 0 { 0 } else { top | (self.next() & (top.wrapping_sub(1))) }
            }
        };
        v & max
    }
    /// A word that is likely to be wrong wherever it is put.
    pub fn odd32(&mut self) -> u32 {
        match self.below(8) {
            0 | 1 => *self.pick(&[0u32, 1, 2, 3, 4, 5, 0xffff_ffff, 0x8000_0000, 0x7fff_ffff, 0x1000_0000, 0x100, 0x10000, 0xffff_fffc]),
            2 => self.below(12) as u32,
            3 => (self.mag(31) as u32).wrapping_neg(),
            4 => {
                let n = self.word_int().unwrap_or(6) as u32;
                if self.bool() { n.wrapping_neg() } else { n }
            }
            5 => self.next() as u32,
            _ => self.mag(32) as u32,
        }
    }
}

//! Deterministic random numbers and a dictionary of values found in the code under test.
pub struct Rng { s: u64, pub ints: Vec<u64>, pub hot: Vec<u64>, pub texts: Vec<String> }

impl Rng {
    pub fn new(seed: u64) -> Self { Rng { s: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03, ints: vec![], hot: vec![], texts: vec![] } }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len() as u64) as usize; &v[i] }
    /// an integer of at most n bytes, with a bias towards boundaries and values named in the code
    pub fn int(&mut self, bytes: u32) -> u64 {
        let mask = if bytes >= 8 { u64::MAX } else { (1u64 << (8 * bytes)) - 1 };
        let v = match self.below(12) {
            0 => 0,
            1 => mask,
            2 => mask >> 1,
            3 => (mask >> 1) + 1,
            4 => self.below(4),
            5 | 6 => { let k = self.below(8 * bytes as u64) as u32; (self.next() & mask) >> k }
            7 if !self.hot.is_empty() || !self.ints.is_empty() => self.dict(),
            8 if !self.hot.is_empty() => self.dict(),
            9 => { let k = self.below(8 * bytes as u64) as u32; let d = self.below(3); (1u64 << k).wrapping_add(d).wrapping_sub(1) }
            _ => self.next(),
        };
        v & mask
    }
    pub fn dict(&mut self) -> u64 {
        let d = self.below(5);
        let v = if !self.hot.is_empty() && self.chance(3, 4) { let i = self.below(self.hot.len() as u64); self.hot[i as usize] }
            else if !self.ints.is_empty() { let i = self.below(self.ints.len() as u64); self.ints[i as usize] } else { 0 };
        match d { 0 => v.wrapping_add(1), 1 => v.wrapping_sub(1), _ => v }
    }
    /// a small size, sometimes one named in the code
    pub fn size(&mut self, usual: u64, max: u64) -> usize {
        let v = match self.below(20) { 0 => self.below(max + 1), 1 => self.dict().min(max), 2 => 0, _ => self.below(usual + 1) };
        v as usize
    }
    /// a count, now and then a large one
    pub fn many(&mut self, least: u64, usual: u64, max: u64) -> u64 {
        match self.below(60) { 0 => self.range(usual, max), 1 => self.dict().clamp(least, max), 2 => *self.pick(&[16u64, 64, 100, 128, 255, 256, 257]).min(&max), _ => self.range(least, usual) }
    }
    pub fn byte(&mut self) -> u8 { self.int(1) as u8 }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n { if self.chance(1, 8) { v.push(self.byte()) } else { v.extend_from_slice(&self.next().to_le_bytes()) } }
        v.truncate(n); v
    }
    pub fn text(&mut self, max: usize) -> String {
        if !self.texts.is_empty() && self.chance(1, 16) {
            let i = self.below(self.texts.len() as u64) as usize;
            if self.texts[i].len() <= max { return self.texts[i].clone(); }
        }
        let n = if self.chance(1, 6) { max } else { self.below(max as u64 + 1) as usize };
        let mut s = String::new();
        while s.len() < n {
            let c = match self.below(12) {
                0 => char::from_u32(self.range(0xA1, 0x7FF) as u32).unwrap(),
                1 => char::from_u32(self.range(0x800, 0xD7FF) as u32).unwrap(),
                2 => char::from_u32(self.range(0x10000, 0x10FFFF) as u32).unwrap(),
                3 => *self.pick(&['#', '\n', ' ', ',', '-', ':', '\'', '\u{1}', '\u{7f}']),
                _ => char::from(self.range(0x20, 0x7E) as u8),
            };
            if s.len() + c.len_utf8() > n { break; }
            s.push(c);
        }
        s
    }
    /// text without zero bytes, for terminated strings (text() makes none either)
    pub fn ident(&mut self, max: usize) -> String {
        let n = self.below(max as u64) + 1;
        (0..n).map(|_| char::from(*self.pick(b"abcxyz_019"))).collect()
    }
}

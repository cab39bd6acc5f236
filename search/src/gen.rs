//! Generated binary log contents.
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Table { pub id: u64, pub types: Vec<u8>, pub metas: Vec<u16> }
/// a header (19 bytes) and a body
pub type Ev = (Vec<u8>, Vec<u8>);

pub struct Stream { pub crc: bool, pub tables: Vec<Table>, pub events: Vec<Ev>, pub focus: Focus }
#[derive(Clone, Copy, PartialEq)]
pub enum Focus { Temporal, Decimal, Text, Rows, TableMap, Metadata, Checksum, Cache, Simple, Gtid, All }

pub fn lenenc(n: u64) -> Vec<u8> {
    if n < 0xFB { vec![n as u8] }
    else if n <= 0xFFFF { let mut v = vec![0xFC]; v.extend_from_slice(&n.to_le_bytes()[..2]); v }
    else if n <= 0xFFFFFF { let mut v = vec![0xFD]; v.extend_from_slice(&n.to_le_bytes()[..3]); v }
    else { let mut v = vec![0xFE]; v.extend_from_slice(&n.to_le_bytes()); v }
}
pub fn lenenc_any(r: &mut Rng, n: u64) -> Vec<u8> {
    if r.chance(7, 8) { return lenenc(n); }
    match r.below(3) {
        0 if n <= 0xFFFF => { let mut v = vec![0xFC]; v.extend_from_slice(&n.to_le_bytes()[..2]); v }
        1 if n <= 0xFFFFFF => { let mut v = vec![0xFD]; v.extend_from_slice(&n.to_le_bytes()[..3]); v }
        _ => { let mut v = vec![0xFE]; v.extend_from_slice(&n.to_le_bytes()); v }
    }
}
pub fn le(n: u64, bytes: usize) -> Vec<u8> { n.to_le_bytes()[..bytes].to_vec() }
pub fn be(n: u64, bytes: usize) -> Vec<u8> { n.to_be_bytes()[8 - bytes..].to_vec() }
pub fn pack(flags: &[bool]) -> Vec<u8> {
    let mut v = vec![0u8; (flags.len() + 7) / 8];
    for (i, f) in flags.iter().enumerate() { if *f { v[i / 8] |= 1 << (i % 8); } }
    v
}
pub fn flags(r: &mut Rng, n: usize) -> Vec<bool> {
    match r.below(5) { 0 => vec![true; n], 1 => vec![false; n], 2 => (0..n).map(|_| r.chance(7, 8)).collect(), _ => (0..n).map(|_| r.chance(1, 2)).collect() }
}

const NUMERIC: [u8; 7] = [1, 2, 9, 3, 8, 4, 5];
const TEMPORAL: [u8; 8] = [13, 10, 11, 12, 7, 17, 18, 19];
const TEXTUAL: [u8; 13] = [15, 253, 254, 254, 16, 247, 248, 249, 250, 251, 252, 245, 255];

pub fn column(r: &mut Rng, f: Focus) -> (u8, u16) {
    let t = match f {
        Focus::Temporal => if r.chance(1, 3) { *r.pick(&NUMERIC) } else { *r.pick(&TEMPORAL) },
        Focus::Decimal => if r.chance(5, 6) { 246 } else { *r.pick(&NUMERIC) },
        Focus::Text => if r.chance(6, 7) { *r.pick(&TEXTUAL) } else { *r.pick(&NUMERIC) },
        Focus::Cache | Focus::Checksum => *r.pick(&[1, 2, 3, 8]),
        Focus::Rows => if r.chance(4, 5) { *r.pick(&[1, 2, 3, 9, 8, 15]) } else { any_type(r) },
        _ => any_type(r),
    };
    (t, meta(r, t))
}
fn any_type(r: &mut Rng) -> u8 {
    match r.below(12) { 0..=2 => *r.pick(&NUMERIC), 3..=5 => *r.pick(&TEMPORAL), 6..=9 => *r.pick(&TEXTUAL), 10 => 246, _ => *r.pick(&[0, 6, 14, 246, 246, 254]) }
}
pub fn meta(r: &mut Rng, t: u8) -> u16 {
    match t {
        4 => 4, 5 => 8,
        17 | 18 | 19 => if r.chance(1, 40) { r.byte() as u16 } else { r.below(7) as u16 },
        245 | 249..=252 | 255 => if r.chance(1, 30) { r.below(12) as u16 } else { r.range(1, 4) as u16 },
        246 => {
            if r.chance(1, 30) { r.int(2) as u16 } else {
                let p = if r.chance(1, 8) { r.range(1, 255) } else { r.range(1, 65) };
                let top = if r.chance(1, 8) { 255 } else { 30 };
                let s = match r.below(6) { 0 => 0, 1 => p, 2 => p.min(9), _ => r.range(0, p.min(top)) };
                (p | s << 8) as u16
            }
        }
        15 | 253 => if r.chance(1, 2) { r.range(0, 255) as u16 } else if r.chance(1, 4) { r.range(254, 258) as u16 } else { r.int(2) as u16 },
        16 => { if r.chance(1, 20) { r.int(2) as u16 & 0x1FFF } else { let n = r.range(1, 64); (n / 8 * 256 + n % 8) as u16 } }
        247 => if r.chance(1, 20) { r.below(12) as u16 } else { r.range(1, 2) as u16 },
        248 => if r.chance(1, 20) { r.below(12) as u16 } else { *r.pick(&[1, 2, 3, 4, 8]) },
        254 => match r.below(6) {
            0 => 0xF700 + r.range(1, 2) as u16,
            1 => 0xF800 + *r.pick(&[1, 2, 3, 4, 8]),
            2 => r.int(2) as u16,
            3 => r.range(0, 255) as u16,
            _ => { // CHAR(n): type and length share the metadata
                let n = r.range(1, 1020) as u16;
                ((0xFE ^ ((n & 0x300) >> 4)) << 8) | (n & 0xFF)
            }
        },
        _ => 0,
    }
}
/// bytes of one cell
pub fn cell(r: &mut Rng, t0: u8, m0: u16) -> Vec<u8> {
    let (mut t, mut m) = (t0, m0);
    if t == 254 && m >= 256 {
        let (b0, b1) = ((m >> 8) as u8, m & 0xFF);
        if b0 & 0x30 == 0x30 { if b0 == 247 || b0 == 248 { t = b0; } m = b1; } else { t = b0 | 0x30; m = b1 + (((b0 as u16 & 0x30) ^ 0x30) << 4); }
    }
    match t {
        1 | 13 => le(r.int(1), 1), 2 => le(r.int(2), 2), 9 | 10 => le(r.int(3), 3), 3 | 4 | 7 => le(r.int(4), 4), 8 | 5 => le(r.int(8), 8),
        11 => if r.chance(1, 8) { le(r.int(3), 3) } else { le(r.range(0, 838) * 10000 + r.below(60) * 100 + r.below(60), 3) },
        12 => if r.chance(1, 8) { le(r.int(8), 8) } else { le((r.range(0, 9999) * 10000 + r.below(13) * 100 + r.below(32)) * 1_000_000 + r.below(24) * 10000 + r.below(60) * 100 + r.below(60), 8) },
        17 | 18 | 19 => {
            let mut v = match t {
                17 => be(r.int(4), 4),
                18 => if r.chance(1, 6) { be(r.int(5), 5) } else { be(1 << 39 | (r.range(0, 9999) * 13 + r.below(13)) << 22 | r.below(32) << 17 | r.below(24) << 12 | r.below(60) << 6 | r.below(60), 5) },
                _ => if r.chance(1, 8) { be(r.int(3), 3) } else { be(1 << 23 | r.below(839) << 12 | r.below(60) << 6 | r.below(60), 3) },
            };
            let n = ((m + 1) / 2).min(4) as usize;
            let f = if r.chance(1, 6) { r.int(n.max(1) as u32) } else { r.below([1, 100, 10_000, 1_000_000, 1][n]) };
            if n > 0 { v.extend(be(f, n)); }
            v
        }
        246 => {
            let (p, s) = ((m & 0xFF) as usize, (m >> 8) as usize);
            if p == 0 || s > p { let n = r.below(9) as usize; return r.bytes(n); }
            let w = [0, 1, 1, 2, 2, 3, 3, 4, 4, 4];
            let i = p - s;
            let mut groups = vec![];
            if i % 9 > 0 { groups.push(i % 9); }
            for _ in 0..i / 9 + s / 9 { groups.push(9); }
            if s % 9 > 0 { groups.push(s % 9); }
            let mut v = vec![];
            let mut zero = r.chance(1, 2);
            for g in groups {
                let max = 10u64.pow(g as u32);
                let x = if zero || r.chance(1, 4) { 0 } else { match r.below(4) { 0 => max - 1, 1 => r.below(10) % max, _ => r.below(max) } };
                if r.chance(1, 2) { zero = false; }
                v.extend(be(x, w[g]));
            }
            if r.chance(1, 40) { let n = v.len(); v = r.bytes(n); return v; }
            if !v.is_empty() { v[0] ^= 0x80; if r.chance(1, 2) { for b in v.iter_mut() { *b = !*b; } } }
            v
        }
        15 | 253 | 254 => {
            let n = if m < 256 { r.size(12, 255) } else { r.size(12, 1000) };
            let s = r.text(n).into_bytes();
            let mut v = le(s.len() as u64, if m < 256 { 1 } else { 2 });
            v.extend(s);
            v
        }
        16 => { let n = ((m >> 8) * 8 + (m & 0xFF)) as usize; r.bytes((n + 7) / 8) }
        247 | 248 => le(r.int(m.clamp(1, 8) as u32), m.clamp(1, 8) as usize),
        245 | 249..=252 | 255 => {
            let mut n = r.size(12, 400);
            if m >= 3 && r.chance(1, 60) { n = r.range(65_500, 66_000) as usize; }
            if m == 1 { n = n.min(255); }
            let b = r.bytes(n);
            let mut v = le(n as u64, m.clamp(1, 8) as usize);
            v.extend(b);
            v
        }
        _ => { let n = r.below(5) as usize; r.bytes(n) }
    }
}

pub fn pick_int(r: &mut Rng) -> u64 { if r.chance(1, 6) { r.int(4) } else { r.below(300) } }
fn block(r: &mut Rng, kind: u8, t: &[u8]) -> Vec<u8> {
    let mut b = vec![];
    let numeric = t.iter().filter(|t| matches!(t, 1 | 2 | 3 | 4 | 5 | 8 | 9 | 246)).count();
    match kind {
        1 => { b = r.bytes((numeric + 7) / 8); }
        12 => { b = r.bytes((t.len() + 7) / 8); }
        2 | 10 => { let n = pick_int(r); b.extend(lenenc_any(r, n)); for _ in 0..r.below(4) { for _ in 0..2 { let n = pick_int(r); b.extend(lenenc_any(r, n)); } } }
        3 | 7 | 8 | 11 => for _ in 0..r.below(6) { let n = pick_int(r); b.extend(lenenc_any(r, n)); },
        4 => for _ in 0..t.len().min(20) { let n = r.size(10, 300); let s = r.text(n).into_bytes(); b.extend(lenenc_any(r, s.len() as u64)); b.extend(s); },
        5 | 6 => for _ in 0..r.below(4) {
            let k = r.below(5);
            b.extend(lenenc_any(r, k));
            for _ in 0..k { let n = r.size(6, 270); let s = r.text(n).into_bytes(); b.extend(lenenc_any(r, s.len() as u64)); b.extend(s); }
        },
        _ => for _ in 0..r.below(5) { for _ in 0..2 { let n = pick_int(r); b.extend(lenenc_any(r, n)); } },
    }
    if r.chance(1, 12) { let n = r.below(b.len() as u64 + 1) as usize; b.truncate(n); }
    else if r.chance(1, 12) { let n = r.below(4) as usize; let e = r.bytes(n); b.extend(e); }
    b
}

impl Stream {
    pub fn new(focus: Focus) -> Self { Stream { crc: false, tables: vec![], events: vec![], focus } }
    pub fn push(&mut self, r: &mut Rng, kind: u8, mut body: Vec<u8>) {
        let crc = self.crc;
        if crc { let c = r.bytes(4); body.extend(c); }
        let len = 19 + body.len() as u64;
        self.push_raw(r, kind, len, body);
    }
    pub fn push_raw(&mut self, r: &mut Rng, kind: u8, len: u64, body: Vec<u8>) {
        let mut h = le(r.int(4), 4);
        h.push(kind);
        h.extend(le(r.int(4), 4));
        h.extend(le(len, 4));
        h.extend(le(r.int(4), 4));
        h.extend(le(r.int(2), 2));
        self.events.push((h, body));
    }
    pub fn fde(&mut self, r: &mut Rng) {
        let mut b = le(if r.chance(3, 4) { 4 } else { r.int(2) }, 2);
        let mut name = r.text(50).into_bytes();
        name.resize(50, 0);
        if r.chance(1, 8) { name = "5.7.31-log".as_bytes().to_vec(); name.resize(50, 0); name[20] = b'x'; }
        b.extend(name);
        b.extend(r.bytes(4));
        b.push(19);
        let types = *r.pick(&[27usize, 35, 38, 39, 40, 41, 42, 164, 15, 20]);
        let mut lens = r.bytes(types);
        let payload = 57 + types;
        if types >= 15 { lens[14] = payload as u8; }
        b.extend(lens);
        match r.below(8) {
            0 | 1 => { // without the checksum part
                let len = 19 + b.len() as u64;
                if self.crc { let c = r.bytes(4); b.extend(c); }
                self.push_raw(r, 15, len, b);
                self.crc = false;
            }
            2 => { let c = r.byte(); b.push(c); let n = r.below(5) as usize; let x = r.bytes(n); b.extend(x); let len = 19 + b.len() as u64; self.push_raw(r, 15, len, b); self.crc = c == 1; }
            k => {
                let alg = (k % 2) as u8;
                b.push(alg);
                let c = r.bytes(4);
                b.extend(c);
                let len = 19 + b.len() as u64;
                self.push_raw(r, 15, len, b);
                self.crc = alg == 1;
            }
        }
    }
    pub fn table_map(&mut self, r: &mut Rng) {
        let id = if !self.tables.is_empty() && r.chance(1, 3) { r.pick(&self.tables).id } else if r.chance(1, 2) { r.range(1, 5) } else { r.int(6) };
        self.table_map_of(r, id)
    }
    pub fn table_map_of(&mut self, r: &mut Rng, id: u64) {
        let n = match (self.focus, r.below(40)) {
            (Focus::Cache, _) | (Focus::Checksum, _) => r.range(1, 3) as usize,
            (Focus::Rows | Focus::TableMap, 0) => if r.chance(1, 2) { r.range(300, 4100) as usize } else { r.size(40, 300) },
            (_, 0) => r.size(40, 300),
            (Focus::Rows, 1..=10) => r.range(7, 20) as usize,
            _ => r.range(0, 9) as usize,
        };
        let cols: Vec<(u8, u16)> = (0..n).map(|_| if n > 300 { (*r.pick(&[1, 2]), 0) } else { column(r, self.focus) }).collect();
        let t = Table { id, types: cols.iter().map(|c| c.0).collect(), metas: cols.iter().map(|c| c.1).collect() };
        let mut b = le(id, 6);
        b.extend(r.bytes(2));
        for _ in 0..2 {
            let n = r.size(12, 255);
            let s = r.text(n).into_bytes();
            b.push(s.len() as u8);
            b.extend(s);
            b.push(0);
        }
        b.extend(lenenc_any(r, n as u64));
        b.extend(&t.types);
        let mut m = vec![];
        for (t, x) in &cols {
            match t {
                4 | 5 | 17 | 18 | 19 | 245 | 249..=252 | 255 => m.push(*x as u8),
                15 | 16 | 246 | 253 => m.extend(le(*x as u64, 2)),
                247 | 248 | 254 => m.extend(be(*x as u64, 2)),
                _ => {}
            }
        }
        b.extend(lenenc_any(r, m.len() as u64));
        b.extend(m);
        b.extend(pack(&flags(r, n)));
        let blocks = match self.focus { Focus::Metadata => r.range(1, 8), Focus::Rows | Focus::Cache | Focus::Checksum => 0, _ => if r.chance(1, 3) { r.below(4) } else { 0 } };
        for _ in 0..blocks {
            let k = if r.chance(1, 60) { r.byte() } else { r.range(1, 12) as u8 };
            let x = block(r, k, &t.types);
            b.push(k);
            b.extend(lenenc_any(r, x.len() as u64));
            b.extend(x);
        }
        self.push(r, 19, b);
        self.tables.push(t);
    }
    pub fn rows(&mut self, r: &mut Rng) {
        if self.tables.is_empty() { self.table_map(r); }
        // the latest map of some table
        let id = if r.chance(1, 2) { self.tables[self.tables.len() - 1].id } else { r.pick(&self.tables).id };
        let t = self.tables.iter().rev().find(|t| t.id == id).unwrap().clone();
        let kind = *r.pick(&[23u8, 24, 25, 30, 31, 32]);
        let n = t.types.len();
        let unknown = r.chance(1, 40);
        let mut b = le(if unknown { r.int(6) } else { id }, 6);
        b.extend(le(r.int(2), 2));
        if kind >= 30 { let n = if r.chance(1, 2) { 0 } else { r.size(12, 300) }; b.extend(le(n as u64 + 2, 2)); b.extend(r.bytes(n)); }
        b.extend(lenenc_any(r, n as u64));
        let images = if kind == 24 || kind == 31 { 2 } else { 1 };
        let full = r.chance(1, 2);
        let present: Vec<Vec<bool>> = (0..images).map(|_| if full { vec![true; n] } else { flags(r, n) }).collect();
        for p in &present { b.extend(pack(p)); }
        let count = if n > 300 { r.range(1, 2) } else if present.iter().all(|p| !p.contains(&true)) { 0 } else if r.chance(1, 30) { r.size(10, 300) as u64 } else { r.below(5) };
        for _ in 0..count {
            for p in &present {
                let k = p.iter().filter(|x| **x).count();
                let nulls = if r.chance(1, 2) { vec![false; k] } else { flags(r, k) };
                b.extend(pack(&nulls));
                let mut j = 0;
                for i in 0..n {
                    if !p[i] { continue; }
                    if !nulls[j] { b.extend(cell(r, t.types[i], t.metas[i])); }
                    j += 1;
                }
            }
        }
        if r.chance(1, 20) { let n = r.below(b.len() as u64 + 1) as usize; b.truncate(n); }
        self.push(r, kind, b);
    }
    pub fn simple(&mut self, r: &mut Rng) {
        let kind = *r.pick(&[2u8, 4, 5, 14, 16, 27, 29, 160]);
        let mut b = vec![];
        // now and then something much longer than usual
        let long = r.chance(1, 25);
        let longest: u64 = if r.chance(1, 5) { 70000 } else { 6000 };
        let mut size = |r: &mut Rng, usual: u64, max: u64| if long { r.range(max, longest.max(max)) as usize } else { r.size(usual, max) };
        match kind {
            2 => {
                let n = r.size(10, 255);
                let db = r.text(n).into_bytes();
                let status = { let n = size(r, 12, 600).min(65535); r.bytes(n) };
                b.extend(le(r.int(4), 4)); b.extend(le(r.int(4), 4)); b.push(db.len() as u8); b.extend(le(r.int(2), 2)); b.extend(le(status.len() as u64, 2));
                b.extend(status); b.extend(db); b.push(if r.chance(1, 20) { r.byte() } else { 0 });
                let n = size(r, 30, 500);
                b.extend(match r.below(8) { 0 => "BEGIN".to_string(), 1 => "COMMIT".to_string(), _ => r.text(n) }.into_bytes());
            }
            4 => { b.extend(le(r.int(8), 8)); b.extend({ let n = size(r, 40, 200); r.text(n) }.into_bytes()); }
            5 => { b.push(r.byte()); b.extend(le(r.int(8), 8)); }
            14 => {
                let n = size(r, 10, 300);
                let s = r.text(n).into_bytes();
                b.extend(le(s.len() as u64, 4)); b.extend(s);
                if r.chance(1, 5) { b.push(r.byte()); } else {
                    b.push(0); b.push(r.byte()); b.extend(le(r.int(4), 4));
                    let n = size(r, 10, 300);
                    let s = r.text(n).into_bytes();
                    b.extend(le(s.len() as u64, 4)); b.extend(s); b.push(r.byte());
                }
            }
            16 => b.extend(le(r.int(8), 8)),
            29 => { let n = size(r, 40, 400); let s = r.text(n).into_bytes(); b.push(r.byte()); b.extend(s); }
            _ => { let n = size(r, 40, 400); b.extend(r.text(n).into_bytes()); }
        }
        if r.chance(1, 10) { let n = r.below(6) as usize; let x = r.bytes(n); b.extend(x); }
        self.push(r, kind, b);
    }
    pub fn gtid(&mut self, r: &mut Rng) {
        let kind = *r.pick(&[33u8, 35, 162, 163]);
        let mut b = vec![];
        match kind {
            33 => { b.push(r.byte()); b.extend(r.bytes(16)); b.extend(le(r.int(8), 8)); let n = r.below(3) as usize; let x = r.bytes(n); b.extend(x); }
            35 => {
                let n = r.many(0, 3, 40);
                b.extend(le(n, 8));
                for _ in 0..n {
                    let id = if r.chance(1, 4) { vec![7; 16] } else { r.bytes(16) };
                    b.extend(id);
                    let k = r.many(0, 3, 400);
                    b.extend(le(k, 8));
                    let mut at = r.below(4) + 1;
                    for _ in 0..k {
                        let n = if r.chance(1, 30) { 0 } else { r.range(1, 20) };
                        b.extend(le(at, 8)); b.extend(le(at + n, 8));
                        at += n + r.range(1, 10);
                        if r.chance(1, 20) { at = r.int(8) >> 1; }
                    }
                }
            }
            162 => { b.extend(le(r.int(8), 8)); b.extend(le(r.int(4), 4)); b.push(r.byte()); let n = r.below(8) as usize; let x = r.bytes(n); b.extend(x); }
            _ => { let n = r.many(0, 4, 400); b.extend(le(n | r.below(16) << 28, 4)); for _ in 0..n { b.extend(le(r.int(4), 4)); b.extend(le(r.int(4), 4)); b.extend(le(r.int(8), 8)); } }
        }
        self.push(r, kind, b);
    }
    pub fn unknown(&mut self, r: &mut Rng) { let k = r.byte(); let n = r.size(20, 200); let b = r.bytes(n); self.push(r, k, b); }

    pub fn fill(&mut self, r: &mut Rng) {
        // many tables at once
        if matches!(self.focus, Focus::Cache) && r.chance(1, 60) {
            let (first, n) = (r.range(1, 2000), if r.chance(1, 3) { r.range(300, 2500) } else { r.range(20, 300) });
            for i in 0..n { self.table_map_of(r, first + i); }
            for _ in 0..20 { self.rows(r); }
        }
        let n = match self.focus { Focus::Cache | Focus::Checksum => r.range(3, 14), Focus::Simple | Focus::Gtid | Focus::TableMap | Focus::Metadata => r.range(1, 3), _ => r.range(1, 4) };
        match self.focus {
            Focus::Temporal | Focus::Decimal | Focus::Text | Focus::Rows => { self.table_map(r); for _ in 0..n { self.rows(r); } }
            Focus::TableMap | Focus::Metadata => for _ in 0..n { self.table_map(r); },
            Focus::Simple => for _ in 0..n { if r.chance(1, 8) { self.fde(r) } else { self.simple(r) } },
            Focus::Gtid => for _ in 0..n { self.gtid(r); },
            Focus::Checksum => { self.fde(r); for _ in 0..n { match r.below(6) { 0 => self.fde(r), 1 => self.rows(r), 2 => self.gtid(r), 3 => self.unknown(r), _ => self.simple(r) } } }
            Focus::Cache => for _ in 0..n { match r.below(9) { 0..=2 => self.table_map(r), 3..=5 => self.rows(r), 6 => self.simple(r), 7 => if r.chance(1, 2) { self.fde(r) } else { self.unknown(r) }, _ => self.gtid(r) } },
            Focus::All => for _ in 0..n { match r.below(9) { 0 | 1 => self.table_map(r), 2..=4 => self.rows(r), 5 => self.fde(r), 6 => self.gtid(r), 7 => self.unknown(r), _ => self.simple(r) } },
        }
    }
    /// cut, flip, insert or extend bytes of some event
    pub fn mutate(&mut self, r: &mut Rng) {
        if self.events.is_empty() { return; }
        let i = r.below(self.events.len() as u64) as usize;
        let (h, b) = &mut self.events[i];
        for _ in 0..r.range(1, 2) {
            match r.below(9) {
                0 | 1 => { let n = if r.chance(1, 2) { b.len().saturating_sub(r.range(1, 6) as usize) } else { r.below(b.len() as u64 + 1) as usize }; b.truncate(n); }
                2 | 3 | 4 => if !b.is_empty() { let k = r.below(b.len() as u64) as usize; b[k] = r.byte(); },
                5 => if !b.is_empty() { let k = r.below(b.len() as u64) as usize; b[k] ^= 1 << r.below(8); },
                6 => { let k = r.below(b.len() as u64 + 1) as usize; let x = r.byte(); b.insert(k, x); }
                7 => { let n = r.range(1, 8) as usize; let x = r.bytes(n); b.extend(x); }
                _ => match r.below(3) {
                    0 => h[4] = *r.pick(&[2, 4, 5, 14, 15, 16, 19, 23, 24, 25, 27, 29, 30, 31, 32, 33, 35, 160, 162, 163]),
                    1 => { let x = r.int(4); h[9..13].copy_from_slice(&le(x, 4)); }
                    _ => h[4] = r.byte(),
                },
            }
        }
    }
}

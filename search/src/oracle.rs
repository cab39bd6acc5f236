//! What the binary log format says: an independent decoder that yields text descriptions of events.
use std::collections::HashMap;
use std::fmt::Write;

pub struct Rd<'a> { pub d: &'a [u8], pub p: usize }
type R<T> = Option<T>;
impl<'a> Rd<'a> {
    pub fn new(d: &'a [u8]) -> Self { Rd { d, p: 0 } }
    pub fn left(&self) -> usize { self.d.len().saturating_sub(self.p) }
    pub fn bytes(&mut self, n: usize) -> R<&'a [u8]> {
        if n == 0 { return Some(&[]); }
        if n > self.left() { return None; }
        let r = &self.d[self.p..self.p + n];
        self.p += n;
        Some(r)
    }
    pub fn le(&mut self, n: usize) -> R<u64> { Some(self.bytes(n)?.iter().rev().fold(0u64, |a, b| (a << 8) | *b as u64)) }
    pub fn be(&mut self, n: usize) -> R<u64> { Some(self.bytes(n)?.iter().fold(0u64, |a, b| (a << 8) | *b as u64)) }
    pub fn u8(&mut self) -> R<u8> { Some(self.bytes(1)?[0]) }
    pub fn text(&mut self, n: usize) -> R<String> { let b = self.bytes(n)?; String::from_utf8(b.to_vec()).ok() }
    pub fn rest(&mut self) -> R<String> { let n = self.left(); self.text(n) }
    pub fn lenenc(&mut self) -> R<u64> {
        match self.u8()? { b if b < 0xFB => Some(b as u64), 0xFC => self.le(2), 0xFD => self.le(3), 0xFE => self.le(8), _ => None }
    }
    pub fn lenstr(&mut self) -> R<String> { let n = self.lenenc()?; if n > self.left() as u64 { return None; } self.text(n as usize) }
    pub fn zstr(&mut self) -> R<String> {
        let n = self.left();
        let b = &self.d[self.d.len() - n..];
        match b.iter().position(|x| *x == 0) {
            Some(k) => { let t = self.text(k)?; self.p += 1; Some(t) }
            None => self.text(n),
        }
    }
    pub fn flags(&mut self, n: u64) -> R<Vec<bool>> {
        let b = self.bytes(usize::try_from(n / 8 + (n % 8 != 0) as u64).ok()?)?;
        Some((0..n as usize).map(|i| (b[i / 8] >> (i % 8)) & 1 == 1).collect())
    }
    pub fn flags_rev(&mut self, n: u64) -> R<Vec<bool>> {
        let b = self.bytes(((n + 7) / 8) as usize)?;
        Some((0..n as usize).map(|i| (b[i / 8] >> (7 - i % 8)) & 1 == 1).collect())
    }
}

pub fn bits(v: &[bool]) -> String { v.iter().map(|b| if *b { '1' } else { '0' }).collect() }
pub fn hex(v: &[u8]) -> String { let mut s = String::new(); for b in v { let _ = write!(s, "{:02x}", b); } s }
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

#[derive(Clone)]
pub struct Table { pub types: Vec<u8>, pub metas: Vec<u16> }
#[derive(Clone, Default)]
pub struct State { pub crc: bool, pub maps: HashMap<u64, Table> }

pub struct Header { pub timestamp: u32, pub kind: u8, pub server: u32, pub len: u32, pub next: u32, pub flags: u16 }
pub fn header(d: &[u8]) -> R<Header> {
    let mut r = Rd::new(d);
    Some(Header { timestamp: r.le(4)? as u32, kind: r.u8()?, server: r.le(4)? as u32, len: r.le(4)? as u32, next: r.le(4)? as u32, flags: r.le(2)? as u16 })
}
impl Header {
    pub fn text(&self) -> String { format!("H[{} {} {} {} {} {}]", self.timestamp, self.kind, self.server, self.len, self.next, self.flags) }
}

pub fn known_type(c: u8) -> bool { c <= 19 || c >= 245 }
fn meta_kind(t: u8) -> (usize, bool) {
    match t {
        4 | 5 | 17 | 18 | 19 | 245 | 249..=252 | 255 => (1, false),
        15 | 16 | 246 | 253 => (2, false),
        247 | 248 | 254 => (2, true),
        _ => (0, false),
    }
}

/// decimal text from its digit groups, by long arithmetic on digits
fn decimal(r: &mut Rd, meta: u16) -> R<String> {
    let (precision, scale) = ((meta & 0xFF) as usize, (meta >> 8) as usize);
    if precision == 0 || scale > precision { return None; }
    let width = [0usize, 1, 1, 2, 2, 3, 3, 4, 4, 4];
    let integral = precision - scale;
    let mut groups: Vec<usize> = vec![];                       // digits per group of the integral part
    if integral % 9 > 0 { groups.push(integral % 9); }
    for _ in 0..integral / 9 { groups.push(9); }
    let lead = groups.len();
    for _ in 0..scale / 9 { groups.push(9); }
    if scale % 9 > 0 { groups.push(scale % 9); }
    let total: usize = groups.iter().map(|g| width[*g]).sum();
    let raw = r.bytes(total)?;
    let negative = raw[0] & 0x80 == 0;
    let mut b: Vec<u8> = raw.to_vec();
    b[0] ^= 0x80;
    if negative { for x in b.iter_mut() { *x = !*x; } }
    let (mut int, mut frac, mut at) = (String::new(), String::new(), 0);
    for (k, g) in groups.iter().enumerate() {
        let v = b[at..at + width[*g]].iter().fold(0u64, |a, x| a * 256 + *x as u64);
        at += width[*g];
        let mut t = v.to_string();
        while t.len() < *g { t.insert(0, '0'); }
        if k < lead {
            // leading zeros of the whole integral part are not written
            if int.is_empty() { if v > 0 { int = v.to_string(); } } else { int.push_str(&t); }
        } else { frac.push_str(&t); }
    }
    let mut out = String::new();
    if negative { out.push('-'); }
    out.push_str(if int.is_empty() { "0" } else { &int });
    if scale > 0 { out.push('.'); out.push_str(&frac); }
    Some(out)
}

fn fraction(r: &mut Rd, meta: u16) -> R<u64> {   // in microseconds
    if meta > 6 { return None; }
    let n = ((meta + 1) / 2) as usize;
    let v = r.be(n)?;
    Some(v * [1_000_000, 10_000, 100, 1][n])
}

pub fn cell(r: &mut Rd, t0: u8, meta0: u16) -> R<String> {
    let (mut t, mut meta) = (t0, meta0);
    if t == 254 && meta >= 256 {
        let (b0, b1) = ((meta >> 8) as u8, meta & 0xFF);
        if b0 & 0x30 == 0x30 { if b0 == 247 || b0 == 248 { t = b0; } meta = b1; }
        else { t = b0 | 0x30; meta = b1 + (((b0 as u16 & 0x30) ^ 0x30) << 4); }
    }
    Some(match t {
        1 => format!("i1:{}", r.le(1)?),
        2 => format!("i2:{}", r.le(2)?),
        9 => format!("i3:{}", r.le(3)?),
        3 => format!("i4:{}", r.le(4)?),
        8 => format!("i8:{}", r.le(8)?),
        4 => format!("f4:{:08x}", r.le(4)?),
        5 => format!("f8:{:016x}", r.le(8)?),
        246 => format!("dec:{}", decimal(r, meta)?),
        15 | 253 | 254 => { let n = if meta < 256 { r.le(1)? } else { r.le(2)? }; format!("s:{:?}", r.text(n as usize)?) }
        16 => {
            let n = ((meta >> 8) * 8 + (meta & 0xFF)) as usize;
            let b = r.bytes((n + 7) / 8)?;
            // the value is a big-endian number of n bits
            let all: Vec<bool> = b.iter().flat_map(|x| (0..8).map(move |k| (x >> (7 - k)) & 1 == 1)).collect();
            format!("bit:{}", bits(&all[all.len() - n..]))
        }
        247 => { if meta < 1 || meta > 8 { return None; } format!("enum:{}", r.le(meta as usize)? as u32) }
        248 => { if meta < 1 || meta > 8 { return None; } format!("set:{}", r.le(meta as usize)?) }
        245 | 249..=252 | 255 => {
            if meta < 1 || meta > 8 { return None; }
            let n = r.le(meta as usize)?;
            if n > r.left() as u64 { return None; }
            format!("blob:{}", hex(r.bytes(n as usize)?))
        }
        13 => { let y = r.le(1)?; format!("y:{}", if y == 0 { 0 } else { 1900 + y }) }
        10 => { let v = r.le(3)?; format!("d:{}-{}-{}", v / 512, v / 32 % 16, v % 32) }
        11 => { let v = r.le(3)?; if v >= 1 << 23 { return None; } format!("t:{}:{}:{}.0", v / 10000, v / 100 % 100, v % 100) }
        7 => format!("ts:{}", r.le(4)? * 1000),
        12 => {
            let v = r.le(8)?;
            let (date, time) = (v / 1_000_000, v % 1_000_000);
            format!("dt:{}-{}-{} {}:{}:{}.0", (date / 10000) as u16, date / 100 % 100, date % 100, time / 10000, time / 100 % 100, time % 100)
        }
        19 => {
            let v = r.be(3)?;
            let f = fraction(r, meta)?;
            if v >> 23 == 0 { return None; }
            format!("t:{}:{}:{}.{}", v >> 12 & 0x3FF, v >> 6 & 0x3F, v & 0x3F, f / 1000)
        }
        17 => { let v = r.be(4)?; let f = fraction(r, meta)?; format!("ts:{}", v * 1000 + f / 1000) }
        18 => {
            let v = r.be(5)?;
            let f = fraction(r, meta)?;
            let ym = v >> 22 & 0x1FFFF;
            format!("dt:{}-{}-{} {}:{}:{}.{}", ym / 13, ym % 13, v >> 17 & 0x1F, v >> 12 & 0x1F, v >> 6 & 0x3F, v & 0x3F, f / 1000)
        }
        _ => return None,
    })
}

fn row(r: &mut Rd, t: &Table, present: &[bool]) -> R<String> {
    let n = present.iter().filter(|x| **x).count();
    let nulls = r.flags(n as u64)?;
    let (mut k, mut out) = (0, vec![]);
    for i in 0..t.types.len() {
        if !present[i] { out.push("-".to_string()); continue; }
        let null = nulls[k];
        k += 1;
        if null { out.push("-".to_string()); } else { out.push(cell(r, t.types[i], t.metas[i])?); }
    }
    Some(format!("({})", out.join("|")))
}

fn rows(st: &State, d: &[u8], name: &str, v2: bool, update: bool) -> R<String> {
    let mut r = Rd::new(d);
    let id = r.le(6)?;
    let flags = r.le(2)?;
    if v2 { let n = r.le(2)? as usize; r.p = r.p + n - 2; }
    let n = r.lenenc()?;
    let before = r.flags(n)?;
    let after = if update { r.flags(n)? } else { vec![] };
    let t = st.maps.get(&id)?;
    if t.types.len() as u64 != n { return None; }
    let mut out = vec![];
    while r.left() > 0 {
        if !before.contains(&true) && !after.contains(&true) { return None; }
        let mut s = row(&mut r, t, &before)?;
        if update { s = format!("{}=>{}", s, row(&mut r, t, &after)?); }
        out.push(s);
    }
    Some(format!("{}[{} {} {} {} {}]{}", name, id, flags, n, bits(&before), bits(&after), out.join("")))
}

fn ints(d: &[u8]) -> R<Vec<u32>> { let mut r = Rd::new(d); let mut v = vec![]; while r.left() > 0 { v.push(r.lenenc()? as u32); } Some(v) }
fn pairs(r: &mut Rd) -> R<Vec<(u32, u32)>> { let mut v = vec![]; while r.left() > 0 { v.push((r.lenenc()? as u32, r.lenenc()? as u32)); } Some(v) }
fn names(d: &[u8]) -> R<Vec<String>> { let mut r = Rd::new(d); let mut v = vec![]; while r.left() > 0 { v.push(r.lenstr()?); } Some(v) }
fn members(d: &[u8]) -> R<Vec<Vec<String>>> {
    let mut r = Rd::new(d);
    let mut v = vec![];
    while r.left() > 0 {
        let n = r.lenenc()?;
        let mut m = vec![];
        for _ in 0..n { m.push(r.lenstr()?); }
        v.push(m);
    }
    Some(v)
}
fn charset(d: &[u8]) -> R<String> { let mut r = Rd::new(d); let n = r.lenenc()? as u32; Some(format!("{}{:?}", n, pairs(&mut r)?)) }

fn table_metadata(r: &mut Rd, types: &[u8]) -> R<[String; 12]> {
    let mut out: [String; 12] = Default::default();
    while r.left() > 0 {
        let k = r.u8()?;
        if k < 1 || k > 12 { return None; }
        let n = r.lenenc()?;
        if n > r.left() as u64 { return None; }
        let b = r.bytes(n as usize)?;
        let numeric = types.iter().filter(|t| matches!(t, 1 | 2 | 3 | 4 | 5 | 8 | 9 | 246)).count() as u64;
        out[k as usize - 1] = match k {
            1 => bits(&Rd::new(b).flags_rev(numeric)?) + "!",
            12 => bits(&Rd::new(b).flags_rev(types.len() as u64)?) + "!",
            2 | 10 => charset(b)?,
            3 | 7 | 8 | 11 => format!("{:?}", ints(b)?),
            4 => format!("{:?}", names(b)?),
            5 | 6 => format!("{:?}", members(b)?),
            _ => format!("{:?}", pairs(&mut Rd::new(b))?),
        };
    }
    Some(out)
}

fn table_map(st: &mut State, d: &[u8]) -> R<String> {
    let mut r = Rd::new(d);
    let id = r.le(6)?;
    r.p += 2;
    let n = r.u8()? as usize;
    let database = r.text(n)?;
    r.p += 1;
    let n = r.u8()? as usize;
    let table = r.text(n)?;
    r.p += 1;
    let n = r.lenenc()?;
    if n > r.left() as u64 { return None; }
    let types = r.bytes(n as usize)?.to_vec();
    r.lenenc()?;
    let mut metas = vec![];
    for t in &types {
        if !known_type(*t) { return None; }
        let (n, big) = meta_kind(*t);
        metas.push((if big { r.be(n)? } else { r.le(n)? }) as u16);
    }
    let nullable = r.flags(n)?;
    let meta = if r.left() > 0 { Some(table_metadata(&mut r, &types)?) } else { None };
    let s = format!("TableMap[{} {:?} {:?} {:?} {:?} {} {:?}]", id, database, table, types, metas, bits(&nullable), meta);
    st.maps.insert(id, Table { types, metas });
    Some(s)
}

fn fde(st: &mut State, d: &[u8], len: u32) -> R<String> {
    let mut r = Rd::new(d);
    let version = r.le(2)?;
    let name = r.bytes(50)?;
    let name = String::from_utf8(name.iter().take_while(|b| **b != 0).cloned().collect()).ok()?;
    r.p = 71;
    let payload = r.u8()?;
    let mut crc = false;
    if payload as u32 != len.saturating_sub(19) {
        r.p = payload as usize;
        crc = match r.u8()? { 0 => false, 1 => true, _ => return None };
    }
    st.crc = crc;
    Some(format!("Fde[{} {:?} {}]", version, name, crc))
}

pub fn uuid(b: &[u8]) -> String { let h = hex(b); format!("{}-{}-{}-{}-{}", &h[0..8], &h[8..12], &h[12..16], &h[16..20], &h[20..32]) }

fn prev_gtids(d: &[u8]) -> R<String> {
    let mut r = Rd::new(d);
    let n = r.le(8)?;
    let mut sets: HashMap<String, Vec<(u64, u64)>> = HashMap::new();
    for _ in 0..n {
        let id = uuid(r.bytes(16)?);
        let k = r.le(8)?;
        let mut v = vec![];
        for _ in 0..k {
            let (a, b) = (r.le(8)?, r.le(8)?);
            if b <= a { return None; }
            v.push((a, b - 1));
        }
        sets.insert(id, v);
    }
    let mut v: Vec<_> = sets.into_iter().collect();
    v.sort();
    Some(format!("PrevGtids{:?}", v))
}
fn gtid_list(d: &[u8]) -> R<String> {
    let mut r = Rd::new(d);
    let n = r.le(4)? & 0x0FFF_FFFF;
    let mut v = vec![];
    for _ in 0..n { v.push(format!("{}-{}-{}", r.le(4)?, r.le(4)?, r.le(8)?)); }
    Some(format!("GtidList{:?}", v))
}

/// the event in body (with its checksum bytes if they are on), or None if it must be an error
pub fn event(st: &mut State, h: &Header, body: &[u8]) -> R<String> {
    let d = if st.crc { if body.len() < 4 { return None; } &body[..body.len() - 4] } else { body };
    let mut r = Rd::new(d);
    Some(match h.kind {
        2 => {
            let (thread, duration, n, code, m) = (r.le(4)?, r.le(4)?, r.u8()?, r.le(2)?, r.le(2)?);
            let status = hex(r.bytes(m as usize)?);
            let database = r.text(n as usize)?;
            r.p += 1;
            format!("Query[{} {} {} {:?} {:?} {:?}]", thread, duration, code, status, database, r.rest()?)
        }
        4 => format!("Rotate[{} {:?}]", r.le(8)?, r.rest()?),
        5 => format!("IntVar[{} {}]", r.u8()?, r.le(8)?),
        14 => {
            let n = r.le(4)?;
            let name = r.text(n as usize)?;
            if r.u8()? != 0 { format!("UserVar[{:?} NULL]", name) } else {
                let (t, c, n) = (r.u8()?, r.le(4)?, r.le(4)?);
                let v = r.text(n as usize)?;
                format!("UserVar[{:?} {} {} {:?} {}]", name, t, c, v, r.u8()?)
            }
        }
        15 => fde(st, d, h.len)?,
        16 => format!("Xid[{}]", r.le(8)?),
        19 => table_map(st, d)?,
        23 => rows(st, d, "Write", false, false)?,
        24 => rows(st, d, "Update", false, true)?,
        25 => rows(st, d, "Delete", false, false)?,
        30 => rows(st, d, "Write", true, false)?,
        31 => rows(st, d, "Update", true, true)?,
        32 => rows(st, d, "Delete", true, false)?,
        27 => format!("Heartbeat[{:?}]", r.rest()?),
        29 => { r.p = 1; format!("RowsQuery[{:?}]", r.rest()?) }
        160 => format!("RowsQuery[{:?}]", r.rest()?),
        33 => format!("MyGtid[{} {} {}]", r.u8()?, uuid(r.bytes(16)?), r.le(8)?),
        35 => prev_gtids(d)?,
        162 => { let (s, dom, f) = (r.le(8)?, r.le(4)?, r.u8()?); format!("MariaGtid[{}-{}-{} {}]", dom, h.server, s, f) }
        163 => gtid_list(d)?,
        _ => "Unknown".to_string(),
    })
}

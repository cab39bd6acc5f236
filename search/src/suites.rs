//! Suites without network: each turns a case (a list of byte strings) into a comparison of the code with the oracle.
use crate::gen::{le, Focus, Stream};
use crate::oracle::{self, hex, State};
use crate::real;
use crate::rng::Rng;
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::binlog_reader::BinlogReader;
use mysql_cdc::events::binlog_event::BinlogEvent;
use mysql_cdc::events::event_header::EventHeader;
use mysql_cdc::events::event_parser::EventParser;
use mysql_cdc::providers::mariadb::gtid::gtid::Gtid as MariaGtid;
use mysql_cdc::providers::mariadb::gtid::gtid_list::GtidList;
use mysql_cdc::providers::mysql::gtid::gtid::Gtid as MyGtid;
use mysql_cdc::providers::mysql::gtid::gtid_set::GtidSet;
use mysql_cdc::providers::mysql::gtid::uuid::Uuid;
use mysql_cdc::providers::mysql::gtid::uuid_set::UuidSet;
use mysql_cdc::replica_options::ReplicaOptions;
use std::collections::BTreeMap;

pub type Case = Vec<Vec<u8>>;
pub type Res = Result<(), String>;

fn diff(what: &str, want: &str, got: &str) -> Res { if want == got { Ok(()) } else { Err(format!("{}\n  expected: {}\n  got:      {}", what, want, got)) } }

// ---------------------------------------------------------------- events
pub fn gen_events(r: &mut Rng, focus: Focus) -> Case {
    let mut s = Stream::new(focus);
    s.fill(r);
    if focus == Focus::All { if r.chance(2, 3) { s.mutate(r); } if r.chance(1, 3) { s.mutate(r); } } else if r.chance(1, 3) { s.mutate(r); }
    s.events.into_iter().flat_map(|(h, b)| [h, b]).collect()
}
pub fn run_events(c: &Case) -> Res {
    let mut st = State::default();
    let mut p = EventParser::new();
    for (i, e) in c.chunks(2).enumerate() {
        if e.len() < 2 { break; }
        let oh = oracle::header(&e[0]);
        let rh = EventHeader::parse(&e[0]);
        let (oh, rh) = match (oh, rh) {
            (None, Err(_)) => continue,
            (Some(a), Ok(b)) => (a, b),
            (a, b) => return Err(format!("header of event {}: expected {} got {:?}", i, a.map_or("an error".to_string(), |h| h.text()), b)),
        };
        diff("event header", &oh.text(), &real::header(&rh))?;
        let want = oracle::event(&mut st, &oh, &e[1]);
        let got = p.parse_event(&rh, &e[1]);
        let got = match &got { Ok(x) => Ok(real::event(x)), Err(x) => Err(format!("{:?}", x)) };
        let at = format!("event {} (type {}, {} body bytes)", i, oh.kind, e[1].len());
        match (want, got) {
            (None, Err(_)) => {}
            (Some(a), Ok(b)) => diff(&at, &a, &b)?,
            (None, Ok(b)) => return Err(format!("{}: expected an error\n  got:      {}", at, b)),
            (Some(a), Err(b)) => return Err(format!("{}\n  expected: {}\n  got error {}", at, a, b)),
        }
        let crc = format!("{:?}", p.checksum_type) == "Crc32";
        if crc != st.crc { return Err(format!("{}: checksum setting afterwards should be {}, is {}", at, st.crc, crc)); }
    }
    Ok(())
}

// ---------------------------------------------------------------- files
pub fn gen_file(r: &mut Rng) -> Case {
    let mut s = Stream::new(Focus::Cache);
    if r.chance(3, 4) { s.fde(r); }
    for _ in 0..r.below(6) {
        match r.below(7) { 0 => s.table_map(r), 1 | 2 => s.rows(r), 3 => s.gtid(r), 4 => s.unknown(r), _ => s.simple(r) }
        if r.chance(1, 12) {   // around the size of the buffer
            let n = match r.below(4) { 0 => r.range(32_760, 32_776), 1 => r.range(32_741, 32_775), 2 => r.range(30_000, 70_000), _ => r.range(65_500, 65_560) } as usize;
            let mut b = r.bytes(n / 8);
            b.resize(n, b'a');
            let kind = *r.pick(&[3u8, 160, 27]);
            if kind != 3 { for x in b.iter_mut() { *x &= 0x7F; } }
            if s.crc && r.chance(3, 4) { let l = b.len(); b.truncate(l - 4); }
            s.push(r, kind, b);
        }
    }
    if r.chance(1, 4) { s.mutate(r); }
    let mut f = vec![0xfe, 0x62, 0x69, 0x6e];
    let fix = r.chance(7, 8);
    for (mut h, b) in s.events {
        if fix { h[9..13].copy_from_slice(&le(19 + b.len() as u64, 4)); }
        if r.chance(1, 40) { let n = r.below(20); h[9..13].copy_from_slice(&le(n, 4)); }
        f.extend(h);
        f.extend(b);
    }
    match r.below(12) { 0 => { let n = r.below(f.len() as u64 + 1) as usize; f.truncate(n); } 1 => { let k = r.below(4) as usize; f[k] = r.byte(); } 2 => { let n = r.below(25) as usize; let x = r.bytes(n); f.extend(x); } _ => {} }
    vec![f]
}
pub fn run_file(c: &Case, scratch: &str) -> Res {
    let d = &c[0];
    let path = format!("{}/binlog", scratch);
    std::fs::write(&path, d).unwrap();
    let reader = BinlogReader::new(std::fs::File::open(&path).unwrap());
    let ok = d.len() >= 4 && d[..4] == [0xfe, 0x62, 0x69, 0x6e];
    let mut reader = match (reader, ok) {
        (Ok(r), true) => r.read_events(),
        (Err(_), false) => return Ok(()),
        (Ok(_), false) => return Err("a file without the binlog signature was accepted".to_string()),
        (Err(e), true) => return Err(format!("a binlog file was refused: {:?}", e)),
    };
    let mut st = State::default();
    let mut p = 4;
    let mut i = 0;
    loop {
        let item = reader.next();
        let item = item.map(|x| match x { Ok((h, e)) => Ok(format!("{} {}", real::header(&h), real::event(&e))), Err(e) => Err(format!("{:?}", e)) });
        let h = if d.len() - p < 19 { None } else { oracle::header(&d[p..p + 19]) };
        let h = match h { None => return if item.is_none() { Ok(()) } else { Err(format!("item {} after the last complete event: {:?}", i, item)) }, Some(h) => h };
        if h.len < 19 {
            return match item { Some(Err(_)) => Ok(()), x => Err(format!("item {}: event length {} must be an error, got {:?}", i, h.len, x)) };
        }
        let n = h.len as usize - 19;
        if d.len() - p - 19 < n { return if item.is_none() { Ok(()) } else { Err(format!("item {} from an incomplete event: {:?}", i, item)) }; }
        let body = &d[p + 19..p + 19 + n];
        p += 19 + n;
        let want = oracle::event(&mut st, &h, body);
        let at = format!("item {} (type {}, {} body bytes, ends at {} of {})", i, h.kind, n, p, d.len());
        match (want, item) {
            (None, Some(Err(_))) => {}
            (Some(a), Some(Ok(b))) => diff(&at, &format!("{} {}", h.text(), a), &b)?,
            (a, None) => return Err(format!("{}: iteration ended, expected {}", at, a.unwrap_or("an error".to_string()))),
            (a, b) => return Err(format!("{}\n  expected: {:?}\n  got:      {:?}", at, a, b)),
        }
        i += 1;
    }
}

// ---------------------------------------------------------------- MySQL GTID sets
pub type Sets = BTreeMap<String, Vec<(u64, u64)>>;
const MAX: u64 = i64::MAX as u64;

/// sorted, disjoint and not adjacent
pub fn normal(mut v: Vec<(u64, u64)>) -> Vec<(u64, u64)> {
    v.sort();
    let mut out: Vec<(u64, u64)> = vec![];
    for (a, b) in v {
        match out.last_mut() { Some(l) if a <= l.1.saturating_add(1) => l.1 = l.1.max(b), _ => out.push((a, b)) }
    }
    out
}
fn number(t: &str) -> Option<u64> {
    // an unsigned decimal number of 64 bits; Rust number parsing allows one plus sign
    let t = t.strip_prefix('+').unwrap_or(t);
    if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) { return None; }
    let mut v: u64 = 0;
    for b in t.bytes() { v = v.checked_mul(10)?.checked_add((b - b'0') as u64)?; }
    Some(v)
}
pub fn oracle_set(text: &str) -> Option<Sets> {
    let mut out = Sets::new();
    if text.is_empty() { return Some(out); }
    let text: String = text.chars().filter(|c| *c != '\n').collect();
    for part in text.split(',') {
        let part: Vec<char> = part.trim().chars().collect();
        let id: String = part.iter().take(36).filter(|c| **c != '-').collect();
        if id.len() != 32 || !id.bytes().all(|b| b.is_ascii_hexdigit()) { return None; }
        let id = id.to_ascii_lowercase();
        let id = format!("{}-{}-{}-{}-{}", &id[0..8], &id[8..12], &id[12..16], &id[16..20], &id[20..32]);
        let ranges: String = part.iter().skip(37).collect();
        let mut v = vec![];
        for t in ranges.split(':') {
            let ab: Vec<&str> = t.split('-').collect();
            let (a, b) = match ab.len() { 1 => (number(ab[0])?, number(ab[0])?), 2 => (number(ab[0])?, number(ab[1])?), _ => return None };
            if a == 0 || a > b || b >= MAX { return None; }
            v.push((a, b));
        }
        let e = out.entry(id).or_default();
        e.extend(v);
    }
    for v in out.values_mut() { *v = normal(std::mem::take(v)); }
    Some(out)
}
/// a set to start from: a text, then servers of which no transaction is known
pub fn given(text: &str) -> (Option<Sets>, GtidSet) {
    let mut parts = text.split('|');
    let first = parts.next().unwrap_or("");
    let mut want = oracle_set(first);
    let mut set = GtidSet::parse(first).unwrap_or_else(|_| GtidSet::new());
    for id in parts {
        if let (Some(w), Ok(u)) = (&mut want, Uuid::parse(id.to_string())) {
            w.entry(id.to_string()).or_default();
            set.uuid_sets.entry(id.to_string()).or_insert(UuidSet::new(u, vec![]));
        }
    }
    (want, set)
}
/// the text of a set to start from, maybe none
pub fn gen_given(r: &mut Rng, none: u64) -> String {
    let mut s = String::new();
    for _ in 0..20 { s = gen_set_text(r); if oracle_set(&s).is_some() { break; } }
    if oracle_set(&s).is_none() || r.chance(1, none) { s.clear(); }
    if r.chance(1, 8) { for _ in 0..r.range(1, 3) { s.push('|'); s.push_str(&gen_id(r)); } }
    s
}
pub fn sets_of(s: &GtidSet) -> Result<Sets, String> {
    let mut out = Sets::new();
    for (k, u) in &s.uuid_sets {
        if u.source_id.uuid != *k || oracle::uuid(&u.source_id.data) != *k { return Err(format!("entry {} holds server id {:?}", k, u.source_id)); }
        out.insert(k.clone(), u.intervals.iter().map(|i| (i.start, i.end)).collect());
    }
    Ok(out)
}
pub fn print_sets(s: &Sets) -> String {
    let mut v: Vec<String> = s.iter().map(|(k, v)| format!("{}:{}", k, v.iter().map(|(a, b)| if a == b { a.to_string() } else { format!("{}-{}", a, b) }).collect::<Vec<_>>().join(":"))).collect();
    v.sort();
    v.join(",")
}
const IDS: [&str; 5] = ["24bc7850-2c16-11e6-a073-0242ac110002", "24bc7850-2c16-11e6-a073-0242ac110001", "ffffffff-ffff-ffff-ffff-ffffffffffff", "00000000-0000-0000-0000-000000000000", "d4c17f0c-4f11-11ea-93e3-325d3e1cd1c8"];
pub fn gen_id(r: &mut Rng) -> String { if r.chance(3, 4) { r.pick(&IDS).to_string() } else { oracle::uuid(&r.bytes(16)) } }
fn gen_num(r: &mut Rng) -> u64 { match r.below(12) { 0 => r.int(8), 1 => MAX - r.below(4), 2 => r.int(4), 3 => r.dict(), _ => r.range(1, 40) } }
pub fn gen_set_text(r: &mut Rng) -> String {
    let mut parts = vec![];
    let long = r.chance(1, 60);
    for _ in 0..r.many(1, 4, 80) {
        let mut id = gen_id(r);
        match r.below(8) { 0 => id = id.to_ascii_uppercase(), 1 => { let k = r.below(36) as usize; id = id.char_indices().map(|(i, c)| if i >= k { c.to_ascii_uppercase() } else { c }).collect() } _ => {} }
        let mut s = id;
        let mut at = 0;
        for _ in 0..if long { r.range(100, 600) } else { r.many(1, 5, 40) } {
            let a = if long { at += r.range(2, 9); at } else { gen_num(r) };
            let b = if r.chance(1, 40) { gen_num(r) } else { a.saturating_add(r.below(10)) };
            s.push(':');
            s.push_str(&if r.chance(1, 2) { format!("{}", a) } else { format!("{}-{}", a, b) });
        }
        match r.below(6) { 0 => s = format!(" {}", s), 1 => s = format!("\n{}", s), 2 => s = format!("{} \n", s), 3 => s = format!("\t{}", s), _ => {} }
        parts.push(s);
    }
    parts.join(",")
}
pub fn mutate_text(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 2) {
        let k = r.below(v.len() as u64 + 1) as usize;
        match r.below(5) {
            0 => v.truncate(k),
            1 => if k < v.len() { v.remove(k); },
            2 => if k < v.len() { v[k] = *r.pick(&['-', ':', ',', '0', '9', 'g', ' ', 'é', '\u{1F600}', '\n', '+', 'A']); },
            _ => v.insert(k, *r.pick(&['-', ':', ',', '0', '9', 'g', ' ', 'é', '\u{1F600}', '\n', '+', '1', '\u{a0}', '_'])),
        }
    }
    v.into_iter().collect()
}
pub fn gen_gtid_parse(r: &mut Rng) -> Case {
    let mut s = if r.chance(1, 60) { String::new() } else { gen_set_text(r) };
    if r.chance(1, 3) { s = mutate_text(r, &s); }
    if r.chance(1, 50) { s = r.text(60); }
    vec![s.into_bytes()]
}
pub fn run_gtid_parse(c: &Case) -> Res {
    let text = String::from_utf8_lossy(&c[0]).to_string();
    let got = GtidSet::parse(&text);
    let want = oracle_set(&text);
    let (got, want) = match (got, want) {
        (Err(_), None) => return Ok(()),
        (Ok(a), Some(b)) => (a, b),
        (Ok(a), None) => return Err(format!("parsing {:?} must be an error, got {:?}", text, sets_of(&a))),
        (Err(e), Some(b)) => return Err(format!("parsing {:?}: got error {:?}, expected {:?}", text, e, b)),
    };
    diff(&format!("parsing {:?}", text), &format!("{:?}", want), &format!("{:?}", sets_of(&got)?))?;
    let printed = got.to_string();
    diff(&format!("printing the set of {:?}", text), &print_sets(&want), &printed)?;
    match GtidSet::parse(&printed) {
        Err(e) => Err(format!("the printed set {:?} of {:?} can't be parsed: {:?}", printed, text, e)),
        Ok(x) => diff(&format!("parsing the printed set {:?}", printed), &format!("{:?}", want), &format!("{:?}", sets_of(&x)?)),
    }
}
pub fn gen_gtid_ops(r: &mut Rng) -> Case {
    let mut c = vec![gen_given(r, 3).into_bytes()];
    let n = if r.chance(1, 10) { r.range(20, 120) } else { r.many(1, 20, 700) };
    let spread = r.chance(1, 6);
    let mut last = r.range(1, 30);
    for _ in 0..n {
        let id = if r.chance(4, 5) { IDS[0].to_string() } else { gen_id(r) };
        let x = match r.below(10) { 0 => last + 1, 1 => last.saturating_sub(1), 2 => last + 2, 3 => last, 4 => r.int(8), 5..=8 if spread => r.range(1, 2000), _ => r.range(1, 45) };
        let x = x.clamp(1, MAX - 1);
        if x < MAX - 3 { last = x; }
        let mut b = oracle::unhex(&id.replace('-', ""));
        b.extend(le(x, 8));
        c.push(b);
    }
    c
}
pub fn run_gtid_ops(c: &Case) -> Res {
    let text = String::from_utf8_lossy(&c[0]).to_string();
    let (model, mut set) = given(&text);
    let mut model = model.unwrap_or_default();
    for (i, op) in c[1..].iter().enumerate() {
        let mut data = [0u8; 16];
        data.copy_from_slice(&op[..16]);
        let x = u64::from_le_bytes(op[16..24].try_into().unwrap());
        let e = model.entry(oracle::uuid(&data)).or_default();
        let new = !e.iter().any(|(a, b)| *a <= x && x <= *b);
        let before = e.clone();
        e.push((x, x));
        *e = normal(std::mem::take(e));
        let got = set.add_gtid(MyGtid::new(Uuid::new(data), x));
        let at = format!("step {}: adding {}:{} to {:?}", i, oracle::uuid(&data), x, before);
        match got { Ok(g) if g == new => {} g => return Err(format!("{}: expected new = {}, got {:?}", at, new, g)) }
        diff(&at, &format!("{:?}", model), &format!("{:?}", sets_of(&set)?))?;
    }
    diff("printing", &print_sets(&model), &set.to_string())
}

// ---------------------------------------------------------------- MariaDB GTID lists
pub type List = Vec<(u32, u32, u64)>;
pub fn oracle_list(text: &str) -> Option<List> {
    if text.is_empty() { return Some(vec![]); }
    let text: String = text.chars().filter(|c| *c != '\n').collect();
    let mut out: List = vec![];
    for part in text.split(',') {
        let c: Vec<&str> = part.trim().split('-').collect();
        if c.len() != 3 { return None; }
        let (d, s, n) = (u32::try_from(number(c[0])?).ok()?, u32::try_from(number(c[1])?).ok()?, number(c[2])?);
        if out.iter().any(|x| x.0 == d) { return None; }
        out.push((d, s, n));
    }
    Some(out)
}
pub fn list_of(l: &GtidList) -> List { l.gtids.iter().map(|g| (g.domain_id, g.server_id, g.sequence)).collect() }
pub fn print_list(l: &List) -> String { l.iter().map(|g| format!("{}-{}-{}", g.0, g.1, g.2)).collect::<Vec<_>>().join(",") }
pub fn gen_list_text(r: &mut Rng) -> String {
    let mut v = vec![];
    for i in 0..r.many(1, 5, 300) {
        let d = if r.chance(1, 6) { r.below(5) } else if r.chance(1, 5) { r.int(4) } else { i };
        let mut s = format!("{}-{}-{}", d, r.int(4), r.int(8));
        match r.below(8) { 0 => s = format!(" {}", s), 1 => s = format!("{}\n", s), 2 => s = format!("\n{}", s), 3 => s = format!("{}-{}-{}", d, r.int(5), r.int(8)), _ => {} }
        v.push(s);
    }
    v.join(",")
}
pub fn gen_list(r: &mut Rng) -> Case {
    let mut s = if r.chance(1, 60) { String::new() } else { gen_list_text(r) };
    if r.chance(1, 4) { s = mutate_text(r, &s); }
    let mut c = vec![s.into_bytes()];
    for _ in 0..r.many(0, 9, 80) {
        let d = if r.chance(1, 4) { r.int(4) } else { r.below(6) };
        let mut b = le(d, 4); b.extend(le(if r.chance(1, 2) { r.below(3) } else { r.int(4) }, 4)); b.extend(le(if r.chance(1, 2) { r.below(9) } else { r.int(8) }, 8));
        c.push(b);
    }
    c
}
pub fn run_list(c: &Case) -> Res {
    let text = String::from_utf8_lossy(&c[0]).to_string();
    let (mut got, mut want) = match (GtidList::parse(&text), oracle_list(&text)) {
        (Err(_), None) => (GtidList::new(), vec![]),
        (Ok(a), Some(b)) => (a, b),
        (Ok(a), None) => return Err(format!("parsing {:?} must be an error, got {:?}", text, list_of(&a))),
        (Err(e), Some(b)) => return Err(format!("parsing {:?}: got error {:?}, expected {:?}", text, e, b)),
    };
    diff(&format!("parsing {:?}", text), &format!("{:?}", want), &format!("{:?}", list_of(&got)))?;
    for (i, op) in c[1..].iter().enumerate() {
        let g = (u32::from_le_bytes(op[0..4].try_into().unwrap()), u32::from_le_bytes(op[4..8].try_into().unwrap()), u64::from_le_bytes(op[8..16].try_into().unwrap()));
        let at = format!("step {}: adding {:?} to {:?}", i, g, want);
        let new = match want.iter_mut().find(|x| x.0 == g.0) { Some(x) => { *x = g; false } None => { want.push(g); true } };
        let r = got.add_gtid(MariaGtid::new(g.0, g.1, g.2));
        if r != new { return Err(format!("{}: expected new = {}, got {}", at, new, r)); }
        diff(&at, &format!("{:?}", want), &format!("{:?}", list_of(&got)))?;
    }
    diff("printing", &print_list(&want), &got.to_string())?;
    let again = GtidList::parse(&got.to_string()).map_err(|e| format!("the printed list {:?} can't be parsed: {:?}", got.to_string(), e))?;
    diff("parsing the printed list", &format!("{:?}", want), &format!("{:?}", list_of(&again)))
}

// ---------------------------------------------------------------- commits
/// case: strategy, gtid texts, file name, position; then one event with its header per item
pub fn gen_commit(r: &mut Rng) -> Case {
    let strategy = r.below(7) as u8 | if r.chance(1, 4) { 8 } else { 0 };
    let set = gen_given(r, 3);
    let mut list = String::new();
    for _ in 0..20 { list = gen_list_text(r); if oracle_list(&list).is_some() { break; } }
    if oracle_list(&list).is_none() || r.chance(1, 3) { list.clear(); }
    let mut c = vec![vec![strategy], set.into_bytes(), list.into_bytes(), r.text(20).into_bytes(), le(if r.chance(1, 8) { r.below(6) } else { r.int(4) }, 4)];
    let n = r.many(1, 16, 400);
    for (h, b) in gen_commits(r, n) { c.push(h); c.push(b); }
    c
}
pub fn gen_commits(r: &mut Rng, n: u64) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut c = vec![];
    let mut id = r.range(1, 20);
    let bias = r.below(3);
    for _ in 0..n {
        let mut s = Stream::new(Focus::Cache);
        let k = r.below(16);
        match k {
            0 => { let n = r.int(8); let mut b = le(n, 8); b.extend(r.text(20).into_bytes()); s.push(r, 4, b); }
            1 => s.table_map(r),
            2 => s.rows(r),
            3 => s.gtid(r),
            4 => s.simple(r),
            5 | 6 => { let b = le(r.int(8), 8); s.push(r, 16, b); }
            7..=10 => {
                let sql = match r.below(13) { 0..=3 => "BEGIN".to_string(), 4 | 5 => "COMMIT".to_string(), 6 | 7 => "ROLLBACK".to_string(), 8 => String::new(),
                    9 => r.pick(&["begin", "BEGIN ", "commit", "ROLLBACK TO x", "SAVEPOINT a", "BEGIN; x", "XA START 'a'", "Commit", "START TRANSACTION"]).to_string(), 10 => r.text(20), _ => "CREATE TABLE t(id int)".to_string() };
                let mut b = vec![0; 13];
                b.push(0);
                b.extend(sql.into_bytes());
                s.push(r, 2, b);
            }
            _ => if bias == 0 || (bias == 2 && r.chance(1, 2)) {
                id = match r.below(6) { 0 => r.range(1, 40), 1 => id, _ => id + 1 };
                let mut b = vec![r.below(2) as u8];
                b.extend(oracle::unhex(&gen_id(r).replace('-', "")));
                b.extend(le(id, 8));
                s.push(r, 33, b);
            } else {
                let mut b = le(if r.chance(1, 3) { r.int(8) } else { r.below(50) }, 8);
                b.extend(le(r.below(4), 4));
                b.push(if r.chance(1, 2) { r.below(4) as u8 } else { r.byte() });
                s.push(r, 162, b);
            },
        }
        for (mut h, b) in s.events { if r.chance(1, 4) { h[13..17].copy_from_slice(&[0; 4]); } if h[4] == 162 { h[6..9].copy_from_slice(&[0; 3]); } c.push((h, b)); }
    }
    c
}
/// the options after the commits, computed independently
pub struct Pos { pub strategy: u8, pub file: String, pub position: u32, pub set: Option<Sets>, pub list: Option<List> }
pub fn options(c: &Case) -> (BinlogOptions, Pos) {
    let text = |i: usize| String::from_utf8_lossy(&c[i]).to_string();
    let (set, list, file) = (text(1), text(2), text(3));
    let position = u32::from_le_bytes(c[4][..4].try_into().unwrap());
    let o = given(&set).0.unwrap_or_default();
    let l = oracle_list(&list).unwrap_or_default();
    let rs = || given(&set).1;
    let rl = || GtidList::parse(&list).unwrap_or_else(|_| GtidList::new());
    let kind = c[0][0] & 7;
    let mut b = match kind {
        0 => BinlogOptions::from_start(),
        1 => BinlogOptions::from_end(),
        2 => BinlogOptions::from_position(file.clone(), position),
        3 => BinlogOptions::from_mysql_gtid(rs()),
        4 => BinlogOptions::from_mariadb_gtid(rl()),
        5 => { let mut b = BinlogOptions::from_mysql_gtid(rs()); b.gtid_list = Some(rl()); b }
        _ => { let mut b = BinlogOptions::from_position(file.clone(), position); b.gtid_set = Some(rs()); b.gtid_list = Some(rl()); b }
    };
    let mut p = match kind {
        0 => Pos { strategy: 0, file: String::new(), position: 4, set: None, list: None },
        1 => Pos { strategy: 1, file: String::new(), position: 0, set: None, list: None },
        2 => Pos { strategy: 2, file: file.clone(), position, set: None, list: None },
        3 => Pos { strategy: 3, file: String::new(), position: 4, set: Some(o), list: None },
        4 => Pos { strategy: 3, file: String::new(), position: 4, set: None, list: Some(l) },
        5 => Pos { strategy: 3, file: String::new(), position: 4, set: Some(o), list: Some(l) },
        _ => Pos { strategy: 2, file: file.clone(), position, set: Some(o), list: Some(l) },
    };
    // as left by an earlier session
    if c[0][0] & 8 != 0 || kind == 5 { b.filename = file.clone(); b.position = position; p.file = file; p.position = position; }
    (b, p)
}
pub fn pos_text(p: &Pos) -> String { format!("strategy {} file {:?} position {} set {:?} list {:?}", p.strategy, p.file, p.position, p.set, p.list) }
pub fn pos_of(b: &BinlogOptions) -> Result<Pos, String> {
    Ok(Pos { strategy: b.starting_strategy as u8, file: b.filename.clone(), position: b.position,
        set: match &b.gtid_set { None => None, Some(s) => Some(sets_of(s)?) }, list: b.gtid_list.as_ref().map(list_of) })
}
pub fn run_commit(c: &Case) -> Res {
    let (b, mut want) = options(c);
    let mut client = BinlogClient::new(ReplicaOptions { binlog: b, ..Default::default() });
    diff("options at the start", &pos_text(&want), &pos_text(&pos_of(&client.options.binlog)?))?;
    let mut t = Tracker::default();
    let mut parser = EventParser::new();
    for (i, e) in c[5..].chunks(2).enumerate() {
        if e.len() < 2 { break; }
        let h = match EventHeader::parse(&e[0]) { Ok(h) => h, Err(_) => continue };
        let ev = match parser.parse_event(&h, &e[1]) { Ok(x) => x, Err(_) => continue };
        t.commit(&mut client, &mut want, i, &h, &ev)?;
    }
    Ok(())
}
/// what a client remembers between commits
#[derive(Default)]
pub struct Tracker { open: bool, my: Option<(String, u64)>, maria: Option<(u32, u32, u64)> }
impl Tracker {
    pub fn commit(&mut self, client: &mut BinlogClient, want: &mut Pos, i: usize, h: &EventHeader, ev: &BinlogEvent) -> Res {
        let before = pos_text(want);
        if want.strategy == 3 {
            let mut end = false;
            match ev {
                BinlogEvent::MySqlGtidEvent(g) => {
                    if g.gtid.transaction_id == 0 || g.gtid.transaction_id >= MAX { return Ok(()); }
                    self.my = Some((oracle::uuid(&g.gtid.source_id.data), g.gtid.transaction_id));
                }
                BinlogEvent::MariaDbGtidEvent(g) => { self.maria = Some((g.gtid.domain_id, g.gtid.server_id, g.gtid.sequence)); self.open = g.flags & 1 == 0; }
                BinlogEvent::XidEvent(_) => end = true,
                BinlogEvent::QueryEvent(q) => match q.sql_statement.as_str() { "" => {} "BEGIN" => self.open = true, "COMMIT" | "ROLLBACK" => end = true, _ => end = !self.open },
                _ => {}
            }
            if end {
                self.open = false;
                if let (Some(s), Some((id, x))) = (&mut want.set, &self.my) { let v = s.entry(id.clone()).or_default(); v.push((*x, *x)); *v = normal(std::mem::take(v)); }
                if let (Some(l), Some(g)) = (&mut want.list, &self.maria) { match l.iter_mut().find(|x| x.0 == g.0) { Some(x) => *x = *g, None => l.push(*g) } }
            }
        }
        match ev {
            BinlogEvent::TableMapEvent(_) => {}
            BinlogEvent::RotateEvent(x) => { want.file = x.binlog_filename.clone(); want.position = x.binlog_position as u32; }
            _ => if h.next_event_position != 0 { want.position = h.next_event_position; }
        }
        client.commit(h, ev);
        diff(&format!("commit {} of {} (next position {}) to {}", i, real::event(ev), h.next_event_position, before), &pos_text(want), &pos_text(&pos_of(&client.options.binlog)?))
    }
}
pub fn show(c: &Case) -> Vec<String> { c.iter().map(|b| hex(b)).collect() }

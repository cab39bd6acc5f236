//! Searches for inputs on which the code under test differs from the oracle, and replays recorded ones.
//! search run PROPERTY SEED SECONDS OUT [DICT]   |   search replay FILE
mod gen;
mod net;
mod oracle;
mod real;
mod rng;
mod suites;

use gen::Focus;
use rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use suites::{Case, Res};

struct Alloc;
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
static LARGEST: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size()); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(l.size()); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { note(n); System.realloc(p, l, n) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
fn note(n: usize) {
    let limit = LIMIT.load(SeqCst);
    if n > limit {
        LARGEST.fetch_max(n, SeqCst);
        if n > (1 << 30) { LIMIT.store(usize::MAX, SeqCst); report(&format!("allocates {} bytes for a small input", n)); std::process::exit(1); }
    }
}
#[global_allocator]
static A: Alloc = Alloc;

static CURRENT: Mutex<Option<(String, Case)>> = Mutex::new(None);
static STARTED: AtomicU64 = AtomicU64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);
static OUT: Mutex<(String, String)> = Mutex::new((String::new(), String::new()));

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn report(msg: &str) {
    let (prop, out) = OUT.lock().unwrap().clone();
    let cur = CURRENT.lock().unwrap();
    if let Some((suite, case)) = cur.as_ref() {
        let blobs: Vec<String> = suites::show(case).iter().map(|x| json(x)).collect();
        let s = format!("{{\n \"property\": {},\n \"suite\": {},\n \"what\": {},\n \"input\": [{}]\n}}\n", json(&prop), json(suite), json(msg), blobs.join(", "));
        if out.is_empty() { println!("{}", s); } else { std::fs::write(&out, s).unwrap(); }
    }
}
fn now() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64 }

/// (suite, focus) pairs of a property, the more important ones repeated
fn plan(p: &str) -> Vec<(&'static str, Focus)> {
    use Focus::*;
    match p {
        "C01" => vec![("events", Temporal)],
        "C02" => vec![("events", Decimal)],
        "C03" => vec![("events", Text)],
        "C04" => vec![("events", Rows), ("events", Rows), ("events", Cache), ("events", All)],
        "C05" => vec![("events", TableMap)],
        "C06" => vec![("events", Metadata)],
        "C07" => vec![("events", Checksum), ("events", Checksum), ("events", Checksum), ("events", All), ("file", All), ("net", Checksum)],
        "C08" => vec![("events", Cache), ("events", Cache), ("events", All)],
        "C09" => vec![("file", All)],
        "C10" => vec![("net", Cache)],
        "C11" => vec![("events", Simple)],
        "C12" => vec![("events", Gtid)],
        "C13" => vec![("gtid_ops", All), ("gtid_ops", All), ("gtid_parse", All)],
        "C14" => vec![("gtid_parse", All)],
        "C15" => vec![("list", All)],
        "C16" => vec![("command", Gtid), ("command", Gtid), ("command", Gtid), ("net", Gtid)],
        "C17" | "C18" => vec![("commit", All), ("commit", All), ("commit", All), ("history", Rows)],
        "C19" => vec![("net", Rows), ("net", Rows), ("history", Rows)],
        "C20" => vec![("command", All), ("command", All), ("net", Simple)],
        "C21" => vec![("packet", All), ("packet", All), ("net", Rows)],
        "C22" => vec![("net", Simple), ("net", Simple), ("net", Simple), ("command", Text)],
        "C23" => vec![("net", TableMap)],
        "C24" => vec![("response", All), ("response", All), ("response", All), ("net", Simple)],
        "C25" => vec![("events", All), ("events", All), ("events", All), ("events", Decimal), ("events", Metadata), ("events", Text), ("gtid_parse", All), ("list", All), ("gtid_ops", All), ("response", All), ("file", All)],
        _ => panic!("unknown property {}", p),
    }
}
fn generate(suite: &str, f: Focus, r: &mut Rng) -> Case {
    match suite {
        "events" => suites::gen_events(r, f),
        "file" => suites::gen_file(r),
        "gtid_parse" => suites::gen_gtid_parse(r),
        "gtid_ops" => suites::gen_gtid_ops(r),
        "list" => suites::gen_list(r),
        "commit" => suites::gen_commit(r),
        "net" => net::gen_net(r, f),
        "history" => net::gen_history(r, f),
        "packet" => net::gen_packet(r),
        "command" => net::gen_command(r, f),
        "response" => net::gen_response(r),
        _ => panic!(),
    }
}
fn execute(suite: &str, c: &Case, scratch: &str) -> Res {
    let size: usize = c.iter().map(|b| b.len()).sum();
    let limited = matches!(suite, "events" | "gtid_parse" | "gtid_ops" | "list" | "response");
    LARGEST.store(0, SeqCst);
    LIMIT.store(if limited { (4 << 20) + 1024 * size } else { usize::MAX }, SeqCst);
    let res = std::panic::catch_unwind(|| match suite {
        "events" => suites::run_events(c),
        "file" => suites::run_file(c, scratch),
        "gtid_parse" => suites::run_gtid_parse(c),
        "gtid_ops" => suites::run_gtid_ops(c),
        "list" => suites::run_list(c),
        "commit" => suites::run_commit(c),
        "net" => net::run_net(c),
        "history" => net::run_history(c),
        "packet" => net::run_packet(c),
        "command" => net::run_command(c),
        "response" => net::run_response(c),
        _ => panic!("unknown suite"),
    });
    LIMIT.store(usize::MAX, SeqCst);
    match res {
        Err(_) => {
            let p = PANIC.lock().unwrap().clone();
            if p.contains("harness:") { eprintln!("{}", p); std::process::exit(3); }
            Err(format!("panics: {}", p))
        }
        Ok(Err(e)) => Err(e),
        Ok(Ok(())) => { let n = LARGEST.load(SeqCst); if n > 0 { Err(format!("allocates {} bytes for {} bytes of input", n, size)) } else { Ok(()) } }
    }
}
pub static PANIC: Mutex<String> = Mutex::new(String::new());

/// smaller variants of a failing case, as long as it keeps failing
fn shrink(suite: &str, case: Case, scratch: &str, until: u64) -> Case {
    let mut best = case;
    let mut again = true;
    while again && now() < until {
        again = false;
        let mut tries: Vec<Case> = vec![];
        let step = if suite == "events" || suite == "commit" { 2 } else { 1 };
        let first = match suite { "commit" => 5, "events" => 0, "gtid_ops" | "list" => 1, "history" => 9, _ => best.len() };
        let mut i = first;
        while i + step <= best.len() { let mut c = best.clone(); c.drain(i..i + step); tries.push(c); i += step; }
        if matches!(suite, "gtid_parse" | "list" | "gtid_ops") { for k in 0..best[0].len() { let mut c = best.clone(); c[0].remove(k); tries.push(c); } }
        for c in tries {
            if now() > until { break; }
            *CURRENT.lock().unwrap() = Some((suite.to_string(), c.clone()));
            if suite == "gtid_ops" && suites::given(&String::from_utf8_lossy(&c[0])).0.is_none() { continue; }
            if execute(suite, &c, scratch).is_err() { best = c; again = true; break; }
        }
    }
    best
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let scratch = format!("{}/search.{}", std::env::temp_dir().display(), std::process::id());
    std::fs::create_dir_all(&scratch).unwrap();
    let code = std::panic::catch_unwind(|| real_main(&a, &scratch)).unwrap_or_else(|_| { eprintln!("the search itself panics: {}", PANIC.lock().unwrap()); 3 });
    let _ = std::fs::remove_file(format!("{}/binlog", scratch));
    let _ = std::fs::remove_dir(&scratch);
    std::process::exit(code);
}
fn real_main(a: &[String], scratch: &str) -> i32 {
    std::panic::set_hook(Box::new(|i| { *PANIC.lock().unwrap() = i.to_string(); }));
    if a.len() > 2 && a[1] == "replay" {
        let s = std::fs::read_to_string(&a[2]).unwrap();
        let suite = s.split("\"suite\": \"").nth(1).unwrap().split('"').next().unwrap().to_string();
        let list = s.split("\"input\": [").nth(1).unwrap().split(']').next().unwrap();
        let case: Case = list.split('"').skip(1).step_by(2).map(oracle::unhex).collect();
        return match execute(&suite, &case, scratch) { Ok(()) => { println!("held"); 0 } Err(e) => { println!("FAILS: {}", e); 1 } };
    }
    let (prop, seed, secs, out) = (a[2].clone(), a[3].parse::<u64>().unwrap(), a[4].parse::<f64>().unwrap(), a[5].clone());
    *OUT.lock().unwrap() = (prop.clone(), out);
    let mut r = Rng::new(seed);
    if a.len() > 6 {
        for l in std::fs::read_to_string(&a[6]).unwrap().lines() {
            match l.split_once(' ') {
                Some(("int", x)) => if let Ok(v) = x.parse() { r.ints.push(v) },
                Some(("hot", x)) => if let Ok(v) = x.parse() { r.hot.push(v) },
                Some(("text", x)) => r.texts.push(String::from_utf8_lossy(&oracle::unhex(x)).to_string()),
                _ => {}
            }
        }
    }
    STARTED.store(now(), SeqCst);
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        if now() > STARTED.load(SeqCst) + 15_000 { report("does not end within 15 s"); std::process::exit(1); }
    });
    let mut plan = plan(&prop);
    // private parts out of reach: whole sessions instead
    if !cfg!(feature = "private") { for x in plan.iter_mut() { if x.0 == "command" { x.0 = "net"; } if x.0 == "response" { *x = ("net", Focus::Simple); } } }
    let end = now() + (secs * 1000.0) as u64;
    let mut counts = std::collections::BTreeMap::new();
    let mut seen = std::collections::HashSet::new();
    let mut samples = vec![];
    while now() < end {
        let (suite, f) = *r.pick(&plan);
        let case = generate(suite, f, &mut r);
        *CURRENT.lock().unwrap() = Some((suite.to_string(), case.clone()));
        STARTED.store(now(), SeqCst);
        let res = execute(suite, &case, scratch);
        COUNT.fetch_add(1, SeqCst);
        *counts.entry(suite).or_insert(0u64) += 1;
        if case.iter().map(|b| b.len()).sum::<usize>() > 4 && seen.len() < 3_000_000 {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            case.hash(&mut h);
            seen.insert(h.finish());
        }
        if samples.len() < 2 { samples.push(format!("{{\"suite\": {}, \"input\": [{}]}}", json(suite), suites::show(&case).iter().map(|x| json(&x[..x.len().min(200)])).collect::<Vec<_>>().join(", "))); }
        if let Err(e) = res {
            // the same case again: a failure has to be reproducible
            if matches!(suite, "net" | "history" | "packet") && (0..4).filter(|_| execute(suite, &case, scratch).is_err()).count() < 2 { eprintln!("not reproducible: {} {}", suite, e); continue; }
            if let Ok(()) = execute(suite, &case, scratch) { if execute(suite, &case, scratch).is_ok() { eprintln!("not reproducible: {} {}", suite, e); continue; } }
            let case = if suite == "net" || suite == "packet" { case } else { shrink(suite, case, scratch, now() + 5000) };
            *CURRENT.lock().unwrap() = Some((suite.to_string(), case.clone()));
            let e = execute(suite, &case, scratch).err().unwrap_or(e);
            report(&e);
            println!("FAILED {}", e);
            return 1;
        }
    }
    let c: Vec<String> = counts.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect();
    println!("{{\"evaluations\": {}, \"distinct\": {}, \"suites\": {{{}}}, \"samples\": [{}]}}", COUNT.load(SeqCst), seen.len(), c.join(", "), samples.join(", "));
    std::io::stdout().flush().unwrap();
    0
}

//! Suites of the client protocol, against a server on the loopback network that plays a script.
use crate::gen::{le, lenenc, lenenc_any, Focus, Stream};
use crate::oracle::{self, hex, Rd, State};
use crate::real;
use crate::rng::Rng;
use crate::suites::{self, Case, Pos, Res, Sets};
use mysql_cdc::binlog_client::BinlogClient;
#[cfg(feature = "private")]
use mysql_cdc::commands::auth_plugin_switch_command::AuthPluginSwitchCommand;
#[cfg(feature = "private")]
use mysql_cdc::commands::authenticate_command::AuthenticateCommand;
#[cfg(feature = "private")]
use mysql_cdc::commands::dump_binlog_command::DumpBinlogCommand;
#[cfg(feature = "private")]
use mysql_cdc::commands::dump_binlog_gtid_command::DumpBinlogGtidCommand;
#[cfg(feature = "private")]
use mysql_cdc::commands::query_command::QueryCommand;
#[cfg(feature = "private")]
use mysql_cdc::commands::register_slave_command::RegisterSlaveCommand;
#[cfg(feature = "private")]
use mysql_cdc::commands::ssl_request_command::SslRequestCommand;
#[cfg(feature = "private")]
use mysql_cdc::constants::auth_plugin_names::AuthPlugin;
#[cfg(feature = "private")]
use mysql_cdc::extensions::check_error_packet;
use mysql_cdc::providers::mysql::gtid::gtid_set::GtidSet;
use mysql_cdc::events::binlog_event::BinlogEvent;
use mysql_cdc::events::event_header::EventHeader;
use mysql_cdc::events::event_parser::EventParser;
use mysql_cdc::replica_options::ReplicaOptions;
#[cfg(feature = "private")]
use mysql_cdc::responses::auth_switch_packet::AuthPluginSwitchPacket;
#[cfg(feature = "private")]
use mysql_cdc::responses::end_of_file_packet::EndOfFilePacket;
#[cfg(feature = "private")]
use mysql_cdc::responses::error_packet::ErrorPacket;
#[cfg(feature = "private")]
use mysql_cdc::responses::handshake_packet::HandshakePacket;
#[cfg(feature = "private")]
use mysql_cdc::responses::result_set_row_packet::ResultSetRowPacket;
use mysql_cdc::ssl_mode::SslMode;
use openssl::hash::{hash, MessageDigest};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::time::Duration;

const PUB: &str = include_str!("key.pub");
const PRIV: &str = include_str!("key.priv");
const NATIVE: &str = "mysql_native_password";
const SHA2: &str = "caching_sha2_password";

fn sha1(b: &[u8]) -> Vec<u8> { hash(MessageDigest::sha1(), b).unwrap().to_vec() }
fn sha256(b: &[u8]) -> Vec<u8> { hash(MessageDigest::sha256(), b).unwrap().to_vec() }
fn xor(a: &[u8], b: &[u8]) -> Vec<u8> { a.iter().enumerate().map(|(i, x)| x ^ b[i % b.len()]).collect() }
/// the response the server verifies
fn scrambled(password: &str, scramble: &str, plugin: &str) -> Vec<u8> {
    if password.is_empty() { return vec![]; }
    let p = password.as_bytes();
    if plugin == NATIVE { xor(&sha1(p), &sha1(&[scramble.as_bytes(), &sha1(&sha1(p))].concat())) }
    else { xor(&sha256(p), &sha256(&[&sha256(&sha256(p))[..], scramble.as_bytes()].concat())) }
}
pub fn frame(body: &[u8], seq: u8) -> Vec<u8> { let mut v = le(body.len() as u64, 3); v.push(seq); v.extend(body); v }
fn zstr(s: &str) -> Vec<u8> { let mut v = s.as_bytes().to_vec(); v.push(0); v }
fn query(s: &str) -> Vec<u8> { [&[3u8][..], s.as_bytes()].concat() }

// ---------------------------------------------------------------- oracle of the answers
pub struct Hs { pub protocol: u8, pub version: String, pub id: u32, pub scramble: String, pub caps: u64, pub collation: u8, pub status: u16, pub filler: String, pub auth_len: u8, pub plugin: String }
impl Hs { fn text(&self) -> String { format!("{} {:?} {} {:?} {:x} {} {} {:?} {} {:?}", self.protocol, self.version, self.id, self.scramble, self.caps, self.collation, self.status, self.filler, self.auth_len, self.plugin) } }
pub fn handshake(d: &[u8]) -> Option<Hs> {
    let mut r = Rd::new(d);
    let protocol = r.u8()?;
    let version = r.zstr()?;
    let id = r.le(4)? as u32;
    let mut scramble = r.zstr()?;
    let a = r.le(2)?;
    let collation = r.u8()?;
    let status = r.le(2)? as u16;
    let b = r.le(2)?;
    let auth_len = r.u8()?;
    let filler = r.text(6)?;
    let c = r.le(4)?;
    let caps = a | b << 16 | c << 32;
    if caps & 0x8000 != 0 { scramble.push_str(&r.zstr()?); }
    let plugin = if caps & 0x80000 != 0 { r.zstr()? } else { String::new() };
    Some(Hs { protocol, version, id, scramble, caps, collation, status, filler, auth_len, plugin })
}
pub fn error_packet(d: &[u8]) -> Option<(u16, String, Option<String>)> {
    let mut r = Rd::new(d);
    let code = r.le(2)? as u16;
    let msg = r.rest()?;
    Some(if msg.starts_with('#') {
        let c: Vec<char> = msg.chars().collect();
        (code, c.iter().skip(6).collect(), Some(c.iter().skip(1).take(5).collect()))
    } else { (code, msg, None) })
}
fn row(d: &[u8]) -> Option<Vec<String>> { let mut r = Rd::new(d); let mut v = vec![]; while r.left() > 0 { v.push(r.lenstr()?); } Some(v) }

// ---------------------------------------------------------------- model of the client
#[derive(Clone, Debug, PartialEq)]
enum Sent { Exact(Vec<u8>), Rsa(u8, Vec<u8>), Gtid(u32, String, u32, Sets) }
struct Opts { user: String, password: String, database: Option<String>, server_id: u32, blocking: bool, ssl: u8, heartbeat: u64, pos: Pos }
struct Model<'a> { groups: &'a [Vec<u8>], at: usize, sent: Vec<Sent>, o: Opts }
enum Stop { Error, Panic }
type M<T> = Result<T, Stop>;
fn ok<T>(x: Option<T>) -> M<T> { x.ok_or(Stop::Error) }

impl<'a> Model<'a> {
    fn rx(&self) -> Vec<u8> { self.groups[..(self.sent.len() + 1).min(self.groups.len())].concat() }
    fn read(&mut self) -> M<(Vec<u8>, u8)> {
        let rx = self.rx();
        let d = &rx[self.at..];
        if d.len() < 4 { return Err(Stop::Error); }
        let n = d[0] as usize | (d[1] as usize) << 8 | (d[2] as usize) << 16;
        if n == 0 { self.at += 4; return Err(Stop::Error); }
        if d.len() < 4 + n { self.at = rx.len(); return Err(Stop::Error); }
        self.at += 4 + n;
        Ok((d[4..4 + n].to_vec(), d[3]))
    }
    fn read_ok(&mut self) -> M<(Vec<u8>, u8)> { let (p, s) = self.read()?; if p[0] == 0xFF { Err(Stop::Error) } else { Ok((p, s)) } }
    fn send(&mut self, body: &[u8], seq: u8) { self.sent.push(Sent::Exact(frame(body, seq))); }
    fn ask(&mut self, body: &[u8]) -> M<()> { self.send(body, 0); self.read_ok()?; Ok(()) }
    fn result_set(&mut self) -> M<Vec<Vec<String>>> {
        self.read_ok()?;
        while self.read_ok()?.0[0] != 0xFE {}
        let mut rows = vec![];
        loop {
            let (p, _) = self.read_ok()?;
            if p[0] == 0xFE { return Ok(rows); }
            rows.push(ok(row(&p))?);
        }
    }
    fn plugin(&self, name: &str) -> M<()> { if name == NATIVE || name == SHA2 { Ok(()) } else { Err(Stop::Error) } }
    fn connect(&mut self) -> M<bool> {
        let (p, seq) = self.read_ok()?;
        let h = ok(handshake(&p))?;
        self.plugin(&h.plugin)?;
        let seq = seq.wrapping_add(1);
        if self.o.ssl != 0 {
            let available = h.caps & 0x800 != 0;
            if !available && self.o.ssl >= 2 { return Err(Stop::Error); }
            if available { let b = ssl_request(); self.send(&b, seq); return Err(Stop::Panic); }
        }
        let b = auth_request(&self.o.user, &self.o.password, self.o.database.as_deref(), &h.scramble, &h.plugin);
        self.send(&b, seq);
        let (p, seq) = self.read_ok()?;
        match p[0] {
            0 => {}
            0xFE => {
                let mut r = Rd::new(&p[1..]);
                let (name, data) = (ok(r.zstr())?, ok(r.zstr())?);
                self.plugin(&name)?;
                let b = scrambled(&self.o.password, &data, &name);
                self.send(&b, seq.wrapping_add(1));
                let (p, seq) = self.read_ok()?;
                if name == SHA2 { self.sha2(&p, &data, seq.wrapping_add(1))?; }
            }
            _ => self.sha2(&p, &h.scramble, seq.wrapping_add(1))?,
        }
        Ok(h.version.contains("MariaDB"))
    }
    fn sha2(&mut self, p: &[u8], scramble: &str, seq: u8) -> M<()> {
        if p[0] == 0 { return Ok(()); }
        if p.len() > 1 && p[0] == 1 && p[1] == 3 { self.read_ok()?; return Ok(()); }
        if scramble.is_empty() { return Err(Stop::Error); }
        self.send(&[2], seq);
        let (p, seq) = self.read_ok()?;
        if p[1..] != *PUB.as_bytes() { return Err(Stop::Error); }
        let plain = xor(&zstr(&self.o.password), scramble.as_bytes());
        if plain.len() > 256 - 42 { return Err(Stop::Error); }   // too long for the key
        self.sent.push(Sent::Rsa(seq.wrapping_add(1), plain));
        self.read_ok()?;
        Ok(())
    }
    fn replicate(&mut self) -> M<bool> {
        let maria = self.connect()?;
        if self.o.pos.strategy == 1 && self.o.pos.file.is_empty() {
            self.send(&query("show master status"), 0);
            let rows = self.result_set()?;
            if rows.len() != 1 || rows[0].len() < 2 { return Err(Stop::Error); }
            self.o.pos.file = rows[0][0].clone();
            self.o.pos.position = rows[0][1].parse().map_err(|_| Stop::Error)?;
        }
        self.ask(&query(&format!("set @master_heartbeat_period={}", self.o.heartbeat as u128 * 1_000_000)))?;
        self.ask(&query("SET @master_binlog_checksum= @@global.binlog_checksum"))?;
        self.send(&query("SELECT @master_binlog_checksum"), 0);
        let rows = self.result_set()?;
        let crc = match rows.first().and_then(|r| r.first()).map(|s| s.as_str()) { Some("NONE") => false, Some("CRC32") => true, _ => return Err(Stop::Error) };
        let id = if self.o.blocking { self.o.server_id } else { 0 };
        let (file, position) = (self.o.pos.file.clone(), self.o.pos.position);
        if maria {
            self.ask(&query("SET @mariadb_slave_capability=4"))?;
            if self.o.pos.strategy == 3 {
                let l = match &self.o.pos.list { None => return Err(Stop::Error), Some(l) => suites::print_list(l) };
                self.ask(&query(&format!("SET @slave_connect_state='{}'", l)))?;
                self.ask(&query("SET @slave_gtid_strict_mode=0"))?;
                self.ask(&query("SET @slave_gtid_ignore_duplicates=0"))?;
                let b = register(self.o.server_id);
                self.ask(&b)?;
            }
        } else if self.o.pos.strategy == 3 {
            let s = match &self.o.pos.set { None => return Err(Stop::Error), Some(s) => s.clone() };
            self.sent.push(Sent::Gtid(id, file, position, s));
            return Ok(crc);
        }
        self.send(&dump(id, &file, position), 0);
        Ok(crc)
    }
}
fn auth_request(user: &str, password: &str, database: Option<&str>, scramble: &str, plugin: &str) -> Vec<u8> {
    let caps = 4 | 0x200 | 0x8000 | 0x80000 | if database.is_some() { 8 } else { 0 };
    let mut b = le(caps, 4);
    b.extend([0; 4]);
    b.push(45);
    b.extend([0; 23]);
    b.extend(zstr(user));
    let x = scrambled(password, scramble, plugin);
    b.push(x.len() as u8);
    b.extend(x);
    if let Some(d) = database { b.extend(zstr(d)); }
    b.extend(zstr(plugin));
    b
}
fn ssl_request() -> Vec<u8> { let mut b = le(4 | 0x200 | 0x8000 | 0x800 | 0x80000, 4); b.extend([0; 4]); b.push(45); b.extend([0; 23]); b }
fn register(id: u32) -> Vec<u8> { let mut b = vec![21]; b.extend(le(id as u64, 4)); b.extend([0; 13]); b }
fn dump(id: u32, file: &str, position: u32) -> Vec<u8> { let mut b = vec![18]; b.extend(le(position as u64, 4)); b.extend([0; 2]); b.extend(le(id as u64, 4)); b.extend(file.as_bytes()); b }
/// whether a request is exactly the GTID dump of this set
fn check_gtid_dump(b: &[u8], id: u32, file: &str, position: u32, set: &Sets) -> Res {
    let mut want = vec![30];
    want.extend(le(0, 2));
    want.extend(le(id as u64, 4));
    want.extend(le(file.len() as u64, 4));
    want.extend(file.as_bytes());
    want.extend(le(position as u64, 8));
    if !b.starts_with(&want) { return Err(format!("GTID dump request: expected to start with {}\n  got: {}", hex(&want), hex(b))); }
    let mut r = Rd::new(&b[want.len()..]);
    let go = |r: &mut Rd| -> Option<(u64, usize, Vec<(String, Vec<(u64, u64)>)>)> {
        let n = r.le(4)?;
        let left = r.left();
        let mut v = vec![];
        for _ in 0..r.le(8)? {
            let id = oracle::uuid(r.bytes(16)?);
            let mut w = vec![];
            for _ in 0..r.le(8)? { w.push((r.le(8)?, r.le(8)?)); }
            v.push((id, w));
        }
        Some((n, left, v))
    };
    let want: Vec<(String, Vec<(u64, u64)>)> = set.iter().map(|(k, v)| (k.clone(), v.iter().map(|(a, b)| (*a, b + 1)).collect())).collect();
    match go(&mut r) {
        None => Err(format!("GTID dump request is cut off: {}", hex(b))),
        Some((n, left, mut v)) => {
            v.sort();
            if n as usize != left || r.left() > 0 { return Err(format!("GTID dump request announces {} bytes, has {}, {} too many", n, left, r.left())); }
            if v != want { return Err(format!("GTID dump request\n  expected: {:?}\n  got:      {:?}", want, v)); }
            Ok(())
        }
    }
}
/// cut: the end of what was sent may be missing
fn check_sent(want: &[Sent], rx: &[u8], cut: bool) -> Res {
    let mut r = Rd::new(rx);
    let mut got = vec![];
    while r.left() >= 4 {
        let n = r.le(3).unwrap() as usize;
        let seq = r.u8().unwrap();
        match r.bytes(n) { None if cut => break, None => return Err(format!("the client sent an incomplete packet: {} after {} packets", hex(&rx[r.p - 4..]), got.len())), Some(b) => got.push((seq, b.to_vec())) }
    }
    if r.left() > 0 && !cut { return Err(format!("the client sent an incomplete header after {} packets", got.len())); }
    for i in 0..want.len().max(got.len()) {
        match (want.get(i), got.get(i)) {
            (Some(Sent::Exact(w)), Some((s, b))) => if *w != frame(b, *s) { return Err(format!("request {}\n  expected: {} {:?}\n  got:      {} {:?}", i, hex(w), String::from_utf8_lossy(w), hex(&frame(b, *s)), String::from_utf8_lossy(b))); },
            (Some(Sent::Rsa(seq, plain)), Some((s, b))) => {
                if s != seq { return Err(format!("request {}: expected sequence number {}, got {}", i, seq, s)); }
                let key = openssl::rsa::Rsa::private_key_from_pem(PRIV.as_bytes()).unwrap();
                let mut out = vec![0; key.size() as usize];
                match key.private_decrypt(b, &mut out, openssl::rsa::Padding::PKCS1_OAEP) {
                    Ok(n) if out[..n] == plain[..] => {}
                    Ok(n) => return Err(format!("request {}: expected encrypted {}, got {}", i, hex(plain), hex(&out[..n]))),
                    Err(_) => return Err(format!("request {} is not encrypted for the server: {}", i, hex(b))),
                }
            }
            (Some(Sent::Gtid(id, f, p, set)), Some((s, b))) => {
                if *s != 0 { return Err(format!("request {}: sequence number {}", i, s)); }
                check_gtid_dump(b, *id, f, *p, set)?;
            }
            (Some(_), None) if cut => break,
            (Some(w), None) => return Err(format!("request {} was not sent, expected {:?}", i, w)),
            (None, Some((s, b))) => return Err(format!("the client sent a request too many: {} {} {:?}", s, hex(b), String::from_utf8_lossy(b))),
            (None, None) => {}
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- the server
/// one listener per process, reached by a new loopback address each time: no port is used up
pub static LISTENER: std::sync::OnceLock<TcpListener> = std::sync::OnceLock::new();
fn listen() -> (&'static TcpListener, u16, String) {
    static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    let l = LISTENER.get_or_init(|| TcpListener::bind("0.0.0.0:0").expect("harness: no listener"));
    let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    (l, l.local_addr().unwrap().port(), format!("127.{}.{}.{}", n / 62500 % 250 + 1, n / 250 % 250 + 1, n % 250 + 1))
}
/// sends a group of packets, in pieces if asked to: what the client reads at once is not what was sent at once
fn deliver(s: &mut TcpStream, g: &[u8], pieces: u8) {
    if pieces == 0 || g.is_empty() { let _ = s.write_all(g); return; }
    let mut r = Rng::new(pieces as u64);
    let mut cuts: Vec<usize> = (0..3).map(|_| if r.chance(1, 2) { r.below(12) as usize } else { r.below(g.len() as u64) as usize }.min(g.len())).collect();
    cuts.push(g.len());
    cuts.sort();
    let mut at = 0;
    for c in cuts {
        if c == at { continue; }
        let _ = s.write_all(&g[at..c]);
        at = c;
        if c < g.len() { std::thread::sleep(Duration::from_millis(2)); }
    }
}
/// what arrived, and whether the connection was reset: a client that closes it before it has read everything takes back what it has not got out yet
fn serve(listener: &TcpListener, groups: Vec<Vec<u8>>, frames: usize, pieces: u8) -> (Vec<u8>, bool) {
    let (mut s, _) = match listener.accept() { Ok(x) => x, Err(_) => return (vec![], false) };
    let _ = s.set_nodelay(true);
    let _ = s.set_read_timeout(Some(Duration::from_secs(5)));
    let mut rx = vec![];
    let mut reset = false;
    deliver(&mut s, groups.first().map_or(&[][..], |g| &g[..]), pieces);
    for i in 0..frames {
        let mut h = [0u8; 4];
        if !read_full(&mut s, &mut h, &mut rx, &mut reset) { break; }
        let n = h[0] as usize | (h[1] as usize) << 8 | (h[2] as usize) << 16;
        let mut b = vec![0; n];
        if !read_full(&mut s, &mut b, &mut rx, &mut reset) { break; }
        if let Some(g) = groups.get(i + 1) { deliver(&mut s, g, pieces); }
    }
    let _ = s.shutdown(Shutdown::Write);
    let mut b = [0u8; 4096];
    loop { quick(&s); match s.read(&mut b) { Ok(n) if n > 0 => rx.extend(&b[..n]), Ok(_) => break, Err(e) => { reset |= lost(&e); break } } }
    (rx, reset)
}
fn lost(e: &std::io::Error) -> bool { matches!(e.kind(), std::io::ErrorKind::ConnectionReset | std::io::ErrorKind::ConnectionAborted | std::io::ErrorKind::BrokenPipe) }
extern "C" { fn setsockopt(fd: i32, level: i32, name: i32, value: *const i32, len: u32) -> i32; }
/// the client writes a packet in two parts: without immediate acknowledgements each costs 40 ms
fn quick(s: &TcpStream) { use std::os::fd::AsRawFd; let one = 1i32; unsafe { setsockopt(s.as_raw_fd(), 6, 12, &one, 4); } }
fn read_full(s: &mut TcpStream, b: &mut [u8], rx: &mut Vec<u8>, reset: &mut bool) -> bool {
    let mut n = 0;
    while n < b.len() { quick(s); match s.read(&mut b[n..]) { Ok(k) if k > 0 => n += k, Ok(_) => break, Err(e) => { *reset |= lost(&e); break } } }
    rx.extend(&b[..n]);
    n == b.len()
}

// ---------------------------------------------------------------- whole sessions
/// options: 0 flags, 1 user, 2 password, 3 database; 4.. strategy, set, list, file, position (as for commits); then the groups of the server
const GROUPS: usize = 9;
fn opts(c: &Case) -> (ReplicaOptions, Opts) {
    let text = |i: usize| String::from_utf8_lossy(&c[i]).to_string();
    let f = &c[0];
    let (binlog, pos) = suites::options(&c[4..GROUPS].to_vec());
    let database = if f[1] != 0 { Some(text(3)) } else { None };
    let server_id = u32::from_le_bytes(f[3..7].try_into().unwrap());
    let heartbeat = u64::from_le_bytes(f[7..15].try_into().unwrap());
    let o = Opts { user: text(1), password: text(2), database: database.clone(), server_id, blocking: f[0] != 0, ssl: f[2], heartbeat, pos };
    let r = ReplicaOptions { port: 0, hostname: "127.0.0.1".to_string(), ssl_mode: SslMode::Disabled, username: text(1), password: text(2), database, server_id,
        blocking: f[0] != 0, heartbeat_interval: Duration::from_millis(heartbeat), binlog };
    (r, o)
}
fn mode(ssl: u8) -> SslMode { match ssl { 0 => SslMode::Disabled, 1 => SslMode::IfAvailable, 2 => SslMode::Require, 3 => SslMode::RequireVerifyCa, _ => SslMode::RequireVerifyFull } }
pub fn run_net(c: &Case) -> Res {
    let (r, o) = opts(c);
    let ssl = o.ssl;
    let mut m = Model { groups: &c[GROUPS..], at: 0, sent: vec![], o };
    let mut client = BinlogClient::new(r);
    client.options.ssl_mode = mode(ssl);
    session(client, &mut m, c[0].get(15).copied().unwrap_or(0), &mut |_, _, _, _| Ok(())).map(|_| ())
}
type Each<'a> = &'a mut dyn FnMut(&mut BinlogClient, &mut Pos, &EventHeader, &BinlogEvent) -> Res;
/// replicate() against the groups of the model, then the whole stream; the client again if both went on to the stream
fn session(mut client: BinlogClient, m: &mut Model, pieces: u8, each: Each) -> Result<Option<BinlogClient>, String> {
    let outcome = m.replicate();
    let (listener, port, host) = listen();
    client.options.port = port;
    client.options.hostname = host;
    let (g, n) = (m.groups.to_vec(), m.sent.len());
    let server = std::thread::spawn(move || serve(listener, g, n, pieces));
    let mut res = Ok(());
    let mut back = None;
    let call = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match client.replicate() {
        Ok(ev) => (Ok(ev), client),
        Err(e) => (Err(format!("{:?}", e)), client),
    }));
    match (call, &outcome) {
        (Err(_), Err(Stop::Panic)) => {}
        (Err(_), _) => res = Err(format!("replicate() panics: {}", crate::PANIC.lock().unwrap())),
        (Ok((Err(_), _)), Err(Stop::Error)) => {}
        (Ok((Ok(_), _)), Err(_)) => res = Err(format!("replicate() must be an error after {} requests, but it returns an event stream", m.sent.len())),
        (Ok((Err(e), _)), _) => res = Err(format!("replicate() must succeed, got {}", e)),
        (Ok((Ok(mut ev), mut client)), Ok(crc)) => {
            match suites::pos_of(&client.options.binlog) {
                Err(e) => res = Err(e),
                Ok(p) => if suites::pos_text(&p) != suites::pos_text(&m.o.pos) { res = Err(format!("options after replicate()\n  expected: {}\n  got:      {}", suites::pos_text(&m.o.pos), suites::pos_text(&p))); },
            }
            if res.is_ok() { res = check_stream(&mut ev, m, *crc, &mut client, each); }
            drop(ev);
            back = Some(client);
        }
    }
    let (rx, reset) = server.join().unwrap_or_default();
    if let Err(e) = check_sent(&m.sent, &rx, reset) { res = match res { Ok(()) => Err(e), Err(x) => Err(format!("{}\n{}", x, e)) }; }
    res.map(|_| back)
}
fn check_stream(ev: &mut mysql_cdc::binlog_events::BinlogEvents, m: &mut Model, crc: bool, client: &mut BinlogClient, each: Each) -> Res {
    let mut st = State { crc, ..Default::default() };
    for i in 0.. {
        let want: Option<Option<String>> = match m.read() {
            Err(_) => Some(None),
            Ok((p, _)) => match p[0] {
                0 => Some(if p.len() < 20 { None } else { match oracle::header(&p[1..20]) { None => None, Some(h) => oracle::event(&mut st, &h, &p[20..]).map(|e| format!("{} {}", h.text(), e)) } }),
                0xFE => None,
                _ => Some(None),
            },
        };
        let end = want.is_none() || m.rx().len() - m.at < 4;
        let item = ev.next();
        let got = item.as_ref().map(|x| match x { Ok((h, e)) => Ok(format!("{} {}", real::header(h), real::event(e))), Err(e) => Err(format!("{:?}", e)) });
        match (want, got) {
            (None, None) | (Some(None), Some(Err(_))) => {}
            (Some(Some(a)), Some(Ok(b))) => if a != b { return Err(format!("stream item {}\n  expected: {}\n  got:      {}", i, a, b)); },
            (a, b) => return Err(format!("stream item {}\n  expected: {:?}\n  got:      {:?}", i, a, b)),
        }
        if let Some(Ok((h, e))) = &item { each(client, &mut m.o.pos, h, e)?; }
        if end { break; }
    }
    Ok(())
}

// ---------------------------------------------------------------- histories: one client, commits and sessions
/// options as for sessions; then one step per item: 0 commit (header, body), 1 session whose events are committed, 2 session whose events are not, each with its groups
pub fn gen_history(r: &mut Rng, f: Focus) -> Case {
    let mut c = gen_options(r, f);
    c[4][0] = r.below(7) as u8 | c[4][0] & 8;
    let maria = r.chance(1, 2);
    let mut fresh = c[4][0] & 8 == 0 || c[7].is_empty();
    for _ in 0..r.range(2, 6) {
        let broken = r.chance(1, 10);
        if r.chance(1, 2) {
            let groups = if broken { vec![vec![]] } else { gen_session(r, Focus::Rows, c[4][0] & 7, fresh, Some(maria), false) };
            let mut x = vec![if r.chance(1, 2) { 1 } else { 2 }];
            for g in groups { x.extend(le(g.len() as u64, 4)); x.extend(g); }
            c.push(x);
            if !broken { fresh = false; }
        }
        let n = r.many(0, 4, 60);
        for (h, b) in suites::gen_commits(r, n) { let mut x = vec![0]; x.extend(h); x.extend(b); c.push(x); }
    }
    c
}
pub fn run_history(c: &Case) -> Res {
    let (r, o) = opts(c);
    let mut m = Model { groups: &[], at: 0, sent: vec![], o };
    let mut client = BinlogClient::new(r);
    let mut t = suites::Tracker::default();
    let mut parser = EventParser::new();
    // after a session that fails nothing is known about the transaction that was open
    let mut known = true;
    for (i, x) in c[GROUPS..].iter().enumerate() {
        if x.is_empty() { continue; }
        if x[0] == 0 {
            if !known || x.len() < 20 { continue; }
            let h = match EventHeader::parse(&x[1..20]) { Ok(h) => h, Err(_) => continue };
            let ev = match parser.parse_event(&h, &x[20..]) { Ok(x) => x, Err(_) => continue };
            t.commit(&mut client, &mut m.o.pos, i, &h, &ev)?;
        } else {
            let mut groups = vec![];
            let mut d = Rd::new(&x[1..]);
            while let Some(n) = d.le(4) { match d.bytes(n as usize) { Some(b) => groups.push(b.to_vec()), None => break } }
            let own = std::mem::replace(&mut client, BinlogClient::new(ReplicaOptions::default()));
            let mut s = Model { groups: &groups, at: 0, sent: vec![], o: m.o };
            let mut u = suites::Tracker::default();
            let commits = x[0] == 1;
            let before = suites::pos_text(&s.o.pos);
            let res = session(own, &mut s, 0, &mut |client, pos, h, e| if commits { u.commit(client, pos, i, h, e) } else { Ok(()) });
            m.o = s.o;
            match res.map_err(|e| format!("session at step {} from {}: {}", i, before, e))? { Some(b) => { client = b; t = u; known = true; } None => return Ok(()) }
        }
    }
    Ok(())
}

fn gen_handshake(r: &mut Rng, plugin: &str, version: &str) -> Vec<u8> {
    let mut b = vec![if r.chance(7, 8) { 10 } else { r.byte() }];
    b.extend(zstr(version));
    b.extend(le(r.int(4), 4));
    b.extend(zstr(&r.text(8)));
    let mut caps = r.next() & 0xFFFF_FFFF_FFFF_FFFF;
    if r.chance(9, 10) { caps |= 0x88000; }
    if r.chance(7, 8) { caps &= !0x800; }
    let c = caps.to_le_bytes();
    b.extend(&c[0..2]); b.push(r.byte()); b.extend(le(r.int(2), 2)); b.extend(&c[2..4]); b.push(r.byte());
    if r.chance(1, 20) { b.extend(r.bytes(6)) } else { let mut f = r.text(6).into_bytes(); f.resize(6, 0); b.extend(f) }
    b.extend(&c[4..8]);
    if caps & 0x8000 != 0 { b.extend(zstr(&r.text(12))); }
    if caps & 0x80000 != 0 { b.extend(zstr(plugin)); if r.chance(1, 6) { b.pop(); } }
    b
}
fn gen_error(r: &mut Rng) -> Vec<u8> { let mut b = vec![0xFF]; b.extend(le(r.int(2), 2)); let s = r.text(20); b.extend(if r.chance(2, 3) { format!("#{}{}", r.ident(5), s) } else { s }.into_bytes()); if r.chance(1, 10) { let n = r.below(4) as usize; b.truncate(n.max(1)); } b }
fn gen_ok(r: &mut Rng) -> Vec<u8> { let mut b = vec![0]; let n = r.below(8) as usize; b.extend(r.bytes(n)); b }
fn gen_result(r: &mut Rng, cells: &[String]) -> Vec<u8> {
    let mut out = vec![];
    let mut seq = r.byte();
    let mut put = |r: &mut Rng, b: &[u8]| { seq = if r.chance(1, 20) { r.byte() } else { seq.wrapping_add(1) }; out.extend(frame(b, seq)); };
    let bad = if r.chance(1, 12) { r.below(5) + 1 } else { 0 };
    let err = gen_error(r);
    put(r, if bad == 1 { &err } else { &[2] });
    for _ in 0..r.many(0, 2, 300) { let n = r.range(1, 20) as usize; let mut b = r.bytes(n); if b[0] >= 0xFB { b[0] = 3; } if bad == 2 { b = err.clone(); } put(r, &b); }
    put(r, if bad == 3 { &err } else { &[0xFE, 0, 0, 2, 0] });
    let rows = match r.below(14) { 0 => 0, 1 => 2, _ => 1 };
    for _ in 0..rows {
        let mut b = vec![];
        for c in cells { b.extend(lenenc_any(r, c.len() as u64)); b.extend(c.as_bytes()); }
        if r.chance(1, 30) { b.push(0xFB); }
        if b.is_empty() { b.push(0); }
        put(r, if bad == 4 { &err } else { &b });
    }
    put(r, if bad == 5 { &err } else { &[0xFE, 0, 0, 2, 0] });
    out
}
fn gen_options(r: &mut Rng, f: Focus) -> Case {
    // what to vary: Simple - authentication, Rows - requests of the strategies, TableMap - refusals, Cache - event stream, Checksum, Gtid
    let mut flags = vec![r.below(2) as u8, r.below(2) as u8, if f == Focus::Simple && r.chance(1, 10) { r.range(1, 4) as u8 } else { 0 }];
    flags.extend(le(r.int(4), 4));
    let hb = match r.below(6) { 0 => 0, 1 => r.below(5000), 2 => r.range(1_000, 100_000), 3 => r.range(1, 1_000_000) * 1000, _ => 30_000 };
    flags.extend(le(hb, 8));
    flags.push(if r.chance(1, 16) { r.byte() } else { 0 });
    let password = if r.chance(1, 8) { String::new() } else { let most = if r.chance(1, 10) { 300 } else { 16 }; r.text(most) };
    let mut pos = suites::gen_commit(r);
    pos.truncate(5);
    if f == Focus::Gtid { pos[0] = vec![if r.chance(5, 6) { 3 } else { 5 }]; if pos[1].is_empty() { pos = { let mut p = suites::gen_commit(r); p.truncate(5); p[0] = vec![3]; p }; } }
    else if f == Focus::Cache || f == Focus::Checksum || f == Focus::Simple { pos[0] = vec![*r.pick(&[0u8, 2])]; }
    else if pos[0][0] & 7 == 6 && r.chance(1, 2) { pos[0] = vec![1 | if r.chance(1, 2) { 8 } else { 0 }]; }
    let (u, d) = (r.many(0, 12, 400) as usize, r.many(0, 10, 400) as usize);
    let mut c: Case = vec![flags, r.text(u).into_bytes(), password.into_bytes(), r.text(d).into_bytes()];
    c.extend(pos);
    c
}
pub fn gen_net(r: &mut Rng, f: Focus) -> Case {
    let mut c = gen_options(r, f);
    let groups = gen_session(r, f, c[4][0] & 7, c[4][0] & 8 == 0 || c[7].is_empty(), None, true);
    c.extend(groups);
    c
}
/// what a server sends, one group per request
fn gen_session(r: &mut Rng, f: Focus, strategy: u8, fresh: bool, of: Option<bool>, spoil: bool) -> Vec<Vec<u8>> {
    let maria = of.unwrap_or(if f == Focus::Gtid { r.chance(1, 8) } else { r.chance(1, 2) });
    let version = match (maria, r.below(4)) { (true, 0) => "5.5.5-10.4.8-MariaDB-log".to_string(), (true, _) => format!("{}MariaDB{}", r.text(6), r.text(6)), (false, 0) => "8.0.31".to_string(), (false, 1) => "5.7-mariadb".to_string(), _ => r.text(10) };
    let auth = f == Focus::Simple;
    let plugin = if auth && r.chance(1, 16) { r.pick(&["", "sha256_password", "mysql_native_password2", "Caching_sha2_password", "mysql_clear_password"]).to_string() } else if r.chance(1, 2) { NATIVE.to_string() } else { SHA2.to_string() };
    let mut seq = if r.chance(1, 2) { 0 } else { r.byte() };
    let mut groups = vec![frame(&gen_handshake(r, &plugin, &version), seq)];
    let mut next = |r: &mut Rng| { seq = if r.chance(1, 6) { r.byte() } else { seq.wrapping_add(2) }; seq };
    // authentication
    let mut sha = plugin == SHA2;
    let mut done = false;
    if !auth && r.chance(2, 3) || r.chance(1, 4) { let s = next(r); groups.push(frame(&gen_ok(r), s)); done = true; }
    else if r.chance(1, 3) {
        let name = if auth && r.chance(1, 12) { "sha256_password".to_string() } else if r.chance(1, 2) { NATIVE.to_string() } else { SHA2.to_string() };
        let mut b = vec![0xFE];
        b.extend(zstr(&name));
        b.extend(zstr(&r.text(20)));
        if r.chance(1, 4) { b.pop(); }
        let s = next(r);
        groups.push(frame(&b, s));
        sha = name == SHA2;
        if !sha { let s = next(r); groups.push(frame(&gen_ok(r), s)); done = true; }
    }
    if !done {
        let s = next(r);
        match r.below(if sha { 6 } else { 8 }) {
            0 | 1 => { let mut g = frame(&[1, 3], s); let k = next(r); let a = if r.chance(1, 4) { gen_error(r) } else { gen_ok(r) }; g.extend(frame(&a, k)); groups.push(g); }
            2 => groups.push(frame(&gen_ok(r), s)),
            3 => { let mut b = vec![1]; let n = r.below(4) as usize; b.extend(r.bytes(n)); groups.push(frame(&b, s)); }
            _ => {
                groups.push(frame(&[1, 4], s));
                let mut b = vec![1];
                b.extend(if r.chance(1, 12) { b"no key".to_vec() } else { PUB.as_bytes().to_vec() });
                let s = next(r);
                groups.push(frame(&b, s));
                let s = next(r);
                let a = if r.chance(1, 5) { gen_error(r) } else { gen_ok(r) };
                groups.push(frame(&a, s));
            }
        }
    }
    // an answer of the authentication that is cut short, or of another kind
    if auth && groups.len() > 1 && r.chance(1, 8) {
        let k = r.range(1, groups.len() as u64 - 1) as usize;
        let n = groups[k][0] as usize | (groups[k][1] as usize) << 8;
        let mut b = groups[k][4..4 + n].to_vec();
        let (rest, seq) = (groups[k][4 + n..].to_vec(), groups[k][3]);
        if r.chance(2, 3) { let n = r.range(1, 6).min(b.len() as u64) as usize; b.truncate(n); } else { let x = r.byte(); b[0] = *r.pick(&[0, 1, 0xFE, 0xFF, x]); }
        groups[k] = frame(&b, seq);
        groups[k].extend(rest);
    }
    // setup, as many answers as the client may ask for
    if strategy == 1 && fresh { let mut v = vec![r.text(12), if r.chance(1, 8) { r.text(5) } else { r.int(4).to_string() }]; match r.below(8) { 0 => { v.pop(); } 1 => v.push(r.text(5)), _ => {} } groups.push(gen_result(r, &v)); }
    for _ in 0..2 { let s = r.byte(); groups.push(frame(&gen_ok(r), s)); }
    let name = if r.chance(1, 16) { r.pick(&["", "crc32", "CRC64", "NONE ", "none"]).to_string() } else if r.chance(1, 2) { "NONE".to_string() } else { "CRC32".to_string() };
    let mut v = vec![name.clone()];
    match r.below(10) { 0 => v.push(r.text(5)), 1 => if r.chance(1, 3) { v.clear() }, _ => {} }
    groups.push(gen_result(r, &v));
    let maria = version.contains("MariaDB");
    if maria { for _ in 0..(if strategy >= 3 && strategy <= 5 { 5 } else { 1 }) { let s = r.byte(); groups.push(frame(&gen_ok(r), s)); } }
    // the stream
    let mut s = Stream::new(if f == Focus::Checksum { Focus::Checksum } else { Focus::Cache });
    s.crc = name == "CRC32";
    s.fill(r);
    if r.chance(1, 4) { s.mutate(r); }
    let mut g = vec![];
    for (h, b) in s.events {
        let mut p = vec![0];
        p.extend(h);
        p.extend(b);
        if r.chance(1, 80) { let n = r.range(250, 70_000) as usize; let x = r.bytes(n); p.extend(x); }
        if r.chance(1, 30) { let n = r.range(1, 22) as usize; p.truncate(n); }
        if r.chance(1, 30) { p[0] = r.byte(); }
        let q = r.byte();
        g.extend(frame(&p, q));
        let q = r.byte();
        match r.below(30) { 0 => g.extend(frame(&gen_error(r), q)), 1 => g.extend(frame(&[0xFE, 0, 0, 2, 0], q)), 2 => g.extend(frame(&[0xFE], q)), 3 => g.extend(frame(&[*r.pick(&[1, 2, 0xFD, 0xFB]), 1], q)), _ => {} }
    }
    if r.chance(1, 2) { g.extend(frame(&[0xFE, 0, 0, 2, 0], 9)); }
    groups.push(g);
    if !spoil { return groups; }
    // refusals and broken connections
    let refuse = if f == Focus::TableMap { r.chance(4, 5) } else { r.chance(1, 12) };
    if refuse {
        let k = r.below(groups.len() as u64 - 1) as usize;
        let err = gen_error(r);
        match r.below(8) {
            0..=3 => groups[k] = frame(&err, 1),
            4 => { let n = r.below(groups[k].len() as u64 + 1) as usize; groups[k].truncate(n); groups.truncate(k + 1); }
            5 => { groups[k] = frame(&[], 1); }
            6 => groups.truncate(k),
            _ => { let mut v = frame(&err, 1); v.extend(&groups[k]); groups[k] = v; }
        }
    }
    if groups.len() > 1 && r.chance(1, 40) { let k = r.below(groups.len() as u64 - 1) as usize; if !groups[k].is_empty() && !groups[k].windows(6).any(|w| w == b"PUBLIC") { let j = r.below(groups[k].len() as u64) as usize; groups[k][j] = r.byte(); } }
    if r.chance(1, 10) { if let Some(g) = groups.last_mut() { let n = r.below(g.len() as u64 + 1) as usize; g.truncate(n); } }
    groups
}

// ---------------------------------------------------------------- packets
/// case: bytes the server sends after the login; then packets to write (sequence number, bytes)
pub fn gen_packet(r: &mut Rng) -> Case {
    let mut rx = vec![];
    for _ in 0..r.below(5) {
        let n = match r.below(12) { 0 => 0, 1 => r.range(250, 260), 2 => r.range(65_530, 65_545), 3 => r.range(0, 70_000), _ => r.range(1, 40) } as usize;
        let b = r.bytes(n);
        let s = r.byte();
        rx.extend(frame(&b, s));
    }
    if r.chance(1, 3) { let n = r.below(rx.len() as u64 + 1) as usize; rx.truncate(n); }
    let mut c = vec![rx];
    for _ in 0..r.below(4) {
        let n = match r.below(12) { 0 => 0, 1 => r.range(250, 260), 2 => r.range(65_530, 65_545), 3 => r.range(70_000, 300_000), _ => r.range(1, 40) } as usize;
        c.push(r.bytes(n + 1));
    }
    c
}
pub fn run_packet(c: &Case) -> Res {
    let mut r = Rng::new(7);
    let mut h = vec![10];
    h.extend(zstr("8.0"));
    h.extend([1, 0, 0, 0]);
    h.extend(zstr("abcdefgh"));
    let caps: u64 = 0x88000;
    let b = caps.to_le_bytes();
    h.extend(&b[0..2]); h.push(33); h.extend([2, 0]); h.extend(&b[2..4]); h.push(21); h.extend([0; 6]); h.extend(&b[4..8]);
    h.extend(zstr("ijklmnopqrst"));
    h.extend(zstr(NATIVE));
    let mut ok = frame(&gen_ok(&mut r), 2);
    ok.extend(&c[0]);
    let groups = vec![frame(&h, 0), ok];
    let (listener, port, host) = listen();
    let pieces = if c[0].len() % 3 == 0 { (c[0].len() / 3 % 256) as u8 } else { 0 };
    let server = std::thread::spawn(move || serve(listener, groups, 1, pieces));
    let client = BinlogClient::new(ReplicaOptions { port, hostname: host, username: "u".to_string(), password: "p".to_string(), ..Default::default() });
    let mut res = Ok(());
    match client.connect() {
        Err(e) => res = Err(format!("connect() fails: {:?}", e)),
        Ok((mut ch, _)) => {
            for p in &c[1..] { if let Err(e) = ch.write_packet(&p[1..], p[0]) { res = Err(format!("writing {} bytes: {}", p.len() - 1, e)); } }
            let mut d = &c[0][..];
            loop {
                let got = ch.read_packet();
                let n = if d.len() < 4 { None } else { Some(d[0] as usize | (d[1] as usize) << 8 | (d[2] as usize) << 16) };
                match (n, got) {
                    (Some(n), Ok((b, s))) if n > 0 && d.len() >= 4 + n => {
                        if b != d[4..4 + n] || s != d[3] { res = Err(format!("reading a packet of {} bytes: got {} bytes, sequence number {} instead of {}, content equal: {}", n, b.len(), s, d[3], b == d[4..4 + n])); break; }
                        d = &d[4 + n..];
                    }
                    (Some(n), Err(e)) if n > 0 && d.len() >= 4 + n => { res = Err(format!("reading a packet of {} bytes: {}", n, e)); break; }
                    (Some(0), Err(_)) => d = &d[4..],
                    (_, Err(_)) => break,
                    (n, Ok((b, s))) => { res = Err(format!("reading must be an error ({} bytes left, length {:?}), got {} bytes with sequence number {}", d.len(), n, b.len(), s)); break; }
                }
            }
        }
    }
    let (rx, reset) = server.join().unwrap_or_default();
    let mut want = vec![];
    for p in &c[1..] { want.extend(frame(&p[1..], p[0])); }
    // the first packet is the authentication response
    let n = if rx.len() < 4 { 0 } else { 4 + rx[0] as usize + ((rx[1] as usize) << 8) + ((rx[2] as usize) << 16) };
    if res.is_ok() && !reset && (n == 0 || rx.len() < n || rx[n..] != want[..]) { res = Err(format!("the written packets must be {} bytes, the server got {}", want.len(), rx.len().saturating_sub(n))); }
    res
}

// ---------------------------------------------------------------- requests
pub fn gen_command(r: &mut Rng, f: Focus) -> Case {
    let k = match f { Focus::Gtid => 6, Focus::Text => *r.pick(&[3u8, 4]), _ => r.below(7) as u8 };
    let n = r.size(20, 3000);
    let mut c = vec![vec![k, r.below(2) as u8, r.below(2) as u8], le(r.int(4), 4), r.text(n).into_bytes(), le(r.int(4), 4)];
    for _ in 0..3 { let n = r.many(0, 20, 400) as usize; c.push(r.text(n).into_bytes()); }
    let s = suites::gen_given(r, 20);
    c.push(s.into_bytes());
    // a NUL in some text, most often at its end
    if r.chance(1, 8) { let i = *r.pick(&[2usize, 4, 5, 6]); if r.chance(1, 3) { c[i].insert(0, 0) } else { c[i].push(0) } }
    c
}
#[cfg(not(feature = "private"))]
pub fn run_command(_: &Case) -> Res { Ok(()) }
#[cfg(feature = "private")]
pub fn run_command(c: &Case) -> Res {
    let text = |i: usize| String::from_utf8_lossy(&c[i]).to_string();
    let int = |i: usize| u32::from_le_bytes(c[i][..4].try_into().unwrap());
    let (id, name, position, user, password, scramble) = (int(1), text(2), int(3), text(4), text(5), text(6));
    let (plugin, plugin_name) = if c[0][1] == 0 { (AuthPlugin::MySqlNativePassword, NATIVE) } else { (AuthPlugin::CachingSha2Password, SHA2) };
    let same = |what: &str, want: Vec<u8>, got: Result<Vec<u8>, std::io::Error>| match got {
        Ok(g) if g == want => Ok(()),
        Ok(g) => Err(format!("{}\n  expected: {}\n  got:      {}", what, hex(&want), hex(&g))),
        Err(e) => Err(format!("{}: {:?}", what, e)),
    };
    match c[0][0] {
        0 => same("query command", query(&name), QueryCommand::new(name.clone()).serialize()),
        1 => same("register slave command", register(id), RegisterSlaveCommand::new(id).serialize()),
        2 => same("dump command", dump(id, &name, position), DumpBinlogCommand::new(id, name.clone(), position).serialize()),
        3 => {
            let database = if c[0][2] == 0 { None } else { Some(name.clone()) };
            let o = ReplicaOptions { username: user.clone(), password: password.clone(), database: database.clone(), ..Default::default() };
            let h = HandshakePacket { protocol_version: 10, server_version: String::new(), connection_id: id, scramble: scramble.clone(), server_capabilities: id as u64, server_collation: 1,
                status_flags: 2, filler: String::new(), auth_plugin_length: 21, auth_plugin_name: plugin_name.to_string() };
            same("authentication response", auth_request(&user, &password, database.as_deref(), &scramble, plugin_name), AuthenticateCommand::new(&o, &h, plugin, 45).serialize())
        }
        4 => same("authentication switch response", scrambled(&password, &scramble, plugin_name), AuthPluginSwitchCommand::new(&password, &scramble, &plugin_name.to_string(), plugin).serialize()),
        5 => same("ssl request", ssl_request(), SslRequestCommand::new(45).serialize()),
        _ => {
            let (set, real) = suites::given(&text(7));
            let set = set.unwrap_or_default();
            match DumpBinlogGtidCommand::new(id, name.clone(), position).serialize(&real) { Err(e) => Err(format!("GTID dump: {:?}", e)), Ok(b) => check_gtid_dump(&b, id, &name, position, &set) }
        }
    }
}

// ---------------------------------------------------------------- answers
pub fn gen_response(r: &mut Rng) -> Case {
    let k = r.below(6) as u8;
    let mut b = match k {
        0 => { let v = r.text(20); let p = if r.chance(1, 2) { NATIVE.to_string() } else { r.text(20) }; gen_handshake(r, &p, &v) }
        1 => gen_error(r)[1..].to_vec(),
        2 => { let mut b = zstr(&r.text(20)); b.extend(zstr(&r.text(25))); if r.chance(1, 3) { b.pop(); } if r.chance(1, 6) { let n = r.below(4) as usize; b.extend(r.bytes(n)); } b }
        3 => { let n = r.below(7) as usize; r.bytes(n) }
        4 => { let mut b = vec![]; for _ in 0..r.many(0, 4, 300) { let n = r.size(12, 400); let s = r.text(n).into_bytes(); b.extend(lenenc_any(r, s.len() as u64)); b.extend(s); } if r.chance(1, 8) { b.extend(lenenc(0)); } b }
        _ => { let mut b = if r.chance(1, 2) { gen_error(r) } else { gen_ok(r) }; if r.chance(1, 4) { b[0] = r.byte(); } b }
    };
    if r.chance(1, 4) && !b.is_empty() {
        match r.below(4) { 0 => { let n = r.below(b.len() as u64) as usize; b.truncate(n); } 1 => { let i = r.below(b.len() as u64) as usize; b.remove(i); } _ => { let i = r.below(b.len() as u64) as usize; b[i] = r.byte(); } }
    }
    if k == 5 && b.is_empty() { b.push(0xFF); }
    vec![vec![k], b]
}
#[cfg(not(feature = "private"))]
pub fn run_response(_: &Case) -> Res { Ok(()) }
#[cfg(feature = "private")]
pub fn run_response(c: &Case) -> Res {
    let d = &c[1];
    let (what, want, got): (&str, Option<String>, Result<String, String>) = match c[0][0] {
        0 => ("handshake", handshake(d).map(|h| h.text()), HandshakePacket::parse(d).map(|h| Hs { protocol: h.protocol_version, version: h.server_version, id: h.connection_id, scramble: h.scramble,
            caps: h.server_capabilities, collation: h.server_collation, status: h.status_flags, filler: h.filler, auth_len: h.auth_plugin_length, plugin: h.auth_plugin_name }.text()).map_err(|e| format!("{:?}", e))),
        1 => ("error packet", error_packet(d).map(|e| format!("{:?}", e)), ErrorPacket::parse(d).map(|e| format!("{:?}", (e.error_code, e.error_message, e.sql_state))).map_err(|e| format!("{:?}", e))),
        2 => { let mut r = Rd::new(d); let a = r.zstr(); let b = if a.is_some() { r.zstr() } else { None };
            ("authentication switch", a.and_then(|a| b.map(|b| format!("{:?} {:?}", a, b))), AuthPluginSwitchPacket::parse(d).map(|p| format!("{:?} {:?}", p.auth_plugin_name, p.auth_plugin_data)).map_err(|e| format!("{:?}", e))) }
        3 => { let mut r = Rd::new(d); let w = (|| Some(format!("{} {}", r.le(2)?, r.le(2)?)))();
            ("end of file packet", w, EndOfFilePacket::parse(d).map(|p| format!("{} {}", p.warning_count, p.server_status)).map_err(|e| format!("{:?}", e))) }
        4 => ("result set row", row(d).map(|r| format!("{:?}", r)), ResultSetRowPacket::parse(d).map(|r| format!("{:?}", r.cells)).map_err(|e| format!("{:?}", e))),
        _ => ("check of a packet", if d[0] == 0xFF { None } else { Some(String::new()) }, check_error_packet(d, "m").map(|_| String::new()).map_err(|e| format!("{:?}", e))),
    };
    match (want, got) {
        (None, Err(_)) => Ok(()),
        (Some(a), Ok(b)) if a == b => Ok(()),
        (a, b) => Err(format!("{} {}\n  expected: {:?}\n  got:      {:?}", what, hex(d), a, b)),
    }
}


// Connecting, authenticating and starting replication: what goes over the connection.
pub mod spec_session {
use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::shim::openssl::rsa::{ciphertext, can_encrypt, pem_key, Padding};
#[allow(unused_imports)] use crate::constants::auth_plugin_names::AuthPlugin;
#[allow(unused_imports)] use crate::constants::database_provider::DatabaseProvider;
#[allow(unused_imports)] use crate::constants::checksum_type::ChecksumType;
#[allow(unused_imports)] use crate::replica_options::ReplicaOptions;
#[allow(unused_imports)] use crate::starting_strategy::StartingStrategy;
#[allow(unused_imports)] use crate::ssl_mode::SslMode;
#[allow(unused_imports)] use crate::responses::handshake_packet::HandshakePacket;
#[allow(unused_imports)] use crate::packet_channel::PacketChannel;
#[allow(unused_imports)] use crate::binlog_events::BinlogEvents;
#[allow(unused_imports)] use crate::responses::result_set_row_packet::ResultSetRowPacket;
verus! {
broadcast use {crate::shim::group_shim, vstd::group_vstd_default};

// ---------------------------------------------------------------- packets
pub open spec fn frame(body: Seq<u8>, seq: u8) -> Seq<u8> { le_bytes(body.len(), 3) + seq![seq] + body }
pub struct Pkt { pub body: Seq<u8>, pub seq: u8, pub rest: Seq<u8> }
/// the next packet of what the peer sends: None if it is cut off or empty
pub open spec fn next_pkt(rx: Seq<u8>) -> Option<Pkt> {
    if rx.len() < 4 { None } else {
        let n = le(rx, 0, 3) as int;
        if n == 0 || rx.len() < 4 + n { None } else { Some(Pkt { body: rx.subrange(4, 4 + n), seq: rx[3], rest: rx.skip(4 + n) }) }
    }
}
pub open spec fn after_seq(s: u8) -> u8 { ((s + 1) % 256) as u8 }

// ---------------------------------------------------------------- sessions
/// written so far, still to be read, and whether everything went well
pub struct Run { pub tx: Seq<u8>, pub rx: Seq<u8>, pub ok: bool }
pub open spec fn fail(r: Run) -> Run { Run { ok: false, ..r } }
/// (a body that is too large for the header cannot be sent)
pub open spec fn send(r: Run, body: Seq<u8>, seq: u8) -> Run {
    if !r.ok { r } else if body.len() >= 0x100_0000 { fail(r) } else { Run { tx: r.tx + frame(body, seq), ..r } }
}
/// the answer that comes next
pub open spec fn got(r: Run) -> Pkt { next_pkt(r.rx)->Some_0 }
pub open spec fn refused(body: Seq<u8>) -> bool { body.len() > 0 && body[0] == 0xFF }
/// read an answer which is not an error
pub open spec fn recv(r: Run) -> Run {
    if !r.ok { r } else {
        match next_pkt(r.rx) { None => fail(r), Some(p) => Run { rx: p.rest, ok: !refused(p.body), ..r } }
    }
}
pub open spec fn ask(r: Run, body: Seq<u8>) -> Run { recv(send(r, body, 0)) }

// ---------------------------------------------------------------- the connection
pub open spec fn at(c: PacketChannel) -> Run { Run { tx: c.stream.tx(), rx: c.stream.rx(), ok: true } }
pub open spec fn opened(c: PacketChannel) -> Run { Run { tx: Seq::empty(), rx: c.stream.first(), ok: true } }
/// nothing went wrong so far: it makes sense to write
pub open spec fn live(c: PacketChannel) -> bool { !c.stream.broken() && !refused(c.stream.last()) }
pub open spec fn kept(a: PacketChannel, b: PacketChannel) -> bool { a.stream.first() == b.stream.first() && a.stream.address() == b.stream.address() }
pub open spec fn exactly(c: PacketChannel, t: Run) -> bool { c.stream.tx() == t.tx && c.stream.rx() == t.rx }
pub open spec fn excused(c: PacketChannel, t: Run) -> bool { c.stream.broken() || !t.ok }
/// b goes on from a
pub open spec fn ext(a: Seq<u8>, b: Seq<u8>) -> bool { a.is_prefix_of(b) }
pub open spec fn stopped(c: PacketChannel, t: Run) -> bool { ext(c.stream.tx(), t.tx) }
pub broadcast proof fn ext_eq(a: Seq<u8>, b: Seq<u8>) requires a == b ensures #[trigger] ext(a, b) { }
pub broadcast proof fn ext_add(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires ext(a, b) ensures #[trigger] ext(a, b + c) { assert((b + c).subrange(0, a.len() as int) =~= b.subrange(0, a.len() as int)); }
pub broadcast proof fn ext_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires #[trigger] ext(a, b), #[trigger] ext(b, c) ensures ext(a, c) { assert(c.subrange(0, a.len() as int) =~= b.subrange(0, a.len() as int)); }
pub broadcast proof fn one_byte(s: Seq<u8>, q: u8) requires s.len() == 1 ensures #[trigger] frame(s, q) == frame(seq![s[0]], q) { assert(s =~= seq![s[0]]); }
pub broadcast proof fn utf8_some(s: Seq<char>) requires s.len() > 0 ensures (#[trigger] utf8(s)).len() > 0 { reveal_with_fuel(encode_utf8, 2); }
pub broadcast group group_ext { one_byte, utf8_some, ext_eq, ext_add, ext_trans }

// ---------------------------------------------------------------- authentication
/// further exchange of caching_sha2_password after the answer body
pub open spec fn t_sha(r: Run, o: ReplicaOptions, body: Seq<u8>, scramble: Seq<char>, seq: u8, use_ssl: bool) -> Run {
    let password = utf8(o.password@).push(0u8);
    if body[0] == 0 { r }
    else if body[0] == 1 && body.len() > 1 && body[1] == 3 { recv(r) }
    else if use_ssl { recv(send(r, password, seq)) }
    else if scramble.len() == 0 { fail(r) }
    else {
        let r1 = send(r, seq![2u8], seq);
        let a = got(r1);
        let r2 = recv(r1);
        let m = xored(password, utf8(scramble));
        if !r2.ok { r2 } else {
            match pem_key(a.body.skip(1)) {
                None => fail(r2),
                Some(k) => if !can_encrypt(k, Padding::PKCS1_OAEP, m) { fail(r2) } else { recv(send(r2, ciphertext(k, Padding::PKCS1_OAEP, m), after_seq(a.seq))) },
            }
        }
    }
}
pub open spec fn t_switch(r: Run, o: ReplicaOptions, name: Seq<char>, data: Seq<char>, seq: u8, use_ssl: bool) -> Run {
    match s_plugin(name) {
        None => fail(r),
        Some(plugin) => {
            let r1 = send(r, auth_answer(o.password@, data, plugin), seq);
            let a = got(r1);
            let r2 = recv(r1);
            if r2.ok && name == caching() { t_sha(r2, o, a.body, data, after_seq(a.seq), use_ssl) } else { r2 }
        },
    }
}
pub open spec fn ssl_rank(m: SslMode) -> int {
    match m { SslMode::Disabled => 0, SslMode::IfAvailable => 1, SslMode::Require => 2, SslMode::RequireVerifyCa => 3, SslMode::RequireVerifyFull => 4 }
}
/// (a session that would be encrypted ends after the request for encryption: the crate stops there)
pub open spec fn t_auth(r: Run, o: ReplicaOptions, h: HandshakeV, plugin: AuthPlugin, seq: u8) -> Run {
    if ssl_rank(o.ssl_mode) > 0 && flag(h.caps, 0x800) { fail(send(r, c_ssl(0x8_8A04, 0, 45), seq)) }
    else if ssl_rank(o.ssl_mode) >= 2 { fail(r) } else {
        let r1 = send(r, auth_request(o, h, plugin), seq);
        let a = got(r1);
        let r2 = recv(r1);
        if !r2.ok || a.body[0] == 0 { r2 }
        else if a.body[0] == 0xFE {
            match s_switch(a.body.skip(1)) { None => fail(r2), Some((name, data)) => t_switch(r2, o, name, data, after_seq(a.seq), false) }
        } else { t_sha(r2, o, a.body, h.scramble, after_seq(a.seq), false) }
    }
}
/// the greeting of the server
pub open spec fn greeting(r: Run) -> HandshakeV { s_handshake(got(r).body)->Some_0 }
pub open spec fn t_connect(r: Run, o: ReplicaOptions) -> Run {
    let a = got(r);
    let r1 = recv(r);
    if !r1.ok || s_handshake(a.body) is None || s_plugin(greeting(r).plugin) is None { fail(r1) }
    else { t_auth(r1, o, greeting(r), s_plugin(greeting(r).plugin)->Some_0, after_seq(a.seq)) }
}
pub open spec fn provider_of(r: Run) -> DatabaseProvider { if contains_text(greeting(r).version, "MariaDB"@) { DatabaseProvider::MariaDB } else { DatabaseProvider::MySQL } }

pub broadcast proof fn ext_recv(r: Run) ensures ext(r.tx, (#[trigger] recv(r)).tx) { }
pub broadcast proof fn ext_send(r: Run, b: Seq<u8>, s: u8) ensures ext(r.tx, (#[trigger] send(r, b, s)).tx) { broadcast use group_ext; }
pub broadcast group group_run { ext_recv, ext_send }
pub broadcast proof fn ext_sha(r: Run, o: ReplicaOptions, body: Seq<u8>, scramble: Seq<char>, seq: u8, use_ssl: bool)
    ensures ext(r.tx, (#[trigger] t_sha(r, o, body, scramble, seq, use_ssl)).tx)
{ hide(send); hide(recv); broadcast use {group_ext, group_run}; }
pub broadcast proof fn ext_switch(r: Run, o: ReplicaOptions, name: Seq<char>, data: Seq<char>, seq: u8, use_ssl: bool)
    ensures ext(r.tx, (#[trigger] t_switch(r, o, name, data, seq, use_ssl)).tx)
{ hide(send); hide(recv); hide(t_sha); broadcast use {group_ext, group_run, ext_sha}; }
pub broadcast proof fn ext_auth(r: Run, o: ReplicaOptions, h: HandshakeV, plugin: AuthPlugin, seq: u8)
    ensures ext(r.tx, (#[trigger] t_auth(r, o, h, plugin, seq)).tx)
{ hide(send); hide(recv); hide(t_sha); hide(t_switch); broadcast use {group_ext, group_run, ext_sha, ext_switch}; }

// ---------------------------------------------------------------- setup
/// skip the column descriptions
pub open spec fn t_columns(r: Run) -> Run
    decreases r.rx.len()
{
    let r1 = recv(r);
    if !r1.ok || got(r).body[0] == 0xFE || r1.rx.len() >= r.rx.len() { r1 } else { t_columns(r1) }
}
pub open spec fn t_rows(r: Run) -> (Run, Seq<Seq<Seq<char>>>)
    decreases r.rx.len()
{
    let r1 = recv(r);
    if !r1.ok || got(r).body[0] == 0xFE || r1.rx.len() >= r.rx.len() { (r1, Seq::empty()) }
    else {
        match s_texts(got(r).body, 0) {
            None => (fail(r1), Seq::empty()),
            Some(cells) => { let (r2, rest) = t_rows(r1); (r2, seq![cells] + rest) },
        }
    }
}
/// the rows of a result
pub open spec fn t_result(r: Run) -> (Run, Seq<Seq<Seq<char>>>) { t_rows(t_columns(recv(r))) }

pub open spec fn answer_rows(v: Seq<ResultSetRowPacket>) -> Seq<Seq<Seq<char>>> { Seq::new(v.len(), |i: int| strs(v[i].cells@)) }

pub struct Coords { pub file: Seq<char>, pub pos: nat }
pub open spec fn coords(o: ReplicaOptions) -> Coords { Coords { file: o.binlog.filename@, pos: o.binlog.position as nat } }
pub open spec fn from_end(o: ReplicaOptions) -> bool { o.binlog.starting_strategy is FromEnd && o.binlog.filename@.len() == 0 }
/// the end of the log is asked from the server only if no file is known
pub open spec fn t_adjust(r: Run, o: ReplicaOptions) -> (Run, Coords) {
    if !from_end(o) { (r, coords(o)) } else {
        let (r1, rows) = t_result(send(r, c_query("show master status"@), 0));
        if !r1.ok || rows.len() != 1 || rows[0].len() < 2 { (fail(r1), coords(o)) } else {
            match num_text(rows[0][1]) {
                None => (fail(r1), coords(o)),
                Some(n) => if n > u32::MAX { (fail(r1), coords(o)) } else { (r1, Coords { file: rows[0][0], pos: n }) },
            }
        }
    }
}
pub open spec fn heartbeat_text(o: ReplicaOptions) -> Seq<char> { "set @master_heartbeat_period="@ + dec((o.heartbeat_interval.millis() * 1_000_000) as nat) }
pub open spec fn t_heartbeat(r: Run, o: ReplicaOptions) -> Run { ask(r, c_query(heartbeat_text(o))) }
pub open spec fn checksum_named(n: Seq<char>) -> Option<ChecksumType> {
    if n == "NONE"@ { Some(ChecksumType::None) } else if n == "CRC32"@ { Some(ChecksumType::Crc32) } else { None }
}
pub open spec fn t_checksum(r: Run) -> (Run, ChecksumType) {
    let r1 = ask(r, c_query("SET @master_binlog_checksum= @@global.binlog_checksum"@));
    let (r2, rows) = t_result(send(r1, c_query("SELECT @master_binlog_checksum"@), 0));
    if !r2.ok || rows.len() == 0 || rows[0].len() == 0 { (fail(r2), ChecksumType::None) } else {
        match checksum_named(rows[0][0]) { None => (fail(r2), ChecksumType::None), Some(c) => (r2, c) }
    }
}
pub open spec fn t_register(r: Run, server_id: nat, state: Seq<char>) -> Run {
    let r1 = ask(r, c_query("SET @slave_connect_state='"@ + state + "'"@));
    let r2 = ask(r1, c_query("SET @slave_gtid_strict_mode=0"@));
    let r3 = ask(r2, c_query("SET @slave_gtid_ignore_duplicates=0"@));
    ask(r3, c_register(server_id))
}
pub open spec fn t_mariadb(r: Run, o: ReplicaOptions, c: Coords, server_id: nat) -> Run {
    let r1 = ask(r, c_query("SET @mariadb_slave_capability=4"@));
    let r2 = if !(o.binlog.starting_strategy is FromGtid) { r1 } else {
        match o.binlog.gtid_list { None => fail(r1), Some(l) => t_register(r1, o.server_id as nat, list_text(l.gtids@)) }
    };
    send(r2, c_dump(server_id, c.file, c.pos, 0), 0)
}
pub open spec fn t_mysql(r: Run, o: ReplicaOptions, c: Coords, server_id: nat) -> Run {
    if !(o.binlog.starting_strategy is FromGtid) { send(r, c_dump(server_id, c.file, c.pos, 0), 0) } else {
        match o.binlog.gtid_set { None => fail(r), Some(s) => send(r, c_dump_gtid(server_id, c.file, c.pos, 0, s), 0) }
    }
}
pub struct Started { pub run: Run, pub coords: Coords, pub checksum: ChecksumType }
pub open spec fn t_replicate(r: Run, o: ReplicaOptions) -> Started {
    let (r1, c) = t_adjust(t_connect(r, o), o);
    let (r2, checksum) = t_checksum(t_heartbeat(r1, o));
    let server_id = if o.blocking { o.server_id as nat } else { 0 };
    let r3 = match provider_of(r) { DatabaseProvider::MariaDB => t_mariadb(r2, o, c, server_id), DatabaseProvider::MySQL => t_mysql(r2, o, c, server_id) };
    Started { run: r3, coords: c, checksum }
}
pub broadcast proof fn ext_columns(r: Run) ensures ext(r.tx, (#[trigger] t_columns(r)).tx), !r.ok ==> !t_columns(r).ok
    decreases r.rx.len()
{ broadcast use {group_ext, group_run}; let r1 = recv(r); if !(!r1.ok || got(r).body[0] == 0xFE || r1.rx.len() >= r.rx.len()) { ext_columns(r1); } }
pub broadcast proof fn ext_rows(r: Run) ensures ext(r.tx, (#[trigger] t_rows(r)).0.tx), !r.ok ==> !t_rows(r).0.ok
    decreases r.rx.len()
{ broadcast use {group_ext, group_run}; let r1 = recv(r); if !(!r1.ok || got(r).body[0] == 0xFE || r1.rx.len() >= r.rx.len()) { ext_rows(r1); } }
pub broadcast proof fn ext_result(r: Run) ensures ext(r.tx, (#[trigger] t_result(r)).0.tx), !r.ok ==> !t_result(r).0.ok { broadcast use {group_ext, group_run, ext_columns, ext_rows}; }
pub broadcast proof fn ext_ask(r: Run, b: Seq<u8>) ensures ext(r.tx, (#[trigger] ask(r, b)).tx), !r.ok ==> !ask(r, b).ok { broadcast use {group_ext, group_run}; }
pub broadcast proof fn ext_register(r: Run, server_id: nat, state: Seq<char>) ensures ext(r.tx, (#[trigger] t_register(r, server_id, state)).tx), !r.ok ==> !t_register(r, server_id, state).ok
{ hide(ask); broadcast use {group_ext, group_run, ext_ask}; }
pub broadcast proof fn ext_mariadb(r: Run, o: ReplicaOptions, c: Coords, server_id: nat) ensures ext(r.tx, (#[trigger] t_mariadb(r, o, c, server_id)).tx), !r.ok ==> !t_mariadb(r, o, c, server_id).ok
{ hide(ask); hide(t_register); broadcast use {group_ext, group_run, ext_ask, ext_register}; }
pub broadcast group group_setup { ext_columns, ext_rows, ext_result, ext_ask, ext_register, ext_mariadb }

// ---------------------------------------------------------------- event stream
pub open spec fn stream_ok(b: BinlogEvents) -> bool { parser_ok(b.parser) }
/// what the parser knows after a packet with an event
pub open spec fn packet_next(s: ParserV, packet: Seq<u8>) -> ParserV {
    match s_header(packet.skip(1)) { None => s, Some(h) => s_next(s, h, packet.skip(20)) }
}

// ---------------------------------------------------------------- sizes
/// the heartbeat interval leaves room for the timeout, texts have less than 4 GiB, the GTID state is well formed
pub open spec fn options_ok(o: ReplicaOptions) -> bool {
    &&& utf8(o.password@).len() < 0xFFFF_FFFF
    &&& o.heartbeat_interval.millis() + 3_600_000 < 0x1_0000_0000_0000_0000 * 1000
    &&& (o.binlog.gtid_set is Some ==> gset_ok(o.binlog.gtid_set->Some_0) && c_gtid_data(o.binlog.gtid_set->Some_0).len() < 0x1_0000_0000)
}
}
}

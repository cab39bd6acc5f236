
// Commands and answers of the client/server protocol.
pub mod spec_net {
use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::constants::auth_plugin_names::AuthPlugin;
#[allow(unused_imports)] use crate::constants::database_provider::DatabaseProvider;
#[allow(unused_imports)] use crate::replica_options::ReplicaOptions;
#[allow(unused_imports)] use crate::responses::handshake_packet::HandshakePacket;
#[allow(unused_imports)] use crate::responses::error_packet::ErrorPacket;
#[allow(unused_imports)] use crate::responses::auth_switch_packet::AuthPluginSwitchPacket;
#[allow(unused_imports)] use crate::responses::result_set_row_packet::ResultSetRowPacket;
#[allow(unused_imports)] use crate::providers::mysql::gtid::gtid_set::GtidSet;
#[allow(unused_imports)] use crate::providers::mysql::gtid::uuid_set::UuidSet;
#[allow(unused_imports)] use crate::providers::mysql::gtid::interval::Interval;
verus! {
broadcast use {crate::shim::group_shim, vstd::group_vstd_default};

// ---------------------------------------------------------------- answers
pub struct HandshakeV {
    pub protocol: nat, pub version: Seq<char>, pub connection: nat, pub scramble: Seq<char>, pub caps: nat, pub collation: nat, pub status: nat,
    pub filler: Seq<char>, pub plugin_len: nat, pub plugin: Seq<char>,
}
pub open spec fn handshake_v(h: HandshakePacket) -> HandshakeV {
    HandshakeV { protocol: h.protocol_version as nat, version: h.server_version@, connection: h.connection_id as nat, scramble: h.scramble@,
        caps: h.server_capabilities as nat, collation: h.server_collation as nat, status: h.status_flags as nat, filler: h.filler@,
        plugin_len: h.auth_plugin_length as nat, plugin: h.auth_plugin_name@ }
}
pub open spec fn flag(caps: nat, f: nat) -> bool { (caps / f) % 2 == 1 }
/// protocol version, server version, connection id, first part of the scramble, capabilities (bytes 0-1), collation, status, capabilities
/// (bytes 2-3), length of plugin data, filler, capabilities (bytes 4-7), second part of the scramble and plugin name if the capabilities say so
pub open spec fn s_handshake(d: Seq<u8>) -> Option<HandshakeV> {
    if d.len() < 1 { None } else {
    match s_zstr(d, 1) { None => None, Some((version, p)) =>
    if !have(d, p, 4) { None } else {
    match s_zstr(d, p + 4) { None => None, Some((scramble, q)) =>
    if !have(d, q, 8) { None } else {
    match s_text(d, q + 8, 6) { None => None, Some((filler, w)) =>
    if !have(d, w, 4) { None } else {
        let caps = le(d, q, 2) + 0x1_0000 * le(d, q + 5, 2) + 0x1_0000_0000 * le(d, w, 4);
        let more = if flag(caps, 0x8000) { s_zstr(d, w + 4) } else { Some((Seq::empty(), w + 4)) };
        match more { None => None, Some((scramble2, z)) =>
        match (if flag(caps, 0x8_0000) { s_zstr(d, z) } else { Some((Seq::empty(), z)) }) { None => None, Some((plugin, _)) =>
            Some(HandshakeV { protocol: d[0] as nat, version, connection: le(d, p, 4), scramble: scramble + scramble2, caps, collation: d[q + 2] as nat,
                status: le(d, q + 3, 2), filler, plugin_len: d[q + 7] as nat, plugin }) } }
    } } } } } } }
}
pub broadcast proof fn le_parts(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires a.len() == 2, b.len() == 2, c.len() == 4
    ensures #[trigger] le(a + b + c, 0, 8) == le(a, 0, 2) + 0x1_0000 * le(b, 0, 2) + 0x1_0000_0000 * le(c, 0, 4)
{ reveal_with_fuel(le, 9); }
pub broadcast proof fn le_inner(d: Seq<u8>, p: int, n: int)
    requires 0 <= p, n == 2 || n == 4, p + n <= d.len()
    ensures #![trigger bytes_at(d, p, n)] le(bytes_at(d, p, n), 0, n as nat) == le(d, p, n as nat)
{ reveal_with_fuel(le, 5); }
pub broadcast group group_net { le_parts, le_inner }
pub open spec fn s_error(d: Seq<u8>) -> Option<(nat, Seq<char>, Option<Seq<char>>)> {
    if d.len() < 2 { None } else {
        match s_rest(d, 2) {
            None => None,
            Some((m, _)) => if m.len() > 0 && m[0] == '#' {
                let n = if m.len() < 6 { m.len() as int } else { 6 };
                Some((le(d, 0, 2), m.skip(n), Some(m.subrange(1, n))))
            } else { Some((le(d, 0, 2), m, None)) },
        }
    }
}
pub open spec fn error_v(e: ErrorPacket) -> (nat, Seq<char>, Option<Seq<char>>) {
    (e.error_code as nat, e.error_message@, match e.sql_state { Some(s) => Some(s@), None => None })
}
pub open spec fn s_switch(d: Seq<u8>) -> Option<(Seq<char>, Seq<char>)> {
    match s_zstr(d, 0) { None => None, Some((n, p)) => match s_zstr(d, p) { None => None, Some((x, _)) => Some((n, x)) } }
}
// ---------------------------------------------------------------- commands
pub open spec fn c_query(sql: Seq<char>) -> Seq<u8> { seq![3u8] + utf8(sql) }
pub open spec fn c_register(server_id: nat) -> Seq<u8> {
    seq![21u8] + le_bytes(server_id, 4) + seq![0u8, 0u8, 0u8] + le_bytes(0, 2) + le_bytes(0, 4) + le_bytes(0, 4)
}
pub open spec fn c_dump(server_id: nat, name: Seq<char>, pos: nat, flags: nat) -> Seq<u8> {
    seq![18u8] + le_bytes(pos, 4) + le_bytes(flags, 2) + le_bytes(server_id, 4) + utf8(name)
}
pub open spec fn zero_bytes(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
pub open spec fn c_ssl(caps: nat, max: nat, collation: u8) -> Seq<u8> { le_bytes(caps, 4) + le_bytes(max, 4) + seq![collation] + zero_bytes(23) }
pub open spec fn zterm(s: Seq<char>) -> Seq<u8> { utf8(s) + seq![0u8] }
pub open spec fn c_auth(caps: nat, max: nat, collation: u8, user: Seq<char>, answer: Seq<u8>, db: Option<Seq<char>>, plugin: Seq<char>) -> Seq<u8> {
    le_bytes(caps, 4) + le_bytes(max, 4) + seq![collation] + zero_bytes(23) + zterm(user) + seq![answer.len() as u8] + answer
    + (match db { Some(x) => zterm(x), None => Seq::empty() }) + zterm(plugin)
}
/// intervals with exclusive ends
pub open spec fn c_intervals(v: Seq<Interval>) -> Seq<u8>
    decreases v.len()
{ if v.len() == 0 { Seq::empty() } else { c_intervals(v.drop_last()) + le_bytes(v.last().start as nat, 8) + le_bytes((v.last().end + 1) as nat, 8) } }
pub open spec fn c_uuid_set(u: UuidSet) -> Seq<u8> { u.source_id.data@ + le_bytes(u.intervals@.len(), 8) + c_intervals(u.intervals@) }
/// the sets of the servers, in the order in which the keys are given
pub open spec fn c_sets(m: Map<Seq<char>, UuidSet>, keys: Seq<Seq<char>>) -> Seq<u8>
    decreases keys.len()
{ if keys.len() == 0 { Seq::empty() } else { c_sets(m, keys.drop_last()) + c_uuid_set(m[keys.last()]) } }
pub open spec fn c_gtid_data(s: GtidSet) -> Seq<u8> { le_bytes(s.uuid_sets.order().len(), 8) + c_sets(s.uuid_sets.m(), s.uuid_sets.order()) }
pub open spec fn c_dump_gtid(server_id: nat, name: Seq<char>, pos: nat, flags: nat, s: GtidSet) -> Seq<u8> {
    seq![30u8] + le_bytes(flags, 2) + le_bytes(server_id, 4) + le_bytes(utf8(name).len(), 4) + utf8(name) + le_bytes(pos, 8)
    + le_bytes(c_gtid_data(s).len(), 4) + c_gtid_data(s)
}
pub proof fn lemma_intervals_step(v: Seq<Interval>, i: int)
    requires 0 <= i < v.len()
    ensures c_intervals(v.take(i + 1)) == c_intervals(v.take(i)) + le_bytes(v[i].start as nat, 8) + le_bytes((v[i].end + 1) as nat, 8)
{ assert(v.take(i + 1).drop_last() =~= v.take(i)); }
pub proof fn lemma_intervals_len(v: Seq<Interval>)
    ensures c_intervals(v).len() == 16 * v.len()
    decreases v.len()
{ if v.len() > 0 { lemma_intervals_len(v.drop_last()); lemma_le_bytes(v.last().start as nat, 8); lemma_le_bytes((v.last().end + 1) as nat, 8); } }
pub proof fn lemma_le_bytes(x: nat, n: nat)
    ensures le_bytes(x, n).len() == n
    decreases n
{ if n > 0 { lemma_le_bytes(x / 256, (n - 1) as nat); } }
/// four bytes hold the number modulo 2^32
pub proof fn lemma_le_wrap(x: nat)
    ensures le_bytes((x % 0x1_0000_0000) as nat, 4) == le_bytes(x, 4)
{
    reveal_with_fuel(le_bytes, 5);
    let y = (x % 0x1_0000_0000) as nat;
    assert(y % 256 == x % 256 && (y / 256) % 256 == (x / 256) % 256 && (y / 256 / 256) % 256 == (x / 256 / 256) % 256 && (y / 256 / 256 / 256) % 256 == (x / 256 / 256 / 256) % 256);
}
pub proof fn lemma_sets_step(m: Map<Seq<char>, UuidSet>, keys: Seq<Seq<char>>, i: int)
    requires 0 <= i < keys.len()
    ensures c_sets(m, keys.take(i + 1)) == c_sets(m, keys.take(i)) + c_uuid_set(m[keys[i]]),
        c_sets(m, keys.take(i + 1)).len() == c_sets(m, keys.take(i)).len() + m[keys[i]].source_id.data@.len() + 8 + 16 * m[keys[i]].intervals@.len(),
        c_sets(m, keys.take(i + 1)).len() <= c_sets(m, keys).len(),
    decreases keys.len() - i
{
    assert(keys.take(i + 1).drop_last() =~= keys.take(i));
    lemma_intervals_len(m[keys[i]].intervals@);
    lemma_le_bytes(m[keys[i]].intervals@.len(), 8);
    if i + 1 < keys.len() { lemma_sets_step(m, keys, i + 1); } else { assert(keys.take(i + 1) =~= keys); }
}

// ---------------------------------------------------------------- passwords
pub open spec fn xored(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { Seq::new(a.len(), |i: int| a[i] ^ b[i % b.len() as int]) }
/// what the server of the plugin expects for the scramble it sent
pub open spec fn auth_answer(password: Seq<char>, scramble: Seq<char>, plugin: AuthPlugin) -> Seq<u8> {
    if password.len() == 0 { Seq::empty() }
    else { match plugin {
        AuthPlugin::MySqlNativePassword => xored(sha1_of(utf8(password)), sha1_of(utf8(scramble) + sha1_of(sha1_of(utf8(password))))),
        AuthPlugin::CachingSha2Password => xored(sha256_of(utf8(password)), sha256_of(sha256_of(sha256_of(utf8(password))) + utf8(scramble))),
    } }
}
pub open spec fn native() -> Seq<char> { "mysql_native_password"@ }
pub open spec fn caching() -> Seq<char> { "caching_sha2_password"@ }
pub open spec fn s_plugin(name: Seq<char>) -> Option<AuthPlugin> {
    if name == native() { Some(AuthPlugin::MySqlNativePassword) } else if name == caching() { Some(AuthPlugin::CachingSha2Password) } else { None }
}
/// LONG_FLAG, PROTOCOL_41, SECURE_CONNECTION, PLUGIN_AUTH and CONNECT_WITH_DB with a database
pub open spec fn client_caps(db: bool) -> nat { if db { 0x8_820Cnat } else { 0x8_8204nat } }
pub open spec fn auth_request(o: ReplicaOptions, h: HandshakeV, plugin: AuthPlugin) -> Seq<u8> {
    c_auth(client_caps(o.database is Some), 0, 45, o.username@, auth_answer(o.password@, h.scramble, plugin),
        match o.database { Some(x) => Some(x@), None => None }, h.plugin)
}
}
}


// Reading files and keeping the position.
pub mod spec_client {
use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::errors::Error;
#[allow(unused_imports)] use crate::shim::std::io::ErrorKind;
#[allow(unused_imports)] use crate::binlog_reader::BinlogReader;
#[allow(unused_imports)] use crate::binlog_client::BinlogClient;
#[allow(unused_imports)] use crate::replica_options::ReplicaOptions;
#[allow(unused_imports)] use crate::starting_strategy::StartingStrategy;
#[allow(unused_imports)] use crate::events::binlog_event::BinlogEvent;
#[allow(unused_imports)] use crate::events::event_header::EventHeader;
#[allow(unused_imports)] use crate::providers::mysql::gtid::gtid_set::GtidSet;
#[allow(unused_imports)] use crate::providers::mysql::gtid::gtid::Gtid as MyGtid;
#[allow(unused_imports)] use crate::providers::mariadb::gtid::gtid::Gtid as MaGtid;
#[allow(unused_imports)] use crate::providers::mariadb::gtid::gtid_list::GtidList;
verus! {
broadcast use {crate::shim::group_shim, vstd::group_vstd_default};

// ---------------------------------------------------------------- files
pub broadcast proof fn skip_take(s: Seq<u8>, a: int, n: int) requires 0 <= a, 0 <= n, a + n <= s.len() ensures #[trigger] s.skip(a).take(n) == s.subrange(a, a + n)
{ assert(s.skip(a).take(n) =~= s.subrange(a, a + n)); }
pub broadcast proof fn skip_skip(s: Seq<u8>, a: int, n: int) requires 0 <= a, 0 <= n, a + n <= s.len() ensures #[trigger] s.skip(a).skip(n) == s.skip(a + n)
{ assert(s.skip(a).skip(n) =~= s.skip(a + n)); }
pub broadcast group group_skip { skip_take, skip_skip }
pub open spec fn is_eof(e: Error) -> bool { e is IoError && e->IoError_0.ek() == ErrorKind::UnexpectedEof }
/// memory for the largest event a header can announce
pub open spec fn event_room() -> bool { alloc_limit() >= 8 * 0x1_0000_0000 + 0x10000 }
/// the reader's buffer and table maps are as it made them
pub open spec fn reader_ok(r: BinlogReader) -> bool { r.payload_buffer@.len() == 0x8000 && parser_ok(r.parser) }
pub open spec fn magic() -> Seq<u8> { seq![0xfeu8, 0x62, 0x69, 0x6e] }
/// what the file holds next
pub enum NextV {
    /// no further complete event
    End,
    /// a header with an impossible length
    BadLength,
    /// an event with its header and body, after which the rest follows
    Event(EventHeader, Seq<u8>, Seq<u8>),
}
pub open spec fn s_next_in_file(rest: Seq<u8>) -> NextV {
    if rest.len() < 19 { NextV::End }
    else {
        let h = s_header(rest.take(19))->Some_0;
        let n = h.event_length as int;
        if n < 19 { NextV::BadLength }
        else if rest.len() < n { NextV::End }
        else { NextV::Event(h, rest.subrange(19, n), rest.skip(n)) }
    }
}

// ---------------------------------------------------------------- position
/// everything in the options besides the binlog coordinates
pub open spec fn same_options(a: ReplicaOptions, b: ReplicaOptions) -> bool {
    a.port == b.port && a.hostname == b.hostname && a.ssl_mode == b.ssl_mode && a.username == b.username && a.password == b.password
    && a.database == b.database && a.server_id == b.server_id && a.blocking == b.blocking && a.heartbeat_interval == b.heartbeat_interval
    && a.binlog.starting_strategy == b.binlog.starting_strategy
}
/// file name and position after an event was committed
pub open spec fn s_position(name: Seq<char>, pos: u32, h: EventHeader, e: BinlogEvent) -> (Seq<char>, u32) {
    match e {
        BinlogEvent::TableMapEvent(_) => (name, pos),
        BinlogEvent::RotateEvent(x) => (x.binlog_filename@, x.binlog_position as u32),
        _ => (name, if h.next_event_position > 0 { h.next_event_position } else { pos }),
    }
}
/// the event ends the transaction (or is one by itself); open: a transaction is open before it
pub open spec fn ends(e: BinlogEvent, open: bool) -> bool {
    match e {
        BinlogEvent::XidEvent(_) => true,
        BinlogEvent::QueryEvent(x) => x.sql_statement@.len() > 0 && x.sql_statement@ != "BEGIN"@
            && (x.sql_statement@ == "COMMIT"@ || x.sql_statement@ == "ROLLBACK"@ || !open),
        _ => false,
    }
}
/// a transaction is open after the event
pub open spec fn open_after(e: BinlogEvent, open: bool) -> bool {
    match e {
        BinlogEvent::MariaDbGtidEvent(x) => x.flags % 2 == 0,
        BinlogEvent::QueryEvent(x) => x.sql_statement@ == "BEGIN"@ || (open && !ends(e, open)),
        _ => open && !ends(e, open),
    }
}
/// the last GTID seen
pub open spec fn ma_after(e: BinlogEvent, g: Option<MaGtid>) -> Option<MaGtid> { match e { BinlogEvent::MariaDbGtidEvent(x) => Some(x.gtid), _ => g } }
pub open spec fn my_after(e: BinlogEvent, g: Option<MyGtid>) -> Option<MyGtid> { match e { BinlogEvent::MySqlGtidEvent(x) => Some(x.gtid), _ => g } }
/// the set with one more GTID
pub open spec fn set_with(b: GtidSet, a: GtidSet, g: MyGtid) -> bool {
    gset_ok(a)
    && gset_v(a) == gset_v(b).insert(g.source_id.uuid@, (g.source_id.data@, gset_v(a)[g.source_id.uuid@].1))
    && forall|x: int| #[trigger] holds(gset_v(a), g.source_id.uuid@, x) <==> holds(gset_v(b), g.source_id.uuid@, x) || x == g.transaction_id
}
pub open spec fn known(l: Seq<MaGtid>, d: u32) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).domain_id == d }
/// the list with the GTID of its domain replaced or added
pub open spec fn list_with(b: GtidList, a: GtidList, g: MaGtid) -> bool {
    distinct(list_v(a.gtids@))
    && if known(b.gtids@, g.domain_id) {
        a.gtids@.len() == b.gtids@.len() && forall|i: int| 0 <= i < b.gtids@.len() ==> #[trigger] a.gtids@[i] == (if b.gtids@[i].domain_id == g.domain_id { g } else { b.gtids@[i] })
    } else { a.gtids@ == b.gtids@.push(g) }
}
pub open spec fn set_after(b: Option<GtidSet>, a: Option<GtidSet>, g: Option<MyGtid>, end: bool) -> bool {
    if end && b is Some && g is Some { a is Some && set_with(b->Some_0, a->Some_0, g->Some_0) } else { a == b }
}
pub open spec fn list_after(b: Option<GtidList>, a: Option<GtidList>, g: Option<MaGtid>, end: bool) -> bool {
    if end && b is Some && g is Some { a is Some && list_with(b->Some_0, a->Some_0, g->Some_0) } else { a == b }
}
pub open spec fn my_ok(g: MyGtid) -> bool { uuid_ok(g.source_id) && g.transaction_id < u64::MAX }
/// the GTID state is well formed (as parsing and adding make it)
pub open spec fn client_ok(c: BinlogClient) -> bool {
    (c.options.binlog.gtid_set is Some ==> gset_ok(c.options.binlog.gtid_set->Some_0))
    && (c.options.binlog.gtid_list is Some ==> distinct(list_v(c.options.binlog.gtid_list->Some_0.gtids@)))
    && (c.mysql_gtid is Some ==> my_ok(c.mysql_gtid->Some_0))
}
pub open spec fn event_ok(e: BinlogEvent) -> bool { e is MySqlGtidEvent ==> my_ok(e->MySqlGtidEvent_0.gtid) }
}
}


// The event parser: event types, checksums, the table maps it keeps.
pub mod spec_parser {
use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::constants::checksum_type::ChecksumType;
#[allow(unused_imports)] use crate::events::event_type::EventType;
#[allow(unused_imports)] use crate::events::event_header::EventHeader;
#[allow(unused_imports)] use crate::events::event_parser::EventParser;
#[allow(unused_imports)] use crate::events::binlog_event::BinlogEvent;
#[allow(unused_imports)] use crate::shim::std::collections::HashMap;
verus! {
broadcast use {crate::shim::group_shim, vstd::group_vstd_default};

pub enum EventV {
    Unknown, Delete(RowsV), Update(UpdateV), Write(RowsV), Xid(nat), IntVar((u8, nat)), UserVar(UserVarV), Query(QueryV), TableMap(TmV),
    Rotate(RotateV), RowsQuery(Seq<char>), Heartbeat(Seq<char>), Format(FdeV), MyGtid((u8, Seq<u8>, nat)), PrevGtids(Map<Seq<char>, SetV>),
    MaGtid((u8, nat, nat, nat)), MaList(Seq<MaV>),
}
pub open spec fn event_v(e: BinlogEvent) -> EventV {
    match e {
        BinlogEvent::UnknownEvent => EventV::Unknown,
        BinlogEvent::DeleteRowsEvent(x) => EventV::Delete(delete_v(x)),
        BinlogEvent::UpdateRowsEvent(x) => EventV::Update(update_v(x)),
        BinlogEvent::WriteRowsEvent(x) => EventV::Write(write_v(x)),
        BinlogEvent::XidEvent(x) => EventV::Xid(x.xid as nat),
        BinlogEvent::IntVarEvent(x) => EventV::IntVar(intvar_v(x)),
        BinlogEvent::UserVarEvent(x) => EventV::UserVar(uservar_v(x)),
        BinlogEvent::QueryEvent(x) => EventV::Query(query_v(x)),
        BinlogEvent::TableMapEvent(x) => EventV::TableMap(tm_v(x)),
        BinlogEvent::RotateEvent(x) => EventV::Rotate(rotate_v(x)),
        BinlogEvent::RowsQueryEvent(x) => EventV::RowsQuery(x.query@),
        BinlogEvent::HeartbeatEvent(x) => EventV::Heartbeat(x.binlog_filename@),
        BinlogEvent::FormatDescriptionEvent(x) => EventV::Format(fde_v(x)),
        BinlogEvent::MySqlGtidEvent(x) => EventV::MyGtid(my_gtid_v(x)),
        BinlogEvent::MySqlPrevGtidsEvent(x) => EventV::PrevGtids(gset_v(x.gtid_set)),
        BinlogEvent::MariaDbGtidEvent(x) => EventV::MaGtid(ma_gtid_v(x)),
        BinlogEvent::MariaDbGtidListEvent(x) => EventV::MaList(list_v(x.gtid_list.gtids@)),
    }
}
pub open spec fn first<V>(x: Dec<V>) -> Option<V> { match x { Some((v, _)) => Some(v), None => None } }
/// the event that a body means, given the known table maps
pub open spec fn s_event(h: EventHeader, d: Seq<u8>, maps: Map<u64, TmV>) -> Option<EventV> {
    let c = h.event_type;
    if c == 2 { match s_query(d, 0) { Some((v, _)) => Some(EventV::Query(v)), None => None } }
    else if c == 4 { match s_rotate(d, 0) { Some((v, _)) => Some(EventV::Rotate(v)), None => None } }
    else if c == 5 { match s_intvar(d, 0) { Some((v, _)) => Some(EventV::IntVar(v)), None => None } }
    else if c == 14 { match s_uservar(d, 0) { Some((v, _)) => Some(EventV::UserVar(v)), None => None } }
    else if c == 15 { match s_fde(d, h.event_length as nat) { Some(v) => Some(EventV::Format(v)), None => None } }
    else if c == 16 { match s_xid(d, 0) { Some((v, _)) => Some(EventV::Xid(v)), None => None } }
    else if c == 19 { match s_table_map(d) { Some(v) => Some(EventV::TableMap(v)), None => None } }
    else if c == 23 || c == 30 { match s_rows_event(d, maps, if c == 23 { 1 } else { 2 }) { Some(v) => Some(EventV::Write(v)), None => None } }
    else if c == 24 || c == 31 { match s_update_event(d, maps, if c == 24 { 1 } else { 2 }) { Some(v) => Some(EventV::Update(v)), None => None } }
    else if c == 25 || c == 32 { match s_rows_event(d, maps, if c == 25 { 1 } else { 2 }) { Some(v) => Some(EventV::Delete(v)), None => None } }
    else if c == 27 { match s_rest(d, 0) { Some((v, _)) => Some(EventV::Heartbeat(v)), None => None } }
    else if c == 29 { match s_rest(d, 1) { Some((v, _)) => Some(EventV::RowsQuery(v)), None => None } }
    else if c == 33 { match s_my_gtid(d, 0) { Some(v) => Some(EventV::MyGtid(v)), None => None } }
    else if c == 35 { match s_prev_gtids(d, 0) { Some(v) => Some(EventV::PrevGtids(v)), None => None } }
    else if c == 160 { match s_rest(d, 0) { Some((v, _)) => Some(EventV::RowsQuery(v)), None => None } }
    else if c == 162 { match s_ma_gtid(d, 0, h.server_id) { Some(v) => Some(EventV::MaGtid(v)), None => None } }
    else if c == 163 { match s_list_event(d, 0) { Some(v) => Some(EventV::MaList(v)), None => None } }
    else { Some(EventV::Unknown) }
}
/// the body of an event: without the four bytes of the checksum exactly if checksums are on
pub open spec fn s_body(c: ChecksumType, d: Seq<u8>) -> Option<Seq<u8>> {
    match c { ChecksumType::None => Some(d), ChecksumType::Crc32 => if d.len() < 4 { None } else { Some(d.take(d.len() - 4)) } }
}
pub struct ParserV { pub checksum: ChecksumType, pub maps: Map<u64, TmV> }
pub open spec fn parser_v(p: EventParser) -> ParserV { ParserV { checksum: p.checksum_type, maps: maps_v(p.table_map) } }
pub open spec fn parser_ok(p: EventParser) -> bool { forall|k: u64| p.table_map.m().contains_key(k) ==> tm_ok(tm_v(#[trigger] p.table_map.m()[k])) }
/// the result of parsing an event and what the parser knows afterwards
pub open spec fn s_parse(s: ParserV, h: EventHeader, d: Seq<u8>) -> Option<EventV> {
    match s_body(s.checksum, d) { None => None, Some(b) => s_event(h, b, s.maps) }
}
pub open spec fn s_next(s: ParserV, h: EventHeader, d: Seq<u8>) -> ParserV {
    match s_parse(s, h, d) {
        Some(EventV::Format(f)) => ParserV { checksum: f.checksum, maps: s.maps },
        Some(EventV::TableMap(t)) => ParserV { checksum: s.checksum, maps: s.maps.insert(t.id as u64, t) },
        _ => s,
    }
}
}
}

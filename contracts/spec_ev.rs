
// Event header and events without rows.
pub mod spec_ev {
use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::shim::std::collections::HashMap;
#[allow(unused_imports)] use crate::constants::checksum_type::ChecksumType;
#[allow(unused_imports)] use crate::events::event_header::EventHeader;
#[allow(unused_imports)] use crate::events::query_event::QueryEvent;
#[allow(unused_imports)] use crate::events::rotate_event::RotateEvent;
#[allow(unused_imports)] use crate::events::uservar_event::*;
#[allow(unused_imports)] use crate::events::format_description_event::FormatDescriptionEvent;
#[allow(unused_imports)] use crate::events::intvar_event::IntVarEvent;
#[allow(unused_imports)] use crate::events::xid_event::XidEvent;
verus! {
broadcast use {crate::shim::group_shim, vstd::group_vstd_default};

/// the fields of an event header: timestamp, type, server id, event length, next position, flags
pub open spec fn s_header(d: Seq<u8>) -> Option<EventHeader> {
    if d.len() >= 19 {
        Some(EventHeader {
            timestamp: le(d, 0, 4) as u32,
            event_type: d[4],
            server_id: le(d, 5, 4) as u32,
            event_length: le(d, 9, 4) as u32,
            next_event_position: le(d, 13, 4) as u32,
            event_flags: le(d, 17, 2) as u16,
        })
    } else { None }
}

// ---------------------------------------------------------------- query
pub struct QueryV { pub thread_id: nat, pub duration: nat, pub error_code: nat, pub status: Seq<u8>, pub database: Seq<char>, pub sql: Seq<char> }
pub open spec fn query_v(e: QueryEvent) -> QueryV {
    QueryV { thread_id: e.thread_id as nat, duration: e.duration as nat, error_code: e.error_code as nat, status: e.status_variables@,
        database: e.database_name@, sql: e.sql_statement@ }
}
pub open spec fn s_query(d: Seq<u8>, p: int) -> Dec<QueryV> {
    if !have(d, p, 13) { None } else {
        let ns = le(d, p + 11, 2) as int;
        match s_bytes(d, p + 13, ns) {
            None => None,
            Some((status, q)) => match s_text(d, q, d[p + 8] as int) {
                None => None,
                Some((database, q)) => match s_rest(d, q + 1) {   // the name is followed by a zero byte
                    None => None,
                    Some((sql, q)) => Some((QueryV { thread_id: le(d, p, 4), duration: le(d, p + 4, 4), error_code: le(d, p + 9, 2), status, database, sql }, q)),
                },
            },
        }
    }
}

// ---------------------------------------------------------------- rotate
pub struct RotateV { pub file: Seq<char>, pub position: nat }
pub open spec fn rotate_v(e: RotateEvent) -> RotateV { RotateV { file: e.binlog_filename@, position: e.binlog_position as nat } }
pub open spec fn s_rotate(d: Seq<u8>, p: int) -> Dec<RotateV> {
    if !have(d, p, 8) { None } else {
        match s_rest(d, p + 8) { None => None, Some((file, q)) => Some((RotateV { file, position: le(d, p, 8) }, q)) }
    }
}

// ---------------------------------------------------------------- intvar, xid
pub open spec fn s_intvar(d: Seq<u8>, p: int) -> Dec<(u8, nat)> {
    if !have(d, p, 9) { None } else { Some(((d[p], le(d, p + 1, 8)), p + 9)) }
}
pub open spec fn intvar_v(e: IntVarEvent) -> (u8, nat) { (e.intvar_type, e.value as nat) }
pub open spec fn s_xid(d: Seq<u8>, p: int) -> Dec<nat> { s_num(false, d, p, 8) }

// ---------------------------------------------------------------- user variable
pub struct VarV { pub var_type: u8, pub collation: nat, pub value: Seq<char>, pub flags: u8 }
pub struct UserVarV { pub name: Seq<char>, pub value: Option<VarV> }
pub open spec fn var_v(e: VariableValue) -> VarV { VarV { var_type: e.var_type, collation: e.collation as nat, value: e.value@, flags: e.flags } }
pub open spec fn uservar_v(e: UserVarEvent) -> UserVarV {
    UserVarV { name: e.name@, value: match e.value { None => None, Some(v) => Some(var_v(v)) } }
}
pub open spec fn s_uservar(d: Seq<u8>, p: int) -> Dec<UserVarV> {
    if !have(d, p, 4) { None } else {
        match s_text(d, p + 4, le(d, p, 4) as int) {
            None => None,
            Some((name, q)) => if !have(d, q, 1) { None }
                else if d[q] != 0 { Some((UserVarV { name, value: None }, q + 1)) }
                else if !have(d, q + 1, 9) { None }
                else {
                    match s_text(d, q + 10, le(d, q + 6, 4) as int) {
                        None => None,
                        Some((value, r)) => if !have(d, r, 1) { None } else {
                            Some((UserVarV { name, value: Some(VarV { var_type: d[q + 1], collation: le(d, q + 2, 4), value, flags: d[r] }) }, r + 1))
                        },
                    }
                },
        }
    }
}

// ---------------------------------------------------------------- format description
pub struct FdeV { pub version: nat, pub server: Seq<char>, pub checksum: ChecksumType }
pub open spec fn fde_v(e: FormatDescriptionEvent) -> FdeV { FdeV { version: e.binlog_version as nat, server: e.server_version@, checksum: e.checksum_type } }
pub open spec fn s_checksum(code: u8) -> Option<ChecksumType> {
    if code == 0 { Some(ChecksumType::None) } else if code == 1 { Some(ChecksumType::Crc32) } else { None }
}
/// bytes before the first zero byte
pub open spec fn before0(b: Seq<u8>) -> Seq<u8> { cut0(until(b, 0, 0)) }
pub proof fn lemma_before0(b: Seq<u8>, z: int)
    requires 0 <= z <= b.len(), forall|i: int| 0 <= i < z ==> b[i] != 0, z < b.len() ==> b[z] == 0
    ensures before0(b) == b.take(z)
{
    lemma_until(b, 0, z, 0);
    assert(b.subrange(0, z) =~= b.take(z));
    if z < b.len() { assert(b.subrange(0, z + 1).drop_last() =~= b.take(z)); }
}
/// the first x at or after p is at z (none if z is the end)
pub proof fn lemma_until(b: Seq<u8>, p: int, z: int, x: u8)
    requires 0 <= p <= z <= b.len(), forall|i: int| p <= i < z ==> b[i] != x, z < b.len() ==> b[z] == x
    ensures until(b, p, x) == b.subrange(p, if z < b.len() { z + 1 } else { z })
    decreases b.len() - p
{
    let e = if z < b.len() { z + 1 } else { z };
    if p < z {
        lemma_until(b, p + 1, z, x);
        assert(b.subrange(p, e) =~= seq![b[p]] + b.subrange(p + 1, e));
    } else if p < b.len() { assert(b.subrange(p, e) =~= seq![x]); }
    else { assert(b.subrange(p, e) =~= Seq::empty()); }
}
pub open spec fn s_fde(d: Seq<u8>, event_length: nat) -> Option<FdeV> {
    // version 2, server version 50, timestamp 4, header length 1, then one length per event type, then the checksum algorithm
    if d.len() < 72 || !valid_utf8(before0(d.subrange(2, 52))) { None } else {
        let payload = d[71] as int;   // length of the format description event (type 15) without header and checksum part
        let server = decode_utf8(before0(d.subrange(2, 52)));
        if payload == (if event_length >= 19 { event_length - 19 } else { 0 }) {
            Some(FdeV { version: le(d, 0, 2), server, checksum: ChecksumType::None })
        } else if d.len() <= payload { None }
        else {
            match s_checksum(d[payload]) { None => None, Some(c) => Some(FdeV { version: le(d, 0, 2), server, checksum: c }) }
        }
    }
}
}
}


//@fn events::event_header::EventHeader::parse
//@ret r
//@ensures
    [C09,C10,C11] match s_header(slice@) { Some(h) => r is Ok && r->Ok_0 == h, None => r is Err },

//@fn events::query_event::QueryEvent::parse
//@ret r
//@requires
    alloc_ok(old(cursor).d()), old(cursor).p() == 0,
//@ensures
    [C11] match s_query(old(cursor).d(), old(cursor).p()) {
        Some((v, q)) => r is Ok && query_v(r->Ok_0) == v,
        None => r is Err,
    },

//@fn events::rotate_event::RotateEvent::parse
//@ret r
//@ensures
    [C11] match s_rotate(old(cursor).d(), old(cursor).p()) { Some((v, q)) => r is Ok && rotate_v(r->Ok_0) == v, None => r is Err },

//@fn events::intvar_event::IntVarEvent::parse
//@ret r
//@ensures
    [C11] match s_intvar(old(cursor).d(), old(cursor).p()) { Some((v, q)) => r is Ok && intvar_v(r->Ok_0) == v, None => r is Err },

//@fn events::xid_event::XidEvent::parse
//@ret r
//@ensures
    [C11] match s_xid(old(cursor).d(), old(cursor).p()) { Some((v, q)) => r is Ok && r->Ok_0.xid == v, None => r is Err },

//@fn events::uservar_event::UserVarEvent::parse
//@ret r
//@requires
    alloc_ok(old(cursor).d()), old(cursor).p() == 0,
//@ensures
    [C11] match s_uservar(old(cursor).d(), old(cursor).p()) { Some((v, q)) => r is Ok && uservar_v(r->Ok_0) == v, None => r is Err },

//@fn events::heartbeat_event::HeartbeatEvent::parse
//@ret r
//@ensures
    [C11] match s_rest(old(cursor).d(), old(cursor).p()) { Some((v, q)) => r is Ok && r->Ok_0.binlog_filename@ == v, None => r is Err },

//@fn events::rows_query_event::RowsQueryEvent::parse_mysql
//@ret r
//@requires
    old(cursor).p() == 0,
//@ensures
    [C11] match s_rest(old(cursor).d(), old(cursor).p() + 1) { Some((v, q)) => r is Ok && r->Ok_0.query@ == v, None => r is Err },

//@fn events::rows_query_event::RowsQueryEvent::parse_mariadb
//@ret r
//@ensures
    [C11] match s_rest(old(cursor).d(), old(cursor).p()) { Some((v, q)) => r is Ok && r->Ok_0.query@ == v, None => r is Err },

//@fn events::format_description_event::FormatDescriptionEvent::parse
//@ret r
//@requires
    old(cursor).p() == 0,
//@ensures
    [C11,C07] match s_fde(old(cursor).d(), header.event_length as nat) { Some(v) => r is Ok && fde_v(r->Ok_0) == v, None => r is Err },
//@closure 0
    |x: &u8| -> (r: bool) ensures r == (*x == 0)
//@at before-call from_utf8
    proof { lemma_before0(server_version@, slice@.len() as int); assert(slice@ =~= server_version@.take(slice@.len() as int)); }

//@fn constants::checksum_type::ChecksumType::from_code
//@ret r
//@ensures
    [C07,C11] match s_checksum(code) { Some(c) => r is Ok && r->Ok_0 == c, None => r is Err },

//@fn constants::checksum_type::ChecksumType::from_name
//@ret r
//@ensures
    [C07,C19] match (if name@ == "NONE"@ { Some(ChecksumType::None) } else if name@ == "CRC32"@ { Some(ChecksumType::Crc32) } else { None }) {
        Some(c) => r is Ok && r->Ok_0 == c,
        None => r is Err,
    },
//@at entry
    broadcast use crate::shim::str_ext;

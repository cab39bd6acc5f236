
//@fn events::event_type::EventType::from_code
//@ret r
//@ensures
    [C08,C11] r == (match code {
        2u8 => EventType::QueryEvent, 3u8 => EventType::StopEvent, 4u8 => EventType::RotateEvent, 5u8 => EventType::IntvarEvent, 13u8 => EventType::RandEvent,
        14u8 => EventType::UserVarEvent, 15u8 => EventType::FormatDescriptionEvent, 16u8 => EventType::XidEvent, 19u8 => EventType::TableMapEvent,
        23u8 => EventType::WriteRowsEventV1, 24u8 => EventType::UpdateRowsEventV1, 25u8 => EventType::DeleteRowsEventV1, 27u8 => EventType::HeartbeatEvent,
        29u8 => EventType::MySqlRowsQueryEvent, 30u8 => EventType::MySqlWriteRowsEventV2, 31u8 => EventType::MySqlUpdateRowsEventV2,
        32u8 => EventType::MySqlDeleteRowsEventV2, 33u8 => EventType::MySqlGtidEvent, 35u8 => EventType::MySqlPreviousGtidsEvent, 38u8 => EventType::MySqlXaPrepare,
        160u8 => EventType::MariaDbAnnotateRowsEvent, 161u8 => EventType::MariaDbBinlogCheckpointEvent, 162u8 => EventType::MariaDbGtidEvent,
        163u8 => EventType::MariaDbGtidListEvent, 164u8 => EventType::MariaDbStartEncryptionEvent, _ => EventType::Unknown }),

//@fn events::event_parser::EventParser::new
//@ret r
//@ensures
    [C07] r.checksum_type == ChecksumType::None,
    [C08] parser_v(r).maps =~= Map::<u64, TmV>::empty(),
    [C08] parser_ok(r),

//@fn events::event_parser::EventParser::parse_event
//@ret r
//@requires
    alloc_ok(slice@), parser_ok(*old(self)),
//@ensures
    [C04,C05,C06,C07,C08,C11,C12] match s_parse(parser_v(*old(self)), *header, slice@) { Some(v) => r is Ok && event_v(r->Ok_0) == v, None => r is Err },
    [C07] final(self).checksum_type == s_next(parser_v(*old(self)), *header, slice@).checksum,
    [C08] maps_v(final(self).table_map) =~= s_next(parser_v(*old(self)), *header, slice@).maps,
    [C08] parser_ok(*final(self)),
    [C12,C13] r is Ok && r->Ok_0 is MySqlGtidEvent ==> uuid_ok(r->Ok_0->MySqlGtidEvent_0.gtid.source_id),
//@at entry
    hide(s_query); hide(s_rotate); hide(s_intvar); hide(s_uservar); hide(s_fde); hide(s_xid); hide(s_table_map); hide(s_rows_event); hide(s_update_event);
    hide(s_rest); hide(s_my_gtid); hide(s_prev_gtids); hide(s_ma_gtid); hide(s_list_event); hide(write_v); hide(update_v); hide(delete_v); hide(query_v);


//@fn binlog_reader::BinlogReader::new
//@ret r
//@requires
    event_room(),
//@ensures
    [C09] r is Ok ==> stream.rest().len() >= 4 && stream.rest().take(4) == magic() && r->Ok_0.stream.rest() == stream.rest().skip(4),
    [C09] r is Ok ==> reader_ok(r->Ok_0) && parser_v(r->Ok_0.parser).maps =~= Map::<u64, TmV>::empty() && r->Ok_0.parser.checksum_type == crate::constants::checksum_type::ChecksumType::None,
    [C09] r is Ok ==> r->Ok_0.stream.failed() == stream.failed(),
    [C09] r is Err ==> stream.rest().len() < 4 || stream.rest().take(4) != magic() || !is_eof(r->Err_0) && r->Err_0 is IoError,

//@fn binlog_reader::BinlogReader::read_events
//@ret r
//@ensures
    [C09] r == self,

//@fn binlog_reader::BinlogReader::read_event
//@ret r
//@requires
    event_room(), reader_ok(*old(self)),
//@ensures
    [C09] reader_ok(*final(self)),
    [C09] match r {
        Ok((h, e)) => {
            let n = s_next_in_file(old(self).stream.rest());
            &&& n is Event && n->Event_0 == h
            &&& s_parse(parser_v(old(self).parser), h, n->Event_1) == Some(event_v(e))
            &&& final(self).stream.rest() == n->Event_2 && final(self).stream.failed() == old(self).stream.failed()
            &&& final(self).parser.checksum_type == s_next(parser_v(old(self).parser), h, n->Event_1).checksum
            &&& maps_v(final(self).parser.table_map) =~= s_next(parser_v(old(self).parser), h, n->Event_1).maps
        },
        Err(x) => final(self).stream.failed() && !is_eof(x) || match s_next_in_file(old(self).stream.rest()) {
            NextV::End => is_eof(x),
            NextV::BadLength => !is_eof(x),
            NextV::Event(h, b, rest) => {
                &&& !is_eof(x)
                &&& s_parse(parser_v(old(self).parser), h, b) is None
                &&& final(self).stream.rest() == rest
                &&& final(self).parser.checksum_type == old(self).parser.checksum_type && maps_v(final(self).parser.table_map) =~= maps_v(old(self).parser.table_map)
            },
        },
    },

//@at entry
    hide(s_parse); hide(event_v); broadcast use group_skip;

//@fn binlog_reader::malformed_event
//@ret r
//@ensures
    [C09] !is_eof(r),
    [C09] !is_eof(error) ==> r == error,

//@fn binlog_reader::BinlogReader@Iterator::next
//@ret r
//@requires
    event_room(), reader_ok(*old(self)),
//@ensures
    [C09] reader_ok(*final(self)),
    [C09] r is None ==> s_next_in_file(old(self).stream.rest()) is End,
    [C09] r is Some && r->Some_0 is Ok ==> {
            let h = r->Some_0->Ok_0.0;
            let e = r->Some_0->Ok_0.1;
            let n = s_next_in_file(old(self).stream.rest());
            &&& n is Event && n->Event_0 == h
            &&& s_parse(parser_v(old(self).parser), h, n->Event_1) == Some(event_v(e))
            &&& final(self).stream.rest() == n->Event_2 && final(self).stream.failed() == old(self).stream.failed()
            &&& final(self).parser.checksum_type == s_next(parser_v(old(self).parser), h, n->Event_1).checksum
            &&& maps_v(final(self).parser.table_map) =~= s_next(parser_v(old(self).parser), h, n->Event_1).maps
        },
    [C09] r is Some && r->Some_0 is Err ==> final(self).stream.failed() || match s_next_in_file(old(self).stream.rest()) {
            NextV::End => false,
            NextV::BadLength => true,
            NextV::Event(h, b, rest) => s_parse(parser_v(old(self).parser), h, b) is None && final(self).stream.rest() == rest,
        },

//@fn binlog_client::BinlogClient::new
//@ret r
//@ensures
    [C17] r.options == options,
    [C18] !r.transaction && r.maria_gtid is None && r.mysql_gtid is None,

//@fn binlog_client::BinlogClient::commit
//@requires
    client_ok(*old(self)), event_ok(*event),
//@ensures
    [C17] same_options(final(self).options, old(self).options),
    [C17] (final(self).options.binlog.filename@, final(self).options.binlog.position) == s_position(old(self).options.binlog.filename@, old(self).options.binlog.position, *header, *event),
    [C17,C18] old(self).options.binlog.starting_strategy != StartingStrategy::FromGtid ==> final(self).options.binlog.gtid_set == old(self).options.binlog.gtid_set
        && final(self).options.binlog.gtid_list == old(self).options.binlog.gtid_list,
    [C17,C18] old(self).options.binlog.starting_strategy == StartingStrategy::FromGtid ==>
        set_after(old(self).options.binlog.gtid_set, final(self).options.binlog.gtid_set, my_after(*event, old(self).mysql_gtid), ends(*event, old(self).transaction))
        && list_after(old(self).options.binlog.gtid_list, final(self).options.binlog.gtid_list, ma_after(*event, old(self).maria_gtid), ends(*event, old(self).transaction)),
    [C18] old(self).options.binlog.starting_strategy == StartingStrategy::FromGtid ==> final(self).transaction == open_after(*event, old(self).transaction)
        && final(self).maria_gtid == ma_after(*event, old(self).maria_gtid) && final(self).mysql_gtid == my_after(*event, old(self).mysql_gtid),
    [C18] client_ok(*final(self)),

//@fn binlog_client::BinlogClient::update_gtid_position
//@requires
    client_ok(*old(self)), event_ok(*event),
//@ensures
    [C17,C18] same_options(final(self).options, old(self).options),
    [C17] final(self).options.binlog.filename == old(self).options.binlog.filename && final(self).options.binlog.position == old(self).options.binlog.position,
    [C17,C18] old(self).options.binlog.starting_strategy != StartingStrategy::FromGtid ==> *final(self) == *old(self),
    [C17,C18] old(self).options.binlog.starting_strategy == StartingStrategy::FromGtid ==>
        set_after(old(self).options.binlog.gtid_set, final(self).options.binlog.gtid_set, my_after(*event, old(self).mysql_gtid), ends(*event, old(self).transaction))
        && list_after(old(self).options.binlog.gtid_list, final(self).options.binlog.gtid_list, ma_after(*event, old(self).maria_gtid), ends(*event, old(self).transaction)),
    [C18] old(self).options.binlog.starting_strategy == StartingStrategy::FromGtid ==> final(self).transaction == open_after(*event, old(self).transaction)
        && final(self).maria_gtid == ma_after(*event, old(self).maria_gtid) && final(self).mysql_gtid == my_after(*event, old(self).mysql_gtid),
    [C18] client_ok(*final(self)),
//@at entry
    proof { reveal_strlit(""); reveal_strlit("BEGIN"); reveal_strlit("COMMIT"); reveal_strlit("ROLLBACK"); }

//@fn binlog_client::BinlogClient::update_binlog_position
//@ensures
    [C17] same_options(final(self).options, old(self).options),
    [C17] (final(self).options.binlog.filename@, final(self).options.binlog.position) == s_position(old(self).options.binlog.filename@, old(self).options.binlog.position, *header, *event),
    [C17,C18] final(self).options.binlog.gtid_set == old(self).options.binlog.gtid_set && final(self).options.binlog.gtid_list == old(self).options.binlog.gtid_list,
    [C17,C18] final(self).transaction == old(self).transaction && final(self).maria_gtid == old(self).maria_gtid && final(self).mysql_gtid == old(self).mysql_gtid,

//@fn binlog_client::BinlogClient::commit_gtid
//@requires
    client_ok(*old(self)),
//@ensures
    [C17,C18] same_options(final(self).options, old(self).options),
    [C17] final(self).options.binlog.filename == old(self).options.binlog.filename && final(self).options.binlog.position == old(self).options.binlog.position,
    [C17,C18] set_after(old(self).options.binlog.gtid_set, final(self).options.binlog.gtid_set, old(self).mysql_gtid, true),
    [C17,C18] list_after(old(self).options.binlog.gtid_list, final(self).options.binlog.gtid_list, old(self).maria_gtid, true),
    [C18] !final(self).transaction && final(self).maria_gtid == old(self).maria_gtid && final(self).mysql_gtid == old(self).mysql_gtid,
    [C18] client_ok(*final(self)),

//@fn errors::Error@From<io::Error>::from
//@ret r
//@ensures
    [C09,C10,C23,C25] r == Error::IoError(error),

//@fn errors::Error@From<Utf8Error>::from
//@ret r
//@ensures
    [C09,C10,C23,C25] r == Error::Utf8Error(error),

//@fn errors::Error@From<FromUtf8Error>::from
//@ret r
//@ensures
    [C09,C10,C23,C25] r == Error::FromUtf8Error(error),

//@fn errors::Error@From<FromHexError>::from
//@ret r
//@ensures
    [C09,C10,C23,C25] r == Error::FromHexError(error),

//@fn errors::Error@From<ParseIntError>::from
//@ret r
//@ensures
    [C09,C10,C23,C25] r == Error::ParseIntError(error),

//@fn errors::Error@From<ErrorStack>::from
//@ret r
//@ensures
    [C09,C10,C23,C25] r == Error::ErrorStack(error),

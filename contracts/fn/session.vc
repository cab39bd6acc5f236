
//@fn packet_channel::PacketChannel::new
//@ret r
//@requires
    options_ok(*options),
//@ensures
    [C22,C23] r is Ok ==> live(r->Ok_0),
    [C19,C21] r is Ok ==> r->Ok_0.stream.rx() == r->Ok_0.stream.first() && r->Ok_0.stream.tx() == Seq::<u8>::empty(),
    [C19] r is Ok ==> r->Ok_0.stream.address() =~= options.hostname@ + ":"@ + dec(options.port as nat),

//@fn packet_channel::PacketChannel::read_packet
//@ret r
//@requires
    event_room(),
//@ensures
    kept(*old(self), *final(self)),
    [C10,C21,C23] final(self).stream.tx() == old(self).stream.tx(),
    [C10,C21,C23] match r {
        Ok((body, seq)) => next_pkt(old(self).stream.rx()) == Some(Pkt { body: body@, seq, rest: final(self).stream.rx() }),
        Err(_) => final(self).stream.broken() || next_pkt(old(self).stream.rx()) is None,
    },
    [C10,C21,C23] r is Ok ==> 0 < r->Ok_0.0@.len() < 0x100_0000 && final(self).stream.rx().len() < old(self).stream.rx().len(),
    r is Ok ==> final(self).stream.last() == r->Ok_0.0@ && final(self).stream.broken() == old(self).stream.broken(),
//@at entry
    broadcast use group_skip;
    proof { reveal_with_fuel(le, 4); }

//@fn packet_channel::PacketChannel::write_packet
//@ret r
//@requires
    event_room(),
    [C23] live(*old(self)),
//@ensures
    kept(*old(self), *final(self)),
    [C19,C21,C22] final(self).stream.rx() == old(self).stream.rx(),
    [C19,C21,C22] r is Ok ==> packet@.len() < 0x100_0000 && final(self).stream.tx() =~= old(self).stream.tx() + frame(packet@, seq_num),
    [C19,C21,C22] r is Ok ==> final(self).stream.last() == old(self).stream.last() && !final(self).stream.broken(),
    [C19,C21,C22] r is Err ==> stopped(*final(self), send(at(*old(self)), packet@, seq_num)),
    [C19,C21,C22] r is Err ==> final(self).stream.broken() || packet@.len() >= 0x100_0000,
//@at entry
    broadcast use group_ext;
    proof { lemma_le_bytes(packet@.len(), 3); }

//@fn packet_channel::PacketChannel::upgrade_to_ssl
//@ensures
    [C22] false,

//@fn connect::BinlogClient::get_auth_plugin
//@ret r
//@ensures
    [C22] match s_plugin(auth_plugin_name@) { Some(p) => r is Ok && r->Ok_0 == p, None => r is Err },
//@at entry
    proof { reveal_strlit("mysql_native_password"); reveal_strlit("caching_sha2_password"); }

//@fn connect::BinlogClient::authenticate_sha_256
//@ret r
//@requires
    event_room(), options_ok(self.options),
    [C23] live(*old(channel)),
    packet@.len() > 0,
//@ensures
    kept(*old(channel), *final(channel)),
    [C22,C23] r is Ok ==> t_sha(at(*old(channel)), self.options, packet@, scramble@, seq_num, use_ssl).ok && live(*final(channel)),
    [C22] r is Ok ==> exactly(*final(channel), t_sha(at(*old(channel)), self.options, packet@, scramble@, seq_num, use_ssl)),
    [C22,C23] r is Err ==> stopped(*final(channel), t_sha(at(*old(channel)), self.options, packet@, scramble@, seq_num, use_ssl)),
    [C22] r is Err ==> excused(*final(channel), t_sha(at(*old(channel)), self.options, packet@, scramble@, seq_num, use_ssl)),
//@at entry
    hide(next_pkt); hide(frame); hide(ext); hide(utf8);
    broadcast use {group_ext, group_run, ext_sha, ext_switch, ext_auth};

//@fn connect::BinlogClient::handle_auth_plugin_switch
//@ret r
//@requires
    event_room(), options_ok(self.options),
    [C23] live(*old(channel)),
//@ensures
    kept(*old(channel), *final(channel)),
    [C22,C23] r is Ok ==> t_switch(at(*old(channel)), self.options, switch_packet.auth_plugin_name@, switch_packet.auth_plugin_data@, seq_num, use_ssl).ok && live(*final(channel)),
    [C22] r is Ok ==> exactly(*final(channel), t_switch(at(*old(channel)), self.options, switch_packet.auth_plugin_name@, switch_packet.auth_plugin_data@, seq_num, use_ssl)),
    [C22,C23] r is Err ==> stopped(*final(channel), t_switch(at(*old(channel)), self.options, switch_packet.auth_plugin_name@, switch_packet.auth_plugin_data@, seq_num, use_ssl)),
    [C22] r is Err ==> excused(*final(channel), t_switch(at(*old(channel)), self.options, switch_packet.auth_plugin_name@, switch_packet.auth_plugin_data@, seq_num, use_ssl)),
//@at entry
    hide(next_pkt); hide(frame); hide(ext); hide(utf8); hide(t_sha); hide(auth_answer);
    broadcast use {group_ext, group_run, ext_sha, ext_switch, ext_auth};

//@fn connect::BinlogClient::authenticate
//@ret r
//@requires
    event_room(), options_ok(self.options),
    [C23] live(*old(channel)),
//@ensures
    kept(*old(channel), *final(channel)),
    [C22,C23] r is Ok ==> t_auth(at(*old(channel)), self.options, handshake_v(*handshake), auth_plugin, seq_num).ok && live(*final(channel)),
    [C22] r is Ok ==> exactly(*final(channel), t_auth(at(*old(channel)), self.options, handshake_v(*handshake), auth_plugin, seq_num)),
    [C22,C23] r is Err ==> stopped(*final(channel), t_auth(at(*old(channel)), self.options, handshake_v(*handshake), auth_plugin, seq_num)),
    [C22] r is Err ==> excused(*final(channel), t_auth(at(*old(channel)), self.options, handshake_v(*handshake), auth_plugin, seq_num)),
//@at entry
    hide(next_pkt); hide(frame); hide(ext); hide(utf8); hide(t_sha); hide(t_switch); hide(auth_answer); hide(c_auth); hide(s_switch);
    broadcast use {group_ext, group_run, ext_sha, ext_switch, ext_auth};

//@fn connect::BinlogClient::connect
//@ret r
//@requires
    event_room(), options_ok(self.options),
//@ensures
    [C22,C23] r is Ok ==> t_connect(opened(r->Ok_0.0), self.options).ok && live(r->Ok_0.0),
    [C22] r is Ok ==> exactly(r->Ok_0.0, t_connect(opened(r->Ok_0.0), self.options)),
    [C19] r is Ok ==> r->Ok_0.1 == provider_of(opened(r->Ok_0.0)),
    [C19] r is Ok ==> r->Ok_0.0.stream.address() =~= self.options.hostname@ + ":"@ + dec(self.options.port as nat),
//@at entry
    hide(next_pkt); hide(frame); hide(ext); hide(utf8); hide(t_auth); hide(s_handshake);
    broadcast use {group_ext, group_run, ext_sha, ext_switch, ext_auth};

//@fn configure::BinlogClient::adjust_starting_position
//@ret r
//@requires
    event_room(),
    [C23] live(*old(channel)),
//@ensures
    kept(*old(channel), *final(channel)),
    [C19] same_options(final(self).options, old(self).options) && final(self).options.binlog.gtid_set == old(self).options.binlog.gtid_set
        && final(self).options.binlog.gtid_list == old(self).options.binlog.gtid_list,
    [C19] final(self).transaction == old(self).transaction && final(self).maria_gtid == old(self).maria_gtid && final(self).mysql_gtid == old(self).mysql_gtid,
    [C19] r is Ok ==> coords(final(self).options) == t_adjust(at(*old(channel)), old(self).options).1,
    [C19] r is Err && !from_end(old(self).options) ==> false,
    [C23] r is Ok ==> t_adjust(at(*old(channel)), old(self).options).0.ok && live(*final(channel)),
    [C19] r is Ok ==> exactly(*final(channel), t_adjust(at(*old(channel)), old(self).options).0),
    [C19,C23] r is Err ==> stopped(*final(channel), t_adjust(at(*old(channel)), old(self).options).0),
    [C19] r is Err ==> excused(*final(channel), t_adjust(at(*old(channel)), old(self).options).0),
//@at entry
    hide(next_pkt); hide(frame); hide(ext); hide(utf8); hide(t_result);
    broadcast use {group_ext, group_run, group_setup};

//@fn configure::BinlogClient::set_master_heartbeat
//@ret r
//@requires
    event_room(),
    [C23] live(*old(channel)),
    options_ok(old(self).options),
//@ensures
    kept(*old(channel), *final(channel)),
    [C19] *final(self) == *old(self),
    [C23] r is Ok ==> t_heartbeat(at(*old(channel)), old(self).options).ok && live(*final(channel)),
    [C19] r is Ok ==> exactly(*final(channel), t_heartbeat(at(*old(channel)), old(self).options)),
    [C19,C23] r is Err ==> stopped(*final(channel), t_heartbeat(at(*old(channel)), old(self).options)),
    [C19] r is Err ==> excused(*final(channel), t_heartbeat(at(*old(channel)), old(self).options)),
//@at entry
    hide(next_pkt); hide(frame); hide(ext); hide(utf8);
    broadcast use {group_ext, group_run, group_setup};

//@fn configure::BinlogClient::set_master_binlog_checksum
//@ret r
//@requires
    event_room(),
    [C23] live(*old(channel)),
//@ensures
    kept(*old(channel), *final(channel)),
    [C07,C19] *final(self) == *old(self),
    [C07,C19] r is Ok ==> r->Ok_0 == t_checksum(at(*old(channel))).1,
    [C07,C23] r is Ok ==> t_checksum(at(*old(channel))).0.ok && live(*final(channel)),
    [C07,C19] r is Ok ==> exactly(*final(channel), t_checksum(at(*old(channel))).0),
    [C07,C19,C23] r is Err ==> stopped(*final(channel), t_checksum(at(*old(channel))).0),
    [C07,C19] r is Err ==> excused(*final(channel), t_checksum(at(*old(channel))).0),
//@at entry
    hide(next_pkt); hide(frame); hide(ext); hide(utf8); hide(t_result);
    broadcast use {group_ext, group_run, group_setup};

//@fn configure::BinlogClient::read_result_set
//@ret r
//@requires
    event_room(),
    [C23] live(*old(channel)),
//@ensures
    kept(*old(channel), *final(channel)),
    [C19] r is Ok ==> answer_rows(r->Ok_0@) =~= t_result(at(*old(channel))).1,
    [C23] r is Ok ==> t_result(at(*old(channel))).0.ok && live(*final(channel)),
    [C19] r is Ok ==> exactly(*final(channel), t_result(at(*old(channel))).0),
    [C19,C23] r is Err ==> stopped(*final(channel), t_result(at(*old(channel))).0),
    [C19] r is Err ==> excused(*final(channel), t_result(at(*old(channel))).0),
//@at entry
    hide(next_pkt); hide(frame); hide(ext); hide(utf8); hide(s_texts);
    broadcast use {group_ext, group_run, group_setup};
//@loop 0
    invariant_except_break
        t_columns(at(*channel)) == t_columns(recv(at(*old(channel)))),
    invariant
        event_room(), live(*channel), kept(*old(channel), *channel), channel.stream.tx() == old(channel).stream.tx(),
    ensures
        at(*channel) == t_columns(recv(at(*old(channel)))),
    decreases channel.stream.rx().len(),
//@loop 1
    invariant_except_break
        t_result(at(*old(channel))) == (t_rows(at(*channel)).0, answer_rows(result_set@) + t_rows(at(*channel)).1),
    invariant
        event_room(), live(*channel), kept(*old(channel), *channel), channel.stream.tx() == old(channel).stream.tx(),
    ensures
        t_result(at(*old(channel))) == (at(*channel), answer_rows(result_set@)),
    decreases channel.stream.rx().len(),
//@at loop 1 before
    proof { assert(answer_rows(result_set@) + t_rows(at(*channel)).1 =~= t_rows(at(*channel)).1); }
//@at loop 0 begin
    broadcast use {group_ext, group_run, group_setup};
//@at loop 1 begin
    broadcast use {group_ext, group_run, group_setup};
    let ghost (run1, rows1) = (at(*channel), result_set@);
//@at loop 1 end
    proof {
        assert(answer_rows(result_set@) =~= answer_rows(rows1) + seq![strs(result_set@.last().cells@)]);
        assert(t_rows(run1).1 =~= seq![strs(result_set@.last().cells@)] + t_rows(at(*channel)).1);
        assert(answer_rows(rows1) + t_rows(run1).1 =~= answer_rows(result_set@) + t_rows(at(*channel)).1);
    }

//@fn providers::mariadb::mariadb_provider::replicate_mariadb
//@ret r
//@requires
    event_room(),
    [C23] live(*old(channel)),
//@ensures
    kept(*old(channel), *final(channel)),
    [C23] r is Ok ==> t_mariadb(at(*old(channel)), *options, coords(*options), server_id as nat).ok && live(*final(channel)),
    [C19] r is Ok ==> exactly(*final(channel), t_mariadb(at(*old(channel)), *options, coords(*options), server_id as nat)),
    [C19,C23] r is Err ==> stopped(*final(channel), t_mariadb(at(*old(channel)), *options, coords(*options), server_id as nat)),
    [C19] r is Err ==> excused(*final(channel), t_mariadb(at(*old(channel)), *options, coords(*options), server_id as nat)),
//@at entry
    hide(next_pkt); hide(frame); hide(ext); hide(utf8); hide(t_register);
    broadcast use {group_ext, group_run, group_setup};

//@fn providers::mariadb::mariadb_provider::register_gtid_slave
//@ret r
//@requires
    event_room(),
    [C23] live(*old(channel)),
//@ensures
    kept(*old(channel), *final(channel)),
    [C23] r is Ok ==> t_register(at(*old(channel)), server_id as nat, gtid_list@).ok && live(*final(channel)),
    [C19] r is Ok ==> exactly(*final(channel), t_register(at(*old(channel)), server_id as nat, gtid_list@)),
    [C19,C23] r is Err ==> stopped(*final(channel), t_register(at(*old(channel)), server_id as nat, gtid_list@)),
    [C19] r is Err ==> excused(*final(channel), t_register(at(*old(channel)), server_id as nat, gtid_list@)),
//@at entry
    hide(next_pkt); hide(frame); hide(ext); hide(utf8);
    broadcast use {group_ext, group_run, group_setup};

//@fn providers::mysql::mysql_provider::replicate_mysql
//@ret r
//@requires
    event_room(),
    [C23] live(*old(channel)),
    options_ok(*options),
//@ensures
    kept(*old(channel), *final(channel)),
    [C23] r is Ok ==> t_mysql(at(*old(channel)), *options, coords(*options), server_id as nat).ok && live(*final(channel)),
    [C19] r is Ok ==> exactly(*final(channel), t_mysql(at(*old(channel)), *options, coords(*options), server_id as nat)),
    [C19,C23] r is Err ==> stopped(*final(channel), t_mysql(at(*old(channel)), *options, coords(*options), server_id as nat)),
    [C19] r is Err ==> excused(*final(channel), t_mysql(at(*old(channel)), *options, coords(*options), server_id as nat)),
//@at entry
    hide(frame); hide(ext); hide(utf8);
    broadcast use {group_ext, group_run, group_setup};

//@fn binlog_client::BinlogClient::replicate
//@ret r
//@requires
    event_room(), options_ok(old(self).options), client_ok(*old(self)),
//@ensures
    [C19] same_options(final(self).options, old(self).options) && final(self).options.binlog.gtid_set == old(self).options.binlog.gtid_set
        && final(self).options.binlog.gtid_list == old(self).options.binlog.gtid_list,
    [C17,C18] client_ok(*final(self)),
    [C18] r is Ok ==> !final(self).transaction && final(self).maria_gtid is None && final(self).mysql_gtid is None,
    [C23] r is Ok ==> t_replicate(opened(r->Ok_0.channel), old(self).options).run.ok && live(r->Ok_0.channel),
    [C19] r is Ok ==> exactly(r->Ok_0.channel, t_replicate(opened(r->Ok_0.channel), old(self).options).run),
    [C19] r is Ok ==> coords(final(self).options) == t_replicate(opened(r->Ok_0.channel), old(self).options).coords,
    [C07,C19] r is Ok ==> r->Ok_0.parser.checksum_type == t_replicate(opened(r->Ok_0.channel), old(self).options).checksum,
    [C08,C10] r is Ok ==> stream_ok(r->Ok_0) && maps_v(r->Ok_0.parser.table_map) =~= Map::<u64, TmV>::empty(),
    [C19] r is Ok ==> r->Ok_0.channel.stream.address() =~= old(self).options.hostname@ + ":"@ + dec(old(self).options.port as nat),
//@at entry
    hide(t_connect); hide(t_adjust); hide(t_checksum); hide(ask); hide(send); hide(t_register); hide(provider_of); hide(next_pkt); hide(s_handshake); hide(c_gtid_data);

//@fn binlog_events::BinlogEvents::new
//@ret r
//@ensures
    [C10] r.channel == channel,
    [C07,C10] r.parser.checksum_type == checksum,
    [C08,C10] maps_v(r.parser.table_map) =~= Map::<u64, TmV>::empty() && stream_ok(r),

//@fn binlog_events::BinlogEvents::read_event
//@ret r
//@requires
    event_room(), stream_ok(*old(self)), 0 < packet@.len() < 0x100_0000,
//@ensures
    [C10] final(self).channel == old(self).channel && stream_ok(*final(self)),
    [C10] match s_header(packet@.skip(1)) { None => r is Err, Some(h) =>
        match s_parse(parser_v(old(self).parser), h, packet@.skip(20)) { None => r is Err, Some(v) => r is Ok && r->Ok_0.0 == h && event_v(r->Ok_0.1) == v } },
    [C07,C10] final(self).parser.checksum_type == packet_next(parser_v(old(self).parser), packet@).checksum,
    [C08,C10] maps_v(final(self).parser.table_map) =~= packet_next(parser_v(old(self).parser), packet@).maps,
    [C12,C13,C18] r is Ok && r->Ok_0.1 is MySqlGtidEvent ==> uuid_ok(r->Ok_0.1->MySqlGtidEvent_0.gtid.source_id),
//@at entry
    hide(s_parse); hide(event_v);

//@fn binlog_events::BinlogEvents::read_error
//@ret r
//@requires
    packet@.len() > 0,
//@ensures
    [C10] r is Err && *final(self) == *old(self),

//@fn binlog_events::BinlogEvents@Iterator::next
//@ret r
//@requires
    event_room(), stream_ok(*old(self)),
//@ensures
    [C10] stream_ok(*final(self)) && kept(old(self).channel, final(self).channel) && final(self).channel.stream.tx() == old(self).channel.stream.tx(),
    [C10] (final(self).channel.stream.broken() && !old(self).channel.stream.broken()) || next_pkt(old(self).channel.stream.rx()) is None ==> r is Some && r->Some_0 is Err,
    [C10] !final(self).channel.stream.broken() && next_pkt(old(self).channel.stream.rx()) is Some ==> {
        let p = next_pkt(old(self).channel.stream.rx())->Some_0;
        &&& final(self).channel.stream.rx() == p.rest
        &&& if p.body[0] == 0 {
            match s_header(p.body.skip(1)) { None => r is Some && r->Some_0 is Err, Some(h) =>
                match s_parse(parser_v(old(self).parser), h, p.body.skip(20)) { None => r is Some && r->Some_0 is Err,
                    Some(v) => r is Some && r->Some_0 is Ok && r->Some_0->Ok_0.0 == h && event_v(r->Some_0->Ok_0.1) == v } }
        } else if p.body[0] == 0xFE { r is None } else { r is Some && r->Some_0 is Err }
    },
    [C07,C10] r is Some && r->Some_0 is Ok ==> final(self).parser.checksum_type == packet_next(parser_v(old(self).parser), got(at(old(self).channel)).body).checksum,
    [C08,C10] r is Some && r->Some_0 is Ok ==> maps_v(final(self).parser.table_map) =~= packet_next(parser_v(old(self).parser), got(at(old(self).channel)).body).maps,
    [C07,C08,C10] !(r is Some && r->Some_0 is Ok) ==> final(self).parser.checksum_type == old(self).parser.checksum_type && maps_v(final(self).parser.table_map) =~= maps_v(old(self).parser.table_map),
//@at entry
    hide(s_parse); hide(event_v); hide(s_header);

//@fn binlog_options::BinlogOptions::from_start
//@ret r
//@ensures
    [C19] r.starting_strategy is FromStart && r.filename@.len() == 0 && r.position == 4 && r.gtid_set is None && r.gtid_list is None,

//@fn binlog_options::BinlogOptions::from_end
//@ret r
//@ensures
    [C19] r.starting_strategy is FromEnd && r.filename@.len() == 0 && r.position == 0 && r.gtid_set is None && r.gtid_list is None,

//@fn binlog_options::BinlogOptions::from_position
//@ret r
//@ensures
    [C19] r.starting_strategy is FromPosition && r.filename == filename && r.position == position && r.gtid_set is None && r.gtid_list is None,

//@fn binlog_options::BinlogOptions::from_mysql_gtid
//@ret r
//@ensures
    [C19] r.starting_strategy is FromGtid && r.filename@.len() == 0 && r.position == 4 && r.gtid_set == Some(gtid_set) && r.gtid_list is None,

//@fn binlog_options::BinlogOptions::from_mariadb_gtid
//@ret r
//@ensures
    [C19] r.starting_strategy is FromGtid && r.filename@.len() == 0 && r.position == 4 && r.gtid_set is None && r.gtid_list == Some(gtid_list),

//@fn replica_options::ReplicaOptions@Default::default
//@ret r
//@ensures
    [C19] r.port == 3306 && r.hostname@ == "localhost"@ && r.ssl_mode is Disabled && r.username@.len() == 0 && r.password@.len() == 0 && r.database is None,
    [C19] r.server_id == 65535 && r.blocking && r.heartbeat_interval.millis() == 30_000,
    [C19] r.binlog.starting_strategy is FromEnd && r.binlog.filename@.len() == 0 && r.binlog.gtid_set is None && r.binlog.gtid_list is None,

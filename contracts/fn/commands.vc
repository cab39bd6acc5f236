
//@fn commands::query_command::QueryCommand::new
//@ret r
//@ensures
    [C19,C20] r.sql == sql,

//@fn commands::query_command::QueryCommand::serialize
//@ret r
//@ensures
    [C19,C20] r is Ok && r->Ok_0@ == c_query(self.sql@),

//@fn commands::register_slave_command::RegisterSlaveCommand::new
//@ret r
//@ensures
    [C19,C20] r.server_id == server_id,

//@fn commands::register_slave_command::RegisterSlaveCommand::serialize
//@ret r
//@ensures
    [C19,C20] r is Ok && r->Ok_0@ =~= c_register(self.server_id as nat),

//@fn commands::dump_binlog_command::DumpBinlogCommand::new
//@ret r
//@ensures
    [C19,C20] r.server_id == server_id && r.binlog_filename == binlog_filename && r.binlog_position == binlog_position && r.flags == 0,

//@fn commands::dump_binlog_command::DumpBinlogCommand::serialize
//@ret r
//@ensures
    [C19,C20] r is Ok && r->Ok_0@ =~= c_dump(self.server_id as nat, self.binlog_filename@, self.binlog_position as nat, self.flags as nat),

//@fn commands::ssl_request_command::SslRequestCommand::new
//@ret r
//@ensures
    [C20] r.client_capabilities == 0x8_8A04 && r.max_packet_size == 0 && r.client_collation == client_collation,

//@fn commands::ssl_request_command::SslRequestCommand::serialize
//@ret r
//@ensures
    [C20] r is Ok && r->Ok_0@ =~= c_ssl(self.client_capabilities as nat, self.max_packet_size as nat, self.client_collation),
//@at loop 0 before
    let ghost head = (*cursor.inner)@; let ghost target = *final(cursor.inner);
    proof { assert(head + zero_bytes(0) =~= head); }
//@loop 0 it=it
    invariant
        it.snapshot.end == 23, it.snapshot.start == 0, 0 <= it.index@ <= 23,
        cursor.pos == (*cursor.inner)@.len(), *final(cursor.inner) == target,
        (*cursor.inner)@ =~= head + zero_bytes(it.index@ as nat),

//@fn commands::authenticate_command::AuthenticateCommand::new
//@ret r
//@ensures
    [C20,C22] r.client_capabilities == client_caps(options.database is Some) && r.max_packet_size == 0 && r.client_collation == client_collation,
    [C20,C22] r.username@ == options.username@ && r.password@ == options.password@ && r.scramble@ == handshake.scramble@ && r.auth_plugin_name@ == handshake.auth_plugin_name@,
    [C20,C22] match options.database { Some(x) => r.database is Some && r.database->Some_0@ == x@, None => r.database is None },
    [C20,C22] r.auth_plugin == auth_plugin,

//@fn commands::authenticate_command::AuthenticateCommand::serialize
//@ret r
//@requires
    event_room(),
//@ensures
    [C20,C22] r is Ok && r->Ok_0@ =~= c_auth(self.client_capabilities as nat, self.max_packet_size as nat, self.client_collation, self.username@,
        auth_answer(self.password@, self.scramble@, self.auth_plugin), match self.database { Some(x) => Some(x@), None => None }, self.auth_plugin_name@),
//@at loop 0 before
    let ghost head = (*cursor.inner)@; let ghost target = *final(cursor.inner);
    proof { assert(head + zero_bytes(0) =~= head); }
//@loop 0 it=it
    invariant
        it.snapshot.end == 23, it.snapshot.start == 0, 0 <= it.index@ <= 23,
        cursor.pos == (*cursor.inner)@.len(), *final(cursor.inner) == target,
        (*cursor.inner)@ =~= head + zero_bytes(it.index@ as nat),

//@fn commands::auth_plugin_switch_command::AuthPluginSwitchCommand::new
//@ret r
//@ensures
    [C20,C22] r.password@ == password@ && r.scramble@ == scramble@ && r.auth_plugin_name@ == auth_plugin_name@ && r.auth_plugin == auth_plugin,

//@fn commands::auth_plugin_switch_command::AuthPluginSwitchCommand::serialize
//@ret r
//@requires
    event_room(),
//@ensures
    [C20,C22] r is Ok && r->Ok_0@ =~= auth_answer(self.password@, self.scramble@, self.auth_plugin),

//@fn extensions::sha1
//@ret r
//@ensures
    [C22] r@ == sha1_of(value@),

//@fn extensions::sha256
//@ret r
//@ensures
    [C22] r@ == sha256_of(value@),

//@fn extensions::xor
//@ret r
//@requires
    slice2@.len() > 0, slice1@.len() <= alloc_limit(), slice1@.len() <= 0x7_ffff_ffff_ffff,
//@ensures
    [C22] r@ =~= xored(slice1@, slice2@),
//@loop 0 it=it
    invariant
        slice2@.len() > 0, result@.len() == slice1@.len(), it.snapshot.end == slice1@.len(),
        forall|k: int| 0 <= k < it.index@ ==> #[trigger] result@[k] == slice1@[k] ^ slice2@[k % slice2@.len() as int],

//@fn extensions::encrypt_password
//@ret r
//@requires
    event_room(),
//@ensures
    [C22,C20] r@ =~= auth_answer(password@, scramble@, *auth_plugin),
    [C22] r@.len() <= 32,

//@fn extensions::check_error_packet
//@ret r
//@requires
    packet@.len() > 0,
//@ensures
    [C22,C23] r is Err <==> packet@[0] == 0xFF,

//@fn responses::handshake_packet::HandshakePacket::parse
//@ret r
//@requires
    alloc_ok(packet@),
//@ensures
    [C22,C24] match s_handshake(packet@) { Some(v) => r is Ok && handshake_v(r->Ok_0) =~= v, None => r is Err },
//@at entry
    hide(s_zstr); hide(s_text); hide(le);
    broadcast use group_net;

//@fn responses::error_packet::ErrorPacket::parse
//@ret r
//@ensures
    [C24] match s_error(packet@) { Some(v) => r is Ok && error_v(r->Ok_0) == v, None => r is Err },

//@fn responses::auth_switch_packet::AuthPluginSwitchPacket::parse
//@ret r
//@ensures
    [C22,C24] match s_switch(packet@) { Some(v) => r is Ok && (r->Ok_0.auth_plugin_name@, r->Ok_0.auth_plugin_data@) == v, None => r is Err },

//@fn responses::end_of_file_packet::EndOfFilePacket::parse
//@ret r
//@ensures
    [C24] match r { Ok(x) => packet@.len() >= 4 && x.warning_count == le(packet@, 0, 2) && x.server_status == le(packet@, 2, 2), Err(_) => packet@.len() < 4 },

//@fn responses::result_set_row_packet::ResultSetRowPacket::parse
//@ret r
//@requires
    alloc_ok(packet@),
//@ensures
    [C19,C23,C24] match s_texts(packet@, 0) { Some(v) => r is Ok && strs(r->Ok_0.cells@) =~= v, None => r is Err },
//@at loop 0 before
    proof { if let Some(rest) = s_texts(packet@, 0) { assert(strs(cells@) + rest =~= rest); } }
//@loop 0
    invariant
        cursor.inner@ == packet@, alloc_ok(packet@),
        len == packet@.len(), cursor.p() >= 0,
        s_texts(packet@, 0) == (match s_texts(packet@, cursor.p()) { Some(rest) => Some(strs(cells@) + rest), None => None }),
    decreases todo(packet@, cursor.p()),
//@at loop 0 begin
    let ghost r0 = cells@;
//@at loop 0 end
    proof { if let Some(rest) = s_texts(packet@, cursor.p()) { assert(strs(r0) + (seq![cells@.last()@] + rest) =~= strs(cells@) + rest); } }
//@at loop 0 after
    proof { assert(strs(cells@) + Seq::empty() =~= strs(cells@)); }

//@fn constants::database_provider::DatabaseProvider::from
//@ret r
//@ensures
    [C19] r is MariaDB <==> contains_text(server@, "MariaDB"@),

//@fn commands::dump_binlog_gtid_command::DumpBinlogGtidCommand::new
//@ret r
//@ensures
    [C16,C19,C20] r.server_id == server_id && r.binlog_filename == binlog_filename && r.binlog_position == binlog_position && r.flags == 0,

//@fn commands::dump_binlog_gtid_command::DumpBinlogGtidCommand::serialize
//@ret r
//@requires
    gset_ok(*gtid_set), c_gtid_data(*gtid_set).len() < 0x1_0000_0000,
//@ensures
    [C16,C19] r is Ok && r->Ok_0@ =~= c_dump_gtid(self.server_id as nat, self.binlog_filename@, self.binlog_position as nat, self.flags as nat, *gtid_set),
//@at entry
    proof { lemma_le_wrap(utf8(self.binlog_filename@).len()); }
//@at loop 0 before
    broadcast use crate::shim::std::collections::order_keys;
    proof { assert(gtid_set.uuid_sets.order().take(0) =~= Seq::empty()); }
//@loop 0 it=it
    invariant
        gset_ok(*gtid_set), c_gtid_data(*gtid_set).len() < 0x1_0000_0000, it.seq().len() == gtid_set.uuid_sets.order().len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == gtid_set.uuid_sets.m()[gtid_set.uuid_sets.order()[i]],
        forall|i: int| 0 <= i < it.seq().len() ==> gtid_set.uuid_sets.m().contains_key(#[trigger] gtid_set.uuid_sets.order()[i]),
        data_length == 8 + c_sets(gtid_set.uuid_sets.m(), gtid_set.uuid_sets.order().take(it.index@ as int)).len(),
//@at loop 0 begin
    proof { assert(gtid_set.uuid_sets.m().contains_key(gtid_set.uuid_sets.order()[it.index@ as int])); lemma_le_bytes(gtid_set.uuid_sets.order().len(), 8); lemma_sets_step(gtid_set.uuid_sets.m(), gtid_set.uuid_sets.order(), it.index@ as int);
        assert(uuid_set.source_id.data@.len() == 16 && uuid_set.intervals.len() < 0x1_0000_0000);
        assert(uuid_set.intervals.len() * ((8 + 8) as usize) == 16 * uuid_set.intervals.len()) by (nonlinear_arith); }
//@at loop 0 after
    proof { assert(gtid_set.uuid_sets.order().take(gtid_set.uuid_sets.order().len() as int) =~= gtid_set.uuid_sets.order()); }
//@at loop 1 before
    let ghost head = (*cursor.inner)@; let ghost target = *final(cursor.inner);
    proof { assert(head + c_sets(gtid_set.uuid_sets.m(), gtid_set.uuid_sets.order().take(0)) =~= head); }
//@loop 1 it=it2
    invariant
        gset_ok(*gtid_set), it2.seq().len() == gtid_set.uuid_sets.order().len(),
        forall|i: int| 0 <= i < it2.seq().len() ==> *#[trigger] it2.seq()[i] == gtid_set.uuid_sets.m()[gtid_set.uuid_sets.order()[i]],
        forall|i: int| 0 <= i < it2.seq().len() ==> gtid_set.uuid_sets.m().contains_key(#[trigger] gtid_set.uuid_sets.order()[i]),
        cursor.pos == (*cursor.inner)@.len(), *final(cursor.inner) == target,
        (*cursor.inner)@ =~= head + c_sets(gtid_set.uuid_sets.m(), gtid_set.uuid_sets.order().take(it2.index@ as int)),
//@at loop 1 begin
    proof { lemma_sets_step(gtid_set.uuid_sets.m(), gtid_set.uuid_sets.order(), it2.index@ as int); }
//@at loop 2 before
    let ghost head2 = (*cursor.inner)@;
    proof { assert(head2 + c_intervals(uuid_set.intervals@.take(0)) =~= head2); }
//@loop 2 it=it3
    invariant
        it3.seq().len() == uuid_set.intervals@.len(),
        forall|i: int| 0 <= i < it3.seq().len() ==> *#[trigger] it3.seq()[i] == uuid_set.intervals@[i],
        normal(uuid_set.intervals@),
        cursor.pos == (*cursor.inner)@.len(), *final(cursor.inner) == target,
        (*cursor.inner)@ =~= head2 + c_intervals(uuid_set.intervals@.take(it3.index@ as int)),
//@at loop 2 begin
    proof { lemma_intervals_step(uuid_set.intervals@, it3.index@ as int); }
//@at loop 2 after
    proof { assert(uuid_set.intervals@.take(uuid_set.intervals@.len() as int) =~= uuid_set.intervals@); }

//@fn events::row_events::row_parser::get_bits_number
//@ret r
//@ensures
    [C04] r == seen(bitmap@, bitmap@.len()),
//@closure 0
    |x__r: &&bool| -> (b: bool) ensures b == **x__r
//@at entry
    proof {
        let p = |x: &bool| *x;
        assert(as_pred(p));
        assert forall|s: Seq<&bool>| s.len() == bitmap@.len() && (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> *s[i] == bitmap@[i])
            implies (#[trigger] s.filter(p)).len() == seen(bitmap@, bitmap@.len()) by { lemma_seen_filter(bitmap@, s, bitmap@.len()); assert(s.take(s.len() as int) =~= s); }
    }

//@fn events::row_events::row_data::RowData::new
//@ret r
//@ensures
    [C04] r.cells == cells,

//@fn events::row_events::row_data::UpdateRowData::new
//@ret r
//@ensures
    [C04] r.before_update == before_update && r.after_update == after_update,

//@fn events::row_events::row_parser::check_columns_number
//@ret r
//@ensures
    [C04,C25] r is Ok <==> columns@.len() == table.column_types@.len(),

//@fn events::row_events::row_parser::parse_head
//@ret r
//@requires
    old(cursor).p() == 0,
//@ensures
    [C04] match s_head(old(cursor).d(), 0, row_event_version as int) {
        Some((v, q)) => r is Ok && r->Ok_0.0 == v.table_id && r->Ok_0.1 == v.flags && r->Ok_0.2 == v.columns && final(cursor).p() == q,
        None => r is Err },
    [C04] final(cursor).inner == old(cursor).inner,

//@fn events::row_events::row_parser::parse_cell
//@ret r
//@requires
    alloc_ok(old(cursor).d()),
//@ensures
    [C01,C02,C03,C04] match s_cell(old(cursor).d(), old(cursor).p(), column_type as int, metadata as int) {
        Some((v, q)) => r is Ok && cell_v(r->Ok_0) == v && final(cursor).p() == q,
        None => r is Err },
    [C04] final(cursor).inner == old(cursor).inner,
//@at entry
    proof { reveal(s_cell); }

//@fn events::row_events::row_parser::parse_row
//@ret r
//@requires
    alloc_ok(old(cursor).d()), columns_present@.len() <= alloc_limit(), columns_present@.len() < 0x7_ffff_ffff_ffff,
    tm_ok(tm_v(*table_map)), columns_present@.len() == table_map.column_types@.len(), cells_included == seen(columns_present@, columns_present@.len()),
//@ensures
    [C04] match s_row(old(cursor).d(), old(cursor).p(), tm_v(*table_map), columns_present@) {
        Some((v, q)) => r is Ok && row_v(r->Ok_0) == v && final(cursor).p() == q,
        None => r is Err },
    [C04] final(cursor).inner == old(cursor).inner,
//@at entry
    let ghost (d, p, t) = (cursor.d(), cursor.p(), tm_v(*table_map));
    proof { reveal(s_row); }
//@at loop 0 before
    let ghost p0 = cursor.p();
    proof { cells_0(d, p0, t, columns_present@, null_bitmap@); lemma_seen(columns_present@, columns_present@.len()); assert(Seq::new(row@.len(), |k: int| opt_cell_v(row@[k])) =~= Seq::<Option<CellV>>::empty()); }
//@loop 0
    invariant
        d == cursor.d(), cursor.inner == old(cursor).inner, alloc_ok(d), t == tm_v(*table_map), tm_ok(t), columns_present@.len() == table_map.column_types@.len(),
        null_bitmap@.len() == seen(columns_present@, columns_present@.len()),
        i <= columns_present@.len(), row@.len() == i, skipped_columns == i - seen(columns_present@, i as nat), seen(columns_present@, i as nat) <= i,
        s_cells(d, p0, t, columns_present@, null_bitmap@, i as nat) == Some((Seq::new(row@.len(), |k: int| opt_cell_v(row@[k])), cursor.p())),
        p == old(cursor).p(), p0 >= 0, s_flags_le(d, p, seen(columns_present@, columns_present@.len())) == Some((null_bitmap@, p0)),
        s_row(d, p, t, columns_present@) == s_cells(d, p0, t, columns_present@, null_bitmap@, t.types.len()),
//@at loop 0 begin
    proof {
        lemma_cells(d, p0, t, columns_present@, null_bitmap@, (i + 1) as nat, t.types.len());
        lemma_cell_forward(d, cursor.p(), t.types[i as int] as int, t.metas[i as int] as int);
        cells_step(d, p0, t, columns_present@, null_bitmap@, i as nat);
        lemma_seen_mono(columns_present@, i as nat, columns_present@.len());
    }
    let ghost row0 = row@;
    let ghost cells0 = Seq::new(row@.len(), |k: int| opt_cell_v(row@[k]));
//@at loop 0 end
    proof {
        assert(Seq::new(row@.len(), |k: int| opt_cell_v(row@[k])) =~= cells0.push(opt_cell_v(row@[i as int])));
    }

//@fn events::row_events::row_parser::parse_row_data_list
//@ret r
//@requires
    alloc_ok(old(cursor).d()), columns_present@.len() <= alloc_limit(), columns_present@.len() < 0x7_ffff_ffff_ffff,
    forall|k: u64| table_map.m().contains_key(k) ==> tm_ok(tm_v(#[trigger] table_map.m()[k])),
//@ensures
    [C04,C06] match (if !maps_v(*table_map).contains_key(table_id) || maps_v(*table_map)[table_id].types.len() != columns_present@.len() { None } else { s_rows(old(cursor).d(), old(cursor).p(), maps_v(*table_map)[table_id], columns_present@) }) {
        Some(v) => r is Ok && rows_v(r->Ok_0@) == v,
        None => r is Err },
    [C04] final(cursor).inner == old(cursor).inner,
//@at loop 0 before
    let ghost (d, p, t) = (cursor.d(), cursor.p(), tm_v(*table));
    proof { assert(rows_v(rows@) =~= Seq::empty()); if let Some(rest) = s_rows(d, p, t, columns_present@) { assert(rows_v(rows@) + rest =~= rest); } }
//@loop 0
    invariant
        d == cursor.d(), cursor.inner == old(cursor).inner, alloc_ok(d), t == tm_v(*table), tm_ok(t), cursor.p() >= p,
        columns_present@.len() <= alloc_limit(), columns_present@.len() < 0x7_ffff_ffff_ffff,
        columns_present@.len() == table.column_types@.len(), cells_included == seen(columns_present@, columns_present@.len()),
        maps_v(*table_map).contains_key(table_id), maps_v(*table_map)[table_id] == t,
        old(cursor).p() == p, old(cursor).d() == d,
        s_rows(d, p, t, columns_present@) == (match s_rows(d, cursor.p(), t, columns_present@) { None => None, Some(rest) => Some(rows_v(rows@) + rest) }),
    decreases todo(d, cursor.p()),
//@at loop 0 begin
    let ghost (p1, rows1) = (cursor.p(), rows@);
    proof { lemma_row(d, cursor.p(), t, columns_present@); if seen(columns_present@, columns_present@.len()) == 0 { lemma_no_cells(d, cursor.p(), t, columns_present@); } }
//@at loop 0 end
    proof {
        assert(rows_v(rows@) =~= rows_v(rows1) + seq![row_v(rows@.last())]);
        if let Some(rest) = s_rows(d, cursor.p(), t, columns_present@) {
            assert((rows_v(rows1) + seq![row_v(rows@.last())]) + rest =~= rows_v(rows1) + (seq![row_v(rows@.last())] + rest));
        }
    }
//@at loop 0 after
    proof { assert(rows_v(rows@) + Seq::empty() =~= rows_v(rows@)); }

//@fn events::row_events::row_parser::parse_update_row_data_list
//@ret r
//@requires
    alloc_ok(old(cursor).d()), columns_before_update@.len() <= alloc_limit(), columns_before_update@.len() < 0x7_ffff_ffff_ffff,
    columns_after_update@.len() == columns_before_update@.len(),
    forall|k: u64| table_map.m().contains_key(k) ==> tm_ok(tm_v(#[trigger] table_map.m()[k])),
//@ensures
    [C04,C06] match (if !maps_v(*table_map).contains_key(table_id) || maps_v(*table_map)[table_id].types.len() != columns_before_update@.len() { None }
        else { s_pairs(old(cursor).d(), old(cursor).p(), maps_v(*table_map)[table_id], columns_before_update@, columns_after_update@) }) {
        Some(v) => r is Ok && pairs_v(r->Ok_0@) == v,
        None => r is Err },
    [C04] final(cursor).inner == old(cursor).inner,
//@at loop 0 before
    let ghost (d, p, t) = (cursor.d(), cursor.p(), tm_v(*table));
    let ghost (cb, ca) = (columns_before_update@, columns_after_update@);
    proof { assert(pairs_v(rows@) =~= Seq::empty()); if let Some(rest) = s_pairs(d, p, t, cb, ca) { assert(pairs_v(rows@) + rest =~= rest); } }
//@loop 0
    invariant
        d == cursor.d(), cursor.inner == old(cursor).inner, alloc_ok(d), t == tm_v(*table), tm_ok(t), cursor.p() >= p,
        cb == columns_before_update@, ca == columns_after_update@, cb.len() == ca.len(),
        cb.len() <= alloc_limit(), cb.len() < 0x7_ffff_ffff_ffff,
        cb.len() == table.column_types@.len(), cells_included_before_update == seen(cb, cb.len()), cells_included_after_update == seen(ca, ca.len()),
        maps_v(*table_map).contains_key(table_id), maps_v(*table_map)[table_id] == t,
        old(cursor).p() == p, old(cursor).d() == d,
        s_pairs(d, p, t, cb, ca) == (match s_pairs(d, cursor.p(), t, cb, ca) { None => None, Some(rest) => Some(pairs_v(rows@) + rest) }),
    decreases todo(d, cursor.p()),
//@at loop 0 begin
    let ghost (p1, rows1) = (cursor.p(), rows@);
    proof {
        lemma_row(d, cursor.p(), t, cb);
        if let Some((_, q)) = s_row(d, cursor.p(), t, cb) { lemma_row(d, q, t, ca); }
        if seen(cb, cb.len()) == 0 && seen(ca, ca.len()) == 0 {
            lemma_no_cells(d, cursor.p(), t, cb);
            lemma_no_cells(d, cursor.p(), t, ca);
        }
    }
//@at loop 0 end
    proof {
        let z = (row_v(rows@.last().before_update), row_v(rows@.last().after_update));
        assert(pairs_v(rows@) =~= pairs_v(rows1) + seq![z]);
        if let Some(rest) = s_pairs(d, cursor.p(), t, cb, ca) {
            assert((pairs_v(rows1) + seq![z]) + rest =~= pairs_v(rows1) + (seq![z] + rest));
        }
    }
//@at loop 0 after
    proof { assert(pairs_v(rows@) + Seq::empty() =~= pairs_v(rows@)); }

//@fn events::row_events::write_rows_event::WriteRowsEvent::parse
//@ret r
//@requires
    alloc_ok(old(cursor).d()), old(cursor).p() == 0,
    forall|k: u64| table_map.m().contains_key(k) ==> tm_ok(tm_v(#[trigger] table_map.m()[k])),
//@ensures
    [C04,C06] match s_rows_event(old(cursor).d(), maps_v(*table_map), row_event_version as int) { Some(v) => r is Ok && write_v(r->Ok_0) == v, None => r is Err },

//@fn events::row_events::delete_rows_event::DeleteRowsEvent::parse
//@ret r
//@requires
    alloc_ok(old(cursor).d()), old(cursor).p() == 0,
    forall|k: u64| table_map.m().contains_key(k) ==> tm_ok(tm_v(#[trigger] table_map.m()[k])),
//@ensures
    [C04,C06] match s_rows_event(old(cursor).d(), maps_v(*table_map), row_event_version as int) { Some(v) => r is Ok && delete_v(r->Ok_0) == v, None => r is Err },

//@fn events::row_events::update_rows_event::UpdateRowsEvent::parse
//@ret r
//@requires
    alloc_ok(old(cursor).d()), old(cursor).p() == 0,
    forall|k: u64| table_map.m().contains_key(k) ==> tm_ok(tm_v(#[trigger] table_map.m()[k])),
//@ensures
    [C04,C06] match s_update_event(old(cursor).d(), maps_v(*table_map), row_event_version as int) { Some(v) => r is Ok && update_v(r->Ok_0) == v, None => r is Err },

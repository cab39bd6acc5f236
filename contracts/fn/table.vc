//@fn metadata::metadata_type::MetadataType::from_code
//@ret r
//@ensures
    [C06] match r { Ok(t) => block_code(t) == code, Err(_) => !known_block(code as int) },

//@fn metadata::default_charset::DefaultCharset::new
//@ret r
//@ensures
    [C06] r.default_charset_collation == default_charset_collation && r.charset_collations == charset_collations,

//@fn metadata::table_metadata::parse_int_array
//@ret r
//@ensures
    [C06] match s_ints(old(cursor).d(), old(cursor).p()) { Some(v) => r is Ok && r->Ok_0@ == v, None => r is Err },
//@at loop 0 before
    let ghost (d, p) = (cursor.d(), cursor.p());
    proof { if let Some(rest) = s_ints(d, p) { assert(result@ + rest =~= rest); } }
//@loop 0
    invariant
        d == cursor.d(), d == old(cursor).d(), p == old(cursor).p(), cursor.p() >= p, cursor.inner == old(cursor).inner,
        s_ints(d, p) == (match s_ints(d, cursor.p()) { None => None, Some(rest) => Some(result@ + rest) }),
    decreases todo(d, cursor.p()),
//@at loop 0 begin
    let ghost r0 = result@;
//@at loop 0 end
    proof { if let Some(rest) = s_ints(d, cursor.p()) { assert(r0 + (seq![result@.last()] + rest) =~= result@ + rest); } }
//@at loop 0 after
    proof { assert(result@ + Seq::empty() =~= result@); }

//@fn metadata::table_metadata::parse_string_array
//@ret r
//@requires
    alloc_ok(old(cursor).d()),
//@ensures
    [C06] match s_texts(old(cursor).d(), old(cursor).p()) { Some(v) => r is Ok && strs(r->Ok_0@) == v, None => r is Err },
//@at loop 0 before
    let ghost (d, p) = (cursor.d(), cursor.p());
    proof { if let Some(rest) = s_texts(d, p) { assert(strs(result@) + rest =~= rest); } }
//@loop 0
    invariant
        d == cursor.d(), d == old(cursor).d(), p == old(cursor).p(), cursor.p() >= p, cursor.inner == old(cursor).inner, alloc_ok(d),
        s_texts(d, p) == (match s_texts(d, cursor.p()) { None => None, Some(rest) => Some(strs(result@) + rest) }),
    decreases todo(d, cursor.p()),
//@at loop 0 begin
    let ghost r0 = result@;
//@at loop 0 end
    proof { if let Some(rest) = s_texts(d, cursor.p()) { assert(strs(r0) + (seq![result@.last()@] + rest) =~= strs(result@) + rest); } }
//@at loop 0 after
    proof { assert(strs(result@) + Seq::empty() =~= strs(result@)); }

//@fn metadata::table_metadata::parse_int_map
//@ret r
//@ensures
    [C06] match s_int_pairs(old(cursor).d(), old(cursor).p()) { Some(v) => r is Ok && r->Ok_0@ == v, None => r is Err },
//@at loop 0 before
    let ghost (d, p) = (cursor.d(), cursor.p());
    proof { if let Some(rest) = s_int_pairs(d, p) { assert(result@ + rest =~= rest); } }
//@loop 0
    invariant
        d == cursor.d(), d == old(cursor).d(), p == old(cursor).p(), cursor.p() >= p, cursor.inner == old(cursor).inner,
        s_int_pairs(d, p) == (match s_int_pairs(d, cursor.p()) { None => None, Some(rest) => Some(result@ + rest) }),
    decreases todo(d, cursor.p()),
//@at loop 0 begin
    let ghost r0 = result@;
//@at loop 0 end
    proof { if let Some(rest) = s_int_pairs(d, cursor.p()) { assert(r0 + (seq![result@.last()] + rest) =~= result@ + rest); } }
//@at loop 0 after
    proof { assert(result@ + Seq::empty() =~= result@); }

//@fn metadata::table_metadata::parse_type_values
//@ret r
//@requires
    alloc_ok(old(cursor).d()),
//@ensures
    [C06] match s_members(old(cursor).d(), old(cursor).p()) { Some(v) => r is Ok && texts_v(r->Ok_0@) == v, None => r is Err },
//@at loop 0 before
    let ghost (d, p) = (cursor.d(), cursor.p());
    proof { if let Some(rest) = s_members(d, p) { assert(texts_v(result@) + rest =~= rest); } }
//@loop 0
    invariant
        d == cursor.d(), d == old(cursor).d(), p == old(cursor).p(), cursor.p() >= p, cursor.inner == old(cursor).inner, alloc_ok(d),
        s_members(d, p) == (match s_members(d, cursor.p()) { None => None, Some(rest) => Some(texts_v(result@) + rest) }),
    decreases todo(d, cursor.p()),
//@at loop 0 begin
    let ghost r0 = result@;
//@at loop 0 end
    proof { if let Some(rest) = s_members(d, cursor.p()) { assert(texts_v(r0) + (seq![strs(result@.last()@)] + rest) =~= texts_v(result@) + rest); } }
//@at loop 0 after
    proof { assert(texts_v(result@) + Seq::empty() =~= texts_v(result@)); }
//@at loop 1 before
    let ghost q = cursor.p();
    proof { assert(strs(type_values@) =~= Seq::empty()); }
//@loop 1
    invariant
        d == cursor.d(), d == old(cursor).d(), cursor.inner == old(cursor).inner, alloc_ok(d), q >= 0, cursor.p() >= q,
        s_n_texts(d, q, _i as nat) == Some((strs(type_values@), cursor.p())),
        s_members(d, p) is Some ==> s_n_texts(d, q, length as nat) is Some, p == old(cursor).p(),
//@at loop 1 begin
    let ghost t0 = type_values@;
    proof { lemma_n_texts(d, q, (_i + 1) as nat, length as nat); }
//@at loop 1 end
    proof { assert(strs(type_values@) =~= strs(t0).push(type_values@.last()@)); }

//@fn metadata::table_metadata::parse_default_charser
//@ret r
//@requires
    old(cursor).p() == 0,
//@ensures
    [C06] match s_charset(old(cursor).d()) { Some(v) => r is Ok && charset_v(r->Ok_0) == v, None => r is Err },

//@fn metadata::table_metadata::read_bitmap_reverted
//@ret r
//@requires
    bits_number <= alloc_limit(), bits_number < 0x7_ffff_ffff_ffff,
//@ensures
    [C06] match s_flags_rev(old(cursor).d(), old(cursor).p(), bits_number as nat) {
        Some((v, q)) => r is Ok && r->Ok_0@ =~= v && final(cursor).p() == q,
        None => r is Err,
    },
//@loop 0
    invariant
        cursor.inner == old(cursor).inner,
        cursor.p() == old(cursor).p() + i,
        result@.len() == bits_number,
        bytes_number == bytes_for(bits_number as int),
        bits_number < 0x7_ffff_ffff_ffff,
        i > 0 ==> cursor.p() <= cursor.d().len(),
        forall|k: int| 0 <= k < bits_number && k < 8 * i ==> result@[k] == bit(cursor.d()[old(cursor).p() + k / 8], 7 - k % 8),
//@loop 1
    invariant_except_break
        cursor.inner == old(cursor).inner,
        cursor.p() == old(cursor).p() + i + 1,
        cursor.p() <= cursor.d().len(),
        value == cursor.d()[old(cursor).p() + i],
        result@.len() == bits_number,
        bytes_number == bytes_for(bits_number as int),
        bits_number < 0x7_ffff_ffff_ffff, i < bytes_number,
        8 * i + y <= bits_number,
        forall|k: int| 0 <= k < bits_number && k < 8 * i + y ==> result@[k] == bit(cursor.d()[old(cursor).p() + k / 8], 7 - k % 8),
    ensures
        cursor.inner == old(cursor).inner,
        cursor.p() == old(cursor).p() + i + 1,
        cursor.p() <= cursor.d().len(),
        result@.len() == bits_number,
        forall|k: int| 0 <= k < bits_number && k < 8 * (i + 1) ==> result@[k] == bit(cursor.d()[old(cursor).p() + k / 8], 7 - k % 8),
//@at loop 1 begin
    proof { assert((i << 3) == 8 * i) by (bit_vector) requires i < 0x2_0000_0000_0000; }

//@fn metadata::table_metadata::get_numeric_column_count
//@ret r
//@ensures
    [C06] match s_numeric(column_types@, column_types@.len()) { Some(k) => r is Ok && r->Ok_0 == k, None => r is Err },
    [C06] r is Ok ==> r->Ok_0 <= column_types@.len(),
//@loop 0
    invariant
        count <= i, s_numeric(column_types@, i as nat) == Some(count as nat),
//@at loop 0 begin
    proof { lemma_numeric(column_types@, (i + 1) as nat, column_types@.len()); }

//@fn metadata::table_metadata::TableMetadata::parse
//@ret r
//@requires
    alloc_ok(old(cursor).d()), column_types@.len() <= alloc_limit(), column_types@.len() < 0x7_ffff_ffff_ffff,
//@ensures
    [C06] match s_blocks(old(cursor).d(), old(cursor).p(), column_types@, no_meta()) { Some(v) => r is Ok && tmd_v(r->Ok_0) == v, None => r is Err },
//@at loop 0 before
    let ghost (d, p) = (cursor.d(), cursor.p());
//@loop 0
    invariant
        d == cursor.d(), d == old(cursor).d(), p == old(cursor).p(), cursor.p() >= p, cursor.inner == old(cursor).inner, alloc_ok(d),
        column_types@.len() <= alloc_limit(), column_types@.len() < 0x7_ffff_ffff_ffff,
        s_blocks(d, p, column_types@, no_meta()) == s_blocks(d, cursor.p(), column_types@,
            tmd_of(signedness, default_charset, column_charsets, column_names, set_string_values, enum_string_values, geometry_types,
                simple_primary_keys, primary_keys_with_prefix, enum_and_set_default_charset, enum_and_set_column_charsets, column_visibility)),
    decreases todo(d, cursor.p()),

//@fn events::table_map_event::TableMapEvent::parse_metadata
//@ret r
//@requires
    column_types@.len() <= alloc_limit(), column_types@.len() < 0x7_ffff_ffff_ffff,
//@ensures
    [C04,C05] match s_metas(old(cursor).d(), old(cursor).p(), column_types@, column_types@.len()) { Some((v, q)) => r is Ok && r->Ok_0@ == v && final(cursor).p() == q, None => r is Err },
    [C04,C05] final(cursor).inner == old(cursor).inner,
    [C04,C05] r is Ok ==> r->Ok_0@.len() == column_types@.len(),
//@at loop 0 before
    let ghost (d, p) = (cursor.d(), cursor.p());
    proof { assert(metadata@.take(0) =~= Seq::empty()); }
//@loop 0
    invariant
        d == cursor.d(), d == old(cursor).d(), p == old(cursor).p(), cursor.p() >= p, cursor.inner == old(cursor).inner,
        metadata@.len() == column_types@.len(),
        s_metas(d, p, column_types@, i as nat) == Some((metadata@.take(i as int), cursor.p())),
//@at loop 0 begin
    let ghost m0 = metadata@;
    proof { lemma_metas(d, p, column_types@, (i + 1) as nat, column_types@.len()); }
//@at loop 0 end
    proof { assert(metadata@.take(i + 1) =~= m0.take(i as int).push(metadata@[i as int])); }
//@at loop 0 after
    proof { assert(metadata@.take(column_types@.len() as int) =~= metadata@); }

//@fn events::table_map_event::TableMapEvent::parse
//@ret r
//@requires
    alloc_ok(old(cursor).d()), old(cursor).p() == 0,
//@ensures
    [C05,C06] match s_table_map(old(cursor).d()) { Some(v) => r is Ok && tm_v(r->Ok_0) == v, None => r is Err },
    [C05] r is Ok ==> tm_ok(tm_v(r->Ok_0)),

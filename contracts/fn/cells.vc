//@fn events::row_events::col_parser::parse_string
//@ret r
//@requires
    alloc_ok(old(cursor).d()),
//@ensures
    [C03] match s_string(old(cursor).d(), old(cursor).p(), metadata as int) { Some((v, q)) => r is Ok && r->Ok_0@ == v && final(cursor).p() == q, None => r is Err },
    [C03] final(cursor).inner == old(cursor).inner,

//@fn events::row_events::col_parser::parse_bit
//@ret r
//@requires
    alloc_ok(old(cursor).d()),
//@ensures
    [C03] match s_bit(old(cursor).d(), old(cursor).p(), metadata as int) { Some((v, q)) => r is Ok && r->Ok_0@ == v && final(cursor).p() == q, None => r is Err },
    [C03] final(cursor).inner == old(cursor).inner,

//@fn events::row_events::col_parser::parse_blob
//@ret r
//@requires
    alloc_ok(old(cursor).d()),
//@ensures
    [C03] match s_blob(old(cursor).d(), old(cursor).p(), metadata as int) { Some((v, q)) => r is Ok && r->Ok_0@ == v && final(cursor).p() == q, None => r is Err },
    [C03] final(cursor).inner == old(cursor).inner,

//@fn events::row_events::col_parser::parse_year
//@ret r
//@ensures
    [C01] match s_year(old(cursor).d(), old(cursor).p()) { Some((v, q)) => r is Ok && r->Ok_0 == v && final(cursor).p() == q, None => r is Err },
    [C01] final(cursor).inner == old(cursor).inner,

//@fn events::row_events::col_parser::parse_date
//@ret r
//@ensures
    [C01] match s_date(old(cursor).d(), old(cursor).p()) { Some((v, q)) => r is Ok && date_v(r->Ok_0) == v && final(cursor).p() == q, None => r is Err },
    [C01] final(cursor).inner == old(cursor).inner,

//@fn events::row_events::col_parser::parse_time
//@ret r
//@ensures
    [C01] match s_time(old(cursor).d(), old(cursor).p()) { Some((v, q)) => r is Ok && time_v(r->Ok_0) == v && final(cursor).p() == q, None => r is Err },
    [C01] final(cursor).inner == old(cursor).inner,

//@fn events::row_events::col_parser::parse_time2
//@ret r
//@ensures
    [C01] match s_time2(old(cursor).d(), old(cursor).p(), metadata as int) { Some((v, q)) => r is Ok && time_v(r->Ok_0) == v && final(cursor).p() == q, None => r is Err },
    [C01] final(cursor).inner == old(cursor).inner,

//@fn events::row_events::col_parser::parse_date_time
//@ret r
//@ensures
    [C01] match s_datetime(old(cursor).d(), old(cursor).p()) { Some((v, q)) => r is Ok && datetime_v(r->Ok_0) == v && final(cursor).p() == q, None => r is Err },
    [C01] final(cursor).inner == old(cursor).inner,

//@fn events::row_events::col_parser::parse_date_time2
//@ret r
//@ensures
    [C01] match s_datetime2(old(cursor).d(), old(cursor).p(), metadata as int) { Some((v, q)) => r is Ok && datetime_v(r->Ok_0) == v && final(cursor).p() == q, None => r is Err },
    [C01] final(cursor).inner == old(cursor).inner,

//@fn events::row_events::col_parser::parse_timestamp
//@ret r
//@ensures
    [C01] match s_timestamp(old(cursor).d(), old(cursor).p()) { Some((v, q)) => r is Ok && r->Ok_0 == v && final(cursor).p() == q, None => r is Err },
    [C01] final(cursor).inner == old(cursor).inner,

//@fn events::row_events::col_parser::parse_timestamp2
//@ret r
//@ensures
    [C01] match s_timestamp2(old(cursor).d(), old(cursor).p(), metadata as int) { Some((v, q)) => r is Ok && r->Ok_0 == v && final(cursor).p() == q, None => r is Err },
    [C01] final(cursor).inner == old(cursor).inner,

//@fn events::row_events::col_parser::parse_fractional_part
//@ret r
//@ensures
    [C01] match s_micros(old(cursor).d(), old(cursor).p(), metadata as int) { Some((v, q)) => r is Ok && r->Ok_0 == v && final(cursor).p() == q, None => r is Err },
    [C01] r is Ok ==> r->Ok_0 < 16777216,
    [C01] final(cursor).inner == old(cursor).inner,
//@at entry
    proof {
        reveal_with_fuel(be, 5); reveal_with_fuel(pow256, 5);
        assert(ipow(100, 0) == 1 && ipow(100, 1) == 100 && ipow(100, 2) == 10000 && ipow(100, 3) == 1000000) by { reveal_with_fuel(ipow, 5); };
        assert forall|x: int, e: nat| e <= 3 implies #[trigger] (x * ipow(100, e)) == (if e == 0 { x } else if e == 1 { 100 * x } else if e == 2 { 10000 * x } else { 1000000 * x }) by {
            if e == 0 { assert(x * ipow(100, 0) == x); } else if e == 1 { assert(x * ipow(100, 1) == 100 * x); } else if e == 2 { assert(x * ipow(100, 2) == 10000 * x); } else { assert(x * ipow(100, 3) == 1000000 * x); }
        };
    }

//@fn constants::column_type::ColumnType::from_code
//@ret r
//@ensures
    [C01,C02,C03,C04,C05,C25] match r { Ok(t) => type_code(t) == code, Err(_) => !known_type(code as int) },

//@fn events::row_events::actual_string_type::get_actual_string_type
//@ensures
    [C03,C05] *old(column_type) == 254 ==> (*final(column_type), *final(metadata)) == (s_char_type(*old(metadata) as int).0 as u8, s_char_type(*old(metadata) as int).1 as u16),


//@fn events::row_events::decimal::parse_decimal
//@ret r
//@attr #[verifier::rlimit(60)]
//@requires
    alloc_ok(old(cursor).d()),
//@ensures
    [C02] match s_decimal(old(cursor).d(), old(cursor).p(), metadata as int) { Some((v, q)) => r is Ok && r->Ok_0@ == v && final(cursor).p() == q, None => r is Err },
    [C02] final(cursor).inner == old(cursor).inner,
//@at entry
    proof {
        reveal_with_fuel(pow256, 5);
        reveal_strlit("-"); reveal_strlit("0"); reveal_strlit(".");
        assert(COMPRESSED_BYTES@ =~= seq![0u8, 1, 1, 2, 2, 3, 3, 4, 4, 4]);
        assert forall|n: nat| (#[trigger] dec(n)).len() > 0 by { lemma_dec_len(n); }
    }
    let ghost (d, p) = (cursor.d(), cursor.p());
//@loop 0 it=it
    invariant
        it.snapshot.end == length, it.iter.end == length,
        value@.len() == length, 0 < length, cursor.inner == old(cursor).inner, d == cursor.d(),
        forall|k: int| 0 <= k < length ==> #[trigger] value@[k] == (if k < i { flip(first_inverted(d, p, k)) } else { first_inverted(d, p, k) }),
//@loop 1
    invariant
        0 <= lead, buffer.d() == b, b.len() == length, length <= 1000, buffer.p() == lead + 4 * _i, lead + 4 * uncompressed_integral <= length,
        cursor.inner == old(cursor).inner, cursor.p() == p + length,
        result@ == sign + dec_int(b, lead as nat, _i as nat),
        started == (dec_int(b, lead as nat, _i as nat).len() > 0),
        forall|n: nat| (#[trigger] dec(n)).len() > 0,
//@at loop 1 before
    let ghost lead = size as int;
    let ghost sign = if d[p] & 0x80u8 == 0u8 { seq!['-'] } else { Seq::<char>::empty() };
    let ghost b = dec_bytes(d, p, length as nat);
    proof { assert(value@ =~= b); dec_int_0(b, lead as nat); }
    proof { assert(result@ =~= sign + dec_int(b, lead as nat, 0)); }
//@at loop 1 end
    proof {
        let t = dec_int(b, lead as nat, _i as nat);
        dec_int_step(b, lead as nat, _i as nat);
        assert(t.len() == 0 ==> sign + t =~= sign);
        assert(result@ =~= sign + dec_int(b, lead as nat, (_i + 1) as nat));
    }
//@at loop 2 before
    let ghost pre = result@;
    let ghost fp = lead + 4 * uncompressed_integral;
    proof { dec_frac_0(b, fp); assert(result@ =~= pre + dec_frac(b, fp, 0)); }
//@loop 2
    invariant
        0 <= fp, buffer.d() == b, b.len() == length, length <= 1000, buffer.p() == fp + 4 * _i, fp + 4 * uncompressed_fractional + size == length,
        cursor.inner == old(cursor).inner, cursor.p() == p + length,
        result@ == pre + dec_frac(b, fp, _i as nat),
//@at loop 2 end
    proof { dec_frac_step(b, fp, _i as nat); assert(result@ =~= pre + dec_frac(b, fp, (_i + 1) as nat)); }

//@fn extensions::check_remaining
//@ret r
//@ensures
    [C25] r is Ok <==> have(cursor.d(), cursor.p(), size as int),
    [C25] cursor.d().len() <= 0x7fff_ffff_ffff,

//@fn extensions::read_sized_uint
//@ret r
//@ensures
    [C03] match (if 1 <= size <= 8 { s_num(false, old(cursor).d(), old(cursor).p(), size as nat) } else { None }) {
        Some((v, q)) => r is Ok && r->Ok_0 == v && final(cursor).p() == q,
        None => r is Err,
    },
    [C03] final(cursor).inner == old(cursor).inner,

//@fn extensions::read_null_term_string
//@ret r
//@ensures
    [C22,C24] match s_zstr(old(cursor).d(), old(cursor).p()) {
        Some((v, q)) => r is Ok && r->Ok_0@ == v && final(cursor).p() == q,
        None => r is Err,
    },
    [C22,C24] final(cursor).inner == old(cursor).inner,

//@fn extensions::write_null_term_string
//@ret r
//@requires
    old(cursor).pos == (*old(cursor).inner)@.len(),
//@ensures
    [C20] r is Ok,
    [C20] final(cursor).pos == old(cursor).pos + utf8(str@).len() + 1,
    [C20] (*final(cursor).inner)@ == (*old(cursor).inner)@ + (utf8(str@) + seq![0u8]),
    [C20] *final(final(cursor).inner) == *final(old(cursor).inner),

//@fn extensions::read_string
//@ret r
//@requires
    alloc_ok(old(cursor).d()),
//@ensures
    [C03,C05,C11,C24] match s_text(old(cursor).d(), old(cursor).p(), size as int) {
        Some((v, q)) => r is Ok && r->Ok_0@ == v && final(cursor).p() == q,
        None => r is Err,
    },
    [C03,C05,C11,C24] final(cursor).inner == old(cursor).inner,

//@fn extensions::read_len_enc_str
//@ret r
//@requires
    alloc_ok(old(cursor).d()),
//@ensures
    [C06,C19,C24] match s_lenstr(old(cursor).d(), old(cursor).p()) {
        Some((v, q)) => r is Ok && r->Ok_0@ == v && final(cursor).p() == q,
        None => r is Err,
    },
    [C06,C19,C24] final(cursor).inner == old(cursor).inner,

//@fn extensions::read_len_enc_num
//@ret r
//@ensures
    [C04,C05,C06,C24] match s_lenenc(old(cursor).d(), old(cursor).p()) {
        Some((v, q)) => r is Ok && r->Ok_0 == v && final(cursor).p() == q,
        None => r is Err,
    },
    [C04,C05,C06,C24] final(cursor).inner == old(cursor).inner,

//@fn extensions::read_bitmap_little_endian
//@ret r
//@requires
    alloc_ok(old(cursor).d()),
//@ensures
    [C04,C05] match s_flags_le(old(cursor).d(), old(cursor).p(), bits_number as nat) {
        Some((v, q)) => r is Ok && r->Ok_0@ =~= v && final(cursor).p() == q,
        None => r is Err,
    },
    [C04,C05] final(cursor).inner == old(cursor).inner,
//@loop 0
    invariant
        cursor.inner == old(cursor).inner,
        cursor.p() == old(cursor).p() + i,
        result@.len() == bits_number,
        bytes_number == bytes_for(bits_number as int),
        bits_number < 0x10_0000_0000_0000,
        i > 0 ==> cursor.p() <= cursor.d().len(),
        forall|k: int| 0 <= k < bits_number && k < 8 * i ==> result@[k] == bit(cursor.d()[old(cursor).p() + k / 8], k % 8),
//@loop 1
    invariant_except_break
        cursor.inner == old(cursor).inner,
        cursor.p() == old(cursor).p() + i + 1,
        cursor.p() <= cursor.d().len(),
        value == cursor.d()[old(cursor).p() + i],
        result@.len() == bits_number,
        bytes_number == bytes_for(bits_number as int),
        bits_number < 0x10_0000_0000_0000, i < bytes_number,
        8 * i + y <= bits_number,
        forall|k: int| 0 <= k < bits_number && k < 8 * i + y ==> result@[k] == bit(cursor.d()[old(cursor).p() + k / 8], k % 8),
    ensures
        cursor.inner == old(cursor).inner,
        cursor.p() == old(cursor).p() + i + 1,
        cursor.p() <= cursor.d().len(),
        result@.len() == bits_number,
        forall|k: int| 0 <= k < bits_number && k < 8 * (i + 1) ==> result@[k] == bit(cursor.d()[old(cursor).p() + k / 8], k % 8),
//@at loop 1 begin
    proof { assert((i << 3) == 8 * i) by (bit_vector) requires i < 0x2_0000_0000_0000; }

//@fn extensions::read_bitmap_big_endian
//@ret r
//@requires
    alloc_ok(old(cursor).d()),
//@ensures
    [C03] match s_flags_be(old(cursor).d(), old(cursor).p(), bits_number as nat) {
        Some((v, q)) => r is Ok && r->Ok_0@ =~= v && final(cursor).p() == q,
        None => r is Err,
    },
    [C03] final(cursor).inner == old(cursor).inner,
//@loop 0
    invariant
        cursor.inner == old(cursor).inner,
        cursor.p() == old(cursor).p() + i,
        result@.len() == bits_number,
        bytes_number == bytes_for(bits_number as int),
        bits_number < 0x10_0000_0000_0000,
        i > 0 ==> cursor.p() <= cursor.d().len(),
        forall|k: int| 0 <= k < bits_number && k >= 8 * (bytes_number - i) ==> result@[k] == bit(cursor.d()[old(cursor).p() + bytes_number - 1 - k / 8], k % 8),
//@loop 1
    invariant
        cursor.inner == old(cursor).inner,
        cursor.p() == old(cursor).p() + i + 1,
        cursor.p() <= cursor.d().len(),
        value == cursor.d()[old(cursor).p() + i],
        result@.len() == bits_number,
        bytes_number == bytes_for(bits_number as int),
        bits_number < 0x10_0000_0000_0000, i < bytes_number,
        forall|k: int| 0 <= k < bits_number && (k >= 8 * (bytes_number - i) || 8 * (bytes_number - i - 1) <= k < 8 * (bytes_number - i - 1) + y)
            ==> result@[k] == bit(cursor.d()[old(cursor).p() + bytes_number - 1 - k / 8], k % 8),
//@at loop 1 begin
    proof { let z = (bytes_number - i - 1) as usize; assert((z << 3) == 8 * z) by (bit_vector) requires z < 0x2_0000_0000_0000; }

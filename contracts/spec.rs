// The specification: what the formats and protocols say, written independently of the code.
pub mod spec {
#[allow(unused_imports)] pub use crate::bits::*;
#[allow(unused_imports)] pub use crate::spec_ev::*;
#[allow(unused_imports)] pub use crate::spec_row::*;
#[allow(unused_imports)] pub use crate::spec_table::*;
#[allow(unused_imports)] pub use crate::spec_gtid::*;
#[allow(unused_imports)] pub use crate::spec_parser::*;
#[allow(unused_imports)] pub use crate::spec_client::*;
#[allow(unused_imports)] pub use crate::spec_net::*;
#[allow(unused_imports)] pub use crate::spec_session::*;
use vstd::prelude::*;
#[allow(unused_imports)] use crate::shim::*;
#[allow(unused_imports)] pub use crate::shim::{le, be, num, le_bytes, pow256, digit, dec, zeros, zpad, is_digit, digit_val, all_digits, undec, num_text,
    ascii, utf8, is_ws, ltrim, rtrim, trim, split, without, join, contains_text, strs, refs, text_le, hex_digit, hex_val, hex_text, is_hex_text, unhex,
    sha1_of, sha256_of, alloc_limit, flat, ipow, sorted_by, as_pred, BytesLike};
#[allow(unused_imports)] pub use crate::shim::std::io::{tail, until, seek_to, bytes_at, f32_of, f64_of};
#[allow(unused_imports)] use crate::shim::std::io::{Cursor, SeekFrom};
#[allow(unused_imports)] use crate::shim::byteorder::{LittleEndian, BigEndian};
#[allow(unused_imports)] pub use vstd::utf8::{valid_utf8, decode_utf8, encode_utf8};
verus! {
broadcast use {crate::shim::group_shim, vstd::group_vstd_default};

/// a decoder: the value at position p of d and the position after it, or None if d is malformed there
pub type Dec<V> = Option<(V, int)>;

/// inputs that are small enough for the (arbitrary) allocation limit: every buffer has at most this many items
pub open spec fn alloc_ok(d: Seq<u8>) -> bool { 8 * d.len() + 0x10000 <= alloc_limit() }

pub open spec fn have(d: Seq<u8>, p: int, n: int) -> bool { n <= 0 || d.len() - p >= n }

pub open spec fn s_num(big: bool, d: Seq<u8>, p: int, n: nat) -> Dec<nat> {
    if have(d, p, n as int) { Some((num(big, d, p, n), p + n)) } else { None }
}
pub open spec fn s_u8(d: Seq<u8>, p: int) -> Dec<u8> {
    if d.len() - p >= 1 { Some((d[p], p + 1)) } else { None }
}
/// text of n bytes
pub open spec fn s_text(d: Seq<u8>, p: int, n: int) -> Dec<Seq<char>> {
    if have(d, p, n) && valid_utf8(bytes_at(d, p, n)) { Some((decode_utf8(bytes_at(d, p, n)), p + n)) } else { None }
}
pub open spec fn s_bytes(d: Seq<u8>, p: int, n: int) -> Dec<Seq<u8>> {
    if have(d, p, n) { Some((bytes_at(d, p, n), p + n)) } else { None }
}
/// text of all remaining bytes
pub open spec fn s_rest(d: Seq<u8>, p: int) -> Dec<Seq<char>> {
    if valid_utf8(tail(d, p)) { Some((decode_utf8(tail(d, p)), p + tail(d, p).len())) } else { None }
}
/// text up to a zero byte (or the end)
pub open spec fn cut0(b: Seq<u8>) -> Seq<u8> { if b.len() > 0 && b.last() == 0 { b.drop_last() } else { b } }
pub open spec fn s_zstr(d: Seq<u8>, p: int) -> Dec<Seq<char>> {
    let b = until(d, p, 0);
    if valid_utf8(cut0(b)) { Some((decode_utf8(cut0(b)), p + b.len())) } else { None }
}
/// length-encoded integer
pub open spec fn s_lenenc(d: Seq<u8>, p: int) -> Dec<nat> {
    match s_u8(d, p) {
        None => None,
        Some((b, q)) =>
            if b < 0xFB { Some((b as nat, q)) }
            else if b == 0xFC { s_num(false, d, q, 2) }
            else if b == 0xFD { s_num(false, d, q, 3) }
            else if b == 0xFE { s_num(false, d, q, 8) }
            else { None },
    }
}
pub open spec fn s_lenstr(d: Seq<u8>, p: int) -> Dec<Seq<char>> {
    match s_lenenc(d, p) { None => None, Some((n, q)) => s_text(d, q, n as int) }
}
/// bit k of a byte, the least significant bit first
pub open spec fn bit(b: u8, k: int) -> bool { (b & (1u8 << (k as u8))) > 0 }
pub open spec fn bytes_for(n: int) -> int { (n + 7) / 8 }
/// n flags, the least significant bit of the first byte first
pub open spec fn s_flags_le(d: Seq<u8>, p: int, n: nat) -> Dec<Seq<bool>> {
    if have(d, p, bytes_for(n as int)) { Some((Seq::new(n, |i: int| bit(d[p + i / 8], i % 8)), p + bytes_for(n as int))) } else { None }
}
/// n flags, the least significant bit of the last byte first
pub open spec fn s_flags_be(d: Seq<u8>, p: int, n: nat) -> Dec<Seq<bool>> {
    if have(d, p, bytes_for(n as int)) {
        Some((Seq::new(n, |i: int| bit(d[p + bytes_for(n as int) - 1 - i / 8], i % 8)), p + bytes_for(n as int)))
    } else { None }
}
/// n flags, the most significant bit of the first byte first
pub open spec fn s_flags_rev(d: Seq<u8>, p: int, n: nat) -> Dec<Seq<bool>> {
    if have(d, p, bytes_for(n as int)) { Some((Seq::new(n, |i: int| bit(d[p + i / 8], 7 - i % 8)), p + bytes_for(n as int))) } else { None }
}

// ---------------------------------------------------------------- errors
impl vstd::std_specs::convert::FromSpecImpl<crate::shim::std::io::Error> for crate::errors::Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: crate::shim::std::io::Error) -> Self { crate::errors::Error::IoError(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<crate::shim::std::str::Utf8Error> for crate::errors::Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: crate::shim::std::str::Utf8Error) -> Self { crate::errors::Error::Utf8Error(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<crate::shim::FromUtf8Error> for crate::errors::Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: crate::shim::FromUtf8Error) -> Self { crate::errors::Error::FromUtf8Error(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<crate::shim::hex::FromHexError> for crate::errors::Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: crate::shim::hex::FromHexError) -> Self { crate::errors::Error::FromHexError(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<crate::shim::ParseIntError> for crate::errors::Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: crate::shim::ParseIntError) -> Self { crate::errors::Error::ParseIntError(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<crate::shim::openssl::error::ErrorStack> for crate::errors::Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: crate::shim::openssl::error::ErrorStack) -> Self { crate::errors::Error::ErrorStack(e) }
}
}
}

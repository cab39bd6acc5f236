// Shifts and masks as arithmetic (proved, used by the numeric decoders).
pub mod bits {
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use vstd::bits::*;
verus! {
pub open spec fn p2(k: int) -> int {
    if k == 0 { 0x1 } else if k == 1 { 0x2 } else if k == 2 { 0x4 } else if k == 3 { 0x8 } else if k == 4 { 0x10 } else if k == 5 { 0x20 }
    else if k == 6 { 0x40 } else if k == 7 { 0x80 } else if k == 8 { 0x100 } else if k == 9 { 0x200 } else if k == 10 { 0x400 } else if k == 11 { 0x800 }
    else if k == 12 { 0x1000 } else if k == 13 { 0x2000 } else if k == 14 { 0x4000 } else if k == 15 { 0x8000 } else if k == 16 { 0x1_0000 }
    else if k == 17 { 0x2_0000 } else if k == 18 { 0x4_0000 } else if k == 19 { 0x8_0000 } else if k == 20 { 0x10_0000 } else if k == 21 { 0x20_0000 }
    else if k == 22 { 0x40_0000 } else if k == 23 { 0x80_0000 } else if k == 24 { 0x100_0000 }
    else { pow2(k as nat) as int }
}
pub proof fn p2_is(k: int) requires 0 <= k < 64 ensures p2(k) == pow2(k as nat), p2(k) >= 1 { lemma2_to64(); lemma_pow2_pos(k as nat); }
pub broadcast proof fn shr_u64(x: u64, k: u64) requires k < 64 ensures #[trigger] (x >> k) == x as int / p2(k as int) { p2_is(k as int); lemma_u64_shr_is_div(x, k); }
pub broadcast proof fn shr_u32(x: u32, k: u32) requires k < 32 ensures #[trigger] (x >> k) == x as int / p2(k as int) { p2_is(k as int); lemma_u32_shr_is_div(x, k); }
pub broadcast proof fn shr_u16(x: u16, k: u16) requires k < 16 ensures #[trigger] (x >> k) == x as int / p2(k as int) { p2_is(k as int); lemma_u16_shr_is_div(x, k); }
pub broadcast proof fn shr_u8(x: u8, k: u8) requires k < 8 ensures #[trigger] (x >> k) == x as int / p2(k as int) { p2_is(k as int); lemma_u8_shr_is_div(x, k); }
pub broadcast proof fn shl_u64(x: u64, k: u64) requires k < 64, x * p2(k as int) <= u64::MAX ensures #[trigger] (x << k) == x * p2(k as int) { p2_is(k as int); lemma_u64_shl_is_mul(x, k); }
pub broadcast proof fn shl_u32(x: u32, k: u32) requires k < 32, x * p2(k as int) <= u32::MAX ensures #[trigger] (x << k) == x * p2(k as int) { p2_is(k as int); lemma_u32_shl_is_mul(x, k); }
pub broadcast proof fn shl_usize(x: usize, k: usize) requires k < 64, x * p2(k as int) <= u64::MAX ensures #[trigger] (x << k) == x * p2(k as int) { p2_is(k as int); lemma_usize_shl_is_mul(x, k); }
pub broadcast proof fn shl_u8(x: u8, k: u8) requires k < 8, x * p2(k as int) <= u8::MAX ensures #[trigger] (x << k) == x * p2(k as int) { p2_is(k as int); lemma_u8_shl_is_mul(x, k); }
pub broadcast proof fn and_u8(x: u8, m: u8) requires m == 1 || m == 3 || m == 7 || m == 0xF || m == 0x1F || m == 0x3F || m == 0x7F ensures #[trigger] (x & m) == x as int % (m + 1) { assert(m == 1 ==> (x & m) == x % 0x2u8) by (bit_vector); assert(m == 3 ==> (x & m) == x % 0x4u8) by (bit_vector); assert(m == 7 ==> (x & m) == x % 0x8u8) by (bit_vector); assert(m == 0xF ==> (x & m) == x % 0x10u8) by (bit_vector); assert(m == 0x1F ==> (x & m) == x % 0x20u8) by (bit_vector); assert(m == 0x3F ==> (x & m) == x % 0x40u8) by (bit_vector); assert(m == 0x7F ==> (x & m) == x % 0x80u8) by (bit_vector); assert(m == 0xFF ==> (x & m) == x) by (bit_vector); }
pub broadcast proof fn and_u16(x: u16, m: u16) requires m == 1 || m == 3 || m == 7 || m == 0xF || m == 0x1F || m == 0x3F || m == 0x7F || m == 0xFF || m == 0x1FF || m == 0x3FF || m == 0xFFF ensures #[trigger] (x & m) == x as int % (m + 1) { assert(m == 1 ==> (x & m) == x % 0x2u16) by (bit_vector); assert(m == 3 ==> (x & m) == x % 0x4u16) by (bit_vector); assert(m == 7 ==> (x & m) == x % 0x8u16) by (bit_vector); assert(m == 0xF ==> (x & m) == x % 0x10u16) by (bit_vector); assert(m == 0x1F ==> (x & m) == x % 0x20u16) by (bit_vector); assert(m == 0x3F ==> (x & m) == x % 0x40u16) by (bit_vector); assert(m == 0x7F ==> (x & m) == x % 0x80u16) by (bit_vector); assert(m == 0xFF ==> (x & m) == x % 0x100u16) by (bit_vector); assert(m == 0x1FF ==> (x & m) == x % 0x200u16) by (bit_vector); assert(m == 0x3FF ==> (x & m) == x % 0x400u16) by (bit_vector); assert(m == 0xFFF ==> (x & m) == x % 0x1000u16) by (bit_vector); }
pub broadcast proof fn and_u32(x: u32, m: u32) requires m == 1 || m == 3 || m == 7 || m == 0xF || m == 0x1F || m == 0x3F || m == 0x7F || m == 0xFF || m == 0x1FF || m == 0x3FF || m == 0xFFF || m == 0xFFFF || m == 0x1_FFFF || m == 0xFF_FFFF || m == 0xFFF_FFFF ensures #[trigger] (x & m) == x as int % (m + 1) { assert(m == 1 ==> (x & m) == x % 0x2u32) by (bit_vector); assert(m == 3 ==> (x & m) == x % 0x4u32) by (bit_vector); assert(m == 7 ==> (x & m) == x % 0x8u32) by (bit_vector); assert(m == 0xF ==> (x & m) == x % 0x10u32) by (bit_vector); assert(m == 0x1F ==> (x & m) == x % 0x20u32) by (bit_vector); assert(m == 0x3F ==> (x & m) == x % 0x40u32) by (bit_vector); assert(m == 0x7F ==> (x & m) == x % 0x80u32) by (bit_vector); assert(m == 0xFF ==> (x & m) == x % 0x100u32) by (bit_vector); assert(m == 0x1FF ==> (x & m) == x % 0x200u32) by (bit_vector); assert(m == 0x3FF ==> (x & m) == x % 0x400u32) by (bit_vector); assert(m == 0xFFF ==> (x & m) == x % 0x1000u32) by (bit_vector); assert(m == 0xFFFF ==> (x & m) == x % 0x10000u32) by (bit_vector); assert(m == 0x1_FFFF ==> (x & m) == x % 0x20000u32) by (bit_vector); assert(m == 0xFF_FFFF ==> (x & m) == x % 0x1000000u32) by (bit_vector); assert(m == 0xFFF_FFFF ==> (x & m) == x % 0x10000000u32) by (bit_vector); }
pub broadcast proof fn and_u64(x: u64, m: u64) requires m == 1 || m == 3 || m == 7 || m == 0xF || m == 0x1F || m == 0x3F || m == 0x7F || m == 0xFF || m == 0x1FF || m == 0x3FF || m == 0xFFF || m == 0xFFFF || m == 0x1_FFFF || m == 0xFF_FFFF || m == 0xFFF_FFFF ensures #[trigger] (x & m) == x as int % (m + 1) { assert(m == 1 ==> (x & m) == x % 0x2u64) by (bit_vector); assert(m == 3 ==> (x & m) == x % 0x4u64) by (bit_vector); assert(m == 7 ==> (x & m) == x % 0x8u64) by (bit_vector); assert(m == 0xF ==> (x & m) == x % 0x10u64) by (bit_vector); assert(m == 0x1F ==> (x & m) == x % 0x20u64) by (bit_vector); assert(m == 0x3F ==> (x & m) == x % 0x40u64) by (bit_vector); assert(m == 0x7F ==> (x & m) == x % 0x80u64) by (bit_vector); assert(m == 0xFF ==> (x & m) == x % 0x100u64) by (bit_vector); assert(m == 0x1FF ==> (x & m) == x % 0x200u64) by (bit_vector); assert(m == 0x3FF ==> (x & m) == x % 0x400u64) by (bit_vector); assert(m == 0xFFF ==> (x & m) == x % 0x1000u64) by (bit_vector); assert(m == 0xFFFF ==> (x & m) == x % 0x10000u64) by (bit_vector); assert(m == 0x1_FFFF ==> (x & m) == x % 0x20000u64) by (bit_vector); assert(m == 0xFF_FFFF ==> (x & m) == x % 0x1000000u64) by (bit_vector); assert(m == 0xFFF_FFFF ==> (x & m) == x % 0x10000000u64) by (bit_vector); }
pub broadcast proof fn cast_u16_u8(x: u16) ensures #[trigger] (x as u8) == x % 0x100 { assert((x as u8) == x % 0x100u16) by (bit_vector); }
pub broadcast proof fn cast_u32_u8(x: u32) ensures #[trigger] (x as u8) == x % 0x100 { assert((x as u8) == x % 0x100u32) by (bit_vector); }
pub broadcast proof fn cast_u32_u16(x: u32) ensures #[trigger] (x as u16) == x % 0x1_0000 { assert((x as u16) == x % 0x1_0000u32) by (bit_vector); }
pub broadcast proof fn cast_u64_u8(x: u64) ensures #[trigger] (x as u8) == x % 0x100 { assert((x as u8) == x % 0x100u64) by (bit_vector); }
pub broadcast proof fn cast_u64_u16(x: u64) ensures #[trigger] (x as u16) == x % 0x1_0000 { assert((x as u16) == x % 0x1_0000u64) by (bit_vector); }
pub broadcast proof fn cast_u64_u32(x: u64) ensures #[trigger] (x as u32) == x % 0x1_0000_0000 { assert((x as u32) == x % 0x1_0000_0000u64) by (bit_vector); }
pub broadcast proof fn cast_usize_u8(x: usize) ensures #[trigger] (x as u8) == x % 0x100 { assert((x as u8) == x % 0x100usize) by (bit_vector); }
pub broadcast proof fn cast_usize_u16(x: usize) ensures #[trigger] (x as u16) == x % 0x1_0000 { assert((x as u16) == x % 0x1_0000usize) by (bit_vector); }
pub broadcast proof fn cast_usize_u32(x: usize) ensures #[trigger] (x as u32) == x % 0x1_0000_0000 { assert((x as u32) == x % 0x1_0000_0000usize) by (bit_vector); }
pub broadcast proof fn sign_i24(x: i32) requires -0x80_0000 <= x < 0x80_0000 ensures #[trigger] ((x << 8i32) >> 8i32) == x { assert(-0x80_0000 <= x < 0x80_0000 ==> ((x << 8i32) >> 8i32) == x) by (bit_vector); }
pub broadcast proof fn or_low(x: u16, y: u16) requires x < 256, y % 256 == 0 ensures #[trigger] (x | y) == x + y { assert(x < 256 && y % 256 == 0 ==> (x | y) == add(x, y)) by (bit_vector); assert(x < 256 && y % 256 == 0 ==> y <= 0xff00) by (bit_vector); }
pub broadcast proof fn char_kind(b: u8) ensures (#[trigger] (b & 0x30) != 0x30) <==> (b as int / 16) % 4 != 3 { assert(((b & 0x30) != 0x30) <==> (b / 16) % 4 != 3) by (bit_vector); }
pub broadcast proof fn char_type(b: u8) ensures #[trigger] (b | 0x30) == b as int / 64 * 64 + 48 + b as int % 16 { assert((b | 0x30) == add(add(mul(b / 64, 64), 48), b % 16)) by (bit_vector); }
pub broadcast proof fn char_len(b: u16) ensures #[trigger] (((b & 0x30) ^ 0x30) << 4) == 256 * (3 - (b as int / 16) % 4) { assert((((b & 0x30) ^ 0x30) << 4) == mul(256, sub(3, (b / 16) % 4))) by (bit_vector); }
pub broadcast proof fn or_apart32(x: u32, y: u32) requires (x < 0x100 && y as int % 0x100 == 0) || (y < 0x100 && x as int % 0x100 == 0) || (x < 0x10000 && y as int % 0x10000 == 0) || (y < 0x10000 && x as int % 0x10000 == 0) || (x < 0x1000000 && y as int % 0x1000000 == 0) || (y < 0x1000000 && x as int % 0x1000000 == 0) ensures #[trigger] (x | y) == x + y { assert(x < 0x100u32 && y % 0x100u32 == 0 ==> (x | y) == add(x, y)) by (bit_vector); assert(x < 0x100u32 && y % 0x100u32 == 0 ==> y <= 0xffffff00u32) by (bit_vector); assert(y < 0x100u32 && x % 0x100u32 == 0 ==> (x | y) == add(x, y)) by (bit_vector); assert(y < 0x100u32 && x % 0x100u32 == 0 ==> x <= 0xffffff00u32) by (bit_vector); assert(x < 0x10000u32 && y % 0x10000u32 == 0 ==> (x | y) == add(x, y)) by (bit_vector); assert(x < 0x10000u32 && y % 0x10000u32 == 0 ==> y <= 0xffff0000u32) by (bit_vector); assert(y < 0x10000u32 && x % 0x10000u32 == 0 ==> (x | y) == add(x, y)) by (bit_vector); assert(y < 0x10000u32 && x % 0x10000u32 == 0 ==> x <= 0xffff0000u32) by (bit_vector); assert(x < 0x1000000u32 && y % 0x1000000u32 == 0 ==> (x | y) == add(x, y)) by (bit_vector); assert(x < 0x1000000u32 && y % 0x1000000u32 == 0 ==> y <= 0xff000000u32) by (bit_vector); assert(y < 0x1000000u32 && x % 0x1000000u32 == 0 ==> (x | y) == add(x, y)) by (bit_vector); assert(y < 0x1000000u32 && x % 0x1000000u32 == 0 ==> x <= 0xff000000u32) by (bit_vector); }
pub broadcast proof fn or_apart64(x: u64, y: u64) requires (x < 0x100 && y as int % 0x100 == 0) || (y < 0x100 && x as int % 0x100 == 0) || (x < 0x10000 && y as int % 0x10000 == 0) || (y < 0x10000 && x as int % 0x10000 == 0) || (x < 0x1000000 && y as int % 0x1000000 == 0) || (y < 0x1000000 && x as int % 0x1000000 == 0) || (x < 0x100000000 && y as int % 0x100000000 == 0) || (y < 0x100000000 && x as int % 0x100000000 == 0) || (x < 0x10000000000 && y as int % 0x10000000000 == 0) || (y < 0x10000000000 && x as int % 0x10000000000 == 0) || (x < 0x1000000000000 && y as int % 0x1000000000000 == 0) || (y < 0x1000000000000 && x as int % 0x1000000000000 == 0) || (x < 0x100000000000000 && y as int % 0x100000000000000 == 0) || (y < 0x100000000000000 && x as int % 0x100000000000000 == 0) ensures #[trigger] (x | y) == x + y { assert(x < 0x100u64 && y % 0x100u64 == 0 ==> (x | y) == add(x, y)) by (bit_vector); assert(x < 0x100u64 && y % 0x100u64 == 0 ==> y <= 0xffffffffffffff00u64) by (bit_vector); assert(y < 0x100u64 && x % 0x100u64 == 0 ==> (x | y) == add(x, y)) by (bit_vector); assert(y < 0x100u64 && x % 0x100u64 == 0 ==> x <= 0xffffffffffffff00u64) by (bit_vector); assert(x < 0x10000u64 && y % 0x10000u64 == 0 ==> (x | y) == add(x, y)) by (bit_vector); assert(x < 0x10000u64 && y % 0x10000u64 == 0 ==> y <= 0xffffffffffff0000u64) by (bit_vector); assert(y < 0x10000u64 && x % 0x10000u64 == 0 ==> (x | y) == add(x, y)) by (bit_vector); assert(y < 0x10000u64 && x % 0x10000u64 == 0 ==> x <= 0xffffffffffff0000u64) by (bit_vector); assert(x < 0x1000000u64 && y % 0x1000000u64 == 0 ==> (x | y) == add(x, y)) by (bit_vector); assert(x < 0x1000000u64 && y % 0x1000000u64 == 0 ==> y <= 0xffffffffff000000u64) by (bit_vector); assert(y < 0x1000000u64 && x % 0x1000000u64 == 0 ==> (x | y) == add(x, y)) by (bit_vector); assert(y < 0x1000000u64 && x % 0x1000000u64 == 0 ==> x <= 0xffffffffff000000u64) by (bit_vector); assert(x < 0x100000000u64 && y % 0x100000000u64 == 0 ==> (x | y) == add(x, y)) by (bit_vector); assert(x < 0x100000000u64 && y % 0x100000000u64 == 0 ==> y <= 0xffffffff00000000u64) by (bit_vector); assert(y < 0x100000000u64 && x % 0x100000000u64 == 0 ==> (x | y) == add(x, y)) by (bit_vector); assert(y < 0x100000000u64 && x % 0x100000000u64 == 0 ==> x <= 0xffffffff00000000u64) by (bit_vector); assert(x < 0x10000000000u64 && y % 0x10000000000u64 == 0 ==> (x | y) == add(x, y)) by (bit_vector); assert(x < 0x10000000000u64 && y % 0x10000000000u64 == 0 ==> y <= 0xffffff0000000000u64) by (bit_vector); assert(y < 0x10000000000u64 && x % 0x10000000000u64 == 0 ==> (x | y) == add(x, y)) by (bit_vector); assert(y < 0x10000000000u64 && x % 0x10000000000u64 == 0 ==> x <= 0xffffff0000000000u64) by (bit_vector); assert(x < 0x1000000000000u64 && y % 0x1000000000000u64 == 0 ==> (x | y) == add(x, y)) by (bit_vector); assert(x < 0x1000000000000u64 && y % 0x1000000000000u64 == 0 ==> y <= 0xffff000000000000u64) by (bit_vector); assert(y < 0x1000000000000u64 && x % 0x1000000000000u64 == 0 ==> (x | y) == add(x, y)) by (bit_vector); assert(y < 0x1000000000000u64 && x % 0x1000000000000u64 == 0 ==> x <= 0xffff000000000000u64) by (bit_vector); assert(x < 0x100000000000000u64 && y % 0x100000000000000u64 == 0 ==> (x | y) == add(x, y)) by (bit_vector); assert(x < 0x100000000000000u64 && y % 0x100000000000000u64 == 0 ==> y <= 0xff00000000000000u64) by (bit_vector); assert(y < 0x100000000000000u64 && x % 0x100000000000000u64 == 0 ==> (x | y) == add(x, y)) by (bit_vector); assert(y < 0x100000000000000u64 && x % 0x100000000000000u64 == 0 ==> x <= 0xff00000000000000u64) by (bit_vector); }
pub broadcast proof fn not_u8(x: u8) ensures #[trigger] (!x) == x ^ 0xFFu8 { assert((!x) == x ^ 0xFFu8) by (bit_vector); }
pub broadcast proof fn top_u24(x: u32) requires x < 0x100_0000 ensures #[trigger] (x >> 23u32) == (if x >= 0x80_0000 { 1u32 } else { 0u32 }) { assert(x < 0x100_0000 ==> (x >> 23u32) == (if x >= 0x80_0000 { 1u32 } else { 0u32 })) by (bit_vector); }
pub broadcast proof fn or_bit(x: u64, m: u64) requires m == 0x8 || m == 0x200 || m == 0x800 || m == 0x8000 || m == 0x80000, (x as int / m as int) % 2 == 0 ensures #[trigger] (x | m) == x + m { assert(m == 0x8 && (x / 0x8u64) % 2 == 0 ==> (x | m) == add(x, m) && x <= 0xffff_ffff_ffff_ffffu64 - m) by (bit_vector); assert(m == 0x200 && (x / 0x200u64) % 2 == 0 ==> (x | m) == add(x, m) && x <= 0xffff_ffff_ffff_ffffu64 - m) by (bit_vector); assert(m == 0x800 && (x / 0x800u64) % 2 == 0 ==> (x | m) == add(x, m) && x <= 0xffff_ffff_ffff_ffffu64 - m) by (bit_vector); assert(m == 0x8000 && (x / 0x8000u64) % 2 == 0 ==> (x | m) == add(x, m) && x <= 0xffff_ffff_ffff_ffffu64 - m) by (bit_vector); assert(m == 0x80000 && (x / 0x80000u64) % 2 == 0 ==> (x | m) == add(x, m) && x <= 0xffff_ffff_ffff_ffffu64 - m) by (bit_vector); }
pub broadcast proof fn and_bit8(x: u8, m: u8) requires m == 0x1 || m == 0x2 || m == 0x4 || m == 0x8 || m == 0x10 || m == 0x20 || m == 0x40 || m == 0x80 ensures #[trigger] (x & m) == (if (x as int / m as int) % 2 == 1 { m as int } else { 0 }) { assert((x & 0x1u8) == (if (x / 0x1u8) % 2 == 1 { 0x1u8 } else { 0u8 })) by (bit_vector); assert((x & 0x2u8) == (if (x / 0x2u8) % 2 == 1 { 0x2u8 } else { 0u8 })) by (bit_vector); assert((x & 0x4u8) == (if (x / 0x4u8) % 2 == 1 { 0x4u8 } else { 0u8 })) by (bit_vector); assert((x & 0x8u8) == (if (x / 0x8u8) % 2 == 1 { 0x8u8 } else { 0u8 })) by (bit_vector); assert((x & 0x10u8) == (if (x / 0x10u8) % 2 == 1 { 0x10u8 } else { 0u8 })) by (bit_vector); assert((x & 0x20u8) == (if (x / 0x20u8) % 2 == 1 { 0x20u8 } else { 0u8 })) by (bit_vector); assert((x & 0x40u8) == (if (x / 0x40u8) % 2 == 1 { 0x40u8 } else { 0u8 })) by (bit_vector); assert((x & 0x80u8) == (if (x / 0x80u8) % 2 == 1 { 0x80u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn and_bit16(x: u16, m: u16) requires m == 0x1 || m == 0x2 || m == 0x4 || m == 0x8 || m == 0x10 || m == 0x20 || m == 0x40 || m == 0x80 || m == 0x100 || m == 0x200 || m == 0x400 || m == 0x800 || m == 0x1000 || m == 0x2000 || m == 0x4000 || m == 0x8000 ensures #[trigger] (x & m) == (if (x as int / m as int) % 2 == 1 { m as int } else { 0 }) { assert((x & 0x1u16) == (if (x / 0x1u16) % 2 == 1 { 0x1u16 } else { 0u16 })) by (bit_vector); assert((x & 0x2u16) == (if (x / 0x2u16) % 2 == 1 { 0x2u16 } else { 0u16 })) by (bit_vector); assert((x & 0x4u16) == (if (x / 0x4u16) % 2 == 1 { 0x4u16 } else { 0u16 })) by (bit_vector); assert((x & 0x8u16) == (if (x / 0x8u16) % 2 == 1 { 0x8u16 } else { 0u16 })) by (bit_vector); assert((x & 0x10u16) == (if (x / 0x10u16) % 2 == 1 { 0x10u16 } else { 0u16 })) by (bit_vector); assert((x & 0x20u16) == (if (x / 0x20u16) % 2 == 1 { 0x20u16 } else { 0u16 })) by (bit_vector); assert((x & 0x40u16) == (if (x / 0x40u16) % 2 == 1 { 0x40u16 } else { 0u16 })) by (bit_vector); assert((x & 0x80u16) == (if (x / 0x80u16) % 2 == 1 { 0x80u16 } else { 0u16 })) by (bit_vector); assert((x & 0x100u16) == (if (x / 0x100u16) % 2 == 1 { 0x100u16 } else { 0u16 })) by (bit_vector); assert((x & 0x200u16) == (if (x / 0x200u16) % 2 == 1 { 0x200u16 } else { 0u16 })) by (bit_vector); assert((x & 0x400u16) == (if (x / 0x400u16) % 2 == 1 { 0x400u16 } else { 0u16 })) by (bit_vector); assert((x & 0x800u16) == (if (x / 0x800u16) % 2 == 1 { 0x800u16 } else { 0u16 })) by (bit_vector); assert((x & 0x1000u16) == (if (x / 0x1000u16) % 2 == 1 { 0x1000u16 } else { 0u16 })) by (bit_vector); assert((x & 0x2000u16) == (if (x / 0x2000u16) % 2 == 1 { 0x2000u16 } else { 0u16 })) by (bit_vector); assert((x & 0x4000u16) == (if (x / 0x4000u16) % 2 == 1 { 0x4000u16 } else { 0u16 })) by (bit_vector); assert((x & 0x8000u16) == (if (x / 0x8000u16) % 2 == 1 { 0x8000u16 } else { 0u16 })) by (bit_vector); }
pub broadcast proof fn and_bit32(x: u32, m: u32) requires m == 0x1 || m == 0x2 || m == 0x4 || m == 0x8 || m == 0x10 || m == 0x20 || m == 0x40 || m == 0x80 || m == 0x100 || m == 0x200 || m == 0x400 || m == 0x800 || m == 0x1000 || m == 0x2000 || m == 0x4000 || m == 0x8000 || m == 0x10000 || m == 0x20000 || m == 0x40000 || m == 0x80000 || m == 0x100000 || m == 0x200000 || m == 0x400000 || m == 0x800000 || m == 0x1000000 || m == 0x2000000 || m == 0x4000000 || m == 0x8000000 || m == 0x10000000 || m == 0x20000000 || m == 0x40000000 || m == 0x80000000 ensures #[trigger] (x & m) == (if (x as int / m as int) % 2 == 1 { m as int } else { 0 }) { assert((x & 0x1u32) == (if (x / 0x1u32) % 2 == 1 { 0x1u32 } else { 0u32 })) by (bit_vector); assert((x & 0x2u32) == (if (x / 0x2u32) % 2 == 1 { 0x2u32 } else { 0u32 })) by (bit_vector); assert((x & 0x4u32) == (if (x / 0x4u32) % 2 == 1 { 0x4u32 } else { 0u32 })) by (bit_vector); assert((x & 0x8u32) == (if (x / 0x8u32) % 2 == 1 { 0x8u32 } else { 0u32 })) by (bit_vector); assert((x & 0x10u32) == (if (x / 0x10u32) % 2 == 1 { 0x10u32 } else { 0u32 })) by (bit_vector); assert((x & 0x20u32) == (if (x / 0x20u32) % 2 == 1 { 0x20u32 } else { 0u32 })) by (bit_vector); assert((x & 0x40u32) == (if (x / 0x40u32) % 2 == 1 { 0x40u32 } else { 0u32 })) by (bit_vector); assert((x & 0x80u32) == (if (x / 0x80u32) % 2 == 1 { 0x80u32 } else { 0u32 })) by (bit_vector); assert((x & 0x100u32) == (if (x / 0x100u32) % 2 == 1 { 0x100u32 } else { 0u32 })) by (bit_vector); assert((x & 0x200u32) == (if (x / 0x200u32) % 2 == 1 { 0x200u32 } else { 0u32 })) by (bit_vector); assert((x & 0x400u32) == (if (x / 0x400u32) % 2 == 1 { 0x400u32 } else { 0u32 })) by (bit_vector); assert((x & 0x800u32) == (if (x / 0x800u32) % 2 == 1 { 0x800u32 } else { 0u32 })) by (bit_vector); assert((x & 0x1000u32) == (if (x / 0x1000u32) % 2 == 1 { 0x1000u32 } else { 0u32 })) by (bit_vector); assert((x & 0x2000u32) == (if (x / 0x2000u32) % 2 == 1 { 0x2000u32 } else { 0u32 })) by (bit_vector); assert((x & 0x4000u32) == (if (x / 0x4000u32) % 2 == 1 { 0x4000u32 } else { 0u32 })) by (bit_vector); assert((x & 0x8000u32) == (if (x / 0x8000u32) % 2 == 1 { 0x8000u32 } else { 0u32 })) by (bit_vector); assert((x & 0x10000u32) == (if (x / 0x10000u32) % 2 == 1 { 0x10000u32 } else { 0u32 })) by (bit_vector); assert((x & 0x20000u32) == (if (x / 0x20000u32) % 2 == 1 { 0x20000u32 } else { 0u32 })) by (bit_vector); assert((x & 0x40000u32) == (if (x / 0x40000u32) % 2 == 1 { 0x40000u32 } else { 0u32 })) by (bit_vector); assert((x & 0x80000u32) == (if (x / 0x80000u32) % 2 == 1 { 0x80000u32 } else { 0u32 })) by (bit_vector); assert((x & 0x100000u32) == (if (x / 0x100000u32) % 2 == 1 { 0x100000u32 } else { 0u32 })) by (bit_vector); assert((x & 0x200000u32) == (if (x / 0x200000u32) % 2 == 1 { 0x200000u32 } else { 0u32 })) by (bit_vector); assert((x & 0x400000u32) == (if (x / 0x400000u32) % 2 == 1 { 0x400000u32 } else { 0u32 })) by (bit_vector); assert((x & 0x800000u32) == (if (x / 0x800000u32) % 2 == 1 { 0x800000u32 } else { 0u32 })) by (bit_vector); assert((x & 0x1000000u32) == (if (x / 0x1000000u32) % 2 == 1 { 0x1000000u32 } else { 0u32 })) by (bit_vector); assert((x & 0x2000000u32) == (if (x / 0x2000000u32) % 2 == 1 { 0x2000000u32 } else { 0u32 })) by (bit_vector); assert((x & 0x4000000u32) == (if (x / 0x4000000u32) % 2 == 1 { 0x4000000u32 } else { 0u32 })) by (bit_vector); assert((x & 0x8000000u32) == (if (x / 0x8000000u32) % 2 == 1 { 0x8000000u32 } else { 0u32 })) by (bit_vector); assert((x & 0x10000000u32) == (if (x / 0x10000000u32) % 2 == 1 { 0x10000000u32 } else { 0u32 })) by (bit_vector); assert((x & 0x20000000u32) == (if (x / 0x20000000u32) % 2 == 1 { 0x20000000u32 } else { 0u32 })) by (bit_vector); assert((x & 0x40000000u32) == (if (x / 0x40000000u32) % 2 == 1 { 0x40000000u32 } else { 0u32 })) by (bit_vector); assert((x & 0x80000000u32) == (if (x / 0x80000000u32) % 2 == 1 { 0x80000000u32 } else { 0u32 })) by (bit_vector); }
pub broadcast proof fn and_bit(x: u64, m: u64) requires m == 0x1 || m == 0x2 || m == 0x4 || m == 0x8 || m == 0x10 || m == 0x20 || m == 0x40 || m == 0x80 || m == 0x100 || m == 0x200 || m == 0x400 || m == 0x800 || m == 0x1000 || m == 0x2000 || m == 0x4000 || m == 0x8000 || m == 0x10000 || m == 0x20000 || m == 0x40000 || m == 0x80000 || m == 0x100000 || m == 0x200000 || m == 0x400000 || m == 0x800000 || m == 0x1000000 || m == 0x2000000 || m == 0x4000000 || m == 0x8000000 || m == 0x10000000 || m == 0x20000000 || m == 0x40000000 || m == 0x80000000 || m == 0x100000000 || m == 0x200000000 || m == 0x400000000 || m == 0x800000000 || m == 0x1000000000 || m == 0x2000000000 || m == 0x4000000000 || m == 0x8000000000 || m == 0x10000000000 || m == 0x20000000000 || m == 0x40000000000 || m == 0x80000000000 || m == 0x100000000000 || m == 0x200000000000 || m == 0x400000000000 || m == 0x800000000000 || m == 0x1000000000000 || m == 0x2000000000000 || m == 0x4000000000000 || m == 0x8000000000000 || m == 0x10000000000000 || m == 0x20000000000000 || m == 0x40000000000000 || m == 0x80000000000000 || m == 0x100000000000000 || m == 0x200000000000000 || m == 0x400000000000000 || m == 0x800000000000000 || m == 0x1000000000000000 || m == 0x2000000000000000 || m == 0x4000000000000000 || m == 0x8000000000000000 ensures #[trigger] (x & m) == (if (x as int / m as int) % 2 == 1 { m as int } else { 0 }) { assert((x & 0x1u64) == (if (x / 0x1u64) % 2 == 1 { 0x1u64 } else { 0u64 })) by (bit_vector); assert((x & 0x2u64) == (if (x / 0x2u64) % 2 == 1 { 0x2u64 } else { 0u64 })) by (bit_vector); assert((x & 0x4u64) == (if (x / 0x4u64) % 2 == 1 { 0x4u64 } else { 0u64 })) by (bit_vector); assert((x & 0x8u64) == (if (x / 0x8u64) % 2 == 1 { 0x8u64 } else { 0u64 })) by (bit_vector); assert((x & 0x10u64) == (if (x / 0x10u64) % 2 == 1 { 0x10u64 } else { 0u64 })) by (bit_vector); assert((x & 0x20u64) == (if (x / 0x20u64) % 2 == 1 { 0x20u64 } else { 0u64 })) by (bit_vector); assert((x & 0x40u64) == (if (x / 0x40u64) % 2 == 1 { 0x40u64 } else { 0u64 })) by (bit_vector); assert((x & 0x80u64) == (if (x / 0x80u64) % 2 == 1 { 0x80u64 } else { 0u64 })) by (bit_vector); assert((x & 0x100u64) == (if (x / 0x100u64) % 2 == 1 { 0x100u64 } else { 0u64 })) by (bit_vector); assert((x & 0x200u64) == (if (x / 0x200u64) % 2 == 1 { 0x200u64 } else { 0u64 })) by (bit_vector); assert((x & 0x400u64) == (if (x / 0x400u64) % 2 == 1 { 0x400u64 } else { 0u64 })) by (bit_vector); assert((x & 0x800u64) == (if (x / 0x800u64) % 2 == 1 { 0x800u64 } else { 0u64 })) by (bit_vector); assert((x & 0x1000u64) == (if (x / 0x1000u64) % 2 == 1 { 0x1000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x2000u64) == (if (x / 0x2000u64) % 2 == 1 { 0x2000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x4000u64) == (if (x / 0x4000u64) % 2 == 1 { 0x4000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x8000u64) == (if (x / 0x8000u64) % 2 == 1 { 0x8000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x10000u64) == (if (x / 0x10000u64) % 2 == 1 { 0x10000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x20000u64) == (if (x / 0x20000u64) % 2 == 1 { 0x20000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x40000u64) == (if (x / 0x40000u64) % 2 == 1 { 0x40000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x80000u64) == (if (x / 0x80000u64) % 2 == 1 { 0x80000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x100000u64) == (if (x / 0x100000u64) % 2 == 1 { 0x100000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x200000u64) == (if (x / 0x200000u64) % 2 == 1 { 0x200000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x400000u64) == (if (x / 0x400000u64) % 2 == 1 { 0x400000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x800000u64) == (if (x / 0x800000u64) % 2 == 1 { 0x800000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x1000000u64) == (if (x / 0x1000000u64) % 2 == 1 { 0x1000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x2000000u64) == (if (x / 0x2000000u64) % 2 == 1 { 0x2000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x4000000u64) == (if (x / 0x4000000u64) % 2 == 1 { 0x4000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x8000000u64) == (if (x / 0x8000000u64) % 2 == 1 { 0x8000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x10000000u64) == (if (x / 0x10000000u64) % 2 == 1 { 0x10000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x20000000u64) == (if (x / 0x20000000u64) % 2 == 1 { 0x20000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x40000000u64) == (if (x / 0x40000000u64) % 2 == 1 { 0x40000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x80000000u64) == (if (x / 0x80000000u64) % 2 == 1 { 0x80000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x100000000u64) == (if (x / 0x100000000u64) % 2 == 1 { 0x100000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x200000000u64) == (if (x / 0x200000000u64) % 2 == 1 { 0x200000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x400000000u64) == (if (x / 0x400000000u64) % 2 == 1 { 0x400000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x800000000u64) == (if (x / 0x800000000u64) % 2 == 1 { 0x800000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x1000000000u64) == (if (x / 0x1000000000u64) % 2 == 1 { 0x1000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x2000000000u64) == (if (x / 0x2000000000u64) % 2 == 1 { 0x2000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x4000000000u64) == (if (x / 0x4000000000u64) % 2 == 1 { 0x4000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x8000000000u64) == (if (x / 0x8000000000u64) % 2 == 1 { 0x8000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x10000000000u64) == (if (x / 0x10000000000u64) % 2 == 1 { 0x10000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x20000000000u64) == (if (x / 0x20000000000u64) % 2 == 1 { 0x20000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x40000000000u64) == (if (x / 0x40000000000u64) % 2 == 1 { 0x40000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x80000000000u64) == (if (x / 0x80000000000u64) % 2 == 1 { 0x80000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x100000000000u64) == (if (x / 0x100000000000u64) % 2 == 1 { 0x100000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x200000000000u64) == (if (x / 0x200000000000u64) % 2 == 1 { 0x200000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x400000000000u64) == (if (x / 0x400000000000u64) % 2 == 1 { 0x400000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x800000000000u64) == (if (x / 0x800000000000u64) % 2 == 1 { 0x800000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x1000000000000u64) == (if (x / 0x1000000000000u64) % 2 == 1 { 0x1000000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x2000000000000u64) == (if (x / 0x2000000000000u64) % 2 == 1 { 0x2000000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x4000000000000u64) == (if (x / 0x4000000000000u64) % 2 == 1 { 0x4000000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x8000000000000u64) == (if (x / 0x8000000000000u64) % 2 == 1 { 0x8000000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x10000000000000u64) == (if (x / 0x10000000000000u64) % 2 == 1 { 0x10000000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x20000000000000u64) == (if (x / 0x20000000000000u64) % 2 == 1 { 0x20000000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x40000000000000u64) == (if (x / 0x40000000000000u64) % 2 == 1 { 0x40000000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x80000000000000u64) == (if (x / 0x80000000000000u64) % 2 == 1 { 0x80000000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x100000000000000u64) == (if (x / 0x100000000000000u64) % 2 == 1 { 0x100000000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x200000000000000u64) == (if (x / 0x200000000000000u64) % 2 == 1 { 0x200000000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x400000000000000u64) == (if (x / 0x400000000000000u64) % 2 == 1 { 0x400000000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x800000000000000u64) == (if (x / 0x800000000000000u64) % 2 == 1 { 0x800000000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x1000000000000000u64) == (if (x / 0x1000000000000000u64) % 2 == 1 { 0x1000000000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x2000000000000000u64) == (if (x / 0x2000000000000000u64) % 2 == 1 { 0x2000000000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x4000000000000000u64) == (if (x / 0x4000000000000000u64) % 2 == 1 { 0x4000000000000000u64 } else { 0u64 })) by (bit_vector); assert((x & 0x8000000000000000u64) == (if (x / 0x8000000000000000u64) % 2 == 1 { 0x8000000000000000u64 } else { 0u64 })) by (bit_vector); }
pub broadcast group group_bits { not_u8, or_apart32, or_apart64, or_bit, and_bit, and_bit8, and_bit16, and_bit32, top_u24, shr_u64, shr_u32, shr_u16, shr_u8, shl_u64, shl_u32, shl_usize, shl_u8, and_u8, and_u16, and_u32, and_u64, cast_u16_u8, cast_u32_u8, cast_u32_u16, cast_u64_u8, cast_u64_u16, cast_u64_u32, cast_usize_u8, cast_usize_u16, cast_usize_u32, sign_i24, or_low, char_kind, char_type, char_len }
}
}

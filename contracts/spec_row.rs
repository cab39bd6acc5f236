
// Cells, rows and rows events.
pub mod spec_row {
use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::spec_table::*;
#[allow(unused_imports)] use crate::events::row_events::mysql_value::*;
#[allow(unused_imports)] use crate::events::row_events::row_data::*;
#[allow(unused_imports)] use crate::events::row_events::write_rows_event::WriteRowsEvent;
#[allow(unused_imports)] use crate::events::row_events::update_rows_event::UpdateRowsEvent;
#[allow(unused_imports)] use crate::events::row_events::delete_rows_event::DeleteRowsEvent;
verus! {
broadcast use {crate::shim::group_shim, vstd::group_vstd_default};

// ---------------------------------------------------------------- values
pub struct DateV { pub year: int, pub month: int, pub day: int }
pub struct TimeV { pub hour: int, pub minute: int, pub second: int, pub millis: int }
pub struct DateTimeV { pub date: DateV, pub time: TimeV }
pub enum CellV {
    Tiny(int), Small(int), Medium(int), Int(int), Big(int), Float(f32), Double(f64), Decimal(Seq<char>), Text(Seq<char>),
    Bit(Seq<bool>), Enum(int), Set(int), Blob(Seq<u8>), Year(int), Date(DateV), Time(TimeV), DateTime(DateTimeV), Timestamp(int),
}
pub open spec fn date_v(x: Date) -> DateV { DateV { year: x.year as int, month: x.month as int, day: x.day as int } }
pub open spec fn time_v(x: Time) -> TimeV { TimeV { hour: x.hour as int, minute: x.minute as int, second: x.second as int, millis: x.millis as int } }
pub open spec fn datetime_v(x: DateTime) -> DateTimeV {
    DateTimeV { date: DateV { year: x.year as int, month: x.month as int, day: x.day as int },
        time: TimeV { hour: x.hour as int, minute: x.minute as int, second: x.second as int, millis: x.millis as int } }
}
pub open spec fn cell_v(x: MySqlValue) -> CellV {
    match x {
        MySqlValue::TinyInt(v) => CellV::Tiny(v as int),
        MySqlValue::SmallInt(v) => CellV::Small(v as int),
        MySqlValue::MediumInt(v) => CellV::Medium(v as int),
        MySqlValue::Int(v) => CellV::Int(v as int),
        MySqlValue::BigInt(v) => CellV::Big(v as int),
        MySqlValue::Float(v) => CellV::Float(v),
        MySqlValue::Double(v) => CellV::Double(v),
        MySqlValue::Decimal(v) => CellV::Decimal(v@),
        MySqlValue::String(v) => CellV::Text(v@),
        MySqlValue::Bit(v) => CellV::Bit(v@),
        MySqlValue::Enum(v) => CellV::Enum(v as int),
        MySqlValue::Set(v) => CellV::Set(v as int),
        MySqlValue::Blob(v) => CellV::Blob(v@),
        MySqlValue::Year(v) => CellV::Year(v as int),
        MySqlValue::Date(v) => CellV::Date(date_v(v)),
        MySqlValue::Time(v) => CellV::Time(time_v(v)),
        MySqlValue::DateTime(v) => CellV::DateTime(datetime_v(v)),
        MySqlValue::Timestamp(v) => CellV::Timestamp(v as int),
    }
}

// ---------------------------------------------------------------- dates and times
/// microseconds: (precision + 1) / 2 bytes, big-endian, in units of 10^-(2 * bytes) seconds
pub open spec fn s_micros(d: Seq<u8>, p: int, precision: int) -> Dec<int> {
    if precision > 6 { None }
    else if precision == 0 { Some((0, p)) }
    else if precision <= 2 { if have(d, p, 1) { Some(((be(d, p, 1) * 10000) as int, p + 1)) } else { None } }
    else if precision <= 4 { if have(d, p, 2) { Some(((be(d, p, 2) * 100) as int, p + 2)) } else { None } }
    else { if have(d, p, 3) { Some((be(d, p, 3) as int, p + 3)) } else { None } }
}
pub open spec fn s_year(d: Seq<u8>, p: int) -> Dec<int> {
    if have(d, p, 1) { Some((if d[p] == 0 { 0 } else { 1900 + d[p] as int }, p + 1)) } else { None }
}
pub open spec fn s_date(d: Seq<u8>, p: int) -> Dec<DateV> {
    if !have(d, p, 3) { None } else {
        let n = le(d, p, 3) as int;
        Some((DateV { year: n / 512, month: n / 32 % 16, day: n % 32 }, p + 3))
    }
}
pub open spec fn s_time(d: Seq<u8>, p: int) -> Dec<TimeV> {
    if !have(d, p, 3) { None } else {
        let n = le(d, p, 3) as int;
        if n >= 0x80_0000 { None }   // negative
        else { Some((TimeV { hour: n / 10000, minute: n / 100 % 100, second: n % 100, millis: 0 }, p + 3)) }
    }
}
pub open spec fn s_time2(d: Seq<u8>, p: int, precision: int) -> Dec<TimeV> {
    if !have(d, p, 3) { None } else {
        let n = be(d, p, 3) as int;
        if n < 0x80_0000 { None }    // negative
        else {
            match s_micros(d, p + 3, precision) {
                None => None,
                Some((us, q)) => Some((TimeV { hour: n / 4096 % 1024, minute: n / 64 % 64, second: n % 64, millis: us / 1000 }, q)),
            }
        }
    }
}
pub open spec fn s_datetime(d: Seq<u8>, p: int) -> Dec<DateTimeV> {
    if !have(d, p, 8) { None } else {
        let n = le(d, p, 8) as int;
        Some((DateTimeV {
            date: DateV { year: (n / 100_0000_0000) % 0x1_0000, month: n / 1_0000_0000 % 100, day: n / 100_0000 % 100 },
            time: TimeV { hour: n / 1_0000 % 100, minute: n / 100 % 100, second: n % 100, millis: 0 },
        }, p + 8))
    }
}
pub open spec fn s_datetime2(d: Seq<u8>, p: int, precision: int) -> Dec<DateTimeV> {
    if !have(d, p, 5) { None } else {
        let n = be(d, p, 5) as int;
        match s_micros(d, p + 5, precision) {
            None => None,
            Some((us, q)) => {
                let ym = n / 0x40_0000 % 0x2_0000;
                Some((DateTimeV {
                    date: DateV { year: ym / 13, month: ym % 13, day: n / 0x2_0000 % 32 },
                    time: TimeV { hour: n / 4096 % 32, minute: n / 64 % 64, second: n % 64, millis: us / 1000 },
                }, q))
            },
        }
    }
}
pub open spec fn s_timestamp(d: Seq<u8>, p: int) -> Dec<int> {
    if have(d, p, 4) { Some(((le(d, p, 4) * 1000) as int, p + 4)) } else { None }
}
pub open spec fn s_timestamp2(d: Seq<u8>, p: int, precision: int) -> Dec<int> {
    if !have(d, p, 4) { None } else {
        match s_micros(d, p + 4, precision) { None => None, Some((us, q)) => Some((be(d, p, 4) * 1000 + us / 1000, q)) }
    }
}

// ---------------------------------------------------------------- text, bits, numbers of a given size
pub open spec fn s_string(d: Seq<u8>, p: int, meta: int) -> Dec<Seq<char>> {
    let w: nat = if meta < 256 { 1 } else { 2 };
    match s_num(false, d, p, w) { None => None, Some((n, q)) => s_text(d, q, n as int) }
}
/// the metadata of BIT is the number of whole bytes and of further bits; the first flag is the most significant bit
pub open spec fn s_bit(d: Seq<u8>, p: int, meta: int) -> Dec<Seq<bool>> {
    match s_flags_be(d, p, ((meta / 256) * 8 + meta % 256) as nat) { None => None, Some((v, q)) => Some((v.reverse(), q)) }
}
pub open spec fn s_sized(d: Seq<u8>, p: int, size: int) -> Dec<nat> {
    if 1 <= size <= 8 { s_num(false, d, p, size as nat) } else { None }
}
pub open spec fn s_blob(d: Seq<u8>, p: int, meta: int) -> Dec<Seq<u8>> {
    match s_sized(d, p, meta) { None => None, Some((n, q)) => s_bytes(d, q, n as int) }
}

// ---------------------------------------------------------------- decimal
/// bytes of n digits that do not fill a group of nine
pub open spec fn digit_bytes(n: int) -> nat { if n <= 0 { 0 } else if n <= 2 { 1 } else if n <= 4 { 2 } else if n <= 6 { 3 } else { 4 } }
/// the bytes with the sign removed: the first bit is inverted, and all bits of negative values
pub open spec fn dec_bytes(d: Seq<u8>, p: int, n: nat) -> Seq<u8> {
    Seq::new(n, |i: int| {
        let b = if i == 0 { d[p] ^ 0x80u8 } else { d[p + i] };
        if d[p] & 0x80u8 == 0u8 { b ^ 0xFFu8 } else { b }
    })
}
pub proof fn lemma_dec_len(n: nat) ensures dec(n).len() > 0 decreases n { if n >= 10 { lemma_dec_len(n / 10); } }
/// the integral part has digits exactly when it is not zero so far
pub open spec fn flip(b: u8) -> u8 { b ^ 0xFFu8 }
pub open spec fn first_inverted(d: Seq<u8>, p: int, k: int) -> u8 { if k == 0 { d[p] ^ 0x80u8 } else { d[p + k] } }
/// integral part: the text of the first k groups (the first one has `lead` bytes) without leading zeros
#[verifier::opaque]
pub open spec fn dec_int(b: Seq<u8>, lead: nat, k: nat) -> Seq<char>
    decreases k
{
    if k == 0 { if be(b, 0, lead) > 0 { dec(be(b, 0, lead)) } else { Seq::empty() } }
    else {
        let t = dec_int(b, lead, (k - 1) as nat);
        let g = be(b, lead + 4 * (k - 1), 4);
        if t.len() > 0 { t + zpad(g, 9) } else if g > 0 { dec(g) } else { Seq::empty() }
    }
}
/// fractional part: k groups of nine digits at p
#[verifier::opaque]
pub open spec fn dec_frac(b: Seq<u8>, p: int, k: nat) -> Seq<char>
    decreases k
{ if k == 0 { Seq::empty() } else { dec_frac(b, p, (k - 1) as nat) + zpad(be(b, p + 4 * (k - 1), 4), 9) } }

pub proof fn dec_int_0(b: Seq<u8>, lead: nat) ensures dec_int(b, lead, 0) == (if be(b, 0, lead) > 0 { dec(be(b, 0, lead)) } else { Seq::empty() }) { reveal_with_fuel(dec_int, 2); }
pub proof fn dec_int_step(b: Seq<u8>, lead: nat, k: nat)
    ensures dec_int(b, lead, k + 1) == ({
        let t = dec_int(b, lead, k);
        let g = be(b, (lead + 4 * k) as int, 4);
        if t.len() > 0 { t + zpad(g, 9) } else if g > 0 { dec(g) } else { Seq::empty() }
    })
{ reveal_with_fuel(dec_int, 2); }
pub proof fn dec_frac_0(b: Seq<u8>, p: int) ensures dec_frac(b, p, 0) == Seq::<char>::empty() { reveal_with_fuel(dec_frac, 2); }
pub proof fn dec_frac_step(b: Seq<u8>, p: int, k: nat) ensures dec_frac(b, p, k + 1) == dec_frac(b, p, k) + zpad(be(b, p + 4 * k, 4), 9) { reveal_with_fuel(dec_frac, 2); }

pub open spec fn s_decimal(d: Seq<u8>, p: int, meta: int) -> Dec<Seq<char>> {
    let precision = meta % 256;
    let scale = meta / 256;
    if precision == 0 || scale > precision { None } else {
        let integral = precision - scale;
        let ig = integral / 9;
        let fg = scale / 9;
        let lead = digit_bytes(integral % 9);
        let trail = digit_bytes(scale % 9);
        let n = lead + 4 * ig + 4 * fg + trail;
        if !have(d, p, n) { None } else {
            let b = dec_bytes(d, p, n as nat);
            let int_text = dec_int(b, lead, ig as nat);
            let fp = lead + 4 * ig;
            Some((
                (if d[p] & 0x80u8 == 0u8 { seq!['-'] } else { Seq::empty() })
                + (if int_text.len() > 0 { int_text } else { seq!['0'] })
                + (if scale > 0 { seq!['.'] } else { Seq::empty() })
                + dec_frac(b, fp, fg as nat)
                + (if trail > 0 { zpad(be(b, fp + 4 * fg, trail), (scale % 9) as nat) } else { Seq::empty() }),
                p + n))
        }
    }
}

// ---------------------------------------------------------------- cells
/// CHAR columns: real type and metadata
pub open spec fn s_char_type(meta: int) -> (int, int) {
    let hi = meta / 256;
    let lo = meta % 256;
    if meta < 256 { (254, meta) }
    else if (hi / 16) % 4 != 3 { (hi / 64 * 64 + 48 + hi % 16, lo + 256 * (3 - (hi / 16) % 4)) }   // long CHAR: bits 4 and 5 are the inverted upper bits of the length
    else if hi == 247 || hi == 248 { (hi, lo) }
    else { (254, lo) }
}
#[verifier::opaque]
pub open spec fn s_cell(d: Seq<u8>, p: int, t: int, meta: int) -> Dec<CellV> {
    if t == 1 { match s_num(false, d, p, 1) { None => None, Some((v, q)) => Some((CellV::Tiny(v as int), q)) } }
    else if t == 2 { match s_num(false, d, p, 2) { None => None, Some((v, q)) => Some((CellV::Small(v as int), q)) } }
    else if t == 9 { match s_num(false, d, p, 3) { None => None, Some((v, q)) => Some((CellV::Medium(v as int), q)) } }
    else if t == 3 { match s_num(false, d, p, 4) { None => None, Some((v, q)) => Some((CellV::Int(v as int), q)) } }
    else if t == 8 { match s_num(false, d, p, 8) { None => None, Some((v, q)) => Some((CellV::Big(v as int), q)) } }
    else if t == 4 { match s_num(false, d, p, 4) { None => None, Some((v, q)) => Some((CellV::Float(f32_of(v)), q)) } }
    else if t == 5 { match s_num(false, d, p, 8) { None => None, Some((v, q)) => Some((CellV::Double(f64_of(v)), q)) } }
    else if t == 246 { match s_decimal(d, p, meta) { None => None, Some((v, q)) => Some((CellV::Decimal(v), q)) } }
    else if t == 254 || t == 15 || t == 253 { match s_string(d, p, meta) { None => None, Some((v, q)) => Some((CellV::Text(v), q)) } }
    else if t == 16 { match s_bit(d, p, meta) { None => None, Some((v, q)) => Some((CellV::Bit(v), q)) } }
    else if t == 247 { match s_sized(d, p, meta) { None => None, Some((v, q)) => Some((CellV::Enum((v as u64 as u32) as int), q)) } }
    else if t == 248 { match s_sized(d, p, meta) { None => None, Some((v, q)) => Some((CellV::Set(v as int), q)) } }
    else if 249 <= t <= 252 || t == 255 || t == 245 { match s_blob(d, p, meta) { None => None, Some((v, q)) => Some((CellV::Blob(v), q)) } }
    else if t == 13 { match s_year(d, p) { None => None, Some((v, q)) => Some((CellV::Year(v), q)) } }
    else if t == 10 { match s_date(d, p) { None => None, Some((v, q)) => Some((CellV::Date(v), q)) } }
    else if t == 11 { match s_time(d, p) { None => None, Some((v, q)) => Some((CellV::Time(v), q)) } }
    else if t == 7 { match s_timestamp(d, p) { None => None, Some((v, q)) => Some((CellV::Timestamp(v), q)) } }
    else if t == 12 { match s_datetime(d, p) { None => None, Some((v, q)) => Some((CellV::DateTime(v), q)) } }
    else if t == 19 { match s_time2(d, p, meta) { None => None, Some((v, q)) => Some((CellV::Time(v), q)) } }
    else if t == 17 { match s_timestamp2(d, p, meta) { None => None, Some((v, q)) => Some((CellV::Timestamp(v), q)) } }
    else if t == 18 { match s_datetime2(d, p, meta) { None => None, Some((v, q)) => Some((CellV::DateTime(v), q)) } }
    else { None }
}
/// the cell of a column as it is announced by the table map
pub open spec fn s_column(d: Seq<u8>, p: int, t: u8, meta: u16) -> Dec<CellV> {
    if t == 254 { s_cell(d, p, s_char_type(meta as int).0, s_char_type(meta as int).1) } else { s_cell(d, p, t as int, meta as int) }
}
pub proof fn lemma_cell_forward(d: Seq<u8>, p: int, t: int, meta: int)
    requires 0 <= p, 0 <= meta
    ensures s_cell(d, p, t, meta) matches Some((v, q)) ==> q >= p, !known_type(t) ==> s_cell(d, p, t, meta) is None
{ reveal(s_cell); }

// ---------------------------------------------------------------- rows
/// number of columns that are present among the first n
pub open spec fn seen(present: Seq<bool>, n: nat) -> nat
    decreases n
{ if n == 0 { 0 } else { seen(present, (n - 1) as nat) + (if present[n - 1] { 1nat } else { 0 }) } }
pub proof fn lemma_seen(present: Seq<bool>, n: nat)
    ensures seen(present, n) <= n
    decreases n
{ if n > 0 { lemma_seen(present, (n - 1) as nat) } }
pub proof fn lemma_seen_filter(present: Seq<bool>, s: Seq<&bool>, n: nat)
    requires n <= present.len(), s.len() == present.len(), forall|i: int| 0 <= i < s.len() ==> *s[i] == present[i]
    ensures s.take(n as int).filter(|x: &bool| *x).len() == seen(present, n)
    decreases n
{
    let p = |x: &bool| *x;
    reveal_with_fuel(Seq::filter, 2);
    if n > 0 {
        lemma_seen_filter(present, s, (n - 1) as nat);
        assert(s.take(n as int).drop_last() =~= s.take(n - 1));
    } else { assert(s.take(0).filter(p).len() == 0); }
}
pub proof fn lemma_seen_mono(present: Seq<bool>, i: nat, n: nat)
    requires i <= n
    ensures seen(present, i) <= seen(present, n), i < n && present[i as int] ==> seen(present, i) < seen(present, n)
    decreases n - i
{ if i < n { lemma_seen_mono(present, i + 1, n) } }
/// cells of the first n columns
#[verifier::opaque]
pub open spec fn s_cells(d: Seq<u8>, p: int, t: TmV, present: Seq<bool>, nulls: Seq<bool>, n: nat) -> Dec<Seq<Option<CellV>>>
    decreases n
{
    if n == 0 { Some((Seq::empty(), p)) } else {
        match s_cells(d, p, t, present, nulls, (n - 1) as nat) {
            None => None,
            Some((cells, q)) => {
                let c = n - 1;
                if !present[c] { Some((cells.push(None), q)) }
                else if nulls[seen(present, c as nat) as int] { Some((cells.push(None), q)) }
                else { match s_column(d, q, t.types[c], t.metas[c]) { None => None, Some((v, q)) => Some((cells.push(Some(v)), q)) } }
            },
        }
    }
}
pub proof fn cells_0(d: Seq<u8>, p: int, t: TmV, present: Seq<bool>, nulls: Seq<bool>)
    ensures s_cells(d, p, t, present, nulls, 0) == Some((Seq::<Option<CellV>>::empty(), p))
{ reveal_with_fuel(s_cells, 2); }
pub proof fn cells_step(d: Seq<u8>, p: int, t: TmV, present: Seq<bool>, nulls: Seq<bool>, n: nat)
    ensures s_cells(d, p, t, present, nulls, n + 1) == (match s_cells(d, p, t, present, nulls, n) {
        None => None,
        Some((cells, q)) =>
            if !present[n as int] || nulls[seen(present, n) as int] { Some((cells.push(None), q)) }
            else { match s_column(d, q, t.types[n as int], t.metas[n as int]) { None => None, Some((v, q)) => Some((cells.push(Some(v)), q)) } }
    })
{ reveal_with_fuel(s_cells, 2); }
pub open spec fn todo(d: Seq<u8>, p: int) -> nat { if p < d.len() { (d.len() - p) as nat } else { 0 } }
#[verifier::opaque]
pub open spec fn s_row(d: Seq<u8>, p: int, t: TmV, present: Seq<bool>) -> Dec<Seq<Option<CellV>>> {
    match s_flags_le(d, p, seen(present, present.len())) {
        None => None,
        Some((nulls, q)) => s_cells(d, q, t, present, nulls, t.types.len()),
    }
}
pub proof fn lemma_cells(d: Seq<u8>, p: int, t: TmV, present: Seq<bool>, nulls: Seq<bool>, n: nat, m: nat)
    requires 0 <= p, n <= m
    ensures
        s_cells(d, p, t, present, nulls, n) is None ==> s_cells(d, p, t, present, nulls, m) is None,
        s_cells(d, p, t, present, nulls, n) matches Some((v, q)) ==> v.len() == n && q >= p,
    decreases m
{
    reveal_with_fuel(s_cells, 2);
    if n < m { lemma_cells(d, p, t, present, nulls, n, (m - 1) as nat); }
    else if n > 0 {
        lemma_cells(d, p, t, present, nulls, (n - 1) as nat, (n - 1) as nat);
        if let Some((v, q)) = s_cells(d, p, t, present, nulls, (n - 1) as nat) {
            lemma_cell_forward(d, q, t.types[n - 1] as int, t.metas[n - 1] as int);
            lemma_cell_forward(d, q, s_char_type(t.metas[n - 1] as int).0, s_char_type(t.metas[n - 1] as int).1);
        }
    }
}
pub proof fn lemma_row(d: Seq<u8>, p: int, t: TmV, present: Seq<bool>)
    requires 0 <= p
    ensures s_row(d, p, t, present) matches Some((v, q)) ==> q >= p && (seen(present, present.len()) > 0 ==> q > p)
{
    reveal(s_row);
    if let Some((nulls, q)) = s_flags_le(d, p, seen(present, present.len())) {
        lemma_cells(d, q, t, present, nulls, t.types.len(), t.types.len());
    }
}
/// a row without columns has no bytes
pub proof fn lemma_no_cells(d: Seq<u8>, p: int, t: TmV, present: Seq<bool>)
    requires 0 <= p, seen(present, present.len()) == 0, t.types.len() == present.len()
    ensures s_row(d, p, t, present) matches Some((_, q)) && q == p
{
    reveal(s_row);
    let nulls = Seq::new(0, |i: int| bit(d[p + i / 8], i % 8));
    lemma_no_cells_n(d, p, t, present, nulls, present.len());
}
pub proof fn lemma_no_cells_n(d: Seq<u8>, p: int, t: TmV, present: Seq<bool>, nulls: Seq<bool>, n: nat)
    requires n <= present.len(), seen(present, present.len()) == 0
    ensures s_cells(d, p, t, present, nulls, n) matches Some((_, q)) && q == p
    decreases n
{
    reveal_with_fuel(s_cells, 2);
    if n > 0 {
        lemma_no_cells_n(d, p, t, present, nulls, (n - 1) as nat);
        lemma_seen_mono(present, (n - 1) as nat, present.len());
    }
}
/// all rows up to the end
pub open spec fn s_rows(d: Seq<u8>, p: int, t: TmV, present: Seq<bool>) -> Option<Seq<Seq<Option<CellV>>>>
    decreases todo(d, p)
{
    if p >= d.len() { Some(Seq::empty()) }
    else {
        match s_row(d, p, t, present) {
            None => None,
            Some((row, q)) => if q <= p { None }   // rows without bytes: no column is present
                else { match s_rows(d, q, t, present) { None => None, Some(rest) => Some(seq![row] + rest) } },
        }
    }
}
pub open spec fn s_pairs(d: Seq<u8>, p: int, t: TmV, before: Seq<bool>, after: Seq<bool>) -> Option<Seq<(Seq<Option<CellV>>, Seq<Option<CellV>>)>>
    decreases todo(d, p)
{
    if p >= d.len() { Some(Seq::empty()) }
    else {
        match s_row(d, p, t, before) {
            None => None,
            Some((old_row, q)) => match s_row(d, q, t, after) {
                None => None,
                Some((new_row, q)) => if q <= p { None }
                    else { match s_pairs(d, q, t, before, after) { None => None, Some(rest) => Some(seq![(old_row, new_row)] + rest) } },
            },
        }
    }
}
pub open spec fn opt_cell_v(x: Option<MySqlValue>) -> Option<CellV> { match x { None => None, Some(c) => Some(cell_v(c)) } }
pub open spec fn row_v(r: RowData) -> Seq<Option<CellV>> { Seq::new(r.cells@.len(), |i: int| opt_cell_v(r.cells@[i])) }
pub open spec fn rows_v(r: Seq<RowData>) -> Seq<Seq<Option<CellV>>> { Seq::new(r.len(), |i: int| row_v(r[i])) }
pub open spec fn pairs_v(r: Seq<UpdateRowData>) -> Seq<(Seq<Option<CellV>>, Seq<Option<CellV>>)> {
    Seq::new(r.len(), |i: int| (row_v(r[i].before_update), row_v(r[i].after_update)))
}

// ---------------------------------------------------------------- rows events
pub struct HeadV { pub table_id: nat, pub flags: nat, pub columns: nat }
pub open spec fn s_head(d: Seq<u8>, p: int, version: int) -> Dec<HeadV> {
    if !have(d, p, 8) { None }
    else if version == 2 && !have(d, p + 8, 2) { None }
    else {
        // the length of the extra data includes itself
        let q = if version == 2 { p + 8 + le(d, p + 8, 2) } else { p + 8 };
        match s_lenenc(d, q) { None => None, Some((n, r)) => Some((HeadV { table_id: le(d, p, 6), flags: le(d, p + 6, 2), columns: n }, r)) }
    }
}
pub struct RowsV { pub head: HeadV, pub present: Seq<bool>, pub rows: Seq<Seq<Option<CellV>>> }
pub struct UpdateV { pub head: HeadV, pub before: Seq<bool>, pub after: Seq<bool>, pub rows: Seq<(Seq<Option<CellV>>, Seq<Option<CellV>>)> }
pub open spec fn write_v(e: WriteRowsEvent) -> RowsV {
    RowsV { head: HeadV { table_id: e.table_id as nat, flags: e.flags as nat, columns: e.columns_number as nat }, present: e.columns_present@, rows: rows_v(e.rows@) }
}
pub open spec fn delete_v(e: DeleteRowsEvent) -> RowsV {
    RowsV { head: HeadV { table_id: e.table_id as nat, flags: e.flags as nat, columns: e.columns_number as nat }, present: e.columns_present@, rows: rows_v(e.rows@) }
}
pub open spec fn update_v(e: UpdateRowsEvent) -> UpdateV {
    UpdateV { head: HeadV { table_id: e.table_id as nat, flags: e.flags as nat, columns: e.columns_number as nat }, before: e.columns_before_update@,
        after: e.columns_after_update@, rows: pairs_v(e.rows@) }
}
pub open spec fn s_rows_event(d: Seq<u8>, maps: Map<u64, TmV>, version: int) -> Option<RowsV> {
    match s_head(d, 0, version) {
        None => None,
        Some((head, q)) => match s_flags_le(d, q, head.columns) {
            None => None,
            Some((present, q)) =>
                if !maps.contains_key(head.table_id as u64) || maps[head.table_id as u64].types.len() != present.len() { None }
                else { match s_rows(d, q, maps[head.table_id as u64], present) { None => None, Some(rows) => Some(RowsV { head, present, rows }) } },
        },
    }
}
pub open spec fn s_update_event(d: Seq<u8>, maps: Map<u64, TmV>, version: int) -> Option<UpdateV> {
    match s_head(d, 0, version) {
        None => None,
        Some((head, q)) => match s_flags_le(d, q, head.columns) {
            None => None,
            Some((before, q)) => match s_flags_le(d, q, head.columns) {
                None => None,
                Some((after, q)) =>
                    if !maps.contains_key(head.table_id as u64) || maps[head.table_id as u64].types.len() != before.len() { None }
                    else { match s_pairs(d, q, maps[head.table_id as u64], before, after) { None => None, Some(rows) => Some(UpdateV { head, before, after, rows }) } },
            },
        },
    }
}
}
}

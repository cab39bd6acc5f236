
// Table map events and their optional metadata.
pub mod spec_table {
use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::shim::std::collections::HashMap;
#[allow(unused_imports)] use crate::events::table_map_event::TableMapEvent;
#[allow(unused_imports)] use crate::metadata::table_metadata::TableMetadata;
#[allow(unused_imports)] use crate::metadata::default_charset::DefaultCharset;
#[allow(unused_imports)] use crate::metadata::metadata_type::MetadataType;
#[allow(unused_imports)] use crate::constants::column_type::ColumnType;
verus! {
broadcast use {crate::shim::group_shim, vstd::group_vstd_default};

// ---------------------------------------------------------------- column types
pub open spec fn known_type(c: int) -> bool { 0 <= c <= 19 || 245 <= c <= 255 }
pub open spec fn type_code(t: ColumnType) -> int {
    match t {
        ColumnType::Decimal => 0, ColumnType::Tiny => 1, ColumnType::Short => 2, ColumnType::Long => 3, ColumnType::Float => 4,
        ColumnType::Double => 5, ColumnType::Null => 6, ColumnType::TimeStamp => 7, ColumnType::LongLong => 8, ColumnType::Int24 => 9,
        ColumnType::Date => 10, ColumnType::Time => 11, ColumnType::DateTime => 12, ColumnType::Year => 13, ColumnType::NewDate => 14,
        ColumnType::VarChar => 15, ColumnType::Bit => 16, ColumnType::TimeStamp2 => 17, ColumnType::DateTime2 => 18, ColumnType::Time2 => 19,
        ColumnType::Json => 245, ColumnType::NewDecimal => 246, ColumnType::Enum => 247, ColumnType::Set => 248, ColumnType::TinyBlob => 249,
        ColumnType::MediumBlob => 250, ColumnType::LongBlob => 251, ColumnType::Blob => 252, ColumnType::VarString => 253,
        ColumnType::String => 254, ColumnType::Geometry => 255,
    }
}
/// size and byte order of the per-column metadata
pub open spec fn meta_size(t: int) -> nat {
    if t == 255 || t == 245 || 249 <= t <= 252 || t == 4 || t == 5 || 17 <= t <= 19 { 1 }
    else if t == 16 || t == 15 || t == 253 || t == 246 || t == 247 || t == 248 || t == 254 { 2 }
    else { 0 }
}
pub open spec fn meta_big(t: int) -> bool { t == 247 || t == 248 || t == 254 }
pub open spec fn s_meta(d: Seq<u8>, p: int, t: int) -> Dec<u16> {
    if !known_type(t) || !have(d, p, meta_size(t) as int) { None } else { Some((num(meta_big(t), d, p, meta_size(t)) as u16, p + meta_size(t))) }
}
/// metadata of the first n columns
pub open spec fn s_metas(d: Seq<u8>, p: int, types: Seq<u8>, n: nat) -> Dec<Seq<u16>>
    decreases n
{
    if n == 0 { Some((Seq::empty(), p)) } else {
        match s_metas(d, p, types, (n - 1) as nat) {
            None => None,
            Some((v, q)) => match s_meta(d, q, types[n - 1] as int) { None => None, Some((m, q)) => Some((v.push(m), q)) },
        }
    }
}
pub proof fn lemma_metas(d: Seq<u8>, p: int, types: Seq<u8>, n: nat, m: nat)
    requires n <= m, 0 <= p
    ensures
        s_metas(d, p, types, n) is None ==> s_metas(d, p, types, m) is None,
        s_metas(d, p, types, n) matches Some((v, q)) ==> v.len() == n && p <= q && (q <= p || q <= d.len()),
    decreases m
{
    if n < m { lemma_metas(d, p, types, n, (m - 1) as nat); }
    else if n > 0 { lemma_metas(d, p, types, (n - 1) as nat, (n - 1) as nat); }
}

// ---------------------------------------------------------------- table map
pub struct TmV { pub id: nat, pub database: Seq<char>, pub table: Seq<char>, pub types: Seq<u8>, pub metas: Seq<u16>, pub nullable: Seq<bool>, pub meta: Option<TmdV> }
pub open spec fn tm_v(e: TableMapEvent) -> TmV {
    TmV { id: e.table_id as nat, database: e.database_name@, table: e.table_name@, types: e.column_types@, metas: e.column_metadata@,
        nullable: e.null_bitmap@, meta: match e.table_metadata { None => None, Some(m) => Some(tmd_v(m)) } }
}
pub open spec fn maps_v(m: HashMap<u64, TableMapEvent>) -> Map<u64, TmV> { m.m().map_values(|t: TableMapEvent| tm_v(t)) }
pub open spec fn tm_ok(t: TmV) -> bool { t.metas.len() == t.types.len() }
pub open spec fn s_table_map(d: Seq<u8>) -> Option<TmV> {
    // table id 6, flags 2
    if !have(d, 0, 6) || !have(d, 8, 1) { None } else {
        match s_text(d, 9, d[8] as int) {
            None => None,
            Some((database, q)) => if !have(d, q + 1, 1) { None } else {   // both names are followed by a zero byte
                match s_text(d, q + 2, d[q + 1] as int) {
                    None => None,
                    Some((table, q)) => match s_lenenc(d, q + 1) {
                        None => None,
                        Some((n, q)) => match s_bytes(d, q, n as int) {
                            None => None,
                            Some((types, q)) => match s_lenenc(d, q) {
                                None => None,
                                Some((_, q)) => match s_metas(d, q, types, n) {
                                    None => None,
                                    Some((metas, q)) => match s_flags_le(d, q, n) {
                                        None => None,
                                        Some((nullable, q)) => {
                                            let id = le(d, 0, 6);
                                            if q >= d.len() { Some(TmV { id, database, table, types, metas, nullable, meta: None }) }
                                            else {
                                                match s_blocks(d, q, types, no_meta()) {
                                                    None => None,
                                                    Some(m) => Some(TmV { id, database, table, types, metas, nullable, meta: Some(m) }),
                                                }
                                            }
                                        },
                                    },
                                },
                            },
                        },
                    },
                }
            },
        }
    }
}

// ---------------------------------------------------------------- optional metadata
pub type Texts = Seq<Seq<char>>;
pub type Pairs = Seq<(u32, u32)>;
pub struct CharsetV { pub default: u32, pub columns: Pairs }
pub struct TmdV {
    pub signedness: Option<Seq<bool>>, pub default_charset: Option<CharsetV>, pub charsets: Option<Seq<u32>>, pub names: Option<Texts>,
    pub sets: Option<Seq<Texts>>, pub enums: Option<Seq<Texts>>, pub geometry: Option<Seq<u32>>, pub keys: Option<Seq<u32>>, pub prefix_keys: Option<Pairs>,
    pub es_default_charset: Option<CharsetV>, pub es_charsets: Option<Seq<u32>>, pub visibility: Option<Seq<bool>>,
}
pub open spec fn no_meta() -> TmdV {
    TmdV { signedness: None, default_charset: None, charsets: None, names: None, sets: None, enums: None, geometry: None, keys: None,
        prefix_keys: None, es_default_charset: None, es_charsets: None, visibility: None }
}
pub open spec fn charset_v(c: DefaultCharset) -> CharsetV { CharsetV { default: c.default_charset_collation, columns: c.charset_collations@ } }
pub open spec fn texts_v(v: Seq<Vec<String>>) -> Seq<Texts> { Seq::new(v.len(), |i: int| strs(v[i]@)) }
pub open spec fn ov<T>(x: Option<Vec<T>>) -> Option<Seq<T>> { match x { None => None, Some(v) => Some(v@) } }
pub open spec fn ocs(x: Option<DefaultCharset>) -> Option<CharsetV> { match x { None => None, Some(v) => Some(charset_v(v)) } }
pub open spec fn otx(x: Option<Vec<String>>) -> Option<Texts> { match x { None => None, Some(v) => Some(strs(v@)) } }
pub open spec fn ottx(x: Option<Vec<Vec<String>>>) -> Option<Seq<Texts>> { match x { None => None, Some(v) => Some(texts_v(v@)) } }
pub open spec fn tmd_of(signedness: Option<Vec<bool>>, default_charset: Option<DefaultCharset>, charsets: Option<Vec<u32>>, names: Option<Vec<String>>,
    sets: Option<Vec<Vec<String>>>, enums: Option<Vec<Vec<String>>>, geometry: Option<Vec<u32>>, keys: Option<Vec<u32>>, prefix_keys: Option<Vec<(u32, u32)>>,
    es_default_charset: Option<DefaultCharset>, es_charsets: Option<Vec<u32>>, visibility: Option<Vec<bool>>) -> TmdV
{
    TmdV { signedness: ov(signedness), default_charset: ocs(default_charset), charsets: ov(charsets), names: otx(names), sets: ottx(sets),
        enums: ottx(enums), geometry: ov(geometry), keys: ov(keys), prefix_keys: ov(prefix_keys), es_default_charset: ocs(es_default_charset),
        es_charsets: ov(es_charsets), visibility: ov(visibility) }
}
pub open spec fn tmd_v(m: TableMetadata) -> TmdV {
    tmd_of(m.signedness, m.default_charset, m.column_charsets, m.column_names, m.set_string_values, m.enum_string_values, m.geometry_types,
        m.simple_primary_keys, m.primary_keys_with_prefix, m.enum_and_set_default_charset, m.enum_and_set_column_charsets, m.column_visibility)
}
/// length-encoded integers up to the end
pub open spec fn s_ints(d: Seq<u8>, p: int) -> Option<Seq<u32>>
    decreases d.len() - p
{
    if p >= d.len() { Some(Seq::empty()) } else {
        match s_lenenc(d, p) { None => None, Some((n, q)) => if q <= p { None } else {
            match s_ints(d, q) { None => None, Some(rest) => Some(seq![(n as usize) as u32] + rest) } } }
    }
}
pub open spec fn s_int_pairs(d: Seq<u8>, p: int) -> Option<Pairs>
    decreases d.len() - p
{
    if p >= d.len() { Some(Seq::empty()) } else {
        match s_lenenc(d, p) { None => None, Some((a, q)) => match s_lenenc(d, q) { None => None, Some((b, q)) => if q <= p { None } else {
            match s_int_pairs(d, q) { None => None, Some(rest) => Some(seq![((a as usize) as u32, (b as usize) as u32)] + rest) } } } }
    }
}
pub open spec fn s_texts(d: Seq<u8>, p: int) -> Option<Texts>
    decreases d.len() - p
{
    if p >= d.len() { Some(Seq::empty()) } else {
        match s_lenstr(d, p) { None => None, Some((t, q)) => if q <= p { None } else {
            match s_texts(d, q) { None => None, Some(rest) => Some(seq![t] + rest) } } }
    }
}
/// n texts
pub open spec fn s_n_texts(d: Seq<u8>, p: int, n: nat) -> Dec<Texts>
    decreases n
{
    if n == 0 { Some((Seq::empty(), p)) } else {
        match s_n_texts(d, p, (n - 1) as nat) { None => None, Some((v, q)) => match s_lenstr(d, q) { None => None, Some((t, q)) => Some((v.push(t), q)) } }
    }
}
pub proof fn lemma_n_texts(d: Seq<u8>, p: int, n: nat, m: nat)
    requires n <= m, 0 <= p
    ensures s_n_texts(d, p, n) is None ==> s_n_texts(d, p, m) is None,
        s_n_texts(d, p, n) matches Some((v, q)) ==> v.len() == n && q >= p + n && (n > 0 ==> q <= d.len()),
    decreases m
{
    if n < m { lemma_n_texts(d, p, n, (m - 1) as nat); }
    else if n > 0 { lemma_n_texts(d, p, (n - 1) as nat, (n - 1) as nat); }
}
/// members of ENUM and SET columns: a count and that many texts per column
pub open spec fn s_members(d: Seq<u8>, p: int) -> Option<Seq<Texts>>
    decreases d.len() - p
{
    if p >= d.len() { Some(Seq::empty()) } else {
        match s_lenenc(d, p) { None => None, Some((n, q)) => match s_n_texts(d, q, n) { None => None, Some((v, q)) => if q <= p { None } else {
            match s_members(d, q) { None => None, Some(rest) => Some(seq![v] + rest) } } } }
    }
}
pub open spec fn s_charset(d: Seq<u8>) -> Option<CharsetV> {
    match s_lenenc(d, 0) { None => None, Some((n, q)) => match s_int_pairs(d, q) { None => None, Some(v) => Some(CharsetV { default: (n as usize) as u32, columns: v }) } }
}
pub open spec fn numeric_type(t: int) -> bool { 1 <= t <= 5 || t == 8 || t == 9 || t == 246 }
/// number of numeric columns among the first n
pub open spec fn s_numeric(types: Seq<u8>, n: nat) -> Option<nat>
    decreases n
{
    if n == 0 { Some(0) } else if !known_type(types[n - 1] as int) { None }
    else { match s_numeric(types, (n - 1) as nat) { None => None, Some(k) => Some(k + if numeric_type(types[n - 1] as int) { 1nat } else { 0 }) } }
}
pub proof fn lemma_numeric(types: Seq<u8>, n: nat, m: nat)
    requires n <= m
    ensures s_numeric(types, n) is None ==> s_numeric(types, m) is None, s_numeric(types, n) matches Some(k) ==> k <= n
    decreases m
{ if n < m { lemma_numeric(types, n, (m - 1) as nat); } else if n > 0 { lemma_numeric(types, (n - 1) as nat, (n - 1) as nat); } }

/// one block of type t with content b
pub open spec fn s_block(t: int, b: Seq<u8>, types: Seq<u8>, m: TmdV) -> Option<TmdV> {
    if t == 1 {
        match s_numeric(types, types.len()) { None => None, Some(k) => match s_flags_rev(b, 0, k) { None => None, Some((v, _)) => Some(TmdV { signedness: Some(v), ..m }) } }
    }
    else if t == 2 { match s_charset(b) { None => None, Some(v) => Some(TmdV { default_charset: Some(v), ..m }) } }
    else if t == 3 { match s_ints(b, 0) { None => None, Some(v) => Some(TmdV { charsets: Some(v), ..m }) } }
    else if t == 4 { match s_texts(b, 0) { None => None, Some(v) => Some(TmdV { names: Some(v), ..m }) } }
    else if t == 5 { match s_members(b, 0) { None => None, Some(v) => Some(TmdV { sets: Some(v), ..m }) } }
    else if t == 6 { match s_members(b, 0) { None => None, Some(v) => Some(TmdV { enums: Some(v), ..m }) } }
    else if t == 7 { match s_ints(b, 0) { None => None, Some(v) => Some(TmdV { geometry: Some(v), ..m }) } }
    else if t == 8 { match s_ints(b, 0) { None => None, Some(v) => Some(TmdV { keys: Some(v), ..m }) } }
    else if t == 9 { match s_int_pairs(b, 0) { None => None, Some(v) => Some(TmdV { prefix_keys: Some(v), ..m }) } }
    else if t == 10 { match s_charset(b) { None => None, Some(v) => Some(TmdV { es_default_charset: Some(v), ..m }) } }
    else if t == 11 { match s_ints(b, 0) { None => None, Some(v) => Some(TmdV { es_charsets: Some(v), ..m }) } }
    else if t == 12 { match s_flags_rev(b, 0, types.len()) { None => None, Some((v, _)) => Some(TmdV { visibility: Some(v), ..m }) } }
    else { None }
}
/// all blocks up to the end: type, length, content
pub open spec fn s_blocks(d: Seq<u8>, p: int, types: Seq<u8>, m: TmdV) -> Option<TmdV>
    decreases d.len() - p
{
    if p >= d.len() { Some(m) } else {
        match s_lenenc(d, p + 1) {
            None => None,
            Some((n, q)) => match s_bytes(d, q, n as int) {
                None => None,
                Some((b, q)) => match s_block(d[p] as int, b, types, m) {
                    None => None,
                    Some(m) => if q <= p { None } else { s_blocks(d, q, types, m) },
                },
            },
        }
    }
}
pub open spec fn known_block(c: int) -> bool { 1 <= c <= 12 }
pub open spec fn block_code(t: MetadataType) -> int {
    match t {
        MetadataType::Signedness => 1, MetadataType::DefaultCharset => 2, MetadataType::ColumnCharset => 3, MetadataType::ColumnName => 4,
        MetadataType::SetStrValue => 5, MetadataType::EnumStrValue => 6, MetadataType::GeometryType => 7, MetadataType::SimplePrimaryKey => 8,
        MetadataType::PrimaryKeyWithPrefix => 9, MetadataType::EnumAndSetDefaultCharset => 10, MetadataType::EnumAndSetColumnCharset => 11,
        MetadataType::ColumnVisibility => 12,
    }
}
}
}

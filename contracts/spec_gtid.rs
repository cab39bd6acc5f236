
// GTIDs: events, sets, lists and their texts.
pub mod spec_gtid {
use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::shim::std::collections::HashMap;
#[allow(unused_imports)] use crate::providers::mysql::gtid::interval::Interval;
#[allow(unused_imports)] use crate::providers::mysql::gtid::uuid::Uuid;
#[allow(unused_imports)] use crate::providers::mysql::gtid::uuid_set::UuidSet;
#[allow(unused_imports)] use crate::providers::mysql::gtid::gtid_set::GtidSet;
#[allow(unused_imports)] use crate::providers::mysql::gtid::gtid::Gtid as MyGtid;
#[allow(unused_imports)] use crate::providers::mariadb::gtid::gtid::Gtid as MaGtid;
#[allow(unused_imports)] use crate::providers::mariadb::gtid::gtid_list::GtidList;
#[allow(unused_imports)] use crate::providers::mysql::events::gtid_event::GtidEvent as MyGtidEvent;
#[allow(unused_imports)] use crate::providers::mariadb::events::gtid_event::GtidEvent as MaGtidEvent;
#[allow(unused_imports)] use crate::shim::std::collections::order_keys;
verus! {
broadcast use {crate::shim::group_shim, vstd::group_vstd_default};

// ---------------------------------------------------------------- UUIDs
/// canonical text: lower case, groups of 8, 4, 4, 4 and 12 digits
pub open spec fn uuid_text(d: Seq<u8>) -> Seq<char> {
    let h = hex_text(d);
    h.take(8) + seq!['-'] + h.subrange(8, 12) + seq!['-'] + h.subrange(12, 16) + seq!['-'] + h.subrange(16, 20) + seq!['-'] + h.skip(20)
}
pub open spec fn uuid_ok(u: Uuid) -> bool { u.uuid@ == uuid_text(u.data@) }
/// the 16 bytes that a text denotes: 32 hexadecimal digits of either case (dashes are not significant)
pub open spec fn s_uuid(t: Seq<char>) -> Option<Seq<u8>> {
    let h = without(t, '-');
    if h.len() == 32 && is_hex_text(h) { Some(unhex(h)) } else { None }
}
pub proof fn lemma_hex_ascii(d: Seq<u8>) ensures ascii(hex_text(d)) {
    assert forall|i: int| 0 <= i < hex_text(d).len() implies (#[trigger] hex_text(d)[i] as u32) < 128 by { }
}

pub proof fn lemma_is_hex_ascii()
    ensures forall|s: Seq<char>| #[trigger] is_hex_text(s) ==> ascii(s)
{
    assert forall|s: Seq<char>| #[trigger] is_hex_text(s) implies ascii(s) by {
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i] as u32) < 128 by { assert(hex_val(s[i]) is Some); }
    }
}

// ---------------------------------------------------------------- transactions of one server
pub open spec fn covers(s: Seq<Interval>, x: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).start <= x && x <= s[i].end }
/// every interval is non-empty and can be extended
pub open spec fn ivs_ok(s: Seq<Interval>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).start <= s[i].end && s[i].end < u64::MAX }
/// normal form: sorted, disjoint, non-adjacent
pub open spec fn normal(s: Seq<Interval>) -> bool {
    ivs_ok(s) && forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).end + 1 < (#[trigger] s[j]).start
}

pub open spec fn by_start(s: Seq<Interval>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i]).start <= (#[trigger] s[j]).start }
pub proof fn lemma_same_items<T>(a: Seq<T>, b: Seq<T>, y: T)
    requires a.to_multiset() == b.to_multiset()
    ensures a.contains(y) == b.contains(y)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.contains(y) == (a.to_multiset().count(y) > 0));
}
/// sorting by start changes neither what is covered nor the validity of the intervals
pub proof fn lemma_sorted(a: Seq<Interval>, b: Seq<Interval>)
    requires a.to_multiset() == b.to_multiset(), a.len() == b.len(), ivs_ok(a),
        forall|key: spec_fn(Interval) -> int| (forall|x: Interval| #[trigger] key(x) == x.start) ==> #[trigger] sorted_by(b, key),
    ensures by_start(b), ivs_ok(b), forall|x: int| #[trigger] covers(b, x) <==> covers(a, x)
{
    let key = |x: Interval| x.start as int;
    assert(sorted_by(b, key));
    assert forall|i: int, j: int| 0 <= i <= j < b.len() implies (#[trigger] b[i]).start <= (#[trigger] b[j]).start by { assert(key(b[i]) <= key(b[j])); }
    assert forall|y: Interval| a.contains(y) <==> b.contains(y) by { lemma_same_items(a, b, y); }
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).start <= b[i].end && b[i].end < u64::MAX by { assert(b.contains(b[i])); assert(a.contains(b[i])); }
    assert forall|x: int| #[trigger] covers(b, x) <==> covers(a, x) by {
        if covers(b, x) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i].start <= x <= b[i].end; assert(b.contains(b[i])); assert(a.contains(b[i])); }
        if covers(a, x) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i].start <= x <= a[i].end; assert(a.contains(a[i])); assert(b.contains(a[i])); }
    }
}
/// memory has less than 2^47 bytes
pub axiom fn ivs_len(v: Vec<Interval>) ensures v@.len() < 0x8000_0000_0000;
pub broadcast proof fn covers_insert(s: Seq<Interval>, i: int, n: Interval, x: int)
    requires 0 <= i <= s.len()
    ensures #[trigger] covers(s.insert(i, n), x) <==> covers(s, x) || n.start <= x <= n.end
{
    let t = s.insert(i, n);
    assert(t[i] == n);
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]) == t[if k < i { k } else { k + 1 }] by { }
    if covers(s, x) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).start <= x && x <= s[k].end; assert(t[if k < i { k } else { k + 1 }] == s[k]); }
    if covers(t, x) { let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).start <= x && x <= t[k].end; if k != i { assert(s[if k < i { k } else { k - 1 }] == t[k]); } }
}
pub broadcast proof fn covers_update(s: Seq<Interval>, i: int, n: Interval, x: int)
    requires 0 <= i < s.len(), n.start <= s[i].start, s[i].end <= n.end
    ensures #[trigger] covers(s.update(i, n), x) <==> covers(s, x) || n.start <= x <= n.end
{
    let t = s.update(i, n);
    assert(t[i] == n);
    if covers(s, x) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).start <= x && x <= s[k].end; if k != i { assert(t[k] == s[k]); } }
    if covers(t, x) { let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).start <= x && x <= t[k].end; if k != i { assert(s[k] == t[k]); } }
}
/// merging interval i with its right neighbour
pub open spec fn merge_at(s: Seq<Interval>, i: int) -> Seq<Interval> {
    s.update(i, Interval { start: s[i].start, end: if s[i + 1].end > s[i].end { s[i + 1].end } else { s[i].end } }).remove(i + 1)
}
pub proof fn lemma_merged(s: Seq<Interval>, t: Seq<Interval>, i: int)
    requires 0 <= i < s.len() - 1, t =~= s || (t =~= merge_at(s, i) && s[i].end + 1 >= s[i + 1].start), by_start(s), ivs_ok(s)
    ensures by_start(t), ivs_ok(t), forall|x: int| #[trigger] covers(t, x) <==> covers(s, x)
{
    if t != s {
        assert forall|x: int| #[trigger] covers(t, x) <==> covers(s, x) by {
            if covers(t, x) {
                let k = choose|k: int| 0 <= k < t.len() && #[trigger] t[k].start <= x <= t[k].end;
                if k < i { assert(s[k].start <= x <= s[k].end); }
                else if k == i { assert(s[i].start <= x <= s[i].end || s[i + 1].start <= x <= s[i + 1].end); }
                else { assert(t[k] == s[k + 1]); assert(s[k + 1].start <= x <= s[k + 1].end); }
            }
            if covers(s, x) {
                let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k].start <= x <= s[k].end;
                if k < i { assert(t[k] == s[k]); }
                else if k <= i + 1 { assert(s[i].start <= s[k].start); assert(t[i].start <= x <= t[i].end); }
                else { assert(t[k - 1] == s[k]); assert(t[k - 1].start <= x <= t[k - 1].end); }
            }
        }
    }
}

// ---------------------------------------------------------------- events
pub open spec fn s_my_gtid(d: Seq<u8>, p: int) -> Option<(u8, Seq<u8>, nat)> {
    if !have(d, p, 25) { None } else { Some((d[p], d.subrange(p + 1, p + 17), le(d, p + 17, 8))) }
}
pub open spec fn my_gtid_v(e: MyGtidEvent) -> (u8, Seq<u8>, nat) { (e.flags, e.gtid.source_id.data@, e.gtid.transaction_id as nat) }
pub open spec fn s_ma_gtid(d: Seq<u8>, p: int, server_id: u32) -> Option<(u8, nat, nat, nat)> {
    if !have(d, p, 13) { None } else { Some((d[p + 12], le(d, p + 8, 4), server_id as nat, le(d, p, 8))) }
}
pub open spec fn ma_gtid_v(e: MaGtidEvent) -> (u8, nat, nat, nat) { (e.flags, e.gtid.domain_id as nat, e.gtid.server_id as nat, e.gtid.sequence as nat) }

pub type MaV = (nat, nat, nat);
pub open spec fn ma_v(g: MaGtid) -> MaV { (g.domain_id as nat, g.server_id as nat, g.sequence as nat) }
pub open spec fn list_v(s: Seq<MaGtid>) -> Seq<MaV> { Seq::new(s.len(), |i: int| ma_v(s[i])) }
/// n GTIDs of 16 bytes
pub open spec fn s_list(d: Seq<u8>, p: int, n: nat) -> Option<Seq<MaV>> {
    if !have(d, p, 16 * n as int) { None } else { Some(Seq::new(n, |i: int| (le(d, p + 16 * i, 4), le(d, p + 16 * i + 4, 4), le(d, p + 16 * i + 8, 8)))) }
}
/// the upper 4 bits of the number are flags
pub open spec fn s_list_event(d: Seq<u8>, p: int) -> Option<Seq<MaV>> {
    if !have(d, p, 4) { None } else { s_list(d, p + 4, le(d, p, 4) % 0x1000_0000) }
}

pub type SetV = (Seq<u8>, Seq<Interval>);
/// n intervals of two 8 byte numbers; the end is exclusive in the event
pub open spec fn s_ivs(d: Seq<u8>, p: int, n: nat) -> Dec<Seq<Interval>>
    decreases n
{
    if n == 0 { Some((Seq::empty(), p)) }
    else if !have(d, p, 16) { None }
    else if le(d, p + 8, 8) <= le(d, p, 8) { None }
    else {
        match s_ivs(d, p + 16, (n - 1) as nat) {
            None => None,
            Some((rest, q)) => Some((seq![Interval { start: le(d, p, 8) as u64, end: (le(d, p + 8, 8) - 1) as u64 }] + rest, q)),
        }
    }
}
pub open spec fn s_sets(d: Seq<u8>, p: int, n: nat) -> Dec<Seq<SetV>>
    decreases n
{
    if n == 0 { Some((Seq::empty(), p)) }
    else if !have(d, p, 24) { None }
    else {
        match s_ivs(d, p + 24, le(d, p + 16, 8)) {
            None => None,
            Some((ivs, q)) => match s_sets(d, q, (n - 1) as nat) {
                None => None,
                Some((rest, q)) => Some((seq![(d.subrange(p, p + 16), ivs)] + rest, q)),
            },
        }
    }
}
pub open spec fn sets_map(s: Seq<SetV>) -> Map<Seq<char>, SetV>
    decreases s.len()
{ if s.len() == 0 { Map::empty() } else { sets_map(s.drop_last()).insert(uuid_text(s.last().0), s.last()) } }
pub open spec fn s_prev_gtids(d: Seq<u8>, p: int) -> Option<Map<Seq<char>, SetV>> {
    if !have(d, p, 8) { None } else { match s_sets(d, p + 8, le(d, p, 8)) { None => None, Some((s, q)) => Some(sets_map(s)) } }
}
pub open spec fn set_v(s: UuidSet) -> SetV { (s.source_id.data@, s.intervals@) }
pub open spec fn gset_v(s: GtidSet) -> Map<Seq<char>, SetV> { s.uuid_sets.m().map_values(|u: UuidSet| set_v(u)) }
/// every set is stored under the canonical text of its server
pub open spec fn keys_ok(s: GtidSet) -> bool {
    forall|k: Seq<char>| #[trigger] s.uuid_sets.m().contains_key(k) ==> uuid_ok(s.uuid_sets.m()[k].source_id) && s.uuid_sets.m()[k].source_id.uuid@ == k
}

/// what every set of transactions keeps: canonical keys, intervals in normal form
pub open spec fn gset_ok(s: GtidSet) -> bool {
    keys_ok(s) && forall|k: Seq<char>| #[trigger] s.uuid_sets.m().contains_key(k) ==> normal(s.uuid_sets.m()[k].intervals@)
}
/// the set contains transaction x of the server with text k
pub open spec fn holds(m: Map<Seq<char>, SetV>, k: Seq<char>, x: int) -> bool { m.contains_key(k) && covers(m[k].1, x) }

pub proof fn lemma_uuid_inj(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == 16, b.len() == 16, uuid_text(a) == uuid_text(b)
    ensures a == b
{
    let (h, g) = (hex_text(a), hex_text(b));
    let (s, t) = (uuid_text(a), uuid_text(b));
    assert forall|i: int| 0 <= i < 32 implies h[i] == g[i] by {
        let j = if i < 8 { i } else if i < 12 { i + 1 } else if i < 16 { i + 2 } else if i < 20 { i + 3 } else { i + 4 };
        assert(s[j] == h[i] && t[j] == g[i]);
    }
    assert forall|i: int| 0 <= i < 16 implies a[i] == b[i] by {
        assert(h[2 * i] == g[2 * i] && h[2 * i + 1] == g[2 * i + 1]);
        lemma_hex_digit_inj(a[i] as int / 16, b[i] as int / 16);
        lemma_hex_digit_inj(a[i] as int % 16, b[i] as int % 16);
    }
    assert(a =~= b);
}
pub proof fn lemma_hex_digit_inj(a: int, b: int)
    requires 0 <= a < 16, 0 <= b < 16, hex_digit(a) == hex_digit(b)
    ensures a == b
{ }
pub proof fn lemma_uuid_inj_all()
    ensures forall|a: Seq<u8>, b: Seq<u8>| #![trigger uuid_text(a), uuid_text(b)] a.len() == 16 && b.len() == 16 && uuid_text(a) == uuid_text(b) ==> a == b
{
    assert forall|a: Seq<u8>, b: Seq<u8>| #![trigger uuid_text(a), uuid_text(b)] a.len() == 16 && b.len() == 16 && uuid_text(a) == uuid_text(b) implies a == b by { lemma_uuid_inj(a, b); }
}

// ---------------------------------------------------------------- text of a set
/// one transaction or a range of transactions; numbers are between 1 and 2^63 - 2
pub open spec fn s_range(t: Seq<char>) -> Option<Interval> {
    let r = split(t, '-');
    if r.len() > 2 { None } else {
        match (num_text(r[0]), num_text(r.last())) {
            (Some(a), Some(b)) => if 1 <= a <= b < 0x7fff_ffff_ffff_ffff { Some(Interval { start: a as u64, end: b as u64 }) } else { None },
            _ => None,
        }
    }
}
pub open spec fn s_ranges(toks: Seq<Seq<char>>) -> Option<Seq<Interval>> {
    if forall|i: int| 0 <= i < toks.len() ==> s_range(#[trigger] toks[i]) is Some { Some(Seq::new(toks.len(), |i: int| s_range(toks[i])->Some_0)) } else { None }
}
/// the first n characters
pub open spec fn head(t: Seq<char>, n: int) -> Seq<char> { t.take(if n <= t.len() { n } else { t.len() as int }) }
pub open spec fn after(t: Seq<char>, n: int) -> Seq<char> { t.skip(if n <= t.len() { n } else { t.len() as int }) }
/// 36 characters of UUID, a separator and ranges separated by colons
pub open spec fn s_part(t: Seq<char>) -> Option<SetV> {
    match s_uuid(head(t, 36)) {
        None => None,
        Some(d) => match s_ranges(split(after(t, 37), ':')) { None => None, Some(ivs) => Some((d, ivs)) },
    }
}
/// parts separated by commas; line breaks and blanks around the parts are not significant
pub open spec fn pieces(t: Seq<char>) -> Seq<Seq<char>> { split(without(t, '\n'), ',').map_values(|x: Seq<char>| trim(x)) }
pub open spec fn s_gtid_set(t: Seq<char>) -> Option<Seq<SetV>> {
    if t.len() == 0 { Some(Seq::empty()) }
    else if forall|i: int| 0 <= i < pieces(t).len() ==> s_part(#[trigger] pieces(t)[i]) is Some { Some(Seq::new(pieces(t).len(), |i: int| s_part(pieces(t)[i])->Some_0)) }
    else { None }
}
/// some part of the text is about the server with text k
pub open spec fn names(parts: Seq<SetV>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < parts.len() && uuid_text((#[trigger] parts[i]).0) == k }
/// some part of the text contains transaction x of the server with text k
pub open spec fn tells(parts: Seq<SetV>, k: Seq<char>, x: int) -> bool { exists|i: int| 0 <= i < parts.len() && uuid_text((#[trigger] parts[i]).0) == k && covers(parts[i].1, x) }
/// the map is the union of the parts
pub open spec fn denotes(m: Map<Seq<char>, SetV>, parts: Seq<SetV>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) <==> names(parts, k)
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> uuid_text(m[k].0) == k && normal(m[k].1)
    &&& forall|k: Seq<char>, x: int| #[trigger] holds(m, k, x) <==> tells(parts, k, x)
}
pub broadcast proof fn covers_append(a: Seq<Interval>, b: Seq<Interval>, x: int)
    ensures #[trigger] covers(a + b, x) <==> covers(a, x) || covers(b, x)
{
    let t = a + b;
    if covers(a, x) { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).start <= x && x <= a[k].end; assert(t[k] == a[k]); }
    if covers(b, x) { let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).start <= x && x <= b[k].end; assert(t[a.len() + k] == b[k]); }
    if covers(t, x) { let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).start <= x && x <= t[k].end; if k < a.len() { assert(a[k] == t[k]); } else { assert(b[k - a.len()] == t[k]); } }
}
/// adding one part to the union
pub proof fn lemma_denotes(m: Map<Seq<char>, SetV>, parts: Seq<SetV>, z: SetV, k: Seq<char>, ivs: Seq<Interval>)
    requires denotes(m, parts), uuid_text(z.0) == k, normal(ivs), forall|x: int| #[trigger] covers(ivs, x) <==> covers(z.1, x) || holds(m, k, x)
    ensures denotes(m.insert(k, (z.0, ivs)), parts.push(z))
{
    let (n, q) = (m.insert(k, (z.0, ivs)), parts.push(z));
    assert(q[parts.len() as int] == z);
    assert forall|j: Seq<char>| names(q, j) <==> names(parts, j) || j == k by {
        if names(parts, j) { let i = choose|i: int| 0 <= i < parts.len() && uuid_text((#[trigger] parts[i]).0) == j; assert(q[i] == parts[i]); }
        if names(q, j) { let i = choose|i: int| 0 <= i < q.len() && uuid_text((#[trigger] q[i]).0) == j; if i < parts.len() { assert(q[i] == parts[i]); } }
    }
    assert forall|j: Seq<char>, x: int| #[trigger] holds(n, j, x) <==> tells(q, j, x) by {
        assert(holds(m, j, x) <==> tells(parts, j, x));
        if tells(parts, j, x) { let i = choose|i: int| 0 <= i < parts.len() && uuid_text((#[trigger] parts[i]).0) == j && covers(parts[i].1, x); assert(q[i] == parts[i]); }
        if tells(q, j, x) { let i = choose|i: int| 0 <= i < q.len() && uuid_text((#[trigger] q[i]).0) == j && covers(q[i].1, x); if i < parts.len() { assert(q[i] == parts[i]); } }
        if j == k { assert(covers(ivs, x) <==> covers(z.1, x) || holds(m, k, x)); }
    }
}
pub proof fn lemma_split_len(s: Seq<char>, c: char) ensures split(s, c).len() >= 1 decreases s.len() {
    if s.len() > 0 { lemma_split_len(s.drop_last(), c); }
}
pub proof fn lemma_split_len_all() ensures forall|s: Seq<char>, c: char| (#[trigger] split(s, c)).len() >= 1 {
    assert forall|s: Seq<char>, c: char| (#[trigger] split(s, c)).len() >= 1 by { lemma_split_len(s, c); }
}
pub proof fn lemma_piece(text: Seq<char>, i: int)
    requires text.len() > 0, 0 <= i < pieces(text).len()
    ensures s_part(pieces(text)[i]) is None ==> s_gtid_set(text) is None,
        s_uuid(head(pieces(text)[i], 36)) is None ==> s_part(pieces(text)[i]) is None
{ }
pub proof fn lemma_tok(t: Seq<char>, j: int)
    requires 0 <= j < split(after(t, 37), ':').len()
    ensures s_range(split(after(t, 37), ':')[j]) is None ==> s_part(t) is None
{ }
pub proof fn lemma_part(t: Seq<char>, d: Seq<u8>, ivs: Seq<Interval>)
    requires s_uuid(head(t, 36)) == Some(d), ivs.len() == split(after(t, 37), ':').len(),
        forall|i: int| 0 <= i < ivs.len() ==> #[trigger] s_range(split(after(t, 37), ':')[i]) == Some(ivs[i])
    ensures s_part(t) == Some((d, ivs)), ivs_ok(ivs)
{
    let toks = split(after(t, 37), ':');
    assert forall|i: int| 0 <= i < toks.len() implies s_range(#[trigger] toks[i]) is Some by { assert(s_range(split(after(t, 37), ':')[i]) == Some(ivs[i])); }
    assert(s_ranges(toks)->Some_0 =~= ivs);
    assert forall|i: int| 0 <= i < ivs.len() implies (#[trigger] ivs[i]).start <= ivs[i].end && ivs[i].end < u64::MAX by { assert(s_range(toks[i]) == Some(ivs[i])); }
}
pub proof fn lemma_set(text: Seq<char>, parts: Seq<SetV>)
    requires text.len() > 0, parts.len() == pieces(text).len(), forall|i: int| 0 <= i < parts.len() ==> #[trigger] s_part(pieces(text)[i]) == Some(parts[i])
    ensures s_gtid_set(text) == Some(parts)
{
    assert forall|i: int| 0 <= i < pieces(text).len() implies s_part(#[trigger] pieces(text)[i]) is Some by { assert(s_part(pieces(text)[i]) == Some(parts[i])); }
    assert(s_gtid_set(text)->Some_0 =~= parts);
}

// ---------------------------------------------------------------- printing
pub open spec fn iv_text(i: Interval) -> Seq<char> { if i.start == i.end { dec(i.start as nat) } else { dec(i.start as nat) + "-"@ + dec(i.end as nat) } }
pub open spec fn iv_texts(s: Seq<Interval>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| iv_text(s[i])) }
pub open spec fn set_text(s: UuidSet) -> Seq<char> { s.source_id.uuid@ + ":"@ + join(iv_texts(s.intervals@), ":"@) }
pub open spec fn gset_texts(s: GtidSet) -> Seq<Seq<char>> { Seq::new(s.uuid_sets.order().len(), |i: int| set_text(s.uuid_sets.m()[s.uuid_sets.order()[i]])) }
pub open spec fn sorted_texts(s: Seq<Seq<char>>) -> Seq<Seq<char>> { s.sort_by(|a: Seq<char>, b: Seq<char>| text_le(a, b)) }
/// the sets of all servers in the order of their texts
pub open spec fn gset_text(s: GtidSet) -> Seq<char> { join(sorted_texts(gset_texts(s)), ","@) }
pub open spec fn ma_text(g: MaGtid) -> Seq<char> { dec(g.domain_id as nat) + "-"@ + dec(g.server_id as nat) + "-"@ + dec(g.sequence as nat) }
pub open spec fn list_texts(s: Seq<MaGtid>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| ma_text(s[i])) }
pub open spec fn list_text(s: Seq<MaGtid>) -> Seq<char> { join(list_texts(s), ","@) }

pub proof fn lemma_texts_all(s: UuidSet)
    ensures forall|v: Seq<String>| v.len() == s.intervals@.len() && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == iv_text(s.intervals@[i])) ==> #[trigger] strs(v) == iv_texts(s.intervals@)
{
    assert forall|v: Seq<String>| v.len() == s.intervals@.len() && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == iv_text(s.intervals@[i])) implies #[trigger] strs(v) == iv_texts(s.intervals@) by {
        assert(strs(v) =~= iv_texts(s.intervals@));
    }
}
pub proof fn lemma_list_texts_all(s: Seq<MaGtid>)
    ensures forall|v: Seq<String>| v.len() == s.len() && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == ma_text(s[i])) ==> #[trigger] strs(v) == list_texts(s)
{
    assert forall|v: Seq<String>| v.len() == s.len() && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == ma_text(s[i])) implies #[trigger] strs(v) == list_texts(s) by {
        assert(strs(v) =~= list_texts(s));
    }
}
pub proof fn lemma_text_le(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures text_le(a, a), text_le(a, b) || text_le(b, a), text_le(a, b) && text_le(b, a) ==> a == b, text_le(a, b) && text_le(b, c) ==> text_le(a, c)
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        lemma_text_le(a.skip(1), b.skip(1), c.skip(1));
        if a[0] == b[0] && a.skip(1) == b.skip(1) { assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); }
    } else if a.len() > 0 { lemma_text_le(a.skip(1), b, c); }
    else if b.len() == 0 { assert(a =~= b); }
}
/// sorting texts has one result
pub proof fn lemma_sorted_texts(t: Seq<Seq<char>>)
    ensures forall|v: Seq<String>| #[trigger] strs(v).to_multiset() == t.to_multiset()
        && (forall|i: int, j: int| 0 <= i <= j < v.len() ==> text_le(#[trigger] v[i]@, #[trigger] v[j]@)) ==> strs(v) == sorted_texts(t)
{
    let leq = |a: Seq<char>, b: Seq<char>| text_le(a, b);
    assert(vstd::relations::total_ordering(leq)) by {
        assert forall|x: Seq<char>| #[trigger] leq(x, x) by { lemma_text_le(x, x, x); }
        assert forall|x: Seq<char>, y: Seq<char>| #[trigger] leq(x, y) && #[trigger] leq(y, x) implies x == y by { lemma_text_le(x, y, x); }
        assert forall|x: Seq<char>, y: Seq<char>, z: Seq<char>| #[trigger] leq(x, y) && #[trigger] leq(y, z) implies leq(x, z) by { lemma_text_le(x, y, z); }
        assert forall|x: Seq<char>, y: Seq<char>| #[trigger] leq(x, y) || #[trigger] leq(y, x) by { lemma_text_le(x, y, x); }
    }
    t.lemma_sort_by_ensures(leq);
    assert forall|v: Seq<String>| #[trigger] strs(v).to_multiset() == t.to_multiset()
        && (forall|i: int, j: int| 0 <= i <= j < v.len() ==> text_le(#[trigger] v[i]@, #[trigger] v[j]@)) implies strs(v) == sorted_texts(t) by {
        let s = strs(v);
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies leq(#[trigger] s[i], #[trigger] s[j]) by { assert(text_le(v[i]@, v[j]@)); }
        assert(vstd::relations::sorted_by(s, leq));
        vstd::seq_lib::lemma_sorted_unique(s, t.sort_by(leq), leq);
    }
}

// ---------------------------------------------------------------- MariaDB lists
pub open spec fn distinct(s: Seq<MaV>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
pub open spec fn s_ma(t: Seq<char>) -> Option<MaV> {
    let c = split(t, '-');
    if c.len() != 3 { None } else {
        match (num_text(c[0]), num_text(c[1]), num_text(c[2])) {
            (Some(d), Some(s), Some(n)) => if d <= u32::MAX && s <= u32::MAX && n <= u64::MAX { Some((d, s, n)) } else { None },
            _ => None,
        }
    }
}
pub open spec fn s_ma_all(p: Seq<Seq<char>>) -> Seq<MaV> { Seq::new(p.len(), |i: int| s_ma(p[i])->Some_0) }
pub open spec fn s_ma_list(t: Seq<char>) -> Option<Seq<MaV>> {
    if t.len() == 0 { Some(Seq::empty()) }
    else if (forall|i: int| 0 <= i < pieces(t).len() ==> s_ma(#[trigger] pieces(t)[i]) is Some) && distinct(s_ma_all(pieces(t))) { Some(s_ma_all(pieces(t))) }
    else { None }
}
pub proof fn lemma_ma_piece(t: Seq<char>, i: int)
    requires t.len() > 0, 0 <= i < pieces(t).len()
    ensures s_ma(pieces(t)[i]) is None ==> s_ma_list(t) is None
{ }
pub proof fn lemma_ma_double(t: Seq<char>, i: int, j: int)
    requires t.len() > 0, 0 <= i < j < pieces(t).len(), s_ma(pieces(t)[i]) is Some, s_ma(pieces(t)[j]) is Some,
        s_ma(pieces(t)[i])->Some_0.0 == s_ma(pieces(t)[j])->Some_0.0
    ensures s_ma_list(t) is None
{ let s = s_ma_all(pieces(t)); assert(s[i].0 == s[j].0); }
pub proof fn lemma_ma_list(t: Seq<char>, v: Seq<MaV>)
    requires t.len() > 0, v.len() == pieces(t).len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] s_ma(pieces(t)[i]) == Some(v[i]), distinct(v)
    ensures s_ma_list(t) == Some(v)
{
    assert forall|i: int| 0 <= i < pieces(t).len() implies s_ma(#[trigger] pieces(t)[i]) is Some by { assert(s_ma(pieces(t)[i]) == Some(v[i])); }
    assert(s_ma_all(pieces(t)) =~= v);
}
}
}

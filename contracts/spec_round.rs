
// Printing a GTID set or list and parsing the text again yields the same set or list.
pub mod spec_round {
use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::spec_gtid::*;
#[allow(unused_imports)] use crate::providers::mysql::gtid::interval::Interval;
#[allow(unused_imports)] use crate::providers::mysql::gtid::uuid_set::UuidSet;
#[allow(unused_imports)] use crate::providers::mysql::gtid::gtid_set::GtidSet;
#[allow(unused_imports)] use crate::providers::mariadb::gtid::gtid::Gtid as MaGtid;
#[allow(unused_imports)] use crate::shim::std::collections::order_keys;
verus! {
broadcast use {crate::shim::group_shim, vstd::group_vstd_default};

// ---------------------------------------------------------------- texts
pub open spec fn lacks(s: Seq<char>, c: char) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) != c }
pub open spec fn all_lack(v: Seq<Seq<char>>, c: char) -> bool { forall|i: int| 0 <= i < v.len() ==> lacks(#[trigger] v[i], c) }

pub proof fn lemma_split_one(b: Seq<char>, c: char)
    requires lacks(b, c)
    ensures split(b, c) == seq![b]
    decreases b.len()
{
    if b.len() > 0 {
        assert(b.last() == b[b.len() - 1]);
        assert(lacks(b.drop_last(), c)) by { assert forall|i: int| 0 <= i < b.len() - 1 implies (#[trigger] b.drop_last()[i]) != c by { assert(b[i] != c); } }
        lemma_split_one(b.drop_last(), c);
        assert(b.drop_last().push(b.last()) =~= b);
        assert(split(b, c) =~= seq![b]);
    } else { assert(b =~= Seq::empty()); }
}
pub proof fn lemma_split_last(a: Seq<char>, b: Seq<char>, c: char)
    requires lacks(b, c)
    ensures split(a + seq![c] + b, c) == split(a, c).push(b)
    decreases b.len()
{
    let s = a + seq![c] + b;
    if b.len() > 0 {
        assert(s.last() == b[b.len() - 1]);
        assert(s.drop_last() =~= a + seq![c] + b.drop_last());
        assert(lacks(b.drop_last(), c)) by { assert forall|i: int| 0 <= i < b.len() - 1 implies (#[trigger] b.drop_last()[i]) != c by { assert(b[i] != c); } }
        lemma_split_last(a, b.drop_last(), c);
        assert(b.drop_last().push(b.last()) =~= b);
        assert(split(s, c) =~= split(a, c).push(b));
    } else {
        assert(s.last() == c);
        assert(s.drop_last() =~= a);
        assert(b =~= Seq::empty());
    }
}
pub proof fn lemma_split_join(v: Seq<Seq<char>>, c: char)
    requires v.len() > 0, all_lack(v, c)
    ensures split(join(v, seq![c]), c) == v
    decreases v.len()
{
    assert(v.last() == v[v.len() - 1]);
    if v.len() == 1 { lemma_split_one(v[0], c); assert(seq![v[0]] =~= v); }
    else {
        assert(all_lack(v.drop_last(), c)) by { assert forall|i: int| 0 <= i < v.len() - 1 implies lacks(#[trigger] v.drop_last()[i], c) by { assert(lacks(v[i], c)); } }
        lemma_split_join(v.drop_last(), c);
        lemma_split_last(join(v.drop_last(), seq![c]), v.last(), c);
        assert(v.drop_last().push(v.last()) =~= v);
    }
}
pub proof fn lemma_without_none(s: Seq<char>, c: char)
    requires lacks(s, c)
    ensures without(s, c) == s
    decreases s.len()
{
    if s.len() > 0 {
        assert(s.last() == s[s.len() - 1]);
        assert(lacks(s.drop_last(), c)) by { assert forall|i: int| 0 <= i < s.len() - 1 implies (#[trigger] s.drop_last()[i]) != c by { assert(s[i] != c); } }
        lemma_without_none(s.drop_last(), c);
        assert(s.drop_last().push(s.last()) =~= s);
    }
}
pub proof fn lemma_without_concat(a: Seq<char>, b: Seq<char>, c: char)
    ensures without(a + b, c) == without(a, c) + without(b, c)
    decreases b.len()
{
    if b.len() > 0 {
        assert((a + b).last() == b.last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_without_concat(a, b.drop_last(), c);
        if b.last() != c { assert((without(a, c) + without(b.drop_last(), c)).push(b.last()) =~= without(a, c) + without(b.drop_last(), c).push(b.last())); }
    } else { assert(a + b =~= a); assert(without(b, c) =~= Seq::empty()); assert(without(a, c) + without(b, c) =~= without(a, c)); }
}
pub proof fn lemma_join_lacks(v: Seq<Seq<char>>, sep: Seq<char>, c: char)
    requires all_lack(v, c), lacks(sep, c)
    ensures lacks(join(v, sep), c)
    decreases v.len()
{
    if v.len() == 1 { assert(lacks(v[0], c)); }
    else if v.len() > 1 {
        assert(v.last() == v[v.len() - 1]);
        assert(all_lack(v.drop_last(), c)) by { assert forall|i: int| 0 <= i < v.len() - 1 implies lacks(#[trigger] v.drop_last()[i], c) by { assert(lacks(v[i], c)); } }
        lemma_join_lacks(v.drop_last(), sep, c);
        let a = join(v.drop_last(), sep);
        assert forall|i: int| 0 <= i < join(v, sep).len() implies (#[trigger] join(v, sep)[i]) != c by {
            if i < a.len() { assert(a[i] != c); } else if i < a.len() + sep.len() { assert(sep[i - a.len()] != c); } else { assert(v.last()[i - a.len() - sep.len()] != c); }
        }
    }
}
/// a joined text begins like its first piece and ends like its last one
pub proof fn lemma_join_ends(v: Seq<Seq<char>>, sep: Seq<char>)
    requires v.len() > 0, v[0].len() > 0, v.last().len() > 0
    ensures join(v, sep).len() > 0, join(v, sep)[0] == v[0][0], join(v, sep).last() == v.last().last()
    decreases v.len()
{
    if v.len() > 1 {
        lemma_join_starts(v.drop_last(), sep);
        assert(v.drop_last()[0] == v[0]);
    }
}
pub proof fn lemma_join_starts(v: Seq<Seq<char>>, sep: Seq<char>)
    requires v.len() > 0, v[0].len() > 0
    ensures join(v, sep).len() > 0, join(v, sep)[0] == v[0][0]
    decreases v.len()
{
    if v.len() > 1 {
        assert(v.drop_last()[0] == v[0]);
        lemma_join_starts(v.drop_last(), sep);
    }
}
pub proof fn lemma_trim_none(s: Seq<char>)
    requires s.len() > 0, !is_ws(s[0]), !is_ws(s.last())
    ensures trim(s) == s
{ }
pub proof fn lemma_dec(n: nat)
    ensures dec(n).len() > 0, all_digits(dec(n)), undec(dec(n)) == n, num_text(dec(n)) == Some(n)
    decreases n
{
    lemma_dec_digits(n);
    assert(is_digit(dec(n)[0]));
}
pub proof fn lemma_dec_digits(n: nat)
    ensures dec(n).len() > 0, all_digits(dec(n)), undec(dec(n)) == n
    decreases n
{
    let d = dec(n);
    if n < 10 {
        assert(d.drop_last() =~= Seq::empty());
        assert(undec(d.drop_last()) == 0);
        assert(d.last() == digit(n));
    } else {
        lemma_dec_digits(n / 10);
        assert(d.drop_last() =~= dec(n / 10));
        assert(d.last() == digit(n % 10));
        assert forall|i: int| 0 <= i < d.len() implies is_digit(#[trigger] d[i]) by { if i < d.len() - 1 { assert(is_digit(dec(n / 10)[i])); } }
    }
}
/// texts made of digits and dashes that begin and end with a digit
pub open spec fn dashed(s: Seq<char>) -> bool {
    s.len() > 0 && is_digit(s[0]) && is_digit(s.last()) && forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) || s[i] == '-'
}
pub proof fn lemma_digits_lack(s: Seq<char>)
    requires all_digits(s)
    ensures lacks(s, '-'), lacks(s, ':'), lacks(s, ','), lacks(s, '\n')
{
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) != '-' && s[i] != ':' && s[i] != ',' && s[i] != '\n' by { assert(is_digit(s[i])); }
}

// ---------------------------------------------------------------- MariaDB lists
pub proof fn lemma_ma_text(g: MaGtid)
    ensures s_ma(ma_text(g)) == Some(ma_v(g)), dashed(ma_text(g))
{
    reveal_strlit("-");
    let (a, b, c) = (dec(g.domain_id as nat), dec(g.server_id as nat), dec(g.sequence as nat));
    lemma_dec(g.domain_id as nat); lemma_dec(g.server_id as nat); lemma_dec(g.sequence as nat);
    lemma_digits_lack(a); lemma_digits_lack(b); lemma_digits_lack(c);
    let s = ma_text(g);
    assert("-"@ =~= seq!['-']);
    assert(s =~= (a + seq!['-'] + b) + seq!['-'] + c);
    lemma_split_last(a + seq!['-'] + b, c, '-');
    lemma_split_last(a, b, '-');
    lemma_split_one(a, '-');
    assert(split(s, '-') =~= seq![a, b, c]);
    assert forall|i: int| 0 <= i < s.len() implies is_digit(#[trigger] s[i]) || s[i] == '-' by {
        if i < a.len() { assert(is_digit(a[i])); }
        else if i == a.len() { }
        else if i < a.len() + 1 + b.len() { assert(is_digit(b[i - a.len() - 1])); }
        else if i == a.len() + 1 + b.len() { }
        else { assert(is_digit(c[i - a.len() - b.len() - 2])); }
    }
    assert(s[0] == a[0] && s.last() == c[c.len() - 1]);
}
/// the text of a list with distinct domains is parsed to the same list
pub proof fn lemma_list_round(s: Seq<MaGtid>)
    requires distinct(list_v(s))
    ensures s_ma_list(list_text(s)) == Some(list_v(s))
{
    let t = list_text(s);
    let v = list_texts(s);
    reveal_strlit(",");
    assert(","@ =~= seq![',']);
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < v.len() implies dashed(#[trigger] v[i]) && s_ma(v[i]) == Some(ma_v(s[i])) by { lemma_ma_text(s[i]); }
        lemma_texts_pieces(v);
        assert(list_v(s).len() == pieces(t).len());
        assert forall|i: int| 0 <= i < list_v(s).len() implies #[trigger] s_ma(pieces(t)[i]) == Some(list_v(s)[i]) by { assert(dashed(v[i])); }
        assert(dashed(v[0]));
        lemma_join_starts(v, ","@);
        lemma_ma_list(t, list_v(s));
    } else { assert(list_v(s) =~= Seq::<MaV>::empty()); }
}
/// what a text may look like to survive the splitting at commas and line breaks
pub open spec fn solid(x: Seq<char>) -> bool { x.len() > 0 && !is_ws(x[0]) && !is_ws(x.last()) && lacks(x, ',') && lacks(x, '\n') }
pub proof fn lemma_dashed_solid(x: Seq<char>)
    requires dashed(x)
    ensures solid(x)
{
    assert forall|i: int| 0 <= i < x.len() implies (#[trigger] x[i]) != ',' && x[i] != '\n' by { assert(is_digit(x[i]) || x[i] == '-'); }
}
pub proof fn lemma_solid_pieces(v: Seq<Seq<char>>)
    requires v.len() > 0, forall|i: int| 0 <= i < v.len() ==> solid(#[trigger] v[i])
    ensures pieces(join(v, seq![','])) == v
{
    let t = join(v, seq![',']);
    assert(all_lack(v, '\n')) by { assert forall|i: int| 0 <= i < v.len() implies lacks(#[trigger] v[i], '\n') by { assert(solid(v[i])); } }
    assert(all_lack(v, ',')) by { assert forall|i: int| 0 <= i < v.len() implies lacks(#[trigger] v[i], ',') by { assert(solid(v[i])); } }
    lemma_join_lacks(v, seq![','], '\n');
    lemma_without_none(t, '\n');
    lemma_split_join(v, ',');
    assert forall|i: int| 0 <= i < v.len() implies trim(#[trigger] v[i]) == v[i] by { assert(solid(v[i])); lemma_trim_none(v[i]); }
    assert(pieces(t) =~= v);
}
pub proof fn lemma_texts_pieces(v: Seq<Seq<char>>)
    requires v.len() > 0, forall|i: int| 0 <= i < v.len() ==> dashed(#[trigger] v[i])
    ensures pieces(join(v, seq![','])) == v
{
    assert forall|i: int| 0 <= i < v.len() implies solid(#[trigger] v[i]) by { assert(dashed(v[i])); lemma_dashed_solid(v[i]); }
    lemma_solid_pieces(v);
}

// ---------------------------------------------------------------- GTID sets
pub proof fn lemma_hex_val(n: int)
    requires 0 <= n < 16
    ensures hex_val(hex_digit(n)) == Some(n), hex_digit(n) != '-', hex_digit(n) != ',', hex_digit(n) != '\n', !is_ws(hex_digit(n))
{ }
pub proof fn lemma_hex_text(d: Seq<u8>)
    ensures is_hex_text(hex_text(d)), unhex(hex_text(d)) == d, lacks(hex_text(d), '-'), lacks(hex_text(d), ','), lacks(hex_text(d), '\n'),
        forall|i: int| 0 <= i < hex_text(d).len() ==> !is_ws(#[trigger] hex_text(d)[i])
{
    let h = hex_text(d);
    assert forall|i: int| 0 <= i < h.len() implies hex_val(#[trigger] h[i]) is Some && h[i] != '-' && h[i] != ',' && h[i] != '\n' && !is_ws(h[i]) by {
        lemma_hex_val(d[i / 2] as int / 16); lemma_hex_val(d[i / 2] as int % 16);
    }
    assert forall|i: int| 0 <= i < d.len() implies #[trigger] unhex(h)[i] == d[i] by {
        let (a, b) = (d[i] as int / 16, d[i] as int % 16);
        lemma_hex_val(a); lemma_hex_val(b);
        assert(h[2 * i] == hex_digit(a) && h[2 * i + 1] == hex_digit(b));
    }
    assert(unhex(h) =~= d);
}
pub proof fn lemma_part_lacks(h: Seq<char>, i: int, j: int, c: char)
    requires lacks(h, c), 0 <= i <= j <= h.len()
    ensures lacks(h.subrange(i, j), c)
{ assert forall|k: int| 0 <= k < j - i implies (#[trigger] h.subrange(i, j)[k]) != c by { assert(h[i + k] != c); } }
/// a text followed by a dash and a text without dashes
pub proof fn lemma_dash(a: Seq<char>, b: Seq<char>, t: Seq<char>)
    requires without(a, '-') == t, lacks(b, '-')
    ensures without(a + seq!['-'] + b, '-') == t + b
{
    let dash = seq!['-'];
    lemma_without_concat(a + dash, b, '-');
    lemma_without_concat(a, dash, '-');
    lemma_without_none(b, '-');
    assert(dash.drop_last() =~= Seq::empty());
    assert(without(dash.drop_last(), '-') =~= Seq::empty());
    assert(without(dash, '-') =~= Seq::empty());
    assert(t + Seq::<char>::empty() =~= t);
}
pub proof fn lemma_uuid_dashes(h: Seq<char>)
    requires h.len() == 32, lacks(h, '-')
    ensures without(h.take(8) + seq!['-'] + h.subrange(8, 12) + seq!['-'] + h.subrange(12, 16) + seq!['-'] + h.subrange(16, 20) + seq!['-'] + h.skip(20), '-') == h
{
    hide(without);
    let (p, q, r, s, t) = (h.take(8), h.subrange(8, 12), h.subrange(12, 16), h.subrange(16, 20), h.skip(20));
    assert(p =~= h.subrange(0, 8)); assert(t =~= h.subrange(20, 32));
    lemma_part_lacks(h, 0, 8, '-'); lemma_part_lacks(h, 8, 12, '-'); lemma_part_lacks(h, 12, 16, '-'); lemma_part_lacks(h, 16, 20, '-'); lemma_part_lacks(h, 20, 32, '-');
    lemma_without_none(p, '-');
    lemma_dash(p, q, p);
    lemma_dash(p + seq!['-'] + q, r, p + q);
    lemma_dash(p + seq!['-'] + q + seq!['-'] + r, s, p + q + r);
    lemma_dash(p + seq!['-'] + q + seq!['-'] + r + seq!['-'] + s, t, p + q + r + s);
    assert(p + q + r + s + t =~= h);
}
/// the canonical text of a server denotes its 16 bytes
pub proof fn lemma_uuid_round(d: Seq<u8>)
    requires d.len() == 16
    ensures s_uuid(uuid_text(d)) == Some(d), uuid_text(d).len() == 36, lacks(uuid_text(d), ','), lacks(uuid_text(d), '\n'), !is_ws(uuid_text(d)[0])
{
    hide(without); hide(hex_text); hide(unhex); hide(is_hex_text);
    let h = hex_text(d);
    assert(h.len() == 32) by { reveal(hex_text); }
    lemma_hex_text(d);
    lemma_uuid_dashes(h);
    let u = uuid_text(d);
    assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]) != ',' && u[i] != '\n' by {
        let j = if i < 8 { i } else if i < 13 { i - 1 } else if i < 18 { i - 2 } else if i < 23 { i - 3 } else { i - 4 };
        if i == 8 || i == 13 || i == 18 || i == 23 { assert(u[i] == '-'); } else { assert(u[i] == h[j]); assert(h[j] != ','); assert(h[j] != '\n'); }
    }
    assert(u[0] == h[0]);
}
pub open spec fn iv_printable(i: Interval) -> bool { 1 <= i.start <= i.end && i.end < 0x7fff_ffff_ffff_ffff }
pub proof fn lemma_iv_round(i: Interval)
    requires iv_printable(i)
    ensures s_range(iv_text(i)) == Some(i), dashed(iv_text(i))
{
    reveal_strlit("-");
    assert("-"@ =~= seq!['-']);
    let (a, b) = (dec(i.start as nat), dec(i.end as nat));
    lemma_dec(i.start as nat); lemma_dec(i.end as nat);
    lemma_digits_lack(a); lemma_digits_lack(b);
    lemma_split_one(a, '-');
    lemma_split_last(a, b, '-');
    let s = iv_text(i);
    assert(a[0] == a[0] && a.last() == a[a.len() - 1] && b.last() == b[b.len() - 1]);
    if i.start == i.end {
        assert forall|k: int| 0 <= k < s.len() implies is_digit(#[trigger] s[k]) || s[k] == '-' by { assert(is_digit(a[k])); }
    } else {
        assert(split(s, '-') =~= seq![a, b]);
        assert forall|k: int| 0 <= k < s.len() implies is_digit(#[trigger] s[k]) || s[k] == '-' by {
            if k < a.len() { assert(is_digit(a[k])); } else if k > a.len() { assert(is_digit(b[k - a.len() - 1])); }
        }
        assert(s[0] == a[0] && s.last() == b.last());
    }
}
/// the sets that parsing accepts: every server has transactions, with numbers from 1 to 2^63 - 2
pub open spec fn printable(s: GtidSet) -> bool {
    gset_ok(s) && forall|k: Seq<char>| #[trigger] s.uuid_sets.m().contains_key(k) ==> printable_set(s.uuid_sets.m()[k].intervals@)
}
pub open spec fn printable_set(s: Seq<Interval>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> iv_printable(#[trigger] s[i]) }

pub proof fn lemma_set_round(u: UuidSet)
    requires uuid_ok(u.source_id), printable_set(u.intervals@)
    ensures s_part(set_text(u)) == Some(set_v(u)), solid(set_text(u))
{
    let v = iv_texts(u.intervals@);
    let id = uuid_text(u.source_id.data@);
    let ranges = join(v, ":"@);
    let s = set_text(u);
    reveal_strlit(":");
    assert(":"@ =~= seq![':']);
    lemma_uuid_round(u.source_id.data@);
    assert forall|i: int| 0 <= i < v.len() implies dashed(#[trigger] v[i]) && s_range(v[i]) == Some(u.intervals@[i]) by { assert(iv_printable(u.intervals@[i])); lemma_iv_round(u.intervals@[i]); }
    assert forall|i: int| 0 <= i < v.len() implies lacks(#[trigger] v[i], ':') && lacks(v[i], ',') && lacks(v[i], '\n') by {
        assert(dashed(v[i]));
        assert forall|k: int| 0 <= k < v[i].len() implies (#[trigger] v[i][k]) != ':' && v[i][k] != ',' && v[i][k] != '\n' by { assert(is_digit(v[i][k]) || v[i][k] == '-'); }
    }
    assert(dashed(v[0]) && dashed(v[v.len() - 1]));
    lemma_join_ends(v, ":"@);
    lemma_split_join(v, ':');
    assert(head(s, 36) =~= id);
    assert(after(s, 37) =~= ranges);
    lemma_part(s, u.source_id.data@, u.intervals@);
    assert(all_lack(v, ',') && all_lack(v, '\n'));
    lemma_join_lacks(v, ":"@, ',');
    lemma_join_lacks(v, ":"@, '\n');
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) != ',' && s[i] != '\n' by {
        if i < 36 { assert(id[i] != ',' && id[i] != '\n'); } else if i == 36 { assert(s[i] == ':'); } else { assert(ranges[i - 37] != ',' && ranges[i - 37] != '\n'); }
    }
    assert(s[0] == id[0]);
    assert(s.last() == ranges.last());
    assert(is_digit(v.last().last()));
}
/// the text of a set is parsed to a union that is exactly the set
pub proof fn lemma_gset_round(s: GtidSet)
    requires printable(s)
    ensures s_gtid_set(gset_text(s)) is Some, denotes(gset_v(s), s_gtid_set(gset_text(s))->Some_0)
{
    let keys = s.uuid_sets.order();
    let m = s.uuid_sets.m();
    let ts = gset_texts(s);
    let v = sorted_texts(ts);
    let leq = |a: Seq<char>, b: Seq<char>| text_le(a, b);
    order_keys(s.uuid_sets);
    lemma_sort_same(ts);
    reveal_strlit(",");
    assert(","@ =~= seq![',']);
    assert forall|i: int| 0 <= i < keys.len() implies m.contains_key(#[trigger] keys[i]) && s_part(ts[i]) == Some(set_v(m[keys[i]])) && solid(ts[i]) by {
        assert(keys.contains(keys[i]));
        assert(m.contains_key(keys[i]));
        lemma_set_round(m[keys[i]]);
    }
    if keys.len() == 0 {
        assert(v.len() == 0);
        assert(gset_text(s).len() == 0);
        assert forall|k: Seq<char>| !(#[trigger] gset_v(s).contains_key(k)) by { if m.contains_key(k) { assert(keys.contains(k)); } }
    } else {
        // every text of the sorted list belongs to a server and the other way round
        assert forall|i: int| 0 <= i < v.len() implies ts.contains(#[trigger] v[i]) by { assert(v.contains(v[i])); lemma_same_items(ts, v, v[i]); assert(ts.contains(v[i])); }
        assert forall|j: int| 0 <= j < ts.len() implies v.contains(#[trigger] ts[j]) by { assert(ts.contains(ts[j])); lemma_same_items(ts, v, ts[j]); assert(v.contains(ts[j])); }
        assert forall|i: int| 0 <= i < v.len() implies solid(#[trigger] v[i]) && s_part(v[i]) is Some by {
            let j = choose|j: int| 0 <= j < ts.len() && #[trigger] ts[j] == v[i];
            assert(m.contains_key(keys[j]));
        }
        lemma_solid_pieces(v);
        let t = gset_text(s);
        assert(pieces(t) == v);
        let parts = Seq::new(v.len(), |i: int| s_part(v[i])->Some_0);
        assert(solid(v[0]));
        lemma_join_starts(v, seq![',']);
        assert forall|i: int| 0 <= i < parts.len() implies #[trigger] s_part(pieces(t)[i]) == Some(parts[i]) by { assert(solid(v[i])); }
        lemma_set(t, parts);
        lemma_round_denotes(s, parts, ts, v);
    }
}
pub proof fn lemma_sort_same(ts: Seq<Seq<char>>)
    ensures sorted_texts(ts).len() == ts.len(), sorted_texts(ts).to_multiset() == ts.to_multiset()
{
    let leq = |a: Seq<char>, b: Seq<char>| text_le(a, b);
    assert(vstd::relations::total_ordering(leq)) by {
        assert forall|x: Seq<char>| #[trigger] leq(x, x) by { lemma_text_le(x, x, x); }
        assert forall|x: Seq<char>, y: Seq<char>| #[trigger] leq(x, y) && #[trigger] leq(y, x) implies x == y by { lemma_text_le(x, y, x); }
        assert forall|x: Seq<char>, y: Seq<char>, z: Seq<char>| #[trigger] leq(x, y) && #[trigger] leq(y, z) implies leq(x, z) by { lemma_text_le(x, y, z); }
        assert forall|x: Seq<char>, y: Seq<char>| #[trigger] leq(x, y) || #[trigger] leq(y, x) by { lemma_text_le(x, y, x); }
    }
    ts.lemma_sort_by_ensures(leq);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(sorted_texts(ts).to_multiset().len() == sorted_texts(ts).len());
    assert(ts.to_multiset().len() == ts.len());
}
pub proof fn lemma_round_denotes(s: GtidSet, parts: Seq<SetV>, ts: Seq<Seq<char>>, v: Seq<Seq<char>>)
    requires
        printable(s), ts == gset_texts(s), parts.len() == v.len(),
        forall|i: int| 0 <= i < v.len() ==> #[trigger] s_part(v[i]) == Some(parts[i]),
        forall|i: int| 0 <= i < v.len() ==> ts.contains(#[trigger] v[i]),
        forall|j: int| 0 <= j < ts.len() ==> v.contains(#[trigger] ts[j]),
    ensures denotes(gset_v(s), parts)
{
    let keys = s.uuid_sets.order();
    let m = s.uuid_sets.m();
    let g = gset_v(s);
    order_keys(s.uuid_sets);
    assert forall|i: int| 0 <= i < keys.len() implies m.contains_key(#[trigger] keys[i]) && s_part(ts[i]) == Some(set_v(m[keys[i]])) && uuid_text(set_v(m[keys[i]]).0) == keys[i] by {
        assert(keys.contains(keys[i]));
        assert(m.contains_key(keys[i]));
        lemma_set_round(m[keys[i]]);
    }
    // part i is the set of its server
    assert forall|i: int| 0 <= i < parts.len() implies g.contains_key(uuid_text((#[trigger] parts[i]).0)) && g[uuid_text(parts[i].0)] == parts[i] by {
        let t = v[i];
        let j = choose|j: int| 0 <= j < ts.len() && #[trigger] ts[j] == t;
        assert(s_part(v[i]) == Some(parts[i]));
        assert(m.contains_key(keys[j]));
    }
    assert forall|k: Seq<char>| #[trigger] g.contains_key(k) implies exists|i: int| 0 <= i < parts.len() && uuid_text((#[trigger] parts[i]).0) == k && parts[i] == g[k] by {
        assert(m.contains_key(k));
        assert(keys.contains(k));
        let j = choose|j: int| 0 <= j < keys.len() && keys[j] == k;
        let t = ts[j];
        let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i] == t;
        assert(s_part(v[i]) == Some(parts[i]));
    }
    assert forall|k: Seq<char>, x: int| #[trigger] holds(g, k, x) <==> tells(parts, k, x) by {
        if holds(g, k, x) { assert(g.contains_key(k)); }
        if tells(parts, k, x) { let i = choose|i: int| 0 <= i < parts.len() && uuid_text((#[trigger] parts[i]).0) == k && covers(parts[i].1, x); assert(g[uuid_text(parts[i].0)] == parts[i]); }
    }
}
/// two lists in normal form with the same transactions are the same list
pub proof fn lemma_normal_unique(a: Seq<Interval>, b: Seq<Interval>)
    requires normal(a), normal(b), forall|x: int| #[trigger] covers(a, x) <==> covers(b, x)
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 || b.len() == 0 {
        if a.len() > 0 { assert(a[0].start <= a[0].start <= a[0].end); assert(covers(a, a[0].start as int)); }
        if b.len() > 0 { assert(b[0].start <= b[0].start <= b[0].end); assert(covers(b, b[0].start as int)); assert(covers(a, b[0].start as int)); }
        assert(a =~= b);
    } else {
        let (n, m) = (a.len() - 1, b.len() - 1);
        assert(a[n].start <= a[n].end && b[m].start <= b[m].end);
        assert(covers(a, a[n].end as int) && covers(b, b[m].end as int) && covers(a, a[n].start as int) && covers(b, b[m].start as int));
        assert forall|i: int| 0 <= i <= n implies (#[trigger] a[i]).end <= a[n].end && (i < n ==> a[i].end + 1 < a[n].start) by { }
        assert forall|i: int| 0 <= i <= m implies (#[trigger] b[i]).end <= b[m].end && (i < m ==> b[i].end + 1 < b[m].start) by { }
        assert(covers(b, a[n].end as int) && covers(a, b[m].end as int));
        assert(a[n].end == b[m].end);
        if a[n].start < b[m].start { let x = b[m].start - 1; assert(a[n].start <= x <= a[n].end); assert(covers(a, x)); assert(covers(b, x)); assert(false); }
        if b[m].start < a[n].start { let x = a[n].start - 1; assert(b[m].start <= x <= b[m].end); assert(covers(b, x)); assert(covers(a, x)); assert(false); }
        assert(a[n] == b[m]);
        let (p, q) = (a.drop_last(), b.drop_last());
        assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] == a[i] by { }
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] == b[i] by { }
        assert forall|x: int| #[trigger] covers(p, x) <==> covers(q, x) by {
            assert(covers(a, x) <==> covers(b, x));
            lemma_covers_front(a, x); lemma_covers_front(b, x);
        }
        lemma_normal_unique(p, q);
        assert(p.push(a.last()) =~= a);
        assert(q.push(b.last()) =~= b);
    }
}
pub proof fn lemma_covers_front(a: Seq<Interval>, x: int)
    requires normal(a), a.len() > 0
    ensures covers(a.drop_last(), x) <==> covers(a, x) && x < a.last().start
{
    let p = a.drop_last();
    if covers(p, x) { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).start <= x && x <= p[i].end; assert(a[i] == p[i]); assert(a[i].end + 1 < a[a.len() - 1].start); }
    if covers(a, x) && x < a.last().start { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).start <= x && x <= a[i].end; assert(i < a.len() - 1); assert(p[i] == a[i]); }
}
/// printing a set and parsing the text yields the same set: s2 is any set that the contract of parse admits for the text of s
pub proof fn lemma_print_parse(s: GtidSet, s2: GtidSet)
    requires printable(s), gset_ok(s2), s_gtid_set(gset_text(s)) matches Some(parts) ==> denotes(gset_v(s2), parts)
    ensures s_gtid_set(gset_text(s)) is Some, gset_v(s2) == gset_v(s)
{
    lemma_gset_round(s);
    let parts = s_gtid_set(gset_text(s))->Some_0;
    let (g, h) = (gset_v(s), gset_v(s2));
    assert forall|k: Seq<char>| g.contains_key(k) <==> h.contains_key(k) by { assert(g.contains_key(k) <==> names(parts, k)); assert(h.contains_key(k) <==> names(parts, k)); }
    assert forall|k: Seq<char>| #[trigger] g.contains_key(k) implies g[k] == h[k] by {
        assert(h.contains_key(k));
        assert(s.uuid_sets.m().contains_key(k) && s2.uuid_sets.m().contains_key(k));
        assert forall|x: int| #[trigger] covers(g[k].1, x) <==> covers(h[k].1, x) by { assert(holds(g, k, x) <==> tells(parts, k, x)); assert(holds(h, k, x) <==> tells(parts, k, x)); }
        lemma_normal_unique(g[k].1, h[k].1);
        lemma_uuid_inj(g[k].0, h[k].0);
    }
    assert(g =~= h);
}
/// every set that parse returns can be printed
pub proof fn lemma_parsed_printable(text: Seq<char>, s: GtidSet)
    requires s_gtid_set(text) is Some, denotes(gset_v(s), s_gtid_set(text)->Some_0), gset_ok(s)
    ensures printable(s)
{
    let parts = s_gtid_set(text)->Some_0;
    let g = gset_v(s);
    assert forall|i: int| 0 <= i < parts.len() implies printable_set((#[trigger] parts[i]).1) by {
        let t = pieces(text)[i];
        assert(s_part(t) == Some(parts[i]));
        let toks = split(after(t, 37), ':');
        lemma_split_len(after(t, 37), ':');
        assert forall|j: int| 0 <= j < parts[i].1.len() implies iv_printable(#[trigger] parts[i].1[j]) by { assert(s_range(toks[j]) is Some); }
    }
    assert forall|k: Seq<char>| #[trigger] s.uuid_sets.m().contains_key(k) implies printable_set(s.uuid_sets.m()[k].intervals@) by {
        assert(g.contains_key(k));
        assert(names(parts, k));
        let i = choose|i: int| 0 <= i < parts.len() && uuid_text((#[trigger] parts[i]).0) == k;
        let ivs = s.uuid_sets.m()[k].intervals@;
        assert(iv_printable(parts[i].1[0]));
        let x0 = parts[i].1[0].start as int;
        assert(covers(parts[i].1, x0));
        assert(tells(parts, k, x0));
        assert(holds(g, k, x0));
        assert forall|x: int| covers(ivs, x) implies 1 <= x < 0x7fff_ffff_ffff_ffff by {
            assert(holds(g, k, x));
            let n = choose|n: int| 0 <= n < parts.len() && uuid_text((#[trigger] parts[n]).0) == k && covers(parts[n].1, x);
            let z = parts[n].1;
            let j = choose|j: int| 0 <= j < z.len() && (#[trigger] z[j]).start <= x && x <= z[j].end;
            assert(iv_printable(z[j]));
        }
        assert forall|j: int| 0 <= j < ivs.len() implies iv_printable(#[trigger] ivs[j]) by {
            assert(ivs[j].start <= ivs[j].end);
            assert(covers(ivs, ivs[j].start as int) && covers(ivs, ivs[j].end as int));
        }
    }
}
/// adding a transaction (the contract of GtidSet::add_gtid) keeps a set printable
pub proof fn lemma_added_printable(s: GtidSet, s2: GtidSet, key: Seq<char>, n: u64)
    requires printable(s), gset_ok(s2), 1 <= n < 0x7fff_ffff_ffff_ffff,
        gset_v(s2) == gset_v(s).insert(key, gset_v(s2)[key]),
        forall|x: int| #[trigger] holds(gset_v(s2), key, x) <==> holds(gset_v(s), key, x) || x == n,
    ensures printable(s2)
{
    let (g, h) = (gset_v(s), gset_v(s2));
    assert forall|k: Seq<char>| #[trigger] s2.uuid_sets.m().contains_key(k) implies printable_set(s2.uuid_sets.m()[k].intervals@) by {
        assert(h.contains_key(k));
        let ivs = s2.uuid_sets.m()[k].intervals@;
        assert(exists|x: int| holds(h, k, x)) by {
            if k == key { assert(holds(h, k, n as int)); }
            else {
                assert(s.uuid_sets.m().contains_key(k));
                let old_ivs = s.uuid_sets.m()[k].intervals@;
                assert(iv_printable(old_ivs[0]));
                assert(covers(old_ivs, old_ivs[0].start as int));
                assert(holds(g, k, old_ivs[0].start as int));
                assert(holds(h, k, old_ivs[0].start as int));
            }
        }
        assert forall|x: int| covers(ivs, x) implies 1 <= x < 0x7fff_ffff_ffff_ffff by {
            assert(holds(h, k, x));
            if holds(g, k, x) {
                let z = s.uuid_sets.m()[k].intervals@;
                assert(s.uuid_sets.m().contains_key(k));
                let j = choose|j: int| 0 <= j < z.len() && (#[trigger] z[j]).start <= x && x <= z[j].end;
                assert(iv_printable(z[j]));
            }
        }
        assert forall|j: int| 0 <= j < ivs.len() implies iv_printable(#[trigger] ivs[j]) by {
            assert(ivs[j].start <= ivs[j].end);
            assert(covers(ivs, ivs[j].start as int) && covers(ivs, ivs[j].end as int));
        }
    }
}
}
}

// Assumed contracts of everything the crate calls outside itself (std, byteorder, sha1, sha2, openssl, hex).
// Bodies are never executed and never verified: every function here is an assumption (listed in the evidence).
pub mod shim {
    #![allow(unused_imports, unused_variables, dead_code)]
    use vstd::prelude::*;
    pub mod prelude {
        pub use super::{VecExt, StrExt, ToStr, Joinable, FromVec, SortExt, SortText, StrsLike, ConcatExt, ResExt, SliceMutExt, SliceExt, StrMore, StartsExt, ContainsExt, RefsExt, MinMax, ToBytes, MapExt, ResMap, ExtendExt, ExtendSlice, LastExt, LenExt, TextMore, OwnText, Digit};
        pub use super::fmt::Display as _;
    }
    verus! {
    // the crate is built for 64-bit targets
    global size_of usize == 8;
    broadcast use vstd::group_vstd_default;

    // ------------------------------------------------------------------ numbers in byte strings
    /// the n bytes at p as a little-endian number
    pub open spec fn le(d: Seq<u8>, p: int, n: nat) -> nat
        decreases n
    { if n == 0 { 0 } else { (d[p] as nat) + 256 * le(d, p + 1, (n - 1) as nat) } }
    /// the n bytes at p as a big-endian number
    pub open spec fn be(d: Seq<u8>, p: int, n: nat) -> nat
        decreases n
    { if n == 0 { 0 } else { 256 * be(d, p, (n - 1) as nat) + d[p + n - 1] as nat } }
    pub broadcast proof fn le_1(d: Seq<u8>, p: int) ensures #[trigger] le(d, p, 1) == d[p] { reveal_with_fuel(le, 3); }
    pub broadcast proof fn be_1(d: Seq<u8>, p: int) ensures #[trigger] be(d, p, 1) == d[p] { reveal_with_fuel(be, 3); }
    pub open spec fn num(big: bool, d: Seq<u8>, p: int, n: nat) -> nat { if big { be(d, p, n) } else { le(d, p, n) } }
    /// little-endian encoding of x in n bytes
    pub open spec fn le_bytes(x: nat, n: nat) -> Seq<u8>
        decreases n
    { if n == 0 { Seq::empty() } else { seq![(x % 256) as u8] + le_bytes(x / 256, (n - 1) as nat) } }

    pub open spec fn pow256(n: nat) -> nat decreases n { if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }

    /// two's complement value of n bytes
    pub open spec fn signed(x: nat, n: nat) -> int { if 2 * x >= pow256(n) { x - pow256(n) } else { x as int } }

    pub trait ByteOrder { spec fn big() -> bool; }

    // ------------------------------------------------------------------ text of numbers
    pub open spec fn digit(n: nat) -> char {
        if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' }
        else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' }
    }
    /// decimal text of n
    pub open spec fn dec(n: nat) -> Seq<char>
        decreases n
    { if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) } }
    pub open spec fn zeros(n: nat) -> Seq<char> { Seq::new(n, |i: int| '0') }
    /// zero padded to at least w characters
    pub open spec fn zpad(n: nat, w: nat) -> Seq<char> {
        if dec(n).len() < w { zeros((w - dec(n).len()) as nat) + dec(n) } else { dec(n) }
    }
    pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
    pub open spec fn digit_val(c: char) -> nat { (c as u32 - '0' as u32) as nat }
    pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
    pub open spec fn undec(s: Seq<char>) -> nat
        decreases s.len()
    { if s.len() == 0 { 0 } else { undec(s.drop_last()) * 10 + digit_val(s.last()) } }
    /// what str::parse of an unsigned integer accepts: an optional plus sign and at least one digit
    pub open spec fn num_text(s: Seq<char>) -> Option<nat> {
        let t = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
        if t.len() > 0 && all_digits(t) { Some(undec(t)) } else { None }
    }

    // ------------------------------------------------------------------ text
    pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
    pub open spec fn utf8(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
    /// Unicode White_Space
    pub open spec fn is_ws(c: char) -> bool {
        let u = c as u32;
        (9 <= u && u <= 13) || u == 0x20 || u == 0x85 || u == 0xA0 || u == 0x1680 || (0x2000 <= u && u <= 0x200A)
        || u == 0x2028 || u == 0x2029 || u == 0x202F || u == 0x205F || u == 0x3000
    }
    pub open spec fn ltrim(s: Seq<char>) -> Seq<char>
        decreases s.len()
    { if s.len() > 0 && is_ws(s[0]) { ltrim(s.skip(1)) } else { s } }
    pub open spec fn rtrim(s: Seq<char>) -> Seq<char>
        decreases s.len()
    { if s.len() > 0 && is_ws(s.last()) { rtrim(s.drop_last()) } else { s } }
    pub open spec fn trim(s: Seq<char>) -> Seq<char> { rtrim(ltrim(s)) }
    /// pieces between the separators (at least one)
    pub open spec fn split(s: Seq<char>, c: char) -> Seq<Seq<char>>
        decreases s.len()
    {
        if s.len() == 0 { seq![Seq::empty()] }
        else if s.last() == c { split(s.drop_last(), c).push(Seq::empty()) }
        else { let r = split(s.drop_last(), c); r.update(r.len() - 1, r.last().push(s.last())) }
    }
    /// the text without the character c
    pub open spec fn without(s: Seq<char>, c: char) -> Seq<char>
        decreases s.len()
    { if s.len() == 0 { s } else if s.last() == c { without(s.drop_last(), c) } else { without(s.drop_last(), c).push(s.last()) } }
    pub open spec fn join(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
        decreases v.len()
    { if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { join(v.drop_last(), sep) + sep + v.last() } }
    pub open spec fn contains_text(s: Seq<char>, t: Seq<char>) -> bool {
        exists|i: int| 0 <= i <= s.len() - t.len() && #[trigger] s.subrange(i, i + t.len()) == t
    }
    pub open spec fn strs(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
    pub open spec fn refs(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }

    // lexicographic order of code points (what sorting strings uses)
    pub open spec fn text_le(a: Seq<char>, b: Seq<char>) -> bool
        decreases a.len()
    {
        if a.len() == 0 { true } else if b.len() == 0 { false }
        else if a[0] != b[0] { (a[0] as u32) < (b[0] as u32) } else { text_le(a.skip(1), b.skip(1)) }
    }

    // ------------------------------------------------------------------ hexadecimal
    pub open spec fn hex_digit(n: int) -> char {
        if n < 10 { digit(n as nat) } else if n == 10 { 'a' } else if n == 11 { 'b' } else if n == 12 { 'c' }
        else if n == 13 { 'd' } else if n == 14 { 'e' } else { 'f' }
    }
    pub open spec fn hex_val(c: char) -> Option<int> {
        if '0' <= c && c <= '9' { Some(c as u32 - '0' as u32) }
        else if 'a' <= c && c <= 'f' { Some(c as u32 - 'a' as u32 + 10) }
        else if 'A' <= c && c <= 'F' { Some(c as u32 - 'A' as u32 + 10) }
        else { None }
    }
    pub open spec fn hex_text(d: Seq<u8>) -> Seq<char> {
        Seq::new(2 * d.len(), |i: int| hex_digit(if i % 2 == 0 { d[i / 2] as int / 16 } else { d[i / 2] as int % 16 }))
    }
    pub open spec fn is_hex_text(s: Seq<char>) -> bool {
        s.len() % 2 == 0 && forall|i: int| 0 <= i < s.len() ==> hex_val(#[trigger] s[i]) is Some
    }
    pub open spec fn unhex(s: Seq<char>) -> Seq<u8> {
        Seq::new(s.len() / 2, |i: int| (hex_val(s[2 * i])->Some_0 * 16 + hex_val(s[2 * i + 1])->Some_0) as u8)
    }

    // ------------------------------------------------------------------ hashes and encryption
    pub uninterp spec fn sha1_of(d: Seq<u8>) -> Seq<u8>;
    pub uninterp spec fn sha256_of(d: Seq<u8>) -> Seq<u8>;
    pub broadcast axiom fn sha1_len(d: Seq<u8>) ensures (#[trigger] sha1_of(d)).len() == 20;
    pub broadcast axiom fn sha256_len(d: Seq<u8>) ensures (#[trigger] sha256_of(d)).len() == 32;

    // ------------------------------------------------------------------ equality of std types
    pub broadcast axiom fn eq_string_refstr(a: String, b: &str)
        ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<&str>>::eq_spec(&a, &b) == (a@ == b@);
    pub broadcast axiom fn eq_string_refstr_o()
        ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<&str>>::obeys_eq_spec();
    pub broadcast axiom fn eq_string_str(a: String, b: &str)
        ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<str>>::eq_spec(&a, b) == (a@ =~= b@);
    pub broadcast axiom fn eq_string_str_o()
        ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<str>>::obeys_eq_spec();
    pub broadcast axiom fn eq_arr<const N: usize>(a: [u8; N], b: [u8; N])
        ensures #[trigger] <[u8; N] as vstd::std_specs::cmp::PartialEqSpec<[u8; N]>>::eq_spec(&a, &b) == (a@ =~= b@);
    pub broadcast axiom fn eq_arr_o<const N: usize>()
        ensures #[trigger] <[u8; N] as vstd::std_specs::cmp::PartialEqSpec<[u8; N]>>::obeys_eq_spec();
    pub broadcast axiom fn eq_str(a: &str, b: &str)
        ensures #[trigger] <str as vstd::std_specs::cmp::PartialEqSpec<str>>::eq_spec(a, b) == (a@ =~= b@);
    pub broadcast axiom fn eq_str_o()
        ensures #[trigger] <str as vstd::std_specs::cmp::PartialEqSpec<str>>::obeys_eq_spec();
    /// string slices with the same content are the same pattern
    pub broadcast axiom fn str_ext(a: &str, b: &str)
        ensures #![trigger a@, b@] a@ == b@ ==> a == b;

    /// `?` converts the error with From
    pub broadcast axiom fn question_mark<T, S: vstd::std_specs::convert::FromSpec<T>>(e: T, r: S)
        ensures #[trigger] vstd::std_specs::control_flow::spec_from::<S, T>(e, r) ==> (S::obeys_from_spec() ==> r == S::from_spec(e));

    pub broadcast proof fn part_of_part<T>(s: Seq<T>, a: int, b: int, c: int, d: int)
        requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a
        ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d)
    { assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d)); }
    pub broadcast group group_shim {
        question_mark, text_start, flat_two, flat_three,
        sha1_len, sha256_len, eq_string_refstr, eq_string_refstr_o, eq_string_str, eq_string_str_o, eq_arr, eq_arr_o,
        eq_str, eq_str_o, crate::shim::std::io::cursor_len, le_1, be_1,
    }

    // ------------------------------------------------------------------ macros
    /// unimplemented!(): the documented absence of a feature (a panic on purpose)
    #[verifier::external_body]
    pub fn v_unimplemented<T>() -> (r: T) ensures false { unimplemented!() }
    /// panic!(), unreachable!(), failing assertions
    #[verifier::external_body]
    pub fn v_unreachable<T>() -> (r: T) requires false { unimplemented!() }
    #[verifier::external_body]
    pub fn v_assert(b: bool) requires b { unimplemented!() }

    pub struct FmtB { pub s: String }
    impl FmtB {
        pub open spec fn v(&self) -> Seq<char> { self.s@ }
        #[verifier::external_body]
        pub fn lit(self, x: &str) -> (r: FmtB) ensures r.v() == self.v() + x@ { unimplemented!() }
        #[verifier::external_body]
        pub fn disp<T: fmt::Display + ?Sized>(self, x: &T) -> (r: FmtB) ensures r.v() == self.v() + x.disp() { unimplemented!() }
        #[verifier::external_body]
        pub fn dbg<T: ?Sized>(self, x: &T) -> (r: FmtB) { unimplemented!() }
        #[verifier::external_body]
        pub fn zpad<T: NumText>(self, x: &T, w: usize) -> (r: FmtB) ensures r.v() == self.v() + zpad(x.nv(), w as nat) { unimplemented!() }
        #[verifier::external_body]
        pub fn done(self) -> (r: String) ensures r@ == self.v() { unimplemented!() }
    }
    pub broadcast proof fn text_start(a: Seq<char>) ensures #[trigger] (Seq::<char>::empty() + a) == a { assert(Seq::<char>::empty() + a =~= a); }
    #[verifier::external_body]
    pub fn fmt_new() -> (r: FmtB) ensures r.v() == Seq::<char>::empty() { unimplemented!() }

    pub trait NumText { spec fn nv(&self) -> nat; }

    pub mod fmt {
        use vstd::prelude::*;
        pub struct Formatter<'a> { pub s: String, pub x: &'a str }
        pub struct Error;
        pub type Result = core::result::Result<(), Error>;
        impl<'a> Formatter<'a> {
            pub open spec fn v(&self) -> Seq<char> { self.s@ }
            #[verifier::external_body]
            pub fn v_write(&mut self, x: String) -> (r: Result) ensures r is Ok, final(self).v() == old(self).v() + x@ { unimplemented!() }
            #[verifier::external_body]
            pub fn write_str(&mut self, x: &str) -> (r: Result) ensures r is Ok, final(self).v() == old(self).v() + x@ { unimplemented!() }
        }
        pub trait Display {
            spec fn disp(&self) -> Seq<char>;
            fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result)
                ensures r is Ok, final(f).v() == old(f).v() + self.disp();
        }
        impl Display for String { open spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
        impl Display for str { open spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
        impl<T: Display + ?Sized> Display for &T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
        impl Display for u8 { open spec fn disp(&self) -> Seq<char> { super::dec(*self as nat) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
        impl Display for u16 { open spec fn disp(&self) -> Seq<char> { super::dec(*self as nat) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
        impl Display for u32 { open spec fn disp(&self) -> Seq<char> { super::dec(*self as nat) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
        impl Display for u64 { open spec fn disp(&self) -> Seq<char> { super::dec(*self as nat) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
        impl Display for usize { open spec fn disp(&self) -> Seq<char> { super::dec(*self as nat) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
        impl Display for u128 { open spec fn disp(&self) -> Seq<char> { super::dec(*self as nat) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
        pub uninterp spec fn idec(i: int) -> Seq<char>;
        impl Display for i32 { open spec fn disp(&self) -> Seq<char> { idec(*self as int) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
        impl Display for i64 { open spec fn disp(&self) -> Seq<char> { idec(*self as int) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
        impl Display for char { open spec fn disp(&self) -> Seq<char> { seq![*self] } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
    }
    impl NumText for u8 { open spec fn nv(&self) -> nat { *self as nat } }
    impl NumText for u16 { open spec fn nv(&self) -> nat { *self as nat } }
    impl NumText for u32 { open spec fn nv(&self) -> nat { *self as nat } }
    impl NumText for u64 { open spec fn nv(&self) -> nat { *self as nat } }
    impl NumText for usize { open spec fn nv(&self) -> nat { *self as nat } }

    pub trait ToStr { fn v_to_string(&self) -> String; }
    impl<T: fmt::Display + ?Sized> ToStr for T {
        #[verifier::external_body]
        fn v_to_string(&self) -> (r: String) ensures r@ == self.disp() { unimplemented!() }
    }

    // ------------------------------------------------------------------ vectors and iterators
    // Iterators are taken as the vector of their items (their adapters have no side effects here).
    /// an arbitrary bound on the number of items in a buffer that is allocated at once
    pub uninterp spec fn alloc_limit() -> int;
    #[verifier::external_body]
    pub fn vec_with_capacity<T>(n: usize) -> (r: Vec<T>)
        requires n <= 0x7_ffff_ffff_ffff, n <= alloc_limit()
        ensures r@ == Seq::<T>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vec_repeat<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
        requires n <= 0x7_ffff_ffff_ffff, n <= alloc_limit()   // capacity overflow panics
        ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x
    { unimplemented!() }

    pub trait VecExt<T> {
        spec fn vv(&self) -> Seq<T>;
        fn v_iter(&self) -> (r: Vec<&T>)
            ensures r@.len() == self.vv().len(), forall|i: int| #![trigger r@[i]] #![trigger self.vv()[i]] 0 <= i < self.vv().len() ==> *r@[i] == self.vv()[i];
    }
    impl<T> VecExt<T> for Vec<T> { open spec fn vv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_iter(&self) -> (r: Vec<&T>) { unimplemented!() } }
    impl<T> VecExt<T> for [T] { open spec fn vv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_iter(&self) -> (r: Vec<&T>) { unimplemented!() } }
    impl<T, const N: usize> VecExt<T> for [T; N] { open spec fn vv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_iter(&self) -> (r: Vec<&T>) { unimplemented!() } }

    /// names a predicate for which the result of a filter is wanted
    pub open spec fn as_pred<T>(p: spec_fn(T) -> bool) -> bool { true }

    pub trait Joinable<T>: Sized {
        spec fn items(&self) -> Seq<T>;
        fn v_map<U, F: Fn(T) -> U>(self, f: F) -> (r: Vec<U>)
            requires forall|i: int| 0 <= i < self.items().len() ==> f.requires((#[trigger] self.items()[i],)),
            ensures r@.len() == self.items().len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((self.items()[i],), #[trigger] r@[i]);
        fn v_filter<F: Fn(&T) -> bool>(self, f: F) -> (r: Vec<T>)
            requires forall|i: int| 0 <= i < self.items().len() ==> f.requires((&#[trigger] self.items()[i],)),
            ensures forall|p: spec_fn(T) -> bool| #[trigger] as_pred(p) && (forall|x: T, b: bool| f.ensures((&x,), b) ==> b == p(x)) ==> r@ == self.items().filter(p);
        fn v_take(self, n: usize) -> (r: Vec<T>)
            ensures r@ == self.items().take(if n as int <= self.items().len() { n as int } else { self.items().len() as int });
        fn v_skip(self, n: usize) -> (r: Vec<T>)
            ensures r@ == self.items().skip(if n as int <= self.items().len() { n as int } else { self.items().len() as int });
        fn v_count(self) -> (r: usize) ensures r == self.items().len();
        fn v_rev(self) -> (r: Vec<T>) ensures r@ == self.items().reverse();
        fn v_into_iter(self) -> (r: Vec<T>) ensures r@ == self.items();
        fn v_enumerate(self) -> (r: Vec<(usize, T)>)
            ensures r@.len() == self.items().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == self.items()[i];
        fn v_collect<C: FromVec<T>>(self) -> (r: C) ensures r.from_items(self.items());
        fn v_position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
            requires forall|i: int| 0 <= i < self.items().len() ==> f.requires((#[trigger] self.items()[i],)),
            ensures
                match r {
                    Some(k) => k < self.items().len() && f.ensures((self.items()[k as int],), true)
                        && forall|i: int| 0 <= i < k ==> f.ensures((#[trigger] self.items()[i],), false),
                    None => forall|i: int| 0 <= i < self.items().len() ==> f.ensures((#[trigger] self.items()[i],), false),
                };
    }
    impl<T> Joinable<T> for Vec<T> {
        open spec fn items(&self) -> Seq<T> { self@ }
        #[verifier::external_body] fn v_map<U, F: Fn(T) -> U>(self, f: F) -> (r: Vec<U>) { unimplemented!() }
        #[verifier::external_body] fn v_filter<F: Fn(&T) -> bool>(self, f: F) -> (r: Vec<T>) { unimplemented!() }
        #[verifier::external_body] fn v_take(self, n: usize) -> (r: Vec<T>) { unimplemented!() }
        #[verifier::external_body] fn v_skip(self, n: usize) -> (r: Vec<T>) { unimplemented!() }
        #[verifier::external_body] fn v_count(self) -> (r: usize) { unimplemented!() }
        #[verifier::external_body] fn v_rev(self) -> (r: Vec<T>) { unimplemented!() }
        #[verifier::external_body] fn v_into_iter(self) -> (r: Vec<T>) { unimplemented!() }
        #[verifier::external_body] fn v_enumerate(self) -> (r: Vec<(usize, T)>) { unimplemented!() }
        #[verifier::external_body] fn v_collect<C: FromVec<T>>(self) -> (r: C) { unimplemented!() }
        #[verifier::external_body] fn v_position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>) { unimplemented!() }
    }
    pub trait RefsExt<T> { spec fn rx(&self) -> Seq<&T>;
        fn cloned(self) -> (r: Vec<T>) ensures r@.len() == self.rx().len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == *self.rx()[i];
        fn copied(self) -> (r: Vec<T>) ensures r@.len() == self.rx().len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == *self.rx()[i];
    }
    impl<'a, T: Copy> RefsExt<T> for Vec<&'a T> { open spec fn rx(&self) -> Seq<&T> { self@ }
        #[verifier::external_body] fn cloned(self) -> (r: Vec<T>) { unimplemented!() }
        #[verifier::external_body] fn copied(self) -> (r: Vec<T>) { unimplemented!() } }
    pub trait FromVec<T> { spec fn from_items(&self, s: Seq<T>) -> bool; }
    impl<T> FromVec<T> for Vec<T> { open spec fn from_items(&self, s: Seq<T>) -> bool { self@ == s } }
    impl FromVec<char> for String { open spec fn from_items(&self, s: Seq<char>) -> bool { self@ == s } }

    pub trait StrsLike { spec fn texts(&self) -> Seq<Seq<char>>; fn v_join(&self, sep: &str) -> (r: String) ensures r@ == join(self.texts(), sep@); }
    impl StrsLike for Vec<String> { open spec fn texts(&self) -> Seq<Seq<char>> { strs(self@) } #[verifier::external_body] fn v_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
    impl StrsLike for Vec<&str> { open spec fn texts(&self) -> Seq<Seq<char>> { refs(self@) } #[verifier::external_body] fn v_join(&self, sep: &str) -> (r: String) { unimplemented!() } }

    pub open spec fn sorted_by<T>(s: Seq<T>, key: spec_fn(T) -> int) -> bool {
        forall|i: int, j: int| 0 <= i <= j < s.len() ==> key(#[trigger] s[i]) <= key(#[trigger] s[j])
    }
    /// options and results
    pub trait MapExt<T>: Sized {
        spec fn mo(&self) -> Option<T>;
        fn v_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>)
            requires self.mo() is Some ==> f.requires((self.mo()->0,)),
            ensures match self.mo() { Some(x) => r is Some && f.ensures((x,), r->0), None => r is None };
        fn v_map_or<U, F: FnOnce(T) -> U>(self, u: U, f: F) -> (r: U)
            requires self.mo() is Some ==> f.requires((self.mo()->0,)),
            ensures match self.mo() { Some(x) => f.ensures((x,), r), None => r == u };
    }
    impl<T> MapExt<T> for Option<T> {
        open spec fn mo(&self) -> Option<T> { *self }
        #[verifier::external_body] fn v_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) { unimplemented!() }
        #[verifier::external_body] fn v_map_or<U, F: FnOnce(T) -> U>(self, u: U, f: F) -> (r: U) { unimplemented!() }
    }
    pub trait ResMap<T, E>: Sized {
        spec fn rm(&self) -> Result<T, E>;
        fn v_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Result<U, E>)
            requires self.rm() is Ok ==> f.requires((self.rm()->Ok_0,)),
            ensures match self.rm() { Ok(x) => r is Ok && f.ensures((x,), r->Ok_0), Err(e) => r == Err::<U, E>(e) };
    }
    impl<T, E> ResMap<T, E> for Result<T, E> {
        open spec fn rm(&self) -> Result<T, E> { *self }
        #[verifier::external_body] fn v_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Result<U, E>) { unimplemented!() }
    }
    pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (x: Result<T, E>, d: T) -> (r: T) ensures r == (match x { Ok(v) => v, Err(_) => d });
    pub assume_specification<T> [Option::<T>::or] (x: Option<T>, d: Option<T>) -> (r: Option<T>) ensures r == (if x is Some { x } else { d });
    pub assume_specification<T> [Option::<T>::replace] (x: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(x), *final(x) == Some(v);
    pub trait ExtendExt<I> { fn v_extend(&mut self, i: I); }
    impl<T> ExtendExt<Vec<T>> for Vec<T> { #[verifier::external_body] fn v_extend(&mut self, i: Vec<T>) ensures final(self)@ == old(self)@ + i@ { unimplemented!() } }
    impl<'a> ExtendExt<&'a Vec<u8>> for Vec<u8> { #[verifier::external_body] fn v_extend(&mut self, i: &'a Vec<u8>) ensures final(self)@ == old(self)@ + i@ { unimplemented!() } }
    impl<'a> ExtendExt<&'a [u8]> for Vec<u8> { #[verifier::external_body] fn v_extend(&mut self, i: &'a [u8]) ensures final(self)@ == old(self)@ + i@ { unimplemented!() } }
    impl<'a> ExtendExt<Vec<&'a u8>> for Vec<u8> { #[verifier::external_body] fn v_extend(&mut self, i: Vec<&'a u8>) ensures final(self)@ == old(self)@ + i@.map_values(|x: &u8| *x) { unimplemented!() } }
    pub trait ExtendSlice<T> { fn v_extend_from_slice(&mut self, i: &[T]); }
    impl<T: Copy> ExtendSlice<T> for Vec<T> { #[verifier::external_body] fn v_extend_from_slice(&mut self, i: &[T]) ensures final(self)@ == old(self)@ + i@ { unimplemented!() } }
    pub trait LastExt { type X; fn v_last(self) -> Option<Self::X>; }
    impl<'a, T> LastExt for &'a Vec<T> { type X = &'a T; #[verifier::external_body] fn v_last(self) -> (r: Option<&'a T>) ensures match r { Some(x) => self@.len() > 0 && *x == self@.last(), None => self@.len() == 0 } { unimplemented!() } }
    impl<'a, T> LastExt for &'a [T] { type X = &'a T; #[verifier::external_body] fn v_last(self) -> (r: Option<&'a T>) ensures match r { Some(x) => self@.len() > 0 && *x == self@.last(), None => self@.len() == 0 } { unimplemented!() } }
    pub trait SortExt<T> {
        spec fn sx(&self) -> Seq<T>;
        fn v_sort_by_key<F: Fn(&T) -> u64>(&mut self, f: F)
            requires forall|i: int| 0 <= i < old(self).sx().len() ==> f.requires((&#[trigger] old(self).sx()[i],)),
            ensures
                final(self).sx().to_multiset() == old(self).sx().to_multiset(),
                final(self).sx().len() == old(self).sx().len(),
                forall|key: spec_fn(T) -> int| (forall|x: T, k: u64| f.ensures((&x,), k) ==> k == key(x)) ==> #[trigger] sorted_by(final(self).sx(), key);
    }
    impl<T> SortExt<T> for Vec<T> {
        open spec fn sx(&self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn v_sort_by_key<F: Fn(&T) -> u64>(&mut self, f: F) { unimplemented!() }
    }
    pub trait SortText { fn v_sort(&mut self); }
    impl SortText for Vec<String> {
        #[verifier::external_body]
        fn v_sort(&mut self)
            ensures strs(final(self)@).to_multiset() == strs(old(self)@).to_multiset(), final(self)@.len() == old(self)@.len(),
                forall|i: int, j: int| 0 <= i <= j < final(self)@.len() ==> text_le(#[trigger] final(self)@[i]@, #[trigger] final(self)@[j]@)
        { unimplemented!() }
    }
    pub open spec fn flat(v: Seq<Vec<u8>>) -> Seq<u8>
        decreases v.len()
    { if v.len() == 0 { Seq::empty() } else { flat(v.drop_last()) + v.last()@ } }
    #[verifier::external_body] pub fn string_from(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
    pub broadcast proof fn flat_two(v: Seq<Vec<u8>>) requires v.len() == 2 ensures #[trigger] flat(v) == v[0]@ + v[1]@
    { reveal_with_fuel(flat, 3); assert(Seq::<u8>::empty() + v[0]@ =~= v[0]@); }
    pub broadcast proof fn flat_three(v: Seq<Vec<u8>>) requires v.len() == 3 ensures #[trigger] flat(v) == v[0]@ + v[1]@ + v[2]@
    { reveal_with_fuel(flat, 4); assert(Seq::<u8>::empty() + v[0]@ =~= v[0]@); }
    pub trait ConcatExt { spec fn cat(&self) -> Seq<u8>; fn v_concat(&self) -> (r: Vec<u8>) ensures r@ == self.cat(); }
    impl<const N: usize> ConcatExt for [Vec<u8>; N] { open spec fn cat(&self) -> Seq<u8> { flat(self@) } #[verifier::external_body] fn v_concat(&self) -> (r: Vec<u8>) { unimplemented!() } }
    /// unwrap panics on Err and None
    pub trait ResExt { type V; spec fn good(&self) -> bool; spec fn val(&self) -> Self::V;
        fn v_unwrap(self) -> (r: Self::V) requires self.good() ensures r == self.val();
        fn v_expect(self, m: &str) -> (r: Self::V) requires self.good() ensures r == self.val();
    }
    impl<T, E> ResExt for core::result::Result<T, E> { type V = T; open spec fn good(&self) -> bool { self is Ok } open spec fn val(&self) -> T { self->Ok_0 }
        #[verifier::external_body] fn v_unwrap(self) -> (r: T) { unimplemented!() }
        #[verifier::external_body] fn v_expect(self, m: &str) -> (r: T) { unimplemented!() } }
    impl<T> ResExt for Option<T> { type V = T; open spec fn good(&self) -> bool { self is Some } open spec fn val(&self) -> T { self->Some_0 }
        #[verifier::external_body] fn v_unwrap(self) -> (r: T) { unimplemented!() }
        #[verifier::external_body] fn v_expect(self, m: &str) -> (r: T) { unimplemented!() } }
    pub trait SliceMutExt { spec fn smv(&self) -> Seq<u8>;
        fn v_copy_from_slice(&mut self, s: &[u8])
            requires s@.len() == old(self).smv().len()   // different lengths panic
            ensures final(self).smv() == s@;
    }
    impl<const N: usize> SliceMutExt for [u8; N] { open spec fn smv(&self) -> Seq<u8> { self@ }
        #[verifier::external_body] fn v_copy_from_slice(&mut self, s: &[u8]) { unimplemented!() } }
    impl SliceMutExt for [u8] { open spec fn smv(&self) -> Seq<u8> { self@ }
        #[verifier::external_body] fn v_copy_from_slice(&mut self, s: &[u8]) { unimplemented!() } }
    pub trait SliceExt<T> { fn v_to_vec(&self) -> Vec<T>; }
    impl<T: Copy> SliceExt<T> for [T] {
        #[verifier::external_body]
        fn v_to_vec(&self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
    }

    // ------------------------------------------------------------------ texts
    /// what texts are searched for: a character or a text
    pub trait Pat { spec fn pat(&self) -> Seq<char>; spec fn one(&self) -> Option<char>; }
    impl Pat for char { open spec fn pat(&self) -> Seq<char> { seq![*self] } open spec fn one(&self) -> Option<char> { Some(*self) } }
    impl<'a> Pat for &'a str { open spec fn pat(&self) -> Seq<char> { self@ } open spec fn one(&self) -> Option<char> { None } }
    impl<'a> Pat for &'a String { open spec fn pat(&self) -> Seq<char> { self@ } open spec fn one(&self) -> Option<char> { None } }
    pub open spec fn starts_text(s: Seq<char>, t: Seq<char>) -> bool { t.len() <= s.len() && s.take(t.len() as int) == t }
    pub open spec fn ends_text(s: Seq<char>, t: Seq<char>) -> bool { t.len() <= s.len() && s.skip(s.len() - t.len()) == t }
    pub broadcast proof fn starts_one(s: Seq<char>, c: char)
        ensures #[trigger] starts_text(s, seq![c]) == (s.len() > 0 && s[0] == c)
    { if s.len() > 0 { assert(s.take(1).len() == 1 && s.take(1)[0] == s[0]); assert(s[0] == c ==> s.take(1) =~= seq![c]); assert(seq![c][0] == c); } }
    pub open spec fn repeated(s: Seq<char>, n: nat) -> Seq<char> decreases n { if n == 0 { Seq::empty() } else { repeated(s, (n - 1) as nat) + s } }
    pub broadcast proof fn repeated_one(c: char, n: nat) ensures #[trigger] repeated(seq![c], n) == Seq::new(n, |i: int| c) decreases n
    { if n > 0 { repeated_one(c, (n - 1) as nat); } assert(repeated(seq![c], n) =~= Seq::new(n, |i: int| c)); }
    pub open spec fn lower(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c } }
    pub open spec fn upper(c: char) -> char { if 'a' <= c && c <= 'z' { ((c as u32 - 32) as u8) as char } else { c } }
    pub trait StrMore {
        spec fn sv2(&self) -> Seq<char>;
        fn v_trim_start(&self) -> (r: &str) ensures r@ == ltrim(self.sv2());
        fn v_trim_end(&self) -> (r: &str) ensures r@ == rtrim(self.sv2());
        fn v_ends_with<P: Pat>(&self, p: P) -> (r: bool) ensures r == ends_text(self.sv2(), p.pat());
        fn v_strip_prefix<P: Pat>(&self, p: P) -> (r: Option<&str>)
            ensures match r { Some(x) => starts_text(self.sv2(), p.pat()) && x@ == self.sv2().skip(p.pat().len() as int), None => !starts_text(self.sv2(), p.pat()) };
        fn v_strip_suffix<P: Pat>(&self, p: P) -> (r: Option<&str>)
            ensures match r { Some(x) => ends_text(self.sv2(), p.pat()) && x@ == self.sv2().take(self.sv2().len() - p.pat().len()), None => !ends_text(self.sv2(), p.pat()) };
        fn v_repeat(&self, n: usize) -> (r: String) requires n <= alloc_limit() ensures r@ == repeated(self.sv2(), n as nat);
        fn v_to_ascii_lowercase(&self) -> (r: String) ensures r@ == self.sv2().map_values(|c: char| lower(c));
        fn v_to_ascii_uppercase(&self) -> (r: String) ensures r@ == self.sv2().map_values(|c: char| upper(c));
        fn v_eq_ignore_ascii_case(&self, t: &str) -> (r: bool) ensures r == (self.sv2().map_values(|c: char| lower(c)) == t@.map_values(|c: char| lower(c)));
        fn v_to_owned(&self) -> (r: String) ensures r@ == self.sv2();
    }
    impl StrMore for str {
        open spec fn sv2(&self) -> Seq<char> { self@ }
        #[verifier::external_body] fn v_trim_start(&self) -> (r: &str) { unimplemented!() }
        #[verifier::external_body] fn v_trim_end(&self) -> (r: &str) { unimplemented!() }
        #[verifier::external_body] fn v_ends_with<P: Pat>(&self, p: P) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn v_strip_prefix<P: Pat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
        #[verifier::external_body] fn v_strip_suffix<P: Pat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
        #[verifier::external_body] fn v_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
        #[verifier::external_body] fn v_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
        #[verifier::external_body] fn v_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
        #[verifier::external_body] fn v_eq_ignore_ascii_case(&self, t: &str) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn v_to_owned(&self) -> (r: String) { unimplemented!() }
    }
    pub trait TextMore {
        spec fn sv3(&self) -> Seq<char>;
        fn v_split_once<'a, P: Pat>(&'a self, p: P) -> (r: Option<(&'a str, &'a str)>)
            ensures match r { Some(x) => self.sv3() == x.0@ + p.pat() + x.1@ && !contains_text((x.0@ + p.pat()).drop_last(), p.pat()), None => !contains_text(self.sv3(), p.pat()) };
    }
    impl TextMore for str { open spec fn sv3(&self) -> Seq<char> { self@ }
        #[verifier::external_body] fn v_split_once<'a, P: Pat>(&'a self, p: P) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() }
    }
    pub trait OwnText: Sized { spec fn sv4(&self) -> Seq<char>;
        fn v_into_bytes(self) -> (r: Vec<u8>) ensures r@ == utf8(self.sv4());
        fn v_into_owned(self) -> (r: String) ensures r@ == self.sv4();
    }
    impl OwnText for String { open spec fn sv4(&self) -> Seq<char> { self@ }
        #[verifier::external_body] fn v_into_bytes(self) -> (r: Vec<u8>) { unimplemented!() }
        #[verifier::external_body] fn v_into_owned(self) -> (r: String) { unimplemented!() }
    }
    pub trait Digit { fn v_is_ascii_digit(&self) -> bool; fn v_is_ascii_hexdigit(&self) -> bool; }
    impl Digit for char {
        #[verifier::external_body] fn v_is_ascii_digit(&self) -> (r: bool) ensures r == ('0' <= *self <= '9') { unimplemented!() }
        #[verifier::external_body] fn v_is_ascii_hexdigit(&self) -> (r: bool) ensures r == ('0' <= *self <= '9' || 'a' <= *self <= 'f' || 'A' <= *self <= 'F') { unimplemented!() }
    }
    impl Digit for u8 {
        #[verifier::external_body] fn v_is_ascii_digit(&self) -> (r: bool) ensures r == (0x30 <= *self <= 0x39) { unimplemented!() }
        #[verifier::external_body] fn v_is_ascii_hexdigit(&self) -> (r: bool) ensures r == (0x30 <= *self <= 0x39 || 0x41 <= *self <= 0x46 || 0x61 <= *self <= 0x66) { unimplemented!() }
    }
    pub trait StartsExt<P> { fn v_starts_with(&self, p: P) -> bool; }
    impl<P: Pat> StartsExt<P> for str { #[verifier::external_body] fn v_starts_with(&self, p: P) -> (r: bool) ensures r == starts_text(self@, p.pat()), p.one() matches Some(c) ==> r == (self@.len() > 0 && self@[0] == c) { unimplemented!() } }
    impl<P: Pat> StartsExt<P> for String { #[verifier::external_body] fn v_starts_with(&self, p: P) -> (r: bool) ensures r == starts_text(self@, p.pat()), p.one() matches Some(c) ==> r == (self@.len() > 0 && self@[0] == c) { unimplemented!() } }
    impl<'a, const N: usize> StartsExt<&'a [u8; N]> for [u8] { #[verifier::external_body] fn v_starts_with(&self, p: &'a [u8; N]) -> (r: bool) ensures r == (p@.len() <= self@.len() && self@.take(p@.len() as int) == p@) { unimplemented!() } }
    impl<'a> StartsExt<&'a [u8]> for [u8] { #[verifier::external_body] fn v_starts_with(&self, p: &'a [u8]) -> (r: bool) ensures r == (p@.len() <= self@.len() && self@.take(p@.len() as int) == p@) { unimplemented!() } }
    pub trait LenExt { fn v_len(&self) -> usize; }
    impl<T> LenExt for Vec<T> { fn v_len(&self) -> (r: usize) ensures r == self@.len() { self.len() } }
    impl<T> LenExt for [T] { fn v_len(&self) -> (r: usize) ensures r == self@.len() { self.len() } }
    impl<T, const N: usize> LenExt for [T; N] { #[verifier::external_body] fn v_len(&self) -> (r: usize) ensures r == self@.len(), r == N { N } }
    impl LenExt for String { 
        #[verifier::external_body] fn v_len(&self) -> (r: usize) ensures r == utf8(self@).len(), (r == 0) == (self@.len() == 0), r <= 0x7fff_ffff_ffff { unimplemented!() } }
    impl LenExt for str { 
        #[verifier::external_body] fn v_len(&self) -> (r: usize) ensures r == utf8(self@).len(), (r == 0) == (self@.len() == 0), r <= 0x7fff_ffff_ffff { unimplemented!() } }
    pub trait ContainsExt<P> { fn v_contains(&self, p: P) -> bool; }
    impl<P: Pat> ContainsExt<P> for str { #[verifier::external_body] fn v_contains(&self, p: P) -> (r: bool) ensures r == contains_text(self@, p.pat()) { unimplemented!() } }
    impl<P: Pat> ContainsExt<P> for String { #[verifier::external_body] fn v_contains(&self, p: P) -> (r: bool) ensures r == contains_text(self@, p.pat()) { unimplemented!() } }
    impl<'a> ContainsExt<&'a u8> for [u8] { #[verifier::external_body] fn v_contains(&self, p: &'a u8) -> (r: bool) ensures r == self@.contains(*p) { unimplemented!() } }
    impl<'a> ContainsExt<&'a u32> for [u32] { #[verifier::external_body] fn v_contains(&self, p: &'a u32) -> (r: bool) ensures r == self@.contains(*p) { unimplemented!() } }
    impl<'a> ContainsExt<&'a u64> for [u64] { #[verifier::external_body] fn v_contains(&self, p: &'a u64) -> (r: bool) ensures r == self@.contains(*p) { unimplemented!() } }
    impl<'a> ContainsExt<&'a bool> for [bool] { #[verifier::external_body] fn v_contains(&self, p: &'a bool) -> (r: bool) ensures r == self@.contains(*p) { unimplemented!() } }
    impl<'a> ContainsExt<&'a u8> for core::ops::Range<u8> { #[verifier::external_body] fn v_contains(&self, p: &'a u8) -> (r: bool) ensures r == (self.start <= *p < self.end) { unimplemented!() } }
    impl<'a> ContainsExt<&'a u16> for core::ops::Range<u16> { #[verifier::external_body] fn v_contains(&self, p: &'a u16) -> (r: bool) ensures r == (self.start <= *p < self.end) { unimplemented!() } }
    impl<'a> ContainsExt<&'a u32> for core::ops::Range<u32> { #[verifier::external_body] fn v_contains(&self, p: &'a u32) -> (r: bool) ensures r == (self.start <= *p < self.end) { unimplemented!() } }
    impl<'a> ContainsExt<&'a u64> for core::ops::Range<u64> { #[verifier::external_body] fn v_contains(&self, p: &'a u64) -> (r: bool) ensures r == (self.start <= *p < self.end) { unimplemented!() } }
    impl<'a> ContainsExt<&'a usize> for core::ops::Range<usize> { #[verifier::external_body] fn v_contains(&self, p: &'a usize) -> (r: bool) ensures r == (self.start <= *p < self.end) { unimplemented!() } }
    impl<'a> ContainsExt<&'a u8> for core::ops::RangeInclusive<u8> { #[verifier::external_body] fn v_contains(&self, p: &'a u8) -> (r: bool) ensures r == (self@.start <= *p <= self@.end && (self@.exhausted ==> *p < self@.end)) { unimplemented!() } }
    impl<'a> ContainsExt<&'a u16> for core::ops::RangeInclusive<u16> { #[verifier::external_body] fn v_contains(&self, p: &'a u16) -> (r: bool) ensures r == (self@.start <= *p <= self@.end && (self@.exhausted ==> *p < self@.end)) { unimplemented!() } }
    impl<'a> ContainsExt<&'a u32> for core::ops::RangeInclusive<u32> { #[verifier::external_body] fn v_contains(&self, p: &'a u32) -> (r: bool) ensures r == (self@.start <= *p <= self@.end && (self@.exhausted ==> *p < self@.end)) { unimplemented!() } }
    impl<'a> ContainsExt<&'a u64> for core::ops::RangeInclusive<u64> { #[verifier::external_body] fn v_contains(&self, p: &'a u64) -> (r: bool) ensures r == (self@.start <= *p <= self@.end && (self@.exhausted ==> *p < self@.end)) { unimplemented!() } }
    impl<'a> ContainsExt<&'a usize> for core::ops::RangeInclusive<usize> { #[verifier::external_body] fn v_contains(&self, p: &'a usize) -> (r: bool) ensures r == (self@.start <= *p <= self@.end && (self@.exhausted ==> *p < self@.end)) { unimplemented!() } }
    pub trait StrExt {
        spec fn sv(&self) -> Seq<char>;
        fn v_trim(&self) -> (r: &str) ensures r@ == trim(self.sv());
        fn v_split<'a>(&'a self, c: char) -> (r: Vec<&'a str>) ensures refs(r@) == split(self.sv(), c), r@.len() == split(self.sv(), c).len();
        fn v_chars(&self) -> (r: Vec<char>) ensures r@ == self.sv();
        fn v_replace(&self, a: &str, b: &str) -> (r: String)
            ensures a@.len() == 1 && b@.len() == 0 ==> r@ == without(self.sv(), a@[0]);
        fn v_parse<T: ParseNum>(&self) -> (r: Result<T, crate::shim::ParseIntError>)
            ensures match num_text(self.sv()) {
                Some(n) => if n <= T::max() { r is Ok && r->Ok_0.pv() == n } else { r is Err },
                None => r is Err,
            };
    }
    impl StrExt for str {
        open spec fn sv(&self) -> Seq<char> { self@ }
        #[verifier::external_body] fn v_trim(&self) -> (r: &str) { unimplemented!() }
        #[verifier::external_body] fn v_split<'a>(&'a self, c: char) -> (r: Vec<&'a str>) { unimplemented!() }
        #[verifier::external_body] fn v_chars(&self) -> (r: Vec<char>) { unimplemented!() }
        #[verifier::external_body] fn v_replace(&self, a: &str, b: &str) -> (r: String) { unimplemented!() }
        #[verifier::external_body] fn v_parse<T: ParseNum>(&self) -> (r: Result<T, crate::shim::ParseIntError>) { unimplemented!() }
    }
    impl StrExt for String {
        open spec fn sv(&self) -> Seq<char> { self@ }
        #[verifier::external_body] fn v_trim(&self) -> (r: &str) { unimplemented!() }
        #[verifier::external_body] fn v_split<'a>(&'a self, c: char) -> (r: Vec<&'a str>) { unimplemented!() }
        #[verifier::external_body] fn v_chars(&self) -> (r: Vec<char>) { unimplemented!() }
        #[verifier::external_body] fn v_replace(&self, a: &str, b: &str) -> (r: String) { unimplemented!() }
        #[verifier::external_body] fn v_parse<T: ParseNum>(&self) -> (r: Result<T, crate::shim::ParseIntError>) { unimplemented!() }
    }
    pub trait ParseNum: Sized { spec fn max() -> nat; spec fn pv(&self) -> nat; }
    impl ParseNum for u8 { open spec fn max() -> nat { u8::MAX as nat } open spec fn pv(&self) -> nat { *self as nat } }
    impl ParseNum for u16 { open spec fn max() -> nat { u16::MAX as nat } open spec fn pv(&self) -> nat { *self as nat } }
    impl ParseNum for u32 { open spec fn max() -> nat { u32::MAX as nat } open spec fn pv(&self) -> nat { *self as nat } }
    impl ParseNum for u64 { open spec fn max() -> nat { u64::MAX as nat } open spec fn pv(&self) -> nat { *self as nat } }

    pub open spec fn ipow(b: int, e: nat) -> int decreases e { if e == 0 { 1 } else { b * ipow(b, (e - 1) as nat) } }
    #[verifier::external_body]
    pub fn u64_pow(b: u64, e: u32) -> (r: u64)
        requires 0 <= ipow(b as int, e as nat) <= u64::MAX
        ensures r == ipow(b as int, e as nat) { unimplemented!() }
    /// s += t
    #[verifier::external_body]
    pub fn str_eq(s: &str, t: &str) -> (r: bool) ensures r == (s@ =~= t@) { unimplemented!() }
    #[verifier::external_body]
    pub fn str_add(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }

    pub assume_specification [i8::unsigned_abs] (x: i8) -> (r: u8) ensures r == (if x < 0 { -(x as int) } else { x as int });
    /// overflow panics
    pub assume_specification [i8::abs] (x: i8) -> (r: i8) requires x > i8::MIN ensures r == (if x < 0 { -(x as int) } else { x as int });
    pub assume_specification [i16::unsigned_abs] (x: i16) -> (r: u16) ensures r == (if x < 0 { -(x as int) } else { x as int });
    /// overflow panics
    pub assume_specification [i16::abs] (x: i16) -> (r: i16) requires x > i16::MIN ensures r == (if x < 0 { -(x as int) } else { x as int });
    pub assume_specification [i32::unsigned_abs] (x: i32) -> (r: u32) ensures r == (if x < 0 { -(x as int) } else { x as int });
    /// overflow panics
    pub assume_specification [i32::abs] (x: i32) -> (r: i32) requires x > i32::MIN ensures r == (if x < 0 { -(x as int) } else { x as int });
    pub assume_specification [i64::unsigned_abs] (x: i64) -> (r: u64) ensures r == (if x < 0 { -(x as int) } else { x as int });
    /// overflow panics
    pub assume_specification [i64::abs] (x: i64) -> (r: i64) requires x > i64::MIN ensures r == (if x < 0 { -(x as int) } else { x as int });
    pub trait ToBytes<const N: usize>: Sized { spec fn bv(&self) -> nat;
        fn v_to_le_bytes(self) -> (r: [u8; N]) ensures r@ == le_bytes(self.bv(), N as nat);
        fn v_to_be_bytes(self) -> (r: [u8; N]) ensures r@ == le_bytes(self.bv(), N as nat).reverse();
    }
    #[verifier::external_body] pub fn u16_from_le(b: [u8; 2]) -> (r: u16) ensures r == le(b@, 0, 2) { unimplemented!() }
    #[verifier::external_body] pub fn u16_from_be(b: [u8; 2]) -> (r: u16) ensures r == be(b@, 0, 2) { unimplemented!() }
    impl ToBytes<2> for u16 { open spec fn bv(&self) -> nat { *self as nat }
        #[verifier::external_body] fn v_to_le_bytes(self) -> (r: [u8; 2]) { unimplemented!() }
        #[verifier::external_body] fn v_to_be_bytes(self) -> (r: [u8; 2]) { unimplemented!() } }
    #[verifier::external_body] pub fn u32_from_le(b: [u8; 4]) -> (r: u32) ensures r == le(b@, 0, 4) { unimplemented!() }
    #[verifier::external_body] pub fn u32_from_be(b: [u8; 4]) -> (r: u32) ensures r == be(b@, 0, 4) { unimplemented!() }
    impl ToBytes<4> for u32 { open spec fn bv(&self) -> nat { *self as nat }
        #[verifier::external_body] fn v_to_le_bytes(self) -> (r: [u8; 4]) { unimplemented!() }
        #[verifier::external_body] fn v_to_be_bytes(self) -> (r: [u8; 4]) { unimplemented!() } }
    #[verifier::external_body] pub fn u64_from_le(b: [u8; 8]) -> (r: u64) ensures r == le(b@, 0, 8) { unimplemented!() }
    #[verifier::external_body] pub fn u64_from_be(b: [u8; 8]) -> (r: u64) ensures r == be(b@, 0, 8) { unimplemented!() }
    impl ToBytes<8> for u64 { open spec fn bv(&self) -> nat { *self as nat }
        #[verifier::external_body] fn v_to_le_bytes(self) -> (r: [u8; 8]) { unimplemented!() }
        #[verifier::external_body] fn v_to_be_bytes(self) -> (r: [u8; 8]) { unimplemented!() } }
    pub assume_specification [u32::abs_diff] (x: u32, y: u32) -> (r: u32) ensures r == (if x < y { y - x } else { x - y });
    pub assume_specification [u64::abs_diff] (x: u64, y: u64) -> (r: u64) ensures r == (if x < y { y - x } else { x - y });
    pub assume_specification [usize::abs_diff] (x: usize, y: usize) -> (r: usize) ensures r == (if x < y { y - x } else { x - y });
    pub assume_specification [f32::from_bits] (x: u32) -> (r: f32) ensures r == crate::shim::std::io::f32_of(x as nat);
    pub assume_specification [f64::from_bits] (x: u64) -> (r: f64) ensures r == crate::shim::std::io::f64_of(x as nat);
    pub assume_specification<T> [core::mem::drop] (x: T);
    pub assume_specification<T> [<[T]>::swap] (v: &mut [T], a: usize, b: usize)
        requires a < old(v)@.len(), b < old(v)@.len()
        ensures final(v)@ == old(v)@.update(a as int, old(v)@[b as int]).update(b as int, old(v)@[a as int]);
    pub trait MinMax: Sized { spec fn iv(&self) -> int; }
    impl MinMax for u8 { open spec fn iv(&self) -> int { *self as int } }
    impl MinMax for u16 { open spec fn iv(&self) -> int { *self as int } }
    impl MinMax for u32 { open spec fn iv(&self) -> int { *self as int } }
    impl MinMax for u64 { open spec fn iv(&self) -> int { *self as int } }
    impl MinMax for usize { open spec fn iv(&self) -> int { *self as int } }
    impl MinMax for i8 { open spec fn iv(&self) -> int { *self as int } }
    impl MinMax for i16 { open spec fn iv(&self) -> int { *self as int } }
    impl MinMax for i32 { open spec fn iv(&self) -> int { *self as int } }
    impl MinMax for i64 { open spec fn iv(&self) -> int { *self as int } }
    pub assume_specification [String::as_bytes] (s: &String) -> (r: &[u8]) ensures r@ == utf8(s@);
    /// memory has less than 2^47 bytes
    pub assume_specification [String::len] (s: &String) -> (r: usize) ensures r == utf8(s@).len(), r <= 0x7fff_ffff_ffff;
    pub assume_specification<T> [<[T]>::reverse] (v: &mut [T]) ensures final(v)@ == old(v)@.reverse();
    pub assume_specification [String::insert] (s: &mut String, i: usize, c: char)
        requires ascii(old(s)@), i <= old(s)@.len()   // not at a character boundary: panic
        ensures final(s)@ == old(s)@.insert(i as int, c);

    // ------------------------------------------------------------------ mutable ranges
    pub trait SliceMutOf { spec fn bytes(&self) -> Seq<u8>; }
    impl SliceMutOf for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } }
    impl<const N: usize> SliceMutOf for [u8; N] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
    /// &mut v[a..b]
    #[verifier::external_body]
    pub fn slice_mut<'a, B: SliceMutOf>(v: &'a mut B, a: usize, b: usize) -> (r: &'a mut [u8])
        requires a <= b <= old(v).bytes().len()
        ensures r@ == old(v).bytes().subrange(a as int, b as int),
            final(r)@.len() == r@.len(),
            final(v).bytes() == old(v).bytes().subrange(0, a as int) + final(r)@ + old(v).bytes().subrange(b as int, old(v).bytes().len() as int),
    { unimplemented!() }

    /// where read_exact may read into: Vec<u8>, [u8; N], [u8]
    pub trait BufLike { spec fn bv(&self) -> Seq<u8>; }
    impl BufLike for Vec<u8> { open spec fn bv(&self) -> Seq<u8> { self@ } }
    impl<const N: usize> BufLike for [u8; N] { open spec fn bv(&self) -> Seq<u8> { self@ } }
    impl BufLike for [u8] { open spec fn bv(&self) -> Seq<u8> { self@ } }

    pub trait BytesLike { spec fn bytes(&self) -> Seq<u8>; }
    impl<'a> BytesLike for &'a [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
    impl<'a> BytesLike for &'a Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } }

    } // verus!

    pub mod byteorder {
        use vstd::prelude::*;
        use super::*;
        verus! {
        pub struct LittleEndian;
        pub struct BigEndian;
        pub use super::ByteOrder;
        impl ByteOrder for LittleEndian { open spec fn big() -> bool { false } }
        impl ByteOrder for BigEndian { open spec fn big() -> bool { true } }
        /// writing to the end of a Vec never fails (Cursor and TcpStream have their own methods)
        pub trait WriteBytesExt {
            spec fn written(&self) -> Seq<u8>;
            fn write_u8(&mut self, x: u8) -> (r: Result<(), super::std::io::Error>)
                ensures r is Ok, final(self).written() == old(self).written() + seq![x];
            fn write_u16<B: ByteOrder>(&mut self, x: u16) -> (r: Result<(), super::std::io::Error>)
                ensures r is Ok, !B::big() ==> final(self).written() == old(self).written() + le_bytes(x as nat, 2), final(self).written().len() == old(self).written().len() + 2;
            fn write_u24<B: ByteOrder>(&mut self, x: u32) -> (r: Result<(), super::std::io::Error>)
                requires x < 0x100_0000
                ensures r is Ok, !B::big() ==> final(self).written() == old(self).written() + le_bytes(x as nat, 3), final(self).written().len() == old(self).written().len() + 3;
            fn write_u32<B: ByteOrder>(&mut self, x: u32) -> (r: Result<(), super::std::io::Error>)
                ensures r is Ok, !B::big() ==> final(self).written() == old(self).written() + le_bytes(x as nat, 4), final(self).written().len() == old(self).written().len() + 4;
            fn write_u64<B: ByteOrder>(&mut self, x: u64) -> (r: Result<(), super::std::io::Error>)
                ensures r is Ok, !B::big() ==> final(self).written() == old(self).written() + le_bytes(x as nat, 8), final(self).written().len() == old(self).written().len() + 8;
        }
        impl WriteBytesExt for Vec<u8> {
            open spec fn written(&self) -> Seq<u8> { self@ }
            #[verifier::external_body] fn write_u8(&mut self, x: u8) -> (r: Result<(), super::std::io::Error>) { unimplemented!() }
            #[verifier::external_body] fn write_u16<B: ByteOrder>(&mut self, x: u16) -> (r: Result<(), super::std::io::Error>) { unimplemented!() }
            #[verifier::external_body] fn write_u24<B: ByteOrder>(&mut self, x: u32) -> (r: Result<(), super::std::io::Error>) { unimplemented!() }
            #[verifier::external_body] fn write_u32<B: ByteOrder>(&mut self, x: u32) -> (r: Result<(), super::std::io::Error>) { unimplemented!() }
            #[verifier::external_body] fn write_u64<B: ByteOrder>(&mut self, x: u64) -> (r: Result<(), super::std::io::Error>) { unimplemented!() }
        }
        /// reading from a byte slice that shrinks (Cursor has its own methods)
        pub trait ReadBytesExt {
            spec fn rest(&self) -> Seq<u8>;
            fn read_u24<B: ByteOrder>(&mut self) -> (r: Result<u32, super::std::io::Error>)
                ensures match r {
                    Ok(v) => old(self).rest().len() >= 3 && v == num(B::big(), old(self).rest(), 0, 3) && v < 0x100_0000,
                    Err(_) => old(self).rest().len() < 3,
                };
        }
        impl<'a> ReadBytesExt for &'a [u8] {
            open spec fn rest(&self) -> Seq<u8> { self@ }
            #[verifier::external_body] fn read_u24<B: ByteOrder>(&mut self) -> (r: Result<u32, super::std::io::Error>) { unimplemented!() }
        }
        }
    }

    pub mod sha1 {
        use vstd::prelude::*;
        use super::*;
        verus! {
        pub struct Sha1 { pub s: Vec<u8> }
        impl Sha1 {
            pub open spec fn v(&self) -> Seq<u8> { self.s@ }
            #[verifier::external_body] pub fn new() -> (r: Self) ensures r.v() == Seq::<u8>::empty() { unimplemented!() }
            #[verifier::external_body] pub fn update(&mut self, d: &[u8]) ensures final(self).v() == old(self).v() + d@ { unimplemented!() }
            #[verifier::external_body] pub fn finalize(self) -> (r: super::Digested) ensures r.v() == sha1_of(self.v()) { unimplemented!() }
        }
        }
    }
    pub mod sha2 {
        use vstd::prelude::*;
        use super::*;
        verus! {
        pub trait Digest { }
        pub struct Sha256 { pub s: Vec<u8> }
        impl Sha256 {
            pub open spec fn v(&self) -> Seq<u8> { self.s@ }
            #[verifier::external_body] pub fn new() -> (r: Self) ensures r.v() == Seq::<u8>::empty() { unimplemented!() }
            #[verifier::external_body] pub fn update(&mut self, d: &[u8]) ensures final(self).v() == old(self).v() + d@ { unimplemented!() }
            #[verifier::external_body] pub fn finalize(self) -> (r: super::Digested) ensures r.v() == sha256_of(self.v()) { unimplemented!() }
        }
        }
    }
    verus! {
    pub struct Digested { pub s: Vec<u8> }
    impl Digested {
        pub open spec fn v(&self) -> Seq<u8> { self.s@ }
        #[verifier::external_body] pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self.v() { unimplemented!() }
    }
    }

    pub mod hex {
        use vstd::prelude::*;
        use super::*;
        verus! {
        pub struct FromHexError { pub k: u8 }
        #[verifier::external_body]
        pub fn encode<const N: usize>(d: [u8; N]) -> (r: String) ensures r@ == hex_text(d@) { unimplemented!() }
        #[verifier::external_body]
        pub fn decode(s: String) -> (r: Result<Vec<u8>, FromHexError>)
            ensures if is_hex_text(s@) && ascii(s@) { r is Ok && r->Ok_0@ == unhex(s@) } else { r is Err }
        { unimplemented!() }
        }
    }

    pub mod openssl {
        pub mod error {
            use vstd::prelude::*;
            verus! { pub struct ErrorStack { pub k: u8 } }
        }
        pub mod rsa {
            use vstd::prelude::*;
            use super::error::ErrorStack;
            use crate::shim::BufLike;
            verus! {
            #[allow(non_camel_case_types)] pub enum Padding { PKCS1, PKCS1_OAEP, NONE }
            pub struct Rsa { pub k: u8 }
            /// the public key in a PEM text
            pub uninterp spec fn pem_key(pem: Seq<u8>) -> Option<Rsa>;
            pub uninterp spec fn rsa_size(k: Rsa) -> u32;
            /// the encryption that is made of m under the public key k with the padding (which random bits go into it is not looked at)
            pub uninterp spec fn ciphertext(k: Rsa, pad: Padding, m: Seq<u8>) -> Seq<u8>;
            /// m fits into one block
            pub uninterp spec fn can_encrypt(k: Rsa, pad: Padding, m: Seq<u8>) -> bool;
            /// the text of a key is longer than its modulus
            pub broadcast axiom fn pem_size(pem: Seq<u8>) ensures #[trigger] pem_key(pem) is Some ==> rsa_size(pem_key(pem)->Some_0) <= pem.len();
            pub broadcast axiom fn cipher_size(k: Rsa, pad: Padding, m: Seq<u8>) ensures (#[trigger] ciphertext(k, pad, m)).len() == rsa_size(k);
            impl Rsa {
                #[verifier::external_body]
                pub fn public_key_from_pem(pem: &[u8]) -> (r: Result<Rsa, ErrorStack>)
                    ensures match pem_key(pem@) { Some(k) => r is Ok && r->Ok_0 == k, None => r is Err }
                { unimplemented!() }
                #[verifier::external_body]
                pub fn size(&self) -> (r: u32) ensures r == rsa_size(*self) { unimplemented!() }
                #[verifier::external_body]
                pub fn public_encrypt<B: BufLike>(&self, from: &[u8], to: &mut B, padding: Padding) -> (r: Result<usize, ErrorStack>)
                    requires old(to).bv().len() >= rsa_size(*self)   // panics otherwise
                    ensures final(to).bv().len() == old(to).bv().len(),
                        r is Ok <==> can_encrypt(*self, padding, from@),
                        r is Ok ==> final(to).bv() == ciphertext(*self, padding, from@) + old(to).bv().skip(rsa_size(*self) as int)
                { unimplemented!() }
            }
            }
        }
    }

    pub mod std {
        pub mod fmt { pub use crate::shim::fmt::*; }
        pub mod num { pub use crate::shim::ParseIntError; }
        pub mod string { pub use crate::shim::FromUtf8Error; }
        pub mod str {
            use vstd::prelude::*;
            verus! {
            pub struct Utf8Error { pub k: u8 }
            #[verifier::external_body]
            pub fn from_utf8<'a>(v: &'a [u8]) -> (r: Result<&'a str, Utf8Error>)
                ensures if vstd::utf8::valid_utf8(v@) { r is Ok && r->Ok_0@ == vstd::utf8::decode_utf8(v@) } else { r is Err }
            { unimplemented!() }
            }
        }
        pub mod mem { pub use core::mem::{swap, size_of};
            use vstd::prelude::*;
            verus! {
            #[verifier::external_body]
            pub fn replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { unimplemented!() }
            #[verifier::external_body]
            pub fn take<T: Default>(a: &mut T) -> (r: T) ensures r == *old(a), T::default.ensures((), *final(a)) { unimplemented!() }
            }
        }
        pub mod cmp {
            use vstd::prelude::*;
            verus! {
            #[verifier::external_body]
            pub fn min<T: crate::shim::MinMax>(a: T, b: T) -> (r: T) ensures r == (if b.iv() < a.iv() { b } else { a }) { unimplemented!() }
            #[verifier::external_body]
            pub fn max<T: crate::shim::MinMax>(a: T, b: T) -> (r: T) ensures r == (if b.iv() < a.iv() { a } else { b }) { unimplemented!() }
            }
        }
        ::vstd::prelude::verus! { pub mod u8 { pub const MAX: ::core::primitive::u8 = 255; }
        pub mod u16 { pub const MAX: ::core::primitive::u16 = 0xFFFF; }
        pub mod u32 { pub const MAX: ::core::primitive::u32 = 0xFFFF_FFFF; }
        pub mod u64 { pub const MAX: ::core::primitive::u64 = 0xFFFF_FFFF_FFFF_FFFF; } }
        pub mod time {
            use vstd::prelude::*;
            verus! {
            #[derive(Clone, Copy)]
            pub struct Duration { pub ms: u128 }
            /// overflow of the seconds panics
            impl vstd::std_specs::ops::AddSpecImpl<Duration> for Duration {
                open spec fn obeys_add_spec() -> bool { true }
                open spec fn add_req(self, o: Duration) -> bool { self.ms + o.ms < 0x1_0000_0000_0000_0000 * 1000 }
                open spec fn add_spec(self, o: Duration) -> Duration { Duration { ms: (self.ms + o.ms) as u128 } }
            }
            impl core::ops::Add<Duration> for Duration { type Output = Duration; #[verifier::external_body] fn add(self, o: Duration) -> Duration { unimplemented!() } }
            impl Duration {
                pub open spec fn millis(&self) -> int { self.ms as int }
                pub open spec fn of_secs(s: u64) -> Duration { Duration { ms: (s * 1000) as u128 } }
                pub open spec fn of_millis(s: u64) -> Duration { Duration { ms: s as u128 } }
                #[verifier::external_body]
                #[verifier::when_used_as_spec(of_secs)]
                pub const fn from_secs(s: u64) -> (r: Self) ensures r == Self::of_secs(s) { Duration { ms: s as u128 * 1000 } }
                #[verifier::external_body]
                #[verifier::when_used_as_spec(of_millis)]
                pub const fn from_millis(s: u64) -> (r: Self) ensures r == Self::of_millis(s) { Duration { ms: s as u128 } }
                /// whole milliseconds; a Duration has at most u64::MAX seconds
                #[verifier::external_body]
                pub fn as_millis(&self) -> (r: u128) ensures r == self.millis(), r < 0x1_0000_0000_0000_0000 * 1000 { unimplemented!() }
            }
            }
        }
        pub mod collections {
            use vstd::prelude::*;
            verus! {
            pub trait Key { type KV; spec fn kv(&self) -> Self::KV; }
            impl Key for u64 { type KV = u64; open spec fn kv(&self) -> u64 { *self } }
            impl Key for u32 { type KV = u32; open spec fn kv(&self) -> u32 { *self } }
            impl Key for String { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
            #[verifier::external_body]
            #[verifier::reject_recursive_types(K)]
            #[verifier::accept_recursive_types(V)]
            pub struct HashMap<K: Key, V> { k: core::marker::PhantomData<(K, V)> }
            impl<K: Key, V> HashMap<K, V> {
                pub uninterp spec fn m(&self) -> Map<K::KV, V>;
                /// iteration order (fixed while the map is not changed)
                pub uninterp spec fn order(&self) -> Seq<K::KV>;
                #[verifier::external_body]
                pub fn new() -> (r: Self) ensures r.m() == Map::<K::KV, V>::empty() { unimplemented!() }
                #[verifier::external_body]
                pub fn v_len(&self) -> (r: usize) ensures r == self.order().len() { unimplemented!() }
                #[verifier::external_body]
                pub fn is_empty(&self) -> (r: bool) ensures r == (self.order().len() == 0) { unimplemented!() }
                #[verifier::external_body]
                pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
                    ensures final(self).m() == old(self).m().insert(k.kv(), v),
                        r == (if old(self).m().contains_key(k.kv()) { Some(old(self).m()[k.kv()]) } else { None }),
                { unimplemented!() }
                #[verifier::external_body]
                pub fn get(&self, k: &K) -> (r: Option<&V>)
                    ensures match r { Some(v) => self.m().contains_key(k.kv()) && *v == self.m()[k.kv()], None => !self.m().contains_key(k.kv()) }
                { unimplemented!() }
                #[verifier::external_body]
                pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.m().contains_key(k.kv()) { unimplemented!() }
                #[verifier::external_body]
                pub fn remove(&mut self, k: &K) -> (r: Option<V>)
                    ensures final(self).m() == old(self).m().remove(k.kv()),
                        match r { Some(v) => old(self).m().contains_key(k.kv()) && v == old(self).m()[k.kv()], None => !old(self).m().contains_key(k.kv()) }
                { unimplemented!() }
                #[verifier::external_body]
                pub fn clear(&mut self) ensures final(self).m() == Map::<K::KV, V>::empty() { unimplemented!() }
                #[verifier::external_body]
                pub fn v_values(&self) -> (r: Vec<&V>)
                    ensures r@.len() == self.order().len(),
                        forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == self.m()[self.order()[i]]
                { unimplemented!() }
                #[verifier::external_body]
                pub fn v_keys(&self) -> (r: Vec<&K>)
                    ensures r@.len() == self.order().len(),
                        forall|i: int| 0 <= i < r@.len() ==> (*#[trigger] r@[i]).kv() == self.order()[i]
                { unimplemented!() }
                #[verifier::external_body]
                pub fn v_iter(&self) -> (r: Vec<(&K, &V)>)
                    ensures r@.len() == self.order().len(),
                        forall|i: int| 0 <= i < r@.len() ==> (*(#[trigger] r@[i]).0).kv() == self.order()[i] && *r@[i].1 == self.m()[self.order()[i]]
                { unimplemented!() }
                #[verifier::external_body]
                pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>)
                    ensures r.key() == k.kv(), *r.map == *old(self), *final(r.map) == *final(self)
                { unimplemented!() }
                #[verifier::external_body]
                pub fn get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
                    ensures match r {
                        Some(v) => old(self).m().contains_key(k.kv()) && *v == old(self).m()[k.kv()]
                            && final(self).m() == old(self).m().insert(k.kv(), *final(v)),
                        None => !old(self).m().contains_key(k.kv()) && *final(self) == *old(self),
                    }
                { unimplemented!() }
            }
            /// the order enumerates the keys, each once
            pub broadcast axiom fn order_keys<K: Key, V>(h: HashMap<K, V>)
                ensures #![trigger h.order()] h.order().no_duplicates(), h.order().to_set() == h.m().dom();
            #[verifier::reject_recursive_types(K)]
            #[verifier::reject_recursive_types(V)]
            pub struct Entry<'a, K: Key, V> { pub map: &'a mut HashMap<K, V>, pub k: K }
            impl<'a, K: Key, V> Entry<'a, K, V> {
                pub open spec fn key(&self) -> K::KV { self.k.kv() }
                #[verifier::external_body]
                pub fn or_insert(self, v: V) -> (r: &'a mut V)
                    ensures
                        *r == (if (*old(self.map)).m().contains_key(self.key()) { (*old(self.map)).m()[self.key()] } else { v }),
                        (*final(self.map)).m() == (*old(self.map)).m().insert(self.key(), *final(r)),
                { unimplemented!() }
            }
            #[verifier::external_body]
            #[verifier::reject_recursive_types(K)]
            pub struct HashSet<K: Key> { k: core::marker::PhantomData<K> }
            impl<K: Key> HashSet<K> {
                pub uninterp spec fn s(&self) -> Set<K::KV>;
                #[verifier::external_body]
                pub fn new() -> (r: Self) ensures r.s() == Set::<K::KV>::empty() { unimplemented!() }
                #[verifier::external_body]
                pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self).s() == old(self).s().insert(k.kv()), r == !old(self).s().contains(k.kv()) { unimplemented!() }
                #[verifier::external_body]
                pub fn contains(&self, k: &K) -> (r: bool) ensures r == self.s().contains(k.kv()) { unimplemented!() }
                #[verifier::external_body]
                pub fn v_contains(&self, k: &K) -> (r: bool) ensures r == self.s().contains(k.kv()) { unimplemented!() }
            }
            }
        }
        pub mod fs {
            use vstd::prelude::*;
            use super::io::{Error, ErrorKind};
            use crate::shim::BufLike;
            verus! {
            pub struct File { pub d: Vec<u8>, pub f: bool }
            impl File {
                /// the bytes that are still to be read
                pub open spec fn rest(&self) -> Seq<u8> { self.d@ }
                /// the operating system has reported an error
                pub open spec fn failed(&self) -> bool { self.f }
                #[verifier::external_body]
                pub fn read_exact<B: BufLike + ?Sized>(&mut self, buf: &mut B) -> (r: Result<(), Error>)
                    ensures final(buf).bv().len() == old(buf).bv().len(),
                        match r {
                            Ok(_) => old(buf).bv().len() <= old(self).rest().len()
                                && final(buf).bv() == old(self).rest().take(old(buf).bv().len() as int)
                                && final(self).rest() == old(self).rest().skip(old(buf).bv().len() as int)
                                && final(self).failed() == old(self).failed(),
                            // UnexpectedEof exactly when the file ends within the requested bytes
                            Err(e) => if e.ek() == ErrorKind::UnexpectedEof { old(self).rest().len() < old(buf).bv().len() && final(self).failed() == old(self).failed() } else { final(self).failed() },
                        }
                { unimplemented!() }
            }
            }
        }
        pub mod net {
            use vstd::prelude::*;
            use super::io::Error;
            use super::time::Duration;
            use crate::shim::*;
            verus! {
            /// rx: what the peer will send and has not been read yet; tx: what was written;
            /// last: result of the last read; broken: a read or write has failed
            pub struct TcpStream { pub firstv: Vec<u8>, pub addr: String, pub rxv: Vec<u8>, pub txv: Vec<u8>, pub lastv: Vec<u8>, pub brokenv: bool }
            impl TcpStream {
                /// everything the peer sends on this connection
                pub open spec fn first(&self) -> Seq<u8> { self.firstv@ }
                pub open spec fn address(&self) -> Seq<char> { self.addr@ }
                pub open spec fn rx(&self) -> Seq<u8> { self.rxv@ }
                pub open spec fn tx(&self) -> Seq<u8> { self.txv@ }
                pub open spec fn last(&self) -> Seq<u8> { self.lastv@ }
                pub open spec fn broken(&self) -> bool { self.brokenv }
                #[verifier::external_body]
                pub fn connect(a: String) -> (r: Result<TcpStream, Error>)
                    ensures r is Ok ==> r->Ok_0.tx() == Seq::<u8>::empty() && r->Ok_0.first() == r->Ok_0.rx() && r->Ok_0.address() == a@ && r->Ok_0.last() == Seq::<u8>::empty() && !r->Ok_0.broken()
                { unimplemented!() }
                #[verifier::external_body]
                pub fn set_read_timeout(&self, d: Option<Duration>) -> (r: Result<(), Error>) { unimplemented!() }
                #[verifier::external_body]
                pub fn read_exact<B: BufLike + ?Sized>(&mut self, buf: &mut B) -> (r: Result<(), Error>)
                    ensures final(buf).bv().len() == old(buf).bv().len(), final(self).tx() == old(self).tx(), final(self).firstv == old(self).firstv, final(self).addr == old(self).addr,
                        match r {
                            Ok(_) => old(buf).bv().len() <= old(self).rx().len()
                                && final(buf).bv() == old(self).rx().take(old(buf).bv().len() as int)
                                && final(self).rx() == old(self).rx().skip(old(buf).bv().len() as int)
                                && final(self).last() == final(buf).bv() && final(self).broken() == old(self).broken(),
                            Err(e) => final(self).broken(),
                        }
                { unimplemented!() }
                #[verifier::external_body]
                pub fn write_u24<B: ByteOrder>(&mut self, x: u32) -> (r: Result<(), Error>)
                    requires x < 0x100_0000   // byteorder panics otherwise
                    ensures final(self).rx() == old(self).rx(), final(self).last() == old(self).last(), final(self).firstv == old(self).firstv, final(self).addr == old(self).addr,
                        match r {
                            Ok(_) => !B::big() ==> final(self).tx() == old(self).tx() + le_bytes(x as nat, 3) && final(self).broken() == old(self).broken(),
                            Err(_) => final(self).broken() && old(self).tx().is_prefix_of(final(self).tx()) && (!B::big() ==> final(self).tx().is_prefix_of(old(self).tx() + le_bytes(x as nat, 3))),
                        }
                { unimplemented!() }
                #[verifier::external_body]
                pub fn write_u8(&mut self, x: u8) -> (r: Result<(), Error>)
                    ensures final(self).rx() == old(self).rx(), final(self).last() == old(self).last(), final(self).firstv == old(self).firstv, final(self).addr == old(self).addr,
                        match r {
                            Ok(_) => final(self).tx() == old(self).tx() + seq![x] && final(self).broken() == old(self).broken(),
                            Err(_) => final(self).broken() && final(self).tx() == old(self).tx(),
                        }
                { unimplemented!() }
                #[verifier::external_body]
                pub fn write_all(&mut self, x: &[u8]) -> (r: Result<(), Error>)
                    ensures final(self).rx() == old(self).rx(), final(self).last() == old(self).last(), final(self).firstv == old(self).firstv, final(self).addr == old(self).addr,
                        match r {
                            Ok(_) => final(self).tx() == old(self).tx() + x@ && final(self).broken() == old(self).broken(),
                            Err(_) => final(self).broken() && old(self).tx().is_prefix_of(final(self).tx()) && final(self).tx().is_prefix_of(old(self).tx() + x@),
                        }
                { unimplemented!() }
                /// may write only a part
                #[verifier::external_body]
                pub fn write(&mut self, x: &[u8]) -> (r: Result<usize, Error>)
                    ensures final(self).rx() == old(self).rx(), final(self).last() == old(self).last(), final(self).firstv == old(self).firstv, final(self).addr == old(self).addr,
                        match r {
                            Ok(n) => n <= x@.len() && final(self).tx() == old(self).tx() + x@.take(n as int) && final(self).broken() == old(self).broken(),
                            Err(_) => final(self).broken() && final(self).tx() == old(self).tx(),
                        }
                { unimplemented!() }
            }
            }
        }
        pub mod io {
            use vstd::prelude::*;
            use crate::shim::*;
            verus! {
            pub trait Read { }
            pub trait BufRead { }
            /// writing to the end of a Vec never fails (Cursor and TcpStream have their own methods)
            pub trait Write {
                spec fn sent(&self) -> Seq<u8>;
                fn write_all(&mut self, x: &[u8]) -> (r: Result<()>)
                    ensures r is Ok, final(self).sent() == old(self).sent() + x@;
                fn flush(&mut self) -> (r: Result<()>)
                    ensures r is Ok, final(self).sent() == old(self).sent();
            }
            impl Write for Vec<u8> {
                open spec fn sent(&self) -> Seq<u8> { self@ }
                #[verifier::external_body] fn write_all(&mut self, x: &[u8]) -> (r: Result<()>) { unimplemented!() }
                #[verifier::external_body] fn flush(&mut self) -> (r: Result<()>) { unimplemented!() }
            }
            pub trait Seek { }
            pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
            #[derive(PartialEq, Structural, Clone, Copy, Eq)]
            pub enum ErrorKind {
                NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse,
                AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero,
                Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other,
            }
            pub struct Error { pub k: ErrorKind }
            pub type Result<T> = core::result::Result<T, Error>;
            impl Error {
                pub open spec fn ek(&self) -> ErrorKind { self.k }
                #[verifier::external_body]
                pub fn new(k: ErrorKind, m: &str) -> (r: Self) ensures r.ek() == k { unimplemented!() }
                #[verifier::external_body]
                pub fn kind(&self) -> (r: ErrorKind) ensures r == self.ek() { unimplemented!() }
            }

            pub struct Cursor<T> { pub inner: T, pub pos: u64 }
            impl<T> Cursor<T> {
                #[verifier::external_body]
                pub fn new(t: T) -> (r: Self) ensures r.inner == t, r.pos == 0 { unimplemented!() }
                #[verifier::external_body]
                pub fn position(&self) -> (r: u64) ensures r == self.pos { unimplemented!() }
                #[verifier::external_body]
                pub fn set_position(&mut self, p: u64) ensures final(self).inner == old(self).inner, final(self).pos == p { unimplemented!() }
            }
            impl<T: BytesLike> Cursor<T> {
                pub open spec fn d(&self) -> Seq<u8> { self.inner.bytes() }
                pub open spec fn p(&self) -> int { self.pos as int }
                pub open spec fn left(&self) -> int { self.d().len() - self.p() }
                /// memory has less than 2^47 bytes
                #[verifier::external_body]
                pub fn get_ref(&self) -> (r: &T) ensures *r == self.inner, self.d().len() <= 0x7fff_ffff_ffff { unimplemented!() }

                #[verifier::external_body]
                pub fn read_u8(&mut self) -> (r: core::result::Result<u8, Error>)
                    ensures final(self).inner == old(self).inner,
                        match r { Ok(v) => old(self).left() >= 1 && v == old(self).d()[old(self).p()] && final(self).p() == old(self).p() + 1,
                                  Err(e) => old(self).left() < 1 && e.ek() == ErrorKind::UnexpectedEof }
                { unimplemented!() }
                #[verifier::external_body]
                pub fn read_u16<B: ByteOrder>(&mut self) -> (r: core::result::Result<u16, Error>)
                    ensures final(self).inner == old(self).inner,
                        match r { Ok(v) => old(self).left() >= 2 && v == num(B::big(), old(self).d(), old(self).p(), 2) && final(self).p() == old(self).p() + 2,
                                  Err(e) => old(self).left() < 2 && e.ek() == ErrorKind::UnexpectedEof }
                { unimplemented!() }
                #[verifier::external_body]
                pub fn read_u24<B: ByteOrder>(&mut self) -> (r: core::result::Result<u32, Error>)
                    ensures final(self).inner == old(self).inner,
                        match r { Ok(v) => old(self).left() >= 3 && v == num(B::big(), old(self).d(), old(self).p(), 3) && v < 0x100_0000 && final(self).p() == old(self).p() + 3,
                                  Err(e) => old(self).left() < 3 && e.ek() == ErrorKind::UnexpectedEof }
                { unimplemented!() }
                #[verifier::external_body]
                pub fn read_i24<B: ByteOrder>(&mut self) -> (r: core::result::Result<i32, Error>)
                    ensures final(self).inner == old(self).inner,
                        match r { Ok(v) => old(self).left() >= 3 && final(self).p() == old(self).p() + 3 && -0x80_0000 <= v < 0x80_0000 && num(B::big(), old(self).d(), old(self).p(), 3) < 0x100_0000
                                    && v == ({ let n = num(B::big(), old(self).d(), old(self).p(), 3) as int; if n >= 0x80_0000 { n - 0x100_0000 } else { n } }),
                                  Err(e) => old(self).left() < 3 && e.ek() == ErrorKind::UnexpectedEof }
                { unimplemented!() }
                #[verifier::external_body]
                pub fn read_u32<B: ByteOrder>(&mut self) -> (r: core::result::Result<u32, Error>)
                    ensures final(self).inner == old(self).inner,
                        match r { Ok(v) => old(self).left() >= 4 && v == num(B::big(), old(self).d(), old(self).p(), 4) && final(self).p() == old(self).p() + 4,
                                  Err(e) => old(self).left() < 4 && e.ek() == ErrorKind::UnexpectedEof }
                { unimplemented!() }
                #[verifier::external_body]
                pub fn read_u48<B: ByteOrder>(&mut self) -> (r: core::result::Result<u64, Error>)
                    ensures final(self).inner == old(self).inner,
                        match r { Ok(v) => old(self).left() >= 6 && v == num(B::big(), old(self).d(), old(self).p(), 6) && v < 0x1_0000_0000_0000 && final(self).p() == old(self).p() + 6,
                                  Err(e) => old(self).left() < 6 && e.ek() == ErrorKind::UnexpectedEof }
                { unimplemented!() }
                #[verifier::external_body]
                pub fn read_u64<B: ByteOrder>(&mut self) -> (r: core::result::Result<u64, Error>)
                    ensures final(self).inner == old(self).inner,
                        match r { Ok(v) => old(self).left() >= 8 && v == num(B::big(), old(self).d(), old(self).p(), 8) && final(self).p() == old(self).p() + 8,
                                  Err(e) => old(self).left() < 8 && e.ek() == ErrorKind::UnexpectedEof }
                { unimplemented!() }
                #[verifier::external_body]
                pub fn read_uint<B: ByteOrder>(&mut self, n: usize) -> (r: core::result::Result<u64, Error>)
                    requires 1 <= n <= 8   // byteorder panics otherwise
                    ensures final(self).inner == old(self).inner,
                        match r { Ok(v) => old(self).left() >= n && v == num(B::big(), old(self).d(), old(self).p(), n as nat) && v < pow256(n as nat) && final(self).p() == old(self).p() + n,
                                  Err(e) => old(self).left() < n && e.ek() == ErrorKind::UnexpectedEof }
                { unimplemented!() }
                #[verifier::external_body]
                pub fn read_i8(&mut self) -> (r: core::result::Result<i8, Error>)
                    ensures final(self).inner == old(self).inner,
                        match r { Ok(v) => old(self).left() >= 1 && v == signed(num(false, old(self).d(), old(self).p(), 1), 1) && final(self).p() == old(self).p() + 1,
                                  Err(e) => old(self).left() < 1 && e.ek() == ErrorKind::UnexpectedEof }
                { unimplemented!() }
                #[verifier::external_body]
                pub fn read_i16<B: ByteOrder>(&mut self) -> (r: core::result::Result<i16, Error>)
                    ensures final(self).inner == old(self).inner,
                        match r { Ok(v) => old(self).left() >= 2 && v == signed(num(B::big(), old(self).d(), old(self).p(), 2), 2) && final(self).p() == old(self).p() + 2,
                                  Err(e) => old(self).left() < 2 && e.ek() == ErrorKind::UnexpectedEof }
                { unimplemented!() }
                #[verifier::external_body]
                pub fn read_i32<B: ByteOrder>(&mut self) -> (r: core::result::Result<i32, Error>)
                    ensures final(self).inner == old(self).inner,
                        match r { Ok(v) => old(self).left() >= 4 && v == signed(num(B::big(), old(self).d(), old(self).p(), 4), 4) && final(self).p() == old(self).p() + 4,
                                  Err(e) => old(self).left() < 4 && e.ek() == ErrorKind::UnexpectedEof }
                { unimplemented!() }
                #[verifier::external_body]
                pub fn read_i64<B: ByteOrder>(&mut self) -> (r: core::result::Result<i64, Error>)
                    ensures final(self).inner == old(self).inner,
                        match r { Ok(v) => old(self).left() >= 8 && v == signed(num(B::big(), old(self).d(), old(self).p(), 8), 8) && final(self).p() == old(self).p() + 8,
                                  Err(e) => old(self).left() < 8 && e.ek() == ErrorKind::UnexpectedEof }
                { unimplemented!() }
                #[verifier::external_body]
                pub fn read_int<B: ByteOrder>(&mut self, n: usize) -> (r: core::result::Result<i64, Error>)
                    requires 1 <= n <= 8   // byteorder panics otherwise
                    ensures final(self).inner == old(self).inner,
                        match r { Ok(v) => old(self).left() >= n && v == signed(num(B::big(), old(self).d(), old(self).p(), n as nat), n as nat) && final(self).p() == old(self).p() + n,
                                  Err(e) => old(self).left() < n && e.ek() == ErrorKind::UnexpectedEof }
                { unimplemented!() }
                #[verifier::external_body]
                pub fn into_inner(self) -> (r: T) ensures r == self.inner { unimplemented!() }
                #[verifier::external_body]
                pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: core::result::Result<usize, Error>)
                    ensures final(self).inner == old(self).inner, r is Ok, r->Ok_0 == tail(old(self).d(), old(self).p()).len(),
                        final(buf)@ == old(buf)@ + tail(old(self).d(), old(self).p()), final(self).p() == old(self).p() + r->Ok_0,
                { unimplemented!() }
                #[verifier::external_body]
                pub fn read_f32<B: ByteOrder>(&mut self) -> (r: core::result::Result<f32, Error>)
                    ensures final(self).inner == old(self).inner,
                        match r { Ok(v) => old(self).left() >= 4 && v == f32_of(num(B::big(), old(self).d(), old(self).p(), 4)) && final(self).p() == old(self).p() + 4,
                                  Err(e) => old(self).left() < 4 && e.ek() == ErrorKind::UnexpectedEof }
                { unimplemented!() }
                #[verifier::external_body]
                pub fn read_f64<B: ByteOrder>(&mut self) -> (r: core::result::Result<f64, Error>)
                    ensures final(self).inner == old(self).inner,
                        match r { Ok(v) => old(self).left() >= 8 && v == f64_of(num(B::big(), old(self).d(), old(self).p(), 8)) && final(self).p() == old(self).p() + 8,
                                  Err(e) => old(self).left() < 8 && e.ek() == ErrorKind::UnexpectedEof }
                { unimplemented!() }
                #[verifier::external_body]
                pub fn read_exact<F: BufLike + ?Sized>(&mut self, buf: &mut F) -> (r: core::result::Result<(), Error>)
                    ensures final(self).inner == old(self).inner, final(buf).bv().len() == old(buf).bv().len(),
                        match r {
                            Ok(_) => (old(buf).bv().len() == 0 || old(self).left() >= old(buf).bv().len())
                                && final(buf).bv() == bytes_at(old(self).d(), old(self).p(), old(buf).bv().len() as int)
                                && final(self).p() == old(self).p() + old(buf).bv().len(),
                            Err(e) => old(buf).bv().len() > 0 && old(self).left() < old(buf).bv().len() && e.ek() == ErrorKind::UnexpectedEof,
                        }
                { unimplemented!() }
                #[verifier::external_body]
                pub fn read_until(&mut self, x: u8, buf: &mut Vec<u8>) -> (r: core::result::Result<usize, Error>)
                    ensures final(self).inner == old(self).inner, r is Ok,
                        final(self).p() == old(self).p() + r->Ok_0,
                        final(buf)@ == old(buf)@ + until(old(self).d(), old(self).p(), x),
                        r->Ok_0 == until(old(self).d(), old(self).p(), x).len(),
                { unimplemented!() }
                /// the rest as text
                #[verifier::external_body]
                pub fn read_to_string(&mut self, s: &mut String) -> (r: core::result::Result<usize, Error>)
                    ensures final(self).inner == old(self).inner,
                        if vstd::utf8::valid_utf8(tail(old(self).d(), old(self).p())) {
                            r is Ok && final(s)@ == old(s)@ + vstd::utf8::decode_utf8(tail(old(self).d(), old(self).p()))
                            && final(self).p() == old(self).p() + tail(old(self).d(), old(self).p()).len()
                        } else { r is Err && r->Err_0.ek() == ErrorKind::InvalidData }
                { unimplemented!() }
                #[verifier::external_body]
                pub fn seek(&mut self, s: SeekFrom) -> (r: core::result::Result<u64, Error>)
                    ensures final(self).inner == old(self).inner,
                        match seek_to(s, old(self).d().len() as int, old(self).p()) {
                            Some(q) => r is Ok && r->Ok_0 == q && final(self).p() == q,
                            None => r is Err && r->Err_0.ek() == ErrorKind::InvalidInput && final(self).p() == old(self).p(),
                        }
                { unimplemented!() }
            }
            /// memory has less than 2^47 bytes
            pub broadcast axiom fn cursor_len<'a>(c: Cursor<&'a [u8]>) ensures #[trigger] c.d().len() <= 0x7fff_ffff_ffff;
            pub open spec fn seek_to(s: SeekFrom, len: int, p: int) -> Option<int> {
                let q = match s { SeekFrom::Start(n) => n as int, SeekFrom::End(n) => len + n, SeekFrom::Current(n) => p + n };
                if 0 <= q <= u64::MAX { Some(q) } else { None }
            }
            pub uninterp spec fn f32_of(bits: nat) -> f32;
            pub uninterp spec fn f64_of(bits: nat) -> f64;
            /// the n bytes at p
            pub open spec fn bytes_at(d: Seq<u8>, p: int, n: int) -> Seq<u8> { if n <= 0 { Seq::empty() } else { d.subrange(p, p + n) } }
            /// the bytes from p to the end
            pub open spec fn tail(d: Seq<u8>, p: int) -> Seq<u8> { if 0 <= p <= d.len() { d.subrange(p, d.len() as int) } else { Seq::empty() } }
            /// the bytes from p up to and including the first x (or to the end)
            pub open spec fn until(d: Seq<u8>, p: int, x: u8) -> Seq<u8>
                decreases d.len() - p
            {
                if p < 0 || p >= d.len() { Seq::empty() }
                else if d[p] == x { seq![x] }
                else { seq![d[p]] + until(d, p + 1, x) }
            }

            // writing at the end of a vector
            impl<'a> Cursor<&'a mut Vec<u8>> {
                #[verifier::external_body]
                pub fn write(&mut self, x: &[u8]) -> (r: core::result::Result<usize, Error>)
                    requires old(self).pos == (*old(self).inner)@.len()
                    ensures r is Ok, r->Ok_0 == x@.len(), final(self).pos == old(self).pos + x@.len(),
                        (*final(self).inner)@ == (*old(self).inner)@ + x@, *final(final(self).inner) == *final(old(self).inner)
                { unimplemented!() }
                #[verifier::external_body]
                pub fn write_all(&mut self, x: &[u8]) -> (r: core::result::Result<(), Error>)
                    requires old(self).pos == (*old(self).inner)@.len()
                    ensures r is Ok, final(self).pos == old(self).pos + x@.len(),
                        (*final(self).inner)@ == (*old(self).inner)@ + x@, *final(final(self).inner) == *final(old(self).inner)
                { unimplemented!() }
                #[verifier::external_body]
                pub fn write_u8(&mut self, x: u8) -> (r: core::result::Result<(), Error>)
                    requires old(self).pos == (*old(self).inner)@.len()
                    ensures r is Ok, final(self).pos == old(self).pos + 1,
                        (*final(self).inner)@ == (*old(self).inner)@ + seq![x], *final(final(self).inner) == *final(old(self).inner)
                { unimplemented!() }
                #[verifier::external_body]
                pub fn write_u16<B: ByteOrder>(&mut self, x: u16) -> (r: core::result::Result<(), Error>)
                    requires old(self).pos == (*old(self).inner)@.len()
                    ensures r is Ok, final(self).pos == old(self).pos + 2, !B::big() ==> (*final(self).inner)@ == (*old(self).inner)@ + le_bytes(x as nat, 2),
                        (*final(self).inner)@.len() == (*old(self).inner)@.len() + 2, *final(final(self).inner) == *final(old(self).inner)
                { unimplemented!() }
                #[verifier::external_body]
                pub fn write_u24<B: ByteOrder>(&mut self, x: u32) -> (r: core::result::Result<(), Error>)
                    requires old(self).pos == (*old(self).inner)@.len(), x < 0x100_0000
                    ensures r is Ok, final(self).pos == old(self).pos + 3, !B::big() ==> (*final(self).inner)@ == (*old(self).inner)@ + le_bytes(x as nat, 3),
                        (*final(self).inner)@.len() == (*old(self).inner)@.len() + 3, *final(final(self).inner) == *final(old(self).inner)
                { unimplemented!() }
                #[verifier::external_body]
                pub fn write_u32<B: ByteOrder>(&mut self, x: u32) -> (r: core::result::Result<(), Error>)
                    requires old(self).pos == (*old(self).inner)@.len()
                    ensures r is Ok, final(self).pos == old(self).pos + 4, !B::big() ==> (*final(self).inner)@ == (*old(self).inner)@ + le_bytes(x as nat, 4),
                        (*final(self).inner)@.len() == (*old(self).inner)@.len() + 4, *final(final(self).inner) == *final(old(self).inner)
                { unimplemented!() }
                #[verifier::external_body]
                pub fn write_u64<B: ByteOrder>(&mut self, x: u64) -> (r: core::result::Result<(), Error>)
                    requires old(self).pos == (*old(self).inner)@.len()
                    ensures r is Ok, final(self).pos == old(self).pos + 8, !B::big() ==> (*final(self).inner)@ == (*old(self).inner)@ + le_bytes(x as nat, 8),
                        (*final(self).inner)@.len() == (*old(self).inner)@.len() + 8, *final(final(self).inner) == *final(old(self).inner)
                { unimplemented!() }
            }
            }
        }
    }
    verus! {
    pub struct FromUtf8Error { pub k: u8 }
    pub struct ParseIntError { pub k: u8 }
    /// String::from_utf8
    #[verifier::external_body]
    pub fn string_from_utf8_lossy(v: &[u8]) -> (r: String)
        ensures vstd::utf8::valid_utf8(v@) ==> r@ == vstd::utf8::decode_utf8(v@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn string_from_utf8(v: Vec<u8>) -> (r: Result<String, FromUtf8Error>)
        ensures if vstd::utf8::valid_utf8(v@) { r is Ok && r->Ok_0@ == vstd::utf8::decode_utf8(v@) } else { r is Err }
    { unimplemented!() }
    }
}

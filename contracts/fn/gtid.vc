
//@fn providers::mysql::gtid::uuid::Uuid::new
//@ret r
//@ensures
    [C12,C13,C14] r.data == data && r.uuid@ =~= uuid_text(r.data@),
//@at entry
    proof { lemma_hex_ascii(data@); }

//@fn providers::mysql::gtid::uuid::Uuid::parse
//@ret r
//@ensures
    [C14] match s_uuid(uuid@) { Some(d) => r is Ok && r->Ok_0.data@ =~= d && uuid_ok(r->Ok_0), None => r is Err },
//@at entry
    proof { reveal_strlit("-"); reveal_strlit(""); lemma_is_hex_ascii(); }

//@fn providers::mysql::gtid::interval::Interval::new
//@ret r
//@ensures
    [C12,C13,C14] r.start == start && r.end == end,

//@fn providers::mysql::gtid::gtid::Gtid::new
//@ret r
//@ensures
    [C12,C13] r.source_id == source_id && r.transaction_id == transaction_id,

//@fn providers::mariadb::gtid::gtid::Gtid::new
//@ret r
//@ensures
    [C12,C15] r.domain_id == domain_id && r.server_id == server_id && r.sequence == sequence,

//@fn providers::mariadb::gtid::gtid_list::GtidList::new
//@ret r
//@ensures
    [C12,C15] r.gtids@ == Seq::<crate::providers::mariadb::gtid::gtid::Gtid>::empty(),

//@fn providers::mysql::gtid::gtid_set::GtidSet::new
//@ret r
//@ensures
    [C12,C13] gset_v(r) =~= Map::<Seq<char>, SetV>::empty(),
    [C12,C13] keys_ok(r),

//@fn providers::mysql::events::gtid_event::GtidEvent::parse
//@ret r
//@ensures
    [C12] match s_my_gtid(old(cursor).d(), old(cursor).p()) { Some(v) => r is Ok && my_gtid_v(r->Ok_0) == v, None => r is Err },
    [C12,C13] r is Ok ==> uuid_ok(r->Ok_0.gtid.source_id),

//@fn providers::mariadb::events::gtid_event::GtidEvent::parse
//@ret r
//@ensures
    [C12] match s_ma_gtid(old(cursor).d(), old(cursor).p(), header.server_id) { Some(v) => r is Ok && ma_gtid_v(r->Ok_0) == v, None => r is Err },

//@fn providers::mariadb::events::gtid_list_event::GtidListEvent::parse
//@ret r
//@ensures
    [C12] match s_list_event(old(cursor).d(), old(cursor).p()) { Some(v) => r is Ok && list_v(r->Ok_0.gtid_list.gtids@) =~= v, None => r is Err },
//@at loop 0 before
    let ghost (d, p) = (cursor.d(), cursor.p());
//@loop 0 it=it
    invariant
        d == cursor.d(), cursor.inner == old(cursor).inner, old(cursor).p() + 4 == p, d == old(cursor).d(), have(d, p - 4, 4),
        gtid_list_len == le(d, p - 4, 4) % 0x1000_0000, it.snapshot.end == gtid_list_len,
        cursor.p() == p + 16 * it.index@, have(d, p, 16 * it.index@),
        gtid_list.gtids@.len() == it.index@,
        forall|k: int| 0 <= k < it.index@ ==> ma_v(#[trigger] gtid_list.gtids@[k]) == (le(d, p + 16 * k, 4), le(d, p + 16 * k + 4, 4), le(d, p + 16 * k + 8, 8)),

//@fn providers::mysql::events::prev_gtids_event::PreviousGtidsEvent::parse
//@ret r
//@ensures
    [C12] match s_prev_gtids(old(cursor).d(), old(cursor).p()) { Some(v) => r is Ok && gset_v(r->Ok_0.gtid_set) == v, None => r is Err },
    [C12,C13] r is Ok ==> keys_ok(r->Ok_0.gtid_set),
//@at loop 0 before
    let ghost (d, p) = (cursor.d(), cursor.p());
    let ghost mut acc: Seq<SetV> = Seq::empty();
    proof { if let Some((rest, q)) = s_sets(d, p, uuid_set_number as nat) { assert(acc + rest =~= rest); } }
//@loop 0 it=it
    invariant
        d == cursor.d(), cursor.inner == old(cursor).inner, old(cursor).p() + 8 == p, d == old(cursor).d(), have(d, p - 8, 8), uuid_set_number == le(d, p - 8, 8),
        it.snapshot.end == uuid_set_number,
        s_sets(d, p, uuid_set_number as nat) == (match s_sets(d, cursor.p(), (uuid_set_number - it.index@) as nat) { None => None, Some((rest, q)) => Some((acc + rest, q)) }),
        gset_v(gtid_set) == sets_map(acc), keys_ok(gtid_set),
//@at loop 0 begin
    let ghost p1 = cursor.p();
//@at loop 1 before
    let ghost p2 = cursor.p();
    proof { if let Some((rest, q)) = s_ivs(d, p2, interval_number as nat) { assert(uuid_set.intervals@ + rest =~= rest); } }
//@loop 1 it=it2
    invariant
        d == cursor.d(), cursor.inner == old(cursor).inner, it2.snapshot.end == interval_number,
        s_ivs(d, p2, interval_number as nat) == (match s_ivs(d, cursor.p(), (interval_number - it2.index@) as nat) { None => None, Some((rest, q)) => Some((uuid_set.intervals@ + rest, q)) }),
        uuid_set.source_id.data@ == d.subrange(p1, p1 + 16), uuid_ok(uuid_set.source_id),
        // the outer loop
        s_sets(d, p, uuid_set_number as nat) == (match s_sets(d, p1, (uuid_set_number - it.index@) as nat) { None => None, Some((rest, q)) => Some((acc + rest, q)) }),
        it.index@ < uuid_set_number, p2 == p1 + 24, have(d, p1, 24), interval_number == le(d, p1 + 16, 8),
        old(cursor).p() + 8 == p, d == old(cursor).d(), have(d, p - 8, 8), uuid_set_number == le(d, p - 8, 8),
//@at loop 1 begin
    let ghost ivs1 = uuid_set.intervals@;
//@at loop 1 end
    proof {
        if let Some((rest, q)) = s_ivs(d, cursor.p(), (interval_number - it2.index@ - 1) as nat) {
            assert(ivs1 + (seq![uuid_set.intervals@.last()] + rest) =~= uuid_set.intervals@ + rest);
        }
    }
//@at loop 1 after
    proof {
        assert(uuid_set.intervals@ + Seq::empty() =~= uuid_set.intervals@);
        let z = (d.subrange(p1, p1 + 16), uuid_set.intervals@);
        assert(acc.push(z).drop_last() =~= acc);
        if let Some((rest, q)) = s_sets(d, cursor.p(), (uuid_set_number - it.index@ - 1) as nat) { assert(acc + (seq![z] + rest) =~= acc.push(z) + rest); }
        acc = acc.push(z);
    }
//@at loop 0 end
    proof { assert(gset_v(gtid_set) =~= sets_map(acc)); }
//@at loop 0 after
    proof { assert(acc + Seq::empty() =~= acc); }

//@fn providers::mysql::gtid::uuid_set::UuidSet::new
//@ret r
//@requires
    ivs_ok(intervals@),
//@ensures
    [C12,C13,C14] r.source_id == source_id,
    [C12,C13,C14] normal(r.intervals@),
    [C12,C13,C14] forall|x: int| #[trigger] covers(r.intervals@, x) <==> covers(intervals@, x),
    [C12,C13] intervals@.len() == 0 ==> r.intervals@.len() == 0,
//@closure 0
    |x: &Interval| -> (k: u64) ensures k == x.start
//@at before-call sort_by_key
    let ghost ivs0 = intervals@;
//@at after-call sort_by_key
    proof { lemma_sorted(ivs0, intervals@); }

//@fn providers::mysql::gtid::uuid_set::collapse_intervals
//@requires
    old(intervals)@.len() >= 1, ivs_ok(old(intervals)@), by_start(old(intervals)@),
//@ensures
    [C12,C13,C14,C18] normal(final(intervals)@),
    [C12,C13,C14,C18] forall|x: int| #[trigger] covers(final(intervals)@, x) <==> covers(old(intervals)@, x),
    [C12,C13,C14,C18] final(intervals)@.len() >= 1,
//@at entry
    proof { ivs_len(*intervals); }
//@loop 0
    invariant
        intervals@.len() < 0x8000_0000_0000, index < intervals@.len(), ivs_ok(intervals@), by_start(intervals@),
        forall|i: int, j: int| 0 <= i < j <= index ==> (#[trigger] intervals@[i]).end + 1 < (#[trigger] intervals@[j]).start,
        forall|x: int| #[trigger] covers(intervals@, x) <==> covers(old(intervals)@, x),
    decreases intervals@.len() - index,
//@at loop 0 begin
    let ghost (s1, i1) = (intervals@, index as int);
//@at loop 0 end
    proof { lemma_merged(s1, intervals@, i1); }

//@fn providers::mysql::gtid::uuid_set::find_interval_index
//@ret r
//@requires
    normal(intervals@),
//@ensures
    [C13,C18] r <= intervals@.len(),
    [C13,C18] forall|i: int| 0 <= i < r ==> (#[trigger] intervals@[i]).end < transaction_id,
    [C13,C18] forall|i: int| r <= i < intervals@.len() ==> transaction_id <= (#[trigger] intervals@[i]).end,
//@at entry
    proof { ivs_len(*intervals); }
//@loop 0
    invariant
        normal(intervals@), left_index <= right_index <= intervals@.len(), intervals@.len() < 0x8000_0000_0000,
        forall|i: int| 0 <= i < left_index ==> (#[trigger] intervals@[i]).end < transaction_id,
        forall|i: int| right_index <= i < intervals@.len() ==> transaction_id < (#[trigger] intervals@[i]).start,
        (left_index == 0 && right_index == intervals@.len() && result_index == 0)
            || (result_index + 1 == left_index && intervals@[result_index as int].end < transaction_id)
            || (result_index == right_index && result_index < intervals@.len() && transaction_id < intervals@[result_index as int].start),
    decreases right_index - left_index,

//@fn providers::mysql::gtid::uuid_set::UuidSet::add_gtid
//@ret r
//@requires
    normal(old(self).intervals@), gtid.transaction_id < u64::MAX,
//@ensures
    [C13,C18] final(self).source_id == old(self).source_id,
    [C13,C18] r is Ok <==> old(self).source_id.data@ == gtid.source_id.data@,
    [C13,C18] r is Err ==> final(self).intervals@ == old(self).intervals@,
    [C13,C18] r is Ok ==> normal(final(self).intervals@),
    [C13,C18] r is Ok ==> r->Ok_0 == !covers(old(self).intervals@, gtid.transaction_id as int),
    [C13,C18] r is Ok ==> forall|x: int| #[trigger] covers(final(self).intervals@, x) <==> covers(old(self).intervals@, x) || x == gtid.transaction_id,
//@at entry
    broadcast use {covers_insert, covers_update};

//@fn providers::mysql::gtid::gtid_set::GtidSet::add_gtid
//@ret r
//@requires
    gset_ok(*old(self)), uuid_ok(gtid.source_id), gtid.transaction_id < u64::MAX,
//@ensures
    [C13,C18] r is Ok,
    [C13,C18] gset_ok(*final(self)),
    [C13,C18] r->Ok_0 == !holds(gset_v(*old(self)), gtid.source_id.uuid@, gtid.transaction_id as int),
    [C13,C18] gset_v(*final(self)) =~= gset_v(*old(self)).insert(gtid.source_id.uuid@, (gtid.source_id.data@, gset_v(*final(self))[gtid.source_id.uuid@].1)),
    [C13,C18] forall|x: int| #[trigger] holds(gset_v(*final(self)), gtid.source_id.uuid@, x) <==> holds(gset_v(*old(self)), gtid.source_id.uuid@, x) || x == gtid.transaction_id,
//@at entry
    proof { lemma_uuid_inj_all(); }

//@fn providers::mysql::gtid::gtid_set::GtidSet::parse
//@attr #[verifier::loop_isolation(false)]
//@ret r
//@ensures
    [C14] match s_gtid_set(gtid_set@) { Some(parts) => r is Ok && denotes(gset_v(r->Ok_0), parts), None => r is Err },
    [C13,C14] r is Ok ==> gset_ok(r->Ok_0),
//@at entry
    hide(split); hide(without); hide(num_text); hide(ltrim); hide(rtrim); hide(s_part); hide(s_gtid_set); hide(pieces); hide(s_uuid); hide(denotes); hide(covers);
    hide(uuid_text);
    let ghost text = gtid_set@;
    proof {
        reveal_strlit("\n"); reveal_strlit(""); lemma_split_len_all();
        if text.len() == 0 {
            reveal(s_gtid_set);
            assert forall|m: Map<Seq<char>, SetV>| m == Map::<Seq<char>, SetV>::empty() implies #[trigger] denotes(m, Seq::empty()) by { reveal(denotes); }
        }
    }
    broadcast use covers_append;
//@closure 0
    |x: &str| -> (r: &str) ensures r@ == trim(x@)
//@at loop 0 before
    let ghost usets = uuid_sets@;
    let ghost mut parts: Seq<SetV> = Seq::empty();
    proof {
        reveal(pieces); reveal(denotes);
        assert(refs(usets) =~= pieces(text));
        assert(denotes(gset_v(GtidSet { uuid_sets: result }), parts));
    }
//@loop 0 it=it
    invariant
        it.seq() == usets, text.len() > 0, refs(usets) == pieces(text),
        gset_ok(GtidSet { uuid_sets: result }),
        parts.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> #[trigger] s_part(pieces(text)[i]) == Some(parts[i]),
        denotes(gset_v(GtidSet { uuid_sets: result }), parts),
        forall|s: Seq<char>, c: char| (#[trigger] split(s, c)).len() >= 1,
//@at loop 0 begin
    let ghost m0 = gset_v(GtidSet { uuid_sets: result });
    proof { assert(refs(usets)[it.index@] == uuid_set@); lemma_piece(text, it.index@); }
//@at loop 1 before
    let ghost toks = ranges@;
    let ghost data = source_id.data@;
    proof { assert(refs(toks) =~= split(after(uuid_set@, 37), ':')); }
//@loop 1 it=it2
    invariant
        it2.seq() == toks, refs(toks) == split(after(uuid_set@, 37), ':'),
        intervals@.len() == it2.index@, forall|i: int| 0 <= i < it2.index@ ==> #[trigger] s_range(refs(toks)[i]) == Some(intervals@[i]),
        text.len() > 0, s_part(uuid_set@) is None ==> s_gtid_set(text) is None,
        forall|s: Seq<char>, c: char| (#[trigger] split(s, c)).len() >= 1,
//@at loop 1 begin
    proof { assert(refs(toks)[it2.index@] == token@); lemma_tok(uuid_set@, it2.index@); }
//@at loop 1 after
    let ghost z = (data, intervals@);
    proof { lemma_part(uuid_set@, data, intervals@); }
//@at loop 0 end
    proof {
        let m1 = gset_v(GtidSet { uuid_sets: result });
        let k = uuid_text(data);
        assert(m1 =~= m0.insert(k, (data, m1[k].1)));
        lemma_denotes(m0, parts, z, k, m1[k].1);
        parts = parts.push(z);
    }
//@at loop 0 after
    proof { lemma_set(text, parts); }

//@impl Display providers::mysql::gtid::uuid::Uuid
    open spec fn disp(&self) -> Seq<char> { self.uuid@ }
//@fn providers::mysql::gtid::uuid::Uuid@fmt::Display::fmt
//@ensures
    [C14] final(f).v() =~= old(f).v() + self.disp(),

//@impl Display providers::mysql::gtid::interval::Interval
    open spec fn disp(&self) -> Seq<char> { iv_text(*self) }
//@fn providers::mysql::gtid::interval::Interval@fmt::Display::fmt
//@ensures
    [C14] final(f).v() =~= old(f).v() + self.disp(),

//@impl Display providers::mysql::gtid::gtid::Gtid
    open spec fn disp(&self) -> Seq<char> { self.source_id.uuid@ + ":"@ + dec(self.transaction_id as nat) }
//@fn providers::mysql::gtid::gtid::Gtid@fmt::Display::fmt
//@ensures
    [C14] final(f).v() =~= old(f).v() + self.disp(),

//@impl Display providers::mysql::gtid::uuid_set::UuidSet
    open spec fn disp(&self) -> Seq<char> { set_text(*self) }
//@fn providers::mysql::gtid::uuid_set::UuidSet@fmt::Display::fmt
//@ensures
    [C14] final(f).v() =~= old(f).v() + self.disp(),
//@closure 0
    |x: &Interval| -> (r: String) ensures r@ == iv_text(*x)
//@at entry
    proof { lemma_texts_all(*self); }

//@impl Display providers::mysql::gtid::gtid_set::GtidSet
    open spec fn disp(&self) -> Seq<char> { gset_text(*self) }
//@fn providers::mysql::gtid::gtid_set::GtidSet@fmt::Display::fmt
//@ensures
    [C14] final(f).v() =~= old(f).v() + self.disp(),
//@closure 0
    |x: &UuidSet| -> (r: String) ensures r@ == set_text(*x)
//@at entry
    proof { lemma_sorted_texts(gset_texts(*self)); }
//@at before-call sort
    proof { assert(strs(uuids@) =~= gset_texts(*self)); }
//@at after-call sort
    proof { assert(strs(uuids@) == sorted_texts(gset_texts(*self))); }

//@impl Display providers::mariadb::gtid::gtid::Gtid
    open spec fn disp(&self) -> Seq<char> { ma_text(*self) }
//@fn providers::mariadb::gtid::gtid::Gtid@fmt::Display::fmt
//@ensures
    [C15,C19] final(f).v() =~= old(f).v() + self.disp(),

//@impl Display providers::mariadb::gtid::gtid_list::GtidList
    open spec fn disp(&self) -> Seq<char> { list_text(self.gtids@) }
//@fn providers::mariadb::gtid::gtid_list::GtidList@fmt::Display::fmt
//@ensures
    [C15,C19] final(f).v() =~= old(f).v() + self.disp(),
//@closure 0
    |x: &Gtid| -> (r: String) ensures r@ == ma_text(*x)
//@at entry
    proof { lemma_list_texts_all(self.gtids@); }

//@fn providers::mariadb::gtid::gtid_list::GtidList::add_gtid
//@ret r
//@requires
    distinct(list_v(old(self).gtids@)),
//@ensures
    [C15,C18] r == !(exists|i: int| 0 <= i < old(self).gtids@.len() && (#[trigger] old(self).gtids@[i]).domain_id == gtid.domain_id),
    [C15,C18] r ==> final(self).gtids@ =~= old(self).gtids@.push(gtid),
    [C15,C18] !r ==> final(self).gtids@.len() == old(self).gtids@.len() && forall|i: int| 0 <= i < old(self).gtids@.len() ==>
        #[trigger] final(self).gtids@[i] == (if old(self).gtids@[i].domain_id == gtid.domain_id { gtid } else { old(self).gtids@[i] }),
    [C15,C18] distinct(list_v(final(self).gtids@)),
//@at entry
    proof { assert(forall|i: int| 0 <= i < self.gtids@.len() ==> list_v(self.gtids@)[i] == ma_v(#[trigger] self.gtids@[i])); }
//@loop 0 it=it
    invariant
        it.snapshot.end == self.gtids@.len(), self.gtids@ == old(self).gtids@, distinct(list_v(old(self).gtids@)),
        forall|i: int| 0 <= i < old(self).gtids@.len() ==> list_v(old(self).gtids@)[i] == ma_v(#[trigger] old(self).gtids@[i]),
        forall|k: int| 0 <= k < it.index@ ==> (#[trigger] self.gtids@[k]).domain_id != gtid.domain_id,

//@fn providers::mariadb::gtid::gtid_list::GtidList::parse
//@attr #[verifier::loop_isolation(false)]
//@ret r
//@ensures
    [C15] match s_ma_list(value@) { Some(v) => r is Ok && list_v(r->Ok_0.gtids@) =~= v, None => r is Err },
    [C15] r is Ok ==> distinct(list_v(r->Ok_0.gtids@)),
//@at entry
    hide(split); hide(without); hide(num_text); hide(ltrim); hide(rtrim); hide(s_ma_list); hide(pieces);
    let ghost text = value@;
    proof {
        reveal_strlit("\n"); reveal_strlit("");
        if text.len() == 0 { reveal(s_ma_list); }
    }
//@closure 0
    |x: &str| -> (r: &str) ensures r@ == trim(x@)
//@at loop 0 before
    let ghost texts = gtid_list@;
    proof { reveal(pieces); assert(refs(texts) =~= pieces(text)); }
//@loop 0 it=it
    invariant
        it.seq() == texts,
        gtids@.len() == it.index@,
        forall|i: int| 0 <= i < it.index@ ==> #[trigger] s_ma(pieces(text)[i]) == Some(ma_v(gtids@[i])),
        forall|d: u32| #[trigger] domain_map.s().contains(d) <==> exists|i: int| 0 <= i < it.index@ && (#[trigger] gtids@[i]).domain_id == d,
        distinct(list_v(gtids@)),
//@at loop 0 begin
    let ghost g0 = gtids@;
    proof {
        assert(refs(texts)[it.index@] == gtid@); lemma_ma_piece(text, it.index@);
        assert forall|i: int| 0 <= i < it.index@ && s_ma(gtid@) is Some && s_ma(gtid@)->Some_0.0 == (#[trigger] gtids@[i]).domain_id implies s_ma_list(text) is None by {
            assert(s_ma(pieces(text)[i]) == Some(ma_v(gtids@[i])));
            lemma_ma_double(text, i, it.index@);
        }
    }
//@at loop 0 end
    proof {
        assert forall|i: int, j: int| 0 <= i < j < gtids@.len() implies (#[trigger] list_v(gtids@)[i]).0 != (#[trigger] list_v(gtids@)[j]).0 by {
            assert(list_v(g0).len() == g0.len());
            assert(list_v(g0)[i] == ma_v(g0[i]));
            if j < g0.len() { assert(list_v(g0)[j] == ma_v(g0[j])); }
        }
        assert(gtids@.last() == gtids@[g0.len() as int]);
        assert forall|d: u32| #[trigger] domain_map.s().contains(d) <==> exists|i: int| 0 <= i < it.index@ + 1 && (#[trigger] gtids@[i]).domain_id == d by {
            if exists|i: int| 0 <= i < it.index@ && (#[trigger] g0[i]).domain_id == d { let i = choose|i: int| 0 <= i < it.index@ && (#[trigger] g0[i]).domain_id == d; assert(gtids@[i] == g0[i]); }
            if exists|i: int| 0 <= i < it.index@ + 1 && (#[trigger] gtids@[i]).domain_id == d { let i = choose|i: int| 0 <= i < it.index@ + 1 && (#[trigger] gtids@[i]).domain_id == d; if i < it.index@ { assert(gtids@[i] == g0[i]); } }
        }
    }
//@at loop 0 after
    proof { lemma_ma_list(text, list_v(gtids@)); }

// Lemmas of the list layer
pub proof fn lemma_perm_back(a: Recs, b: Recs, p: Seq<int>, q: Seq<int>)
    requires permuted(a, b, p, q),
    ensures forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] q[i] < a.len() && b[q[i]] == a[i],
{
    assert forall|i: int| 0 <= i < a.len() implies 0 <= #[trigger] q[i] < a.len() && b[q[i]] == a[i] by {
        assert(b[q[i]] == a[p[q[i]]]);
    }
}
pub proof fn lemma_top_some(a: Recs, b: Recs)
    requires exists|p: Seq<int>, q: Seq<int>| permuted(a, b, p, q), sorted(b), a.len() > 0, a[0] is Some,
    ensures b.last() is Some,
{
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| permuted(a, b, p, q);
    lemma_perm_back(a, b, p, q);
    let j = q[0];
    assert(b[j] == a[0]);
    if j < b.len() - 1 { assert(rkey(b[j]) <= rkey(b[b.len() - 1])); }
}

/// the start of a valid record is determined by its end
pub proof fn lemma_start_unique(s: Seq<GItem>, a: int, a2: int, b: int)
    requires
        0 <= a < b, 0 <= a2 < b, b <= s.len(),
        is_any_start(s[a]), is_any_start(s[a2]), all_data(s, a + 1, b), all_data(s, a2 + 1, b),
    ensures a == a2,
{
    if a < a2 { assert(is_data(s[a2])); }
    if a2 < a { assert(is_data(s[a])); }
}
pub open spec fn inserted(old: Recs, new: Recs, rec: GoodWriteRecord) -> bool {
    if old.len() > 0 && rkey(old[0]) > rec.seq@ { new == old }
    else { sorted(new) && exists|p: Seq<int>, q: Seq<int>| permuted(old.update(0, Some(rec)), new, p, q) }
}
/// remembering one more record keeps the remembered ones correct
pub proof fn lemma_insert_rec_ok(old: Recs, new: Recs, rec: GoodWriteRecord, s: Seq<GItem>, u: int)
    requires
        old.len() > 0, rec_ok(old, s, u), is_good_rec(s, rec), inserted(old, new, rec), items_ok(s),
        forall|i: int| 0 <= i < old.len() && (#[trigger] old[i]) is Some ==> re(old[i]->Some_0) != re(rec),
    ensures rec_ok(new, s, if re(rec) + 1 > u { re(rec) + 1 } else { u }),
{
    if rkey(old[0]) > rec.seq@ {
    } else {
        let upd = old.update(0, Some(rec));
        let (p, q) = choose|p: Seq<int>, q: Seq<int>| permuted(upd, new, p, q);
        assert forall|i: int| 0 <= i < new.len() && (#[trigger] new[i]) is Some implies is_good_rec(s, new[i]->Some_0) && (re(new[i]->Some_0) < re(rec) + 1 || re(new[i]->Some_0) < u) by {
            assert(new[i] == upd[p[i]]);
            if p[i] != 0 { assert(upd[p[i]] == old[p[i]]); }
        }
        assert forall|i: int, j: int| 0 <= i < j < new.len() && (#[trigger] new[i]) is Some && (#[trigger] new[j]) is Some implies re(new[i]->Some_0) != re(new[j]->Some_0) by {
            assert(new[i] == upd[p[i]]);
            assert(new[j] == upd[p[j]]);
            assert(q[p[i]] == i && q[p[j]] == j);
            if p[i] != 0 { assert(upd[p[i]] == old[p[i]]); }
            if p[j] != 0 { assert(upd[p[j]] == old[p[j]]); }
            if p[i] < p[j] {} else {}
        }
    }
}
/// (b = u for a scan; b may lie further on for a verified write)
pub proof fn lemma_insert_cover(old: Recs, new: Recs, rec: GoodWriteRecord, s: Seq<GItem>, u: int)
    requires
        old.len() > 0, rec_ok(old, s, u), cover(old, s, u), is_good_rec(s, rec), re(rec) >= u, inserted(old, new, rec), items_ok(s),
        forall|a: int, b: int| #[trigger] good_at(s, a, b) && u <= b <= re(rec) ==> b == re(rec),
    ensures cover(new, s, re(rec) + 1),
{
    assert forall|a: int, b: int| #[trigger] good_at(s, a, b) && b < re(rec) + 1 && !holds(new, a, b) implies dominated(new, seq_of(s[a])) by {
        let sq = seq_of(s[a]);
        assert(item_ok(s[a]));
        assert(sq > 0);
        if b == re(rec) {
            lemma_start_unique(s, a, rs(rec), b);
        }
        if rkey(old[0]) > rec.seq@ {
            if b == re(rec) {
                assert forall|i: int| 0 <= i < new.len() implies (#[trigger] new[i]) is Some && rkey(new[i]) >= sq by {
                    if i > 0 { assert(rkey(old[0]) <= rkey(old[i])); }
                }
            }
        } else {
            let upd = old.update(0, Some(rec));
            let (p, q) = choose|p: Seq<int>, q: Seq<int>| permuted(upd, new, p, q);
            lemma_perm_back(upd, new, p, q);
            if b == re(rec) {
                assert(new[q[0]] == upd[0]);
                assert(holds(new, a, b));
            } else if !holds(old, a, b) {
                assert(dominated(old, sq));
                assert forall|i: int| 0 <= i < new.len() implies (#[trigger] new[i]) is Some && rkey(new[i]) >= sq by {
                    assert(new[i] == upd[p[i]]);
                    if p[i] != 0 { assert(upd[p[i]] == old[p[i]]); }
                    assert(rkey(old[0]) >= sq);
                }
            } else {
                let i = choose|i: int| 0 <= i < old.len() && (#[trigger] old[i]) is Some && rs(old[i]->Some_0) == a && re(old[i]->Some_0) == b;
                if i != 0 {
                    assert(upd[i] == old[i]);
                    assert(new[q[i]] == upd[i]);
                    assert(holds(new, a, b));
                } else {
                    assert(rkey(old[0]) == sq);
                    assert forall|j: int| 0 <= j < new.len() implies (#[trigger] new[j]) is Some && rkey(new[j]) >= sq by {
                        assert(new[j] == upd[p[j]]);
                        if p[j] != 0 { assert(upd[p[j]] == old[p[j]]); assert(rkey(old[0]) <= rkey(old[p[j]])); }
                    }
                }
            }
        }
    }
}

/// scanner state after the first u items: the record being read, if any
pub open spec fn open_rec(s: Seq<GItem>, u: int, cur: Option<(NonZeroU32, usize)>, crc: Seq<u8>) -> bool {
    match cur {
        Some((q, i)) => i < u && is_start(s[i as int], q@) && all_data(s, i + 1, u) && crc == kvs(s, i + 1, u),
        None => forall|i: int| 0 <= i < u && is_any_start(#[trigger] s[i]) ==> !all_data(s, i + 1, u),
    }
}
/// no record ends at u unless it is the one being read
pub proof fn lemma_no_good_end(s: Seq<GItem>, u: int, cur: Option<(NonZeroU32, usize)>, crc: Seq<u8>)
    requires 0 <= u < s.len(), open_rec(s, u, cur, crc),
    ensures
        forall|a: int| #[trigger] good_at(s, a, u) ==> (cur matches Some((q, i)) && a == i && s[u].e == Some(GElem::End(q@, crc_of(crc)))),
        cur matches Some((q, i)) ==> (s[u].e == Some(GElem::End(q@, crc_of(crc))) ==> good_at(s, i as int, u)),
{
    assert forall|a: int| #[trigger] good_at(s, a, u) implies (cur matches Some((q, i)) && a == i && s[u].e == Some(GElem::End(q@, crc_of(crc)))) by {
        match cur {
            Some((q, i)) => { lemma_start_unique(s, a, i as int, u); }
            None => { assert(is_any_start(s[a])); }
        }
    }
}
/// the scanner state after one more item
pub proof fn lemma_open_step(s: Seq<GItem>, u: int, cur: Option<(NonZeroU32, usize)>, crc: Seq<u8>, cur2: Option<(NonZeroU32, usize)>, crc2: Seq<u8>)
    requires
        0 <= u < s.len(), u <= usize::MAX, open_rec(s, u, cur, crc),
        match s[u].e {
            Some(GElem::Start(q)) => (cur2 matches Some((q2, i2)) && q2@ == q && i2 == u) && crc2 == Seq::<u8>::empty(),
            Some(GElem::Data(d)) => cur2 == cur && (cur is Some ==> crc2 == crc + d),
            _ => cur2 is None,
        },
    ensures open_rec(s, u + 1, cur2, crc2),
{
    match s[u].e {
        Some(GElem::Start(q)) => { assert(kvs(s, u + 1, u + 1) =~= Seq::<u8>::empty()); }
        Some(GElem::Data(d)) => {
            match cur {
                Some((q, i)) => {
                    assert(kvs(s, i + 1, u + 1) == kvs(s, i + 1, u) + kv_of(s[u]));
                }
                None => {
                    assert forall|i: int| 0 <= i < u + 1 && is_any_start(#[trigger] s[i]) implies !all_data(s, i + 1, u + 1) by {
                        assert(i < u);
                        if all_data(s, i + 1, u + 1) { assert(all_data(s, i + 1, u)); }
                    }
                }
            }
        }
        _ => {
            assert forall|i: int| 0 <= i < u + 1 && is_any_start(#[trigger] s[i]) implies !all_data(s, i + 1, u + 1) by {
                assert(i < u);
                assert(!is_data(s[u]));
            }
        }
    }
}

/// everything a step of the scan needs, at position u
pub proof fn lemma_scan_step(s: Seq<GItem>, u: int, recs: Recs, cur: Option<(NonZeroU32, usize)>, crc: Seq<u8>)
    requires
        0 <= u <= s.len(), s.len() <= usize::MAX, recs.len() > 0, items_ok(s), open_rec(s, u, cur, crc), rec_ok(recs, s, u), cover(recs, s, u),
    ensures
        sum_len(s.take(u)) <= sum_len(s),
        u == s.len() ==> sum_len(s.take(u)) == sum_len(s),
        u < s.len() ==> {
            &&& sum_len(s.take(u + 1)) == sum_len(s.take(u)) + s[u].len
            &&& sum_len(s.take(u + 1)) <= sum_len(s)
            &&& forall|a: int| #[trigger] good_at(s, a, u) ==> (cur matches Some((q, i)) && a == i && s[u].e == Some(GElem::End(q@, crc_of(crc))))
            &&& (cur matches Some((q, i)) ==> (s[u].e == Some(GElem::End(q@, crc_of(crc))) ==> good_at(s, i as int, u)))
            &&& forall|cur2: Option<(NonZeroU32, usize)>, crc2: Seq<u8>| #![trigger open_rec(s, u + 1, cur2, crc2)] (match s[u].e {
                    Some(GElem::Start(q)) => (cur2 matches Some((q2, i2)) && q2@ == q && i2 == u) && crc2 == Seq::<u8>::empty(),
                    Some(GElem::Data(d)) => cur2 == cur && (cur is Some ==> crc2 == crc + d),
                    _ => cur2 is None,
                }) ==> open_rec(s, u + 1, cur2, crc2)
            &&& (forall|a: int| !(#[trigger] good_at(s, a, u))) ==> rec_ok(recs, s, u + 1) && cover(recs, s, u + 1)
            &&& forall|new: Recs, rec: GoodWriteRecord| #![trigger inserted(recs, new, rec)] inserted(recs, new, rec) && is_good_rec(s, rec) && re(rec) == u
                ==> rec_ok(new, s, u + 1) && cover(new, s, u + 1)
        },
{
    lemma_sum_le(s, u);
    assert(s.take(s.len() as int) =~= s);
    if u < s.len() {
        lemma_sum_step(s, u);
        lemma_sum_le(s, u + 1);
        lemma_no_good_end(s, u, cur, crc);
        assert forall|cur2: Option<(NonZeroU32, usize)>, crc2: Seq<u8>| (match s[u].e {
                Some(GElem::Start(q)) => (cur2 matches Some((q2, i2)) && q2@ == q && i2 == u) && crc2 == Seq::<u8>::empty(),
                Some(GElem::Data(d)) => cur2 == cur && (cur is Some ==> crc2 == crc + d),
                _ => cur2 is None,
            }) implies #[trigger] open_rec(s, u + 1, cur2, crc2) by {
            lemma_open_step(s, u, cur, crc, cur2, crc2);
        }
        assert forall|new: Recs, rec: GoodWriteRecord| #[trigger] inserted(recs, new, rec) && is_good_rec(s, rec) && re(rec) == u
            implies rec_ok(new, s, u + 1) && cover(new, s, u + 1) by {
            lemma_insert_rec_ok(recs, new, rec, s, u);
            lemma_insert_cover(recs, new, rec, s, u);
        }
        if forall|a: int| !(#[trigger] good_at(s, a, u)) {
            assert forall|a: int, b: int| #[trigger] good_at(s, a, b) && b < u + 1 && !holds(recs, a, b) implies dominated(recs, seq_of(s[a])) by {
                assert(b != u);
            }
        }
    }
}

pub proof fn lemma_take_contains(o: Seq<nat>, k: int)
    requires 0 <= k <= o.len(),
    ensures
        k < o.len() ==> forall|n: nat| #[trigger] o.take(k + 1).contains(n) <==> (o.take(k).contains(n) || n == o[k]),
        k == o.len() ==> o.take(k) == o,
        k == 0 ==> forall|n: nat| !#[trigger] o.take(k).contains(n),
{
    assert(o.take(o.len() as int) =~= o);
    if k < o.len() {
        assert forall|n: nat| #[trigger] o.take(k + 1).contains(n) <==> (o.take(k).contains(n) || n == o[k]) by {
            if o.take(k).contains(n) { let j = choose|j: int| 0 <= j < k && o.take(k)[j] == n; assert(o.take(k + 1)[j] == n); }
            if n == o[k] { assert(o.take(k + 1)[k] == n); }
            if o.take(k + 1).contains(n) { let j = choose|j: int| 0 <= j < k + 1 && #[trigger] o.take(k + 1)[j] == n; if j < k { assert(o.take(k)[j] == n); } }
        }
    }
}

pub proof fn lemma_sum_at(s: Seq<GItem>, u: int)
    requires 0 <= u <= s.len(),
    ensures
        sum_len(s.take(u)) <= sum_len(s),
        u == s.len() ==> s.take(u) == s,
        u < s.len() ==> sum_len(s.take(u + 1)) == sum_len(s.take(u)) + s[u].len && sum_len(s.take(u + 1)) <= sum_len(s),
{
    lemma_sum_le(s, u);
    assert(s.take(s.len() as int) =~= s);
    if u < s.len() {
        lemma_sum_step(s, u);
        lemma_sum_le(s, u + 1);
    }
}
/// what reading the data element at c may do to the nodes
pub open spec fn load_step(w: World, w2: World, c: int) -> bool {
    &&& only_su_val(w, w2)
    &&& match split_kv(kv_of(w.store[c])) {
        None => w2.su == w.su && w2.val == w.val,
        Some((k, x)) => {
            &&& (forall|n: nat| is_attached(w, n) && w.su[n] == 0 ==> nkey(n) != k) ==> w2.su == w.su && w2.val == w.val
            &&& forall|n: nat| #[trigger] is_attached(w, n) && w.su[n] == 0 && nkey(n) == k ==> match dec(nkind(n), x) {
                Some(v) => w2.su == w.su.insert(n, 2) && w2.val == w.val.insert(n, Some(v)),
                None => w2.su == w.su.insert(n, 1) && w2.val == w.val,
            }
        }
    }
}
pub proof fn lemma_load_step(w0: World, w: World, a: int, c: int)
    requires w.nodes_wf(), loaded(w0, w, a, c), a <= c < w.store.len(),
    ensures
        forall|w2: World| #![trigger loaded(w0, w2, a, c + 1)] load_step(w, w2, c) ==> loaded(w0, w2, a, c + 1),
{
    assert forall|w2: World| load_step(w, w2, c) implies #[trigger] loaded(w0, w2, a, c + 1) by {
        assert forall|n: nat| #[trigger] w0.su.dom().contains(n) implies (
            if is_attached(w0, n) && w0.su[n] == 0 { w2.su[n] == load_of(w0.store, a, c + 1, n, w0.val[n]).0 && w2.val[n] == load_of(w0.store, a, c + 1, n, w0.val[n]).1 }
            else { w2.su[n] == w0.su[n] && w2.val[n] == w0.val[n] }) by {
            assert(w.su.dom().contains(n));
            if is_attached(w0, n) && w0.su[n] == 0 {
                assert(is_attached(w, n));
            }
            match split_kv(kv_of(w.store[c])) {
                None => {}
                Some((k, x)) => {
                    if exists|m: nat| is_attached(w, m) && w.su[m] == 0 && nkey(m) == k {
                        let m = choose|m: nat| #[trigger] is_attached(w, m) && w.su[m] == 0 && nkey(m) == k;
                        if m != n && is_attached(w, n) {
                            let i = w.order.index_of(m);
                            let j = w.order.index_of(n);
                            assert(w.order[i] == m && w.order[j] == n);
                            assert(i != j);
                            if i < j { assert(nkey(w.order[i]) != nkey(w.order[j])); } else { assert(nkey(w.order[j]) != nkey(w.order[i])); }
                        }
                    } else {}
                }
            }
        }
    }
}

pub proof fn lemma_first_kv_ext(s: Seq<GItem>, a: int, c: int, b: int, key: Seq<char>)
    requires c <= b,
    ensures first_kv(s, a, c, key) is Some ==> first_kv(s, a, b, key) == first_kv(s, a, c, key),
    decreases b - c,
{
    if c < b { lemma_first_kv_ext(s, a, c, b - 1, key); }
}
pub proof fn lemma_part_loaded(w0: World, w: World, a: int, c: int, b: int)
    requires loaded(w0, w, a, c), c <= b,
    ensures part_loaded(w0, w, a, b), c == b ==> loaded(w0, w, a, b),
{
    assert forall|n: nat| #[trigger] w0.su.dom().contains(n) implies
        (w.su[n] == w0.su[n] && w.val[n] == w0.val[n])
        || (is_attached(w0, n) && w0.su[n] == 0 && w.su[n] == load_of(w0.store, a, b, n, w0.val[n]).0 && w.val[n] == load_of(w0.store, a, b, n, w0.val[n]).1) by {
        lemma_first_kv_ext(w0.store, a, c, b, nkey(n));
    }
}

pub proof fn lemma_datas(w: World, i: int, n: int)
    requires 0 <= i <= n,
    ensures
        datas(w, i).len() <= i,
        datas(w, i).len() <= datas(w, n).len(),
        forall|j: int| 0 <= j < datas(w, i).len() ==> #[trigger] datas(w, i)[j] == datas(w, n)[j],
    decreases n,
{
    if i < n {
        lemma_datas(w, i, n - 1);
    } else if i > 0 {
        lemma_datas(w, i - 1, n - 1);
    }
}
pub proof fn lemma_sum_push(s0: Seq<GItem>, s1: Seq<GItem>)
    requires s1.len() == s0.len() + 1, s1.take(s0.len() as int) == s0,
    ensures sum_len(s1) == sum_len(s0) + s1.last().len,
{
    assert(s1.drop_last() =~= s0);
}
/// pushing one element keeps what was there
pub proof fn lemma_push(s0: Seq<GItem>, s: Seq<GItem>, s1: Seq<GItem>)
    requires s0.len() <= s.len() <= s1.len(), s.take(s0.len() as int) == s0, s1.take(s.len() as int) == s,
    ensures
        s1.take(s0.len() as int) == s0,
        forall|i: int| 0 <= i < s.len() ==> s1[i] == s[i],
        s1.len() == s.len() + 1 ==> sum_len(s1) == sum_len(s) + s1.last().len,
{
    assert forall|i: int| 0 <= i < s.len() implies s1[i] == s[i] by { assert(s1.take(s.len() as int)[i] == s[i]); }
    assert forall|i: int| 0 <= i < s0.len() implies s[i] == s0[i] by { assert(s.take(s0.len() as int)[i] == s0[i]); }
    assert(s1.take(s0.len() as int) =~= s0);
    if s1.len() == s.len() + 1 { lemma_sum_push(s, s1); }
}
/// pushing the next element of the record
pub open spec fn pushed(w: World, w2: World, e: GElem) -> bool {
    w2 == (World { store: w2.store, cur: w2.cur, ..w }) && w2.store_wf()
    && w.store.len() <= w2.store.len() && w2.store.take(w.store.len() as int) == w.store
    && (w.honest ==> w2.store == w.store || (w2.store.len() == w.store.len() + 1 && w2.store.last().e == Some(e)))
}
pub proof fn lemma_pushed(w0: World, w: World, w2: World, q: u32, e: GElem)
    requires
        part_written(w0, w, q), pushed(w, w2, e),
        w0.honest ==> {
            let k = w.store.len() - w0.store.len();
            k < all_datas(w0).len() + 2 && e == rec_elem(q, all_datas(w0), k)
        },
    ensures
        part_written(w0, w2, q),
        w2.store.len() == w.store.len() + 1 ==> sum_len(w2.store) == sum_len(w.store) + w2.store.last().len,
{
    lemma_push(w0.store, w.store, w2.store);
    if w0.honest {
        let k = w2.store.len() - w0.store.len();
        assert forall|i: int| 0 <= i < k implies (#[trigger] w2.store[w0.store.len() + i]).e == Some(rec_elem(q, all_datas(w0), i)) by {
            if w0.store.len() + i < w.store.len() { assert(w2.store[w0.store.len() + i] == w.store[w0.store.len() + i]); }
        }
    }
}
pub proof fn lemma_mul(i: int, c: int, n: int)
    requires 0 <= i <= n, 0 <= c,
    ensures (i + 1) * c <= (n + 1) * c, (i + 1) * c + c == (i + 2) * c, (n + 4) * c == (n + 1) * c + 3 * c, 0 * c == 0, (0 + 1) * c == c,
{
    assert((i + 1) * c <= (n + 1) * c) by (nonlinear_arith) requires 0 <= i <= n, 0 <= c;
    assert((i + 1) * c + c == (i + 2) * c) by (nonlinear_arith);
    assert((n + 4) * c == (n + 1) * c + 3 * c) by (nonlinear_arith);
    assert((0 + 1) * c == c) by (nonlinear_arith);
}
pub proof fn lemma_write_first(w: World)
    requires w.wf(),
    ensures
        forall|w2: World, q: u32| #![trigger part_written(w, w2, q)] pushed(w, w2, GElem::Start(q)) ==> part_written(w, w2, q)
            && (w2.store.len() == w.store.len() + 1 ==> sum_len(w2.store) == sum_len(w.store) + w2.store.last().len),
        forall|q: u32| #![trigger part_written(w, w, q)] part_written(w, w, q),
        datas(w, 0) == Seq::<Seq<u8>>::empty(), flat(Seq::empty()) == Seq::<u8>::empty(),
        w.cap <= usize::MAX, 1 * w.cap == w.cap,
{
    assert(w.store.take(w.store.len() as int) =~= w.store);
    assert forall|w2: World, q: u32| pushed(w, w2, GElem::Start(q)) implies #[trigger] part_written(w, w2, q)
        && (w2.store.len() == w.store.len() + 1 ==> sum_len(w2.store) == sum_len(w.store) + w2.store.last().len) by {
        lemma_pushed(w, w, w2, q, GElem::Start(q));
    }
}
pub proof fn lemma_write_step(w0: World, w: World, i: int)
    requires
        w0.wf(), 0 <= i <= w0.order.len(),
        exists|q: u32| part_written(w0, w, q),
        w0.honest ==> w.store.len() == w0.store.len() + 1 + datas(w0, i).len(),
    ensures
        datas(w0, i).len() <= i,
        (i + 1) * w.cap + 3 * w.cap <= usize::MAX,
        (i + 1) * w.cap + w.cap == (i + 2) * w.cap,
        i < w0.order.len() ==> {
            let n = w0.order[i];
            &&& is_attached(w0, n) && is_attached(w, n)
            &&& w0.live(n) ==> datas(w0, i + 1) == datas(w0, i).push(node_bytes(w0, n))
                && flat(datas(w0, i + 1)) == flat(datas(w0, i)) + node_bytes(w0, n)
                && node_bytes(w0, n).len() >= 1 && node_bytes(w, n) == node_bytes(w0, n)
            &&& !w0.live(n) ==> datas(w0, i + 1) == datas(w0, i)
            &&& w0.live(n) ==> forall|w2: World, q: u32| #![trigger part_written(w0, w2, q)] part_written(w0, w, q) && pushed(w, w2, GElem::Data(node_bytes(w0, n)))
                ==> part_written(w0, w2, q) && (w2.store.len() == w.store.len() + 1 ==> sum_len(w2.store) == sum_len(w.store) + w2.store.last().len)
        },
        i == w0.order.len() ==> forall|w2: World, q: u32| #![trigger part_written(w0, w2, q)] part_written(w0, w, q) && pushed(w, w2, GElem::End(q, crc_of(flat(all_datas(w0)))))
            ==> part_written(w0, w2, q) && (w2.store.len() == w.store.len() + 1 ==> sum_len(w2.store) == sum_len(w.store) + w2.store.last().len),
{
    let o = w0.order.len() as int;
    lemma_datas(w0, i, o);
    lemma_mul(i, w.cap as int, o);
    if i < o {
        let n = w0.order[i];
        axiom_key(nkey(n), Seq::empty());
        if w0.live(n) {
            assert(datas(w0, i + 1).drop_last() =~= datas(w0, i));
            lemma_datas(w0, i + 1, o);
            assert(datas(w0, i + 1)[datas(w0, i).len() as int] == node_bytes(w0, n));
        }
        assert forall|w2: World, q: u32| w0.live(n) && part_written(w0, w, q) && pushed(w, w2, GElem::Data(node_bytes(w0, n))) implies #[trigger] part_written(w0, w2, q)
            && (w2.store.len() == w.store.len() + 1 ==> sum_len(w2.store) == sum_len(w.store) + w2.store.last().len) by {
            lemma_pushed(w0, w, w2, q, GElem::Data(node_bytes(w0, n)));
        }
    } else {
        assert forall|w2: World, q: u32| part_written(w0, w, q) && pushed(w, w2, GElem::End(q, crc_of(flat(all_datas(w0))))) implies #[trigger] part_written(w0, w2, q)
            && (w2.store.len() == w.store.len() + 1 ==> sum_len(w2.store) == sum_len(w.store) + w2.store.last().len) by {
            lemma_pushed(w0, w, w2, q, GElem::End(q, crc_of(flat(all_datas(w0)))));
        }
    }
}

pub proof fn lemma_verify_start(s: Seq<GItem>, u: int)
    requires 0 <= u <= s.len(),
    ensures kvs(s, u + 1, u + 1) == Seq::<u8>::empty(),
{
    assert(kvs(s, u + 1, u + 1) =~= Seq::<u8>::empty());
}
/// where the report must be once its start was seen
pub proof fn lemma_verify_step(s: Seq<GItem>, a: int, c: int, q: u32, crc: u32, ct: int)
    requires
        0 <= a < c <= s.len(), is_start(s[a], q), all_data(s, a + 1, c),
        forall|i: int| 0 <= i < a ==> !is_start(#[trigger] s[i], q),
    ensures
        c < s.len() ==> kvs(s, a + 1, c + 1) == kvs(s, a + 1, c) + kv_of(s[c]),
        forall|a2: int, b2: int| #[trigger] is_report(s, a2, b2, q, crc, ct) ==> a2 == a && b2 >= c && (b2 > c ==> is_data(s[c])),
{
    assert forall|a2: int, b2: int| #[trigger] is_report(s, a2, b2, q, crc, ct) implies a2 == a && b2 >= c && (b2 > c ==> is_data(s[c])) by {
        if a2 < a { assert(is_start(s[a2], q)); }
        if a < a2 { assert(is_start(s[a], q)); }
        if b2 < c { assert(is_data(s[b2])); }
    }
}

/// a completed scan establishes the invariant between operations
pub proof fn lemma_scan_sys_ok<const K: usize>(st: SeqState<K>, w: World)
    requires K > 0,
    ensures
        st.scan_of(w.store) ==> st.sys_ok(w),
        st.sys_ok(w) ==> (st.top() matches Some(r) ==> is_good_rec(w.store, r) && re(r) < w.store.len()),
{
    if st.scan_of(w.store) {
        assert(rec_ok(st.recs(), w.store, w.store.len() as int));
        match st.top() {
            Some(r) => {
                assert forall|i: int| 0 <= i < K implies rkey(#[trigger] st.recs()[i]) <= r.seq@ by {
                    if i < K - 1 { assert(rkey(st.recs()[i]) <= rkey(st.recs()[K - 1])); }
                }
            }
            None => {
                assert forall|i: int| 0 <= i < K implies rkey(#[trigger] st.recs()[i]) <= 0 by {
                    if i < K - 1 { assert(rkey(st.recs()[i]) <= rkey(st.recs()[K - 1])); }
                }
            }
        }
    }
    if st.sys_ok(w) {
        assert(st.recs()[K - 1] == st.top());
    }
}

/// if the new record has the highest number it ends up on top
pub proof fn lemma_insert_top(old: Recs, new: Recs, rec: GoodWriteRecord)
    requires
        old.len() > 0, inserted(old, new, rec), rec.seq@ > 0,
        forall|i: int| 0 <= i < old.len() ==> rkey(#[trigger] old[i]) < rec.seq@,
    ensures new.len() == old.len(), new.last() == Some(rec), forall|i: int| 0 <= i < new.len() ==> rkey(#[trigger] new[i]) <= rec.seq@,
{
    let upd = old.update(0, Some(rec));
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| permuted(upd, new, p, q);
    lemma_perm_back(upd, new, p, q);
    assert(rkey(old[0]) < rec.seq@);
    assert forall|i: int| 0 <= i < new.len() implies rkey(#[trigger] new[i]) <= rec.seq@ by {
        assert(new[i] == upd[p[i]]);
        if p[i] != 0 { assert(upd[p[i]] == old[p[i]]); }
    }
    let k = new.len() - 1;
    assert(new[q[0]] == upd[0]);
    if q[0] < k { assert(rkey(new[q[0]]) <= rkey(new[k])); }
    assert(rkey(new[k]) == rec.seq@);
    assert(new[k] == upd[p[k]]);
    if p[k] != 0 { assert(upd[p[k]] == old[p[k]]); assert(rkey(old[p[k]]) < rec.seq@); }
}
pub proof fn lemma_prefix_at(s0: Seq<GItem>, s1: Seq<GItem>)
    requires prefix_of(s0, s1),
    ensures forall|i: int| 0 <= i < s0.len() ==> s0[i] == s1[i],
{
    assert forall|i: int| 0 <= i < s0.len() implies s0[i] == s1[i] by { assert(s1.take(s0.len() as int)[i] == s1[i]); }
}
pub proof fn lemma_prefix_good(s0: Seq<GItem>, s1: Seq<GItem>)
    requires prefix_of(s0, s1),
    ensures
        forall|a: int, b: int| b < s0.len() ==> #[trigger] good_at(s0, a, b) == good_at(s1, a, b),
        forall|a: int, b: int| b < s0.len() ==> #[trigger] good_at(s1, a, b) == good_at(s0, a, b),
        forall|i: int| 0 <= i < s0.len() ==> s0[i] == s1[i],
{
    lemma_prefix_at(s0, s1);
    assert forall|a: int, b: int| b < s0.len() implies #[trigger] good_at(s0, a, b) == good_at(s1, a, b) by {
        if 0 <= a < b { lemma_good_same(s0, s1, a, b, 0); }
    }
    assert forall|a: int, b: int| b < s0.len() implies #[trigger] good_at(s1, a, b) == good_at(s0, a, b) by {
        assert(good_at(s0, a, b) == good_at(s1, a, b));
    }
}
pub proof fn lemma_prefix_kept(recs: Recs, s0: Seq<GItem>, s1: Seq<GItem>, u: int)
    requires prefix_of(s0, s1), rec_ok(recs, s0, u),
    ensures rec_ok(recs, s1, u), cover(recs, s0, u) ==> cover(recs, s1, u),
{
    lemma_prefix_good(s0, s1);
    assert forall|i: int| 0 <= i < recs.len() && (#[trigger] recs[i]) is Some implies is_good_rec(s1, recs[i]->Some_0) && re(recs[i]->Some_0) < u by {
        let r = recs[i]->Some_0;
        assert(is_good_rec(s0, r));
        assert(good_at(s0, rs(r), re(r)));
    }
    if cover(recs, s0, u) {
        assert forall|a: int, b: int| #[trigger] good_at(s1, a, b) && b < u && !holds(recs, a, b) implies dominated(recs, seq_of(s1[a])) by {
            assert(good_at(s0, a, b));
        }
    }
}
/// once collection is flagged as due, any write activity leaves a consistent state
pub proof fn lemma_write_safe<const K: usize>(st0: SeqState<K>, st: SeqState<K>, w0: World, w: World, q: u32)
    requires
        st0.sys_ok(w0), st.recs() == st0.recs(), st.next_seq == st0.next_seq, st.next_seq is Some, st.needs_gc,
        w.store == w0.store, w.honest == w0.honest,
    ensures
        forall|w2: World| #[trigger] part_written(w, w2, q) ==> st.sys_ok(w2),
{
    assert forall|w2: World| #[trigger] part_written(w, w2, q) implies st.sys_ok(w2) by {
        let u = choose|u: int| #[trigger] rec_ok(st0.recs(), w0.store, u) && (w0.honest ==> cover(st0.recs(), w0.store, u));
        lemma_prefix_kept(st.recs(), w.store, w2.store, u);
        assert(rec_ok(st.recs(), w2.store, u));
    }
}
/// payloads of the appended data elements
pub proof fn lemma_kvs_flat(s0: Seq<GItem>, s1: Seq<GItem>, q: u32, ds: Seq<Seq<u8>>, j: int)
    requires appended(s0, s1, q, ds, ds.len() as int + 2), 0 <= j <= ds.len(),
    ensures kvs(s1, s0.len() as int + 1, s0.len() + 1 + j) == flat(ds.take(j)),
    decreases j,
{
    let a = s0.len() as int;
    if j > 0 {
        lemma_kvs_flat(s0, s1, q, ds, j - 1);
        assert(ds.take(j).drop_last() =~= ds.take(j - 1));
        assert(s1[a + j].e == Some(rec_elem(q, ds, j)));
        assert(kv_of(s1[a + j]) == ds[j - 1]);
    } else {
        assert(kvs(s1, a + 1, a + 1) =~= flat(ds.take(0)));
    }
}
/// a completely appended record reads back as intended
pub proof fn lemma_written_report(w0: World, w: World, q: u32)
    requires store_part_written(w0, w, q),
    ensures
        (w0.honest && w.store.len() == w0.store.len() + all_datas(w0).len() + 2
            && (forall|i: int| 0 <= i < w0.store.len() ==> !is_start(#[trigger] w0.store[i], q))) ==>
            is_report(w.store, w0.store.len() as int, w.store.len() - 1, q, crc_of(flat(all_datas(w0))), all_datas(w0).len() as int),
{
    let ds = all_datas(w0);
    let a = w0.store.len() as int;
    let b = w.store.len() - 1;
    if w0.honest && b == a + ds.len() + 1 && (forall|i: int| 0 <= i < w0.store.len() ==> !is_start(#[trigger] w0.store[i], q)) {
        lemma_prefix_at(w0.store, w.store);
        lemma_kvs_flat(w0.store, w.store, q, ds, ds.len() as int);
        assert(ds.take(ds.len() as int) =~= ds);
        assert(w.store[a + 0].e == Some(rec_elem(q, ds, 0)));
        let k = ds.len() as int + 1;
        assert(w.store[a + k].e == Some(rec_elem(q, ds, k)));
        assert forall|i: int| a + 1 <= i < b implies is_data(#[trigger] w.store[i]) by {
            assert(w.store[a + (i - a)].e == Some(rec_elem(q, ds, i - a)));
        }
        assert forall|i: int| 0 <= i < a implies !is_start(#[trigger] w.store[i], q) by { assert(w.store[i] == w0.store[i]); }
    }
}
/// remembering the verified record re-establishes the invariant
pub proof fn lemma_written<const K: usize>(st0: SeqState<K>, w0: World, w: World, q: NonZeroU32, a: int, b: int, crc: u32, ct: int)
    requires
        st0.sys_ok(w0), st0.next_seq == Some(q), !st0.needs_gc, q@ > 0,
        w.honest == w0.honest, w.store_wf(), store_part_written(w0, w, q@), is_report(w.store, a, b, q@, crc, ct),
        ct == all_datas(w0).len(), w0.honest ==> w.store.len() == w0.store.len() + ct + 2,
    ensures
        w0.honest ==> b == w.store.len() - 1,
        good_at(w.store, a, b),
        forall|rec: GoodWriteRecord, st: SeqState<K>| #![trigger inserted(st0.recs(), st.recs(), rec)]
            inserted(st0.recs(), st.recs(), rec) && rec.seq == q && rs(rec) == a && re(rec) == b && !rec.range@.exhausted
            && st.needs_gc && (st.top() matches Some(r) && nz(st.next_seq) == next_of(r))
            ==> st.sys_ok(w) && st.top() == Some(rec),
{
    let u0 = choose|u: int| #[trigger] rec_ok(st0.recs(), w0.store, u) && (w0.honest ==> cover(st0.recs(), w0.store, u));
    let n = w0.store.len() as int;
    let ds = all_datas(w0);
    let recs = st0.recs();
    lemma_prefix_good(w0.store, w.store);
    if w0.honest {
        assert(w.store[n + 0].e == Some(rec_elem(q@, ds, 0)));
        if a < n { assert(is_any_start(w0.store[a])); }
        if a > n { assert(is_start(w.store[n], q@)); }
        assert(a == n);
    }
    assert(good_at(w.store, a, b));
    assert forall|rec: GoodWriteRecord, st: SeqState<K>| #[trigger] inserted(recs, st.recs(), rec) && rec.seq == q && rs(rec) == a && re(rec) == b && !rec.range@.exhausted
            && st.needs_gc && (st.top() matches Some(r) && nz(st.next_seq) == next_of(r))
        implies st.sys_ok(w) && st.top() == Some(rec) by {
        lemma_insert_top(recs, st.recs(), rec);
        assert(is_good_rec(w.store, rec));
        let u = if w0.honest { n } else { u0 };
        if w0.honest { assert(rec_ok(recs, w0.store, n)); }
        lemma_prefix_kept(recs, w0.store, w.store, u);
        assert forall|i: int| 0 <= i < recs.len() && (#[trigger] recs[i]) is Some implies re(recs[i]->Some_0) != re(rec) by {
            let r = recs[i]->Some_0;
            assert(rkey(recs[i]) < q@);
            if re(r) == b { lemma_start_unique(w.store, rs(r), a, b); }
        }
        lemma_insert_rec_ok(recs, st.recs(), rec, w.store, u);
        if w0.honest {
            assert forall|a2: int, b2: int| #[trigger] good_at(w.store, a2, b2) && n <= b2 <= re(rec) implies b2 == re(rec) by {
                if b2 < b { assert(w.store[n + (b2 - n)].e == Some(rec_elem(q@, ds, b2 - n))); }
            }
            lemma_insert_cover(recs, st.recs(), rec, w.store, n);
        }
        let u1 = if b + 1 > u { b + 1 } else { u };
        assert(rec_ok(st.recs(), w.store, u1));
    }
}

pub proof fn lemma_datas_same(w0: World, w: World, i: int)
    requires w0.order == w.order, w0.su == w.su, w0.val == w.val,
    ensures datas(w0, i) == datas(w, i),
    decreases i,
{
    if i > 0 { lemma_datas_same(w0, w, i - 1); }
}

// ---- garbage collection
pub proof fn lemma_filt_prefix(o: Seq<GItem>, recs: Recs, p: int, i: int)
    requires 0 <= p <= i <= o.len(),
    ensures
        filt(o, recs, p).len() <= filt(o, recs, i).len(),
        filt(o, recs, p).len() <= p,
        forall|j: int| 0 <= j < filt(o, recs, p).len() ==> #[trigger] filt(o, recs, p)[j] == filt(o, recs, i)[j],
        sum_len(filt(o, recs, i)) <= sum_len(o.take(i)),
    decreases i,
{
    if i > 0 {
        lemma_sum_step(o, i - 1);
        if keep(o, recs, i - 1) {
            assert(filt(o, recs, i).drop_last() =~= filt(o, recs, i - 1));
        }
        if p < i { lemma_filt_prefix(o, recs, p, i - 1); } else { lemma_filt_prefix(o, recs, p - 1, i - 1); }
    }
}
/// a kept item's place among the kept ones
pub proof fn lemma_filt_at(o: Seq<GItem>, recs: Recs, p: int, i: int)
    requires 0 <= p < i <= o.len(), keep(o, recs, p),
    ensures filt(o, recs, p).len() < filt(o, recs, i).len(), filt(o, recs, i)[filt(o, recs, p).len() as int] == o[p],
{
    lemma_filt_prefix(o, recs, p + 1, i);
    assert(filt(o, recs, p + 1)[filt(o, recs, p).len() as int] == o[p]);
}
/// the item a kept one came from
pub proof fn lemma_filt_src(o: Seq<GItem>, recs: Recs, i: int, j: int) -> (p: int)
    requires 0 <= i <= o.len(), 0 <= j < filt(o, recs, i).len(),
    ensures 0 <= p < i, keep(o, recs, p), filt(o, recs, p).len() == j, filt(o, recs, i)[j] == o[p],
    decreases i,
{
    if keep(o, recs, i - 1) && j == filt(o, recs, i - 1).len() { i - 1 }
    else { lemma_filt_src(o, recs, i - 1, j) }
}
pub open spec fn img(o: Seq<GItem>, recs: Recs, i: int, p: int) -> int {
    if p < i { filt(o, recs, p).len() as int } else { filt(o, recs, i).len() + p - i }
}
/// a kept stretch stays together
pub proof fn lemma_img(o: Seq<GItem>, recs: Recs, i: int, a: int, p: int)
    requires
        0 <= a <= p < o.len(), 0 <= i <= o.len(),
        forall|x: int| a <= x <= p ==> keep(o, recs, x),
    ensures
        img(o, recs, i, p) == img(o, recs, i, a) + (p - a),
        0 <= img(o, recs, i, p) < coll(o, recs, i).len(),
        coll(o, recs, i)[img(o, recs, i, p)] == o[p],
    decreases p - a,
{
    if p > a {
        assert(keep(o, recs, p - 1));
        lemma_img(o, recs, i, a, p - 1);
    }
    if p < i {
        lemma_filt_at(o, recs, p, i);
    }
}
pub proof fn lemma_end_unique(s: Seq<GItem>, a: int, b: int, b2: int)
    requires good_at(s, a, b), good_at(s, a, b2),
    ensures b == b2,
{
    if b < b2 { assert(is_data(s[b])); }
    if b2 < b { assert(is_data(s[b2])); }
}
/// record r is still in the storage in one piece, and still valid
pub open spec fn coll_img(o: Seq<GItem>, recs: Recs, i: int, r: GoodWriteRecord) -> bool {
    let (a, b) = (rs(r), re(r));
    let (x, y) = (img(o, recs, i, a), img(o, recs, i, b));
    let s = coll(o, recs, i);
    good_at(s, x, y) && seq_of(s[x]) == r.seq@ && s.subrange(x, y + 1) == o.subrange(a, b + 1) && y - x == b - a
}
/// the valid record s[x..=y] was there before, as o[a..=b]
pub open spec fn was_there(o: Seq<GItem>, s: Seq<GItem>, a: int, b: int, x: int, y: int) -> bool {
    good_at(o, a, b) && y - x == b - a && seq_of(o[a]) == seq_of(s[x]) && s.subrange(x, y + 1) == o.subrange(a, b + 1)
}
/// at every point of a collection every remembered record is still a valid record with the same
/// content, and every valid record of the storage already was one before
pub proof fn lemma_coll_safe(o: Seq<GItem>, recs: Recs, u: int, i: int)
    requires rec_ok(recs, o, u), 0 <= i <= o.len(),
    ensures
        forall|k: int| 0 <= k < recs.len() && (#[trigger] recs[k]) is Some ==> coll_img(o, recs, i, recs[k]->Some_0),
        forall|x: int, y: int| #[trigger] good_at(coll(o, recs, i), x, y) ==> exists|a: int, b: int| #[trigger] was_there(o, coll(o, recs, i), a, b, x, y),
{
    let s = coll(o, recs, i);
    assert forall|k: int| 0 <= k < recs.len() && (#[trigger] recs[k]) is Some implies coll_img(o, recs, i, recs[k]->Some_0) by {
        lemma_coll_img(o, recs, u, i, k);
    }
    assert forall|x: int, y: int| #[trigger] good_at(s, x, y) implies exists|a: int, b: int| #[trigger] was_there(o, s, a, b, x, y) by {
        lemma_coll_back(o, recs, u, i, x, y);
    }
}
proof fn lemma_coll_back(o: Seq<GItem>, recs: Recs, u: int, i: int, x: int, y: int)
    requires rec_ok(recs, o, u), 0 <= i <= o.len(), good_at(coll(o, recs, i), x, y),
    ensures exists|a: int, b: int| #[trigger] was_there(o, coll(o, recs, i), a, b, x, y),
{
    let s = coll(o, recs, i);
    let l = filt(o, recs, i).len() as int;
    if x >= l {
        let d = i - l;
        assert(s.subrange(x, y + 1) =~= o.subrange(x + d, y + d + 1));
        lemma_filt_prefix(o, recs, i, i);
        lemma_good_sub(o, s, x + d, y + d, x, y);
        assert(was_there(o, s, x + d, y + d, x, y));
    } else {
        let p = lemma_filt_src(o, recs, i, x);
        let k = choose|k: int| 0 <= k < recs.len() && (#[trigger] recs[k]) is Some && rs(recs[k]->Some_0) <= p <= re(recs[k]->Some_0);
        let (a, b) = (rs(recs[k]->Some_0), re(recs[k]->Some_0));
        assert(is_good_rec(o, recs[k]->Some_0));
        assert(good_at(o, a, b));
        assert(s[x] == o[p]);
        if a < p && p < b { assert(is_data(o[p])); }
        assert(p == a);
        lemma_coll_img(o, recs, u, i, k);
        lemma_end_unique(s, x, y, img(o, recs, i, b));
        assert(was_there(o, s, a, b, x, y));
    }
}
/// a stretch of kept items is found again in one piece
proof fn lemma_coll_stretch(o: Seq<GItem>, recs: Recs, i: int, a: int, b: int)
    requires
        0 <= a <= b < o.len(), 0 <= i <= o.len(),
        forall|x: int| a <= x <= b ==> #[trigger] keep(o, recs, x),
    ensures
        0 <= img(o, recs, i, a), img(o, recs, i, b) == img(o, recs, i, a) + (b - a), img(o, recs, i, b) < coll(o, recs, i).len(),
        coll(o, recs, i).subrange(img(o, recs, i, a), img(o, recs, i, b) + 1) =~= o.subrange(a, b + 1),
    decreases b - a,
{
    lemma_img(o, recs, i, a, b);
    lemma_img(o, recs, i, a, a);
    let x = img(o, recs, i, a);
    assert forall|z: int| 0 <= z < b - a + 1 implies coll(o, recs, i).subrange(x, img(o, recs, i, b) + 1)[z] == #[trigger] o.subrange(a, b + 1)[z] by {
        lemma_img(o, recs, i, a, a + z);
    }
}
/// the state of affairs before and after one step of the collection
pub proof fn lemma_fresh_all<const K: usize>(st: SeqState<K>)
    requires K > 0,
    ensures st.fresh() ==> forall|w: World| w.store_wf() ==> #[trigger] st.sys_ok(w),
{
    assert forall|w: World| st.fresh() && w.store_wf() implies #[trigger] st.sys_ok(w) by { lemma_fresh_sys_ok(st, w); }
}
proof fn lemma_good_sub(o: Seq<GItem>, s: Seq<GItem>, a: int, b: int, x: int, y: int)
    requires
        0 <= a < b < o.len(), 0 <= x < y < s.len(), y - x == b - a, s.subrange(x, y + 1) == o.subrange(a, b + 1),
    ensures
        good_at(o, a, b) == good_at(s, x, y), kvs(o, a + 1, b) == kvs(s, x + 1, y), seq_of(o[a]) == seq_of(s[x]),
{
    assert forall|i: int| a <= i <= b implies #[trigger] o[i] == s[i + (x - a)] by {
        assert(o.subrange(a, b + 1)[i - a] == o[i]);
        assert(s.subrange(x, y + 1)[i - a] == s[x + (i - a)]);
    }
    lemma_good_same(o, s, a, b, x - a);
}
proof fn lemma_coll_img(o: Seq<GItem>, recs: Recs, u: int, i: int, k: int)
    requires rec_ok(recs, o, u), 0 <= i <= o.len(), 0 <= k < recs.len(), recs[k] is Some,
    ensures coll_img(o, recs, i, recs[k]->Some_0),
{
    let (a, b) = (rs(recs[k]->Some_0), re(recs[k]->Some_0));
    assert(is_good_rec(o, recs[k]->Some_0));
    assert(good_at(o, a, b));
    assert forall|p: int| a <= p <= b implies #[trigger] keep(o, recs, p) by {
        if a < p && p < b { assert(is_data(o[p])); }
        assert(recs[k] is Some);
    }
    lemma_coll_stretch(o, recs, i, a, b);
    lemma_good_sub(o, coll(o, recs, i), a, b, img(o, recs, i, a), img(o, recs, i, b));
}
/// one step of the collection
pub proof fn lemma_coll_step(o: Seq<GItem>, recs: Recs, i: int)
    requires 0 <= i <= o.len(),
    ensures
        coll(o, recs, 0) == o,
        coll(o, recs, i).len() == filt(o, recs, i).len() + o.len() - i,
        sum_len(filt(o, recs, i)) <= sum_len(o.take(i)), sum_len(o.take(i)) <= sum_len(o),
        i < o.len() ==> {
            &&& coll(o, recs, i)[filt(o, recs, i).len() as int] == o[i]
            &&& sum_len(o.take(i + 1)) == sum_len(o.take(i)) + o[i].len
            &&& sum_len(o.take(i + 1)) <= sum_len(o)
            &&& keep(o, recs, i) ==> coll(o, recs, i + 1) == coll(o, recs, i) && filt(o, recs, i + 1).len() == filt(o, recs, i).len() + 1
                && sum_len(filt(o, recs, i + 1)) == sum_len(filt(o, recs, i)) + o[i].len
            &&& !keep(o, recs, i) ==> coll(o, recs, i + 1) == coll(o, recs, i).remove(filt(o, recs, i).len() as int)
                && filt(o, recs, i + 1) == filt(o, recs, i)
        },
        i == o.len() ==> coll(o, recs, i) == filt(o, recs, i) && o.take(i) == o,
{
    lemma_sum_at(o, i);
    lemma_filt_prefix(o, recs, i, i);
    assert(coll(o, recs, 0) =~= o);
    if i < o.len() {
        if keep(o, recs, i) {
            assert(coll(o, recs, i + 1) =~= coll(o, recs, i));
            assert(filt(o, recs, i + 1).drop_last() =~= filt(o, recs, i));
        } else {
            assert(coll(o, recs, i + 1) =~= coll(o, recs, i).remove(filt(o, recs, i).len() as int));
        }
    } else {
        assert(coll(o, recs, i) =~= filt(o, recs, i));
    }
}
/// an empty cache is consistent with every storage
pub proof fn lemma_fresh_sys_ok<const K: usize>(st: SeqState<K>, w: World)
    requires K > 0, w.store_wf(),
    ensures st.fresh() ==> st.sys_ok(w),
{
    if st.fresh() {
        assert(rec_ok(st.recs(), w.store, 0));
        assert(cover(st.recs(), w.store, 0)) by {
            assert forall|a: int, b: int| good_at(w.store, a, b) && b < 0 implies false by {}
        }
    }
}
/// after a collection every start element is that of a remembered record
proof fn lemma_coll_start(o: Seq<GItem>, recs: Recs, u: int, x: int)
    requires rec_ok(recs, o, u), 0 <= x < filt(o, recs, o.len() as int).len(), is_any_start(filt(o, recs, o.len() as int)[x]),
    ensures exists|y: int| #[trigger] good_at(filt(o, recs, o.len() as int), x, y),
{
    let n = o.len() as int;
    let p = lemma_filt_src(o, recs, n, x);
    let k = choose|k: int| 0 <= k < recs.len() && (#[trigger] recs[k]) is Some && rs(recs[k]->Some_0) <= p <= re(recs[k]->Some_0);
    let (a, b) = (rs(recs[k]->Some_0), re(recs[k]->Some_0));
    assert(is_good_rec(o, recs[k]->Some_0));
    assert(good_at(o, a, b));
    if a < p && p < b { assert(is_data(o[p])); }
    assert(p == a);
    lemma_coll_img(o, recs, u, n, k);
    assert(coll(o, recs, n) =~= filt(o, recs, n));
    assert(good_at(filt(o, recs, n), x, img(o, recs, n, b)));
}
/// no valid record is newer than the newest remembered one
proof fn lemma_top_max(recs: Recs, s: Seq<GItem>, u: int, x: int, y: int)
    requires kept(recs, s, u), good_at(s, x, y), y < u, recs.len() > 0, items_ok(s),
    ensures recs.last() is Some, seq_of(s[x]) <= recs.last()->Some_0.seq@,
{
    assert(item_ok(s[x]));
    let k = recs.len() - 1;
    if holds(recs, x, y) {
        let j = choose|j: int| 0 <= j < recs.len() && (#[trigger] recs[j]) is Some && rs(recs[j]->Some_0) == x && re(recs[j]->Some_0) == y;
        assert(is_good_rec(s, recs[j]->Some_0));
        if j < k { assert(rkey(recs[j]) <= rkey(recs[k])); }
    } else {
        assert(dominated(recs, seq_of(s[x])));
        assert(rkey(recs[k]) >= seq_of(s[x]));
    }
}
/// after a complete collection and a re-scan, writing may be permitted
pub proof fn lemma_gc_done<const K: usize>(st0: SeqState<K>, w0: World, st: SeqState<K>, w: World)
    requires
        st0.sys_ok(w0), w.store_wf(), st.scan_of(w.store),
        w.store == filt(w0.store, st0.recs(), w0.store.len() as int),
    ensures
        forall|st2: SeqState<K>, w2: World| #![trigger st2.sys_ok(w2)] w2.store == w.store && st2.recs() == st.recs() && st2.next_seq == st.next_seq && !st2.needs_gc ==> st2.sys_ok(w2),
{
    let o = w0.store;
    let recs = st0.recs();
    let u = choose|u: int| #[trigger] rec_ok(recs, o, u) && (w0.honest ==> cover(recs, o, u));
    let s = w.store;
    let sr = st.recs();
    assert(st.top() == sr.last());
    assert forall|x: int| 0 <= x < s.len() && is_any_start(#[trigger] s[x]) implies sr.last() is Some && seq_of(s[x]) <= sr.last()->Some_0.seq@ by {
        lemma_coll_start(o, recs, u, x);
        let y = choose|y: int| #[trigger] good_at(s, x, y);
        lemma_top_max(sr, s, s.len() as int, x, y);
    }
    assert forall|i: int| 0 <= i < K implies rkey(#[trigger] sr[i]) <= rkey(sr[K - 1]) by {
        if i < K - 1 { assert(rkey(sr[i]) <= rkey(sr[K - 1])); }
    }
    assert forall|st2: SeqState<K>, w2: World| #![trigger st2.sys_ok(w2)] w2.store == w.store && st2.recs() == st.recs() && st2.next_seq == st.next_seq && !st2.needs_gc implies st2.sys_ok(w2) by {
        assert(st2.recs().last() == st2.top());
        assert(rec_ok(st2.recs(), s, s.len() as int));
    }
}

pub proof fn lemma_ranges_ok<const K: usize>(st: SeqState<K>, w: World)
    requires st.sys_ok(w),
    ensures
        K > 0,
        forall|i: int| 0 <= i < K && (#[trigger] st.last_records@[i]) is Some ==> !st.last_records@[i]->Some_0.range@.exhausted,
        forall|w2: World| w2.store == w.store && w2.honest == w.honest ==> #[trigger] st.sys_ok(w2),
{
    let u = choose|u: int| #[trigger] rec_ok(st.recs(), w.store, u);
    assert forall|i: int| 0 <= i < K && (#[trigger] st.last_records@[i]) is Some implies !st.last_records@[i]->Some_0.range@.exhausted by {
        assert(st.recs()[i] == st.last_records@[i]);
    }
}

pub proof fn lemma_fresh_any<const K: usize>(w: World)
    requires K > 0, w.store_wf(),
    ensures forall|st: SeqState<K>, w2: World| st.fresh() && w2.store == w.store ==> #[trigger] st.sys_ok(w2),
{
    assert forall|st: SeqState<K>, w2: World| st.fresh() && w2.store == w.store implies #[trigger] st.sys_ok(w2) by {
        assert(rec_ok(st.recs(), w2.store, 0));
        assert(cover(st.recs(), w2.store, 0));
        if !st.needs_gc { assert(st.next_seq is None); }
    }
}

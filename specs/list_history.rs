// ------------------------------------------------------------------------------------------
// Histories: what every sequence of operations, failures, cancellations and power losses keeps
// ------------------------------------------------------------------------------------------
/// storage holds a valid record numbered at least q0
pub open spec fn has_newer(s: Seq<GItem>, q0: u32) -> bool {
    exists|a: int, b: int| #[trigger] good_at(s, a, b) && seq_of(s[a]) >= q0
}
/// s[a..=b] is the record numbered p.0 of the payloads p.1
pub open spec fn rec_is(s: Seq<GItem>, a: int, b: int, p: (u32, Seq<Seq<u8>>)) -> bool {
    b - a == p.1.len() + 1 && forall|i: int| 0 <= i <= p.1.len() + 1 ==> (#[trigger] s[a + i]).e == Some(rec_elem(p.0, p.1, i))
}
pub type Log = Seq<(u32, Seq<Seq<u8>>)>;
/// every valid record numbered at least q0 was written by one of the write passes in the log
pub open spec fn from_log(s: Seq<GItem>, log: Log, q0: u32) -> bool {
    forall|a: int, b: int| #[trigger] good_at(s, a, b) && seq_of(s[a]) >= q0 ==> exists|j: int| 0 <= j < log.len() && rec_is(s, a, b, #[trigger] log[j])
}
/// what a write pass that reported success with number q0 leaves behind for good
pub open spec fn hist<const K: usize>(st: SeqState<K>, w: World, log: Log, q0: u32) -> bool {
    &&& has_newer(w.store, q0)
    &&& from_log(w.store, log, q0)
    &&& st.fresh() || (st.top() matches Some(r) && r.seq@ >= q0)
}

/// C05: at every point of a write pass, and after it, the valid records of the storage are the ones
/// that were there before, in place, and at most one more: the complete new one, whose number is
/// higher than all others
#[verifier::spinoff_prover]
pub proof fn theorem_write_cut<const K: usize>(st: SeqState<K>, w0: World, s: Seq<GItem>)
    requires st.sys_ok(w0), w0.store_wf(), w0.honest, may_write(st), store_part_written(w0, World { store: s, ..w0 }, st.next_seq->Some_0@),
    ensures
        forall|a: int, b: int| #[trigger] good_at(w0.store, a, b) ==> good_at(s, a, b) && s.subrange(a, b + 1) == w0.store.subrange(a, b + 1)
            && seq_of(w0.store[a]) < st.next_seq->Some_0@,
        forall|a: int, b: int| #[trigger] good_at(s, a, b) ==> {
            ||| good_at(w0.store, a, b) && s.subrange(a, b + 1) == w0.store.subrange(a, b + 1)
            ||| a == w0.store.len() && b == s.len() - 1 && seq_of(s[a]) == st.next_seq->Some_0@ && rec_is(s, a, b, (st.next_seq->Some_0@, all_datas(w0)))
        },
{
    let o = w0.store;
    let q = st.next_seq->Some_0@;
    let ds = all_datas(w0);
    lemma_prefix_good(o, s);
    assert forall|a: int, b: int| #[trigger] good_at(o, a, b) implies good_at(s, a, b) && s.subrange(a, b + 1) == o.subrange(a, b + 1) && seq_of(o[a]) < q by {
        assert(s.subrange(a, b + 1) =~= o.subrange(a, b + 1));
        assert(is_any_start(o[a]));
    }
    assert forall|a: int, b: int| #[trigger] good_at(s, a, b) implies {
            ||| good_at(o, a, b) && s.subrange(a, b + 1) == o.subrange(a, b + 1)
            ||| a == o.len() && b == s.len() - 1 && seq_of(s[a]) == q && rec_is(s, a, b, (q, ds))
        } by {
        let n = o.len() as int;
        if b < n {
            assert(s.subrange(a, b + 1) =~= o.subrange(a, b + 1));
        } else {
            assert(s[n + (b - n)].e == Some(rec_elem(q, ds, b - n)));
            assert(b - n == ds.len() + 1);
            assert(s[n + 0].e == Some(rec_elem(q, ds, 0)));
            if a < n { assert(is_data(s[n])); }
            if a > n { assert(s[n + (a - n)].e == Some(rec_elem(q, ds, a - n))); }
        }
    }
}
pub proof fn lemma_log_grows(s: Seq<GItem>, log: Log, p: (u32, Seq<Seq<u8>>), q0: u32)
    requires from_log(s, log, q0),
    ensures from_log(s, log.push(p), q0),
{
    assert forall|a: int, b: int| #[trigger] good_at(s, a, b) && seq_of(s[a]) >= q0 implies exists|j: int| 0 <= j < log.push(p).len() && rec_is(s, a, b, #[trigger] log.push(p)[j]) by {
        let j = choose|j: int| 0 <= j < log.len() && rec_is(s, a, b, #[trigger] log[j]);
        assert(log.push(p)[j] == log[j]);
    }
}
pub proof fn lemma_rec_is_moved(o: Seq<GItem>, s: Seq<GItem>, a: int, b: int, x: int, y: int, p: (u32, Seq<Seq<u8>>))
    requires 0 <= a <= b < o.len(), 0 <= x <= y < s.len(), s.subrange(x, y + 1) == o.subrange(a, b + 1), y - x == b - a, rec_is(o, a, b, p),
    ensures rec_is(s, x, y, p),
{
    assert forall|i: int| 0 <= i <= p.1.len() + 1 implies (#[trigger] s[x + i]).e == Some(rec_elem(p.0, p.1, i)) by {
        assert(o[a + i].e == Some(rec_elem(p.0, p.1, i)));
        assert(s.subrange(x, y + 1)[i] == s[x + i]);
        assert(o.subrange(a, b + 1)[i] == o[a + i]);
    }
}
/// cutting a write pass off at any point keeps the promise
#[verifier::spinoff_prover]
pub proof fn theorem_hist_write<const K: usize>(st: SeqState<K>, w0: World, s: Seq<GItem>, log: Log, q0: u32)
    requires
        st.sys_ok(w0), w0.store_wf(), w0.honest, may_write(st), store_part_written(w0, World { store: s, ..w0 }, st.next_seq->Some_0@),
        hist(st, w0, log, q0),
    ensures has_newer(s, q0), from_log(s, log.push((st.next_seq->Some_0@, all_datas(w0))), q0),
{
    let o = w0.store;
    let p = (st.next_seq->Some_0@, all_datas(w0));
    theorem_write_cut(st, w0, s);
    lemma_log_grows(o, log, p, q0);
    let (a, b) = choose|a: int, b: int| #[trigger] good_at(o, a, b) && seq_of(o[a]) >= q0;
    lemma_prefix_good(o, s);
    assert(good_at(s, a, b) && seq_of(s[a]) >= q0);
    assert forall|a: int, b: int| #[trigger] good_at(s, a, b) && seq_of(s[a]) >= q0 implies exists|j: int| 0 <= j < log.push(p).len() && rec_is(s, a, b, #[trigger] log.push(p)[j]) by {
        if good_at(o, a, b) && s.subrange(a, b + 1) == o.subrange(a, b + 1) {
            assert(seq_of(o[a]) >= q0);
            let j = choose|j: int| 0 <= j < log.push(p).len() && rec_is(o, a, b, #[trigger] log.push(p)[j]);
            lemma_rec_is_moved(o, s, a, b, a, b, log.push(p)[j]);
        } else {
            assert(rec_is(s, a, b, log.push(p)[log.len() as int]));
        }
    }
}
/// the very write pass that reports success makes the promise
#[verifier::spinoff_prover]
pub proof fn theorem_hist_begin<const K: usize>(st: SeqState<K>, w0: World, w1: World, r: GoodWriteRecord)
    requires
        st.sys_ok(w0), w0.store_wf(), w0.honest, may_write(st), w1.store_wf(), store_part_written(w0, w1, st.next_seq->Some_0@),
        is_report(w1.store, rs(r), re(r), r.seq@, crc_of(flat(all_datas(w0))), all_datas(w0).len() as int), r.seq == st.next_seq->Some_0,
    ensures
        has_newer(w1.store, r.seq@), from_log(w1.store, seq![(r.seq@, all_datas(w0))], r.seq@),
{
    let s = w1.store;
    let log = seq![(r.seq@, all_datas(w0))];
    theorem_write_cut(st, w0, s);
    assert(good_at(s, rs(r), re(r)));
    assert forall|a: int, b: int| #[trigger] good_at(s, a, b) && seq_of(s[a]) >= r.seq@ implies exists|j: int| 0 <= j < log.len() && rec_is(s, a, b, #[trigger] log[j]) by {
        if good_at(w0.store, a, b) { lemma_prefix_at(w0.store, s); assert(is_any_start(w0.store[a])); }
        assert(rec_is(s, a, b, log[0]));
    }
}
/// cutting a collection off at any point keeps the promise
#[verifier::spinoff_prover]
pub proof fn theorem_hist_collect<const K: usize>(st: SeqState<K>, w0: World, s: Seq<GItem>, log: Log, q0: u32)
    requires st.sys_ok(w0), w0.store_wf(), hist(st, w0, log, q0), st.needs_gc, part_collected(w0.store, st.recs(), s),
    ensures has_newer(s, q0), from_log(s, log, q0),
{
    let o = w0.store;
    let recs = st.recs();
    let i = choose|i: int| 0 <= i <= o.len() && s == #[trigger] coll(o, recs, i);
    let u = choose|u: int| #[trigger] rec_ok(recs, o, u) && (w0.honest ==> cover(recs, o, u));
    lemma_coll_safe(o, recs, u, i);
    assert(recs[K - 1] == st.top());
    let r = st.top()->Some_0;
    assert(coll_img(o, recs, i, r));
    assert(good_at(s, img(o, recs, i, rs(r)), img(o, recs, i, re(r))));
    assert forall|x: int, y: int| #[trigger] good_at(s, x, y) && seq_of(s[x]) >= q0 implies exists|j: int| 0 <= j < log.len() && rec_is(s, x, y, #[trigger] log[j]) by {
        let (a, b) = choose|a: int, b: int| #[trigger] was_there(o, s, a, b, x, y);
        assert(good_at(o, a, b) && seq_of(o[a]) >= q0);
        let j = choose|j: int| 0 <= j < log.len() && rec_is(o, a, b, #[trigger] log[j]);
        lemma_rec_is_moved(o, s, a, b, x, y, log[j]);
    }
}
/// a scan finds what was promised
#[verifier::spinoff_prover]
pub proof fn theorem_hist_scan<const K: usize>(st: SeqState<K>, w: World, q0: u32)
    requires w.store_wf(), K > 0, kept(st.recs(), w.store, w.store.len() as int), has_newer(w.store, q0),
    ensures st.top() matches Some(r) && r.seq@ >= q0 && is_good_rec(w.store, r),
{
    let (a, b) = choose|a: int, b: int| #[trigger] good_at(w.store, a, b) && seq_of(w.store[a]) >= q0;
    lemma_top_max(st.recs(), w.store, w.store.len() as int, a, b);
    assert(st.recs().last() == st.top());
    assert(st.recs()[K - 1] is Some);
}

/// leaving an operation releases the mutex (guards are dropped)
#[verifier::external_body]
pub proof fn axiom_guards_dropped(tracked w: &mut World)
    ensures *final(w) == (World { locked: false, ..*old(w) }),
{}
/// the user writes to nodes: values and save marks change, the set of nodes does not
#[verifier::external_body]
pub proof fn axiom_user_writes(tracked w: &mut World)
    requires old(w).wf(),
    ensures *final(w) == (World { su: final(w).su, val: final(w).val, wakes: final(w).wakes, ..*old(w) }), final(w).wf(),
{}

/// C20: any history of operations after a write pass that reported success with number q0.
/// `steps` is arbitrary; after every step a restart (which begins with an empty cache and scans the
/// storage) selects a record numbered q0 or higher that was written by a write pass of this
/// history, complete and unmixed.
#[verifier::spinoff_prover]
pub fn any_history<R: ScopedRawMutex, S: NdlDataStorage, const K: usize>(list: &mut StorageList<R, K>, Tracked(w): Tracked<&mut World>, storage: &mut S, buf: &mut [u8], steps: &[u8], Ghost(log0): Ghost<Log>, Ghost(q0): Ghost<u32>) -> (log: Ghost<Log>)
    requires old(w).wf(), !old(w).locked, old(w).honest, old(list).seq().sys_ok(*old(w)), hist(old(list).seq(), *old(w), log0, q0),
    ensures final(w).wf(), final(list).seq().sys_ok(*final(w)), hist(final(list).seq(), *final(w), log@, q0),
{
    let mut i: usize = 0;
    let mut log = Ghost(log0);
    #[verifier::loop_isolation(false)]
    while i < steps.len()
        invariant
            i <= steps.len(), w.wf(), !w.locked, w.honest, list.seq().sys_ok(*w), hist(list.seq(), *w, log@, q0),
        decreases steps.len() - i,
    {
        let c = steps[i];
        i += 1;
        let ghost w0 = *w;
        let ghost st0 = list.seq();
        proof { lemma_ranges_ok(st0, w0); }
        if c == 0 {
            let _ = list.process_reads(Tracked(w), storage, buf);
            proof {
                if list.seq() != st0 { theorem_hist_scan(list.seq(), *w, q0); }
            }
        } else if c == 1 {
            let _ = list.process_garbage(Tracked(w), storage, buf);
            proof {
                if st0.needs_gc {
                    theorem_hist_collect(st0, w0, w.store, log@, q0);
                    if !list.seq().fresh() { theorem_hist_scan(list.seq(), *w, q0); }
                }
            }
        } else if c == 2 {
            let r = list.process_writes(Tracked(w), storage, buf);
            proof {
                if will_write(st0, w0) {
                    theorem_hist_write(st0, w0, w.store, log@, q0);
                    log@ = log@.push((st0.next_seq->Some_0@, all_datas(w0)));
                    assert(st0.recs()[K - 1] == st0.top());
                    assert(list.seq().recs()[K - 1] == list.seq().top());
                }
            }
        } else if c == 3 {
            list.reset_cache(Tracked(w));
        } else {
            proof { axiom_user_writes(w); }
        }
        proof { axiom_guards_dropped(w); lemma_ranges_ok(list.seq(), World { locked: w.locked, ..*w }); }
    }
    log
}

/// C15: whatever happened before (any state satisfying the invariant, which every operation keeps
/// even when it fails or is cut off), a read pass, a collection and a write pass on a storage that
/// works again succeed and leave nothing unsaved, provided the values fit and numbers are left.
#[verifier::spinoff_prover]
pub fn recovery<R: ScopedRawMutex, S: NdlDataStorage, const K: usize>(list: &mut StorageList<R, K>, Tracked(w): Tracked<&mut World>, storage: &mut S, buf: &mut [u8]) -> (r: Ghost<World>)
    requires
        old(w).wf(), !old(w).locked, old(w).reliable, old(list).seq().sys_ok(*old(w)),
        old(w).store.len() + old(w).order.len() + 2 <= old(w).slots,
        forall|i: int| 0 <= i < old(w).store.len() && is_any_start(#[trigger] old(w).store[i]) ==> seq_of(old(w).store[i]) < u32::MAX,
    ensures
        final(w).wf(), final(list).seq().sys_ok(*final(w)), final(w).order == old(w).order,
        r@.val == final(w).val,
        fits(r@, old(buf)@.len()) ==> !any_unsaved(*final(w)) && final(list).seq().top() is Some,
{
    proof { lemma_ranges_ok(list.seq(), *w); }
    let ghost w0 = *w;
    let ghost st0 = list.seq();
    let r1 = list.process_reads(Tracked(w), storage, buf);
    proof { axiom_guards_dropped(w); lemma_ranges_ok(list.seq(), World { locked: w.locked, ..*w }); }
    assert(r1 is Ok);
    let ghost w1 = *w;
    let ghost st1 = list.seq();
    proof {
        lemma_top_number(st1, w1);
    }
    let r2 = list.process_garbage(Tracked(w), storage, buf);
    proof { axiom_guards_dropped(w); lemma_ranges_ok(list.seq(), World { locked: w.locked, ..*w }); }
    assert(r2 is Ok);
    proof {
        if st1.needs_gc { lemma_collected_numbers(st1, w1, w.store); }
        lemma_top_number(list.seq(), *w);
    }
    let ghost w2 = *w;
    assert(may_write(list.seq()));
    assert(!any_initial(w2)) by {
        if any_initial(w2) { let i = choose|i: int| 0 <= i < w2.order.len() && w2.su[#[trigger] w2.order[i]] == 0; assert(w1.su[w1.order[i]] == 0); }
    }
    let r3 = list.process_writes(Tracked(w), storage, buf);
    proof {
        axiom_guards_dropped(w); lemma_ranges_ok(list.seq(), World { locked: w.locked, ..*w });
        if fits(w2, old(buf)@.len()) {
            assert(r3 is Ok);
            if any_unsaved(*w) {
                let i = choose|i: int| 0 <= i < w.order.len() && w.su[#[trigger] w.order[i]] == 3;
                assert(w2.su.dom().contains(w2.order[i]));
                assert(is_attached(w2, w2.order[i]));
                assert(w2.su[w2.order[i]] == 3 || w2.su[w2.order[i]] != 3);
            }
        }
    }
    Ghost(w2)
}
/// the number of the newest remembered record is that of a start in storage
proof fn lemma_top_number<const K: usize>(st: SeqState<K>, w: World)
    requires st.sys_ok(w),
    ensures
        (forall|i: int| 0 <= i < w.store.len() && is_any_start(#[trigger] w.store[i]) ==> seq_of(w.store[i]) < u32::MAX) ==> (st.top() matches Some(r) ==> r.seq@ < u32::MAX),
{
    assert(st.recs()[K - 1] == st.top());
    if st.top() is Some { assert(is_good_rec(w.store, st.top()->Some_0)); }
}
/// collecting adds no start
proof fn lemma_collected_numbers<const K: usize>(st: SeqState<K>, w: World, s: Seq<GItem>)
    requires
        s == filt(w.store, st.recs(), w.store.len() as int),
        forall|i: int| 0 <= i < w.store.len() && is_any_start(#[trigger] w.store[i]) ==> seq_of(w.store[i]) < u32::MAX,
    ensures
        s.len() <= w.store.len(),
        forall|i: int| 0 <= i < s.len() && is_any_start(#[trigger] s[i]) ==> seq_of(s[i]) < u32::MAX,
{
    lemma_filt_prefix(w.store, st.recs(), w.store.len() as int, w.store.len() as int);
    assert forall|i: int| 0 <= i < s.len() && is_any_start(#[trigger] s[i]) implies seq_of(s[i]) < u32::MAX by {
        let p = lemma_filt_src(w.store, st.recs(), w.store.len() as int, i);
        assert(s[i] == w.store[p]);
    }
}

/// C18: after a cache reset writes are refused until a read pass; that pass uses what the storage
/// now contains; if that holds no valid record the next permitted write pass writes everything,
/// if it does and nothing is unsaved nothing is written
#[verifier::spinoff_prover]
pub fn after_reset<R: ScopedRawMutex, S: NdlDataStorage, const K: usize>(list: &mut StorageList<R, K>, Tracked(w): Tracked<&mut World>, storage: &mut S, buf: &mut [u8]) -> (r: Ghost<(World, SeqState<K>)>)
    requires old(w).wf(), !old(w).locked, old(w).reliable, K > 0,
    ensures
        final(w).wf(), r@.0.store == old(w).store, r@.1.scan_of(old(w).store), !any_initial(r@.0),
        r@.1.top() is None ==> will_write(SeqState { needs_gc: false, ..r@.1 }, r@.0),
        r@.1.top() is Some && r@.1.top()->Some_0.seq@ < u32::MAX && !any_unsaved(r@.0) ==> !will_write(SeqState { needs_gc: false, ..r@.1 }, r@.0),
{
    list.reset_cache(Tracked(w));
    proof { axiom_guards_dropped(w); lemma_ranges_ok(list.seq(), World { locked: w.locked, ..*w }); }
    let r = list.process_writes(Tracked(w), storage, buf);
    assert(r is Err);
    assert(w.store == old(w).store);
    proof { axiom_guards_dropped(w); lemma_ranges_ok(list.seq(), World { locked: w.locked, ..*w }); }
    let r = list.process_reads(Tracked(w), storage, buf);
    assert(r is Ok);
    proof { axiom_guards_dropped(w); }
    Ghost((*w, list.seq()))
}

/// C12, C13: a storage pass, finished or not, changes no value a node already has, moves states only
/// as the passes may, and touches neither the set of nodes nor their links
#[verifier::spinoff_prover]
pub fn passes_keep_nodes<R: ScopedRawMutex, S: NdlDataStorage, const K: usize>(list: &mut StorageList<R, K>, Tracked(w): Tracked<&mut World>, storage: &mut S, buf: &mut [u8], c: u8)
    requires old(w).wf(), !old(w).locked, old(list).seq().sys_ok(*old(w)),
    ensures passes_rely(*old(w), *final(w)),
{
    proof { lemma_ranges_ok(list.seq(), *w); }
    if c == 0 {
        let _ = list.process_reads(Tracked(w), storage, buf);
    } else if c == 1 {
        let _ = list.process_garbage(Tracked(w), storage, buf);
    } else if c == 2 {
        let _ = list.process_writes(Tracked(w), storage, buf);
    } else {
        list.reset_cache(Tracked(w));
    }
}

// ------------------------------------------------------------------------------------------
// C21: the default worker
// ------------------------------------------------------------------------------------------
/// between operations; also what every point at which an operation can be cut off keeps
pub open spec fn idle<const K: usize>(st: SeqState<K>, w: World) -> bool { w.wf() && !w.locked && st.sys_ok(w) }
/// numbers are left
pub open spec fn numbers_left(s: Seq<GItem>) -> bool { forall|i: int| 0 <= i < s.len() && is_any_start(#[trigger] s[i]) ==> seq_of(s[i]) < u32::MAX }
/// the storage works (from now on), has room for a record, and numbers are left
pub open spec fn steady(w: World) -> bool { roomy(w) && numbers_left(w.store) }
/// nothing a node holds got lost: values and states of all nodes but those waiting for their first read
pub open spec fn held(w0: World, w1: World) -> bool {
    forall|n: nat| #[trigger] w0.su.dom().contains(n) && w0.su[n] != 0 ==> w1.su[n] == w0.su[n] && w1.val[n] == w0.val[n]
}
pub open spec fn refused(r: Option<Error>) -> bool { r == Some(Error::NeedsFirstRead) || r == Some(Error::NeedsGarbageCollect) }
pub open spec fn app_err<T, E>(r: Result<T, LoadStoreError<E>>) -> Option<Error> {
    match r { Err(LoadStoreError::AppError(e)) => Some(e), _ => None }
}
proof fn lemma_fits_same(a: World, b: World, n: nat)
    requires a.order == b.order, a.val == b.val, a.nd == b.nd, a.wf(), forall|x: nat| #[trigger] a.su.dom().contains(x) ==> a.live(x) == b.live(x),
    ensures fits(a, n) == fits(b, n),
{
    assert forall|j: int| 0 <= j < a.order.len() implies a.live(#[trigger] a.order[j]) == b.live(b.order[j]) && node_bytes(a, a.order[j]) == node_bytes(b, b.order[j]) by {
        assert(a.su.dom().contains(a.order[j]));
    }
}
impl<R: ScopedRawMutex, const K: usize> StorageList<R, K> {
    pub fn w_reads<S: NdlDataStorage>(&mut self, Tracked(w): Tracked<&mut World>, storage: &mut S, buf: &mut [u8]) -> (ret: Result<ProcessReadCounters, LoadStoreError<S::Error>>)
        requires idle(old(self).seq(), *old(w)),
        ensures
            idle(final(self).seq(), *final(w)), final(buf)@.len() == old(buf)@.len(), op_frame(*old(w), *final(w)),
            final(w).store == old(w).store, held(*old(w), *final(w)),
            ret is Ok ==> !any_initial(*final(w)) && woken(*old(w), *final(w), old(self).reading_done), final(self).same_list(old(self)),
            old(w).reliable ==> ret is Ok,
            steady(*old(w)) ==> ret is Ok && !any_initial(*final(w)) && final(self).seq().next_seq is Some,
    {
        proof { lemma_ranges_ok(self.seq(), *w); lemma_top_number(self.seq(), *w); }
        let r = self.process_reads(Tracked(w), storage, buf);
        proof { axiom_guards_dropped(w); lemma_ranges_ok(self.seq(), World { locked: w.locked, ..*w }); lemma_top_number(self.seq(), *w); }
        r
    }
    pub fn w_garbage<S: NdlDataStorage>(&mut self, Tracked(w): Tracked<&mut World>, storage: &mut S, buf: &mut [u8]) -> (ret: Result<ProcessGarbageCounters, LoadStoreError<S::Error>>)
        requires idle(old(self).seq(), *old(w)),
        ensures
            idle(final(self).seq(), *final(w)), final(buf)@.len() == old(buf)@.len(), op_frame(*old(w), *final(w)),
            nodes_same(*old(w), *final(w)),
            steady(*old(w)) ==> ret is Ok && steady(*final(w)) && !final(self).seq().needs_gc
                && (old(self).seq().next_seq is Some || old(self).seq().needs_gc ==> final(self).seq().next_seq is Some),
    {
        let ghost w0 = *w;
        let ghost st0 = self.seq();
        proof { lemma_ranges_ok(self.seq(), *w); }
        let r = self.process_garbage(Tracked(w), storage, buf);
        proof {
            axiom_guards_dropped(w); lemma_ranges_ok(self.seq(), World { locked: w.locked, ..*w });
            if steady(w0) {
                if st0.needs_gc { lemma_collected_numbers(st0, w0, w.store); }
                lemma_top_number(self.seq(), *w);
            }
        }
        r
    }
    pub fn w_writes<S: NdlDataStorage>(&mut self, Tracked(w): Tracked<&mut World>, storage: &mut S, buf: &mut [u8]) -> (ret: Result<ProcessWriteCounters, LoadStoreError<S::Error>>)
        requires idle(old(self).seq(), *old(w)),
        ensures
            idle(final(self).seq(), *final(w)), final(buf)@.len() == old(buf)@.len(), op_frame(*old(w), *final(w)),
            final(w).val == old(w).val,
            // refused, and then as before, or done
            steady(*old(w)) && refused(app_err(ret)) ==> steady(*final(w)) && nodes_same(*old(w), *final(w)) && *final(self) == *old(self),
            steady(*old(w)) && may_write(old(self).seq()) && !any_initial(*old(w)) ==> !refused(app_err(ret)),
            steady(*old(w)) && !refused(app_err(ret)) && fits(*final(w), old(buf)@.len()) ==> ret is Ok && !any_unsaved(*final(w)),
    {
        let ghost w0 = *w;
        let ghost st0 = self.seq();
        proof { lemma_ranges_ok(self.seq(), *w); }
        let r = self.process_writes(Tracked(w), storage, buf);
        proof {
            axiom_guards_dropped(w); lemma_ranges_ok(self.seq(), World { locked: w.locked, ..*w });
            if steady(w0) && !refused(app_err(r)) {
                assert(may_write(st0) && !any_initial(w0));
                lemma_fits_same(w0, *w, buf@.len());
                if r is Ok && any_unsaved(*w) {
                    let i = choose|i: int| 0 <= i < w.order.len() && w.su[#[trigger] w.order[i]] == 3;
                    assert(w0.su.dom().contains(w0.order[i]));
                    assert(is_attached(w0, w0.order[i]));
                }
            }
        }
        r
    }
}
/// the worker is cut off at any of its awaits, after any number of steps, its own and the users',
/// on whatever storage; from now on the storage works (if it is to)
#[verifier::external_body]
pub fn x_interrupted<R: ScopedRawMutex, const K: usize>(Tracked(w): Tracked<&mut World>, list: &mut StorageList<R, K>, buf: &mut [u8])
    requires idle(old(list).seq(), *old(w)),
    ensures
        idle(final(list).seq(), *final(w)), final(buf)@.len() == old(buf)@.len(), final(w).reliable == old(w).reliable,
        old(w).reliable ==> steady(*final(w)),
{ unimplemented!() }
#[verifier::external]
impl<T> core::fmt::Debug for LoadStoreError<T> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
/// the storage that is always empty (of its code the flash layer proves that it is empty, never
/// fails and ignores writes)
pub open spec fn always_empty(w: World) -> bool { w.reliable && w.store.len() == 0 }
#[verifier::external_body]
pub fn x_always_empty<S: NdlDataStorage>() -> S { unimplemented!() }
#[verifier::external_body]
pub fn x_no_buf<'a>() -> &'a mut [u8] { unimplemented!() }
/// other tasks run while a worker waits: nodes come, go and change; nobody else uses the storage
#[verifier::external_body]
pub proof fn axiom_others_run<const K: usize>(tracked w: &mut World, st: SeqState<K>)
    requires idle(st, *old(w)),
    ensures idle(st, *final(w)), final(w).store == old(w).store, final(w).same_consts(old(w)),
{}
#[verifier::external_body]
pub fn x_started() -> bool { unimplemented!() }
pub struct XFuture {}
#[verifier::external_body]
pub fn x_future() -> XFuture { unimplemented!() }
pub struct XStopper<T> { pub t: Option<T> }
pub enum Either<T> { Second(T) }
pub enum Either3 { First(()), Second(()), Third(()) }
#[verifier::external_body]
pub fn x_select<T>(a: XFuture, b: XStopper<T>) -> Either<T> { unimplemented!() }
#[verifier::external_body]
pub fn x_select3(a: XFuture, b: XFuture, c: XFuture) -> Either3 { unimplemented!() }
#[derive(Clone, Copy)]
pub struct Duration { pub t: u64 }
impl Duration {
    #[verifier::external_body]
    pub fn from_millis(n: u64) -> Duration { unimplemented!() }
    #[verifier::external_body]
    pub fn from_secs(n: u64) -> Duration { unimplemented!() }
}
pub struct XTimeout {}
#[verifier::external_body]
pub fn x_with_timeout<T>(d: Duration, f: T) -> Result<T, XTimeout> { unimplemented!() }
#[verifier::external_body]
pub fn x_timer(d: Duration) { unimplemented!() }
pub struct NoopRawMutex {}
pub struct Signal<R, T> { pub r: Option<R>, pub t: Option<T> }
impl<R, T> Signal<R, T> {
    #[verifier::external_body]
    pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn signal(&self, t: T) { unimplemented!() }
    #[verifier::external_body]
    pub fn wait(&self, Tracked(w): Tracked<&mut World>) -> T ensures *final(w) == *old(w), { unimplemented!() }
}

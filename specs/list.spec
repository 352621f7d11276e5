# Contracts for storage_list.rs, lib.rs (SerData, Crc32) and the state atom of storage_node.rs
@prim wait iter_elems push next invalidate lock load store wake wake_all x_find find update_w
@lockm lock
@const_call MAX_ELEM_SIZE x_max_elem_size
@rename_method iter x_iter
@rename_method iter_mut x_iter_mut
@rename_method sort_unstable_by_key x_sort_unstable_by_key
@rename_method sort_by_key x_sort_by_key
@rename_method find x_find
@rename_method contains x_contains
@rename_method unwrap_unchecked x_unwrap_unchecked
@rename_path minicbor::encode x_encode_key
@rename_path minicbor::decode x_decode_key
@rename_path len_with x_len_with_key
@rename_path drop x_drop
@prim w_reads w_writes w_garbage needs_read needs_write
@rename_method process_reads w_reads
@rename_method process_writes w_writes
@rename_method process_garbage w_garbage
@rename_path select x_select
@rename_path embassy_futures::select::select x_select
@rename_path select3 x_select3
@rename_path embassy_futures::select::select3 x_select3
@rename_path with_timeout x_with_timeout
@rename_path embassy_time::with_timeout x_with_timeout
@rename_path Timer::after x_timer
@rename_path embassy_time::Timer::after x_timer

@type State PartialEq, Eq, Structural
@type AtomicState
@type NodeHeader
@type_subst UnsafeCell < list :: Links < NodeHeader > > => XLinks
@type SerData
@type KvPair
@type Elem
@type Crc32
@type_subst Digest < 'static , u32 , NoTable > => XDigest
@type Error
@type LoadStoreError
@type_subst < T : MaybeDefmtFormat > => < T >
@type StorageList
@type StorageListInner
@type GoodWriteRecord
@type SeqState
@type WriteReport
@type ProcessReadCounters
@type ProcessWriteCounters
@type ProcessGarbageCounters
@type StaticRawIter
@type SendPtr
@const ELEM_VERSION_V0
@const ELEM_DISCRIMINANT_DATA

# ---------------------------------------------------------------- state atom
@fn State::into_u8 props=C19
@contract
    ensures ret == st_u8(self),
@endfn
@fn State::try_from_u8 props=C19
@contract
    ensures $1 <= 3 ==> ret == Some(st_of($1)), $1 > 3 ==> ret is None,
@endfn
@fn AtomicState::load world props=C08,C13
@contract
    requires old(w).su.dom().contains(self.inner.id@), old(w).su[self.inner.id@] <= 3,
    ensures *final(w) == *old(w), ret == old(w).st(self.inner.id@),
@endfn
@fn AtomicState::store world props=C08,C13
@contract
    requires old(w).su.dom().contains(self.inner.id@),
    ensures *final(w) == (World { su: old(w).su.insert(self.inner.id@, st_u8($1)), ..*old(w) }),
@endfn

# ---------------------------------------------------------------- lib.rs
@fn SerData::new props=C03,C11
@contract
    ensures
        old($1)@.len() == 0 <==> ret is None,
        ret matches Some(s) ==> s.hdr_key_val@ == old($1)@.update(0, 1u8) && final($1)@ == s.hdr_key_val@,
        final($1)@.len() == old($1)@.len(),
@endfn
@fn SerData::from_existing props=C11
@contract
    ensures
        $1@.len() == 0 <==> ret is None,
        ret matches Some(s) ==> s.hdr_key_val@ == $1@,
@endfn
@fn SerData::key_val props=C11
@contract
    requires self.hdr_key_val@.len() >= 1,
    ensures ret@ == self.hdr_key_val@.skip(1),
@endfn
@fn SerData::kv_pair props=C11,C01
@ret Result<KvPair<'_>, Error>
@contract
    requires self.hdr_key_val@.len() >= 1,
    ensures match (ret, split_kv(self.hdr_key_val@.skip(1))) {
        (Ok(p), Some((k, b))) => p.key@ == k && p.body@ == b,
        (Err(Error::Deserialization), None) => true,
        _ => false,
    },
@endfn
@fn Crc32::new props=C11
@subst Self :: CRC . digest () => x_digest()
@contract
    ensures ret@ == Seq::<u8>::empty(),
@endfn
@fn Crc32::update props=C11
@contract
    ensures final(self)@ == old(self)@ + $1@,
@endfn
@fn Crc32::finalize props=C11
@contract
    ensures ret == crc_of(self@),
@endfn

# ---------------------------------------------------------------- SeqState
@fn SeqState::new props=C14,C18
@contract
    ensures ret.fresh(),
@endfn
@fn SeqState::initial_scan_completed props=C08
@contract
    ensures ret == (self.next_seq is Some),
@endfn
@fn SeqState::highest_seen props=C01,C02,C20
@contract
    requires KEPT_RECORDS > 0,
    ensures ret == self.top(),
@endfn
@fn SeqState::insert_good props=C01,C02,C05,C06,C07,C20
@guards_ref
@attr verifier::spinoff_prover
@contract
    requires KEPT_RECORDS > 0, sorted(old(self).recs()),
    ensures
        rkey(old(self).recs()[0]) > $1.seq@ ==> final(self).recs() == old(self).recs()
            && final(self).next_seq == old(self).next_seq && final(self).needs_gc == old(self).needs_gc,
        inserted(old(self).recs(), final(self).recs(), $1),
        rkey(old(self).recs()[0]) <= $1.seq@ ==> {
            &&& sorted(final(self).recs())
            &&& final(self).top() matches Some(r) && nz(final(self).next_seq) == next_of(r)
            &&& final(self).needs_gc
        },
@closure 0 k: u32
 ensures k == rkey(*$c0) as u32
@closure 1 k: Option<NonZeroU32>
 ensures nz(k) == (match *$c0 { Some(x) => Some(x.seq@), None => None })
@closure 2 k: NonZeroU32
 ensures k == $c0.seq
@closure 3 k: NonZeroU32
 ensures k == $c0.seq
@proof ret
    let s0 = old(self).last_records@[0];
    assert(old(self).recs()[0] == s0);
    if rkey(s0) > $1.seq@ { assert(self.recs() =~= old(self).recs()); }
@proof before:x_sort_unstable_by_key#0
    assert(self.recs() =~= old(self).recs().update(0, Some($1)));
@proof after:x_sort_unstable_by_key#0
    lemma_top_some(old(self).recs().update(0, Some($1)), self.recs());
@endfn

# ---------------------------------------------------------------- scanning
@fn StorageListInner::get_or_populate_latest world props=C01,C02,C05,C14,C15,C17,C18,C19,C20
@attr verifier::spinoff_prover
@contract
    requires
        KEPT_RECORDS > 0, old(w).wf(), *old($3) + old(w).cap <= usize::MAX,
        old(self).seq_state.next_seq is None || sorted(old(self).seq_state.recs()),
    ensures
        final(w).same(old(w)), final(w).wf(), final($2)@.len() == old($2)@.len(),
        old(self).seq_state.next_seq is Some ==> *final(self) == *old(self) && *final($3) == *old($3) && *final(w) == *old(w)
            && ret == Ok::<_, LoadStoreError<S::Error>>(old(self).seq_state.top()),
        ret is Err ==> *final(self) == *old(self) && ret->Err_0 is FlashRead, // @C14 C15 C20
        *final($3) <= *old($3) + sum_len(old(w).store), // @C17 C19
        (old(self).seq_state.next_seq is None && ret is Ok) ==> final(self).seq_state.scan_of(old(w).store) // @C01 C02 C05 C06 C07 C08 C15 C18 C20
            && ret->Ok_0 == final(self).seq_state.top(),
        (old(self).seq_state.next_seq is None && ret is Ok) ==> *final($3) == *old($3) + sum_len(old(w).store), // @C17
        old(w).reliable ==> ret is Ok, // @C15
@loop 0
    invariant
        w.same(old(w)), w.wf(), $2@.len() == old($2)@.len(),
        *self == *old(self),
        ${ctr} == w.cur,
        rec_ok(${seq_state}.recs(), w.store, w.cur), cover(${seq_state}.recs(), w.store, w.cur), ${seq_state}.tracks(),
        open_rec(w.store, w.cur, ${current}, ${crc}@),
        *$3 == *old($3) + sum_len(w.store.take(w.cur)),
    decreases w.store.len() - w.cur,
@proof loop0.start
    lemma_scan_step(w.store, w.cur, ${seq_state}.recs(), ${current}, ${crc}@);
@cancel
    assert(w.same(old(w)) && *self == *old(self));
@endfn

# ---------------------------------------------------------------- node states
@fn StorageListInner::mark_initial_nonresident world props=C01,C13,C15
@contract
    requires old(w).wf(), old(w).locked,
    ensures marked_nonres(*old(w), *final(w)), final(w).wf(), *final(self) == *old(self),
@loop 0
    invariant
        0 <= ${__it1}.idx@ <= w.order.len(), *self == *old(self),
        only_su(*old(w), *w), w.wf(), w.locked,
        forall|n: nat| #[trigger] w.su.dom().contains(n) ==>
            w.su[n] == (if w.order.take(${__it1}.idx@).contains(n) && old(w).su[n] == 0 { 1u8 } else { old(w).su[n] }),
    decreases w.order.len() - ${__it1}.idx@,
@proof loop0.start
    lemma_take_contains(w.order, ${__it1}.idx@);
@endfn
@fn StorageListInner::needs_writing world props=C04,C08,C13,C18,C20
@contract
    requires old(w).wf(), old(w).locked, KEPT_RECORDS > 0,
    ensures
        *final(w) == *old(w), *final(self) == *old(self),
        any_initial(*old(w)) ==> ret == Err::<bool, Error>(Error::NeedsFirstRead),
        !any_initial(*old(w)) ==> ret == Ok::<bool, Error>(any_unsaved(*old(w)) || old(self).seq_state.top() is None),
@loop 0
    invariant
        0 <= ${__it1}.idx@ <= w.order.len(), *w == *old(w), *self == *old(self),
        forall|i: int| 0 <= i < ${__it1}.idx@ ==> w.su[#[trigger] w.order[i]] != 0,
        ${needs_writing} <==> exists|i: int| 0 <= i < ${__it1}.idx@ && w.su[#[trigger] w.order[i]] == 3,
    decreases w.order.len() - ${__it1}.idx@,
@endfn
@fn StorageListInner::find_node world props=C01,C12
@contract
    requires old(w).locked,
    ensures
        *final(w) == *old(w), *final(self) == *old(self),
        match ret {
            Some(p) => is_attached(*old(w), p.id@) && nkey(p.id@) == $1@,
            None => forall|n: nat| is_attached(*old(w), n) ==> nkey(n) != $1@,
        },
@closure 0 b: bool
 ensures b == (nkey($c0.id@) == $1@)
@endfn

# ---------------------------------------------------------------- loading
@fn StorageListInner::extract_all world props=C01,C05,C11,C13,C15,C17,C19,C20
@attr verifier::spinoff_prover
@contract
    requires
        old(w).wf(), old(w).locked, is_good_rec(old(w).store, $1),
        *old($4) + old(w).cap <= usize::MAX, *old($5) + old(w).cap <= usize::MAX,
    ensures
        final(w).wf(), *final(self) == *old(self), final($3)@.len() == old($3)@.len(),
        ret is Ok ==> loaded(*old(w), *final(w), rs($1) + 1, re($1)), // @C01 C05 C11 C13 C15 C20
        ret is Ok ==> *final($4) == *old($4) + sum_len(old(w).store.take(re($1) + 1)) // @C17
            && *final($5) == *old($5) + sum_len(old(w).store.take(re($1))) - sum_len(old(w).store.take(rs($1) + 1)), // @C17
        ret is Err ==> ret->Err_0 is FlashRead || ret->Err_0 is AppError, // @C15
        part_loaded(*old(w), *final(w), rs($1) + 1, re($1)), // @C01 C13 C14 C15 C20
        old(w).reliable ==> ret is Ok, // @C15
@loop 0
    invariant
        w.same(old(w)), w.wf(), $3@.len() == old($3)@.len(), w.su == old(w).su, w.val == old(w).val, w.locked,
        *self == *old(self), ${latest} == $1,
        0 <= ${__it1} <= rs($1), w.cur == ${__it1},
        loaded(*old(w), *w, rs($1) + 1, rs($1) + 1),
        *$4 == *old($4) + sum_len(w.store.take(w.cur)), *$5 == *old($5),
    decreases rs($1) - ${__it1},
@proof loop0.start
    lemma_sum_at(w.store, w.cur);
@loop 1
    invariant
        w.wf(), $3@.len() == old($3)@.len(), w.locked,
        *self == *old(self),
        rs($1) + 1 <= w.cur <= re($1), w.store == old(w).store,
        loaded(*old(w), *w, rs($1) + 1, w.cur),
        *$4 == *old($4) + sum_len(w.store.take(w.cur)),
        *$5 == *old($5) + sum_len(w.store.take(w.cur)) - sum_len(w.store.take(rs($1) + 1)),
    decreases w.store.len() - w.cur,
@proof loop1.start
    lemma_sum_at(w.store, w.cur);
    lemma_load_step(*old(w), *w, rs($1) + 1, w.cur);
    lemma_part_loaded(*old(w), *w, rs($1) + 1, w.cur, re($1));
@cancel
    assert(w.store == old(w).store && part_loaded(*old(w), *w, rs($1) + 1, re($1)) && *self == *old(self));
@endfn

# ---------------------------------------------------------------- writing
@fn StaticRawIter::next world trait=Iterator props=C03,C20
@impl impl<'a> StaticRawIter<'a>
@contract
    requires 0 <= old(self).iter.idx@ <= old(w).order.len(), old(w).locked,
    ensures
        *final(w) == *old(w),
        old(self).iter.idx@ == old(w).order.len() ==> ret is None && final(self).iter.idx@ == old(self).iter.idx@,
        old(self).iter.idx@ < old(w).order.len() ==> (ret matches Some(p) && p.ptr.id@ == old(w).order[old(self).iter.idx@])
            && final(self).iter.idx@ == old(self).iter.idx@ + 1,
@closure 0 r: SendPtr
 ensures r.ptr == $c0
@endfn
@fn serialize_node world props=C03,C11,C16,C19,C20
@contract
    requires
        old(w).wf(), old(w).locked, is_attached(*old(w), $1.id@), old(w).live($1.id@),
    ensures
        *final(w) == *old(w), final($2)@.len() == old($2)@.len(),
        match ret {
            Ok(n) => n == node_bytes(*old(w), $1.id@).len() && n <= old($2)@.len()
                && final($2)@.take(n as int) == node_bytes(*old(w), $1.id@),
            Err(e) => e is Serialization && node_bytes(*old(w), $1.id@).len() > old($2)@.len(),
        },
@proof entry
    assert($2.len() == $2@.len());
@endfn
@fn StorageListInner::write_to_flash world props=C03,C04,C05,C11,C15,C16,C17,C19,C20
@attr verifier::spinoff_prover
@contract
    requires old(w).wf(), old(w).locked,
    ensures
        final(w).wf(), *final(self) == *old(self), final($1)@.len() == old($1)@.len(),
        part_written(*old(w), *final(w), $3@),
        ret matches Ok(r) ==> {
            &&& r.seq == $3 && r.ct == all_datas(*old(w)).len() && r.crc == crc_of(flat(all_datas(*old(w))))
            &&& fits(*old(w), old($1)@.len())
            &&& old(w).honest ==> final(w).store.len() == old(w).store.len() + all_datas(*old(w)).len() + 2
        },
        ret matches Ok(r) ==> (old(w).honest ==> r.bytes_written == sum_len(final(w).store) - sum_len(old(w).store)), // @C17
        ret is Err ==> ret->Err_0 is FlashWrite || ret->Err_0 == LoadStoreError::<S::Error>::AppError(Error::Serialization),
        roomy(*old(w)) && fits(*old(w), old($1)@.len()) ==> ret is Ok,
        roomy(*old(w)) && !fits(*old(w), old($1)@.len()) ==> ret is Err && ret->Err_0 == LoadStoreError::<S::Error>::AppError(Error::Serialization),
@loop 0
    invariant
        w.wf(), w.locked, *self == *old(self), $1@.len() == old($1)@.len(),
        0 <= ${__it1}.iter.idx@ <= w.order.len(),
        part_written(*old(w), *w, $3@),
        old(w).honest ==> w.store.len() == old(w).store.len() + 1 + datas(*old(w), ${__it1}.iter.idx@).len()
            && ${bytes_written} == sum_len(w.store) - sum_len(old(w).store),
        ${ctr} == datas(*old(w), ${__it1}.iter.idx@).len(),
        ${check_crc}@ == flat(datas(*old(w), ${__it1}.iter.idx@)),
        ${bytes_written} <= (${__it1}.iter.idx@ + 1) * w.cap,
        fits_upto(*old(w), ${__it1}.iter.idx@, old($1)@.len()),
    decreases w.order.len() - ${__it1}.iter.idx@,
@proof loop0.start
    lemma_write_step(*old(w), *w, ${__it1}.iter.idx@);
@proof entry
    lemma_write_first(*w);
@proof before:push#1
    assert(${serdat}.hdr_key_val@.skip(1) =~= node_bytes(*old(w), ${hdrptr}.ptr.id@));
@cancel
    assert(part_written(*old(w), *w, $3@) && *self == *old(self));
@endfn

@fn LoadStoreError::from trait=From
@impl impl<T> From<Error> for LoadStoreError<T>
@contract
    ensures ret == LoadStoreError::<T>::AppError($1),
@endfn

@fn verify_list_in_flash world props=C04,C07,C15,C17,C19,C20
@attr verifier::spinoff_prover
@contract
    requires old(w).wf(), *old($4) + old(w).cap <= usize::MAX,
    ensures
        final(w).same(old(w)), final(w).wf(), final($3)@.len() == old($3)@.len(),
        ret matches Ok(r) ==> !r@.exhausted
            && is_report(old(w).store, r@.start as int, r@.end as int, $2.seq@, $2.crc, $2.ct as int), // @C04 C07 C20
        ret matches Ok(r) ==> *final($4) == *old($4) + sum_len(old(w).store.take(r@.end + 1)), // @C17
        ret is Err ==> ret->Err_0 is FlashRead || ret->Err_0 is WriteVerificationFailed || ret->Err_0 == LoadStoreError::<S::Error>::AppError(Error::InconsistentFlash),
        old(w).reliable && (exists|a: int, b: int| is_report(old(w).store, a, b, $2.seq@, $2.crc, $2.ct as int)) ==> ret is Ok,
@cancel
    assert(w.same(old(w)));
@loop 0
    invariant
        w.same(old(w)), w.wf(), $3@.len() == old($3)@.len(),
        ${total_items_seen_ctr} == w.cur, ${seq} == $2.seq,
        forall|i: int| 0 <= i < w.cur ==> !is_start(#[trigger] w.store[i], $2.seq@),
        *$4 == *old($4) + sum_len(w.store.take(w.cur)),
    decreases w.store.len() - w.cur,
@proof loop0.start
    lemma_sum_at(w.store, w.cur);
    lemma_verify_start(w.store, w.cur);
@loop 1
    invariant
        w.same(old(w)), w.wf(), $3@.len() == old($3)@.len(),
        ${total_items_seen_ctr} == w.cur, ${start_pos} < w.cur, ${seq} == $2.seq,
        forall|i: int| 0 <= i < ${start_pos} ==> !is_start(#[trigger] w.store[i], $2.seq@),
        is_start(w.store[${start_pos} as int], $2.seq@), all_data(w.store, ${start_pos} + 1, w.cur),
        ${crc}@ == kvs(w.store, ${start_pos} + 1, w.cur),
        ${data_items_consumed_ctr} == w.cur - ${start_pos} - 1,
        *$4 == *old($4) + sum_len(w.store.take(w.cur)),
    decreases w.store.len() - w.cur,
@proof loop1.start
    lemma_sum_at(w.store, w.cur);
    lemma_verify_step(w.store, ${start_pos} as int, w.cur, $2.seq@, $2.crc, $2.ct as int);
@endfn

# ---------------------------------------------------------------- operations
@fn StorageList::process_reads world props=C01,C05,C08,C13,C14,C15,C17,C18,C19,C20,C21
@attr verifier::spinoff_prover
@self &mut self
@contract
    requires old(w).wf(), !old(w).locked, old(self).seq().sys_ok(*old(w)),
    ensures
        final(w).wf(), final($2)@.len() == old($2)@.len(), final(self).same_list(old(self)),
        op_frame(*old(w), *final(w)), final(w).store == old(w).store,
        final(self).seq().sys_ok(*final(w)),
        final(self).seq() == old(self).seq() || (old(self).seq().next_seq is None && final(self).seq().scan_of(old(w).store)),
        match ret {
            Ok(c) => {
                &&& old(self).seq().next_seq is None ==> final(self).seq().scan_of(old(w).store)
                &&& read_done(*old(w), *final(w), final(self).seq().top())
                &&& !any_initial(*final(w))
            }
            Err(e) => (e is FlashRead || e is AppError) && read_part(*old(w), *final(w), final(self).seq().top()) && final(w).wakes == old(w).wakes,
        },
        // everybody who waits for a loaded value is told
        ret is Ok ==> woken(*old(w), *final(w), old(self).reading_done), // @C13 C24
        ret matches Ok(c) ==> {
                &&& c.total_bytes_read == (if old(self).seq().next_seq is None { sum_len(old(w).store) } else { 0 })
                        + sum_len(old(w).store.take(opt_end(final(self).seq().top())))
                &&& c.current_bytes_read == (match final(self).seq().top() {
                        Some(r) => sum_len(old(w).store.take(re(r))) - sum_len(old(w).store.take(rs(r) + 1)), None => 0 }) // @C17
        },
        old(w).reliable ==> ret is Ok,
@proof after:get_or_populate_latest#0
    lemma_scan_sys_ok(${inner}.seq_state, *w);
    lemma_sum_le(w.store, opt_end(${inner}.seq_state.top()));
@endfn

@fn StorageList::process_writes world props=C03,C04,C05,C08,C13,C15,C16,C17,C18,C19,C20,C21
@attr verifier::spinoff_prover
@self &mut self
@contract
    requires old(w).wf(), !old(w).locked, old(self).seq().sys_ok(*old(w)),
    ensures
        final(w).wf(), final($2)@.len() == old($2)@.len(), final(self).same_list(old(self)),
        op_frame(*old(w), *final(w)), final(w).val == old(w).val, final(w).wakes == old(w).wakes,
        final(self).seq().sys_ok(*final(w)),
        // refusals
        old(self).seq().next_seq is None ==> untouched(*old(w), *final(w)) && *final(self) == *old(self)
            && ret == Err::<ProcessWriteCounters, LoadStoreError<S::Error>>(LoadStoreError::AppError(Error::NeedsFirstRead)),
        old(self).seq().next_seq is Some && old(self).seq().needs_gc ==> untouched(*old(w), *final(w)) && *final(self) == *old(self)
            && ret == Err::<ProcessWriteCounters, LoadStoreError<S::Error>>(LoadStoreError::AppError(Error::NeedsGarbageCollect)),
        may_write(old(self).seq()) && any_initial(*old(w)) ==> untouched(*old(w), *final(w)) && *final(self) == *old(self)
            && ret == Err::<ProcessWriteCounters, LoadStoreError<S::Error>>(LoadStoreError::AppError(Error::NeedsFirstRead)),
        // nothing to save
        may_write(old(self).seq()) && !any_initial(*old(w)) && !any_unsaved(*old(w)) && old(self).seq().top() is Some ==>
            untouched(*old(w), *final(w)) && *final(self) == *old(self) && ret is Ok
            && ret->Ok_0.total_bytes_read == 0 && ret->Ok_0.current_bytes_written == 0,
        // a write
        will_write(old(self).seq(), *old(w)) ==> store_part_written(*old(w), *final(w), old(self).seq().next_seq->Some_0@),
        will_write(old(self).seq(), *old(w)) && ret is Ok ==>
            marked_saved(World { store: final(w).store, cur: final(w).cur, locked: final(w).locked, ..*old(w) }, *final(w)),
        will_write(old(self).seq(), *old(w)) ==> final(self).seq().needs_gc,
        will_write(old(self).seq(), *old(w)) && ret is Ok ==> {
            &&& final(self).seq().top() matches Some(r) && r.seq == old(self).seq().next_seq->Some_0
                    && is_report(final(w).store, rs(r), re(r), r.seq@, crc_of(flat(all_datas(*old(w)))), all_datas(*old(w)).len() as int)
        },
        will_write(old(self).seq(), *old(w)) && ret is Ok ==> (final(self).seq().top() matches Some(r) ==>
            ret->Ok_0.total_bytes_read == sum_len(final(w).store.take(re(r) + 1))), // @C17
        will_write(old(self).seq(), *old(w)) && ret is Ok && old(w).honest ==> {
            appended(old(w).store, final(w).store, old(self).seq().next_seq->Some_0@, all_datas(*old(w)), all_datas(*old(w)).len() as int + 2)
        },
        will_write(old(self).seq(), *old(w)) && ret is Ok && old(w).honest ==> {
            &&& ret->Ok_0.current_bytes_written == sum_len(final(w).store) - sum_len(old(w).store)
            &&& ret->Ok_0.total_bytes_read == sum_len(final(w).store) // @C17
        },
        will_write(old(self).seq(), *old(w)) && ret is Err ==> nodes_same(*old(w), *final(w))
            && final(self).seq().recs() == old(self).seq().recs() && final(self).seq().next_seq == old(self).seq().next_seq,
        will_write(old(self).seq(), *old(w)) && roomy(*old(w)) && fits(*old(w), old($2)@.len()) ==> ret is Ok,
        will_write(old(self).seq(), *old(w)) && roomy(*old(w)) && !fits(*old(w), old($2)@.len()) ==>
            ret is Err && ret->Err_0 == LoadStoreError::<S::Error>::AppError(Error::Serialization),
@proof before:write_to_flash#0
    assert(${inner}.seq_state.needs_gc);
    lemma_datas_same(*old(w), *w, w.order.len() as int);
    lemma_write_safe(old(self).seq(), ${inner}.seq_state, *old(w), *w, ${next_seq}@);
    // wherever the write is cut off, the state left behind is consistent
    assert forall|w2: World| #[trigger] part_written(*w, w2, ${next_seq}@) implies ${inner}.seq_state.sys_ok(w2) by {}
@proof after:write_to_flash#0
    lemma_written_report(*old(w), *w, ${next_seq}@);
    assert(${inner}.seq_state.sys_ok(*w));
@proof after:verify_list_in_flash#0
    lemma_written(old(self).seq(), *old(w), *w, ${next_seq}, ${range}@.start as int, ${range}@.end as int, ${rpt}.crc, ${rpt}.ct as int);
@proof before:insert_good#0
    assert(${inner}.seq_state.recs() == old(self).seq().recs());
@proof after:insert_good#0
    lemma_sum_at(w.store, w.store.len() as int);
    assert(${inner}.seq_state.sys_ok(*w));
@loop 0
    invariant
        0 <= ${__it1}.idx@ <= w.order.len(), w.locked, w.wf(),
        op_frame(*old(w), *w), w.val == old(w).val, w.wakes == old(w).wakes, $2@.len() == old($2)@.len(),
        ${inner}.seq_state.sys_ok(*w),
        store_part_written(*old(w), *w, ${next_seq}@),
        ${inner}.seq_state.top() matches Some(r) && r.seq == ${next_seq}
            && is_report(w.store, rs(r), re(r), r.seq@, crc_of(flat(all_datas(*old(w)))), all_datas(*old(w)).len() as int)
            && ${total_bytes_read} == sum_len(w.store.take(re(r) + 1)),
        old(w).honest ==> {
            &&& appended(old(w).store, w.store, ${next_seq}@, all_datas(*old(w)), all_datas(*old(w)).len() as int + 2)
            &&& ${rpt}.bytes_written == sum_len(w.store) - sum_len(old(w).store)
            &&& ${total_bytes_read} == sum_len(w.store)
        },
        forall|n: nat| #[trigger] w.su.dom().contains(n) ==>
            w.su[n] == (if w.order.take(${__it1}.idx@).contains(n) && old(w).live(n) { 2u8 } else { old(w).su[n] }),
    decreases w.order.len() - ${__it1}.idx@,
@proof loop0.start
    lemma_take_contains(w.order, ${__it1}.idx@);
@endfn

@fn StorageList::process_garbage world props=C06,C07,C08,C13,C14,C15,C17,C19,C20,C21
@attr verifier::spinoff_prover
@self &mut self
@hide SeqState::sys_ok filt coll good_at cover
@contract
    requires old(w).wf(), !old(w).locked, old(self).seq().sys_ok(*old(w)),
    ensures
        final(w).wf(), final($2)@.len() == old($2)@.len(), final(self).same_list(old(self)),
        op_frame(*old(w), *final(w)), nodes_same(*old(w), *final(w)), final(w).wakes == old(w).wakes,
        final(self).seq().sys_ok(*final(w)),
        !old(self).seq().needs_gc ==> untouched(*old(w), *final(w)) && *final(self) == *old(self) && ret is Ok
            && ret->Ok_0.total_bytes_read == 0 && ret->Ok_0.post_collection_bytes_read == 0 && ret->Ok_0.total_bytes_popped == 0,
        old(self).seq().needs_gc ==> part_collected(old(w).store, old(self).seq().recs(), final(w).store),
        old(self).seq().needs_gc && ret is Err ==> final(self).seq().fresh(),
        old(self).seq().needs_gc && ret is Ok ==> {
            &&& final(w).store == filt(old(w).store, old(self).seq().recs(), old(w).store.len() as int)
            &&& kept(final(self).seq().recs(), final(w).store, final(w).store.len() as int)
            &&& !final(self).seq().needs_gc
            &&& nz(final(self).seq().next_seq) == (match final(self).seq().top() { Some(r) => next_of(r), None => Some(1u32) })
        },
        old(self).seq().needs_gc && ret is Ok ==> {
            &&& ret->Ok_0.post_collection_bytes_read == sum_len(final(w).store)
            &&& ret->Ok_0.total_bytes_read == sum_len(old(w).store) + sum_len(final(w).store)
            &&& ret->Ok_0.total_bytes_popped == sum_len(old(w).store) - sum_len(final(w).store) // @C17
        },
        old(w).reliable ==> ret is Ok,
@closure 0 b: bool
 ensures b == in_recs(${cur_seq_state}.recs(), $c0 as int)
@closure 1 b: bool
 ensures !$c0.range@.exhausted ==> b == (rs(*$c0) <= ${n} <= re(*$c0))
@loop 0
    invariant
        op_frame(*old(w), *w), nodes_same(*old(w), *w), w.wakes == old(w).wakes, w.wf(), $2@.len() == old($2)@.len(), !w.locked,
        0 <= ${idx} <= old(w).store.len(),
        w.store == coll(old(w).store, old(self).seq().recs(), ${idx} as int),
        w.cur == filt(old(w).store, old(self).seq().recs(), ${idx} as int).len(),
        ${total_bytes_read} == sum_len(old(w).store.take(${idx} as int)),
        ${total_bytes_popped} == sum_len(old(w).store.take(${idx} as int)) - sum_len(filt(old(w).store, old(self).seq().recs(), ${idx} as int)),
        self.seq().fresh(), self.same_list(old(self)),
    decreases w.store.len() - w.cur,
@proof entry
    lemma_coll_step(old(w).store, old(self).seq().recs(), 0);
    lemma_ranges_ok(old(self).seq(), *old(w));
@proof before:iter_elems#0
    lemma_fresh_all(self.seq());
@proof loop0.start
    lemma_coll_step(old(w).store, old(self).seq().recs(), ${idx} as int);
@proof before:get_or_populate_latest#0
    lemma_fresh_sys_ok(${inner}.seq_state, *w);
@proof after:get_or_populate_latest#0
    lemma_gc_done(old(self).seq(), *old(w), ${inner}.seq_state, *w);
@endfn

@fn StorageList::reset_cache world props=C08,C18
@self &mut self
@contract
    requires old(w).wf(), !old(w).locked, KEPT_RECORDS > 0,
    ensures
        final(w).wf(), untouched(*old(w), *final(w)), final(self).same_list(old(self)), final(self).seq().fresh(),
        final(self).seq().sys_ok(*final(w)),
@proof entry
    lemma_fresh_any::<KEPT_RECORDS>(*w);
@endfn

# ---------------------------------------------------------------- the default worker
@fn StorageList::needs_read world props=C24
@contract
    // completes by taking a signal of its own queue, and does nothing else
    ensures waited(*old(w), *final(w), self.needs_read), // @C24
@endfn
@fn StorageList::needs_write world props=C24
@contract
    // completes by taking a signal of its own queue, and does nothing else
    ensures waited(*old(w), *final(w), self.needs_write), // @C24
@endfn
@fn default_worker_task world props=C19,C21
@attr verifier::exec_allows_no_decreases_clause
@generics <R: ScopedRawMutex, S: NdlDataStorage, T, const KEPT_RECORDS: usize>
@where -
@param 1 => &mut StorageList<R, KEPT_RECORDS>
@param 3 => XStopper<T>
@contract
    requires idle(old($1).seq(), *old(w)),
    ensures
        idle(final($1).seq(), *final(w)),
        // whatever went before the stop: if the storage works from then on, nothing stays unsaved
        old(w).reliable && fits(*final(w), old($4)@.len()) ==> !any_unsaved(*final(w)),
@cancel
    assert(idle($1.seq(), *w));
@async
    x_interrupted(Tracked(w), $1, $4);
@loop *
    invariant idle($1.seq(), *w), $4@.len() == old($4)@.len(), w.reliable == old(w).reliable,
@endfn
@fn no_op_worker_task world props=C19,C25
@attr verifier::exec_allows_no_decreases_clause
@generics <R: ScopedRawMutex, S: NdlDataStorage, const KEPT_RECORDS: usize>
@where -
@param 1 => &mut StorageList<R, KEPT_RECORDS>
@subst AlwaysEmptyFlash => x_always_empty :: <S> ()
@subst & mut [] => x_no_buf ()
@contract
    requires idle(old($1).seq(), *old(w)), always_empty(*old(w)),
@loop 0
    invariant idle($1.seq(), *w), always_empty(*w),
@proof loop0.start
    axiom_others_run(w, $1.seq());
@proof loop0.end
    assert(!any_initial(*w)); // @C25
@endfn


// ------------------------------------------------------------------------------------------
// assumed contracts of the list layer's surroundings
// ------------------------------------------------------------------------------------------
pub trait ScopedRawMutex {}
pub trait ConstInit {}

/// the async mutex: sequential semantics (no other task runs while an operation is in progress)
pub struct Mutex<T, R> { pub v: T, pub r: Option<R> }
impl<T, R> Mutex<T, R> {
    #[verifier::external_body]
    pub fn lock(&mut self, Tracked(w): Tracked<&mut World>) -> (r: &mut T)
        requires !old(w).locked,
        ensures
            *r == old(self).v, *final(r) == final(self).v, final(self).r == old(self).r,
            *final(w) == (World { locked: true, ..*old(w) }),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_unlock(Tracked(w): Tracked<&mut World>)
    ensures *final(w) == (World { locked: false, ..*old(w) }),
{ unimplemented!() }

pub struct Closed;
pub struct WaitQueue { pub id: Ghost<nat> }
impl WaitQueue {
    #[verifier::external_body]
    pub fn wait(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Closed>)
        ensures *final(w) == (World { waits: old(w).waits.insert(self.id@, old(w).waits[self.id@] + 1), ..*old(w) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn wake_all(&self, Tracked(w): Tracked<&mut World>)
        ensures *final(w) == (World { wakes: old(w).wakes.insert(self.id@, old(w).wakes[self.id@] + 1), ..*old(w) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn wake(&self, Tracked(w): Tracked<&mut World>)
        ensures *final(w) == (World { wakes: old(w).wakes.insert(self.id@, old(w).wakes[self.id@] + 1), ..*old(w) }),
    { unimplemented!() }
}

pub struct AtomicU8 { pub id: Ghost<nat> }
impl AtomicU8 {
    #[verifier::external_body]
    pub fn load(&self, Tracked(w): Tracked<&mut World>, o: Ordering) -> (r: u8)
        requires old(w).su.dom().contains(self.id@),
        ensures *final(w) == *old(w), r == old(w).su[self.id@],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, Tracked(w): Tracked<&mut World>, v: u8, o: Ordering)
        requires old(w).su.dom().contains(self.id@),
        ensures *final(w) == (World { su: old(w).su.insert(self.id@, v), ..*old(w) }),
    { unimplemented!() }
}
pub trait XOptExt<T>: Sized {
    spec fn oview(&self) -> Option<T>;
    fn x_unwrap_unchecked(self) -> (r: T)
        requires self.oview() is Some,
        ensures r == self.oview()->Some_0;
}
impl<T> XOptExt<T> for Option<T> {
    open spec fn oview(&self) -> Option<T> { *self }
    fn x_unwrap_unchecked(self) -> (r: T) { self.unwrap() }
}

pub struct XLinks {}
pub struct NonNull<T> { pub id: Ghost<nat>, pub ph: core::marker::PhantomData<T> }
impl<T> NonNull<T> {
    pub fn cast<U>(self) -> (r: NonNull<U>)
        ensures r.id == self.id,
    { NonNull { id: self.id, ph: core::marker::PhantomData } }
}
impl<T> Clone for NonNull<T> {
    fn clone(&self) -> (r: Self) ensures r.id == self.id { NonNull { id: self.id, ph: core::marker::PhantomData } }
}
impl<T> Copy for NonNull<T> {}
impl NonNull<NodeHeader> {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &NodeHeader)
        ensures hdr_is(*r, self.id@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ptr(&self) -> (r: &NodeHeader)
        ensures hdr_is(*r, self.id@),
    { unimplemented!() }
}
pub struct Node<T> { pub ph: core::marker::PhantomData<T> }

pub open spec fn hdr_is(h: NodeHeader, n: nat) -> bool {
    h.state.inner.id@ == n && h.key@ == nkey(n) && h.vtable.id@ == n
}
#[derive(Clone, Copy)]
pub struct VTable { pub id: Ghost<nat> }
impl VTable {
    #[verifier::external_body]
    pub fn call_serialize(&self, Tracked(w): Tracked<&mut World>, node: NonNull<Node<()>>, buf: &mut [u8]) -> (r: Result<usize, ()>)
        requires self.id@ == node.id@, ser_pre(*old(w), node.id@),
        ensures ser_post(*old(w), *final(w), node.id@, old(buf)@, final(buf)@, match r { Ok(n) => Some(n as nat), Err(_) => None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn call_deserialize(&self, Tracked(w): Tracked<&mut World>, node: NonNull<Node<()>>, buf: &[u8]) -> (r: Result<usize, ()>)
        requires self.id@ == node.id@, deser_pre(*old(w), node.id@),
        ensures deser_post(*old(w), *final(w), node.id@, buf@, r is Ok),
    { unimplemented!() }
}

/// the intrusive list: its contents are `World::order`
pub struct List<T> { pub ph: core::marker::PhantomData<T> }
pub struct NodeIter<'a, T> { pub idx: Ghost<int>, pub ph: core::marker::PhantomData<&'a T> }
pub struct IterRaw<'a, T> { pub idx: Ghost<int>, pub ph: core::marker::PhantomData<&'a T> }
impl<T> List<T> {
    pub fn x_iter(&self) -> (r: NodeIter<'_, T>)
        ensures r.idx@ == 0,
    { NodeIter { idx: Ghost(0), ph: core::marker::PhantomData } }
    pub fn iter_raw(&self) -> (r: IterRaw<'_, T>)
        ensures r.idx@ == 0,
    { IterRaw { idx: Ghost(0), ph: core::marker::PhantomData } }
}
impl<'a> NodeIter<'a, NodeHeader> {
    #[verifier::external_body]
    pub fn next(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Option<&'a NodeHeader>)
        requires 0 <= old(self).idx@ <= old(w).order.len(), old(w).locked,
        ensures
            *final(w) == *old(w),
            old(self).idx@ == old(w).order.len() ==> r is None && final(self).idx@ == old(self).idx@,
            old(self).idx@ < old(w).order.len() ==> (r matches Some(h) && hdr_is(*h, old(w).order[old(self).idx@]))
                && final(self).idx@ == old(self).idx@ + 1,
    { unimplemented!() }
}
impl<'a> IterRaw<'a, NodeHeader> {
    #[verifier::external_body]
    pub fn next(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Option<NonNull<NodeHeader>>)
        requires 0 <= old(self).idx@ <= old(w).order.len(), old(w).locked,
        ensures
            *final(w) == *old(w),
            old(self).idx@ == old(w).order.len() ==> r is None && final(self).idx@ == old(self).idx@,
            old(self).idx@ < old(w).order.len() ==> (r matches Some(p) && p.id@ == old(w).order[old(self).idx@])
                && final(self).idx@ == old(self).idx@ + 1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn x_find<F: FnMut(&NonNull<NodeHeader>) -> bool>(&mut self, Tracked(w): Tracked<&mut World>, f: F) -> (r: Option<NonNull<NodeHeader>>)
        requires
            old(self).idx@ == 0, old(w).locked,
            forall|p: NonNull<NodeHeader>| f.requires((&p,)),
        ensures
            *final(w) == *old(w),
            match r {
                Some(p) => exists|i: int| 0 <= i < old(w).order.len() && #[trigger] old(w).order[i] == p.id@ && f.ensures((&p,), true),
                None => forall|i: int| 0 <= i < old(w).order.len() ==>
                    exists|p: NonNull<NodeHeader>| p.id@ == #[trigger] old(w).order[i] && f.ensures((&p,), false),
            },
    { unimplemented!() }
}

// minicbor's slice cursor and encoder
pub struct EncodeError {}
pub mod minicbor { pub mod encode { pub type Error<T> = super::super::XEncErr<T>; } }
pub struct XEncErr<T> { pub ph: core::marker::PhantomData<T> }
pub struct EndOfSlice {}
pub struct Cursor<'a> { pub b: &'a mut [u8], pub pos: usize }
impl<'a> Cursor<'a> {
    #[verifier::external_body]
    pub fn new(b: &'a mut [u8]) -> (r: Self)
        ensures r.pos == 0, r.b@ == old(b)@, final(r.b)@ == final(b)@,
    { unimplemented!() }
    pub fn position(&self) -> (r: usize)
        ensures r == self.pos,
    { self.pos }
}
#[verifier::external_body]
pub fn x_encode_key<'a, 'c>(k: &str, c: &'c mut Cursor<'a>) -> (r: Result<(), XEncErr<EndOfSlice>>)
    requires old(c).pos <= old(c).b@.len(),
    ensures
        final(c).b@.len() == old(c).b@.len(), final(final(c).b)@ == final(old(c).b)@,
        match r {
            Ok(_) => final(c).pos == old(c).pos + enc_key(k@).len() && final(c).pos <= final(c).b@.len()
                && final(c).b@.subrange(old(c).pos as int, final(c).pos as int) == enc_key(k@)
                && final(c).b@.take(old(c).pos as int) == old(c).b@.take(old(c).pos as int),
            Err(_) => old(c).pos + enc_key(k@).len() > old(c).b@.len(),
        },
{ unimplemented!() }
#[verifier::external_body]
pub fn x_decode_key<'b>(b: &'b [u8]) -> (r: Result<&'b str, XEncErr<()>>)
    ensures
        match r { Ok(s) => dec_key(b@) == Some(s@), Err(_) => dec_key(b@) is None },
{ unimplemented!() }
#[verifier::external_body]
pub fn x_len_with_key(k: &str, c: &mut ()) -> (r: usize)
    ensures r == enc_key(k@).len(),
{ unimplemented!() }

// the crc crate's digest
pub struct XDigest { pub s: Ghost<Seq<u8>> }
impl View for XDigest { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.s@ } }
#[verifier::external_body]
pub fn x_digest() -> (r: XDigest) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
impl XDigest {
    #[verifier::external_body]
    pub fn update(&mut self, d: &[u8]) ensures final(self)@ == old(self)@ + d@ { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> (r: u32) ensures r == crc_of(self@) { unimplemented!() }
}
impl View for Crc32 { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.0@ } }

// derived implementations
impl<const KEPT_RECORDS: usize> Clone for SeqState<KEPT_RECORDS> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for GoodWriteRecord {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

// ------------------------------------------------------------------------------------------
// vocabulary of the list layer
// ------------------------------------------------------------------------------------------
pub open spec fn rkey(r: Option<GoodWriteRecord>) -> int { match r { Some(x) => x.seq@ as int, None => 0 } }
pub open spec fn rs(r: GoodWriteRecord) -> int { r.range@.start as int }
pub open spec fn re(r: GoodWriteRecord) -> int { r.range@.end as int }
pub open spec fn is_good_rec(s: Seq<GItem>, r: GoodWriteRecord) -> bool {
    !r.range@.exhausted && good_at(s, rs(r), re(r)) && seq_of(s[rs(r)]) == r.seq@
}
pub type Recs = Seq<Option<GoodWriteRecord>>;
pub open spec fn sorted(recs: Recs) -> bool {
    forall|i: int, j: int| 0 <= i < j < recs.len() ==> rkey(#[trigger] recs[i]) <= rkey(#[trigger] recs[j])
}
/// every remembered record is a valid record of the storage, at exactly that position, once
pub open spec fn rec_ok(recs: Recs, s: Seq<GItem>, u: int) -> bool {
    &&& 0 <= u <= s.len()
    &&& sorted(recs)
    &&& forall|i: int| 0 <= i < recs.len() && (#[trigger] recs[i]) is Some ==> is_good_rec(s, recs[i]->Some_0) && re(recs[i]->Some_0) < u
    &&& forall|i: int, j: int| 0 <= i < j < recs.len() && (#[trigger] recs[i]) is Some && (#[trigger] recs[j]) is Some ==> re(recs[i]->Some_0) != re(recs[j]->Some_0)
}
pub open spec fn holds(recs: Recs, a: int, b: int) -> bool {
    exists|i: int| 0 <= i < recs.len() && (#[trigger] recs[i]) is Some && rs(recs[i]->Some_0) == a && re(recs[i]->Some_0) == b
}
/// no valid record among the first u items is newer than a remembered one, and none is
/// forgotten while there is room
pub open spec fn dominated(recs: Recs, q: u32) -> bool {
    forall|i: int| 0 <= i < recs.len() ==> (#[trigger] recs[i]) is Some && rkey(recs[i]) >= q
}
pub open spec fn cover(recs: Recs, s: Seq<GItem>, u: int) -> bool {
    forall|a: int, b: int| #[trigger] good_at(s, a, b) && b < u && !holds(recs, a, b) ==> dominated(recs, seq_of(s[a]))
}
/// the remembered records are the K newest valid ones of the first u items
pub open spec fn kept(recs: Recs, s: Seq<GItem>, u: int) -> bool { rec_ok(recs, s, u) && cover(recs, s, u) }

pub open spec fn next_of(r: GoodWriteRecord) -> Option<u32> {
    if r.seq@ == u32::MAX { None } else { Some((r.seq@ + 1) as u32) }
}
pub open spec fn nz(o: Option<NonZeroU32>) -> Option<u32> { match o { Some(x) => Some(x@), None => None } }

impl<const KEPT_RECORDS: usize> SeqState<KEPT_RECORDS> {
    pub open spec fn recs(&self) -> Recs { self.last_records@ }
    pub open spec fn top(&self) -> Option<GoodWriteRecord> { self.last_records@[KEPT_RECORDS - 1] }
    pub open spec fn fresh(&self) -> bool {
        self.next_seq is None && !self.needs_gc && forall|i: int| 0 <= i < KEPT_RECORDS ==> (#[trigger] self.last_records@[i]) is None
    }
    /// consistent with having recorded exactly the records it holds
    pub open spec fn tracks(&self) -> bool {
        match self.top() {
            Some(r) => nz(self.next_seq) == next_of(r) && self.needs_gc,
            None => self.fresh(),
        }
    }
    /// the result of a complete scan of s
    pub open spec fn scan_of(&self, s: Seq<GItem>) -> bool {
        &&& kept(self.recs(), s, s.len() as int)
        &&& match self.top() {
            Some(r) => nz(self.next_seq) == next_of(r) && self.needs_gc,
            None => nz(self.next_seq) == Some(1u32) && (self.needs_gc <==> s.len() > 0),
        }
    }
    /// invariant between operations: the remembered records are where they are said to be;
    /// on a well-behaved storage they are the newest ones, the next number is fresh, and unless a
    /// collection is due nothing in storage carries that number
    pub open spec fn sys_ok(&self, w: World) -> bool {
        &&& KEPT_RECORDS > 0
        &&& sorted(self.recs())
        &&& exists|u: int| #[trigger] rec_ok(self.recs(), w.store, u) && (w.honest ==> cover(self.recs(), w.store, u))
        &&& self.next_seq matches Some(ns) ==> forall|i: int| 0 <= i < KEPT_RECORDS ==> rkey(#[trigger] self.recs()[i]) < ns@
        &&& self.next_seq is None ==> self.fresh() || (self.top() matches Some(r) && r.seq@ == u32::MAX)
        &&& w.honest && !self.needs_gc ==> (self.next_seq matches Some(ns) ==> {
            &&& cover(self.recs(), w.store, w.store.len() as int)
            &&& forall|p: int| 0 <= p < w.store.len() && is_any_start(#[trigger] w.store[p]) ==> seq_of(w.store[p]) < ns@
        })
    }
}

// ---- node states
pub open spec fn is_attached(w: World, n: nat) -> bool { w.order.contains(n) }
/// all nodes keep their value and everything but the states of nodes is unchanged
pub open spec fn only_su(w0: World, w1: World) -> bool {
    w1 == (World { su: w1.su, ..w0 }) && w1.su.dom() =~= w0.su.dom()
}
/// waiting nodes are marked non-resident; nothing else changes
pub open spec fn marked_nonres(w0: World, w1: World) -> bool {
    only_su(w0, w1)
    && forall|n: nat| #[trigger] w0.su.dom().contains(n) ==>
        w1.su[n] == (if is_attached(w0, n) && w0.su[n] == 0 { 1u8 } else { w0.su[n] })
}
/// saved nodes are marked saved; nothing else changes
pub open spec fn marked_saved(w0: World, w1: World) -> bool {
    only_su(w0, w1)
    && forall|n: nat| #[trigger] w0.su.dom().contains(n) ==>
        w1.su[n] == (if is_attached(w0, n) && w0.live(n) { 2u8 } else { w0.su[n] })
}
pub open spec fn any_initial(w: World) -> bool { exists|i: int| 0 <= i < w.order.len() && w.su[#[trigger] w.order[i]] == 0 }
pub open spec fn any_unsaved(w: World) -> bool { exists|i: int| 0 <= i < w.order.len() && w.su[#[trigger] w.order[i]] == 3 }

// ---- loading
/// body of the first data element of s[a..b] under a key
pub open spec fn first_kv(s: Seq<GItem>, a: int, b: int, key: Seq<char>) -> Option<Seq<u8>> decreases b - a {
    if b <= a { None } else {
        match first_kv(s, a, b - 1, key) {
            Some(x) => Some(x),
            None => match split_kv(kv_of(s[b - 1])) { Some((k, v)) => if k == key { Some(v) } else { None }, None => None },
        }
    }
}
/// (state, value) of a node that was waiting for its first read, after reading s[a..b]
pub open spec fn load_of(s: Seq<GItem>, a: int, b: int, n: nat, v0: Option<GVal>) -> (u8, Option<GVal>) {
    match first_kv(s, a, b, nkey(n)) {
        None => (0, v0),
        Some(x) => match dec(nkind(n), x) { Some(v) => (2, Some(v)), None => (1, v0) },
    }
}
/// only node states and values (and the iterator) differ, for the same nodes
pub open spec fn only_su_val(w0: World, w1: World) -> bool {
    w1 == (World { su: w1.su, val: w1.val, cur: w1.cur, ..w0 }) && w1.su.dom() =~= w0.su.dom() && w1.val.dom() =~= w0.val.dom()
}
/// every waiting node has what s[a..b] holds for its key, all other nodes are untouched
pub open spec fn loaded(w0: World, w1: World, a: int, b: int) -> bool {
    only_su_val(w0, w1)
    && forall|n: nat| #[trigger] w0.su.dom().contains(n) ==> (
        if is_attached(w0, n) && w0.su[n] == 0 { w1.su[n] == load_of(w0.store, a, b, n, w0.val[n]).0 && w1.val[n] == load_of(w0.store, a, b, n, w0.val[n]).1 }
        else { w1.su[n] == w0.su[n] && w1.val[n] == w0.val[n] })
}

/// every waiting node still waits or has what s[a..b] holds for its key; all other nodes are untouched
pub open spec fn part_loaded(w0: World, w1: World, a: int, b: int) -> bool {
    only_su_val(w0, w1)
    && forall|n: nat| #[trigger] w0.su.dom().contains(n) ==>
        (w1.su[n] == w0.su[n] && w1.val[n] == w0.val[n])
        || (is_attached(w0, n) && w0.su[n] == 0 && w1.su[n] == load_of(w0.store, a, b, n, w0.val[n]).0 && w1.val[n] == load_of(w0.store, a, b, n, w0.val[n]).1)
}

// ---- writing
pub open spec fn node_bytes(w: World, n: nat) -> Seq<u8> { enc_key(nkey(n)) + enc(w.val[n]->Some_0) }
/// payloads of the data elements for the first i attached nodes
pub open spec fn datas(w: World, i: int) -> Seq<Seq<u8>> decreases i {
    if i <= 0 { Seq::empty() }
    else if w.live(w.order[i - 1]) { datas(w, i - 1).push(node_bytes(w, w.order[i - 1])) }
    else { datas(w, i - 1) }
}
pub open spec fn all_datas(w: World) -> Seq<Seq<u8>> { datas(w, w.order.len() as int) }
pub open spec fn flat(ds: Seq<Seq<u8>>) -> Seq<u8> decreases ds.len() {
    if ds.len() == 0 { Seq::empty() } else { flat(ds.drop_last()) + ds.last() }
}
/// i-th element of the record of payloads ds
pub open spec fn rec_elem(q: u32, ds: Seq<Seq<u8>>, i: int) -> GElem {
    if i <= 0 { GElem::Start(q) } else if i <= ds.len() { GElem::Data(ds[i - 1]) } else { GElem::End(q, crc_of(flat(ds))) }
}
/// s1 is s0 followed by the first k elements of the record
pub open spec fn appended(s0: Seq<GItem>, s1: Seq<GItem>, q: u32, ds: Seq<Seq<u8>>, k: int) -> bool {
    &&& 0 <= k <= ds.len() + 2
    &&& s1.len() == s0.len() + k
    &&& forall|i: int| 0 <= i < k ==> (#[trigger] s1[s0.len() + i]).e == Some(rec_elem(q, ds, i))
}
/// a write with number q is under way: nothing but the storage differs, which kept everything it
/// had and, unless it misbehaves, gained a prefix of the new record
pub open spec fn part_written(w0: World, w: World, q: u32) -> bool {
    &&& w == (World { store: w.store, cur: w.cur, ..w0 })
    &&& w.store_wf()
    &&& w0.store.len() <= w.store.len() && w.store.take(w0.store.len() as int) == w0.store
    &&& w0.honest ==> appended(w0.store, w.store, q, all_datas(w0), w.store.len() - w0.store.len())
}
/// header byte, key and value of every node that has a value fit into n bytes
pub open spec fn fits_upto(w: World, i: int, n: nat) -> bool {
    forall|j: int| 0 <= j < i && w.live(#[trigger] w.order[j]) ==> 1 + node_bytes(w, w.order[j]).len() <= n
}
pub open spec fn fits(w: World, n: nat) -> bool { fits_upto(w, w.order.len() as int, n) }

// `?` converts errors with `From::from`; the implementation is checked against the same statement
pub mod qm { use super::*;
pub broadcast axiom fn axiom_question_mark<T>(v: Error, r: LoadStoreError<T>)
    requires #[trigger] vstd::std_specs::control_flow::spec_from::<LoadStoreError<T>, Error>(v, r),
    ensures r == LoadStoreError::<T>::AppError(v);
}
broadcast use qm::axiom_question_mark;
impl<T> vstd::std_specs::convert::FromSpecImpl<Error> for LoadStoreError<T> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Error) -> Self { LoadStoreError::AppError(v) }
}

/// s[a..=b] is the record that was meant to be written, and no earlier start carries its number
pub open spec fn is_report(s: Seq<GItem>, a: int, b: int, q: u32, crc: u32, ct: int) -> bool {
    &&& 0 <= a < b < s.len()
    &&& is_start(s[a], q) && all_data(s, a + 1, b) && s[b].e == Some(GElem::End(q, crc))
    &&& crc_of(kvs(s, a + 1, b)) == crc && b - a - 1 == ct
    &&& forall|i: int| 0 <= i < a ==> !is_start(#[trigger] s[i], q)
}

// ---- whole operations
/// number of nodes, their order and the constants of the world are untouched
pub open spec fn op_frame(w0: World, w1: World) -> bool {
    w1 == (World { store: w1.store, cur: w1.cur, su: w1.su, val: w1.val, wakes: w1.wakes, locked: w1.locked, ..w0 })
    && w1.su.dom() =~= w0.su.dom() && w1.val.dom() =~= w0.val.dom()
}
/// no node changed
pub open spec fn nodes_same(w0: World, w1: World) -> bool { w1.su == w0.su && w1.val == w0.val }
/// what a read pass gives a node that was waiting: the newest record's value, or "not resident"
pub open spec fn read_of(s: Seq<GItem>, l: Option<GoodWriteRecord>, n: nat, v0: Option<GVal>) -> (u8, Option<GVal>) {
    match l {
        None => (1, v0),
        Some(r) => {
            let x = load_of(s, rs(r) + 1, re(r), n, v0);
            if x.0 == 0 { (1, v0) } else { x }
        }
    }
}
/// the effect of a successful read pass on the nodes
pub open spec fn read_done(w0: World, w1: World, l: Option<GoodWriteRecord>) -> bool {
    forall|n: nat| #[trigger] w0.su.dom().contains(n) ==> (
        if is_attached(w0, n) && w0.su[n] == 0 { w1.su[n] == read_of(w0.store, l, n, w0.val[n]).0 && w1.val[n] == read_of(w0.store, l, n, w0.val[n]).1 }
        else { w1.su[n] == w0.su[n] && w1.val[n] == w0.val[n] })
}
/// the effect of an interrupted or failed read pass: every node is as before or as after a successful one
pub open spec fn read_part(w0: World, w1: World, l: Option<GoodWriteRecord>) -> bool {
    forall|n: nat| #[trigger] w0.su.dom().contains(n) ==>
        (w1.su[n] == w0.su[n] && w1.val[n] == w0.val[n])
        || (is_attached(w0, n) && w0.su[n] == 0 && w1.su[n] == read_of(w0.store, l, n, w0.val[n]).0 && w1.val[n] == read_of(w0.store, l, n, w0.val[n]).1)
}
pub open spec fn opt_end(l: Option<GoodWriteRecord>) -> int { match l { Some(r) => re(r) + 1, None => 0 } }
impl<R: ScopedRawMutex, const K: usize> StorageList<R, K> {
    pub open spec fn seq(&self) -> SeqState<K> { self.inner.v.seq_state }
    /// everything but the cache is untouched
    pub open spec fn same_list(&self, o: &Self) -> bool {
        self.inner.v.list == o.inner.v.list && self.inner.r == o.inner.r
        && self.needs_read == o.needs_read && self.needs_write == o.needs_write && self.reading_done == o.reading_done
    }
}
pub open spec fn waited(w0: World, w1: World, q: WaitQueue) -> bool { w1 == (World { waits: w0.waits.insert(q.id@, w0.waits[q.id@] + 1), ..w0 }) }
pub open spec fn woken(w0: World, w1: World, q: WaitQueue) -> bool { w1.wakes == w0.wakes.insert(q.id@, w0.wakes[q.id@] + 1) }

/// nothing at all happened (apart from taking the lock and moving the iterator)
pub open spec fn untouched(w0: World, w1: World) -> bool { w1 == (World { cur: w1.cur, locked: w1.locked, ..w0 }) }
pub open spec fn prefix_of(s0: Seq<GItem>, s1: Seq<GItem>) -> bool { s0.len() <= s1.len() && s1.take(s0.len() as int) == s0 }
/// the storage gained (a prefix of) the record numbered q of the node values in w0, nothing else
pub open spec fn store_part_written(w0: World, w1: World, q: u32) -> bool {
    prefix_of(w0.store, w1.store)
    && (w0.honest ==> appended(w0.store, w1.store, q, all_datas(w0), w1.store.len() - w0.store.len()))
}

/// a write pass is permitted by the cache
pub open spec fn may_write<const K: usize>(st: SeqState<K>) -> bool { st.next_seq is Some && !st.needs_gc }
/// the storage works and has room for a complete record
pub open spec fn roomy(w: World) -> bool { w.reliable && w.store.len() + w.order.len() + 2 <= w.slots }
/// a permitted write pass has something to write
pub open spec fn will_write<const K: usize>(st: SeqState<K>, w: World) -> bool {
    may_write(st) && !any_initial(w) && (any_unsaved(w) || st.top() is None)
}

// ---- garbage collection
/// does position p belong to a remembered record?
pub open spec fn in_recs(recs: Recs, p: int) -> bool {
    exists|k: int| 0 <= k < recs.len() && (#[trigger] recs[k]) is Some && rs(recs[k]->Some_0) <= p <= re(recs[k]->Some_0)
}
pub open spec fn keep(o: Seq<GItem>, recs: Recs, p: int) -> bool { o[p].e is Some && in_recs(recs, p) }
/// what a collection keeps of the first i items
pub open spec fn filt(o: Seq<GItem>, recs: Recs, i: int) -> Seq<GItem> decreases i {
    if i <= 0 { Seq::empty() } else if keep(o, recs, i - 1) { filt(o, recs, i - 1).push(o[i - 1]) } else { filt(o, recs, i - 1) }
}
/// storage while a collection has dealt with the first i items
pub open spec fn coll(o: Seq<GItem>, recs: Recs, i: int) -> Seq<GItem> { filt(o, recs, i) + o.skip(i) }
pub open spec fn part_collected(o: Seq<GItem>, recs: Recs, s: Seq<GItem>) -> bool {
    exists|i: int| 0 <= i <= o.len() && s == #[trigger] coll(o, recs, i)
}

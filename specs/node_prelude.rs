
// ------------------------------------------------------------------------------------------
// Node layer: surroundings of storage_node.rs.  Other tasks run wherever the code waits (taking the
// lock, waiting for a value) and may drop handles at any time; they are assumed to do only what
// `interfered` and `raced` allow, and every function here is obliged to do nothing else
// (`ptr_ok`, the requirements of the primitives, and the lock invariant `quiet` at every release).
// ------------------------------------------------------------------------------------------
pub trait ScopedRawMutex {}
pub trait MaybeDefmtFormat {}
/// a value type: Encode + Decode + CborLen + Clone + Default, reduced to what the code relies on
pub trait XVal: MaybeDefmtFormat + Sized + 'static {
    spec fn gval(&self) -> GVal;
    spec fn kind() -> nat;
    spec fn dflt() -> GVal;
    fn x_clone(&self) -> (r: Self)
        ensures r.gval() == self.gval();
    fn x_default() -> (r: Self)
        ensures r.gval() == Self::dflt();
}
pub fn x_default<T: XVal>() -> (r: T)
    ensures r.gval() == T::dflt(),
{ T::x_default() }
/// minicbor on values: decoding inverts encoding where it succeeds, CborLen is the encoded length
#[verifier::external_body]
pub fn x_encode<'a, 'c, T: XVal>(v: &T, c: &'c mut Cursor<'a>) -> (r: Result<(), XEncErr<EndOfSlice>>)
    requires old(c).pos <= old(c).b@.len(),
    ensures
        final(c).b@.len() == old(c).b@.len(), final(final(c).b)@ == final(old(c).b)@,
        match r {
            Ok(_) => final(c).pos == old(c).pos + enc(v.gval()).len() && final(c).pos <= final(c).b@.len()
                && final(c).b@.subrange(old(c).pos as int, final(c).pos as int) == enc(v.gval())
                && final(c).b@.take(old(c).pos as int) == old(c).b@.take(old(c).pos as int),
            Err(_) => old(c).pos + enc(v.gval()).len() > old(c).b@.len(),
        },
{ unimplemented!() }
#[verifier::external_body]
pub fn x_decode<T: XVal>(b: &[u8]) -> (r: Result<T, XEncErr<()>>)
    ensures match r { Ok(v) => dec(T::kind(), b@) == Some(v.gval()), Err(_) => dec(T::kind(), b@) is None },
{ unimplemented!() }
#[verifier::external_body]
pub fn x_len_with<T: XVal>(v: &T, c: &mut ()) -> (r: usize)
    ensures r == enc(v.gval()).len(),
{ unimplemented!() }
pub mod minicbor { pub mod encode { pub type Error<T> = super::super::XEncErr<T>; } }
pub struct EncodeError {}
pub struct XEncErr<T> { pub ph: core::marker::PhantomData<T> }
pub struct EndOfSlice {}
pub struct Cursor<'a> { pub b: &'a mut [u8], pub pos: usize }
impl<'a> Cursor<'a> {
    #[verifier::external_body]
    pub fn new(b: &'a mut [u8]) -> (r: Self)
        ensures r.pos == 0, r.b@ == old(b)@, final(r.b)@ == final(b)@,
    { unimplemented!() }
    pub fn position(&self) -> (r: usize)
        ensures r == self.pos,
    { self.pos }
}

// ---- addresses and pointers
pub use addr::is_list;
pub mod addr {
use super::*;
/// where a list lives: even (alignment), not null
pub uninterp spec fn is_list<R: ScopedRawMutex, const K: usize>(a: usize) -> bool;
#[verifier::external_body]
pub broadcast proof fn axiom_list_addr<R: ScopedRawMutex, const K: usize>(a: usize)
    requires #[trigger] is_list::<R, K>(a),
    ensures a % 2 == 0, 0 < a < usize::MAX,
{}
pub broadcast proof fn lemma_low_bit(a: usize)
    ensures (#[trigger] (a & 1usize)) == a % 2,
{ assert(a & 1usize == a % 2) by (bit_vector); }
}
/// the cell that a pointer into a node points to
pub uninterp spec fn cell_at(a: usize) -> nat;

pub struct XPtr<P> { pub addr: usize, pub ph: core::marker::PhantomData<P> }
impl<P> Clone for XPtr<P> {
    fn clone(&self) -> (r: Self) ensures r == *self { XPtr { addr: self.addr, ph: core::marker::PhantomData } }
}
impl<P> Copy for XPtr<P> {}
impl<P> vstd::std_specs::cmp::PartialEqSpecImpl for XPtr<P> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.addr == o.addr }
}
impl<P> PartialEq for XPtr<P> {
    fn eq(&self, o: &Self) -> (r: bool) { self.addr == o.addr }
}
impl<P> XPtr<P> {
    pub fn cast<Q>(self) -> (r: XPtr<Q>)
        ensures r.addr == self.addr,
    { XPtr { addr: self.addr, ph: core::marker::PhantomData } }
    pub fn cast_mut(self) -> (r: XPtr<P>)
        ensures r == self,
    { self }
    pub fn cast_const(self) -> (r: XPtr<P>)
        ensures r == self,
    { self }
    pub fn is_null(self) -> (r: bool)
        ensures r == (self.addr == 0),
    { self.addr == 0 }
    /// pointer arithmetic must stay within the object: at most one past a list's first byte
    pub fn byte_add(self, n: usize) -> (r: XPtr<P>)
        requires n <= 1, self.addr % 2 == 0, 0 < self.addr < usize::MAX,
        ensures r.addr == self.addr + n,
    { XPtr { addr: self.addr + n, ph: core::marker::PhantomData } }
    pub fn byte_sub(self, n: usize) -> (r: XPtr<P>)
        requires n <= self.addr % 2, self.addr > 1,
        ensures r.addr == self.addr - n,
    { XPtr { addr: self.addr - n, ph: core::marker::PhantomData } }
    #[verifier::external_body]
    pub fn wrapping_byte_add(self, n: usize) -> (r: XPtr<P>)
        ensures r.addr as int == if self.addr + n <= usize::MAX { self.addr + n } else { self.addr + n - usize::MAX - 1 },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn wrapping_byte_sub(self, n: usize) -> (r: XPtr<P>)
        ensures r.addr as int == if self.addr >= n { self.addr - n } else { self.addr - n + usize::MAX + 1 },
    { unimplemented!() }
}
pub fn null_mut<P>() -> (r: XPtr<P>)
    ensures r.addr == 0,
{ XPtr { addr: 0, ph: core::marker::PhantomData } }
pub trait XAsUsize {
    spec fn uv(&self) -> usize;
    fn x_as(self) -> (r: usize) where Self: Sized
        ensures r == self.uv();
}
impl<P> XAsUsize for XPtr<P> {
    open spec fn uv(&self) -> usize { self.addr }
    fn x_as(self) -> usize { self.addr }
}
impl XAsUsize for usize {
    open spec fn uv(&self) -> usize { *self }
    fn x_as(self) -> usize { self }
}
pub fn x_as_usize<A: XAsUsize>(a: A) -> (r: usize)
    ensures r == a.uv(),
{ a.x_as() }

/// a reference or pointer turned into a pointer
pub trait XIntoPtr<P>: Sized {
    spec fn goes_to(&self, a: usize) -> bool;
    fn x_into(self) -> (r: XPtr<P>)
        ensures self.goes_to(r.addr);
}
impl<P> XIntoPtr<P> for XPtr<P> {
    open spec fn goes_to(&self, a: usize) -> bool { a == self.addr }
    fn x_into(self) -> XPtr<P> { self }
}
impl<'a, R: ScopedRawMutex, const K: usize> XIntoPtr<StorageList<R, K>> for &'a StorageList<R, K> {
    open spec fn goes_to(&self, a: usize) -> bool { a == laddr(**self) && is_list::<R, K>(a) }
    #[verifier::external_body]
    fn x_into(self) -> XPtr<StorageList<R, K>> { unimplemented!() }
}
pub fn x_ptr<P, A: XIntoPtr<P>>(a: A) -> (r: XPtr<P>)
    ensures a.goes_to(r.addr),
{ a.x_into() }
/// dereferencing a pointer: it must point to a live object of its type
pub trait XPointee: Sized {
    spec fn lives_at(a: usize) -> bool;
    spec fn is_at(&self, a: usize) -> bool;
}
impl<R: ScopedRawMutex, const K: usize> XPointee for StorageList<R, K> {
    open spec fn lives_at(a: usize) -> bool { is_list::<R, K>(a) }
    open spec fn is_at(&self, a: usize) -> bool { laddr(*self) == a && list_ok(*self) }
}
impl<T> XPointee for MaybeUninit<T> {
    open spec fn lives_at(a: usize) -> bool { true }
    open spec fn is_at(&self, a: usize) -> bool { self.id@ == cell_at(a) }
}
#[verifier::external_body]
pub fn x_deref<P: XPointee>(p: XPtr<P>) -> (r: &'static P)
    requires P::lives_at(p.addr),
    ensures r.is_at(p.addr),
{ unimplemented!() }
#[verifier::external_body]
pub fn x_deref_mut<P: XPointee>(p: XPtr<P>) -> (r: &'static mut P)
    requires P::lives_at(p.addr),
    ensures r.is_at(p.addr),
{ unimplemented!() }

// ---- the list and its mutex
pub struct XSeqState {}
pub struct Mutex<T, R> { pub v: T, pub r: Option<R>, pub lid: Ghost<usize> }
pub open spec fn laddr<R: ScopedRawMutex, const K: usize>(l: StorageList<R, K>) -> usize { l.inner.lid@ }
pub uninterp spec fn queue_of(lid: usize, k: int) -> nat;
pub open spec fn list_ok<R: ScopedRawMutex, const K: usize>(l: StorageList<R, K>) -> bool {
    l.needs_read.id@ == queue_of(laddr(l), 0) && l.needs_write.id@ == queue_of(laddr(l), 1) && l.reading_done.id@ == queue_of(laddr(l), 2)
}
pub open spec fn snap_of(w: World) -> Snap {
    Snap { order: w.order, su: w.su, val: w.val, wakes: w.wakes, taken: w.nd.taken, drops: w.nd.drops }
}
pub open spec fn back(w: World) -> World {
    World { nd: NodeGhost { snaps: w.nd.snaps.push(snap_of(w)), ..w.nd }, ..w }
}
/// the facts that hold for every node whenever the list's lock is free
pub open spec fn node_quiet(w: World, n: nat) -> bool {
    &&& attached(w, n) <==> (w.nd.taken[n] == w.nd.lid || w.nd.taken[n] == w.nd.lid + 1)
    &&& attached(w, n) ==> w.su[n] <= 3 && (w.live(n) <==> w.val[n] is Some)
    &&& attached(w, n) && w.nd.taken[n] == w.nd.lid ==> w.live(n)
    &&& w.nd.taken[n] == 0 ==> w.su[n] == 0 && w.val[n] is None
}
pub open spec fn order_ok(w: World) -> bool {
    &&& forall|i: int| 0 <= i < w.order.len() ==> w.su.dom().contains(#[trigger] w.order[i])
    &&& forall|i: int, j: int| 0 <= i < j < w.order.len() ==> #[trigger] w.order[i] != #[trigger] w.order[j] && nkey(w.order[i]) != nkey(w.order[j])
}
pub open spec fn quiet(w: World) -> bool {
    &&& w.su.dom() =~= w.val.dom() && w.su.dom() =~= w.nd.taken.dom() && w.su.dom() =~= w.nd.drops.dom()
    &&& order_ok(w)
    &&& forall|n: nat| #[trigger] w.su.dom().contains(n) ==> node_quiet(w, n)
}
/// what we own carries the taken bit
pub open spec fn mine_ok(w: World) -> bool {
    &&& w.nd.lid % 2 == 0 && 0 < w.nd.lid < usize::MAX
    &&& forall|n: nat| #[trigger] w.nd.mine.contains(n) ==> w.su.dom().contains(n) && w.val.dom().contains(n) && w.nd.taken.dom().contains(n)
            && w.nd.drops.dom().contains(n) && w.nd.taken[n] % 2 == 1
}
pub open spec fn wakes_le(a: Map<nat, nat>, b: Map<nat, nat>) -> bool {
    forall|q: nat| #![trigger a[q]] #![trigger b[q]] b[q] >= a[q]
}
/// what other tasks may have done while we were not holding the lock
pub open spec fn interfered(w0: World, w1: World) -> bool {
    &&& w1.nd.lid == w0.nd.lid && w1.nd.mine == w0.nd.mine
    &&& w1.su.dom() =~= w0.su.dom() && w1.val.dom() =~= w0.val.dom() && w1.nd.taken.dom() =~= w0.nd.taken.dom() && w1.nd.drops.dom() =~= w0.nd.drops.dom()
    &&& wakes_le(w0.wakes, w1.wakes)
    &&& forall|n: nat| #![trigger w0.nd.mine.contains(n)] #![trigger w1.nd.taken[n]] w0.nd.mine.contains(n) ==> {
        &&& w1.nd.taken[n] == w0.nd.taken[n] && w1.nd.drops[n] == w0.nd.drops[n]
        &&& attached(w1, n) == attached(w0, n)
        &&& attached(w0, n) ==> stepped(w0, w1, n)
        &&& !attached(w0, n) ==> w1.su[n] == w0.su[n] && w1.val[n] == w0.val[n]
    }
}
/// the same world seen by another task, which owns `mine`
pub open spec fn seen_by(w: World, mine: Set<nat>) -> World { World { nd: NodeGhost { mine, ..w.nd }, ..w } }
pub broadcast proof fn lemma_interfered_trans(w0: World, w1: World, w2: World)
    requires #[trigger] interfered(w0, seen_by(w1, w0.nd.mine)), #[trigger] interfered(w1, w2), forall|n: nat| w0.nd.mine.contains(n) ==> w1.nd.mine.contains(n),
    ensures interfered(w0, seen_by(w2, w0.nd.mine)),
{
    let (v1, v2) = (seen_by(w1, w0.nd.mine), seen_by(w2, w0.nd.mine));
    assert forall|n: nat| #![trigger w0.nd.mine.contains(n)] #![trigger v2.nd.taken[n]] w0.nd.mine.contains(n) implies {
        &&& v2.nd.taken[n] == w0.nd.taken[n] && v2.nd.drops[n] == w0.nd.drops[n]
        &&& attached(v2, n) == attached(w0, n)
        &&& attached(w0, n) ==> stepped(w0, v2, n)
        &&& !attached(w0, n) ==> v2.su[n] == w0.su[n] && v2.val[n] == w0.val[n]
    } by {
        assert(w1.nd.mine.contains(n));
        assert(v1.order.contains(n) == w1.order.contains(n) && v2.order.contains(n) == w2.order.contains(n));
    }
}
/// what other tasks may do to a node's list word while we hold the lock: drop its handle, or, if it
/// is not ours and not in this list, anything that concerns other lists
pub open spec fn raced(w0: World, w1: World, n: nat) -> bool {
    &&& w1 == (World { su: w1.su, val: w1.val, nd: NodeGhost { taken: w1.nd.taken, drops: w1.nd.drops, ..w0.nd }, ..w0 })
    &&& w1.su == w0.su.insert(n, w1.su[n]) && w1.val == w0.val.insert(n, w1.val[n])
    &&& w1.nd.taken == w0.nd.taken.insert(n, w1.nd.taken[n]) && w1.nd.drops == w0.nd.drops.insert(n, w1.nd.drops[n])
    &&& w0.nd.mine.contains(n) ==> w1 == w0
    &&& w0.locked && !w0.nd.mine.contains(n) ==> {
        &&& attached(w0, n) ==> w1.su[n] == w0.su[n] && w1.val[n] == w0.val[n] && w1.nd.drops[n] == w0.nd.drops[n]
                && (w1.nd.taken[n] == w0.nd.taken[n] || (w0.nd.taken[n] == w0.nd.lid + 1 && w1.nd.taken[n] == w0.nd.lid && w0.live(n)))
        &&& !attached(w0, n) ==> w1.nd.taken[n] != w0.nd.lid && w1.nd.taken[n] != w0.nd.lid + 1
                && (w1.nd.taken[n] == 0 ==> w1.su[n] == 0 && w1.val[n] is None)
    }
}
/// what a task may do to a node's list word
pub open spec fn ptr_ok(w: World, n: nat, a: usize, b: usize) -> bool {
    ||| a == b
    // taking: the node is free, or in our list without a handle
    ||| w.locked && (a == 0 || a == w.nd.lid) && (b == w.nd.lid + 1 || b == 1)
    // giving back what we own: completely removed and reset, or still in the list
    ||| w.nd.mine.contains(n) && b == 0 && w.locked && !attached(w, n) && w.su[n] == 0 && w.val[n] is None
    ||| w.nd.mine.contains(n) && b == w.nd.lid && a == w.nd.lid + 1 && attached(w, n) && w.live(n)
}
pub open spec fn ptr_set(w0: World, w1: World, n: nat, b: usize) -> bool {
    w1 == (World { nd: NodeGhost {
        taken: w0.nd.taken.insert(n, b),
        mine: if b == w0.nd.taken[n] { w0.nd.mine } else if b % 2 == 1 { w0.nd.mine.insert(n) } else { w0.nd.mine.remove(n) },
        ..w0.nd }, ..w0 })
}
pub open spec fn set_su(w0: World, w1: World, n: nat, v: u8) -> bool { w1 == (World { su: w0.su.insert(n, v), ..w0 }) }
pub open spec fn set_val(w0: World, w1: World, n: nat, v: Option<GVal>) -> bool { w1 == (World { val: w0.val.insert(n, v), ..w0 }) }
pub open spec fn drop_val(w0: World, w1: World, n: nat) -> bool {
    w1 == (World { val: w0.val.insert(n, None), nd: NodeGhost { drops: w0.nd.drops.insert(n, w0.nd.drops[n] + 1), ..w0.nd }, ..w0 })
}
impl<T, R> Mutex<T, R> {
    #[verifier::external_body]
    pub fn lock(&self, Tracked(w): Tracked<&mut World>) -> (r: &mut T)
        requires !old(w).locked, self.lid@ == old(w).nd.lid, mine_ok(*old(w)),
        ensures
            final(w).locked, quiet(*final(w)), mine_ok(*final(w)),
            interfered(*old(w), *final(w)), final(w).nd.snaps == old(w).nd.snaps.push(snap_of(*final(w))),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_unlock(Tracked(w): Tracked<&mut World>)
    requires quiet(*old(w)),
    ensures *final(w) == (World { locked: false, ..*old(w) }),
{ unimplemented!() }

pub struct WaitQueue { pub id: Ghost<nat> }
#[derive(Debug)]
pub struct XClosed {}
impl WaitQueue {
    #[verifier::external_body]
    pub fn wake_all(&self, Tracked(w): Tracked<&mut World>)
        ensures *final(w) == (World { wakes: old(w).wakes.insert(self.id@, old(w).wakes[self.id@] + 1), ..*old(w) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn wake(&self, Tracked(w): Tracked<&mut World>)
        ensures *final(w) == (World { wakes: old(w).wakes.insert(self.id@, old(w).wakes[self.id@] + 1), ..*old(w) }),
    { unimplemented!() }
}
/// waiting: other tasks run
#[verifier::external_body]
pub fn x_wait(q: &WaitQueue, Tracked(w): Tracked<&mut World>)
    requires !old(w).locked, mine_ok(*old(w)),
    ensures interfered(*old(w), *final(w)), mine_ok(*final(w)), final(w).nd.snaps == old(w).nd.snaps, !final(w).locked,
{ unimplemented!() }

// ---- atomics
pub struct AtomicU8 { pub id: Ghost<nat>, pub init: Ghost<u8> }
impl AtomicU8 {
    #[verifier::external_body]
    pub fn new(v: u8) -> (r: Self)
        ensures r.init@ == v,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, Tracked(w): Tracked<&mut World>, o: Ordering) -> (r: u8)
        requires old(w).su.dom().contains(self.id@),
        ensures *final(w) == *old(w), r == old(w).su[self.id@],
    { unimplemented!() }
    /// states of nodes change under the lock only, and only by who owns the node; only a storage
    /// pass can say that a value is saved
    #[verifier::external_body]
    pub fn store(&self, Tracked(w): Tracked<&mut World>, v: u8, o: Ordering)
        requires old(w).su.dom().contains(self.id@), old(w).locked, old(w).nd.mine.contains(self.id@), v == 2 ==> old(w).su[self.id@] == 2,
        ensures set_su(*old(w), *final(w), self.id@, v),
    { unimplemented!() }
}
pub trait XOptExt<T>: Sized {
    spec fn oview(&self) -> Option<T>;
    fn x_unwrap_unchecked(self) -> (r: T)
        requires self.oview() is Some,
        ensures r == self.oview()->Some_0;
}
impl<T> XOptExt<T> for Option<T> {
    open spec fn oview(&self) -> Option<T> { *self }
    fn x_unwrap_unchecked(self) -> (r: T) { self.unwrap() }
}
pub struct AtomicPtr<P> { pub id: Ghost<nat>, pub init: Ghost<usize>, pub ph: core::marker::PhantomData<P> }
impl<P> AtomicPtr<P> {
    #[verifier::external_body]
    pub fn new(v: XPtr<P>) -> (r: Self)
        ensures r.init@ == v.addr,
    { unimplemented!() }
    /// only read of nodes we own (anything else may be out of date at once)
    #[verifier::external_body]
    pub fn load(&self, Tracked(w): Tracked<&mut World>, o: Ordering) -> (r: XPtr<P>)
        requires old(w).nd.mine.contains(self.id@),
        ensures *final(w) == *old(w), r.addr == old(w).nd.taken[self.id@],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, Tracked(w): Tracked<&mut World>, v: XPtr<P>, o: Ordering)
        requires old(w).nd.mine.contains(self.id@), ptr_ok(*old(w), self.id@, old(w).nd.taken[self.id@], v.addr),
        ensures ptr_set(*old(w), *final(w), self.id@, v.addr),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_update<F: FnMut(XPtr<P>) -> Option<XPtr<P>>>(&self, Tracked(w): Tracked<&mut World>, so: Ordering, fo: Ordering, f: F) -> (r: Result<XPtr<P>, XPtr<P>>)
        requires
            old(w).nd.taken.dom().contains(self.id@),
            old(w).locked || old(w).nd.mine.contains(self.id@),
            forall|m: World, p: XPtr<P>| #![trigger f.requires((p,)), m.nd.taken[self.id@]]
                raced(*old(w), m, self.id@) && p.addr == m.nd.taken[self.id@] ==> f.requires((p,)),
            forall|m: World, p: XPtr<P>, q: XPtr<P>| #![trigger f.ensures((p,), Some(q)), m.nd.taken[self.id@]]
                raced(*old(w), m, self.id@) && p.addr == m.nd.taken[self.id@] && f.ensures((p,), Some(q)) ==> ptr_ok(m, self.id@, p.addr, q.addr),
        ensures
            exists|m: World| #![trigger back(m)] raced(*old(w), m, self.id@) && match r {
                Ok(p) => p.addr == m.nd.taken[self.id@] && exists|q: XPtr<P>| #[trigger] f.ensures((p,), Some(q)) && ptr_set(back(m), *final(w), self.id@, q.addr),
                Err(p) => p.addr == m.nd.taken[self.id@] && f.ensures((p,), None) && *final(w) == back(m),
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange(&self, Tracked(w): Tracked<&mut World>, cur: XPtr<P>, new: XPtr<P>, so: Ordering, fo: Ordering) -> (r: Result<XPtr<P>, XPtr<P>>)
        requires
            old(w).nd.taken.dom().contains(self.id@),
            old(w).locked || old(w).nd.mine.contains(self.id@),
            forall|m: World| #![trigger m.nd.taken[self.id@]] raced(*old(w), m, self.id@) && m.nd.taken[self.id@] == cur.addr ==> ptr_ok(m, self.id@, cur.addr, new.addr),
        ensures
            exists|m: World| #![trigger back(m)] raced(*old(w), m, self.id@) && match r {
                Ok(p) => p.addr == cur.addr && m.nd.taken[self.id@] == cur.addr && ptr_set(back(m), *final(w), self.id@, new.addr),
                Err(p) => p.addr == m.nd.taken[self.id@] && p.addr != cur.addr && *final(w) == back(m),
            },
    { unimplemented!() }
}

// ---- the value cell
pub struct UnsafeCell<X> { pub v: X }
impl<X> UnsafeCell<X> {
    pub fn new(v: X) -> (r: Self)
        ensures r.v == v,
    { UnsafeCell { v } }
}
impl<T> UnsafeCell<MaybeUninit<T>> {
    #[verifier::external_body]
    pub fn get(&self) -> (r: XPtr<MaybeUninit<T>>)
        ensures cell_at(r.addr) == self.v.id@,
    { unimplemented!() }
}
pub struct MaybeUninit<T> { pub id: Ghost<nat>, pub empty: Ghost<bool>, pub ph: core::marker::PhantomData<T> }
impl<T> MaybeUninit<T> {
    #[verifier::external_body]
    pub fn uninit() -> (r: Self)
        ensures r.empty@,
    { unimplemented!() }
}
impl<T: XVal> MaybeUninit<T> {
    /// initialising: under the lock, an empty cell (nothing is overwritten without being dropped),
    /// of a node we own or one that waits for its first read
    #[verifier::external_body]
    pub fn write(&mut self, Tracked(w): Tracked<&mut World>, v: T)
        requires
            old(w).locked, old(w).val.dom().contains(old(self).id@), old(w).val[old(self).id@] is None,
            old(w).nd.mine.contains(old(self).id@) || (attached(*old(w), old(self).id@) && old(w).su[old(self).id@] == 0),
        ensures set_val(*old(w), *final(w), old(self).id@, Some(v.gval())), *final(self) == *old(self),
    { unimplemented!() }
    /// reading: initialised, and either the lock is held or the node is ours
    #[verifier::external_body]
    pub fn assume_init_ref(&self, Tracked(w): Tracked<&mut World>) -> (r: &T)
        requires old(w).val.dom().contains(self.id@), old(w).val[self.id@] is Some, old(w).locked || old(w).nd.mine.contains(self.id@),
        ensures *final(w) == *old(w), old(w).val[self.id@] == Some(r.gval()),
    { unimplemented!() }
    /// changing: initialised, lock held, node ours
    #[verifier::external_body]
    pub fn assume_init_mut<'a>(&'a mut self, Tracked(w): Tracked<&mut World>) -> (r: &'a mut T)
        requires old(w).val.dom().contains(old(self).id@), old(w).val[old(self).id@] is Some, old(w).locked, old(w).nd.mine.contains(old(self).id@),
        ensures old(w).val[old(self).id@] == Some((*r).gval()),
            set_val(*old(w), *final(w), old(self).id@, Some((*final(r)).gval())),
            *final(self) == *old(self),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn assume_init_drop(&mut self, Tracked(w): Tracked<&mut World>)
        requires old(w).val.dom().contains(old(self).id@), old(w).val[old(self).id@] is Some, old(w).locked, old(w).nd.mine.contains(old(self).id@),
        ensures drop_val(*old(w), *final(w), old(self).id@),
            *final(self) == *old(self),
    { unimplemented!() }
}

// ---- nodes and the intrusive list
pub struct PhantomPinned;
pub use core::marker::PhantomData;
pub struct XLinks {}
#[verifier::external_body]
pub fn x_links_new() -> XLinks { unimplemented!() }
/// pointer to (the header of) a node; `whole`: derived from the whole node, not just the header
pub struct NonNull<P> { pub id: Ghost<nat>, pub whole: Ghost<bool>, pub ph: core::marker::PhantomData<P> }
impl<P> NonNull<P> {
    pub fn cast<Q>(self) -> (r: NonNull<Q>)
        ensures r.id == self.id, r.whole == self.whole,
    { NonNull { id: self.id, whole: self.whole, ph: core::marker::PhantomData } }
    #[verifier::external_body]
    pub fn from<Q: XNodeRef<P>>(r: Q) -> (p: NonNull<P>)
        ensures p.id@ == r.nid(), p.whole@ == Q::whole_node(),
    { unimplemented!() }
}
pub trait XNodeRef<P> {
    spec fn nid(&self) -> nat;
    spec fn whole_node() -> bool;
}
impl<'a, T> XNodeRef<Node<T>> for &'a Node<T> {
    open spec fn nid(&self) -> nat { self.t.v.id@ }
    open spec fn whole_node() -> bool { true }
}
impl<'a> XNodeRef<NodeHeader> for &'a NodeHeader {
    open spec fn nid(&self) -> nat { self.state.inner.id@ }
    open spec fn whole_node() -> bool { false }
}
impl<P> Clone for NonNull<P> {
    fn clone(&self) -> (r: Self) ensures r.id == self.id, r.whole == self.whole { NonNull { id: self.id, whole: self.whole, ph: core::marker::PhantomData } }
}
impl<P> Copy for NonNull<P> {}
impl<T: XVal> NonNull<Node<T>> {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &Node<T>)
        requires self.whole@, nkind(self.id@) == T::kind(),
        ensures inner_is(*r, self.id@),
    { unimplemented!() }
}
impl NonNull<NodeHeader> {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &NodeHeader)
        ensures hdr_is(*r, self.id@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ptr(&self) -> (r: &NodeHeader)
        ensures hdr_is(*r, self.id@),
    { unimplemented!() }
}
pub open spec fn hdr_is(h: NodeHeader, n: nat) -> bool {
    h.state.inner.id@ == n && h.key@ == nkey(n) && h.vtable.serialize.k@ == nkind(n) && h.vtable.deserialize.k@ == nkind(n)
}
pub open spec fn inner_is<T>(r: Node<T>, n: nat) -> bool { hdr_is(r.header, n) && r.t.v.id@ == n }
/// `s` is node number n
pub open spec fn node_is<T: XVal>(s: StorageListNode<T>, n: nat) -> bool {
    inner_is(s.inner, n) && s.taken_for_list.id@ == n && nkind(n) == T::kind()
}
pub open spec fn nid<T: XVal>(s: StorageListNode<T>) -> nat { s.taken_for_list.id@ }
/// function pointers of the vtable: which value type they are for
#[derive(Clone, Copy)]
pub struct SerFn { pub k: Ghost<nat> }
#[derive(Clone, Copy)]
pub struct DeserFn { pub k: Ghost<nat> }
#[verifier::external_body]
pub fn x_ser_fn<T: XVal>() -> (r: SerFn) ensures r.k@ == T::kind() { unimplemented!() }
#[verifier::external_body]
pub fn x_deser_fn<T: XVal>() -> (r: DeserFn) ensures r.k@ == T::kind() { unimplemented!() }

pub struct List<P> { pub ph: core::marker::PhantomData<P> }
pub struct IterRaw<'a, P> { pub idx: Ghost<int>, pub ph: core::marker::PhantomData<&'a P> }
impl<P> List<P> {
    pub fn iter_raw(&self) -> (r: IterRaw<'_, P>)
        ensures r.idx@ == 0,
    { IterRaw { idx: Ghost(0), ph: core::marker::PhantomData } }
}
/// the raw list operations (assumed); List::push_front and so on add what follows from them
#[verifier::external_body]
pub fn x_push_front(l: &mut List<NodeHeader>, Tracked(w): Tracked<&mut World>, p: NonNull<NodeHeader>)
    requires old(w).locked, !attached(*old(w), p.id@), old(w).nd.mine.contains(p.id@), p.whole@,
    ensures *final(w) == (World { order: seq![p.id@] + old(w).order, ..*old(w) }), *final(l) == *old(l),
{ unimplemented!() }
#[verifier::external_body]
pub fn x_push_back(l: &mut List<NodeHeader>, Tracked(w): Tracked<&mut World>, p: NonNull<NodeHeader>)
    requires old(w).locked, !attached(*old(w), p.id@), old(w).nd.mine.contains(p.id@), p.whole@,
    ensures *final(w) == (World { order: old(w).order.push(p.id@), ..*old(w) }), *final(l) == *old(l),
{ unimplemented!() }
#[verifier::external_body]
pub fn x_remove(l: &mut List<NodeHeader>, Tracked(w): Tracked<&mut World>, p: NonNull<NodeHeader>) -> (r: Option<NonNull<NodeHeader>>)
    requires old(w).locked, attached(*old(w), p.id@), old(w).nd.mine.contains(p.id@),
    ensures
        exists|i: int| 0 <= i < old(w).order.len() && #[trigger] old(w).order[i] == p.id@
            && *final(w) == (World { order: old(w).order.remove(i), ..*old(w) }),
        r matches Some(x) && x.id == p.id, *final(l) == *old(l),
{ unimplemented!() }
/// `n` joins the list
pub open spec fn joins(w0: World, w1: World, n: nat) -> bool {
    &&& w1 == (World { order: w1.order, ..w0 })
    &&& forall|m: nat| #[trigger] w1.order.contains(m) <==> attached(w0, m) || m == n
    &&& order_ok(w0) && w0.su.dom().contains(n) && (forall|m: nat| #[trigger] w0.order.contains(m) ==> nkey(m) != nkey(n)) ==> order_ok(w1)
}
pub open spec fn leaves(w0: World, w1: World, n: nat) -> bool {
    &&& w1 == (World { order: w1.order, ..w0 })
    &&& w1.order.len() == w0.order.len() - 1
    &&& order_ok(w0) ==> order_ok(w1)
    &&& order_ok(w0) ==> forall|m: nat| #[trigger] w1.order.contains(m) <==> attached(w0, m) && m != n
}
impl List<NodeHeader> {
    /// a node must not be linked twice; the pointer must reach the whole node
    pub fn push_front(&mut self, Tracked(w): Tracked<&mut World>, p: NonNull<NodeHeader>)
        requires old(w).locked, !attached(*old(w), p.id@), old(w).nd.mine.contains(p.id@), p.whole@,
        ensures joins(*old(w), *final(w), p.id@), *final(self) == *old(self),
    {
        x_push_front(self, Tracked(w), p);
        proof {
            let (o, s, n) = (old(w).order, w.order, p.id@);
            assert(s[0] == n);
            assert forall|i: int| 0 <= i < o.len() implies o[i] == #[trigger] s[i + 1] by {}
            assert forall|m: nat| #[trigger] w.order.contains(m) implies attached(*old(w), m) || m == n by {
                let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == m;
                if i > 0 { assert(o[i - 1] == m); }
            }
            assert forall|m: nat| attached(*old(w), m) || m == n implies #[trigger] w.order.contains(m) by {
                if attached(*old(w), m) { let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == m; assert(s[i + 1] == m); }
            }
            lemma_joined(*old(w), *w, n, 1, 0);
        }
    }
    pub fn push_back(&mut self, Tracked(w): Tracked<&mut World>, p: NonNull<NodeHeader>)
        requires old(w).locked, !attached(*old(w), p.id@), old(w).nd.mine.contains(p.id@), p.whole@,
        ensures joins(*old(w), *final(w), p.id@), *final(self) == *old(self),
    {
        x_push_back(self, Tracked(w), p);
        proof {
            let (o, s, n) = (old(w).order, w.order, p.id@);
            assert(s[o.len() as int] == n);
            assert forall|m: nat| #[trigger] w.order.contains(m) implies attached(*old(w), m) || m == n by {
                let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == m;
                if i < o.len() { assert(o[i] == m); }
            }
            assert forall|m: nat| attached(*old(w), m) || m == n implies #[trigger] w.order.contains(m) by {
                if attached(*old(w), m) { let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == m; assert(s[i] == m); }
            }
            lemma_joined(*old(w), *w, n, 0, o.len() as int);
        }
    }
    /// the node must be in this list
    pub fn remove(&mut self, Tracked(w): Tracked<&mut World>, p: NonNull<NodeHeader>) -> (r: Option<NonNull<NodeHeader>>)
        requires old(w).locked, attached(*old(w), p.id@), old(w).nd.mine.contains(p.id@),
        ensures leaves(*old(w), *final(w), p.id@), r matches Some(x) && x.id == p.id, *final(self) == *old(self),
    {
        let r = x_remove(self, Tracked(w), p);
        proof {
            let (o, s, n) = (old(w).order, w.order, p.id@);
            let k = choose|k: int| 0 <= k < o.len() && #[trigger] o[k] == n && s == o.remove(k);
            assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] == o[if i < k { i } else { i + 1 }] by {}
            if order_ok(*old(w)) {
                assert forall|m: nat| #[trigger] w.order.contains(m) implies attached(*old(w), m) && m != n by {
                    let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == m;
                    let j = if i < k { i } else { i + 1 };
                    assert(o[j] == m);
                    if j < k { assert(o[j] != o[k]); } else { assert(o[k] != o[j]); }
                }
                assert forall|m: nat| attached(*old(w), m) && m != n implies #[trigger] w.order.contains(m) by {
                    let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == m;
                    assert(s[if i < k { i } else { i - 1 }] == m);
                }
            }
        }
        r
    }
}
pub proof fn lemma_joined(w0: World, w1: World, n: nat, d: int, at: int)
    requires
        w1.order.len() == w0.order.len() + 1, 0 <= at < w1.order.len(), d == 0 || d == 1, at == if d == 1 { 0 } else { w0.order.len() as int },
        w1.order[at] == n, forall|i: int| 0 <= i < w0.order.len() ==> w0.order[i] == #[trigger] w1.order[i + d],
        w1.su == w0.su,
    ensures order_ok(w0) && w0.su.dom().contains(n) && !attached(w0, n) && (forall|m: nat| #[trigger] w0.order.contains(m) ==> nkey(m) != nkey(n)) ==> order_ok(w1),
{
    let (o, s) = (w0.order, w1.order);
    if order_ok(w0) && w0.su.dom().contains(n) && !attached(w0, n) && (forall|m: nat| #[trigger] w0.order.contains(m) ==> nkey(m) != nkey(n)) {
        assert forall|i: int| 0 <= i < s.len() && i != at implies #[trigger] s[i] == o[i - d] && attached(w0, s[i]) by { assert(s[i - d + d] == o[i - d]); }
        assert(order_ok(w1));
    }
}
impl<'a> IterRaw<'a, NodeHeader> {
    #[verifier::external_body]
    pub fn x_find<F: FnMut(&NonNull<NodeHeader>) -> bool>(&mut self, Tracked(w): Tracked<&mut World>, f: F) -> (r: Option<NonNull<NodeHeader>>)
        requires
            old(self).idx@ == 0, old(w).locked,
            forall|p: NonNull<NodeHeader>| f.requires((&p,)),
        ensures
            *final(w) == *old(w),
            match r {
                Some(p) => exists|i: int| 0 <= i < old(w).order.len() && #[trigger] old(w).order[i] == p.id@ && f.ensures((&p,), true),
                None => forall|i: int| 0 <= i < old(w).order.len() ==>
                    exists|p: NonNull<NodeHeader>| p.id@ == #[trigger] old(w).order[i] && f.ensures((&p,), false),
            },
    { unimplemented!() }
}
broadcast use {addr::axiom_list_addr, addr::lemma_low_bit};

// ------------------------------------------------------------------------------------------
// vocabulary of the node layer
// ------------------------------------------------------------------------------------------
/// a handle for node n of the list: the node is ours, in the list, and has a value
pub open spec fn held(w: World, n: nat) -> bool {
    w.nd.mine.contains(n) && w.nd.taken[n] == w.nd.lid + 1 && attached(w, n) && w.live(n) && w.su[n] <= 3 && w.val[n] is Some
}
pub open spec fn handle_is<T: XVal, R: ScopedRawMutex, const K: usize>(h: StorageListNodeHandle<T, R, K>, w: World) -> bool {
    node_is(*h.inner, nid(*h.inner)) && is_list::<R, K>(w.nd.lid) && held(w, nid(*h.inner))
}
/// nothing but bookkeeping differs from the snapshot
pub open spec fn as_in(w: World, s: Snap) -> bool {
    w.order == s.order && w.su =~= s.su && w.val =~= s.val && w.wakes == s.wakes && w.nd.taken =~= s.taken && w.nd.drops =~= s.drops
}
pub open spec fn key_in(order: Seq<nat>, key: Seq<char>) -> bool {
    exists|n: nat| #[trigger] order.contains(n) && nkey(n) == key
}
/// the k-th snapshot an operation took
pub open spec fn snap(w0: World, w1: World, k: int) -> Snap { w1.nd.snaps[w0.nd.snaps.len() + k] }
pub open spec fn known(w: World, n: nat) -> bool {
    w.su.dom().contains(n) && w.val.dom().contains(n) && w.nd.taken.dom().contains(n) && w.nd.drops.dom().contains(n)
}
/// the node was free when the attach took it
pub open spec fn fresh_at(w0: World, w1: World, n: nat) -> bool { snap(w0, w1, 1).taken[n] == 0 }
/// the node is attached and reserved for us, whatever passes have made of it since we took it
pub open spec fn attach_mid(w0: World, w: World, n: nat) -> bool {
    let s = snap(w0, w, 1);
    &&& interfered(w0, seen_by(w, w0.nd.mine))
    &&& w.nd.lid == w0.nd.lid && w.nd.mine == w0.nd.mine.insert(n) && w.nd.mine.contains(n) && w.nd.snaps.len() >= w0.nd.snaps.len() + 2
    &&& known(w, n) && attached(w, n) && w.nd.taken[n] == w.nd.lid + 1 && w.nd.drops[n] == s.drops[n]
    &&& w.su[n] <= 2 || w.su[n] == 3 && s.taken[n] != 0
    &&& w.live(n) ==> w.val[n] is Some
    &&& s.taken[n] == 0 && !key_in(s.order, nkey(n)) || s.taken[n] == w.nd.lid && 2 <= s.su[n] <= 3 && w.su[n] >= 2 && w.val[n] == s.val[n]
}
/// a node that came new to the list was announced to the worker
pub open spec fn announced(w0: World, w: World, n: nat) -> bool {
    fresh_at(w0, w, n) ==> w.wakes[queue_of(w.nd.lid, 0)] > snap(w0, w, 1).wakes[queue_of(w.nd.lid, 0)]
}
/// outcome of an attach (0: handle, 1: taken, 2: other list, 3: duplicate key)
pub open spec fn attach_post(w0: World, w1: World, n: nat, ok_list: bool, r: int) -> bool {
    let s = snap(w0, w1, 1);
    &&& w1.nd.lid == w0.nd.lid && w1.nd.snaps.len() >= w0.nd.snaps.len() + 2 && mine_ok(w1) && interfered(w0, seen_by(w1, w0.nd.mine)) && known(w1, n)
    &&& r == 1 ==> s.taken[n] == w0.nd.lid + 1
    &&& r == 2 ==> s.taken[n] != 0 && s.taken[n] != w0.nd.lid && s.taken[n] != w0.nd.lid + 1
    &&& r == 3 ==> s.taken[n] == 0 && key_in(s.order, nkey(n))
    &&& r != 0 ==> as_in(w1, s) && quiet(w1) && w1.nd.mine =~= w0.nd.mine
    &&& r == 0 ==> {
        &&& !w1.locked && !w0.nd.mine.contains(n) && w1.nd.mine == w0.nd.mine.insert(n) && ok_list && held(w1, n)
        &&& s.taken[n] == 0 && !key_in(s.order, nkey(n)) || s.taken[n] == w0.nd.lid && 2 <= s.su[n] <= 3 && w1.val[n] == s.val[n]
        &&& w1.nd.drops[n] == s.drops[n]
    }
    &&& r <= 3
}
/// outcome of a detach (0: done, 1: taken, 2: other list)
pub open spec fn detach_post(w0: World, w1: World, n: nat, r: int) -> bool {
    let s = snap(w0, w1, 1);
    &&& w1.nd.lid == w0.nd.lid && w1.nd.snaps.len() >= w0.nd.snaps.len() + 2 && mine_ok(w1) && interfered(w0, seen_by(w1, w0.nd.mine)) && quiet(w1) && known(w1, n) && w1.nd.mine =~= w0.nd.mine
    &&& r == 1 ==> s.taken[n] == w0.nd.lid + 1
    &&& r == 2 ==> s.taken[n] != 0 && s.taken[n] != w0.nd.lid && s.taken[n] != w0.nd.lid + 1
    &&& r == 0 ==> s.taken[n] == 0 || s.taken[n] == w0.nd.lid
    &&& r != 0 || s.taken[n] == 0 ==> as_in(w1, s)
    &&& r == 0 && s.taken[n] == w0.nd.lid ==> {
        &&& w1.su =~= s.su.insert(n, 0) && w1.val =~= s.val.insert(n, None) && w1.nd.taken =~= s.taken.insert(n, 0)
        &&& w1.nd.drops =~= s.drops.insert(n, s.drops[n] + if live_st(st_of(s.su[n])) { 1nat } else { 0 })
        &&& forall|m: nat| #[trigger] w1.order.contains(m) <==> s.order.contains(m) && m != n
        &&& w1.order.len() == s.order.len() - 1
    }
    &&& r <= 2
}
pub open spec fn write_post(w0: World, w1: World, n: nat, v: GVal) -> bool {
    let s = snap(w0, w1, 0);
    &&& w1.nd.lid == w0.nd.lid && w1.nd.snaps.len() == w0.nd.snaps.len() + 1 && mine_ok(w1) && interfered(seen_by(w0, w0.nd.mine.remove(n)), seen_by(w1, w0.nd.mine.remove(n))) && quiet(w1) && w1.nd.mine =~= w0.nd.mine
    &&& w1.su =~= s.su.insert(n, 3) && w1.val =~= s.val.insert(n, Some(v)) && w1.order == s.order && w1.nd.taken =~= s.taken && w1.nd.drops =~= s.drops
    &&& held(w1, n)
}
/// a write was announced to the worker
pub open spec fn write_announced(w0: World, w1: World) -> bool {
    w1.wakes[queue_of(w1.nd.lid, 1)] > snap(w0, w1, 0).wakes[queue_of(w1.nd.lid, 1)]
}
pub open spec fn drop_post(w0: World, w1: World, n: nat) -> bool {
    &&& w1.nd.taken =~= w0.nd.taken.insert(n, w0.nd.lid) && w1.nd.mine =~= w0.nd.mine.remove(n)
    &&& w1.su == w0.su && w1.val == w0.val && w1.order == w0.order && w1.nd.drops == w0.nd.drops && w1.nd.lid == w0.nd.lid && w1.wakes == w0.wakes && w1.locked == w0.locked
    &&& mine_ok(w1)
}

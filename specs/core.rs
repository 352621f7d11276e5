// Specification prelude, hand written: ghost vocabulary and the contracts assumed of everything
// outside cfg-noodle (storage medium, minicbor, crc, atomics, the mutex, the intrusive list).
// The text between the markers further down is generated from /repo on every run.
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::range::*;
use core::num::NonZeroU32;
use core::ops::RangeInclusive;

verus! {

// ------------------------------------------------------------------------------------------
// std
// ------------------------------------------------------------------------------------------
pub assume_specification [core::num::NonZeroU32::checked_add](a: NonZeroU32, b: u32) -> (r: Option<NonZeroU32>)
    ensures
        a@ + b <= u32::MAX ==> (r matches Some(x) && x@ == a@ + b),
        a@ + b > u32::MAX ==> r is None;
pub assume_specification<T> [core::mem::replace::<T>](d: &mut T, s: T) -> (r: T)
    ensures *final(d) == s, r == *old(d);
pub assume_specification<T> [Option::<Option<T>>::flatten](a: Option<Option<T>>) -> (r: Option<T>)
    ensures r == (match a { Some(x) => x, None => None });
pub assume_specification<T> [RangeInclusive::<T>::start](a: &RangeInclusive<T>) -> (r: &T)
    ensures *r == a@.start;
pub assume_specification<T> [RangeInclusive::<T>::end](a: &RangeInclusive<T>) -> (r: &T)
    ensures !a@.exhausted ==> *r == a@.end;

pub trait XRangeExt {
    spec fn rv(&self) -> (int, int, bool);
    fn x_contains(&self, x: &usize) -> (r: bool)
        ensures !self.rv().2 ==> r == (self.rv().0 <= *x && *x <= self.rv().1);
}
impl XRangeExt for RangeInclusive<usize> {
    open spec fn rv(&self) -> (int, int, bool) { (self@.start as int, self@.end as int, self@.exhausted) }
    #[verifier::external_body]
    fn x_contains(&self, x: &usize) -> (r: bool) { self.contains(x) }
}
#[verifier::external_body]
pub fn x_drop<T>(t: T) {}
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }

/// `debug_assert!` and friends: the condition is an obligation
pub fn vp_assert(c: bool)
    requires c,
{}
/// `unreachable!()`, `panic!()`: reaching it is an obligation
#[verifier::external_body]
pub fn vp_unreachable<T>() -> (r: T)
    requires false,
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_never() -> !
    requires false,
{ unimplemented!() }

#[verifier::external_body]
pub fn x_array_none<T, const N: usize>() -> (r: [Option<T>; N])
    ensures r@.len() == N, forall|i: int| 0 <= i < N ==> #[trigger] r@[i] is None,
{ unimplemented!() }

pub trait XBits: Sized {
    spec fn or_s(a: Self, b: Self) -> Self;
    spec fn and_s(a: Self, b: Self) -> Self;
    spec fn xor_s(a: Self, b: Self) -> Self;
    fn x_or(a: Self, b: Self) -> (r: Self) ensures r == Self::or_s(a, b);
    fn x_and(a: Self, b: Self) -> (r: Self) ensures r == Self::and_s(a, b);
    fn x_xor(a: Self, b: Self) -> (r: Self) ensures r == Self::xor_s(a, b);
}
impl XBits for bool {
    open spec fn or_s(a: bool, b: bool) -> bool { a || b }
    open spec fn and_s(a: bool, b: bool) -> bool { a && b }
    open spec fn xor_s(a: bool, b: bool) -> bool { a != b }
    fn x_or(a: bool, b: bool) -> bool { a || b }
    fn x_and(a: bool, b: bool) -> bool { a && b }
    fn x_xor(a: bool, b: bool) -> bool { a != b }
}
impl XBits for usize {
    open spec fn or_s(a: usize, b: usize) -> usize { a | b }
    open spec fn and_s(a: usize, b: usize) -> usize { a & b }
    open spec fn xor_s(a: usize, b: usize) -> usize { a ^ b }
    fn x_or(a: usize, b: usize) -> usize { a | b }
    fn x_and(a: usize, b: usize) -> usize { a & b }
    fn x_xor(a: usize, b: usize) -> usize { a ^ b }
}
impl XBits for u8 {
    open spec fn or_s(a: u8, b: u8) -> u8 { a | b }
    open spec fn and_s(a: u8, b: u8) -> u8 { a & b }
    open spec fn xor_s(a: u8, b: u8) -> u8 { a ^ b }
    fn x_or(a: u8, b: u8) -> u8 { a | b }
    fn x_and(a: u8, b: u8) -> u8 { a & b }
    fn x_xor(a: u8, b: u8) -> u8 { a ^ b }
}

// ---- keyed selection and sorting (std slice / iterator functions)
pub trait XKey {
    spec fn kv(&self) -> int;
}
impl XKey for u32 { open spec fn kv(&self) -> int { *self as int } }
impl XKey for NonZeroU32 { open spec fn kv(&self) -> int { self@ as int } }
impl XKey for Option<NonZeroU32> {
    open spec fn kv(&self) -> int { match *self { Some(x) => x@ as int, None => -1 } }
}
impl XKey for Option<u32> {
    open spec fn kv(&self) -> int { match *self { Some(x) => x as int, None => -1 } }
}
pub open spec fn keys_of<T, K, F: FnMut(&T) -> K>(s: Seq<T>, f: F, ks: Seq<K>) -> bool {
    ks.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger ks[i]] 0 <= i < s.len() ==> f.ensures((&s[i],), ks[i])
}
pub open spec fn is_perm(p: Seq<int>, q: Seq<int>, n: int) -> bool {
    p.len() == n && q.len() == n
    && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n && q[p[i]] == i)
    && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] q[i] < n && p[q[i]] == i)
}
pub open spec fn permuted<T>(a: Seq<T>, b: Seq<T>, p: Seq<int>, q: Seq<int>) -> bool {
    a.len() == b.len() && is_perm(p, q, a.len() as int)
    && (forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[p[i]])
}
pub open spec fn first_min<K: XKey>(ks: Seq<K>, m: int) -> bool {
    0 <= m < ks.len()
    && (forall|j: int| 0 <= j < ks.len() ==> ks[m].kv() <= (#[trigger] ks[j]).kv())
    && (forall|j: int| 0 <= j < m ==> ks[m].kv() < (#[trigger] ks[j]).kv())
}
pub open spec fn last_max<K: XKey>(ks: Seq<K>, m: int) -> bool {
    0 <= m < ks.len()
    && (forall|j: int| 0 <= j < ks.len() ==> ks[m].kv() >= (#[trigger] ks[j]).kv())
    && (forall|j: int| m < j < ks.len() ==> ks[m].kv() > (#[trigger] ks[j]).kv())
}
pub open spec fn keys_sorted<K: XKey>(ks: Seq<K>) -> bool {
    forall|i: int, j: int| 0 <= i < j < ks.len() ==> (#[trigger] ks[i]).kv() <= (#[trigger] ks[j]).kv()
}
pub struct XIterMut<'a, T> { pub s: &'a mut [T] }
pub struct XIter<'a, T> { pub s: &'a [T] }
pub struct XFilterMap<'a, T> { pub s: &'a [Option<T>] }
pub trait XSliceExt<T>: Sized {
    spec fn sview(&self) -> Seq<T>;
    fn x_iter_mut(&mut self) -> (r: XIterMut<'_, T>)
        ensures r.s@ == old(self).sview(), final(self).sview() == final(r.s)@;
    fn x_iter(&self) -> (r: XIter<'_, T>)
        ensures r.s@ == self.sview();
    fn x_sort_unstable_by_key<K: XKey, F: FnMut(&T) -> K>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).sview().len() ==> f.requires((&#[trigger] old(self).sview()[i],)),
        ensures
            exists|p: Seq<int>, q: Seq<int>| permuted(old(self).sview(), final(self).sview(), p, q),
            exists|ks: Seq<K>| keys_of(final(self).sview(), f, ks) && keys_sorted(ks);
    fn x_sort_by_key<K: XKey, F: FnMut(&T) -> K>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).sview().len() ==> f.requires((&#[trigger] old(self).sview()[i],)),
        ensures
            exists|p: Seq<int>, q: Seq<int>| permuted(old(self).sview(), final(self).sview(), p, q),
            exists|ks: Seq<K>| keys_of(final(self).sview(), f, ks) && keys_sorted(ks);
}
impl<T, const N: usize> XSliceExt<T> for [T; N] {
    open spec fn sview(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn x_iter_mut(&mut self) -> (r: XIterMut<'_, T>) { unimplemented!() }
    #[verifier::external_body]
    fn x_iter(&self) -> (r: XIter<'_, T>) { unimplemented!() }
    #[verifier::external_body]
    fn x_sort_unstable_by_key<K: XKey, F: FnMut(&T) -> K>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body]
    fn x_sort_by_key<K: XKey, F: FnMut(&T) -> K>(&mut self, f: F) { unimplemented!() }
}
impl<'a, T> XIterMut<'a, T> {
    #[verifier::external_body]
    pub fn min_by_key<K: XKey, F: FnMut(&T) -> K>(self, f: F) -> (r: Option<&'a mut T>)
        requires forall|i: int| 0 <= i < old(self.s)@.len() ==> f.requires((&#[trigger] old(self.s)@[i],)),
        ensures
            old(self.s)@.len() == 0 ==> r is None,
            old(self.s)@.len() > 0 ==> r is Some && exists|m: int, ks: Seq<K>|
                #![trigger first_min(ks, m)]
                keys_of(old(self.s)@, f, ks) && first_min(ks, m)
                && *r->Some_0 == old(self.s)@[m]
                && final(self.s)@ == old(self.s)@.update(m, *final(r->Some_0)),
    { unimplemented!() }
}
impl<'a, T> XIter<'a, Option<T>> {
    pub fn x_filter_map_as_ref(self) -> (r: XFilterMap<'a, T>)
        ensures r.s@ == self.s@,
    { XFilterMap { s: self.s } }
    pub fn flatten(self) -> (r: XFilterMap<'a, T>)
        ensures r.s@ == self.s@,
    { XFilterMap { s: self.s } }
}
impl<'a, T> XFilterMap<'a, T> {
    #[verifier::external_body]
    pub fn any<F: FnMut(&T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.s@.len() && (#[trigger] self.s@[i]) is Some ==> f.requires((&self.s@[i]->Some_0,)),
        ensures
            r ==> exists|i: int| 0 <= i < self.s@.len() && (#[trigger] self.s@[i]) is Some && f.ensures((&self.s@[i]->Some_0,), true),
            !r ==> forall|i: int| 0 <= i < self.s@.len() && (#[trigger] self.s@[i]) is Some ==> f.ensures((&self.s@[i]->Some_0,), false),
    { unimplemented!() }
}

// ------------------------------------------------------------------------------------------
// ghost vocabulary
// ------------------------------------------------------------------------------------------
/// A storage element: start(seq), data(key and value bytes), end(seq, checksum)
pub enum GElem { Start(u32), Data(Seq<u8>), End(u32, u32) }
/// An item of the storage: decoded element (None: does not decode) and its size in bytes
pub ghost struct GItem { pub e: Option<GElem>, pub len: nat }

/// A node's value, independent of its Rust type
#[verifier::external_body]
pub struct GVal { _p: u8 }

/// CBOR encoding of a key / of a value; decoding of a key / of a value of the given type
pub uninterp spec fn enc_key(k: Seq<char>) -> Seq<u8>;
pub uninterp spec fn dec_key(b: Seq<u8>) -> Option<Seq<char>>;
pub uninterp spec fn enc(v: GVal) -> Seq<u8>;
pub uninterp spec fn dec(kind: nat, b: Seq<u8>) -> Option<GVal>;
/// CRC-32 of a byte string
pub uninterp spec fn crc_of(b: Seq<u8>) -> u32;
/// immutable facts of a node: its key and its value type
pub uninterp spec fn nkey(n: nat) -> Seq<char>;
pub uninterp spec fn nkind(n: nat) -> nat;

#[verifier::external_body]
pub proof fn axiom_key(k: Seq<char>, rest: Seq<u8>)
    ensures
        enc_key(k).len() >= 1,
        dec_key(enc_key(k) + rest) == Some(k),
{}

/// splitting of the payload of a data element into key and value bytes
pub open spec fn split_kv(b: Seq<u8>) -> Option<(Seq<char>, Seq<u8>)> {
    match dec_key(b) {
        Some(k) => if enc_key(k).len() <= b.len() { Some((k, b.skip(enc_key(k).len() as int))) } else { None },
        None => None,
    }
}

pub tracked struct World {
    /// current contents of the storage medium, oldest first
    pub ghost store: Seq<GItem>,
    /// position of the (single) live iterator over the storage
    pub ghost cur: int,
    /// the storage stores exactly what it is told to store
    pub ghost honest: bool,
    /// the storage is honest and no operation on it fails
    pub ghost reliable: bool,
    /// number of items a reliable storage always has room for
    pub ghost slots: nat,
    /// upper bound on the number of items and the number of bytes the medium can hold
    pub ghost cap: nat,
    /// nodes attached to the list, in list order
    pub ghost order: Seq<nat>,
    /// state byte of each node
    pub ghost su: Map<nat, u8>,
    /// value held by each node
    pub ghost val: Map<nat, Option<GVal>>,
    /// number of wake-ups sent to each wait queue
    pub ghost wakes: Map<nat, nat>,
    /// number of completed waits on each wait queue
    pub ghost waits: Map<nat, nat>,
    /// is the list's mutex held?
    pub ghost locked: bool,
    /// what only the node functions look at
    pub ghost nd: NodeGhost,
}
/// Which list each node belongs to, and bookkeeping of the node layer
pub ghost struct NodeGhost {
    /// address of the list
    pub lid: usize,
    /// each node's `taken_for_list` word
    pub taken: Map<nat, usize>,
    /// nodes whose taken bit was set by us (a pending attach or detach, or a handle we own)
    pub mine: Set<nat>,
    /// how often each node's value was dropped in place
    pub drops: Map<nat, nat>,
    /// state at each acquisition of the lock and at each atomic operation on `taken_for_list`
    pub snaps: Seq<Snap>,
}
pub ghost struct Snap {
    pub order: Seq<nat>,
    pub su: Map<nat, u8>,
    pub val: Map<nat, Option<GVal>>,
    pub wakes: Map<nat, nat>,
    pub taken: Map<nat, usize>,
    pub drops: Map<nat, nat>,
}

pub open spec fn st_of(b: u8) -> State {
    if b == 0 { State::Initial } else if b == 1 { State::NonResident }
    else if b == 2 { State::ValidNoWriteNeeded } else { State::NeedsWrite }
}
pub open spec fn st_u8(s: State) -> u8 {
    match s { State::Initial => 0, State::NonResident => 1, State::ValidNoWriteNeeded => 2, State::NeedsWrite => 3 }
}
pub open spec fn live_st(s: State) -> bool { s is ValidNoWriteNeeded || s is NeedsWrite }

impl World {
    pub open spec fn st(&self, n: nat) -> State { st_of(self.su[n]) }
    pub open spec fn live(&self, n: nat) -> bool { live_st(self.st(n)) }
    pub open spec fn same_consts(&self, o: &World) -> bool {
        self.honest == o.honest && self.reliable == o.reliable && self.cap == o.cap && self.slots == o.slots && self.nd == o.nd
    }
    /// nothing but the storage (and its iterator) differs
    pub open spec fn same_nodes(&self, o: &World) -> bool {
        self.same_consts(o) && self.order == o.order && self.su == o.su && self.val == o.val
        && self.wakes == o.wakes && self.waits == o.waits && self.locked == o.locked
    }
    /// nothing but the iterator differs
    pub open spec fn same(&self, o: &World) -> bool { self.same_nodes(o) && self.store == o.store }
    pub open spec fn store_wf(&self) -> bool {
        &&& self.reliable ==> self.honest
        &&& self.store.len() <= self.cap && sum_len(self.store) <= self.cap && 8 * self.cap <= usize::MAX
        &&& 0 <= self.cur <= self.store.len()
        &&& items_ok(self.store)
    }
    pub open spec fn nodes_wf(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.order.len() ==> self.su.dom().contains(#[trigger] self.order[i]) && self.val.dom().contains(self.order[i])
        &&& forall|i: int, j: int| 0 <= i < j < self.order.len() ==> #[trigger] self.order[i] != #[trigger] self.order[j]
        &&& forall|i: int, j: int| 0 <= i < j < self.order.len() ==> nkey(#[trigger] self.order[i]) != nkey(#[trigger] self.order[j])
        &&& forall|n: nat| #[trigger] self.su.dom().contains(n) ==> self.su[n] <= 3
        &&& forall|n: nat| #[trigger] self.su.dom().contains(n) ==> (self.live(n) ==> self.val.dom().contains(n) && self.val[n] is Some)
        &&& forall|n: nat| #[trigger] self.su.dom().contains(n) ==> (!self.live(n) && self.val.dom().contains(n) ==> self.val[n] is None)
        &&& self.order.len() < 0x7fff_ffff
        &&& (self.order.len() + 4) * self.cap <= usize::MAX
    }
    pub open spec fn wf(&self) -> bool { self.store_wf() && self.nodes_wf() }
}

pub open spec fn items_ok(s: Seq<GItem>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> item_ok(#[trigger] s[i])
}
pub open spec fn item_ok(it: GItem) -> bool {
    match it.e { Some(GElem::Start(q)) => q > 0, Some(GElem::End(q, c)) => q > 0, _ => true }
}
pub open spec fn sum_len(s: Seq<GItem>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { sum_len(s.drop_last()) + s.last().len }
}
pub open spec fn is_start(it: GItem, q: u32) -> bool { it.e == Some(GElem::Start(q)) }
pub open spec fn is_any_start(it: GItem) -> bool { it.e matches Some(GElem::Start(_)) }
pub open spec fn is_data(it: GItem) -> bool { it.e matches Some(GElem::Data(_)) }
pub open spec fn kv_of(it: GItem) -> Seq<u8> {
    match it.e { Some(GElem::Data(d)) => d, _ => Seq::empty() }
}
pub open spec fn seq_of(it: GItem) -> u32 {
    match it.e { Some(GElem::Start(q)) => q, _ => 0 }
}
/// payload bytes of the data elements of s[a..b], concatenated
pub open spec fn kvs(s: Seq<GItem>, a: int, b: int) -> Seq<u8> decreases b - a {
    if b <= a { Seq::empty() } else { kvs(s, a, b - 1) + kv_of(s[b - 1]) }
}
pub open spec fn all_data(s: Seq<GItem>, a: int, b: int) -> bool {
    forall|i: int| a <= i < b ==> is_data(#[trigger] s[i])
}
/// s[a..=b] is a valid write record
pub open spec fn good_at(s: Seq<GItem>, a: int, b: int) -> bool {
    0 <= a < b < s.len() && is_any_start(s[a]) && all_data(s, a + 1, b)
    && s[b].e == Some(GElem::End(seq_of(s[a]), crc_of(kvs(s, a + 1, b))))
}

pub proof fn lemma_sum_step(s: Seq<GItem>, i: int)
    requires 0 <= i < s.len(),
    ensures sum_len(s.take(i + 1)) == sum_len(s.take(i)) + s[i].len,
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}
pub proof fn lemma_sum_concat(a: Seq<GItem>, b: Seq<GItem>)
    ensures sum_len(a + b) == sum_len(a) + sum_len(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        lemma_sum_concat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
pub proof fn lemma_sum_le(s: Seq<GItem>, i: int)
    requires 0 <= i <= s.len(),
    ensures sum_len(s.take(i)) <= sum_len(s),
{
    lemma_sum_concat(s.take(i), s.skip(i));
    assert(s.take(i) + s.skip(i) =~= s);
}
pub proof fn lemma_kvs_same(s: Seq<GItem>, t: Seq<GItem>, a: int, b: int, d: int)
    requires forall|i: int| a <= i < b ==> #[trigger] s[i] == t[i + d],
    ensures kvs(s, a, b) == kvs(t, a + d, b + d),
    decreases b - a,
{
    if b > a {
        lemma_kvs_same(s, t, a, b - 1, d);
        assert(s[b - 1] == t[b - 1 + d]);
    }
}
/// a record is valid wherever the same elements lie
pub proof fn lemma_good_same(s: Seq<GItem>, t: Seq<GItem>, a: int, b: int, d: int)
    requires
        0 <= a < b < s.len(), 0 <= a + d, b + d < t.len(),
        forall|i: int| a <= i <= b ==> #[trigger] s[i] == t[i + d],
    ensures
        good_at(s, a, b) == good_at(t, a + d, b + d),
        kvs(s, a + 1, b) == kvs(t, a + 1 + d, b + d),
        seq_of(s[a]) == seq_of(t[a + d]),
{
    assert(s[a] == t[a + d]);
    assert(s[b] == t[b + d]);
    lemma_kvs_same(s, t, a + 1, b, d);
    if all_data(s, a + 1, b) {
        assert forall|i: int| a + 1 + d <= i < b + d implies is_data(#[trigger] t[i]) by { assert(s[i - d] == t[i]); }
    }
    if all_data(t, a + 1 + d, b + d) {
        assert forall|i: int| a + 1 <= i < b implies is_data(#[trigger] s[i]) by { assert(s[i] == t[i + d]); }
    }
}

// ------------------------------------------------------------------------------------------
// serialising and deserialising a node's value (list layer: assumed of the function pointers;
// node layer: proved of the functions they point to)
// ------------------------------------------------------------------------------------------
/// is `n` attached to the list?
pub open spec fn attached(w: World, n: nat) -> bool {
    w.order.contains(n)
}
pub open spec fn ser_pre(w: World, n: nat) -> bool {
    w.locked && attached(w, n) && w.su.dom().contains(n) && w.live(n) && w.val.dom().contains(n) && w.val[n] is Some
}
pub open spec fn ser_post(w0: World, w1: World, n: nat, b0: Seq<u8>, b1: Seq<u8>, r: Option<nat>) -> bool {
    &&& w1 == w0
    &&& b1.len() == b0.len()
    &&& ({
        let b = enc(w0.val[n]->Some_0);
        match r {
            Some(k) => k == b.len() && b.len() <= b0.len() && b1.take(k as int) == b,
            None => b.len() > b0.len(),
        }
    })
}
pub open spec fn deser_pre(w: World, n: nat) -> bool {
    w.locked && attached(w, n) && w.su.dom().contains(n) && w.val.dom().contains(n) && w.su[n] == 0 && w.val[n] is None
}
pub open spec fn deser_post(w0: World, w1: World, n: nat, b: Seq<u8>, ok: bool) -> bool {
    match dec(nkind(n), b) {
        Some(v) => ok && w1 == (World { val: w0.val.insert(n, Some(v)), ..w0 }),
        None => !ok && w1 == w0,
    }
}

// ------------------------------------------------------------------------------------------
// what one part of the system may do to a node while another part is waiting
// ------------------------------------------------------------------------------------------
/// how reading and writing passes move a node's state; a value once present does not change
pub open spec fn passed(w0: World, w1: World, n: nat) -> bool {
    let (u0, u1) = (w0.su[n], w1.su[n]);
    &&& u0 == 0 ==> u1 <= 2
    &&& u0 == 1 ==> u1 == 1
    &&& u0 == 2 ==> u1 == 2
    &&& u0 == 3 ==> u1 == 2 || u1 == 3
    &&& u0 == 2 || u0 == 3 ==> w1.val[n] == w0.val[n]
    &&& u1 <= 1 ==> w1.val[n] is None
    &&& u1 == 2 || u1 == 3 ==> w1.val[n] is Some
}
/// the same, seen at any moment, also in the middle of a pass
pub open spec fn stepped(w0: World, w1: World, n: nat) -> bool {
    let (u0, u1) = (w0.su[n], w1.su[n]);
    &&& u0 == 0 ==> u1 <= 2
    &&& u0 == 1 ==> u1 == 1
    &&& u0 == 2 ==> u1 == 2
    &&& u0 == 3 ==> u1 == 2 || u1 == 3
    &&& u0 == 2 || u0 == 3 ==> w1.val[n] == w0.val[n]
    &&& u1 == 2 || u1 == 3 ==> w1.val[n] is Some
}
/// what the storage passes of a list do to nodes (list layer: proved of every pass; node layer:
/// part of what the environment may do)
pub open spec fn passes_rely(w0: World, w1: World) -> bool {
    &&& w1.order == w0.order && w1.nd == w0.nd && w1.su.dom() =~= w0.su.dom() && w1.val.dom() =~= w0.val.dom()
    &&& forall|n: nat| #[trigger] w0.su.dom().contains(n) && w0.val.dom().contains(n) && w0.order.contains(n) ==> passed(w0, w1, n)
    &&& forall|n: nat| #[trigger] w0.su.dom().contains(n) && !w0.order.contains(n) ==> w1.su[n] == w0.su[n] && w1.val[n] == w0.val[n]
}

// ------------------------------------------------------------------------------------------
// storage traits: contracts assumed of an implementation (Flash: see the flash layer)
// ------------------------------------------------------------------------------------------
pub open spec fn ev(e: Elem) -> GElem {
    match e {
        Elem::Start { seq_no } => GElem::Start(seq_no@),
        Elem::Data { data } => GElem::Data(data.hdr_key_val@.skip(1)),
        Elem::End { seq_no, calc_crc } => GElem::End(seq_no@, calc_crc),
    }
}
pub open spec fn elem_wf(e: Elem) -> bool {
    e matches Elem::Data { data } ==> data.hdr_key_val@.len() >= 1
}
/// the header byte of a data element says so
pub open spec fn elem_hdr(e: Elem) -> bool {
    e matches Elem::Data { data } ==> data.hdr_key_val@.len() >= 1 && data.hdr_key_val@[0] == 1
}
/// what a push may do to the storage: on success exactly the element is appended; otherwise it
/// is appended or not.  A dishonest storage may append anything (but never alters what is there).
pub open spec fn push_effect(s0: Seq<GItem>, s1: Seq<GItem>, e: GElem, honest: bool, ok: bool, used: nat) -> bool {
    &&& s0.len() <= s1.len() && s1.take(s0.len() as int) == s0
    &&& honest ==> (s1 == s0 && !ok) || (s1.len() == s0.len() + 1 && s1.last().e == Some(e) && (ok ==> s1.last().len == used))
}
pub open spec fn push_pre(w0: World, e: Elem) -> bool {
    w0.store_wf() && elem_hdr(e) && (ev(e) matches GElem::Data(d) ==> d.len() >= 1)
}
/// contract of NdlDataStorage::push
pub open spec fn push_post(w0: World, w1: World, e: GElem, r: Option<usize>) -> bool {
    &&& w1.same_nodes(&w0) && w1.store_wf()
    &&& push_effect(w0.store, w1.store, e, w0.honest, r is Some, match r { Some(n) => n as nat, None => 0 })
    &&& r matches Some(n) ==> n <= w0.cap
    &&& w0.reliable && w0.store.len() < w0.slots ==> r is Some
}
/// contract of NdlDataStorage::iter_elems
pub open spec fn iter_post(w0: World, w1: World, ok: bool) -> bool {
    &&& w1.same(&w0) && w1.store_wf()
    &&& ok ==> w1.cur == 0
    &&& w0.reliable ==> ok
}
/// contract of NdlElemIter::next: None for an error, Some(None) at the end
pub open spec fn next_post(w0: World, w1: World, r: Option<Option<GItem>>) -> bool {
    &&& w1.same(&w0) && w1.store_wf()
    &&& r matches Some(Some(it)) ==> w0.cur < w0.store.len() && w1.cur == w0.cur + 1 && it == w0.store[w0.cur]
    &&& r matches Some(None) ==> w1.cur == w0.cur && w0.cur == w0.store.len()
    &&& w0.reliable ==> r is Some
}
pub trait NdlDataStorage {
    type Iter<'this>: NdlElemIter<Error = Self::Error>
    where
        Self: 'this;
    type Error;
    /// the associated constant MAX_ELEM_SIZE
    spec fn max_elem() -> nat;
    fn x_max_elem_size() -> (r: usize)
        ensures r == Self::max_elem();
    fn iter_elems<'this>(
        &'this mut self,
        Tracked(w): Tracked<&mut World>,
    ) -> (r: Result<Self::Iter<'this>, <Self::Iter<'this> as NdlElemIter>::Error>)
        requires old(w).store_wf(),
        ensures iter_post(*old(w), *final(w), r is Ok);
    fn push(&mut self, Tracked(w): Tracked<&mut World>, data: &Elem<'_>) -> (r: Result<usize, Self::Error>)
        requires push_pre(*old(w), *data),
        ensures push_post(*old(w), *final(w), ev(*data), match r { Ok(n) => Some(n), Err(_) => None });
}
pub trait NdlElemIter {
    type Item<'this, 'buf>: NdlElemIterNode<Error = Self::Error>
    where
        Self: 'this,
        Self: 'buf;
    type Error;
    fn next<'iter, 'buf>(
        &'iter mut self,
        Tracked(w): Tracked<&mut World>,
        buf: &'buf mut [u8],
    ) -> (r: Result<Option<Self::Item<'iter, 'buf>>, Self::Error>)
    where
        Self: 'buf,
        Self: 'iter,
        requires old(w).store_wf(),
        ensures
            final(buf)@.len() == old(buf)@.len(),
            next_post(*old(w), *final(w), match r { Ok(Some(it)) => Some(Some(it.gi())), Ok(None) => Some(None), Err(_) => None });
}
pub trait NdlElemIterNode {
    type Error;
    spec fn gi(&self) -> GItem;
    fn data(&self) -> (r: Option<Elem<'_>>)
        ensures match (r, self.gi().e) {
            (None, None) => true,
            (Some(x), Some(g)) => ev(x) == g && elem_wf(x),
            _ => false,
        };
    fn len(&self) -> (r: usize)
        ensures r == self.gi().len;
    fn invalidate(self, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>)
        requires
            old(w).store_wf(), old(w).cur > 0, old(w).store[old(w).cur - 1] == self.gi(),
        ensures
            final(w).same_nodes(old(w)), final(w).store_wf(),
            r is Ok ==> final(w).store == old(w).store.remove(old(w).cur - 1) && final(w).cur == old(w).cur - 1,
            r is Err ==> final(w).store == old(w).store || final(w).store == old(w).store.remove(old(w).cur - 1),
            old(w).reliable ==> r is Ok;
}

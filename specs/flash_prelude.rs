// ------------------------------------------------------------------------------------------
// flash layer: contracts assumed of sequential-storage's queue and of the flash's constants
// ------------------------------------------------------------------------------------------
use core::ops::Deref;
pub trait MultiwriteNorFlash {
    const WRITE_SIZE: usize;
    const READ_SIZE: usize;
    const ERASE_SIZE: usize;
}
pub trait CacheImpl {}
pub struct NoCache;
impl CacheImpl for NoCache {}
/// error of the queue
pub enum QErr { FullStorage, ItemTooBig, Other }

pub open spec fn word<T: MultiwriteNorFlash>() -> nat {
    if T::WRITE_SIZE > T::READ_SIZE { T::WRITE_SIZE as nat } else { T::READ_SIZE as nat }
}
/// per-item overhead of the queue (header, checksum, alignment)
pub uninterp spec fn overhead<T: MultiwriteNorFlash>() -> nat;
/// geometry of a flash the queue accepts (checked by QueueConfig, and by the compiler when it
/// evaluates MAX_ELEM_SIZE)
#[verifier::external_body]
pub proof fn axiom_geometry<T: MultiwriteNorFlash>()
    ensures
        1 <= word::<T>(), word::<T>() <= T::ERASE_SIZE <= 0x3fff_ffff,
        overhead::<T>() + 2 * word::<T>() <= T::ERASE_SIZE,
{}
pub open spec fn round_up(n: nat, m: nat) -> nat
    recommends m > 0,
{ if n % m == 0 { n } else { (n + (m - n % m)) as nat } }
/// size of a payload of n bytes in the queue
pub open spec fn qsize<T: MultiwriteNorFlash>(n: nat) -> nat { overhead::<T>() + round_up(n, word::<T>()) }

// ---- the format (independent of the code): version/kind byte, little-endian fields
pub open spec fn le4(b: Seq<u8>) -> nat {
    (b[0] as nat) + 0x100 * (b[1] as nat) + 0x1_0000 * (b[2] as nat) + 0x100_0000 * (b[3] as nat)
}
pub open spec fn enc4(x: u32) -> Seq<u8> {
    seq![(x as int % 0x100) as u8, (x as int / 0x100 % 0x100) as u8, (x as int / 0x1_0000 % 0x100) as u8, (x as int / 0x100_0000) as u8]
}
pub open spec fn parse(b: Seq<u8>) -> Option<GElem> {
    if b.len() == 5 && b[0] == 0 && le4(b.skip(1)) > 0 { Some(GElem::Start(le4(b.skip(1)) as u32)) }
    else if b.len() >= 2 && b[0] == 1 { Some(GElem::Data(b.skip(1))) }
    else if b.len() == 9 && b[0] == 2 && le4(b.skip(1)) > 0 { Some(GElem::End(le4(b.skip(1)) as u32, le4(b.skip(5)) as u32)) }
    else { None }
}
pub open spec fn bytes_of(e: GElem) -> Seq<u8> {
    match e {
        GElem::Start(q) => seq![0u8] + enc4(q),
        GElem::Data(d) => seq![1u8] + d,
        GElem::End(q, c) => seq![2u8] + enc4(q) + enc4(c),
    }
}
/// the queue item a byte string is
pub open spec fn qitem<T: MultiwriteNorFlash>(b: Seq<u8>) -> GItem { GItem { e: parse(b), len: qsize::<T>(b.len()) } }

pub open spec fn elem_valid(e: GElem) -> bool {
    match e { GElem::Start(q) => q > 0, GElem::Data(d) => d.len() >= 1, GElem::End(q, c) => q > 0 }
}
pub proof fn lemma_le(x: u32)
    ensures enc4(x).len() == 4, le4(enc4(x)) == x,
{
    let x = x as int;
    let (a, b, c, d) = (x % 0x100, x / 0x100 % 0x100, x / 0x1_0000 % 0x100, x / 0x100_0000);
    assert(x == a + 0x100 * b + 0x1_0000 * c + 0x100_0000 * d) by {
        assert(x / 0x1_0000 == x / 0x100 / 0x100);
        assert(x / 0x100_0000 == x / 0x1_0000 / 0x100);
    }
}
pub proof fn lemma_le_inv(b: Seq<u8>)
    requires b.len() == 4,
    ensures 0 <= le4(b) <= 0xffff_ffff, enc4(le4(b) as u32) == b,
{
    let x = le4(b) as int;
    assert(x % 0x100 == b[0]);
    assert(x / 0x100 % 0x100 == b[1]);
    assert(x / 0x1_0000 % 0x100 == b[2]);
    assert(x / 0x100_0000 == b[3]);
    assert(enc4(x as u32) =~= b);
}
/// what is pushed decodes to the same element
pub proof fn theorem_round_trip(e: GElem)
    requires elem_valid(e),
    ensures
        parse(bytes_of(e)) == Some(e), // @C09
        e is Start ==> bytes_of(e).len() == 5, // @C09
        e is End ==> bytes_of(e).len() == 9, // @C09
{
    let b = bytes_of(e);
    match e {
        GElem::Start(q) => { lemma_le(q); assert(b.skip(1) =~= enc4(q)); }
        GElem::Data(d) => { assert(b.skip(1) =~= d); }
        GElem::End(q, c) => {
            lemma_le(q); lemma_le(c);
            assert(b.skip(5) =~= enc4(c));
            assert(le4(b.skip(1)) == le4(enc4(q)));
        }
    }
}
/// nothing else decodes to it
pub proof fn theorem_only_form(b: Seq<u8>, e: GElem)
    requires parse(b) == Some(e),
    ensures b == bytes_of(e), elem_valid(e), // @C09
{
    match e {
        GElem::Start(q) => { lemma_le_inv(b.skip(1)); assert(b =~= seq![0u8] + b.skip(1)); }
        GElem::Data(d) => { assert(b =~= seq![1u8] + b.skip(1)); }
        GElem::End(q, c) => {
            lemma_le_inv(b.subrange(1, 5)); lemma_le_inv(b.skip(5));
            assert(le4(b.skip(1)) == le4(b.subrange(1, 5)));
            assert(b =~= seq![2u8] + b.subrange(1, 5) + b.skip(5));
        }
    }
}
pub proof fn lemma_round_up(n: nat, m: nat)
    requires m > 0,
    ensures n <= round_up(n, m) < n + m, round_up(n, m) % m == 0,
{
    if n % m != 0 {
        let q = n / m;
        assert(n == m * q + n % m) by (nonlinear_arith) requires m > 0, q == n / m;
        assert(m * (q + 1) == m * q + m) by (nonlinear_arith);
        assert(round_up(n, m) == m * (q + 1));
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic((q + 1) as int, m as int);
        assert(m * (q + 1) == (q + 1) * m) by (nonlinear_arith);
    }
}
pub proof fn lemma_size<T: MultiwriteNorFlash>(n: nat)
    requires n <= isize::MAX,
    ensures qsize::<T>(n) <= n + 0x3fff_ffff <= usize::MAX, round_up(n, word::<T>()) <= n + 0x3fff_ffff,
{
    axiom_geometry::<T>();
    lemma_round_up(n, word::<T>());
}

/// no slice is longer
#[verifier::external_body]
pub broadcast proof fn axiom_slice_len(s: &[u8])
    ensures #[trigger] s@.len() <= isize::MAX,
{}

// ---- std
pub trait XLe: Sized {
    spec fn le_s(self) -> Seq<u8>;
    fn x_to_le_bytes(self) -> (r: [u8; 4])
        ensures r@ == self.le_s();
    fn x_to_be_bytes(self) -> (r: [u8; 4])
        ensures r@ == self.le_s().reverse();
}
impl XLe for u32 {
    open spec fn le_s(self) -> Seq<u8> { enc4(self) }
    #[verifier::external_body]
    fn x_to_le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn x_to_be_bytes(self) -> (r: [u8; 4]) { self.to_be_bytes() }
}
#[verifier::external_body]
pub fn x_u32_from_le(b: [u8; 4]) -> (r: u32)
    ensures r == le4(b@),
{ u32::from_le_bytes(b) }
#[verifier::external_body]
pub fn x_u32_from_be(b: [u8; 4]) -> (r: u32)
    ensures r == le4(b@.reverse()),
{ u32::from_be_bytes(b) }
pub trait XMul: Sized {
    spec fn nat_s(self) -> nat;
    fn x_next_multiple_of(self, m: usize) -> (r: usize)
        requires m > 0, round_up(self.nat_s(), m as nat) <= usize::MAX,
        ensures r == round_up(self.nat_s(), m as nat);
}
impl XMul for usize {
    open spec fn nat_s(self) -> nat { self as nat }
    #[verifier::external_body]
    fn x_next_multiple_of(self, m: usize) -> (r: usize) { self.next_multiple_of(m) }
}

// ---- minicbor
pub trait XCbor: Sized { spec fn enc_s(self) -> Seq<u8>; }
impl XCbor for &str { open spec fn enc_s(self) -> Seq<u8> { enc_key(self@) } }
#[verifier::external_body]
pub fn x_len_with<T: XCbor>(t: T, c: &mut ()) -> (r: usize)
    ensures r == t.enc_s().len(), r <= isize::MAX,
{ unimplemented!() }

// ---- the queue
pub struct QueueStorage<T, C> { pub flash: T, pub cache: C }
pub struct QueueIterator<'s, T, C> { pub storage: &'s mut QueueStorage<T, C> }
pub struct QueueIteratorEntry<'s, 'd, 'q, T, C> { pub iter: &'q mut QueueIterator<'s, T, C>, pub item: &'d mut [u8] }
impl<T: MultiwriteNorFlash, C: CacheImpl> QueueStorage<T, C> {
    #[verifier::external_body]
    pub fn item_overhead_size() -> (r: u32)
        ensures r == overhead::<T>(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Result<QueueIterator<'_, T, C>, QErr>)
        requires old(w).store_wf(),
        ensures
            final(w).same(old(w)), final(w).store_wf(),
            r is Ok ==> final(w).cur == 0,
            old(w).reliable ==> r is Ok,
    { unimplemented!() }
    /// Without leave to overwrite, nothing stored is lost; with it anything may go.
    #[verifier::external_body]
    pub fn push(&mut self, Tracked(w): Tracked<&mut World>, data: &[u8], allow_overwrite_old_data: bool) -> (r: Result<(), QErr>)
        requires old(w).store_wf(),
        ensures
            final(w).same_nodes(old(w)), final(w).store_wf(),
            !allow_overwrite_old_data ==> {
                &&& old(w).store.len() <= final(w).store.len()
                &&& final(w).store.take(old(w).store.len() as int) == old(w).store
                &&& old(w).honest ==> (final(w).store == old(w).store && r is Err) || final(w).store == old(w).store.push(qitem::<T>(data@))
            },
            r is Ok ==> data@.len() <= 0xffff && qsize::<T>(data@.len()) <= old(w).cap,
            old(w).reliable && old(w).store.len() < old(w).slots ==> r is Ok,
    { unimplemented!() }
}
impl<'s, T: MultiwriteNorFlash, C: CacheImpl> QueueIterator<'s, T, C> {
    #[verifier::external_body]
    pub fn next<'d, 'q>(&'q mut self, Tracked(w): Tracked<&mut World>, data_buffer: &'d mut [u8]) -> (r: Result<Option<QueueIteratorEntry<'s, 'd, 'q, T, C>>, QErr>)
        requires old(w).store_wf(),
        ensures
            final(data_buffer)@.len() == old(data_buffer)@.len(),
            final(w).same(old(w)), final(w).store_wf(),
            r matches Ok(Some(it)) ==> old(w).cur < old(w).store.len() && final(w).cur == old(w).cur + 1
                && qitem::<T>(it.bytes()) == old(w).store[old(w).cur],
            r matches Ok(None) ==> final(w).cur == old(w).cur && old(w).cur == old(w).store.len(),
            old(w).reliable ==> r is Ok,
    { unimplemented!() }
}
impl<'s, 'd, 'q, T, C> QueueIteratorEntry<'s, 'd, 'q, T, C> {
    pub open spec fn bytes(&self) -> Seq<u8> { self.item@ }
    /// an item's length is stored in 16 bits
    #[verifier::external_body]
    pub proof fn axiom_len(&self)
        ensures self.bytes().len() <= 0xffff,
    {}
}
impl<'s, 'd, 'q, T, C> core::ops::Deref for QueueIteratorEntry<'s, 'd, 'q, T, C> {
    type Target = [u8];
    fn deref(&self) -> (r: &[u8])
        ensures r@ == self.bytes(),
    { self.item }
}
impl<'s, 'd, 'q, T: MultiwriteNorFlash, C: CacheImpl> QueueIteratorEntry<'s, 'd, 'q, T, C> {
    #[verifier::external_body]
    pub fn pop(self, Tracked(w): Tracked<&mut World>) -> (r: Result<&'d mut [u8], QErr>)
        requires
            old(w).store_wf(), old(w).cur > 0, old(w).store[old(w).cur - 1].len == qsize::<T>(self.bytes().len()),
        ensures
            final(w).same_nodes(old(w)), final(w).store_wf(),
            r is Ok ==> final(w).store == old(w).store.remove(old(w).cur - 1) && final(w).cur == old(w).cur - 1,
            r is Err ==> final(w).store == old(w).store || final(w).store == old(w).store.remove(old(w).cur - 1),
            old(w).reliable ==> r is Ok,
    { unimplemented!() }
}
pub struct AlwaysEmptyFlash;
pub struct AlwaysEmptyIter;
pub struct NeverNode {}
pub struct Infallible {}
/// what a half-decoded element stands for
pub open spec fn half_elem(h: Option<HalfElem>, b: Seq<u8>) -> Option<GElem> {
    match h {
        None => None,
        Some(HalfElem::Start { seq_no }) => Some(GElem::Start(seq_no@)),
        Some(HalfElem::Data) => if b.len() >= 1 { Some(GElem::Data(b.skip(1))) } else { None },
        Some(HalfElem::End { seq_no, calc_crc }) => Some(GElem::End(seq_no@, calc_crc)),
    }
}

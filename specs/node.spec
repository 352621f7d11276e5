# Contracts for storage_node.rs
@prim lock load store wake wake_all find x_find update_w fetch_update compare_exchange write assume_init_ref assume_init_mut assume_init_drop push_front push_back remove
@lockm lock
@waitm wait_for_value
@rawptr
@guards
@rename_method find x_find
@rename_method unwrap_unchecked x_unwrap_unchecked
@rename_method clone x_clone
@rename_path minicbor::encode x_encode
@rename_path minicbor::decode x_decode<>
@rename_path len_with x_len_with
@rename_path list::Links::new x_links_new
@rename_path drop x_drop

@type State PartialEq, Eq, Structural
@type AtomicState
@type NodeHeader
@type_subst UnsafeCell < list :: Links < NodeHeader > > => UnsafeCell < XLinks >
@type Node
@type VTable Clone, Copy
@type StorageListNode
@type StorageListNodeHandle
@type SerData
@type Elem
@type Error
@type StorageList
@type StorageListInner
@type_subst SeqState < KEPT_RECORDS > => XSeqState

# ---------------------------------------------------------------- state atom
@fn State::into_u8 props=C19
@contract
    ensures ret == st_u8(self),
@endfn
@fn State::try_from_u8 props=C19
@contract
    ensures $1 <= 3 ==> ret == Some(st_of($1)), $1 > 3 ==> ret is None,
@endfn
@fn AtomicState::new props=C12,C13
@contract
    ensures ret.inner.init@ == st_u8($1),
@endfn
@fn AtomicState::load world props=C12,C13
@contract
    requires old(w).su.dom().contains(self.inner.id@), old(w).su[self.inner.id@] <= 3,
    ensures *final(w) == *old(w), ret == old(w).st(self.inner.id@),
@endfn
@fn AtomicState::store world props=C12,C13
@contract
    requires
        old(w).su.dom().contains(self.inner.id@), old(w).locked, old(w).nd.mine.contains(self.inner.id@),
        $1 is ValidNoWriteNeeded ==> old(w).su[self.inner.id@] == 2,
    ensures *final(w) == (World { su: old(w).su.insert(self.inner.id@, st_u8($1)), ..*old(w) }),
@endfn
@fn VTable::for_ty props=C11,C12
@generics <T: XVal>
@where -
@subst deserialize :: < T > => x_deser_fn::<T>()
@subst serialize :: < T > => x_ser_fn::<T>()
@contract
    ensures ret.serialize.k@ == T::kind(), ret.deserialize.k@ == T::kind(),
@endfn

@fn StorageListInner::find_node world props=C12
@contract
    requires old(w).locked,
    ensures
        *final(w) == *old(w), *final(self) == *old(self),
        match ret {
            Some(p) => attached(*old(w), p.id@) && nkey(p.id@) == $1@,
            None => forall|n: nat| attached(*old(w), n) ==> nkey(n) != $1@,
        },
@closure 0 b: bool
 ensures b == (nkey($c0.id@) == $1@)
@endfn

# ---------------------------------------------------------------- nodes
@fn StorageListNode::new props=C12,C13
@impl impl<T: XVal> StorageListNode<T>
@contract
    ensures
        ret.taken_for_list.init@ == 0, ret.inner.header.state.inner.init@ == 0, ret.inner.t.v.empty@,
        ret.inner.header.key@ == $1@,
        ret.inner.header.vtable.serialize.k@ == T::kind(), ret.inner.header.vtable.deserialize.k@ == T::kind(),
@endfn
@fn StorageListNode::attach_with_default world props=C12,C13
@attr verifier::exec_allows_no_decreases_clause
@impl impl<T: XVal> StorageListNode<T>
@contract
    requires
        !old(w).locked, mine_ok(*old(w)), known(*old(w), nid(*self)), node_is(*self, nid(*self)),
        list_ok(*$1), laddr(*$1) == old(w).nd.lid, $2.requires(()),
    ensures
        attach_post(*old(w), *final(w), nid(*self), is_list::<R, KEPT_RECORDS>(old(w).nd.lid), match ret {
            Ok(h) => if nid(*h.inner) == nid(*self) && node_is(*h.inner, nid(*self)) { 0 } else { 9 },
            Err(Error::AlreadyTaken) => 1,
            Err(Error::NodeInOtherList) => 2,
            Err(Error::DuplicateKey) => 3,
            Err(_) => 9,
        }), // @C12 C13
        ret is Ok ==> announced(*old(w), *final(w), nid(*self)), // @C24
        ret is Ok && fresh_at(*old(w), *final(w), nid(*self)) && final(w).su[nid(*self)] == 3 ==>
            exists|v: T| #[trigger] $2.ensures((), v) && final(w).val[nid(*self)] == Some(v.gval()), // @C13
@proof entry
    broadcast use lemma_interfered_trans;
@closure 0 r: Option<XPtr<()>>
 ensures match r {
    Some(q) => ($c0.addr == 0 || $c0.addr == laddr(*$1)) && q.addr == laddr(*$1) + 1,
    None => $c0.addr != 0 && $c0.addr != laddr(*$1),
 }
@loop 0
 invariant
    announced(*old(w), *w, nid(*self)), // @C24
    !w.locked, mine_ok(*w), attach_mid(*old(w), *w, nid(*self)), is_list::<R, KEPT_RECORDS>(w.nd.lid), node_is(*self, nid(*self)),
    list_ok(*$1), laddr(*$1) == old(w).nd.lid, $2.requires(()), ${already_attached} <==> !fresh_at(*old(w), *w, nid(*self)),
@endfn
@fn StorageListNode::attach world props=C12,C13
@impl impl<T: XVal> StorageListNode<T>
@ret Result<StorageListNodeHandle<T, R, KEPT_RECORDS>, Error>
@subst Default :: default => x_default::<T>
@contract
    requires
        !old(w).locked, mine_ok(*old(w)), known(*old(w), nid(*self)), node_is(*self, nid(*self)),
        list_ok(*$1), laddr(*$1) == old(w).nd.lid,
    ensures
        attach_post(*old(w), *final(w), nid(*self), is_list::<R, KEPT_RECORDS>(old(w).nd.lid), match ret {
            Ok(h) => if nid(*h.inner) == nid(*self) && node_is(*h.inner, nid(*self)) { 0 } else { 9 },
            Err(Error::AlreadyTaken) => 1,
            Err(Error::NodeInOtherList) => 2,
            Err(Error::DuplicateKey) => 3,
            Err(_) => 9,
        }), // @C12 C13
        ret is Ok ==> announced(*old(w), *final(w), nid(*self)), // @C24
        ret is Ok && fresh_at(*old(w), *final(w), nid(*self)) && final(w).su[nid(*self)] == 3 ==>
            final(w).val[nid(*self)] == Some(T::dflt()), // @C13
@endfn
@fn StorageListNode::detach world props=C12
@impl impl<T: XVal> StorageListNode<T>
@contract
    requires
        !old(w).locked, mine_ok(*old(w)), known(*old(w), nid(*self)), node_is(*self, nid(*self)),
        list_ok(*$1), laddr(*$1) == old(w).nd.lid,
    ensures
        detach_post(*old(w), *final(w), nid(*self), match ret {
            Ok(_) => 0,
            Err(Error::AlreadyTaken) => 1,
            Err(Error::NodeInOtherList) => 2,
            Err(_) => 9,
        }), // @C12
@endfn

# ---------------------------------------------------------------- handles
@fn StorageListNodeHandle::key props=C12
@impl impl<T: XVal, R: ScopedRawMutex + 'static, const KEPT_RECORDS: usize> StorageListNodeHandle<T, R, KEPT_RECORDS>
@contract
    requires node_is(*self.inner, nid(*self.inner)),
    ensures ret@ == nkey(nid(*self.inner)),
@endfn
@fn StorageListNodeHandle::list world props=C12,C13
@impl impl<T: XVal, R: ScopedRawMutex + 'static, const KEPT_RECORDS: usize> StorageListNodeHandle<T, R, KEPT_RECORDS>
@contract
    requires handle_is(*self, *old(w)), mine_ok(*old(w)),
    ensures *final(w) == *old(w), laddr(*ret) == old(w).nd.lid, list_ok(*ret),
@endfn
@fn StorageListNodeHandle::load world props=C13
@impl impl<T: XVal, R: ScopedRawMutex + 'static, const KEPT_RECORDS: usize> StorageListNodeHandle<T, R, KEPT_RECORDS>
@contract
    requires handle_is(*self, *old(w)), mine_ok(*old(w)),
    ensures *final(w) == *old(w), old(w).val[nid(*self.inner)] == Some(ret.gval()), // @C13
@endfn
@fn StorageListNodeHandle::write world props=C13
@impl impl<T: XVal, R: ScopedRawMutex + 'static, const KEPT_RECORDS: usize> StorageListNodeHandle<T, R, KEPT_RECORDS>
@contract
    requires !old(w).locked, handle_is(*old(self), *old(w)), mine_ok(*old(w)),
    ensures
        *final(self) == *old(self), ret is Ok, // @C13
        write_post(*old(w), *final(w), nid(*old(self).inner), $1.gval()), // @C13
        write_announced(*old(w), *final(w)), // @C24
@endfn
@fn StorageListNodeHandle::drop trait=Drop world rename=x_drop_handle props=C12
@impl impl<T: XVal, R: ScopedRawMutex + 'static, const KEPT_RECORDS: usize> StorageListNodeHandle<T, R, KEPT_RECORDS>
@contract
    requires handle_is(*old(self), *old(w)), mine_ok(*old(w)),
    ensures drop_post(*old(w), *final(w), nid(*old(self).inner)), // @C12
@closure 0 r: Option<XPtr<()>>
 requires $c0.addr % 2 == 1, $c0.addr > 1,
 ensures r matches Some(q) && q.addr == $c0.addr - 1
@endfn

# ---------------------------------------------------------------- values
@fn serialize world props=C11,C13
@generics <T: XVal>
@where -
@contract
    requires ser_pre(*old(w), $1.id@), $1.whole@, nkind($1.id@) == T::kind(),
    ensures ser_post(*old(w), *final(w), $1.id@, old($2)@, final($2)@, match ret { Ok(k) => Some(k as nat), Err(_) => None }), // @C11
@endfn
@fn deserialize world props=C11,C13
@generics <T: XVal>
@where -
@contract
    requires deser_pre(*old(w), $1.id@), $1.whole@, nkind($1.id@) == T::kind(),
    ensures deser_post(*old(w), *final(w), $1.id@, $2@, ret is Ok), // @C11
@endfn

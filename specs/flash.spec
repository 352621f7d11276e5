# Contracts for flash.rs and the size check of lib.rs
@prim iter_elems push next invalidate pop iter
@rename_method to_le_bytes x_to_le_bytes
@rename_method next_multiple_of x_next_multiple_of
@rename_path u32::from_le_bytes x_u32_from_le
@rename_method to_be_bytes x_to_be_bytes
@rename_path u32::from_be_bytes x_u32_from_be
@rename_path len_with x_len_with
@const_call MAX_ELEM_SIZE x_max_elem_size

@type State PartialEq, Eq, Structural
@type SerData
@type Elem
@type HalfElem Clone, Copy
@type Flash
@type FlashIter
@type FlashNode

@fn max props=C10
@contract
    ensures ret == if $1 > $2 { $1 } else { $2 },
@endfn
@fn SerData::from_existing props=C09
@contract
    ensures
        $1@.len() == 0 <==> ret is None,
        ret matches Some(s) ==> s.hdr_key_val@ == $1@,
@endfn
@fn size_with_overhead props=C10,C17
@contract
    requires $1 <= isize::MAX,
    ensures ret == qsize::<T>($1 as nat),
@proof entry
    axiom_geometry::<T>();
    lemma_size::<T>($1 as nat);
@endfn
@fn HalfElem::from_bytes props=C09,C11,C19
@contract
    ensures half_elem(ret, $1@) == parse($1@), ret matches Some(HalfElem::Data) ==> $1@.len() >= 2,
@endfn

# ---------------------------------------------------------------- Flash
# (inherent functions with the contracts of the storage traits: the verifier does not accept an
# implementation of a trait with generic associated types)
@fn Flash::iter_elems world trait=NdlDataStorage props=C09,C25
@impl impl<T: MultiwriteNorFlash, C: CacheImpl> Flash<T, C>
@ret Result<FlashIter<'this, T, C>, QErr>
@contract
    requires old(w).store_wf(),
    ensures iter_post(*old(w), *final(w), ret is Ok),
@endfn
@fn Flash::push world trait=NdlDataStorage props=C09,C10,C17,C25
@impl impl<T: MultiwriteNorFlash, C: CacheImpl> Flash<T, C>
@ret Result<usize, QErr>
@contract
    requires push_pre(*old(w), *$1),
    ensures
        push_post(*old(w), *final(w), ev(*$1), match ret { Ok(n) => Some(n), Err(_) => None }),
        ret matches Ok(n) ==> n == qsize::<T>(bytes_of(ev(*$1)).len()), // @C10 C17
        old(w).honest && ret is Ok ==> final(w).store.last() == qitem::<T>(bytes_of(ev(*$1))), // @C09
@proof entry
    broadcast use axiom_slice_len;
    theorem_round_trip(ev(*$1));
@endfn
@fn Flash::MAX_ELEM_SIZE trait=NdlDataStorage rename=x_max_elem_size props=C10,C16
@impl impl<T: MultiwriteNorFlash, C: CacheImpl> Flash<T, C>
@contract
    ensures ret == T::ERASE_SIZE - 2 * word::<T>() - overhead::<T>(),
@proof entry
    axiom_geometry::<T>();
@endfn

@fn FlashIter::next world trait=NdlElemIter props=C09,C11,C25
@impl impl<'flash, T: MultiwriteNorFlash, C: CacheImpl> FlashIter<'flash, T, C>
@where -
@ret Result<Option<FlashNode<'flash, 'iter, 'buf, T, C>>, QErr>
@contract
    requires old(w).store_wf(),
    ensures
        final($1)@.len() == old($1)@.len(),
        next_post(*old(w), *final(w), match ret { Ok(Some(it)) => Some(Some(it.gi())), Ok(None) => Some(None), Err(_) => None }),
@endfn

@fn FlashNode::data trait=NdlElemIterNode props=C09,C11,C25
@impl impl<T: MultiwriteNorFlash, C: CacheImpl> NdlElemIterNode for FlashNode<'_, '_, '_, T, C>
@assoc
    type Error = QErr;
    open spec fn gi(&self) -> GItem { GItem { e: half_elem(self.half, self.qit.bytes()), len: qsize::<T>(self.qit.bytes().len()) } }
@contract
@endfn
@fn FlashNode::len trait=NdlElemIterNode props=C10,C17
@impl impl<T: MultiwriteNorFlash, C: CacheImpl> NdlElemIterNode for FlashNode<'_, '_, '_, T, C>
@contract
@proof entry
    self.qit.axiom_len();
@endfn
@fn FlashNode::invalidate world trait=NdlElemIterNode props=C09,C25
@impl impl<T: MultiwriteNorFlash, C: CacheImpl> NdlElemIterNode for FlashNode<'_, '_, '_, T, C>
@contract
@endfn

# ---------------------------------------------------------------- the flash that is always empty
@fn AlwaysEmptyFlash::iter_elems world trait=NdlDataStorage props=C25
@impl impl AlwaysEmptyFlash
@ret Result<AlwaysEmptyIter, Infallible>
@contract
    ensures ret is Ok, *final(w) == *old(w),
@endfn
@fn AlwaysEmptyFlash::push world trait=NdlDataStorage props=C25
@impl impl AlwaysEmptyFlash
@ret Result<usize, Infallible>
@contract
    // takes no space
    ensures ret == Ok::<usize, Infallible>(0), *final(w) == *old(w),
@endfn
@fn AlwaysEmptyIter::next world trait=NdlElemIter props=C25
@impl impl AlwaysEmptyIter
@where -
@ret Result<Option<NeverNode>, Infallible>
@contract
    ensures ret == Ok::<Option<NeverNode>, Infallible>(None), final($1)@.len() == old($1)@.len(), *final(w) == *old(w),
@endfn

# ---------------------------------------------------------------- size check
@fn NdlDataStorage::check_node_size props=C16
@impl -
@generics <S: NdlDataStorage, T: XCbor>
@where -
@subst Self :: => S ::
@contract
    ensures ret == (S::max_elem() >= 1 + enc_key($1@).len() + $2.enc_s().len()),
@endfn

//! node value types that notice double drops and uninitialised reads, and type-erased nodes
use crate::util::fail;
use cfg_noodle::{StorageList, StorageListNode, StorageListNodeHandle, error::Error};
use minicbor::{CborLen, Decode, Decoder, Encode, Encoder};
use mutex::raw_impls::cs::CriticalSectionRawMutex as M;
use std::{cell::RefCell, collections::HashSet, future::Future, pin::Pin};

const MAGIC: u64 = 0x5AFE_C0DE_1234_8765;
thread_local! {
    static LIVE: RefCell<(u64, HashSet<u64>)> = RefCell::new((0, HashSet::new()));
}
pub fn live() -> usize { LIVE.with(|l| l.borrow().1.len()) }
pub fn reset_live() { LIVE.with(|l| { l.borrow_mut().1.clear() }) }

/// kind 0: byte string; kind 1: [kind, bytes]; kind 2: unsigned integer (body: 8 bytes, big endian);
/// kind 3: the empty encoding
pub struct V<const K: u8> { magic: u64, id: u64, body: Vec<u8> }
impl<const K: u8> V<K> {
    pub fn new(body: &[u8]) -> Self {
        let id = LIVE.with(|l| { let mut l = l.borrow_mut(); l.0 += 1; let id = l.0; l.1.insert(id); id });
        V { magic: MAGIC, id, body: body.to_vec() }
    }
    fn ok(&self) -> bool {
        if self.magic != MAGIC || !LIVE.with(|l| l.borrow().1.contains(&self.id)) {
            fail("C13 C19", "a value was used that does not exist (uninitialised, or dropped already)".into());
            return false;
        }
        true
    }
    pub fn body(&self) -> Vec<u8> { if self.ok() { self.body.clone() } else { vec![0xEE; 3] } }
    fn int(&self) -> u64 { let mut b = [0u8; 8]; b.copy_from_slice(&self.body[..8]); u64::from_be_bytes(b) }
}
impl<const K: u8> Clone for V<K> {
    fn clone(&self) -> Self { if self.ok() { V::new(&self.body) } else { V::new(&[0xEE; 8]) } }
}
impl<const K: u8> Drop for V<K> {
    fn drop(&mut self) {
        if self.magic != MAGIC || !LIVE.with(|l| l.borrow_mut().1.remove(&self.id)) {
            fail("C12 C13 C19", "a value was dropped that does not exist (uninitialised, or dropped already)".into());
            // do not free garbage
            core::mem::forget(core::mem::take(&mut self.body));
        }
    }
}
pub fn enc_body<W: minicbor::encode::Write>(kind: u8, body: &[u8], e: &mut Encoder<W>) -> Result<(), minicbor::encode::Error<W::Error>> {
    match kind {
        0 => { e.bytes(body)?; }
        1 => { e.array(2)?.u8(1)?.bytes(body)?; }
        3 => {}
        _ => { let mut b = [0u8; 8]; b.copy_from_slice(&body[..8]); e.u64(u64::from_be_bytes(b))?; }
    }
    Ok(())
}
pub fn enc(kind: u8, body: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    enc_body(kind, body, &mut Encoder::new(&mut v)).unwrap();
    v
}
pub fn enc_str(s: &str) -> Vec<u8> {
    let mut v = Vec::new();
    Encoder::new(&mut v).str(s).unwrap();
    v
}
pub fn dec(kind: u8, b: &[u8]) -> Option<Vec<u8>> {
    let mut d = Decoder::new(b);
    dec_d(kind, &mut d).ok()
}
fn dec_d(kind: u8, d: &mut Decoder<'_>) -> Result<Vec<u8>, minicbor::decode::Error> {
    Ok(match kind {
        0 => d.bytes()?.to_vec(),
        1 => {
            if d.array()? != Some(2) || d.u8()? != 1 { return Err(minicbor::decode::Error::message("kind")); }
            d.bytes()?.to_vec()
        }
        3 => vec![],
        _ => d.u64()?.to_be_bytes().to_vec(),
    })
}
impl<const K: u8> Encode<()> for V<K> {
    fn encode<W: minicbor::encode::Write>(&self, e: &mut Encoder<W>, _: &mut ()) -> Result<(), minicbor::encode::Error<W::Error>> {
        self.ok();
        enc_body(K, &self.body, e)
    }
}
impl<const K: u8> CborLen<()> for V<K> {
    fn cbor_len(&self, ctx: &mut ()) -> usize {
        match K {
            0 => <minicbor::bytes::ByteSlice as CborLen<()>>::cbor_len((&self.body[..]).into(), ctx),
            1 => 2 + <minicbor::bytes::ByteSlice as CborLen<()>>::cbor_len((&self.body[..]).into(), ctx),
            3 => 0,
            _ => self.int().cbor_len(ctx),
        }
    }
}
impl<'b, const K: u8> Decode<'b, ()> for V<K> {
    fn decode(d: &mut Decoder<'b>, _: &mut ()) -> Result<Self, minicbor::decode::Error> { Ok(V::new(&dec_d(K, d)?)) }
}

pub type List<const N: usize> = &'static StorageList<M, N>;
pub type BoxFut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;
pub trait DynHandle {
    fn load(&self) -> Vec<u8>;
    fn key(&self) -> &'static str;
    fn write<'a>(&'a mut self, body: &'a [u8]) -> BoxFut<'a, Result<(), Error>>;
}
impl<const K: u8, const N: usize> DynHandle for StorageListNodeHandle<V<K>, M, N> {
    fn load(&self) -> Vec<u8> { StorageListNodeHandle::load(self).body() }
    fn key(&self) -> &'static str { StorageListNodeHandle::key(self) }
    fn write<'a>(&'a mut self, body: &'a [u8]) -> BoxFut<'a, Result<(), Error>> {
        Box::pin(async move { let v = V::<K>::new(body); StorageListNodeHandle::write(self, &v).await })
    }
}
pub trait DynNode<const N: usize> {
    fn attach(&self, list: List<N>, dflt: Vec<u8>) -> BoxFut<'static, Result<Box<dyn DynHandle>, Error>>;
    fn detach(&self, list: List<N>) -> BoxFut<'static, Result<(), Error>>;
    /// # Safety
    /// nothing may refer to the node any more
    unsafe fn free(&self);
}
pub struct Nd<const K: u8>(&'static StorageListNode<V<K>>);
impl<const K: u8> Nd<K> {
    pub fn new(key: &'static str) -> Self { Nd(Box::leak(Box::new(StorageListNode::new(key)))) }
}
impl<const K: u8, const N: usize> DynNode<N> for Nd<K> {
    fn attach(&self, list: List<N>, dflt: Vec<u8>) -> BoxFut<'static, Result<Box<dyn DynHandle>, Error>> {
        let n = self.0;
        Box::pin(async move {
            let h = n.attach_with_default(list, move || V::<K>::new(&dflt)).await?;
            Ok(Box::new(h) as Box<dyn DynHandle>)
        })
    }
    fn detach(&self, list: List<N>) -> BoxFut<'static, Result<(), Error>> {
        let n = self.0;
        Box::pin(async move { n.detach(list).await })
    }
    unsafe fn free(&self) { unsafe { drop(Box::from_raw(self.0 as *const StorageListNode<V<K>> as *mut StorageListNode<V<K>>)) } }
}
pub fn new_node<const N: usize>(kind: u8, key: &'static str) -> Box<dyn DynNode<N>> {
    match kind { 0 => Box::new(Nd::<0>::new(key)), 1 => Box::new(Nd::<1>::new(key)), 3 => Box::new(Nd::<3>::new(key)), _ => Box::new(Nd::<2>::new(key)) }
}

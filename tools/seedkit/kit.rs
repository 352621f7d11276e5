//! helpers of the demonstrations
#![allow(dead_code)]
pub use crate::{med::*, util::*, vals::*};
pub use cfg_noodle::{Elem, NdlDataStorage, NdlElemIter, NdlElemIterNode, SerData, StorageList, StorageListNode, error::{Error, LoadStoreError}};
pub use std::{cell::RefCell, future::Future, pin::Pin, rc::Rc, task::Poll};

pub const MAX: usize = 160;
pub fn list<const N: usize>() -> List<N> { Box::leak(Box::new(StorageList::new())) }
pub fn med() -> MedRef { Rc::new(RefCell::new(Med::new())) }
pub fn block<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    for _ in 0..100_000 { if let Poll::Ready(x) = poll_once(f.as_mut()) { return x } }
    panic!("does not finish")
}
pub fn data(key: &str, kind: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![1u8];
    v.extend(enc_str(key));
    v.extend(enc(kind, body));
    v
}
/// a valid record
pub fn record(m: &MedRef, seq: u32, vals: &[(&str, &[u8])]) {
    let d: Vec<Vec<u8>> = vals.iter().map(|(k, v)| data(k, 0, v)).collect();
    record_raw(m, seq, &d)
}
pub fn record_raw(m: &MedRef, seq: u32, d: &[Vec<u8>]) {
    let mut m = m.borrow_mut();
    m.add(P::Start(seq));
    let mut all = vec![];
    for x in d { all.extend_from_slice(&x[1..]); m.add(P::Data(x.clone())); }
    m.add(P::End(seq, cksum(&all)));
}
pub fn reads<const N: usize>(l: List<N>, m: &MedRef) -> Result<(usize, usize), LoadStoreError<SErr>> {
    let mut buf = [0u8; MAX];
    block(l.process_reads(&mut Sto::<MAX>(m.clone()), &mut buf)).map(|c| (c.total_bytes_read, c.current_bytes_read))
}
pub fn writes<const N: usize>(l: List<N>, m: &MedRef) -> Result<(usize, usize), LoadStoreError<SErr>> {
    let mut buf = [0u8; MAX];
    block(l.process_writes(&mut Sto::<MAX>(m.clone()), &mut buf)).map(|c| (c.total_bytes_read, c.current_bytes_written))
}
pub fn gc<const N: usize>(l: List<N>, m: &MedRef) -> Result<(usize, usize, usize), LoadStoreError<SErr>> {
    let mut buf = [0u8; MAX];
    block(l.process_garbage(&mut Sto::<MAX>(m.clone()), &mut buf)).map(|c| (c.total_bytes_read, c.post_collection_bytes_read, c.total_bytes_popped))
}
/// let the next operation fail (or hang) at its n-th storage access
pub fn fault(m: &MedRef, at: usize, kind: FaultKind) { let mut m = m.borrow_mut(); m.log.ops = 0; m.fault = Some(Fault { at, kind }); }
pub fn heal(m: &MedRef) { m.borrow_mut().fault = None; }
pub type Att = BoxFut<'static, Result<Box<dyn DynHandle>, Error>>;
pub fn node<const N: usize>(key: &'static str) -> Box<dyn DynNode<N>> { Box::new(Nd::<0>::new(key)) }
/// start an attach (it waits for the first read)
pub fn start<const N: usize>(n: &dyn DynNode<N>, l: List<N>, dflt: &[u8]) -> Att {
    let mut f = n.attach(l, dflt.to_vec());
    if let Poll::Ready(r) = poll_once(f.as_mut()) { return Box::pin(async move { r }) }
    f
}
pub fn finish(f: Att) -> Box<dyn DynHandle> { block(f).expect("attach") }
pub fn set(h: &mut Box<dyn DynHandle>, v: &[u8]) { block(h.write(v)).expect("write") }
/// what a restart on this storage loads for a key
pub fn restart(m: &MedRef, key: &'static str) -> Vec<u8> {
    let l = list::<3>();
    let c = med();
    { let s = m.borrow(); let mut c = c.borrow_mut(); c.items = s.items.clone(); c.next_id = s.next_id; }
    let n = node::<3>(key);
    let f = start(&*n, l, b"dflt");
    reads(l, &c).expect("read after restart");
    finish(f).load()
}
pub fn need(ok: bool, what: &str) {
    if !ok { eprintln!("BROKEN: {what}"); std::process::exit(1) }
}
pub fn done() -> ! {
    let bad = CTX.with(|c| c.borrow().fails.iter().map(|f| f.msg.clone()).collect::<Vec<_>>());
    for b in &bad { eprintln!("BROKEN: {b}") }
    if !bad.is_empty() { std::process::exit(1) }
    println!("holds");
    std::process::exit(0)
}

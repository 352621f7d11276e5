//! the flash back end on mock flash memories of several geometries, and the small pure functions
use crate::{scen, util::*, vals::*};
use cfg_noodle::{Crc32, Elem, NdlDataStorage, NdlElemIter, NdlElemIterNode, SerData, StorageList, flash::{Flash, empty::AlwaysEmptyFlash}};
use embedded_storage_async::nor_flash::{ErrorType, MultiwriteNorFlash, NorFlash, ReadNorFlash};
use sequential_storage::{cache::NoCache, mock_flash::{MockFlashBase, WriteCountCheck}, queue::{QueueConfig, QueueStorage}};
use std::{future::Future, num::NonZeroU32, task::Poll};

/// a memory that reads in smaller units than it writes
#[derive(Clone)]
pub struct Fine<const P: usize, const B: usize, const W: usize>(MockFlashBase<P, B, W>);
impl<const P: usize, const B: usize, const W: usize> ErrorType for Fine<P, B, W> { type Error = <MockFlashBase<P, B, W> as ErrorType>::Error; }
impl<const P: usize, const B: usize, const W: usize> ReadNorFlash for Fine<P, B, W> {
    const READ_SIZE: usize = 1;
    async fn read(&mut self, offset: u32, bytes: &mut [u8]) -> Result<(), Self::Error> {
        // whole words underneath
        let a = offset as usize / B * B;
        let e = (offset as usize + bytes.len()).next_multiple_of(B);
        let mut v = vec![0u8; e - a];
        self.0.read(a as u32, &mut v).await?;
        bytes.copy_from_slice(&v[offset as usize - a..offset as usize - a + bytes.len()]);
        Ok(())
    }
    fn capacity(&self) -> usize { self.0.capacity() }
}
impl<const P: usize, const B: usize, const W: usize> NorFlash for Fine<P, B, W> {
    const WRITE_SIZE: usize = <MockFlashBase<P, B, W> as NorFlash>::WRITE_SIZE;
    const ERASE_SIZE: usize = <MockFlashBase<P, B, W> as NorFlash>::ERASE_SIZE;
    async fn erase(&mut self, from: u32, to: u32) -> Result<(), Self::Error> { self.0.erase(from, to).await }
    async fn write(&mut self, offset: u32, bytes: &[u8]) -> Result<(), Self::Error> { self.0.write(offset, bytes).await }
}
impl<const P: usize, const B: usize, const W: usize> MultiwriteNorFlash for Fine<P, B, W> {}
/// a memory that reads in larger units than it writes
#[derive(Clone)]
pub struct Coarse<const P: usize, const B: usize, const W: usize, const R: usize>(MockFlashBase<P, B, W>);
impl<const P: usize, const B: usize, const W: usize, const R: usize> ErrorType for Coarse<P, B, W, R> { type Error = <MockFlashBase<P, B, W> as ErrorType>::Error; }
impl<const P: usize, const B: usize, const W: usize, const R: usize> ReadNorFlash for Coarse<P, B, W, R> {
    const READ_SIZE: usize = R;
    async fn read(&mut self, offset: u32, bytes: &mut [u8]) -> Result<(), Self::Error> { self.0.read(offset, bytes).await }
    fn capacity(&self) -> usize { self.0.capacity() }
}
impl<const P: usize, const B: usize, const W: usize, const R: usize> NorFlash for Coarse<P, B, W, R> {
    const WRITE_SIZE: usize = <MockFlashBase<P, B, W> as NorFlash>::WRITE_SIZE;
    const ERASE_SIZE: usize = <MockFlashBase<P, B, W> as NorFlash>::ERASE_SIZE;
    async fn erase(&mut self, from: u32, to: u32) -> Result<(), Self::Error> { self.0.erase(from, to).await }
    async fn write(&mut self, offset: u32, bytes: &[u8]) -> Result<(), Self::Error> { self.0.write(offset, bytes).await }
}
impl<const P: usize, const B: usize, const W: usize, const R: usize> MultiwriteNorFlash for Coarse<P, B, W, R> {}
pub trait Mem: MultiwriteNorFlash + Clone + 'static { fn make() -> Self; fn size() -> u32; }
impl<const P: usize, const B: usize, const W: usize> Mem for MockFlashBase<P, B, W> {
    fn make() -> Self { MockFlashBase::new(WriteCountCheck::Twice, None, true) }
    fn size() -> u32 { (P * B * W) as u32 }
}
impl<const P: usize, const B: usize, const W: usize> Mem for Fine<P, B, W> {
    fn make() -> Self { Fine(MockFlashBase::new(WriteCountCheck::Twice, None, true)) }
    fn size() -> u32 { (P * B * W) as u32 }
}
impl<const P: usize, const B: usize, const W: usize, const R: usize> Mem for Coarse<P, B, W, R> {
    fn make() -> Self { Coarse(MockFlashBase::new(WriteCountCheck::Twice, None, true)) }
    fn size() -> u32 { (P * B * W) as u32 }
}
fn now<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    for _ in 0..100000 { if let Poll::Ready(x) = poll_once(f.as_mut()) { return x } }
    panic!("mock flash operation does not finish")
}
#[derive(Clone, PartialEq, Debug)]
enum D { Start(u32), End(u32, u32), Data(Vec<u8>), Bad }
fn encode(d: &D) -> Vec<u8> {
    match d {
        D::Start(s) => { let mut v = vec![0u8]; v.extend(s.to_le_bytes()); v }
        D::End(s, c) => { let mut v = vec![2u8]; v.extend(s.to_le_bytes()); v.extend(c.to_le_bytes()); v }
        D::Data(d) => d.clone(),
        D::Bad => unreachable!(),
    }
}
fn decode(b: &[u8]) -> D {
    let w = |i: usize| b[i] as u32 | (b[i + 1] as u32) << 8 | (b[i + 2] as u32) << 16 | (b[i + 3] as u32) << 24;
    match b {
        [0, ..] if b.len() == 5 && w(1) != 0 => D::Start(w(1)),
        [2, ..] if b.len() == 9 && w(1) != 0 => D::End(w(1), w(5)),
        [1, _, ..] => D::Data(b.to_vec()),
        _ => D::Bad,
    }
}
fn see(e: Option<Elem<'_>>) -> D {
    match e {
        None => D::Bad,
        Some(Elem::Start { seq_no }) => D::Start(seq_no.get()),
        Some(Elem::End { seq_no, calc_crc }) => D::End(seq_no.get(), calc_crc),
        Some(Elem::Data { data }) => { let mut v = vec![data.hdr()]; v.extend(data.key_val()); D::Data(v) }
    }
}
fn raw<T: Mem>(f: &mut Flash<T, NoCache>) -> Vec<Vec<u8>> where T::Error: std::fmt::Debug {
    let mut q = QueueStorage::new(f.flash().clone(), QueueConfig::new(0..T::size()), NoCache::new());
    now(async {
        let mut v = vec![];
        let mut buf = vec![0u8; T::ERASE_SIZE];
        let mut it = q.iter().await.unwrap();
        while let Some(x) = it.next(&mut buf).await.unwrap() { v.push(x.to_vec()) }
        v
    })
}
fn max_elem<T: Mem>() -> usize where T::Error: std::fmt::Debug { <Flash<T, NoCache> as NdlDataStorage>::MAX_ELEM_SIZE }

fn elems<T: Mem>(r: &mut Rng) where T::Error: std::fmt::Debug {
    let word = T::WRITE_SIZE.max(T::READ_SIZE);
    let over = QueueStorage::<T, NoCache>::item_overhead_size() as usize;
    let max = max_elem::<T>();
    check(max == T::ERASE_SIZE - 2 * word - over, "C10", || format!("MAX_ELEM_SIZE is {max} for erase size {}, word size {word}, item overhead {over}", T::ERASE_SIZE));
    let mut f = Flash::<T, NoCache>::new(T::make(), 0..T::size(), NoCache::new());
    let mut model: Vec<Vec<u8>> = vec![];
    trace(|| format!("flash: erase {} word {word} size {}", T::ERASE_SIZE, T::size()));
    let steps = 5 + r.n(60);
    if r.p(30) {
        // the largest element
        let mut d = vec![7u8; max];
        let s = SerData::new(&mut d).unwrap();
        let e = guarded("C10 C19", "push", || now(f.push(&Elem::Data { data: s })).is_ok());
        check(e == Some(true), "C10", || format!("an element of MAX_ELEM_SIZE {max} cannot be pushed to an empty flash"));
        model.push({ d[0] = 1; d });
        let mut d = vec![7u8; max + word];
        let s = SerData::new(&mut d).unwrap();
        let e = now(f.push(&Elem::Data { data: s })).is_ok();
        check(!e, "C10", || format!("an element larger than MAX_ELEM_SIZE {max} was accepted"));
    }
    for _ in 0..steps {
        match r.n(12) {
            0..=6 => {
                let d = match r.n(4) {
                    0 => D::Start(((r.u() as u32) >> r.n(32)).max(1)),
                    1 => D::End(((r.u() as u32) >> r.n(32)).max(1), r.u() as u32 >> r.n(32)),
                    _ => { let n = if r.p(10) { max } else { 1 + r.n(40) }; let mut v: Vec<u8> = (0..n).map(|_| r.u() as u8).collect(); v[0] = 1; D::Data(v) }
                };
                let want = encode(&d);
                let mut dat;
                let e = match &d {
                    D::Start(s) => Elem::Start { seq_no: NonZeroU32::new(*s).unwrap() },
                    D::End(s, c) => Elem::End { seq_no: NonZeroU32::new(*s).unwrap(), calc_crc: *c },
                    D::Data(v) => { dat = v.clone(); dat[0] = 0xCC; Elem::Data { data: SerData::new(&mut dat).unwrap() } }
                    D::Bad => unreachable!(),
                };
                let Some(res) = guarded("C09 C10 C19", "push", || now(f.push(&e))) else { return };
                trace(|| format!("push {d:02x?} -> {res:?}"));
                match res {
                    Ok(n) => {
                        check(n == over + want.len().next_multiple_of(word), "C10 C17", || format!("push of {} bytes reported {n}", want.len()));
                        model.push(want);
                    }
                    Err(sequential_storage::Error::FullStorage) => {}
                    Err(e) => fail("C10", format!("push of {} bytes failed: {e:?}", want.len())),
                }
            }
            7..=8 => {
                // anything
                let n = 1 + r.n(12);
                let mut v: Vec<u8> = (0..n).map(|_| if r.p(40) { 0 } else { r.u() as u8 }).collect();
                if r.p(80) { v[0] = r.n(4) as u8 | if r.p(20) { (r.n(16) as u8) << 4 } else { 0 } }
                let mut q = QueueStorage::new(f.flash().clone(), QueueConfig::new(0..T::size()), NoCache::new());
                if now(q.push(&v, false)).is_ok() {
                    trace(|| format!("raw {v:02x?}"));
                    let (fl, _) = q.destroy();
                    *f.flash() = fl;
                    model.push(v);
                }
            }
            9 if !model.is_empty() => {
                // remove some, through the crate
                let keep: Vec<bool> = model.iter().map(|_| r.p(60)).collect();
                let k2 = keep.clone();
                let ok = guarded("C10 C19", "invalidate", || now(async {
                    let mut buf = vec![0u8; T::ERASE_SIZE];
                    let Ok(mut it) = f.iter_elems().await else { return false };
                    let mut i = 0;
                    loop {
                        let Ok(x) = it.next(&mut buf).await else { return false };
                        let Some(x) = x else { return i == k2.len() };
                        if !k2[i] && x.invalidate().await.is_err() { return false }
                        i += 1;
                        if i > k2.len() { return false }
                    }
                }));
                trace(|| format!("invalidate, keeping {keep:?}"));
                if ok != Some(true) { fail("C10 C09", "iterating and invalidating failed".into()); return }
                let mut k = keep.iter();
                model.retain(|_| *k.next().unwrap());
            }
            _ => {
                let m = model.clone();
                let Some(got) = guarded("C09 C19", "iterating", || now(async {
                    let mut buf = vec![0u8; T::ERASE_SIZE];
                    let mut v = vec![];
                    let mut it = f.iter_elems().await.ok()?;
                    while let Some(x) = it.next(&mut buf).await.ok()? { v.push((see(x.data()), x.len())) }
                    Some(v)
                })) else { return };
                let Some(got) = got else { fail("C09", "reading failed".into()); return };
                let want: Vec<(D, usize)> = m.iter().map(|b| (decode(b), over + b.len().next_multiple_of(word))).collect();
                check(got.iter().map(|x| &x.0).eq(want.iter().map(|x| &x.0)), "C09", || format!("decoded {:02x?} from {m:02x?}", got.iter().map(|x| &x.0).collect::<Vec<_>>()));
                check(got.iter().map(|x| x.1).eq(want.iter().map(|x| x.1)), "C10 C17", || format!("lengths {:?} for {:?}", got.iter().map(|x| x.1).collect::<Vec<_>>(), m.iter().map(|x| x.len()).collect::<Vec<_>>()));
            }
        }
        let have = raw(&mut f);
        if have != model {
            let lost = model.iter().filter(|x| !have.contains(x)).count();
            fail(if lost > 0 && have.len() <= model.len() && model.ends_with(&have[..]) { "C10" } else { "C09 C10" }, format!("the queue holds {have:02x?}, want {model:02x?}"));
            return;
        }
    }
}
/// the whole list on a real queue: counters, restarts
fn list<T: Mem>(r: &mut Rng) where T::Error: std::fmt::Debug {
    reset_live();
    let mut mem = T::make();
    let word = T::WRITE_SIZE.max(T::READ_SIZE);
    let over = QueueStorage::<T, NoCache>::item_overhead_size() as usize;
    let size = |b: &Vec<u8>| over + b.len().next_multiple_of(word);
    let mut saved: Option<Vec<(usize, Vec<u8>)>> = None;
    let keys = ["a", "b", "config/one"];
    for _ in 0..1 + r.n(3) {
        let list: List<2> = Box::leak(Box::new(StorageList::new()));
        let mut f = Flash::<T, NoCache>::new(mem, 0..T::size(), NoCache::new());
        let nodes: Vec<Box<dyn DynNode<2>>> = keys.iter().map(|k| new_node(1, k)).collect();
        let mut buf = vec![0u8; max_elem::<T>()];
        let mut atts: Vec<_> = nodes.iter().enumerate().map(|(i, n)| n.attach(list, vec![0xD0, i as u8])).collect();
        for a in &mut atts { let _ = poll_once(a.as_mut()); }
        let q = raw(&mut f);
        let total: usize = q.iter().map(size).sum();
        let Some(Ok(c)) = guarded("C19", "process_reads", || now(list.process_reads(&mut f, &mut buf))) else { fail("C15 C01", "a read pass on flash failed".into()); return };
        check(c.total_bytes_read >= total && c.total_bytes_read <= 2 * total, "C17", || format!("read {} of {total}", c.total_bytes_read));
        let mut hs = vec![];
        for (i, a) in atts.iter_mut().enumerate() {
            let Poll::Ready(Ok(h)) = poll_once(a.as_mut()) else { fail("C13 C01", "attach on flash did not finish".into()); return };
            let want = saved.as_ref().and_then(|s| s.iter().find(|x| x.0 == i)).map(|x| x.1.clone()).unwrap_or(vec![0xD0, i as u8]);
            check(h.load() == want, "C01 C20", || format!("after a restart node {i} loads {:02x?}, want {want:02x?}", h.load()));
            hs.push(h);
        }
        for _ in 0..r.n(8) {
            let Some(res) = guarded("C19", "process_garbage", || now(list.process_garbage(&mut f, &mut buf))) else { return };
            let Ok(g) = res else { fail("C15 C07", format!("a collection on flash failed: {res:?}")); return };
            let left: usize = raw(&mut f).iter().map(size).sum();
            if g.total_bytes_read > 0 { check(g.post_collection_bytes_read == left, "C17", || format!("post collection bytes {}, storage has {left}", g.post_collection_bytes_read)) }
            for (i, h) in hs.iter_mut().enumerate() { if r.p(50) { let v: Vec<u8> = (0..1 + r.n(12)).map(|_| r.u() as u8).collect(); let _ = now(h.write(&v)); let _ = i; } }
            let before: usize = raw(&mut f).iter().map(size).sum();
            let Some(res) = guarded("C19 C16", "process_writes", || now(list.process_writes(&mut f, &mut buf))) else { return };
            let Ok(w) = res else { fail("C15 C03", format!("a write pass on flash failed: {res:?}")); return };
            let q = raw(&mut f);
            let after: usize = q.iter().map(size).sum();
            check(w.current_bytes_written == after - before, "C17 C10", || format!("bytes written {}, storage grew by {}", w.current_bytes_written, after - before));
            if w.current_bytes_written > 0 {
                check(w.total_bytes_read == after, "C17", || format!("bytes verified {}, storage has {after}", w.total_bytes_read));
                saved = Some(hs.iter().enumerate().map(|(i, h)| (i, h.load())).collect());
                // the record, byte by byte
                let n = q.len();
                let rec = &q[n - 5..];
                let body: Vec<u8> = rec[1..4].iter().flat_map(|d| d[1..].to_vec()).collect();
                let ok = rec[0][0] == 0 && rec[0].len() == 5 && rec[4][0] == 2 && rec[4].len() == 9 && rec[4][1..5] == rec[0][1..5] && rec[4][5..] == cksum(&body).to_le_bytes();
                check(ok, "C03 C09 C11", || format!("the record on flash is {rec:02x?}"));
                for (i, h) in hs.iter().enumerate() {
                    let mut want = vec![1u8]; want.extend(enc_str(keys[i])); want.extend(enc(1, &h.load()));
                    check(rec[1..4].contains(&want), "C03 C11", || format!("no element {want:02x?} in {rec:02x?}"));
                }
            }
        }
        mem = f.flash().clone();
        drop(hs);
        drop(atts);
        unsafe { drop(Box::from_raw(list as *const StorageList<_, 2> as *mut StorageList<mutex::raw_impls::cs::CriticalSectionRawMutex, 2>)) }
        for n in nodes { unsafe { n.free() } }
        reset_live();
    }
}
fn sizes<const M: usize>(r: &mut Rng) {
    for klen in (0..40).chain([60, 255, 256, 300]) {
        let key = "k".repeat(klen);
        for vlen in (0..30).chain([60, 250, 251, 252, 253, 254, 255, 256, 257, 300]) {
            let body: Vec<u8> = vec![r.u() as u8; vlen];
            for kind in 0..2u8 {
                let need = 1 + enc_str(&key).len() + enc(kind, &body).len();
                let got = guarded("C16 C19", "check_node_size", || match kind {
                    0 => crate::med::Sto::<M>::check_node_size(&key, V::<0>::new(&body)),
                    _ => crate::med::Sto::<M>::check_node_size(&key, V::<1>::new(&body)),
                });
                check(got == Some(need <= M), "C16", || format!("check_node_size says {got:?} for {need} bytes and a maximum of {M}"));
            }
        }
    }
}
fn pure(r: &mut Rng) {
    // checksum: in arbitrary pieces
    let data: Vec<u8> = (0..r.n(80)).map(|_| r.u() as u8).collect();
    let mut c = Crc32::new();
    let mut i = 0;
    while i < data.len() { let n = 1 + r.n(data.len() - i); c.update(&data[i..i + n]); i += n }
    check(c.finalize() == cksum(&data), "C11", || format!("checksum of {data:02x?}"));
    check(Crc32::default().finalize() == cksum(&[]), "C11", || "checksum of nothing".into());
    // elements
    let key: String = { let n = match r.n(5) { 0 => 22 + r.n(4), 1 => 254 + r.n(4), _ => r.n(10) }; (0..n).map(|_| if r.p(90) { (b'a' + r.n(26) as u8) as char } else { 'é' }).collect() };
    let val: Vec<u8> = (0..r.n(20)).map(|_| r.u() as u8).collect();
    let mut b = vec![0xAAu8]; b.extend(enc_str(&key)); b.extend(&val);
    let want = b.clone();
    let ok = guarded("C11 C19", "SerData", || {
        let s = SerData::new(&mut b).unwrap();
        let kv = s.kv_pair();
        let ok = s.hdr() == 1 && s.key_val() == &want[1..] && kv.is_ok_and(|k| k.key == key && k.body == val);
        let s2 = SerData::from_existing(s_bytes(&want)).unwrap();
        ok && s2.hdr() == 0xAA && s2.key_val() == &want[1..] && s2.kv_pair().is_ok_and(|k| k.key == key && k.body == val)
    });
    check(ok == Some(true), "C11", || format!("data element of key {key:?} and value {val:02x?}"));
    // garbage: an error or the decoding of minicbor, never a panic
    let mut g: Vec<u8> = (0..1 + r.n(8)).map(|_| r.u() as u8).collect();
    if g.len() > 1 && r.p(60) { g[1] = 0x60 + r.n(32) as u8 }
    let g2 = g.clone();
    let ok = guarded("C11 C19", "kv_pair", || {
        let s = SerData::from_existing(&g2).unwrap();
        match (crate::med::kv(&g), s.kv_pair()) { (None, Err(_)) => true, (Some((k, v)), Ok(p)) => p.key == k && p.body == v, (a, b) => { trace(|| format!("{a:?} {}", b.is_ok())); non_canonical(&g) } }
    });
    check(ok == Some(true), "C11", || format!("kv_pair of {g:02x?}"));
    check(SerData::from_existing(&[]).is_none() && SerData::new(&mut []).is_none(), "C11 C19", || "an empty element".into());
    // states
    for b in 0..=255u8 { check(cfg_noodle::State::try_from_u8(b).map(|s| s.into_u8()) == (b < 4).then_some(b), "C19 C13", || format!("State {b}")) }
    // the empty storage
    let e = guarded("C19", "AlwaysEmptyFlash", || now(async { let mut f = AlwaysEmptyFlash; let mut it = f.iter_elems().await.unwrap(); matches!(it.next(&mut []).await, Ok(None)) }));
    check(e == Some(true), "C19 C01", || "AlwaysEmptyFlash is not empty".into());
}
/// a memory whose accesses can fail and whose contents can be damaged
#[derive(Clone)]
pub struct Ram<const B: usize, const E: usize, const P: usize>(Vec<u8>);
thread_local! {
    /// accesses until one fails, and whether that one still takes effect
    static FAULT: std::cell::Cell<Option<(usize, bool)>> = const { std::cell::Cell::new(None) };
    /// whether the failure stays, and whether it occurred
    static STAYS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static HIT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
#[derive(Debug)]
pub struct RamErr;
impl embedded_storage_async::nor_flash::NorFlashError for RamErr { fn kind(&self) -> embedded_storage_async::nor_flash::NorFlashErrorKind { embedded_storage_async::nor_flash::NorFlashErrorKind::Other } }
fn access(f: impl FnOnce()) -> Result<(), RamErr> {
    match FAULT.get() {
        Some((0, after)) => { HIT.set(true); if !STAYS.get() { FAULT.set(None) } if after { f() } Err(RamErr) }
        Some((n, a)) => { FAULT.set(Some((n - 1, a))); f(); Ok(()) }
        None => { f(); Ok(()) }
    }
}
impl<const B: usize, const E: usize, const P: usize> ErrorType for Ram<B, E, P> { type Error = RamErr; }
impl<const B: usize, const E: usize, const P: usize> ReadNorFlash for Ram<B, E, P> {
    const READ_SIZE: usize = 1;
    async fn read(&mut self, offset: u32, bytes: &mut [u8]) -> Result<(), RamErr> {
        let o = offset as usize;
        access(|| bytes.copy_from_slice(&self.0[o..o + bytes.len()]))
    }
    fn capacity(&self) -> usize { self.0.len() }
}
impl<const B: usize, const E: usize, const P: usize> NorFlash for Ram<B, E, P> {
    const WRITE_SIZE: usize = B;
    const ERASE_SIZE: usize = E;
    async fn erase(&mut self, from: u32, to: u32) -> Result<(), RamErr> { access(|| self.0[from as usize..to as usize].fill(0xFF)) }
    async fn write(&mut self, offset: u32, bytes: &[u8]) -> Result<(), RamErr> {
        access(|| for (i, b) in bytes.iter().enumerate() { self.0[offset as usize + i] &= b })
    }
}
impl<const B: usize, const E: usize, const P: usize> MultiwriteNorFlash for Ram<B, E, P> {}
/// what the queue itself finds, and whether it gets to the end
fn raw_all<T: MultiwriteNorFlash + Clone>(t: &T) -> (Vec<Vec<u8>>, bool) {
    let mut q = QueueStorage::new(t.clone(), QueueConfig::new(0..t.capacity() as u32), NoCache::new());
    now(async {
        let mut v = vec![];
        let mut buf = vec![0u8; T::ERASE_SIZE];
        let Ok(mut it) = q.iter().await else { return (v, false) };
        loop { match it.next(&mut buf).await { Ok(Some(x)) => v.push(x.to_vec()), Ok(None) => return (v, true), Err(_) => return (v, false) } }
    })
}
/// the storage contract on a memory with faults: what is reported as done is done, what fails is reported
fn faulty<const B: usize, const E: usize, const P: usize>(r: &mut Rng) {
    let mem = Ram::<B, E, P>(vec![0xFF; E * P]);
    let mut f = Flash::<_, NoCache>::new(mem, 0..(E * P) as u32, NoCache::new());
    let max = <Flash<Ram<B, E, P>, NoCache> as NdlDataStorage>::MAX_ELEM_SIZE;
    let mut buf = vec![0u8; E];
    // once damaged, the queue itself may misplace elements
    let mut damaged = false;
    for _ in 0..5 + r.n(40) {
        FAULT.set(None);
        if r.p(4) { damaged = true; let i = r.n(E * P); for k in 0..if r.p(60) { 1 } else { 4 } { f.flash().0[(i + k) % (E * P)] ^= 1 << r.n(8) } trace(|| format!("damage at {i}")) }
        let Ok((have, whole)) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| raw_all(f.flash()))) else { return };
        HIT.set(false); STAYS.set(r.p(40));
        if r.p(40) { let k = [4, 12, 40][r.n(3)]; FAULT.set(Some((r.n(k), r.p(50)))) }
        trace(|| format!("{} items{}; fault {:?}", have.len(), if whole { "" } else { ", then an error" }, FAULT.get()));
        match r.n(10) {
            0..=5 => {
                let d = match r.n(4) {
                    0 => D::Start(1 + r.n(1000) as u32),
                    1 => D::End(1 + r.n(1000) as u32, r.u() as u32),
                    _ => { let n = if r.p(10) { max } else { 2 + r.n(30) }; let mut v: Vec<u8> = (0..n).map(|_| r.u() as u8).collect(); v[0] = 1; D::Data(v) }
                };
                let mut dat;
                let e = match &d {
                    D::Start(s) => Elem::Start { seq_no: NonZeroU32::new(*s).unwrap() },
                    D::End(s, c) => Elem::End { seq_no: NonZeroU32::new(*s).unwrap(), calc_crc: *c },
                    D::Data(v) => { dat = v.clone(); Elem::Data { data: SerData::new(&mut dat).unwrap() } }
                    D::Bad => unreachable!(),
                };
                // without a fault: whether the queue itself accepts it
                let twin = if FAULT.get().is_some() { None } else {
                    let c = f.flash().clone();
                    std::panic::catch_unwind(|| { let mut q = QueueStorage::new(c, QueueConfig::new(0..(E * P) as u32), NoCache::new()); now(q.push(&encode(&d), false)).is_ok() }).ok()
                };
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| now(f.push(&e))));
                FAULT.set(None);
                let Ok(res) = res else { check(damaged, "C25 C19", || "push panicked".into()); return };
                trace(|| format!("push {d:02x?} -> {}", res.is_ok()));
                if let Some(t) = twin { check(t == res.is_ok(), "C25", || format!("push reported {}, the queue itself {}", res.is_ok(), t)) }
                if res.is_ok() && whole && !damaged {
                    let (got, _) = raw_all(f.flash());
                    let mut want = have.clone(); want.push(encode(&d));
                    check(got == want, "C25", || format!("push reported success; storage held {have:02x?}, now {got:02x?}"));
                }
            }
            _ => {
                // iterate, and remove some
                let mut left = have.clone();
                let mut i = 0; let mut at = 0;
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| now(async {
                    let Ok(mut it) = f.iter_elems().await else { return Ok::<_, String>(false) };
                    loop {
                        match it.next(&mut buf).await {
                            Err(_) => return Ok(false),
                            Ok(None) => return Ok(true),
                            Ok(Some(x)) => {
                                if i >= have.len() { return Err(format!("element {i} of {}", have.len())) }
                                if see(x.data()) != decode(&have[i]) { return Err(format!("element {i} is read as {:02x?}, stored is {:02x?}", see(x.data()), have[i])) }
                                if r.p(30) {
                                    let mark = at;
                                    match x.invalidate().await { Ok(()) => { left.remove(mark); } Err(_) => return Ok(false) }
                                } else { at += 1 }
                                i += 1;
                            }
                        }
                    }
                })));
                let hit = HIT.get();
                FAULT.set(None);
                let Ok(res) = res else { check(damaged, "C25 C19", || "iterating panicked".into()); return };
                trace(|| format!("iterated to {i}: {res:?}"));
                match res {
                    Err(e) => { fail("C25", e); return }
                    Ok(true) => {
                        check(whole && i == have.len(), "C25", || format!("the iterator reported the end after {i} of {} elements (whole {whole}, fault {hit})", have.len()));
                        if whole && !damaged {
                            let (got, _) = raw_all(f.flash());
                            check(got == left, "C25", || format!("after removing some storage has {got:02x?}, want {left:02x?}, before {have:02x?}"));
                        }
                    }
                    Ok(false) => check(hit || !whole, "C25", || "iterating failed on a working flash".into()),
                }
            }
        }
    }
    FAULT.set(None);
}
/// the worker on the flash that is always empty: every node gets its default, whenever it attaches
fn no_op(r: &mut Rng) {
    reset_live();
    let list: List<2> = Box::leak(Box::new(StorageList::new()));
    let keys = ["a", "b", "config/one", "config/two"];
    let nodes: Vec<Box<dyn DynNode<2>>> = keys.iter().map(|k| new_node(1, k)).collect();
    {
        let mut work = Box::pin(cfg_noodle::worker_task::no_op_worker_task(list));
        let mut live: Vec<Option<Box<dyn DynHandle>>> = nodes.iter().map(|_| None).collect();
        for _ in 0..3 + r.n(12) {
            let ids: Vec<usize> = (0..nodes.len()).filter(|_| r.p(40)).collect();
            let mut atts = vec![];
            for &i in &ids {
                if live[i].take().is_some() && r.p(60) {
                    let d = guarded("C12 C19", "detach", || now(nodes[i].detach(list)));
                    check(matches!(d, Some(Ok(()))), "C12", || format!("detach of a free node: {d:?}"));
                }
                let mut a = nodes[i].attach(list, vec![0xD0, i as u8]);
                let Some(first) = guarded("C19", "attach", || poll_once(a.as_mut())) else { return };
                atts.push((i, a, first));
            }
            if guarded("C25 C19", "no_op_worker_task", || { let _ = poll_once(work.as_mut()); }).is_none() { return }
            for (i, mut a, first) in atts {
                match if first.is_ready() { first } else { poll_once(a.as_mut()) } {
                    Poll::Ready(Ok(mut h)) => {
                        trace(|| format!("node {i} loads {:02x?}", h.load()));
                        if h.load() != [0xD0, i as u8] && h.load() != [0x77, i as u8] { fail("C25 C01", format!("on the flash that is always empty node {i} loads {:02x?}", h.load())) }
                        if r.p(50) { let _ = now(h.write(&[0x77, i as u8])); }
                        live[i] = Some(h);
                    }
                    Poll::Ready(Err(e)) => { fail("C25", format!("attach with the no-op worker failed: {e:?}")); return }
                    Poll::Pending => { fail("C25 C24", format!("attach of node {i} is not answered by the no-op worker")); return }
                }
            }
        }
    }
    // a write pass to it must not claim that anything was saved
    unsafe { drop(Box::from_raw(list as *const StorageList<_, 2> as *mut StorageList<mutex::raw_impls::cs::CriticalSectionRawMutex, 2>)) }
    for n in nodes { unsafe { n.free() } }
    reset_live();
}
fn s_bytes(v: &[u8]) -> &[u8] { v }
/// a key whose length is not encoded in the shortest form: the specification leaves open where its value begins
fn non_canonical(g: &[u8]) -> bool { g.len() > 1 && g[1] >= 0x78 }

pub fn run(seed: u64) {
    let mut r = Rng::new(seed ^ 0xF1A5);
    match r.n(25) {
        0 | 1 => elems::<MockFlashBase<4, 4, 64>>(&mut r),
        2 => elems::<MockFlashBase<3, 8, 32>>(&mut r),
        3 => elems::<MockFlashBase<4, 1, 256>>(&mut r),
        4 => elems::<MockFlashBase<2, 16, 32>>(&mut r),
        5 => elems::<Fine<4, 4, 64>>(&mut r),
        6 => elems::<Fine<3, 8, 64>>(&mut r),
        16 => elems::<Coarse<4, 4, 64, 8>>(&mut r),
        17 => elems::<Coarse<4, 1, 256, 4>>(&mut r),
        18 | 19 => faulty::<4, 128, 4>(&mut r),
        20 => faulty::<1, 128, 3>(&mut r),
        21 => faulty::<8, 256, 3>(&mut r),
        22 | 23 => no_op(&mut r),
        7 => list::<MockFlashBase<8, 4, 256>>(&mut r),
        8 => list::<Fine<8, 8, 128>>(&mut r),
        9 => { match r.n(6) { 0 => sizes::<0>(&mut r), 1 => sizes::<30>(&mut r), 2 => sizes::<64>(&mut r), 3 => sizes::<255>(&mut r), 4 => sizes::<300>(&mut r), _ => sizes::<1>(&mut r) } }
        _ => pure(&mut r),
    }
    let _ = scen::MAX;
}

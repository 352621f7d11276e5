//! a storage medium that records what is done to it, and fails, hangs or lies on demand
use cfg_noodle::{Elem, NdlDataStorage, NdlElemIter, NdlElemIterNode, SerData};
use std::{cell::RefCell, num::NonZeroU32, rc::Rc};

#[derive(Clone, PartialEq, Debug)]
pub enum P {
    Start(u32),
    /// including the header byte
    Data(Vec<u8>),
    End(u32, u32),
    Junk(usize),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Item { pub id: u64, pub p: P }
impl Item {
    pub fn len(&self) -> usize {
        match &self.p { P::Start(_) => 13, P::Data(d) => 8 + d.len().next_multiple_of(4), P::End(..) => 20, P::Junk(n) => 8 + n }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FaultKind {
    ErrBefore,
    ErrAfter,
    HangBefore,
    HangAfter,
    /// push stores something else
    LieFlip,
    LieDrop,
    LieTwice,
    /// next returns something else than what is stored
    ReadFlip,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Fault { pub at: usize, pub kind: FaultKind }

#[derive(Debug, PartialEq, Clone, Copy)]
pub struct SErr(pub u8);

#[derive(Default)]
pub struct Log {
    pub read_bytes: usize,
    /// bytes read through the most recent iterator
    pub read_last_iter: usize,
    pub iters: usize,
    /// ids the most recent iterator returned
    pub shown_last: Vec<u64>,
    pub pushed: Vec<u64>,
    pub push_bytes: usize,
    pub popped_bytes: usize,
    pub popped: usize,
    pub ops: usize,
    pub push_attempts: usize,
    /// the injected fault took effect
    pub fault_hit: bool,
    pub lied: bool,
    /// an iterator reached the end of storage
    pub end_seen: bool,
}
pub struct Med {
    pub items: Vec<Item>,
    pub next_id: u64,
    pub fault: Option<Fault>,
    pub hung: bool,
    pub yields: bool,
    pub log: Log,
}
impl Med {
    pub fn new() -> Self { Med { items: vec![], next_id: 1, fault: None, hung: false, yields: false, log: Log::default() } }
    pub fn add(&mut self, p: P) -> u64 { let id = self.next_id; self.next_id += 1; self.items.push(Item { id, p }); id }
    fn step(&mut self) -> Option<FaultKind> {
        let n = self.log.ops;
        self.log.ops += 1;
        match self.fault {
            Some(f) if f.at == n => {
                Some(f.kind)
            }
            _ => None,
        }
    }
}
pub type MedRef = Rc<RefCell<Med>>;
pub struct Sto<const MAX: usize>(pub MedRef);
pub struct It { m: MedRef, last: u64 }
pub struct Nod { m: MedRef, item: Item, shown: P }

async fn yield_once() {
    let mut done = false;
    std::future::poll_fn(move |_| if done { std::task::Poll::Ready(()) } else { done = true; std::task::Poll::Pending }).await
}
async fn pre(m: &MedRef) -> Option<FaultKind> {
    if m.borrow().yields { yield_once().await }
    let k = m.borrow_mut().step();
    if k == Some(FaultKind::HangBefore) { hang(m).await }
    k
}
async fn hang(m: &MedRef) {
    m.borrow_mut().hung = true;
    m.borrow_mut().log.fault_hit = true;
    std::future::pending::<()>().await
}
fn err(m: &MedRef, n: u8) -> SErr { m.borrow_mut().log.fault_hit = true; SErr(n) }

fn flip(p: &P) -> P {
    match p {
        P::Start(s) => P::Start(s.wrapping_add(1).max(1)),
        P::Data(d) if d.len() > 1 => { let mut d = d.clone(); let n = d.len() - 1; d[n] ^= 1; P::Data(d) }
        P::Data(d) => P::Data(d.clone()),
        P::End(s, c) => P::End(*s, c ^ 0x10),
        P::Junk(n) => P::Junk(n + 1),
    }
}
impl<const MAX: usize> NdlDataStorage for Sto<MAX> {
    type Iter<'this> = It;
    type Error = SErr;
    async fn iter_elems<'this>(&'this mut self) -> Result<It, SErr> {
        let k = pre(&self.0).await;
        if matches!(k, Some(FaultKind::ErrBefore | FaultKind::ErrAfter)) { return Err(err(&self.0, 1)); }
        if k == Some(FaultKind::HangAfter) { hang(&self.0).await }
        let mut m = self.0.borrow_mut();
        m.log.iters += 1;
        m.log.read_last_iter = 0;
        m.log.shown_last.clear();
        Ok(It { m: self.0.clone(), last: 0 })
    }
    async fn push(&mut self, data: &Elem<'_>) -> Result<usize, SErr> {
        self.0.borrow_mut().log.push_attempts += 1;
        let k = pre(&self.0).await;
        if k == Some(FaultKind::ErrBefore) { return Err(err(&self.0, 2)); }
        let p = match data {
            Elem::Start { seq_no } => P::Start(seq_no.get()),
            Elem::Data { data } => { let mut v = vec![data.hdr()]; v.extend_from_slice(data.key_val()); P::Data(v) }
            Elem::End { seq_no, calc_crc } => P::End(seq_no.get(), *calc_crc),
        };
        let n = {
            let mut m = self.0.borrow_mut();
            let stored = match k {
                Some(FaultKind::LieFlip) => { m.log.fault_hit = true; m.log.lied = true; vec![flip(&p)] }
                Some(FaultKind::LieDrop) => { m.log.fault_hit = true; m.log.lied = true; vec![] }
                Some(FaultKind::LieTwice) => { m.log.fault_hit = true; m.log.lied = true; vec![p.clone(), p.clone()] }
                _ => vec![p.clone()],
            };
            let n = Item { id: 0, p }.len();
            for s in stored { let id = m.add(s); m.log.pushed.push(id); }
            m.log.push_bytes += n;
            n
        };
        if k == Some(FaultKind::ErrAfter) { return Err(err(&self.0, 3)); }
        if k == Some(FaultKind::HangAfter) { hang(&self.0).await }
        Ok(n)
    }
    const MAX_ELEM_SIZE: usize = MAX;
}
impl NdlElemIter for It {
    type Item<'this, 'buf> = Nod;
    type Error = SErr;
    async fn next<'iter, 'buf>(&'iter mut self, buf: &'buf mut [u8]) -> Result<Option<Nod>, SErr>
    where Self: 'buf, Self: 'iter {
        let k = pre(&self.m).await;
        // the scratch buffer is scratch
        for b in buf.iter_mut() { *b = 0xA5; }
        if k == Some(FaultKind::ErrBefore) { return Err(err(&self.m, 4)); }
        let item = self.m.borrow().items.iter().find(|i| i.id > self.last).cloned();
        if k == Some(FaultKind::ErrAfter) { return Err(err(&self.m, 5)); }
        if k == Some(FaultKind::HangAfter) { hang(&self.m).await }
        let Some(item) = item else { self.m.borrow_mut().log.end_seen = true; return Ok(None) };
        self.last = item.id;
        let mut m = self.m.borrow_mut();
        m.log.read_bytes += item.len();
        m.log.read_last_iter += item.len();
        m.log.shown_last.push(item.id);
        let shown = if k == Some(FaultKind::ReadFlip) { m.log.fault_hit = true; m.log.lied = true; flip(&item.p) } else { item.p.clone() };
        Ok(Some(Nod { m: self.m.clone(), item, shown }))
    }
}
impl NdlElemIterNode for Nod {
    type Error = SErr;
    fn data(&self) -> Option<Elem<'_>> {
        Some(match &self.shown {
            P::Start(s) => Elem::Start { seq_no: NonZeroU32::new(*s)? },
            P::Data(d) => Elem::Data { data: SerData::from_existing(d)? },
            P::End(s, c) => Elem::End { seq_no: NonZeroU32::new(*s)?, calc_crc: *c },
            P::Junk(_) => return None,
        })
    }
    fn len(&self) -> usize { self.item.len() }
    async fn invalidate(self) -> Result<(), SErr> {
        let k = pre(&self.m).await;
        if k == Some(FaultKind::ErrBefore) { return Err(err(&self.m, 6)); }
        {
            let mut m = self.m.borrow_mut();
            let id = self.item.id;
            m.items.retain(|i| i.id != id);
            m.log.popped_bytes += self.item.len();
            m.log.popped += 1;
        }
        if k == Some(FaultKind::ErrAfter) { return Err(err(&self.m, 7)); }
        if k == Some(FaultKind::HangAfter) { hang(&self.m).await }
        Ok(())
    }
}

/// a valid write record: number, index range
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Rec { pub seq: u32, pub a: usize, pub b: usize }
/// all valid records (independent of the code under test)
pub fn valid(items: &[Item]) -> Vec<Rec> {
    let mut v = vec![];
    for a in 0..items.len() {
        let P::Start(s) = items[a].p else { continue };
        if s == 0 { continue }
        let mut b = a + 1;
        let mut bytes = vec![];
        while b < items.len() {
            match &items[b].p {
                P::Data(d) if !d.is_empty() => bytes.extend_from_slice(&d[1..]),
                P::End(e, c) => {
                    if *e == s && *c == crate::util::cksum(&bytes) { v.push(Rec { seq: s, a, b }) }
                    break;
                }
                _ => break,
            }
            b += 1;
        }
    }
    v
}
/// key and value bytes of a data payload (with header byte)
pub fn kv(d: &[u8]) -> Option<(String, Vec<u8>)> {
    let body = d.get(1..)?;
    let mut dec = minicbor::Decoder::new(body);
    let k = dec.str().ok()?.to_string();
    let l = crate::vals::enc_str(&k).len();
    Some((k, body.get(l..)?.to_vec()))
}
/// bytes stored under a key in a record (first occurrence)
pub fn lookup(items: &[Item], r: &Rec, key: &str) -> Option<Vec<u8>> {
    items[r.a + 1..r.b].iter().find_map(|i| match &i.p { P::Data(d) => kv(d).filter(|(k, _)| k == key).map(|x| x.1), _ => None })
}
pub fn newest(items: &[Item]) -> Vec<Rec> {
    let v = valid(items);
    let m = v.iter().map(|r| r.seq).max().unwrap_or(0);
    v.into_iter().filter(|r| r.seq == m).collect()
}
pub fn content(items: &[Item], r: &Rec) -> Vec<P> { items[r.a..=r.b].iter().map(|i| i.p.clone()).collect() }

//! random histories of one list against a model of what the properties allow
use crate::{med::*, util::*, vals::*};
use cfg_noodle::{StorageList, error::{Error, LoadStoreError}};
use std::{cell::RefCell, collections::BTreeSet, rc::Rc, task::Poll};

/// what the library may know about the storage
#[derive(Clone, PartialEq, Debug)]
enum Cache {
    Fresh,
    /// known records, newest first (sequence number, item ids); is a collection needed?
    Scanned { recs: Vec<(u32, Vec<u64>)>, gc: bool },
}
#[derive(Clone, PartialEq, Debug)]
enum St { Init, NonRes, Val { v: Vec<u8>, unsaved: bool } }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Place { Nowhere, Main, Other }
type AttFut = BoxFut<'static, Result<Box<dyn DynHandle>, Error>>;
type WFut = BoxFut<'static, (Box<dyn DynHandle>, Result<(), Error>)>;
struct Slot<const N: usize> {
    name: usize,
    node: Box<dyn DynNode<N>>,
    key: &'static str,
    kind: u8,
    place: Place,
    st: St,
    h: Option<Box<dyn DynHandle>>,
    wfut: Option<(WFut, Vec<u8>)>,
    att: Option<AttFut>,
    linked: bool,
    /// loaded by an interrupted read pass: the waiting attach is woken by the next one
    asleep: bool,
    /// a waiting attach that may stand in line for the list's lock
    queued: bool,
    /// has the worker been signalled since the attach (the write) began?
    sig_r: bool,
    sig_w: bool,
    dflt: Vec<u8>,
}
impl<const N: usize> Slot<N> {
    fn taken(&self) -> bool { self.h.is_some() || self.wfut.is_some() || (self.att.is_some() && self.linked) }
    fn waiting(&self) -> bool { self.place == Place::Main && self.st == St::Init }
    fn payload(&self, v: &[u8]) -> Vec<u8> {
        let mut p = vec![1u8];
        p.extend(enc_str(self.key));
        p.extend(enc(self.kind, v));
        p
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Op { Read, Write, Gc }
enum Out { Read(usize, usize), Write(usize, usize), Gc(usize, usize, usize), Err(LoadStoreError<SErr>), Cancelled }
impl std::fmt::Debug for Out {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Out::Read(a, b) => write!(f, "Ok(total={a}, current={b})"),
            Out::Write(a, b) => write!(f, "Ok(read={a}, written={b})"),
            Out::Gc(a, b, c) => write!(f, "Ok(read={a}, post={b}, popped={c})"),
            Out::Err(e) => write!(f, "Err({e:?})"),
            Out::Cancelled => write!(f, "cancelled"),
        }
    }
}

macro_rules! x4 { ($e:expr) => { concat!($e, $e, $e, $e) } }
macro_rules! concat256 { () => { x4!(x4!(x4!("wide"))) } }
const KEYS: [&str; 8] = ["a", "b", "", "config/one", "abcdefghijklmnopqrstuvw", "abcdefghijklmnopqrstuvwx", "über/ключ", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz"];

/// further keys, for histories with many nodes
const MORE: [&str; 12] = ["n/0", "n/1", "n/22", "n/333", "n/4444", "c", "d", "e", "f", concat!(concat256!(), "1"), concat!(concat256!(), "2"), "i/i"];
pub const MAX: usize = 420;

struct World<const N: usize> {
    r: Rng,
    med: MedRef,
    list: List<N>,
    other: List<N>,
    slots: Vec<Slot<N>>,
    cands: Vec<Cache>,
    /// what the newest valid record may contain (None: there is none)
    accept: Vec<Option<Vec<P>>>,
    /// a value changed under the hand of the running operation
    op: Option<Op>,
    nval: u64,
    dead: bool,
    faults: bool,
    /// the cache was reset and nothing has been written since
    was_reset: bool,
    keys: Vec<&'static str>,
    /// the node with the empty key has a type whose encoding is empty
    nil: bool,
}

fn scan(items: &[Item], k: usize) -> Vec<(u32, Vec<u64>)> {
    let mut v = valid(items);
    v.sort_by_key(|r| std::cmp::Reverse(r.seq));
    v.truncate(k);
    v.iter().map(|r| (r.seq, items[r.a..=r.b].iter().map(|i| i.id).collect())).collect()
}
fn best(items: &[Item]) -> Option<Vec<P>> { newest(items).first().map(|r| content(items, r)) }
fn show(p: &P) -> String {
    match p {
        P::Start(s) => format!("Start({s})"),
        P::End(s, c) => format!("End({s},{c:08x})"),
        P::Junk(n) => format!("Junk({n})"),
        P::Data(d) => match kv(d) { Some((k, v)) => format!("Data({k:?}={v:02x?})"), None => format!("Data({d:02x?})") },
    }
}
pub fn shows(items: &[Item]) -> String { items.iter().map(|i| format!("{}:{}", i.id, show(&i.p))).collect::<Vec<_>>().join(" ") }

impl<const N: usize> World<N> {
    fn new_list() -> List<N> { Box::leak(Box::new(StorageList::new())) }
    fn kind_of(&self, key: &str) -> u8 { if self.nil && key.is_empty() { 3 } else { (key.len() % 3) as u8 } }
    fn val(&mut self, kind: u8) -> Vec<u8> {
        if kind == 3 { return vec![] }
        self.nval += 1;
        let mut b = self.nval.to_be_bytes().to_vec();
        if kind == 2 {
            if self.r.p(30) { b[0] = 0x10 }
        } else {
            b = b[5..].to_vec();
            let extra = match self.r.n(100) { 0..=2 => self.r.n(330), 3..=19 => self.r.n(40), _ => self.r.n(6) };
            for _ in 0..extra { b.push(self.r.u() as u8) }
        }
        b
    }
    fn stored_val(&mut self, key: &str) -> Vec<u8> {
        let mut kind = self.kind_of(key);
        if self.r.p(12) { kind = (kind + 1) % 3 }
        let b = self.val(kind);
        let mut e = enc(kind, &b);
        if self.r.p(6) && !e.is_empty() { e.truncate(self.r.n(e.len())) }
        if self.r.p(6) { e.push(0x77) }
        e
    }
    fn gen_items(&mut self, m: &mut Med) {
        let base: u32 = match self.r.n(10) { 0 => u32::MAX - 400, 1 => 0x7FFF_FFF0, 2 => 250, 3 => 65525, 4 => 0x00FF_FFF0, _ => 1 };
        let mut used = BTreeSet::new();
        let segs = self.r.n(7);
        if self.r.p(25) {
            // random elements
            let mut bytes: Vec<u8> = vec![];
            for _ in 0..segs * 3 {
                match self.r.n(8) {
                    0 | 1 | 2 => { m.add(P::Start(base + self.r.n(4) as u32)); bytes.clear(); }
                    3 | 4 => {
                        let k = KEYS[self.r.n(3)];
                        let mut d = vec![1u8]; d.extend(enc_str(k)); d.extend(self.stored_val(k));
                        bytes.extend(&d[1..]);
                        m.add(P::Data(d));
                    }
                    5 | 6 => { let c = cksum(&bytes); m.add(P::End(base + self.r.n(4) as u32, if self.r.p(80) { c } else { c ^ 1 })); bytes.clear(); }
                    _ => { m.add(P::Junk(4 * self.r.n(4))); bytes.clear(); }
                }
            }
            return;
        }
        for _ in 0..segs {
            let mut s = base + self.r.n(30) as u32;
            while !used.insert(s) { s += 1 }
            let what = self.r.n(12);
            if what == 0 { m.add(P::Junk(4 * self.r.n(5))); continue }
            if what == 1 { m.add(P::End(s, 0xFFFF_FFFF)); continue }
            if what != 2 { m.add(P::Start(s)); }
            let mut bytes = vec![];
            let mut keys: Vec<&str> = self.keys.clone();
            for _ in 0..self.r.n(if self.keys.len() > KEYS.len() { 14 } else { 5 }) {
                let k = keys.swap_remove(self.r.n(keys.len()));
                let mut d = vec![1u8];
                if self.r.p(5) { d.extend([0x83, 1, 2, 3]) } else { d.extend(enc_str(k)); d.extend(self.stored_val(k)); }
                bytes.extend_from_slice(&d[1..]);
                m.add(P::Data(d));
                if what == 3 && self.r.p(50) { m.add(P::Junk(4)); }
            }
            let c = cksum(&bytes);
            match what {
                2 | 4 => {}
                5 => { m.add(P::End(s, c ^ (1 << self.r.n(32)))); }
                6 => { m.add(P::End(s ^ 1, c)); }
                _ => { m.add(P::End(s, c)); }
            }
        }
    }
    fn fill(&mut self, m: &mut Med) {
        loop {
            m.items.clear();
            self.gen_items(m);
            let v = valid(&m.items);
            let s: BTreeSet<u32> = v.iter().map(|r| r.seq).collect();
            if s.len() == v.len() { break }
        }
    }
    fn new_slots(&mut self) {
        let n = if self.keys.len() > KEYS.len() { 7 + self.r.n(7) } else { self.r.n(6) };
        for i in 0..n {
            let key = self.keys[self.r.n(self.keys.len())];
            self.add_slot(i, key);
        }
    }
    fn add_slot(&mut self, name: usize, key: &'static str) {
        let kind = self.kind_of(key);
        self.slots.push(Slot { name, node: new_node(kind, key), key, kind, place: Place::Nowhere, st: St::Init, h: None, wfut: None, att: None, linked: false, asleep: false, queued: false, sig_r: true, sig_w: true, dflt: vec![] });
    }
    fn items(&self) -> Vec<Item> { self.med.borrow().items.clone() }

    /// take the signals for the worker that are there
    fn take_signals(&mut self) {
        for (place, list) in [(Place::Main, self.list), (Place::Other, self.other)] {
            let r = guarded("C24 C19", "needs_read", || poll_once(std::pin::pin!(list.needs_read())).is_ready());
            let w = guarded("C24 C19", "needs_write", || poll_once(std::pin::pin!(list.needs_write())).is_ready());
            for s in &mut self.slots {
                s.sig_r |= r == Some(true) && place == Place::Main;
                s.sig_w |= w == Some(true) && place == if s.place == Place::Other { place } else { Place::Main };
            }
        }
    }
    /// poll everything that waits; `free`: nobody else can hold the list's lock
    fn poll_all(&mut self, free: bool) {
        for i in 0..self.slots.len() {
            if self.slots[i].wfut.is_some() { self.poll_write(i) }
            if self.dead { return }
            if self.slots[i].att.is_some() { self.poll_attach(i, free) }
            if self.dead { return }
        }
    }
    fn poll_write(&mut self, i: usize) {
        let Some((mut f, v)) = self.slots[i].wfut.take() else { return };
        let Some(p) = guarded("C13 C19", "handle.write", || poll_once(f.as_mut())) else { self.dead = true; std::mem::forget(f); return };
        match p {
            Poll::Pending => self.slots[i].wfut = Some((f, v)),
            Poll::Ready((h, res)) => {
                self.take_signals();
                let s = &mut self.slots[i];
                s.h = Some(h);
                let name = s.name;
                trace(|| format!("node{name}: handle.write({v:02x?}) -> {res:?}"));
                check(self.op != Some(Op::Write) || s.place != Place::Main, "C13", || "a handle write finished while a write pass was under way (not under the list's lock)".into());
                check(res.is_ok(), "C13", || format!("handle.write failed: {res:?}"));
                check(self.slots[i].sig_w || res.is_err(), "C24", || format!("node{name} was written without a signal on needs_write"));
                if res.is_ok() { self.slots[i].st = St::Val { v, unsaved: true } }
            }
        }
    }
    /// the errors with which attaching may fail now
    fn attach_errs(&self, i: usize) -> Vec<Error> {
        let s = &self.slots[i];
        let mut v = vec![];
        if s.taken() && !(s.att.is_some() && s.linked) { v.push(Error::AlreadyTaken) }
        if s.place == Place::Other { v.push(Error::NodeInOtherList) }
        if s.place != Place::Main && self.slots.iter().enumerate().any(|(j, t)| j != i && t.place == Place::Main && t.key == s.key) { v.push(Error::DuplicateKey) }
        v
    }
    fn poll_attach(&mut self, i: usize, free: bool) {
        let Some(mut f) = self.slots[i].att.take() else { return };
        let linked = self.slots[i].linked;
        let errs = if linked { vec![] } else { self.attach_errs(i) };
        let Some(p) = guarded("C12 C19", "attach", || poll_once(f.as_mut())) else { self.dead = true; std::mem::forget(f); return };
        let junk = self.items().iter().any(|x| matches!(&x.p, P::Data(d) if kv(d).is_none()));
        self.take_signals();
        let s = &mut self.slots[i];
        let name = s.name;
        match p {
            Poll::Pending => {
                s.att = Some(f);
                s.queued = !linked || s.st != St::Init;
                if free && !linked {
                    trace(|| format!("node{name}: attach linked, waiting"));
                    check(errs.is_empty(), "C12", || format!("attach of node{name} was accepted, but must fail with {errs:?}"));
                    check(s.sig_r, "C24", || format!("node{name} waits to be loaded, but needs_read was not signalled"));
                    s.linked = true;
                    s.place = Place::Main;
                }
                let st = s.st.clone();
                if free && !s.asleep { check(st == St::Init, "C13 C15 C24", || format!("attach of node{name} still waits although it has a value or was found absent ({st:?})")) }
            }
            Poll::Ready(Ok(h)) => {
                check(errs.is_empty(), "C12", || format!("attach of node{name} succeeded, but must fail with {errs:?}"));
                if !errs.is_empty() { self.dead = true; s.h = Some(h); return }
                check(s.sig_r, "C24", || format!("attach of node{name} finished without a signal on needs_read"));
                s.place = Place::Main;
                s.linked = false;
                s.asleep = false;
                let st = s.st.clone();
                let Some(got) = guarded("C13 C19", "handle.load", || h.load()) else { self.dead = true; return };
                trace(|| format!("node{name} {:?}: attached, loads {got:02x?}", s.key));
                check(h.key() == s.key, "C13", || "handle.key()".into());
                match st {
                    St::Init => {
                        fail("C13 C01 C14", format!("attach of node{name} gave a handle before any read pass succeeded"));
                        s.st = St::Val { unsaved: false, v: got };
                    }
                    St::NonRes => {
                        let d = s.dflt.clone();
                        check(got == d, if junk { "C01 C13 C11" } else { "C01 C13" }, || format!("node{name} has no decodable stored value: must load its default {d:02x?}, loads {got:02x?}"));
                        s.st = St::Val { v: got, unsaved: true };
                    }
                    St::Val { v, unsaved } => {
                        check(got == v, if junk { "C01 C13 C11" } else { "C01 C13" }, || format!("node{name} must load {v:02x?}, loads {got:02x?}"));
                        s.st = St::Val { v: got, unsaved };
                    }
                }
                s.h = Some(h);
            }
            Poll::Ready(Err(e)) => {
                trace(|| format!("node{name}: attach -> {e:?}"));
                check(errs.contains(&e), "C12", || format!("attach of node{name} failed with {e:?}, allowed: {errs:?}"));
                s.linked = false;
            }
        }
    }
    fn settle(&mut self) {
        for _ in 0..8 { if !self.dead { self.poll_all(false) } }
        for _ in 0..2 { if !self.dead { self.poll_all(true) } }
        if self.slots.iter().any(|s| s.wfut.is_some()) { fail("C13 C15", "handle.write does not finish although no operation runs".into()); self.dead = true; }
    }
    /// values, save marks and drops as the model says
    fn observe(&mut self, what: &str) {
        if self.dead { return }
        for s in &self.slots {
            if let (Some(h), St::Val { v, .. }) = (&s.h, &s.st) {
                let Some(g) = guarded("C13 C19", "handle.load", || h.load()) else { self.dead = true; return };
                check(&g == v, "C13 C04", || format!("after {what}: node{} {:?} loads {g:02x?}, last value was {v:02x?}", s.name, s.key));
            }
        }
        let want = self.slots.iter().filter(|s| matches!(s.st, St::Val { .. })).count();
        check(live() == want, "C12 C19", || format!("after {what}: {} values are alive, {want} nodes hold one", live()));
    }

    fn start_attach(&mut self, i: usize) {
        if self.slots.iter().any(|s| s.att.is_some() && !s.linked) { return }
        if self.slots[i].att.is_some() || self.slots[i].wfut.is_some() {
            // a second attach of a node that is taken
            if self.op.is_some() { return }
            let d = self.val(self.slots[i].kind);
            let mut f = self.slots[i].node.attach(self.list, d);
            let Some(p) = guarded("C12 C19", "attach", || poll_once(f.as_mut())) else { self.dead = true; return };
            trace(|| format!("node{i}: second attach -> {}", match &p { Poll::Ready(Err(e)) => format!("{e:?}"), Poll::Ready(Ok(_)) => "Ok".into(), _ => "pending".into() }));
            let ok = matches!(p, Poll::Ready(Err(Error::AlreadyTaken)));
            check(ok, "C12", || format!("a second attach of node{i} was not refused with AlreadyTaken"));
            if !ok { self.dead = true; std::mem::forget(p); std::mem::forget(f); }
            return;
        }
        let d = self.val(self.slots[i].kind);
        // the default survives a failed attach of a node that has none yet only if it is used
        let f = self.slots[i].node.attach(self.list, d.clone());
        if !self.slots[i].taken() { self.slots[i].dflt = d }
        self.slots[i].att = Some(f);
        self.slots[i].linked = false;
        self.take_signals();
        self.slots[i].sig_r = false;
        trace(|| format!("node{i} {:?}: attach starts{}", self.slots[i].key, if self.op.is_some() { " (during the pass)" } else { "" }));
        self.poll_attach(i, self.op.is_none());
    }
    fn detach(&mut self, i: usize) {
        let s = &self.slots[i];
        let mut errs = vec![];
        if s.taken() { errs.push(Error::AlreadyTaken) }
        if s.place == Place::Other { errs.push(Error::NodeInOtherList) }
        let mut f = s.node.detach(self.list);
        let Some(p) = guarded("C12 C19", "detach", || poll_once(f.as_mut())) else { self.dead = true; return };
        let Poll::Ready(res) = p else { fail("C12 C15", format!("detach of node{i} does not finish although no operation runs")); self.dead = true; return };
        trace(|| format!("node{i}: detach -> {res:?}"));
        match res {
            Ok(()) => {
                check(errs.is_empty(), "C12", || format!("detach of node{i} succeeded, but must fail with {errs:?}"));
                if !errs.is_empty() { self.dead = true; return }
                self.slots[i].place = Place::Nowhere;
                self.slots[i].st = St::Init;
            }
            Err(e) => check(errs.contains(&e), "C12", || format!("detach of node{i} failed with {e:?}, allowed: {errs:?}")),
        }
    }
    /// attach to another list, and perhaps let go of the handle there
    fn park(&mut self, i: usize) {
        if self.slots[i].att.is_some() || self.slots[i].wfut.is_some() { return }
        if self.slots[i].place == Place::Main || (self.slots[i].place == Place::Other && self.slots[i].taken()) {
            let mut f = self.slots[i].node.attach(self.other, vec![0; 8]);
            let Some(p) = guarded("C12 C19", "attach", || poll_once(f.as_mut())) else { self.dead = true; return };
            let ok = match &p { Poll::Ready(Err(e)) => *e == Error::NodeInOtherList || (*e == Error::AlreadyTaken && self.slots[i].taken()), _ => false };
            trace(|| format!("node{i}: attach to another list refused: {ok}"));
            check(ok, "C12", || format!("node{i} is in a list or taken, and attaching it to another list was not refused"));
            if !ok { self.dead = true; std::mem::forget(p); std::mem::forget(f); }
            return;
        }
        if self.slots[i].place == Place::Nowhere {
            if self.slots.iter().any(|s| s.place == Place::Other && s.key == self.slots[i].key) { return }
            let d = self.val(self.slots[i].kind);
            let mut f = self.slots[i].node.attach(self.other, d.clone());
            let other = self.other;
            let Some(p) = guarded("C12 C19", "attach", || {
                let _ = poll_once(f.as_mut());
                let m = Rc::new(RefCell::new(Med::new()));
                let mut buf = [0u8; 8];
                let mut sto = Sto::<MAX>(m);
                let mut r = Box::pin(other.process_reads(&mut sto, &mut buf));
                let _ = poll_once(r.as_mut());
                poll_once(f.as_mut())
            }) else { self.dead = true; return };
            let Poll::Ready(Ok(h)) = p else { fail("C12 C13", format!("attaching node{i} to a second list with empty storage failed")); self.dead = true; std::mem::forget(f); return };
            trace(|| format!("node{i}: attached to another list"));
            self.slots[i].place = Place::Other;
            self.slots[i].st = St::Val { v: d, unsaved: true };
            self.slots[i].h = Some(h);
        } else {
            // back out again
            let mut f = self.slots[i].node.detach(self.other);
            let Some(p) = guarded("C12 C19", "detach", || poll_once(f.as_mut())) else { self.dead = true; return };
            trace(|| format!("node{i}: detached from another list"));
            let ok = matches!(p, Poll::Ready(Ok(())));
            check(ok, "C12", || format!("detaching node{i} from its own list failed: {p:?}"));
            if !ok { self.dead = true; return }
            self.slots[i].place = Place::Nowhere;
            self.slots[i].st = St::Init;
        }
    }
    fn start_write(&mut self, i: usize) {
        let Some(mut h) = self.slots[i].h.take() else { return };
        let v = self.val(self.slots[i].kind);
        let b = v.clone();
        self.take_signals();
        self.slots[i].sig_w = false;
        self.slots[i].wfut = Some((Box::pin(async move { let r = h.write(&b).await; (h, r) }), v));
        self.poll_write(i);
    }

    /// one pass; `fault` hits its `at`-th storage access
    fn pass(&mut self, op: Op, fault: Option<Fault>, bufsz: usize, calm: bool) {
        // sometimes the tasks that wait for a finished read pass have not run yet
        if !calm && self.r.p(30) { self.settle_lock() } else { self.settle() }
        if self.dead { return }
        {
            let mut m = self.med.borrow_mut();
            m.log = Log::default();
            m.fault = fault;
            m.hung = false;
            m.yields = !calm && self.r.p(50);
        }
        let before = self.items();
        let med = self.med.clone();
        let list = self.list;
        let mut fut: BoxFut<'static, Out> = Box::pin(async move {
            let mut s = Sto::<MAX>(med);
            let mut buf = vec![0u8; bufsz];
            match op {
                Op::Read => match list.process_reads(&mut s, &mut buf).await { Ok(c) => Out::Read(c.total_bytes_read, c.current_bytes_read), Err(e) => Out::Err(e) },
                Op::Write => match list.process_writes(&mut s, &mut buf).await { Ok(c) => Out::Write(c.total_bytes_read, c.current_bytes_written), Err(e) => Out::Err(e) },
                Op::Gc => match list.process_garbage(&mut s, &mut buf).await { Ok(c) => Out::Gc(c.total_bytes_read, c.post_collection_bytes_read, c.total_bytes_popped), Err(e) => Out::Err(e) },
            }
        });
        // expectations of a write: taken now, while nobody else holds the lock
        let set: Vec<(String, Vec<u8>)> = self.slots.iter().filter(|s| s.place == Place::Main).filter_map(|s| match &s.st { St::Val { v, .. } => Some((s.key.to_string(), s.payload(v))), _ => None }).collect();
        let unsaved: Vec<usize> = (0..self.slots.len()).filter(|i| self.slots[*i].place == Place::Main && matches!(self.slots[*i].st, St::Val { unsaved: true, .. })).collect();
        let waiting: Vec<usize> = (0..self.slots.len()).filter(|i| self.slots[*i].waiting()).collect();
        trace(|| format!("{op:?} pass, buffer {bufsz}, fault {fault:?}"));
        self.op = Some(op);
        let props = match op { Op::Read => "C19", Op::Write => "C16 C19", Op::Gc => "C19" };
        let cancel_at = if !calm && self.faults && self.r.p(25) { self.r.n(30) } else { usize::MAX };
        let mut n = 0;
        let out = loop {
            let Some(p) = guarded(props, "the pass", || poll_once(fut.as_mut())) else { self.dead = true; std::mem::forget(fut); return };
            match p {
                Poll::Ready(o) => break o,
                Poll::Pending => {
                    if self.med.borrow().hung || n >= cancel_at {
                        if self.med.borrow().hung && self.r.p(50) { self.meddle() }
                        break Out::Cancelled;
                    }
                    n += 1;
                    if self.r.p(40) { self.meddle() }
                    if self.r.p(50) { self.poll_all(false) }
                    if n > 20000 { fail("C15", format!("{op:?} pass does not finish")); self.dead = true; std::mem::forget(fut); return }
                }
            }
            if self.dead { std::mem::forget(fut); return }
        };
        if guarded("C19", "dropping the pass", move || drop(fut)).is_none() { self.dead = true; return }
        self.op = None;
        { let mut m = self.med.borrow_mut(); m.fault = None; m.hung = false; }
        trace(|| format!("  -> {out:?}"));
        let after = self.items();
        if before != after { trace(|| format!("  storage: {}", shows(&after))) }

        // every explanation of the outcome
        let mut next: Vec<Cache> = vec![];
        let mut soft: Vec<Cache> = vec![];
        let mut miscount: Vec<(String, String)> = vec![];
        let mut complaint: Vec<(String, String)> = vec![];
        for c in self.cands.clone() {
            let mut bad: Vec<(String, String)> = vec![];
            let n = match op {
                Op::Read => self.expl_read(&c, &out, &before, &after, &mut bad),
                Op::Gc => self.expl_gc(&c, &out, &before, &after, &mut bad),
                Op::Write => self.expl_write(&c, &out, &before, &after, &set, &unsaved, &waiting, bufsz, &mut bad),
            };
            CTX.with(|c| c.borrow_mut().checks += 1);
            if bad.is_empty() { for x in n { if !next.contains(&x) { next.push(x) } } }
            else if bad.iter().all(|b| b.0.starts_with("C17")) { miscount.extend(bad); for x in n { if !soft.contains(&x) { soft.push(x) } } }
            else { complaint.extend(bad) }
        }
        if next.is_empty() {
            // wrong counters alone: say so, and go on
            for (t, m) in miscount { fail(&t, m) }
            next = soft;
        }
        if next.is_empty() {
            for (t, m) in complaint { fail(&t, m) }
            if op != Op::Write || matches!(out, Out::Err(_) | Out::Cancelled) && before == after {
                let b = best(&after);
                let tags = if op == Op::Gc { "C06 C20" } else { "C05 C20" };
                check(self.accept.contains(&b), tags, || format!("after this {op:?} pass the newest valid record is another one than before"));
            }
            self.dead = true;
            return;
        }
        // effects on the nodes
        let mut unsure = false;
        match (&op, &out) {
            (Op::Read, Out::Read(..)) => {
                let Cache::Scanned { recs, .. } = &next[0] else { unreachable!() };
                for i in waiting { self.slots[i].st = self.stored(i, recs.first(), &after) }
                for s in &mut self.slots { s.asleep = false }
            }
            (Op::Read, _) => {
                // values of an interrupted extraction may have arrived
                if let Some(Cache::Scanned { recs, .. }) = next.iter().find(|c| **c != Cache::Fresh) {
                    let m = self.med.borrow();
                    let shown = m.log.shown_last.clone();
                    let extracting = m.log.iters == 2 || (m.log.iters == 1 && self.cands.iter().any(|c| *c != Cache::Fresh));
                    drop(m);
                    let read: Vec<Item> = after.iter().filter(|i| shown.contains(&i.id)).cloned().collect();
                    let hit: Vec<(usize, St)> = waiting.iter().filter_map(|i| {
                        let st = self.stored(*i, recs.first(), &read);
                        let any = self.lookup(*i, recs.first(), &read);
                        (extracting && any).then_some((*i, st))
                    }).collect();
                    let vals = hit.iter().filter(|x| matches!(x.1, St::Val { .. })).count();
                    let have = live() - self.slots.iter().filter(|s| matches!(s.st, St::Val { .. })).count() - self.slots.iter().filter(|s| s.wfut.is_some()).count();
                    if vals == 0 && !hit.is_empty() { unsure = true }
                    if vals > 0 && have == vals {
                        for (i, st) in hit { self.slots[i].st = st; self.slots[i].asleep = true }
                    }
                }
            }
            (Op::Write, Out::Write(_, n)) => {
                if *n > 0 { self.was_reset = false }
                for i in 0..self.slots.len() {
                    if self.slots[i].place == Place::Main && let St::Val { unsaved, .. } = &mut self.slots[i].st { *unsaved = false }
                }
            }
            _ => {}
        }
        self.cands = next;
        // what a restart would find
        let b = best(&after);
        if op == Op::Write && before.len() != after.len() {
            let new: Vec<Item> = after.iter().filter(|i| !before.contains(i)).cloned().collect();
            let mut e: Vec<&Vec<u8>> = set.iter().map(|x| &x.1).collect(); e.sort();
            let full = valid(&new).into_iter().find(|r| {
                let mut a: Vec<&Vec<u8>> = new[r.a + 1..r.b].iter().filter_map(|i| match &i.p { P::Data(d) => Some(d), _ => None }).collect();
                a.sort();
                a == e
            });
            if let Some(r) = full {
                // the new record is complete: it may be what a restart finds
                let full = Some(content(&new, &r));
                if matches!(out, Out::Write(..)) { self.accept = vec![full] } else { self.accept.push(full) }
            }
        }
        if op == Op::Gc && let [Cache::Scanned { recs, gc: false }] = &self.cands[..] && matches!(out, Out::Gc(..)) && before != after {
            self.accept = vec![recs.first().map(|r| after.iter().filter(|i| r.1.contains(&i.id)).map(|i| i.p.clone()).collect())];
        }
        let tags = match op { Op::Write => "C05 C20", Op::Gc => "C06 C20", Op::Read => "C05 C20" };
        check(self.accept.contains(&b), tags, || format!("after this {op:?} pass the newest valid record is {:?}, allowed: {:?}", b.as_ref().map(|v| v.iter().map(show).collect::<Vec<_>>()), self.accept.iter().map(|a| a.as_ref().map(|v| v.iter().map(show).collect::<Vec<_>>())).collect::<Vec<_>>()));
        self.settle_lock();
        self.observe(&format!("the {op:?} pass"));
        // ambiguous knowledge: start over
        let firsts: BTreeSet<Option<u32>> = self.cands.iter().map(|c| match c { Cache::Fresh => scan(&after, N).first().map(|r| r.0), Cache::Scanned { recs, .. } => recs.first().map(|r| r.0) }).collect();
        if (firsts.len() > 1 || unsure) && !self.dead { self.restart() }
    }
    /// let those go on that queue for the lock, without resolving the attaches that wait for a read
    fn settle_lock(&mut self) {
        for free in [false, false, false, false, false, false, false, false, true] {
            for i in 0..self.slots.len() {
                if !self.dead && self.slots[i].wfut.is_some() { self.poll_write(i) }
                if !self.dead && self.slots[i].att.is_some() && (!self.slots[i].linked || self.slots[i].queued) { self.poll_attach(i, free) }
            }
        }
    }
    fn meddle(&mut self) {
        if self.slots.is_empty() { return }
        let i = self.r.n(self.slots.len());
        if self.r.p(70) { self.start_write(i) } else if self.slots[i].att.is_none() && self.slots[i].wfut.is_none() && !self.slots[i].taken() { self.start_attach(i) }
    }
    fn stored(&self, i: usize, rec: Option<&(u32, Vec<u64>)>, items: &[Item]) -> St {
        let Some((_, ids)) = rec else { return St::NonRes };
        let its: Vec<&Item> = items.iter().filter(|x| ids.contains(&x.id)).collect();
        let s = &self.slots[i];
        for x in its {
            if let P::Data(d) = &x.p && let Some((k, b)) = kv(d) && k == s.key {
                return match dec(s.kind, &b) { Some(v) => St::Val { v, unsaved: false }, None => St::NonRes };
            }
        }
        St::NonRes
    }

    fn lookup(&self, i: usize, rec: Option<&(u32, Vec<u64>)>, items: &[Item]) -> bool {
        let Some((_, ids)) = rec else { return false };
        items.iter().any(|x| ids.contains(&x.id) && matches!(&x.p, P::Data(d) if kv(d).is_some_and(|(k, _)| k == self.slots[i].key)))
    }
    fn expl_read(&self, c: &Cache, out: &Out, before: &[Item], after: &[Item], bad: &mut Vec<(String, String)>) -> Vec<Cache> {
        let mut no = |t: &str, m: String| bad.push((t.into(), m));
        if before != after { no("C05 C20", "a read pass changed the storage".into()) }
        let m = self.med.borrow();
        let fresh = *c == Cache::Fresh;
        let scanned = match c {
            Cache::Fresh => { let recs = scan(before, N); Cache::Scanned { recs, gc: !before.is_empty() } }
            c => c.clone(),
        };
        match out {
            Out::Read(total, cur) => {
                let Cache::Scanned { recs, .. } = &scanned else { unreachable!() };
                if fresh && !m.log.end_seen { no(if self.was_reset { "C18 C02" } else { "C02 C01" }, "a read pass on an unscanned storage succeeded without reading the storage to its end".into()) }
                if *total != m.log.read_bytes { no("C17", format!("total_bytes_read {total}, read were {}", m.log.read_bytes)) }
                let want: usize = recs.first().map(|r| before.iter().filter(|i| r.1.contains(&i.id) && matches!(i.p, P::Data(_))).map(|i| i.len()).sum()).unwrap_or(0);
                if *cur != want {
                    // the size of another record: the wrong one is taken for the newest
                    let other = valid(before).iter().any(|r| before[r.a + 1..r.b].iter().map(|i| i.len()).sum::<usize>() == *cur);
                    no(if other { "C17 C02" } else { "C17" }, format!("current_bytes_read {cur}, the data elements of the newest record have {want}"))
                }
                vec![scanned]
            }
            Out::Err(e) => {
                if !m.log.fault_hit { no("C15", format!("a read pass on a working storage failed: {e:?}")) }
                if fresh { if m.log.end_seen { vec![Cache::Fresh, scanned] } else { vec![Cache::Fresh] } } else { vec![c.clone()] }
            }
            Out::Cancelled => if fresh { if m.log.end_seen { vec![Cache::Fresh, scanned] } else { vec![Cache::Fresh] } } else { vec![c.clone()] },
            _ => unreachable!(),
        }
    }
    fn expl_gc(&self, c: &Cache, out: &Out, before: &[Item], after: &[Item], bad: &mut Vec<(String, String)>) -> Vec<Cache> {
        let mut no = |t: &str, m: String| bad.push((t.into(), m));
        let m = self.med.borrow();
        // nothing but removals
        let mut j = 0;
        for a in after { while j < before.len() && before[j] != *a { j += 1 } if j == before.len() { no("C06", "a collection changed or reordered elements".into()); return vec![]; } j += 1; }
        let Cache::Scanned { recs, gc: true } = c else {
            if before != after { no("C06", "a collection that was not required removed elements".into()) }
            match out {
                Out::Gc(a, b, p) => { if *a != m.log.read_bytes || *b != 0 && *b != m.log.read_last_iter || *p != 0 { no("C17", format!("counters {a} {b} {p} of a collection that did nothing")) } }
                Out::Err(e) if !m.log.fault_hit => no("C15 C06", format!("a collection that was not required failed: {e:?}")),
                _ => {}
            }
            return vec![c.clone()];
        };
        let keep: Vec<u64> = recs.iter().flat_map(|r| r.1.clone()).collect();
        let missing: Vec<&Item> = before.iter().filter(|i| keep.contains(&i.id) && !after.contains(i)).collect();
        if !missing.is_empty() {
            no("C06", format!("the collection removed elements of the {N} newest valid records: {}", missing.iter().map(|i| format!("{}:{}", i.id, show(&i.p))).collect::<Vec<_>>().join(" ")));
            if before.iter().filter(|i| keep.contains(&i.id)).count() == keep.len() { no("C02", "the library does not know exactly the newest valid records: elements of one were collected".into()) }
        }
        match out {
            Out::Gc(a, b, p) => {
                if !missing.is_empty() { no("C07", "after the collection the newest valid records are not complete".into()) }
                let left: Vec<&Item> = after.iter().filter(|i| !keep.contains(&i.id)).collect();
                if !left.is_empty() {
                    no("C07", format!("the collection left elements that belong to no kept record: {}", left.iter().map(|i| format!("{}:{}", i.id, show(&i.p))).collect::<Vec<_>>().join(" ")));
                    if valid(after).len() > recs.len() { no("C02", "the library regards more, or other, records as the newest valid ones".into()) }
                }
                if *a != m.log.read_bytes { no("C17", format!("total_bytes_read {a}, read were {}", m.log.read_bytes)) }
                if *b != m.log.read_last_iter { no("C17", format!("post_collection_bytes_read {b}, read were {}", m.log.read_last_iter)) }
                if *p != m.log.popped_bytes { no("C17", format!("total_bytes_popped {p}, removed were {}", m.log.popped_bytes)) }
                vec![Cache::Scanned { recs: recs.clone(), gc: false }]
            }
            Out::Err(e) => {
                if !m.log.fault_hit { no("C15 C07", format!("a collection on a working storage failed: {e:?}")) }
                if m.log.ops == 0 { vec![Cache::Fresh, c.clone()] } else { vec![Cache::Fresh] }
            }
            Out::Cancelled => if m.log.ops == 0 { vec![Cache::Fresh, c.clone()] } else { vec![Cache::Fresh] },
            _ => unreachable!(),
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn expl_write(&self, c: &Cache, out: &Out, before: &[Item], after: &[Item], set: &[(String, Vec<u8>)], unsaved: &[usize], waiting: &[usize], bufsz: usize, bad: &mut Vec<(String, String)>) -> Vec<Cache> {
        let mut no = |t: &str, m: String| bad.push((t.into(), m));
        let m = self.med.borrow();
        let grown = after.len() >= before.len() && after[..before.len()] == *before;
        if !grown { no("C03 C05 C20", "a write pass changed or removed elements that were in storage".into()); return vec![]; }
        let new = &after[before.len()..];
        let mut refusals = vec![];
        if *c == Cache::Fresh || !waiting.is_empty() { refusals.push(Error::NeedsFirstRead) }
        if let Cache::Scanned { gc: true, .. } = c { refusals.push(Error::NeedsGarbageCollect) }
        if !refusals.is_empty() {
            if !new.is_empty() { no("C08 C14 C15", format!("a write pass that must be refused with {refusals:?} wrote to the storage")); }
            match out {
                Out::Write(..) => no("C08", format!("a write pass succeeded, but must be refused with {refusals:?}")),
                Out::Err(LoadStoreError::AppError(e)) if refusals.contains(e) => {}
                Out::Err(e) => no("C08", format!("a write pass failed with {e:?}, but must be refused with {refusals:?}")),
                _ => {}
            }
            return vec![c.clone()];
        }
        let Cache::Scanned { recs, .. } = c else { unreachable!() };
        let next_seq = recs.first().map(|r| r.0).unwrap_or(0) + 1;
        let needs = !unsaved.is_empty() || recs.is_empty();
        if !needs {
            if !new.is_empty() { no("C08 C18", "a write pass wrote although nothing needs saving".into()) }
            match out {
                Out::Write(a, b) => { if *a != m.log.read_bytes || *b != m.log.push_bytes { no("C17", format!("counters {a} {b} of a write pass that did nothing")) } }
                Out::Err(e) => no("C08 C15", format!("a write pass with nothing to save failed: {e:?}")),
                _ => {}
            }
            return vec![c.clone()];
        }
        // an attempted write
        let mut want: Vec<Vec<u8>> = set.iter().map(|x| x.1.clone()).collect();
        want.sort();
        let toobig = want.iter().any(|p| p.len() > bufsz);
        if !m.log.lied {
            for i in new {
                match &i.p {
                    P::Start(s) => {
                        if *s <= next_seq - 1 || valid(before).iter().any(|r| r.seq >= *s) { no("C03 C02", format!("the new record has number {s}, not above every valid one")) }
                    }
                    P::Data(d) => if !want.contains(d) { no("C16 C03 C13", format!("a data element was written that is no node's key and value: {}", show(&i.p))) },
                    P::End(..) => {}
                    P::Junk(_) => {}
                }
            }
        }
        let gc = |recs: &Vec<(u32, Vec<u64>)>| Cache::Scanned { recs: recs.clone(), gc: true };
        match out {
            Out::Write(a, b) => {
                if m.log.push_attempts == 0 {
                    let t = if unsaved.is_empty() { "C18" } else { "C04 C13 C20" };
                    no(t, "a write pass reported success without writing although values need saving".into());
                    return vec![];
                }
                if m.log.fault_hit && !m.log.lied { no("C04 C05", "a write pass reported success although the storage reported a failure".into()) }
                if toobig { no("C16", "a write pass succeeded although a key and value do not fit the buffer".into()) }
                // somewhere in the new elements: the complete record
                let v = valid(new);
                let mut good = None;
                for r in &v {
                    let mut d: Vec<Vec<u8>> = new[r.a + 1..r.b].iter().map(|i| match &i.p { P::Data(d) => d.clone(), _ => vec![] }).collect();
                    d.sort();
                    if d == want && r.seq >= next_seq { good = Some(*r) }
                }
                let Some(g) = good else {
                    no(if m.log.lied { "C04" } else { "C03 C04 C20" }, format!("a write pass reported success, but there is no complete record of the current values: {}", shows(new)));
                    return vec![];
                };
                if !m.log.lied {
                    if g.a != 0 || g.b + 1 != new.len() { no("C03", format!("a write pass appended more than one record: {}", shows(new))) }
                    if *a != m.log.read_bytes { no("C17", format!("total_bytes_read {a}, read were {}", m.log.read_bytes)) }
                    if *b != m.log.push_bytes { no("C17", format!("current_bytes_written {b}, written were {}", m.log.push_bytes)) }
                }
                if m.log.read_bytes < after[..=before.len() + g.b].iter().map(|i| i.len()).sum::<usize>() { no("C04", "a write pass reported success without reading back the whole record".into()) }
                let mut recs = recs.clone();
                recs.insert(0, (g.seq, new[g.a..=g.b].iter().map(|i| i.id).collect()));
                recs.truncate(N);
                vec![gc(&recs)]
            }
            Out::Err(e) => {
                if !m.log.fault_hit {
                    if toobig {
                        if *e != LoadStoreError::AppError(Error::Serialization) { no("C16", format!("a value does not fit the buffer, and the write pass failed with {e:?}")) }
                    } else {
                        let t = match e { LoadStoreError::AppError(Error::NeedsGarbageCollect | Error::NeedsFirstRead) if self.was_reset => "C08 C15 C14 C18", LoadStoreError::AppError(Error::NeedsGarbageCollect | Error::NeedsFirstRead) => "C08 C15 C14", LoadStoreError::AppError(Error::Serialization) => "C15 C16", _ => "C15 C04 C03" };
                        no(t, format!("a permitted write pass on a working storage failed: {e:?}"));
                    }
                }
                if m.log.ops == 0 { vec![gc(recs), c.clone()] } else if new.is_empty() { vec![gc(recs), c.clone()] } else { vec![gc(recs)] }
            }
            Out::Cancelled => if new.is_empty() { vec![gc(recs), c.clone()] } else { vec![gc(recs)] },
            _ => unreachable!(),
        }
    }

    fn free_all(&mut self) {
        for s in &mut self.slots { s.att = None; s.wfut = None; s.h = None; }
        for l in [self.list, self.other] { unsafe { drop(Box::from_raw(l as *const StorageList<_, N> as *mut StorageList<mutex::raw_impls::cs::CriticalSectionRawMutex, N>)) } }
        for s in self.slots.drain(..) { unsafe { s.node.free() } }
        reset_live();
    }
    fn restart(&mut self) {
        trace(|| "restart".into());
        if guarded("C12 C19", "dropping everything", || ()).is_none() { self.dead = true; return }
        let me = std::panic::AssertUnwindSafe(&mut *self);
        if guarded("C12 C19", "dropping handles and lists", move || { let me = me; me.0.free_all() }).is_none() { self.dead = true; return }
        self.list = Self::new_list();
        self.other = Self::new_list();
        self.cands = vec![Cache::Fresh];
        self.was_reset = false;
        self.new_slots();
        // all that counts is the storage now
        self.accept = vec![best(&self.items())];
    }
    /// what would a restart load now?
    fn probe(&mut self) {
        let items = self.items();
        let m = Rc::new(RefCell::new(Med::new()));
        m.borrow_mut().items = items.clone();
        m.borrow_mut().next_id = 1 << 40;
        let base_live = live();
        let mut w = World::<N> { r: Rng::new(self.r.u()), med: m, list: Self::new_list(), other: Self::new_list(), slots: vec![], cands: vec![Cache::Fresh], accept: vec![best(&items)], op: None, nval: 1 << 20, dead: false, faults: false, was_reset: false, keys: self.keys.clone(), nil: self.nil };
        for (i, k) in self.keys.iter().enumerate() { w.add_slot(i, k) }
        trace(|| "probe: a restart on a copy of the storage".into());
        for i in 0..w.slots.len() { if !w.dead { w.start_attach(i) } }
        if w.dead { self.dead = true; return }
        // the pass, without the count of live values
        let med = w.med.clone();
        let list = w.list;
        let Some(res) = guarded("C19", "process_reads", || {
            let mut s = Sto::<MAX>(med);
            let mut buf = vec![0u8; MAX];
            let mut f = Box::pin(list.process_reads(&mut s, &mut buf));
            match poll_once(f.as_mut()) { Poll::Ready(r) => r.map(|_| ()).map_err(|e| format!("{e:?}")), Poll::Pending => Err("pending".into()) }
        }) else { self.dead = true; return };
        check(res.is_ok(), "C01 C15", || format!("the first read pass after a restart failed: {res:?}"));
        if res.is_ok() {
            let recs = scan(&items, 1);
            for i in 0..w.slots.len() { w.slots[i].st = w.stored(i, recs.first(), &items) }
            for i in 0..w.slots.len() { if !w.dead { w.poll_attach(i, true) } }
        }
        if w.dead { self.dead = true; return }
        let keep: Vec<u64> = vec![];
        let _ = (keep, base_live);
        // drop the copy's values again
        for i in 0..w.slots.len() {
            w.slots[i].h = None;
            w.slots[i].att = None;
            let mut f = w.slots[i].node.detach(w.list);
            let ok = guarded("C12 C19", "detach", || matches!(poll_once(f.as_mut()), Poll::Ready(Ok(())))).unwrap_or(false);
            if res.is_ok() { check(ok, "C12", || "detach failed".into()) }
        }
        if res.is_ok() { check(live() == base_live, "C12 C19", || format!("detaching left {} values alive, want {base_live}", live())) }
        for l in [w.list, w.other] { unsafe { drop(Box::from_raw(l as *const StorageList<_, N> as *mut StorageList<mutex::raw_impls::cs::CriticalSectionRawMutex, N>)) } }
        for s in w.slots.drain(..) { unsafe { s.node.free() } }
    }
    /// read, collect, write on a working storage: everything is saved
    fn recover(&mut self) {
        trace(|| "recovery".into());
        let step = |w: &mut Self, op| {
            let n = CTX.with(|c| c.borrow().fails.len());
            w.pass(op, None, MAX, true);
            CTX.with(|c| c.borrow().fails.len()) == n && !w.dead
        };
        for op in [Op::Read, Op::Gc, Op::Write] { if !step(self, op) { return } }
        let items = self.items();
        for s in &self.slots {
            if s.place == Place::Main && let St::Val { v, unsaved } = &s.st {
                check(!unsaved, "C15 C04", || format!("node{} is still unsaved after recovery", s.name));
                let _ = v;
            }
        }
        let _ = items;
        self.probe();
    }
    fn fault(&mut self, op: Op) -> Option<Fault> {
        if !self.faults || self.r.p(55) { return None }
        let n = self.med.borrow().items.len();
        let range = match op { Op::Read => 2 * n + 5, Op::Write => n + 12, Op::Gc => 3 * n + 6 };
        let kind = match self.r.n(if op == Op::Write { 8 } else { 4 }) {
            0 => FaultKind::ErrBefore, 1 => FaultKind::ErrAfter, 2 => FaultKind::HangBefore, 3 => FaultKind::HangAfter,
            4 => FaultKind::LieFlip, 5 => FaultKind::LieDrop, 6 => FaultKind::LieTwice, _ => FaultKind::ReadFlip,
        };
        let at = self.r.n(range);
        Some(Fault { at, kind })
    }
    fn run(&mut self, steps: usize) {
        for _ in 0..steps {
            if self.dead { return }
            let i = if self.slots.is_empty() { 0 } else { self.r.n(self.slots.len()) };
            let any = !self.slots.is_empty();
            match self.r.n(100) {
                0..=15 if any => self.start_attach(i),
                16..=27 if any => { self.settle(); if !self.dead { self.start_write(i) } }
                28..=31 if any => { if self.slots[i].h.is_some() { trace(|| format!("node{i}: handle dropped")); let h = self.slots[i].h.take(); if guarded("C12 C19", "drop of a handle", move || drop(h)).is_none() { self.dead = true } } }
                32..=36 if any => { self.settle(); if !self.dead { self.detach(i) } }
                37..=38 if any => { self.settle(); if !self.dead { self.park(i) } }
                39..=54 => { let f = self.fault(Op::Read); self.pass(Op::Read, f, MAX, false) }
                55..=72 => { let f = self.fault(Op::Gc); self.pass(Op::Gc, f, MAX, false) }
                73..=91 => {
                    let f = self.fault(Op::Write);
                    let b = if self.r.p(12) { let k = if self.r.p(25) { MAX } else { 40 }; self.r.n(k) } else { MAX };
                    self.pass(Op::Write, f, b, false)
                }
                92..=93 => {
                    self.settle();
                    if self.dead { return }
                    let change = self.r.p(50);
                    if change {
                        let mut m = Med::new();
                        m.next_id = self.med.borrow().next_id;
                        match self.r.n(3) {
                            0 => {}
                            1 => self.fill(&mut m),
                            _ => { m.items = self.items(); let n = self.r.n(m.items.len() + 1); m.items.truncate(n) }
                        }
                        let v = valid(&m.items);
                        let s: BTreeSet<u32> = v.iter().map(|r| r.seq).collect();
                        if s.len() == v.len() && v.iter().all(|r| r.seq < u32::MAX - 200) {
                            let mut me = self.med.borrow_mut();
                            me.items = m.items; me.next_id = m.next_id;
                        }
                    }
                    let list = self.list;
                    let r = guarded("C18 C19", "reset_cache", || { let mut f = Box::pin(list.reset_cache()); matches!(poll_once(f.as_mut()), Poll::Ready(())) });
                    trace(|| format!("reset_cache; storage: {}", shows(&self.items())));
                    if r != Some(true) { fail("C18", "reset_cache does not finish".into()); self.dead = true; return }
                    self.was_reset = true;
                    self.cands = vec![Cache::Fresh];
                    self.accept = vec![best(&self.items())];
                    self.observe("reset_cache");
                }
                94..=95 => self.restart(),
                96..=97 => { self.settle(); if !self.dead { self.probe() } }
                98 => self.recover(),
                _ => { self.poll_all(true) }
            }
            if !self.dead && self.r.p(50) { self.settle(); self.observe("the step") }
        }
        if !self.dead { self.recover() }
    }
}
fn run_n<const N: usize>(seed: u64) {
    reset_live();
    let mut r = Rng::new(seed);
    let faults = r.p(80);
    let steps = 4 + r.n(24);
    let empty = r.p(30);
    let wide = r.p(8);
    let nil = r.p(8);
    let mut keys = KEYS.to_vec();
    if wide { keys.extend(MORE) }
    let mut w = World::<N> { r, med: Rc::new(RefCell::new(Med::new())), list: World::<N>::new_list(), other: World::<N>::new_list(), slots: vec![], cands: vec![Cache::Fresh], accept: vec![], op: None, nval: 0, dead: false, faults, was_reset: false, keys, nil };
    let mut m = Med::new();
    if !empty { w.fill(&mut m) }
    *w.med.borrow_mut() = m;
    trace(|| format!("history {seed}: {N} records kept; storage: {}", shows(&w.items())));
    w.accept = vec![best(&w.items())];
    w.new_slots();
    w.run(steps);
    if w.dead { std::mem::forget(w) } else { let _ = guarded("C12 C19", "dropping handles and lists", move || w.free_all()); }
}
pub fn run(seed: u64) {
    match seed % 3 { 0 => run_n::<1>(seed), 1 => run_n::<2>(seed), _ => run_n::<3>(seed) }
}

/// random storage contents for other engines
pub fn fill_for(r: &mut Rng, m: &mut Med) {
    let mut w = World::<1> { r: Rng::new(r.u()), med: Rc::new(RefCell::new(Med::new())), list: World::<1>::new_list(), other: World::<1>::new_list(), slots: vec![], cands: vec![], accept: vec![], op: None, nval: 0, dead: false, faults: false, was_reset: false, keys: KEYS.to_vec(), nil: false };
    w.fill(m);
    w.free_all();
}

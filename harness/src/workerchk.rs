//! the default worker task, stopped at arbitrary moments (C21)
use crate::{med::*, scen, util::*, vals::*};
use cfg_noodle::{StorageList, worker_task::default_worker_task};
use embassy_time::{Duration, MockDriver};
use std::{cell::{Cell, RefCell}, future::Future, rc::Rc, task::Poll};

const N: usize = 2;
pub fn run(seed: u64) {
    reset_live();
    let mut r = Rng::new(seed ^ 0x77);
    MockDriver::get().reset();
    let list: List<N> = Box::leak(Box::new(StorageList::new()));
    let med: MedRef = Rc::new(RefCell::new(Med::new()));
    if r.p(60) { scen::fill_for(&mut r, &mut med.borrow_mut()) }
    med.borrow_mut().yields = r.p(70);
    let stop = Rc::new(Cell::new(false));
    let st2 = stop.clone();
    let m2 = med.clone();
    let mut worker: BoxFut<'static, ()> = Box::pin(async move {
        let mut buf = [0u8; scen::MAX];
        default_worker_task(list, Sto::<{ scen::MAX }>(m2), std::future::poll_fn(move |_| if st2.get() { Poll::Ready(()) } else { Poll::Pending }), &mut buf).await
    });
    const KEYS: [&str; 4] = ["a", "b", "config/one", "x"];
    let n = 1 + r.n(4);
    let mut nv = 0u64;
    let mut val = |kind: u8| { nv += 1; let b = nv.to_be_bytes().to_vec(); if kind == 2 { b } else { b[6..].to_vec() } };
    let nodes: Vec<(Box<dyn DynNode<N>>, &'static str, u8)> = KEYS[..n].iter().map(|k| { let kind = (k.len() % 3) as u8; (new_node(kind, k), *k, kind) }).collect();
    let mut handles: Vec<Option<Box<dyn DynHandle>>> = (0..n).map(|_| None).collect();
    let mut atts: Vec<Option<BoxFut<'static, _>>> = (0..n).map(|_| None).collect();
    let mut started = vec![false; n];
    type W = BoxFut<'static, (Box<dyn DynHandle>, Result<(), cfg_noodle::error::Error>)>;
    let mut wfut: Vec<Option<W>> = (0..n).map(|_| None).collect();
    let mut dead = false;
    let poll_worker = |w: &mut BoxFut<'static, ()>, dead: &mut bool| -> bool {
        match guarded("C19 C21", "the worker", || poll_once(w.as_mut())) { Some(Poll::Ready(())) => true, Some(Poll::Pending) => false, None => { *dead = true; false } }
    };
    macro_rules! poll_others { () => {
        for i in 0..n {
            if let Some(mut f) = atts[i].take() {
                match guarded("C19 C12", "attach", || poll_once(f.as_mut())) {
                    Some(Poll::Pending) => atts[i] = Some(f),
                    Some(Poll::Ready(Ok(h))) => { trace(|| format!("node{i} attached")); handles[i] = Some(h) }
                    Some(Poll::Ready(Err(e))) => { fail("C12", format!("attach failed: {e:?}")); }
                    None => { dead = true }
                }
            }
            if let Some(mut f) = wfut[i].take() {
                match guarded("C19 C13", "handle.write", || poll_once(f.as_mut())) {
                    Some(Poll::Pending) => wfut[i] = Some(f),
                    Some(Poll::Ready((h, e))) => { trace(|| format!("node{i} written: {:02x?}", h.load())); if e.is_err() { fail("C13", format!("write failed: {e:?}")) } handles[i] = Some(h) }
                    None => { dead = true }
                }
            }
        }
    } }
    let steps = 5 + r.n(40);
    trace(|| format!("worker history {seed}, {n} nodes"));
    for _ in 0..steps {
        if dead { break }
        let i = r.n(n);
        match r.n(10) {
            0..=1 => if !started[i] { started[i] = true; trace(|| format!("node{i} attach starts")); let d = val(nodes[i].2); atts[i] = Some(nodes[i].0.attach(list, d)); }
            2..=4 => if let Some(mut h) = handles[i].take() { let v = val(nodes[i].2); wfut[i] = Some(Box::pin(async move { let x = h.write(&v).await; (h, x) })); }
            5..=6 => { let ms = match r.n(4) { 0 => 30, 1 => 150, 2 => 11_000, _ => 130_000 }; trace(|| format!("advance {ms} ms")); MockDriver::get().advance(Duration::from_millis(ms)); }
            7 if r.p(30) => { let mut m = med.borrow_mut(); m.log.ops = 0; m.fault = Some(Fault { at: r.n(12), kind: if r.p(50) { FaultKind::ErrBefore } else { FaultKind::ErrAfter } }); }
            _ => {}
        }
        poll_others!();
        for _ in 0..1 + r.n(8) {
            if dead { break }
            if poll_worker(&mut worker, &mut dead) { fail("C21", "the worker ended without being told to".into()); dead = true }
            if r.p(50) { poll_others!() }
        }
    }
    if dead { std::mem::forget((worker, handles, atts, wfut)); return }
    // the storage works again; stop
    med.borrow_mut().fault = None;
    // pending writes finish before the stop, if they can
    poll_others!();
    stop.set(true);
    let inflight: Vec<bool> = (0..n).map(|i| wfut[i].is_some() || atts[i].is_some()).collect();
    let want: Vec<Option<Vec<u8>>> = (0..n).map(|i| if inflight[i] { None } else { handles[i].as_ref().map(|h| h.load()) }).collect();
    trace(|| format!("stop; storage {}", scen::shows(&med.borrow().items)));
    let mut done = false;
    for _ in 0..20000 {
        if poll_worker(&mut worker, &mut dead) { done = true; break }
        if dead { break }
        // others still wait for the lock
        if r.p(50) { poll_others!() }
        if r.p(5) { MockDriver::get().advance(Duration::from_millis(200)) }
    }
    if dead { std::mem::forget((worker, handles, atts, wfut)); return }
    check(done, "C21", || "the worker does not end after being told to stop".into());
    let items = med.borrow().items.clone();
    let recs = newest(&items);
    for i in 0..n {
        let Some(v) = &want[i] else { continue };
        // attaches and writes that were under way when the stop came may have changed the value since
        let cur = handles[i].as_ref().map(|h| h.load());
        let got = recs.first().and_then(|r| lookup(&items, r, nodes[i].1)).and_then(|b| dec(nodes[i].2, &b));
        check(got.as_ref() == Some(v) || (cur.as_ref() != Some(v) && got == cur), "C21", || format!("node{i} {:?} held {v:02x?} when the worker was told to stop; storage has {got:02x?} after it ended: {}", nodes[i].1, scen::shows(&items)));
    }
    drop(worker);
    drop(atts);
    drop(wfut);
    drop(handles);
    unsafe { drop(Box::from_raw(list as *const StorageList<_, N> as *mut StorageList<mutex::raw_impls::cs::CriticalSectionRawMutex, N>)) }
    for x in nodes { unsafe { x.0.free() } }
    reset_live();
}
#[allow(unused)]
fn _f(_: &dyn Future<Output = ()>) {}

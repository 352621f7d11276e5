//! random numbers, CRC, polling, failure collection
use std::{cell::RefCell, future::Future, pin::Pin, task::{Context, Poll, Waker}};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        r.u(); r.u();
        r
    }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn n(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.u() % n as u64) as usize } }
    pub fn p(&mut self, percent: usize) -> bool { self.n(100) < percent }
}

/// CRC-32/CKSUM, bit by bit (independent of the crate under test)
pub fn cksum(data: &[u8]) -> u32 {
    let mut c: u32 = 0;
    for b in data {
        c ^= (*b as u32) << 24;
        for _ in 0..8 { c = if c & 0x8000_0000 != 0 { (c << 1) ^ 0x04C1_1DB7 } else { c << 1 } }
    }
    !c
}

pub fn poll_once<F: Future + ?Sized>(f: Pin<&mut F>) -> Poll<F::Output> {
    let mut cx = Context::from_waker(Waker::noop());
    f.poll(&mut cx)
}

#[derive(Clone)]
pub struct Fail { pub props: Vec<String>, pub msg: String }

pub struct Ctx {
    pub fails: Vec<Fail>,
    pub trace: Vec<String>,
    pub checks: u64,
    pub ops: u64,
    pub tracing: bool,
}
thread_local! {
    pub static CTX: RefCell<Ctx> = const { RefCell::new(Ctx { fails: Vec::new(), trace: Vec::new(), checks: 0, ops: 0, tracing: false }) };
}
pub fn fail(props: &str, msg: String) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.trace.push(format!("!! [{props}] {msg}"));
        c.fails.push(Fail { props: props.split(' ').map(String::from).collect(), msg });
    })
}
pub fn check(ok: bool, props: &str, msg: impl FnOnce() -> String) {
    CTX.with(|c| c.borrow_mut().checks += 1);
    if !ok { fail(props, msg()) }
}
pub fn trace(msg: impl FnOnce() -> String) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.ops += 1;
        if c.tracing { let m = msg(); c.trace.push(m) }
    })
}

/// run a library call; a panic is reported and swallowed
pub fn guarded<T>(props: &str, what: &str, f: impl FnOnce() -> T) -> Option<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Some(x),
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".into() };
            fail(props, format!("{what} panicked: {m}"));
            None
        }
    }
}

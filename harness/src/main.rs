//! Native harness: concrete histories on the real crate.  It searches a failing input for an
//! obligation the verifier rejects, and stands in (bounded) where a function is out of its reach.
mod flashchk;
mod med;
mod scen;
mod util;
mod vals;
mod workerchk;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::Instant;
use util::*;

static SEED: AtomicU64 = AtomicU64::new(0);
static STARTED: AtomicU64 = AtomicU64::new(0); // ms since start, of the current history
const HANG_MS: u64 = 20_000;

fn engine(name: &str, seed: u64) {
    match name {
        "worker" => workerchk::run(seed),
        "flash" => flashchk::run(seed),
        "list" => scen::run(seed),
        _ => panic!("no such engine"),
    }
}
fn one(name: &str, seed: u64, tracing: bool) -> (Vec<Fail>, Vec<String>) {
    CTX.with(|c| { let mut c = c.borrow_mut(); c.fails.clear(); c.trace.clear(); c.tracing = tracing; });
    engine(name, seed);
    CTX.with(|c| { let c = c.borrow(); (c.fails.clone(), c.trace.clone()) })
}
/// a history that does not end is reported and ends the process
fn watchdog(eng: String, t0: Instant) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let now = t0.elapsed().as_millis() as u64;
        if now > STARTED.load(Relaxed) + HANG_MS {
            let s = SEED.load(Relaxed);
            for p in ["C19", "C15"] { println!("FAIL {p} {eng} {s} the operation does not finish"); }
            println!("DONE engine={eng} runs=0 ops=0 checks=0");
            std::process::exit(1);
        }
    });
}
fn main() {
    if std::env::var_os("HARNESS_PANICS").is_none() { std::panic::set_hook(Box::new(|_| {})) }
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str, d: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned()).unwrap_or(d.into());
    let eng = opt("--engine", "list");
    let seed: u64 = opt("--seed", "1").parse().unwrap();
    let t0 = Instant::now();
    SEED.store(seed, Relaxed);
    watchdog(eng.clone(), t0);
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let (f, t) = one(&eng, seed, true);
            for l in t { println!("{l}") }
            std::process::exit(if f.is_empty() { 0 } else { 1 });
        }
        Some("run") => {
            let secs: f64 = opt("--secs", "10").parse().unwrap();
            let stride: u64 = opt("--stride", "1").parse().unwrap();
            let max: u64 = opt("--max", "1000000000").parse().unwrap();
            let until = opt("--until", "");
            // the seed being run, for the driver, should this process die
            let prog = a.iter().position(|x| x == "--progress").and_then(|i| std::fs::File::create(&a[i + 1]).ok());
            let mut seen: std::collections::BTreeMap<String, u64> = Default::default();
            let mut n = 0;
            let mut s = seed;
            while n < max && t0.elapsed().as_secs_f64() < secs {
                SEED.store(s, Relaxed);
                STARTED.store(t0.elapsed().as_millis() as u64, Relaxed);
                if let Some(p) = &prog { let _ = p.write_at(&s.to_le_bytes(), 0); }
                let (f, _) = one(&eng, s, false);
                for x in f { for p in x.props { if !seen.contains_key(&p) { println!("FAIL {p} {eng} {s} {}", x.msg.replace('\n', " ")); seen.insert(p, s); } } }
                n += 1;
                if seen.contains_key(&until) { break }
                s = s.wrapping_add(stride);
            }
            let (c, o) = CTX.with(|c| { let c = c.borrow(); (c.checks, c.ops) });
            println!("DONE engine={eng} runs={n} ops={o} checks={c}");
            std::process::exit(if seen.is_empty() { 0 } else { 1 });
        }
        _ => panic!("usage"),
    }
}

fn main() {
    let m = med();
    record(&m, 1, &[("a", b"one")]);
    let l = list::<3>();
    let n = node::<3>("a");
    let f = start(&*n, l, b"d");
    reads(l, &m).unwrap();
    let mut h = finish(f);
    gc(l, &m).unwrap();
    set(&mut h, b"two");
    // a write pass is under way ...
    m.borrow_mut().yields = true;
    let mut buf = [0u8; MAX];
    let mut sto = Sto::<MAX>(m.clone());
    let mut pass = Box::pin(l.process_writes(&mut sto, &mut buf));
    for _ in 0..3 { need(poll_once(pass.as_mut()).is_pending(), "pass runs") }
    // ... when the handle is written
    {
        let mut w = h.write(b"three");
        need(poll_once(w.as_mut()).is_pending(), "write waits");
        let mut finished = false;
        for _ in 0..100 { if poll_once(pass.as_mut()).is_ready() { finished = true; break } }
        need(finished, "pass ends");
        drop(pass);
        block(w).unwrap();
    }
    m.borrow_mut().yields = false;
    need(h.load() == b"three", "value read back");
    gc(l, &m).unwrap();
    writes(l, &m).unwrap();
    need(restart(&m, "a") == b"three", "a value written while a pass was running is never saved");
    done()
}

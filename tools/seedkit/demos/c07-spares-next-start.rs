fn main() {
    let m = med();
    record(&m, 1, &[("a", b"one")]);
    let l = list::<3>();
    let n = node::<3>("a");
    let f = start(&*n, l, b"d");
    reads(l, &m).unwrap();
    let mut h = finish(f);
    gc(l, &m).unwrap();
    set(&mut h, b"two");
    fault(&m, 2, FaultKind::ErrBefore); // the end element is not written
    need(writes(l, &m).is_err(), "failed write");
    heal(&m);
    // if the library wants another read first, it gets one
    let _ = reads(l, &m);
    gc(l, &m).expect("collection");
    need(m.borrow().items.len() == 3, "leftovers of an interrupted write survive a collection that reports success");
    need(writes(l, &m).is_ok(), "write after recovery");
    need(restart(&m, "a") == b"two", "value saved");
    done()
}

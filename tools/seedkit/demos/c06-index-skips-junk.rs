fn main() {
    let m = med();
    m.borrow_mut().add(P::Junk(12));
    record(&m, 1, &[("a", b"one")]);
    m.borrow_mut().add(P::Junk(4));
    record(&m, 2, &[("a", b"two")]);
    let l = list::<3>();
    let n = node::<3>("a");
    let f = start(&*n, l, b"d");
    reads(l, &m).unwrap();
    let _h = finish(f);
    let _ = gc(l, &m);
    need(valid(&m.borrow().items).len() == 2, "a collection removed part of a valid record");
    need(restart(&m, "a") == b"two", "a collection lost the newest value");
    done()
}

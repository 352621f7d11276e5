fn main() {
    let m = med();
    m.borrow_mut().add(P::Junk(12));
    record(&m, 1, &[("a", b"one")]);
    let l = list::<2>();
    let n = node::<2>("a");
    let f = start(&*n, l, b"d");
    reads(l, &m).unwrap();
    let mut h = finish(f);
    gc(l, &m).unwrap();
    for v in [b"two", b"tri", b"for"] {
        set(&mut h, v);
        writes(l, &m).unwrap();
        need(restart(&m, "a") == v, "saved");
        gc(l, &m).unwrap();
        need(restart(&m, "a") == v, "a saved value is lost");
        need(valid(&m.borrow().items).len() == 2, "kept records");
    }
    done()
}

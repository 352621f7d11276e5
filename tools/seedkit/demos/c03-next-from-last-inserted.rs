fn main() {
    let m = med();
    record(&m, 7, &[("a", b"seven")]);
    record(&m, 9, &[("a", b"nine")]);
    record(&m, 8, &[("a", b"eight")]);
    let l = list::<3>();
    let n = node::<3>("a");
    let f = start(&*n, l, b"d");
    reads(l, &m).unwrap();
    let mut h = finish(f);
    need(h.load() == b"nine", "newest value");
    gc(l, &m).unwrap();
    set(&mut h, b"later");
    writes(l, &m).unwrap();
    let v = valid(&m.borrow().items);
    let last = v.last().unwrap();
    need(v.iter().filter(|r| r.seq >= last.seq).count() == 1, "the new record is not numbered above all others");
    need(restart(&m, "a") == b"later", "a saved value is lost after a restart");
    done()
}

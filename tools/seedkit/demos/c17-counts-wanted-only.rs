fn main() {
    let m = med();
    record(&m, 1, &[("a", b"one"), ("other", b"not wanted by anyone"), ("z", b"")]);
    let l = list::<3>();
    let n = node::<3>("a");
    let f = start(&*n, l, b"d");
    let (total, current) = reads(l, &m).unwrap();
    let _h = finish(f);
    let items = m.borrow().items.clone();
    let cur: usize = items[1..4].iter().map(|i| i.len()).sum();
    need(total == m.borrow().log.read_bytes, "total bytes");
    need(current == cur, "bytes of the current record");
    done()
}

fn main() {
    let m = med();
    for (q, v) in [(0x1FFFE, b"v1"), (0x1FFFF, b"v2"), (0x20000, b"v3"), (0x20001, b"v4")] { record(&m, q, &[("a", v)]) }
    let l = list::<3>();
    let n = node::<3>("a");
    let f = start(&*n, l, b"d");
    reads(l, &m).unwrap();
    need(finish(f).load() == b"v4", "newest value");
    gc(l, &m).unwrap();
    let left: Vec<u32> = valid(&m.borrow().items).iter().map(|r| r.seq).collect();
    need(left == [0x1FFFF, 0x20000, 0x20001], &format!("a collection leaves the records {left:x?}"));
    done()
}

fn main() {
    for at in 0..5 {
        let m = med();
        {
            let l = list::<3>();
            let n = node::<3>("a");
            let f = start(&*n, l, b"first");
            reads(l, &m).unwrap();
            let _h = finish(f);
            fault(&m, at, FaultKind::ErrBefore);
            let _ = writes(l, &m);
            heal(&m);
        }
        // a restart
        let l = list::<3>();
        let n = node::<3>("a");
        let f = start(&*n, l, b"d");
        need(reads(l, &m).is_ok(), "a read after an interrupted first write");
        let mut h = finish(f);
        set(&mut h, b"two");
        need(gc(l, &m).is_ok(), "a collection after an interrupted first write");
        need(writes(l, &m).is_ok(), "a write after an interrupted first write");
        need(restart(&m, "a") == b"two", "value saved");
    }
    done()
}

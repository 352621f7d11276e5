fn main() {
    // every storage access of the write pass in turn stores or shows something wrong
    for at in 0..14 {
        for kind in [FaultKind::LieFlip, FaultKind::ReadFlip] {
            let m = med();
            record(&m, 1, &[("a", b"one"), ("b", b"two")]);
            let l = list::<3>();
            let (n, o) = (node::<3>("a"), node::<3>("b"));
            let (f, g) = (start(&*n, l, b"d"), start(&*o, l, b"d"));
            reads(l, &m).unwrap();
            let mut h = finish(f);
            let _g = finish(g);
            gc(l, &m).unwrap();
            set(&mut h, b"later");
            fault(&m, at, kind);
            m.borrow_mut().log.lied = false;
            let r = writes(l, &m);
            if r.is_ok() && kind == FaultKind::LieFlip {
                let items = m.borrow().items.clone();
                need(newest(&items).iter().any(|r| lookup(&items, r, "a") == Some(enc(0, b"later"))), "success reported, but storage holds no valid record with the value");
            }
            if r.is_ok() && kind == FaultKind::ReadFlip && m.borrow().log.lied && at >= 9 {
                need(false, "success reported although the record read back differs");
            }
        }
    }
    done()
}

fn main() {
    for at in 0..20 {
        for kind in [FaultKind::ErrAfter, FaultKind::ErrBefore] {
            let m = med();
            m.borrow_mut().add(P::Junk(4));
            for s in 1..=4 { record(&m, s, &[("a", &[s as u8, 7])]); }
            let l = list::<3>();
            let n = node::<3>("a");
            let f = start(&*n, l, b"d");
            reads(l, &m).unwrap();
            let h = finish(f);
            fault(&m, at, kind);
            let r = gc(l, &m);
            heal(&m);
            if r.is_err() {
                let _ = reads(l, &m);
                need(gc(l, &m).is_ok(), "collection after an interrupted one");
            }
            need(h.load() == [4, 7], "value");
            need(restart(&m, "a") == [4, 7], "an interrupted collection makes a later one remove live data");
            need(valid(&m.borrow().items).len() == 3, "kept records");
        }
    }
    done()
}

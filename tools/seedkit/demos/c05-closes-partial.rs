fn main() {
    for kind in [FaultKind::ErrBefore, FaultKind::ErrAfter, FaultKind::HangBefore] {
        for at in 0..6 {
            let m = med();
            record(&m, 1, &[("a", b"one"), ("b", b"uno")]);
            let l = list::<3>();
            let (na, nb) = (node::<3>("a"), node::<3>("b"));
            let (fa, fb) = (start(&*na, l, b"d"), start(&*nb, l, b"d"));
            reads(l, &m).unwrap();
            let (mut ha, mut hb) = (finish(fa), finish(fb));
            gc(l, &m).unwrap();
            set(&mut ha, b"two");
            set(&mut hb, b"due");
            fault(&m, at, kind);
            let mut buf = [0u8; MAX];
            let mut sto = Sto::<MAX>(m.clone());
            let mut pass = Box::pin(l.process_writes(&mut sto, &mut buf));
            for _ in 0..100 { if poll_once(pass.as_mut()).is_ready() { break } }
            drop(pass);
            heal(&m);
            // power lost here: a restart
            let got = (restart(&m, "a"), restart(&m, "b"));
            let old = (b"one".to_vec(), b"uno".to_vec());
            let new = (b"two".to_vec(), b"due".to_vec());
            need(got == old || got == new, "an interrupted write leaves a mixture of old and new");
        }
    }
    done()
}

fn main() {
    let m = med();
    record(&m, 1, &[("a", b"one"), ("b", b"uno")]);
    record(&m, 2, &[("a", b"two")]);
    let l = list::<3>();
    let (na, nb) = (node::<3>("a"), node::<3>("b"));
    let (fa, fb) = (start(&*na, l, b"d"), start(&*nb, l, b"dflt"));
    reads(l, &m).unwrap();
    let (ha, hb) = (finish(fa), finish(fb));
    need(ha.load() == b"two", "value of the newest record");
    need(hb.load() == b"dflt", "a key the newest record lacks must get its default");
    done()
}

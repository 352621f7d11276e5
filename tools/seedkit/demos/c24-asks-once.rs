fn main() {
    let m = med();
    record(&m, 1, &[("a", b"one"), ("b", b"two")]);
    let l = list::<3>();
    let (a, b) = (node::<3>("a"), node::<3>("b"));
    let f = start(&*a, l, b"d");
    need(poll_once(Box::pin(l.needs_read()).as_mut()).is_ready(), "the first attach gave no signal");
    // the pass it asked for fails
    fault(&m, 1, FaultKind::ErrBefore);
    need(reads(l, &m).is_err(), "storage fails");
    heal(&m);
    let g = start(&*b, l, b"d");
    need(poll_once(Box::pin(l.needs_read()).as_mut()).is_ready(), "an attach gave no signal to the worker");
    reads(l, &m).unwrap();
    need(finish(f).load() == b"one" && finish(g).load() == b"two", "values");
    done()
}

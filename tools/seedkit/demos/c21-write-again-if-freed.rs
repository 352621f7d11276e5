fn main() {
    let m = med();
    record(&m, 1, &[("a", b"one")]);
    let l = list::<3>();
    let n = node::<3>("a");
    let f = start(&*n, l, b"d");
    reads(l, &m).unwrap();
    let mut h = finish(f);
    set(&mut h, b"two");
    // the worker is told to stop at once
    let mut buf = [0u8; MAX];
    block(cfg_noodle::worker_task::default_worker_task(l, Sto::<MAX>(m.clone()), std::future::ready(()), &mut buf));
    need(restart(&m, "a") == b"two", "a value unsaved at the stop was not saved");
    done()
}

fn main() {
    let m = med();
    record(&m, 1, &[("a", b"one")]);
    let l = list::<3>();
    let n = node::<3>("a");
    let f = start(&*n, l, b"d");
    reads(l, &m).unwrap();
    let h = finish(f);
    gc(l, &m).unwrap();
    // the storage is wiped
    m.borrow_mut().items.clear();
    block(l.reset_cache());
    need(matches!(writes(l, &m), Err(LoadStoreError::AppError(Error::NeedsFirstRead))), "write not refused after a reset");
    reads(l, &m).expect("read");
    gc(l, &m).expect("collection");
    need(writes(l, &m).is_ok(), "write after a reset and a read is refused");
    need(h.load() == b"one" && restart(&m, "a") == b"one", "current values are not written back");
    done()
}

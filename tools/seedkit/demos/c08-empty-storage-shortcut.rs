
fn main() {
    let m = med();
    let l = list::<3>();
    let (n, o) = (node::<3>("a"), node::<3>("b"));
    let f = start(&*n, l, b"d");
    reads(l, &m).unwrap();
    let _h = finish(f);
    let _g = start(&*o, l, b"e");
    let r = writes(l, &m);
    need(matches!(r, Err(LoadStoreError::AppError(Error::NeedsFirstRead))), "write not refused while a node waits for its first read");
    need(m.borrow().items.is_empty(), "a refused write touched the storage");
    done()
}

fn main() {
    let m = med();
    let l = list::<3>();
    let l2 = list::<3>();
    let (n, o) = (node::<3>("a"), node::<3>("a"));
    let f = start(&*n, l, b"d");
    reads(l, &m).unwrap();
    let h = finish(f);
    let mut buf = o.attach(l, b"e".to_vec());
    match poll_once(buf.as_mut()) { Poll::Ready(Err(Error::DuplicateKey)) => {}, _ => need(false, "duplicate key is not refused") }
    drop(buf);
    let mut g = o.attach(l2, b"e".to_vec());
    match poll_once(g.as_mut()) { Poll::Pending => {}, Poll::Ready(r) => need(false, &format!("the refused node is not free any more: {:?}", r.err())) }
    reads(l2, &med()).unwrap();
    let h2 = finish(g);
    need(h2.load() == b"e" && h.load() == b"d", "values");
    done()
}

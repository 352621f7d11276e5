fn main() {
    let m = med();
    let l = list::<3>();
    let k1: &'static str = Box::leak(format!("{}1", "x".repeat(70)).into_boxed_str());
    let k2: &'static str = Box::leak(format!("{}2", "x".repeat(70)).into_boxed_str());
    let (a, b, c) = (node::<3>(k1), node::<3>(k2), node::<3>(k1));
    let f = start(&*a, l, b"one");
    reads(l, &m).unwrap();
    let h = finish(f);
    let mut g = b.attach(l, b"two".to_vec());
    match poll_once(g.as_mut()) { Poll::Pending => {}, Poll::Ready(r) => need(false, &format!("a node with another key is refused: {:?}", r.err())) }
    let mut d = c.attach(l, b"three".to_vec());
    match poll_once(d.as_mut()) { Poll::Ready(Err(Error::DuplicateKey)) => {}, _ => need(false, "duplicate key is not refused") }
    drop(d);
    reads(l, &m).unwrap();
    let h2 = finish(g);
    need(h.load() == b"one" && h2.load() == b"two", "values");
    done()
}

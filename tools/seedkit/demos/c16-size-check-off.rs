fn main() {
    // "a" and a byte string: 1 + 2 + 2 + n bytes; the storage takes 160
    for n in 140..170usize {
        let v = V::<0>::new(&vec![7u8; n]);
        let fits = Sto::<MAX>::check_node_size("a", &v);
        let m = med();
        let l = list::<3>();
        let nd = node::<3>("a");
        let f = start(&*nd, l, &vec![7u8; n]);
        reads(l, &m).unwrap();
        let _h = finish(f);
        let _ = gc(l, &m);
        let r = writes(l, &m);
        need(r.is_ok() == fits, "the size check and the write pass disagree");
    }
    done()
}

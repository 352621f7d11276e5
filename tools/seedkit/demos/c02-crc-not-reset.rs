fn main() {
    let m = med();
    record(&m, 4, &[("a", b"old")]);
    m.borrow_mut().add(P::Start(5));
    m.borrow_mut().add(P::Data(data("a", 0, b"lost")));
    record(&m, 5, &[("a", b"new")]);
    need(restart(&m, "a") == b"new", "the valid record after a partial one is not used");
    done()
}

fn main() {
    let m = med();
    // a data element whose key is not a string
    let bad = vec![1u8, 0x83, 1, 2, 3];
    record_raw(&m, 3, &[data("a", 0, b"one"), bad, data("b", 0, b"two")]);
    need(restart(&m, "a") == b"one", "key ahead of the undecodable one");
    need(restart(&m, "b") == b"two", "key behind an undecodable one is not loaded");
    done()
}

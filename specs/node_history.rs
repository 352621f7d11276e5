
// ------------------------------------------------------------------------------------------
// Rely and guarantee: every step a node function may take (the requirements of the primitives above)
// is one that the other tasks allow for, and keeps what the lock protects
// ------------------------------------------------------------------------------------------
/// one step of a node function
pub enum Step { State(nat, u8), Value(nat, Option<GVal>), DropValue(nat), Word(nat, usize), Join(nat), Leave(nat) }
pub open spec fn step_ok(w0: World, w1: World, s: Step) -> bool {
    match s {
        Step::State(n, v) => w0.su.dom().contains(n) && w0.nd.mine.contains(n) && set_su(w0, w1, n, v),
        Step::Value(n, v) => w0.val.dom().contains(n) && (w0.nd.mine.contains(n) || attached(w0, n) && w0.su[n] == 0) && set_val(w0, w1, n, v),
        Step::DropValue(n) => w0.val.dom().contains(n) && w0.nd.drops.dom().contains(n) && w0.nd.mine.contains(n) && drop_val(w0, w1, n),
        Step::Word(n, b) => w0.nd.taken.dom().contains(n) && ptr_ok(w0, n, w0.nd.taken[n], b) && ptr_set(w0, w1, n, b),
        Step::Join(n) => w0.nd.mine.contains(n) && joins(w0, w1, n),
        Step::Leave(n) => w0.nd.mine.contains(n) && leaves(w0, w1, n) && order_ok(w0),
    }
}
/// C12, C13: no step of ours disturbs a node that another task owns
pub proof fn theorem_guarantee(w0: World, w1: World, s: Step, other: Set<nat>)
    requires
        step_ok(w0, w1, s), mine_ok(w0), mine_ok(seen_by(w0, other)),
        forall|n: nat| #[trigger] other.contains(n) ==> !w0.nd.mine.contains(n),
        forall|n: nat| #[trigger] other.contains(n) && attached(w0, n) ==> w0.su[n] <= 3 && (w0.live(n) ==> w0.val[n] is Some),
    ensures
        interfered(seen_by(w0, other), seen_by(w1, other)), // @C12 C13
        mine_ok(seen_by(w1, other)), // @C12
        forall|n: nat| #[trigger] other.contains(n) ==> !w1.nd.mine.contains(n), // @C12
{
    let (v0, v1) = (seen_by(w0, other), seen_by(w1, other));
    assert forall|n: nat| #![trigger v0.nd.mine.contains(n)] #![trigger v1.nd.taken[n]] v0.nd.mine.contains(n) implies {
        &&& v1.nd.taken[n] == v0.nd.taken[n] && v1.nd.drops[n] == v0.nd.drops[n]
        &&& attached(v1, n) == attached(v0, n)
        &&& attached(v0, n) ==> stepped(v0, v1, n)
        &&& !attached(v0, n) ==> v1.su[n] == v0.su[n] && v1.val[n] == v0.val[n]
    } by {
        assert(other.contains(n));
        assert(v0.order.contains(n) == w0.order.contains(n) && v1.order.contains(n) == w1.order.contains(n));
    }
}
/// C12: while another task holds the lock, the only step we can take is to give up a handle, and it
/// allows for that
pub proof fn theorem_unlocked_step(w0: World, w1: World, s: Step, other: Set<nat>)
    requires
        step_ok(w0, w1, s), s is Word, !w0.locked, mine_ok(w0), known(w0, s->Word_0), s->Word_1 != w0.nd.taken[s->Word_0],
        forall|n: nat| #[trigger] other.contains(n) ==> !w0.nd.mine.contains(n),
    ensures
        raced(World { locked: true, ..seen_by(w0, other) }, World { locked: true, ..seen_by(w1, other) }, s->Word_0), // @C12 C13
{
    let n = s->Word_0;
    assert(w0.su.insert(n, w0.su[n]) =~= w0.su);
    assert(w0.val.insert(n, w0.val[n]) =~= w0.val);
    assert(w0.nd.drops.insert(n, w0.nd.drops[n]) =~= w0.nd.drops);
    assert(w1.nd.taken =~= w0.nd.taken.insert(n, w1.nd.taken[n]));
    assert(w0.order.contains(n) == seen_by(w0, other).order.contains(n));
}
/// C12: giving up a handle, and the storage passes, keep what the lock protects
pub proof fn theorem_quiet_kept(w0: World, w1: World, n: nat)
    requires quiet(w0), mine_ok(w0), w0.nd.mine.contains(n), w0.nd.taken[n] == w0.nd.lid + 1, attached(w0, n), w0.live(n), w0.nd.taken.dom().contains(n), ptr_set(w0, w1, n, w0.nd.lid),
    ensures quiet(w1), // @C12
{
    assert forall|m: nat| #[trigger] w1.su.dom().contains(m) implies node_quiet(w1, m) by {
        assert(node_quiet(w0, m));
        assert(w0.order.contains(m) == w1.order.contains(m));
    }
}
pub proof fn theorem_passes_quiet(w0: World, w1: World)
    requires quiet(w0), passes_rely(w0, w1),
    ensures
        quiet(w1), // @C12 C13
        mine_ok(w0) ==> mine_ok(w1) && wakes_le(w0.wakes, w1.wakes) ==> interfered(w0, w1), // @C12 C13
{
    assert forall|m: nat| #[trigger] w1.su.dom().contains(m) implies node_quiet(w1, m) by {
        assert(node_quiet(w0, m));
        assert(w0.su.dom().contains(m));
        assert(w0.order.contains(m) == w1.order.contains(m));
    }
    if mine_ok(w0) {
        assert forall|n: nat| #[trigger] w0.nd.mine.contains(n) implies
            (attached(w0, n) ==> stepped(w0, w1, n)) && (!attached(w0, n) ==> w1.su[n] == w0.su[n] && w1.val[n] == w0.val[n]) && attached(w0, n) == attached(w1, n) by {
            assert(w0.su.dom().contains(n));
            assert(node_quiet(w0, n));
        }
    }
}
/// C13: a handle keeps being valid, and its value stays, whatever the other tasks do
pub proof fn theorem_handle_stays(w0: World, w1: World, n: nat)
    requires held(w0, n), interfered(w0, w1),
    ensures held(w1, n), w1.val[n] == w0.val[n], w0.su[n] == 2 ==> w1.su[n] == 2, // @C12 C13
{}

/// anything
#[verifier::external_body]
pub fn x_any() -> (r: u8) { unimplemented!() }
/// C12, C13: whatever a task does with a node and a list, in any order and any number of times,
/// while other tasks do whatever they may do: it has at most one handle at a time, the handle always
/// reads the value it wrote last, and the node is back in its initial state after a detach
#[verifier::exec_allows_no_decreases_clause]
pub fn any_node_history<T: XVal, R: ScopedRawMutex + 'static, const K: usize>(
    Tracked(w): Tracked<&mut World>, node: &'static StorageListNode<T>, list: &'static StorageList<R, K>,
)
    requires
        !old(w).locked, mine_ok(*old(w)), known(*old(w), nid(*node)), node_is(*node, nid(*node)), !old(w).nd.mine.contains(nid(*node)),
        list_ok(*list), laddr(*list) == old(w).nd.lid,
{
    let ghost n = nid(*node);
    let mut handle: Option<StorageListNodeHandle<T, R, K>> = None;
    let ghost mut last: Option<GVal> = None;
    #[verifier::loop_isolation(false)]
    loop
        invariant
            n == nid(*node),
            !w.locked, mine_ok(*w), known(*w, n), laddr(*list) == w.nd.lid,
            handle matches Some(h) ==> handle_is(h, *w) && nid(*h.inner) == n && last is Some && w.val[n] == last,
            handle is None ==> !w.nd.mine.contains(n),
    {
        match x_any() {
            0 => {
                let had = handle.is_some();
                match node.attach::<R, K>(Tracked(w), list) {
                    Ok(h) => {
                        assert(!had); // @C12
                        proof { last = w.val[n]; }
                        handle = Some(h);
                    }
                    Err(_) => { proof { vp_relock(w); } }
                }
            }
            1 => {
                match handle {
                    Some(h) => { let mut h = h; h.x_drop_handle(Tracked(w)); handle = None; }
                    None => { handle = None; }
                }
            }
            2 => {
                let ghost w0 = *w;
                match node.detach::<R, K>(Tracked(w), list) {
                    Ok(_) => {
                        assert(handle is None); // @C12
                        assert(w.su[n] == 0 && w.val[n] is None && w.nd.taken[n] == 0 && !attached(*w, n)); // @C12
                    }
                    Err(_) => {}
                }
                proof { vp_relock(w); }
            }
            3 => {
                match handle {
                    Some(h) => {
                        let mut h = h;
                        let v = T::x_default();
                        let _ = h.write(Tracked(w), &v);
                        proof { last = Some(v.gval()); vp_relock(w); }
                        assert(w.su[n] == 3); // @C13
                        handle = Some(h);
                    }
                    None => { handle = None; }
                }
            }
            4 => {
                match handle {
                    Some(h) => {
                        let v = h.load(Tracked(w));
                        assert(last == Some(v.gval())); // @C13
                        handle = Some(h);
                    }
                    None => { handle = None; }
                }
            }
            _ => { x_wait(&list.reading_done, Tracked(w)); }
        }
    }
}
/// leaving the function releases the lock (the contracts do not say whether it is still held)
#[verifier::external_body]
pub proof fn vp_relock(tracked w: &mut World)
    requires quiet(*old(w)),
    ensures *final(w) == (World { locked: false, ..*old(w) }),
{}

"""Which Verus layers and harness engines decide which property."""
LIST = ["core.rs", "list_prelude.rs", "list_lemmas.rs", "list_history.rs", "list_tail.rs", "list.spec"]
LAYERS = {
    "list": dict(
        specs=LIST, anchors="list.anchors.json",
        # clients and theorems over the contracts: a failure concerns only these properties
        theorems={
            "theorem_write_cut": ["C05", "C20"], "theorem_hist_write": ["C20"], "theorem_hist_begin": ["C20"],
            "theorem_hist_collect": ["C20"], "theorem_hist_scan": ["C20"], "any_history": ["C20"],
            "recovery": ["C15"], "w_reads": ["C21"], "w_garbage": ["C21"], "w_writes": ["C21"], "after_reset": ["C18"], "passes_keep_nodes": ["C12", "C13"],
        },
        assumptions=[
            "async functions are verified as synchronous code; cancellation is covered by asserting the cut-off invariant before and after every await",
            "the storage behind the storage trait obeys its documented contract (core.rs: push appends or fails, iteration is in order, invalidate removes the current element, errors are possible at every call); nothing else changes the storage meanwhile",
            "CRC-32 is an uninterpreted function of the checksummed bytes; minicbor key encoding is injective and self-delimiting (axioms in core.rs)",
            "the intrusive list and its raw node pointers are abstracted to a ghost order of attached nodes plus ghost node state (core.rs); std slice sort/find/contains obey their documentation",
            "default_worker_task: a future that is not awaited where it is made runs to an arbitrary await or not at all, after which the list is in any state that keeps the cut-off invariant (x_interrupted); select, timers and signals are unconstrained",
            "no_op_worker_task: AlwaysEmptyFlash is a storage that works and holds nothing (its functions are verified in the flash layer; the verifier does not accept the trait implementation itself)",
            "machine integers are modelled exactly; stored bytes fit usize and the sequence number does not reach u32::MAX",
        ],
    ),
    "flash": dict(
        specs=["core.rs", "flash_prelude.rs", "list_tail.rs", "flash.spec"], anchors="flash.anchors.json",
        theorems={"theorem_round_trip": ["C09"], "theorem_only_form": ["C09"]},
        assumptions=[
            "sequential-storage's queue obeys its contract (flash_prelude.rs): push without leave to overwrite appends the given bytes or fails, iteration is in order and returns the stored bytes, pop removes the current item",
            "the per-item overhead function and the flash's geometry constants are those the queue itself uses; a geometry for which MAX_ELEM_SIZE underflows does not compile",
            "u32::to_le_bytes, from_le_bytes and next_multiple_of obey their documentation",
        ],
    ),
}
LAYERS["node"] = dict(
    specs=["core.rs", "node_prelude.rs", "node_history.rs", "list_tail.rs", "node.spec"], anchors="node.anchors.json",
    theorems={
        "theorem_guarantee": ["C12", "C13"], "theorem_unlocked_step": ["C12", "C13"], "theorem_quiet_kept": ["C12"],
        "theorem_passes_quiet": ["C12", "C13"], "theorem_handle_stays": ["C12", "C13"], "any_node_history": ["C12", "C13"],
    },
    assumptions=[
        "other tasks change the shared state between the steps of a node function only as the relations interfered/raced of node_prelude.rs allow; that the node functions and the storage passes themselves keep to these relations is proved (theorem_guarantee, theorem_unlocked_step, theorem_passes_quiet; passes_keep_nodes in the list layer)",
        "atomics are sequentially consistent: memory orderings are not modelled (C23)",
        "raw pointers, NonNull, UnsafeCell, MaybeUninit and AtomicPtr are replaced by stand-ins that carry ghost identities and whose requirements (initialised, owned, locked) are obligations; the intrusive list's push, remove and iteration obey their documentation",
        "a list's address is even and not null; minicbor decodes what it encoded; the serialize/deserialize pointers of a node's vtable are called with that node",
        "async functions are verified as synchronous code; an attach that is cancelled leaves the node marked as taken and is not continued",
    ],
)
H = lambda plan, q=12, t=240: dict(plan=plan, secs=(q, t))
LST = ["list"] * 8
MIX = ["list"] * 6 + ["flash"] * 2
FLA = ["flash"] * 8
PROPS = {}
def prop(p, layers, harness, level="proof", **kw): PROPS[p] = dict(layers=layers, harness=harness, level=level, **kw)
prop("C01", ["list"], H(["list"] * 7 + ["flash"]))
prop("C02", ["list"], H(LST))
prop("C03", ["list"], H(["list"] * 7 + ["flash"]))
prop("C04", ["list"], H(LST))
prop("C05", ["list"], H(LST), theorems=["theorem_write_cut"])
prop("C06", ["list"], H(LST))
prop("C07", ["list"], H(LST))
prop("C08", ["list"], H(LST))
prop("C09", ["flash"], H(FLA), theorems=["theorem_round_trip", "theorem_only_form"])
prop("C10", ["flash"], H(FLA))
prop("C11", ["list", "flash", "node"], H(MIX))
NODE_TH = ["theorem_guarantee", "theorem_unlocked_step", "theorem_passes_quiet", "theorem_handle_stays", "any_node_history", "passes_keep_nodes"]
prop("C12", ["list", "node"], H(LST), theorems=NODE_TH + ["theorem_quiet_kept"])
prop("C13", ["list", "node"], H(LST), theorems=NODE_TH)
prop("C14", ["list"], H(LST))
prop("C15", ["list"], H(LST), theorems=["recovery"])
prop("C16", ["list", "flash"], H(MIX))
prop("C17", ["list", "flash"], H(MIX))
prop("C18", ["list"], H(LST), theorems=["after_reset"])
prop("C19", ["list", "flash", "node"], H(["list"] * 5 + ["flash"] * 2 + ["worker"]))
prop("C20", ["list"], H(["list"] * 7 + ["flash"]), theorems=["any_history", "theorem_hist_write", "theorem_hist_begin", "theorem_hist_collect", "theorem_hist_scan"])
prop("C21", ["list"], H(["worker"] * 8), theorems=["w_reads", "w_garbage", "w_writes"])
prop("C24", ["list", "node"], H(LST), functions=["attach", "attach_with_default", "write", "process_reads"])
prop("C25", ["flash", "list"], H(FLA), functions=["from_bytes", "len"])
TRUST = "Trusted: the storage/list/CRC/key-codec models and axioms listed in the evidence, the extractor's normalisations (async made synchronous with cut-off assertions at every await), Verus and Z3. A bounded native harness runs as well and supplies concrete inputs."
NOTES = {
 "C01": "Proved for every storage content and node set on the extracted read path (scan, newest record, extraction, defaults). " + TRUST,
 "C02": "Proved: scan loop, record grammar and ranking of the newest K for every element sequence and every K >= 1. " + TRUST,
 "C03": "Proved: what process_writes appends, for every list, buffer and prior storage. " + TRUST,
 "C04": "Proved: read-back verification gates the saved marks, under arbitrary storage misbehaviour while writing. " + TRUST,
 "C05": "Proved: cut-off invariant at every await plus a theorem over the write contracts for every cut point. " + TRUST,
 "C06": "Proved: collection invariant at every step and every interruption, for every K. " + TRUST,
 "C07": "Proved: final storage equals the filtered original, cache agrees. " + TRUST,
 "C08": "Proved: all refusal postconditions with full frame. " + TRUST,
 "C09": "Proved: Flash::push, HalfElem::from_bytes, FlashNode::data and the byte format (encode/decode inverse, nothing else decodes) for all elements and byte strings, against a contract of the queue. " + TRUST,
 "C10": "Proved: length on push and on read equal overhead plus rounded payload, no leave to overwrite, maximum element size formula, for every flash geometry. " + TRUST,
 "C11": "Proved for SerData, Crc32 wrapper, serialize_node, extract_all, the node (de)serializers and the flash decoding, for all bytes. " + TRUST,
 "C12": "Proved: attach, detach, drop, find_node against rely/guarantee contracts for any interference of other tasks, plus an arbitrary-history client. " + TRUST,
 "C13": "Proved: handle load/write, attach, detach and the passes' effect on values and save states, plus an arbitrary-history client. " + TRUST,
 "C14": "Proved: error and cancellation leave the cache as before, at every await of the scan. " + TRUST,
 "C15": "Proved: a client over the contracts shows read, collect, write succeeds from every reachable cut-off state. " + TRUST,
 "C16": "Proved for serialize_node, the write pass and check_node_size, for all buffer sizes, keys and values. " + TRUST,
 "C17": "Proved: every counter as an exact sum over ghost storage. " + TRUST,
 "C18": "Proved: reset contract plus a client over the contracts. " + TRUST,
 "C19": "Proved for the list, flash and node layers: no overflow, no out-of-bounds, no panic path reachable. " + TRUST,
 "C20": "Proved: an arbitrary-history client over the operations' contracts with power loss, failure and cancellation at any point. " + TRUST,
 "C21": "Proved: default_worker_task, with the worker future cut off at any of its awaits (any consistent state) and the storage working from then on. " + TRUST,
 "C24": "Proved: attach and handle write leave a signal, a successful read pass wakes every waiting attach, needs_read and needs_write take a signal of their own queue. That a waker is then run is liveness (C22). " + TRUST,
 "C25": "Proved: Flash's iter_elems, push, next, data, invalidate fulfil the trait contracts the list layer assumes, given the queue's contract; the always-empty flash is empty and never fails; the no-op worker over such a storage never panics and leaves no node unread. " + TRUST,
}

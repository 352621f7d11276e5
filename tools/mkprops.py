#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so ids, titles and anchors stay consistent)."""
import json, os
SL="crates/cfg-noodle/src/storage_list.rs"; SN="crates/cfg-noodle/src/storage_node.rs"
LB="crates/cfg-noodle/src/lib.rs"; FL="crates/cfg-noodle/src/flash.rs"; WT="crates/cfg-noodle/src/worker_task.rs"
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,title
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","A first read gives each node its value from the newest valid record",
  "After a successful read pass, every attached node that was still waiting for its first read holds exactly the value stored under its key in the newest valid write record, that is, the one with the highest sequence number the last scan of the storage found or a later write pass completed; if that record has no such key, or its bytes do not decode, the node gets its default instead. Values are never taken from an older record, from an incomplete or corrupt record, or from another node's key, and nodes that already had a value are not touched.",
  ["inputs","histories"],"any storage contents (any number, order and mix of valid, partial and malformed elements), any set of attached nodes in any state, any value codec",
  "Tests load from a handful of hand-made storages with one to three records and one or two keys; the claim ranges over every element sequence and node set.",
  [SL,SN],[("process_reads","storage_list.rs"),("get_or_populate_latest","storage_list.rs"),("extract_all","storage_list.rs"),("mark_initial_nonresident","storage_list.rs"),("find_node","storage_list.rs")],
  ["StorageList::process_reads","StorageListNodeHandle::load"])
p("C02","The scan selects the newest valid records, wherever they lie in storage",
  "A write record counts if and only if it is a start element, followed directly by data elements, followed directly by an end element with the same sequence number and the matching checksum of the data. After the first scan the library knows exactly the K valid records with the highest sequence numbers, at their exact positions, regardless of the order in which they lie in storage and of any malformed, partial, duplicate or foreign elements around them, and the next sequence number is higher than every valid one.",
  ["inputs"],"all finite element sequences (starts, data, ends, undecodable items, any sequence numbers and checksums), all K >= 1",
  "The two tests on this (seq_sort and the loads) use three or four well-formed records; corner cases such as an end without start, a restart inside a record or a malformed item in the middle are a product space tests cannot enumerate.",
  [SL],[("get_or_populate_latest","storage_list.rs"),("SeqState::insert_good","storage_list.rs"),("SeqState::highest_seen","storage_list.rs")],
  ["StorageList::process_reads","StorageList::process_garbage"],
  state=[("SeqState","cache of the newest K valid records and the next sequence number","storage_list.rs")])
p("C03","A write appends one complete record of every node value, newer than all others",
  "A write pass that reports success after writing appended, at the end of the storage and nowhere else, exactly one record: a start, then for each attached node that holds a value one data element with that node's key and current value, then an end carrying the same sequence number and the checksum of that data. The sequence number is strictly greater than that of every valid record already in storage, and no existing element is changed or removed.",
  ["inputs","histories"],"all node sets, values, scratch buffer contents and prior storage contents",
  "Tests write lists of up to a few nodes and read them back; completeness for every list, freshness of the number and absence of any other change to storage hold for all inputs or not at all.",
  [SL,LB],[("write_to_flash","storage_list.rs"),("process_writes","storage_list.rs"),("serialize_node","storage_list.rs"),("SerData","lib.rs")],
  ["StorageList::process_writes","NdlDataStorage::push"])
p("C04","Values count as saved only after the written record was read back and checked",
  "A write pass reports success, and changed values stop counting as unsaved, only after the whole new record has been read back from storage and its sequence number, number of data elements and checksum all agree with what was meant to be written. If writing, reading back or comparing fails, or the pass is cancelled at any point, an error is reported (if at all) and every unsaved value is still unsaved and still held in memory.",
  ["inputs","fault_sequences","crash_points"],"any storage misbehaviour while writing (lost, altered, added elements; errors at any call), cancellation at any await point",
  "The existing tests use a storage that never loses or corrupts an element between push and read-back, so the verification path is never taken with a mismatch.",
  [SL],[("verify_list_in_flash","storage_list.rs"),("process_writes","storage_list.rs"),("write_to_flash","storage_list.rs")],
  ["StorageList::process_writes"])
p("C05","Interrupting a write at any point leaves the previous data in effect",
  "If power is lost, an error occurs or the operation is cancelled at any point during a write pass, then the storage holds everything it held before plus at most a prefix of the new record, and a restart loads either the previous newest record unchanged, or the new record complete: never a mixture, never an older record.",
  ["crash_points","inputs"],"every element boundary of every write, any prior storage contents, any node set",
  "Tests never stop in the middle of a write; the number of interruption points grows with the list and the argument must cover every prior storage content.",
  [SL],[("write_to_flash","storage_list.rs"),("process_writes","storage_list.rs"),("get_or_populate_latest","storage_list.rs")],
  ["NdlDataStorage::push","StorageList::process_reads"])
p("C06","Garbage collection never removes data of the newest K valid records",
  "Garbage collection removes only elements that do not belong to the K newest valid records among those the last scan found or a later write pass completed, K being the configured number to keep; at every point during it, including after an error, a power loss or a cancellation, all elements of those records are still in storage and a restart loads the same newest record as before. A collection that is not required touches nothing.",
  ["inputs","crash_points","fault_sequences"],"any storage contents, any K >= 1, interruption or failure at any call",
  "Tests collect after well-formed writes and look only at the end state; they never interrupt it nor mix valid records with junk in unusual places.",
  [SL],[("process_garbage","storage_list.rs"),("GoodWriteRecord ranges","storage_list.rs")],
  ["StorageList::process_garbage","NdlElemIterNode::invalidate"])
p("C07","A completed garbage collection leaves exactly the newest K valid records",
  "When a garbage collection that was required reports success, storage contains exactly the elements of the newest K valid records known at its start, in their original order, and nothing else: all partial, corrupt, undecodable and superseded elements are gone. The cached positions agree with the storage again, and writing is permitted.",
  ["inputs"],"any storage contents, any K >= 1",
  "Tests check a few collections after regular writes; leftovers of interrupted writes, undecodable elements and K other than 3 are not sampled.",
  [SL],[("process_garbage","storage_list.rs"),("get_or_populate_latest","storage_list.rs")],["StorageList::process_garbage"])
p("C08","Writing is refused before a first read and before a needed collection",
  "A write pass on a list whose storage has not been scanned, or that holds a node still waiting for its first read, fails with the first-read error; one on a list that needs garbage collection fails with the collection error. When it refuses, and when nothing needs saving, it leaves the storage, all node values and all save states exactly as they were; a needed collection is one that follows any scan that found elements, and any attempted write.",
  ["histories","inputs"],"all call orders of read, write, collect and cache reset, all storage contents and node states",
  "Tests follow the documented call order; refusal must hold for every out-of-order history.",
  [SL],[("process_writes gate","storage_list.rs"),("needs_writing","storage_list.rs"),("needs_gc flag","storage_list.rs")],["StorageList::process_writes"])
p("C09","The flash format round-trips, and anything else is rejected",
  "Every start, data and end element pushed to flash is stored with its version/kind byte followed by little-endian fields (five bytes for a start, nine for an end, the raw bytes for data), and decoding those bytes gives back the same element. Byte strings with another kind or version byte, a wrong length, a zero sequence number or an empty body decode to no element at all, and decoding never panics.",
  ["inputs"],"all elements, all byte strings of any length",
  "Tests store and read a few elements through the flash wrapper; the claim is about all 2^32 sequence numbers, all checksums and all malformed byte strings.",
  [FL,LB],[("Flash::push","flash.rs"),("HalfElem::from_bytes","flash.rs"),("FlashNode::data","flash.rs"),("consts","lib.rs")],["Flash::push","FlashNode::data"])
p("C10","Flash sizes: stored length is exact and never overwrites old data",
  "The length reported for a stored element equals the queue's per-item overhead plus the payload rounded up to the flash's word size, both when it is written and when it is read back. Writing to flash never lets the queue overwrite old data to make room, and the advertised maximum element size is what one erase unit can hold beside its sector and item overheads.",
  ["inputs","configurations"],"all payload lengths, all read/write/erase sizes of a flash",
  "Tests use one mock flash geometry (and a few lengths).",
  [FL],[("size_with_overhead","flash.rs"),("MAX_ELEM_SIZE","flash.rs"),("push(.., false)","flash.rs")],["Flash::push","FlashNode::len"])
p("C11","Keys and values survive the trip through a data element, checksum included",
  "A data element built from a serialized node yields back exactly that key and exactly those value bytes, and the checksum is computed over precisely the key and value bytes of the data elements, in order, without their header bytes, both when writing and when checking. A data element whose key does not decode is skipped without affecting the other keys.",
  ["inputs"],"all keys, all value byte strings, any split of the checksummed data",
  "Tests use a few short ASCII keys and fixed-size values.",
  [LB,SL],[("SerData::new / key_val / kv_pair","lib.rs"),("Crc32","lib.rs"),("serialize_node","storage_list.rs")],["StorageList::process_reads","StorageList::process_writes"])
p("C12","At most one live handle per node, unique keys per list, one list per node",
  "Attaching succeeds only if the node has no live handle, is not in another list, and no other node of the list has the same key; otherwise it fails with the corresponding error and leaves the list, the node and any existing handle as they were. Detaching succeeds only without a live handle and on the list the node belongs to (or if the node is attached nowhere), and then removes the node, drops its value exactly once and returns it to its initial state.",
  ["histories","inputs"],"all histories of attach, detach and handle drop on any nodes and lists, started from any reachable node state",
  "Tests cover one duplicate handle, one duplicate key and one re-attach.",
  [SN,SL],[("attach_with_default","storage_node.rs"),("detach","storage_node.rs"),("Drop for handle","storage_node.rs"),("find_node","storage_list.rs")],
  ["StorageListNode::attach","StorageListNode::detach"],
  state=[("taken_for_list","null, or list address with lowest bit = handle alive","storage_node.rs")])
p("C13","A handle always reads the last written value, and a write marks it unsaved",
  "A handle can only be obtained once its node holds a value (loaded, or the default if none was stored), and reading through it then returns the most recently written value, or the loaded or default one if none was written. Writing through a handle replaces the value under the list's lock and marks it unsaved until a later write pass saves it; reading, collecting and failed operations never change a value or discard that mark, and a defaulted value counts as unsaved from the start.",
  ["histories"],"all histories of load, write, read/write/collect passes and re-attach on a node",
  "Tests use a few fixed sequences of load and write.",
  [SN,SL],[("StorageListNodeHandle::load / write","storage_node.rs"),("State machine","storage_node.rs"),("attach_with_default","storage_node.rs")],
  ["StorageListNodeHandle::load","StorageListNodeHandle::write"])
p("C14","A failed or cancelled scan leaves no trace",
  "If reading the storage fails, or the operation is cancelled, part way through the first scan or the re-scan after a collection, the list behaves afterwards as if that scan had never started: nothing is remembered from the partial scan, writes stay refused, and the next successful read gives the same result as if the failure had not happened.",
  ["fault_sequences","crash_points","inputs"],"a read error or cancellation at any element of any storage contents",
  "No test injects a read error or drops a read in the middle.",
  [SL],[("get_or_populate_latest","storage_list.rs"),("process_garbage taking the cache","storage_list.rs")],["StorageList::process_reads","StorageList::process_garbage"])
p("C15","After any failed or cancelled operation, read, collect, write recovers",
  "Whatever operation failed, was cancelled or was interrupted by a power loss, and wherever, running a read pass, a collection and a write pass on a storage that works again succeeds and saves all current values; no leftover of the failed operation can make the write be refused, mis-verified or later overruled by stale data.",
  ["fault_sequences","crash_points","histories"],"every failure or interruption point of every operation, any storage contents, followed by fault-free operations",
  "No test continues after a failed or interrupted operation.",
  [SL],[("needs_gc set before writing","storage_list.rs"),("get_or_populate_latest commit","storage_list.rs"),("process_garbage","storage_list.rs")],["StorageList::process_reads","StorageList::process_garbage","StorageList::process_writes"])
p("C16","Values that do not fit are refused, never truncated or half-saved",
  "If a node's key and value do not fit into the scratch buffer, the write pass fails with the serialization error without panicking, no truncated data element reaches storage, and the unfinished record is never regarded as valid. The size check offered to users accepts a key and value exactly when header, encoded key and encoded value fit the storage's maximum element size.",
  ["inputs"],"all buffer sizes (including empty), all key and value lengths",
  "Tests only write values that fit.",
  [SL,SN,LB],[("serialize_node","storage_list.rs"),("serialize","storage_node.rs"),("check_node_size","lib.rs")],["StorageList::process_writes","NdlDataStorage::check_node_size"])
p("C17","Byte counters equal the bytes actually read, written and removed",
  "The counters returned by each successful operation equal the sum of the storage's own lengths of exactly the elements that operation read, wrote or removed: all elements read including re-reads, data elements of the current record, elements appended, elements invalidated, elements re-read after the collection.",
  ["inputs"],"any storage contents and node sets",
  "Tests assert a few fixed totals or none at all.",
  [SL],[("process_reads / process_writes / process_garbage counters","storage_list.rs")],["ProcessReadCounters","ProcessWriteCounters","ProcessGarbageCounters"])
p("C18","A cache reset re-reads storage, and a wiped storage is written back",
  "After resetting the cache the list treats the storage as unscanned: writes are refused until a new read pass, which uses only what storage now contains. If storage then holds no valid record, the next permitted write pass saves all current values even though none was changed; if it does hold one and nothing is unsaved, nothing is written.",
  ["histories","inputs"],"all storage contents at the time of the reset, all node states",
  "One test wipes one storage once.",
  [SL],[("reset_cache","storage_list.rs"),("needs_writing","storage_list.rs")],["StorageList::reset_cache","StorageList::process_writes"])
p("C19","No storage content, buffer or value makes the library panic or overflow",
  "For every storage content (including arbitrary garbage from the device), every scratch buffer and every node set, reading, writing, collecting, attaching and detaching finish without panic, out-of-bounds access, arithmetic overflow or use of an uninitialised value.",
  ["inputs"],"all storage contents, buffers and node states; total stored bytes below the address-space size and sequence numbers below 2^32-1",
  "Tests use well-formed inputs.",
  [SL,SN,LB,FL],[("all functions","storage_list.rs, storage_node.rs, lib.rs, flash.rs")],["all public operations"])
p("C20","What was reported saved survives every later history",
  "Once a write pass has reported success, then after any further sequence of reads, writes of the same set of nodes, collections, resets, failures, cancellations and power losses, a restart loads for each node that was written that value or a value written later, never an older one and never the default.",
  ["histories","crash_points","fault_sequences"],"all operation histories with a failure, cancellation or power loss at any point, any number of restarts",
  "Tests run short fixed histories without interruptions; the claim is about every history.",
  [SL],[("process_reads","storage_list.rs"),("process_writes","storage_list.rs"),("process_garbage","storage_list.rs"),("get_or_populate_latest","storage_list.rs")],["StorageList","StorageListNodeHandle::load"])
p("C21","Stopping the default worker flushes unsaved values",
  "When the default worker task is told to stop, it attempts a write pass, and if that is refused because a read or a collection is needed first, it does those and writes again; so on a working storage all values unsaved at that moment are saved before the task ends, whatever the worker was doing when the stop came.",
  ["histories","schedules"],"all states of list and storage at the moment of the stop signal",
  "Tests stop the worker in a few fixed situations.",
  [WT],[("shutdown tail of default_worker_task","worker_task.rs")],["worker_task::default_worker_task"])
p("C22","The default worker eventually serves every read and write request",
  "With the default worker running on a working storage, every attach is eventually answered and every written value is eventually saved, whatever the timing of attaches, writes, timers and storage errors.",
  ["schedules","histories"],"all interleavings of requests, timers and worker steps",
  "Liveness over all schedules; tests run one timing.",
  [WT,SN],[("default_worker_task select loop","worker_task.rs"),("WaitQueue wake-ups","storage_node.rs")],["worker_task::default_worker_task"])
p("C23","Handles, list operations and worker are free of data races",
  "Loads, writes, attaches, detaches and worker passes on different threads or interrupt levels never access a node's value concurrently in a conflicting way, and every observer sees an initialised value.",
  ["schedules"],"all thread interleavings and memory orderings",
  "Tests run on one thread.",
  [SN,SL],[("list mutex and state atomics","storage_node.rs, safety_guide.rs")],["StorageListNodeHandle","StorageList"])
p("C24","Attaches and writes signal the worker, and a read pass wakes waiting attaches",
  "Attaching a node that was not attached before leaves a signal on which a worker waiting for `needs_read` proceeds, every write through a handle leaves one for `needs_write` (a signal sent before the worker waits is not lost to it), and neither of the two is signalled through the other's queue; each read pass that succeeds wakes every attach that is waiting at that moment, so that an attach whose node was loaded or found absent can finish. This is about the signals being given, not about when the executor runs the woken task.",
  ["histories","schedules"],"all node states and all orders of attach, write, passes and waiting",
  "Tests run a worker that is already waiting when the one attach or write comes.",
  [SN,SL],[("attach_with_default wakes needs_read","storage_node.rs"),("StorageListNodeHandle::write wakes needs_write","storage_node.rs"),("process_reads wakes reading_done; needs_read, needs_write","storage_list.rs")],["StorageListNode::attach","StorageListNodeHandle::write","StorageList::process_reads","StorageList::needs_read","StorageList::needs_write"])
p("C25","The flash back ends keep the storage contract that the rest relies on",
  "On a flash device that may fail at any access: an iteration yields the stored elements in order, each once, and reports the end only when it is reached; a push that reports success has appended exactly the one element and nothing else changed; an invalidate that reports success has removed exactly that element; every failure of the device or of the queue is reported as an error of the operation, and on a working device with room there is none. The flash that is always empty reads as empty and never fails, so a worker on it answers every attach with the default and never panics.",
  ["fault_sequences","inputs"],"all contents, all elements, a device failure at any access",
  "Tests use a mock flash that never fails; the list's own guarantees assume this contract of the storage.",
  [FL,WT,LB],[("Flash::push, iter_elems; FlashIter::next; FlashNode::data, invalidate","flash.rs"),("AlwaysEmptyFlash, AlwaysEmptyIter","flash.rs"),("no_op_worker_task","worker_task.rs"),("NdlDataStorage, NdlElemIter, NdlElemIterNode","lib.rs")],["Flash","FlashIter","FlashNode","AlwaysEmptyFlash","worker_task::no_op_worker_task"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))

"""The planted changes: id -> property, file edits (old, new), what they need and what they break."""
SL, SN, FL, LIB, WT = "storage_list.rs", "storage_node.rs", "flash.rs", "lib.rs", "worker_task.rs"
BUGS = {}
def bug(id, prop, needs, breaks, *edits):
    BUGS[id] = dict(property=prop, needs=needs, what_it_breaks=breaks, edits=edits)

bug("c02-crc-not-reset", "C02", "a partial record (start and data, no end) directly followed by a complete one, as an interrupted write leaves it",
    "the checksum of the abandoned record runs on into the next one, so a perfectly valid record is not recognised",
    (SL, "                    current = Some((seq_no, idx));\n                    crc = Crc32::new();\n", "                    current = Some((seq_no, idx));\n"))
bug("c03-next-from-last-inserted", "C03", "valid records that do not lie in storage in the order of their numbers, so that the last one found is kept but not the newest",
    "the next record gets a number not above those already in storage",
    (SL, "        let next = self.last_records[KEPT_RECORDS - 1]\n            .as_ref()\n            .map(|n| n.seq)\n            .unwrap_or(const { NonZeroU32::new(1).unwrap() });\n", "        let next = new_seq;\n"),
    (SL, "        *lowest = Some(rec);\n", "        let new_seq = rec.seq;\n        *lowest = Some(rec);\n"))
bug("c04-trusts-stored-crc", "C04", "a medium that stores or returns one data element with a flipped bit while the new record is read back",
    "a write pass reports success although the record it wrote does not check out",
    (SL, "                let good = seq_chk && crc_chk1 && crc_chk2 && ctr_chk;", "                let good = seq_chk && (crc_chk1 || crc_chk2) && ctr_chk;"))
bug("c06-index-skips-junk", "C06", "an undecodable element in storage ahead of a valid record when a collection runs",
    "positions shift by one and the collection removes an element of the newest record",
    (SL, "            idx += 1;\n            let used = next.len();\n            total_bytes_read += used;\n", "            let used = next.len();\n            total_bytes_read += used;\n            if next.data().is_some() {\n                idx += 1;\n            }\n"))
bug("c08-empty-storage-shortcut", "C08", "a storage without any record and a node that still waits for its first read",
    "with an empty storage a write pass is not refused while a node still waits for its first read",
    (SL, "        let mut needs_writing = false;\n", "        let mut needs_writing = self.seq_state.highest_seen().is_none();\n        if needs_writing {\n            // nothing in storage yet: there is always something to write\n            return Ok(true);\n        }\n"))
bug("c09-end-tolerates-tail", "C09", "an element of the end kind that is longer than nine bytes",
    "a byte string of the wrong length decodes to an end element",
    (FL, "                if rest.len() != 8 {", "                if rest.len() < 8 {"))
bug("c10-write-word-only", "C10", "a flash whose read word is larger than its write word",
    "the reported element lengths are below what the queue really uses",
    (FL, "    let len_roundup = len.next_multiple_of(crate::max(T::WRITE_SIZE, T::READ_SIZE));", "    let len_roundup = len.next_multiple_of(T::WRITE_SIZE);"))
bug("c11-bad-key-ends-load", "C11", "a valid record in which a data element whose key does not decode comes ahead of a wanted one",
    "keys behind an undecodable one are not loaded",
    (SL, '                warn!("Failed to extract data on extract_all!");\n                continue;\n', '                warn!("Failed to extract data on extract_all!");\n                break;\n'))
bug("c12-duplicate-keeps-link", "C12", "attach with a key already in the list, then an attach of that same node to another list",
    "the refused node stays bound to the list, although it is not in it",
    (SN, "                    self.taken_for_list.store(null_mut(), Ordering::Release);\n                    return Err(Error::DuplicateKey);", "                    self.taken_for_list.store(list_ptr, Ordering::Release);\n                    return Err(Error::DuplicateKey);"))
bug("c13-mark-before-lock", "C13", "a handle write that has to wait for the lock while a write pass is running",
    "the new value is marked unsaved before the lock is taken, the running pass clears the mark, and the value is never saved",
    (SN, "        let _inner = self.list().inner.lock().await;\n        let key: &'static str = self.key();\n", "        let key: &'static str = self.key();\n"),
    (SN, "            State::ValidNoWriteNeeded | State::NeedsWrite => {}\n        }\n\n        // Create an owned version of the provided data\n", "            State::ValidNoWriteNeeded | State::NeedsWrite => {}\n        }\n        self.inner\n            .inner\n            .header\n            .state\n            .store(State::NeedsWrite, Ordering::Release);\n\n        // Lock the list only for the exchange itself\n        let _inner = self.list().inner.lock().await;\n\n        // Create an owned version of the provided data\n"),
    (SN, "            core::mem::swap(&mut t, mutref);\n\n            // We hold a lock to the list, so use Relaxed\n            // Rule 4.2.2: Moving to NeedsWrite\n            self.inner\n                .inner\n                .header\n                .state\n                .store(State::NeedsWrite, Ordering::Relaxed);\n", "            core::mem::swap(&mut t, mutref);\n"))
bug("c14-cache-kept-during-gc", "C14", "a collection that fails or is cancelled after it removed something, then operations that use the positions remembered from before",
    "the positions of the records are still remembered although elements ahead of them are gone",
    (SL, "            core::mem::replace(&mut guard.seq_state, SeqState::new())\n", "            guard.seq_state.clone()\n"),
    (SL, "        let mut post_collection_bytes_read = 0;\n        let mut inner = self.inner.lock().await;\n", "        let mut post_collection_bytes_read = 0;\n        let mut inner = self.inner.lock().await;\n        inner.seq_state = SeqState::new();\n"))
bug("c16-size-check-off", "C16", "a key and value that need exactly one byte more than an element can hold",
    "the size check accepts a node that can never be written",
    (LIB, "        Self::MAX_ELEM_SIZE >= 1 + len_with(key, &mut ()) + len_with(node, &mut ())", "        Self::MAX_ELEM_SIZE >= len_with(key, &mut ()) + len_with(node, &mut ())"))
bug("c17-counts-wanted-only", "C17", "a record holding a key no attached node wants",
    "the count of bytes of the current record leaves out elements that were read but not wanted",
    (SL, "            *current_bytes_read += item_len;\n\n", "\n"),
    (SL, '                debug!("Skipping key {:?}", kvpair.key);\n                continue;\n            };\n', '                debug!("Skipping key {:?}", kvpair.key);\n                continue;\n            };\n            *current_bytes_read += item_len;\n'))
bug("c18-read-skipped-if-none-waits", "C18", "a cache reset while no node waits for its first read",
    "the read pass after the reset does not scan, so writes stay refused and nothing is saved any more",
    (SL, "        // Have we already determined the latest valid write record?\n        let mut total_bytes_read", "        // Nobody is waiting for data: there is nothing to read\n        let waiting = inner\n            .list\n            .iter()\n            .any(|n| matches!(n.state.load(Ordering::Acquire), State::Initial));\n        if !waiting && !inner.list.is_empty() {\n            return Ok(ProcessReadCounters {\n                total_bytes_read: 0,\n                current_bytes_read: 0,\n            });\n        }\n\n        // Have we already determined the latest valid write record?\n        let mut total_bytes_read"))
bug("c19-start-tolerates-tail", "C19", "an element of the start kind that is longer than five bytes",
    "decoding it panics instead of yielding no element",
    (FL, "                if rest.len() != 4 {", "                if rest.len() < 4 {"))
bug("c07-spares-next-start", "C07", "the start element of an interrupted write in storage when a collection runs in the same session",
    "a collection reports success and leaves that element in storage",
    (SL, "            if next.data().is_none() || !last_records_contain(this_idx) {", "            // the start of the record that comes next is not garbage\n            let newer = matches!(next.data(), Some(Elem::Start { seq_no }) if Some(seq_no) == cur_seq_state.next_seq);\n            if next.data().is_none() || !(newer || last_records_contain(this_idx)) {"))
bug("c05-closes-partial", "C05", "a storage error while a data element behind the first one is pushed",
    "the partial record is closed with a matching end element, so a restart loads a mixture of new values and defaults",
    (SL, "            // Try writing to flash\n            let used = storage\n                .push(&Elem::Data { data: serdat })\n                .await\n                .map_err(LoadStoreError::FlashWrite)?;\n            bytes_written += used;\n",
     "            // Try writing to flash. If that fails, do not leave a record without an end\n            let elem = Elem::Data { data: serdat };\n            let used = match storage.push(&elem).await {\n                Ok(used) => used,\n                Err(e) => {\n                    let _ = storage\n                        .push(&Elem::End {\n                            seq_no,\n                            calc_crc: written_crc.finalize(),\n                        })\n                        .await;\n                    return Err(LoadStoreError::FlashWrite(e));\n                }\n            };\n            if let Elem::Data { data } = &elem {\n                written_crc.update(data.key_val());\n            }\n            bytes_written += used;\n"),
    (SL, "        let mut check_crc = Crc32::new();\n        let mut bytes_written = 0usize;\n", "        let mut check_crc = Crc32::new();\n        let mut written_crc = Crc32::new();\n        let mut bytes_written = 0usize;\n"))
bug("c15-junk-is-an-error", "C15", "a storage that holds only the remains of an interrupted very first write",
    "every scan fails, so a read, a collection and a write never succeed again",
    (SL, "        if highest.is_none() {\n            seq_state.next_seq = NonZeroU32::new(1);\n", "        if highest.is_none() && ctr > 0 && current.is_some() {\n            // not empty, but no record: that cannot be right\n            return Err(LoadStoreError::AppError(Error::InconsistentFlash));\n        }\n        if ctr == 0 || highest.is_none() {\n            seq_state.next_seq = NonZeroU32::new(1);\n"))
bug("c20-positions-kept-after-gc", "C20", "an undecodable element ahead of the records when a collection runs, and another collection after a further write",
    "the remembered positions are off by one after the collection, so the next one removes part of the newest records",
    (SL, "            core::mem::replace(&mut guard.seq_state, SeqState::new())\n        };\n", "            core::mem::replace(&mut guard.seq_state, SeqState::new())\n        };\n        // how far each record moves to the front\n        let mut shift = [0usize; KEPT_RECORDS];\n"),
    (SL, "                total_bytes_popped += used;\n                next.invalidate()\n", "                total_bytes_popped += used;\n                if next.data().is_some() {\n                    for (by, rec) in shift.iter_mut().zip(cur_seq_state.last_records.iter()) {\n                        if rec.as_ref().is_some_and(|r| this_idx < *r.range.start()) {\n                            *by += 1;\n                        }\n                    }\n                }\n                next.invalidate()\n"),
    (SL, "        let mut post_collection_bytes_read = 0;\n        let mut inner = self.inner.lock().await;\n        inner\n            .get_or_populate_latest(storage, buf, &mut post_collection_bytes_read)\n            .await?;\n", "        let post_collection_bytes_read = 0;\n        let mut inner = self.inner.lock().await;\n        let mut moved = cur_seq_state.clone();\n        for (by, rec) in shift.iter().zip(moved.last_records.iter_mut()) {\n            if let Some(r) = rec {\n                r.range = (*r.range.start() - by)..=(*r.range.end() - by);\n            }\n        }\n        inner.seq_state = moved;\n"))
bug("c01-falls-back-to-older", "C01", "a key that the newest record lacks but an older kept record holds",
    "the node gets the outdated value instead of its default",
    (SL, "        if let Some(latest) = res {\n            inner\n                .extract_all(\n                    latest,\n                    storage,\n                    buf,\n                    &mut total_bytes_read,\n                    &mut current_bytes_read,\n                )\n                .await?;\n        }\n",
     "        if res.is_some() {\n            // newest first: older records only serve nodes that are still waiting\n            for i in (0..KEPT_RECORDS).rev() {\n                let Some(rec) = inner.seq_state.last_records[i].clone() else {\n                    break;\n                };\n                let newest = i == KEPT_RECORDS - 1;\n                let waiting = inner\n                    .list\n                    .iter()\n                    .any(|n| matches!(n.state.load(Ordering::Acquire), State::Initial));\n                if !newest && !waiting {\n                    break;\n                }\n                let mut skip = 0;\n                let counter = if newest {\n                    &mut current_bytes_read\n                } else {\n                    &mut skip\n                };\n                inner\n                    .extract_all(rec, storage, buf, &mut total_bytes_read, counter)\n                    .await?;\n            }\n        }\n"))
bug("c21-write-again-if-freed", "C21", "the worker is stopped after a read pass whose records are all live, with an unsaved value and a collection still due that has nothing to remove",
    "the value unsaved at the stop is not saved",
    (WT, "            match list.process_garbage(&mut flash, buf).await {\n                Ok(rpt) => info!(\"process_garbage success: {:?}\", rpt),\n                Err(e) => error!(\"Error in process_garbage: {:?}\", e),\n            }\n            match list.process_writes(&mut flash, buf).await {\n                Ok(rpt) => info!(\"process_writes success: {:?}\", rpt),\n                Err(e) => error!(\"Error in process_writes: {:?}\", e),\n            }\n        }\n        Err(e) =>",
     "            let mut freed = 0;\n            match list.process_garbage(&mut flash, buf).await {\n                Ok(rpt) => {\n                    freed = rpt.total_bytes_popped;\n                    info!(\"process_garbage success: {:?}\", rpt)\n                }\n                Err(e) => error!(\"Error in process_garbage: {:?}\", e),\n            }\n            if freed > 0 {\n                match list.process_writes(&mut flash, buf).await {\n                    Ok(rpt) => info!(\"process_writes success: {:?}\", rpt),\n                    Err(e) => error!(\"Error in process_writes: {:?}\", e),\n                }\n            }\n        }\n        Err(e) =>"))

bug("c06-min-low-bits", "C06", "four or more valid records whose numbers cross a multiple of 65536",
    "the record that makes room is not the oldest, and a collection removes one of the newest three",
    (SL, "                Some(rec) => rec.seq.get(),\n                None => 0,", "                Some(rec) => u32::from(rec.seq.get() as u16),\n                None => 0,"))
bug("c12-key-prefix", "C12", "two nodes whose keys are equally long and differ only beyond the 64th byte",
    "the second node is refused as a duplicate although its key is another one",
    (SL, ".find(|item| unsafe { item.as_ref() }.key == key)", ".find(|item| {\n                let k = unsafe { item.as_ref() }.key;\n                k.len() == key.len() && k.bytes().zip(key.bytes()).take(64).all(|(a, b)| a == b)\n            })"))
bug("c24-asks-once", "C24", "an attach while another node still waits because the read pass for it failed or was cut off",
    "the second attach leaves no signal on needs_read, so a worker that waits for one never reads for either node",
    (SN, "            list.needs_read.wake();", "            // somebody who waits has asked already\n            let asked = inner\n                .list\n                .iter()\n                .any(|n| n.key != self.inner.header.key && n.state.load(Ordering::Acquire) == State::Initial);\n            if !asked {\n                list.needs_read.wake();\n            }"))
bug("c25-invalidate-shrugs", "C25", "a flash access that fails once, while an element is removed",
    "the removal is reported as done although the element is still stored",
    (FL, "        self.qit.pop().await?;\n        Ok(())", "        if let Err(sequential_storage::Error::LogicBug { .. }) = self.qit.pop().await {\n            panic!(\"queue\")\n        }\n        Ok(())"))
bug("c25-push-tries-twice", "C25", "a flash access that reports an error although it took effect, during the last step of a push",
    "an element is stored twice although one push was made",
    (FL, "        self.queue.push(used, false).await?;", "        match self.queue.push(used, false).await {\n            Err(sequential_storage::Error::Storage { .. }) => self.queue.push(used, false).await?,\n            r => r?,\n        }"))

ST = "crates/storage/src/"
P("S01", "h-storage", "The record log returns exactly what was appended, in order, until truncated",
"""In a record log, the position an append returns identifies that value from then on: fetching it, asking for its size, reading its bytes and
walking the log give every record appended so far, unchanged and in append order, whether or not it has been flushed, committed, or the log
closed and reopened. Truncating at a record boundary removes exactly the records from there on, and the next append goes to that boundary.
A log opens only for the identifier and the highest format version it was created with, and its length is always the number of bytes written.""",
["histories", "inputs"], "every sequence of appends (bodies smaller than, equal to and larger than the write buffer), flushes, commits, reopenings, truncations and reads up to a depth, with and without compression",
"The tests run a few fixed sequences; the property is about every interleaving of buffered writes, window moves, truncations and reopenings.",
[ST+"archive/pack.rs", ST+"archive/pack_iter.rs", ST+"archive/data_file.rs"],
[("append/fetch/truncate", ST+"archive/pack.rs"), ("buffered read and write windows", ST+"archive/data_file.rs"), ("record iterator", ST+"archive/pack_iter.rs")],
["positions returned, records fetched, record sizes, bytes read, iterator output, file length, file contents"],
"exhaustive enumeration of operation sequences on the real code against a list model",
"Complete within the stated depth and body sizes; one process, no crash inside a call.",
state=[("data_file_end", "logical end of the log", ST+"archive/data_file.rs")])
P("S02", "h-storage", "A damaged or torn record log never yields a record that was not written",
"""Whatever bytes of a record log are altered, cut off or padded, reading it ends in the original records followed by an error or the end of the
log: no altered, invented or misplaced record is ever returned as good, and no read panics or runs away. Damage leaves every undamaged record fetchable, and
truncating the log to its last intact record repairs it: what is appended afterwards reads back, behind the intact records. """,
["crash_points", "fault_sequences"], "every truncation length, every single-bit flip, zeroed and saturated byte, zeroed runs, and garbage tails, of logs of several shapes, with and without compression",
"The tests damage one or two hand-picked bytes; every offset has a different meaning (length, body, checksum, header).",
[ST+"archive/pack.rs", ST+"archive/pack_iter.rs", ST+"archive/crc.rs"],
[("per-record CRC-32 and length checks", ST+"archive/pack.rs"), ("header checks", ST+"archive/pack.rs")],
["fetch and iterator results on damaged files"],
"exhaustive fault enumeration (every byte of a log) on the real code",
"Complete over the listed damage of the listed logs. Damage that keeps the CRC-32 valid is out of scope.")
P("S03", "h-storage", "The position index is an exact, crash-tolerant list of fixed-size entries",
"""An index from consecutive numbers to fixed-size values holds exactly the values saved, in order: every number below its length loads the value
saved for it, any other number fails, saving any number but the next one (other than repeating the same value for an existing number) does not change it, and walks forwards and backwards yield each entry once
from the requested end. Truncating at a number keeps exactly the entries up to it. After reopening, also when the file was cut in the middle of an entry, it holds
the complete entries that remain, and a file whose header belongs to another log, or is damaged, is refused.""",
["histories", "crash_points"], "every sequence of saves, truncations, syncs, reopenings and torn tails up to a depth, for 8 and 16 byte values; every cut of the file; every header bit",
"Unit tests check single operations from a fresh index; reopening after a torn write at each length is not reached.",
[ST+"archive/position_index/index.rs", ST+"archive/crc.rs"], [("save/load/truncate", ST+"archive/position_index/index.rs"), ("partial-entry recovery on open", ST+"archive/position_index/index.rs")],
["loaded values, length, iterators, results of opening"],
"exhaustive enumeration of operation sequences and file cuts on the real code against a list model",
"Complete within the stated depth.", )
P("S04", "h-storage", "The digest index finds every saved key's latest position and nothing else",
"""An index from 32-byte digests to log positions behaves as a map: a key loads the last position saved for it and no key that was never saved
loads anything, through bucket overflow, bucket splits, syncs and reopenings, with keys that collide in bucket or in their hash. Re-saving a key
replaces its position without duplicating it. A damaged bucket or overflow record is reported as an error or as a missing key, never as a wrong position,
and a file whose header belongs to another log is refused.""",
["histories", "inputs", "fault_sequences"], "every sequence of saves (colliding and non-colliding keys), loads, syncs and reopenings up to a depth, from an empty index, a full bucket, an overflowing bucket and one about to split; every damaged byte of both files",
"Tests insert random keys once; collisions around a split or overflow boundary followed by re-saving and reopening are not enumerated.",
[ST+"archive/digest_index/index.rs", ST+"archive/digest_index/bloom.rs", ST+"archive/digest_index/bucket_iter.rs", ST+"archive/digest_index/odx_header.rs", ST+"archive/crc.rs", ST+"archive/fxhasher.rs"],
[("linear hashing with overflow records and splits", ST+"archive/digest_index/index.rs"), ("bloom filter", ST+"archive/digest_index/bloom.rs")],
["positions loaded"],
"exhaustive enumeration of operation sequences on the real code against a map, from constructed boundary states",
"Complete within the stated depth from each starting state, plus a growth run through many splits compared after every save around a split.")
P("S05", "h-storage", "A state snapshot is accepted only if complete, well ordered and intact",
"""A snapshot file verifies exactly if it is one metadata record, the declared number of block headers, in order, linking to and including the declared
tip, then accounts each followed by no more storage than it declares in chunks within the size bound, and a final record with matching totals; every other record stream is refused. What is written
(accounts, code, storage, headers) reads back equal, whole accounts or streamed, and checks against the wrong root, block number or hash fail.
A snapshot that was never finished, or with any byte altered or cut off, never verifies, and walking it ends in an error rather than a shorter state.""",
["inputs", "crash_points", "fault_sequences"], "every short stream over the record kinds, every declared/actual header count, account lists with storage around the chunk bound, every truncation and bit flip",
"The tests check a handful of malformed files; the accepted language is defined over all record streams.",
[ST+"exec_state_pack.rs"], [("writer tallies", ST+"exec_state_pack.rs"), ("reader state machine and verify", ST+"exec_state_pack.rs")],
["verify result, headers, accounts and entries returned"],
"exhaustive enumeration of record streams and file damage on the real code against a reference grammar",
"Complete within the stated stream lengths.")
P("S06", "h-storage", "Every key-value store behaves as an ordered map with atomic transactions",
"""Each of the key-value stores a node can be configured with behaves as one ordered map per table: reads, existence, emptiness, first and last entries, forward and
backward walks and walks from a key see exactly the latest committed writes, in key order, and tables do not affect each other. A write
transaction sees its own writes, applies all of them if committed and none if dropped, and clearing a table within one removes exactly what was there before.
What was committed and persisted is there after reopening.""",
["histories", "configurations"], "every operation and transaction sequence up to a depth over boundary keys, for every store (on-disk, in-memory, layered in both modes, composite), and every subset of boundary keys for ordering",
"Tests use a few inserts with small keys; sequences mixing clears, removals and dropped transactions are not explored.",
[ST+"redb/database.rs", ST+"mem_db.rs", ST+"layered_db.rs", ST+"composite_db.rs", "crates/types/src/database_traits.rs", "crates/types/src/codec.rs"],
[("order-preserving key encoding", "crates/types/src/codec.rs"), ("write transactions", ST+"redb/database.rs"), ("write-behind layer", ST+"layered_db.rs"), ("table routing", ST+"composite_db.rs")],
["get, contains_key, is_empty, iter, skip_to, reverse_iter, record_prior_to, last_record"],
"exhaustive enumeration of operation sequences on the real stores against an ordered map",
"Complete within the stated depth. The on-disk engine itself (redb) is trusted for durability. Stores with a background writer are compared behind their durability barrier.")
P("S07", "h-storage", "The write-behind store never loses, invents or reorders a write",
"""A store that answers reads from memory while a background writer applies writes to disk shows a client every write it has made, in the order it made them,
at every moment of the writer's progress, and a completed durability barrier means that every earlier write is on disk or an error is returned. If a
disk write or commit fails, the write stays visible to reads, the failure is reported at the next barrier, and no later write is lost or
reordered because of it. Overlapping transactions each apply as a whole.""",
["schedules", "fault_sequences"], "every interleaving of a client's writes, transactions, reads and barriers with the background writer's steps, with no or one failing backend call, in both memory modes",
"The tests race a real background thread: they see one or two schedules and one failure point.",
[ST+"layered_db.rs"], [("write queue, overlay and commit handling", ST+"layered_db.rs"), ("persist barrier", ST+"layered_db.rs")],
["reads between writer steps, barrier results, backend contents"],
"stateless exploration of every schedule of client and background writer on the real code, backend calls gated and failed one by one",
"Complete within the stated history lengths; the writer is stepped at backend-call granularity.")

P("S08", "h-sync", "The first background write failure is the one that is kept and reported",
"""A slot for the failures of background writes holds the first error latched since it was last drained: later errors, from any number of threads, neither replace it nor announce a change, and after a reader drains the slot the next error is kept. No error is latched over another and, with at least one, the slot is never left empty.""",
["schedules", "histories"], "every sequence of latching, looking and draining up to a depth; every interleaving of three threads latching, and of latching beside a drain",
"The test latches two errors in order on one thread.",
[ST+"error_latch.rs"], [("latch_first_error", ST+"error_latch.rs")], ["the slot's value and change flag"],
"exhaustive schedule exploration (shuttle engine) and operation-sequence enumeration of the real source",
"All schedules of the listed programs; all sequences within the depth.")
P("S09", "h-crash", "What was committed survives a crash at any moment",
"""After the process is killed or the power fails at any moment, a store holds what its last completed commit or sync had made certain, and beyond that only a
beginning of what was written since: the record log gives every record committed, in order, and never one that was not appended; the position index every entry synced; the digest index every key synced with
that or a later position, no key that was never saved, and every key saved before the log length its header states; a renamed log is there under exactly one of its names; a state snapshot verifies if finished, and never as a part. Each opens again, and what is written afterwards is kept.""",
["crash_points", "histories", "fault_sequences"], "every sequence of operations up to a depth; for each, every moment between two system calls, and there every choice of which changes since the last sync of each file and directory reached the disk, with writes cut at sector boundaries, and within the digest index out of order",
"The tests reopen files the process left in good order, or cut one file; no test loses writes of some files and keeps those of others, and none can see a missing or misplaced fsync.",
[ST+"archive/pack.rs", ST+"archive/data_file.rs", ST+"archive/position_index/index.rs", ST+"archive/digest_index/index.rs", ST+"archive/digest_index/odx_header.rs", ST+"exec_state_pack.rs"],
[("commit: flush then fsync", ST+"archive/pack.rs"), ("directory fsync after create and rename", ST+"archive/data_file.rs"), ("sync order of overflow log, buckets, bloom filter and header", ST+"archive/digest_index/index.rs"), ("partial-entry recovery", ST+"archive/position_index/index.rs")],
["contents after reopening each possible disk"],
"exhaustive crash-state enumeration: the file-changing system calls of the real code are recorded, every disk image a crash may leave under a stated disk model is built, and the real code reopens it",
"The disk keeps a prefix of the changes to each file and directory since its last fsync (any subset of the changes to the digest index), cutting writes at sectors when overwriting and anywhere when appending; a rename is atomic; an fsync of a file does not make its name durable. Two known findings of the digest index are reported by key.")

P("S10", "h-crash", "The consensus chain on disk starts again after any crash and goes on",
"""A node killed, or losing power, at any moment starts again with the consensus chain it had: every output persisted before it was executed, whole, by number, by digest and with its batches, and of later ones only a beginning of
what was saved; every record of an ended epoch; the latest output of the epoch as its tip. It then saves the outputs that come next, which are there after another start, and another node can fetch the epoch from it.""",
["crash_points", "histories", "fault_sequences"], "every history of saved outputs, outputs persisted for execution, ended epochs and restarts up to a depth, and the first start on an empty disk; for each, every moment between two system calls, and there every choice of which of the changes since the last sync of each file and directory reached the disk, with the last write cut at sector boundaries",
"The tests damage one file of a pack in one place and reopen it; the hint slots, pack, three indexes and epoch records are never out of step with each other in the ways a crash leaves them.",
[ST+"consensus.rs", ST+"consensus_pack.rs", ST+"epoch_records.rs", ST+"archive/pack.rs", ST+"archive/digest_index/index.rs", ST+"archive/position_index/index.rs"],
[("trunc_and_heal", ST+"consensus_pack.rs"), ("LatestConsensus slots", ST+"consensus.rs"), ("heal_records", ST+"epoch_records.rs"), ("persist order", ST+"consensus_pack.rs")],
["outputs, headers, batches, records and tips after a restart", "results of saving afterwards", "import of the epoch by another node"],
"exhaustive crash-state enumeration: the file-changing system calls of the real code are recorded, every disk image a crash may leave under a stated disk model is built, and the real code starts from it and goes on",
"The disk keeps a prefix of the changes to each file and directory since its last fsync, cutting the last write at sectors; a rename is atomic. The node persists what it entered an epoch with when it starts, as the program does. One known finding of the digest index is reported by key.")

P("S11", "h-crash", "Epoch records and certificates survive a crash at any moment",
"""After the process is killed or power fails at any moment, the epoch record database and an epoch's certificate pack open again and hold every record and certificate that was persisted, and of what was saved since only a beginning. All
ways to ask agree: by epoch, by digest, record and certificate together, whether it is there, the latest, the first without a certificate, the epoch of an output. What was lost can be saved again, is then there, and is there after another start.""",
["crash_points", "histories", "fault_sequences"], "every history of saved records, pairs and certificates (late ones too, repeated ones too), persists and reopenings up to a depth, on a new disk and on one in use; for each, every moment between two system calls, and there every choice of which changes since the last sync of each file and directory reached the disk, with the last write cut at sector boundaries",
"The tests cut or lengthen one file of a database that was closed in good order; the two packs and three indexes never disagree the way a crash in the middle of a persist leaves them.",
[ST+"epoch_records.rs", ST+"certificate_pack.rs", ST+"archive/pack.rs", ST+"archive/digest_index/index.rs", ST+"archive/position_index/index.rs", ST+"archive/data_file.rs"],
[("heal_records, heal_certs", ST+"epoch_records.rs"), ("persist order", ST+"epoch_records.rs"), ("repair on open", ST+"certificate_pack.rs")],
["answers of every query after reopening", "results of saving again"],
"exhaustive crash-state enumeration: the file-changing system calls of the real code are recorded, every disk image a crash may leave under a stated disk model is built, and the real code opens it and goes on",
"The disk keeps a prefix of the changes to each file and directory since its last fsync, cutting the last write at sectors; a rename is atomic. One known finding of the digest index is reported by key.")

P("S12", "h-crash", "A failed write is reported, and costs nothing that was certain",
"""When a file operation of the store fails, wholly or in part, once or until there is room again, then nothing that a sync or persist had said to be durable is lost, damaged, doubled or moved, now or after the next start; a save
or persist that says it worked did; the next start succeeds, and what was refused can be saved again. This holds for the record log, the position index, the digest index, epoch records, certificates and the chain of outputs.""",
["fault_sequences", "histories"], "every history up to a depth on a store in use; for each, every file-changing system call it makes fails, in turn, in each of three ways: without effect once; a write cut in half and the next one refused; a write cut in half and no room for any later one; then the user stops, goes on, or persists once more when the trouble is over (the quick check leaves out some combinations for the stores built of several files)",
"A test has a disk that works; the few that fake an error fake it before any byte is written and do not go on.",
[ST+"archive/data_file.rs", ST+"archive/pack.rs", ST+"archive/digest_index/index.rs", ST+"archive/position_index/index.rs", ST+"epoch_records.rs", ST+"certificate_pack.rs", ST+"consensus_pack.rs", ST+"consensus.rs"],
[("write_out", ST+"archive/data_file.rs"), ("save_bucket_cache", ST+"archive/digest_index/index.rs"), ("failed", ST+"archive/pack.rs")],
["results of every call", "answers of every query while open and after reopening"],
"exhaustive fault enumeration on the real code: the system calls that change files are interposed, counted per file, and each of them in turn fails in each way; the oracle is the list of what was said to be certain",
"One call fails (or, on a full disk, it and all later writes); reads do not fail. A bucket of the digest index cut short in place is a known finding, reported by key.")

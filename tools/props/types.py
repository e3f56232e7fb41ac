TY = "crates/types/src/"
P("T01", "h-types", "Committee thresholds make any two quorums share an honest member",
"""For a committee of n equal members the quorum threshold is n - floor((n-1)/3) and the validity threshold is floor((n-1)/3)+1, so any two quorums
overlap in at least a validity threshold of members, whatever f are Byzantine, and the honest members alone reach quorum. A committee depends only on the set of its members,
not on the order or repetition in which they were added: it is sorted by public key, and every lookup (by key, by identifier, by index, leader rotation, membership, stake)
agrees with that set. It keeps these answers through JSON, YAML and binary encodings. Identifiers are the digest of the key, and their text parses back to the same one, other text being refused.""",
["inputs"], "every committee size, every subset of a key set, every order of adding, every pair of vote sets",
"The property tests sample committee sizes; agreement safety rests on every size, every pair of quorums, and every lookup path agreeing.",
[TY+"committee.rs"], [("thresholds", TY+"committee.rs"), ("CommitteeBuilder / load / lookups", TY+"committee.rs")],
["thresholds, lookups, order, encodings"],
"exhaustive enumeration of committees, orders and vote sets on the real code against a set model",
"Complete up to the stated committee sizes; thresholds for thousands of sizes.",
state=[("authorities", "members sorted by key", TY+"committee.rs")])
P("T02", "h-types", "A certificate verifies only with a quorum of members' votes for its very header",
"""A certificate verifies exactly if its header belongs to the committee's epoch and is valid, its signer set holds only committee members and reaches the quorum threshold,
and its aggregate signature is the aggregate of exactly those members' votes for exactly that header. Votes for another header, round, epoch or author, votes of outsiders, of fewer members than claimed, or a changed byte make it fail.
It can be assembled only from distinct members' valid votes reaching quorum, whatever their order. A verification state claimed by a peer is never trusted. A
header is valid exactly if its epoch and author belong to the committee and its parents and payload respect the limits; genesis certificates, one per member, need no votes.""",
["inputs", "fault_sequences"], "every signer set against every claimed signer set; every mix of votes over messages; every vote list up to a length; every bit flip and truncation of a certificate; a grid over header fields",
"Tests build one good certificate and a few bad ones. Which claimed signer sets are accepted is a question about all of them.",
[TY+"primary/certificate.rs", TY+"primary/header.rs", TY+"primary/vote.rs", TY+"committee.rs"],
[("Certificate::verify / new_unverified", TY+"primary/certificate.rs"), ("Header::validate", TY+"primary/header.rs"), ("Vote", TY+"primary/vote.rs")],
["verification result, signers recovered"],
"exhaustive enumeration of signer sets, vote mixes and damaged bytes on the real code against a set-theoretic reference",
"Complete within the stated committee sizes; BLS itself is assumed (real BLS operations run).")
P("T03", "h-types", "An epoch certificate proves its record only with a super-quorum of its committee",
"""An epoch record's certificate verifies exactly if its signer bitmap names only positions in that record's committee, at least the super-quorum threshold of them, and its aggregate signature is over that very record's digest by exactly those keys,
under the epoch-boundary purpose, so a signature made for another purpose never counts. Every field of the record is bound by its digest. A committee is compatible with a record exactly if it is the same set of keys.
An epoch seed message binds epoch and prior value, so a contribution for one epoch or chain never verifies for another.""",
["inputs"], "every signer set against every claimed bitmap including positions beyond the committee, for several sizes and key orders; every field of the record changed; every committee list against every subset",
"Tests check a full committee and one short set; the accepted bitmaps are a set to be enumerated.",
[TY+"primary/epoch.rs", TY+"crypto/intent.rs"],
[("EpochRecord::verify_with_cert", TY+"primary/epoch.rs"), ("EpochSeedMessage", TY+"primary/seed_chain.rs")],
["verification results, digests"],
"exhaustive enumeration of signer bitmaps and field changes on the real code against a set-theoretic reference",
"Complete within the stated committee sizes; BLS itself is assumed.")
P("T04", "h-types", "A signature verifies only for its key, its message and its purpose",
"""A signature verifies exactly for the key, message and intent (purpose, version, application) it was made with, alone or in an aggregate: an aggregate verifies exactly for the set of keys
that signed, in any order, and never for no keys. A proof of possession holds only for its own key and bound address (or genesis, for network keys). Keys and signatures that are malformed,
of the wrong length, the point at infinity, or outside the prime-order group are refused wherever untrusted bytes enter. Every encoding of keys, signatures, proofs and intents
(raw bytes, base58, JSON, binary) has its exact length, reads back equal, and no other bytes read back as the same value.""",
["inputs", "fault_sequences"], "all pairs over purposes, messages and keys; every subset of signers against every subset of keys; every bit flip of keys, signatures and proofs; every encoding length; good signatures and keys moved out of the group by points of any and of small order",
"Tests check one wrong key and one wrong message; cross-purpose and cross-encoding confusion needs the full product.",
[TY+"crypto/mod.rs", TY+"crypto/bls_signature.rs", TY+"crypto/bls_public_key.rs", TY+"crypto/bls_keypair.rs", TY+"crypto/intent.rs", TY+"crypto/network.rs"],
[("verify_secure / aggregate_verify_secure", TY+"crypto/bls_signature.rs"), ("key decoding and validation", TY+"crypto/bls_public_key.rs"), ("Intent", TY+"crypto/intent.rs"), ("proof of possession", TY+"crypto/mod.rs")],
["verification and decoding results"],
"exhaustive enumeration of key/message/purpose products and damaged encodings on the real code",
"Complete over the stated keys, messages and encodings; BLS itself is assumed.")
P("T05", "h-types", "Every value has exactly one encoding, and database keys sort as their values",
"""A value's encoding reads back as that value, has exactly the length announced for it, is written the same into a buffer, and is the only byte string that reads back as it:
cut, extended or altered strings are refused or read as a different value, by the fallible decoders with an error and by the infallible ones with a panic. Encoded
database keys have a fixed width per type and compare, byte by byte, exactly as the keys do, so range scans visit them in order. Digests and identifiers are accepted, as bytes or as base58 text,
only with exactly 32 bytes. Sets of signer positions, batches, headers, votes, scores and node modes survive every encoding; a batch's local receipt time never travels with it.""",
["inputs"], "every boundary value of every key type pairwise; every byte string up to a length read as several shapes; every cut and extension of each encoding; every digest length from 0 to 70 bytes",
"Tests round-trip a few values; ordering and uniqueness are statements about all pairs and all byte strings.",
[TY+"codec.rs", TY+"serde.rs", TY+"crypto/mod.rs", TY+"committee.rs", TY+"primary/node_mode.rs", TY+"worker/sealed_batch.rs"],
[("encode/decode, encode_key/decode_key", TY+"codec.rs"), ("bitmap encoding", TY+"serde.rs"), ("Digest encodings", TY+"crypto/mod.rs")],
["bytes written, values read, errors and panics"],
"exhaustive enumeration of values, pairs of keys and byte strings on the real code",
"Complete over the stated value sets and string lengths. Bitmaps and JSON are checked for round trips, not for uniqueness.")
P("T08", "h-sync", "Ports, nonces and addresses are derived without collisions",
"""Concurrent processes with different slots below 64 are given ports from disjoint windows of 256 ports within 16384..32768, and any other slot, or none, gets ports of the system's ephemeral range. A process is never given the same
port twice, for TCP or UDP, also when several threads ask at once, nor one that is already taken; a window is used up before the ephemeral range is touched. A block nonce splits back into exactly its epoch and round.
A key's address is the last 20 bytes of the Keccak hash of its uncompressed coordinates. Default node information has distinct keys and addresses for primary and worker.""",
["inputs", "configurations"], "every slot number and malformed slot text, every interleaving of two threads asking at once, run identifiers, request mixes and patterns of taken ports, each in its own process; boundary epochs and rounds; a range of keys",
"The tests check a couple of slots in one process; disjointness is a statement about all pairs of processes.",
[TY+"helpers.rs", TY+"primary/info.rs", TY+"primary/header.rs"], [("slot_window / claim", TY+"helpers.rs"), ("deconstruct_nonce", TY+"helpers.rs"), ("public_key_to_address", TY+"helpers.rs")],
["ports handed out per process"],
"exhaustive enumeration of slots, requests and taken ports on the real code, one process each, and of thread schedules under a controlled scheduler",
"Complete over slots; run identifiers and patterns of taken ports are a fixed list. Needs only loopback sockets.")
P("T09", "h-types", "Digests of headers, batches and votes bind exactly their contents",
"""Two headers have the same digest exactly if all their fields are equal (author, round, epoch, creation time, batches with worker and order, parents, latest execution block, seed signature), and two
batches exactly if their transactions (with their boundaries and order), epoch, beneficiary, base fee and worker are equal; the local receipt time does not count. The digest is always the one of the bytes
that travel, is recomputed when a header is read rather than taken from the sender, and survives rebuilding. A vote is for exactly its header's digest, round, epoch and author. The nonce is epoch in the high and round in the low half.""",
["inputs"], "every combination of values for every field, pairwise through a table of digests",
"A test compares two headers; that no field is left out of, or confused within, the digest is a statement about all pairs.",
[TY+"primary/header.rs", TY+"primary/vote.rs", TY+"worker/sealed_batch.rs", TY+"helpers.rs"],
[("header digest and wire layout", TY+"primary/header.rs"), ("batch digest", TY+"worker/sealed_batch.rs"), ("Vote / VoteInfo", TY+"primary/vote.rs")],
["digests, fields, encodings"],
"exhaustive enumeration of field combinations on the real code, compared pairwise",
"Complete over the stated field values (builds without the adiri feature); collisions of BLAKE3 itself are assumed away.")
P("T10", "h-types", "The consensus chain's digests and times pin the whole committed history",
"""A committed sub-dag's digest binds its headers in order, reputation scores, commit time and randomness; a consensus header's digest binds its parent, number and sub-dag; a published result's binds epoch, round, number and hash. All are recomputed on
reading, and an output's header equals the header built from its parts. Commit times never decrease: each is the larger of the leader's time and the previous commit's. The randomness folds every commit's leader round and seed signature
into the previous value, starting from a root that depends on the epoch only, so different histories give different values. A sub-dag exists only with its leader last. An output lists every batch once, in order, and exactly
its last batch closes the epoch when it is the closing output, a flag never taken from the wire.""",
["inputs", "histories"], "every list of headers up to a length, with every score, seed and previous time; every sequence of leader times; every layout of batches; every chain of folds up to a depth",
"Tests build one output; monotone time and unforgeable history are statements about all sequences of commits.",
[TY+"primary/output.rs", TY+"primary/block.rs", TY+"primary/seed_chain.rs"],
[("CommittedSubDag", TY+"primary/output.rs"), ("ConsensusHeader", TY+"primary/block.rs"), ("EpochSeedChainValue", TY+"primary/seed_chain.rs")],
["digests, commit times, randomness, batch layout"],
"exhaustive enumeration of commit sequences and layouts on the real code against independent references",
"Complete within the stated lengths (builds without the adiri feature); BLAKE3 and Keccak collisions are assumed away.")
P("T11", "h-types", "Reputation ranking is total, deterministic and complete",
"""Reputation scores start at zero for every member. Adding adds exactly to that authority, known or not. The ranking lists every scored authority exactly once, by score from high to low and equal scores by identifier from high to low,
so every node ranks alike; all are zero exactly if no score is positive. Scores read back equal from every encoding.""",
["inputs", "histories"], "every assignment of scores to a committee, every sequence of additions up to a length",
"Tests check one map. Every tie pattern must rank the same on all nodes, or leader schedules fork.",
[TY+"primary/reputation.rs"], [("authorities_by_score_desc / add_score", TY+"primary/reputation.rs")],
["ranking, totals"],
"exhaustive enumeration of score maps and additions on the real code against a sorted reference",
"Complete within the stated committee and scores.")
P("T12", "h-types", "Gas, fees and rewards are accounted exactly and identically on every handle",
"""Each worker's totals are the number, gas used and gas limit of its blocks that used gas since the last clear; other workers' are untouched, every clone sees the same, and a block of a worker that does not exist stops the node. Resizing keeps existing workers' totals and fees,
adds zeroed workers at the minimum fee, drops those beyond, and never goes below one; clearing leaves fees. A next base fee moves from the current one towards demand by at most an eighth, by the EIP-1559 rule, is unchanged at target, never overflows and never falls below the minimum of 7; a static
fee is exactly the configured one. Rewards credit each committed leader to its member's address, summing members that share one, ignoring non-members. A block's worker is the low 16 bits of its difficulty.""",
["histories", "inputs"], "every sequence of accumulator and reward operations up to a depth; a grid of boundary values for fee, use and target, and every small triple; every worker id",
"Base fees are consensus values: a difference on one input forks the chain. Tests sample a few inputs.",
[TY+"gas_accumulator.rs"], [("GasAccumulator", TY+"gas_accumulator.rs"), ("compute_next_base_fee_eip1559", TY+"gas_accumulator.rs"), ("RewardsCounter", TY+"gas_accumulator.rs")],
["totals, fees, withdrawals"],
"exhaustive enumeration of operation sequences and fee inputs on the real code against a reference in wider arithmetic",
"Complete within the stated depth and grids; one thread (T13 explores the interleavings).",
state=[("gas", "per-worker totals", TY+"gas_accumulator.rs")])

P("T06", "h-sync", "A notification reaches everyone who registered for it, and nobody else",
"""A notifier's notification completes every subscription made before it and no later one, each stays completed, and a task waiting on it is woken (its latest poll counts); a shutdown notifier's completes all subscriptions, earlier and later ones. A reader registered for a key
gets the value of the first notification of that key after it registered, each of several registrations of a key or list gets it, other keys' readers are untouched, and one that gives up leaves nothing behind. The number of pending
registrations is exactly those neither notified nor dropped, and notifying returns it. No interleaving of subscribing, registering, polling, dropping and notifying loses a wake-up or blocks forever.""",
["schedules", "histories"], "every sequence of operations up to a depth against a model; every interleaving of small programs of two or three threads subscribing, waiting, dropping and notifying",
"The tests run one order of each operation; lost wake-ups and count drift appear only in particular interleavings.",
[TY+"notifier.rs", "crates/tn-utils/src/notify_read.rs"], [("Notifier, ShutdownNotifier, Noticer", TY+"notifier.rs"), ("NotifyRead, Registration", "crates/tn-utils/src/notify_read.rs")],
["readiness and values of polls, wakers woken, pending counts"],
"exhaustive schedule exploration (shuttle engine, depth-first over all interleavings) and operation-sequence enumeration of the real sources",
"All schedules of the listed programs (their lock, atomic and channel operations, sequentially consistent) and all sequences within the depth.",
state=[("count_pending", "registrations neither notified nor dropped", "crates/tn-utils/src/notify_read.rs")])
P("T13", "h-sync", "Accounting stays exact when threads use it at once",
"""Blocks added by several threads are each counted exactly once and a reader never sees totals in which a block is half counted; growing or shrinking the set of workers or clearing at the same time loses no block of a worker that remains and no fee, a block
added beside a clear is counted fully or cleared fully, and a fee handle keeps belonging to its worker. Leaders counted by several threads are each counted once whatever moment the committee is set or rewards are read, and nothing deadlocks.""",
["schedules"], "every interleaving of every pair of programs of up to two operations and of every three of one, and of larger listed programs: adding blocks, resizing, clearing, reading totals, fees and rewards",
"The tests are single-threaded; the executor, the epoch manager and consensus share these handles.",
[TY+"gas_accumulator.rs"], [("GasAccumulator locks", TY+"gas_accumulator.rs"), ("RewardsCounter locks", TY+"gas_accumulator.rs")],
["totals, fees, leader counts"],
"exhaustive schedule exploration (shuttle engine) of the real source",
"All schedules of those programs, sequentially consistent.")

P("T07", "h-types", "Node channels deliver in order, bounded, and report closing and lag exactly",
"""A queue channel delivers each accepted message exactly once, in the order accepted, never holds more than its capacity, makes further senders wait in turn (a waiting send that is dropped gives its turn on), hands a refused message back as full or closed, and ends for the receiver once every
sender is gone and it is drained. A broadcast channel never refuses a message, listened to or not; each receiver sees every message sent after it subscribed, in order, except that one that falls behind by more than the capacity continues at the oldest kept message and reports the lag when polled without waiting; after the
sender leaves it sees what remains, then the end.""",
["histories"], "every sequence up to a depth of sends, polled sends, receives, drops, subscriptions and closings, for capacities 1 and 2, through the channel traits",
"Tests send one or two messages; fairness, lag and closing interact over histories.",
[TY+"sync.rs"], [("TnSender / TnReceiver implementations", TY+"sync.rs")], ["results of sends and receives"],
"exhaustive enumeration of operation sequences on the real code against a queue model",
"Complete within the depth and capacities; polls are driven by hand, so every wake-up order of the listed operations is covered, not parallel execution inside tokio.")

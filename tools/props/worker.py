WK="crates/consensus/worker/src/"
P("W01", "h-worker", "A batch counts as sealed only when members of a quorum hold it",
"""A node's own batch is sealed exactly when the members that took it, its own among them, are a quorum of the stake: the builder is told of a rejection as soon as members that refused make a quorum impossible, of an anti-quorum when those that refused or cannot be reached do, and of a timeout otherwise, once and within the time allowed.
Every other member is sent the same batch, at most three times, again only after an answer that may pass or none. While it is not sealed it is kept as the node's own proposal; when it is, every member that asks is served it, it is announced once, and then the primary is told, once. A batch that is not sealed is announced and told to nobody, and one whose
proposal cannot go on leaves nothing behind. An error that may pass leaves the builder free to try again. A node outside the committee forwards its transactions instead, to the members' slots, and accepts only when a member's endpoint is known and admits them.""",
["schedules", "configurations"], "every assignment of twelve behaviours to the peers of committees of four to seven members, with answers in every order, and answers to two batches at once in every order",
"Tests give one committee of four, all willing; who is counted as willing, refusing or gone depends on the order of several answers.",
[WK+"worker.rs", WK+"quorum_waiter.rs", WK+"network/handle.rs", WK+"network/message.rs"],
[("Worker::seal, disburse_txns", WK+"worker.rs"), ("QuorumWaiter::verify_batch", WK+"quorum_waiter.rs"), ("WorkerNetworkHandle::report_batch", WK+"network/handle.rs")], ["what the builder is told", "reports sent", "announcements", "what the primary is told", "stored batches"],
"exhaustive enumeration of peers' answers and their orders on the real worker with stand-in network commands and a virtual clock, against an independent tally of stakes",
"Complete for the listed behaviours; every committee order of answers for four and (thorough) five members, first-to-last and last-to-first above. The network layer below the worker's commands is replaced.",
state=[("Worker", "the batch under way and the stores it is kept in", WK+"worker.rs"), ("QuorumWaiter", "stake for, against and within reach", WK+"quorum_waiter.rs")])
P("W02", "h-worker", "Only valid batches are stored and told, and blame falls where it is due",
"""A batch reported by a member of the committee is kept for others to fetch and then told to the primary, once, exactly when it is valid, of this epoch, and its digest is its own; anything else changes nothing, a refusal that may pass asks the sender to try again, and each kind of fault costs its fixed penalty. An announcement of this epoch makes
a node look up a batch it does not hold, one lookup per batch and at most eight at a time; only a valid batch of this epoch found so is kept, and the primary is told of none. A malformed announcement is charged to its author, a fault of passing it on to whoever passed it on, none to both. When the primary asks for batches, it is told all is well exactly when
every one of them is held by then, those fetched validated unless a certificate vouches for them. A search for an output's batches for execution ends when all are found and not before, each as it was ordered.""",
["histories", "inputs"], "every sequence of reports by members and outsiders of batches of every kind of fault; announcements with every outcome of their lookups in every order; every combination of batches held, served, asked and invalid; every sequence of stages of a search",
"Tests follow one batch through one path with the stores empty.",
[WK+"network/handler.rs", WK+"network/mod.rs", WK+"network/primary.rs", WK+"network/error.rs", WK+"network/message.rs", WK+"batch_fetcher.rs"],
[("RequestHandler", WK+"network/handler.rs"), ("WorkerNetwork", WK+"network/mod.rs"), ("PrimaryReceiverHandler::synchronize", WK+"network/primary.rs"), ("BatchFetcher::fetch", WK+"batch_fetcher.rs")], ["answers", "penalties asked for", "stored batches", "what the primary is told", "lookups begun"],
"exhaustive enumeration of event histories on the real worker network handler with stand-in network commands, validator and primary, against an independent account of what must be held, told and charged",
"Complete within the depths; every fifth sequence of three reports in the thorough run. The batch validator is a stand-in that gives each verdict.",
state=[("RequestHandler", "lookups under way", WK+"network/handler.rs"), ("WorkerNetwork", "pending announcements", WK+"network/mod.rs")])
P("W03", "h-worker", "Missing batches are fetched whole and under their own digests from who has them",
"""Whatever the peers asked do, and wherever their connections break, stall or end, a request for batches ends and returns only batches that were asked for, each once, under its own digest; what it returns and what it calls missing make up what was asked. A batch is missing only if no peer served it in full: what one peer delivered before it failed is kept,
the next is asked only for the rest, and none is asked once nothing is missing. A peer known not to speak the protocol is not asked again in the same epoch, and one that failed for other reasons is. A server answers a request it admits with exactly the batches it holds among those asked for, and an end; it admits at most its limit of streams in all and per peer, denies the
rest by name, frees a place whenever a stream is over however it ended, and does not hold on to a peer that asks nothing.""",
["fault_sequences", "histories"], "the connection cut, ended or stalled at every byte in either direction; every sequence of up to three pieces a hostile peer may say and how it then leaves; every set of batches held and asked; every sequence of openings, requests and departures at a server",
"A test's connection breaks nowhere; a byte more or less decides whether a batch arrived.",
[WK+"network/handle.rs", WK+"network/stream_codec.rs", WK+"network/mod.rs", WK+"network/handler.rs", WK+"batch_fetcher.rs", "crates/network-libp2p/src/stream/mod.rs"],
[("WorkerNetworkHandle::request_batches", WK+"network/handle.rs"), ("send_sync_batches_over_stream", WK+"network/stream_codec.rs"), ("process_inbound_sync_stream", WK+"network/mod.rs")], ["returned and missing batches", "frames on the wire", "openings"],
"exhaustive fault injection at every byte of real libp2p streams between two in-process swarms, with the real client and server at the ends",
"Complete for the listed batches and pieces. TCP/QUIC and encryption below the stream are replaced by byte queues; batches served from a finished epoch's pack are not driven.",
state=[("WorkerNetworkHandle", "which peers speak the protocol", WK+"network/handle.rs"), ("WorkerNetwork", "streams admitted, in all and per peer", WK+"network/mod.rs")])

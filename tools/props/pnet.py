PN="crates/consensus/primary/src/network/"
P("P01", "h-pnet", "An epoch fetched from peers is exactly the certified epoch or nothing",
"""Whatever the peers asked do, and wherever their connections break, stall or end, a request for an epoch ends, and only three things can come of it: the node holds the whole epoch and nothing but the history its record certifies; it holds the verified beginning of it where only a beginning was asked for; or it holds what it held before.
A fetch reported as done left the epoch in place, readable and as served byte for byte by the node that served it; one reported as failed, or never finished, leaves nothing behind that a later fetch, the next output saved, a restart or another peer served from here would meet. A failing first peer does not keep the epoch from being had of the next. No altered, cut, extended,
reordered or foreign pack is installed, whatever parts of other certified histories it is made of, batches included.""",
["fault_sequences", "inputs"], "the connection cut, ended or stalled at every byte in either direction; every byte of a pack flipped and every truncation; every pack made by one or two edits with the records of other histories; every sequence of up to four frames a hostile peer may say, and how it then leaves",
"Tests import one good pack and a few spoiled ones; whether an altered pack passes depends on which byte and what else agrees with it.",
[PN+"mod.rs", PN+"handler.rs", PN+"sync_codec.rs", "crates/storage/src/consensus.rs", "crates/storage/src/consensus_pack.rs"],
[("PrimaryNetworkHandle::request_epoch_pack", PN+"handler.rs"), ("ConsensusChain::stream_import", "crates/storage/src/consensus.rs"), ("ConsensusPack::stream_import", "crates/storage/src/consensus_pack.rs"), ("send_epoch_over_sync_stream", PN+"sync_codec.rs")], ["what the fetch reported", "outputs and batches readable afterwards", "files left", "bytes served onward", "the next output saved"],
"exhaustive fault injection at every byte and exhaustive small edits of packs on real libp2p streams between the real primary network server and client, over real consensus chains",
"Every third byte of cuts in the quick run. TCP/QUIC and encryption below the stream are replaced by byte queues. A pack whose committee lists other execution addresses is the known finding.",
state=[("ConsensusChain", "the packs installed, staged and current", "crates/storage/src/consensus.rs")])
P("P02", "h-pnet", "Certificates and outputs asked of a peer arrive whole, or not at all",
"""Whatever the peer asked does, and wherever its connection breaks, stalls or ends, a request for certificates or for an output ends. Of an honest peer come exactly the certificates it holds after the bound, of the authors named, but those to skip, in the order of rounds, or an error; of any peer, only what it sent between its consent and its end. An output is taken only if it is the one
with the expected digest, batches included; the next peer is asked when one fails, three at the most, and none once it is had. Whoever sends another output in its place is charged gravely, and nobody is for a connection that fails. A peer known not to speak the protocol is left alone until that is forgotten, and one that failed otherwise is not.
A server answers malformed requests by saying so, admits at most its limits of streams in all and per peer, denies the rest by name, serves whom it let in, frees a place however its stream ends, and does not hold on to a peer that asks nothing.""",
["fault_sequences", "histories", "inputs"], "every set of certificates held, bound and rounds to skip; the connection cut, ended or stalled at every byte; every sequence of up to five pieces a hostile peer may say; every byte of an output wrong, every part of it and every edit with the records of others; every sequence of seven kinds of peer; every history of a crowd at a server",
"Tests ask one peer for a few certificates over a whole connection; what a cut or a hostile peer leaves of a response depends on the byte and the order of frames.",
[PN+"mod.rs", PN+"handler.rs", PN+"message.rs", PN+"sync_codec.rs", "crates/consensus/primary/src/state_sync/cert_collector.rs", "crates/storage/src/consensus_pack.rs"],
[("PrimaryNetworkHandle::fetch_certificates, request_consensus_output", PN+"mod.rs"), ("CertificateCollector", "crates/consensus/primary/src/state_sync/cert_collector.rs"), ("send_sync_certificates_over_stream, read_sync_certificates", PN+"sync_codec.rs"), ("PrimaryNetwork::process_inbound_sync_stream", PN+"mod.rs")], ["what is returned", "frames on the wire", "peers asked", "penalties"],
"exhaustive fault injection at every byte and exhaustive enumeration of requests, stores and peers' conversations on real libp2p streams between the real primary network server and client",
"Certificates of two authors over four rounds, of three over three in the thorough run. TCP/QUIC and encryption below the stream are replaced by byte queues; a server that waits for an output it does not yet have is driven only where it never comes.",
state=[("PrimaryNetworkHandle", "which peers speak the protocol", PN+"mod.rs"), ("PrimaryNetwork", "streams admitted, in all and per peer", PN+"mod.rs")])
P("P03", "h-pnet", "A node heeds gossip only as far as members it can check vouch for it",
"""A consensus result is taken for certain only once a third of the committee of its epoch and one more member said exactly that (epoch, round, number, hash), each under its own signature and each counted once; it is taken as soon as that many honest members said it, however many contradictory results others say before, between and after; and what is certain never goes back to an earlier number. A result of an epoch the node does not know only makes it look for that epoch.
A vote on an epoch's record is passed on once for each member and epoch, if it is signed by it and the epoch is known and not yet certified; a certificate is taken and told only if it verifies under its epoch's committee, and kept only by a member and for this epoch.
An active member stops to catch up exactly when a result vouched for is further ahead than its window, by rounds in its epoch or by number in a later one. Only the author of bad gossip is ever charged, never who relayed it, and never an author whose gossip was good. No gossip stops the node.""",
["histories", "inputs"], "every sequence of up to four results said by members, outsiders and forgers; floods of contradictory results of every size around the limits, also in a memory that is already full; runs of members far ahead; every sequence of three votes and of three certificates, good and bad, at nodes of every mode; every round and number around the window; every truncation",
"Tests gossip a few results in one order; what is counted depends on who said what before, on what was forgotten meanwhile and on the node's mode.",
[PN+"handler.rs", PN+"mod.rs", PN+"message.rs", "crates/consensus/primary/src/error/network.rs", "crates/consensus/primary/src/consensus_bus.rs"],
[("RequestHandler::process_gossip, behind_consensus", PN+"handler.rs"), ("PrimaryNetwork::process_gossip (blame)", PN+"mod.rs"), ("ConsensusBusApp::publish_consensus_num_hash_if_newer", "crates/consensus/primary/src/consensus_bus.rs")], ["results published", "votes and certificates passed on", "penalties", "node mode and shutdown", "the epoch asked for"],
"exhaustive enumeration of gossip histories on the real primary network event loop, against an independent account of who said what",
"Committees of four and seven; up to three results of a number and two numbers. The gossip mesh itself is libp2p's; what other nodes publish is made by the real publishing handle. One member signing results for many future numbers is in the code's documentation as a known residue and not explored beyond the honest results it must not displace.",
state=[("RequestHandler", "results said, who said them and when", PN+"handler.rs"), ("ConsensusBusApp", "last consensus taken for certain, epoch asked for", "crates/consensus/primary/src/consensus_bus.rs")])

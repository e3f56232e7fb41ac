PR = "crates/consensus/primary/src/"
P("C01", "h-primary", "Every node commits the same sequence from the same DAG, however it arrives",
"""The sequence of committed sub-DAGs is a function of the certificate DAG alone: whatever causal order certificates arrive in, and however much has arrived, each node's commits are a prefix of one common sequence.
A leader of an even round is committed once members holding the validity threshold reference it in the next round and that certificate is processed; committing it first commits every earlier uncommitted leader it is
linked to, oldest first, skipping those it does not reach. Each commit holds exactly the certificates its leader reaches that are above the garbage-collection depth and newer than what is already committed of their
authors, ordered by round with the leader last and each certificate once. Reputation scores, the end of a schedule, the change of leaders it brings, the commit time (never decreasing) and the epoch seed follow from that sequence alone.
A second certificate of one author and round, or one whose parents are unknown, is refused with an error.""",
["schedules", "histories"], "every causal delivery order of every part of every DAG in families covering deviations from the full DAG, vote and link patterns for successive leaders, and silent members across schedule changes, with small and large garbage-collection depths",
"Tests play a handful of orders over a few DAGs. Agreement is a statement about every pair of delivery orders of every DAG.",
[PR+"consensus/bullshark.rs", PR+"consensus/state.rs", PR+"consensus/utils.rs", PR+"consensus/leader_schedule.rs", "crates/types/src/primary/output.rs"],
[("process_certificate / commit_leader / order_leaders", PR+"consensus/bullshark.rs"), ("order_dag", PR+"consensus/utils.rs"), ("ConsensusState", PR+"consensus/state.rs")],
["committed sub-DAGs, their scores, times and seeds; the committed and collected rounds"],
"explicit-state exploration of the real protocol over every causal delivery order, compared step by step with an independent statement of the commit rule",
"Complete for four members over the stated DAG families.",
state=[("ConsensusState", "DAG, last commits, seed chain", PR+"consensus/state.rs"), ("LeaderSchedule", "leaders and replacements", PR+"consensus/leader_schedule.rs")])
P("C02", "h-primary", "A round's leader follows from the committee and the final scores alone",
"""Leaders rotate over the committee in its own order, one per even round. At the end of a schedule, members whose score is at least two (integer) standard deviations below the best are replaced, lowest first and never more
than the threshold share of the committee, except that all members sharing the lowest score are replaced together; equal scores replace nobody. A replacement always comes from members with strictly better scores, and is picked
by a ChaCha12 generator seeded with the round. Every node with the same scores, every clone of a schedule and every schedule rebuilt from storage gives the same leader for every round.""",
["inputs"], "every vector of scores from a set of levels for committees of one to seven members, with every threshold class, and every even round up to a bound",
"Tests use a few score tables. Two nodes that disagree on one leader fork.",
[PR+"consensus/leader_schedule.rs", "crates/types/src/primary/reputation.rs"],
[("LeaderSwapTable::new / swap", PR+"consensus/leader_schedule.rs"), ("LeaderSchedule::leader", PR+"consensus/leader_schedule.rs")],
["the leader of every round; the sets of replaced and replacing members"],
"exhaustive enumeration of score tables against an independent statement of the rule",
"Complete within the stated levels and committee sizes.")
P("C03", "h-primary", "A node that stops anywhere and restarts commits what it would have committed",
"""A node may stop after storing any certificate, before or after consensus saw it, with any number of its latest commits not yet saved to the consensus chain. When it starts again over what is on disk, it commits the same
sub-DAGs from there on as a node that never stopped: same leaders, certificates, scores, leader changes, times and seeds, none skipped and none twice, and the stored chain is gapless with each output naming its predecessor.""",
["crash_points", "histories"], "a crash at every certificate of a delivery order, seen or not by consensus, with 0 to 3 unsaved commits, alone and followed by a second crash, over DAGs with skipped leaders, garbage collection and a leader change",
"Tests restart once, at a quiet moment. What recovery forgets only shows at particular distances between the crash, the commit and the end of a schedule.",
[PR+"consensus/state.rs", PR+"consensus/leader_schedule.rs", PR+"consensus/bullshark.rs", "crates/storage/src/consensus.rs"],
[("Consensus::spawn / ConsensusState::new_from_store", PR+"consensus/state.rs"), ("LeaderSchedule::from_store", PR+"consensus/leader_schedule.rs"), ("ConsensusChain", "crates/storage/src/consensus.rs")],
["commits received on the sequence channel; headers read back from the consensus chain"],
"exhaustive crash-point enumeration of the real consensus task over its real stores, compared with an independent statement of the commit rule",
"Saved commits are taken to survive the crash; torn writes of the chain's own files are S-properties.")
P("C04", "h-cons", "A member votes once per author and round, only for good headers, and remembers",
"""Asked by a header's author, a member answers with its vote exactly when the header is of the current epoch, by a committee member, of a round above zero and within the garbage-collection depth of what is committed, not from the far future,
executed on a block the member has, with the author's own seed signature over this epoch, round and previous epoch record, with batches the member's worker can get, and with certified parents of the previous round by distinct members holding a
quorum, none newer than the header. For one author it never votes for two headers of one round nor for an earlier round than it has voted for, whatever requests run at once and however often it stops and restarts; a vote leaves the member only once it
is on disk. A request with unknown parents is answered with their list, and parents sent along are taken only from the member they were asked of and only if their signatures verify, whatever state they claim.""",
["schedules", "crash_points", "inputs"], "every interleaving of requests for two headers per round over two rounds, with a stop at every point and every outcome of the writes not yet on disk; every combination of deviations from a good request; every kind of supplied parent",
"Tests ask for one vote at a time in one process. Two votes in one round, given on either side of an await or of a crash, are all that is needed to certify two headers.",
[PR+"network/handler.rs", PR+"state_sync/header_validator.rs", PR+"state_sync/mod.rs", "crates/storage/src/stores/vote_digest_store.rs", "crates/types/src/primary/header.rs"],
[("RequestHandler::vote / vote_inner", PR+"network/handler.rs"), ("check_for_missing_parents / try_accept_unknown_certs", PR+"network/handler.rs"), ("HeaderValidator", PR+"state_sync/header_validator.rs"), ("write_vote", "crates/storage/src/stores/vote_digest_store.rs")],
["the answers to requests; the vote on record after each recovery"],
"stateless exploration: the request handler's futures are polled by hand in every order over a database that can lose every unsynced suffix of commits",
"Complete for the stated requests, one crash and (thorough) one timeout.",
state=[("Votes table", "last vote per author", "crates/storage/src/stores/vote_digest_store.rs"), ("auth_last_vote", "last request per author", PR+"network/handler.rs")])
P("C06", "h-cons", "Certificates reach consensus verified, once, and after all their parents",
"""Whatever order certificates arrive in, singly or in fetched collections and however often, a certificate is stored and handed to consensus exactly when all its parents have been, or when its parents are no longer needed because they are at or
below the garbage-collection round; the rest wait, their missing ancestors are asked for, and they follow as soon as the last parent arrives or is collected. Nothing is handed over before its parents, twice in sequence, unverified, or without a quorum's
signatures over its own header by members of this epoch's committee; one below the collection round or too far ahead of what is committed is refused. A fetched collection with a bad certificate that no verified one
in it vouches for is refused whole. What is stored is closed under parents after every single write. The proposer is offered the certificates of a round as parents exactly from a quorum on, also after a restart.""",
["schedules", "crash_points", "inputs"], "every order of delivery of every DAG of five (thorough: six) certificates in 9 to 14 shapes, with commits at every place; a stop after every write; every part of a DAG as a fetched collection with every single corruption; every round against every committed round",
"Tests deliver a few certificates in a few orders. One certificate forwarded ahead of a parent ends the node, and one that stays pending stalls it.",
[PR+"state_sync/cert_manager.rs", PR+"state_sync/pending_cert_manager.rs", PR+"state_sync/cert_validator.rs", PR+"aggregators/certificates.rs", PR+"state_sync/gc.rs", "crates/storage/src/stores/certificate_store.rs", "crates/types/src/primary/certificate.rs"],
[("CertificateManager", PR+"state_sync/cert_manager.rs"), ("PendingCertificateManager", PR+"state_sync/pending_cert_manager.rs"), ("CertificateValidator", PR+"state_sync/cert_validator.rs"), ("CertificatesAggregator", PR+"aggregators/certificates.rs")],
["certificates, parents and fetch requests on the consensus bus; the certificate store"],
"explicit-state exploration of the real synchronizer task over every delivery order, compared step by step with a set-based oracle",
"A certificate inside a fetched collection that another one there names is vouched for by that one, by design: its own signatures are then not checked, except every fiftieth round.",
state=[("PendingCertificateManager", "certificates waiting for parents", PR+"state_sync/pending_cert_manager.rs"), ("CertificatesAggregatorManager", "authors seen per round", PR+"aggregators/certificates.rs")])
P("C05", "h-cons", "A header becomes a certificate exactly when a quorum has truly voted for it",
"""Asked to propose a header, a node asks every other member for its vote and makes a certificate exactly when members holding a quorum, itself among them, have each voted for that header: only a vote for this header, author, round and epoch, signed by the
member that was asked, counts, and each member counts once. No answer, error or silence of other peers prevents, hastens or forges it. A peer that misses parents gets exactly those of this header's parents and is asked again; so is one after a passing error.
The certificate verifies, names only voters, is stored and handed to consensus, and is published once and only after its record is safe on disk. If the node stops at any moment and is asked to propose the header again, it publishes the recorded certificate
and never a different one. A later proposal ends the wait for an earlier one and is itself certified whatever still arrives for the earlier.""",
["histories", "crash_points", "inputs"], "every combination of 15 kinds of answer by each of three peers in every order; a stop at every write, followed by each set of voters; a second proposal at every point of the first; every sequence of good and bad votes up to a length; committees of two to seven",
"Tests answer a request or two the same way from every peer. A certificate with a vote too few, or two certificates for one header, breaks every node that receives it.",
[PR+"certifier.rs", PR+"aggregators/votes.rs", PR+"network/mod.rs", "crates/types/src/primary/certificate.rs"],
[("Certifier::propose_header / request_vote", PR+"certifier.rs"), ("spawn_header_proposal", PR+"certifier.rs"), ("VotesAggregator::append", PR+"aggregators/votes.rs")],
["vote requests and published certificates on the network; the certificate store and the record of proposed certificates"],
"exhaustive exploration of the real certifier task: every answer of every peer in every order, and every crash point, over a database that can lose every unsynced suffix of commits",
"Complete within the stated answers.",
state=[("VotesAggregator", "weight and voters", PR+"aggregators/votes.rs"), ("ProposedCertificates", "certificates of own headers", "crates/storage/src/lib.rs")])
P("C07", "h-cons", "A node proposes one header per round, safe on disk first, losing no batch",
"""In each epoch at most one header per round ever leaves a node, through any number of restarts: each is on disk as the last proposed before it leaves, and after a restart that same header leaves again rather than another. A new header is for the round after
its parents, which are all the certificates of a quorum offered for that round (the genesis at the start), and rounds never go back. Every batch acknowledged to a worker is in the next header with room for it, in order, once; if a later own header is committed
without an earlier one, the earlier one's batches go first into the next. A header leaves as soon as the parents let the node go on and enough batches wait or the shortest delay is over (none before leading a round or when catching up), never before, and in any case when
the longest delay is over; without parents, the last one is sent again. Parents let it go on when they hold the leader's certificate at an even round, and at an odd round when they decide the leader's votes, there is no leader, or it leads next.
Author, epoch, seed signature, execution block and time are right.""",
["histories", "crash_points", "inputs"], "every sequence of four or five (six) of 13 actions, from four starting points: batches, parents with and without leader or votes, late or from further on, time, commits, crashes that lose or keep what is not yet safe, and a disk that stalls, for members leading different rounds",
"Tests propose one or two headers. A second header for a round after a crash is an equivocation, and a batch lost between headers is a lost transaction.",
[PR+"proposer.rs", "crates/storage/src/stores/proposer_store.rs", "crates/types/src/primary/header.rs"],
[("Proposer::run / propose_next_header / process_parents / process_committed_headers", PR+"proposer.rs"), ("store_and_send_header", PR+"proposer.rs"), ("LastProposed", "crates/storage/src/stores/proposer_store.rs")],
["headers on the consensus bus; the stored last proposed header; acknowledgements to workers"],
"exhaustive exploration of the real proposer task under a virtual clock and a database that can stall or lose every unsynced suffix of commits, compared step by step with an independent statement of the rules",
"The shortest delay is not enforced for the header after one that was itself hurried (leading, catching up, starting); batches acknowledged before a crash are the worker's to send again.",
state=[("Proposer", "round, parents, batches, proposed headers", PR+"proposer.rs"), ("LastProposed", "last header", "crates/storage/src/stores/proposer_store.rs")])

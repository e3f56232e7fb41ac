//! C04: votes.
use crate::{
    crashdb::CrashDb,
    env::{committee, digests, id, keys, pk, record, Manual, Node, World, T0},
};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    sync::Arc,
    time::Duration,
};
use tn_network_types::{PrimaryToWorkerClient, WorkerSynchronizeMessage};
use tn_primary::network::PrimaryResponse;
use tn_storage::{consensus::ConsensusChain, CertificateStore, VoteDigestStore};
use tn_types::{
    Batch, BlockHash, BlockNumHash, Certificate, Database, EpochDigest, EpochSeedMessage, Hash as _, Header, HeaderBuilder, HeaderDigest,
    SignatureVerificationState, Vote, B256,
};
use vlib::{
    explore::{dfs, seq_count, seq_of},
    par, Run, Scratch,
};

/// A worker that finds the batches it is asked for, or does not.
struct Worker;
const MISSING: u8 = 0xbb;
#[async_trait::async_trait]
impl PrimaryToWorkerClient for Worker {
    async fn synchronize(&self, m: WorkerSynchronizeMessage) -> eyre::Result<()> {
        if m.digests.iter().any(|d| d[0] == MISSING) {
            eyre::bail!("no such batch");
        }
        Ok(())
    }
    async fn fetch_batches(&self, _: BTreeSet<BlockHash>) -> eyre::Result<HashMap<BlockHash, Batch>> {
        Ok(HashMap::new())
    }
}

fn start(w: &World, db: CrashDb, chain: &ConsensusChain) -> Node {
    start_with(w, db, chain, 50)
}
fn start_with(w: &World, db: CrashDb, chain: &ConsensusChain, gc_depth: u32) -> Node {
    let node = Node::start(w, db, chain, |p, _| p.gc_depth = gc_depth);
    node.config.local_network().set_primary_to_worker_local_handler(Arc::new(Worker));
    node
}

/// A request for a vote, or a certificate that arrives by itself.
enum Ask {
    Vote { peer: usize, header: Header, parents: Vec<Certificate> },
    Cert(Certificate),
}

struct Plan {
    w: World,
    base: CrashDb,
    asks: Vec<(&'static str, Ask)>,
}

fn plan(salt: u64) -> Plan {
    let w = World::new(4, salt);
    let one = w.round(1, &w.genesis);
    let base = CrashDb::default();
    base.write_all([&one[0], &one[2]]).unwrap();
    base.sync_persist();
    // member 1 asks for votes on two different headers of each round
    let mut other = w.genesis.clone();
    other.pop_first();
    let two = digests([&one[0], &one[2], &one[3]]);
    let a1 = w.header(1, 1, w.genesis.clone());
    let b1 = w.header(1, 1, other);
    let a2 = w.header(1, 2, two.clone());
    let b2 = HeaderBuilder::from_header(&a2).created_at(a2.created_at() + 1).build();
    let vote = |header: &Header, parents: Vec<Certificate>| Ask::Vote { peer: 1, header: header.clone(), parents };
    let asks = vec![
        ("1a", vote(&a1, vec![])),
        ("1b", vote(&b1, vec![])),
        ("2a", vote(&a2, vec![])),
        ("2a with its parent", vote(&a2, vec![one[3].clone()])),
        ("2b", vote(&b2, vec![])),
        ("2b with its parent", vote(&b2, vec![one[3].clone()])),
        ("the parent arrives", Ask::Cert(one[3].clone())),
    ];
    Plan { w, base, asks }
}

/// Every vote ever given out.
#[derive(Default)]
struct Given(BTreeMap<(usize, u32), HeaderDigest>);
impl Given {
    fn check(&mut self, run: &Run, header: &Header, vote: &Vote, db: &CrashDb, replay: &str) {
        if vote.header_digest() != header.digest() || vote.round() != header.round() || vote.epoch() != header.epoch() || vote.origin() != header.author() || *vote.author() != id(0) {
            run.fail("other-vote", "the vote is not for the header asked about", replay);
        }
        let author = (0..8).find(|i| id(*i) == *header.author()).unwrap();
        if let Some((at, _)) = self.0.iter().rev().find(|((a, r), _)| *a == author && *r > header.round()) {
            run.fail("vote-behind", format!("voted for round {} after round {}", header.round(), at.1), replay);
        }
        let before = *self.0.entry((author, header.round())).or_insert(header.digest());
        if before != header.digest() {
            run.fail("equivocation", format!("voted for two headers of one author in round {}", header.round()), replay);
        }
        let kept = db.recovered(db.extent().0).read_vote_info(header.author()).unwrap();
        if !kept.is_some_and(|k| k.epoch == header.epoch() && k.round >= header.round() && (k.round > header.round() || HeaderDigest::from(k.vote_digest) == header.digest())) {
            run.fail("vote-lost", "a vote left the node before it was on disk", replay);
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Do {
    Start,
    Poll(usize),
    Crash(bool),
    Late,
}

fn schedules(run: &Run, p: &Plan, chain: &ConsensusChain, seq: &[usize], crashes: u32, late: u32) {
    dfs(|c| {
        let db = p.base.recovered(p.base.extent().1);
        let mut node = start(&p.w, db, chain);
        let mut active: Vec<(usize, Manual<Result<PrimaryResponse, String>>)> = vec![];
        let (mut next, mut crashes, mut late, mut given, mut log) = (0, crashes, late, Given::default(), vec![]);
        loop {
            let mut opts = vec![];
            opts.extend(active.iter().enumerate().filter(|(_, (_, m))| m.ready()).map(|(i, _)| Do::Poll(i)));
            if next < seq.len() {
                opts.push(Do::Start);
                if crashes > 0 && !log.is_empty() {
                    opts.push(Do::Crash(false));
                    if node.db.extent().0 < node.db.extent().1 {
                        opts.push(Do::Crash(true));
                    }
                }
            }
            if opts.is_empty() {
                break;
            }
            if late > 0 && active.iter().any(|(_, m)| !m.done()) {
                opts.push(Do::Late);
            }
            let what = opts[c.choose(opts.len())];
            run.step(1);
            match what {
                Do::Start => {
                    let i = seq[next];
                    next += 1;
                    log.push(format!("ask {}", p.asks[i].0));
                    let handler = node.handler.clone();
                    let sync = node.sync.clone();
                    let _in = node.rt.enter();
                    active.push((
                        i,
                        match &p.asks[i].1 {
                            Ask::Vote { peer, header, parents } => {
                                let (peer, header, parents) = (pk(*peer), header.clone(), parents.clone());
                                Manual::new(async move { handler.vote(peer, header, parents).await.map_err(|e| format!("{e}")) })
                            }
                            Ask::Cert(cert) => {
                                let mut cert = cert.clone();
                                Manual::new(async move { Err(format!("{:?}", sync.process_peer_certificate(&mut cert).await)) })
                            }
                        },
                    ));
                }
                Do::Poll(i) => {
                    let got = active[i].1.poll(&node.rt);
                    node.settle();
                    log.push(format!("run {}", p.asks[active[i].0].0));
                    if let (Some(r), Ask::Vote { header, .. }) = (got, &p.asks[active[i].0].1) {
                        match r {
                            Ok(PrimaryResponse::Vote(v)) => {
                                given.check(run, header, &v, &node.db, &log.join(", "));
                                run.outcome("vote");
                                log.push("vote".into());
                            }
                            Ok(PrimaryResponse::MissingParents(_)) => run.outcome("missing parents"),
                            Ok(_) => run.outcome("refused"),
                            Err(e) => run.outcome(format!("refused: {}", e.split(&[':', '{', '('][..]).next().unwrap_or_default())),
                        }
                    }
                }
                Do::Crash(all) => {
                    crashes -= 1;
                    active.clear();
                    let db = node.crash();
                    let (sure, made) = db.extent();
                    log.push(format!("stop, {} of {made} commits kept", if all { made } else { sure }));
                    node = start(&p.w, db.recovered(if all { made } else { sure }), chain);
                }
                Do::Late => {
                    late -= 1;
                    log.push("requests time out".into());
                    node.advance(Duration::from_secs(3600));
                }
            }
            run.state(&(&log, &given.0));
        }
        active.clear();
        node.crash();
        run.trace();
        !run.stop()
    });
}

/// One way in which a request may differ from a good one; `good` says whether a vote is still due.
struct Twist {
    name: &'static str,
    part: usize,
    good: bool,
    f: fn(&mut Trial),
}
struct Trial {
    peer: usize,
    author: usize,
    epoch: u32,
    round: u32,
    parents: Vec<Certificate>,
    extra_parent: Option<HeaderDigest>,
    created_at: u64,
    payload: Vec<(BlockHash, u16)>,
    exec: BlockNumHash,
    seed: (usize, u32, u32, EpochDigest),
    committed: u32,
    gc_depth: u32,
    salt: u64,
    kit: Arc<Kit>,
}
struct Kit {
    one: Vec<Certificate>,
    two: Vec<Certificate>,
    /// a second certificate of member 3 in round 1
    twin: Certificate,
    /// a certificate of member 3 in round 1 of the next epoch
    later: Certificate,
}

fn twists() -> Vec<Twist> {
    fn t(part: usize, name: &'static str, good: bool, f: fn(&mut Trial)) -> Twist {
        Twist { name, part, good, f }
    }
    vec![
        t(0, "sent by another member", false, |x| x.peer = 2),
        t(0, "sent by an outsider", false, |x| x.peer = 5),
        t(0, "author is an outsider", false, |x| {
            x.author = 5;
            x.peer = 5;
            x.seed.0 = 5;
        }),
        t(1, "next epoch", false, |x| {
            x.epoch = 1;
            x.seed.1 = 1;
        }),
        t(2, "round 0", false, |x| {
            x.round = 0;
            x.seed.2 = 0;
        }),
        t(2, "round 1", false, |x| {
            x.round = 1;
            x.seed.2 = 1;
        }),
        t(2, "round 3", false, |x| {
            x.round = 3;
            x.seed.2 = 3;
        }),
        t(3, "three parents", true, |x| {
            x.parents.truncate(3);
        }),
        t(3, "two parents", false, |x| x.parents.truncate(2)),
        t(3, "no parents", false, |x| x.parents.clear()),
        t(3, "two parents of one author", false, |x| {
            x.parents.truncate(2);
            x.parents.push(x.kit.one[3].clone());
            x.parents.push(x.kit.twin.clone());
        }),
        t(3, "a parent of one author in place of another's", false, |x| {
            x.parents = vec![x.kit.one[0].clone(), x.kit.one[3].clone(), x.kit.twin.clone()];
        }),
        t(3, "a parent of the header's own round", false, |x| {
            x.parents.pop();
            x.parents.push(x.kit.two[3].clone());
        }),
        t(3, "only parents of the header's own round", false, |x| x.parents = x.kit.two.clone()),
        t(3, "five parents", false, |x| x.parents.push(x.kit.twin.clone())),
        t(3, "an unknown parent", false, |x| {
            x.parents.pop();
            x.extra_parent = Some(HeaderDigest::new([7; 32]));
        }),
        t(4, "as old as its parents", true, |x| x.created_at = T0 + 1000 * x.salt + 1),
        t(4, "older than its parents", false, |x| x.created_at = T0 + 1000 * x.salt),
        t(4, "older than one parent", false, |x| {
            x.created_at = T0 + 1000 * x.salt;
        }),
        t(4, "from the far future", false, |x| x.created_at = 1 << 40),
        t(5, "a batch", true, |x| x.payload.push((B256::repeat_byte(1), 0))),
        t(5, "a batch that cannot be had", false, |x| x.payload.push((B256::repeat_byte(MISSING), 0))),
        t(5, "two batches, one cannot be had", false, |x| x.payload.extend([(B256::repeat_byte(1), 0), (B256::repeat_byte(MISSING), 0)])),
        t(5, "a batch of an unknown worker", false, |x| x.payload.push((B256::repeat_byte(1), 9))),
        t(6, "a block this node did not produce", false, |x| x.exec = BlockNumHash::new(0, B256::repeat_byte(9))),
        t(6, "a block this node has not reached", false, |x| x.exec = BlockNumHash::new(4, B256::repeat_byte(9))),
        t(7, "another member's seed", false, |x| x.seed.0 = 2),
        t(7, "another round's seed", false, |x| x.seed.2 += 1),
        t(7, "another epoch's seed", false, |x| x.seed.1 += 1),
        t(7, "a seed over another record", false, |x| x.seed.3 = EpochDigest::default()),
        t(3, "a parent of another epoch", false, |x| {
            x.parents.pop();
            x.parents.push(x.kit.later.clone());
        }),
        t(8, "collection depth past its round", true, |x| {
            x.gc_depth = 1;
            x.committed = 1;
        }),
        t(8, "out of reach of what is committed", false, |x| x.gc_depth = 1),
        t(8, "committed up to its round", true, |x| x.committed = 2),
        t(8, "committed past its round", false, |x| x.committed = 3),
    ]
}

fn trial(run: &Run, w: &World, kit: &Arc<Kit>, base: &CrashDb, chain: &ConsensusChain, chosen: &[&Twist]) {
    let mut x = Trial {
        peer: 1,
        author: 1,
        epoch: 0,
        round: 2,
        parents: kit.one.clone(),
        extra_parent: None,
        created_at: T0 + 1000 * w.salt + 2,
        payload: vec![],
        exec: BlockNumHash::default(),
        seed: (1, 0, 2, record()),
        committed: 0,
        gc_depth: 50,
        salt: w.salt,
        kit: kit.clone(),
    };
    for t in chosen {
        (t.f)(&mut x);
    }
    let mut parents = digests(&x.parents);
    parents.extend(x.extra_parent);
    let header = HeaderBuilder::default()
        .author(id(x.author))
        .round(x.round)
        .epoch(x.epoch)
        .created_at(x.created_at)
        .parents(parents)
        .payload(x.payload.into_iter().collect())
        .latest_execution_block(x.exec)
        .seed_signature(EpochSeedMessage::new(x.seed.1, x.seed.2, x.seed.3).sign(&keys()[x.seed.0]))
        .build();
    let good = chosen.iter().all(|t| t.good);
    let names: Vec<_> = chosen.iter().map(|t| t.name).collect();
    let db = base.recovered(base.extent().1);
    let node = start_with(w, db, chain, x.gc_depth);
    node.bus.app().committed_round_updates().send_replace(x.committed);
    node.settle();
    let mut given = Given::default();
    // asked twice: an answer must not open the way for the next request
    for round in 0..2 {
        let handler = node.handler.clone();
        let (peer, h) = (pk(x.peer), header.clone());
        let _in = node.rt.enter();
        let mut m = Manual::new(async move { handler.vote(peer, h, vec![]).await });
        drop(_in);
        let mut got = None;
        while got.is_none() && m.ready() {
            got = m.poll(&node.rt);
            node.settle();
            run.step(1);
        }
        let replay = format!("request {round}, {names:?}: {got:?}");
        match got {
            Some(Ok(PrimaryResponse::Vote(v))) => {
                run.outcome("vote");
                if !good {
                    run.fail("bad-voted", format!("voted for a header that is {names:?}"), replay.clone());
                }
                given.check(run, &header, &v, &node.db, &replay);
            }
            other => {
                run.outcome("no vote");
                if good {
                    run.fail("good-refused", format!("no vote for a good header {names:?}: {other:?}"), replay);
                }
                if !good && node.db.read_vote_info(header.author()).unwrap().is_some() {
                    run.fail("refused-recorded", "a refused header was recorded as voted for", names.join(", "));
                }
            }
        }
    }
    run.state(&names);
    run.trace();
    node.crash();
}

/// Parents sent along with a request are taken only when they are the ones asked for and are certified.
fn supplied(run: &Run, w: &World, chain: &ConsensusChain) {
    let one = w.round(1, &w.genesis);
    let forged = {
        let h = w.header(3, 1, w.genesis.clone());
        let votes = (0..3).map(|i| (id(i), *Vote::new(&w.header(2, 1, w.genesis.clone()), id(i), &keys()[i]).signature())).collect();
        Certificate::new_unverified(&w.committee, h, votes).unwrap()
    };
    let few = {
        let h = w.header(3, 1, w.genesis.clone());
        let votes = (0..2).map(|i| (id(i), *Vote::new(&h, id(i), &keys()[i]).signature())).collect();
        let mut c = Certificate::new_unsigned_for_test(&w.committee, h, votes).unwrap();
        c.set_signature_verification_state(SignatureVerificationState::Unverified(c.aggregated_signature().unwrap()));
        c
    };
    let marked = {
        let mut c = forged.clone();
        c.set_signature_verification_state(SignatureVerificationState::VerifiedDirectly(c.aggregated_signature().unwrap()));
        c
    };
    let indirect = {
        let mut c = few.clone();
        c.set_signature_verification_state(SignatureVerificationState::VerifiedIndirectly(c.aggregated_signature().unwrap()));
        c
    };
    let genesis = {
        let mut c = forged.clone();
        c.set_signature_verification_state(SignatureVerificationState::Genesis);
        c
    };
    let kinds: Vec<(&str, Certificate, bool)> = vec![
        ("certified", one[3].clone(), true),
        ("signatures of another header", forged, false),
        ("two signatures", few, false),
        ("forged and marked as verified", marked, false),
        ("two signatures and marked as verified", indirect, false),
        ("forged and marked as genesis", genesis, false),
    ];
    // asked of its sender, of nobody, or of another member
    for asked_of in [Some(1), None, Some(2)] {
        let asked_first = asked_of == Some(1);
        for (name, cert, good) in &kinds {
            for extra in [None, Some(&one[1])] {
                let base = CrashDb::default();
                base.write_all([&one[0], &one[2]]).unwrap();
                base.sync_persist();
                let node = start(w, base, chain);
                let header = w.header(1, 2, digests([&one[0], &one[2], &one[3]]));
                let mut asks = vec![];
                if let Some(of) = asked_of {
                    let h = if of == 1 { header.clone() } else { w.header(of, 2, header.parents().clone()) };
                    asks.push((of, h, vec![]));
                }
                asks.push((1, header, [vec![cert.clone()], extra.cloned().into_iter().collect()].concat()));
                let replay = format!("{name}, asked of: {asked_of:?}, extra: {}", extra.is_some());
                let mut last = None;
                for (peer, h, parents) in asks {
                    let handler = node.handler.clone();
                    let _in = node.rt.enter();
                    let mut m = Manual::new(async move { handler.vote(pk(peer), h, parents).await });
                    drop(_in);
                    last = None;
                    while last.is_none() && m.ready() {
                        last = m.poll(&node.rt);
                        node.settle();
                        run.step(1);
                    }
                }
                let voted = matches!(last, Some(Ok(PrimaryResponse::Vote(_))));
                let stored = node.db.contains(&one[3].digest()).unwrap();
                if voted && !stored {
                    run.fail("parent-unstored", "voted for a header with an unknown parent", replay.clone());
                }
                if stored && (!good || !asked_first) {
                    run.fail("parent-taken", format!("a parent sent along was stored: {name}"), replay.clone());
                }
                if *good && asked_first && extra.is_none() && !voted {
                    run.fail("parent-refused", format!("no vote although the missing parent was supplied: {last:?}"), replay.clone());
                }
                if extra.is_some() && node.db.contains(&one[1].digest()).unwrap() {
                    run.fail("parent-extra", "a certificate nobody asked for was stored", replay.clone());
                }
                run.outcome(if voted { "supplied: vote" } else { "supplied: no vote" });
                run.state(&replay);
                run.trace();
                node.crash();
            }
        }
    }
}

pub fn c04(run: &Run) {
    run.assume("A crash keeps every commit that a finished persist covers and either none or all of the later ones.");
    let scratch = Scratch::new();
    let chain = |t: usize| {
        let dir = scratch.path().join(format!("c{t}"));
        std::fs::create_dir_all(&dir).unwrap();
        ConsensusChain::new(dir, committee(4)).unwrap()
    };
    let threads = 16;
    // what is asked
    let twists = twists();
    let depth = run.pick(2, 3);
    run.bound("requests", format!("a good request with every combination of up to {depth} of {} deviations", twists.len()));
    let mut combos: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..twists.len() {
        combos.push(vec![i]);
        for j in i + 1..twists.len() {
            if twists[i].part == twists[j].part {
                continue;
            }
            combos.push(vec![i, j]);
            if depth > 2 {
                combos.extend((j + 1..twists.len()).filter(|k| twists[*k].part != twists[j].part).map(|k| vec![i, j, k]));
            }
        }
    }
    // when it is asked
    let len = run.pick(3, 4);
    let (crashes, late) = (1, run.pick(0, 1));
    let probe = plan(0);
    let asks = probe.asks.len() as u64;
    run.bound("schedules", format!("every sequence of {len} of {asks} requests over two rounds with two headers each and every order in which they run between their suspensions, with {crashes} stop of the node and {late} timeout at every point"));
    let total = seq_count(asks, len);
    let next = std::sync::atomic::AtomicU64::new(0);
    let nextc = std::sync::atomic::AtomicUsize::new(0);
    par(run, threads, |t| {
        let chain = {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            let _in = rt.enter();
            chain(t)
        };
        let w = World::new(4, 1 + 2 * t as u64);
        let one = w.round(1, &w.genesis);
        let two = w.round(2, &digests(&one));
        let twin = w.certify(&HeaderBuilder::from_header(one[3].header()).payload([(B256::repeat_byte(3), 0)].into_iter().collect()).build(), &[0, 1, 2]);
        let base = CrashDb::default();
        let later = w.certify(&HeaderBuilder::from_header(one[3].header()).epoch(1).build(), &[0, 1, 2]);
        base.write_all(one.iter().chain([&twin, &later])).unwrap();
        base.sync_persist();
        // round 2 is known except for the certificate of member 1, which is the one being voted on
        base.write_all([&two[0], &two[2], &two[3]]).unwrap();
        base.sync_persist();
        let kit = Arc::new(Kit { one, two, twin, later });
        if t == 0 {
            supplied(run, &World::new(4, 500), &chain);
        }
        loop {
            let n = nextc.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            if n >= combos.len() || run.stop() {
                break;
            }
            let chosen: Vec<&Twist> = combos[n].iter().map(|i| &twists[*i]).collect();
            trial(run, &w, &kit, &base, &chain, &chosen);
        }
        let p = plan(2 + 2 * t as u64);
        loop {
            let n = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            if n >= total || run.stop() {
                break;
            }
            let seq = seq_of(n, asks, len);
            if seq.iter().all(|i| matches!(p.asks[*i].1, Ask::Cert(_))) {
                continue;
            }
            schedules(run, &p, &chain, &seq, crashes, late);
        }
    });
}

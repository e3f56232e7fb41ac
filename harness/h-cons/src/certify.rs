//! C05: from votes to a certificate.
use crate::{
    crashdb::CrashDb,
    env::{committee, digests, id, keys, pk, Node, World},
};
use std::{collections::BTreeSet, sync::atomic::{AtomicUsize, Ordering::SeqCst}, time::Duration};
use tn_network_libp2p::{
    error::NetworkError,
    types::{MessageId, NetworkCommand, NetworkResponseMessage, NetworkResponseSender},
};
use tn_primary::{
    aggregators::VotesAggregator,
    certifier::Certifier,
    network::{message::{PrimaryGossip, PrimaryRPCError}, PrimaryNetworkHandle, PrimaryRequest, PrimaryResponse},
};
use tn_storage::{consensus::ConsensusChain, tables::ProposedCertificates, CertificateStore};
use tn_types::{
    try_decode, Certificate, CommitteeBuilder, Database, Hash as _, Header, HeaderBuilder, HeaderDigest, TnReceiver, TnSender as _, Vote, B256,
};
use vlib::{
    explore::{permutations, seq_of, subsets, bits},
    par, Run, Scratch,
};

type Commands = tokio::sync::mpsc::Receiver<NetworkCommand<PrimaryRequest, PrimaryResponse>>;
struct Asked {
    peer: usize,
    header: Header,
    parents: Vec<Certificate>,
    reply: NetworkResponseSender<PrimaryResponse>,
}
struct Live {
    node: Node,
    net: Commands,
    asked: Vec<Asked>,
    published: Vec<Certificate>,
    accepted: Box<dyn FnMut() -> Vec<Certificate>>,
}
impl Live {
    fn start(w: &World, db: CrashDb, chain: &ConsensusChain) -> Self {
        let mut accepted: Option<Box<dyn FnMut() -> Vec<Certificate>>> = None;
        let node = Node::start_with(w, db, chain, |_, _| {}, |bus| {
            let mut r = bus.subscribe_new_certificates();
            accepted = Some(Box::new(move || std::iter::from_fn(|| r.try_recv().ok()).collect()));
        });
        let (tx, net) = tokio::sync::mpsc::channel(1000);
        {
            let _in = node.rt.enter();
            Certifier::spawn(node.config.clone(), node.bus.clone(), node.sync.clone(), PrimaryNetworkHandle::new_for_test(tx), &node.tasks);
        }
        let mut l = Self { node, net, asked: vec![], published: vec![], accepted: accepted.unwrap() };
        l.settle();
        l
    }
    /// Lets the node run and takes what it sends.
    fn settle(&mut self) {
        loop {
            self.node.settle();
            let mut any = false;
            while let Ok(c) = self.net.try_recv() {
                any = true;
                match c {
                    NetworkCommand::SendRequest { peer, request: PrimaryRequest::Vote { header, parents }, reply } => {
                        let peer = (0..8).find(|i| pk(*i) == peer).unwrap();
                        self.asked.push(Asked { peer, header: (*header).clone(), parents, reply });
                    }
                    NetworkCommand::Publish { msg, reply, .. } => {
                        if let Ok(PrimaryGossip::Certificate(c)) = try_decode::<PrimaryGossip>(&msg) {
                            self.published.push(*c);
                        }
                        let _ = reply.send(Ok(MessageId::new(b"m")));
                    }
                    _ => (),
                }
            }
            if !any {
                break;
            }
        }
    }
    fn advance(&mut self, ms: u64) {
        self.node.advance(Duration::from_millis(ms));
        self.settle();
    }
    fn propose(&mut self, h: &Header) {
        let (bus, h) = (self.node.bus.clone(), h.clone());
        self.node.rt.block_on(async move { bus.headers().send(h).await }).unwrap();
        self.settle();
    }
    fn take(&mut self, peer: usize, header: &Header) -> Option<Asked> {
        let i = self.asked.iter().position(|a| a.peer == peer && a.header.digest() == header.digest() && !a.reply.is_closed())?;
        Some(self.asked.remove(i))
    }
    fn reply(&mut self, a: Asked, r: Result<PrimaryResponse, NetworkError>) {
        let _ = a.reply.send(r.map(|result| NetworkResponseMessage { peer: pk(a.peer), result }));
        self.settle();
    }
    fn vote(&mut self, peer: usize, h: &Header) {
        if let Some(a) = self.take(peer, h) {
            self.reply(a, Ok(PrimaryResponse::Vote(Vote::new(h, id(peer), &keys()[peer]))));
        }
    }
}

/// What a peer answers, and whether its vote counts in the end.
const ANSWERS: [(&str, bool); 15] = [
    ("its vote", true),
    ("a vote with another's signature", false),
    ("a vote signed over another header", false),
    ("a vote for another header", false),
    ("another member's vote", false),
    ("a vote for another round", false),
    ("a vote for another epoch", false),
    ("a vote for another author", false),
    ("that a parent is missing", true),
    ("that another certificate is missing", false),
    ("that an unknown one is missing", false),
    ("an error", false),
    ("an error that may pass", true),
    ("a broken connection", true),
    ("nothing", false),
];

fn answer(run: &Run, l: &mut Live, w: &World, h: &Header, peer: usize, kind: usize, parents: &[Certificate]) {
    let Some(a) = l.take(peer, h) else { return };
    let own = Vote::new(h, id(peer), &keys()[peer]);
    let next = peer % 3 + 1;
    let other = HeaderBuilder::from_header(h).payload([(B256::repeat_byte(9), 0)].into_iter().collect()).build();
    let good = PrimaryResponse::Vote(own.clone());
    run.step(1);
    match kind {
        0 => l.reply(a, Ok(good)),
        1 => l.reply(a, Ok(PrimaryResponse::Vote(Vote { signature: *Vote::new(h, id(next), &keys()[next]).signature(), ..own }))),
        2 => l.reply(a, Ok(PrimaryResponse::Vote(Vote { signature: *Vote::new(&other, id(peer), &keys()[peer]).signature(), ..own }))),
        3 => l.reply(a, Ok(PrimaryResponse::Vote(Vote::new(&other, id(peer), &keys()[peer])))),
        4 => l.reply(a, Ok(PrimaryResponse::Vote(Vote::new(h, id(next), &keys()[next])))),
        5 => l.reply(a, Ok(PrimaryResponse::Vote(Vote { round: own.round + 1, ..own }))),
        6 => l.reply(a, Ok(PrimaryResponse::Vote(Vote { epoch: own.epoch + 1, ..own }))),
        7 => l.reply(a, Ok(PrimaryResponse::Vote(Vote { origin: id(next), ..own }))),
        8 => {
            let asked = [parents[0].digest(), parents[2].digest()];
            l.reply(a, Ok(PrimaryResponse::MissingParents(asked.to_vec())));
            l.advance(20_000);
            match l.take(peer, h) {
                Some(a) => {
                    if digests(&a.parents) != asked.into_iter().collect() {
                        run.fail("supplied", "the parents a peer misses are not sent along", format!("{:?}", a.parents));
                    }
                    l.reply(a, Ok(good));
                }
                None if l.published.is_empty() => run.fail("not-asked-again", "a peer that misses parents is not asked again", ""),
                None => (),
            }
        }
        9 | 10 => {
            l.reply(a, Ok(PrimaryResponse::MissingParents(vec![if kind == 9 { parents[3].digest() } else { HeaderDigest::new([4; 32]) }])));
            l.advance(20_000);
            if let Some(a) = l.take(peer, h) {
                run.fail("supplied-other", "a peer is sent certificates that are no parents of the header", format!("{:?}", a.parents));
            }
        }
        11 => l.reply(a, Ok(PrimaryResponse::Error(PrimaryRPCError("no".into())))),
        12 | 13 => {
            l.reply(a, if kind == 12 { Ok(PrimaryResponse::RecoverableError(PrimaryRPCError("soon".into()))) } else { Err(NetworkError::RedialAttempt) });
            l.advance(20_000);
            match l.take(peer, h) {
                Some(a) => l.reply(a, Ok(good)),
                None if l.published.is_empty() => run.fail("not-asked-again", format!("a peer is not asked again after {}", ANSWERS[kind].0), ""),
                None => (),
            }
        }
        _ => drop(a.reply_kept(w)),
    }
}
impl Asked {
    /// The request stays open without an answer.
    fn reply_kept(self, _: &World) {
        std::mem::forget(self.reply);
    }
}

/// A published certificate is for the header, verifies and is safe on disk.
fn sound(run: &Run, l: &Live, w: &World, h: &Header, c: &Certificate, voters: &BTreeSet<usize>, replay: &str) {
    let mut c = c.clone();
    if c.digest() != h.digest() {
        run.fail("other", "the certificate is not for the proposed header", replay);
    }
    if c.validate_received().and_then(|_| c.validate_and_verify(&w.committee)).is_err() {
        run.fail("invalid", "the published certificate does not verify", replay);
    }
    let signers: BTreeSet<usize> = c.signed_by(&w.committee.bls_keys()).1.iter().map(|k| (0..8).find(|i| pk(*i) == *k).unwrap()).collect();
    if !signers.is_subset(voters) || signers.len() < w.quorum() {
        run.fail("signers", format!("signed by {signers:?}, of the voters {voters:?}"), replay);
    }
    let kept = l.node.db.recovered(l.node.db.extent().0);
    if kept.get::<ProposedCertificates>(&h.digest()).unwrap().is_none() {
        run.fail("unsafe", "a certificate was published before it was safe on disk", replay);
    }
}

fn scenario(run: &Run, w: &World, chain: &ConsensusChain, base: &CrashDb, one: &[Certificate], h: &Header, kinds: &[usize], order: &[usize]) {
    let mut l = Live::start(w, base.recovered(base.extent().1), chain);
    l.published.clear();
    l.propose(h);
    let mut peers: Vec<usize> = l.asked.iter().map(|a| a.peer).collect();
    peers.sort();
    let replay = format!("{:?} in the order {order:?}", kinds.iter().map(|k| ANSWERS[*k].0).collect::<Vec<_>>());
    if peers != [1, 2, 3] {
        run.fail("asked", format!("asked {peers:?} for their votes"), replay.clone());
    }
    let mut voters: BTreeSet<usize> = [0].into_iter().collect();
    for i in order {
        answer(run, &mut l, w, h, i + 1, kinds[*i], one);
        if ANSWERS[kinds[*i]].1 {
            voters.insert(i + 1);
        }
        let due = voters.len() >= w.quorum();
        if l.published.len() != due as usize {
            run.fail("count", format!("{} certificates were published with {} votes", l.published.len(), voters.len()), replay.clone());
        }
        run.state(&(kinds, &voters, l.published.len()));
    }
    l.advance(3_600_000);
    let due = voters.len() >= w.quorum();
    if l.published.len() != due as usize || (l.accepted)().len() != due as usize || l.node.db.contains(&h.digest()).unwrap() != due {
        run.fail("once", "a certificate was not published and accepted exactly once", replay.clone());
    }
    for c in l.published.clone() {
        sound(run, &l, w, h, &c, &voters, &replay);
    }
    run.outcome(if due { "certified" } else { "not certified" });
    run.trace();
    l.node.crash();
}

/// A stop at every write, then the same header again.
fn restarts(run: &Run, w: &World, chain: &ConsensusChain, base: &CrashDb, h: &Header) {
    let mut l = Live::start(w, base.recovered(base.extent().1), chain);
    l.propose(h);
    for p in 1..4 {
        l.vote(p, h);
    }
    let db = l.node.crash();
    for n in base.extent().1..=db.extent().1 {
        for again in 1..4 {
            let mut l = Live::start(w, db.recovered(n), chain);
            let replay = format!("{n} of {} writes kept, voters from {again} on", db.extent().1);
            let known = l.node.db.get::<ProposedCertificates>(&h.digest()).unwrap();
            l.published.clear();
            l.propose(h);
            let mut voters: BTreeSet<usize> = [0].into_iter().collect();
            for p in again..4 {
                voters.insert(p);
                l.vote(p, h);
                run.step(1);
            }
            let due = known.is_some() || voters.len() >= w.quorum();
            if l.published.len() != due as usize {
                run.fail("again", format!("after a restart {} certificates were published", l.published.len()), replay.clone());
            }
            for c in l.published.clone() {
                sound(run, &l, w, h, &c, &(0..4).collect(), &replay);
                if known.as_ref().is_some_and(|k| k.signed_authorities() != c.signed_authorities()) {
                    run.fail("again-other", "after a restart another certificate was published", replay.clone());
                }
            }
            run.trace();
            l.node.crash();
        }
    }
}

/// A second header is proposed while the first is being voted on.
fn overtaken(run: &Run, w: &World, chain: &ConsensusChain, base: &CrashDb, a: &Header, b: &Header) {
    for votes in 0..3usize {
        for order in permutations(3) {
            for late in 0..4usize {
                let mut l = Live::start(w, base.recovered(base.extent().1), chain);
                l.published.clear();
                l.propose(a);
                for p in &order[..votes] {
                    l.vote(p + 1, a);
                }
                l.propose(b);
                let replay = format!("{votes} votes in the order {order:?} for the first, {late} after the second was proposed");
                for (n, p) in order.iter().enumerate() {
                    if n < late {
                        l.vote(p + 1, a);
                    }
                    l.vote(p + 1, b);
                    run.step(1);
                }
                l.advance(20_000);
                let first = l.published.iter().filter(|c| c.digest() == a.digest()).count();
                let second = l.published.iter().filter(|c| c.digest() == b.digest()).count();
                if second != 1 || first > 1 || (votes == 2 && first != 1) || first + second != l.published.len() {
                    run.fail("overtaken", format!("{first} certificates for the first header and {second} for the second"), replay.clone());
                }
                for c in l.published.clone() {
                    let h = if c.digest() == a.digest() { a } else { b };
                    sound(run, &l, w, h, &c, &(0..4).collect(), &replay);
                }
                run.trace();
                l.node.crash();
            }
        }
    }
}

/// The aggregator by itself.
fn counting(run: &Run, w: &World, h: &Header, seq: &[usize], votes: &[(usize, bool, Vote)]) {
    let mut agg = VotesAggregator::new();
    let (mut first, mut any, mut seen) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    for (n, v) in seq.iter().enumerate() {
        let (author, good, vote) = &votes[*v];
        let fresh = seen.insert(*author);
        let mut counted = false;
        if *good {
            counted = !any.contains(author);
            any.insert(*author);
            if fresh {
                first.insert(*author);
            }
        }
        run.step(1);
        let got = agg.append(vote.clone(), &w.committee, h);
        let replay = format!("{:?}", &seq[..=n]);
        match got {
            Ok(Some(mut c)) => {
                if any.len() < w.quorum() || !counted {
                    run.fail("early", format!("a certificate from {} votes", any.len()), replay.clone());
                }
                let signers = c.signed_by(&w.committee.bls_keys()).1;
                if signers.iter().any(|k| !any.iter().any(|i| pk(*i) == *k)) || c.digest() != h.digest() || c.validate_received().and_then(|_| c.validate_and_verify(&w.committee)).is_err() {
                    run.fail("false", "a certificate that does not verify or names others than the voters", replay);
                }
            }
            other => {
                if counted && fresh && first.len() >= w.quorum() {
                    run.fail("late", format!("no certificate from {} votes: {other:?}", first.len()), replay.clone());
                }
                if !*good && other.is_ok() {
                    run.fail("counted", "a bad vote was taken", replay);
                }
            }
        }
    }
    run.state(&(w.n, seq));
    run.trace();
}

fn sizes(run: &Run) {
    for n in 2..=7usize {
        let mut b = CommitteeBuilder::new(0);
        for i in 0..n {
            b.add_authority(pk(i), tn_types::Address::repeat_byte(i as u8 + 1));
        }
        let mut w = World::new(n, 1900 + n as u64);
        w.committee = b.build();
        let h = w.header(0, 1, w.genesis.clone());
        let votes: Vec<_> = (0..n).map(|i| (i, true, Vote::new(&h, id(i), &keys()[i]))).collect();
        for m in subsets(n) {
            counting(run, &w, &h, &bits(m), &votes);
        }
    }
}

pub fn c05(run: &Run) {
    run.assume("A crash keeps a prefix of the commits made that includes those a finished persist covers.");
    let scratch = Scratch::new();
    let chain = |t: usize| {
        let dir = scratch.path().join(format!("c{t}"));
        std::fs::create_dir_all(&dir).unwrap();
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let _in = rt.enter();
        ConsensusChain::new(dir, committee(4)).unwrap()
    };
    let kinds = ANSWERS.len();
    run.bound("answers", format!("every combination of {kinds} answers by each of 3 peers in every order"));
    let len = run.pick(4, 5);
    run.bound("votes", format!("every sequence of {len} of 8 votes by members and an outsider; every set of voters in committees of 2 to 7"));
    let combos = kinds * kinds * kinds * 6;
    let seqs = 8usize.pow(len as u32);
    let next = AtomicUsize::new(0);
    let per = 64;
    par(run, 16, |t| {
        let chain = chain(t);
        let w = World::new(4, 2000 + t as u64);
        let one = w.round(1, &w.genesis);
        let base = CrashDb::default();
        base.write_all([&one[1], &one[2], &one[3]]).unwrap();
        base.sync_persist();
        let two = digests([&one[1], &one[2], &one[3]]);
        let h = w.header(0, 2, two.clone());
        let second: Vec<_> = (1..4).map(|a| w.cert(a, 2, two.clone())).collect();
        base.write_all(&second).unwrap();
        base.sync_persist();
        let other = HeaderBuilder::from_header(&h).payload([(B256::repeat_byte(9), 0)].into_iter().collect()).build();
        let good = |i: usize| (i, true, Vote::new(&h, id(i), &keys()[i]));
        let bad = |i: usize| (i, false, Vote { signature: *Vote::new(&other, id(i), &keys()[i]).signature(), ..Vote::new(&h, id(i), &keys()[i]) });
        let votes = vec![good(0), good(1), good(2), good(3), bad(0), bad(1), (2, false, Vote::new(&other, id(2), &keys()[2])), (5, false, Vote::new(&h, id(5), &keys()[5]))];
        let perms = permutations(3);
        let supplied = [one[1].clone(), one[2].clone(), one[3].clone(), second[0].clone()];
        loop {
            let n = next.fetch_add(1, SeqCst);
            if run.stop() {
                break;
            }
            match n {
                0 => restarts(run, &w, &chain, &base, &h),
                1 => overtaken(run, &w, &chain, &base, &h, &w.header(0, 3, digests(&second))),
                2 => sizes(run),
                n if n < 3 + combos => {
                    let n = n - 3;
                    let k = seq_of((n / 6) as u64, kinds as u64, 3);
                    scenario(run, &w, &chain, &base, &supplied, &h, &k, &perms[n % 6]);
                }
                n if n < 3 + combos + seqs.div_ceil(per) => {
                    let first = (n - 3 - combos) * per;
                    for s in first..(first + per).min(seqs) {
                        let seq: Vec<usize> = (0..len).map(|d| s / 8usize.pow(d as u32) % 8).collect();
                        counting(run, &w, &h, &seq, &votes);
                    }
                }
                _ => break,
            }
        }
    });
}

//! W02: batches of other nodes, as they are reported, announced, asked for by the primary, or fetched for execution.
use crate::env::{batch, committee, digests, pass, pk, runtime, settle, Site, Told, Verdict, EPOCH, VERDICTS};
use futures::AsyncWriteExt as _;
use libp2p::{gossipsub::{IdentTopic, TopicHash}, PeerId};
use netlib::{Fate, Link};
use std::{collections::BTreeSet, time::Duration};
use tn_network_libp2p::{
    error::NetworkError, types::{GossipPayload, NetworkEvent}, write_frame, GossipMessage, Penalty, Stream, SyncFrame, WorkerSyncRequest,
};
use tn_network_types::{PrimaryToWorkerClient as _, WorkerSynchronizeMessage};
use tn_storage::consensus::ConsensusChain;
use tn_types::{encode, Batch, BlockHash, SealedBatch};
use tn_worker::{WorkerGossip, WorkerNetworkError, WorkerResponse, MAX_CONCURRENT_GOSSIP_PREFETCHES};
use vlib::{
    explore::{bits, permutations, seq_count, seq_of, subsets},
    par, Run, Scratch,
};

type Frame = SyncFrame<WorkerSyncRequest>;
struct At {
    rt: tokio::runtime::Runtime,
    site: Site,
    link: Link,
}
impl At {
    fn new(chain: &ConsensusChain) -> Self {
        let rt = runtime();
        let _in = rt.enter();
        let site = Site::new(4, 0, chain, Duration::from_secs(5));
        let link = Link::new();
        drop(_in);
        Self { rt, site, link }
    }
    fn settle(&mut self) {
        settle(&self.rt, &mut self.site)
    }
    /// Lets what was asked for last be answered with these batches, or not at all.
    fn serve(&mut self, reply: tokio::sync::oneshot::Sender<Result<Stream, NetworkError>>, batches: Option<&[Batch]>) {
        let Some(batches) = batches else {
            let _ = reply.send(Err(NetworkError::RedialAttempt));
            return self.settle();
        };
        let (ours, mut theirs) = {
            let _in = self.rt.enter();
            self.link.open(Fate::Fine, Fate::Fine)
        };
        let _ = reply.send(Ok(ours));
        self.settle();
        let (mut a, mut b) = (vec![], vec![]);
        let frames = std::iter::once(Frame::Ack).chain(batches.iter().map(|b| Frame::Data(encode(b)))).chain([Frame::End]);
        for f in frames {
            self.rt.block_on(write_frame(&mut theirs, &f, &mut a, &mut b, 4_000_000)).unwrap();
        }
        self.rt.block_on(theirs.flush()).unwrap();
        self.settle();
    }
}

/// A batch and the digest it is reported under.
#[derive(Clone, Debug)]
struct Reported {
    from: usize,
    verdict: Verdict,
    n: u8,
    sealed: SealedBatch,
    honest: bool,
}
/// What becomes of one batch a peer reports, alone and after others.
fn reports(run: &Run, chain: &ConsensusChain, list: &[Reported], refuses: u64) {
    let mut at = At::new(chain);
    let mut told: Vec<Told> = vec![];
    let mut stored: BTreeSet<BlockHash> = BTreeSet::new();
    let replay = format!("{:?}, the primary refuses {refuses:b}", list.iter().map(|r| format!("peer {} reports batch {} ({:?}) {}", r.from, r.n, r.verdict, if r.honest { "" } else { "under another's digest" })).collect::<Vec<_>>());
    for (i, r) in list.iter().enumerate() {
        run.step(1);
        *at.site.primary.refuses.lock() = refuses >> i & 1 == 1;
        at.site.judge.0.lock().clear();
        let out = at.rt.block_on(at.site.handler.process_report_batch(&pk(r.from), r.sealed.clone()));
        at.settle();
        let d = r.sealed.digest();
        let member = r.from < 4;
        let valid = member && r.honest && r.verdict == Verdict::Valid;
        let fine = valid && refuses >> i & 1 == 0;
        if out.is_ok() != fine {
            run.fail("verdict", format!("report {i} is answered {out:?}"), &replay);
        }
        if valid {
            stored.insert(d);
        }
        if fine {
            told.push(Told { own: false, digest: d, stored: true });
        }
        if *at.site.primary.told.lock() != told {
            run.fail("told", format!("the primary was told {:?} and should have been told {told:?}", at.site.primary.told.lock()), &replay);
        }
        for x in list.iter().map(|r| r.sealed.digest()) {
            let held = at.site.held(x);
            if held.is_some() != stored.contains(&x) || held.as_ref().is_some_and(|b| b.digest() != x) {
                run.fail("stored", format!("after report {i}, {} is {} for others", x, if held.is_some() { "kept" } else { "not kept" }), &replay);
            }
        }
        if let Err(e) = out {
            let again = matches!(WorkerResponse::into_error_ref(&e), WorkerResponse::RecoverableError(_));
            if again != valid {
                run.fail("kind", format!("{e:?} is answered so that the sender {}", if again { "tries again" } else { "gives up" }), &replay);
            }
            let due = match (member, r.honest, r.verdict) {
                (false, ..) => Some(Penalty::Medium),
                (_, false, _) => Some(Penalty::Fatal),
                (_, _, Verdict::Valid) => None,
                (_, _, Verdict::Empty | Verdict::BaseFee) => Some(Penalty::Fatal),
                (_, _, Verdict::BadTx) => Some(Penalty::Severe),
                (_, _, Verdict::Blob) => Some(Penalty::Medium),
                (_, _, Verdict::Chain) => Some(Penalty::Mild),
            };
            if format!("{:?}", e.penalty()) != format!("{due:?}") {
                run.fail("penalty", format!("{e:?} costs {:?}, and should cost {due:?}", e.penalty()), &replay);
            }
            if !member && !at.site.judge.0.lock().is_empty() {
                run.fail("work", "a batch from outside the committee is validated", &replay);
            }
            if member && matches!(e, WorkerNetworkError::NonCommitteeBatch) {
                run.fail("member", "a member is taken for an outsider", &replay);
            }
        }
    }
    run.state(&replay);
    run.trace();
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Answer {
    Right,
    /// The batch is one that validation refuses.
    Invalid,
    OtherEpoch,
    Nothing,
    Unreachable,
}
const ANSWERS: [Answer; 5] = [Answer::Right, Answer::Invalid, Answer::OtherEpoch, Answer::Nothing, Answer::Unreachable];
fn announced(n: usize, a: Answer) -> Batch {
    match a {
        Answer::Invalid => batch(n as u8, Verdict::Empty, EPOCH),
        Answer::OtherEpoch => batch(n as u8, Verdict::Valid, EPOCH - 1),
        _ => batch(n as u8, Verdict::Valid, EPOCH),
    }
}
fn gossip(at: &mut At, topic: &str, data: Vec<u8>, relayer: Option<usize>, author: Option<usize>) {
    let message = GossipMessage { source: Some(PeerId::random()), data, sequence_number: None, topic: TopicHash::from(IdentTopic::new(topic)) };
    let payload = GossipPayload { message, relayer: relayer.map(pk), author: author.map(pk) };
    at.site.events.try_send(NetworkEvent::Gossip(Box::new(payload))).unwrap();
    at.settle();
}
/// Announcements, one after another, while others are still being looked up.
fn announcements(run: &Run, chain: &ConsensusChain, which: &[usize], answers: &[Answer], order: &[usize]) {
    let mut at = At::new(chain);
    at.site.connected = Some(vec![1]);
    let topic = at.site.topic();
    let kind = |n: usize| answers[n % answers.len()];
    let replay = format!("announced {which:?}, answered {answers:?} in the order {order:?}");
    let mut open: Vec<(usize, tokio::sync::oneshot::Sender<Result<Stream, NetworkError>>)> = vec![];
    for n in which {
        run.step(1);
        let d = announced(*n, kind(*n)).digest();
        gossip(&mut at, &topic, encode(&WorkerGossip::Batch(EPOCH, d)), Some(1), Some(2));
        let started: Vec<_> = at.site.wanted.drain(..).collect();
        let due = usize::from(open.iter().all(|(m, _)| m != n) && open.len() < MAX_CONCURRENT_GOSSIP_PREFETCHES);
        if started.len() != due {
            run.fail("lookups", format!("batch {n} is announced, {} lookups are under way, and {} begin", open.len(), started.len()), &replay);
        }
        open.extend(started.into_iter().map(|w| (*n, w.reply)));
    }
    let mut kept: BTreeSet<usize> = BTreeSet::new();
    for i in order {
        if open.is_empty() {
            break;
        }
        run.step(1);
        let (n, reply) = open.remove(i % open.len());
        let b = announced(n, kind(n));
        match kind(n) {
            Answer::Nothing => at.serve(reply, Some(&[])),
            Answer::Unreachable => at.serve(reply, None),
            k => {
                at.serve(reply, Some(std::slice::from_ref(&b)));
                if k == Answer::Right {
                    kept.insert(n);
                }
            }
        }
        for m in which {
            let held = at.site.held(announced(*m, kind(*m)).digest()).is_some();
            if held != kept.contains(m) {
                run.fail("kept", format!("batch {m} ({:?}) is {}", kind(*m), if held { "kept" } else { "not kept" }), &replay);
            }
        }
    }
    // what never came is given up after a while, and then looked up again when it is announced again
    drop(open);
    for _ in 0..12 {
        pass(&at.rt, &mut at.site, 500);
        for w in std::mem::take(&mut at.site.wanted) {
            at.serve(w.reply, None);
        }
    }
    for n in which.iter().collect::<BTreeSet<_>>() {
        gossip(&mut at, &topic, encode(&WorkerGossip::Batch(EPOCH, announced(*n, kind(*n)).digest())), Some(1), Some(2));
        let again = at.site.wanted.drain(..).count();
        if again != usize::from(!kept.contains(n)) {
            run.fail("again", format!("batch {n} ({:?}) is announced again, and looked up {again} times", kind(*n)), &replay);
        }
        for _ in 0..12 {
            pass(&at.rt, &mut at.site, 500);
            for w in std::mem::take(&mut at.site.wanted) {
                at.serve(w.reply, None);
            }
        }
    }
    if !at.site.penalties.is_empty() {
        run.fail("blamed", format!("{:?}", at.site.penalties), &replay);
    }
    if !at.site.primary.told.lock().is_empty() {
        run.fail("told", "the primary is told of a batch that was only announced", &replay);
    }
    run.state(&(which, answers, order));
    run.trace();
}
/// What is wrong with an announcement is charged to its author, whoever passed it on.
fn blame(run: &Run, chain: &ConsensusChain) {
    for relayer in [None, Some(1)] {
        for author in [None, Some(2)] {
            for epoch in [EPOCH - 1, EPOCH, EPOCH + 1] {
                for (wrong_topic, garbage) in [(false, false), (true, false), (false, true), (true, true)] {
                    let mut at = At::new(chain);
                    at.site.connected = Some(vec![1]);
                    let topic = if wrong_topic { format!("{}x", at.site.topic()) } else { at.site.topic() };
                    let d = batch(1, Verdict::Valid, EPOCH).digest();
                    let data = if garbage { vec![0xff; 7] } else { encode(&WorkerGossip::Batch(epoch, d)) };
                    let replay = format!("announcement for epoch {epoch}, wrong topic {wrong_topic}, undecodable {garbage}, author {author:?}, passed on by {relayer:?}");
                    gossip(&mut at, &topic, data, relayer, author);
                    let fault = wrong_topic || garbage;
                    let blamed: Vec<_> = at.site.penalties.iter().map(|(p, k)| (*p, format!("{k:?}"))).collect();
                    let due: Vec<_> = author.filter(|_| fault).map(|a| (a, format!("{:?}", Penalty::Fatal))).into_iter().collect();
                    if blamed != due {
                        run.fail("blame", format!("{blamed:?} are penalised, and {due:?} should be"), &replay);
                    }
                    let begun = at.site.wanted.len();
                    if begun != usize::from(!fault && epoch == EPOCH) {
                        run.fail("lookup", format!("{begun} lookups begin"), &replay);
                    }
                    run.step(1);
                    run.state(&replay);
                    run.trace();
                }
            }
        }
    }
}

/// The primary needs batches before it votes, or has them in a certificate.
fn synchronize(run: &Run, chain: &ConsensusChain, held: u64, served: u64, asked: u64, bad: u64, certified: bool) {
    let mut at = At::new(chain);
    at.site.connected = Some(vec![1]);
    let b: Vec<_> = (0..3).map(|i| batch(i, if bad >> i & 1 == 1 { Verdict::BadTx } else { Verdict::Valid }, EPOCH)).collect();
    for i in bits(held) {
        at.site.hold(&b[i]);
    }
    let replay = format!("held {held:03b}, a peer has {served:03b}, asked for {asked:03b}, invalid {bad:03b}, {}", if certified { "certified" } else { "not certified" });
    let local = at.site.config.local_network().clone();
    let message = WorkerSynchronizeMessage { digests: bits(asked).into_iter().map(|i| b[i].digest()).collect(), target: pk(1).into(), is_certified: certified };
    let job = at.rt.spawn(async move { local.synchronize(message).await });
    at.settle();
    let missing = asked & !held;
    let mut tries = 0;
    while !job.is_finished() && tries < 10 {
        tries += 1;
        for w in std::mem::take(&mut at.site.wanted) {
            run.step(1);
            let out: Vec<_> = bits(missing & served).into_iter().map(|i| b[i].clone()).collect();
            at.serve(w.reply, Some(&out));
        }
        if !job.is_finished() {
            pass(&at.rt, &mut at.site, 500);
        }
    }
    if !job.is_finished() {
        return run.fail("endless", "the primary gets no answer", &replay);
    }
    let got = at.rt.block_on(job).unwrap();
    let new = missing & served;
    let refused = !certified && new & bad != 0;
    let due = missing & !served == 0 && !refused;
    if got.is_ok() != due {
        run.fail("synchronize", format!("the primary is answered {got:?}"), &replay);
    }
    for i in 0..3 {
        let now = at.site.held(b[i].digest());
        let keep = held >> i & 1 == 1 || new >> i & 1 == 1 && !refused;
        // of a refused lot, those found valid before may be kept, the invalid ones never
        let may = held >> i & 1 == 1 || new >> i & 1 == 1 && (certified || bad >> i & 1 == 0);
        if now.is_some() && !may || now.is_none() && keep {
            run.fail("kept", format!("batch {i} is {}", if now.is_some() { "kept" } else { "not kept" }), &replay);
        }
        if now.is_some_and(|x| x.digest() != b[i].digest()) {
            run.fail("forged", format!("batch {i} is not what it was"), &replay);
        }
    }
    if missing == 0 && tries > 0 {
        run.fail("needless", "what is held is asked for", &replay);
    }
    run.state(&replay);
    run.trace();
}

/// Execution needs the batches of an output; peers come to have them by and by.
fn fetch(run: &Run, chain: &ConsensusChain, held: u64, rounds: &[usize]) {
    let mut at = At::new(chain);
    at.site.connected = Some(vec![1]);
    let b: Vec<_> = (0..3).map(|i| batch(i, Verdict::Valid, EPOCH)).collect();
    for i in bits(held) {
        at.site.hold(&b[i]);
    }
    let replay = format!("held {held:03b}, then peers have {rounds:?} (8: nobody is connected, 9: nobody can be reached, 10: it comes in by itself)");
    let local = at.site.config.local_network().clone();
    let want = digests(&b);
    let job = at.rt.spawn({
        let want = want.clone();
        async move { local.fetch_batches(want).await }
    });
    at.settle();
    let mut have = held;
    for r in rounds.iter().chain([&7]) {
        run.step(1);
        at.site.connected = Some(if *r == 8 { vec![] } else { vec![1] });
        if *r == 10 {
            at.site.hold(&b[2]);
            have |= 4;
        }
        for _ in 0..8 {
            if job.is_finished() {
                break;
            }
            for w in std::mem::take(&mut at.site.wanted) {
                if *r < 8 {
                    let out: Vec<_> = bits(*r as u64 & !have).into_iter().map(|i| b[i].clone()).collect();
                    have |= *r as u64;
                    at.serve(w.reply, Some(&out));
                } else {
                    at.serve(w.reply, None);
                }
            }
            pass(&at.rt, &mut at.site, 500);
        }
        if job.is_finished() != (have == 7) {
            run.fail("early", format!("with {have:03b} found, the search {}", if job.is_finished() { "ends" } else { "goes on" }), &replay);
            return;
        }
    }
    let got = at.rt.block_on(job).unwrap();
    match got {
        Ok(m) => {
            if m.keys().copied().collect::<BTreeSet<_>>() != want || m.iter().any(|(d, b)| b.digest() != *d) {
                run.fail("wrong", format!("{m:?}"), &replay);
            }
        }
        Err(e) => run.fail("failed", format!("{e}"), &replay),
    }
    for x in &b {
        if at.site.held(x.digest()).is_none_or(|k| k != *x) && at.site.held(x.digest()).is_none_or(|k| k.digest() != x.digest()) {
            run.fail("not-kept", "a fetched batch is not kept", &replay);
        }
    }
    run.state(&replay);
    run.trace();
}

pub fn w02(run: &Run) {
    let scratch = Scratch::new();
    let chain = ConsensusChain::new(scratch.path().to_path_buf(), committee(4, 0)).unwrap();
    let chain = &chain;
    let deep = run.thorough();
    let mut jobs: Vec<Box<dyn Fn() + Sync + Send + '_>> = vec![];
    jobs.push(Box::new(move || blame(run, chain)));
    let mut reported = vec![];
    for from in [1, 3, 7] {
        for verdict in VERDICTS {
            for n in 0..2 {
                for honest in [true, false] {
                    let b = batch(n, verdict, EPOCH);
                    let sealed = if honest { b.seal_slow() } else { b.seal(batch(1 - n, Verdict::Valid, EPOCH).digest()) };
                    reported.push(Reported { from, verdict, n, sealed, honest });
                }
            }
        }
    }
    let reported = std::sync::Arc::new(reported);
    let k = reported.len() as u64;
    run.bound("reports in a row", if deep { 3 } else { 2 });
    for len in 1..=if deep { 3 } else { 2 } {
        for i in 0..seq_count(k, len) {
            let reported = reported.clone();
            let pick = seq_of(i, k, len);
            if len == 3 && i % 5 != 0 {
                continue;
            }
            for refuses in subsets(len) {
                let (reported, pick) = (reported.clone(), pick.clone());
                jobs.push(Box::new(move || reports(run, chain, &pick.iter().map(|i| reported[*i].clone()).collect::<Vec<_>>(), refuses)));
            }
        }
    }
    // announcements: few with every kind of answer, and more than may be looked up at a time
    for len in 1..=3usize {
        for i in 0..seq_count(3, len) {
            let which = seq_of(i, 3, len);
            for a in 0..seq_count(5, 3) {
                let answers: Vec<_> = seq_of(a, 5, 3).into_iter().map(|k| ANSWERS[k]).collect();
                for order in permutations(len) {
                    let (which, answers) = (which.clone(), answers.clone());
                    jobs.push(Box::new(move || announcements(run, chain, &which, &answers, &order)));
                }
            }
        }
    }
    for extra in 0..3usize {
        for twice in 0..=8usize {
            let mut which: Vec<usize> = (0..8 + extra).collect();
            which.insert(twice, twice.saturating_sub(1));
            for done in 0..=3usize {
                let which = which.clone();
                jobs.push(Box::new(move || announcements(run, chain, &which, &[Answer::Right, Answer::Nothing], &vec![0; done])));
            }
        }
    }
    for held in subsets(3) {
        for served in subsets(3) {
            for asked in subsets(3) {
                for bad in subsets(3) {
                    for certified in [false, true] {
                        jobs.push(Box::new(move || synchronize(run, chain, held, served, asked, bad, certified)));
                    }
                }
            }
        }
    }
    let len = if deep { 4 } else { 3 };
    run.bound("stages of a search for an output's batches", len);
    for held in subsets(3) {
        for i in 0..seq_count(11, len) {
            jobs.push(Box::new(move || fetch(run, chain, held, &seq_of(i, 11, len))));
        }
    }
    par(run, jobs.len(), |i| {
        if !run.stop() {
            jobs[i]()
        }
    });
}

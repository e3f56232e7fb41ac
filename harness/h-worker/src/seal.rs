//! W01: a node's own batches, from the moment they are built until its primary knows of them.
use crate::env::{batch, committee, pass, pk, runtime, settle, Site, Verdict, EPOCH};
use std::{collections::BTreeMap, time::Duration};
use tn_network_libp2p::{error::NetworkError, types::NetworkResponseMessage};
use tn_storage::consensus::ConsensusChain;
use tn_types::{error::BlockSealError, Batch, RpcInfo};
use tn_worker::{WorkerGossip, WorkerRPCError, WorkerResponse};
use vlib::{
    explore::{permutations, seq_count, seq_of},
    par, Run, Scratch,
};

/// What a peer answers each time it is asked; a peer not listed any more stays silent.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Reply {
    Yes,
    No,
    /// An answer to some other question.
    Odd,
    /// An error that may pass.
    Later,
    Broken,
    /// The network layer gives up without a word.
    Lost,
}
use Reply::*;
const PEERS: [&[Reply]; 12] = [
    &[Yes],
    &[No],
    &[Broken, Broken, Broken],
    &[],
    &[Later, Yes],
    &[Broken, Lost, Yes],
    &[Later, No],
    &[Odd],
    &[Later, Later, Later],
    &[Lost, Broken],
    &[Broken, Later, Lost],
    &[Lost, Later, Odd],
];

/// How a batch stands, by the answers given so far.
#[derive(Clone, Default)]
struct Tally {
    yes: usize,
    no: usize,
    gone: usize,
    asks: BTreeMap<usize, usize>,
}
impl Tally {
    fn answer(&mut self, peer: usize, r: Reply) {
        let asked = self.asks.entry(peer).or_default();
        *asked += 1;
        match r {
            Yes => self.yes += 1,
            No | Odd => self.no += 1,
            _ if *asked == 3 => self.gone += 1,
            _ => (),
        }
    }
    fn verdict(&self, n: usize, quorum: usize) -> Option<&'static str> {
        let silent = n - 1 - self.yes - self.no - self.gone;
        if 1 + self.yes >= quorum {
            Some("accepted")
        } else if n - self.no < quorum {
            Some("rejected")
        } else if 1 + self.yes + silent < quorum {
            Some("no quorum")
        } else {
            None
        }
    }
}
fn name(r: &Result<(), BlockSealError>) -> &'static str {
    match r {
        Ok(()) => "accepted",
        Err(BlockSealError::QuorumRejected) => "rejected",
        Err(BlockSealError::AntiQuorum) => "no quorum",
        Err(BlockSealError::Timeout) => "timeout",
        Err(BlockSealError::FailedQuorum) => "failed",
        Err(BlockSealError::NotValidator) => "not a validator",
        Err(BlockSealError::FailedToReport) => "not reported",
        Err(_) => "other",
    }
}

struct Sealing {
    batch: Batch,
    job: tokio::task::JoinHandle<Result<(), BlockSealError>>,
    tally: Tally,
    result: Option<&'static str>,
    /// The first verdict that was due; later answers change nothing.
    due: Option<&'static str>,
}
struct Case<'a> {
    run: &'a Run,
    rt: &'a tokio::runtime::Runtime,
    site: Site,
    n: usize,
    quorum: usize,
    sealing: Vec<Sealing>,
    history: Vec<String>,
    timed_out: bool,
    dull_primary: bool,
}
impl<'a> Case<'a> {
    fn new(run: &'a Run, rt: &'a tokio::runtime::Runtime, chain: &ConsensusChain, n: usize, batches: usize, timeout: u64) -> Self {
        let _in = rt.enter();
        let mut site = Site::new(n, 0, chain, Duration::from_millis(timeout));
        let sealing = (0..batches)
            .map(|i| {
                let batch = batch(i as u8, Verdict::Valid, EPOCH);
                let (w, b) = (site.worker.clone(), batch.clone().seal_slow());
                Sealing { batch, job: rt.spawn(async move { w.seal(b).await }), tally: Tally::default(), result: None, due: None }
            })
            .collect();
        settle(rt, &mut site);
        let quorum = committee(n, EPOCH).quorum_threshold() as usize;
        Self { run, rt, site, n, quorum, sealing, history: vec![], timed_out: false, dull_primary: false }
    }
    fn fail(&self, key: &str, what: impl Into<String>) {
        self.run.fail(key, what, format!("committee of {}: {}", self.n, self.history.join(", ")));
    }
    /// The peer's open question about a batch, if there is one.
    fn open(&self, b: usize, peer: usize) -> Option<usize> {
        let d = self.sealing[b].batch.digest();
        self.site.asked.iter().position(|a| a.peer == peer && a.batch.digest() == d && !a.reply.is_closed())
    }
    fn answer(&mut self, b: usize, peer: usize, r: Reply) {
        let Some(i) = self.open(b, peer) else { return };
        let a = self.site.asked.remove(i);
        if a.batch.batch != self.sealing[b].batch {
            self.fail("altered", "a peer is asked about something else than the batch");
        }
        self.history.push(format!("batch {b}: peer {peer} {r:?}"));
        self.run.step(1);
        self.sealing[b].tally.answer(peer, r);
        let say = |result| Ok(NetworkResponseMessage { peer: pk(peer), result });
        let _ = match r {
            Yes => a.reply.send(say(WorkerResponse::ReportBatch)),
            No => a.reply.send(say(WorkerResponse::Error(WorkerRPCError("no".into())))),
            Odd => a.reply.send(say(WorkerResponse::PeerExchange { peers: Default::default() })),
            Later => a.reply.send(say(WorkerResponse::RecoverableError(WorkerRPCError("later".into())))),
            Broken => a.reply.send(Err(NetworkError::RedialAttempt)),
            Lost => {
                drop(a.reply);
                Ok(())
            }
        };
        settle(self.rt, &mut self.site);
        self.check();
    }
    fn check(&mut self) {
        for b in 0..self.sealing.len() {
            let s = &mut self.sealing[b];
            let digest = s.batch.digest();
            if s.result.is_none() && s.job.is_finished() {
                s.result = Some(name(&self.rt.block_on(&mut s.job).unwrap()));
            }
            let due = s.tally.verdict(self.n, self.quorum).or(self.timed_out.then_some("timeout"));
            let due = if due == Some("accepted") && self.dull_primary { Some("not reported") } else { due };
            s.due = s.due.or(due);
            let s = &self.sealing[b];
            let due = s.due;
            if s.result != due {
                self.fail("verdict", format!("batch {b} is {:?}, and should be {due:?}", s.result));
            }
            let told: Vec<_> = self.site.primary.told.lock().iter().filter(|t| t.digest == digest).cloned().collect();
            let published = self.site.published.iter().filter(|(_, g)| *g == WorkerGossip::Batch(EPOCH, digest)).count();
            let accepted = matches!(s.result, Some("accepted" | "not reported"));
            if told.len() != usize::from(accepted && !self.dull_primary) || told.iter().any(|t| !t.own || !t.stored) {
                self.fail("told", format!("batch {b} is {:?}, and the primary was told {told:?}", s.result));
            }
            if published != usize::from(accepted) {
                self.fail("published", format!("batch {b} is {:?}, and was announced {published} times", s.result));
            }
            if self.site.held(digest).is_some() != accepted {
                self.fail("served", format!("batch {b} is {:?}, and {} kept for others", s.result, if accepted { "not" } else { "already" }));
            }
            if self.site.own(digest).is_some_and(|k| k == s.batch) != (s.result.is_none() || accepted) {
                self.fail("own", format!("batch {b} is {:?}, and {} among this node's own batches", s.result, if accepted || s.result.is_none() { "not" } else { "still" }));
            }
        }
        if self.site.published.iter().any(|(t, _)| *t != self.site.topic()) {
            self.fail("topic", "announced on another topic");
        }
        if let Some(p) = self.site.asked.iter().find(|a| a.peer == 0 || a.peer >= self.n) {
            self.fail("outsider", format!("{} is asked about a batch", p.peer));
        }
    }
    fn done(&self) -> bool {
        self.sealing.iter().all(|s| s.result.is_some())
    }
}

/// Every way `n - 1` peers can behave, in one order of their first answers.
fn quorum_case(run: &Run, rt: &tokio::runtime::Runtime, chain: &ConsensusChain, n: usize, order: &[usize], kinds: &[usize], timeout: u64) {
    let mut c = Case::new(run, rt, chain, n, 1, timeout);
    for peer in 1..n {
        if c.open(0, peer).is_none() {
            c.fail("not-asked", format!("member {peer} is not asked"));
        }
    }
    let mut given: BTreeMap<usize, usize> = BTreeMap::new();
    let step = |c: &mut Case, given: &mut BTreeMap<usize, usize>| {
        for peer in order.iter().map(|p| p + 1) {
            let at = given.entry(peer).or_default();
            if let Some(r) = PEERS[kinds[peer - 1]].get(*at) {
                if c.open(0, peer).is_some() {
                    *at += 1;
                    c.answer(0, peer, *r);
                }
            }
        }
    };
    step(&mut c, &mut given);
    let mut at = 0;
    while !c.done() && at < timeout + 100 {
        // repeated questions come within two seconds
        let by = if at < 700 { 100 } else { timeout.saturating_sub(at) + 100 };
        at += by;
        if at >= timeout {
            c.timed_out = true;
        }
        c.history.push(format!("{by} ms"));
        pass(rt, &mut c.site, by);
        c.check();
        step(&mut c, &mut given);
    }
    // what still comes in changes nothing
    let result = c.sealing[0].result;
    c.history.push("after that".into());
    for peer in 1..n {
        while let Some(i) = c.open(0, peer) {
            let a = c.site.asked.remove(i);
            let result = if kinds[peer - 1] % 2 == 0 { WorkerResponse::ReportBatch } else { WorkerResponse::Error(WorkerRPCError("no".into())) };
            let _ = a.reply.send(Ok(NetworkResponseMessage { peer: pk(peer), result }));
            settle(rt, &mut c.site);
        }
    }
    c.check();
    run.state(&(n, order, kinds, timeout));
    run.trace();
    run.outcome(result.unwrap_or("none"));
    for (peer, r) in &given {
        let asks = c.sealing[0].tally.asks.get(peer).copied().unwrap_or(0);
        if asks > 3 {
            c.fail("asks", format!("peer {peer} is asked {asks} times, after {r} answers"));
        }
    }
}

/// Two batches at once, each with a plain answer per peer, in every order of the answers.
fn two(run: &Run, rt: &tokio::runtime::Runtime, chain: &ConsensusChain, order: &[usize], bits: usize) {
    let mut c = Case::new(run, rt, chain, 4, 2, 5_000);
    for i in order {
        let r = if bits >> i & 1 == 1 { Yes } else { No };
        c.answer(i / 3, i % 3 + 1, r);
    }
    run.state(&(order, bits));
    run.trace();
}

/// A primary that refuses, a network that cannot announce, and a node outside the committee.
fn edges(run: &Run, rt: &tokio::runtime::Runtime, chain: &ConsensusChain) {
    for n in 4..=7 {
        for (publish, refuses) in [(false, false), (true, true), (false, true)] {
            let mut c = Case::new(run, rt, chain, n, 1, 5_000);
            c.site.can_publish = publish;
            c.dull_primary = refuses;
            *c.site.primary.refuses.lock() = refuses;
            c.history.push(format!("announcements {}, primary {}", if publish { "work" } else { "fail" }, if refuses { "refuses" } else { "listens" }));
            for peer in 1..n {
                c.answer(0, peer, Yes);
            }
            run.state(&(n, publish, refuses));
            run.trace();
        }
        let info = |i: usize| (pk(i), RpcInfo { http: "https://v.example:8545/".parse().unwrap(), ws: None });
        for rpcs in [None, Some(vec![]), Some(vec![info(2)]), Some((0..n).map(info).collect::<Vec<_>>())] {
            for admits in [false, true] {
                for txs in [0, 2] {
                    let mut site = {
                        let _in = rt.enter();
                        Site::new(n, 8, chain, Duration::from_secs(5))
                    };
                    site.rpcs = rpcs.clone();
                    *site.forwarder.admits.lock() = admits;
                    let mut b = batch(1, Verdict::Valid, EPOCH);
                    b.transactions.truncate(txs);
                    let (w, s) = (site.worker.clone(), b.clone().seal_slow());
                    let job = rt.spawn(async move { w.seal(s).await });
                    settle(rt, &mut site);
                    let what = format!("a node outside the committee of {n}, {txs} transactions, endpoints {rpcs:?}, forwarder {admits}");
                    if !job.is_finished() {
                        run.fail("outsider-stuck", "sealing does not end", what);
                        continue;
                    }
                    let r = name(&rt.block_on(job).unwrap());
                    let known = rpcs.as_ref().is_some_and(|r| !r.is_empty());
                    let due = if txs == 0 || known && admits { "accepted" } else { "not a validator" };
                    if r != due {
                        run.fail("outsider-result", format!("the builder is told {r}, and should be told {due}"), &what);
                    }
                    let sent = site.forwarder.sent.lock();
                    let slots: Vec<_> = committee(n, EPOCH).authorities().iter().map(|a| *a.protocol_key()).collect();
                    if sent.len() > 1 || sent.iter().any(|(t, s, r)| *t != b.transactions || *s != slots || Some(r.len()) != rpcs.as_ref().map(|r| r.len())) || sent.is_empty() && due == "accepted" && txs > 0 {
                        run.fail("outsider-forward", format!("forwarded: {sent:?}"), &what);
                    }
                    if !site.asked.is_empty() || !site.published.is_empty() || !site.primary.told.lock().is_empty() {
                        run.fail("outsider-batch", "a node outside the committee proposes a batch", &what);
                    }
                    run.state(&what);
                    run.trace();
                }
            }
        }
    }
}
pub fn w01(run: &Run) {
    let scratch = Scratch::new();
    let chain = ConsensusChain::new(scratch.path().to_path_buf(), committee(4, 0)).unwrap();
    let deep = run.thorough();
    run.bound("members", "4 to 7");
    run.bound("behaviours of a peer", PEERS.len());
    edges(run, &runtime(), &chain);
    let mut jobs: Vec<(usize, Vec<usize>, Vec<usize>, u64)> = vec![];
    for (n, kinds) in [(4, 12u64), (5, if deep { 9 } else { 6 }), (6, if deep { 5 } else { 4 }), (7, if deep { 5 } else { 4 })] {
        let orders: Vec<Vec<usize>> = match n {
            4 => permutations(3),
            5 if deep => permutations(4),
            _ => vec![(0..n - 1).collect(), (0..n - 1).rev().collect()],
        };
        for o in orders {
            for i in 0..seq_count(kinds, n - 1) {
                let k = seq_of(i, kinds, n - 1);
                for t in [5_000, 500] {
                    jobs.push((n, o.clone(), k.clone(), t));
                }
            }
        }
    }
    let chunk = 256;
    par(run, jobs.len().div_ceil(chunk), |c| {
        for (n, o, k, t) in &jobs[c * chunk..jobs.len().min((c + 1) * chunk)] {
            quorum_case(run, &runtime(), &chain, *n, o, k, *t);
            if run.stop() {
                return;
            }
        }
    });
    let orders = permutations(6);
    run.bound("answers to two batches at once", "6, in every order");
    par(run, orders.len(), |i| {
        for bits in 0..64 {
            if deep || (bits + i) % 4 == 0 {
                two(run, &runtime(), &chain, &orders[i], bits);
            }
        }
    });
}

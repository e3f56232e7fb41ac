//! C06: certificates on their way to consensus.
use crate::{
    crashdb::CrashDb,
    env::{committee, digests, id, keys, record, Node, World},
};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use tn_primary::{certificate_fetcher::CertificateFetcherCommand, ConsensusBus};
use tn_storage::{consensus::ConsensusChain, CertificateStore};
use tn_types::{
    Certificate, EpochSeedMessage, Hash as _, HeaderBuilder, HeaderDigest, SignatureVerificationState, TnReceiver, Vote, B256,
};
use vlib::{
    explore::{bits, permutations},
    par, Run, Scratch,
};

/// `parents[i]`: which of the certificates before `i` certificate `i` names; round 1 names genesis.
#[derive(Clone, Hash, Debug)]
struct Shape {
    rounds: Vec<u32>,
    parents: Vec<Vec<usize>>,
}

/// Every DAG with these many certificates per round.
fn shapes(widths: &[usize]) -> Vec<Shape> {
    let mut out = vec![Shape { rounds: vec![], parents: vec![] }];
    let mut first = 0;
    let mut before = 0;
    for (r, w) in widths.iter().enumerate() {
        for _ in 0..*w {
            out = out
                .into_iter()
                .flat_map(|s| {
                    let choices: Vec<Vec<usize>> =
                        if r == 0 { vec![vec![]] } else { (1..1u64 << before).map(|m| bits(m).into_iter().map(|b| first + b).collect()).collect() };
                    choices.into_iter().map(move |c| {
                        let mut s = s.clone();
                        s.rounds.push(r as u32 + 1);
                        s.parents.push(c);
                        s
                    })
                })
                .collect();
        }
        first = out[0].rounds.len() - w;
        before = *w;
    }
    out
}

fn certs(w: &World, s: &Shape) -> Vec<Certificate> {
    let mut v: Vec<Certificate> = vec![];
    for i in 0..s.rounds.len() {
        let parents = if s.rounds[i] == 1 { w.genesis.clone() } else { digests(s.parents[i].iter().map(|p| &v[*p])) };
        let author = s.rounds[..i].iter().filter(|r| **r == s.rounds[i]).count();
        v.push(w.cert(author, s.rounds[i], parents));
    }
    v
}

/// What should have happened.
#[derive(Clone, Hash)]
struct Oracle {
    accepted: BTreeSet<usize>,
    pending: BTreeSet<usize>,
    gc: u32,
}
impl Oracle {
    fn may(&self, s: &Shape, i: usize) -> bool {
        s.rounds[i] <= self.gc + 1 || s.parents[i].iter().all(|p| self.accepted.contains(p))
    }
    fn settle(&mut self, s: &Shape) {
        while let Some(i) = self.pending.iter().copied().find(|i| self.may(s, *i)) {
            self.pending.remove(&i);
            self.accepted.insert(i);
        }
    }
    fn deliver(&mut self, s: &Shape, i: usize) {
        if !self.accepted.contains(&i) {
            self.pending.insert(i);
        }
        self.settle(s);
    }
}

/// What a node tells the rest of the system.
struct Ears {
    certs: Box<dyn FnMut() -> Vec<Certificate>>,
    parents: Box<dyn FnMut() -> Vec<(Vec<Certificate>, u32)>>,
    fetch: Box<dyn FnMut() -> Vec<HeaderDigest>>,
}
fn drain<T>(mut r: impl TnReceiver<T>) -> impl FnMut() -> Vec<T> {
    move || std::iter::from_fn(|| r.try_recv().ok()).collect()
}
fn ears(bus: &ConsensusBus) -> Ears {
    let mut fetch = drain(bus.subscribe_certificate_fetcher());
    Ears {
        certs: Box::new(drain(bus.subscribe_new_certificates())),
        parents: Box::new(drain(bus.subscribe_parents())),
        fetch: Box::new(move || {
            fetch()
                .into_iter()
                .filter_map(|c| match c {
                    CertificateFetcherCommand::Ancestors(c) => Some(c.digest()),
                    CertificateFetcherCommand::Kick => None,
                })
                .collect()
        }),
    }
}
fn start(w: &World, db: CrashDb, chain: &ConsensusChain, interval: u32, ahead: u32) -> (Node, Ears) {
    let mut e = None;
    let node = Node::start_with(
        w,
        db,
        chain,
        |p, n| {
            p.gc_depth = 1;
            n.sync_config_mut().certificate_verification_round_interval = interval;
            n.sync_config_mut().max_diff_between_external_cert_round_and_highest_local_round = ahead;
        },
        |bus| e = Some(ears(bus)),
    );
    (node, e.unwrap())
}

#[derive(Clone, Copy, Debug, Hash)]
enum Ev {
    Deliver(usize),
    Commit(u32),
}

struct Trial<'a> {
    run: &'a Run,
    w: &'a World,
    s: &'a Shape,
    certs: Vec<Certificate>,
    index: HashMap<HeaderDigest, usize>,
    chain: &'a ConsensusChain,
}
struct Live {
    node: Node,
    ears: Ears,
    oracle: Oracle,
    seen: BTreeSet<usize>,
    told: BTreeMap<u32, BTreeSet<usize>>,
}
impl<'a> Trial<'a> {
    fn new(run: &'a Run, w: &'a World, s: &'a Shape, chain: &'a ConsensusChain) -> Self {
        let mut certs = certs(w, s);
        for c in &mut certs {
            c.set_signature_verification_state(SignatureVerificationState::VerifiedDirectly(c.aggregated_signature().unwrap()));
        }
        let index = certs.iter().enumerate().map(|(i, c)| (c.digest(), i)).collect();
        Self { run, w, s, certs, index, chain }
    }
    fn live(&self, db: CrashDb) -> Live {
        let accepted: BTreeSet<usize> = (0..self.certs.len()).filter(|i| db.contains(&self.certs[*i].digest()).unwrap()).collect();
        let (node, ears) = start(self.w, db, self.chain, 50, 1000);
        Live { node, ears, seen: accepted.clone(), told: BTreeMap::new(), oracle: Oracle { accepted, pending: BTreeSet::new(), gc: 0 } }
    }
    fn step(&self, l: &mut Live, ev: Ev, log: &mut Vec<Ev>) {
        log.push(ev);
        self.run.step(1);
        let replay = || format!("{:?}: {log:?}", self.s);
        match ev {
            Ev::Deliver(i) => {
                let was = l.oracle.clone();
                l.oracle.deliver(self.s, i);
                let (sync, mut c) = (l.node.sync.clone(), self.certs[i].clone());
                let got = l.node.rt.block_on(async move { sync.process_own_certificate(&mut c).await });
                l.node.settle();
                let ok = l.oracle.accepted.contains(&i);
                if got.is_ok() != ok {
                    self.run.fail("answer", format!("certificate {i} answered with {got:?}, should be accepted: {ok}"), replay());
                }
                let fetch = (l.ears.fetch)();
                if !ok && !was.pending.contains(&i) && !fetch.contains(&self.certs[i].digest()) {
                    self.run.fail("no-fetch", format!("the missing ancestors of certificate {i} were not asked for"), replay());
                }
            }
            Ev::Commit(r) => {
                l.oracle.gc = r - 1;
                l.oracle.settle(self.s);
                l.node.bus.app().committed_round_updates().send_replace(r);
                l.node.settle();
            }
        }
        for c in (l.ears.certs)() {
            let Some(i) = self.index.get(&c.digest()).copied() else {
                self.run.fail("unknown", "a certificate nobody sent reached consensus", replay());
                continue;
            };
            if !c.is_verified() {
                self.run.fail("unverified", format!("certificate {i} reached consensus unverified"), replay());
            }
            if self.s.rounds[i] > l.oracle.gc + 1 && !self.s.parents[i].iter().all(|p| l.seen.contains(p)) {
                self.run.fail("order", format!("certificate {i} reached consensus before its parents"), replay());
            }
            if !l.seen.insert(i) {
                self.run.fail("twice", format!("certificate {i} reached consensus twice"), replay());
            }
        }
        if l.seen != l.oracle.accepted {
            self.run.fail("accepted", format!("consensus was given {:?}, not {:?}", l.seen, l.oracle.accepted), replay());
        }
        for (i, c) in self.certs.iter().enumerate() {
            if l.node.db.contains(&c.digest()).unwrap() != l.oracle.accepted.contains(&i) {
                self.run.fail("stored", format!("whether certificate {i} is stored differs from whether it was accepted"), replay());
            }
        }
        self.parents(l);
        let quorum = self.w.quorum();
        for r in l.oracle.gc + 1..=*self.s.rounds.last().unwrap() {
            let all: BTreeSet<usize> = l.oracle.accepted.iter().copied().filter(|i| self.s.rounds[*i] == r).collect();
            let want = if all.len() >= quorum { all } else { BTreeSet::new() };
            if l.told.get(&r).cloned().unwrap_or_default() != want {
                self.run.fail("parents", format!("the proposer was offered {:?} as parents of round {r}, not {want:?}", l.told.get(&r)), replay());
            }
        }
        self.run.state(&(self.s, &l.oracle));
    }
    fn parents(&self, l: &mut Live) {
        for (certs, round) in (l.ears.parents)() {
            for c in certs {
                let i = self.index[&c.digest()];
                if c.round() != round {
                    self.run.fail("parents-round", "a parent is offered for another round", format!("{:?}", self.s));
                }
                l.told.entry(round).or_default().insert(i);
            }
        }
    }
}

/// Every order of delivery, with rounds being committed in between, and every certificate once more at the end.
fn orders(t: &Trial, orders: &[Vec<usize>], commits: &[Vec<u32>]) {
    for order in orders {
        for commit in commits {
            // where the commits fall among the deliveries
            let k = order.len();
            let places: Vec<Vec<usize>> = match commit.len() {
                0 => vec![vec![]],
                1 => (0..=k).map(|a| vec![a]).collect(),
                _ => (0..=k).flat_map(|a| (a..=k).map(move |b| vec![a, b])).collect(),
            };
            for place in places {
                let mut l = t.live(CrashDb::default());
                let mut log = vec![];
                for n in 0..=k {
                    for (at, r) in place.iter().zip(commit) {
                        if *at == n {
                            t.step(&mut l, Ev::Commit(*r), &mut log);
                        }
                    }
                    if n < k {
                        t.step(&mut l, Ev::Deliver(order[n]), &mut log);
                    }
                }
                for i in order {
                    t.step(&mut l, Ev::Deliver(*i), &mut log);
                }
                t.run.trace();
                l.node.crash();
                if t.run.stop() {
                    return;
                }
            }
        }
    }
}

/// Every order, stopped after every delivery with every number of its writes kept, then every certificate again.
fn crashes(t: &Trial, orders: &[Vec<usize>]) {
    let quorum = t.w.quorum();
    for order in orders {
        let mut l = t.live(CrashDb::default());
        let mut log = vec![];
        for i in order {
            t.step(&mut l, Ev::Deliver(*i), &mut log);
        }
        let db = l.node.crash();
        for n in 0..=db.extent().1 {
            let back = db.recovered(n);
            let kept: BTreeSet<usize> = (0..t.certs.len()).filter(|i| back.contains(&t.certs[*i].digest()).unwrap()).collect();
            let replay = format!("{:?}: {log:?}, stopped with {n} commits kept", t.s);
            if kept.iter().any(|i| t.s.parents[*i].iter().any(|p| !kept.contains(p))) {
                t.run.fail("stored-open", format!("after a stop {kept:?} are stored without their parents"), replay.clone());
            }
            let top = kept.iter().map(|i| t.s.rounds[*i]).max().unwrap_or(0);
            let mut l = t.live(back);
            l.node.settle();
            t.parents(&mut l);
            for r in [top.saturating_sub(1), top] {
                let all: BTreeSet<usize> = kept.iter().copied().filter(|i| t.s.rounds[*i] == r).collect();
                let want = if all.len() >= quorum { all } else { BTreeSet::new() };
                if l.told.get(&r).cloned().unwrap_or_default() != want {
                    t.run.fail("restart-parents", format!("after a restart the proposer was offered {:?} as parents of round {r}, not {want:?}", l.told.get(&r)), replay.clone());
                }
            }
            for i in order {
                let (sync, mut c) = (l.node.sync.clone(), t.certs[*i].clone());
                let _ = l.node.rt.block_on(async move { sync.process_own_certificate(&mut c).await });
                l.node.settle();
                t.run.step(1);
            }
            for c in (l.ears.certs)() {
                let i = t.index[&c.digest()];
                if !t.s.parents[i].iter().all(|p| l.seen.contains(p)) || !l.seen.insert(i) {
                    t.run.fail("restart-order", format!("after a restart certificate {i} reached consensus out of order"), replay.clone());
                }
            }
            if l.seen.len() != t.certs.len() {
                t.run.fail("restart-lost", format!("after a restart only {:?} were accepted", l.seen), replay);
            }
            t.run.trace();
            l.node.crash();
        }
    }
}

/// Ways in which a certificate may be bad.
fn spoil(w: &World, c: &Certificate, kind: usize) -> (&'static str, bool, Certificate) {
    let h = c.header();
    let signed = |h: &tn_types::Header, signers: &[usize], over: &tn_types::Header| {
        let votes = signers.iter().map(|i| (id(*i), *Vote::new(over, id(*i), &keys()[*i]).signature())).collect();
        let mut c = Certificate::new_unsigned_for_test(&w.committee, h.clone(), votes).unwrap();
        c.set_signature_verification_state(SignatureVerificationState::Unverified(c.aggregated_signature().unwrap()));
        c
    };
    let other = HeaderBuilder::from_header(h).payload([(B256::repeat_byte(9), 0)].into_iter().collect()).build();
    // (name, is its header one that was certified, the certificate)
    match kind {
        0 => ("two signatures", true, signed(h, &[0, 1], h)),
        1 => ("signatures over another header", true, signed(h, &[0, 1, 2], &other)),
        2 => ("another header under the same signatures", false, signed(&other, &[0, 1, 2], h)),
        3 => ("another header with two signatures", false, signed(&other, &[2, 3], &other)),
        4 => ("no signatures", false, signed(&other, &[], &other)),
        5 => {
            let h = HeaderBuilder::from_header(h).epoch(1).seed_signature(EpochSeedMessage::new(1, h.round(), record()).sign(&keys()[0])).build();
            ("of another epoch", false, signed(&h, &[0, 1, 2], &h))
        }
        _ => {
            let h = HeaderBuilder::from_header(h).author(id(6)).build();
            ("of an outsider", false, signed(&h, &[0, 1, 2], &h))
        }
    }
}
const KINDS: usize = 7;

/// Collections fetched from a peer: every part of a DAG in every order, whole or with one member spoilt.
fn collections(run: &Run, w: &World, chain: &ConsensusChain, s: &Shape, part: u64, interval: u32) {
    let good = certs(w, s);
    let chosen = bits(part);
    let orders = if chosen.len() <= 3 {
        permutations(chosen.len()).into_iter().map(|p| p.into_iter().map(|i| chosen[i]).collect()).collect()
    } else {
        vec![chosen.clone(), chosen.iter().rev().copied().collect::<Vec<_>>()]
    };
    for order in orders {
        let leaf = |i: usize| !order.iter().any(|c| s.parents[*c].contains(&i));
        let spoils: Vec<Option<(usize, usize)>> = [None].into_iter().chain((0..order.len()).flat_map(|p| (0..KINDS).map(move |k| Some((p, k))))).collect();
        for sp in spoils {
            let mut batch: Vec<Certificate> = order.iter().map(|i| good[*i].clone()).collect();
            let mut bad = None;
            if let Some((p, k)) = sp {
                let (name, certified, c) = spoil(w, &batch[p], k);
                batch[p] = c;
                bad = Some((order[p], name, certified));
            }
            let direct = bad.is_some_and(|(i, _, certified)| !certified || leaf(i) || s.rounds[i] % interval == 0);
            let replay = format!("{s:?} {order:?} {bad:?} every {interval}");
            let (node, mut ears) = start(w, CrashDb::default(), chain, interval, 1000);
            let sync = node.sync.clone();
            let sent = batch.clone();
            let got = node.rt.block_on(async move { sync.process_fetched_certificates_in_parallel(sent).await });
            node.settle();
            run.step(1);
            let out = (ears.certs)();
            let mut oracle = Oracle { accepted: BTreeSet::new(), pending: BTreeSet::new(), gc: 0 };
            if !direct {
                for i in &order {
                    oracle.deliver(s, *i);
                }
            }
            let want: BTreeSet<HeaderDigest> = oracle.accepted.iter().map(|i| good[*i].digest()).collect();
            let forwarded = digests(&out);
            let certified = digests(&good);
            if !forwarded.is_subset(&certified) || batch.iter().any(|c| !certified.contains(&c.digest()) && node.db.contains(&c.digest()).unwrap()) {
                run.fail("forged", "a header that nobody certified was accepted", replay.clone());
            }
            if forwarded.len() != out.len() || out.iter().any(|c| !c.is_verified()) {
                run.fail("fetched-unverified", "unverified or repeated certificates reached consensus", replay.clone());
            }
            if direct && (got.is_ok() || !out.is_empty() || batch.iter().any(|c| node.db.contains(&c.digest()).unwrap())) {
                run.fail("fetched-bad", "a collection with a bad certificate was taken", replay.clone());
            }
            if !direct && forwarded != want {
                run.fail("fetched-good", format!("of a good collection {} certificates were accepted, not {}: {got:?}", forwarded.len(), want.len()), replay.clone());
            }
            run.outcome(if got.is_ok() { "collection taken" } else if direct { "collection refused" } else { "collection partly pending" });
            run.trace();
            node.crash();
        }
    }
}

/// Single certificates from a peer: every kind, whatever verification it claims, old and far ahead.
fn singles(run: &Run, w: &World, chain: &ConsensusChain) {
    let s = Shape { rounds: vec![1], parents: vec![vec![]] };
    let good = certs(w, &s).remove(0);
    let mut kinds = vec![("good", true, good.clone())];
    kinds.extend((0..KINDS).map(|k| {
        let (n, _, c) = spoil(w, &good, k);
        (n, false, c)
    }));
    for m in 0..16u64 {
        let signers = bits(m);
        let votes = signers.iter().map(|i| (id(*i), *Vote::new(good.header(), id(*i), &keys()[*i]).signature())).collect();
        let mut c = Certificate::new_unsigned_for_test(&w.committee, good.header().clone(), votes).unwrap();
        c.set_signature_verification_state(SignatureVerificationState::Unverified(c.aggregated_signature().unwrap()));
        kinds.push(("signed by some", signers.len() >= 3, c));
    }
    let mut outsider = {
        let votes = (0..4).map(|i| (id(i + 3), *Vote::new(good.header(), id(i + 3), &keys()[i + 3]).signature())).collect();
        Certificate::new_unsigned_for_test(&w.committee, good.header().clone(), votes).unwrap()
    };
    outsider.set_signature_verification_state(SignatureVerificationState::Unverified(outsider.aggregated_signature().unwrap()));
    kinds.push(("signed by outsiders", false, outsider));
    for g in Certificate::genesis(&w.committee) {
        kinds.push(("genesis", false, g));
    }
    for (name, ok, cert) in kinds {
        let (node, mut ears) = start(w, CrashDb::default(), chain, 50, 1000);
        for again in 0..2 {
            let (sync, mut c) = (node.sync.clone(), cert.clone());
            let got = node.rt.block_on(async move { sync.process_peer_certificate(&mut c).await });
            node.settle();
            run.step(1);
            let out = (ears.certs)();
            let replay = format!("{name}, {:?}, sent {} times", cert.signed_authorities(), again + 1);
            if ok && (got.is_err() || out.len() != 1 - again) {
                run.fail("single-refused", format!("a good certificate was not taken: {got:?}"), replay.clone());
            }
            if !ok && (got.is_ok() || !out.is_empty() || node.db.contains(&cert.digest()).unwrap()) {
                run.fail("single-bad", format!("a bad certificate was taken: {got:?}"), replay.clone());
            }
            if out.iter().any(|c| !c.is_verified()) {
                run.fail("single-unverified", "an unverified certificate reached consensus", replay);
            }
        }
        run.outcome(if ok { "taken" } else { "refused" });
        run.trace();
        node.crash();
    }
    // by round: too old, within reach, too far ahead
    for committed in 0..6u32 {
        for round in 1..9u32 {
            let (node, mut ears) = start(w, CrashDb::default(), chain, 50, 3);
            node.bus.app().committed_round_updates().send_replace(committed);
            node.settle();
            let parents = if round == 1 { w.genesis.clone() } else { [HeaderDigest::new([round as u8; 32])].into_iter().collect() };
            let cert = w.cert(0, round, parents);
            let (sync, mut c) = (node.sync.clone(), cert.clone());
            let got = node.rt.block_on(async move { sync.process_peer_certificate(&mut c).await });
            node.settle();
            run.step(1);
            let gc = committed.saturating_sub(1);
            let taken = round >= gc && (round <= gc + 1 || round == 1);
            let fetch = (ears.fetch)();
            let replay = format!("round {round}, committed {committed}: {got:?}");
            if got.is_ok() != taken || node.db.contains(&cert.digest()).unwrap() != taken || (ears.certs)().len() != taken as usize {
                run.fail("round", "whether a certificate is taken does not fit its round", replay.clone());
            }
            if !taken && round > gc && fetch != [cert.digest()] {
                run.fail("round-fetch", "the ancestors of a certificate were not asked for", replay.clone());
            }
            // one too far ahead is not even kept pending: committing rounds does not bring it in
            node.bus.app().committed_round_updates().send_replace(20);
            node.settle();
            let late = (ears.certs)().len();
            let pending = !taken && round > gc && round <= committed + 3;
            if late != pending as usize {
                run.fail("round-later", "a pending certificate was not let in when its parents were collected, or one never taken was", replay);
            }
            run.trace();
            node.crash();
        }
    }
}

pub fn c06(run: &Run) {
    run.assume("A crash keeps a prefix of the commits made.");
    let scratch = Scratch::new();
    let chain = |t: usize| {
        let dir = scratch.path().join(format!("c{t}"));
        std::fs::create_dir_all(&dir).unwrap();
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let _in = rt.enter();
        ConsensusChain::new(dir, committee(4)).unwrap()
    };
    let mut widths: Vec<Vec<usize>> = vec![vec![1, 2, 2], vec![2, 2, 1], vec![2, 1, 2], vec![1, 1, 1, 1, 1], vec![3, 2], vec![4, 1], vec![3, 1, 1], vec![1, 3, 1], vec![1, 1, 3]];
    if run.thorough() {
        widths.extend([vec![2, 2, 2], vec![3, 3], vec![4, 2], vec![1, 2, 1, 2], vec![1, 1, 2, 2]]);
    }
    let all: Vec<Shape> = widths.iter().flat_map(|w| shapes(w)).collect();
    run.bound("DAGs", format!("{} DAGs of 5 or 6 certificates over up to 5 rounds, with every choice of parents", all.len()));
    run.bound("orders", "every order of delivery with every placing of 0 to 2 commits, each certificate again at the end; a stop after every write of every order");
    run.bound("collections", "every part of a DAG of 5 in (up to 3) every order, whole or with any one certificate bad in 7 ways, with two verification intervals");
    let next = std::sync::atomic::AtomicUsize::new(0);
    let full = Shape { rounds: vec![1, 1, 2, 2, 3], parents: vec![vec![], vec![], vec![0, 1], vec![1], vec![2, 3]] };
    let jobs = 1 + 64 + all.len() * 2;
    par(run, 16, |t| {
        let chain = chain(t);
        let w = World::new(4, 1000 + t as u64);
        loop {
            let n = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            if n >= jobs || run.stop() {
                break;
            }
            if n == 0 {
                singles(run, &w, &chain);
            } else if n <= 64 {
                let part = (n as u64 - 1) % 32;
                if part > 0 {
                    collections(run, &w, &chain, &full, part, if n <= 32 { 50 } else { 2 });
                }
            } else {
                let s = &all[(n - 65) / 2];
                let perms = permutations(s.rounds.len());
                let t = Trial::new(run, &w, s, &chain);
                if n % 2 == 1 {
                    crashes(&t, &perms);
                } else {
                    let top = *s.rounds.last().unwrap();
                    let mut commits = vec![vec![]];
                    commits.extend((2..=top.max(2)).map(|a| vec![a]));
                    if run.thorough() {
                        commits.extend((2..=top).flat_map(|a| (a + 1..=top).map(move |b| vec![a, b])));
                    }
                    orders(&t, &perms, &commits);
                }
            }
        }
    });
}

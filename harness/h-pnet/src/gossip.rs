//! P03: what a node makes of what members gossip: consensus results, votes on epoch records, certificates.
use crate::world::{committee, keys, pk, who, Made, World, LEN};
use libp2p::{gossipsub::{IdentTopic, TopicHash}, PeerId};
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::OnceLock,
    time::{Duration, Instant},
};
use tn_config::{Config, ConsensusConfig, LibP2pConfig, NetworkConfig};
use tn_network_libp2p::{
    types::{GossipPayload, NetworkCommand, NetworkEvent, NetworkHandle}, GossipMessage, Penalty,
};
use tn_primary::{
    network::{PrimaryNetwork, PrimaryNetworkHandle, PrimaryRequest, PrimaryResponse},
    ConsensusBus, NodeMode, StateSynchronizer,
};
use tn_storage::{mem_db::MemDatabase, CertificateStore as _};
use tn_types::{
    to_intent_message, Address, AuthorityIdentifier, BlsSignature, BlsSigner as _, Certificate, Committee, CommitteeBuilder, ConsensusHeaderDigest,
    ConsensusResult, Epoch, EpochDigest, EpochSeedMessage, EpochVote, Hash as _, HeaderBuilder, ProtocolSignature as _, TaskManager, TnReceiver as _,
    Vote,
};
use tokio::sync::mpsc;
use vlib::{
    explore::{seq_count, seq_of},
    par, Run,
};

fn members(epoch: Epoch, n: usize) -> Committee {
    let mut b = CommitteeBuilder::new(epoch);
    for i in 0..n {
        b.add_authority(pk(i), Address::repeat_byte(i as u8 + 1));
    }
    b.build()
}
fn is(a: NodeMode, b: NodeMode) -> bool {
    std::mem::discriminant(&a) == std::mem::discriminant(&b)
}
const RELAYER: usize = 5;
const AUTHOR: usize = 6;

struct Hub {
    rt: tokio::runtime::Runtime,
    bus: ConsensusBus,
    config: ConsensusConfig<MemDatabase>,
    db: MemDatabase,
    events: mpsc::Sender<NetworkEvent<PrimaryRequest, PrimaryResponse>>,
    net: mpsc::Receiver<NetworkCommand<PrimaryRequest, PrimaryResponse>>,
    votes: Box<dyn FnMut() -> Vec<EpochVote> + Send>,
    idle: usize,
    penalties: Vec<(usize, Penalty)>,
    _tasks: TaskManager,
}
impl Hub {
    /// A node of this epoch's committee of `n`, that knows what `truth` knows of others.
    fn new(truth: &World, epoch: Epoch, n: usize, mode: NodeMode) -> Self {
        static CONFIG: OnceLock<Config> = OnceLock::new();
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
        let _in = rt.enter();
        let db = MemDatabase::default();
        let config = ConsensusConfig::new_with_committee_and_prior_epoch_record_for_test(
            CONFIG.get_or_init(Config::default_for_test).clone(),
            db.clone(),
            keys()[0].clone(),
            members(epoch, n),
            NetworkConfig::default(),
            EpochDigest::from([5u8; 32]),
        )
        .unwrap();
        let tasks = TaskManager::default();
        let bus = ConsensusBus::new();
        bus.app().node_mode().send_replace(mode);
        let mut rx = bus.app().subscribe_new_epoch_votes();
        let votes = Box::new(move || std::iter::from_fn(|| rx.try_recv().ok()).collect());
        let sync = StateSynchronizer::new(config.clone(), bus.clone(), tasks.get_spawner());
        sync.spawn(&tasks);
        let (events, rx) = mpsc::channel(1000);
        let (tx, net) = mpsc::channel(1000);
        PrimaryNetwork::new(rx, PrimaryNetworkHandle::new(NetworkHandle::new(tx), config.chain_id()), config.clone(), bus.app().clone(), sync, tasks.get_spawner(), truth.chain.clone())
            .spawn(&tasks.get_spawner());
        drop(_in);
        let mut hub = Self { rt, bus, config, db, events, net, votes, idle: 0, penalties: vec![], _tasks: tasks };
        for _ in 0..50 {
            hub.rt.block_on(tokio::task::yield_now());
        }
        hub.idle = hub.alive();
        hub
    }
    fn alive(&self) -> usize {
        self.rt.metrics().num_alive_tasks()
    }
    /// What the node says to its own network layer.
    fn take(&mut self) {
        while let Ok(c) = self.net.try_recv() {
            if let NetworkCommand::ReportPenalty { peer, penalty } = c {
                self.penalties.push((who(&peer), penalty));
            }
        }
    }
    fn gossip(&mut self, topic: &str, data: Vec<u8>) -> bool {
        self.gossip_from(topic, data, Some(RELAYER), Some(AUTHOR))
    }
    /// `None`: nobody knows which member that peer is.
    fn gossip_from(&mut self, topic: &str, data: Vec<u8>, relayer: Option<usize>, author: Option<usize>) -> bool {
        let message = GossipMessage { source: Some(PeerId::random()), data, sequence_number: None, topic: TopicHash::from(IdentTopic::new(topic)) };
        let payload = GossipPayload { message, relayer: relayer.map(pk), author: author.map(pk) };
        self.penalties.clear();
        self.events.try_send(NetworkEvent::Gossip(Box::new(payload))).unwrap();
        let since = Instant::now();
        loop {
            for _ in 0..8 {
                self.rt.block_on(tokio::task::yield_now());
            }
            self.take();
            if self.alive() <= self.idle {
                return true;
            }
            if since.elapsed() > Duration::from_secs(20) {
                return false;
            }
            std::thread::sleep(Duration::from_micros(20));
        }
    }
    fn published(&self) -> (Epoch, u64, ConsensusHeaderDigest) {
        self.bus.app().published_consensus_num_hash()
    }
    fn topics(&self) -> [String; 3] {
        let c = self.config.chain_id();
        [LibP2pConfig::primary_topic(c), LibP2pConfig::consensus_output_topic(c), LibP2pConfig::epoch_vote_topic(c)]
    }
}
/// The bytes and the topic a member's node publishes something under.
fn published(f: impl FnOnce(PrimaryNetworkHandle) -> std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send>>, chain: u64) -> (String, Vec<u8>) {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    rt.block_on(async {
        let (tx, mut rx) = mpsc::channel(10);
        let job = tokio::spawn(f(PrimaryNetworkHandle::new(NetworkHandle::new(tx), chain)));
        let Some(NetworkCommand::Publish { topic, msg, .. }) = rx.recv().await else { panic!("nothing is published") };
        job.abort();
        (topic, msg)
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Result_ {
    epoch: Epoch,
    round: u32,
    number: u64,
    hash: u8,
}
fn hash(h: u8) -> ConsensusHeaderDigest {
    ConsensusHeaderDigest::from([h; 32])
}
fn sign(r: Result_, by: usize) -> BlsSignature {
    let d = ConsensusResult::digest_data(r.epoch, r.round, r.number, hash(r.hash));
    let m = to_intent_message(d);
    keys()[by].request_signature_direct(&tn_types::encode(&m))
}
/// A result in the name of a member, signed by another or over another one.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Said {
    who: usize,
    what: Result_,
    signer: usize,
    signed: Result_,
}
type Sent = BTreeMap<Said, (String, Vec<u8>)>;
fn wire(said: &[Said], chain: u64) -> Sent {
    said.iter()
        .map(|s| {
            let s = *s;
            let sig = sign(s.signed, s.signer);
            (s, published(move |h| Box::pin(async move { drop(h.publish_consensus(s.what.epoch, s.what.round, s.what.number, hash(s.what.hash), pk(s.who), sig).await) }), chain))
        })
        .collect()
}
/// An independent account of what members have said.
struct Account {
    n: usize,
    /// Who is a member in the epochs known.
    known: BTreeMap<Epoch, usize>,
    ever: BTreeMap<Result_, BTreeSet<usize>>,
    since: BTreeMap<Result_, BTreeSet<usize>>,
    number: u64,
    missing: Epoch,
}
impl Account {
    fn enough(&self, epoch: Epoch) -> usize {
        self.known.get(&epoch).map_or(usize::MAX, |n| n / 3 + 1)
    }
    /// Takes one in; whether it may be charged to its author.
    fn hear(&mut self, s: Said) -> bool {
        let Some(n) = self.known.get(&s.what.epoch) else {
            if s.what.number > self.number {
                self.missing = self.missing.max(s.what.epoch);
            }
            return false;
        };
        let member = s.who < *n;
        let good = s.who == s.signer && s.what == s.signed;
        if member && good {
            self.ever.entry(s.what).or_default().insert(s.who);
            self.since.entry(s.what).or_default().insert(s.who);
        }
        member && !good
    }
    /// Members that said more than one thing of a number.
    fn liars(&self, number: u64) -> BTreeSet<usize> {
        let mut v = BTreeSet::new();
        for m in 0..self.n {
            if self.ever.iter().filter(|(r, s)| r.number == number && s.contains(&m)).count() > 1 {
                v.insert(m);
            }
        }
        v
    }
}
fn results(run: &Run, hub: &mut Hub, acc: &mut Account, sent: &Sent, said: &[Said], what: &dyn Fn() -> String) {
    for s in said {
        run.step(1);
        let before = hub.published();
        let (topic, data) = &sent[s];
        if !hub.gossip(topic, data.clone()) {
            return run.fail("endless", "gossip is not done with", what());
        }
        let chargeable = acc.hear(*s);
        let after = hub.published();
        if let Some((p, k)) = hub.penalties.iter().find(|(p, _)| !chargeable || *p != AUTHOR) {
            run.fail("blame", format!("{} is charged {k:?} for {s:?}", if *p == AUTHOR { "the author" } else { "the relayer" }), what());
        }
        let now = Result_ { epoch: after.0, round: 0, number: after.1, hash: after.2.as_ref()[0] };
        if after != before {
            let by = acc.ever.iter().filter(|(r, _)| (r.epoch, r.number, r.hash) == (now.epoch, now.number, now.hash)).map(|(_, s)| s.len()).max().unwrap_or(0);
            if by < acc.enough(now.epoch) {
                run.fail("believed", format!("{now:?} is taken for certain, and {by} of {} members said so", acc.n), what());
            }
            if after.1 <= before.1 {
                run.fail("backwards", format!("{:?} after {:?}", after.1, before.1), what());
            }
            run.outcome("published");
            acc.number = after.1;
            acc.since.clear();
        } else {
            // a result that honest members enough to vouch for it said since the last one, and that is newer
            for (r, by) in &acc.since {
                let honest = by.difference(&acc.liars(r.number)).count();
                if r.number > after.1 && honest >= acc.enough(r.epoch) {
                    run.fail("missed", format!("{by:?} of {} members said {r:?}, and it is not published", acc.n), what());
                }
            }
        }
        if *hub.bus.app().requested_missing_epoch().borrow() != acc.missing {
            run.fail("missing-epoch", format!("epoch {} is asked for, and {} should be", *hub.bus.app().requested_missing_epoch().borrow(), acc.missing), what());
            return;
        }
    }
    run.trace();
}
fn start(hub: &Hub, n: usize) -> Account {
    Account { n, known: [(0, 4), (1, 4), (2, n)].into(), ever: Default::default(), since: Default::default(), number: hub.published().1, missing: 0 }
}

fn consensus(run: &Run, truth: &World, n: usize, depth: usize, few: bool) {
    let r = |epoch, round, number, hash| Result_ { epoch, round, number, hash };
    // two numbers, of one of them two versions by hash and one by round, and one of an epoch nobody knows
    let news = [r(2, 4, 1, 1), r(2, 4, 1, 2), r(2, 6, 1, 1), r(2, 8, 2, 3), r(2, 10, 2, 4), r(9, 4, 5, 5), r(1, 4, 3, 7)];
    let news = if few { vec![news[0], news[1], news[3], news[5]] } else { news.to_vec() };
    let mut said: Vec<Said> = vec![];
    let good = |who, what| Said { who, what, signer: who, signed: what };
    for m in 0..n {
        said.extend(news.iter().map(|w| good(m, *w)));
    }
    // an outsider; one in another's name; one over another result
    said.push(good(n, news[0]));
    said.push(Said { who: 1, what: news[0], signer: 0, signed: news[0] });
    said.push(Said { who: 2, what: news[0], signer: 2, signed: news[1] });
    if !few {
        said.push(Said { who: 1, what: news[3], signer: n, signed: news[3] });
    }
    let chain = Hub::new(truth, 2, n, NodeMode::Observer).config.chain_id();
    let sent = wire(&said, chain);
    let k = said.len() as u64;
    run.bound(&format!("results gossiped in a committee of {n}"), format!("{depth} of {k}"));
    par(run, k as usize, |first| {
        for len in 1..=depth {
            for i in 0..seq_count(k, len - 1) {
                if run.stop() {
                    return;
                }
                let mut h = vec![first];
                h.extend(seq_of(i, k, len - 1).into_iter().map(|x| x as usize));
                // members are told apart only by the order they first speak in
                let mut next = 0;
                let mut alike = true;
                for s in h.iter().map(|i| said[*i]) {
                    if s.who == s.signer && s.who < n && s.who == next {
                        next += 1;
                    } else if s.who == s.signer && s.who < n && s.who > next {
                        alike = false;
                    }
                }
                // what goes before was seen with shorter ones
                if !alike || len < depth && len > 1 && h.iter().all(|i| *i < n * news.len()) {
                    continue;
                }
                let mut hub = Hub::new(truth, 2, n, NodeMode::Observer);
                let mut acc = start(&hub, n);
                let list: Vec<_> = h.iter().map(|i| said[*i]).collect();
                results(run, &mut hub, &mut acc, &sent, &list, &|| format!("{list:?}"));
                run.state(&h);
            }
        }
    });
}
/// Members that say many things of one number, while the others say one.
fn flood(run: &Run, truth: &World, n: usize) {
    let f = (n - 1) / 3;
    let honest: Vec<usize> = (f..f + n / 3 + 1).collect();
    let real = Result_ { epoch: 2, round: 4, number: 1, hash: 100 };
    let fake = |i: usize| Result_ { epoch: 2, round: 4, number: 1, hash: 1 + i as u8 };
    let many = 45;
    let mut said = vec![];
    for i in 0..many {
        for b in 0..f {
            said.push(Said { who: b, what: fake(i), signer: b, signed: fake(i) });
        }
    }
    for m in &honest {
        said.push(Said { who: *m, what: real, signer: *m, signed: real });
    }
    let chain = Hub::new(truth, 2, n, NodeMode::Observer).config.chain_id();
    let sent = wire(&said, chain);
    // how many come before, between and after the honest ones; and whether the liars agree or take turns
    let sizes = [0, 1, 3, 19, 20, 21, many];
    par(run, sizes.len() * sizes.len() * 2, |p| {
        let (a, b, together) = (sizes[p / 2 / sizes.len()], sizes[p / 2 % sizes.len()], p % 2 == 0);
        let mut list = vec![];
        let mut at = 0;
        let mut lies = |k: usize, list: &mut Vec<Said>| {
            for _ in 0..k {
                for b in 0..f {
                    if together || at % f == b {
                        let w = fake(at % many);
                        list.push(Said { who: b, what: w, signer: b, signed: w });
                    }
                }
                at += 1;
            }
        };
        lies(a, &mut list);
        for (i, m) in honest.iter().enumerate() {
            list.push(Said { who: *m, what: real, signer: *m, signed: real });
            if i + 1 < honest.len() {
                lies(b, &mut list);
            }
        }
        let mut hub = Hub::new(truth, 2, n, NodeMode::Observer);
        let mut acc = start(&hub, n);
        let what = format!("{a} lies before and {b} between, of {f} liars of {n} who {}", if together { "agree" } else { "take turns" });
        results(run, &mut hub, &mut acc, &sent, &list, &|| what.clone());
        if hub.published() != (2, 1, hash(100)) {
            run.fail("flooded", format!("{:?} is published in the end", hub.published()), &what);
        }
        run.state(&what);
    });
}
/// Numbers in a row, each said by one member before the others say the one before.
fn ahead(run: &Run, truth: &World, n: usize) {
    let e = n / 3 + 1;
    let r = |k: u64| Result_ { epoch: 2, round: 2 * k as u32, number: k, hash: k as u8 };
    let all: Vec<Said> = (1..=6).flat_map(|k| (0..n).map(move |m| Said { who: m, what: r(k), signer: m, signed: r(k) })).collect();
    let chain = Hub::new(truth, 2, n, NodeMode::Observer).config.chain_id();
    let sent = wire(&all, chain);
    par(run, 7 * 7 * 7, |p| {
        // the first results go to `lead` numbers first, from the last or the first on; then each number's others in turn
        let (lead, step, skip) = (p / 49, p / 7 % 7, p % 7);
        let mut list = vec![];
        for k in 1..=lead as u64 {
            list.push(Said { who: 0, what: r(k), signer: 0, signed: r(k) });
        }
        for k in 1..=6u64 {
            if skip > 0 && k as usize == skip {
                continue;
            }
            for m in 0..e + usize::from(step > 3) {
                let m = (m + step) % n;
                list.push(Said { who: m, what: r(k), signer: m, signed: r(k) });
            }
        }
        let mut hub = Hub::new(truth, 2, n, NodeMode::Observer);
        let mut acc = start(&hub, n);
        results(run, &mut hub, &mut acc, &sent, &list, &|| format!("{list:?}"));
        run.state(&list);
    });
}
/// Liars that fill a node's memory with later numbers, one after the other or two of them together, while the others
/// say one result: what was said lately is not forgotten for what nobody else says.
fn crowded(run: &Run, truth: &World, n: usize) {
    let (f, e) = ((n - 1) / 3, n / 3 + 1);
    let real = Result_ { epoch: 2, round: 4, number: 1, hash: 250 };
    let fake = |i: usize| Result_ { epoch: 2, round: 6, number: 101 + i as u64, hash: i as u8 };
    let most = 30 + 15 * (e - 1);
    let mut all = vec![];
    for i in 0..most {
        all.extend((0..f).map(|m| Said { who: m, what: fake(i), signer: m, signed: fake(i) }));
    }
    all.extend((f..f + e).map(|m| Said { who: m, what: real, signer: m, signed: real }));
    let chain = Hub::new(truth, 2, n, NodeMode::Observer).config.chain_id();
    let sent = wire(&all, chain);
    let (befores, betweens) = ([0, 1, 18, 19, 20, 21, 30], [0, 1, 5, 10, 15]);
    par(run, befores.len() * betweens.len() * f, |p| {
        let (before, between, liars) = (befores[p / f / betweens.len()], betweens[p / f % betweens.len()], p % f + 1);
        let mut list = vec![];
        let mut i = 0;
        let mut lie = |many: usize, list: &mut Vec<Said>| {
            for _ in 0..many {
                list.extend((0..liars).map(|m| Said { who: m, what: fake(i), signer: m, signed: fake(i) }));
                i += 1;
            }
        };
        lie(before, &mut list);
        for m in f..f + e {
            if m > f {
                lie(between, &mut list);
            }
            list.push(Said { who: m, what: real, signer: m, signed: real });
        }
        let mut hub = Hub::new(truth, 2, n, NodeMode::Observer);
        let mut acc = start(&hub, n);
        let what = format!("{liars} of {n} say {before} later results before and {between} between each two of the honest {e}");
        results(run, &mut hub, &mut acc, &sent, &list, &|| what.clone());
        if hub.published() != (2, 1, hash(250)) {
            run.fail("crowded", format!("{:?} is published in the end", hub.published()), &what);
        }
        run.state(&what);
    });
}
/// Results that show an active member that it is behind.
fn behind(run: &Run, truth: &World) {
    let n = 4;
    let mut probe = Hub::new(truth, 0, n, NodeMode::CvvActive);
    let window = probe.config.parameters().gc_depth.saturating_sub(tn_types::GC_ACTIVITY_BUFFER);
    run.bound("rounds a member may be behind", window);
    probe.take();
    // in the epoch it executes: by rounds
    for committed in [0u32, 7, 60] {
        for round in [1, committed + window - 1, committed + window, committed + window + 1, committed + window + 50] {
            for mode in [NodeMode::CvvActive, NodeMode::CvvInactive, NodeMode::Observer] {
                let w = Result_ { epoch: 0, round, number: 3, hash: 3 };
                let said: Vec<_> = (1..=2).map(|m| Said { who: m, what: w, signer: m, signed: w }).collect();
                let mut hub = Hub::new(truth, 0, n, mode);
                hub.bus.app().committed_round_updates().send_replace(committed);
                let sent = wire(&said, hub.config.chain_id());
                let late = is(mode, NodeMode::CvvActive) && committed + window < round;
                let what = format!("a {mode:?} that committed round {committed} hears of round {round}");
                let off = hub.config.shutdown().subscribe();
                for s in &said {
                    if !is(hub.bus.app().current_node_mode(), mode) {
                        run.fail("hasty", "one member's word makes it stop", &what);
                    }
                    hub.gossip(&sent[s].0, sent[s].1.clone());
                }
                run.step(2);
                run.trace();
                run.state(&what);
                let now = hub.bus.app().current_node_mode();
                let off = off.noticed();
                if (is(now, NodeMode::CvvInactive)) != (late || is(mode, NodeMode::CvvInactive)) || off != late {
                    run.fail("behind", format!("it is {now:?} then, and {}", if off { "stops" } else { "goes on" }), &what);
                }
                if (hub.published().1 == 3) == late {
                    run.fail("behind-published", format!("{:?} is published", hub.published()), &what);
                }
            }
        }
    }
    // in another: by numbers
    for number in 1..=4 {
        for had in 0..=2u64 {
            let w = |k| Result_ { epoch: 2, round: 2, number: k, hash: k as u8 };
            let mut hub = Hub::new(truth, 2, n, NodeMode::CvvActive);
            if had > 0 {
                hub.bus.app().publish_consensus_num_hash_if_newer(1, had, hash(90));
            }
            let said: Vec<_> = (1..=2).map(|m| Said { who: m, what: w(number), signer: m, signed: w(number) }).collect();
            let sent = wire(&said, hub.config.chain_id());
            for s in &said {
                hub.gossip(&sent[s].0, sent[s].1.clone());
            }
            let what = format!("a member that saw number {had} hears of {number} of a later epoch");
            let late = number > had + 1;
            if (is(hub.bus.app().current_node_mode(), NodeMode::CvvInactive)) != late || (hub.published().1 == number) != (number == had + 1 || number <= had && number == had) {
                run.fail("behind", format!("it is {:?} then, and at {:?}", hub.bus.app().current_node_mode(), hub.published().1), &what);
            }
            run.step(2);
            run.state(&what);
            run.trace();
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Ballot {
    who: usize,
    epoch: Epoch,
    /// A vote on the record that is known, on another one, or the known one's under another epoch's number.
    record: u8,
    signed: bool,
    topic: usize,
}
/// Votes on the records of epochs.
fn ballots(run: &Run, truth: &'static World, certified: bool, depth: usize) {
    let mut all = vec![];
    for who in [0, 1, 4] {
        for epoch in [0, 1, 2] {
            for record in 0..2 {
                if who == 1 && (record == 1 || epoch == 2) {
                    continue;
                }
                all.push(Ballot { who, epoch, record, signed: true, topic: 2 });
            }
        }
    }
    all.push(Ballot { who: 0, epoch: 1, record: 0, signed: false, topic: 2 });
    all.push(Ballot { who: 4, epoch: 1, record: 0, signed: false, topic: 2 });
    all.push(Ballot { who: 0, epoch: 1, record: 2, signed: true, topic: 2 });
    all.push(Ballot { who: 0, epoch: 1, record: 0, signed: true, topic: 0 });
    all.push(Ballot { who: 0, epoch: 1, record: 0, signed: true, topic: 1 });
    let chain = Hub::new(truth, 2, 4, NodeMode::Observer).config.chain_id();
    let made: Vec<(EpochVote, Vec<u8>)> = all
        .iter()
        .map(|b| {
            let mut rec = truth.records[if b.record == 2 { 0 } else { b.epoch.min(1) as usize }].clone();
            if b.record == 1 || b.epoch == 2 {
                rec.parent_hash = EpochDigest::from([77; 32]);
            }
            let mut v = rec.sign_vote(&keys()[b.who]);
            v.epoch = b.epoch;
            if !b.signed {
                v.signature = rec.sign_vote(&keys()[6]).signature;
            }
            let w = v.clone();
            (v, published(move |h| Box::pin(async move { drop(h.publish_epoch_vote(w).await) }), chain).1)
        })
        .collect();
    let k = all.len() as u64;
    run.bound("votes gossiped", format!("{depth} of {k}"));
    par(run, (k * k) as usize, |p| {
        for len in [2, depth] {
            for i in 0..seq_count(k, len - 2) {
                if run.stop() {
                    return;
                }
                let mut h = vec![p / k as usize, p % k as usize];
                h.extend(seq_of(i, k, len - 2).into_iter().map(|x| x as usize));
                let mut hub = Hub::new(truth, 2, 4, NodeMode::Observer);
                let topics = hub.topics();
                let what = || format!("the first epoch's record is {}certified; {:?}", if certified { "" } else { "not " }, h.iter().map(|i| &all[*i]).collect::<Vec<_>>());
                let mut had = BTreeSet::new();
                for i in &h {
                    run.step(1);
                    let b = &all[*i];
                    if !hub.gossip(&topics[b.topic], made[*i].1.clone()) {
                        return run.fail("endless", "gossip is not done with", what());
                    }
                    let open = b.epoch == 1 || b.epoch == 0 && !certified;
                    let member = b.who < 4;
                    let valid = b.topic == 2 && open && b.record == 0 && b.signed && member;
                    let want: Vec<EpochVote> = if valid && had.insert((b.who, b.epoch)) { vec![made[*i].0.clone()] } else { vec![] };
                    let got = (hub.votes)();
                    if got != want {
                        run.fail("vote", format!("{b:?} is passed on {} times, and {} would be right", got.len(), want.len()), what());
                    }
                    // what its author did wrong is charged to it, if it could be seen to be wrong
                    let wrong = b.topic != 2 || open && (b.record != 0 || member && !b.signed && !had.contains(&(b.who, b.epoch)));
                    let may = wrong || open && !b.signed && member;
                    let by: BTreeSet<_> = hub.penalties.iter().map(|(p, _)| *p).collect();
                    if by.iter().any(|p| *p != AUTHOR) || by.is_empty() && wrong || !by.is_empty() && !may {
                        run.fail("vote-blame", format!("{b:?}: {:?} are charged", hub.penalties), what());
                    }
                    if !hub.bus.app().requested_missing_epoch().borrow().eq(&0) {
                        run.fail("vote-request", "a vote makes it ask for an epoch", what());
                    }
                }
                run.state(&(certified, &h));
                run.trace();
            }
        }
    });
}

fn cert(epoch: Epoch, author: usize, round: u32, signers: &[usize], salt: u64) -> Certificate {
    let c = members(epoch, 4);
    let id = |i: usize| AuthorityIdentifier::from(pk(i));
    let h = HeaderBuilder::default()
        .author(id(author))
        .round(round)
        .epoch(epoch)
        .created_at(1_700_000_000 + salt)
        .parents(Certificate::genesis(&c).iter().map(|c| c.digest()).collect())
        .seed_signature(EpochSeedMessage::new(epoch, round, EpochDigest::from([5u8; 32])).sign(&keys()[author]))
        .build();
    let votes = signers.iter().map(|i| (id(*i), *Vote::new(&h, id(*i), &keys()[*i]).signature())).collect();
    Certificate::new_unverified(&c, h, votes).unwrap()
}
/// Certificates, as they are and with something wrong, at nodes of every kind.
fn certificates(run: &Run, truth: &World, depth: usize) {
    let good: Vec<_> = (0..2).map(|a| cert(1, a, 1, &[0, 1, 2], 0)).collect();
    let mut forged = cert(1, 2, 1, &[0, 1, 2], 0);
    // the votes of another header
    forged.update_header_author_for_test(AuthorityIdentifier::from(pk(3)));
    let other = cert(0, 0, 1, &[0, 1, 2], 0);
    let alien = cert(9, 0, 1, &[0, 1, 2], 0);
    // (certificate, whether it is what it says, topic)
    let mut all: Vec<(&str, Certificate, bool, usize)> = vec![];
    all.push(("one", good[0].clone(), true, 0));
    all.push(("another", good[1].clone(), true, 0));
    all.push(("a forged one", forged, false, 0));
    all.push(("another epoch's", other, true, 0));
    all.push(("an unknown epoch's", alien, false, 0));
    all.push(("one under another topic", cert(1, 3, 1, &[0, 1, 3], 0), true, 1));
    all.push(("one under a third topic", cert(1, 3, 1, &[0, 2, 3], 1), true, 2));
    let chain = Hub::new(truth, 1, 4, NodeMode::Observer).config.chain_id();
    let data: Vec<_> = all
        .iter()
        .map(|(_, c, ..)| {
            let c = c.clone();
            published(move |h| Box::pin(async move { drop(h.publish_certificate(c).await) }), chain).1
        })
        .collect();
    let k = all.len() as u64;
    for mode in [NodeMode::CvvActive, NodeMode::CvvInactive, NodeMode::Observer] {
        for len in 1..=depth {
            par(run, seq_count(k, len) as usize, |i| {
                let h = seq_of(i as u64, k, len);
                let mut hub = Hub::new(truth, 1, 4, mode);
                let mut told = hub.bus.app().subscribe_exex_certificates();
                let topics = hub.topics();
                let what = || format!("a {mode:?} hears {:?}", h.iter().map(|i| all[*i as usize].0).collect::<Vec<_>>());
                for i in &h {
                    run.step(1);
                    let (name, c, real, topic) = &all[*i as usize];
                    if !hub.gossip(&topics[*topic], data[*i as usize].clone()) {
                        return run.fail("endless", "gossip is not done with", what());
                    }
                    let fine = *real && *topic == 0;
                    if let Some((p, _)) = hub.penalties.iter().find(|(p, _)| fine || *p != AUTHOR) {
                        run.fail("cert-blame", format!("{} is charged for {name}", if *p == AUTHOR { "the author" } else { "the relayer" }), what());
                    }
                    if *topic != 0 && hub.penalties.is_empty() {
                        run.fail("cert-blame", format!("nobody is charged for {name}"), what());
                    }
                    let heard: Vec<_> = std::iter::from_fn(|| told.try_recv().ok()).map(|c| c.digest()).collect();
                    let want: Vec<_> = if fine && !is(hub.bus.app().current_node_mode(), NodeMode::CvvActive) { vec![c.digest()] } else { vec![] };
                    // a member has no use for an earlier epoch's
                    let past = c.epoch() != 1 && is(mode, NodeMode::CvvInactive) && heard.is_empty();
                    if heard != want && !past {
                        run.fail("told", format!("{name} is told of {} times", heard.len()), what());
                    }
                }
                for (j, (name, c, real, topic)) in all.iter().enumerate() {
                    let kept = hub.db.read(c.digest()).unwrap().is_some();
                    let came = h.iter().any(|i| *i as usize == j);
                    let want = came && *real && *topic == 0 && c.epoch() == 1 && !is(mode, NodeMode::Observer);
                    if kept != want {
                        run.fail("kept", format!("{name} is {}kept", if kept { "" } else { "not " }), what());
                    }
                }
                run.state(&(mode as usize, &h));
                run.trace();
            });
        }
    }
}
/// What is no gossip at all.
fn noise(run: &Run, truth: &World) {
    let w = Result_ { epoch: 2, round: 4, number: 1, hash: 1 };
    let s = Said { who: 0, what: w, signer: 0, signed: w };
    let mut hub = Hub::new(truth, 2, 4, NodeMode::Observer);
    let (topic, data) = wire(&[s], hub.config.chain_id())[&s].clone();
    for n in 0..=data.len() + 1 {
        let mut d = data.clone();
        d.resize(n, 0);
        hub.gossip(&topic, d);
        let charged: Vec<_> = hub.penalties.iter().map(|(p, _)| *p).collect();
        if charged != if n == data.len() { vec![] } else { vec![AUTHOR] } {
            run.fail("noise", format!("{charged:?} are charged"), format!("{n} bytes of {}", data.len()));
        }
        run.step(1);
    }
    let mut hub = Hub::new(truth, 2, 4, NodeMode::Observer);
    for t in [0, 2] {
        let topics = hub.topics();
        hub.gossip(&topics[t], data.clone());
        if hub.penalties.iter().map(|(p, _)| *p).collect::<Vec<_>>() != [AUTHOR] {
            run.fail("topic", "a result under another topic is not charged to its author", topics[t].clone());
        }
    }
    for (relayer, author) in [(Some(RELAYER), Some(AUTHOR)), (None, Some(AUTHOR)), (Some(RELAYER), None), (None, None)] {
        for (t, d) in [(&topic, data[..5].to_vec()), (&hub.topics()[0], data.clone()), (&topic, vec![])] {
            hub.gossip_from(t, d, relayer, author);
            let charged: Vec<_> = hub.penalties.iter().map(|(p, _)| *p).collect();
            if charged != author.into_iter().collect::<Vec<_>>() {
                run.fail("noise", format!("{charged:?} are charged"), format!("relayed by {relayer:?}, written by {author:?}"));
            }
            run.step(1);
        }
    }
    run.trace();
}

pub fn p03(run: &Run) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let truth: &'static World = Box::leak(Box::new(rt.block_on(World::new(Made { len: LEN, ..Default::default() }))));
    let certified: &'static World = Box::leak(Box::new(rt.block_on(async {
        let w = World::new(Made { len: LEN, ..Default::default() }).await;
        let votes: Vec<_> = (0..4).map(|i| w.records[0].sign_vote(&keys()[i])).collect();
        let signed = tn_types::BlsAggregateSignature::aggregate(&votes.iter().map(|v| v.signature).collect::<Vec<_>>(), true).expect("aggregate").to_signature();
        let mut who = roaring::RoaringBitmap::new();
        (0..4).for_each(|i| drop(who.insert(i)));
        let cert = tn_types::EpochCertificate { epoch_hash: w.records[0].digest(), signature: signed, signed_authorities: who };
        w.chain.epochs().save_certificate(w.records[0].digest(), cert).await.unwrap();
        w
    })));
    let deep = run.thorough();
    let _ = committee;
    let timed = |name: &str, f: &dyn Fn()| {
        let t = Instant::now();
        f();
        eprintln!("{name}: {:?}", t.elapsed());
    };
    timed("noise", &|| noise(run, truth));
    timed("behind", &|| behind(run, truth));
    timed("certificates", &|| certificates(run, truth, if deep { 4 } else { 3 }));
    timed("ballots", &|| {
        ballots(run, truth, false, if deep { 4 } else { 3 });
        ballots(run, certified, true, if deep { 4 } else { 3 })
    });
    timed("flood", &|| [4, 7].iter().for_each(|n| flood(run, truth, *n)));
    timed("crowded", &|| [4, 7].iter().for_each(|n| crowded(run, truth, *n)));
    timed("ahead", &|| [4, 7].iter().for_each(|n| ahead(run, truth, *n)));
    for n in [4, 7] {
        timed("consensus", &|| consensus(run, truth, n, if deep { 4 } else { 3 }, false));
        timed("consensus, fewer", &|| consensus(run, truth, n, if deep { 5 } else { 4 }, true));
    }
}

//! C07: what a node proposes, and when.
use crate::{
    crashdb::CrashDb,
    env::{config, digests, id, keys, record, World},
};
use std::{
    collections::{BTreeMap, BTreeSet, VecDeque},
    time::Duration,
};
use tn_primary::{
    consensus::{LeaderSchedule, LeaderSwapTable},
    proposer::{OurDigestMessage, Proposer},
    ConsensusBus,
};
use tn_storage::ProposerStore;
use tn_types::{
    BlsSignature, Certificate, ConsensusHeaderDigest, ConsensusNumHash, EpochSeedMessage, ExecHeader, Hash as _, Database as _, Header, HeaderBuilder, HeaderDigest, Round,
    SealedHeader, TaskManager, TnReceiver, TnSender as _, B256,
};
use vlib::{explore::dfs, par, Run};

const MIN: u64 = 400;
const MAX: u64 = 1000;
const THRESHOLD: usize = 2;
const MOST: usize = 3;
const ROUNDS: Round = 12;

/// Certificates to offer: per round and author, one naming the leader of the round before and one not naming it.
struct Dag {
    w: World,
    schedule: LeaderSchedule,
    certs: Vec<Vec<[Certificate; 2]>>,
    seeds: Vec<Vec<BlsSignature>>,
}
impl Dag {
    fn new(salt: u64) -> Self {
        let w = World::new(4, salt);
        let schedule = LeaderSchedule::new(w.committee.clone(), LeaderSwapTable::default());
        let mut certs: Vec<Vec<[Certificate; 2]>> = vec![];
        for r in 1..=ROUNDS {
            let row = (0..4)
                .map(|a| {
                    [true, false].map(|links| {
                        let parents = match certs.last() {
                            None => w.genesis.clone(),
                            Some(prev) => {
                                let lead = (r % 2 == 1).then(|| (0..4).find(|i| id(*i) == schedule.leader(r - 1).id()).unwrap());
                                let skip = match lead {
                                    Some(l) if links => (l + 1) % 4,
                                    Some(l) => l,
                                    None => 3,
                                };
                                digests(prev.iter().enumerate().filter(|(i, _)| *i != skip).map(|(_, c)| &c[0]))
                            }
                        };
                        w.cert(a, r, parents)
                    })
                })
                .collect();
            certs.push(row);
        }
        let seeds = (0..4).map(|m| (0..ROUNDS + 6).map(|r| EpochSeedMessage::new(0, r, record()).sign(&keys()[m])).collect()).collect();
        Self { w, schedule, certs, seeds }
    }
    fn leader(&self, round: Round) -> usize {
        (0..4).find(|i| id(*i) == self.schedule.leader(round).id()).unwrap()
    }
    /// Three certificates of a round, and the fourth to follow.
    fn quorum(&self, round: Round, kind: usize) -> (Vec<Certificate>, Certificate) {
        let row = &self.certs[round as usize - 1];
        if round % 2 == 0 {
            let l = self.leader(round);
            let out = if kind == 0 { (l + 1) % 4 } else { l };
            ((0..4).filter(|a| *a != out).map(|a| row[a][0].clone()).collect(), row[out][0].clone())
        } else {
            let links = [3, 1, 0][kind];
            ((0..3).map(|a| row[a][(a >= links) as usize].clone()).collect(), row[3][0].clone())
        }
    }
}

type Digest = (B256, u16);

/// The running node.
struct Live {
    bus: ConsensusBus,
    rt: tokio::runtime::Runtime,
    _tasks: TaskManager,
    headers: Box<dyn FnMut() -> Option<Header>>,
}
impl Live {
    fn start(d: &Dag, me: usize, db: &CrashDb, primary_round: Round) -> Self {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
        let config = config(&d.w, me, db, |p, _| {
            p.min_header_delay = Duration::from_millis(MIN);
            p.max_header_delay = Duration::from_millis(MAX);
            p.header_num_of_batches_threshold = THRESHOLD;
            p.max_header_num_of_batches = MOST;
        });
        let bus = ConsensusBus::new();
        bus.app().recent_blocks().send_modify(|blocks| {
            let block = ExecHeader { number: 40 + primary_round as u64, ..Default::default() };
            blocks.push_latest(0, ConsensusNumHash::new(0, ConsensusHeaderDigest::default()), Some(SealedHeader::new(block, B256::repeat_byte(3))))
        });
        bus.app().primary_round_updates().send_replace(primary_round);
        let mut rx = bus.subscribe_headers();
        let _tasks = {
            let _in = rt.enter();
            let tasks = TaskManager::default();
            Proposer::new(config, id(me), bus.clone(), LeaderSchedule::new(d.w.committee.clone(), LeaderSwapTable::default()), tasks.get_spawner()).spawn(&tasks);
            tasks
        };
        Self { bus, rt, _tasks, headers: Box::new(move || rx.try_recv().ok()) }
    }
    fn settle(&self) {
        self.rt.block_on(async {
            for _ in 0..25 {
                tokio::task::yield_now().await;
            }
        });
    }
}

/// What is known from outside.
#[derive(Default)]
struct Seen {
    /// Every header that ever left, over all restarts.
    left: BTreeMap<Round, HeaderDigest>,
    /// Digests acknowledged in this run and not in a header since.
    queue: VecDeque<Digest>,
    /// Headers that left in this run and are not known to be committed.
    open: BTreeMap<Round, Vec<Digest>>,
    /// The round of the last header, or of the parents the node caught up with.
    round: Round,
    parents: Vec<Certificate>,
    leader: Option<HeaderDigest>,
    genesis: bool,
    /// When the last header left, or the node caught up.
    since: u64,
    ready: bool,
    caught_up: bool,
    /// The first wait after a start may be shorter.
    lenient: bool,
    /// The shortest wait may be over: it was cut short before the last header.
    hurried: bool,
    /// The disk is stalled, and what waits for it.
    held: bool,
    flight: Option<Flight>,
}
enum Flight {
    New { round: Round, latest: u64, parents: BTreeSet<HeaderDigest>, payload: Vec<Digest> },
    Again,
}

const ACTIONS: [&str; 13] = [
    "a batch", "parents that let it go on", "parents with few votes or no leader", "parents with no votes", "parents of a round further on", "a late parent",
    "time", "more time", "a commit", "a commit of the newest header alone", "a crash", "a crash that loses nothing, having caught up", "the disk stalls or recovers",
];

struct Path<'a> {
    run: &'a Run,
    d: &'a Dag,
    me: usize,
    db: CrashDb,
    live: Live,
    s: Seen,
    now: u64,
    offered: Round,
    late: Option<Certificate>,
    digests: u8,
    log: Vec<&'static str>,
    start: Round,
}
impl<'a> Path<'a> {
    fn new(run: &'a Run, d: &'a Dag, me: usize, db: CrashDb) -> Self {
        let live = Live::start(d, me, &db, 0);
        let mut p = Self { run, d, me, db, live, s: Seen::default(), now: 0, offered: 0, late: None, digests: 0, log: vec![], start: 0 };
        p.begin();
        p
    }
    fn bad(&self, key: &str, what: String) {
        let s = &self.s;
        self.run.fail(key, what, format!("member {} of 4 (leaders {:?}); {:?}; at {} ms; headers {:?}", self.me, (1..4).map(|r| self.d.leader(2 * r)).collect::<Vec<_>>(), self.log, self.now, s.left.keys().collect::<Vec<_>>()));
    }
    fn begin(&mut self) {
        self.s.parents.clear();
        self.s.genesis = true;
        self.s.ready = true;
        self.s.since = self.now;
        self.s.lenient = true;
        self.observe(true);
    }
    fn delays(&self) -> (u64, u64) {
        let next = self.s.round + 1;
        if next % 2 == 0 && self.d.leader(next) == self.me {
            (0, MAX / 2)
        } else {
            (MIN, MAX)
        }
    }
    /// Whether the parents at hand let the node go on before the longest wait is over.
    fn judge(&mut self) {
        let s = &mut self.s;
        if s.round % 2 == 0 {
            let l = id(self.d.leader(s.round));
            s.leader = s.parents.iter().find(|c| *c.origin() == l).map(|c| c.digest());
            s.ready = s.leader.is_some();
        } else {
            let votes = s.parents.iter().filter(|c| s.leader.is_some_and(|l| c.header().parents().contains(&l))).count();
            s.ready = self.d.leader(s.round + 1) == self.me || s.leader.is_none() || votes >= 2 || s.parents.len() - votes >= 3;
        }
    }
    /// Takes from what is at hand the header that is made of it.
    fn make(&mut self) -> Flight {
        let s = &mut self.s;
        let genesis = std::mem::take(&mut s.genesis);
        let parents = std::mem::take(&mut s.parents);
        s.round = if genesis { self.start + 1 } else { s.round + 1 };
        s.ready = false;
        let n = s.queue.len().min(MOST);
        Flight::New {
            round: s.round,
            latest: parents.iter().map(|c| *c.header().created_at()).max().unwrap_or(0),
            parents: if genesis { self.d.w.genesis.clone() } else { digests(&parents) },
            payload: s.queue.drain(..n).collect(),
        }
    }
    /// Lets the node run and judges every header that leaves.
    fn observe(&mut self, started: bool) {
        self.live.settle();
        let (min, max) = self.delays();
        let waited = self.now - self.s.since;
        let enough = self.s.queue.len() >= THRESHOLD || waited >= min || self.s.caught_up;
        let have = self.s.genesis || !self.s.parents.is_empty();
        let due = have && (waited >= max || (self.s.ready && enough));
        if self.s.held && self.s.flight.is_none() {
            if due {
                self.s.flight = Some(self.make());
            } else if waited >= max {
                self.s.flight = Some(Flight::Again);
            }
        }
        let released = !self.s.held && self.s.flight.is_some();
        let mut sent = 0;
        while let Some(h) = (self.live.headers)() {
            if self.s.held {
                self.bad("stalled", "a header left while nothing could be made durable".into());
            }
            let known = self.s.left.get(&h.round()).copied();
            let flight = self.s.flight.take();
            if known.is_some() {
                if known != Some(h.digest()) {
                    self.bad("equivocation", format!("two headers left for round {}", h.round()));
                }
                if self.s.left.keys().last() != Some(&h.round()) {
                    self.bad("old", format!("the header of round {} left again after a later one", h.round()));
                }
                if started && sent == 0 {
                    self.s.round = h.round();
                    self.s.genesis = false;
                    self.s.open.insert(h.round(), h.payload().iter().map(|(d, w)| (*d, *w)).collect());
                } else if !self.s.lenient && !released && !started && (waited < max || sent > 0) {
                    self.bad("again-early", format!("the last header left again after {waited} ms"));
                }
            } else {
                let made = match flight {
                    Some(f @ Flight::New { .. }) => f,
                    _ => {
                        if sent > 0 && !released && !started || sent == 0 && !due && !self.s.lenient && !(self.s.hurried && have && self.s.ready) {
                            self.bad("early", format!("a header of round {} left after {waited} ms with {} parents, ready {}", h.round(), self.s.parents.len(), self.s.ready));
                        }
                        self.make()
                    }
                };
                self.fresh(&h, made);
            }
            self.s.ready = false;
            self.s.lenient = started || released;
            self.s.hurried = self.s.caught_up || min == 0;
            self.s.caught_up = false;
            self.s.since = self.now;
            sent += 1;
            let kept = self.db.recovered(self.db.extent().0);
            match kept.get_last_proposed().unwrap() {
                Some(k) if k.epoch() == h.epoch() && (k.round() > h.round() || k.digest() == h.digest()) => (),
                k => self.bad("unsafe", format!("the header of round {} left before it was safe on disk: {:?}", h.round(), k.map(|k| k.round()))),
            }
        }
        if sent == 0 && !self.s.held {
            if due || released || started {
                self.bad("late", format!("no header left after {waited} ms with {} parents, ready {}, {} batches", self.s.parents.len(), self.s.ready, self.s.queue.len()));
            } else if waited >= max {
                self.bad("silent", "the last header was not sent again".into());
            }
        }
    }
    /// A header that never left before.
    fn fresh(&mut self, h: &Header, made: Flight) {
        let Flight::New { round, latest, parents, payload } = made else { return };
        let got: Vec<Digest> = h.payload().iter().map(|(d, w)| (*d, *w)).collect();
        if got != payload {
            self.bad("payload", format!("{got:?} was proposed where {payload:?} waited"));
        }
        if *h.parents() != parents || h.round() != round {
            self.bad("parents", format!("a header of round {} with {} parents where {} of round {} were offered", h.round(), h.parents().len(), parents.len(), round - 1));
        }
        if self.s.left.keys().last().is_some_and(|l| *l >= h.round()) {
            self.bad("back", format!("a header of round {} after a later one", h.round()));
        }
        let seed = &self.d.seeds[self.me][h.round() as usize];
        if *h.author() != id(self.me) || h.epoch() != 0 || h.seed_signature() != Some(seed) || *h.created_at() < latest || h.latest_execution_block().number != 40 + self.start as u64 {
            self.bad("fields", format!("a header with wrong fields: {h:?}"));
        }
        if self.live.bus.app().primary_round() < h.round() {
            self.bad("watch", format!("round {} is announced, {} proposed", self.live.bus.app().primary_round(), h.round()));
        }
        self.s.left.insert(h.round(), h.digest());
        self.s.open.insert(h.round(), payload);
    }
    fn offer(&mut self, round: Round, certs: Vec<Certificate>) {
        let bus = self.live.bus.clone();
        let c = certs.clone();
        self.live.rt.block_on(async move { bus.parents().send((c, round)).await }).unwrap();
        if round > self.s.round {
            self.s.round = round;
            self.s.parents = certs;
            self.s.genesis = false;
            self.s.caught_up = true;
            self.s.since = self.now;
        } else if round == self.s.round {
            self.s.parents.extend(certs);
        }
        self.judge();
        self.observe(false);
    }
    /// False if there is nothing of the kind to do.
    fn act(&mut self, a: usize) -> bool {
        self.log.push(ACTIONS[a]);
        self.run.step(1);
        match a {
            0 => {
                self.digests += 1;
                if self.digests > 5 {
                    return false;
                }
                let (ack_channel, mut ack) = tokio::sync::oneshot::channel();
                let digest = B256::repeat_byte(self.digests);
                let worker_id = (self.digests % 2) as u16;
                let bus = self.live.bus.clone();
                self.live.rt.block_on(async move { bus.our_digests().send(OurDigestMessage { digest, worker_id, ack_channel }).await }).unwrap();
                self.s.queue.push_back((digest, worker_id));
                self.observe(false);
                if ack.try_recv().is_err() {
                    self.bad("ack", "a batch was not acknowledged".into());
                }
            }
            1..=4 => {
                let round = self.offered + 1 + (a == 4) as Round;
                if round > ROUNDS || (a == 3 && round % 2 == 0) {
                    return false;
                }
                let (now, late) = self.d.quorum(round, if a == 4 { 0 } else { a - 1 });
                self.offered = round;
                self.late = Some(late);
                self.offer(round, now);
            }
            5 => {
                let Some(late) = self.late.take() else { return false };
                self.offer(self.offered, vec![late]);
            }
            6 | 7 => {
                for _ in 0..[4, 7][a - 6] {
                    self.live.rt.block_on(tokio::time::advance(Duration::from_millis(100)));
                    self.now += 100;
                    self.observe(false);
                }
            }
            8 | 9 => {
                let upto = self.s.left.keys().filter(|r| **r <= self.offered).max().copied();
                let Some(upto) = upto.filter(|u| !self.s.held && self.s.open.contains_key(u)) else { return false };
                let rounds: Vec<Round> = self.s.left.keys().filter(|r| if a == 8 { **r <= upto } else { **r == upto }).copied().collect();
                if a == 9 && self.s.open.range(..upto).next().is_none() {
                    return false;
                }
                let again: Vec<Digest> = self.s.open.range(..upto).filter(|_| a == 9).flat_map(|(_, d)| d.clone()).collect();
                self.s.open = self.s.open.split_off(&(upto + 1));
                again.into_iter().rev().for_each(|d| self.s.queue.push_front(d));
                let bus = self.live.bus.clone();
                let offered = self.offered;
                self.live.rt.block_on(async move { bus.committed_own_headers().send((offered, rounds)).await }).unwrap();
                self.observe(false);
            }
            10 | 11 => {
                let (durable, made) = self.db.extent();
                if a == 11 && self.offered == 0 {
                    return false;
                }
                self.late = None;
                self.start = if a == 11 { self.offered } else { 0 };
                self.db = self.db.recovered(if a == 11 { made } else { durable });
                let live = Live::start(self.d, self.me, &self.db, self.start);
                std::mem::replace(&mut self.live, live).rt.shutdown_background();
                let left = std::mem::take(&mut self.s.left);
                self.s = Seen { left, ..Seen::default() };
                if let Some(stored) = self.db.get_last_proposed().unwrap().filter(|h| h.epoch() == 0) {
                    // it was kept, whether or not it left
                    if stored.round() > self.start {
                        let known = self.s.left.insert(stored.round(), stored.digest());
                        if known.is_some_and(|k| k != stored.digest()) {
                            self.bad("equivocation", "another header than the one that left is kept".into());
                        }
                    }
                }
                if a == 10 {
                    self.offered = self.offered.saturating_sub(1);
                }
                self.begin();
            }
            _ => {
                if (self.s.lenient || self.s.hurried) && !self.s.held {
                    return false;
                }
                self.s.held = !self.s.held;
                self.db.hold(self.s.held);
                self.observe(false);
            }
        }
        true
    }
}

pub fn c07(run: &Run) {
    run.bound("actions", format!("every sequence of 4 or 5 (thorough: 5 or 6) of {} actions from four starting points: {ACTIONS:?}", ACTIONS.len()));
    run.bound("members", format!("{} of 4, leaders of different rounds", run.pick(2, 4)));
    run.assume("A crash keeps a prefix of the commits made that includes those a finished persist covers.");
    run.assume("An own header is committed only after a quorum of its round was offered as parents.");
    let d = &Dag::new(3000);
    let n = ACTIONS.len();
    let order = [d.leader(2), d.leader(4), d.leader(6), d.leader(8)];
    // a start; two headers with a batch each; more batches than fit one header; some rounds later
    let before: [&[usize]; 4] = [&[], &[0, 1, 0, 1, 6, 1], &[0, 0, 0, 0, 0, 1], &[1, 1, 6, 1, 6, 1, 6]];
    let mut starts = vec![(0, true, before[0], run.pick(4, 5))];
    for m in 0..run.pick(2, 4) {
        for (i, b) in before.into_iter().enumerate() {
            let len = if m == 0 && i == 0 { run.pick(5, 6) } else { run.pick(4, if m < 2 { 5 } else { 4 }) };
            starts.push((m, false, b, len));
        }
    }
    par(run, starts.len() * n * n, |i| {
        let (m, old, before, depth) = starts[i / n / n];
        let (me, a, b) = (order[m], i / n % n, i % n);
        dfs(|c| {
            let db = CrashDb::default();
            if old {
                db.write_last_proposed(&HeaderBuilder::default().author(id(me)).round(5).epoch(1).build()).unwrap();
                db.sync_persist();
            }
            let mut p = Path::new(run, d, me, db);
            let mut last = n;
            for step in 0..before.len() + depth {
                let action = match step.checked_sub(before.len()) {
                    None => before[step],
                    Some(0) => a,
                    Some(1) => b,
                    _ => c.choose(n),
                };
                // the same as another order, or never looked at
                let idle = (action == 6 && last == 7) || (action == 12 && (last == 12 || step + 1 == before.len() + depth)) || (action >= 10 && action < 12 && (last == 10 || last == 11));
                if idle && step >= before.len() || !p.act(action) {
                    p.live.rt.shutdown_background();
                    return !run.stop();
                }
                last = action;
                run.state(&(me, old, &p.s.left.keys().collect::<Vec<_>>(), &p.s.queue, p.s.parents.len(), p.s.round, p.now - p.s.since, p.s.held));
            }
            if p.log.contains(&ACTIONS[9]) && !p.s.held {
                // what waits now is proposed
                [1, 7, 7].into_iter().all(|a| p.act(a));
            }
            run.outcome(format!("{} headers", p.s.left.len()));
            run.trace();
            p.live.rt.shutdown_background();
            !run.stop()
        });
    });
}

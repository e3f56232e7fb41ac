//! N02: bans, goodbyes and connections of the peer manager over every short history.
use crate::world::{ensure, who, Op, Verdict, World, LOCKOUT, MINUTE, PEERS};
use std::time::Duration;
use tn_config::PeerConfig;
use tn_network_libp2p::Penalty;
use vlib::{guarded, par, Run};
use vstd::clock;

const HALF: f64 = 300.0;
const WORST: f64 = -100.0;
const BEST: f64 = 100.0;
const BAN: f64 = -50.0;
const PART: f64 = -20.0;
const EPS: f64 = 1e-9;

struct Story {
    w: World,
    start: Duration,
    /// whether the peer ever gave a reason to be turned away
    blamed: [bool; PEERS],
    /// whether the peer's identity was another key's before
    carried: [bool; PEERS],
}

impl Story {
    fn new(conf: PeerConfig, ips: [u8; PEERS]) -> Self {
        let w = World::new(conf, ips);
        Self { w, start: clock::now(), blamed: [false; PEERS], carried: [false; PEERS] }
    }
    fn scores(&self) -> Vec<Option<f64>> {
        (0..PEERS).map(|p| self.w.pm.peer_score(&who(p).id)).collect()
    }
    fn outlawed(&self, p: usize) -> bool {
        self.w.peers[p].outlawed.is_some_and(|t| clock::now() < t + LOCKOUT)
    }
    fn away(&self, p: usize) -> bool {
        self.w.peers[p].away.is_some_and(|t| clock::now() < t + self.w.conf.excess_peers_reconnection_timeout)
    }
    fn apply(&mut self, op: Op) -> Verdict {
        clock::advance(Duration::from_millis(1));
        let before = self.scores();
        let exempt: Vec<bool> = (0..PEERS).map(|p| self.w.exempt(p)).collect();
        let (mut expect, mut loose) = (before.clone(), [false; PEERS]);
        let mut factor = None;
        self.w.log.clear();
        match op {
            Op::In(p) => {
                let away = self.away(p);
                let ok = self.w.incoming(p);
                self.w.pump();
                ensure!(!ok || !self.outlawed(p) || exempt[p], "banned-let-in", "a banned peer opened a connection");
                ensure!(!ok || !away, "cut-off-let-in", "a peer that was cut off came back before its time");
                ensure!(ok || self.blamed[p] || self.crowd(p) >= 2, "innocent-refused", "a peer that did nothing was turned away");
                ensure!(ok || !exempt[p] || self.blamed[p] || self.crowd(p) >= 2, "exempt-refused", "an exempt peer was turned away");
                if before[p].is_none() {
                    loose[p] = true;
                }
            }
            Op::Dial(p) => {
                let (was, away) = (self.w.peers[p].pending, self.away(p));
                self.w.dial(p);
                ensure!(self.w.peers[p].pending == was || !self.outlawed(p) || exempt[p], "banned-dialled", "a banned peer is dialled");
                ensure!(self.w.peers[p].pending == was || !away, "cut-off-dialled", "a peer that was cut off is dialled before its time");
                loose[p] = before[p].is_none();
            }
            Op::Up(p) => {
                let away = self.away(p);
                let ok = self.w.up(p);
                self.w.pump();
                ensure!(!ok || !away, "cut-off-let-in", "a dial opened a connection with a peer that was cut off");
                ensure!(!ok || !self.outlawed(p) || exempt[p], "banned-let-in", "a dial opened a connection with a banned peer");
                loose[p] = before[p].is_none();
            }
            Op::Fail(p) => {
                self.w.fail(p);
                loose[p] = before[p].is_none();
            }
            Op::Close(p) => {
                loose[p] = before[p].is_none();
                self.w.close(p);
                let left = self.w.peers[p].conns;
                // a ban carried to another key is in force there, but announced only when it was cut off for it
                ensure!(left > 0 || self.carried[p] || !self.outlawed(p) || exempt[p] || self.w.peers[p].banned, "ban-unannounced", "the network layer never hears that peer {p} is banned");
            }
            Op::Fatal(p) | Op::Bad(p) | Op::Mild(p) => {
                let (n, kind, by) = match op {
                    Op::Fatal(_) => (1, Penalty::Fatal, -300.0),
                    Op::Bad(_) => (2, Penalty::Severe, -10.0),
                    _ => (1, Penalty::Mild, -1.0),
                };
                if !exempt[p] && before[p].is_some() {
                    self.blamed[p] = true;
                }
                for _ in 0..n {
                    self.w.penalty(p, kind);
                    if !exempt[p] {
                        expect[p] = expect[p].map(|s| (s + by).clamp(WORST, BEST));
                    }
                }
                if let (Some(s), Some(was), false) = (expect[p], before[p], exempt[p]) {
                    ensure!(!(s <= PART && was > PART) || self.w.peers[p].conns == self.w.peers[p].closing, "connection-kept", "a peer scoring {s} stays connected");
                    if s <= BAN && was > BAN {
                        self.w.peers[p].outlawed = Some(clock::now());
                    }
                }
            }
            Op::Bye(p) => {
                self.blamed[p] = true;
                self.w.bye(p);
                ensure!(self.w.peers[p].closing == self.w.peers[p].conns, "goodbye-kept", "a peer that said goodbye stays connected");
            }
            Op::Tick(s) => {
                for p in 0..PEERS {
                    loose[p] = before[p].is_none() && self.w.peers[p].closing > 0;
                }
                self.w.tick(Duration::from_secs(s));
                let now = clock::now();
                factor = Some((now - self.start, s as f64));
            }
            Op::Committee(on) => {
                self.w.committee(on);
                for p in 0..PEERS {
                    if on && self.w.peers[p].bls == Some(0) {
                        expect[p] = Some(BEST);
                    }
                }
            }
            Op::Record(_) | Op::Bind(..) => {
                let (p, b) = match op {
                    Op::Bind(p, b) => (p, b),
                    Op::Record(p) => (p, p),
                    _ => unreachable!(),
                };
                let owner = (0..PEERS).find(|q| *q != p && self.w.peers[*q].bls == Some(b));
                self.w.bind(p, b);
                if let Some(q) = owner {
                    // a ban follows the identity to its new network key
                    expect[p] = match (before[p], before[q]) {
                        (Some(a), Some(b)) => Some(a.min(b)),
                        (a, b) => a.or(b),
                    };
                    if before[p].is_none_or(|a| before[q].is_some_and(|b| b < a)) {
                        self.w.peers[p].outlawed = self.w.peers[q].outlawed;
                    }
                    self.blamed[p] |= self.blamed[q];
                    self.carried[p] = true;
                    let from = std::mem::take(&mut self.w.peers[q].from);
                    if before[p].is_none() {
                        self.w.peers[p].from = from;
                    }
                    // an open connection stays with its key, in no better standing
                    let live = self.w.peers[q].conns > self.w.peers[q].closing;
                    expect[q] = before[q].map(|s| s.min(0.0)).filter(|_| live);
                    if expect[q].is_none() {
                        self.w.peers[q].outlawed = None;
                    }
                    self.w.peers[p].trusted |= self.w.peers[q].trusted && before[p].is_none();
                    self.w.peers[q].trusted = false;
                }
                if b == 0 && self.w.committee {
                    expect[p] = Some(BEST);
                } else {
                    loose[p] = expect[p].is_none();
                }
            }
            Op::Trust(p) => {
                self.w.trust(p);
                expect[p] = Some(BEST);
            }
        }
        // connections
        for p in 0..PEERS {
            if std::mem::take(&mut self.w.peers[p].cut) {
                self.blamed[p] = true;
                ensure!(!exempt[p] || op == Op::Bye(p), "exempt-cut", "an exempt peer was cut off");
            }
        }
        if let Op::Tick(_) = op {
            let kept = |e: bool| (0..PEERS).filter(|p| self.w.exempt(*p) == e && self.w.peers[*p].conns > self.w.peers[*p].closing).count();
            ensure!(kept(false) == 0 || kept(true) + kept(false) <= self.w.conf.target_num_peers, "seats", "{} peers stay connected with {} seats", kept(true) + kept(false), self.w.conf.target_num_peers);
        }
        // scores
        let after = self.scores();
        for p in 0..PEERS {
            let said = self.w.log.clone();
            if self.w.exempt(p) {
                self.w.peers[p].outlawed = None;
                self.w.peers[p].away = None;
                if !exempt[p] {
                    self.blamed[p] = false;
                    ensure!(!self.w.pm.peer_banned(&who(p).id) || self.crowd(p) >= 2, "exempt-refused", "a peer that became exempt is still turned away");
                }
                ensure!(!said.contains(&format!("banned {p}")) || !exempt[p], "exempt-banned", "an exempt peer was banned: {said:?}");
            }
            match (expect[p], after[p]) {
                (None, None) => {}
                (None, Some(s)) => ensure!(loose[p] && s == 0.0, "score", "unknown peer {p} scores {s}"),
                (Some(s), None) => {
                    // only a record beyond the limit is forgotten
                    let room = self.w.conf.max_banned_peers.min(self.w.conf.max_disconnected_peers) >= PEERS;
                    ensure!(!room, "forgotten", "peer {p} scoring {s} was forgotten");
                    self.w.peers[p].outlawed = None;
                    self.blamed[p] = false;
                    self.w.peers[p].bls = None;
                    self.w.peers[p].from = 0;
                    self.w.peers[p].trusted = false;
                }
                (Some(e), Some(s)) => match factor {
                    Some((most, least)) if !exempt[p] => {
                        let least = match self.w.peers[p].outlawed {
                            Some(t) if t + LOCKOUT > clock::now() => {
                                ensure!(s == e, "decayed-in-lockout", "the score of a banned peer went from {e} to {s}");
                                continue;
                            }
                            Some(t) => (clock::now() - t - LOCKOUT).as_secs_f64().min(least),
                            None => least,
                        };
                        let (lo, hi) = (e.abs() * (-most.as_secs_f64() / HALF).exp2(), e.abs() * (-least / HALF).exp2());
                        ensure!(s * e >= 0.0 && s.abs() >= lo - EPS && s.abs() <= hi + EPS, "decay", "the score went from {e} to {s}, not between {lo} and {hi}");
                        if s > BAN {
                            self.w.peers[p].outlawed = None;
                        }
                    }
                    _ => ensure!((s - e).abs() < EPS, "score", "peer {p} scores {s}, not {e}"),
                },
            }
        }
        self.audit()
    }
    /// Peers that used the address of `p` and were turned away themselves.
    fn crowd(&self, p: usize) -> usize {
        (0..PEERS).filter(|q| self.w.ips[*q] == self.w.ips[p] && self.blamed[*q]).count()
    }
    fn audit(&self) -> Verdict {
        for p in 0..PEERS {
            let (x, id) = (&self.w.peers[p], &who(p).id);
            let live = x.conns > x.closing;
            ensure!(self.w.pm.is_connected(id) == live, "connected", "peer {p} has {} connections, {} closing, yet is taken for connected: {}", x.conns, x.closing, self.w.pm.is_connected(id));
            ensure!(!self.w.pm.is_ip_banned(&self.w.ip(p)) || self.crowd(p) >= 2, "address-banned", "an address is banned though fewer than two of its peers ever were");
            ensure!(!self.outlawed(p) || self.w.exempt(p) || self.w.pm.peer_banned(id), "ban-lifted", "a banned peer is taken for unbanned within the lockout");
            ensure!(self.w.pm.peer_to_bls(id) == x.bls.map(|b| who(b).bls), "identity", "peer {p} does not resolve to the identity it showed last");
            ensure!(self.w.pm.peer_is_important(id) == self.w.exempt(p), "standing", "peer {p} is {}taken for a validator or the operator's", if self.w.exempt(p) { "not " } else { "" });
        }
        Ok(())
    }
    /// What can be observed of the peers.
    fn seen(&self) -> Vec<(u64, [bool; 4], [usize; 3], Option<usize>, Option<Duration>)> {
        (0..PEERS)
            .map(|p| {
                let (x, id, pm) = (&self.w.peers[p], &who(p).id, &self.w.pm);
                let score = pm.peer_score(id).map_or(1, |s| (s * 1e6) as i64 as u64);
                let is = [pm.is_connected(id), pm.peer_banned(id), pm.is_ip_banned(&self.w.ip(p)), x.banned];
                (score, is, [x.conns, x.closing, x.pending], x.bls, x.outlawed.map(|t| clock::now() - t))
            })
            .collect()
    }
    /// Everything closes, and time heals.
    fn settle(&mut self) -> Verdict {
        for round in 0..5 {
            for p in 0..PEERS {
                while self.w.peers[p].pending > 0 {
                    self.w.fail(p);
                }
                while self.w.peers[p].conns > 0 {
                    self.w.close(p);
                }
            }
            if round < 4 {
                self.w.tick(40 * MINUTE);
            }
        }
        for (p, rx) in &mut self.w.replies {
            ensure!(!matches!(rx.try_recv(), Err(tokio::sync::oneshot::error::TryRecvError::Empty)), "dial-unanswered", "whoever asked to dial peer {p} never hears of it");
        }
        for p in 0..PEERS {
            let id = &who(p).id;
            ensure!(!self.w.pm.is_ip_banned(&self.w.ip(p)), "address-banned-for-good", "an address stays banned after every ban has run out");
            ensure!(!self.w.pm.peer_banned(id), "banned-for-good", "peer {p} stays banned after its ban has run out");
            ensure!(!self.w.peers[p].banned, "ban-not-lifted", "the network layer never hears that peer {p} is no longer banned");
        }
        for p in 0..PEERS {
            self.w.dial(p);
            ensure!(self.w.peers[p].pending == 1, "undialable", "peer {p} cannot be dialled after every ban has run out");
            self.w.fail(p);
            ensure!(self.w.incoming(p), "unreachable", "peer {p} is turned away after every ban has run out");
            self.w.pump();
        }
        self.probe()
    }
    /// What happened before leaves no mark: an address is banned with the second of its peers, and not before.
    fn probe(&mut self) -> Verdict {
        if self.w.conf.max_banned_peers < PEERS {
            return Ok(());
        }
        let mut banned = 0;
        for p in 0..PEERS {
            self.w.penalty(p, Penalty::Fatal);
            self.w.close(p);
            if !self.w.exempt(p) {
                banned |= 1 << p;
                ensure!(self.w.pm.peer_banned(&who(p).id), "unbannable", "peer {p} can no longer be banned");
            }
            for q in 0..PEERS {
                let of = (0..PEERS).filter(|r| banned >> r & 1 == 1 && self.w.peers[*r].from >> self.w.ips[q] & 1 == 1).count();
                let is = self.w.pm.is_ip_banned(&self.w.ip(q));
                ensure!(is == (of >= 2), "address-count", "an address with {of} banned peers is {}banned, after all earlier bans ran out", if is { "" } else { "not " });
            }
        }
        Ok(())
    }
}

struct Plan {
    name: &'static str,
    conf: PeerConfig,
    ips: [u8; PEERS],
    ops: Vec<Op>,
    depth: usize,
}

fn dfs(run: &Run, plan: &Plan, prefix: &mut Vec<Op>) {
    if run.stop() {
        return;
    }
    let r = guarded(|| {
        let mut s = Story::new(plan.conf, plan.ips);
        for (i, op) in prefix.iter().enumerate() {
            if !s.w.enabled(*op) {
                return Ok(i + 1 < prefix.len());
            }
            s.apply(*op)?;
        }
        run.step(prefix.len() as u64 + 9);
        run.state(&s.seen());
        s.settle()?;
        Ok::<_, (&'static str, String)>(true)
    });
    let (key, what) = match r {
        Ok(Ok(true)) => {
            run.trace();
            if prefix.len() < plan.depth {
                for op in &plan.ops {
                    prefix.push(*op);
                    dfs(run, plan, prefix);
                    prefix.pop();
                }
            }
            return;
        }
        Ok(Ok(false)) => return,
        Ok(Err((k, w))) => (k, w),
        Err(p) => ("panic", p),
    };
    run.fail(key, format!("{}: {what}: after {prefix:?}", plan.name), format!("{} {prefix:?}", plan.name));
}

pub fn n02(run: &Run) {
    use Op::*;
    let room = PeerConfig::default();
    let tight = PeerConfig { max_banned_peers: 1, max_disconnected_peers: 1, max_temporarily_banned_peers: 1, ..room };
    let all: Vec<Op> = vec![
        In(0), In(1), In(2), Dial(0), Dial(1), Up(0), Up(1), Fail(1), Close(0), Close(1), Close(2), Fatal(0), Fatal(1), Fatal(2), Bad(0), Bad(1), Bad(2), Mild(1),
        Bye(0), Bye(1), Tick(30), Tick(31 * 60), Committee(true), Committee(false), Record(0), Record(1), Trust(0),
    ];
    let crowd: Vec<Op> = vec![In(1), In(2), Close(1), Close(2), Fatal(1), Fatal(2), Bad(1), Bye(1), Tick(31 * 60)];
    let member: Vec<Op> = vec![In(0), Dial(0), Up(0), Close(0), Fatal(0), Bad(0), Bye(0), Tick(30), Tick(31 * 60), Committee(true), Committee(false), Record(0)];
    let one: Vec<Op> = vec![In(1), Dial(1), Up(1), Fail(1), Close(1), Fatal(1), Bad(1), Mild(1), Bye(1), Tick(30), Tick(601), Tick(31 * 60)];
    let seats: Vec<Op> = vec![In(0), In(1), In(2), Dial(0), Dial(1), Up(0), Up(1), Close(0), Close(1), Record(0), Committee(true), Committee(false), Trust(1), Tick(30), Tick(601)];
    let few = seats.clone();
    let names: Vec<Op> = vec![
        In(0), In(1), In(2), Close(0), Close(1), Close(2), Fatal(0), Fatal(1), Bad(1), Bind(0, 0), Bind(1, 0), Bind(1, 1), Bind(2, 1), Bind(1, 2), Committee(true),
        Committee(false), Tick(30), Tick(31 * 60),
    ];
    let moves: Vec<Op> = vec![In(0), In(1), Close(0), Close(1), Fatal(0), Bind(0, 0), Bind(1, 0), Tick(31 * 60)];
    let guests: Vec<Op> = vec![In(0), Record(0), Committee(true), Committee(false), Trust(1), Up(1), Tick(30)];
    let plans = [
        Plan { name: "everything", conf: room, ips: [1, 2, 2], ops: all.clone(), depth: run.pick(5, 6) },
        Plan { name: "one address", conf: room, ips: [2, 2, 2], ops: all.clone(), depth: run.pick(4, 5) },
        Plan { name: "no room", conf: tight, ips: [1, 2, 2], ops: all, depth: run.pick(4, 5) },
        Plan { name: "two seats", conf: PeerConfig { target_num_peers: 2, ..room }, ips: [1, 2, 3], ops: seats, depth: run.pick(5, 6) },
        Plan { name: "one seat", conf: PeerConfig { target_num_peers: 1, ..room }, ips: [1, 2, 3], ops: few, depth: run.pick(5, 6) },
        Plan { name: "identities", conf: room, ips: [1, 2, 2], ops: names, depth: run.pick(5, 6) },
        Plan { name: "moves", conf: room, ips: [1, 2, 2], ops: moves, depth: run.pick(7, 8) },
        Plan { name: "guests", conf: PeerConfig { target_num_peers: 1, ..room }, ips: [1, 2, 3], ops: guests, depth: run.pick(7, 8) },
        Plan { name: "crowd", conf: room, ips: [1, 2, 2], ops: crowd, depth: run.pick(7, 9) },
        Plan { name: "member", conf: room, ips: [1, 2, 2], ops: member, depth: run.pick(7, 8) },
        Plan { name: "one peer", conf: room, ips: [1, 2, 2], ops: one, depth: run.pick(7, 8) },
    ];
    let jobs: Vec<(usize, Vec<Op>)> = plans
        .iter()
        .enumerate()
        .flat_map(|(i, p)| p.ops.iter().flat_map(move |a| p.ops.iter().map(move |b| (i, vec![*a, *b]))))
        .collect();
    for p in &plans {
        dfs(run, &Plan { depth: 1, name: p.name, conf: p.conf, ips: p.ips, ops: p.ops.clone() }, &mut Vec::new());
        run.bound(p.name, format!("all histories of up to {} of {} operations", p.depth, p.ops.len()));
    }
    par(run, jobs.len(), |j| {
        let (i, prefix) = &jobs[j];
        dfs(run, &plans[*i], &mut prefix.clone());
    });
    run.assume("the swarm delivers to the peer manager what libp2p's swarm does: connections it was asked about and did not deny, and one result of each dial");
}

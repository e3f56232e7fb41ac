//! C01: the committed sequence is a function of the DAG alone.
use crate::util::{committee, ids};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use tn_primary::consensus::{Bullshark, ConsensusError, ConsensusState, LeaderSchedule, LeaderSwapTable};
use tn_types::{
    AuthorityIdentifier, Certificate, CommittedSubDag, Committee, EpochSeedChainValue, Hash as _, HeaderBuilder, HeaderDigest, ReputationScores,
};
use vlib::{explore::bits, Run};

pub const N: usize = 4;

/// parents[r][a]: which certificates of round r-1 the certificate of round r by a references; None: a made none.
/// Round 1 references the genesis certificates.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Shape {
    pub parents: Vec<[Option<u8>; N]>,
}
impl Shape {
    pub fn full(rounds: usize) -> Self {
        Self { parents: vec![[Some((1 << N) - 1); N]; rounds] }
    }
    pub fn rounds(&self) -> usize {
        self.parents.len()
    }
    pub fn get(&self, r: usize, a: usize) -> Option<u8> {
        self.parents[r - 1][a]
    }
    /// Absent certificates are nobody's parents; false if some certificate is left with fewer than three.
    pub fn close(&mut self) -> bool {
        for r in 1..=self.rounds() {
            let prev: u8 = if r == 1 { (1 << N) - 1 } else { (0..N).filter(|&a| self.get(r - 1, a).is_some()).map(|a| 1 << a).sum() };
            for a in 0..N {
                if let Some(p) = self.parents[r - 1][a].as_mut() {
                    *p &= prev;
                    if p.count_ones() < 3 {
                        return false;
                    }
                }
            }
        }
        true
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for r in 1..=self.rounds() {
            s += &format!("round {r}:");
            for a in 0..N {
                match self.get(r, a) {
                    None => s += &format!(" {a}:absent"),
                    Some(p) if p == (1 << N) - 1 => {}
                    Some(p) => s += &format!(" {a}:{:?}", bits(p as u64)),
                }
            }
            s += "\n";
        }
        s
    }
}

pub struct Params {
    pub epoch: u32,
    pub gc: u32,
    pub window: u32,
    pub threshold: u64,
    /// created_at of the certificate of (round, author)
    pub times: fn(usize, usize) -> u64,
    /// what the epoch's seed chain starts from
    pub root: EpochSeedChainValue,
}

/// The certificates of a shape: bit (r-1)*N+a of a mask is the certificate of round r by a.
pub struct Built {
    pub committee: Committee,
    pub certs: Vec<Option<Certificate>>,
    pub by_digest: HashMap<HeaderDigest, usize>,
    pub down: Vec<u64>,
}
pub fn build(c: &Committee, shape: &Shape, p: &Params) -> Built {
    let id = ids(c);
    let genesis: Vec<HeaderDigest> = {
        let g: HashMap<AuthorityIdentifier, HeaderDigest> = Certificate::genesis(c).into_iter().map(|x| (x.origin().clone(), x.digest())).collect();
        id.iter().map(|i| g[i]).collect()
    };
    let mut prev = genesis;
    let mut out = Built { committee: c.clone(), certs: vec![], by_digest: HashMap::new(), down: vec![] };
    for r in 1..=shape.rounds() {
        let mut cur = vec![HeaderDigest::default(); N];
        for a in 0..N {
            let i = (r - 1) * N + a;
            let Some(mask) = shape.get(r, a) else {
                out.certs.push(None);
                out.down.push(0);
                continue;
            };
            let header = HeaderBuilder::default()
                .author(id[a].clone())
                .round(r as u32)
                .epoch(p.epoch)
                .created_at((p.times)(r, a))
                .parents(bits(mask as u64).into_iter().map(|b| prev[b]).collect())
                .build();
            let cert = Certificate::new_unsigned_for_test(c, header, vec![]).expect("certificate");
            cur[a] = cert.digest();
            out.by_digest.insert(cert.digest(), i);
            out.certs.push(Some(cert));
            let mut d = 1u64 << i;
            if r > 1 {
                for b in bits(mask as u64) {
                    d |= out.down[(r - 2) * N + b];
                }
            }
            out.down.push(d);
        }
        prev = cur;
    }
    out
}

/// What is committed, by the published rule, once every certificate of `have` is known.
pub struct Expected {
    pub leader: usize,
    pub members: BTreeSet<usize>,
    pub scores: BTreeMap<AuthorityIdentifier, u64>,
    pub last_of_window: bool,
    pub seed: EpochSeedChainValue,
    pub time: u64,
}

pub fn new_schedule(c: &Committee) -> LeaderSchedule {
    LeaderSchedule::new(c.clone(), LeaderSwapTable::default())
}

pub fn expected(b: &Built, shape: &Shape, p: &Params, have: u64) -> Vec<Expected> {
    let id = ids(&b.committee);
    let at: HashMap<&AuthorityIdentifier, usize> = id.iter().enumerate().map(|(i, x)| (x, i)).collect();
    let schedule = new_schedule(&b.committee);
    let leader_at = |r: usize| {
        let a = at[&schedule.leader(r as u32).id()];
        let i = (r - 1) * N + a;
        (have >> i & 1 == 1).then_some(i)
    };
    let votes = |i: usize| {
        let r = i / N + 1;
        (0..N).filter(|&a| r < shape.rounds() && have >> (r * N + a) & 1 == 1 && shape.get(r + 1, a).is_some_and(|m| m >> (i % N) & 1 == 1)).count()
    };
    let mut out: Vec<Expected> = vec![];
    let mut last_round = 0usize;
    let mut last_of: [usize; N] = [0; N];
    let mut seed = p.root;
    loop {
        // the highest leader with a third of the stake behind it...
        let mut r = shape.rounds().saturating_sub(1) & !1;
        let anchor = loop {
            if r <= last_round || r < 2 {
                break None;
            }
            match leader_at(r) {
                Some(i) if votes(i) >= 2 => break Some(i),
                _ => r -= 2,
            }
        };
        let Some(anchor) = anchor else { return out };
        // ... and, walking back from it, each earlier leader the next one reaches: the earliest is next.
        let mut next = anchor;
        let mut r = anchor / N + 1 - 2;
        while r > last_round && r >= 2 {
            if let Some(i) = leader_at(r) {
                if b.down[next] >> i & 1 == 1 {
                    next = i;
                }
            }
            r -= 2;
        }
        let round = next / N + 1;
        let floor = round.saturating_sub(p.gc as usize);
        // what it reaches without passing through what this author has already had committed, above the collected rounds
        let mut members = BTreeSet::from([next]);
        let mut todo = vec![next];
        while let Some(i) = todo.pop() {
            let r = i / N + 1;
            if r == floor + 1 || r == 1 {
                continue;
            }
            for a in bits(shape.get(r, i % N).unwrap() as u64) {
                let j = (r - 2) * N + a;
                if r - 1 > last_of[a] && members.insert(j) {
                    todo.push(j);
                }
            }
        }
        for &i in &members {
            last_of[i % N] = last_of[i % N].max(i / N + 1);
        }
        let number = (p.epoch as u64) << 32 | round as u64;
        let mut scores: BTreeMap<_, _> = match out.last() {
            Some(prev) if (number / 2) % p.window as u64 != 0 => prev.scores.clone(),
            _ => id.iter().map(|i| (i.clone(), 0)).collect(),
        };
        if let Some(prev) = out.last() {
            for &i in &members {
                if i / N + 1 == prev.leader / N + 2 && shape.get(i / N + 1, i % N).unwrap() >> (prev.leader % N) & 1 == 1 {
                    *scores.get_mut(&id[i % N]).unwrap() += 1;
                }
            }
        }
        let last_of_window = (number / 2 + 1) % p.window as u64 == 0;
        let header = b.certs[next].as_ref().unwrap().header();
        seed = seed.fold(round as u32, header.seed_signature().expect("active"));
        let time = out.last().map_or(0, |e| e.time).max(*header.created_at());
        if last_of_window {
            schedule.update_leader_swap_table(LeaderSwapTable::new(
                &b.committee,
                round as u32,
                &ReputationScores { scores_per_authority: scores.clone(), final_of_schedule: true },
                p.threshold,
            ));
        }
        last_round = round;
        out.push(Expected { leader: next, members, scores, last_of_window, seed, time });
    }
}

/// A node: the real protocol with its state.
pub struct Node {
    pub protocol: Bullshark,
    pub state: ConsensusState,
    pub committed: usize,
}
impl Node {
    pub fn new(b: &Built, p: &Params) -> Self {
        Self {
            protocol: Bullshark::new(b.committee.clone(), p.window, new_schedule(&b.committee), p.threshold),
            state: ConsensusState::new(p.gc),
            committed: 0,
        }
    }
    fn fork(&self, p: &Params) -> Self {
        let table = self.protocol.leader_schedule.leader_swap_table.read().clone();
        let c = &self.protocol.committee;
        let mut protocol = Bullshark::new(c.clone(), p.window, LeaderSchedule::new(c.clone(), table), p.threshold);
        protocol.max_inserted_certificate_round = self.protocol.max_inserted_certificate_round;
        let mut state = ConsensusState::new(p.gc);
        state.last_round = self.state.last_round;
        state.last_committed = self.state.last_committed.clone();
        state.last_committed_sub_dag = self.state.last_committed_sub_dag.clone();
        state.dag = self.state.dag.clone();
        state.set_seed_chain(self.state.seed_chain());
        Self { protocol, state, committed: self.committed }
    }
    fn key(&self, b: &Built, have: u64) -> (u64, u64, usize) {
        let dag = self.state.dag.values().flat_map(|m| m.values()).map(|(d, _)| 1u64 << b.by_digest[d]).sum();
        (have, dag, self.committed)
    }
}

/// Compares one committed sub-DAG with what the rule says.
pub fn compare(b: &Built, got: &CommittedSubDag, want: &Expected) -> Result<(), String> {
    let ix: Vec<usize> = got.headers().iter().map(|h| b.by_digest[&h.digest()]).collect();
    let set: BTreeSet<usize> = ix.iter().copied().collect();
    let show = |i: &usize| format!("{}@{}", i % N, i / N + 1);
    if ix.last() != Some(&want.leader) {
        return Err(format!("the leader {} is committed where {} is due", show(ix.last().unwrap()), show(&want.leader)));
    }
    if set.len() != ix.len() {
        return Err(format!("a certificate appears twice in the commit of {}", show(&want.leader)));
    }
    if set != want.members {
        return Err(format!(
            "the commit of {} holds {:?}, its uncommitted history is {:?}",
            show(&want.leader),
            ix.iter().map(show).collect::<Vec<_>>(),
            want.members.iter().map(show).collect::<Vec<_>>()
        ));
    }
    if ix.windows(2).any(|w| w[0] / N > w[1] / N) {
        return Err(format!("the commit of {} is not in order of rounds: {:?}", show(&want.leader), ix.iter().map(show).collect::<Vec<_>>()));
    }
    if got.reputation_scores().scores_per_authority != want.scores || got.reputation_scores().final_of_schedule != want.last_of_window {
        return Err(format!("the scores of the commit of {} are {:?}, expected {:?} final {}", show(&want.leader), got.reputation_scores(), want.scores.values(), want.last_of_window));
    }
    if got.seed_chain_value() != want.seed {
        return Err(format!("the commit of {} does not extend the seed chain", show(&want.leader)));
    }
    if got.commit_timestamp() != want.time {
        return Err(format!("the commit time of {} is {}, expected {}", show(&want.leader), got.commit_timestamp(), want.time));
    }
    Ok(())
}

/// Every order of delivering every causally closed part of one DAG.
fn one(run: &Run, c: &Committee, shape: &Shape, p: &Params, redeliver: bool) {
    let b = build(c, shape, p);
    let all: u64 = b.certs.iter().enumerate().filter(|(_, c)| c.is_some()).map(|(i, _)| 1u64 << i).sum();
    let want = expected(&b, shape, p, all);
    let mut order: HashMap<usize, Vec<HeaderDigest>> = HashMap::new();
    let mut seen = HashSet::new();
    let start = Node::new(&b, p);
    let mut todo: Vec<(u64, Node, Vec<u8>)> = vec![(0, start, vec![])];
    let replay = |path: &[u8]| {
        let certs = path.iter().map(|&i| format!("{}@{}", i as usize % N, i as usize / N + 1)).collect::<Vec<_>>();
        format!("epoch {} gc_depth {} window {} threshold {}\n{}delivered (author@round): {}", p.epoch, p.gc, p.window, p.threshold, shape.show(), certs.join(" "))
    };
    let mut steps = 0;
    while let Some((have, node, path)) = todo.pop() {
        for i in bits(all) {
            let fresh = have >> i & 1 == 0;
            if fresh && b.down[i] & !have != 1 << i || !fresh && !redeliver {
                continue;
            }
            let mut n = node.fork(p);
            let mut path = path.clone();
            path.push(i as u8);
            let cert = b.certs[i].clone().unwrap();
            steps += 1;
            let (_, subs) = match n.protocol.process_certificate(&mut n.state, cert) {
                Ok(r) => r,
                Err(e) => {
                    run.fail("error", format!("a certificate with all its parents is refused: {e}"), replay(&path));
                    return;
                }
            };
            for s in &subs {
                let Some(w) = want.get(n.committed) else {
                    run.fail("extra", format!("{} is committed beyond what the whole DAG commits", s.leader_round()), replay(&path));
                    return;
                };
                if let Err(e) = compare(&b, s, w) {
                    run.fail("differs", format!("commit {}: {e}", n.committed), replay(&path));
                    return;
                }
                let digests: Vec<HeaderDigest> = s.headers().iter().map(|h| h.digest()).collect();
                if order.entry(n.committed).or_insert_with(|| digests.clone()) != &digests {
                    run.fail("order", format!("commit {} lists its certificates in different orders on two nodes", n.committed), replay(&path));
                    return;
                }
                n.committed += 1;
            }
            let have = have | 1 << i;
            // the certificate's arrival decided its leader if it could
            let round = i / N;
            if round >= 2 && round % 2 == 0 && round as u32 > n.state.last_round.committed_round && fresh {
                let leader = n.protocol.leader_schedule.leader(round as u32).id();
                let id = ids(&b.committee);
                let l = (round - 1) * N + id.iter().position(|x| *x == leader).unwrap();
                let votes = (0..N).filter(|a| have >> (round * N + a) & 1 == 1 && shape.get(round + 1, *a).is_some_and(|m| m >> (l % N) & 1 == 1)).count();
                if have >> l & 1 == 1 && votes >= 2 {
                    run.fail("stalled", format!("the leader of round {round} has {votes} votes and was not committed"), replay(&path));
                    return;
                }
            }
            let committed_round = if n.committed == 0 { 0 } else { want[n.committed - 1].leader / N + 1 };
            if n.state.last_round.committed_round as usize != committed_round
                || n.state.last_round.gc_round as usize != committed_round.saturating_sub(p.gc as usize)
                || n.state.dag.keys().any(|r| *r <= n.state.last_round.gc_round)
            {
                run.fail("accounting", format!("after committing round {committed_round} the state says {:?} and keeps {:?}", n.state.last_round, n.state.dag.keys()), replay(&path));
                return;
            }
            if seen.insert(n.key(&b, have)) {
                run.state(&(shape, p.gc, p.window, p.epoch, n.key(&b, have)));
                todo.push((have, n, path));
            }
        }
    }
    run.step(steps);
    run.trace();
    run.outcome(format!("DAGs committing {} leaders, {} skipped", want.len(), want.last().map_or(0, |w| (w.leader / N + 1) / 2 - want.len())));
    if want.iter().filter(|w| w.last_of_window).count() > 0 && (1..shape.rounds() / 2).any(|k| {
        let s = new_schedule(c);
        let r = 2 * k;
        let lead = s.leader(r as u32).id();
        want.iter().any(|w| w.leader / N + 1 == r && ids(c)[w.leader % N] != lead)
    }) {
        run.outcome("DAGs in which a poor leader was replaced");
    }
}

/// A second, different certificate of the same author and round is an error; one whose parents are missing is too.
fn refusals(run: &Run, c: &Committee) {
    let p = Params { epoch: 0, gc: 50, window: 10, threshold: 33, times: |_, _| 1, root: EpochSeedChainValue::genesis_placeholder() };
    let other = Params { times: |_, _| 2, ..p };
    let shape = Shape::full(4);
    let (b, o) = (build(c, &shape, &p), build(c, &shape, &other));
    for i in 0..16 {
        let mut n = Node::new(&b, &p);
        for j in 0..16 {
            n.protocol.process_certificate(&mut n.state, b.certs[j].clone().unwrap()).expect("delivered in order");
        }
        let twin = Certificate::new_unsigned_for_test(
            c,
            HeaderBuilder::from_header(b.certs[i].as_ref().unwrap().header()).created_at(9).build(),
            vec![],
        )
        .unwrap();
        run.step(2);
        if !matches!(n.protocol.process_certificate(&mut n.state, twin), Err(ConsensusError::CertificateEquivocation(..))) {
            run.fail("equivocation", "a second certificate of one author and round is accepted", format!("author {} round {}", i % N, i / N + 1));
        }
        // the same round with parents nobody has
        if i >= N {
            let mut n = Node::new(&b, &p);
            for j in 0..i / N * N {
                n.protocol.process_certificate(&mut n.state, b.certs[j].clone().unwrap()).expect("delivered in order");
            }
            if n.protocol.process_certificate(&mut n.state, o.certs[i].clone().unwrap()).is_ok() {
                run.fail("parents", "a certificate with unknown parents enters the DAG", format!("author {} round {}", i % N, i / N + 1));
            }
            // each single missing parent
            for skip in 0..N {
                let mut n = Node::new(&b, &p);
                for j in (0..i / N * N).filter(|j| *j != (i / N - 1) * N + skip) {
                    n.protocol.process_certificate(&mut n.state, b.certs[j].clone().unwrap()).expect("delivered in order");
                }
                run.step(1);
                if n.protocol.process_certificate(&mut n.state, b.certs[i].clone().unwrap()).is_ok() {
                    run.fail("parents", "a certificate with a missing parent enters the DAG", format!("author {} round {} parent {skip}", i % N, i / N + 1));
                }
            }
        }
    }
}

pub fn flat(_: usize, _: usize) -> u64 {
    7
}
pub fn falling(r: usize, a: usize) -> u64 {
    100 + ((r * 7 + a * 3) % 11) as u64
}

/// Deviations of a single certificate: absent, or without one of its parents.
fn deviations(rounds: usize) -> Vec<(usize, usize, Option<usize>)> {
    let mut v = vec![];
    for r in 1..=rounds {
        for a in 0..N {
            v.push((r, a, None));
            if r > 1 {
                (0..N).for_each(|p| v.push((r, a, Some(p))));
            }
        }
    }
    v
}
pub fn apply(shape: &mut Shape, d: &(usize, usize, Option<usize>)) {
    let x = &mut shape.parents[d.0 - 1][d.1];
    *x = match d.2 {
        None => None,
        Some(p) => x.map(|m| m & !(1 << p)),
    };
}

pub fn c01(run: &Run) {
    let mut work: Vec<(Shape, Params, bool)> = vec![];
    let p = |gc, window, epoch, times| Params { epoch, gc, window, threshold: 33, times, root: EpochSeedChainValue::genesis_placeholder() };
    let mut seen = HashSet::new();
    let mut push = |mut s: Shape, p: Params, again: bool| {
        if s.close() && seen.insert((s.clone(), p.gc, p.window, p.epoch, again)) {
            work.push((s, p, again));
        }
    };
    // A: up to k deviations from the full DAG
    let rounds = 6;
    let d = deviations(rounds);
    for gc in [3, 50] {
        push(Shape::full(7), p(gc, 10, 0, flat as fn(usize, usize) -> u64), true);
        for i in 0..d.len() {
            let mut s = Shape::full(rounds);
            apply(&mut s, &d[i]);
            push(s.clone(), p(gc, 10, 0, falling), true);
            for j in 0..i {
                let mut s = s.clone();
                apply(&mut s, &d[j]);
                if gc == 3 || run.thorough() {
                    push(s.clone(), p(gc, 10, 0, falling), false);
                }
                if run.thorough() {
                    for k in 0..j {
                        let mut s = s.clone();
                        apply(&mut s, &d[k]);
                        push(s, p(gc, 10, 0, falling), false);
                    }
                }
            }
        }
    }
    // B: which of the four next certificates vote for each leader, and which certificates the next leader references
    let c = committee(N, 0);
    let id = ids(&c);
    let sched = new_schedule(&c);
    let lead = |r: usize| id.iter().position(|x| *x == sched.leader(r as u32).id()).unwrap();
    let some: Vec<Option<u8>> = if run.thorough() { std::iter::once(None).chain((0..16).map(Some)).collect() } else { vec![None, Some(0), Some(1), Some(8), Some(3), Some(7)] };
    for v2 in std::iter::once(None).chain((0..16u8).map(Some)) {
        for miss4 in 0..=N {
            for v4 in &some {
                for miss6 in [0, 1, 2, 3, N] {
                    if !run.thorough() && miss6 != N && (v4.is_none() || v2.is_none()) {
                        continue;
                    }
                    let mut s = Shape::full(7);
                    for (r, v) in [(2, &v2), (4, v4)] {
                        match v {
                            None => s.parents[r - 1][lead(r)] = None,
                            // bits of v: who does not vote
                            Some(m) => bits(*m as u64).into_iter().for_each(|a| apply(&mut s, &(r + 1, a, Some(lead(r))))),
                        }
                    }
                    for (r, m) in [(4, miss4), (6, miss6)] {
                        if m < N {
                            apply(&mut s, &(r, lead(r), Some(m)));
                        }
                    }
                    for gc in [3, 50] {
                        if gc == 50 || miss6 == N || run.thorough() {
                            push(s.clone(), p(gc, 10, 0, flat), false);
                        }
                    }
                }
            }
        }
    }
    // C: a member whose certificates nobody references (or who is down) from some round on, over several schedules
    for x in 0..N {
        for from in [1usize, 3, 4] {
            for down in [false, true] {
                let mut s = Shape::full(12);
                for r in from..=12 {
                    if down {
                        s.parents[r - 1][x] = None;
                    }
                    for a in 0..N {
                        if r > from {
                            apply(&mut s, &(r, a, Some(x)));
                        }
                    }
                }
                for (window, epoch) in [(1, 0), (2, 0), (3, 0), (3, 1), (4, 1), (5, 0)] {
                    push(s.clone(), p(50, window, epoch, flat), false);
                    if (window != 3 || epoch != 0 || from != 3) && !run.thorough() {
                        continue;
                    }
                    // one of its certificates referenced by one other, at each place
                    for r in from + 1..=12 {
                        for a in 0..N {
                            let mut t = s.clone();
                            if let (Some(m), false) = (t.parents[r - 1][a].as_mut(), down) {
                                *m |= 1 << x;
                                push(t, p(5, window, epoch, flat), false);
                            }
                        }
                    }
                }
            }
        }
    }
    // D: a member that never votes for a leader, so that it is replaced; and each leader around the change supported by few
    for x in 0..N {
        for (window, epoch) in [(3, 0), (3, 1)] {
            let mut s = Shape::full(13);
            for k in 1..=6 {
                apply(&mut s, &(2 * k + 1, x, Some(lead(2 * k))));
            }
            push(s.clone(), p(50, window, epoch, flat), false);
            for r in [6, 8, 10] {
                for m in 1..1u64 << N {
                    for next in 0..=N {
                        let mut t = s.clone();
                        bits(m).into_iter().for_each(|a| apply(&mut t, &(r + 1, a, Some(lead(r)))));
                        if next < N {
                            // the next leader, as first scheduled, does not reach that of one of the voters
                            apply(&mut t, &(r + 2, lead(r + 2), Some(next)));
                        }
                        push(t, p(50, window, epoch, flat), false);
                    }
                }
            }
        }
    }
    work.sort_by_key(|w| std::cmp::Reverse(w.0.rounds()));
    run.bound("DAGs", work.len());
    run.bound("members", N);
    run.bound("rounds", "6 (any two deviations from the full DAG), 7 (every vote pattern for the first leader, each skipped or late parent of the next), 12 (a silent member, 1 to 5 commits per schedule), 13 (a member that never votes, and every vote pattern around the change of leaders)");
    run.bound("gc depth", "3, 5, 50");
    run.bound("delivery", "every causal order of every part of the DAG");
    run.assume("No author has two certificates in one round, as the vote rule ensures; certificates reach consensus after their parents.");
    let cs = [committee(N, 0), committee(N, 1)];
    refusals(run, &cs[0]);
    vlib::par(run, work.len(), |i| {
        let (s, p, again) = &work[i];
        one(run, &cs[p.epoch as usize], s, p, *again);
    });
}

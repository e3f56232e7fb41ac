//! C03: a node that stops anywhere and starts again commits what it would have committed.
use crate::{
    dag::{apply, build, compare, expected, falling, flat, new_schedule, Built, Expected, Params, Shape, N},
    util::{committee, ids, keys},
};
use std::sync::Arc;
use tn_config::{Config, ConsensusConfig, KeyConfig, NetworkConfig, Parameters};
use tn_primary::{
    consensus::{Bullshark, Consensus, LeaderSchedule},
    ConsensusBus,
};
use tn_storage::{consensus::ConsensusChain, mem_db::MemDatabase, CertificateStore};
use tn_types::{
    CommittedSubDag, ConsensusHeaderDigest, ConsensusNumHash, ConsensusOutput, EpochRecord, EpochSeedChainValue, ExecHeader, SealedHeader,
    TaskManager, TnReceiver, TnSender, B256,
};
use vlib::{explore::bits, Run, Scratch};

/// One life of a node: everything in memory, over a certificate store and a consensus chain on disk.
struct Life {
    rt: tokio::runtime::Runtime,
    bus: ConsensusBus,
    chain: ConsensusChain,
    out: Box<dyn FnMut() -> Option<CommittedSubDag>>,
    /// what it has produced and not yet saved
    unsaved: Vec<CommittedSubDag>,
    number: u64,
    parent: ConsensusHeaderDigest,
    _tasks: TaskManager,
}

impl Life {
    fn start(b: &Built, p: &Params, db: &MemDatabase, dir: &std::path::Path) -> eyre::Result<Self> {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build()?;
        let mut params = Parameters::default();
        params.gc_depth = p.gc;
        // made once: its ports are never used
        static CONFIG: std::sync::OnceLock<Config> = std::sync::OnceLock::new();
        let mut config = CONFIG.get_or_init(Config::default_for_test).clone();
        config.parameters = params;
        let config = ConsensusConfig::new_with_committee_for_test(
            config,
            db.clone(),
            KeyConfig::new_with_testing_key(keys()[0].copy()),
            b.committee.clone(),
            NetworkConfig::default(),
        )?;
        let bus = ConsensusBus::new();
        let (chain, tasks, rx, number, parent) = rt.block_on(async {
            let chain = ConsensusChain::new(dir.to_owned(), committee(N, 0))?;
            let previous = EpochRecord {
                epoch: p.epoch.saturating_sub(1),
                committee: b.committee.bls_keys().into_iter().collect(),
                next_committee: b.committee.bls_keys().into_iter().collect(),
                ..Default::default()
            };
            chain.new_epoch(previous, b.committee.clone()).await?;
            let schedule = LeaderSchedule::from_store(b.committee.clone(), &chain, p.threshold).await?;
            let protocol = Bullshark::new(b.committee.clone(), p.window, schedule, p.threshold);
            bus.app().recent_blocks().send_modify(|blocks| {
                blocks.push_latest(0, ConsensusNumHash::new(0, ConsensusHeaderDigest::default()), Some(SealedHeader::new(ExecHeader::default(), B256::default())))
            });
            let rx = bus.subscribe_sequence();
            let tasks = TaskManager::default();
            Consensus::spawn(config, &bus, protocol, &tasks, &chain, None).await?;
            let latest = chain.latest_consensus_header_from_pack(p.epoch).await?;
            let (n, d) = latest.map_or((0, ConsensusHeaderDigest::default()), |h| (h.number, h.digest()));
            eyre::Ok((chain, tasks, rx, n, d))
        })?;
        let mut rx = rx;
        Ok(Self { rt, bus, chain, out: Box::new(move || rx.try_recv().ok()), unsaved: vec![], number, parent, _tasks: tasks })
    }

    fn deliver(&mut self, cert: tn_types::Certificate) {
        let bus = self.bus.clone();
        self.rt.block_on(async {
            bus.new_certificates().send(cert).await.expect("certificate channel");
            for _ in 0..24 {
                tokio::task::yield_now().await;
            }
        });
        while let Some(s) = (self.out)() {
            self.unsaved.push(s);
        }
    }

    fn save(&mut self, k: usize) -> eyre::Result<()> {
        for s in self.unsaved.drain(..k) {
            let o = ConsensusOutput::new_with_subdag(s, self.parent, self.number + 1);
            let d = o.consensus_header_hash();
            self.rt.block_on(self.chain.save_consensus_output(o))?;
            self.number += 1;
            self.parent = d;
        }
        Ok(())
    }

    fn crash(self) {
        let Life { rt, bus, chain, out, .. } = self;
        drop(out);
        drop(bus);
        drop(chain);
        rt.shutdown_background();
    }
}

/// Where a life ends: with this certificate stored, seen by consensus or not, and that many of its commits saved.
#[derive(Clone, Debug)]
struct Crash {
    after: usize,
    seen: bool,
    lost: usize,
}

/// Plays one delivery order with the given crashes; returns the commits the node saved.
fn play(b: &Built, p: &Params, order: &[usize], crashes: &[Crash], want: &[Expected]) -> Result<usize, String> {
    let dir = Scratch::new();
    let db = MemDatabase::default();
    let start = |db: &MemDatabase| Life::start(b, p, db, dir.path()).map_err(|e| format!("cannot start: {e}"));
    let mut life = start(&db)?;
    let mut saved = life.number as usize;
    let mut crashes = crashes.iter().peekable();
    let err = |e: eyre::Report| format!("{e}");
    for (k, &i) in order.iter().enumerate() {
        let cert = b.certs[i].clone().unwrap();
        db.write(cert.clone()).map_err(err)?;
        let crash = crashes.next_if(|c| c.after == k);
        if crash.map_or(true, |c| c.seen) {
            life.deliver(cert);
        }
        // commits stay in memory until they are saved, oldest first
        let keep = crash.map_or(0, |c| c.lost.min(life.unsaved.len()));
        for s in &life.unsaved {
            let w = want.get(saved).ok_or(format!("commit {saved} of round {} is beyond the sequence of the whole DAG", s.leader_round()))?;
            compare(b, s, w).map_err(|e| format!("commit {saved}: {e}"))?;
            saved += 1;
        }
        saved -= keep;
        let n = life.unsaved.len() - keep;
        life.save(n).map_err(err)?;
        if crash.is_some() {
            life.crash();
            life = start(&db)?;
            if life.number as usize != saved {
                return Err(format!("after a restart the chain's latest number is {}, {saved} commits were saved", life.number));
            }
        }
    }
    // what is on disk is the sequence
    let rt = &life.rt;
    let mut parent = ConsensusHeaderDigest::default();
    for (k, w) in want.iter().enumerate().take(saved) {
        let h = rt.block_on(life.chain.consensus_header_by_number(k as u64 + 1)).map_err(|e| format!("{e}"))?;
        let h = h.ok_or(format!("output {} is not in the chain", k + 1))?;
        compare(b, &h.sub_dag, w).map_err(|e| format!("stored commit {k}: {e}"))?;
        if h.parent_hash != parent {
            return Err(format!("stored output {} does not follow its predecessor", k + 1));
        }
        parent = h.digest();
    }
    life.crash();
    Ok(saved)
}

pub fn c03(run: &Run) {
    let id0 = ids(&committee(N, 0));
    let sched = new_schedule(&committee(N, 0));
    let lead = |r: usize| id0.iter().position(|x| *x == sched.leader(r as u32).id()).unwrap();
    let p = |gc, window, epoch, times| Params { epoch, gc, window, threshold: 33, times, root: EpochSeedChainValue::epoch_root(epoch) };
    let mut shapes: Vec<(Shape, Params, Vec<usize>)> = vec![];
    let mut push = |mut s: Shape, p: Params, late: &[usize]| {
        assert!(s.close());
        shapes.push((s, p, late.to_vec()));
    };
    // every leader committed; one leader skipped or late, or unsupported until the next
    for gc in [5, 50] {
        push(Shape::full(9), p(gc, 3, 0, falling), &[0]);
        for m in [0b0011u64, 0b0111, 0b1111, 0b1110] {
            let mut s = Shape::full(9);
            bits(m).into_iter().for_each(|a| apply(&mut s, &(5, a, Some(lead(4)))));
            push(s.clone(), p(gc, 2, 0, flat), &[]);
            apply(&mut s, &(6, lead(6), Some(3)));
            push(s, p(gc, 3, 0, flat), &[0]);
        }
        let mut s = Shape::full(9);
        s.parents[3][lead(4)] = None;
        push(s, p(gc, 2, 0, flat), &[3]);
    }
    // a member nobody references for a while, linked again later or not
    for x in if run.thorough() { 0..N } else { 1..3 } {
        for (from, to, rounds) in [(3, 6, 9), (2, 6, 9), (3, 11, 13)] {
            let mut s = Shape::full(rounds);
            for r in from..=to {
                (0..N).filter(|&a| a != x).for_each(|a| apply(&mut s, &(r, a, Some(x))));
            }
            push(s, p(50, 3, 0, flat), &[x]);
        }
    }
    // a member that never votes is replaced once its schedule ends
    for x in if run.thorough() { 0..N } else { 1..3 } {
        let mut s = Shape::full(15);
        for k in 1..=7 {
            apply(&mut s, &(2 * k + 1, x, Some(lead(2 * k))));
        }
        push(s.clone(), p(50, 3, 0, flat), &[]);
        for (r, m) in [(10, 0b1111u64), (8, 0b0111)] {
            let mut t = s.clone();
            bits(m).into_iter().for_each(|a| apply(&mut t, &(r + 1, a, Some(lead(r)))));
            push(t, p(50, 3, 0, flat), &[]);
        }
    }
    let c = committee(N, 0);
    let mut work: Vec<(usize, Vec<usize>, Vec<Crash>)> = vec![];
    let mut prepared: Vec<(Arc<Built>, Vec<Expected>)> = vec![];
    for (k, (s, p, late)) in shapes.iter().enumerate() {
        let b = Arc::new(build(&c, s, p));
        let all: u64 = b.certs.iter().enumerate().filter(|(_, c)| c.is_some()).map(|(i, _)| 1u64 << i).sum();
        let want = expected(&b, s, p, all);
        // round by round; and with one author's certificates as late as causality allows
        let mut orders = vec![bits(all)];
        for late in if run.thorough() { (0..N).collect() } else { late.clone() } {
            let (mut have, mut order) = (0u64, vec![]);
            while have != all {
                let ready: Vec<usize> = bits(all & !have).into_iter().filter(|&i| b.down[i] & !have == 1 << i).collect();
                let i = *ready.iter().find(|&&i| i % N != late).unwrap_or(&ready[0]);
                have |= 1 << i;
                order.push(i);
            }
            if !orders.contains(&order) {
                orders.push(order);
            }
        }
        for (oi, order) in orders.iter().enumerate() {
            let n = order.len();
            let every = |k: usize| -> Vec<Crash> {
                let mut v = vec![Crash { after: k, seen: false, lost: 0 }];
                v.extend((0..=3).map(|lost| Crash { after: k, seen: true, lost }));
                v
            };
            for a in 0..n {
                for x in every(a) {
                    work.push((k, order.clone(), vec![x.clone()]));
                    // and a second one soon after, after any first one at thorough depth
                    let span = if oi > 0 {
                        0
                    } else if run.thorough() {
                        4
                    } else if [0, 2, 20].contains(&k) {
                        2
                    } else {
                        0
                    };
                    for b in a + 1..n.min(a + 1 + span) {
                        for y in every(b) {
                            if run.thorough() || x.lost != 3 && y.lost != 3 && (x.lost < 2 || y.lost < 2) {
                                work.push((k, order.clone(), vec![x.clone(), y]));
                            }
                        }
                    }
                }
            }
            work.push((k, order.clone(), vec![]));
        }
        prepared.push((b, want));
    }
    run.bound("DAGs", shapes.len());
    run.bound("delivery orders", "round by round, and one member as late as causality allows");
    run.bound("crashes", "at every certificate: stored and not seen, or seen with 0 to 3 of its commits unsaved; one, and two close together");
    run.assume("A certificate is stored before consensus sees it, and commits are saved in order before their successors; what is saved survives.");
    run.bound("lives played", work.len());
    vlib::par(run, work.len(), |w| {
        let (k, order, crashes) = &work[w];
        let (s, p, _) = &shapes[*k];
        let (b, want) = &prepared[*k];
        let show = || {
            let o = order.iter().map(|&i| format!("{}@{}", i % N, i / N + 1)).collect::<Vec<_>>().join(" ");
            format!("gc_depth {} window {}\n{}stored and delivered (author@round): {o}\ncrashes {crashes:?}", p.gc, p.window, s.show())
        };
        run.step(order.len() as u64);
        match play(b, p, order, crashes, want) {
            Err(e) => run.fail("recovery", e, show()),
            Ok(saved) => {
                // only what the last certificates would have committed may still be open
                let end = crashes.last().map_or(true, |c| c.after + 9 < order.len());
                if end && saved != want.len() {
                    run.fail("stalled", format!("{saved} of {} commits were made although rounds follow the crash", want.len()), show());
                }
                run.outcome(format!("{} crashes", crashes.len()));
            }
        }
        run.state(&(k, order, format!("{crashes:?}")));
        run.trace();
    });
}

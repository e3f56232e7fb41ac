//! Crashes of the epoch record database and of the certificates kept for an epoch (S11).
use crate::{
    chain::{committee, keys, runtime},
    disk::{crashes, Image, Loss},
    faults::{some, spots as spots_of},
    iolog::{settle, Calls, Fault, Spot, Watch},
    story::Story,
};
use std::{
    path::Path,
    sync::{
        atomic::{AtomicU64, Ordering::Relaxed},
        Mutex,
    },
};
use tn_storage::{certificate_pack::CertificatePack, epoch_records::EpochRecordDb};
use tn_types::{
    AuthorityIdentifier, BlsSignature, Certificate, ConsensusHeaderDigest, ConsensusNumHash, Epoch, EpochCertificate, EpochRecord,
    Hash as _, HeaderBuilder,
};
use vlib::{
    explore::{seq_count, seq_of},
    guarded, hash, par, Run, Scratch,
};

/// The record of an epoch. `other` records have another content, and so another digest, but are as good.
pub fn record(epoch: Epoch, other: u8, before: Option<&EpochRecord>) -> EpochRecord {
    let k: Vec<_> = keys().to_vec();
    EpochRecord {
        epoch,
        committee: k.clone(),
        next_committee: k,
        parent_hash: before.map_or_else(Default::default, |r| r.digest()),
        final_consensus: ConsensusNumHash::new(10 * (epoch as u64 + 1), ConsensusHeaderDigest::from([other.wrapping_mul(16) + epoch as u8 + 1; 32])),
        ..Default::default()
    }
}
pub fn certificate(r: &EpochRecord) -> EpochCertificate {
    EpochCertificate { epoch_hash: r.digest(), signature: BlsSignature::default(), signed_authorities: (0..1 + r.epoch % 5).collect() }
}

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Op {
    /// The record of the next epoch.
    Record,
    /// It with its certificate.
    Pair,
    /// The certificate of the first epoch that has none.
    Cert,
    Persist,
    Reopen,
}
const OPS: &[Op] = &[Op::Record, Op::Pair, Op::Cert, Op::Persist, Op::Reopen];

/// What was saved, in this order: records, and the epochs of certificates.
#[derive(Clone, Default)]
struct World {
    records: Vec<EpochRecord>,
    certs: Vec<Epoch>,
}
impl World {
    fn next(&self) -> EpochRecord {
        record(self.records.len() as Epoch, 0, self.records.last())
    }
    fn uncertified(&self) -> Option<Epoch> {
        (0..self.records.len() as Epoch).find(|e| !self.certs.contains(e))
    }
}

trait Kept: Sized {
    type World: Clone + Default + Send + Sync;
    type Op: Copy + std::fmt::Debug + std::hash::Hash + PartialEq + Send + Sync + 'static;
    const OPS: &'static [Self::Op];
    const NAME: &'static str;
    fn open(dir: &Path) -> Result<Self, String>;
    async fn close(self) -> Result<(), String>;
    async fn persist(&self) -> Result<(), String>;
    /// Is what came before certain once this has ended?
    fn firm(op: Self::Op) -> bool;
    fn reopens(op: Self::Op) -> bool;
    async fn apply(&self, op: Self::Op, world: &mut Self::World) -> Result<(), String>;
    /// The lists it holds.
    fn lists(world: &Self::World) -> Vec<Vec<u64>>;
    /// Reads all of `world`, and checks that all answers agree; gives what is there of each list.
    async fn read(&self, world: &Self::World) -> Result<Vec<Vec<u64>>, String>;
    /// Saves again what is not there.
    async fn again(&self, world: &Self::World, got: &[Vec<u64>]) -> Result<(), String>;
    fn restarted(world: &Self::World, got: &[Vec<u64>]) -> Self::World;
    async fn on(&self, world: &mut Self::World) -> Result<(), String>;
}

type Bad = (&'static str, String);
fn text(e: impl std::fmt::Display) -> String {
    e.to_string()
}

struct Records(EpochRecordDb);
impl Kept for Records {
    type World = World;
    type Op = Op;
    const OPS: &'static [Op] = OPS;
    const NAME: &'static str = "epoch records";
    fn open(dir: &Path) -> Result<Self, String> {
        EpochRecordDb::open(dir.join("epochs")).map(Self).map_err(text)
    }
    async fn close(self) -> Result<(), String> {
        Ok(())
    }
    async fn persist(&self) -> Result<(), String> {
        self.0.persist().await.map_err(text)
    }
    fn firm(op: Op) -> bool {
        matches!(op, Op::Persist | Op::Reopen)
    }
    fn reopens(op: Op) -> bool {
        op == Op::Reopen
    }
    async fn apply(&self, op: Op, world: &mut World) -> Result<(), String> {
        match op {
            Op::Record => {
                let r = world.next();
                self.0.save_record(r.clone()).await.map_err(text)?;
                world.records.push(r);
            }
            Op::Pair => {
                let r = world.next();
                self.0.save(r.clone(), certificate(&r)).await.map_err(text)?;
                world.certs.push(r.epoch);
                world.records.push(r);
            }
            Op::Cert => {
                if let Some(e) = world.uncertified() {
                    let r = &world.records[e as usize];
                    self.0.save_certificate(r.digest(), certificate(r)).await.map_err(text)?;
                    world.certs.push(e);
                }
            }
            Op::Persist => self.persist().await?,
            Op::Reopen => {}
        }
        // the background thread has done it when it answers
        self.0.latest_record().await;
        Ok(())
    }
    fn lists(w: &World) -> Vec<Vec<u64>> {
        vec![w.records.iter().map(|r| r.epoch as u64).collect(), w.certs.iter().map(|e| *e as u64).collect()]
    }
    async fn read(&self, world: &World) -> Result<Vec<Vec<u64>>, String> {
        let db = &self.0;
        let mut records = vec![];
        let mut certs = vec![];
        let mut hole = None;
        for r in &world.records {
            let e = r.epoch;
            let by_epoch = db.record_by_epoch(e).await;
            if by_epoch.as_ref().is_some_and(|x| x != r) {
                return Err(format!("record {e} is another one"));
            }
            let there = by_epoch.is_some();
            if db.contains_epoch(e).await != there {
                return Err(format!("record {e}: there {there}, but not by contains_epoch"));
            }
            let by_digest = db.record_by_digest(r.digest()).await;
            if by_digest.as_ref() != by_epoch.as_ref() {
                return Err(format!("record {e} is {} by its epoch, but {} by its digest", show(&by_epoch), show(&by_digest)));
            }
            if db.contains_record_digest(r.digest()).await && !there {
                return Err(format!("record {e} is not there, but contains_record_digest"));
            }
            let c = db.cert_by_digest(r.digest()).await;
            if c.as_ref().is_some_and(|c| *c != certificate(r)) {
                return Err(format!("the certificate of epoch {e} is another one"));
            }
            let pair = db.get_epoch_by_number(e).await;
            if pair != by_epoch.clone().map(|r| (r, c.clone())) || db.get_epoch_by_hash(r.digest()).await != pair {
                return Err(format!("epoch {e}: record and certificate are not those asked for one by one"));
            }
            if there {
                records.push(e as u64);
            }
            if !there || c.is_none() {
                hole = hole.or(Some(e));
            }
            if c.is_some() {
                certs.push(e as u64);
            }
        }
        let n = records.len();
        let latest = db.latest_record().await;
        if latest.as_ref() != n.checked_sub(1).map(|i| &world.records[i]) {
            return Err(format!("the latest record is {}, and {n} are there", show(&latest)));
        }
        let all = world.records.len() as Epoch;
        let missing = db.first_missing_historical_cert(all).await;
        if missing != hole {
            return Err(format!("first missing certificate {missing:?}, but it is {hole:?}"));
        }
        for (i, r) in world.records[..n].iter().enumerate() {
            let f = r.final_consensus.number;
            if db.number_to_epoch(f) != i as Epoch || db.number_to_epoch(f + 1) != i as Epoch + 1 {
                return Err(format!("output {f}, the last of epoch {i}, is of epoch {}, and the next of {}", db.number_to_epoch(f), db.number_to_epoch(f + 1)));
            }
        }
        // in the order in which they were saved
        let certs = world.certs.iter().map(|e| *e as u64).filter(|e| certs.contains(e)).collect();
        Ok(vec![records, certs])
    }
    async fn again(&self, world: &World, got: &[Vec<u64>]) -> Result<(), String> {
        for e in &world.certs {
            let r = &world.records[*e as usize];
            if !got[0].contains(&(*e as u64)) {
                continue;
            }
            if !got[1].contains(&(*e as u64)) {
                self.0.save_certificate(r.digest(), certificate(r)).await.map_err(text)?;
            }
        }
        for r in &world.records[got[0].len()..] {
            if world.certs.contains(&r.epoch) {
                self.0.save(r.clone(), certificate(r)).await.map_err(text)?;
            } else {
                self.0.save_record(r.clone()).await.map_err(text)?;
            }
        }
        Ok(())
    }
    fn restarted(world: &World, _: &[Vec<u64>]) -> World {
        let mut w = world.clone();
        w.certs.sort();
        w
    }
    async fn on(&self, world: &mut World) -> Result<(), String> {
        for op in [Op::Cert, Op::Record, Op::Pair] {
            self.apply(op, world).await?;
        }
        Ok(())
    }
}
fn show(r: &Option<EpochRecord>) -> String {
    r.as_ref().map_or("missing".into(), |r| format!("that of epoch {}", r.epoch))
}

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum CertOp {
    Save,
    /// One that was saved before, the first of all.
    Twice,
    Persist,
    Reopen,
}
struct Certs(CertificatePack);
fn cert(n: u64) -> Certificate {
    let h = HeaderBuilder::default()
        .author(AuthorityIdentifier::from(keys()[n as usize % 5]))
        .round(1 + n as u32)
        .epoch(0)
        .created_at(1000 + n)
        .seed_signature(BlsSignature::default())
        .build();
    let votes = keys()[..4].iter().map(|k| (AuthorityIdentifier::from(*k), BlsSignature::default())).collect();
    Certificate::new_unsigned_for_test(&committee(0), h, votes).expect("certificate")
}
impl Kept for Certs {
    type World = Vec<u64>;
    type Op = CertOp;
    const OPS: &'static [CertOp] = &[CertOp::Save, CertOp::Twice, CertOp::Persist, CertOp::Reopen];
    const NAME: &'static str = "certificates";
    fn open(dir: &Path) -> Result<Self, String> {
        Ok(Self(CertificatePack::open(dir, 0)))
    }
    async fn close(self) -> Result<(), String> {
        self.0.shutdown().await.map_err(text)
    }
    async fn persist(&self) -> Result<(), String> {
        self.0.persist().await.map_err(text)
    }
    fn firm(op: CertOp) -> bool {
        matches!(op, CertOp::Persist | CertOp::Reopen)
    }
    fn reopens(op: CertOp) -> bool {
        op == CertOp::Reopen
    }
    async fn apply(&self, op: CertOp, world: &mut Vec<u64>) -> Result<(), String> {
        match op {
            CertOp::Save => {
                let n = world.len() as u64;
                self.0.save(cert(n)).await.map_err(text)?;
                world.push(n);
            }
            CertOp::Twice => {
                if !world.is_empty() {
                    self.0.save(cert(0)).await.map_err(text)?;
                }
            }
            CertOp::Persist => self.persist().await?,
            CertOp::Reopen => {}
        }
        self.0.contains(cert(0).digest()).await;
        self.0.get_error().map_err(text)
    }
    fn lists(w: &Vec<u64>) -> Vec<Vec<u64>> {
        vec![w.clone()]
    }
    async fn read(&self, world: &Vec<u64>) -> Result<Vec<Vec<u64>>, String> {
        let mut got = vec![];
        for n in world {
            let want = cert(*n);
            let have = self.0.get(want.digest()).await;
            if have.as_ref().is_some_and(|c| *c != want) {
                return Err(format!("certificate {n} is another one"));
            }
            if self.0.contains(want.digest()).await != have.is_some() {
                return Err(format!("certificate {n}: there {}, but not by contains", have.is_some()));
            }
            if have.is_some() {
                got.push(*n);
            }
        }
        self.0.get_error().map_err(|e| format!("start: {e}"))?;
        Ok(vec![got])
    }
    async fn again(&self, world: &Vec<u64>, got: &[Vec<u64>]) -> Result<(), String> {
        for n in world.iter().filter(|n| !got[0].contains(n)) {
            self.0.save(cert(*n)).await.map_err(text)?;
        }
        Ok(())
    }
    fn restarted(world: &Vec<u64>, _: &[Vec<u64>]) -> Vec<u64> {
        world.clone()
    }
    async fn on(&self, world: &mut Vec<u64>) -> Result<(), String> {
        self.apply(CertOp::Save, world).await
    }
}

struct Past<K: Kept> {
    ops: Vec<K::Op>,
    fresh: bool,
    world: K::World,
    stories: Vec<Story>,
    log: Vec<crate::iolog::Op>,
}

/// Runs a history on a directory, and notes what it did to files. Some start with an empty directory, the others with a
/// database that holds what one of each made and that was persisted.
fn history<K: Kept>(run: &Run, ops: &[K::Op], fresh: bool) -> Option<Past<K>> {
    let dir = Scratch::new();
    let base = dir.path().join("db");
    std::fs::create_dir(&base).unwrap();
    let watch = Watch::new(&base);
    let rt = runtime();
    let mut world = K::World::default();
    let r = rt.block_on(async {
        let mut k = K::open(&base)?;
        if !fresh {
            k.on(&mut world).await?;
            k.persist().await?;
        }
        let mut stories: Vec<_> = K::lists(&world).into_iter().map(|l| Story { states: vec![l], firm: vec![!fresh] }).collect();
        for (i, op) in ops.iter().enumerate() {
            watch.mark(2 * i);
            k.apply(*op, &mut world).await?;
            if K::reopens(*op) {
                k.close().await?;
                k = K::open(&base)?;
                k.read(&world).await?;
            }
            for (s, l) in stories.iter_mut().zip(K::lists(&world)) {
                s.states.push(l);
                s.firm.push(K::firm(*op));
            }
            watch.mark(2 * i + 1);
            run.step(1);
        }
        if k.read(&world).await? != K::lists(&world) {
            return Err("not all that was saved is there".into());
        }
        k.close().await?;
        Ok::<_, String>(stories)
    });
    match r {
        Ok(stories) => {
            run.trace();
            Some(Past { ops: ops.to_vec(), fresh, world, stories, log: watch.take() })
        }
        Err(e) => {
            run.fail("operation", e, format!("{}: {ops:?}{}", K::NAME, if fresh { " on a new disk" } else { "" }));
            None
        }
    }
}

fn restart<K: Kept>(image: &Image, past: &Past<K>) -> Result<Vec<Vec<u64>>, Bad> {
    let d = Scratch::new();
    image.build(d.path());
    recheck::<K>(d.path(), &past.world, |got| past.stories.iter().zip(got).try_for_each(|(s, g)| s.judge(image.marks(), g)))
}
/// Opens what is in a directory, asks whether it may be what it is, and goes on with it.
fn recheck<K: Kept>(dir: &Path, world: &K::World, judge: impl Fn(&[Vec<u64>]) -> Result<(), String>) -> Result<Vec<Vec<u64>>, Bad> {
    runtime().block_on(async {
        let k = K::open(dir).map_err(|e| ("start", format!("does not open again: {e}")))?;
        let got = k.read(world).await.map_err(|e| ("content", e))?;
        judge(&got).map_err(|e| ("content", e))?;
        // what is missing can be saved again, and is then there, also after another start
        let mut more = K::restarted(world, &got);
        k.again(world, &got).await.map_err(|e| ("goes on", e))?;
        k.on(&mut more).await.map_err(|e| ("goes on", e))?;
        let all = K::lists(&more);
        let now = k.read(&more).await.map_err(|e| ("goes on", e))?;
        if now != all {
            return Err(("goes on", format!("of {all:?} there is {now:?} after what was missing was saved again")));
        }
        k.persist().await.map_err(|e| ("goes on", e))?;
        k.close().await.map_err(|e| ("goes on", e))?;
        let k = K::open(dir).map_err(|e| ("start", format!("does not open a second time: {e}")))?;
        let now = k.read(&more).await.map_err(|e| ("second start", e))?;
        if now != all {
            return Err(("second start", format!("of {all:?} there is {now:?}")));
        }
        k.close().await.map_err(|e| ("second start", e))?;
        Ok(got)
    })
}

/// Runs a history in which a call fails, and checks what another process finds then. Gives the calls there were.
/// Some users stop at the first error they are told of, others go on, and some persist once more when the trouble is over.
fn trouble<K: Kept>(run: &Run, ops: &[K::Op], fault: Option<Spot>, manner: Manner) -> Calls {
    let dir = Scratch::new();
    let base = dir.path().join("db");
    std::fs::create_dir(&base).unwrap();
    let watch = Watch::new(&base);
    let mut reports: Vec<String> = vec![];
    let mut certain: Vec<Vec<u64>> = vec![];
    let mut over = None;
    let mut world = K::World::default();
    let r = guarded(|| -> Result<Vec<Vec<u64>>, Bad> {
        runtime().block_on(async {
            let first = async {
                let k = K::open(&base)?;
                k.on(&mut world).await?;
                k.persist().await?;
                Ok::<_, String>(k)
            };
            let mut k = Some(first.await.map_err(|e| ("start", e))?);
            certain = K::lists(&world);
            watch.arm(fault.clone());
            // nothing was reported since the last time all was certain
            let mut quiet = true;
            // what a start did not find again
            let mut lost: Vec<Vec<u64>> = vec![vec![]; certain.len()];
            let kept = |world: &K::World, lost: &[Vec<u64>]| -> Vec<Vec<u64>> {
                K::lists(world).into_iter().zip(lost).map(|(l, gone)| l.into_iter().filter(|x| !gone.contains(x)).collect()).collect()
            };
            let grown = |certain: &[Vec<u64>], now: Vec<Vec<u64>>| certain.iter().zip(now).map(|(c, n)| c.iter().copied().chain(n.into_iter().filter(|x| !c.contains(x))).collect()).collect();
            for op in ops {
                let Some(db) = k.as_ref() else { break };
                let mut r = db.apply(*op, &mut world).await;
                if K::firm(*op) && !K::reopens(*op) && r.is_ok() && quiet {
                    certain = grown(&certain, kept(&world, &lost));
                }
                if K::reopens(*op) {
                    let closed = k.take().unwrap().close().await;
                    settle(&base);
                    r = r.and(closed);
                    match K::open(&base) {
                        Ok(x) => {
                            // closing may fail without a word
                            match x.read(&world).await {
                                Ok(got) => lost = K::lists(&world).into_iter().zip(got).map(|(l, g)| l.into_iter().filter(|x| !g.contains(x)).collect()).collect(),
                                Err(_) => lost = K::lists(&world),
                            }
                            k = Some(x);
                        }
                        Err(e) => r = Err(e),
                    }
                }
                if let Err(e) = r {
                    reports.push(e);
                    quiet = false;
                    if manner == Manner::Stops {
                        break;
                    }
                } else if K::firm(*op) {
                    quiet = true;
                }
                run.step(1);
            }
            if manner == Manner::Retries {
                over = Some(watch.disarm());
                if let Some(db) = &k {
                    match db.persist().await {
                        Ok(()) if quiet => certain = grown(&certain, kept(&world, &lost)),
                        Ok(()) => {}
                        Err(e) => reports.push(e),
                    }
                }
            }
            if let Some(db) = k {
                if let Err(e) = db.close().await {
                    reports.push(e);
                }
            }
            Ok::<_, Bad>(())
        })?;
        settle(&base);
        over = Some(over.take().unwrap_or_else(|| watch.disarm()));
        recheck::<K>(&base, &world, |got| match certain.iter().zip(got).find(|(c, g)| !c.iter().all(|x| g.contains(x))) {
            Some((c, g)) => Err(format!("{c:?} was certain, {g:?} is left")),
            None => Ok(()),
        })
    });
    let (calls, hit) = over.unwrap_or_default();
    let what = || format!("{} {ops:?}, {fault:?} ({}), {manner:?}; reported: {reports:?}", K::NAME, hit.clone().unwrap_or_default());
    match r {
        Ok(Ok(_)) => {
            run.state(&(K::NAME, hash(ops), &fault, manner));
            run.outcome(if reports.is_empty() { "unnoticed" } else { "reported" });
        }
        // a bucket cut short in place
        Ok(Err((_, e))) if torn_bucket(&fault) && (manner != Manner::Retries || ops.iter().any(|o| K::reopens(*o))) => run.fail("torn-bucket", e, what()),
        Ok(Err((key, e))) => run.fail(key, e, what()),
        Err(e) => run.fail("panic", e, what()),
    }
    if fault.is_none() && !reports.is_empty() {
        run.fail("operation", "an error without a fault", what());
    }
    run.trace();
    calls
}
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
pub enum Manner {
    Stops,
    GoesOn,
    Retries,
}
pub const MANNERS: &[Manner] = &[Manner::Stops, Manner::Retries, Manner::GoesOn];
pub fn torn_bucket(f: &Option<Spot>) -> bool {
    f.as_ref().is_some_and(|(p, _, f)| p.ends_with("index.hdx") && *f != Fault::Once)
}
fn troubles<K: Kept + 'static>(run: &Run, depth: usize, faults: &AtomicU64) {
    let n = K::OPS.len() as u64;
    let plan: Vec<Vec<K::Op>> = (0..seq_count(n, depth)).map(|i| seq_of(i, n, depth).into_iter().map(|x| K::OPS[x]).collect()).collect();
    let spots: Mutex<Vec<(usize, Spot)>> = Default::default();
    par(run, plan.len(), |i| {
        let calls = trouble::<K>(run, &plan[i], None, Manner::GoesOn);
        spots.lock().unwrap().extend(spots_of(&calls, some(run)).into_iter().map(|s| (i, s)));
    });
    let mut spots = spots.into_inner().unwrap();
    spots.sort();
    let manners = run.pick(&MANNERS[..2], MANNERS);
    par(run, spots.len() * manners.len(), |j| {
        let (i, spot) = &spots[j / manners.len()];
        faults.fetch_add(1, Relaxed);
        trouble::<K>(run, &plan[*i], Some(spot.clone()), manners[j % manners.len()]);
    });
}
pub fn s12(run: &Run, faults: &AtomicU64) {
    troubles::<Records>(run, run.pick(2, 3), faults);
    troubles::<Certs>(run, run.pick(2, 4), faults);
}

fn crash<K: Kept>(run: &Run, past: &Past<K>, part: usize, of: usize, cap: usize, images: &AtomicU64, moments: &AtomicU64) {
    let ops = &past.ops;
    let last = 2 * (ops.len() - 1);
    let mut i = part;
    let n = crashes(&past.log, &[Loss::Process, Loss::Sectors], cap, |image| {
        if run.stop() || !image.marks().contains(&last) && !(past.fresh && ops.len() == 1) {
            return;
        }
        i += 1;
        if i % of != 0 {
            return;
        }
        images.fetch_add(1, Relaxed);
        run.step(1);
        let what = || {
            format!("{}: {ops:?}{}; after marks {:?} (2i: step i began, 2i+1: it ended): {}", K::NAME, if past.fresh { " on a new disk" } else { "" }, image.marks(), image.describe())
        };
        match guarded(|| restart(image, past)) {
            Ok(Ok(got)) => {
                run.state(&(K::NAME, hash(ops), past.fresh, hash(image.marks()), image.describe()));
                run.outcome(if got.iter().all(|g| g.is_empty()) { "empty" } else if got == K::lists(&past.world) { "everything" } else { "a part" });
            }
            Ok(Err((_, e))) if image.torn_in("index.hdx") => run.fail("torn-bucket", e, what()),
            Ok(Err((key, e))) => run.fail(key, e, what()),
            Err(e) => run.fail("panic", e, what()),
        }
    });
    if part == 0 {
        moments.fetch_add(n as u64, Relaxed);
    }
}

fn all<K: Kept + 'static>(run: &Run, depth: usize, cap: usize, images: &AtomicU64, moments: &AtomicU64) {
    let n = K::OPS.len() as u64;
    let mut plan = vec![];
    for len in 1..=depth {
        for i in 0..seq_count(n, len) {
            let ops: Vec<_> = seq_of(i, n, len).into_iter().map(|x| K::OPS[x]).collect();
            // the files are made once, so short histories are enough for that
            if len < depth {
                plan.push((ops.clone(), true));
            }
            plan.push((ops, false));
        }
    }
    for some in plan.chunks(8) {
        let past: Mutex<Vec<Past<K>>> = Default::default();
        par(run, some.len(), |i| {
            let p = history::<K>(run, &some[i].0, some[i].1);
            past.lock().unwrap().extend(p);
        });
        let past = past.into_inner().unwrap();
        par(run, past.len() * 8, |i| crash(run, &past[i / 8], i % 8, 8, cap, images, moments));
    }
}

pub fn s11(run: &Run) {
    let (images, moments) = (AtomicU64::new(0), AtomicU64::new(0));
    let cap = run.pick(60, 200);
    all::<Records>(run, run.pick(2, 3), cap, &images, &moments);
    all::<Certs>(run, run.pick(2, 4), cap, &images, &moments);
    run.bound("crash images", images.load(Relaxed));
    run.bound("crash moments", moments.load(Relaxed));
}

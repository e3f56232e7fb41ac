//! Crashes of the consensus chain on disk (S10): the packs of consecutive epochs, their indexes, the hint of the
//! latest consensus and the epoch records, opened again after every crash a short history may suffer.
use crate::{
    disk::{crashes, Image, Loss},
    faults::{some, spots as spots_of},
    iolog::{settle, Calls, Spot, Watch},
    records::torn_bucket,
    story::Story,
};
use indexmap::IndexMap;
use rand::{rngs::StdRng, SeedableRng};
use std::{
    collections::HashSet,
    path::Path,
    sync::{
        atomic::{AtomicU64, Ordering::Relaxed},
        Mutex, OnceLock,
    },
    time::{Duration, Instant},
};
use tn_storage::{consensus::ConsensusChain, consensus_pack::ConsensusPack};
use tn_types::{
    Address, AuthorityIdentifier, Batch, BlsKeypair, BlsPublicKey, BlsSignature, Certificate, CertifiedBatch, CommittedSubDag,
    Committee, CommitteeBuilder, ConsensusHeaderDigest, ConsensusNumHash, ConsensusOutput, Epoch, EpochRecord,
    EpochSeedChainValue, Hash as _, HeaderBuilder,
};
use vlib::{
    explore::{seq_count, seq_of},
    guarded, hash, par, Run, Scratch,
};

pub fn keys() -> &'static [BlsPublicKey] {
    static K: OnceLock<Vec<BlsPublicKey>> = OnceLock::new();
    K.get_or_init(|| {
        let mut v: Vec<_> = (0..5u64).map(|i| *BlsKeypair::generate(&mut StdRng::seed_from_u64(700 + i)).public()).collect();
        v.sort_by_key(|k| k.to_bytes());
        v
    })
}
pub fn committee(epoch: Epoch) -> Committee {
    let mut b = CommitteeBuilder::new(epoch);
    for (i, k) in keys().iter().enumerate() {
        b.add_authority(*k, Address::repeat_byte(i as u8 + 1));
    }
    b.build()
}
fn batch(n: u64) -> Batch {
    // incompressible, so that its record is about as long
    let mut x = n.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    let tx = (0..60 * (1 + n as usize % 3))
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x as u8
        })
        .collect();
    Batch { transactions: vec![tx], epoch: 0, ..Default::default() }
}
/// The output with this number: of one or two certificates, with none to three batches, some of which an earlier
/// output or another certificate of the same output holds too.
pub fn output(epoch: Epoch, number: u64, parent: ConsensusHeaderDigest) -> ConsensusOutput {
    let c = committee(epoch);
    let sets: Vec<Vec<u64>> = match number % 4 {
        1 => vec![vec![number]],
        2 => vec![vec![]],
        3 => vec![vec![number, number - 2], vec![number, 100 + number]],
        _ => vec![vec![], vec![200 + number]],
    };
    let n = sets.len();
    let mut certs = vec![];
    let mut batches = vec![];
    let mut digests = std::collections::VecDeque::new();
    for (i, set) in sets.iter().enumerate() {
        let author = (number as usize + i) % 5;
        let payload: IndexMap<_, _> = set.iter().map(|b| (batch(*b).digest(), 0)).collect();
        let round = 2 * number as u32 - (n - 1 - i) as u32;
        let h = HeaderBuilder::default()
            .author(AuthorityIdentifier::from(keys()[author]))
            .round(round)
            .epoch(epoch)
            .created_at(1000 + round as u64)
            .payload(payload.clone())
            .seed_signature(BlsSignature::default())
            .build();
        let votes = keys()[..4].iter().map(|k| (AuthorityIdentifier::from(*k), BlsSignature::default())).collect();
        certs.push(Certificate::new_unsigned_for_test(&c, h, votes).expect("certificate"));
        digests.extend(payload.keys().copied());
        batches.push(CertifiedBatch { address: Address::repeat_byte(author as u8 + 1), batches: set.iter().map(|b| batch(*b)).collect() });
    }
    let leader = certs.last().unwrap().clone();
    let dag = CommittedSubDag::new(certs, leader, number, Default::default(), None, EpochSeedChainValue::epoch_root(epoch));
    if digests.is_empty() {
        return ConsensusOutput::new_with_subdag(dag, parent, number);
    }
    ConsensusOutput::new(dag, parent, number, false, digests, batches)
}
pub fn before_genesis() -> EpochRecord {
    let k: Vec<_> = keys().to_vec();
    EpochRecord { epoch: 0, committee: k.clone(), next_committee: k, ..Default::default() }
}

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Op {
    Save,
    /// An output is saved and persisted, as it is before it is executed.
    Put,
    /// The last output of the epoch, its record, and the next epoch begins.
    Epoch,
    Reopen,
}
const OPS: &[Op] = &[Op::Save, Op::Put, Op::Epoch, Op::Reopen];

/// What was to be saved, by number, and where epochs end.
#[derive(Clone, Default)]
struct World {
    outputs: Vec<(Epoch, ConsensusOutput)>,
    records: Vec<EpochRecord>,
}
impl World {
    fn parent(&self) -> (u64, ConsensusHeaderDigest) {
        self.outputs.last().map_or((0, ConsensusHeaderDigest::default()), |(_, o)| (o.number(), o.digest()))
    }
    fn next(&self) -> ConsensusOutput {
        let (n, p) = self.parent();
        output(self.records.len() as Epoch, n + 1, p)
    }
    fn record(&self) -> EpochRecord {
        let e = self.records.len() as Epoch;
        let (n, p) = self.parent();
        let k: Vec<_> = keys().to_vec();
        EpochRecord {
            epoch: e,
            committee: k.clone(),
            next_committee: k,
            parent_hash: self.records.last().map_or_else(Default::default, |r| r.digest()),
            final_consensus: ConsensusNumHash::new(n, p),
            ..Default::default()
        }
    }
}

fn open(dir: &Path) -> Result<ConsensusChain, String> {
    ConsensusChain::new(dir.to_path_buf(), committee(0)).map_err(|e| e.to_string())
}
/// What a node does when it enters an epoch: the pack of the epoch is opened after the records before it.
async fn enter(chain: &ConsensusChain, records: &[EpochRecord]) -> Result<(), String> {
    let epoch = records.len() as Epoch;
    let previous = records.last().cloned().unwrap_or_else(before_genesis);
    if epoch == 0 {
        chain.epochs().save_dummy_epoch0(before_genesis()).await.map_err(|e| e.to_string())?;
    }
    chain.new_epoch(previous, committee(epoch)).await.map_err(|e| e.to_string())?;
    // as when the node starts
    chain.persist_current().await.map_err(|e| e.to_string())
}
/// The background thread writes the hint; it is given the time to, but nothing waits for it.
fn hint(dir: &Path, number: u64) {
    let end = Instant::now() + Duration::from_millis(20);
    let there = |n: &str| std::fs::read(dir.join(n)).is_ok_and(|b| b.len() == 16 && b[4..12] == number.to_le_bytes());
    while Instant::now() < end && !there("consensus_slot1") && !there("consensus_slot2") {
        std::thread::yield_now();
    }
}

fn same(a: &ConsensusOutput, b: &ConsensusOutput) -> bool {
    a.consensus_header() == b.consensus_header() && a.batches().len() == b.batches().len()
        && a.batches().iter().zip(b.batches()).all(|(x, y)| x.address == y.address && x.batches == y.batches)
        && a.digest() == b.digest()
}

/// Checks what is there of `world`, and returns the numbers of the outputs.
async fn read(chain: &ConsensusChain, world: &World) -> Result<Vec<u64>, String> {
    let mut got = vec![];
    for (epoch, want) in &world.outputs {
        let n = want.number();
        let have = match chain.consensus_output_by_number(n).await {
            Ok(Some(o)) => o,
            _ => break,
        };
        if !same(&have, want) {
            return Err(format!("output {n} is not the one saved"));
        }
        if chain.consensus_header_by_number(n).await.ok().flatten().as_ref() != Some(&want.consensus_header()) {
            return Err(format!("output {n} is there, but not its header"));
        }
        match chain.consensus_header_by_digest(*epoch, want.digest()).await {
            Ok(Some(h)) if h == want.consensus_header() => {}
            r => return Err(format!("output {n} is there, but by its digest: {r:?}")),
        }
        for cb in want.batches() {
            let ds: Vec<_> = cb.batches.iter().map(|b| b.digest()).collect();
            if chain.get_batches(*epoch, ds.iter()).await != cb.batches {
                return Err(format!("output {n} is there, but not all its batches by their digests"));
            }
        }
        got.push(n);
    }
    Ok(got)
}

async fn step(c: &ConsensusChain, base: &Path, op: Op, world: &mut World) -> Result<(), String> {
    let o = world.next();
    c.save_consensus_output(o.clone()).await.map_err(|e| format!("saving: {e}"))?;
    hint(base, o.number());
    world.outputs.push((world.records.len() as Epoch, o));
    if op != Op::Save {
        c.persist_current().await.map_err(|e| format!("persisting: {e}"))?;
    }
    if op == Op::Epoch {
        let r = world.record();
        world.records.push(r.clone());
        c.epochs().save_record(r).await.map_err(|e| format!("record: {e}"))?;
        c.epochs().persist().await.map_err(|e| format!("record: {e}"))?;
        enter(c, &world.records).await?;
    }
    Ok(())
}

struct Count {
    images: AtomicU64,
    moments: AtomicU64,
    streamed: Mutex<HashSet<u64>>,
}
pub fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}

/// A history that ran, and what its file operations were.
struct Past {
    ops: Vec<Op>,
    fresh: bool,
    world: World,
    story: Story,
    records: Vec<usize>,
    log: Vec<crate::iolog::Op>,
}
fn history(run: &Run, ops: &[Op], fresh: bool) -> Option<Past> {
    let dir = Scratch::new();
    let base = dir.path().join("db");
    std::fs::create_dir(&base).unwrap();
    let watch = Watch::new(&base);
    let rt = runtime();
    let mut world = World::default();
    let mut story = Story { states: vec![vec![]], firm: vec![false] };
    // how many records there are after each step
    let mut records = vec![0];
    let r = rt.block_on(async {
        let mut chain = Some(open(&base)?);
        enter(chain.as_ref().unwrap(), &[]).await?;
        if !fresh {
            chain.as_ref().unwrap().epochs().persist().await.map_err(|e| e.to_string())?;
        }
        for (i, op) in ops.iter().enumerate() {
            watch.mark(2 * i);
            if *op == Op::Reopen {
                drop(chain.take());
                let c = open(&base)?;
                enter(&c, &world.records).await?;
                chain = Some(c);
            } else {
                step(chain.as_ref().unwrap(), &base, *op, &mut world).await?;
            }
            let firm = *op != Op::Save;
            story.states.push(world.outputs.iter().map(|o| o.1.number()).collect());
            story.firm.push(firm);
            records.push(world.records.len());
            watch.mark(2 * i + 1);
            run.step(1);
        }
        drop(chain);
        Ok::<_, String>(())
    });
    if let Err(e) = r {
        run.fail("operation", e, format!("{ops:?}"));
        return None;
    }
    run.trace();
    Some(Past { ops: ops.to_vec(), fresh, world, story, records, log: watch.take() })
}

/// Every `of`-th crash of this history.
fn crash(run: &Run, past: &Past, part: usize, of: usize, cap: usize, count: &Count) {
    let Past { ops, fresh, world, story, records, log } = past;
    let last = 2 * (ops.len() - 1);
    let mut i = part;
    let n = crashes(log, &[Loss::Process, Loss::Sectors], cap, |image| {
        // crashes before the last step are those of a shorter history
        if run.stop() || !fresh && !image.marks().contains(&last) {
            return;
        }
        i += 1;
        if i % of != 0 {
            return;
        }
        count.images.fetch_add(1, Relaxed);
        let what = || format!("{ops:?}{}; after marks {:?} (2i: step i began, 2i+1: it ended): {}", if *fresh { " on a new disk" } else { "" }, image.marks(), image.describe());
        match guarded(|| restart(image, world, story, records, &count.streamed)) {
            Ok(Ok(got)) => {
                run.step(1);
                run.state(&(hash(ops), *fresh, hash(image.marks()), image.describe()));
                run.outcome(if got.is_empty() { "empty" } else if got.len() == world.outputs.len() { "everything" } else { "a part" });
            }
            Ok(Err((_, e))) if image.torn_in("index.hdx") => run.fail("torn-bucket", e, what()),
            Ok(Err((key, e))) => run.fail(key, e, what()),
            Err(e) => run.fail("panic", e, what()),
        }
    });
    if part == 0 {
        count.moments.fetch_add(n as u64, Relaxed);
    }
}

type Bad = (&'static str, String);
fn restart(image: &Image, world: &World, story: &Story, records: &[usize], streamed: &Mutex<HashSet<u64>>) -> Result<Vec<u64>, Bad> {
    let d = Scratch::new();
    image.build(d.path());
    let begun = image.marks().iter().filter(|m| **m % 2 == 0).count();
    let done = image.marks().len() - begun;
    recheck(d.path(), world, (records[done], *records.get(begun).unwrap_or(records.last().unwrap())), |got| story.judge(image.marks(), got), streamed)
}
/// Starts on a directory, asks whether it may be what it is, with as many records, and goes on.
fn recheck(dir: &Path, world: &World, records: (usize, usize), judge: impl Fn(&[u64]) -> Result<(), String>, streamed: &Mutex<HashSet<u64>>) -> Result<Vec<u64>, Bad> {
    runtime().block_on(async {
        let chain = open(dir).map_err(|e| ("start", format!("does not start again: {e}")))?;
        // the records of the epochs that ended are there
        let mut known = vec![];
        while let Some(r) = chain.epochs().record_by_epoch(known.len() as Epoch).await {
            if world.records.get(known.len()) != Some(&r) {
                return Err(("record", format!("the record of epoch {} is not the one written", known.len())));
            }
            known.push(r);
        }
        if known.len() < records.0 || known.len() > records.1 {
            return Err(("record", format!("{} records of ended epochs are there, {} were written", known.len(), records.0)));
        }
        enter(&chain, &known).await.map_err(|e| ("start", format!("cannot enter epoch {} again: {e}", known.len())))?;
        let mut world = World { outputs: world.outputs.clone(), records: known };
        let got = read(&chain, &world).await.map_err(|e| ("content", e))?;
        judge(&got).map_err(|e| ("content", e))?;
        let epoch = world.records.len() as Epoch;
        world.outputs.truncate(got.len());
        if world.outputs.last().is_some_and(|o| o.0 > epoch) {
            return Err(("content", "holds outputs of an epoch before whose end there is no record".into()));
        }
        let tip = chain.latest_consensus_header_from_pack(epoch).await.map_err(|e| ("tip", e.to_string()))?;
        let want = world.outputs.last().filter(|o| o.0 == epoch).map(|o| o.1.consensus_header());
        if tip != want {
            return Err(("tip", format!("the latest output of epoch {epoch} is {:?}, not {:?}", tip.map(|h| h.number), want.map(|h| h.number))));
        }
        // it goes on, and what it saves now is there after the next start
        for _ in 0..2 {
            let o = world.next();
            chain.save_consensus_output(o.clone()).await.map_err(|e| ("goes on", format!("output {} is refused: {e}", o.number())))?;
            chain.persist_current().await.map_err(|e| ("goes on", e.to_string()))?;
            world.outputs.push((epoch, o));
        }
        let record = world.record();
        chain.epochs().save_record(record.clone()).await.map_err(|e| ("goes on", e.to_string()))?;
        chain.epochs().persist().await.map_err(|e| ("goes on", e.to_string()))?;
        drop(chain);
        let chain = open(dir).map_err(|e| ("start", format!("does not start a second time: {e}")))?;
        if chain.latest_consensus_number() != world.parent().0 {
            return Err(("hint", format!("says {} is the latest, not {}", chain.latest_consensus_number(), world.parent().0)));
        }
        let again = read(&chain, &world).await.map_err(|e| ("second start", e))?;
        if again.len() != world.outputs.len() {
            return Err(("second start", format!("of {} outputs {} are there", world.outputs.len(), again.len())));
        }
        // and another node can get the epoch from it, which depends on these bytes alone
        let data = std::fs::read(dir.join(format!("epoch-{epoch}/{}", tn_storage::consensus_pack::DATA_NAME))).map_err(|e| ("stream", e.to_string()))?;
        if !streamed.lock().unwrap().insert(hash(&(epoch, record.digest(), data))) {
            return Ok(got);
        }
        let stream = chain.get_epoch_stream(epoch).await.map_err(|e| ("stream", format!("of epoch {epoch}: {e}")))?;
        let other = Scratch::new();
        let previous = world.records.last().cloned().unwrap_or_else(before_genesis);
        let pack = ConsensusPack::stream_import(other.path(), stream, epoch, &previous, record.final_consensus.number, Duration::from_secs(60))
            .await
            .map_err(|e| ("stream", format!("another node refuses epoch {epoch}: {e}")))?;
        let last = pack.latest_consensus_header().await.map_err(|e| ("stream", e.to_string()))?;
        if last.map(|h| h.digest()) != Some(record.final_consensus.hash) {
            return Err(("stream", "another node gets another last output".into()));
        }
        Ok(got)
    })
}

pub fn s10(run: &Run) {
    let count = Count { images: AtomicU64::new(0), moments: AtomicU64::new(0), streamed: Default::default() };
    let cap = run.pick(40, 200);
    let depth = run.pick(2, 4);
    // a new database, up to the end of its first epoch, and all short histories of one that has been in use
    let mut plan: Vec<(Vec<Op>, bool)> = vec![(vec![Op::Save], true), (vec![Op::Epoch], true), (vec![Op::Reopen], true)];
    for len in 1..=depth {
        for i in 0..seq_count(OPS.len() as u64, len) {
            plan.push((seq_of(i, OPS.len() as u64, len).into_iter().map(|x| OPS[x]).collect(), false));
        }
    }
    for some in plan.chunks(8) {
        let past: Mutex<Vec<Past>> = Default::default();
        par(run, some.len(), |i| past.lock().unwrap().extend(history(run, &some[i].0, some[i].1)));
        let past = past.into_inner().unwrap();
        par(run, past.len() * 8, |i| crash(run, &past[i / 8], i % 8, 8, cap, &count));
    }
    run.bound("crash images", count.images.load(Relaxed));
    run.bound("crash moments", count.moments.load(Relaxed));
}

/// Runs a history in which a call fails. The node stops at the first error, and is started again when the trouble is over.
fn trouble(run: &Run, ops: &[Op], fault: Option<Spot>, streamed: &Mutex<HashSet<u64>>) -> Calls {
    let dir = Scratch::new();
    let base = dir.path().join("db");
    std::fs::create_dir(&base).unwrap();
    let watch = Watch::new(&base);
    let mut world = World::default();
    let mut report = None;
    // outputs and records that are certain
    let mut certain = (0, 0);
    let mut calls = Calls::new();
    let mut hit = None;
    let r = guarded(|| {
        runtime().block_on(async {
            let first = async {
                let c = open(&base)?;
                enter(&c, &[]).await?;
                c.epochs().persist().await.map_err(|e| e.to_string())?;
                step(&c, &base, Op::Put, &mut world).await?;
                Ok::<_, String>(c)
            };
            let mut chain = Some(first.await.map_err(|e| ("start", e))?);
            certain.0 = 1;
            watch.arm(fault.clone());
            for op in ops {
                let r = if *op == Op::Reopen {
                    drop(chain.take());
                    async {
                        let c = open(&base)?;
                        enter(&c, &world.records).await?;
                        chain = Some(c);
                        Ok(())
                    }
                    .await
                } else {
                    step(chain.as_ref().unwrap(), &base, *op, &mut world).await
                };
                run.step(1);
                match r {
                    Ok(()) if *op == Op::Put || *op == Op::Epoch => certain = (world.outputs.len(), world.records.len()),
                    Ok(()) => {}
                    Err(e) => {
                        report = Some(e);
                        break;
                    }
                }
            }
            drop(chain);
            Ok::<_, Bad>(())
        })?;
        settle(&base);
        (calls, hit) = watch.disarm();
        recheck(
            &base,
            &world,
            (certain.1, world.records.len()),
            |got| if got.len() < certain.0 { Err(format!("{} outputs were certain, {got:?} are left", certain.0)) } else { Ok(()) },
            streamed,
        )
    });
    let what = || format!("{ops:?}, {fault:?} ({}); reported: {report:?}", hit.clone().unwrap_or_default());
    match r {
        Ok(Ok(_)) => {
            run.state(&("chain", hash(ops), &fault));
            run.outcome(if report.is_none() { "unnoticed" } else { "reported" });
        }
        Ok(Err((_, e))) if torn_bucket(&fault) => run.fail("torn-bucket", e, what()),
        Ok(Err((key, e))) => run.fail(key, e, what()),
        Err(e) => run.fail("panic", e, what()),
    }
    if fault.is_none() && report.is_some() {
        run.fail("operation", "an error without a fault", what());
    }
    run.trace();
    calls
}
pub fn s12(run: &Run, faults: &AtomicU64) {
    let streamed = Default::default();
    let depth = run.pick(2, 3);
    let n = OPS.len() as u64;
    let plan: Vec<Vec<Op>> = (0..seq_count(n, depth)).map(|i| seq_of(i, n, depth).into_iter().map(|x| OPS[x]).collect()).collect();
    let spots: Mutex<Vec<(usize, Spot)>> = Default::default();
    par(run, plan.len(), |i| {
        let calls = trouble(run, &plan[i], None, &streamed);
        spots.lock().unwrap().extend(spots_of(&calls, some(run)).into_iter().map(|s| (i, s)));
    });
    let mut spots = spots.into_inner().unwrap();
    spots.sort();
    par(run, spots.len(), |j| {
        faults.fetch_add(1, Relaxed);
        trouble(run, &plan[spots[j].0], Some(spots[j].1.clone()), &streamed);
    });
}

//! Crashes of the record log, the position index and the digest index (S09): each short history runs once on the
//! real code with its file operations recorded, and every disk that a crash at any moment of it may leave is
//! opened again.
use crate::{
    disk::{crashes, Loss},
    iolog::Watch,
    story::Story,
};
use serde::{Deserialize, Serialize};
use std::{
    collections::{HashMap, HashSet},
    hash::{BuildHasher, BuildHasherDefault},
    path::Path,
    sync::atomic::{AtomicU64, Ordering::Relaxed},
};
use tn_storage::archive::{
    digest_index::index::HdxIndex,
    fxhasher::FxHasher,
    index::Index,
    pack::{DataHeader, Pack, PackCompression, DATA_HEADER_BYTES},
    position_index::index::PositionIndex,
};
use tn_types::B256;
use vlib::{
    explore::{seq_count, seq_of},
    guarded, hash, par, Run, Scratch,
};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct Rec {
    pub id: u64,
    body: Vec<u8>,
}
pub fn rec(id: u64, n: usize) -> Rec {
    let mut x = id.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    let body = (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x as u8
        })
        .collect();
    Rec { id, body }
}

// ---------------------------------------------------------------- the record log

#[derive(Clone, Copy, Debug, Hash)]
enum POp {
    App(usize),
    Flush,
    Commit,
    Reopen,
    TruncLast,
    Rename,
}
const POPS: &[POp] = &[POp::App(3), POp::App(700), POp::App(17_000), POp::Flush, POp::Commit, POp::Reopen, POp::TruncLast, POp::Rename];

pub fn popen(p: &Path, ro: bool) -> Result<Pack<Rec>, String> {
    Pack::open(p, 7, ro, PackCompression::None, 1).map_err(|e| e.to_string())
}

struct Count {
    images: AtomicU64,
    moments: AtomicU64,
}

fn pack_history(run: &Run, ops: &[POp], cap: usize, count: &Count) {
    let dir = Scratch::new();
    let watch = Watch::new(dir.path());
    let names = ["log", "log2"];
    let mut at = 0;
    // its name after each step
    let mut called = vec![at];
    let mut db = match popen(&dir.path().join(names[at]), false) {
        Ok(db) => Some(db),
        Err(e) => return run.fail("open", e, "a new log"),
    };
    let mut now: Vec<(u64, u64, usize)> = vec![]; // identifier, position, size
    let mut story = Story { states: vec![vec![]], firm: vec![false] };
    let mut sizes: HashMap<u64, usize> = HashMap::new();
    let mut next = 0;
    for (i, op) in ops.iter().enumerate() {
        watch.mark(2 * i);
        let d = db.as_mut().unwrap();
        let mut firm = false;
        let r: Result<(), String> = match op {
            POp::App(n) => {
                next += 1;
                sizes.insert(next, *n);
                d.append(&rec(next, *n)).map(|p| now.push((next, p, *n))).map_err(|e| e.to_string())
            }
            POp::Flush => d.flush().map_err(|e| e.to_string()),
            POp::Commit => {
                firm = true;
                d.commit().map_err(|e| e.to_string())
            }
            POp::Reopen => {
                firm = true;
                drop(db.take());
                popen(&dir.path().join(names[at]), false).map(|d| db = Some(d))
            }
            POp::TruncLast => match now.pop() {
                Some((_, p, _)) => d.truncate(p).map_err(|e| e.to_string()),
                None => Ok(()),
            },
            POp::Rename => {
                at = 1 - at;
                d.rename(dir.path().join(names[at])).map_err(|e| e.to_string())
            }
        };
        if let Err(e) = r {
            return run.fail("operation", e, format!("{:?}", &ops[..=i]));
        }
        story.states.push(now.iter().map(|x| x.0).collect());
        story.firm.push(firm);
        called.push(at);
        watch.mark(2 * i + 1);
        run.step(1);
    }
    drop(db);
    let log = watch.take();
    let moved = ops.iter().any(|o| matches!(o, POp::Rename));
    let n = crashes(&log, &[Loss::Process, Loss::Ordered], cap, |image| {
        if run.stop() {
            return;
        }
        count.images.fetch_add(1, Relaxed);
        let d = Scratch::new();
        image.build(d.path());
        let what = || format!("{ops:?}; after marks {:?} (2i: step i began, 2i+1: it ended): {}", image.marks(), image.describe());
        let found: Vec<_> = names.iter().map(|n| d.path().join(n)).filter(|p| p.exists()).collect();
        if found.len() > 1 {
            return run.fail("rename", "both the old and the new name are there", what());
        }
        if let Some(p) = found.first() {
            let begun = image.marks().iter().filter(|m| **m % 2 == 0).count();
            let done = image.marks().len() - begun;
            if !called[done..=begun].iter().any(|n| p.ends_with(names[*n])) {
                return run.fail("rename", format!("the log is called {} again", p.file_name().unwrap_or_default().to_string_lossy()), what());
            }
        }
        let r = guarded(|| -> Result<Vec<u64>, String> {
            let Some(p) = found.first() else { return Ok(vec![]) };
            // how a reader sees it, up to the first record that is not whole
            let mut got: Vec<Rec> = vec![];
            match popen(p, true) {
                Ok(db) => {
                    for r in db.raw_iter().map_err(|e| e.to_string())? {
                        match r {
                            Ok(r) => got.push(r),
                            Err(_) => break,
                        }
                    }
                }
                // a file that does not even have its header holds nothing
                Err(_) => return Ok(vec![]),
            }
            if let Some(bad) = got.iter().find(|r| sizes.get(&r.id).is_none_or(|n| **r != rec(r.id, *n))) {
                return Err(format!("invents record {}", bad.id));
            }
            Ok(got.iter().map(|r| r.id).collect())
        });
        match r {
            Ok(Ok(got)) => {
                run.state(&(ops.len(), hash(&got), hash(image.marks())));
                if let Err(e) = story.judge(image.marks(), &got) {
                    run.fail(if moved { "log-renamed" } else { "log" }, e, what());
                }
                run.outcome(if got.is_empty() { "empty" } else if got.len() == now.len() { "everything" } else { "a part" });
            }
            Ok(Err(e)) | Err(e) => run.fail("log", e, what()),
        }
    });
    count.moments.fetch_add(n as u64, Relaxed);
    run.trace();
}

// ---------------------------------------------------------------- the position index

#[derive(Clone, Copy, Debug, Hash)]
enum XOp {
    Save,
    SaveMany,
    Sync,
    Reopen,
    Trunc,
    TruncAll,
}
const XOPS: &[XOp] = &[XOp::Save, XOp::SaveMany, XOp::Sync, XOp::Reopen, XOp::Trunc, XOp::TruncAll];

pub fn value(id: u64) -> (u64, u64) {
    (id, id.wrapping_mul(0x9E37_79B9_7F4A_7C15))
}
pub fn header(dir: &Path) -> DataHeader {
    let p: Pack<u64> = Pack::open(dir.join("header"), 7, false, PackCompression::None, 1).expect("pack");
    *p.header()
}
pub fn xopen(dir: &Path, h: &DataHeader) -> Result<PositionIndex<(u64, u64)>, String> {
    PositionIndex::open_pdx_file(dir.join("idx"), h, "pos.pdx", false).map_err(|e| e.to_string())
}
fn position_history(run: &Run, ops: &[XOp], cap: usize, count: &Count) {
    let dir = Scratch::new();
    let h = header(dir.path());
    let base = dir.path().join("x");
    std::fs::create_dir(&base).unwrap();
    let watch = Watch::new(&base);
    let mut x = match xopen(&base, &h) {
        Ok(x) => Some(x),
        Err(e) => return run.fail("open", e, "a new position index"),
    };
    let mut now: Vec<u64> = vec![];
    let mut story = Story { states: vec![vec![]], firm: vec![false] };
    let mut next = 0;
    for (i, op) in ops.iter().enumerate() {
        watch.mark(2 * i);
        let d = x.as_mut().unwrap();
        let mut firm = false;
        let mut save = |d: &mut PositionIndex<(u64, u64)>, now: &mut Vec<u64>| {
            next += 1;
            let r = d.save(now.len() as u64, value(next)).map_err(|e| e.to_string());
            now.push(next);
            r
        };
        let r: Result<(), String> = match op {
            XOp::Save => save(d, &mut now),
            XOp::SaveMany => (0..1100).try_for_each(|_| save(d, &mut now)),
            XOp::Sync => {
                firm = true;
                d.sync().map_err(|e| e.to_string())
            }
            XOp::Reopen => {
                drop(x.take());
                xopen(&base, &h).map(|d| x = Some(d))
            }
            XOp::Trunc => {
                let to = now.len().saturating_sub(2);
                if now.len() > 1 {
                    now.truncate(to + 1);
                }
                d.truncate_to_index(to as u64).map_err(|e| e.to_string())
            }
            XOp::TruncAll => {
                now.clear();
                d.truncate_all().map_err(|e| e.to_string())
            }
        };
        if let Err(e) = r {
            return run.fail("operation", e, format!("{:?}", &ops[..=i]));
        }
        story.states.push(now.clone());
        story.firm.push(firm);
        watch.mark(2 * i + 1);
        run.step(1);
    }
    drop(x);
    let log = watch.take();
    let n = crashes(&log, &[Loss::Process, Loss::Ordered], cap, |image| {
        if run.stop() {
            return;
        }
        count.images.fetch_add(1, Relaxed);
        let d = Scratch::new();
        image.build(d.path());
        let what = || format!("{ops:?}; after marks {:?}: {}", image.marks(), image.describe());
        let r = guarded(|| -> Result<(Vec<u64>, bool), String> {
            let mut x = match xopen(d.path(), &h) {
                Ok(x) => x,
                Err(_) => return Ok((vec![], false)),
            };
            let mut got = vec![];
            for k in 0..x.len() as u64 {
                let v = x.load(k).map_err(|e| format!("entry {k} of {}: {e}", x.len()))?;
                if v != value(v.0) {
                    return Err(format!("entry {k} holds {v:?}, which was never saved"));
                }
                got.push(v.0);
            }
            // and it goes on
            let k = x.len() as u64;
            x.save(k, value(9_999_999)).map_err(|e| format!("saving the next entry: {e}"))?;
            x.sync().map_err(|e| e.to_string())?;
            drop(x);
            let mut x = xopen(d.path(), &h)?;
            if x.len() as u64 != k + 1 || x.load(k).ok() != Some(value(9_999_999)) {
                return Err(format!("an entry saved after the crash is lost: {} of {}", x.len(), k + 1));
            }
            Ok((got, true))
        });
        match r {
            Ok(Ok((got, opens))) => {
                run.state(&(1, ops.len(), hash(&got), hash(image.marks())));
                if let Err(e) = story.judge(image.marks(), &got) {
                    run.fail("position index", e, what());
                }
                run.outcome(if !opens { "refused" } else if got.is_empty() { "empty" } else if got == now { "everything" } else { "a part" });
            }
            Ok(Err(e)) | Err(e) => run.fail("position index", e, what()),
        }
    });
    count.moments.fetch_add(n as u64, Relaxed);
    run.trace();
}

// ---------------------------------------------------------------- the digest index

pub type Idx = HdxIndex;
pub fn digest(n: u64) -> B256 {
    let mut b = [0u8; 32];
    for (i, c) in b.chunks_mut(8).enumerate() {
        c.copy_from_slice(&(n ^ (i as u64) << 60).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(17).wrapping_mul(0xBF58_476D_1CE4_E5B9).to_be_bytes());
    }
    b.into()
}
/// The bucket of a key in a table of `buckets` buckets: only used to choose keys that collide.
fn bucket(key: B256, buckets: u64) -> u64 {
    let h = BuildHasherDefault::<FxHasher>::default().hash_one(key.as_slice());
    let modulus = (buckets + 1).next_power_of_two();
    let b = h % modulus;
    if b >= buckets {
        b - modulus / 2
    } else {
        b
    }
}
/// As many keys as overflow the first bucket that will be split, by their numbers.
pub fn colliding() -> &'static [u64] {
    static K: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
    K.get_or_init(|| {
        let b0 = Idx::INITIAL_BUCKETS as u64;
        let first = b0 - (b0 + 1).next_power_of_two() / 2;
        (1u64 << 40..).filter(|k| bucket(digest(*k), b0) == first).take(Idx::BUCKET_ELEMENTS + 1).collect()
    })
}
#[derive(Clone, Copy, Debug, Hash)]
enum HOp {
    Save(u8),
    /// As many keys of one bucket as overflow it.
    Fill,
    /// A key that is there gets another position.
    Again,
    Length,
    Sync,
    Reopen,
}
const HOPS: &[HOp] = &[HOp::Save(1), HOp::Fill, HOp::Again, HOp::Length, HOp::Sync, HOp::Reopen];

pub fn hopen(dir: &Path, h: &DataHeader) -> Result<Idx, String> {
    HdxIndex::open_hdx_file(dir.join("hash"), h, BuildHasherDefault::<FxHasher>::default(), false).map_err(|e| e.to_string())
}
/// `near`: the table is two saves away from splitting its first bucket when the history starts.
fn digest_history(run: &Run, ops: &[HOp], near: bool, losses: &[Loss], cap: usize, count: &Count) {
    let dir = Scratch::new();
    let h = header(dir.path());
    let base = dir.path().join("x");
    std::fs::create_dir(&base).unwrap();
    let watch = Watch::new(&base);
    let mut x = match hopen(&base, &h) {
        Ok(x) => Some(x),
        Err(e) => return run.fail("open", e, "a new digest index"),
    };
    let b0 = Idx::INITIAL_BUCKETS as u64;
    // the first bucket that will be split
    let first = b0 - (b0 + 1).next_power_of_two() / 2;
    let mut colliding = (1u64 << 40..).map(digest).filter(move |k| bucket(*k, b0) == first);
    // every position saved for a key, with the step that saved it; and the lengths set
    let mut saved: Vec<(B256, u64, usize)> = vec![];
    let mut next = 0u64;
    let mut firm = vec![false];
    let mut dirty = false;
    let mut lengths = vec![(DATA_HEADER_BYTES as u64, 0usize)];
    if near {
        let limit = b0 * Idx::BUCKET_ELEMENTS as u64 / 2;
        let d = x.as_mut().unwrap();
        let coll: Vec<_> = colliding.by_ref().take(70).collect();
        for k in coll.into_iter().chain((0..limit - 72).map(|i| digest(1 << 50 | i))) {
            next += 1;
            d.save(k, next).unwrap();
            saved.push((k, next, 0));
        }
        d.sync().unwrap();
        firm[0] = true;
    }
    for (i, op) in ops.iter().enumerate() {
        watch.mark(2 * i);
        let d = x.as_mut().unwrap();
        let mut f = false;
        let again = saved.first().map(|s| s.0);
        let mut save = |d: &mut Idx, k: B256| {
            next += 1;
            saved.push((k, next, i + 1));
            d.save(k, next).map_err(|e| e.to_string())
        };
        let r: Result<(), String> = match op {
            HOp::Save(n) => (0..*n).try_for_each(|j| save(d, digest(1000 + 10 * i as u64 + j as u64))),
            HOp::Fill => colliding.by_ref().take(Idx::BUCKET_ELEMENTS + 1).collect::<Vec<_>>().into_iter().try_for_each(|k| save(d, k)),
            HOp::Again => match again {
                Some(k) => save(d, k),
                None => Ok(()),
            },
            HOp::Length => {
                lengths.push((100 + i as u64, i + 1));
                d.set_data_file_length(100 + i as u64);
                Ok(())
            }
            HOp::Sync => {
                f = true;
                d.sync().map_err(|e| e.to_string())
            }
            HOp::Reopen => {
                // what was saved is synced on the way out
                f = dirty;
                drop(x.take());
                hopen(&base, &h).map(|d| x = Some(d))
            }
        };
        if let Err(e) = r {
            return run.fail("operation", e, format!("{:?}", &ops[..=i]));
        }
        dirty = match op {
            HOp::Sync | HOp::Reopen => false,
            HOp::Save(_) | HOp::Fill | HOp::Length => true,
            HOp::Again => dirty || again.is_some(),
        };
        firm.push(f);
        watch.mark(2 * i + 1);
        run.step(1);
    }
    watch.mark(2 * ops.len());
    drop(x);
    let log = watch.take();
    let n = crashes(&log, losses, cap, |image| {
        // (what fills the large table is not part of the history)
        if run.stop() || near && image.marks().is_empty() {
            return;
        }
        count.images.fetch_add(1, Relaxed);
        let d = Scratch::new();
        image.build(d.path());
        let what = || format!("{}{ops:?}; after marks {:?}: {}", if near { "(3 saves before the next split) " } else { "" }, image.marks(), image.describe());
        let begun = image.marks().iter().filter(|m| **m % 2 == 0).count();
        let done = image.marks().len() - begun;
        let last = (0..=done).rev().find(|i| firm[*i]);
        let r = guarded(|| -> Result<bool, String> {
            let mut x = match hopen(d.path(), &h) {
                Ok(x) => x,
                Err(e) if last.is_some() => return Err(format!("no longer opens: {e}")),
                Err(_) => return Ok(false),
            };
            if last.is_none() {
                return Ok(true);
            }
            let mut keys: HashMap<B256, (Option<u64>, HashSet<u64>)> = HashMap::new();
            // of a large table, the keys of the buckets that are split or follow, and what the history saved
            let of_interest = |k: &B256, step: usize| !near || step > 0 || (first..first + 6).contains(&bucket(*k, b0));
            for (k, v, step) in saved.iter().filter(|s| s.2 <= begun && of_interest(&s.0, s.2)) {
                let e = keys.entry(*k).or_default();
                if last.is_some_and(|l| *step <= l) {
                    e.0 = Some(*v);
                    e.1.clear();
                }
                e.1.insert(*v);
            }
            for (k, (must, may)) in &keys {
                match x.load(*k) {
                    Ok(v) if may.contains(&v) => {}
                    Ok(v) => return Err(format!("a key loads {v}, not one of {may:?}")),
                    Err(e) if must.is_some() => return Err(format!("a key synced with position {} is gone: {e}", must.unwrap())),
                    Err(_) => {}
                }
            }
            for k in 0..20 {
                if let Ok(v) = x.load(digest(1 << 60 | k)) {
                    return Err(format!("a key that was never saved loads {v}"));
                }
            }
            // what the header says of the log it belongs to counts on every key that was saved before
            let len = x.data_file_length();
            match lengths.iter().rev().find(|l| l.0 == len && l.1 <= begun) {
                None => return Err(format!("says the log is {len} bytes long, which it was never told")),
                Some((_, step)) => {
                    // and what it was told before a sync, it remembers
                    if let Some(l) = lengths.iter().find(|l| l.1 > *step && last.is_some_and(|last| l.1 <= last)) {
                        return Err(format!("was told that the log is {} bytes long, and synced, but says {len}", l.0));
                    }
                    for (k, v, s) in saved.iter().filter(|s| of_interest(&s.0, s.2)) {
                        if s < step && x.load(*k).is_err() {
                            return Err(format!("says it covers the log up to {len}, but misses a key saved before ({v})"));
                        }
                    }
                }
            }
            let k = digest(1 << 61);
            x.save(k, 5).map_err(|e| format!("saving another key: {e}"))?;
            x.sync().map_err(|e| format!("sync: {e}"))?;
            drop(x);
            let mut x = hopen(d.path(), &h)?;
            if x.load(k).ok() != Some(5) {
                return Err("a key saved after the crash is lost".into());
            }
            Ok(true)
        });
        match r {
            Ok(Ok(opens)) => {
                run.state(&(2, near, ops.len(), hash(image.marks()), image.describe()));
                run.outcome(if opens { "opens" } else { "refused" });
            }
            Ok(Err(e)) | Err(e) => run.fail(if image.torn() { "torn bucket" } else if near && (begun > done || !image.whole()) { "split cut short" } else { "digest index" }, e, what()),
        }
    });
    count.moments.fetch_add(n as u64, Relaxed);
    run.trace();
}

pub fn s09(run: &Run) {
    let count = Count { images: AtomicU64::new(0), moments: AtomicU64::new(0) };
    let cap = run.pick(400, 4000);
    let depth = run.pick(4, 5);
    let n = seq_count(POPS.len() as u64, depth) as usize;
    par(run, n, |i| {
        let ops: Vec<_> = seq_of(i as u64, POPS.len() as u64, depth).into_iter().map(|x| POPS[x]).collect();
        pack_history(run, &ops, cap, &count);
    });
    let n = seq_count(XOPS.len() as u64, depth) as usize;
    par(run, n, |i| {
        let ops: Vec<_> = seq_of(i as u64, XOPS.len() as u64, depth).into_iter().map(|x| XOPS[x]).collect();
        position_history(run, &ops, cap, &count);
    });
    let depth = run.pick(3, 4);
    let n = seq_count(HOPS.len() as u64, depth) as usize;
    par(run, n, |i| {
        let ops: Vec<_> = seq_of(i as u64, HOPS.len() as u64, depth).into_iter().map(|x| HOPS[x]).collect();
        digest_history(run, &ops, false, &[Loss::Process, Loss::Ordered, Loss::Any], cap, &count);
    });
    let near: &[&[HOp]] = &[&[HOp::Save(4), HOp::Sync], &[HOp::Fill, HOp::Sync], &[HOp::Fill, HOp::Reopen], &[HOp::Sync, HOp::Save(40), HOp::Length], &[HOp::Fill, HOp::Sync, HOp::Fill]];
    par(run, near.len(), |i| digest_history(run, near[i], true, &[Loss::Process, Loss::Ordered], 100, &count));
    for (accounts, slots) in [(0, 0), (1, 0), (3, 2), (2, 600)] {
        snapshot(run, accounts, slots, cap, &count);
    }
    run.bound("crash images", count.images.load(Relaxed));
    run.bound("crash moments", count.moments.load(Relaxed));
}

/// A state snapshot, written and finished: cut short at any moment it either is the whole snapshot or does not verify.
fn snapshot(run: &Run, accounts: usize, slots: usize, cap: usize, count: &Count) {
    use tn_storage::exec_state_pack::{ExecStateAccount, ExecStatePackReader, ExecStatePackWriter};
    use tn_types::{Address, ExecHeader, GenesisAccount, U256};
    let w32 = |n: u64| B256::from(U256::from(n).to_be_bytes::<32>());
    let dir = Scratch::new();
    let watch = Watch::new(dir.path());
    let header = ExecHeader { number: 0, state_root: w32(9), ..Default::default() };
    let r = (|| -> Result<(), String> {
        let mut w = ExecStatePackWriter::create(dir.path().join("snap"), w32(9), &[header]).map_err(|e| e.to_string())?;
        for i in 0..accounts {
            let storage = (slots > 0).then(|| (0..slots as u64).map(|s| (w32(s), w32(s.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1))).collect());
            let account = GenesisAccount { nonce: Some(i as u64), balance: U256::from(i), code: None, storage, private_key: None };
            w.append_account(&ExecStateAccount { address: Address::repeat_byte(i as u8 + 1), account }).map_err(|e| e.to_string())?;
        }
        w.finish().map_err(|e| e.to_string())?;
        Ok(())
    })();
    if let Err(e) = r {
        return run.fail("operation", e, format!("a snapshot of {accounts} accounts with {slots} slots"));
    }
    watch.mark(1);
    let log = watch.take();
    let n = crashes(&log, &[Loss::Process, Loss::Ordered], cap, |image| {
        count.images.fetch_add(1, Relaxed);
        let d = Scratch::new();
        image.build(d.path());
        let what = || format!("{accounts} accounts of {slots} slots; finished: {}; {}", !image.marks().is_empty(), image.describe());
        match guarded(|| ExecStatePackReader::verify(d.path().join("snap"))) {
            Err(e) => run.fail("snapshot", e, what()),
            Ok(Ok(r)) if r.account_count as usize == accounts && r.storage_slots as usize == accounts * slots => run.outcome("everything"),
            Ok(Ok(r)) => run.fail("snapshot", format!("a part of it verifies: {r:?}"), what()),
            Ok(Err(e)) if !image.marks().is_empty() => run.fail("snapshot", format!("finished, but after the crash: {e}"), what()),
            Ok(Err(_)) => run.outcome("refused"),
        }
        run.state(&(3, accounts, slots, image.describe()));
    });
    count.moments.fetch_add(n as u64, Relaxed);
    run.trace();
}

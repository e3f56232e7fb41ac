//! Calls that fail (S12): each short history is run again and again, each time with another of its file operations
//! failing: with no effect, cut short once, or on a disk that stays full.
use crate::{
    archive::{digest, header, hopen, popen, rec, value, xopen, Idx, Rec},
    iolog::{Calls, Fault, Spot, Watch},
    records::torn_bucket,
};
use std::{
    collections::HashMap,
    path::Path,
    sync::atomic::{AtomicU64, Ordering::Relaxed},
};
use tn_storage::archive::{index::Index, pack::{DataHeader, Pack}, position_index::index::PositionIndex};
use vlib::{
    explore::{seq_count, seq_of},
    guarded, par, Run, Scratch,
};

pub const FAULTS: &[Fault] = &[Fault::Once, Fault::Full, Fault::Short];
/// For the stores built of these parts.
pub fn some(run: &Run) -> &'static [Fault] {
    run.pick(&FAULTS[..2], FAULTS)
}

/// All calls there were, each failing in all ways.
pub fn spots(calls: &Calls, faults: &'static [Fault]) -> Vec<Spot> {
    calls.iter().flat_map(|(p, n)| (0..*n).flat_map(move |i| faults.iter().map(move |f| (p.clone(), i, *f)))).collect()
}

/// One thing a history tried to keep.
#[derive(Clone, Debug)]
pub struct Item {
    id: u64,
    /// Where it was said to be.
    at: u64,
    size: usize,
    /// It was said to be kept.
    accepted: bool,
    /// A later sync said that it had worked.
    certain: bool,
    /// Removed again, or tried to be.
    gone: bool,
}

trait Low: Sized {
    type Op: Copy + std::fmt::Debug + Send + Sync + 'static;
    const OPS: &'static [Self::Op];
    const NAME: &'static str;
    fn open(dir: &Path) -> Result<Self, String>;
    fn put(&mut self, op: Self::Op, items: &mut Vec<Item>) -> Result<(), String>;
    fn is_sync(op: Self::Op) -> bool;
    fn reopens(op: Self::Op) -> bool;
    fn sync(&mut self) -> Result<(), String>;
    /// Answers correctly while it is open.
    fn live(&mut self, items: &[Item]) -> Result<(), String>;
    /// What another process finds.
    fn after(dir: &Path, items: &[Item]) -> Result<(), String>;
}
fn new_item(items: &mut Vec<Item>, size: usize) -> usize {
    let id = items.len() as u64 + 1;
    items.push(Item { id, at: 0, size, accepted: false, certain: false, gone: false });
    items.len() - 1
}

struct Log(Pack<Rec>);
#[derive(Clone, Copy, Debug)]
enum LogOp {
    App(usize),
    Flush,
    Commit,
    Trunc,
    Reopen,
}
impl Low for Log {
    type Op = LogOp;
    const OPS: &'static [LogOp] = &[LogOp::App(3), LogOp::App(17_000), LogOp::Flush, LogOp::Commit, LogOp::Trunc, LogOp::Reopen];
    const NAME: &'static str = "record log";
    fn open(dir: &Path) -> Result<Self, String> {
        popen(&dir.join("log"), false).map(Log)
    }
    fn put(&mut self, op: LogOp, items: &mut Vec<Item>) -> Result<(), String> {
        match op {
            LogOp::App(n) => {
                let i = new_item(items, n);
                items[i].at = self.0.append(&rec(items[i].id, n)).map_err(|e| e.to_string())?;
                items[i].accepted = true;
                Ok(())
            }
            LogOp::Flush => self.0.flush().map_err(|e| e.to_string()),
            LogOp::Trunc => {
                let Some(i) = items.iter().rposition(|i| i.accepted && !i.gone) else { return Ok(()) };
                items[i..].iter_mut().for_each(|i| i.gone = true);
                self.0.truncate(items[i].at).map_err(|e| e.to_string())
            }
            LogOp::Commit | LogOp::Reopen => Ok(()),
        }
    }
    fn is_sync(op: LogOp) -> bool {
        matches!(op, LogOp::Commit)
    }
    fn reopens(op: LogOp) -> bool {
        matches!(op, LogOp::Reopen)
    }
    fn sync(&mut self) -> Result<(), String> {
        self.0.commit().map_err(|e| e.to_string())
    }
    fn live(&mut self, items: &[Item]) -> Result<(), String> {
        for i in items.iter().filter(|i| i.accepted && !i.gone) {
            match self.0.fetch(i.at) {
                Ok(r) if r == rec(i.id, i.size) => {}
                Ok(r) => return Err(format!("record {} reads as record {}", i.id, r.id)),
                Err(e) if i.certain => return Err(format!("record {} was committed and cannot be read: {e}", i.id)),
                Err(_) => {}
            }
        }
        Ok(())
    }
    fn after(dir: &Path, items: &[Item]) -> Result<(), String> {
        let mut db = popen(&dir.join("log"), true)?;
        let mut got = vec![];
        let mut bad = None;
        for r in db.raw_iter().map_err(|e| e.to_string())? {
            match r {
                Ok(r) => got.push(r),
                Err(e) => {
                    bad = Some(e.to_string());
                    break;
                }
            }
        }
        let mut from = items.iter();
        for r in &got {
            match from.find(|i| i.id == r.id) {
                Some(i) if *r == rec(i.id, i.size) => {}
                _ => return Err(format!("yields record {} out of order, twice, or damaged", r.id)),
            }
        }
        for i in items.iter().filter(|i| i.certain && !i.gone) {
            if !got.iter().any(|r| r.id == i.id) {
                return Err(format!("record {} was committed and is not read again{}", i.id, bad.map_or(String::new(), |b| format!(" ({b})"))));
            }
            match db.fetch(i.at) {
                Ok(r) if r.id == i.id => {}
                r => return Err(format!("record {} was committed at {} and is not there: {:?}", i.id, i.at, r.map(|r| r.id))),
            }
        }
        Ok(())
    }
}

struct Pos(PositionIndex<(u64, u64)>);
#[derive(Clone, Copy, Debug)]
enum PosOp {
    Save,
    Many,
    Trunc,
    Sync,
    Reopen,
}
fn aside(dir: &Path) -> DataHeader {
    // beside what is watched
    header(dir.parent().unwrap())
}
impl Low for Pos {
    type Op = PosOp;
    const OPS: &'static [PosOp] = &[PosOp::Save, PosOp::Many, PosOp::Trunc, PosOp::Sync, PosOp::Reopen];
    const NAME: &'static str = "position index";
    fn open(dir: &Path) -> Result<Self, String> {
        xopen(dir, &aside(dir)).map(Pos)
    }
    fn put(&mut self, op: PosOp, items: &mut Vec<Item>) -> Result<(), String> {
        let mut save = |x: &mut Self| {
            let i = new_item(items, 0);
            items[i].at = x.0.len() as u64;
            x.0.save(items[i].at, value(items[i].id)).map_err(|e| e.to_string())?;
            items[i].accepted = true;
            Ok(())
        };
        match op {
            PosOp::Save => save(self),
            PosOp::Many => (0..1100).try_for_each(|_| save(self)),
            PosOp::Trunc => {
                let len = self.0.len() as u64;
                if len < 2 {
                    return Ok(());
                }
                items.iter_mut().filter(|i| i.at > len - 2).for_each(|i| i.gone = true);
                self.0.truncate_to_index(len - 2).map_err(|e| e.to_string())
            }
            PosOp::Sync | PosOp::Reopen => Ok(()),
        }
    }
    fn is_sync(op: PosOp) -> bool {
        matches!(op, PosOp::Sync)
    }
    fn reopens(op: PosOp) -> bool {
        matches!(op, PosOp::Reopen)
    }
    fn sync(&mut self) -> Result<(), String> {
        self.0.sync().map_err(|e| e.to_string())
    }
    fn live(&mut self, items: &[Item]) -> Result<(), String> {
        for i in items.iter().filter(|i| i.accepted && !i.gone) {
            match self.0.load(i.at) {
                Ok(v) if v == value(i.id) => {}
                // what was refused may have been kept all the same, and what was not certain be lost
                Ok(v) if !i.certain && items.iter().any(|j| j.at == i.at && value(j.id) == v) => {}
                Ok(v) => return Err(format!("entry {} is {v:?}, not the {}th saved", i.at, i.id)),
                Err(e) if i.certain => return Err(format!("entry {} was synced and cannot be read: {e}", i.at)),
                Err(_) => {}
            }
        }
        for k in 0..self.0.len() as u64 {
            match self.0.load(k) {
                Ok(v) if items.iter().any(|i| i.at == k && value(i.id) == v) => {}
                Ok(v) => return Err(format!("entry {k} is {v:?}, which was never saved there")),
                Err(e) => return Err(format!("entry {k} of {}: {e}", self.0.len())),
            }
        }
        Ok(())
    }
    fn after(dir: &Path, items: &[Item]) -> Result<(), String> {
        let mut x = Self::open(dir)?;
        x.live(items)?;
        // and it goes on
        let k = x.0.len() as u64;
        x.0.save(k, (7, 7)).map_err(|e| format!("saving another entry: {e}"))?;
        x.sync()?;
        drop(x);
        let mut x = Self::open(dir)?;
        if x.0.len() as u64 != k + 1 || x.0.load(k).ok() != Some((7, 7)) {
            return Err("an entry saved afterwards is lost".into());
        }
        Ok(())
    }
}

struct Dig(Idx);
#[derive(Clone, Copy, Debug)]
enum DigOp {
    Save,
    Fill,
    Again,
    Sync,
    Reopen,
}
impl Low for Dig {
    type Op = DigOp;
    const OPS: &'static [DigOp] = &[DigOp::Save, DigOp::Fill, DigOp::Again, DigOp::Sync, DigOp::Reopen];
    const NAME: &'static str = "digest index";
    fn open(dir: &Path) -> Result<Self, String> {
        hopen(dir, &aside(dir)).map(Dig)
    }
    fn put(&mut self, op: DigOp, items: &mut Vec<Item>) -> Result<(), String> {
        let mut save = |x: &mut Self, key: u64| {
            let i = new_item(items, 0);
            items[i].at = key;
            x.0.save(digest(key), items[i].id).map_err(|e| e.to_string())?;
            items[i].accepted = true;
            Ok(())
        };
        match op {
            DigOp::Save => save(self, 10_000 + self.0.len() as u64),
            DigOp::Fill => crate::archive::colliding().iter().try_for_each(|k| save(self, *k)),
            DigOp::Again => save(self, 10_000),
            DigOp::Sync | DigOp::Reopen => Ok(()),
        }
    }
    fn is_sync(op: DigOp) -> bool {
        matches!(op, DigOp::Sync)
    }
    fn reopens(op: DigOp) -> bool {
        matches!(op, DigOp::Reopen)
    }
    fn sync(&mut self) -> Result<(), String> {
        self.0.sync().map_err(|e| e.to_string())
    }
    fn live(&mut self, items: &[Item]) -> Result<(), String> {
        let mut keys: HashMap<u64, (bool, Vec<u64>)> = HashMap::new();
        for i in items {
            let e = keys.entry(i.at).or_default();
            if i.certain {
                *e = (true, vec![]);
            }
            e.1.push(i.id);
        }
        for (k, (must, may)) in keys {
            match self.0.load(digest(k)) {
                Ok(v) if may.contains(&v) => {}
                Ok(v) => return Err(format!("a key loads {v}, not one of {may:?}")),
                Err(e) if must => return Err(format!("a key that was synced cannot be loaded: {e}")),
                Err(_) => {}
            }
        }
        Ok(())
    }
    fn after(dir: &Path, items: &[Item]) -> Result<(), String> {
        let mut x = Self::open(dir)?;
        x.live(items)?;
        x.0.save(digest(5), 5).map_err(|e| format!("saving another key: {e}"))?;
        x.sync()?;
        drop(x);
        if Self::open(dir)?.0.load(digest(5)).ok() != Some(5) {
            return Err("a key saved afterwards is lost".into());
        }
        Ok(())
    }
}

/// Runs a history, the call numbered `at` failing, and gives how many calls there were.
fn low<L: Low>(run: &Run, ops: &[L::Op], fault: Option<Spot>, retry: bool) -> Calls {
    let dir = Scratch::new();
    let base = dir.path().join("x");
    std::fs::create_dir(&base).unwrap();
    let watch = Watch::new(&base);
    let mut calls = Calls::new();
    let mut hit = None;
    let mut items: Vec<Item> = vec![];
    let mut reports = vec![];
    let r = guarded(|| -> Result<(), String> {
        let mut x = Some(L::open(&base)?);
        // something is there, and certain
        x.as_mut().unwrap().put(L::OPS[0], &mut items)?;
        x.as_mut().unwrap().sync()?;
        items.iter_mut().for_each(|i| i.certain = true);
        watch.arm(fault.clone());
        for op in ops {
            let r = match x.as_mut() {
                None => Ok(()),
                Some(_) if L::reopens(*op) => {
                    drop(x.take());
                    // what could not be written when it was closed is lost without notice
                    if fault.is_none() {
                        items.iter_mut().for_each(|i| i.certain |= i.accepted);
                    }
                    items.iter_mut().for_each(|i| i.accepted = i.certain);
                    // a log that was not closed in good order is repaired by its owner; none is here
                    if watch.hit() {
                        break;
                    }
                    L::open(&base).map(|y| x = Some(y))
                }
                Some(l) if L::is_sync(*op) => l.sync().map(|()| items.iter_mut().for_each(|i| i.certain |= i.accepted)),
                Some(l) => l.put(*op, &mut items),
            };
            if let Err(e) = r {
                reports.push(e);
            }
            if let Some(l) = x.as_mut() {
                l.live(&items)?;
            }
            run.step(1);
        }
        if retry {
            (calls, hit) = watch.disarm();
            if let Some(l) = x.as_mut() {
                match l.sync() {
                    Ok(()) => items.iter_mut().for_each(|i| i.certain |= i.accepted),
                    Err(e) => reports.push(e),
                }
                l.live(&items)?;
            }
        }
        drop(x);
        if !retry {
            (calls, hit) = watch.disarm();
        }
        L::after(&base, &items).map_err(|e| format!("opened again: {e}"))
    });
    let what = || format!("{} {ops:?}, {fault:?} ({}){}; reported: {reports:?}", L::NAME, hit.clone().unwrap_or_default(), if retry { ", then a sync without trouble" } else { "" });
    match r {
        Ok(Ok(())) => {
            run.state(&(L::NAME, format!("{ops:?}"), &fault, retry));
            run.outcome(if reports.is_empty() { "unnoticed" } else { "reported" });
        }
        // a bucket cut short in place
        Ok(Err(e)) if torn_bucket(&fault) && (!retry || ops.iter().any(|o| L::reopens(*o))) => run.fail("torn-bucket", e, what()),
        Ok(Err(e)) | Err(e) => run.fail(L::NAME, e, what()),
    }
    if fault.is_none() && !reports.is_empty() {
        run.fail(L::NAME, "an error without a fault", what());
    }
    run.trace();
    calls
}
fn lows<L: Low>(run: &Run, depth: usize, faults: &AtomicU64) {
    let n = L::OPS.len() as u64;
    let plan: Vec<Vec<L::Op>> = (0..seq_count(n, depth)).map(|i| seq_of(i, n, depth).into_iter().map(|x| L::OPS[x]).collect()).collect();
    par(run, plan.len(), |i| {
        let calls = low::<L>(run, &plan[i], None, false);
        for spot in spots(&calls, FAULTS) {
            for retry in [false, true] {
                if run.stop() {
                    return;
                }
                faults.fetch_add(1, Relaxed);
                low::<L>(run, &plan[i], Some(spot.clone()), retry);
            }
        }
    });
}

pub fn s12(run: &Run) {
    let faults = AtomicU64::new(0);
    lows::<Log>(run, run.pick(3, 4), &faults);
    lows::<Pos>(run, run.pick(3, 4), &faults);
    lows::<Dig>(run, run.pick(3, 4), &faults);
    crate::records::s12(run, &faults);
    crate::chain::s12(run, &faults);
    run.bound("faults", faults.load(Relaxed));
}

//! The append-only record file: every operation sequence (S01), every truncation and corruption (S02).
use serde::{Deserialize, Serialize};
use std::{
    fs,
    io::Cursor,
    path::{Path, PathBuf},
    pin::Pin,
    task::{Context, Poll},
};
use tn_storage::archive::{
    error::insert::AppendError,
    pack::{Pack, PackCompression, DATA_HEADER_BYTES},
    pack_iter::{AsyncPackIter, PackIter},
};
use tokio::io::{AsyncRead, ReadBuf};
use vlib::{
    explore::{seq_count, seq_of},
    guarded, par, Run, Scratch,
};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct Rec {
    id: u64,
    body: Vec<u8>,
}

const UID: u64 = 7;
const VER: u16 = 1;

/// Incompressible body, so that both compression modes reach the same sizes.
fn body(id: u64, n: usize) -> Vec<u8> {
    let mut x = id.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x as u8
        })
        .collect()
}

fn open(p: &Path, ro: bool, comp: bool) -> Pack<Rec> {
    Pack::open(p, UID, ro, if comp { PackCompression::ZStd } else { PackCompression::None }, VER).expect("open")
}

struct Model {
    recs: Vec<(u64, Rec)>,
    bytes: Vec<u8>,
    next: u64,
}

#[derive(Clone, Copy, Debug)]
enum Op {
    App(usize),
    Flush,
    Commit,
    Reopen,
    TruncLast,
    TruncFirst,
    TruncMid,
    Peek,
}

// body sizes: small; a quarter, just below and just above the 16 KiB write buffer; several buffers
const OPS: &[Op] = &[
    Op::App(3),
    Op::App(5000),
    // 4 (length) + 8 (id) + 3 (vec length) + body + 4 (crc): one whole write buffer
    Op::App(16 * 1024 - 4 - 8 - 3 - 4),
    Op::App(40_000),
    Op::Flush,
    Op::Commit,
    Op::Reopen,
    Op::TruncLast,
    Op::TruncFirst,
    Op::TruncMid,
    Op::Peek,
];

/// Compares everything observable with the model.
fn check(db: &mut Pack<Rec>, m: &mut Model, full: bool) -> Result<(), String> {
    if db.file_len() != m.bytes.len() as u64 {
        return Err(format!("length {} but {} bytes were written", db.file_len(), m.bytes.len()));
    }
    let n = m.recs.len();
    // newest first, then oldest first, then alternating ends: moves the read window both ways
    let mut order: Vec<usize> = (0..n).rev().collect();
    if full {
        order.extend(0..n);
        for i in 0..n {
            order.push(i);
            order.push(n - 1 - i);
        }
    }
    for i in order {
        let (pos, rec) = &m.recs[i];
        match db.fetch(*pos) {
            Ok(v) if v == *rec => {}
            Ok(v) => return Err(format!("record {i} at {pos}: read id {} instead of {}", v.id, rec.id)),
            Err(e) => return Err(format!("record {i} at {pos}: {e}")),
        }
        let end = m.recs.get(i + 1).map(|r| r.0).unwrap_or(m.bytes.len() as u64);
        match db.record_size(*pos) {
            Ok(s) if *pos + s as u64 == end => {}
            r => return Err(format!("record {i} at {pos}..{end}: size {r:?}")),
        }
    }
    let len = db.file_len();
    match db.read_bytes(0, len) {
        Ok(b) if b == m.bytes => {}
        Ok(_) => return Err("raw bytes differ from those written".into()),
        Err(e) => return Err(format!("raw read of the whole file: {e}")),
    }
    if full && n > 0 {
        let (a, b) = (m.recs[n / 2].0, len);
        match db.read_bytes(a, b) {
            Ok(x) if x == m.bytes[a as usize..b as usize] => {}
            r => return Err(format!("raw read {a}..{b}: {:?}", r.map(|x| x.len()))),
        }
    }
    for (a, b) in [(0, len + 1), (len + 1, len + 1), (2, 1)] {
        if db.read_bytes(a, b).is_ok() {
            return Err(format!("raw read {a}..{b} of {len} bytes succeeded"));
        }
    }
    for p in [len, len + 3] {
        if db.fetch(p).is_ok() || db.record_size(p).is_ok() {
            return Err(format!("a record was read at {p}, past the end {len}"));
        }
    }
    Ok(())
}

fn check_iter(db: &Pack<Rec>, m: &Model) -> Result<(), String> {
    let mut it = db.raw_iter().map_err(|e| e.to_string())?;
    for (i, (pos, rec)) in m.recs.iter().enumerate() {
        let at = it.position().map_err(|e| e.to_string())?;
        if at != *pos {
            return Err(format!("iteration: record {i} at {at} instead of {pos}"));
        }
        match it.next() {
            Some(Ok(v)) if v == *rec => {}
            r => return Err(format!("iteration: record {i}: {:?}", r.map(|r| r.map(|v| v.id)))),
        }
    }
    match it.next() {
        None => {}
        r => return Err(format!("iteration goes on past the last record: {:?}", r.map(|r| r.map(|v| v.id)))),
    }
    for (i, (pos, rec)) in m.recs.iter().enumerate().rev() {
        it.set_position(*pos).map_err(|e| e.to_string())?;
        match it.next() {
            Some(Ok(v)) if v == *rec => {}
            _ => return Err(format!("iteration positioned at record {i} reads something else")),
        }
    }
    Ok(())
}

fn truncate(db: &mut Pack<Rec>, m: &mut Model, keep: usize) -> Result<(), String> {
    let len = m.recs.get(keep).map(|r| r.0).unwrap_or(m.bytes.len() as u64);
    db.truncate(len).map_err(|e| format!("truncate to {len}: {e}"))?;
    m.recs.truncate(keep);
    m.bytes.truncate(len as usize);
    Ok(())
}

fn run_seq(run: &Run, dir: &Path, ops: &[Op], comp: bool) -> Result<(), String> {
    let path = dir.join("p");
    let _ = fs::remove_file(&path);
    let mut db = open(&path, false, comp);
    let head = db.read_bytes(0, db.file_len()).map_err(|e| e.to_string())?;
    if head.len() != DATA_HEADER_BYTES {
        return Err(format!("a new file is {} bytes", head.len()));
    }
    let mut m = Model { recs: vec![], bytes: head, next: 1 };
    for (k, op) in ops.iter().enumerate() {
        let err = |e: String| format!("after {op:?} (step {k}): {e}");
        let mut durable = false;
        match *op {
            Op::App(n) => {
                let rec = Rec { id: m.next, body: body(m.next, n) };
                m.next += 1;
                let before = db.file_len();
                let pos = db.append(&rec).map_err(|e| err(e.to_string()))?;
                if pos != before {
                    return Err(err(format!("position {pos}, but the file ended at {before}")));
                }
                let after = db.file_len();
                let new = db.read_bytes(before, after).map_err(|e| err(e.to_string()))?;
                if new.len() < 8 || u32::from_le_bytes(new[..4].try_into().unwrap()) as usize + 8 != new.len() {
                    return Err(err("the record's length field does not cover it".into()));
                }
                m.bytes.extend(new);
                m.recs.push((pos, rec));
            }
            Op::Flush => {
                db.flush().map_err(|e| err(e.to_string()))?;
                durable = true;
            }
            Op::Commit => {
                db.commit().map_err(|e| err(e.to_string()))?;
                durable = true;
            }
            Op::Reopen => {
                drop(db);
                // what was written is all there, whoever opens it
                let mut ro = open(&path, true, comp);
                check(&mut ro, &mut m, false).map_err(|e| err(format!("read-only: {e}")))?;
                check_iter(&ro, &m).map_err(|e| err(format!("read-only: {e}")))?;
                if !matches!(ro.append(&Rec { id: 0, body: vec![] }), Err(AppendError::ReadOnly)) || ro.commit().is_ok() {
                    return Err(err("a read-only file accepted a write".into()));
                }
                drop(ro);
                // the compression of an existing file is its own, not the caller's
                db = open(&path, false, if k % 2 == 0 { !comp } else { comp });
                durable = true;
            }
            Op::TruncLast => {
                let keep = m.recs.len().saturating_sub(1);
                truncate(&mut db, &mut m, keep).map_err(err)?;
            }
            Op::TruncFirst => truncate(&mut db, &mut m, 0).map_err(err)?,
            Op::TruncMid => {
                let keep = m.recs.len() / 2;
                truncate(&mut db, &mut m, keep).map_err(err)?;
            }
            Op::Peek => {
                // leaves the read position and window in the middle of the file
                if let Some((pos, rec)) = m.recs.get(m.recs.len() / 2) {
                    let v = db.fetch(*pos).map_err(|e| err(e.to_string()))?;
                    if v != *rec {
                        return Err(err("wrong record".into()));
                    }
                }
            }
        }
        run.step(1);
        run.state(&(comp, m.recs.iter().map(|r| r.0).collect::<Vec<_>>(), m.bytes.len(), durable));
        // a check reads, and so moves the read window; Peek steps leave the window alone
        if !matches!(op, Op::Peek) || k + 1 == ops.len() {
            check(&mut db, &mut m, k + 1 == ops.len()).map_err(err)?;
        }
        if durable {
            if fs::read(&path).map_err(|e| e.to_string())? != m.bytes {
                return Err(err("the file on disk is not what was written".into()));
            }
            check_iter(&db, &m).map_err(err)?;
        }
    }
    drop(db);
    let mut ro = open(&path, true, comp);
    check(&mut ro, &mut m, true).map_err(|e| format!("after closing: {e}"))?;
    check_iter(&ro, &m).map_err(|e| format!("after closing: {e}"))?;
    run.trace();
    Ok(())
}

pub fn s01(run: &Run) {
    let depth = run.pick(4, 5);
    run.bound("operations", format!("{OPS:?}"));
    run.bound("sequence length", depth);
    run.bound("compression", "none, zstd");
    run.assume("record bodies up to 40 kB (write and read windows are 16 KiB)");
    let base = OPS.len() as u64;
    let n = seq_count(base, depth);
    const CHUNK: u64 = 64;
    par(run, n.div_ceil(CHUNK) as usize, |c| {
        let dir = Scratch::new();
        for i in (c as u64 * CHUNK)..n.min((c as u64 + 1) * CHUNK) {
            let ops: Vec<Op> = seq_of(i, base, depth).into_iter().map(|k| OPS[k]).collect();
            // sequences without an append say nothing new
            if !ops.iter().any(|o| matches!(o, Op::App(_))) {
                continue;
            }
            for comp in [false, true] {
                match guarded(|| run_seq(run, dir.path(), &ops, comp)) {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) | Err(e) => run.fail("sequence", e, format!("compression={comp} ops={ops:?}")),
                }
            }
            if i % 5000 == 17 {
                run.sample(format!("{ops:?}"));
            }
            if run.stop() {
                return;
            }
        }
    });
    // headers: every field that must match
    let dir = Scratch::new();
    let p = dir.path().join("h");
    drop(open(&p, false, false));
    for (uid, ver, ok) in [(UID, VER, true), (UID, VER + 1, true), (UID + 1, VER, false), (UID, VER - 1, false)] {
        for ro in [false, true] {
            run.step(1);
            if Pack::<Rec>::open(&p, uid, ro, PackCompression::None, ver).is_ok() != ok {
                run.fail("header", format!("file of uid {UID} version {VER} opened as uid {uid} version {ver}: expected ok={ok}"), "");
            }
            let f = fs::File::open(&p).unwrap();
            if PackIter::<Rec, _>::open(f, uid).is_ok() != (uid == UID) {
                run.fail("header", format!("iterator over uid {UID} opened as uid {uid}"), "");
            }
        }
    }
}

/// Hands out bytes as the exploration decides: `step` bytes at a time, Pending before every read if `lag`.
struct Slow<'a> {
    data: &'a [u8],
    step: usize,
    lag: bool,
    ready: bool,
}
impl AsyncRead for Slow<'_> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        if self.lag && !self.ready {
            self.ready = true;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        self.ready = false;
        let n = self.step.min(buf.remaining()).min(self.data.len());
        buf.put_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Poll::Ready(Ok(()))
    }
}

/// Reads a stream to its first error or end.
fn read_async(data: &[u8], step: usize, lag: bool) -> Result<(Vec<Rec>, bool), String> {
    futures::executor::block_on(async {
        let mut it = AsyncPackIter::<Rec, _>::open(Slow { data, step, lag, ready: false }, UID).await.map_err(|e| e.to_string())?;
        let mut out = vec![];
        loop {
            match it.next().await {
                None => return Ok((out, true)),
                Some(Ok(v)) => out.push(v),
                Some(Err(_)) => return Ok((out, false)),
            }
        }
    })
}

fn read_sync(data: &[u8]) -> Result<(Vec<Rec>, bool), String> {
    let mut it = PackIter::<Rec, _>::open(Cursor::new(data), UID).map_err(|e| e.to_string())?;
    let mut out = vec![];
    loop {
        match it.next() {
            None => return Ok((out, true)),
            Some(Ok(v)) => out.push(v),
            Some(Err(_)) => return Ok((out, false)),
        }
    }
}

/// One damaged image: `good` is the number of leading bytes that are as written, `clean` whether the image
/// is exactly a prefix of what was written.
fn damaged(run: &Run, path: &Path, img: &[u8], orig: &[u8], good: usize, clean: bool, recs: &[(u64, u64, Rec)], how: &str) -> Result<(), String> {
    fs::write(path, img).map_err(|e| e.to_string())?;
    let whole_rec = |i: usize| {
        let r = recs[i].0 as usize..recs[i].1 as usize;
        img.get(r.clone()) == orig.get(r)
    };
    let intact = recs.iter().take_while(|r| r.1 as usize <= good).count();
    run.state(&(img.len(), good, intact, vlib::hash(img)));
    run.step(1);
    let header_ok = good >= DATA_HEADER_BYTES;
    // streams
    for (who, r) in [("iterator", read_sync(img)), ("stream, 1 byte at a time", read_async(img, 1, false)), ("stream, delayed", read_async(img, 1 << 20, true))] {
        match r {
            Err(_) if !header_ok => {}
            Err(e) => return Err(format!("{how}: {who} does not open although the header is intact: {e}")),
            Ok(_) if !header_ok => return Err(format!("{how}: {who} opens a file whose header is damaged")),
            Ok((got, ended)) => {
                if got.len() > recs.len() || got.iter().zip(recs).any(|(g, r)| *g != r.2) {
                    return Err(format!("{how}: {who} returns a record that was never written there"));
                }
                if got.len() < intact {
                    return Err(format!("{how}: {who} returns {} records, {intact} are intact", got.len()));
                }
                if got.len() > intact {
                    return Err(format!("{how}: {who} returns {} records, only {intact} are intact", got.len()));
                }
                // an undamaged prefix that ends on a record boundary is a complete, shorter file
                let whole = clean && img.len() as u64 == recs.get(intact.wrapping_sub(1)).map(|r| r.1).unwrap_or(DATA_HEADER_BYTES as u64);
                // up to three stray bytes of a length field are indistinguishable from the end
                let stray = clean && !whole && img.len() - recs.get(intact.wrapping_sub(1)).map(|r| r.1 as usize).unwrap_or(DATA_HEADER_BYTES) < 4;
                if ended != whole && !stray {
                    return Err(format!("{how}: {who} {} at the damage", if ended { "ends silently" } else { "fails although nothing is damaged" }));
                }
            }
        }
    }
    for ro in [true, false] {
        let db = Pack::<Rec>::open(path, UID, ro, PackCompression::None, VER);
        let mut db = match db {
            Err(_) if !header_ok => continue,
            Err(e) => return Err(format!("{how}: does not open although the header is intact: {e}")),
            // an empty file is a new file to a writer
            Ok(_) if img.is_empty() && !ro => continue,
            Ok(_) if !header_ok => return Err(format!("{how}: opens although the header is damaged")),
            Ok(db) => db,
        };
        for (i, (a, _, rec)) in recs.iter().enumerate() {
            let r = db.fetch(*a);
            match r {
                Ok(v) if v == *rec && whole_rec(i) => {}
                Ok(v) if v != *rec => return Err(format!("{how}: record {i} read back as something else")),
                Ok(_) => return Err(format!("{how}: record {i} read although it is damaged")),
                Err(e) if whole_rec(i) => return Err(format!("{how}: intact record {i} not readable: {e}")),
                Err(_) => {}
            }
            if db.record_size(*a).is_ok() != whole_rec(i) {
                return Err(format!("{how}: record {i}: the size check disagrees with the damage"));
            }
        }
        if !ro {
            // life goes on: cut at the last intact record, append, reopen
            let cut = recs.get(intact.wrapping_sub(1)).map(|r| r.1).unwrap_or(DATA_HEADER_BYTES as u64);
            db.truncate(cut).map_err(|e| e.to_string())?;
            let rec = Rec { id: 99, body: body(99, 20) };
            let pos = db.append(&rec).map_err(|e| e.to_string())?;
            drop(db);
            let mut db = Pack::<Rec>::open(path, UID, true, PackCompression::None, VER).map_err(|e| format!("{how}: after repair: {e}"))?;
            if pos != cut || db.fetch(pos).ok() != Some(rec) {
                return Err(format!("{how}: a record appended after the repair is lost"));
            }
            let n = db.raw_iter().map_err(|e| e.to_string())?.filter(|r| r.is_ok()).count();
            if n != intact + 1 {
                return Err(format!("{how}: {n} records after the repair instead of {}", intact + 1));
            }
        }
    }
    run.trace();
    Ok(())
}

pub fn s02(run: &Run) {
    run.bound("damage", "every truncation length; every byte x every single-bit flip, zero and 0xff; every 2-, 4- and 8-byte run zeroed; every tail of 1..12 zero or 0xff bytes; every tail zeroed from a byte on");
    run.assume("damage that keeps a record's CRC-32 valid is out of scope (CRC-32 detects every burst up to 32 bits)");
    let shapes: Vec<Vec<usize>> = run.pick(
        vec![vec![0, 5, 21], vec![40, 1], vec![3, 9000, 6], vec![40_000, 2]],
        vec![vec![0, 5, 21], vec![40, 1], vec![], vec![0], vec![300, 0, 7, 2], vec![3, 9000, 6], vec![40_000, 2], vec![16_300, 16_400, 1], vec![140_000]],
    );
    run.bound("record sizes", format!("{shapes:?}; in logs over 1 kB, damage is within 24 bytes of a record's or a 4 KiB block's end and at every 509th byte between"));
    let mut jobs = vec![];
    for shape in &shapes {
        for comp in [false, true] {
            let dir = Scratch::new();
            let path = dir.path().join("p");
            let mut db = open(&path, false, comp);
            let mut recs = vec![];
            for (i, n) in shape.iter().enumerate() {
                let rec = Rec { id: i as u64 + 1, body: body(i as u64 + 1, *n) };
                let a = db.append(&rec).expect("append");
                recs.push((a, db.file_len(), rec));
            }
            drop(db);
            let img = fs::read(&path).unwrap();
            let mut cases: Vec<(String, Vec<u8>, usize, bool)> = vec![];
            let big = img.len() > 1000;
            let ends: Vec<usize> = recs.iter().flat_map(|r| [r.0 as usize, r.1 as usize]).collect();
            let near = |i: usize| i < 60 || i % 509 == 3 || (i + 2) % 4096 < 4 || ends.iter().any(|e| i.abs_diff(*e) < 24);
            for n in (0..=img.len()).filter(|n| !big || near(*n)) {
                cases.push((format!("cut to {n} bytes"), img[..n].to_vec(), n, true));
            }
            let mut put = |how: String, x: Vec<u8>| {
                let good = x.iter().zip(&img).position(|(a, b)| a != b).unwrap_or(img.len().min(x.len()));
                if x != img {
                    cases.push((how, x, good, false));
                }
            };
            for i in (0..img.len()).filter(|i| !big || near(*i)) {
                for b in (0..8).filter(|b| !big || i % 8 == *b) {
                    let mut x = img.clone();
                    x[i] ^= 1 << b;
                    put(format!("bit {b} of byte {i} flipped"), x);
                }
                for (v, n) in [(0u8, 1), (0xff, 1), (0, 2), (0, 4), (0, 8)].into_iter().skip(if big { 4 } else { 0 }) {
                    let mut x = img.clone();
                    for y in x.iter_mut().skip(i).take(n) {
                        *y = v;
                    }
                    put(format!("{n} bytes from {i} set to {v}"), x);
                }
                let mut x = img.clone();
                x[i..].fill(0);
                put(format!("zero from {i} on"), x);
            }
            for n in 1..=12 {
                for v in [0u8, 0xff] {
                    let mut x = img.clone();
                    x.extend(vec![v; n]);
                    cases.push((format!("{n} bytes of {v} appended"), x, img.len(), false));
                }
            }
            jobs.push((shape.clone(), comp, recs, img, cases));
        }
    }
    for (shape, comp, recs, orig, cases) in &jobs {
        let len = orig.len();
        run.sample(format!("records {shape:?} compression={comp}: {} damaged images of {len} bytes", cases.len()));
        const CHUNK: usize = 100;
        par(run, cases.len().div_ceil(CHUNK), |c| {
            let dir = Scratch::new();
            let path: PathBuf = dir.path().join("d");
            for (how, img, good, clean) in cases.iter().skip(c * CHUNK).take(CHUNK) {
                // 1..3 appended bytes read as the end of the file, like a torn length field
                let clean = *clean || (how.ends_with("appended") && img.len() - len < 4);
                match guarded(|| damaged(run, &path, img, orig, *good, clean, recs, how)) {
                    Ok(Ok(())) => run.outcome(if clean { "cut" } else { "altered" }),
                    Ok(Err(e)) | Err(e) => run.fail("damage", e, format!("records={shape:?} compression={comp} {how}")),
                }
                if run.stop() {
                    return;
                }
            }
        });
    }
}

//! The position index (S03) and the digest index (S04): every operation sequence against a list and a map.
use std::{collections::HashMap, fmt::Debug, fs, io::Write, path::Path};
use tn_storage::archive::{
    digest_index::index::HdxIndex,
    fxhasher::FxHasher,
    index::Index,
    pack::{DataHeader, Pack, PackCompression},
    position_index::index::{PosIndexValue, PositionIndex, PDX_HEADER_SIZE},
};
use tn_types::B256;
use vlib::{
    explore::{seq_count, seq_of},
    guarded, par, Run, Scratch,
};

fn header(dir: &Path, uid: u64, version: u16) -> DataHeader {
    let p: Pack<u64> = Pack::open(dir.join(format!("hdr-{uid}-{version}")), uid, false, PackCompression::None, version).expect("pack");
    *p.header()
}

trait Val: PosIndexValue + Copy + PartialEq + Debug {
    fn nth(n: u64) -> Self;
}
impl Val for u64 {
    fn nth(n: u64) -> Self {
        n.wrapping_mul(0x0101_0101_0101_0101) ^ 0xA5
    }
}
impl Val for (u64, u64) {
    fn nth(n: u64) -> Self {
        (n * 3 + 1, u64::MAX - n)
    }
}

#[derive(Clone, Copy, Debug)]
enum POp {
    Save,
    SaveMany, // enough to leave the read window
    SaveGap,
    SaveAgain,
    Trunc(usize), // 0: to the first, 1: to the middle, 2: to the last, 3: past the end
    TruncAll,
    Sync,
    Reopen,
    Torn(usize), // 1, half an entry or all but one byte of an entry at the end of the file, then reopen
    ReadOnly,
}
const POPS: &[POp] = &[
    POp::Save,
    POp::SaveMany,
    POp::SaveGap,
    POp::SaveAgain,
    POp::Trunc(0),
    POp::Trunc(1),
    POp::Trunc(2),
    POp::Trunc(3),
    POp::TruncAll,
    POp::Sync,
    POp::Reopen,
    POp::Torn(0),
    POp::Torn(1),
    POp::Torn(2),
    POp::ReadOnly,
];

fn pcheck<T: Val>(x: &mut PositionIndex<T>, m: &[T], full: bool) -> Result<(), String> {
    let n = m.len();
    if x.len() != n || x.is_empty() != (n == 0) {
        return Err(format!("holds {} values instead of {n}", x.len()));
    }
    let mut keys: Vec<usize> = vec![0, 1, n / 2, n.saturating_sub(2), n.saturating_sub(1)];
    if full {
        keys.extend((0..n).rev());
    }
    for k in keys {
        if k < n && x.load(k as u64).map_err(|e| format!("load {k} of {n}: {e}"))? != m[k] {
            return Err(format!("load {k} of {n} returns another value"));
        }
    }
    for k in [n, n + 1, n + 1000] {
        if x.load(k as u64).is_ok() || x.contains(k as u64) {
            return Err(format!("load {k} of {n} succeeds"));
        }
    }
    for l in [0, 1, n / 2, n, n + 3] {
        let want = l.min(n);
        let f: Vec<T> = x.iter(l).map_err(|e| format!("iter {l}: {e}"))?.collect::<Result<_, _>>().map_err(|e| format!("iter {l}: {e}"))?;
        if f != m[..want] {
            return Err(format!("the first {l} of {n} values are wrong ({} returned)", f.len()));
        }
        let r: Vec<T> = x.rev_iter(l).map_err(|e| format!("rev_iter {l}: {e}"))?.collect::<Result<_, _>>().map_err(|e| format!("rev_iter {l}: {e}"))?;
        let w: Vec<T> = m[n - want..].iter().rev().copied().collect();
        if r != w {
            return Err(format!("the last {l} of {n} values are wrong ({} returned)", r.len()));
        }
    }
    Ok(())
}

fn pseq<T: Val>(run: &Run, dir: &Path, h: &DataHeader, ops: &[POp]) -> Result<(), String> {
    let file = dir.join("i.pdx");
    let _ = fs::remove_file(&file);
    let open = |ro| PositionIndex::<T>::open_pdx_file(dir, h, "i.pdx", ro);
    let mut x = open(false).map_err(|e| format!("create: {e}"))?;
    let mut m: Vec<T> = vec![];
    let mut seed = 0;
    let w = T::buffer_len();
    for (k, op) in ops.iter().enumerate() {
        let err = |e: String| format!("after {op:?} (step {k}): {e}");
        match *op {
            POp::Save | POp::SaveMany => {
                for _ in 0..if matches!(op, POp::Save) { 1 } else { 20 * 1024 / w } {
                    seed += 1;
                    let v = T::nth(seed);
                    x.save(m.len() as u64, v).map_err(|e| err(e.to_string()))?;
                    m.push(v);
                }
            }
            POp::SaveGap => {
                if x.save(m.len() as u64 + 1, T::nth(7777)).is_ok() {
                    return Err(err("a value was saved past the next position".into()));
                }
            }
            POp::SaveAgain => {
                if !m.is_empty() && x.save(m.len() as u64 - 1, T::nth(7777)).is_ok() {
                    return Err(err("a position was saved twice".into()));
                }
            }
            POp::Trunc(i) => {
                let key = [0, m.len() / 2, m.len().saturating_sub(1), m.len() + 2][i];
                x.truncate_to_index(key as u64).map_err(|e| err(e.to_string()))?;
                m.truncate(key + 1);
            }
            POp::TruncAll => {
                x.truncate_all().map_err(|e| err(e.to_string()))?;
                m.clear();
            }
            POp::Sync => {
                x.sync().map_err(|e| err(e.to_string()))?;
                let len = fs::metadata(&file).map_err(|e| e.to_string())?.len();
                if len as usize != PDX_HEADER_SIZE + m.len() * w {
                    return Err(err(format!("{len} bytes on disk after a sync of {} values", m.len())));
                }
            }
            POp::Reopen => {
                drop(x);
                x = open(false).map_err(|e| err(e.to_string()))?;
            }
            POp::Torn(n) => {
                drop(x);
                let mut f = fs::OpenOptions::new().append(true).open(&file).map_err(|e| e.to_string())?;
                f.write_all(&vec![0xEE; [1, w / 2, w - 1][n]]).map_err(|e| e.to_string())?;
                drop(f);
                // a reader cannot repair it and must not read it askew
                if open(true).is_ok() {
                    return Err(err("a misaligned file opened read-only".into()));
                }
                x = open(false).map_err(|e| err(e.to_string()))?;
            }
            POp::ReadOnly => {
                drop(x);
                let mut r = open(true).map_err(|e| err(e.to_string()))?;
                pcheck(&mut r, &m, true).map_err(|e| err(format!("read-only: {e}")))?;
                if r.save(m.len() as u64, T::nth(1)).is_ok() && r.sync().is_ok() {
                    return Err(err("a read-only index accepted a value".into()));
                }
                drop(r);
                x = open(false).map_err(|e| err(e.to_string()))?;
            }
        }
        run.step(1);
        run.state(&(w, m.len(), m.last().map(|v| format!("{v:?}")), fs::metadata(&file).map(|x| x.len()).ok()));
        pcheck(&mut x, &m, k + 1 == ops.len()).map_err(err)?;
    }
    drop(x);
    let mut x = open(true).map_err(|e| format!("last reopen: {e}"))?;
    pcheck(&mut x, &m, true).map_err(|e| format!("after closing: {e}"))?;
    run.trace();
    Ok(())
}

pub fn s03(run: &Run) {
    let depth = run.pick(4, 5);
    run.bound("operations", format!("{POPS:?}"));
    run.bound("sequence length", depth);
    run.bound("value widths", "8 and 16 bytes");
    let base = POPS.len() as u64;
    let n = seq_count(base, depth);
    const CHUNK: u64 = 128;
    par(run, n.div_ceil(CHUNK) as usize, |c| {
        let dir = Scratch::new();
        let h = header(dir.path(), 3, 1);
        for i in (c as u64 * CHUNK)..n.min((c as u64 + 1) * CHUNK) {
            let ops: Vec<POp> = seq_of(i, base, depth).into_iter().map(|k| POPS[k]).collect();
            for wide in [false, true] {
                let r = guarded(|| if wide { pseq::<(u64, u64)>(run, dir.path(), &h, &ops) } else { pseq::<u64>(run, dir.path(), &h, &ops) });
                if let Ok(Err(e)) | Err(e) = r {
                    run.fail("sequence", e, format!("wide={wide} ops={ops:?}"));
                }
            }
            if i % 7000 == 11 {
                run.sample(format!("{ops:?}"));
            }
            if run.stop() {
                return;
            }
        }
    });
    pcuts::<u64>(run);
    pcuts::<(u64, u64)>(run);
}

/// Every cut and every damaged header byte of a file of three values.
fn pcuts<T: Val>(run: &Run) {
    let dir = Scratch::new();
    let h = header(dir.path(), 3, 1);
    let vals: Vec<T> = (1..=3).map(T::nth).collect();
    let mut x = PositionIndex::<T>::open_pdx_file(dir.path(), &h, "c.pdx", false).expect("create");
    for (k, v) in vals.iter().enumerate() {
        x.save(k as u64, *v).expect("save");
    }
    drop(x);
    let file = dir.path().join("c.pdx");
    let img = fs::read(&file).unwrap();
    let open = |ro| PositionIndex::<T>::open_pdx_file(dir.path(), &h, "c.pdx", ro);
    for cut in 1..=img.len() {
        run.step(1);
        fs::write(&file, &img[..cut]).unwrap();
        let want = cut.saturating_sub(PDX_HEADER_SIZE) / T::buffer_len();
        let r = guarded(|| {
            let mut x = match open(false) {
                Err(_) if cut < PDX_HEADER_SIZE => return Ok(()),
                Err(e) => return Err(format!("does not open: {e}")),
                Ok(_) if cut < PDX_HEADER_SIZE => return Err("opens without a whole header".into()),
                Ok(x) => x,
            };
            pcheck(&mut x, &vals[..want], true)?;
            let mut m = vals[..want].to_vec();
            for n in 42..44 {
                x.save(m.len() as u64, T::nth(n)).map_err(|e| e.to_string())?;
                m.push(T::nth(n));
                pcheck(&mut x, &m, true)?;
            }
            drop(x);
            pcheck(&mut open(false).map_err(|e| e.to_string())?, &m, true)?;
            pcheck(&mut open(true).map_err(|e| e.to_string())?, &m, true)
        });
        if let Ok(Err(e)) | Err(e) = r {
            run.fail("cut", format!("file of {} bytes cut to {cut}: {e}", img.len()), "");
        }
        run.trace();
    }
    for i in 0..PDX_HEADER_SIZE {
        for b in 0..8 {
            run.step(1);
            let mut x = img.clone();
            x[i] ^= 1 << b;
            fs::write(&file, &x).unwrap();
            for ro in [true, false] {
                if !matches!(guarded(|| open(ro).is_ok()), Ok(false)) {
                    run.fail("header", format!("opens although bit {b} of header byte {i} is flipped"), "");
                }
            }
        }
    }
    fs::write(&file, &img).unwrap();
    for (uid, ver) in [(3, 1), (4, 1), (3, 2)] {
        let h2 = header(dir.path(), uid, ver);
        let ok = PositionIndex::<T>::open_pdx_file(dir.path(), &h2, "c.pdx", false).is_ok();
        if ok != (uid == 3 && ver == 1) {
            run.fail("header", format!("index of file (3, 1) opened for file ({uid}, {ver}): ok={ok}"), "");
        }
    }
}

// ---------------------------------------------------------------------------------------------------------

type Idx = HdxIndex;

fn iopen(dir: &Path, h: &DataHeader, ro: bool) -> Result<Idx, String> {
    Idx::open_hdx_file(dir.join("idx"), h, Default::default(), ro).map_err(|e| e.to_string())
}

fn digest(n: u64) -> B256 {
    let mut b = [0u8; 32];
    let mut x = n.wrapping_add(1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    for c in b.chunks_mut(8) {
        x ^= x >> 29;
        x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
        x ^= x >> 32;
        c.copy_from_slice(&x.to_le_bytes());
    }
    B256::from(b)
}

/// The bucket of a key in a table of `buckets` buckets: only used to choose keys that collide.
fn bucket(key: B256, buckets: u64) -> u64 {
    use std::hash::{BuildHasher, BuildHasherDefault};
    let h = BuildHasherDefault::<FxHasher>::default().hash_one(key.as_slice());
    let modulus = (buckets + 1).next_power_of_two();
    let b = h % modulus;
    if b >= buckets {
        b - modulus / 2
    } else {
        b
    }
}

#[derive(Clone, Copy, Debug)]
enum IOp {
    Put(usize),   // key of the alphabet, new value
    Fill,         // as many colliding keys as one bucket holds
    Sync,
    Reopen,
    Length,       // the caller's own field
    Read,
}

/// A starting state, built once, then copied: keys and values in it.
struct Base {
    name: &'static str,
    dir: Scratch,
    map: HashMap<B256, u64>,
    keys: Vec<B256>,     // the alphabet
    fill: Vec<B256>,     // colliding keys, taken in order by Fill
    absent: Vec<B256>,
}

fn copy_dir(from: &Path, to: &Path) {
    fs::create_dir_all(to).unwrap();
    for f in ["index.hdx", "index.odx"] {
        fs::copy(from.join(f), to.join(f)).unwrap();
    }
}

fn icheck(x: &mut Idx, map: &HashMap<B256, u64>, absent: &[B256], some: &[B256], full: bool) -> Result<(), String> {
    let look = |x: &mut Idx, k: &B256| -> Result<(), String> {
        let want = map.get(k).copied();
        let got = x.load(*k);
        match (want, &got) {
            (Some(w), Ok(g)) if w == *g => Ok(()),
            (None, Err(e)) if e.to_string() == "not found" || matches!(e, tn_storage::archive::error::fetch::FetchError::NotFound) => Ok(()),
            _ => Err(format!("key {k}: expected {want:?}, got {got:?}")),
        }
    };
    for k in some.iter().chain(absent) {
        look(x, k)?;
        if x.contains(*k) != map.contains_key(k) {
            return Err(format!("key {k}: presence wrong"));
        }
    }
    if full {
        for k in map.keys() {
            look(x, k)?;
        }
    }
    Ok(())
}

fn iseq(run: &Run, base: &Base, dir: &Path, h: &DataHeader, ops: &[IOp], full: bool) -> Result<(), String> {
    let to = dir.join("idx");
    copy_dir(&base.dir.path().join("idx"), &to);
    let mut x = iopen(dir, h, false)?;
    let mut map = base.map.clone();
    let mut some: Vec<B256> = base.keys.clone();
    let mut fill = base.fill.iter();
    let mut val = 1_000_000;
    let mut len_field = x.data_file_length();
    let mut dup = false;
    let n0 = x.len();
    for (k, op) in ops.iter().enumerate() {
        let err = |e: String| format!("{}: after {op:?} (step {k}): {e}", base.name);
        match *op {
            IOp::Put(i) => {
                val += 1;
                dup |= map.insert(base.keys[i], val).is_some();
                x.save(base.keys[i], val).map_err(|e| err(e.to_string()))?;
            }
            IOp::Fill => {
                for _ in 0..Idx::BUCKET_ELEMENTS {
                    let Some(key) = fill.next() else { break };
                    val += 1;
                    map.insert(*key, val);
                    some.push(*key);
                    x.save(*key, val).map_err(|e| err(e.to_string()))?;
                }
            }
            IOp::Sync => {
                x.sync().map_err(|e| err(e.to_string()))?;
                let mut ro = iopen(dir, h, true).map_err(err)?;
                icheck(&mut ro, &map, &base.absent, &some, false).map_err(|e| err(format!("another reader: {e}")))?;
                if ro.save(base.keys[0], 1).is_ok() || ro.sync().is_ok() {
                    return Err(err("a read-only index accepted a write".into()));
                }
            }
            IOp::Reopen => {
                drop(x);
                x = iopen(dir, h, false).map_err(err)?;
            }
            IOp::Length => {
                val += 1;
                len_field = val;
                x.set_data_file_length(val);
            }
            IOp::Read => icheck(&mut x, &map, &base.absent, &some, full).map_err(err)?,
        }
        run.step(1);
        if x.data_file_length() != len_field {
            return Err(err("the recorded data length changed".into()));
        }
        // exact while no key was saved twice
        if !dup && x.len() != n0 + map.len() - base.map.len() {
            return Err(err(format!("counts {} keys instead of {}", x.len(), n0 + map.len() - base.map.len())));
        }
        let mut ents: Vec<_> = some.iter().map(|k| map.get(k).copied()).collect();
        ents.push(Some(len_field));
        run.state(&(base.name, ents));
    }
    icheck(&mut x, &map, &base.absent, &some, full).map_err(|e| format!("{}: at the end: {e}", base.name))?;
    drop(x);
    let mut x = iopen(dir, h, true)?;
    icheck(&mut x, &map, &base.absent, &some, full).map_err(|e| format!("{}: after closing: {e}", base.name))?;
    if x.data_file_length() != len_field {
        return Err(format!("{}: the recorded data length is lost by closing", base.name));
    }
    run.trace();
    Ok(())
}

pub fn s04(run: &Run) {
    let hd = Scratch::new();
    let h = header(hd.path(), 5, 1);
    let b0 = Idx::INITIAL_BUCKETS as u64;
    // keys of bucket 0, which is the first to be split, and of the bucket split off it
    let first_split = b0 - (b0 + 1).next_power_of_two() / 2;
    let colliding: Vec<B256> = (1u64 << 40..).map(digest).filter(|k| bucket(*k, b0) == first_split).take(110).collect();
    let colliding2: Vec<B256> = (1u64 << 41..).map(digest).filter(|k| bucket(*k, b0) == first_split + 1).take(70).collect();
    // `again`: the colliding keys are all saved a second time
    let build = |name: &'static str, count: u64, coll: usize, again: bool| -> Base {
        let dir = Scratch::new();
        let mut x = iopen(dir.path(), &h, false).expect("create");
        let mut map = HashMap::new();
        for n in 0..count {
            map.insert(digest(n), n + 1);
            x.save(digest(n), n + 1).expect("save");
        }
        for (i, k) in colliding.iter().take(coll).enumerate() {
            map.insert(*k, 500_000 + i as u64);
            x.save(*k, 500_000 + i as u64).expect("save");
        }
        for (i, k) in colliding.iter().take(if again { coll } else { 0 }).enumerate() {
            map.insert(*k, 600_000 + i as u64);
            x.save(*k, 600_000 + i as u64).expect("save");
        }
        x.sync().expect("sync");
        drop(x);
        let absent = (1u64 << 50..(1 << 50) + 20).map(digest).chain(colliding[100..].iter().copied()).collect();
        let mut keys = vec![colliding[0], colliding[1], colliding[90], digest(1 << 60)];
        if count > 0 {
            keys[3] = digest(0);
        }
        Base { name, dir, map, keys, fill: colliding[coll.max(2)..90].to_vec(), absent }
    };
    // the load factor is one half: the table splits a bucket when it holds that many keys
    let limit = b0 * Idx::BUCKET_ELEMENTS as u64 / 2;
    let bases: Vec<Base> = vec![
        build("empty", 0, 0, false),
        build("one full bucket", 0, Idx::BUCKET_ELEMENTS, false),
        build("an overflowing bucket", 0, 2 * Idx::BUCKET_ELEMENTS + 1, false),
        build("about to split an overflowing bucket", limit - 2 - 70, 70, false),
        build("an overflowing bucket saved twice", 0, 70, true),
        build("about to split an overflowing bucket saved twice", limit - 2 - 140, 70, true),
    ];
    let ops = [IOp::Put(0), IOp::Put(1), IOp::Put(2), IOp::Put(3), IOp::Fill, IOp::Sync, IOp::Reopen, IOp::Length, IOp::Read];
    run.bound("operations", format!("{ops:?}"));
    run.bound("starting states", "empty; one bucket of 32 keys; one bucket with two overflow records; two saves below the split threshold with the bucket to be split overflowing; the last two with every colliding key saved twice");
    for (bi, base) in bases.iter().enumerate() {
        let big = base.map.len() > 1000;
        let depth = if big { run.pick(3, 4) } else { run.pick(4, 5) };
        run.bound(&format!("sequence length: {}", base.name), depth);
        let n = seq_count(ops.len() as u64, depth);
        const CHUNK: u64 = 40;
        par(run, n.div_ceil(CHUNK) as usize, |c| {
            let dir = Scratch::new();
            let h = header(dir.path(), 5, 1);
            for i in (c as u64 * CHUNK)..n.min((c as u64 + 1) * CHUNK) {
                let s: Vec<IOp> = seq_of(i, ops.len() as u64, depth).into_iter().map(|k| ops[k]).collect();
                let r = guarded(|| iseq(run, base, dir.path(), &h, &s, !big || i % 3 == 0 || run.thorough()));
                if let Ok(Err(e)) | Err(e) = r {
                    run.fail("sequence", e, format!("start={} ops={s:?}", base.name));
                }
                if i == 5 + bi as u64 * 100 {
                    run.sample(format!("{}: {s:?}", base.name));
                }
                if run.stop() {
                    return;
                }
            }
        });
    }
    // growth: the table splits its way from 1000 buckets upwards; every key stays reachable at every step. `rounds`: how often each key
    // of the buckets that are split first is saved beforehand
    for rounds in 0..=2u64 {
        if run.stop() {
            break;
        }
        let dir = Scratch::new();
        let mut x = iopen(dir.path(), &h, false).expect("create");
        let mut map = HashMap::new();
        let total = run.pick(limit + 900, 40_000);
        run.bound("growth", format!("{total} keys, {} splits; with 0, 1 or 2 rounds of saving 100 keys that collide in each of the first two buckets to be split", (total - limit) / 16));
        for r in 0..rounds {
            for (i, k) in colliding[..100].iter().chain(&colliding2).enumerate() {
                let v = (1 << 40) + 1000 * r + i as u64;
                map.insert(*k, v);
                if let Err(e) = x.save(*k, v) {
                    run.fail("growth", format!("save, round {r}: {e}"), "");
                }
            }
        }
        let done = rounds * (100 + colliding2.len() as u64);
        for n in done..total {
            map.insert(digest(n), n);
            if let Err(e) = x.save(digest(n), n) {
                run.fail("growth", format!("save {n}: {e}"), "");
                break;
            }
            run.step(1);
            if n >= limit && (n < limit + 40 || (n - limit) % 90 == 0) || n + 1 == total {
                if let Err(e) = icheck(&mut x, &map, &[digest(1 << 50)], &[], true) {
                    run.fail("growth", format!("{rounds} rounds, after {} keys: {e}", n + 1), "");
                    break;
                }
                run.trace();
            }
        }
        drop(x);
        let r = iopen(dir.path(), &h, true).and_then(|mut x| icheck(&mut x, &map, &[], &[], true));
        if let Err(e) = r {
            run.fail("growth", format!("{rounds} rounds, {total} keys, after closing: {e}"), "");
        }
    }
    // damage: a flipped byte of a bucket or header never yields a wrong position
    let base = &bases[2];
    let dir = Scratch::new();
    let h = header(dir.path(), 5, 1);
    let src = base.dir.path().join("idx");
    for file in ["index.hdx", "index.odx"] {
        let img = fs::read(src.join(file)).unwrap();
        let zeros = |r: &[u8]| r.iter().all(|b| *b == 0);
        // only bytes near something written matter: empty buckets are all alike
        let spots: Vec<usize> = (0..img.len()).filter(|i| *i < 80 || !zeros(&img[i.saturating_sub(40)..(*i + 40).min(img.len())])).collect();
        let step = run.pick(7, 1);
        let spots: Vec<usize> = spots.iter().enumerate().filter(|(j, i)| **i < 80 || j % step == 0).map(|x| *x.1).take(run.pick(1500, 20_000)).collect();
        run.bound(&format!("damaged bytes of {file}"), spots.len());
        par(run, spots.len().div_ceil(100), |c| {
            let d = Scratch::new();
            copy_dir(&src, &d.path().join("idx"));
            let target = d.path().join("idx").join(file);
            use std::os::unix::fs::FileExt;
            for i in spots.iter().skip(c * 100).take(100) {
                let f = fs::OpenOptions::new().write(true).open(&target).unwrap();
                f.write_all_at(&[img[*i] ^ 0x11], *i as u64).unwrap();
                drop(f);
                let r = guarded(|| {
                    let Ok(mut x) = iopen(d.path(), &h, true) else { return Ok("refused") };
                    let mut out = "harmless";
                    for (k, v) in &base.map {
                        match x.load(*k) {
                            Ok(g) if g == *v => {}
                            Ok(g) => return Err(format!("key {k} reads {g} instead of {v}")),
                            Err(_) => out = "reported",
                        }
                    }
                    for k in &base.absent {
                        if x.load(*k).is_ok() {
                            return Err(format!("absent key {k} is found"));
                        }
                    }
                    Ok(out)
                });
                run.step(1);
                match r {
                    Ok(Ok(o)) => run.outcome(format!("damaged byte: {o}")),
                    Ok(Err(e)) | Err(e) => run.fail("damage", format!("{file} byte {i} altered: {e}"), ""),
                }
                let f = fs::OpenOptions::new().write(true).open(&target).unwrap();
                f.write_all_at(&[img[*i]], *i as u64).unwrap();
            }
            run.trace();
        });
    }
    for (uid, ver) in [(5, 1), (6, 1), (5, 2)] {
        copy_dir(&src, &dir.path().join("idx"));
        let ok = iopen(dir.path(), &header(dir.path(), uid, ver), false).is_ok();
        if ok != (uid == 5 && ver == 1) {
            run.fail("header", format!("index of file (5, 1) opened for file ({uid}, {ver}): ok={ok}"), "");
        }
    }
}

//! Key-value stores: every operation sequence against an ordered map (S06), and the write-behind store under
//! every interleaving of its client with its background writer, with every backend call failing (S07).
use std::{
    collections::BTreeMap,
    fmt::Debug,
    future::Future,
    path::Path,
    sync::{Arc, Condvar, Mutex},
    task::{Context, Poll, Waker},
    time::Duration,
};
use tn_storage::{composite_db::CompositeDatabase, layered_db::LayeredDatabase, mem_db::MemDatabase, ReDB};
use tn_types::{decode, decode_key, encode, encode_key, AuthorityIdentifier, DBIter, Database, DbTx, DbTxMut, Table, TableHint};
use vlib::{
    explore::{dfs, seq_count, seq_of, Chooser},
    guarded, par, Run, Scratch,
};

macro_rules! table {
    ($t:ident, $name:expr, $hint:ident, $k:ty, $v:ty) => {
        #[derive(Debug)]
        pub struct $t;
        impl Table for $t {
            type Key = $k;
            type Value = $v;
            const NAME: &'static str = $name;
            const HINT: TableHint = TableHint::$hint;
        }
    };
}
table!(TU64, "t_u64", Epoch, u64, Vec<u8>);
table!(TU32, "t_u32", Kad, u32, String);
table!(TRound, "t_round", Epoch, (u32, AuthorityIdentifier), u64);
table!(TOrigin, "t_origin", Cache, (AuthorityIdentifier, u32), u64);
table!(TDigest, "t_digest", Cache, tn_types::B256, Vec<u8>);

/// Everything a store can be asked about `T`, against the model.
fn battery<T: Table, D: Database>(db: &D, model: &BTreeMap<T::Key, T::Value>, universe: &[T::Key]) -> Result<(), String>
where
    T::Value: PartialEq,
{
    let all: Vec<(T::Key, T::Value)> = model.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let eq = |what: &str, got: Vec<(T::Key, T::Value)>, want: Vec<(T::Key, T::Value)>| {
        if got == want {
            Ok(())
        } else {
            Err(format!("{what} of {}: got {got:?}, expected {want:?}", T::NAME))
        }
    };
    eq("iteration", db.iter::<T>().collect(), all.clone())?;
    eq("reverse iteration", db.reverse_iter::<T>().collect(), all.iter().rev().cloned().collect())?;
    eq("last record", db.last_record::<T>().into_iter().collect(), all.last().cloned().into_iter().collect())?;
    if db.is_empty::<T>() != all.is_empty() {
        return Err(format!("{} is_empty {} with {} records", T::NAME, db.is_empty::<T>(), all.len()));
    }
    let tx = db.read_txn().map_err(|e| e.to_string())?;
    for k in universe {
        let want = model.get(k).cloned();
        let got = db.get::<T>(k).map_err(|e| e.to_string())?;
        if got != want {
            return Err(format!("get {k:?} of {}: {got:?}, expected {want:?}", T::NAME));
        }
        let got = tx.get::<T>(k).map_err(|e| e.to_string())?;
        if got != want {
            return Err(format!("get {k:?} of {} in a read transaction: {got:?}, expected {want:?}", T::NAME));
        }
        for c in [db.contains_key::<T>(k), tx.contains_key::<T>(k)] {
            if c.map_err(|e| e.to_string())? != want.is_some() {
                return Err(format!("contains {k:?} of {}: expected {}", T::NAME, want.is_some()));
            }
        }
        eq(
            &format!("skip to {k:?}"),
            db.skip_to::<T>(k).map_err(|e| e.to_string())?.collect(),
            all.iter().filter(|r| r.0 >= *k).cloned().collect(),
        )?;
        eq(
            &format!("record prior to {k:?}"),
            db.record_prior_to::<T>(k).into_iter().collect(),
            all.iter().filter(|r| r.0 < *k).next_back().cloned().into_iter().collect(),
        )?;
    }
    // several keys at once, with repeats, in reverse order
    let keys: Vec<&T::Key> = universe.iter().rev().chain(universe.iter().take(2)).collect();
    let got = db.multi_get::<T>(keys.iter().copied()).map_err(|e| e.to_string())?;
    let want: Vec<Option<T::Value>> = keys.iter().map(|k| model.get(k).cloned()).collect();
    if got != want {
        return Err(format!("multi_get of {}: {got:?}, expected {want:?}", T::NAME));
    }
    Ok(())
}

fn block<F: Future>(f: F) -> F::Output {
    futures::executor::block_on(f)
}

/// One store under test.
trait Kind: Sync {
    const NAME: &'static str;
    /// Writes of a transaction dropped without commit: true if they take effect.
    const DROP_APPLIES: bool;
    /// Writes of an open transaction are invisible outside it.
    const ISOLATED: bool;
    type Db: Database;
    fn open(dir: &Path) -> Self::Db;
    const PERSISTENT: bool;
}
struct KRe;
impl Kind for KRe {
    const NAME: &'static str = "redb";
    const DROP_APPLIES: bool = false;
    const ISOLATED: bool = true;
    type Db = ReDB;
    fn open(dir: &Path) -> ReDB {
        ReDB::open(dir.join("db")).unwrap()
    }
    const PERSISTENT: bool = true;
}
struct KMem;
impl Kind for KMem {
    const NAME: &'static str = "mem";
    const DROP_APPLIES: bool = true;
    const ISOLATED: bool = false;
    type Db = MemDatabase;
    fn open(_: &Path) -> MemDatabase {
        MemDatabase::new()
    }
    const PERSISTENT: bool = false;
}
struct KLayFull;
impl Kind for KLayFull {
    const NAME: &'static str = "layered (full memory)";
    const DROP_APPLIES: bool = true;
    const ISOLATED: bool = false;
    type Db = LayeredDatabase<ReDB>;
    fn open(dir: &Path) -> Self::Db {
        LayeredDatabase::open(KRe::open(dir), true)
    }
    const PERSISTENT: bool = true;
}
struct KLayCache;
impl Kind for KLayCache {
    const NAME: &'static str = "layered (cache)";
    const DROP_APPLIES: bool = true;
    const ISOLATED: bool = false;
    type Db = LayeredDatabase<ReDB>;
    fn open(dir: &Path) -> Self::Db {
        LayeredDatabase::open(KRe::open(dir), false)
    }
    const PERSISTENT: bool = true;
}
struct KComp;
impl Kind for KComp {
    const NAME: &'static str = "composite";
    const DROP_APPLIES: bool = true;
    const ISOLATED: bool = false;
    type Db = CompositeDatabase<ReDB>;
    fn open(dir: &Path) -> Self::Db {
        let o = |n: &str| ReDB::open(dir.join(n)).unwrap();
        CompositeDatabase::open(o("epoch"), o("kad"), o("cache"))
    }
    const PERSISTENT: bool = true;
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Ins(usize, u8),
    Rem(usize),
    Clear,
    /// a write transaction: two writes, then commit or drop
    Txn(TOp, TOp, bool),
    Other, // a write to another table
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum TOp {
    Ins(usize, u8),
    Rem(usize),
    Clear,
}

const KEYS: [u64; 4] = [0, 255, 256, u64::MAX];

fn ops() -> Vec<Op> {
    let mut v = vec![Op::Ins(1, 1), Op::Ins(2, 2), Op::Rem(1), Op::Clear, Op::Ins(1, 3), Op::Other];
    for c in [true, false] {
        v.push(Op::Txn(TOp::Ins(0, 4), TOp::Rem(1), c));
        v.push(Op::Txn(TOp::Clear, TOp::Ins(2, 5), c));
        v.push(Op::Txn(TOp::Ins(3, 6), TOp::Clear, c));
    }
    v
}

type M = BTreeMap<u64, Vec<u8>>;
fn val(v: u8) -> Vec<u8> {
    vec![v; v as usize]
}
fn mapply(m: &mut M, o: TOp) {
    match o {
        TOp::Ins(k, v) => {
            m.insert(KEYS[k], val(v));
        }
        TOp::Rem(k) => {
            m.remove(&KEYS[k]);
        }
        TOp::Clear => m.clear(),
    }
}

fn barrier<D: Database>(db: &D) -> Result<(), String> {
    block(db.persist::<TU64>()).map_err(|e| e.to_string())?;
    block(db.persist::<TU32>()).map_err(|e| e.to_string())?;
    block(db.persist::<TOrigin>()).map_err(|e| e.to_string())
}

fn apply<K: Kind>(db: &K::Db, m: &mut M, other: &mut BTreeMap<u32, String>, op: Op) -> Result<(), String> {
    let e = |x: eyre::Report| x.to_string();
    match op {
        Op::Ins(k, v) => {
            db.insert::<TU64>(&KEYS[k], &val(v)).map_err(e)?;
            mapply(m, TOp::Ins(k, v));
        }
        Op::Rem(k) => {
            db.remove::<TU64>(&KEYS[k]).map_err(e)?;
            mapply(m, TOp::Rem(k));
        }
        Op::Clear => {
            db.clear_table::<TU64>().map_err(e)?;
            m.clear();
        }
        Op::Other => {
            let k = m.len() as u32;
            db.insert::<TU32>(&k, &format!("v{k}")).map_err(e)?;
            other.insert(k, format!("v{k}"));
        }
        Op::Txn(a, b, commit) => {
            let before = m.clone();
            let mut tx = db.write_txn().map_err(e)?;
            let mut inner = m.clone();
            let mut removed = std::collections::BTreeSet::new();
            for o in [a, b] {
                match o {
                    TOp::Ins(k, v) => {
                        tx.insert::<TU64>(&KEYS[k], &val(v)).map_err(e)?;
                        removed.remove(&KEYS[k]);
                    }
                    TOp::Rem(k) => {
                        tx.remove::<TU64>(&KEYS[k]).map_err(e)?;
                        removed.insert(KEYS[k]);
                    }
                    TOp::Clear => {
                        tx.clear_table::<TU64>().map_err(e)?;
                        removed.extend(KEYS);
                    }
                }
                mapply(&mut inner, o);
                for k in KEYS {
                    // a removal may stay invisible until the background writer has it, where there is one
                    if (K::NAME == "redb" || K::NAME == "mem") || !removed.contains(&k) {
                        let got = tx.get::<TU64>(&k).map_err(e)?;
                        if got != inner.get(&k).cloned() {
                            return Err(format!("inside the transaction, get {k}: {got:?}, expected {:?}", inner.get(&k)));
                        }
                    }
                    if K::ISOLATED && db.get::<TU64>(&k).map_err(e)? != before.get(&k).cloned() {
                        return Err(format!("an uncommitted write of {k} is visible outside its transaction"));
                    }
                }
            }
            if commit {
                tx.commit().map_err(e)?;
            } else {
                drop(tx);
            }
            if commit || K::DROP_APPLIES {
                *m = inner;
            }
        }
    }
    Ok(())
}

fn sequences<K: Kind>(run: &Run, depth: usize) {
    let alpha = ops();
    let n = seq_count(alpha.len() as u64, depth);
    run.bound(K::NAME, format!("all {n} sequences of {depth} operations over {} (transactions committed and dropped), compared after each, then reopened", alpha.len()));
    let chunk = 64u64;
    par(run, n.div_ceil(chunk) as usize, |c| {
        let s = Scratch::new();
        let mut db = K::open(s.path());
        db.open_table::<TU64>().unwrap();
        db.open_table::<TU32>().unwrap();
        db.open_table::<TOrigin>().unwrap();
        let mut other = BTreeMap::new();
        for i in c as u64 * chunk..n.min((c as u64 + 1) * chunk) {
            let seq: Vec<Op> = seq_of(i, alpha.len() as u64, depth).into_iter().map(|x| alpha[x]).collect();
            let mut m = M::new();
            let r = guarded(|| -> Result<(), String> {
                db.clear_table::<TU64>().map_err(|e| e.to_string())?;
                barrier(&db)?;
                for (k, op) in seq.iter().enumerate() {
                    apply::<K>(&db, &mut m, &mut other, *op).map_err(|e| format!("operation {k} {op:?}: {e}"))?;
                    barrier(&db)?;
                    battery::<TU64, _>(&db, &m, &KEYS).map_err(|e| format!("after operation {k} {op:?}: {e}"))?;
                    run.state(&(K::NAME, &m));
                }
                battery::<TU32, _>(&db, &other, &[0, 1, 7])?;
                Ok(())
            })
            .and_then(|x| x);
            if let Err(e) = r {
                run.fail(K::NAME, format!("{} {seq:?}: {e}", K::NAME), format!("{seq:?}"));
                return;
            }
            run.step(depth as u64);
            run.trace();
            if K::PERSISTENT && i % 8 == 7 {
                drop(db);
                db = K::open(s.path());
                db.open_table::<TU64>().unwrap();
                db.open_table::<TU32>().unwrap();
                db.open_table::<TOrigin>().unwrap();
                let r = guarded(|| battery::<TU64, _>(&db, &m, &KEYS).and_then(|_| battery::<TU32, _>(&db, &other, &[0, 1, 7])));
                if let Err(e) = r.and_then(|x| x) {
                    run.fail(K::NAME, format!("{} {seq:?} then reopened: {e}", K::NAME), format!("{seq:?} reopen"));
                    return;
                }
            }
        }
    });
}

/// Every subset of boundary keys of each key type the node uses: order, seeking, neighbours.
fn ordering<K: Kind>(run: &Run) {
    fn go<K: Kind, T: Table>(run: &Run, keys: Vec<T::Key>, v: impl Fn(usize) -> T::Value + Sync)
    where
        T::Value: PartialEq,
    {
        let mut sorted = keys.clone();
        sorted.sort();
        let s = Scratch::new();
        let db = K::open(s.path());
        db.open_table::<T>().unwrap();
        for mask in 0..1u32 << keys.len() {
            if run.stop() {
                return;
            }
            let mut m = BTreeMap::new();
            let r = guarded(|| -> Result<(), String> {
                let mut tx = db.write_txn().map_err(|e| e.to_string())?;
                tx.clear_table::<T>().map_err(|e| e.to_string())?;
                for i in (0..keys.len()).filter(|i| mask >> i & 1 == 1) {
                    tx.insert::<T>(&keys[i], &v(i)).map_err(|e| e.to_string())?;
                    m.insert(keys[i].clone(), v(i));
                }
                tx.commit().map_err(|e| e.to_string())?;
                block(db.persist::<T>()).map_err(|e| e.to_string())?;
                battery::<T, _>(&db, &m, &sorted)
            })
            .and_then(|x| x);
            if let Err(e) = r {
                run.fail(&format!("{} order", K::NAME), format!("{} keys {:?}: {e}", K::NAME, m.keys().collect::<Vec<_>>()), format!("{mask:b}"));
            }
            run.step(1);
            run.trace();
        }
    }
    let a = |i: u8| AuthorityIdentifier::dummy_for_test(i);
    go::<K, TU64>(run, vec![u64::MAX, 256, 0, 255, 1 << 32, 1], |i| vec![i as u8]);
    go::<K, TU32>(run, vec![65536, 0, u32::MAX, 255, 256, 1], |i| format!("{i}"));
    go::<K, TRound>(run, vec![(1, a(2)), (256, a(0)), (1, a(0)), (0, a(255)), (255, a(1)), (65536, a(0))], |i| i as u64);
    go::<K, TOrigin>(run, vec![(a(2), 1), (a(0), 256), (a(0), 1), (a(255), 0), (a(0), 255), (a(0), 65536)], |i| i as u64);
    let d = |x: u8, y: u8| {
        let mut b = [0u8; 32];
        b[0] = x;
        b[31] = y;
        tn_types::B256::from(b)
    };
    go::<K, TDigest>(run, vec![d(0, 0), d(255, 255), d(0, 1), d(1, 0), d(0, 255), d(128, 0)], |i| vec![0; i * 40]);
}


pub fn s06(run: &Run) {
    sequences::<KMem>(run, run.pick(4, 5));
    sequences::<KRe>(run, run.pick(4, 5));
    sequences::<KLayFull>(run, run.pick(4, 5));
    sequences::<KLayCache>(run, run.pick(4, 5));
    sequences::<KComp>(run, run.pick(2, 3));
    std::thread::scope(|s| {
        s.spawn(|| ordering::<KMem>(run));
        s.spawn(|| ordering::<KRe>(run));
        s.spawn(|| ordering::<KLayFull>(run));
        s.spawn(|| ordering::<KLayCache>(run));
        s.spawn(|| ordering::<KComp>(run));
    });
    run.sample("insert 255, insert 256, txn{clear, insert 256}: dropped -> redb keeps both, committed -> only 256");
    run.assume("stores with a background writer are compared behind their durability barrier, as their documentation asks of callers that remove or iterate");
}

// ---- S07: the write-behind store over a scripted backend -------------------------------------------------

type Raw = BTreeMap<Vec<u8>, Vec<u8>>;
#[derive(Default)]
struct Gate {
    permits: u64,
    calls: u64,
    done: u64,
    waiting: bool,
    free: bool,
    fail_at: Option<u64>,
    failed: bool,
    committed: Raw,
    log: Vec<&'static str>,
}
#[derive(Clone, Default)]
struct GateDb(Arc<(Mutex<Gate>, Condvar)>);
impl Debug for GateDb {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "GateDb")
    }
}
impl GateDb {
    /// A backend call: waits for its permit, fails if it is the one to fail.
    fn call<R>(&self, what: &'static str, f: impl FnOnce(&mut Gate) -> R) -> eyre::Result<R> {
        let (m, cv) = &*self.0;
        let mut g = m.lock().unwrap();
        g.calls += 1;
        g.log.push(what);
        let me = g.calls;
        g.waiting = true;
        cv.notify_all();
        while g.permits == 0 && !g.free {
            g = cv.wait(g).unwrap();
        }
        if !g.free {
            g.permits -= 1;
        }
        g.waiting = false;
        g.done += 1;
        let r = if g.fail_at == Some(me) {
            g.failed = true;
            Err(eyre::eyre!("scripted failure"))
        } else {
            Ok(f(&mut g))
        };
        cv.notify_all();
        r
    }
}
#[derive(Debug)]
struct GTx(GateDb);
impl DbTx for GTx {
    fn get<T: Table>(&self, key: &T::Key) -> eyre::Result<Option<T::Value>> {
        self.0.get::<T>(key)
    }
}
#[derive(Debug)]
struct GTxMut {
    db: GateDb,
    staged: Vec<(Option<Vec<u8>>, Option<Vec<u8>>)>,
}
impl DbTx for GTxMut {
    fn get<T: Table>(&self, key: &T::Key) -> eyre::Result<Option<T::Value>> {
        self.db.get::<T>(key)
    }
}
impl DbTxMut for GTxMut {
    fn insert<T: Table>(&mut self, key: &T::Key, value: &T::Value) -> eyre::Result<()> {
        let (k, v) = (encode_key(key), encode(value));
        self.db.call("txn insert", |_| ())?;
        self.staged.push((Some(k), Some(v)));
        Ok(())
    }
    fn remove<T: Table>(&mut self, key: &T::Key) -> eyre::Result<()> {
        self.db.call("txn remove", |_| ())?;
        self.staged.push((Some(encode_key(key)), None));
        Ok(())
    }
    fn clear_table<T: Table>(&mut self) -> eyre::Result<()> {
        self.db.call("txn clear", |_| ())?;
        self.staged.push((None, None));
        Ok(())
    }
    fn commit(self) -> eyre::Result<()> {
        let staged = self.staged;
        self.db.call("commit", |g| {
            for (k, v) in staged {
                match (k, v) {
                    (Some(k), Some(v)) => drop(g.committed.insert(k, v)),
                    (Some(k), None) => drop(g.committed.remove(&k)),
                    _ => g.committed.clear(),
                }
            }
        })
    }
}
impl Database for GateDb {
    type TX<'t> = GTx;
    type TXMut<'t> = GTxMut;
    fn open_table<T: Table>(&self) -> eyre::Result<()> {
        Ok(())
    }
    fn read_txn(&self) -> eyre::Result<GTx> {
        Ok(GTx(self.clone()))
    }
    fn write_txn(&self) -> eyre::Result<GTxMut> {
        self.call("begin", |_| ())?;
        Ok(GTxMut { db: self.clone(), staged: vec![] })
    }
    fn contains_key<T: Table>(&self, key: &T::Key) -> eyre::Result<bool> {
        Ok(self.get::<T>(key)?.is_some())
    }
    fn get<T: Table>(&self, key: &T::Key) -> eyre::Result<Option<T::Value>> {
        Ok(self.0 .0.lock().unwrap().committed.get(&encode_key(key)).map(|v| decode(v)))
    }
    fn insert<T: Table>(&self, key: &T::Key, value: &T::Value) -> eyre::Result<()> {
        self.call("insert", |g| drop(g.committed.insert(encode_key(key), encode(value))))
    }
    fn remove<T: Table>(&self, key: &T::Key) -> eyre::Result<()> {
        self.call("remove", |g| drop(g.committed.remove(&encode_key(key))))
    }
    fn clear_table<T: Table>(&self) -> eyre::Result<()> {
        self.call("clear", |g| g.committed.clear())
    }
    fn is_empty<T: Table>(&self) -> bool {
        self.0 .0.lock().unwrap().committed.is_empty()
    }
    fn iter<T: Table>(&self) -> DBIter<'_, T> {
        let v: Vec<_> =
            self.0 .0.lock().unwrap().committed.iter().map(|(k, v)| (decode_key(k), decode(v))).collect();
        Box::new(v.into_iter())
    }
    fn skip_to<T: Table>(&self, key: &T::Key) -> eyre::Result<DBIter<'_, T>> {
        let key = key.clone();
        Ok(Box::new(self.iter::<T>().filter(move |(k, _)| *k >= key)))
    }
    fn reverse_iter<T: Table>(&self) -> DBIter<'_, T> {
        let mut v: Vec<_> = self.iter::<T>().collect();
        v.reverse();
        Box::new(v.into_iter())
    }
    fn record_prior_to<T: Table>(&self, key: &T::Key) -> Option<(T::Key, T::Value)> {
        self.iter::<T>().filter(|(k, _)| k < key).last()
    }
    fn last_record<T: Table>(&self) -> Option<(T::Key, T::Value)> {
        self.iter::<T>().last()
    }
}

struct Free(GateDb);
impl Drop for Free {
    fn drop(&mut self) {
        self.0 .0 .0.lock().unwrap_or_else(|e| e.into_inner()).free = true;
        self.0 .0 .1.notify_all();
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Msg {
    Start,
    Write,
    End,
}

/// Waits until the writer is at a backend call, or has made every call the messages sent so far can cause.
fn settle(db: &GateDb, sent: &[Msg], fail_at: Option<u64>) -> bool {
    let (mut expected, mut open) = (0u64, 0u64);
    for m in sent {
        match m {
            Msg::Start if open > 0 => open += 1,
            Msg::Start => {
                expected += 1;
                open = (fail_at != Some(expected)) as u64;
            }
            Msg::Write => expected += 1,
            Msg::End if open == 0 => {}
            Msg::End => {
                open -= 1;
                expected += (open == 0) as u64;
            }
        }
    }
    let (m, cv) = &*db.0;
    let mut g = m.lock().unwrap();
    for _ in 0..40 {
        if g.waiting || g.done >= expected {
            return g.waiting;
        }
        g = cv.wait_timeout(g, Duration::from_millis(25)).unwrap().0;
    }
    g.waiting
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum C {
    Ins(usize, u8),
    Rem(usize),
    Clear,
    Begin(usize),
    TIns(usize, usize, u8),
    TRem(usize, usize),
    Commit(usize),
    Drop(usize),
    Persist,
    Step,
}

type Tk = TU64;

fn raw(m: &M) -> Raw {
    m.iter().map(|(k, v)| (encode_key(k), encode(v))).collect()
}

/// One execution: `depth` client or writer steps chosen by `c`, one backend call failing.
fn write_behind(run: &Run, c: &mut Chooser, prefix: &[C], depth: usize, full: bool, fail_at: Option<u64>) -> Result<Vec<C>, (Vec<C>, &'static str, String)> {
    let back = GateDb::default();
    back.0 .0.lock().unwrap().fail_at = fail_at;
    let db = LayeredDatabase::open(back.clone(), full);
    db.open_table::<Tk>().unwrap();
    let mut m = M::new();
    // keys for which a removal is still queued: reads of them may be stale, as documented
    let mut pending_removal = false;
    let mut txs: [Option<_>; 2] = [None, None];
    let _free = Free(back.clone()); // dropped before the store, so that its writer can always finish
    let mut sent: Vec<Msg> = vec![];
    // inserts of the key since the writer was last idle outside a transaction
    let mut since_idle = vec![];
    let mut hist: Vec<C> = vec![];
    // durability barriers requested: the future, and the contents that must be durable when it resolves
    let mut barriers: Vec<(std::pin::Pin<Box<dyn Future<Output = eyre::Result<()>> + '_>>, M, u64)> = vec![];
    let mut sent_writes = 0u64;
    let mut cx = Context::from_waker(Waker::noop());
    let mut refused = false;
    macro_rules! fail {
        ($k:expr, $($a:tt)*) => {{
            let what = format!($($a)*);
            drop(barriers);
            { let mut g = back.0.0.lock().unwrap(); g.free = true; }
            back.0.1.notify_all();
            return Err((hist, $k, what));
        }};
    }
    let mut script = prefix.iter().copied();
    while hist.len() < depth {
        let mut menu = vec![];
        let waiting = settle(&back, &sent, fail_at);
        if !waiting && !since_idle.is_empty() && txs.iter().all(|t| t.is_none()) {
            // wait for the writer to be done with what it applied
            let _ = block(db.persist::<Tk>());
            since_idle.clear();
        }
        if waiting {
            menu.push(C::Step);
        }
        menu.extend([C::Ins(1, 1), C::Ins(1, 2), C::Rem(1)]);
        if hist.iter().filter(|h| **h == C::Persist).count() < 2 {
            menu.push(C::Persist);
        }
        menu.push(C::Clear);
        for t in 0..2 {
            if txs[t].is_some() {
                menu.extend([C::TIns(t, 1, 3), C::Commit(t), C::Drop(t)]);
                if t == 0 {
                    menu.push(C::TRem(t, 1));
                }
            } else if t == 0 || txs[0].is_some() {
                menu.push(C::Begin(t));
            }
        }
        let op = match script.next() {
            Some(o) if menu.contains(&o) => o,
            Some(_) => break,
            None => menu[c.choose(menu.len())],
        };
        hist.push(op);
        match op {
            C::Ins(k, v) => {
                db.insert::<Tk>(&KEYS[k], &val(v)).unwrap();
                mapply(&mut m, TOp::Ins(k, v));
                since_idle.push(v);
                sent.push(Msg::Write);
                sent_writes += 1;
            }
            C::Rem(k) => {
                db.remove::<Tk>(&KEYS[k]).unwrap();
                mapply(&mut m, TOp::Rem(k));
                sent.push(Msg::Write);
                sent_writes += 1;
                pending_removal = true;
            }
            C::Clear => {
                db.clear_table::<Tk>().unwrap();
                m.clear();
                sent.push(Msg::Write);
                sent_writes += 1;
                pending_removal = true;
            }
            C::Begin(t) => {
                txs[t] = Some(db.write_txn().unwrap());
                sent.push(Msg::Start);
            }
            C::TIns(t, k, v) => {
                txs[t].as_mut().unwrap().insert::<Tk>(&KEYS[k], &val(v)).unwrap();
                mapply(&mut m, TOp::Ins(k, v));
                since_idle.push(v);
                sent.push(Msg::Write);
                sent_writes += 1;
            }
            C::TRem(t, k) => {
                txs[t].as_mut().unwrap().remove::<Tk>(&KEYS[k]).unwrap();
                mapply(&mut m, TOp::Rem(k));
                sent.push(Msg::Write);
                sent_writes += 1;
                pending_removal = true;
            }
            C::Commit(t) => {
                txs[t].take().unwrap().commit().unwrap();
                sent.push(Msg::End);
            }
            C::Drop(t) => {
                drop(txs[t].take());
                sent.push(Msg::End);
            }
            C::Persist => barriers.push((Box::pin(db.persist::<Tk>()), m.clone(), sent_writes)),
            C::Step => {
                let mut g = back.0 .0.lock().unwrap();
                g.permits += 1;
                back.0 .1.notify_all();
                let d = g.done;
                while g.done == d {
                    g = back.0 .1.wait(g).unwrap();
                }
                drop(g);
                settle(&back, &sent, fail_at);
            }
        }
        run.step(1);
        // a barrier that has resolved
        let mut i = 0;
        while i < barriers.len() {
            let mut p = barriers[i].0.as_mut().poll(&mut cx);
            if p.is_pending() && !settle(&back, &sent, fail_at) && txs.iter().all(|t| t.is_none()) {
                // the writer has nothing left to do: the barrier must resolve now
                let t0 = std::time::Instant::now();
                while p.is_pending() && t0.elapsed() < Duration::from_secs(5) {
                    std::thread::yield_now();
                    p = barriers[i].0.as_mut().poll(&mut cx);
                }
                if p.is_pending() {
                    fail!("barrier", "a durability barrier does not resolve although nothing is queued and no transaction is open");
                }
            }
            let Poll::Ready(r) = p else {
                i += 1;
                continue;
            };
            let (_, at, writes) = barriers.remove(i);
            let (durable, failed) = {
                let g = back.0 .0.lock().unwrap();
                (g.committed.clone(), g.failed)
            };
            match r {
                Ok(()) if refused => fail!("barrier", "a durability barrier succeeded after an earlier one failed"),
                // later writes may be durable too; compare when there are none
                Ok(()) if writes == sent_writes && durable != raw(&at) => {
                    fail!("barrier", "a durability barrier succeeded while the durable contents are {durable:?}, not {:?}", raw(&at))
                }
                Ok(()) => {}
                Err(e) => {
                    refused = true;
                    if !failed {
                        fail!("barrier", "a durability barrier failed without any backend failure: {e}");
                    }
                }
            }
        }
        // reads
        let got = db.get::<Tk>(&KEYS[1]).unwrap();
        if !pending_removal && got != m.get(&KEYS[1]).cloned() {
            fail!(if since_idle.len() > 1 { "overwrite-while-queued" } else { "stale read" }, "a read returns {got:?}, the latest write is {:?}", m.get(&KEYS[1]));
        }
        if m.contains_key(&KEYS[1]) && got.is_none() {
            fail!(if since_idle.len() > 1 { "overwrite-while-queued" } else { "lost read" }, "a read finds nothing, {:?} was written and not removed since", m.get(&KEYS[1]));
        }
        if full {
            let it: Vec<_> = db.iter::<Tk>().collect();
            let want: Vec<_> = m.iter().map(|(k, v)| (*k, v.clone())).collect();
            if it != want || db.contains_key::<Tk>(&KEYS[1]).unwrap() != m.contains_key(&KEYS[1]) {
                fail!("iteration", "iteration gives {it:?}, written {want:?}");
            }
        }
        run.state(&(full, fail_at, &hist));
    }
    // let everything finish: close the transactions, free the writer, ask for durability
    txs = [None, None];
    drop(txs);
    {
        let mut g = back.0 .0.lock().unwrap();
        g.free = true;
        back.0 .1.notify_all();
    }
    for (mut b, ..) in barriers.drain(..) {
        match block(b.as_mut()) {
            Ok(()) if refused => return Err((hist, "barrier", "a durability barrier succeeded after an earlier one failed".into())),
            Ok(()) => {}
            Err(_) => refused = true,
        }
    }
    let last = block(db.persist::<Tk>());
    let (durable, failed, log) = {
        let g = back.0 .0.lock().unwrap();
        (g.committed.clone(), g.failed, g.log.clone())
    };
    match &last {
        Ok(()) if refused => return Err((hist, "barrier", "a durability barrier succeeded after an earlier one failed".into())),
        Ok(()) if durable != raw(&m) => {
            return Err((hist, "barrier", format!("the last durability barrier succeeded, but {durable:?} is durable instead of {:?}; backend calls {log:?}", raw(&m))))
        }
        Err(e) if !failed => return Err((hist, "barrier", format!("the last durability barrier failed without any backend failure: {e}"))),
        _ => {}
    }
    if last.is_ok() {
        if let Err(e) = battery::<Tk, _>(&db, &m, &KEYS) {
            return Err((hist, "contents", format!("behind the last barrier: {e}")));
        }
        // (the query sleeps, so not after every execution)
        let st = if vlib::hash(&hist) % 16 == 0 { db.stats().unwrap() } else { Default::default() };
        if st.retained_inserts != 0 || st.open_txn_count != 0 {
            return Err((hist, "leak", format!("at rest the writer still holds {st:?}")));
        }
    } else if full {
        // memory keeps serving what was written
        let it: Vec<_> = db.iter::<Tk>().collect();
        if it != m.iter().map(|(k, v)| (*k, v.clone())).collect::<Vec<_>>() {
            return Err((hist, "contents", format!("after a failed barrier memory holds {it:?}, written {m:?}")));
        }
    } else if !pending_removal {
        let got = db.get::<Tk>(&KEYS[1]).unwrap();
        if m.contains_key(&KEYS[1]) && got.is_none() {
            return Err((hist, "lost read", format!("after a failed barrier a read finds nothing, {:?} was written", m.get(&KEYS[1]))));
        }
    }
    run.outcome(if last.is_ok() { "durable" } else { "refused" });
    drop(barriers);
    drop(db);
    let durable = back.0 .0.lock().unwrap().committed.clone();
    if !failed && durable != raw(&m) {
        return Err((hist, "shutdown", format!("after an orderly shutdown {durable:?} is durable instead of {:?}", raw(&m))));
    }
    Ok(hist)
}

pub fn s07(run: &Run) {
    let depth = run.pick(5, 6);
    let fails = run.pick(4, 5);
    run.bound("history", format!("every interleaving of {depth} client and background-writer steps (two overlapping transactions, two barriers), with none or one of the first {fails} backend calls failing, in both memory modes"));
    let firsts: Vec<C> = vec![C::Ins(1, 1), C::Begin(0), C::Persist];
    let seconds = vec![C::Step, C::Ins(1, 1), C::Ins(1, 2), C::Rem(1), C::Persist, C::Clear, C::Begin(0), C::TIns(0, 1, 3), C::Commit(0), C::Drop(0), C::TRem(0, 1), C::Begin(1)];
    let mut jobs = vec![];
    for full in [true, false] {
        for f in 0..=fails {
            for a in &firsts {
                for b in &seconds {
                    for d in &seconds {
                        jobs.push((full, if f == 0 { None } else { Some(f) }, vec![*a, *b, *d]));
                    }
                }
            }
        }
    }
    par(run, jobs.len(), |i| {
        let (full, fail, prefix) = &jobs[i];
        dfs(|c| {
            match guarded(|| write_behind(run, c, prefix, depth, *full, *fail)) {
                Ok(Ok(h)) => {
                    run.trace();
                    if h.len() < depth {
                        return false; // the prefix is not possible
                    }
                }
                Ok(Err((h, key, e))) => {
                    let key = format!("{key} {}", if *full { "full-memory" } else { "cache" });
                    run.fail(&key, format!("{h:?}, failing call {fail:?}: {e}"), format!("mode full={full} fail={fail:?} {h:?}"))
                }
                Err(e) => run.fail("panic", e, format!("mode full={full} fail={fail:?} {prefix:?} {:?}", c.trace())),
            }
            !run.stop()
        });
    });
    run.sample("begin, insert in the transaction, barrier, [commit fails] -> barrier refused, every later barrier refused");
}

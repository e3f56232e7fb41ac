//! A database that remembers which of its writes a stop of the process may lose.
use parking_lot::Mutex;
use std::{
    fmt,
    future::Future,
    pin::Pin,
    sync::Arc,
    task::{Context, Poll, Waker},
};
use tn_storage::mem_db::{MemDatabase, MemDbTx, MemDbTxMut};
use tn_types::{DBIter, Database, DbTx, DbTxMut, Table};

type Op = Arc<dyn Fn(&MemDatabase) + Send + Sync>;

#[derive(Default)]
struct Log {
    /// One entry per commit, each lost or kept as a whole, and none kept without those before it.
    commits: Vec<Vec<Op>>,
    /// Commits that a finished `persist` covers.
    durable: usize,
    /// While held, no `persist` finishes.
    held: bool,
    waiting: Vec<Waker>,
}

#[derive(Clone)]
pub struct CrashDb {
    live: MemDatabase,
    log: Arc<Mutex<Log>>,
}
impl fmt::Debug for CrashDb {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "CrashDb")
    }
}
impl Default for CrashDb {
    fn default() -> Self {
        Self { live: MemDatabase::default(), log: Default::default() }
    }
}

impl CrashDb {
    /// (commits surely kept, commits made)
    pub fn extent(&self) -> (usize, usize) {
        let l = self.log.lock();
        (l.durable, l.commits.len())
    }
    /// What a restart finds when the first `n` commits reached the disk.
    pub fn recovered(&self, n: usize) -> Self {
        let live = MemDatabase::default();
        let commits: Vec<Vec<Op>> = self.log.lock().commits[..n].to_vec();
        for op in commits.iter().flatten() {
            op(&live);
        }
        Self { live, log: Arc::new(Mutex::new(Log { durable: commits.len(), commits, ..Log::default() })) }
    }
    /// The disk stalls, or stops stalling.
    pub fn hold(&self, held: bool) {
        let mut l = self.log.lock();
        l.held = held;
        l.waiting.drain(..).for_each(Waker::wake);
    }
    fn push(&self, ops: Vec<Op>) {
        self.log.lock().commits.push(ops);
    }
    fn op_insert<T: Table>(key: &T::Key, value: &T::Value) -> Op
    where
        T::Key: Send + Sync,
    {
        let (k, v) = (key.clone(), value.clone());
        Arc::new(move |db| db.insert::<T>(&k, &v).unwrap())
    }
    fn op_remove<T: Table>(key: &T::Key) -> Op {
        let k = key.clone();
        Arc::new(move |db| db.remove::<T>(&k).unwrap())
    }
    fn op_clear<T: Table>() -> Op {
        Arc::new(move |db| db.clear_table::<T>().unwrap())
    }
}

pub struct CrashTx {
    inner: MemDbTxMut,
    ops: Vec<Op>,
    db: CrashDb,
}
impl fmt::Debug for CrashTx {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "CrashTx")
    }
}
impl DbTx for CrashTx {
    fn get<T: Table>(&self, key: &T::Key) -> eyre::Result<Option<T::Value>> {
        self.inner.get::<T>(key)
    }
}
impl DbTxMut for CrashTx {
    fn insert<T: Table>(&mut self, key: &T::Key, value: &T::Value) -> eyre::Result<()> {
        self.ops.push(CrashDb::op_insert::<T>(key, value));
        self.inner.insert::<T>(key, value)
    }
    fn remove<T: Table>(&mut self, key: &T::Key) -> eyre::Result<()> {
        self.ops.push(CrashDb::op_remove::<T>(key));
        self.inner.remove::<T>(key)
    }
    fn clear_table<T: Table>(&mut self) -> eyre::Result<()> {
        self.ops.push(CrashDb::op_clear::<T>());
        self.inner.clear_table::<T>()
    }
    fn commit(self) -> eyre::Result<()> {
        self.db.push(self.ops);
        self.inner.commit()
    }
}

/// Finishes on its second poll, so that anything may happen between asking for durability and having it.
struct Persist {
    log: Arc<Mutex<Log>>,
    upto: Option<usize>,
}
impl Future for Persist {
    type Output = eyre::Result<()>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match self.upto {
            None => {
                let n = self.log.lock().commits.len();
                self.upto = Some(n);
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Some(n) => {
                let mut l = self.log.lock();
                if l.held {
                    l.waiting.push(cx.waker().clone());
                    return Poll::Pending;
                }
                l.durable = l.durable.max(n);
                Poll::Ready(Ok(()))
            }
        }
    }
}

impl Database for CrashDb {
    type TX<'txn>
        = MemDbTx
    where
        Self: 'txn;
    type TXMut<'txn>
        = CrashTx
    where
        Self: 'txn;
    fn open_table<T: Table>(&self) -> eyre::Result<()> {
        self.live.open_table::<T>()
    }
    fn read_txn(&self) -> eyre::Result<Self::TX<'_>> {
        self.live.read_txn()
    }
    fn write_txn(&self) -> eyre::Result<Self::TXMut<'_>> {
        Ok(CrashTx { inner: self.live.write_txn()?, ops: vec![], db: self.clone() })
    }
    fn contains_key<T: Table>(&self, key: &T::Key) -> eyre::Result<bool> {
        self.live.contains_key::<T>(key)
    }
    fn get<T: Table>(&self, key: &T::Key) -> eyre::Result<Option<T::Value>> {
        self.live.get::<T>(key)
    }
    fn insert<T: Table>(&self, key: &T::Key, value: &T::Value) -> eyre::Result<()> {
        self.push(vec![Self::op_insert::<T>(key, value)]);
        self.live.insert::<T>(key, value)
    }
    fn remove<T: Table>(&self, key: &T::Key) -> eyre::Result<()> {
        self.push(vec![Self::op_remove::<T>(key)]);
        self.live.remove::<T>(key)
    }
    fn clear_table<T: Table>(&self) -> eyre::Result<()> {
        self.push(vec![Self::op_clear::<T>()]);
        self.live.clear_table::<T>()
    }
    fn is_empty<T: Table>(&self) -> bool {
        self.live.is_empty::<T>()
    }
    fn iter<T: Table>(&self) -> DBIter<'_, T> {
        self.live.iter::<T>()
    }
    fn skip_to<T: Table>(&self, key: &T::Key) -> eyre::Result<DBIter<'_, T>> {
        self.live.skip_to::<T>(key)
    }
    fn reverse_iter<T: Table>(&self) -> DBIter<'_, T> {
        self.live.reverse_iter::<T>()
    }
    fn record_prior_to<T: Table>(&self, key: &T::Key) -> Option<(T::Key, T::Value)> {
        self.live.record_prior_to::<T>(key)
    }
    fn last_record<T: Table>(&self) -> Option<(T::Key, T::Value)> {
        self.live.last_record::<T>()
    }
    fn persist<T: Table>(&self) -> impl Future<Output = eyre::Result<()>> + Send {
        Persist { log: self.log.clone(), upto: None }
    }
    fn sync_persist(&self) {
        let mut l = self.log.lock();
        l.durable = l.commits.len();
    }
}

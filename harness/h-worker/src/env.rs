//! The worker side of one node of a committee: the real worker, its network and its handlers, with a stand-in for what
//! connects it to the other nodes, to its primary and to execution.
use libp2p::gossipsub::MessageId;
use parking_lot::Mutex;
use rand::{rngs::StdRng, SeedableRng};
use std::{
    collections::BTreeSet,
    sync::{Arc, OnceLock},
    time::Duration,
};
use tn_config::{Config, ConsensusConfig, KeyConfig, NetworkConfig};
use tn_network_libp2p::{
    error::NetworkError,
    types::{NetworkCommand, NetworkEvent, NetworkHandle, NetworkResponseSender},
    Penalty, Stream,
};
use tn_network_types::{WorkerOthersBatchMessage, WorkerOwnBatchMessage, WorkerToPrimaryClient};
use tn_storage::{
    consensus::ConsensusChain,
    mem_db::MemDatabase,
    tables::{NodeBatchesCache, OurNodeBatchesCache},
};
use tn_types::{
    try_decode, Address, Batch, BatchValidation, BatchValidationError, BlockHash, BlsKeypair, BlsPublicKey, Committee, CommitteeBuilder,
    Database, EpochDigest, Epoch, RpcInfo, SealedBatch, TaskManager, TxnForwarder,
};
use tn_worker::{
    quorum_waiter::QuorumWaiter, RequestHandler, Worker, WorkerGossip, WorkerNetwork, WorkerNetworkHandle, WorkerRequest, WorkerResponse,
};
use tokio::sync::{mpsc, oneshot};

/// The epoch every test node is in; its consensus chain holds packs of other epochs.
pub const EPOCH: Epoch = 3;

/// Keys of members and outsiders (the last ones), in ascending order.
pub fn keys() -> &'static [KeyConfig] {
    static K: OnceLock<Vec<KeyConfig>> = OnceLock::new();
    K.get_or_init(|| {
        let mut v: Vec<_> = (0..9u64).map(|i| BlsKeypair::generate(&mut StdRng::seed_from_u64(900 + i))).collect();
        v.sort_by_key(|k| k.public().to_bytes());
        v.into_iter().map(KeyConfig::new_with_testing_key).collect()
    })
}
pub fn pk(i: usize) -> BlsPublicKey {
    keys()[i].primary_public_key()
}
pub fn who(k: &BlsPublicKey) -> usize {
    (0..keys().len()).find(|i| pk(*i) == *k).unwrap()
}
pub fn committee(n: usize, epoch: Epoch) -> Committee {
    let mut b = CommitteeBuilder::new(epoch);
    for i in 0..n {
        b.add_authority(pk(i), Address::repeat_byte(i as u8 + 1));
    }
    b.build()
}

/// Batches are told apart by a number; the verdict on one is part of it.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    Valid,
    Empty,
    BadTx,
    BaseFee,
    Blob,
    Chain,
}
pub const VERDICTS: [Verdict; 6] = [Verdict::Valid, Verdict::Empty, Verdict::BadTx, Verdict::BaseFee, Verdict::Blob, Verdict::Chain];
pub fn batch(n: u8, verdict: Verdict, epoch: Epoch) -> Batch {
    Batch { transactions: vec![vec![verdict as u8, n], vec![7; 3 + n as usize]], epoch, ..Default::default() }
}
/// Decides as a batch says, once its digest is right.
#[derive(Debug, Default)]
pub struct Judge(pub Mutex<Vec<BlockHash>>);
impl BatchValidation for Judge {
    fn validate_batch(&self, b: SealedBatch) -> Result<(), BatchValidationError> {
        self.0.lock().push(b.digest());
        if b.batch.digest() != b.digest() {
            return Err(BatchValidationError::InvalidDigest);
        }
        match VERDICTS[b.batch.transactions[0][0] as usize] {
            Verdict::Valid => Ok(()),
            Verdict::Empty => Err(BatchValidationError::EmptyBatch),
            Verdict::BadTx => Err(BatchValidationError::RecoverTransaction(b.digest(), "".into())),
            Verdict::BaseFee => Err(BatchValidationError::InvalidBaseFee { expected_base_fee: 1, base_fee: 2 }),
            Verdict::Blob => Err(BatchValidationError::InvalidTx4844(b.digest())),
            Verdict::Chain => Err(BatchValidationError::CanonicalChain { block_hash: b.digest() }),
        }
    }
    fn submit_txn_if_mine(&self, _: &[u8], _: u64, _: u64) {}
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Told {
    pub own: bool,
    pub digest: BlockHash,
    /// The batch was in the store others are served from when the primary was told.
    pub stored: bool,
}
/// The primary: takes notes, or refuses.
pub struct Primary {
    pub told: Mutex<Vec<Told>>,
    pub refuses: Mutex<bool>,
    db: MemDatabase,
}
impl Primary {
    fn note(&self, own: bool, digest: BlockHash) -> eyre::Result<()> {
        if *self.refuses.lock() {
            return Err(eyre::eyre!("no"));
        }
        let stored = self.db.get::<NodeBatchesCache>(&digest)?.is_some_and(|b| b.digest() == digest);
        self.told.lock().push(Told { own, digest, stored });
        Ok(())
    }
}
#[async_trait::async_trait]
impl WorkerToPrimaryClient for Primary {
    async fn report_own_batch(&self, m: WorkerOwnBatchMessage) -> eyre::Result<()> {
        self.note(true, m.digest)
    }
    async fn report_others_batch(&self, m: WorkerOthersBatchMessage) -> eyre::Result<()> {
        self.note(false, m.digest)
    }
}
type Sent = (Vec<Vec<u8>>, Vec<BlsPublicKey>, Vec<(BlsPublicKey, RpcInfo)>);
#[derive(Debug, Default)]
pub struct Forwarder {
    pub admits: Mutex<bool>,
    pub sent: Mutex<Vec<Sent>>,
}
impl TxnForwarder for Forwarder {
    fn forward_txns(&self, t: Vec<Vec<u8>>, slots: Vec<BlsPublicKey>, rpcs: Vec<(BlsPublicKey, RpcInfo)>) -> bool {
        self.sent.lock().push((t, slots, rpcs));
        *self.admits.lock()
    }
}

/// A batch this node asks a peer to acknowledge.
pub struct Asked {
    pub peer: usize,
    pub batch: SealedBatch,
    pub reply: NetworkResponseSender<WorkerResponse>,
}
/// A stream this node wants.
pub struct Wanted {
    pub peer: usize,
    pub reply: oneshot::Sender<Result<Stream, NetworkError>>,
}
type Events = mpsc::Sender<NetworkEvent<WorkerRequest, WorkerResponse>>;

pub struct Site {
    pub me: usize,
    pub db: MemDatabase,
    pub config: ConsensusConfig<MemDatabase>,
    pub primary: Arc<Primary>,
    pub judge: Arc<Judge>,
    pub forwarder: Arc<Forwarder>,
    pub handle: WorkerNetworkHandle,
    pub handler: RequestHandler<MemDatabase>,
    pub worker: Worker<MemDatabase, QuorumWaiter>,
    pub events: Events,
    net: mpsc::Receiver<NetworkCommand<WorkerRequest, WorkerResponse>>,
    pub asked: Vec<Asked>,
    pub wanted: Vec<Wanted>,
    pub published: Vec<(String, WorkerGossip)>,
    pub penalties: Vec<(usize, Penalty)>,
    /// What the network layer answers.
    pub connected: Option<Vec<usize>>,
    pub rpcs: Option<Vec<(BlsPublicKey, RpcInfo)>>,
    pub can_publish: bool,
    _tasks: TaskManager,
}
pub fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap()
}
impl Site {
    /// Must run inside a runtime.
    pub fn new(n: usize, me: usize, chain: &ConsensusChain, timeout: Duration) -> Self {
        Self::at(n, me, chain, timeout, EPOCH)
    }
    pub fn at(n: usize, me: usize, chain: &ConsensusChain, timeout: Duration, epoch: Epoch) -> Self {
        // made once: its ports are never used
        static CONFIG: OnceLock<Config> = OnceLock::new();
        let mut config = CONFIG.get_or_init(Config::default_for_test).clone();
        config.parameters.batch_vote_timeout = timeout;
        let db = MemDatabase::default();
        let config = ConsensusConfig::new_with_committee_and_prior_epoch_record_for_test(
            config,
            db.clone(),
            keys()[me].clone(),
            committee(n, epoch),
            NetworkConfig::default(),
            EpochDigest::from([5u8; 32]),
        )
        .unwrap();
        let tasks = TaskManager::default();
        let (tx, net) = mpsc::channel(10_000);
        let handle = WorkerNetworkHandle::new(NetworkHandle::new(tx), tasks.get_spawner(), epoch, config.chain_id());
        let primary = Arc::new(Primary { told: Mutex::default(), refuses: Mutex::new(false), db: db.clone() });
        config.local_network().set_worker_to_primary_local_handler(primary.clone());
        let judge = Arc::new(Judge::default());
        let forwarder = Arc::new(Forwarder { admits: Mutex::new(true), ..Default::default() });
        let worker = tn_worker::new_worker(0, judge.clone(), config.clone(), handle.clone(), forwarder.clone(), chain.clone());
        let handler = RequestHandler::new(0, judge.clone(), config.clone(), handle.clone());
        let (events, rx) = mpsc::channel(1000);
        WorkerNetwork::new(rx, handle.clone(), config.clone(), 0, judge.clone(), chain.clone()).spawn(&tasks.get_spawner());
        Self {
            me,
            db,
            config,
            primary,
            judge,
            forwarder,
            handle,
            handler,
            worker,
            events,
            net,
            asked: vec![],
            wanted: vec![],
            published: vec![],
            penalties: vec![],
            connected: Some((0..n).filter(|i| *i != me).collect()),
            rpcs: Some(vec![]),
            can_publish: true,
            _tasks: tasks,
        }
    }
    pub fn topic(&self) -> String {
        tn_config::LibP2pConfig::worker_batch_topic(self.config.chain_id())
    }
    /// Takes what the node hands to its network layer; true if there was anything.
    pub fn take(&mut self) -> bool {
        let mut any = false;
        while let Ok(c) = self.net.try_recv() {
            any = true;
            match c {
                NetworkCommand::SendRequest { peer, request: WorkerRequest::ReportBatch { sealed_batch }, reply } => {
                    self.asked.push(Asked { peer: who(&peer), batch: sealed_batch, reply })
                }
                NetworkCommand::OpenStream { peer, reply } => self.wanted.push(Wanted { peer: who(&peer), reply }),
                NetworkCommand::Publish { topic, msg, reply } => {
                    self.published.push((topic, try_decode(&msg).expect("a worker's gossip")));
                    if self.can_publish {
                        let _ = reply.send(Ok(MessageId::new(b"m")));
                    }
                }
                NetworkCommand::ReportPenalty { peer, penalty } => self.penalties.push((who(&peer), penalty)),
                NetworkCommand::ConnectedPeers { reply } => {
                    if let Some(c) = &self.connected {
                        let _ = reply.send(c.iter().map(|i| pk(*i)).collect());
                    }
                }
                NetworkCommand::GetAllValidatorRpcs { reply } => {
                    if let Some(r) = &self.rpcs {
                        let _ = reply.send(r.clone());
                    }
                }
                _ => (),
            }
        }
        any
    }
    pub fn own(&self, digest: BlockHash) -> Option<Batch> {
        self.db.get::<OurNodeBatchesCache>(&digest).unwrap()
    }
    pub fn held(&self, digest: BlockHash) -> Option<Batch> {
        self.db.get::<NodeBatchesCache>(&digest).unwrap()
    }
    pub fn hold(&self, b: &Batch) {
        self.db.insert::<NodeBatchesCache>(&b.digest(), b).unwrap()
    }
}
pub async fn yields() {
    for _ in 0..25 {
        tokio::task::yield_now().await;
    }
}
/// Lets every task run until all wait; no time passes.
pub fn settle(rt: &tokio::runtime::Runtime, site: &mut Site) {
    loop {
        rt.block_on(yields());
        if !site.take() {
            break;
        }
    }
}
pub fn pass(rt: &tokio::runtime::Runtime, site: &mut Site, ms: u64) {
    rt.block_on(tokio::time::advance(Duration::from_millis(ms)));
    settle(rt, site);
}
pub fn digests(b: &[Batch]) -> BTreeSet<BlockHash> {
    b.iter().map(|b| b.digest()).collect()
}

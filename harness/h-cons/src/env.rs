//! A committee with its keys, the certificates of its first rounds, and one node of it.
use crate::crashdb::CrashDb;
use rand::{rngs::StdRng, SeedableRng};
use std::{
    collections::BTreeSet,
    future::Future,
    pin::Pin,
    sync::{
        atomic::{AtomicBool, Ordering::SeqCst},
        Arc, OnceLock,
    },
    task::{Context, Poll, Wake, Waker},
};
use tn_config::{Config, ConsensusConfig, KeyConfig, NetworkConfig, Parameters};
use tn_primary::{network::handler::RequestHandler, ConsensusBus, StateSynchronizer};
use tn_storage::consensus::ConsensusChain;
use tn_types::{
    Address, AuthorityIdentifier, BlsKeypair, BlsPublicKey, Certificate, Committee, CommitteeBuilder, ConsensusHeaderDigest,
    ConsensusNumHash, EpochDigest, EpochSeedMessage, ExecHeader, Hash as _, Header, HeaderBuilder, HeaderDigest, Round, SealedHeader,
    TaskManager, Vote, B256,
};

/// Keys of members and of one outsider (the last), in ascending order of the members' identifiers.
pub fn keys() -> &'static [KeyConfig] {
    static K: OnceLock<Vec<KeyConfig>> = OnceLock::new();
    K.get_or_init(|| {
        let mut v: Vec<_> = (0..8u64).map(|i| BlsKeypair::generate(&mut StdRng::seed_from_u64(900 + i))).collect();
        v.sort_by_key(|k| k.public().to_bytes());
        v.into_iter().map(KeyConfig::new_with_testing_key).collect()
    })
}
pub fn pk(i: usize) -> BlsPublicKey {
    keys()[i].primary_public_key()
}
pub fn id(i: usize) -> AuthorityIdentifier {
    pk(i).into()
}
pub fn committee(n: usize) -> Committee {
    let mut b = CommitteeBuilder::new(0);
    for i in 0..n {
        b.add_authority(pk(i), Address::repeat_byte(i as u8 + 1));
    }
    b.build()
}

/// The record of the epoch before.
pub fn record() -> EpochDigest {
    EpochDigest::from([5u8; 32])
}

pub const T0: u64 = 1_700_000_000;

/// What every node of one exploration shares. `salt` keeps the digests of explorations that run side by side apart.
pub struct World {
    pub n: usize,
    pub committee: Committee,
    pub genesis: BTreeSet<HeaderDigest>,
    pub salt: u64,
}
impl World {
    pub fn new(n: usize, salt: u64) -> Self {
        let committee = committee(n);
        let genesis = Certificate::genesis(&committee).iter().map(|c| c.digest()).collect();
        Self { n, committee, genesis, salt }
    }
    pub fn builder(&self, author: usize, round: Round, parents: BTreeSet<HeaderDigest>) -> HeaderBuilder {
        HeaderBuilder::default()
            .author(id(author))
            .round(round)
            .epoch(0)
            .created_at(T0 + 1000 * self.salt + round as u64)
            .parents(parents)
            .seed_signature(EpochSeedMessage::new(0, round, record()).sign(&keys()[author]))
    }
    pub fn header(&self, author: usize, round: Round, parents: BTreeSet<HeaderDigest>) -> Header {
        self.builder(author, round, parents).build()
    }
    pub fn certify(&self, header: &Header, signers: &[usize]) -> Certificate {
        let votes = signers.iter().map(|i| (id(*i), *Vote::new(header, id(*i), &keys()[*i]).signature())).collect();
        Certificate::new_unverified(&self.committee, header.clone(), votes).unwrap()
    }
    pub fn quorum(&self) -> usize {
        self.committee.quorum_threshold() as usize
    }
    pub fn cert(&self, author: usize, round: Round, parents: BTreeSet<HeaderDigest>) -> Certificate {
        self.certify(&self.header(author, round, parents), &(0..self.quorum()).collect::<Vec<_>>())
    }
    /// One certificate per member.
    pub fn round(&self, round: Round, parents: &BTreeSet<HeaderDigest>) -> Vec<Certificate> {
        (0..self.n).map(|a| self.cert(a, round, parents.clone())).collect()
    }
}
pub fn digests<'a>(certs: impl IntoIterator<Item = &'a Certificate>) -> BTreeSet<HeaderDigest> {
    certs.into_iter().map(|c| c.digest()).collect()
}

pub fn config(w: &World, me: usize, db: &CrashDb, tune: impl FnOnce(&mut Parameters, &mut NetworkConfig)) -> ConsensusConfig<CrashDb> {
    // made once: its ports are never used
    static CONFIG: OnceLock<Config> = OnceLock::new();
    let mut config = CONFIG.get_or_init(Config::default_for_test).clone();
    let mut net = NetworkConfig::default();
    tune(&mut config.parameters, &mut net);
    ConsensusConfig::new_with_committee_and_prior_epoch_record_for_test(config, db.clone(), keys()[me].clone(), w.committee.clone(), net, record()).unwrap()
}

pub struct Node {
    pub bus: ConsensusBus,
    pub db: CrashDb,
    pub config: ConsensusConfig<CrashDb>,
    pub sync: StateSynchronizer<CrashDb>,
    pub handler: RequestHandler<CrashDb>,
    pub tasks: TaskManager,
    pub rt: tokio::runtime::Runtime,
}
impl Node {
    pub fn start(w: &World, db: CrashDb, chain: &ConsensusChain, tune: impl FnOnce(&mut Parameters, &mut NetworkConfig)) -> Self {
        Self::start_with(w, db, chain, tune, |_| {})
    }
    /// `listen` may subscribe to channels before anything is sent.
    pub fn start_with(w: &World, db: CrashDb, chain: &ConsensusChain, tune: impl FnOnce(&mut Parameters, &mut NetworkConfig), listen: impl FnOnce(&ConsensusBus)) -> Self {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
        let config = config(w, 0, &db, tune);
        let bus = ConsensusBus::new();
        bus.app().recent_blocks().send_modify(|blocks| {
            blocks.push_latest(0, ConsensusNumHash::new(0, ConsensusHeaderDigest::default()), Some(SealedHeader::new(ExecHeader::default(), B256::default())))
        });
        listen(&bus);
        let (tasks, sync, handler) = rt.block_on(async {
            let tasks = TaskManager::default();
            let sync = StateSynchronizer::new(config.clone(), bus.clone(), tasks.get_spawner());
            sync.spawn(&tasks);
            let handler = RequestHandler::new(config.clone(), bus.app().clone(), sync.clone(), chain.clone());
            (tasks, sync, handler)
        });
        let node = Self { bus, db, config, sync, handler, tasks, rt };
        node.settle();
        node
    }
    /// Runs the node's tasks until they have nothing left to do; no time passes.
    pub fn settle(&self) {
        self.rt.block_on(async {
            for _ in 0..30 {
                tokio::task::yield_now().await;
            }
        });
    }
    pub fn advance(&self, by: std::time::Duration) {
        self.rt.block_on(tokio::time::advance(by));
        self.settle();
    }
    /// The process is gone; what of its writes is kept is up to the caller.
    pub fn crash(self) -> CrashDb {
        let Node { rt, db, .. } = self;
        rt.shutdown_background();
        db
    }
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst);
    }
}
/// A future polled only by hand.
pub struct Manual<T> {
    fut: Option<Pin<Box<dyn Future<Output = T> + Send>>>,
    flag: Arc<Flag>,
}
impl<T> Manual<T> {
    pub fn new(f: impl Future<Output = T> + Send + 'static) -> Self {
        Self { fut: Some(Box::pin(f)), flag: Arc::new(Flag(AtomicBool::new(true))) }
    }
    pub fn ready(&self) -> bool {
        self.fut.is_some() && self.flag.0.load(SeqCst)
    }
    pub fn done(&self) -> bool {
        self.fut.is_none()
    }
    pub fn poll(&mut self, rt: &tokio::runtime::Runtime) -> Option<T> {
        let _in = rt.enter();
        self.flag.0.store(false, SeqCst);
        let waker = Waker::from(self.flag.clone());
        match self.fut.as_mut()?.as_mut().poll(&mut Context::from_waker(&waker)) {
            Poll::Ready(v) => {
                self.fut = None;
                Some(v)
            }
            Poll::Pending => None,
        }
    }
}

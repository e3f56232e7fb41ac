//! A node that misses something (the real network handle and its own chain) and the peers it may ask: the real network of a
//! node that has everything, or a stranger who says what it likes.
use crate::world::{committee, keys, pk, who, World};
use futures::{AsyncReadExt as _, AsyncWriteExt as _, FutureExt as _};
use netlib::{Fate, Link};
use std::{
    collections::VecDeque,
    future::Future,
    sync::OnceLock,
    time::{Duration, Instant},
};
use tn_config::{Config, ConsensusConfig, NetworkConfig};
use tn_network_libp2p::{
    error::NetworkError, read_frame, types::{NetworkCommand, NetworkEvent, NetworkHandle}, write_frame, DenyReason, Penalty, PrimarySyncRequest,
    Stream, StreamError, SyncFrame, SyncFrameError,
};
use tn_primary::{
    network::{PrimaryNetwork, PrimaryNetworkHandle, PrimaryRequest, PrimaryResponse},
    ConsensusBus, StateSynchronizer,
};
use tn_storage::mem_db::MemDatabase;
use tn_types::{Epoch, EpochDigest, TaskManager};
use tokio::sync::mpsc;

pub type Frame = SyncFrame<PrimarySyncRequest>;
pub const FRAME: usize = 4_000_000;

#[derive(Clone, PartialEq)]
pub enum Say {
    Ack,
    Deny,
    Err,
    End,
    Req,
    Data(Vec<u8>),
    /// Bytes that are no frame.
    Noise,
}
impl std::fmt::Debug for Say {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Say::Data(d) => write!(f, "{} bytes", d.len()),
            s => f.write_str(match s {
                Say::Ack => "Ack",
                Say::Deny => "Deny",
                Say::Err => "Err",
                Say::End => "End",
                Say::Req => "Req",
                _ => "Noise",
            }),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Last {
    Closes,
    Drops,
    Silent,
}
/// What a peer does when it is asked.
#[derive(Clone, Debug)]
pub enum Peer {
    /// It follows the protocol; the connection may not.
    Honest(Fate, Fate),
    Stranger(Vec<Say>, Last),
    /// No stream comes about: the peer does not speak the protocol, or for another reason.
    Speechless,
    Gone,
    /// The request to open a stream is never answered.
    Lost,
}
pub const FINE: Peer = Peer::Honest(Fate::Fine, Fate::Fine);

pub struct Site {
    pub rt: tokio::runtime::Runtime,
    pub link: Link,
    pub handle: PrimaryNetworkHandle,
    net: mpsc::Receiver<NetworkCommand<PrimaryRequest, PrimaryResponse>>,
    pub server: mpsc::Sender<NetworkEvent<PrimaryRequest, PrimaryResponse>>,
    pub db: MemDatabase,
    pub config: ConsensusConfig<MemDatabase>,
    pub peers: Vec<Peer>,
    /// The peers streams were asked of, in order.
    pub opened: Vec<usize>,
    /// What strangers were asked.
    pub asked: Vec<Frame>,
    pub penalties: Vec<(usize, Penalty)>,
    strangers: VecDeque<(Stream, Last)>,
    keep: Vec<Stream>,
    /// The latest peer asked may leave the node waiting.
    patient: bool,
    lost: Vec<tokio::sync::oneshot::Sender<Result<Stream, NetworkError>>>,
    _tasks: TaskManager,
}
impl Site {
    /// The serving node is `truth`'s.
    pub fn new(truth: &World, epoch: Epoch) -> Self {
        static CONFIG: OnceLock<Config> = OnceLock::new();
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        let _in = rt.enter();
        let db = MemDatabase::default();
        let config = ConsensusConfig::new_with_committee_and_prior_epoch_record_for_test(
            CONFIG.get_or_init(Config::default_for_test).clone(),
            db.clone(),
            keys()[0].clone(),
            committee(epoch, 0),
            NetworkConfig::default(),
            EpochDigest::from([5u8; 32]),
        )
        .unwrap();
        let (tx, net) = mpsc::channel(10_000);
        let handle = PrimaryNetworkHandle::new_for_test(tx);
        let tasks = TaskManager::default();
        let bus = ConsensusBus::new();
        let sync = StateSynchronizer::new(config.clone(), bus.clone(), tasks.get_spawner());
        let (server, events) = mpsc::channel(1000);
        let (idle, _) = mpsc::channel(10_000);
        PrimaryNetwork::new(
            events,
            PrimaryNetworkHandle::new(NetworkHandle::new(idle), config.chain_id()),
            config.clone(),
            bus.app().clone(),
            sync,
            tasks.get_spawner(),
            truth.chain.clone(),
        )
        .spawn(&tasks.get_spawner());
        let link = Link::new();
        drop(_in);
        Self {
            rt,
            link,
            handle,
            net,
            server,
            db,
            config,
            peers: vec![],
            opened: vec![],
            asked: vec![],
            penalties: vec![],
            strangers: VecDeque::new(),
            keep: vec![],
            patient: false,
            lost: vec![],
            _tasks: tasks,
        }
    }
    pub fn streams(&mut self, there: Fate, back: Fate) -> (Stream, Stream) {
        let _in = self.rt.enter();
        self.link.open(there, back)
    }
    /// A stream a peer opened to the serving node.
    pub fn inbound(&mut self, peer: usize, stream: Stream) {
        self.server.try_send(NetworkEvent::InboundStream { peer: pk(peer), stream }).unwrap();
    }
    /// Answers what the node hands to its network layer; true if there was anything.
    pub fn take(&mut self) -> bool {
        let mut any = false;
        while let Ok(c) = self.net.try_recv() {
            any = true;
            match c {
                NetworkCommand::ConnectedPeers { reply } => {
                    let _ = reply.send((1..=self.peers.len()).map(pk).collect());
                }
                NetworkCommand::ReportPenalty { peer, penalty } => self.penalties.push((who(&peer), penalty)),
                NetworkCommand::OpenStream { peer, reply } => {
                    let p = who(&peer);
                    self.opened.push(p);
                    self.patient = !matches!(&self.peers[p - 1], Peer::Honest(there, back) if ![there, back].iter().any(|f| matches!(f, Fate::Stalls(_))));
                    match self.peers[p - 1].clone() {
                        Peer::Honest(there, back) => {
                            let (ours, theirs) = self.streams(there, back);
                            let _ = reply.send(Ok(ours));
                            self.server.try_send(NetworkEvent::InboundStream { peer: pk(5), stream: theirs }).unwrap();
                        }
                        Peer::Stranger(says, last) => {
                            let (ours, mut theirs) = self.streams(Fate::Fine, Fate::Fine);
                            let _ = reply.send(Ok(ours));
                            let (mut a, mut b) = (vec![], vec![]);
                            for s in says {
                                let f = match s {
                                    Say::Ack => Frame::Ack,
                                    Say::Deny => Frame::Deny(DenyReason::Unavailable),
                                    Say::Err => Frame::Err(SyncFrameError::Internal),
                                    Say::End => Frame::End,
                                    Say::Req => Frame::Req(PrimarySyncRequest::EpochPack { epoch: 0 }),
                                    Say::Data(d) => Frame::Data(d),
                                    Say::Noise => {
                                        let _ = theirs.write_all(&[0xff; 9]).now_or_never();
                                        continue;
                                    }
                                };
                                write_frame(&mut theirs, &f, &mut a, &mut b, FRAME).now_or_never().expect("the queue takes all").unwrap();
                                let _ = theirs.flush().now_or_never();
                            }
                            match last {
                                Last::Silent => self.strangers.push_back((theirs, last)),
                                Last::Closes => {
                                    let _ = theirs.close().now_or_never();
                                    self.strangers.push_back((theirs, last))
                                }
                                // it goes once it has heard what is asked, so that this arrives at least
                                Last::Drops => self.strangers.push_back((theirs, last)),
                            }
                        }
                        Peer::Speechless => {
                            let _ = reply.send(Err(NetworkError::Stream(StreamError::UpgradeFailed)));
                        }
                        Peer::Gone => {
                            let _ = reply.send(Err(NetworkError::Disconnected));
                        }
                        Peer::Lost => drop(reply),
                    }
                }
                _ => (),
            }
        }
        for _ in 0..self.strangers.len() {
            let (mut s, last) = self.strangers.pop_front().unwrap();
            let (mut a, mut b) = (vec![], vec![]);
            match read_frame::<_, PrimarySyncRequest>(&mut s, &mut a, &mut b, FRAME).now_or_never() {
                Some(f) => {
                    any = true;
                    self.asked.extend(f.ok());
                    if last != Last::Drops {
                        self.keep.push(s);
                    }
                }
                None => self.strangers.push_back((s, last)),
            }
        }
        any
    }
    /// Runs a request of the node to its end; time passes only while the node waits for bytes that do not come. `None` if
    /// it does not end.
    pub fn drive<T: Send + 'static>(&mut self, f: impl Future<Output = T> + Send + 'static) -> Option<T> {
        let task = self.rt.spawn(f);
        let since = Instant::now();
        let mut passed = 0;
        loop {
            for _ in 0..3 {
                self.rt.block_on(tokio::task::yield_now());
            }
            let any = self.take();
            if task.is_finished() {
                break;
            }
            if !any && self.link.waiting() {
                let mut quiet = true;
                for _ in 0..20 {
                    self.rt.block_on(tokio::task::yield_now());
                    quiet &= !self.take();
                }
                if quiet && !task.is_finished() && self.link.waiting() && self.patient {
                    self.rt.block_on(tokio::time::advance(Duration::from_secs(1)));
                    passed += 1;
                }
            } else if !any {
                std::thread::sleep(Duration::from_micros(30));
            }
            if passed > 600 || since.elapsed() > Duration::from_secs(60) {
                task.abort();
                return None;
            }
        }
        self.keep.clear();
        self.strangers.clear();
        self.rt.block_on(task).ok()
    }
}

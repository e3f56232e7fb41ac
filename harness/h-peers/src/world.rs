//! The real `PeerManager` driven through the interface the swarm drives it through, against a small stand-in
//! for the swarm: which connections are open or pending, and what the network layer does with each event.
use libp2p::{
    core::{transport::PortUse, ConnectedPoint, Endpoint},
    swarm::{
        behaviour::{ConnectionClosed, ConnectionEstablished},
        ConnectionDenied, ConnectionId, DialError, DialFailure, FromSwarm, NetworkBehaviour, ToSwarm,
    },
    Multiaddr, PeerId,
};
use rand::{rngs::StdRng, SeedableRng};
use std::{
    collections::HashSet,
    net::IpAddr,
    sync::OnceLock,
    task::{Context, Poll, Waker},
    time::Duration,
};
use tn_config::PeerConfig;
use tn_network_libp2p::{
    error::NetworkError,
    metrics::PeerManagerMetrics,
    peers::{manager::PeerManager, types::PeerEvent},
    types::{NetworkInfo, NetworkType},
    Penalty,
};
use tn_types::{BlsKeypair, BlsPublicKey, NetworkPublicKey};
use tokio::sync::oneshot;
use vstd::clock;

pub const PEERS: usize = 3;
pub const MINUTE: Duration = Duration::from_secs(60);
/// How long a ban lasts at the least, and a goodbye keeps a peer away.
pub const LOCKOUT: Duration = Duration::from_secs(30 * 60);

pub struct Who {
    pub id: PeerId,
    pub key: NetworkPublicKey,
    pub bls: BlsPublicKey,
}

/// Peers 0..PEERS act; the last is this node.
pub fn who(n: usize) -> &'static Who {
    static ALL: OnceLock<Vec<Who>> = OnceLock::new();
    &ALL.get_or_init(|| {
        (0..8u8)
            .map(|n| {
                let mut seed = [n + 1; 32];
                let kp = libp2p::identity::Keypair::ed25519_from_bytes(&mut seed).expect("key");
                let key: NetworkPublicKey = kp.public().into();
                let bls = *BlsKeypair::generate(&mut StdRng::seed_from_u64(600 + n as u64)).public();
                Who { id: key.clone().into(), key, bls }
            })
            .collect()
    })[n]
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    /// the peer opens a connection to this node
    In(usize),
    /// this node is asked to dial the peer
    Dial(usize),
    /// a dial under way succeeds, fails
    Up(usize),
    Fail(usize),
    /// every connection with the peer is closed
    Close(usize),
    /// the peer is reported: to the worst score, to the score of a disconnect, a little
    Fatal(usize),
    Bad(usize),
    Mild(usize),
    /// the peer says goodbye
    Bye(usize),
    /// time passes, then a heartbeat
    Tick(u64),
    /// the committee is peer 0, or nobody
    Committee(bool),
    /// the peer's own record arrives, binding its key
    Record(usize),
    /// a record of the second identity with the network key of the first, from its owner
    Bind(usize, usize),
    /// the operator adds the peer
    Trust(usize),
}

#[derive(Clone, Default, Debug)]
pub struct Peer {
    pub conns: usize,
    /// of those, how many are being closed
    pub closing: usize,
    /// dials under way
    pub pending: usize,
    /// last said by `Banned` and `Unbanned` events
    pub banned: bool,
    pub trusted: bool,
    /// the identity the peer showed last
    pub bls: Option<usize>,
    /// cut off by this node without being at fault
    pub cut: bool,
    /// addresses the peer's record saw it connect from, one bit each
    pub from: u8,
    /// cut off by this node, and when
    pub away: Option<Duration>,
    /// time the score last crossed the ban threshold, while the ban stands
    pub outlawed: Option<Duration>,
}

pub struct World {
    pub pm: PeerManager,
    pub peers: Vec<Peer>,
    pub ips: [u8; PEERS],
    pub committee: bool,
    pub replies: Vec<(usize, oneshot::Receiver<Result<(), NetworkError>>)>,
    pub conf: PeerConfig,
    next: usize,
    pub log: Vec<String>,
    _rt: std::rc::Rc<tokio::runtime::Runtime>,
}

thread_local! {
    static RT: std::rc::Rc<tokio::runtime::Runtime> =
        std::rc::Rc::new(tokio::runtime::Builder::new_current_thread().enable_time().build().expect("runtime"));
}

pub type Verdict = Result<(), (&'static str, String)>;

macro_rules! ensure {
    ($c:expr, $k:expr, $($a:tt)*) => { if !$c { return Err(($k, format!($($a)*))); } };
}
pub(crate) use ensure;

impl World {
    pub fn new(conf: PeerConfig, ips: [u8; PEERS]) -> Self {
        clock::reset();
        let rt = RT.with(|r| r.clone());
        let guard = rt.enter();
        let pm = PeerManager::new(who(7).id, &conf, PeerManagerMetrics::new_for(&NetworkType::Primary));
        drop(guard);
        let mut w = Self {
            pm,
            peers: vec![Peer::default(); PEERS],
            ips,
            committee: false,
            replies: Vec::new(),
            conf,
            next: 0,
            log: Vec::new(),
            _rt: rt,
        };
        w.pump();
        w.log.clear();
        w
    }
    pub fn addr(&self, p: usize) -> Multiaddr {
        format!("/ip4/10.0.0.{}/udp/{}/quic-v1", self.ips[p], 9000 + p).parse().expect("address")
    }
    pub fn ip(&self, p: usize) -> IpAddr {
        IpAddr::from([10, 0, 0, self.ips[p]])
    }
    fn cid(&mut self) -> ConnectionId {
        self.next += 1;
        ConnectionId::new_unchecked(self.next)
    }
    fn index(&self, id: &PeerId) -> Option<usize> {
        (0..PEERS).find(|p| who(*p).id == *id)
    }
    pub fn info(&self, p: usize) -> NetworkInfo {
        NetworkInfo { pubkey: who(p).key.clone(), multiaddrs: vec![self.addr(p)], timestamp: 1 + self.next as u64, rpc: None }
    }
    pub fn exempt(&self, p: usize) -> bool {
        self.peers[p].trusted || (self.committee && self.peers[p].bls == Some(0))
    }
    /// Whether the operation can happen now.
    pub fn enabled(&self, op: Op) -> bool {
        match op {
            Op::In(p) => self.peers[p].conns < 2,
            Op::Up(p) => self.peers[p].pending > 0 && self.peers[p].conns < 2,
            Op::Fail(p) => self.peers[p].pending > 0,
            Op::Close(p) | Op::Bye(p) => self.peers[p].conns > 0,
            Op::Committee(on) => self.committee != on,
            Op::Record(p) => p == 0 || self.peers[p].conns > 0,
// a record can arrive after its peer is gone
            Op::Bind(p, b) => self.peers[p].bls != Some(b),
            // the operator's peers are added before anything else happens
            Op::Trust(p) => self.pm.peer_score(&who(p).id).is_none() && self.peers[p].pending == 0,
            _ => true,
        }
    }
    /// What the network layer does with every event and dial request there is.
    pub fn pump(&mut self) {
        let rt = self._rt.clone();
        let _g = rt.enter();
        let waker = Waker::noop();
        let mut cx = Context::from_waker(waker);
        loop {
            match self.pm.poll(&mut cx) {
                Poll::Pending => return,
                Poll::Ready(ToSwarm::GenerateEvent(ev)) => self.event(ev),
                Poll::Ready(ToSwarm::Dial { opts }) => {
                    let Some(p) = opts.get_peer_id().and_then(|id| self.index(&id)) else { continue };
                    let cid = opts.connection_id();
                    // the condition of these dials is that the peer is not connected
                    if self.peers[p].conns > 0 {
                        let e = DialError::DialPeerConditionFalse(libp2p::swarm::dial_opts::PeerCondition::Disconnected);
                        self.dial_failure(p, cid, &e);
                        continue;
                    }
                    let addr = self.addr(p);
                    match self.pm.handle_pending_outbound_connection(cid, Some(who(p).id), &[addr], Endpoint::Dialer) {
                        Ok(_) => self.peers[p].pending += 1,
                        Err(cause) => self.dial_failure(p, cid, &DialError::Denied { cause }),
                    }
                }
                Poll::Ready(_) => {}
            }
        }
    }
    fn dial_failure(&mut self, p: usize, connection_id: ConnectionId, error: &DialError) {
        self.pm.on_swarm_event(FromSwarm::DialFailure(DialFailure { peer_id: Some(who(p).id), error, connection_id }));
    }
    fn event(&mut self, ev: PeerEvent) {
        match ev {
            PeerEvent::DisconnectPeer(id) | PeerEvent::DisconnectPeerX(id, _) => {
                if let Some(p) = self.index(&id) {
                    self.log.push(format!("disconnect {p}"));
                    let live = self.peers[p].conns > self.peers[p].closing;
                    self.peers[p].closing = self.peers[p].conns;
                    self.peers[p].cut = true;
                    if live && !self.exempt(p) && self.conf.max_temporarily_banned_peers >= PEERS {
                        self.peers[p].away = Some(clock::now());
                    }
                }
            }
            PeerEvent::PeerConnected(id, _) => {
                if let Some(p) = self.index(&id) {
                    self.log.push(format!("connected {p}"));
                }
            }
            PeerEvent::PeerDisconnected(id) => {
                if let Some(p) = self.index(&id) {
                    self.log.push(format!("disconnected {p}"));
                }
            }
            PeerEvent::Banned(id) => {
                if let Some(p) = self.index(&id) {
                    self.log.push(format!("banned {p}"));
                    self.peers[p].banned = true;
                }
            }
            PeerEvent::Unbanned(id) => {
                if let Some(p) = self.index(&id) {
                    self.log.push(format!("unbanned {p}"));
                    self.peers[p].banned = false;
                }
            }
            PeerEvent::MissingAuthorities(_) | PeerEvent::Discovery => {}
        }
    }
    fn established(&mut self, p: usize, endpoint: ConnectedPoint) {
        let connection_id = self.cid();
        self.peers[p].from |= 1 << self.ips[p];
        let other_established = self.peers[p].conns;
        self.peers[p].conns += 1;
        self.pm.on_swarm_event(FromSwarm::ConnectionEstablished(ConnectionEstablished {
            peer_id: who(p).id,
            connection_id,
            endpoint: &endpoint,
            failed_addresses: &[],
            other_established,
        }));
    }
    /// Whether a new connection of the peer is let in, which then opens.
    pub fn incoming(&mut self, p: usize) -> bool {
        let (addr, local): (Multiaddr, Multiaddr) = (self.addr(p), "/ip4/10.1.1.1/udp/1/quic-v1".parse().expect("address"));
        let cid = self.cid();
        let r: Result<(), ConnectionDenied> = self.pm.handle_pending_inbound_connection(cid, &local, &addr);
        if r.is_err() || self.pm.handle_established_inbound_connection(cid, who(p).id, &local, &addr).is_err() {
            return false;
        }
        self.established(p, ConnectedPoint::Listener { local_addr: local, send_back_addr: addr });
        true
    }
    pub fn dial(&mut self, p: usize) {
        let (tx, rx) = oneshot::channel();
        self.pm.dial_peer(who(p).id, vec![self.addr(p)], Some(tx));
        self.replies.push((p, rx));
        self.pump();
    }
    /// A dial under way reaches its peer; whether the connection opens.
    pub fn up(&mut self, p: usize) -> bool {
        self.peers[p].pending -= 1;
        let (cid, addr) = (self.cid(), self.addr(p));
        match self.pm.handle_established_outbound_connection(cid, who(p).id, &addr, Endpoint::Dialer, PortUse::New) {
            Ok(_) => {
                self.established(p, ConnectedPoint::Dialer { address: addr, role_override: Endpoint::Dialer, port_use: PortUse::New });
                true
            }
            Err(cause) => {
                self.dial_failure(p, cid, &DialError::Denied { cause });
                false
            }
        }
    }
    /// The connections being closed, or all if none is, are closed.
    pub fn close(&mut self, p: usize) {
        let endpoint = ConnectedPoint::Dialer { address: self.addr(p), role_override: Endpoint::Dialer, port_use: PortUse::New };
        let n = if self.peers[p].closing > 0 { self.peers[p].closing } else { self.peers[p].conns };
        for _ in 0..n {
            self.peers[p].conns -= 1;
            let connection_id = self.cid();
            self.pm.on_swarm_event(FromSwarm::ConnectionClosed(ConnectionClosed {
                peer_id: who(p).id,
                connection_id,
                endpoint: &endpoint,
                cause: None,
                remaining_established: self.peers[p].conns,
            }));
        }
        self.peers[p].closing = 0;
        self.pump();
    }
    /// Time passes, more than enough for a connection being closed if it is a minute, and a heartbeat.
    pub fn tick(&mut self, d: Duration) {
        for p in 0..PEERS {
            if self.peers[p].closing > 0 && d > MINUTE {
                self.close(p);
            }
            while self.peers[p].pending > 0 && d > MINUTE {
                self.fail(p);
            }
        }
        clock::advance(d);
        self.pm.heartbeat();
        self.pump();
    }
    pub fn penalty(&mut self, p: usize, kind: Penalty) {
        self.pm.process_penalty(who(p).id, kind);
        self.pump();
    }
    pub fn committee(&mut self, on: bool) {
        self.committee = on;
        let set: HashSet<BlsPublicKey> = if on { HashSet::from([who(0).bls]) } else { HashSet::new() };
        self.pm.update_committees(HashSet::new(), set, HashSet::new());
        self.pump();
    }
    /// A dial under way fails.
    pub fn fail(&mut self, p: usize) {
        self.peers[p].pending -= 1;
        let cid = self.cid();
        self.dial_failure(p, cid, &DialError::Aborted);
        self.pump();
    }
    /// The peer's goodbye arrives.
    pub fn bye(&mut self, p: usize) {
        self.pm.disconnect_peer(who(p).id, false);
        self.pump();
    }
    /// A record of the identity arrives from the peer whose network key it names.
    pub fn bind(&mut self, p: usize, b: usize) {
        self.next += 1;
        let info = self.info(p);
        self.pm.add_self_advertised_peer(who(p).id, who(b).bls, info);
        self.bound(p, b);
        self.pump();
    }
    pub fn trust(&mut self, p: usize) {
        let (tx, rx) = oneshot::channel();
        let info = self.info(p);
        self.pm.add_trusted_peer_and_dial(who(p).bls, info, tx);
        self.peers[p].trusted = true;
        self.bound(p, p);
        self.replies.push((p, rx));
        self.pump();
    }
    fn bound(&mut self, p: usize, b: usize) {
        for q in 0..PEERS {
            if q != p && self.peers[q].bls == Some(b) {
                self.peers[q].bls = None;
            }
        }
        self.peers[p].bls = Some(b);
    }
}

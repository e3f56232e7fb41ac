//! Real `libp2p` streams between two peers of one process: two swarms, each with the repository's stream behaviour, joined by
//! a connection made of byte queues. A queue can be told to break or to stall once a number of bytes went through.
use futures::{
    future::{ready, Ready},
    io::{AsyncRead, AsyncWrite},
    FutureExt, StreamExt,
};
use libp2p::{
    core::{
        muxing::{StreamMuxer, StreamMuxerBox, StreamMuxerEvent},
        transport::{DialOpts, ListenerId, Transport, TransportError, TransportEvent},
    },
    identity::Keypair,
    swarm::{Config, SwarmEvent},
    Multiaddr, PeerId, Stream, StreamProtocol, Swarm,
};
use parking_lot::Mutex;
use std::{
    collections::VecDeque,
    io,
    pin::Pin,
    sync::Arc,
    task::{Context, Poll, Waker},
    time::Duration,
};
use tn_network_libp2p::stream::behavior::{StreamBehavior, StreamEvent};

/// What becomes of the bytes one side sends.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fate {
    Fine,
    /// The stream breaks after this many bytes.
    Breaks(usize),
    /// The reader sees an orderly end after this many bytes.
    Ends(usize),
    /// Nothing arrives after this many bytes.
    Stalls(usize),
}
#[derive(Default)]
struct Queue {
    bytes: VecDeque<u8>,
    sent: usize,
    closed: bool,
    broken: bool,
    fate: Option<Fate>,
    reader: Option<Waker>,
}
impl Queue {
    fn wake(&mut self) {
        if let Some(w) = self.reader.take() {
            w.wake();
        }
    }
}
type Q = Arc<Mutex<Queue>>;
struct Pipe {
    read: Q,
    write: Q,
}
impl AsyncRead for Pipe {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut q = self.read.lock();
        if !q.bytes.is_empty() {
            let n = buf.len().min(q.bytes.len());
            for (to, from) in buf.iter_mut().zip(q.bytes.drain(..n)) {
                *to = from;
            }
            return Poll::Ready(Ok(n));
        }
        if q.broken {
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        if q.closed {
            return Poll::Ready(Ok(0));
        }
        q.reader = Some(cx.waker().clone());
        Poll::Pending
    }
}
impl AsyncWrite for Pipe {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut q = self.write.lock();
        if q.broken || q.closed {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let (cut, sent) = match q.fate {
            Some(Fate::Breaks(n) | Fate::Ends(n) | Fate::Stalls(n)) => (n, q.sent),
            _ => (usize::MAX, 0),
        };
        let pass = buf.len().min(cut.saturating_sub(sent));
        q.bytes.extend(&buf[..pass]);
        if q.fate.is_some() {
            q.sent += buf.len();
        }
        if pass < buf.len() {
            match q.fate {
                Some(Fate::Breaks(_)) => q.broken = true,
                Some(Fate::Ends(_)) => q.closed = true,
                _ => (),
            }
        }
        q.wake();
        Poll::Ready(Ok(buf.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut q = self.write.lock();
        let stalled = matches!(q.fate, Some(Fate::Stalls(n)) if q.sent >= n);
        q.closed |= !stalled;
        q.wake();
        Poll::Ready(Ok(()))
    }
}
impl Drop for Pipe {
    fn drop(&mut self) {
        let mut q = self.write.lock();
        let stalled = matches!(q.fate, Some(Fate::Stalls(n)) if q.sent >= n);
        q.broken |= !q.closed && !stalled;
        q.wake();
        drop(q);
        self.read.lock().broken = true;
    }
}

#[derive(Default)]
struct Inbox {
    streams: VecDeque<Pipe>,
    waker: Option<Waker>,
    /// The queues of the streams opened towards this side, in order: what the opener writes, and what this side writes.
    seen: Vec<(Q, Q)>,
}
struct Mux {
    mine: Arc<Mutex<Inbox>>,
    theirs: Arc<Mutex<Inbox>>,
}
impl StreamMuxer for Mux {
    type Substream = Pipe;
    type Error = io::Error;
    fn poll_inbound(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<Pipe>> {
        let mut i = self.mine.lock();
        match i.streams.pop_front() {
            Some(p) => Poll::Ready(Ok(p)),
            None => {
                i.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
    fn poll_outbound(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<Pipe>> {
        let (out, back) = (Q::default(), Q::default());
        let mut i = self.theirs.lock();
        i.seen.push((out.clone(), back.clone()));
        i.streams.push_back(Pipe { read: out.clone(), write: back.clone() });
        if let Some(w) = i.waker.take() {
            w.wake();
        }
        Poll::Ready(Ok(Pipe { read: back, write: out }))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<StreamMuxerEvent>> {
        Poll::Pending
    }
}

type Made = Result<(PeerId, StreamMuxerBox), io::Error>;
/// One side's transport: the dialling side has a connection to hand out, the listening side one to accept.
struct Wire {
    out: Option<(PeerId, StreamMuxerBox)>,
    in_: Option<(PeerId, StreamMuxerBox)>,
    listener: Option<ListenerId>,
    announced: bool,
}
fn addr(port: u64) -> Multiaddr {
    format!("/memory/{port}").parse().unwrap()
}
impl Transport for Wire {
    type Output = (PeerId, StreamMuxerBox);
    type Error = io::Error;
    type ListenerUpgrade = Ready<Made>;
    type Dial = Ready<Made>;
    fn listen_on(&mut self, id: ListenerId, _: Multiaddr) -> Result<(), TransportError<io::Error>> {
        self.listener = Some(id);
        Ok(())
    }
    fn remove_listener(&mut self, _: ListenerId) -> bool {
        false
    }
    fn dial(&mut self, _: Multiaddr, _: DialOpts) -> Result<Ready<Made>, TransportError<io::Error>> {
        Ok(ready(self.out.take().ok_or_else(|| io::ErrorKind::ConnectionRefused.into())))
    }
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<TransportEvent<Ready<Made>, io::Error>> {
        let Some(listener_id) = self.listener else { return Poll::Pending };
        if !self.announced {
            self.announced = true;
            return Poll::Ready(TransportEvent::NewAddress { listener_id, listen_addr: addr(1) });
        }
        match self.in_.take() {
            Some(c) => Poll::Ready(TransportEvent::Incoming { listener_id, upgrade: ready(Ok(c)), local_addr: addr(1), send_back_addr: addr(2) }),
            None => Poll::Pending,
        }
    }
}

/// Two connected peers.
pub struct Link {
    a: Swarm<StreamBehavior>,
    b: Swarm<StreamBehavior>,
    inbox: Arc<Mutex<Inbox>>,
    opened: usize,
}
fn peer(seed: u8) -> PeerId {
    Keypair::ed25519_from_bytes([seed; 32]).unwrap().public().to_peer_id()
}
impl Link {
    /// Must run inside a tokio runtime.
    pub fn new() -> Self {
        let (at_a, at_b) = (Arc::new(Mutex::new(Inbox::default())), Arc::new(Mutex::new(Inbox::default())));
        let a_mux = StreamMuxerBox::new(Mux { mine: at_a.clone(), theirs: at_b.clone() });
        let b_mux = StreamMuxerBox::new(Mux { mine: at_b.clone(), theirs: at_a });
        let swarm = |wire: Wire, me| {
            let behaviour = StreamBehavior::new(StreamProtocol::new("/model-checked/sync/1"));
            Swarm::new(wire.boxed(), behaviour, me, Config::without_executor().with_idle_connection_timeout(Duration::from_secs(100_000_000)))
        };
        let mut a = swarm(Wire { out: Some((peer(2), a_mux)), in_: None, listener: None, announced: false }, peer(1));
        let mut b = swarm(Wire { out: None, in_: Some((peer(1), b_mux)), listener: None, announced: false }, peer(2));
        b.listen_on(addr(1)).unwrap();
        a.dial(addr(1)).unwrap();
        Self { a, b, inbox: at_b, opened: 0 }
    }
    /// A fresh stream: its opener's end and the other. What the opener sends meets `there`, what comes back meets `back`.
    pub fn open(&mut self, there: Fate, back: Fate) -> (Stream, Stream) {
        self.opened += 1;
        if self.opened > 200 {
            // the behaviour limits how many streams a peer may open at a time
            *self = Self { opened: 1, ..Self::new() };
        }
        let mut reply: Option<tokio::sync::oneshot::Receiver<_>> = None;
        let (mut ours, mut theirs) = (None, None);
        let waker = futures::task::noop_waker();
        let cx = &mut Context::from_waker(&waker);
        for _ in 0..10_000 {
            while let Poll::Ready(Some(e)) = self.a.poll_next_unpin(cx) {
                if let SwarmEvent::ConnectionEstablished { .. } = e {}
            }
            while let Poll::Ready(Some(e)) = self.b.poll_next_unpin(cx) {
                if let SwarmEvent::Behaviour(StreamEvent::InboundStream { stream, .. }) = e {
                    theirs = Some(stream);
                }
            }
            match &mut reply {
                None if self.a.is_connected(&peer(2)) && self.b.is_connected(&peer(1)) => {
                    let (tx, rx) = tokio::sync::oneshot::channel();
                    self.a.behaviour_mut().open_stream(peer(2), vec![], tx);
                    reply = Some(rx);
                }
                None => (),
                Some(rx) if ours.is_none() => {
                    if let Some(r) = rx.now_or_never() {
                        ours = Some(r.expect("an answer").expect("a stream"));
                    }
                }
                _ => (),
            }
            if ours.is_some() && theirs.is_some() {
                let i = self.inbox.lock();
                let (out, in_) = i.seen.last().unwrap();
                for (q, fate) in [(out, there), (in_, back)] {
                    if fate != Fate::Fine {
                        let mut q = q.lock();
                        q.fate = Some(fate);
                        q.sent = 0;
                    }
                }
                return (ours.unwrap(), theirs.unwrap());
            }
        }
        panic!("no stream came about")
    }
    /// Whether the opener of the latest stream waits for bytes.
    pub fn waiting(&self) -> bool {
        self.inbox.lock().seen.last().is_some_and(|(_, back)| {
            let q = back.lock();
            q.bytes.is_empty() && !q.closed && !q.broken && q.reader.is_some()
        })
    }
}
impl Default for Link {
    fn default() -> Self {
        Self::new()
    }
}

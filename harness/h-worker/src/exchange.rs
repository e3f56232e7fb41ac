//! W03: batches on their way from the nodes that hold them to one that misses some.
use crate::env::{batch, committee, digests, keys, pk, runtime, settle, Site, Verdict, Wanted, EPOCH};
use futures::{AsyncReadExt as _, AsyncWriteExt as _, FutureExt as _};
use netlib::{Fate, Link};
use std::{collections::BTreeSet, time::Duration};
use tn_network_libp2p::{
    error::NetworkError, read_frame, types::NetworkEvent, write_frame, DenyReason, Stream, StreamError, SyncFrame, SyncFrameError, WorkerSyncRequest,
};
use tn_storage::consensus::ConsensusChain;
use tn_types::{encode, Batch, BlockHash};
use vlib::{
    explore::{bits, seq_count, seq_of, subsets},
    par, Run, Scratch,
};

type Frame = SyncFrame<WorkerSyncRequest>;
const FRAME: usize = 4_000_000;

/// What a peer that does not follow the protocol says, piece by piece.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Say {
    Ack,
    Deny,
    Err,
    End,
    First,
    Second,
    Unasked,
    Garbage,
    Req,
}
const SAY: [Say; 9] = [Say::Ack, Say::End, Say::First, Say::Second, Say::Unasked, Say::Garbage, Say::Deny, Say::Err, Say::Req];
/// What follows the pieces.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Last {
    Closes,
    Drops,
    Silent,
}
impl Say {
    fn frame(self, b: &[Batch]) -> Frame {
        match self {
            Say::Ack => Frame::Ack,
            Say::Deny => Frame::Deny(DenyReason::Unavailable),
            Say::Err => Frame::Err(SyncFrameError::Internal),
            Say::End => Frame::End,
            Say::First => Frame::Data(encode(&b[0])),
            Say::Second => Frame::Data(encode(&b[1])),
            Say::Unasked => Frame::Data(encode(&b[2])),
            Say::Garbage => Frame::Data(vec![0xff; 9]),
            Say::Req => Frame::Req(WorkerSyncRequest::Batches { batch_digests: digests(b), epoch: EPOCH }),
        }
    }
}

/// A stranger's end of a stream.
struct Far {
    rt: std::rc::Rc<tokio::runtime::Runtime>,
    stream: Stream,
}
impl Far {
    fn send(&mut self, f: &Frame) {
        let (mut a, mut b) = (vec![], vec![]);
        let _ = self.rt.block_on(write_frame(&mut self.stream, f, &mut a, &mut b, FRAME));
        let _ = self.rt.block_on(self.stream.flush());
    }
    fn raw(&mut self, bytes: &[u8]) {
        let _ = self.rt.block_on(self.stream.write_all(bytes));
        let _ = self.rt.block_on(self.stream.flush());
    }
    /// What has arrived so far; true if the stream has come to an end.
    fn heard(&mut self) -> (Vec<Frame>, bool) {
        let (mut all, mut ended) = (vec![], false);
        let mut buf = [0; 4096];
        loop {
            match self.stream.read(&mut buf).now_or_never() {
                Some(Ok(0)) | Some(Err(_)) => {
                    ended = true;
                    break;
                }
                Some(Ok(n)) => all.extend_from_slice(&buf[..n]),
                None => break,
            }
        }
        let mut frames = vec![];
        let mut rest = futures::io::Cursor::new(all);
        let (mut a, mut b) = (vec![], vec![]);
        while let Some(Ok(f)) = read_frame::<_, WorkerSyncRequest>(&mut rest, &mut a, &mut b, FRAME).now_or_never() {
            frames.push(f);
        }
        (frames, ended)
    }
}

/// A node that misses batches (`sites[0]`) and others that may hold them.
struct Net {
    rt: std::rc::Rc<tokio::runtime::Runtime>,
    link: Link,
    sites: Vec<Site>,
}
impl Net {
    fn new(chain: &ConsensusChain, nodes: usize) -> Self {
        let rt = std::rc::Rc::new(runtime());
        let _in = rt.enter();
        let sites = (0..nodes).map(|i| Site::new(4, i, chain, Duration::from_secs(5))).collect();
        let link = Link::new();
        drop(_in);
        Self { rt, link, sites }
    }
    fn settle(&mut self) {
        for _ in 0..2 {
            for s in &mut self.sites {
                settle(&self.rt, s);
            }
        }
    }
    fn pass(&mut self, ms: u64) {
        self.rt.block_on(tokio::time::advance(Duration::from_millis(ms)));
        self.settle();
    }
    fn streams(&mut self, there: Fate, back: Fate) -> (Stream, Stream) {
        let _in = self.rt.enter();
        self.link.open(there, back)
    }
    /// Joins what the first node asked for with the node it asked.
    fn join(&mut self, w: Wanted, there: Fate, back: Fate) {
        let (ours, theirs) = self.streams(there, back);
        let to = self.sites.iter().position(|s| s.me == w.peer).unwrap();
        let _ = w.reply.send(Ok(ours));
        self.sites[to].events.try_send(NetworkEvent::InboundStream { peer: pk(self.sites[0].me), stream: theirs }).unwrap();
        self.settle();
    }
    fn stranger(&mut self, w: Wanted) -> Far {
        let (ours, theirs) = self.streams(Fate::Fine, Fate::Fine);
        let _ = w.reply.send(Ok(ours));
        self.settle();
        Far { rt: self.rt.clone(), stream: theirs }
    }
    /// A stream a stranger opens to a node.
    fn visit(&mut self, to: usize, from: usize) -> Far {
        let (ours, theirs) = self.streams(Fate::Fine, Fate::Fine);
        self.sites[to].events.try_send(NetworkEvent::InboundStream { peer: pk(from), stream: theirs }).unwrap();
        self.settle();
        Far { rt: self.rt.clone(), stream: ours }
    }
    #[allow(clippy::type_complexity)]
    fn ask(&mut self, missing: &BTreeSet<BlockHash>) -> tokio::task::JoinHandle<(Result<Vec<(BlockHash, Batch)>, NetworkError>, BTreeSet<BlockHash>)> {
        let (h, mut m) = (self.sites[0].handle.clone(), missing.clone());
        let job = self.rt.spawn(async move {
            let r = h.request_batches(&mut m).await;
            (r, m)
        });
        self.settle();
        job
    }
}

/// What a request returned is what was asked for, and nothing else.
fn sound(run: &Run, asked: &BTreeSet<BlockHash>, got: &Result<Vec<(BlockHash, Batch)>, NetworkError>, left: &BTreeSet<BlockHash>, replay: &str) -> BTreeSet<BlockHash> {
    let empty = vec![];
    let list = got.as_ref().unwrap_or(&empty);
    let mut have = BTreeSet::new();
    for (d, b) in list {
        if !asked.contains(d) {
            run.fail("unasked", format!("{d} was not asked for"), replay);
        }
        if b.digest() != *d {
            run.fail("forged", format!("what is returned as {d} is {}", b.digest()), replay);
        }
        if !have.insert(*d) {
            run.fail("twice", format!("{d} is returned twice"), replay);
        }
    }
    if *left != asked - &have {
        run.fail("left", format!("of {asked:?}, {have:?} were returned and {left:?} are still called missing"), replay);
    }
    have
}

fn pool() -> Vec<Batch> {
    (0..4).map(|i| batch(i, Verdict::Valid, EPOCH)).collect()
}

/// Honest holders: every way three batches can be spread over two nodes, every request, and a connection that fails at any point.
fn honest(run: &Run, chain: &ConsensusChain, spread: usize, ask: u64, fate: (Fate, Fate)) {
    let b = pool();
    let mut net = Net::new(chain, 3);
    for i in bits(spread as u64) {
        net.sites[1 + i / 4].hold(&b[i % 4]);
    }
    net.sites[0].connected = Some(vec![1, 2]);
    let asked: BTreeSet<_> = bits(ask).into_iter().map(|i| b[i].digest()).collect();
    let replay = format!("nodes hold {spread:08b}, asked for {ask:04b}, first connection {fate:?}");
    let job = net.ask(&asked);
    let mut first = true;
    for _ in 0..60 {
        while let Some(w) = (!net.sites[0].wanted.is_empty()).then(|| net.sites[0].wanted.remove(0)) {
            run.step(1);
            let (there, back) = if first { fate } else { (Fate::Fine, Fate::Fine) };
            first = false;
            net.join(w, there, back);
        }
        if job.is_finished() {
            break;
        }
        net.pass(500);
    }
    if !job.is_finished() {
        return run.fail("endless", "a request for batches does not end", &replay);
    }
    let (got, left) = net.rt.block_on(job).unwrap();
    let have = sound(run, &asked, &got, &left, &replay);
    let held: BTreeSet<_> = bits(spread as u64).into_iter().map(|i| b[i % 4].digest()).collect();
    let reachable: BTreeSet<_> = if fate == (Fate::Fine, Fate::Fine) {
        held
    } else {
        // whoever is asked first answers over the bad connection; what both or the other hold arrives
        (0..4).filter(|i| spread >> i & spread >> (i + 4) & 1 == 1).map(|i| b[i].digest()).collect()
    };
    if !reachable.iter().filter(|d| asked.contains(*d)).all(|d| have.contains(d)) {
        run.fail("missed", format!("a peer holds what is missing, and it is not returned: {have:?}"), &replay);
    }
    run.state(&replay);
    run.trace();
    run.outcome(match (&got, have.len() == asked.len()) {
        (Err(_), _) => "nothing",
        (_, true) => "all",
        _ => "some",
    });
}

/// A peer that says anything, followed by an honest one that holds everything.
fn hostile(run: &Run, chain: &ConsensusChain, say: &[Say], last: Last) {
    let b = pool();
    let mut net = Net::new(chain, 3);
    for x in &b[..2] {
        net.sites[2].hold(x);
    }
    net.sites[0].connected = Some(vec![1, 2]);
    let asked = digests(&b[..2]);
    let replay = format!("asked for the first and the second, a peer says {say:?} and then {last:?}");
    let job = net.ask(&asked);
    let Some(w) = net.sites[0].wanted.pop() else { return run.fail("no-request", "no peer is asked", &replay) };
    let mut far = net.stranger(w);
    match far.heard().0.as_slice() {
        [Frame::Req(WorkerSyncRequest::Batches { batch_digests, epoch: EPOCH })] if *batch_digests == asked => (),
        f => run.fail("request", format!("the peer is asked {f:?}"), &replay),
    }
    for s in say {
        far.send(&s.frame(&b));
        net.settle();
    }
    run.step(say.len() as u64);
    match last {
        Last::Closes => {
            let _ = net.rt.block_on(far.stream.close());
        }
        Last::Drops => drop(far),
        Last::Silent => {
            net.settle();
            if net.sites[0].wanted.is_empty() && !job.is_finished() {
                net.pass(10_000);
            }
            std::mem::forget(far);
        }
    }
    net.settle();
    // the peer's word is good only if it sent what was asked for, once, and said that this was all
    let body: Vec<_> = say.iter().copied().skip(1).take_while(|s| *s != Say::End).collect();
    let good = say.first() == Some(&Say::Ack) && say.contains(&Say::End) && body.iter().all(|s| matches!(s, Say::First | Say::Second)) && body.iter().collect::<Vec<_>>().windows(2).all(|w| w[0] != w[1]) && body.len() <= 2;
    let want: BTreeSet<_> = if good { asked.iter().copied().filter(|d| !body.iter().any(|s| b[usize::from(*s == Say::Second)].digest() == *d)).collect() } else { asked.clone() };
    match net.sites[0].wanted.pop() {
        Some(w) => {
            let mut second = net.stranger(w);
            match second.heard().0.as_slice() {
                [Frame::Req(WorkerSyncRequest::Batches { batch_digests, .. })] if *batch_digests == want => (),
                f => run.fail("asked-next", format!("the next peer is asked {f:?}, and {want:?} is missing"), &replay),
            }
            second.send(&Frame::Ack);
            for x in b[..2].iter().filter(|x| want.contains(&x.digest())) {
                second.send(&Frame::Data(encode(x)));
            }
            second.send(&Frame::End);
            net.settle();
        }
        None if want.is_empty() => (),
        None => run.fail("gave-up", format!("{want:?} is missing, and the next peer is not asked"), &replay),
    }
    if !job.is_finished() {
        return run.fail("endless", "a request for batches does not end", &replay);
    }
    let (got, left) = net.rt.block_on(job).unwrap();
    if sound(run, &asked, &got, &left, &replay) != asked {
        run.fail("missed", "a peer holds what is missing, and it is not returned", &replay);
    }
    run.state(&replay);
    run.trace();
}

/// What a peer asks of a node that holds the first two batches, and what it is served.
fn served(run: &Run, chain: &ConsensusChain, first: &[Say], extra: &str) {
    let b = pool();
    let mut net = Net::new(chain, 1);
    for x in &b[..2] {
        net.sites[0].hold(x);
    }
    let replay = format!("a peer opens a stream and says {first:?} {extra}");
    let mut far = net.visit(0, 3);
    for s in first {
        far.send(&s.frame(&b));
    }
    if extra == "bytes that are no frame" {
        far.raw(&[0xff; 64]);
    }
    if extra == "and closes" {
        let _ = net.rt.block_on(far.stream.close());
    }
    net.settle();
    let (mut heard, mut ended) = far.heard();
    if !ended {
        net.pass(6_000);
        let (h, e) = far.heard();
        heard.extend(h);
        ended = e;
    }
    let data: Vec<_> = heard.iter().filter_map(|f| if let Frame::Data(d) = f { Some(d.clone()) } else { None }).collect();
    let mine: BTreeSet<_> = b[..2].iter().map(encode).collect();
    let fine = match first.first() {
        Some(Say::Req) => heard.first() == Some(&Frame::Ack) && heard.last() == Some(&Frame::End) && data.len() == 2 && data.iter().cloned().collect::<BTreeSet<_>>() == mine,
        _ => data.is_empty() && !heard.contains(&Frame::Ack),
    };
    if !fine {
        run.fail("served", format!("the peer is sent {heard:?}"), &replay);
    }
    if !ended {
        run.fail("held-open", "the stream is still open after six seconds", &replay);
    }
    run.step(1);
    run.state(&replay);
    run.trace();
}

/// How much a node serves at once: every history of peers that open streams, ask, and leave.
fn crowd(run: &Run, chain: &ConsensusChain, history: &[usize], peers: usize) {
    let b = pool();
    let mut net = Net::new(chain, 1);
    net.sites[0].hold(&b[0]);
    // (peer, stream) of those that have not asked yet
    let mut open: Vec<(usize, Far)> = vec![];
    let replay = || format!("{:?}", history.iter().map(|h| if *h < peers { format!("peer {h} opens") } else if *h == peers { "the oldest asks".into() } else if *h == peers + 1 { "the newest leaves".into() } else { "six seconds pass".into() }).collect::<Vec<_>>());
    let ask = Frame::Req(WorkerSyncRequest::Batches { batch_digests: digests(&b[..1]), epoch: EPOCH });
    for h in history {
        run.step(1);
        if *h < peers {
            let admitted = open.len() < tn_worker::MAX_CONCURRENT_BATCH_STREAMS && open.iter().filter(|(p, _)| p == h).count() < tn_worker::MAX_PENDING_REQUESTS_PER_PEER;
            let mut far = net.visit(0, *h + 1);
            let (heard, ended) = far.heard();
            let denied = heard == [Frame::Deny(DenyReason::AtCapacity)] && ended;
            if denied == admitted || admitted && (!heard.is_empty() || ended) {
                run.fail("admission", format!("with {} streams open, {} of them this peer's, it hears {heard:?}", open.len(), open.iter().filter(|(p, _)| p == h).count()), replay());
            }
            if !denied {
                open.push((*h, far));
            }
        } else if *h == peers && !open.is_empty() {
            let (_, mut far) = open.remove(0);
            far.send(&ask);
            net.settle();
            let (heard, ended) = far.heard();
            if heard != [Frame::Ack, Frame::Data(encode(&b[0])), Frame::End] || !ended {
                run.fail("served", format!("a peer that was let in is sent {heard:?}"), replay());
            }
        } else if *h == peers + 1 {
            drop(open.pop());
            net.settle();
        } else if *h == peers + 2 {
            net.pass(6_000);
            for (_, mut far) in open.drain(..) {
                let (heard, ended) = far.heard();
                if !heard.is_empty() || !ended {
                    run.fail("lingers", format!("a peer that asks nothing for six seconds is still there: {heard:?}"), replay());
                }
            }
        }
    }
    run.state(history);
    run.trace();
}

/// Peers that do not speak the protocol are left alone for the epoch, others are asked again.
fn capability(run: &Run, chain: &ConsensusChain, history: &[usize]) {
    let b = pool();
    let mut net = Net::new(chain, 1);
    net.sites[0].connected = Some(vec![1]);
    let asked = digests(&b[..1]);
    let mut unsupported = false;
    let replay = format!("{:?}", history.iter().map(|h| ["does not speak it", "cannot be reached", "is too busy", "serves", "a new epoch begins"][*h]).collect::<Vec<_>>());
    for h in history {
        run.step(1);
        if *h == 4 {
            let e = net.sites[0].handle.epoch();
            net.sites[0].handle.update_epoch(e + 1);
            unsupported = false;
            continue;
        }
        let job = net.ask(&asked);
        let mut opened = 0;
        for _ in 0..10 {
            while let Some(w) = net.sites[0].wanted.pop() {
                opened += 1;
                match h {
                    0 => {
                        let _ = w.reply.send(Err(NetworkError::Stream(StreamError::UpgradeFailed)));
                    }
                    1 => {
                        let _ = w.reply.send(Err(NetworkError::Stream(StreamError::NotConnected)));
                    }
                    _ => {
                        let mut far = net.stranger(w);
                        if *h == 2 {
                            far.send(&Frame::Deny(DenyReason::AtCapacity));
                        } else {
                            far.send(&Frame::Ack);
                            far.send(&Frame::Data(encode(&b[0])));
                            far.send(&Frame::End);
                        }
                    }
                }
                net.settle();
            }
            if job.is_finished() {
                break;
            }
            net.pass(500);
        }
        if !job.is_finished() {
            return run.fail("endless", "a request for batches does not end", &replay);
        }
        let (got, left) = net.rt.block_on(job).unwrap();
        let have = sound(run, &asked, &got, &left, &replay);
        if (opened == 0) != unsupported {
            run.fail("asked-again", format!("the peer is asked {opened} times, and {} speak the protocol", if unsupported { "is known not to" } else { "may" }), &replay);
        }
        if *h == 3 && !unsupported && have != asked {
            run.fail("missed", "the peer serves what is missing, and it is not returned", &replay);
        }
        if *h == 0 {
            unsupported = true;
        }
    }
    run.state(history);
    run.trace();
}

pub fn w03(run: &Run) {
    let _ = keys();
    let scratch = Scratch::new();
    let chain = ConsensusChain::new(scratch.path().to_path_buf(), committee(4, 0)).unwrap();
    let chain = &chain;
    let deep = run.thorough();
    let mut jobs: Vec<Box<dyn Fn() + Sync + Send + '_>> = vec![];
    for spread in 0..256 {
        for ask in subsets(4).filter(|a| *a != 0) {
            jobs.push(Box::new(move || honest(run, chain, spread, ask, (Fate::Fine, Fate::Fine))));
        }
    }
    run.bound("batches, nodes that may hold them", "4, 2");
    // a broken connection, byte by byte
    let cuts = if deep { 1 } else { 3 };
    for (spread, ask) in [(0b0111_0111, 0b0111), (0b1011_0011, 0b1111)] {
        for n in (0..480).step_by(cuts) {
            for f in [Fate::Breaks(n), Fate::Ends(n), Fate::Stalls(n)] {
                jobs.push(Box::new(move || honest(run, chain, spread, ask, (f, Fate::Fine))));
                jobs.push(Box::new(move || honest(run, chain, spread, ask, (Fate::Fine, f))));
            }
        }
    }
    let len = if deep { 5 } else { 4 };
    run.bound("pieces a hostile peer says", len);
    for l in 0..=len {
        for i in 0..seq_count(9, l) {
            let say: Vec<_> = seq_of(i, 9, l).into_iter().map(|k| SAY[k]).collect();
            for last in [Last::Closes, Last::Drops, Last::Silent] {
                // once nobody listens, the manner of leaving is the same
                if last == Last::Closes || l <= 3 {
                    let say = say.clone();
                    jobs.push(Box::new(move || hostile(run, chain, &say, last)));
                }
            }
        }
    }
    for a in SAY {
        for extra in ["", "bytes that are no frame", "and closes"] {
            jobs.push(Box::new(move || served(run, chain, &[a], extra)));
            for b in SAY {
                jobs.push(Box::new(move || served(run, chain, &[a, b], extra)));
            }
        }
    }
    jobs.push(Box::new(move || served(run, chain, &[], "bytes that are no frame")));
    jobs.push(Box::new(move || served(run, chain, &[], "and closes")));
    jobs.push(Box::new(move || served(run, chain, &[], "")));
    let len = if deep { 8 } else { 6 };
    run.bound("openings, requests and departures at one server", len);
    for i in 0..seq_count(6, len) {
        jobs.push(Box::new(move || crowd(run, chain, &seq_of(i, 6, len), 3)));
    }
    let len = if deep { 5 } else { 4 };
    for i in 0..seq_count(5, len) {
        jobs.push(Box::new(move || capability(run, chain, &seq_of(i, 5, len))));
    }
    par(run, jobs.len(), |i| {
        if !run.stop() {
            jobs[i]()
        }
    });
}

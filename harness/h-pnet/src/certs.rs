//! P02: certificates and outputs asked of peers, and what a node serves at once.
use crate::{
    env::{Frame, Last, Peer, Say, Site, FINE, FRAME},
    packs::{pack, PATIENCE},
    world::{committee, epoch_of, fresh, pk, same, split, Made, World, LEN},
};
use futures::{AsyncReadExt as _, AsyncWriteExt as _, FutureExt as _};
use indexmap::IndexMap;
use netlib::Fate;
use roaring::RoaringBitmap;
use std::time::Duration;
use tn_network_libp2p::{read_frame, write_frame, DenyReason, Penalty, PrimarySyncRequest, Stream, SyncFrameError};
use tn_primary::network::{MissingCertificatesRequest, MAX_CONCURRENT_EPOCH_STREAMS, MAX_PENDING_REQUESTS_PER_PEER};
use tn_storage::{consensus::ConsensusChain, CertificateStore as _};
use tn_types::{encode, AuthorityIdentifier, BlsSignature, Certificate, ConsensusOutput, HeaderBuilder, BlockHash, Hash as _};
use vlib::{
    explore::{bits, seq_count, seq_of},
    par, Run, Scratch,
};

fn id(i: usize) -> AuthorityIdentifier {
    AuthorityIdentifier::from(pk(i))
}
fn cert(author: usize, round: u32, heavy: usize) -> Certificate {
    let c = committee(2, 0);
    let payload: IndexMap<_, _> = (0..heavy as u64).map(|k| (BlockHash::from(std::array::from_fn::<u8, 32, _>(|b| (k >> (8 * (b % 8))) as u8 ^ (author as u8 + (b as u8).wrapping_mul(31).wrapping_add(round as u8)))), 0)).collect();
    let h = HeaderBuilder::default()
        .author(id(author))
        .round(round)
        .epoch(2)
        .created_at(1000 + round as u64)
        .payload(payload)
        .seed_signature(BlsSignature::default())
        .build();
    let votes = (0..3).map(|k| (id(k), BlsSignature::default())).collect();
    Certificate::new_unsigned_for_test(&c, h, votes).expect("certificate")
}
fn bitmap(rounds: impl IntoIterator<Item = u32>) -> Vec<u8> {
    let mut v = vec![];
    rounds.into_iter().collect::<RoaringBitmap>().serialize_into(&mut v).unwrap();
    v
}

/// A peer that opens a stream to the node.
struct Far<'a>(&'a mut Site, Stream);
fn settle(site: &mut Site) {
    for _ in 0..60 {
        site.rt.block_on(tokio::task::yield_now());
    }
}
fn tell(site: &mut Site, s: &mut Stream, f: &Frame) {
    let (mut a, mut b) = (vec![], vec![]);
    let _ = site.rt.block_on(write_frame(s, f, &mut a, &mut b, FRAME));
    let _ = site.rt.block_on(s.flush());
}
/// What has arrived so far, and whether the stream has come to an end.
fn heard(s: &mut Stream) -> (Vec<Frame>, bool) {
    let (mut all, mut ended) = (vec![], false);
    let mut buf = vec![0; 65536];
    loop {
        match s.read(&mut buf).now_or_never() {
            Some(Ok(0)) | Some(Err(_)) => {
                ended = true;
                break;
            }
            Some(Ok(n)) => all.extend_from_slice(&buf[..n]),
            None => break,
        }
    }
    let mut frames = vec![];
    let mut rest = futures::io::Cursor::new(all);
    let (mut a, mut b) = (vec![], vec![]);
    while let Some(Ok(f)) = read_frame::<_, PrimarySyncRequest>(&mut rest, &mut a, &mut b, FRAME).now_or_never() {
        frames.push(f);
    }
    (frames, ended)
}
impl Far<'_> {
    fn ask(&mut self, f: &Frame) -> (Vec<Frame>, bool) {
        tell(self.0, &mut self.1, f);
        settle(self.0);
        heard(&mut self.1)
    }
}

struct Certs<'a> {
    run: &'a Run,
    site: &'a mut Site,
}
impl Certs<'_> {
    /// Certificates asked of a peer: `None` if the request does not end.
    fn fetch(&mut self, bound: u32, skip: &[(usize, Vec<u32>)], peer: Peer, what: &str) -> Option<Result<Vec<Certificate>, String>> {
        let req = MissingCertificatesRequest {
            exclusive_lower_bound: bound,
            skip_rounds: skip.iter().map(|(a, r)| (id(*a), bitmap(r.iter().map(|r| r - bound)))).collect(),
            max_response_size: 1,
        };
        let want = Frame::Req(PrimarySyncRequest::MissingCertificates { exclusive_lower_bound: bound, skip_rounds: req.skip_rounds.clone() });
        self.site.peers = vec![peer];
        self.site.asked.clear();
        self.site.penalties.clear();
        let h = self.site.handle.clone();
        let out = self.site.drive(async move { h.fetch_certificates(pk(1), req).await.map_err(|e| e.to_string()) });
        if out.is_none() {
            self.run.fail("endless", "a request for certificates does not end", what);
        }
        if let Some(f) = self.site.asked.iter().find(|f| **f != want) {
            self.run.fail("asked", format!("a peer is asked {f:?} instead of {want:?}"), what);
        }
        self.run.step(1);
        self.run.state(what);
        self.run.trace();
        out
    }
}
fn expected(held: &[(usize, u32)], bound: u32, skip: &[(usize, Vec<u32>)]) -> Vec<(u32, AuthorityIdentifier)> {
    let mut v: Vec<_> = held
        .iter()
        .filter(|(a, r)| *r > bound && skip.iter().any(|(b, s)| b == a && !s.contains(r)))
        .map(|(a, r)| (*r, id(*a)))
        .collect();
    v.sort();
    v
}
fn names(c: &[Certificate]) -> Vec<(u32, AuthorityIdentifier)> {
    c.iter().map(|c| (c.round(), c.origin().clone())).collect()
}

/// What is served for every set of certificates held, every bound and everything to skip.
fn served(run: &Run, truth: &World, rounds: u32, authors: usize, part: usize, parts: usize) {
    let all: Vec<(usize, u32)> = (0..authors).flat_map(|a| (1..=rounds).map(move |r| (a, r))).collect();
    let made: Vec<_> = all.iter().map(|(a, r)| cert(*a, *r, 1)).collect();
    for held in 0..1u64 << all.len() {
        if held as usize % parts != part || run.stop() {
            continue;
        }
        let mut site = Site::new(truth, 2);
        let have: Vec<_> = bits(held);
        // one outside what is asked for, never to be sent
        site.db.write(cert(3, 2, 1)).unwrap();
        for i in &have {
            site.db.write(made[*i].clone()).unwrap();
        }
        let held: Vec<_> = have.iter().map(|i| all[*i]).collect();
        let mut c = Certs { run, site: &mut site };
        for bound in 0..=rounds {
            // for each author: not named, or what to skip
            let ways = 1 + (1u64 << (rounds - bound));
            for k in 0..ways.pow(authors as u32) {
                let mut skip = vec![];
                for (a, w) in seq_of(k, ways, authors).into_iter().enumerate() {
                    if w > 0 {
                        skip.push((a, bits(w as u64 - 1).into_iter().map(|r| bound + 1 + r as u32).collect::<Vec<_>>()));
                    }
                }
                let what = format!("{held:?} held, asked for those after {bound} but {skip:?}");
                let want = expected(&held, bound, &skip);
                match c.fetch(bound, &skip, FINE, &what) {
                    None => (),
                    Some(Ok(got)) if names(&got) == want && got.iter().all(|g| made.contains(g)) => (),
                    Some(got) => run.fail("served", format!("{:?} arrive instead of {want:?}", got.map(|g| names(&g))), &what),
                }
            }
        }
    }
}

/// Requests no member makes, and the largest one may.
fn malformed(run: &Run, truth: &World) {
    let mut site = Site::new(truth, 2);
    for r in 1..=3 {
        site.db.write(cert(0, r, 1)).unwrap();
    }
    let bomb = |containers: u32| -> Vec<u8> {
        let mut v = 12346u32.to_le_bytes().to_vec();
        v.extend(containers.to_le_bytes());
        v.resize(v.len() + 64, 0);
        v
    };
    let good = bitmap([1]);
    let mut cases: Vec<(String, u32, Vec<(AuthorityIdentifier, Vec<u8>)>, bool)> = vec![
        ("five members of four".into(), 0, (0..5).map(|i| (id(i % 7), bitmap([]))).collect(), false),
        ("one member five times".into(), 0, (0..5).map(|_| (id(0), bitmap([]))).collect(), false),
        ("four members".into(), 0, (0..4).map(|i| (id(i), bitmap([]))).collect(), true),
        ("a thousand and one rounds".into(), 0, vec![(id(0), bitmap(1..=1001))], false),
        ("a thousand rounds".into(), 0, vec![(id(0), bitmap(1..=1000))], true),
        ("a round beyond the last".into(), u32::MAX - 1, vec![(id(0), bitmap([2]))], false),
        ("the last round".into(), u32::MAX - 1, vec![(id(0), bitmap([1]))], true),
        ("rounds far apart".into(), 0, vec![(id(0), bitmap((0..1000).map(|k| k * 65536)))], true),
        ("too many rounds far apart".into(), 0, vec![(id(0), bitmap((0..1001).map(|k| k * 65536)))], false),
        ("more containers than there can be".into(), 0, vec![(id(0), bomb(u32::MAX))], false),
        ("more containers than there are".into(), 0, vec![(id(0), bomb(1001))], false),
        ("containers of nothing".into(), 0, vec![(id(0), bomb(900))], false),
        ("runs of everything".into(), 0, vec![(id(0), {
            let mut v = 12347u32.to_le_bytes().to_vec();
            v.extend([1, 0, 0, 0xff, 0xff, 1, 0, 0, 0, 0xff, 0xff]);
            v
        })], false),
        ("nobody".into(), 0, vec![], true),
        ("one nobody knows".into(), 0, vec![(id(6), bitmap([]))], true),
    ];
    for n in 0..good.len() {
        cases.push((format!("{n} bytes of a bitmap"), 0, vec![(id(0), good[..n].to_vec())], false));
    }
    for (what, bound, skip, ok) in cases {
        run.step(1);
        let (s, theirs) = site.streams(Fate::Fine, Fate::Fine);
        site.inbound(5, theirs);
        let (got, ended) = Far(&mut site, s).ask(&Frame::Req(PrimarySyncRequest::MissingCertificates { exclusive_lower_bound: bound, skip_rounds: skip }));
        let good = if ok { got.first() == Some(&Frame::Ack) && got.last() == Some(&Frame::End) } else { got == [Frame::Err(SyncFrameError::Malformed)] };
        if !good || !ended {
            run.fail("malformed", format!("{what}: the answer is {:?}{}", got, if ended { "" } else { ", and no end" }), &what);
        }
        run.state(&what);
        run.trace();
    }
    // what is no request
    for f in [Frame::Ack, Frame::End, Frame::Data(vec![1]), Frame::Deny(DenyReason::AtCapacity), Frame::Err(SyncFrameError::Internal)] {
        let (s, theirs) = site.streams(Fate::Fine, Fate::Fine);
        site.inbound(5, theirs);
        let (got, ended) = Far(&mut site, s).ask(&f);
        if got != [Frame::Err(SyncFrameError::Malformed)] || !ended {
            run.fail("malformed", format!("{f:?} is answered {got:?}"), format!("{f:?}"));
        }
    }
}

/// Responses of several frames, the connection cut, and peers that say what they like.
fn certificates(run: &Run, truth: &World, part: usize, parts: usize, deep: bool) {
    let mut site = Site::new(truth, 2);
    let small: Vec<_> = (1..=3).map(|r| cert(0, r, 1)).chain([cert(1, 2, 0)]).collect();
    let mut whole = small.clone();
    whole.sort_by_key(|c| (c.round(), c.origin().clone()));
    small.iter().for_each(|c| site.db.write(c.clone()).unwrap());
    let mut jobs: Vec<(String, Peer, Option<Result<Vec<Certificate>, ()>>)> = vec![];
    for at in 0..encode(&small).len() * 2 + 120 {
        for fate in [Fate::Breaks(at), Fate::Ends(at), Fate::Stalls(at)] {
            jobs.push((format!("the way back {fate:?}"), Peer::Honest(Fate::Fine, fate), None));
            if at < 120 {
                jobs.push((format!("the way there {fate:?}"), Peer::Honest(fate, Fate::Fine), None));
            }
        }
    }
    let (one, two) = (vec![cert(2, 9, 1)], vec![cert(1, 8, 0), cert(0, 7, 1)]);
    let mut spoilt = encode(&one);
    spoilt.truncate(spoilt.len() - 1);
    let say = [Say::Ack, Say::Data(encode(&one)), Say::Data(encode(&two)), Say::Data(encode(&Vec::<Certificate>::new())), Say::End, Say::Data(spoilt), Say::Deny, Say::Err, Say::Req, Say::Noise];
    for n in 0..=if deep { 5 } else { 4 } {
        for i in 0..seq_count(say.len() as u64, n) {
            let k = seq_of(i, say.len() as u64, n);
            let end = k.iter().position(|k| *k == 4);
            let good = end.is_some_and(|e| e > 0 && k[0] == 0 && k[1..e].iter().all(|k| (1..=3).contains(k)));
            let want = if good {
                Ok(k[1..end.unwrap()].iter().flat_map(|k| match k {
                    1 => one.clone(),
                    2 => two.clone(),
                    _ => vec![],
                }).collect())
            } else {
                Err(())
            };
            for last in [Last::Closes, Last::Silent] {
                jobs.push((format!("a peer says {k:?} and {last:?}"), Peer::Stranger(k.iter().map(|k| say[*k as usize].clone()).collect(), last), Some(want.clone())));
            }
        }
    }
    for p in [Peer::Speechless, Peer::Gone, Peer::Lost] {
        jobs.push((format!("{p:?}"), p, Some(Err(()))));
    }
    let skip = vec![(0, vec![]), (1, vec![])];
    for (what, peer, want) in jobs.into_iter().skip(part).step_by(parts) {
        if run.stop() {
            return;
        }
        let got = Certs { run, site: &mut site }.fetch(0, &skip, peer, &what);
        match (got, want) {
            (None, _) => (),
            (Some(got), Some(want)) => {
                if got.clone().map_err(|_| ()) != want {
                    run.fail("heeded", format!("{:?} comes of it, and {:?} should", got.map(|g| names(&g)), want.map(|g| names(&g))), what);
                }
            }
            (Some(Ok(got)), None) if got != whole => run.fail("part", format!("{:?} are taken for all", names(&got)), what),
            (Some(r), None) => run.outcome(if r.is_ok() { "arrived" } else { "did not arrive" }),
        }
    }
}
fn large(run: &Run, truth: &World) {
    for (count, heavy) in [(3, 7000), (9, 3000), (40, 400), (16, 1024), (1, 9000)] {
        let mut site = Site::new(truth, 2);
        let all: Vec<_> = (1..=count).map(|r| cert(0, r, heavy)).collect();
        all.iter().for_each(|c| site.db.write(c.clone()).unwrap());
        let what = format!("{count} certificates of {} bytes", encode(&all[0]).len());
        let got = Certs { run, site: &mut site }.fetch(0, &[(0, vec![])], FINE, &what);
        if got.as_ref().is_some_and(|g| g.as_ref().ok() != Some(&all)) {
            run.fail("large", format!("{:?} arrive", got.unwrap().map(|g| names(&g))), &what);
        }
    }
}

/// How much a node serves at once: every history of peers that open streams, ask, and leave.
fn crowd(run: &Run, truth: &World, history: &[usize], peers: usize) {
    let mut site = Site::new(truth, 2);
    let mine = cert(0, 1, 1);
    site.db.write(mine.clone()).unwrap();
    let mut open: Vec<(usize, Stream)> = vec![];
    let replay = || format!("{:?}", history.iter().map(|h| if *h < peers { format!("peer {h} opens") } else if *h == peers { "the oldest asks".into() } else if *h == peers + 1 { "the newest leaves".into() } else { "six seconds pass".into() }).collect::<Vec<_>>());
    let ask = Frame::Req(PrimarySyncRequest::MissingCertificates { exclusive_lower_bound: 0, skip_rounds: vec![(id(0), bitmap([]))] });
    for h in history {
        run.step(1);
        if *h < peers {
            let admitted = open.len() < MAX_CONCURRENT_EPOCH_STREAMS && open.iter().filter(|(p, _)| p == h).count() < MAX_PENDING_REQUESTS_PER_PEER;
            let (mut s, theirs) = site.streams(Fate::Fine, Fate::Fine);
            site.inbound(*h + 1, theirs);
            settle(&mut site);
            let (got, ended) = heard(&mut s);
            let denied = got == [Frame::Deny(DenyReason::AtCapacity)] && ended;
            if denied == admitted || admitted && (!got.is_empty() || ended) {
                run.fail("admission", format!("with {} streams open, {} of them this peer's, it hears {got:?}", open.len(), open.iter().filter(|(p, _)| p == h).count()), replay());
            }
            if !denied {
                open.push((*h, s));
            }
        } else if *h == peers && !open.is_empty() {
            let (_, s) = open.remove(0);
            let (got, ended) = Far(&mut site, s).ask(&ask);
            if got != [Frame::Ack, Frame::Data(encode(&vec![mine.clone()])), Frame::End] || !ended {
                run.fail("let-in", format!("a peer that was let in is sent {got:?}"), replay());
            }
        } else if *h == peers + 1 {
            drop(open.pop());
            settle(&mut site);
        } else if *h == peers + 2 {
            for _ in 0..6 {
                site.rt.block_on(tokio::time::advance(Duration::from_secs(1)));
                settle(&mut site);
            }
            for (_, mut s) in open.drain(..) {
                let (got, ended) = heard(&mut s);
                if !got.is_empty() || !ended {
                    run.fail("lingers", format!("a peer that asks nothing for six seconds is still there: {got:?}"), replay());
                }
            }
        }
    }
    run.state(history);
    run.trace();
}

struct Outputs<'a> {
    run: &'a Run,
    truth: &'static World,
    site: &'a mut Site,
}
impl Outputs<'_> {
    fn fetch(&mut self, chain: &ConsensusChain, n: u64, want: &ConsensusOutput, peers: Vec<Peer>, what: &str) -> Option<bool> {
        self.site.peers = peers;
        self.site.opened.clear();
        self.site.asked.clear();
        self.site.penalties.clear();
        let (h, c, hash) = (self.site.handle.clone(), chain.clone(), want.digest());
        let out = self.site.drive(async move { h.request_consensus_output(n, &c, hash).await });
        let Some(out) = out else {
            self.run.fail("endless", "a request for an output does not end", what);
            return None;
        };
        if let Some(f) = self.site.asked.iter().find(|f| **f != Frame::Req(PrimarySyncRequest::ConsensusOutput { number: n })) {
            self.run.fail("asked", format!("a peer is asked {f:?} for output {n}"), what);
        }
        if out.as_ref().is_ok_and(|o| !same(o, want)) {
            self.run.fail("forged", format!("another output is taken for number {n}"), what);
        }
        self.run.step(1);
        self.run.state(what);
        self.run.trace();
        Some(out.is_ok())
    }
    fn blamed(&mut self, who: &[usize], what: &str) {
        let got: Vec<_> = self.site.penalties.iter().map(|(p, _)| *p).collect();
        if got != who || self.site.penalties.iter().any(|(_, p)| !matches!(p, Penalty::Severe)) {
            self.run.fail("blame", format!("{:?} are blamed, and {who:?} should be", self.site.penalties), what);
        }
    }
}
fn outputs(run: &Run, truth: &'static World, forged: &'static World, part: usize, parts: usize, deep: bool) {
    let mut site = Site::new(truth, 2);
    let mut turn = 0;
    let mut mine = move || {
        turn += 1;
        turn % parts == part
    };
    let raw = |w: &World, n: u64, rt: &tokio::runtime::Runtime| rt.block_on(w.chain.consensus_output_bytes_by_number(n)).unwrap().unwrap();
    let dirs: Vec<_> = (0..3).map(|_| Scratch::new()).collect();
    let chains: Vec<_> = (0..3).map(|e| site.rt.block_on(fresh(dirs[e].path(), truth, e, 0))).collect();
    // every output, for a node that is at each epoch, from one that has it
    for (entered, chain) in chains.iter().enumerate() {
        for n in 1..=14u64 {
            if !mine() {
                continue;
            }
            let what = format!("a node in epoch {entered} asks for output {n}");
            let there = n <= 9;
            let want = &truth.outputs[n.min(9) as usize - 1];
            let can = epoch_of(n.min(9)) as usize <= entered;
            let mut o = Outputs { run, truth, site: &mut site };
            let slow = Peer::Honest(Fate::Fine, Fate::Stalls(usize::MAX));
            if let Some(ok) = o.fetch(chain, n, want, vec![if there { FINE } else { slow }], &what) {
                if ok != (there && can) {
                    run.fail("output", format!("it is {}", if ok { "had" } else { "not had" }), &what);
                }
                if !can && !o.site.opened.is_empty() {
                    run.fail("asked", "it asks for what it cannot read", &what);
                }
                o.blamed(&[], &what);
            }
        }
    }
    let chain = &chains[2];
    // the connection cut at every byte
    for n in 5..=8 {
        let want = &truth.outputs[n as usize - 1];
        let wire = raw(truth, n, &site.rt).len() * 2 + 120;
        for at in 0..wire {
            if !deep && n > 5 && at % 4 > 0 {
                continue;
            }
            let mut fates = vec![];
            for f in [Fate::Breaks(at), Fate::Ends(at), Fate::Stalls(at)] {
                fates.push(Peer::Honest(Fate::Fine, f));
                if at < 80 {
                    fates.push(Peer::Honest(f, Fate::Fine));
                }
            }
            for p in fates {
                if !mine() || run.stop() {
                    continue;
                }
                let what = format!("output {n}, {p:?}, then another has it");
                let ends = matches!(p, Peer::Honest(_, Fate::Ends(_)));
                let mut o = Outputs { run, truth, site: &mut site };
                if o.fetch(chain, n, want, vec![p, FINE], &what) == Some(false) {
                    run.fail("failover", "the next peer has it, and it is not had", &what);
                }
                // a stream that is closed before it ends is the peer's fault, and no grave one
                o.site.penalties.retain(|(p, k)| !(*p == 1 && ends && matches!(k, Penalty::Mild | Penalty::Medium)));
                o.blamed(&[], &what);
            }
        }
    }
    // every byte of an output wrong, every part of it, and edits with the records of others
    for n in [5u64, 7, 8] {
        let want = &truth.outputs[n as usize - 1];
        let good = raw(truth, n, &site.rt);
        let mut made: Vec<(String, Vec<u8>)> = vec![];
        for at in 0..good.len() {
            let mut f = good.clone();
            f[at] ^= 1 << (at % 8);
            made.push((format!("byte {at} wrong"), f));
            made.push((format!("{at} bytes"), good[..at].to_vec()));
        }
        let records = |b: &[u8]| split(&[&[0; 28][..], b].concat()).1;
        let base = records(&good);
        let mut others: Vec<Vec<u8>> = vec![];
        for w in [truth, forged] {
            for k in 1..=9 {
                for r in records(&raw(w, k, &site.rt)) {
                    if !others.contains(&r) {
                        others.push(r);
                    }
                }
            }
        }
        for (i, r) in crate::packs::edits(&base, &others).into_iter().enumerate() {
            made.push((format!("edit {i}"), r.concat()));
            if deep {
                for (j, r) in crate::packs::edits(&r, &others[..3]).into_iter().enumerate() {
                    made.push((format!("edits {i} {j}"), r.concat()));
                }
            }
        }
        for (name, bytes) in made {
            if !mine() || run.stop() {
                continue;
            }
            let what = format!("output {n} with {name}, then another has it");
            let mut o = Outputs { run, truth, site: &mut site };
            if o.fetch(chain, n, want, vec![Peer::Stranger(pack(&bytes, 400), Last::Closes), FINE], &what) == Some(false) {
                run.fail("failover", "the next peer has it, and it is not had", &what);
            }
            if o.site.penalties.iter().any(|(p, _)| *p != 1) {
                run.fail("blame", format!("{:?}", o.site.penalties), &what);
            }
        }
    }
    // what a hostile peer may say
    let n = 7u64;
    let want = &truth.outputs[6];
    let (good, other) = (raw(truth, n, &site.rt), raw(forged, n, &site.rt));
    let say = [Say::Ack, Say::Data(good.clone()), Say::Data(good[..60].to_vec()), Say::Data(good[60..].to_vec()), Say::Data(other.clone()), Say::End, Say::Deny, Say::Err, Say::Req, Say::Noise];
    for len in 0..=if deep { 5 } else { 4 } {
        for i in 0..seq_count(say.len() as u64, len) {
            for last in [Last::Closes, Last::Silent] {
                if !mine() || run.stop() {
                    continue;
                }
                let k = seq_of(i, say.len() as u64, len);
                let what = format!("for output {n} a peer says {k:?} and {last:?}");
                let mut o = Outputs { run, truth, site: &mut site };
                let got = o.fetch(chain, n, want, vec![Peer::Stranger(k.iter().map(|k| say[*k as usize].clone()).collect(), last)], &what);
                let whole = k.starts_with(&[0, 1, 5]) || k.starts_with(&[0, 2, 3, 5]);
                if got == Some(false) && whole || got == Some(true) && !k.starts_with(&[0, 1]) && !k.starts_with(&[0, 2, 3]) {
                    run.fail("heeded", format!("it is {}", if whole { "not had" } else { "had" }), &what);
                }
                // a response that lacks something is a fault, if no grave one
                if got == Some(false) && k.first() == Some(&0) && !k.starts_with(&[0, 4]) {
                    o.site.penalties.retain(|(_, k)| !matches!(k, Penalty::Mild | Penalty::Medium));
                }
                o.blamed(if k.starts_with(&[0, 4]) { &[1] } else { &[] }, &what);
            }
        }
    }
    // who is asked, in which order, and who is blamed
    let kinds = |k: usize| match k {
        0 => FINE,
        1 => Peer::Speechless,
        2 => Peer::Gone,
        3 => Peer::Lost,
        4 => Peer::Stranger(vec![Say::Deny], Last::Closes),
        5 => Peer::Stranger(pack(&other, 400), Last::Closes),
        _ => Peer::Stranger(vec![], Last::Silent),
    };
    for i in 0..seq_count(7, 4) {
        if !mine() || run.stop() {
            continue;
        }
        let k = seq_of(i, 7, 4);
        let what = format!("for output {n} peers of kinds {k:?} are asked");
        let mut o = Outputs { run, truth, site: &mut site };
        let got = o.fetch(chain, n, want, k.iter().map(|k| kinds(*k as usize)).collect(), &what);
        let at = k.iter().position(|k| *k == 0).filter(|p| *p < 3);
        if got.is_some_and(|g| g != at.is_some()) {
            run.fail("failover", format!("it is {}", if at.is_some() { "not had" } else { "had" }), &what);
        }
        let asked: Vec<usize> = (1..=at.map_or(3, |p| p + 1)).collect();
        if o.site.opened != asked {
            run.fail("asked", format!("{:?} are asked, and {asked:?} should be", o.site.opened), &what);
        }
        let bad: Vec<_> = asked.iter().copied().filter(|p| k[p - 1] == 5).collect();
        o.blamed(&bad, &what);
    }
}
/// A peer that does not speak the protocol is left alone once it is known, until that is forgotten; any other is asked again.
fn capability(run: &Run, truth: &'static World, site: &mut Site, history: &[usize]) {
    let dir = Scratch::new();
    let chain = site.rt.block_on(fresh(dir.path(), truth, 0, 0));
    let mut mute = false;
    site.handle.clear_sync_capability();
    let what = format!("{:?}", history.iter().map(|h| if *h == 8 { "forgets".to_string() } else { format!("{} of one that {}", if *h < 4 { "an epoch" } else { "an output" }, ["serves", "does not speak it", "is gone", "denies"][h % 4]) }).collect::<Vec<_>>());
    for h in history {
        if *h == 8 {
            site.handle.clear_sync_capability();
            mute = false;
            continue;
        }
        let peer = match h % 4 {
            0 => FINE,
            1 => Peer::Speechless,
            2 => Peer::Gone,
            _ => Peer::Stranger(vec![Say::Deny], Last::Closes),
        };
        let ok = if *h < 4 {
            site.peers = vec![peer];
            site.opened.clear();
            let (hd, c) = (site.handle.clone(), chain.clone());
            site.drive(async move { hd.request_epoch_pack(&truth.records[0], &truth.previous(0), &c, PATIENCE).await.is_ok() })
        } else {
            Outputs { run, truth, site }.fetch(&chain, 2, &truth.outputs[1], vec![peer], &what)
        };
        if ok.is_some_and(|ok| ok != (!mute && h % 4 == 0)) || site.opened.is_empty() != mute {
            run.fail("asked-again", format!("asked {:?}, known not to speak it: {mute}, it {}", site.opened, if ok == Some(true) { "works" } else { "fails" }), &what);
            return;
        }
        mute |= *h == 1;
    }
    run.state(history);
    run.trace();
}

pub fn p02(run: &Run) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let world = |m: Made| -> &'static World { Box::leak(Box::new(rt.block_on(World::new(m)))) };
    let truth = world(Made { len: LEN, ..Default::default() });
    let forged = world(Made { salt: 7, from: 4, len: LEN, ..Default::default() });
    let deep = run.thorough();
    run.assume("a peer cannot find another batch or header with a given digest");
    let grids: &[(u32, usize)] = if deep { &[(4, 2), (3, 3)] } else { &[(4, 2)] };
    run.bound("rounds and authors of certificates held", format!("{grids:?}"));
    let parts = 16;
    malformed(run, truth);
    large(run, truth);
    run.bound("pieces a hostile peer says", if deep { 5 } else { 4 });
    let timed = |name: &str, f: &dyn Fn()| {
        let t = std::time::Instant::now();
        f();
        eprintln!("{name}: {:?}", t.elapsed());
    };
    timed("served", &|| grids.iter().for_each(|(rounds, authors)| par(run, parts, |p| served(run, truth, *rounds, *authors, p, parts))));
    timed("certificates", &|| par(run, parts, |p| certificates(run, truth, p, parts, deep)));
    timed("outputs", &|| par(run, parts, |p| outputs(run, truth, forged, p, parts, deep)));
    let len = if deep { 4 } else { 3 };
    timed("capability", &|| {
        par(run, 9 * 9, |p| {
            let mut site = Site::new(truth, 2);
            for n in 2..=len {
                for i in 0..seq_count(9, n - 2) {
                    if run.stop() {
                        return;
                    }
                    let mut h = vec![p / 9, p % 9];
                    h.extend(seq_of(i, 9, n - 2).into_iter().map(|x| x as usize));
                    capability(run, truth, &mut site, &h);
                }
            }
        })
    });
    let len = if deep { 8 } else { 7 };
    run.bound("what a crowd does", len);
    timed("crowd", &|| {
        par(run, 36, |p| {
            for i in 0..seq_count(6, len - 2) {
                if run.stop() {
                    return;
                }
                // the first two open
                let mut h = vec![p / 6, p % 6];
                h.extend(seq_of(i, 6, len - 2).into_iter().map(|x| x as usize));
                if h[0] >= 3 || h[1] >= 3 || h.iter().filter(|h| **h < 3).count() + 1 < len - 1 {
                    continue;
                }
                crowd(run, truth, &h, 3);
            }
        })
    });
}

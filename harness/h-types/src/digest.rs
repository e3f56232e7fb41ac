//! What the digests of headers, batches, votes (T09) and of the consensus chain (T10) bind.
use crate::{certs::cert_of, util::*};
use indexmap::IndexMap;
use std::{
    collections::{BTreeSet, HashMap, VecDeque},
    sync::Mutex,
};
use tn_types::*;
use vlib::{explore::*, guarded, par, Run};

fn blake(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = blake3::Hasher::new();
    for p in parts {
        h.update(p);
    }
    *h.finalize().as_bytes()
}

/// No two entries with different contents share a digest.
struct Distinct(Mutex<HashMap<Vec<u8>, String>>, &'static str);
impl Distinct {
    fn new(name: &'static str) -> Self {
        Self(Default::default(), name)
    }
    fn add(&self, run: &Run, digest: &[u8], what: String) {
        run.step(1);
        run.state(&(self.1, digest));
        if let Some(old) = self.0.lock().unwrap().insert(digest.to_vec(), what.clone()) {
            if old != what {
                run.fail("collision", format!("{}: {old} and {what} have one digest", self.1), format!("{old}\n{what}"));
            }
        }
    }
}

type Fields = (usize, usize, usize, usize, usize, usize, usize, usize);
const ROUNDS: [u32; 4] = [0, 1, 256, u32::MAX];
const EPOCHS: [u32; 4] = [0, 1, 256, u32::MAX];
const TIMES: [u64; 3] = [0, 1, u64::MAX];

fn payload(i: usize) -> IndexMap<BlockHash, WorkerId> {
    let (a, b) = (BlockHash::repeat_byte(1), BlockHash::repeat_byte(2));
    match i {
        0 => vec![],
        1 => vec![(a, 0)],
        2 => vec![(a, 1)],
        3 => vec![(a, 0), (b, 0)],
        4 => vec![(b, 0), (a, 0)],
        _ => vec![(a, 0), (b, 256)],
    }
    .into_iter()
    .collect()
}
fn parents(i: usize) -> BTreeSet<HeaderDigest> {
    let all: Vec<_> = (1..=3).map(|b| HeaderDigest::new([b; 32])).collect();
    [vec![], vec![0], vec![1], vec![0, 1], vec![0, 1, 2]][i].iter().map(|j: &usize| all[*j]).collect()
}
fn exec(i: usize) -> BlockNumHash {
    [BlockNumHash::default(), BlockNumHash::new(1, B256::ZERO), BlockNumHash::new(0, B256::repeat_byte(1)), BlockNumHash::new(u64::MAX, B256::repeat_byte(1))][i]
}
fn seed(i: usize) -> BlsSignature {
    if i == 0 {
        BlsSignature::default()
    } else {
        keys()[i].sign(b"seed")
    }
}
fn build(f: Fields) -> Header {
    HeaderBuilder::default()
        .author(keys()[f.0].pk().into())
        .round(ROUNDS[f.1])
        .epoch(EPOCHS[f.2])
        .created_at(TIMES[f.3])
        .payload(payload(f.4))
        .parents(parents(f.5))
        .latest_execution_block(exec(f.6))
        .seed_signature(seed(f.7))
        .build()
}

pub fn t09(run: &Run) {
    let seen = Distinct::new("header");
    let dims = [2, 4, 4, 3, 6, 5, 4, run.pick(2, 3)];
    let total: usize = dims.iter().product();
    run.bound("headers", format!("{total}: every combination of field values"));
    par(run, total, |n| {
        let mut r = n;
        let mut g = [0; 8];
        for (x, d) in g.iter_mut().zip(dims) {
            *x = r % d;
            r /= d;
        }
        let f = (g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7]);
        let h = build(f);
        let d = h.digest();
        seen.add(run, d.as_ref(), format!("{f:?}"));
        let bad = |what: String| run.fail("header", format!("{f:?}: {what}"), format!("{f:?}"));
        let bytes = encode(&h);
        if d.as_ref() != blake(&[&bytes]) {
            bad("its digest is not that of its bytes".into());
        }
        let same = |x: &Header| {
            x.author() == &AuthorityIdentifier::from(keys()[f.0].pk())
                && x.round() == ROUNDS[f.1]
                && x.epoch() == EPOCHS[f.2]
                && *x.created_at() == TIMES[f.3]
                && x.payload().iter().collect::<Vec<_>>() == payload(f.4).iter().collect::<Vec<_>>()
                && x.parents() == &parents(f.5)
                && x.latest_execution_block() == exec(f.6)
                && x.seed_signature() == Some(&seed(f.7))
                && x.digest() == d
        };
        let again: Header = decode(&bytes);
        if !same(&h) || !same(&again) || !same(&HeaderBuilder::from_header(&h).build()) {
            bad("its fields change".into());
        }
        if h.nonce() != ((EPOCHS[f.2] as u64) << 32) + ROUNDS[f.1] as u64 || deconstruct_nonce(h.nonce()) != (EPOCHS[f.2], ROUNDS[f.1]) {
            bad(format!("nonce {}", h.nonce()));
        }
        if h != again {
            bad("differs from itself".into());
        }
        if n % 97 == 0 {
            let before = now();
            let t = Header::new(
                h.author().clone(),
                h.round(),
                h.epoch(),
                h.payload().clone(),
                h.parents().clone(),
                h.latest_execution_block(),
                seed(f.7),
            );
            let stamped = HeaderBuilder::from_header(&h).created_at(*t.created_at()).build();
            if *t.created_at() < before || *t.created_at() > now() || stamped.digest() != t.digest() || encode(&stamped) != encode(&t) {
                bad("created now, it differs".into());
            }
        }
        let v = Vote::new(&h, keys()[3].pk().into(), &keys()[3]);
        let i = VoteInfo::from(&v);
        let digest: Digest<32> = v.digest().into();
        if v.header_digest() != d
            || (v.round(), v.epoch(), v.origin()) != (h.round(), h.epoch(), h.author())
            || digest.as_ref() != d.as_ref()
            || (i.epoch(), i.round(), i.vote_digest()) != (h.epoch(), h.round(), v.digest())
        {
            bad("the vote for it".into());
        }
        if n % 97 == 0 && !v.signature().verify_secure(&to_intent_message(Digest::<32>::from(d)), &keys()[3].pk()) {
            bad("the vote's signature".into());
        }
    });
    // batches
    let txs: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1], vec![0, 1], vec![1, 0], vec![0, 0]];
    let len = run.pick(3, 4);
    let seen = Distinct::new("batch");
    let lists: Vec<Vec<usize>> = (0..=len).flat_map(|l| (0..seq_count(6, l)).map(move |n| seq_of(n, 6, l))).collect();
    run.bound("batches", format!("every list of up to {len} of {} transactions, times every other field's values", txs.len()));
    par(run, lists.len(), |n| {
        for epoch in [0, 1, u32::MAX] {
            for ben in 0..2 {
                for fee in [0, 7, u64::MAX] {
                    for worker in [0, 1, u16::MAX] {
                        let b = Batch {
                            transactions: lists[n].iter().map(|i| txs[*i].clone()).collect(),
                            epoch,
                            beneficiary: addr(ben),
                            base_fee_per_gas: fee,
                            worker_id: worker,
                            received_at: None,
                        };
                        let what = format!("{:?} {epoch} {ben} {fee} {worker}", lists[n]);
                        let d = b.digest();
                        seen.add(run, d.as_slice(), what.clone());
                        let mut timed = b.clone();
                        timed.set_received_at(epoch as u64 + 5);
                        let s = b.clone().seal_slow();
                        let (x, y) = s.clone().split();
                        let data: usize = lists[n].iter().map(|i| txs[*i].len()).sum();
                        if d.as_slice() != blake(&[&encode(&b)])
                            || timed.digest() != d
                            || timed.received_at() != Some(epoch as u64 + 5)
                            || s.digest() != d
                            || s.batch() != &b
                            || s.clone().unseal() != b
                            || (x, y) != (b.clone(), d)
                            || b.clone().seal(B256::ZERO).digest() != B256::ZERO
                            || b.size() != std::mem::size_of::<Batch>() + data
                            || s.size() != b.size() + 32
                            || decode::<Batch>(&encode(&b)).digest() != d
                            || HeaderBuilder::default().with_payload_batch(&b, worker).build().payload().get(&d) != Some(&worker)
                        {
                            run.fail("batch", format!("{what}: digest, seal or size"), what);
                        }
                    }
                }
            }
        }
    });
}

fn sub_dag_digest(s: &CommittedSubDag, ts: u64, scores: &ReputationScores, random: B256) -> [u8; 32] {
    let heads: Vec<_> = s.headers().iter().map(|h| h.digest()).collect();
    let mut parts: Vec<&[u8]> = heads.iter().map(|h| h.as_ref()).collect();
    let (e, t) = (encode(scores), encode(&ts));
    parts.extend([e.as_slice(), &t, random.as_slice()]);
    blake(&parts)
}

fn fold(prev: B256, round: Round, sig: &BlsSignature) -> B256 {
    let mut x = b"TN_EPOCH_SEED_FOLD_V1".to_vec();
    x.extend(prev);
    x.extend(round.to_le_bytes());
    x.extend(sig.to_bytes());
    keccak256(x)
}

pub fn t10(run: &Run) {
    // the certificates
    let certs: Vec<Certificate> = (0..4usize)
        .map(|i| {
            cert_of(
                &HeaderBuilder::default()
                    .author(keys()[i].pk().into())
                    .round(2 + (i as u32) / 2 * 2)
                    .epoch(1)
                    .created_at(10 + i as u64)
                    .payload(payload(i + 1))
                    .seed_signature(keys()[i].sign(b"seed"))
                    .build(),
                keys()[i].sign(b"sig"),
                0b111,
            )
        })
        .collect();
    let c = committee(4, 1);
    let mut scores = vec![ReputationScores::default(), ReputationScores::new(&c)];
    for n in 0..3 {
        let mut s = ReputationScores::new(&c);
        s.add_score(&c.authorities()[n].id(), 1);
        scores.push(s.clone());
        s.final_of_schedule = true;
        scores.push(s);
    }
    let seeds = [EpochSeedChainValue::epoch_root(1), EpochSeedChainValue::epoch_root(2), EpochSeedChainValue::genesis_placeholder()];
    let len = run.pick(4, 5);
    let lists: Vec<Vec<usize>> = (1..=len).flat_map(|l| (0..seq_count(4, l)).map(move |n| seq_of(n, 4, l))).collect();
    run.bound("sub-dags", format!("every list of up to {len} of 4 headers, {} scores, {} seeds, 3 previous commit times", scores.len(), seeds.len()));
    let seen = Distinct::new("sub-dag");
    let heads = Distinct::new("consensus header");
    par(run, lists.len(), |n| {
        let l = &lists[n];
        let cs: Vec<_> = l.iter().map(|i| certs[*i].clone()).collect();
        let leader = certs[*l.last().unwrap()].clone();
        for (si, s) in scores.iter().enumerate() {
            for (ki, k) in seeds.iter().enumerate() {
                for prev in [None, Some(0u64), Some(1000)] {
                    let prev_dag = prev.map(|t| dag_at(t));
                    let d = CommittedSubDag::new(cs.clone(), leader.clone(), 5, s.clone(), prev_dag, *k);
                    let what = format!("{l:?} scores {si} seed {ki} previous {prev:?}");
                    let ts = (*leader.header().created_at()).max(prev.unwrap_or(0));
                    let random = fold(k.into_inner(), leader.round(), leader.header().seed_signature().unwrap());
                    let key = format!("{l:?} scores {si} seed {ki} {ts}");
                    seen.add(run, d.digest().as_ref(), key.clone());
                    let ok = d.commit_timestamp() == ts
                        && d.randomness() == random
                        && d.seed_chain_value().into_inner() == random
                        && d.leader() == leader.header()
                        && d.leader_round() == leader.round()
                        && d.leader_epoch() == leader.epoch()
                        && d.len() == l.len()
                        && !d.is_empty()
                        && d.headers().iter().map(|h| h.digest()).eq(cs.iter().map(|c| c.header().digest()))
                        && d.num_primary_batches() == l.iter().map(|i| payload(i + 1).len()).sum::<usize>()
                        && d.reputation_scores() == s
                        && d.digest().as_ref() == sub_dag_digest(&d, ts, s, random);
                    if !ok {
                        run.fail("sub-dag", format!("{what}: {d:?}"), what.clone());
                    }
                    let back: CommittedSubDag = decode(&encode(&d));
                    if back != d || back.digest() != d.digest() || back.commit_timestamp() != ts {
                        run.fail("sub-dag", format!("{what} does not read back"), what.clone());
                    }
                    if n % 7 == 0 || l.len() == 1 {
                        for number in [0, 1, u64::MAX] {
                            for parent in [[0; 32], [1; 32]] {
                                chain(run, &heads, &d, parent.into(), number, &key);
                            }
                        }
                    }
                }
            }
        }
        // a leader that is not the last certificate
        for w in 0..4 {
            let r = guarded(|| CommittedSubDag::new(cs.clone(), certs[w].clone(), 5, ReputationScores::default(), None, seeds[0]));
            if r.is_ok() != (certs[w].digest() == cs.last().unwrap().digest()) {
                run.fail("leader", format!("{l:?} with leader {w}: {}", r.is_ok()), "");
            }
        }
    });
    // commit times never decrease
    let depth = run.pick(6, 8);
    run.bound("commit times", format!("every sequence of {depth} leader times below 4"));
    par(run, seq_count(4, depth) as usize, |n| {
        let times = seq_of(n as u64, 4, depth);
        let mut prev: Option<CommittedSubDag> = None;
        let mut seed = EpochSeedChainValue::epoch_root(9);
        let mut max = 0;
        let mut raw = seed.into_inner();
        for (i, t) in times.iter().enumerate() {
            let h = HeaderBuilder::default().round(2 * i as u32).epoch(9).created_at(*t as u64).build();
            let c = cert_of(&h, Default::default(), 0);
            let d = CommittedSubDag::new(vec![c.clone()], c, i as u64, Default::default(), prev, seed);
            max = max.max(*t as u64);
            raw = fold(raw, h.round(), &Default::default());
            run.step(1);
            if d.commit_timestamp() != max || d.randomness() != raw {
                run.fail("time", format!("leader times {times:?}: commit {i} is at {}, or its seed differs", d.commit_timestamp()), format!("{times:?}"));
            }
            // half of them come back from storage
            let d = if n % 2 == 0 { d } else { decode(&encode(&d)) };
            seed = d.seed_chain_value();
            prev = Some(d);
        }
        run.state(&("times", times));
    });
    outputs(run);
    seed_chain(run);
    // published results
    let seen = Distinct::new("result");
    for epoch in [0, 1, 256, 1 << 24, u32::MAX] {
        for round in [0, 1, 256, 1 << 24, u32::MAX] {
            for number in [0, 1, 256, 1 << 32, 1 << 56, u64::MAX] {
                for hash in [[0; 32], [1; 32], [255; 32]] {
                    let d = ConsensusResult::digest_data(epoch, round, number, hash.into());
                    seen.add(run, d.as_ref(), format!("{epoch} {round} {number} {hash:?}"));
                    for k in 0..2 {
                        let r = ConsensusResult { epoch, round, number, hash: hash.into(), validator: keys()[k].pk(), signature: keys()[k].sign(b"r") };
                        if r.digest() != d || decode::<ConsensusResult>(&encode(&r)) != r {
                            run.fail("result", format!("{r:?}: digest or encoding"), "");
                        }
                    }
                    if d.as_ref() != blake(&[&epoch.to_be_bytes(), &round.to_be_bytes(), &number.to_be_bytes(), &hash]) {
                        run.fail("result", format!("{epoch} {round} {number}: digest"), "");
                    }
                }
            }
        }
    }
}

/// A previous commit at time `t`.
fn dag_at(t: u64) -> CommittedSubDag {
    let h = HeaderBuilder::default().created_at(t).build();
    let c = cert_of(&h, Default::default(), 0);
    CommittedSubDag::new(vec![c.clone()], c, 0, Default::default(), None, EpochSeedChainValue::genesis_placeholder())
}

fn chain(run: &Run, seen: &Distinct, d: &CommittedSubDag, parent: ConsensusHeaderDigest, number: u64, key: &str) {
    let h = ConsensusHeader { parent_hash: parent, sub_dag: d.clone(), number, extra: B256::ZERO };
    let x = h.digest();
    let what = format!("{key} after {parent:?} number {number}");
    seen.add(run, x.as_ref(), what.clone());
    let mut ok = x.as_ref() == blake(&[parent.as_ref(), d.digest().as_ref(), &number.to_le_bytes(), &[0; 32]]);
    ok &= ConsensusHeader::digest_from_parts(parent, d, number) == x;
    let bytes: Vec<u8> = (&h).into();
    let back = ConsensusHeader::from(bytes.as_slice());
    ok &= back == h && back.digest() == x && bytes == encode(&h);
    let mut o = ConsensusOutput::new_with_subdag(d.clone(), parent, number);
    let closed = ConsensusOutput::new_closed_with_subdag(d.clone(), parent, number);
    ok &= !o.close_epoch() && closed.close_epoch();
    o.set_epoch_close();
    ok &= o.close_epoch();
    for o in [o, closed] {
        let p: ConsensusOutput = decode(&encode(&o));
        ok &= !p.close_epoch();
        for o in [o, p] {
            ok &= o.consensus_header_hash() == x
                && o.digest() == x
                && o.num_hash() == ConsensusNumHash::new(number, x)
                && o.consensus_header() == h
                && o.clone().into_consensus_header() == h
                && ConsensusHeader::from(o.clone()) == h
                && o.number() == number
                && o.parent_hash() == parent
                && o.sub_dag() == d
                && o.leader() == d.leader()
                && o.leader_round() == d.leader_round()
                && o.nonce() == d.leader().nonce()
                && o.committed_at() == d.commit_timestamp()
                && o.committee_shuffle_seed() == d.randomness();
        }
    }
    if !ok {
        run.fail("consensus header", what.clone(), what);
    }
}

/// How an output's batches are laid out and which one closes the epoch.
fn outputs(run: &Run) {
    let (groups, most) = (run.pick(4, 5), 3u64);
    run.bound("outputs", format!("every layout of up to {groups} certificates of up to {most} batches"));
    for l in 0..=groups {
        for n in 0..seq_count(most + 1, l) {
            let shape = seq_of(n, most + 1, l);
            let mut batches = vec![];
            let mut digests = VecDeque::new();
            let mut flat = vec![];
            for (i, k) in shape.iter().enumerate() {
                let bs: Vec<Batch> = (0..*k).map(|j| Batch { transactions: vec![vec![i as u8, j as u8]], ..Default::default() }).collect();
                for (j, b) in bs.iter().enumerate() {
                    digests.push_back(b.digest());
                    flat.push((i, j));
                }
                batches.push(CertifiedBatch { address: addr(i), batches: bs });
            }
            for close in [false, true] {
                let o = ConsensusOutput::new(CommittedSubDag::default(), Default::default(), 3, close, digests.clone(), batches.clone());
                run.step(1);
                run.state(&("layout", &shape, close));
                let mut ok = o.flatten_batches() == flat && o.batches().len() == l && o.batch_digests() == &digests && o.get_batch_digest(flat.len()).is_none();
                for (ix, (i, j)) in flat.iter().enumerate() {
                    ok &= o.get_batch_digest(ix) == Some(o.batches()[*i].batches[*j].digest());
                    ok &= o.batches()[*i].address == addr(*i);
                    ok &= o.close_epoch_for_last_batch(ix) == close.then_some(ix + 1 == flat.len());
                }
                if flat.is_empty() {
                    ok &= o.close_epoch_for_last_batch(0) == close.then_some(true);
                }
                let back: ConsensusOutput = decode(&encode(&o));
                ok &= back.flatten_batches() == flat && back.batch_digests() == &digests && back.close_epoch_for_last_batch(0).is_none();
                if !ok {
                    run.fail("output", format!("certificates with {shape:?} batches, closing={close}"), format!("{shape:?}"));
                }
            }
        }
    }
}

fn seed_chain(run: &Run) {
    let seen = Distinct::new("seed");
    let epochs = [0, 1, 2, 255, 256, 65536, 1 << 24, u32::MAX];
    let mut frontier: Vec<(EpochSeedChainValue, String)> = vec![];
    for e in epochs {
        let r = EpochSeedChainValue::epoch_root(e);
        let mut x = b"TN_EPOCH_SEED_ROOT_V1".to_vec();
        x.extend(e.to_le_bytes());
        if r.into_inner() != keccak256(x) || r != EpochSeedChainValue::epoch_root(e) || EpochSeedChainValue::from_committed(r.into_inner()) != r {
            run.fail("seed", format!("root of epoch {e}"), "");
        }
        seen.add(run, r.into_inner().as_slice(), format!("root {e}"));
        frontier.push((r, format!("root {e}")));
    }
    let p = EpochSeedChainValue::genesis_placeholder();
    if p.into_inner() != B256::ZERO {
        run.fail("seed", "genesis placeholder", "");
    }
    frontier.push((p, "genesis".into()));
    let depth = run.pick(3, 4);
    run.bound("seed chains", format!("every chain of {depth} folds of 3 rounds and 3 signatures from {} roots", frontier.len()));
    for _ in 0..depth {
        let mut next = vec![];
        for (v, what) in &frontier {
            for round in [0, 2, 512] {
                for k in 0..3usize {
                    let sig = keys()[k].sign(b"s");
                    let x = v.fold(round, &sig);
                    let w = format!("{what} {round}/{k}");
                    if x.into_inner() != fold(v.into_inner(), round, &sig) {
                        run.fail("seed", format!("fold of {w}"), w.clone());
                    }
                    seen.add(run, x.into_inner().as_slice(), w.clone());
                    next.push((x, w));
                }
            }
        }
        frontier = next;
        if frontier.len() > 20_000 {
            break;
        }
    }
}

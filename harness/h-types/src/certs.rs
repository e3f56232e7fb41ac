//! Certificates (T02): every signer set against every claimed signer set, every way votes can be assembled,
//! every mix of votes for other messages, every corrupted bit.
use crate::util::*;
use indexmap::IndexMap;
use roaring::RoaringBitmap;
use serde::Serialize;
use std::collections::BTreeSet;
use tn_types::*;
use vlib::{explore::*, guarded, par, Run};

pub struct Bin<'a>(pub &'a [u8]);
impl Serialize for Bin<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(self.0)
    }
}
pub fn bitmap_bytes(bits: u64) -> Vec<u8> {
    let b: RoaringBitmap = vlib::explore::bits(bits).into_iter().map(|i| i as u32).collect();
    let mut v = vec![];
    b.serialize_into(&mut v).unwrap();
    v
}
#[derive(Serialize)]
struct Wire<'a> {
    header: &'a Header,
    state: SignatureVerificationState,
    signers: Bin<'a>,
}
fn cert(h: &Header, state: SignatureVerificationState, claimed: u64) -> Certificate {
    let b = bitmap_bytes(claimed);
    decode(&encode(&Wire { header: h, state, signers: Bin(&b) }))
}
pub fn cert_of(h: &Header, sig: BlsSignature, claimed: u64) -> Certificate {
    cert(h, SignatureVerificationState::VerifiedDirectly(sig), claimed)
}
pub fn aggregate(sigs: &[BlsSignature]) -> BlsSignature {
    if sigs.is_empty() {
        return BlsSignature::default();
    }
    BlsAggregateSignature::aggregate(sigs, true).unwrap().to_signature()
}

fn header(author: usize, round: Round, epoch: Epoch) -> Header {
    HeaderBuilder::default()
        .author(AuthorityIdentifier::from(keys()[author].pk()))
        .round(round)
        .epoch(epoch)
        .created_at(1000)
        .payload([(BlockHash::repeat_byte(3), 0)].into_iter().collect())
        .parents([HeaderDigest::new([5; 32])].into_iter().collect())
        .build()
}
fn vote(h: &Header, k: usize) -> BlsSignature {
    *Vote::new(h, AuthorityIdentifier::from(keys()[k].pk()), &keys()[k]).signature()
}

/// The same certificate must be judged the same whatever verification state it claims.
fn judge(h: &Header, sig: BlsSignature, claimed: u64, c: &Committee) -> Result<Option<BTreeSet<BlsPublicKey>>, String> {
    let mut res = vec![];
    for state in [
        SignatureVerificationState::Unverified(sig),
        SignatureVerificationState::VerifiedDirectly(sig),
        SignatureVerificationState::VerifiedIndirectly(sig),
        SignatureVerificationState::Unsigned(sig),
    ] {
        let mut x = cert(h, state, claimed);
        let ok = x.verify_cert(&c.bls_keys()).is_ok();
        if ok && !x.is_verified() {
            return Err("accepted but not marked verified".into());
        }
        res.push(ok);
        if !matches!(state, SignatureVerificationState::Unverified(_)) {
            continue;
        }
        let mut x = cert(h, state, claimed);
        let r = x.validate_and_verify(c);
        if r.is_ok() != ok {
            return Err(format!("the two ways of verifying disagree ({ok}, {r:?})"));
        }
        if r.is_err() && x.is_verified() {
            return Err("rejected but marked verified".into());
        }
        let fetched = validate_fetched_certificate(cert(h, SignatureVerificationState::VerifiedDirectly(sig), claimed));
        if fetched.map(|f| f.is_verified()).unwrap_or(false) {
            return Err("a fetched certificate keeps its claim to be verified".into());
        }
    }
    if res.iter().any(|r| *r != res[0]) {
        return Err(format!("the verdict depends on the claimed verification state: {res:?}"));
    }
    let mut g = cert(h, SignatureVerificationState::Genesis, claimed);
    if g.verify_cert(&c.bls_keys()).is_ok() {
        return Err("accepted because it claims to be a genesis certificate".into());
    }
    if !res[0] {
        return Ok(None);
    }
    let (w, pks) = cert(h, SignatureVerificationState::Unverified(sig), claimed).signed_by(&c.bls_keys());
    if w != pks.len() as u64 {
        return Err(format!("{} signers weigh {w}", pks.len()));
    }
    Ok(Some(pks.into_iter().collect()))
}

pub fn t02(run: &Run) {
    run.assume("BLS12-381 (blst) is unforgeable");
    let sizes: &[usize] = run.pick(&[4, 5][..], &[2, 3, 4, 5, 6, 7][..]);
    run.bound("signer sets x claimed sets", format!("all, with two positions beyond the committee, committees of {sizes:?}"));
    for &n in sizes {
        let c = committee(n, 2);
        let q = c.quorum_threshold();
        let h = header(1, 6, 2);
        let votes: Vec<BlsSignature> = (0..n).map(|k| vote(&h, k)).collect();
        run.sample(format!("committee of {n}, quorum {q}: {} signer sets x {} claims", 1 << n, 1 << (n + 2)));
        par(run, 1 << n, |s| {
            let sig = aggregate(&bits(s as u64).iter().map(|&i| votes[i]).collect::<Vec<_>>());
            for claimed in subsets(n + 2) {
                let inner = claimed & ((1 << n) - 1);
                run.state(&(n, s, claimed));
                run.step(1);
                let want = inner == s as u64 && inner.count_ones() as u64 >= q;
                match judge(&h, sig, claimed, &c) {
                    Err(e) => run.fail("verify", format!("committee of {n}, signed by {:?}, claims {:?}: {e}", bits(s as u64), bits(claimed)), ""),
                    Ok(None) if !want || inner != claimed => run.outcome("rejected"),
                    Ok(Some(p)) if want && p == bits(s as u64).iter().map(|&i| keys()[i].pk()).collect() => run.outcome("accepted"),
                    Ok(r) => run.fail("verify", format!("committee of {n}, signed by {:?}, claims {:?}: accepted={}", bits(s as u64), bits(claimed), r.is_some()), ""),
                }
                run.trace();
                if run.stop() {
                    return;
                }
            }
        });
    }
    // each member's signature is over this header, another header, or this header's digest for another purpose
    let n = 4;
    let c = committee(n, 2);
    let h = header(1, 6, 2);
    let other = header(1, 7, 2);
    let d: Digest<32> = h.digest().into();
    let kinds: Vec<[BlsSignature; 5]> = (0..n)
        .map(|k| {
            let by = |i: Intent| keys()[k].sign(&encode(&IntentMessage::new(i, d)));
            [
                vote(&h, k),
                vote(&other, k),
                by(Intent::telcoin(IntentScope::ConsensusDigest)),
                by(Intent::consensus(IntentScope::EpochBoundary)),
                keys()[k].sign(&encode(&d)),
            ]
        })
        .collect();
    let total = seq_count(5, n) as usize;
    run.bound("votes for other messages", format!("all {total} mixes, committee of {n}"));
    par(run, total, |i| {
        let mix = seq_of(i as u64, 5, n);
        let sig = aggregate(&(0..n).map(|k| kinds[k][mix[k]]).collect::<Vec<_>>());
        run.step(1);
        run.state(&("mix", i));
        let good = mix.iter().all(|m| *m == 0);
        match judge(&h, sig, (1 << n) - 1, &c) {
            Ok(r) if r.is_some() == good => {}
            r => run.fail("mix", format!("votes of kinds {mix:?}: {r:?}"), format!("{mix:?}")),
        }
        run.trace();
    });
    // other committees
    for mask in subsets(7).filter(|m| m.count_ones() == 4) {
        let ix = bits(mask);
        let oc = committee_of(&ix, 2);
        if !ix.contains(&1) {
            continue;
        }
        let signers = [0usize, 1, 2];
        let sig = aggregate(&signers.map(|k| kinds[k][0]));
        for claimed in subsets(4) {
            let who: Vec<usize> = bits(claimed).iter().map(|&i| ix[i]).collect();
            run.step(1);
            run.state(&("committee", mask, claimed));
            match judge(&h, sig, claimed, &oc) {
                Ok(r) if r.is_some() == (who == signers) => {}
                r => run.fail("committee", format!("signed by {signers:?}, claims {claimed:b} of committee {ix:?}: {r:?}"), ""),
            }
        }
    }
    assemble(run);
    flips(run);
    headers(run);
}

/// Certificates assembled from every list of votes.
fn assemble(run: &Run) {
    let n = 4;
    let c = committee(n, 2);
    let h = header(0, 3, 2);
    let len = run.pick(5, 6);
    let votes: Vec<BlsSignature> = (0..6).map(|k| vote(&h, k)).collect();
    run.bound("vote lists", format!("every list of up to {len} votes by 4 members and an outsider"));
    for l in 0..=len {
        let total = seq_count(5, l) as usize;
        par(run, total, |i| {
            let who = seq_of(i as u64, 5, l);
            let v: Vec<_> = who.iter().map(|&k| (AuthorityIdentifier::from(keys()[k].pk()), votes[k])).collect();
            let members: BTreeSet<usize> = who.iter().copied().filter(|k| *k < 4).collect();
            run.state(&("votes", &members));
            run.step(1);
            run.trace();
            match Certificate::new_unverified(&c, h.clone(), v) {
                Err(_) if members.len() < 3 => run.outcome("no quorum"),
                Err(e) => run.fail("assemble", format!("votes of {who:?}: {e}"), format!("{who:?}")),
                Ok(_) if members.len() < 3 => run.fail("assemble", format!("votes of {who:?} make a certificate"), format!("{who:?}")),
                Ok(x) => {
                    let pks: BTreeSet<_> = x.signed_by(&c.bls_keys()).1.into_iter().collect();
                    let with: BTreeSet<_> = x.signed_authorities_with_committee(&c).into_iter().collect();
                    let want: BTreeSet<_> = members.iter().map(|k| keys()[*k].pk()).collect();
                    let mut y: Certificate = decode(&encode(&x));
                    if x.is_verified() || pks != want || with != want || y.digest() != h.digest() || y.verify_cert(&c.bls_keys()).is_err() {
                        run.fail("assemble", format!("votes of {who:?}: signers {pks:?}, verifies={}", y.is_verified()), format!("{who:?}"));
                    }
                    run.outcome("certificate");
                }
            }
        });
    }
}

/// Every flipped bit and every truncation of an encoded certificate.
fn flips(run: &Run) {
    let c = committee(4, 2);
    let h = header(1, 6, 2);
    let votes: Vec<_> = [0usize, 2, 3].iter().map(|&k| (AuthorityIdentifier::from(keys()[k].pk()), vote(&h, k))).collect();
    let good = Certificate::new_unverified(&c, h.clone(), votes).unwrap();
    let bytes = encode(&good);
    run.bound("damaged bytes", format!("every bit flip and truncation of a {} byte certificate", bytes.len()));
    let want = good.signed_by(&c.bls_keys());
    par(run, bytes.len(), |i| {
        run.state(&("byte", i));
        if try_decode::<Certificate>(&bytes[..i]).is_ok() {
            run.fail("truncated", format!("{i} of {} bytes decode", bytes.len()), "");
        }
        for b in 0..8 {
            let mut x = bytes.clone();
            x[i] ^= 1 << b;
            run.step(1);
            run.trace();
            match guarded(|| try_decode::<Certificate>(&x)) {
                Err(e) => run.fail("damage", format!("bit {b} of byte {i} flipped: {e}"), format!("{i} {b}")),
                Ok(Err(_)) => run.outcome("undecodable"),
                Ok(Ok(mut y)) => {
                    if y.verify_cert(&c.bls_keys()).is_ok() && (y.digest() != h.digest() || y.signed_by(&c.bls_keys()) != want || encode(y.header()) != encode(&h)) {
                        run.fail("damage", format!("bit {b} of byte {i} flipped: still verifies"), format!("{i} {b}"));
                    }
                    run.outcome("decodable");
                }
            }
        }
    });
}

/// Which headers may be certified at all, and genesis.
fn headers(run: &Run) {
    let n = 4;
    let c = committee(n, 2);
    let parents = |k: usize| -> BTreeSet<HeaderDigest> { (0..k).map(|i| HeaderDigest::new([i as u8 + 1; 32])).collect() };
    for epoch in [0, 1, 2, 3, u32::MAX] {
        for author in [0usize, 3, 4] {
            for np in 0..=n + 2 {
                for nb in [0, 1, MAX_HEADER_NUM_OF_BATCHES - 1, MAX_HEADER_NUM_OF_BATCHES, MAX_HEADER_NUM_OF_BATCHES + 1] {
                    for bad_worker in [None, Some((0usize, 1u16)), Some((nb.saturating_sub(1), 1)), Some((nb / 2, u16::MAX))] {
                        let payload: IndexMap<BlockHash, WorkerId> =
                            (0..nb).map(|i| (BlockHash::from(U256::from(i)), bad_worker.filter(|b| b.0 == i).map(|b| b.1).unwrap_or(0))).collect();
                        let bad = nb > 0 && bad_worker.is_some();
                        let h = HeaderBuilder::default()
                            .author(AuthorityIdentifier::from(keys()[author].pk()))
                            .round(4)
                            .epoch(epoch)
                            .parents(parents(np))
                            .payload(payload)
                            .build();
                        let ok = epoch == 2 && author < 4 && np <= n && nb <= MAX_HEADER_NUM_OF_BATCHES && !bad;
                        run.step(1);
                        run.state(&("header", epoch, author, np, nb, bad_worker));
                        let got = h.validate(&c);
                        if got.is_ok() != ok {
                            run.fail("header", format!("epoch {epoch} of 2, author {author} of 4, {np} parents, {nb} batches, bad worker {bad_worker:?}: {got:?}"), "");
                        }
                    }
                }
            }
        }
    }
    // quorum-signed, but not a valid header of this committee
    for h in [header(5, 6, 2), header(1, 6, 3), header(1, 6, 1)] {
        let sig = aggregate(&(0..4).map(|k| vote(&h, k)).collect::<Vec<_>>());
        let mut x = cert(&h, SignatureVerificationState::Unverified(sig), 0b1111);
        if x.validate_and_verify(&c).is_ok() {
            run.fail("header", format!("a certificate of {h:?} is accepted in {c}"), "");
        }
    }
    let g = Certificate::genesis(&c);
    let authors: BTreeSet<_> = g.iter().map(|g| g.origin().clone()).collect();
    if g.len() != n || authors != c.authorities().iter().map(|a| a.id()).collect() || g.iter().any(|g| g.round() != 0 || g.epoch() != 2) {
        run.fail("genesis", "not one certificate of round 0 per member", "");
    }
    for x in &g {
        if x.clone().validate_and_verify(&c).is_err() || x.clone().validate_and_verify(&committee(4, 3)).is_ok() {
            run.fail("genesis", "a genesis certificate is not accepted in exactly its own epoch", "");
        }
        for (i, mut y) in [
            x.header().clone(),
            HeaderBuilder::from_header(x.header()).created_at(1).build(),
            HeaderBuilder::from_header(x.header()).parents(parents(1)).build(),
            HeaderBuilder::from_header(x.header()).round(1).build(),
            HeaderBuilder::from_header(x.header()).author(AuthorityIdentifier::from(keys()[6].pk())).build(),
        ]
        .map(|h| cert(&h, SignatureVerificationState::default(), 0))
        .into_iter()
        .enumerate()
        {
            run.step(1);
            if y.validate_and_verify(&c).is_ok() != (i == 0) {
                run.fail("genesis", format!("unsigned variation {i} of a genesis certificate: accepted={}", i != 0), "");
            }
        }
    }
}

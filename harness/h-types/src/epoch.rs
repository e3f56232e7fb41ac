//! Epoch records (T03): which certificates and successor committees are accepted, over every signer set,
//! claimed set and committee.
use crate::{certs::*, util::*};
use roaring::RoaringBitmap;
use std::collections::BTreeSet;
use tn_types::*;
use vlib::{explore::*, guarded, par, Run};

fn record(committee: &[usize]) -> EpochRecord {
    EpochRecord {
        epoch: 4,
        committee: committee.iter().map(|&i| keys()[i].pk()).collect(),
        next_committee: [0usize, 1, 2, 3].iter().map(|&i| keys()[i].pk()).collect(),
        parent_hash: EpochDigest::from([1; 32]),
        final_state: BlockNumHash::new(10, B256::repeat_byte(2)),
        final_consensus: ConsensusNumHash::new(11, ConsensusHeaderDigest::from([3; 32])),
    }
}

pub fn t03(run: &Run) {
    run.assume("BLS12-381 (blst) is unforgeable; BLAKE3 is collision free");
    let sizes: &[usize] = run.pick(&[1, 3, 4, 5][..], &[1, 2, 3, 4, 5, 6, 7][..]);
    run.bound("signer sets x claimed sets", format!("all, with two positions beyond the committee, committees of {sizes:?}, in two key orders"));
    for &n in sizes {
        for rev in [false, true] {
            let mut ix: Vec<usize> = (0..n).collect();
            if rev {
                ix.reverse();
            }
            let r = record(&ix);
            let q = n - (n - 1) / 3;
            if r.super_quorum() != q {
                run.fail("quorum", format!("{} of {n}", r.super_quorum()), "");
            }
            let votes: Vec<EpochVote> = ix.iter().map(|&k| r.sign_vote(&keys()[k])).collect();
            for (v, k) in votes.iter().zip(&ix) {
                if !v.check_signature() || v.epoch_hash != r.digest() || v.public_key != keys()[*k].pk() || v.epoch != 4 {
                    run.fail("vote", "a vote does not check", "");
                }
            }
            par(run, 1 << n, |s| {
                let signature = aggregate(&bits(s as u64).iter().map(|&i| votes[i].signature).collect::<Vec<_>>());
                for claimed in subsets(n + 2) {
                    let inner = claimed & ((1 << n) - 1);
                    let c = EpochCertificate { epoch_hash: r.digest(), signature, signed_authorities: bits(claimed).into_iter().map(|i| i as u32).collect() };
                    let c: EpochCertificate = decode(&encode(&c));
                    run.state(&(n, rev, s, claimed));
                    run.step(1);
                    run.trace();
                    let got = r.verify_with_cert(&c);
                    let want = inner == s as u64 && inner.count_ones() as usize >= q;
                    if got != want && (got || inner == claimed) {
                        run.fail("cert", format!("committee of {n}, signed by {:?}, claims {:?}: accepted={got}", bits(s as u64), bits(claimed)), "");
                    }
                    if claimed == 0 {
                        let who: Vec<BlsPublicKey> = bits(s as u64).iter().map(|&i| keys()[ix[i]].pk()).collect();
                        if c.check_signatures(&who) == who.is_empty() {
                            run.fail("cert", format!("signers {:?} not recognised", bits(s as u64)), "");
                        }
                        for k in 0..n {
                            let mut w = who.clone();
                            if w.contains(&keys()[k].pk()) { w.retain(|x| *x != keys()[k].pk()) } else { w.push(keys()[k].pk()) }
                            if c.check_signatures(&w) {
                                run.fail("cert", format!("signed by {:?}, checks as signed by {w:?}", bits(s as u64)), "");
                            }
                        }
                    }
                    run.outcome(if got { "accepted" } else { "rejected" });
                    if run.stop() {
                        return;
                    }
                }
            });
        }
    }
    // the first epoch and the last, with a plain past and none at all
    for epoch in [4, 0, 1, 255, 256, u32::MAX] {
        for blank in [false, true] {
            let mut base = record(&[0, 1, 2, 3]);
            base.epoch = epoch;
            if blank {
                base = EpochRecord { epoch, committee: base.committee, next_committee: base.next_committee, ..Default::default() };
            }
            binding(run, base);
        }
    }
    // successor committees: every list over 5 keys (repetitions and orders included) against every expected set
    let (len, top) = run.pick((5, 7), (6, 9));
    run.bound("committee compatibility", format!("every list of up to {len} of 5 keys, and every subset of {top} keys, against every subset"));
    let spec = |list: &[usize], exp: u64| {
        let set: BTreeSet<usize> = list.iter().copied().collect();
        let e = bits(exp);
        let sub = set.iter().all(|i| exp >> i & 1 == 1);
        set.len() == list.len()
            && sub
            && (list.len() == e.len() || (list.len() < e.len() && list.len() >= 4 && 3 * list.len() >= 2 * e.len()))
    };
    let sets: Vec<BTreeSet<BlsPublicKey>> = subsets(top).map(|m| bits(m).iter().map(|&i| keys()[i].pk()).collect()).collect();
    let mut lists: Vec<Vec<usize>> = subsets(top).map(bits).collect();
    for l in 0..=len {
        lists.extend((0..seq_count(5, l)).map(|i| seq_of(i, 5, l)));
    }
    par(run, lists.len(), |i| {
        let r = record(&lists[i]);
        run.state(&("compatible", &lists[i]));
        for (m, e) in sets.iter().enumerate() {
            run.step(1);
            if r.committee_compatible(e) != spec(&lists[i], m as u64) {
                run.fail("compatible", format!("committee {:?} against expected {:?}: {}", lists[i], bits(m as u64), r.committee_compatible(e)), "");
                return;
            }
        }
    });
    // seeds
    let msgs: Vec<(u32, u32, u8)> = vec![(1, 2, 3), (2, 1, 3), (1, 3, 3), (1, 2, 4), (0, 0, 0), (u32::MAX, 0, 0)];
    for (i, a) in msgs.iter().enumerate() {
        let m = |x: &(u32, u32, u8)| EpochSeedMessage::new(x.0, x.1, EpochDigest::from([x.2; 32]));
        for k in 0..2 {
            let s = m(a).sign(&keys()[k]);
            for (j, b) in msgs.iter().enumerate() {
                for l in 0..2 {
                    run.step(1);
                    if m(b).verify(&s, &keys()[l].pk()) != (i == j && k == l) {
                        run.fail("seed", format!("signature of {k} over {a:?} against {l} over {b:?}"), "");
                    }
                }
            }
        }
    }
}

fn binding(run: &Run, base: EpochRecord) {
    // a certificate binds every field of the record, and only an epoch-boundary signature counts
    let d = base.digest();
    let cert_of = |r: &EpochRecord| EpochCertificate {
        epoch_hash: r.digest(),
        signature: aggregate(&(0..4).map(|k| r.sign_vote(&keys()[k]).signature).collect::<Vec<_>>()),
        signed_authorities: (0..4u32).collect::<RoaringBitmap>(),
    };
    let good = cert_of(&base);
    if !base.verify_with_cert(&good) {
        run.fail("cert", "a full certificate does not verify", "");
    }
    let variants: Vec<EpochRecord> = {
        let mut v = vec![];
        let mut add = |f: &dyn Fn(&mut EpochRecord)| {
            let mut r = base.clone();
            f(&mut r);
            v.push(r);
        };
        add(&|r| r.epoch = r.epoch.wrapping_add(1));
        add(&|r| r.epoch = r.epoch.wrapping_sub(1));
        add(&|r| r.epoch ^= 0x0400_0000);
        add(&|r| r.committee.swap(0, 1));
        add(&|r| r.committee.push(keys()[4].pk()));
        add(&|r| { r.committee.pop(); });
        add(&|r| r.committee[3] = keys()[4].pk());
        add(&|r| r.next_committee.swap(0, 1));
        add(&|r| r.next_committee.push(keys()[4].pk()));
        add(&|r| { r.next_committee.pop(); });
        add(&|r| { let k = r.committee.pop().unwrap(); r.next_committee.insert(0, k) });
        add(&|r| r.parent_hash = EpochDigest::from([9; 32]));
        add(&|r| r.final_state.number += 1);
        add(&|r| r.final_state.hash = B256::repeat_byte(9));
        add(&|r| r.final_consensus.number += 1);
        add(&|r| r.final_consensus.hash = ConsensusHeaderDigest::from([9; 32]));
        v
    };
    for (i, r) in variants.iter().enumerate() {
        run.step(1);
        run.state(&("field", i, &encode(r)));
        let mut forged = good.clone();
        forged.epoch_hash = r.digest();
        if r.digest() == d || r.verify_with_cert(&good) || r.verify_with_cert(&forged) || base.verify_with_cert(&cert_of(r)) {
            run.fail("binding", format!("variation {i} of the record is covered by the same certificate: {r:?}"), "");
        }
        if decode::<EpochRecord>(&encode(r)) != *r || decode::<EpochRecord>(&encode(r)).digest() != r.digest() {
            run.fail("binding", format!("variation {i} is not read back"), "");
        }
    }
    for (i, intent) in [Intent::consensus(IntentScope::ConsensusDigest), Intent::telcoin(IntentScope::EpochBoundary), Intent::consensus(IntentScope::SystemMessage), Intent::consensus(IntentScope::EpochCloseSeed)].into_iter().enumerate() {
        let m = encode(&IntentMessage::new(intent, d));
        let mut c = good.clone();
        c.signature = aggregate(&(0..4).map(|k| keys()[k].sign(&m)).collect::<Vec<_>>());
        let v = EpochVote { epoch: base.epoch, epoch_hash: d, public_key: keys()[0].pk(), signature: keys()[0].sign(&m) };
        if base.verify_with_cert(&c) || v.check_signature() {
            run.fail("intent", format!("signatures for another purpose ({i}) count"), "");
        }
    }
    let v = base.sign_vote(&keys()[0]);
    if v.epoch != base.epoch || v.epoch_hash != d || v.public_key != keys()[0].pk() || !v.check_signature() {
        run.fail("vote", format!("epoch {}: its vote is {v:?}", base.epoch), "");
    }
    for (i, w) in [
        EpochVote { public_key: keys()[1].pk(), ..v },
        EpochVote { epoch_hash: EpochDigest::from([7; 32]), ..v },
        EpochVote { signature: keys()[1].sign(b"x"), ..v },
        EpochVote { signature: BlsSignature::default(), ..v },
        EpochVote { signature: BlsSignature::default(), public_key: BlsPublicKey::default(), ..v },
    ]
    .iter()
    .enumerate()
    {
        if guarded(|| w.check_signature()) != Ok(false) {
            run.fail("vote", format!("forged vote {i} checks"), "");
        }
    }
}

//! Signatures and keys (T04): every combination of signer, purpose and message; every encoding length and
//! every corrupted bit; points outside the group.
use crate::{certs::aggregate, util::*};
use rand::{rngs::StdRng, SeedableRng};
use std::{collections::BTreeSet, str::FromStr};
use tn_types::*;
use vlib::{explore::*, guarded, par, Run};

fn intents() -> Vec<Intent> {
    let scopes = [IntentScope::ProofOfPossession, IntentScope::EpochBoundary, IntentScope::ConsensusDigest, IntentScope::SystemMessage, IntentScope::EpochCloseSeed];
    scopes.into_iter().flat_map(|s| [Intent::telcoin(s), Intent::consensus(s)]).collect()
}

pub fn t04(run: &Run) {
    run.assume("BLS12-381 (blst) and ed25519 are unforgeable");
    matrix(run);
    aggregates(run);
    possession(run);
    outside_group(run);
    encodings(run);
    intent_text(run);
}

/// Signed by `a` for purpose `i` over `m` verifies against `b` for `j` over `n` exactly if they are the same.
fn matrix(run: &Run) {
    let its = intents();
    let msgs: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0, 0], vec![1], vec![7; 32]];
    let ks = &keys()[..2];
    run.bound("signature matrix", format!("{} purposes x {} messages x {} keys, squared", its.len(), msgs.len(), ks.len()));
    let cases: Vec<(usize, usize, usize)> = (0..its.len()).flat_map(|i| (0..msgs.len()).flat_map(move |m| (0..2).map(move |k| (i, m, k)))).collect();
    par(run, cases.len(), |x| {
        let (i, m, k) = cases[x];
        let im = IntentMessage::new(its[i].clone(), msgs[m].clone());
        let sig = BlsSignature::new_secure(&im, &*ks[k].0);
        let raw = encode(&im);
        if raw[..3] != [i as u8 / 2, 0, i as u8 % 2] || raw[3..] != encode(&msgs[m])[..] {
            run.fail("message", format!("{im:?} is signed as {raw:?}"), "");
        }
        if ks[k].sign(&raw) != sig || ks[k].request_signature_direct(&raw) != sig {
            run.fail("message", "signing the message and its bytes differ", "");
        }
        for (j, n, l) in &cases {
            let want = cases[x] == (*j, *n, *l);
            let om = IntentMessage::new(its[*j].clone(), msgs[*n].clone());
            let bytes = encode(&om);
            run.step(1);
            run.state(&(x, j, n, l));
            let pk = ks[*l].pk();
            let got = [
                sig.verify_secure(&om, &pk),
                sig.verify_raw(&bytes, &pk),
                sig.verify_secure_bytes(&bytes, &pk),
                bls_verify_secure(&sig, &pk, &bytes),
                BlsAggregateSignature::from_signature(&sig).verify_secure(&om, &[pk]),
            ];
            if got != [want; 5] {
                run.fail("matrix", format!("signed {:?}, checked {:?}: {got:?}", cases[x], (j, n, l)), "");
            }
        }
        run.trace();
    });
}

/// Aggregates verify against exactly the multiset of their signers, in any order.
fn aggregates(run: &Run) {
    let n = run.pick(4, 6);
    run.bound("aggregates", format!("every non-empty subset of {n} signatures, in two orders, against every subset of keys"));
    let im = IntentMessage::new(Intent::consensus(IntentScope::ConsensusDigest), 5u64);
    let sigs: Vec<_> = (0..n).map(|k| BlsSignature::new_secure(&im, &*keys()[k].0)).collect();
    par(run, 1 << n, |s| {
        let ix = bits(s as u64);
        let v: Vec<_> = ix.iter().map(|&i| sigs[i]).collect();
        let sig = aggregate(&v);
        if sig != aggregate(&v.iter().rev().copied().collect::<Vec<_>>()) {
            run.fail("aggregate", format!("{ix:?}: order matters"), "");
        }
        for t in subsets(n) {
            let tx = bits(t);
            let pks: Vec<_> = tx.iter().map(|&i| keys()[i].pk()).collect();
            let back: Vec<_> = pks.iter().rev().copied().collect();
            run.step(1);
            run.state(&("agg", s, t));
            let a = BlsAggregateSignature::from_signature(&sig);
            let want = s != 0 && s as u64 == t;
            if a.verify_secure(&im, &pks) != want || a.verify_secure(&im, &back) != want {
                run.fail("aggregate", format!("signed by {ix:?}, checked against {tx:?}: {}", !want), "");
            }
            if want && a.verify_secure(&IntentMessage::new(im.intent.clone(), 6u64), &pks) {
                run.fail("aggregate", format!("{ix:?}: another value verifies"), "");
            }
            // one key left out, one counted twice
            if want {
                let mut twice = pks.clone();
                twice.push(pks[0]);
                if a.verify_secure(&im, &twice) {
                    run.fail("aggregate", format!("{ix:?}: a key counted twice verifies"), "");
                }
            }
        }
        run.trace();
    });
}

fn possession(run: &Run) {
    let n = 3;
    run.bound("possession proofs", format!("{n} keys x {n} addresses, squared; {n} network keys x 3 genesis, squared; every bit of a proof flipped"));
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|k| (0..n).map(move |a| (k, a))).collect();
    for &(k, a) in &pairs {
        let proof = generate_proof_of_possession_bls_for_test(&keys()[k].0, &addr(a)).unwrap();
        let msg = construct_proof_of_possession_message(&keys()[k].pk(), &addr(a));
        let mut want = vec![0u8, 0, 0];
        want.extend_from_slice(&keys()[k].pk().to_bytes());
        want.extend_from_slice(addr(a).as_slice());
        if msg != want {
            run.fail("possession", "the proof message has another layout", "");
        }
        for &(l, b) in &pairs {
            run.step(1);
            run.state(&("pop", k, a, l, b));
            let ok = verify_proof_of_possession_bls(&proof, &keys()[l].pk(), &addr(b)).is_ok();
            if ok != ((k, a) == (l, b)) {
                run.fail("possession", format!("proof of key {k} and address {a} for key {l} and address {b}: {ok}"), "");
            }
        }
        run.trace();
    }
    let proof = generate_proof_of_possession_bls_for_test(&keys()[0].0, &addr(0)).unwrap();
    for (what, sig, pk) in [
        ("infinity signature", BlsSignature::default(), keys()[0].pk()),
        ("infinity key and signature", BlsSignature::default(), BlsPublicKey::default()),
        ("infinity key", proof, BlsPublicKey::default()),
    ] {
        if verify_proof_of_possession_bls(&sig, &pk, &addr(0)).is_ok() {
            run.fail("possession", format!("{what} accepted"), "");
        }
    }
    par(run, 48 * 8, |i| {
        let mut b = proof.to_bytes();
        b[i / 8] ^= 1 << (i % 8);
        run.step(1);
        if let Ok(s) = BlsSignature::from_bytes(&b) {
            if verify_proof_of_possession_bls(&s, &keys()[0].pk(), &addr(0)).is_ok() {
                run.fail("possession", format!("bit {} of byte {} flipped: accepted", i % 8, i / 8), "");
            }
            run.outcome("decodable");
        }
    });
    // network keys, bound to the chain
    let nk: Vec<NetworkKeypair> = (1..=n as u8).map(|i| NetworkKeypair::ed25519_from_bytes([i; 32]).unwrap()).collect();
    let gs: Vec<Genesis> = (0..3u64)
        .map(|i| {
            let mut g = Genesis::default();
            g.config.chain_id = 2017 + (i != 0) as u64;
            if i == 2 {
                g.alloc.insert(addr(0), GenesisAccount::default());
            }
            g
        })
        .collect();
    for k in 0..n {
        for g in 0..3 {
            let proof = generate_proof_of_possession_network(&nk[k], &gs[g]);
            for l in 0..n {
                for h in 0..3 {
                    run.step(1);
                    run.state(&("netpop", k, g, l, h));
                    let pk: NetworkPublicKey = nk[l].public().into();
                    let ok = verify_proof_of_possession_network(&proof, &pk, &gs[h]);
                    if ok != ((k, g) == (l, h)) {
                        run.fail("network possession", format!("proof of key {k}, genesis {g} for key {l}, genesis {h}: {ok}"), "");
                    }
                }
            }
            if k == 0 && g == 0 {
                let pk: NetworkPublicKey = nk[0].public().into();
                for i in 0..proof.len() * 8 {
                    let mut p = proof.clone();
                    p[i / 8] ^= 1 << (i % 8);
                    if verify_proof_of_possession_network(&p, &pk, &gs[0]) {
                        run.fail("network possession", format!("bit {i} flipped: accepted"), "");
                    }
                }
                for c in 0..proof.len() {
                    if verify_proof_of_possession_network(&proof[..c].to_vec(), &pk, &gs[0]) {
                        run.fail("network possession", format!("{c} bytes: accepted"), "");
                    }
                }
            }
        }
    }
}

/// A signature or key that is on the curve but outside the group of signatures and keys.
fn outside_group(run: &Run) {
    let im = IntentMessage::new(Intent::consensus(IntentScope::ConsensusDigest), 5u64);
    let msg = encode(&im);
    let good = BlsSignature::new_secure(&im, &*keys()[0].0);
    let mut found = 0;
    for i in 0..40u8 {
        let mut b = [0u8; 48];
        b[0] = 0x80;
        b[47] = i;
        let Ok(t) = BlsSignature::from_bytes(&b) else { continue };
        if t.validate(true).is_ok() {
            continue;
        }
        found += 1;
        // the valid signature shifted by the alien point
        let mut agg = BlsAggregateSignature::from_signature(&good);
        let core: blst::min_sig::Signature = t.into();
        agg.add_signature(&core, false).unwrap();
        for (what, s) in [("alien", t), ("shifted", agg.to_signature())] {
            run.step(1);
            run.state(&("alien sig", i, what));
            let pk = keys()[0].pk();
            let got = [s.verify_secure(&im, &pk), s.verify_raw(&msg, &pk), s.verify_secure_bytes(&msg, &pk), bls_verify_secure(&s, &pk, &msg), BlsAggregateSignature::from_signature(&s).verify_secure(&im, &[pk])];
            if got != [false; 5] {
                run.fail("group", format!("{what} signature {i} outside the group verifies: {got:?}"), "");
            }
            for len in 1..=5 {
                for at in 0..len {
                    let all: Vec<_> = (0..len).map(|k| if k == at { s } else { good }).collect();
                    run.step(1);
                    if BlsAggregateSignature::aggregate(&all, true).is_ok() {
                        run.fail("group", format!("{what} signature {i} outside the group aggregates as number {at} of {len}"), "");
                    }
                }
            }
        }
    }
    for i in 0..80u8 {
        let mut b = [0u8; 96];
        b[0] = 0x80;
        b[95] = i;
        let Ok(pk) = BlsPublicKey::from_literal_bytes(&b) else { continue };
        if pk.validate().is_ok() {
            continue;
        }
        found += 1;
        run.step(1);
        run.state(&("alien key", i));
        if verify_proof_of_possession_bls(&good, &pk, &addr(0)).is_ok() || bls_verify_secure(&good, &pk, &msg) {
            run.fail("group", format!("key {i} outside the group verifies"), "");
        }
    }
    // Signatures and keys shifted by a point whose order has no factor in common with the group's: a pairing does not see it.
    let mut seen = BTreeSet::new();
    for i in 0..40u8 {
        let mut b = [0u8; 48];
        b[0] = 0x80;
        b[47] = i;
        let Some(t) = small_signature(&b) else { continue };
        let pk = keys()[0].pk();
        let shift = |s: &BlsSignature| {
            let mut agg = BlsAggregateSignature::from_signature(s);
            let core: blst::min_sig::Signature = t.into();
            agg.add_signature(&core, false).unwrap();
            agg.to_signature()
        };
        let s = shift(&good);
        if s == good || s.validate(true).is_ok() {
            continue;
        }
        seen.insert(s.to_bytes());
        let proof = shift(&generate_proof_of_possession_bls_for_test(&keys()[0].0, &addr(0)).unwrap());
        let two = shift(&BlsAggregateSignature::aggregate(&[good, BlsSignature::new_secure(&im, &*keys()[1].0)], true).unwrap().to_signature());
        let got = [
            s.verify_secure(&im, &pk),
            s.verify_raw(&msg, &pk),
            s.verify_secure_bytes(&msg, &pk),
            bls_verify_secure(&s, &pk, &msg),
            BlsAggregateSignature::from_signature(&s).verify_secure(&im, &[pk]),
            BlsAggregateSignature::from_signature(&two).verify_secure(&im, &[pk, keys()[1].pk()]),
            verify_proof_of_possession_bls(&proof, &pk, &addr(0)).is_ok(),
        ];
        run.step(got.len() as u64);
        run.state(&("shifted", i));
        if got.iter().any(|g| *g) {
            run.fail("group", format!("a good signature moved out of the group by point {i} verifies: {got:?}"), "");
        }
    }
    for i in 0..40u8 {
        let mut b = [0u8; 96];
        b[0] = 0x80;
        b[95] = i;
        let Some(pk) = shifted_key(&b, &keys()[0].pk()) else { continue };
        if pk.validate().is_ok() {
            continue;
        }
        seen.insert([i; 48]);
        let proof = {
            let message = construct_proof_of_possession_message(&pk, &addr(0));
            keys()[0].0.sign(&message)
        };
        let got = [
            good.verify_secure(&im, &pk),
            good.verify_raw(&msg, &pk),
            good.verify_secure_bytes(&msg, &pk),
            bls_verify_secure(&good, &pk, &msg),
            BlsAggregateSignature::from_signature(&good).verify_secure(&im, &[pk]),
            verify_proof_of_possession_bls(&proof, &pk, &addr(0)).is_ok(),
        ];
        run.step(got.len() as u64);
        run.state(&("shifted key", i));
        if got.iter().any(|g| *g) {
            run.fail("group", format!("a good key moved out of the group by point {i} verifies: {got:?}"), "");
        }
    }
    if seen.len() < 10 {
        run.fail("vacuous", "no shifted signatures and keys were found", "");
    }
    run.outcome(format!("{found} points outside the group"));
    if found < 10 {
        run.fail("vacuous", "no points outside the group were found", "");
    }
}

/// The order of the signature group: its lower and its upper half.
const ORDER: [u128; 2] = [0x53bda402fffe5bfeffffffff00000001, 0x73eda753299d7d483339d80809a1d805];
/// A point of small order: the decoded one times the order of the group.
fn small_signature(b: &[u8; 48]) -> Option<BlsSignature> {
    let sig = BlsSignature::from_bytes(b).ok()?;
    let bytes = sig.to_bytes();
    let mut out = [0u8; 48];
    // SAFETY: plain values, of the sizes blst asks for.
    unsafe {
        let mut a = blst::blst_p1_affine::default();
        if blst::blst_p1_uncompress(&mut a, bytes.as_ptr()) != blst::BLST_ERROR::BLST_SUCCESS {
            return None;
        }
        let mut p = blst::blst_p1::default();
        blst::blst_p1_from_affine(&mut p, &a);
        let mut sum = blst::blst_p1::default();
        // double and add, which needs no group
        for i in (0..256).rev() {
            let d = sum;
            blst::blst_p1_double(&mut sum, &d);
            if ORDER[i / 128] >> (i % 128) & 1 == 1 {
                let d = sum;
                blst::blst_p1_add_or_double(&mut sum, &d, &p);
            }
        }
        blst::blst_p1_compress(out.as_mut_ptr(), &sum);
    }
    BlsSignature::from_bytes(&out).ok()
}
/// The key plus a point of small order.
fn shifted_key(b: &[u8; 96], key: &BlsPublicKey) -> Option<BlsPublicKey> {
    let mut out = [0u8; 96];
    // SAFETY: as above.
    unsafe {
        let point = |bytes: &[u8; 96]| {
            let mut a = blst::blst_p2_affine::default();
            let mut p = blst::blst_p2::default();
            if blst::blst_p2_uncompress(&mut a, bytes.as_ptr()) != blst::BLST_ERROR::BLST_SUCCESS {
                return None;
            }
            blst::blst_p2_from_affine(&mut p, &a);
            Some(p)
        };
        let p = point(b)?;
        let mut sum = blst::blst_p2::default();
        for i in (0..256).rev() {
            let d = sum;
            blst::blst_p2_double(&mut sum, &d);
            if ORDER[i / 128] >> (i % 128) & 1 == 1 {
                let d = sum;
                blst::blst_p2_add_or_double(&mut sum, &d, &p);
            }
        }
        let k = point(&key.to_bytes())?;
        let d = sum;
        blst::blst_p2_add_or_double(&mut sum, &d, &k);
        blst::blst_p2_compress(out.as_mut_ptr(), &sum);
    }
    BlsPublicKey::from_literal_bytes(&out).ok()
}

fn encodings(run: &Run) {
    // which byte lengths can be a key
    let k0 = keys()[0].pk();
    let long = {
        let core: blst::min_sig::PublicKey = *k0;
        core.serialize()
    };
    let comp = k0.to_bytes();
    for len in 0..=400usize {
        let mut b = long.to_vec();
        b.resize(len.max(192), 0);
        b.truncate(len);
        let mut c = comp.to_vec();
        c.resize(len.max(96), 0);
        c.truncate(len);
        for x in [b, c, vec![0; len], vec![0x80; len], vec![0xff; len]] {
            run.step(1);
            run.state(&("len", len, &x));
            let p = BlsPublicKey::is_plausible_encoding(&x);
            let r = guarded(|| BlsPublicKey::from_literal_bytes(&x));
            let Ok(r) = r else {
                run.fail("length", format!("{len} bytes: {r:?}"), "");
                continue;
            };
            if r.is_ok() && !p || p != (len == 96 || len == 192) {
                run.fail("length", format!("{len} bytes: plausible={p}, accepted={}", r.is_ok()), "");
            }
        }
    }
    if BlsPublicKey::from_literal_bytes(&long) != Ok(k0) || BlsPublicKey::from_literal_bytes(&comp) != Ok(k0) {
        run.fail("encoding", "a key's two encodings are not the same key", "");
    }
    // round trips, and the order of keys is the order of their bytes
    let mut sorted = BTreeSet::new();
    for k in keys() {
        let pk = k.pk();
        run.step(1);
        sorted.insert(pk);
        let bytes: BlsPublicKeyBytes = pk.into();
        let ok = decode::<BlsPublicKey>(&encode(&pk)) == pk
            && try_decode_key::<BlsPublicKey>(&encode_key(&pk)).ok() == Some(pk)
            && serde_json::from_str::<BlsPublicKey>(&serde_json::to_string(&pk).unwrap()).ok() == Some(pk)
            && serde_json::to_string(&pk).unwrap() == format!("\"{}\"", bs58::encode(pk.to_bytes()).into_string())
            && decode::<BlsPublicKeyBytes>(&encode(&bytes)) == bytes
            && serde_json::from_str::<BlsPublicKeyBytes>(&serde_json::to_string(&bytes).unwrap()).ok() == Some(bytes)
            && BlsPublicKey::from(bytes) == pk
            && <[u8; 96]>::from(bytes) == pk.to_bytes()
            && pk.as_ref() == pk.to_bytes()
            && pk.encode_base58() == bs58::encode(pk.to_bytes()).into_string()
            && pk.to_short_string() == bs58::encode(&pk.to_bytes()[..8]).into_string()
            && vlib::hash(&pk) == vlib::hash(&BlsPublicKey::from_literal_bytes(&pk.to_bytes()).unwrap());
        if !ok {
            run.fail("key", format!("{pk} does not survive its encodings"), "");
        }
        let pair = BlsKeypair::from_bytes(&k.0.to_bytes()).unwrap();
        let sig = k.sign(b"m");
        let ok = *pair.public() == pk
            && *k.0.copy().public() == pk
            && k.0.copy().sign(b"m") == sig
            && pair.sign(b"m") == sig
            && decode::<BlsSignature>(&encode(&sig)) == sig
            && serde_json::from_str::<BlsSignature>(&serde_json::to_string(&sig).unwrap()).ok() == Some(sig)
            && BlsSignature::from_bytes(&sig.to_bytes()).ok() == Some(sig)
            && sig.to_string() == bs58::encode(sig.to_bytes()).into_string();
        if !ok {
            run.fail("key", format!("the pair of {pk} does not survive its encodings"), "");
        }
    }
    let order: Vec<_> = sorted.iter().map(|k| k.to_bytes()).collect();
    if !order.is_sorted() || order.len() != keys().len() {
        run.fail("order", "keys do not sort by their bytes", "");
    }
    for a in keys().iter().take(20) {
        for b in keys().iter().take(20) {
            let (x, y): (BlsPublicKeyBytes, BlsPublicKeyBytes) = (a.pk().into(), b.pk().into());
            if x.cmp(&y) != a.pk().cmp(&b.pk()) || (x == y) != (a.pk() == b.pk()) || a.pk().cmp(&b.pk()) != encode_key(&a.pk()).cmp(&encode_key(&b.pk())) {
                run.fail("order", "keys and their bytes sort differently", "");
            }
        }
    }
    // any altered, shortened or lengthened encoding is refused or is another key
    let bin = encode(&k0);
    let sig = keys()[0].sign(b"m");
    let sbin = encode(&sig);
    par(run, bin.len() * 8, |i| {
        let mut x = bin.clone();
        x[i / 8] ^= 1 << (i % 8);
        run.step(1);
        run.state(&("key bit", i));
        match guarded(|| try_decode::<BlsPublicKey>(&x)) {
            Ok(Ok(k)) if k == k0 || encode(&k) != x => run.fail("damage", format!("key with bit {i} flipped decodes as {k}"), ""),
            Err(e) => run.fail("damage", format!("key with bit {i} flipped: {e}"), ""),
            _ => {}
        }
        if i < sbin.len() * 8 {
            let mut x = sbin.clone();
            x[i / 8] ^= 1 << (i % 8);
            match guarded(|| try_decode::<BlsSignature>(&x)) {
                Ok(Ok(s)) if s == sig || encode(&s) != x => run.fail("damage", format!("signature with bit {i} flipped decodes as {s}"), ""),
                Err(e) => run.fail("damage", format!("signature with bit {i} flipped: {e}"), ""),
                _ => {}
            }
        }
    });
    for (text, what) in [(serde_json::to_string(&k0).unwrap(), "key"), (serde_json::to_string(&sig).unwrap(), "signature")] {
        let inner = text.trim_matches('"');
        for c in 0..inner.len() {
            let t = format!("\"{}\"", &inner[..c]);
            let longer = format!("\"{inner}{}\"", &inner[..=c.min(3)]);
            run.step(1);
            let bad = if what == "key" {
                serde_json::from_str::<BlsPublicKey>(&t).is_ok() || serde_json::from_str::<BlsPublicKey>(&longer).is_ok()
            } else {
                serde_json::from_str::<BlsSignature>(&t).is_ok() || serde_json::from_str::<BlsSignature>(&longer).is_ok()
            };
            if bad {
                run.fail("text", format!("{what} text cut to {c} or lengthened is accepted"), "");
            }
        }
    }
    for len in 0..=70 {
        for v in [0u8, 1, 0x80, 0xc0] {
            let x = vec![v; len];
            run.step(1);
            if BlsKeypair::from_bytes(&x).is_ok() && (len != 32 || v == 0) {
                run.fail("private key", format!("{len} bytes of {v} are a private key"), "");
            }
            if BlsSignature::from_bytes(&x).is_ok() && len != 48 && len != 96 {
                run.fail("signature length", format!("{len} bytes of {v} are a signature"), "");
            }
        }
    }
    // generation depends on the whole random input, and only on it
    let gen: BTreeSet<_> = (0..50u64).map(|i| BlsKeypair::generate(&mut StdRng::seed_from_u64(i)).to_bytes()).collect();
    let again: BTreeSet<_> = (0..50u64).map(|i| BlsKeypair::generate(&mut StdRng::seed_from_u64(i)).to_bytes()).collect();
    if gen.len() != 50 || gen != again {
        run.fail("generate", "key generation", "");
    }
    // network keys
    for i in 1..=20u8 {
        let pk: NetworkPublicKey = NetworkKeypair::ed25519_from_bytes([i; 32]).unwrap().public().into();
        let b = encode(&pk);
        let j = serde_json::to_string(&pk).unwrap();
        run.step(1);
        if try_decode::<NetworkPublicKey>(&b).ok() != Some(pk.clone()) || serde_json::from_str::<NetworkPublicKey>(&j).ok() != Some(pk.clone()) {
            run.fail("network key", "does not survive its encodings", "");
        }
        let peer: libp2p::PeerId = pk.clone().into();
        if peer != libp2p::PeerId::from_public_key(&pk) {
            run.fail("network key", "another peer id", "");
        }
        for c in 0..b.len() {
            if try_decode::<NetworkPublicKey>(&b[..c]).is_ok() {
                run.fail("network key", format!("cut to {c} bytes is accepted"), "");
            }
        }
    }
}

/// The textual intent: every three bytes below 8, every length, with and without prefix.
fn intent_text(run: &Run) {
    let top = 8u8;
    run.bound("intent texts", format!("every 0..6 byte text over small bytes; all {}^3 triples", top));
    for a in 0..top {
        for b in 0..top {
            for c in 0..top {
                for prefix in ["", "0x"] {
                    let t = format!("{prefix}{a:02x}{b:02x}{c:02x}");
                    let ok = a < 5 && b == 0 && c < 2;
                    let r = Intent::from_str(&t);
                    run.step(1);
                    run.state(&("intent", a, b, c));
                    let same = r.as_ref().map(|i| encode(i) == [a, b, c]).unwrap_or(false);
                    if r.is_ok() != ok || ok != same {
                        run.fail("intent", format!("{t}: {r:?}"), t.clone());
                    }
                    if try_decode::<Intent>(&[a, b, c]).is_ok() != ok {
                        run.fail("intent", format!("bytes {a} {b} {c}"), t);
                    }
                }
            }
        }
    }
    for a in 0..=255u8 {
        let ok = [IntentScope::try_from(a).is_ok(), IntentVersion::try_from(a).is_ok(), AppId::try_from(a).is_ok()];
        if ok != [a < 5, a < 1, a < 2] {
            run.fail("intent", format!("byte {a}: {ok:?}"), "");
        }
    }
    for n in (0..=14).filter(|n| *n != 6) {
        if Intent::from_str(&"0".repeat(n)).is_ok() {
            run.fail("intent", format!("{n} digits"), "");
        }
    }
}

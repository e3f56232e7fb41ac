//! Encodings (T05): every value of the enumerated sets, every byte string up to a length, every cut and extension.
use crate::util::*;
use rand::{rngs::StdRng, Rng, SeedableRng};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::{
    collections::{BTreeMap, BTreeSet},
    fmt::Debug,
    str::FromStr,
};
use tn_types::*;
use vlib::{explore::seq_of, guarded, par, Run};

/// Numbers at and around every power of two.
fn edges(bits: u32) -> Vec<u64> {
    let max = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    let mut v = BTreeSet::from([0, 1, max, max - 1]);
    for i in 0..bits {
        let p = 1u64 << i;
        v.extend([p - 1, p, p + 1]);
    }
    v.into_iter().filter(|x| *x <= max).collect()
}

fn digests() -> Vec<[u8; 32]> {
    let mut v = vec![[0; 32], [255; 32], [1; 32], [0x80; 32]];
    for i in 0..32 {
        for b in [1, 0x7f, 0x80, 0xff] {
            let mut x = [0; 32];
            x[i] = b;
            v.push(x);
        }
    }
    v
}

fn value<T: Serialize + DeserializeOwned + PartialEq + Debug>(run: &Run, name: &str, v: &T) {
    let b = encode(v);
    run.step(1);
    run.state(&(name, &b));
    let bad = |what: &str| run.fail("value", format!("{name}: {what}: {v:?} = {b:02x?}"), format!("{name} {b:02x?}"));
    if bcs::to_bytes(v).unwrap() != b {
        bad("not its BCS encoding");
    }
    if encoded_size(v).ok() != Some(b.len()) {
        bad("encoded_size differs from the encoding's length");
    }
    let mut buf = vec![7, 7];
    if encode_into_buffer(&mut buf, v).is_err() || buf[..2] != [7, 7] || buf[2..] != b[..] {
        bad("encode_into_buffer differs");
    }
    let mut full = vec![0u8; b.len()];
    if encode_into_buffer(&mut full.as_mut_slice(), v).is_err() || full != b {
        bad("encode_into_buffer into an exact buffer");
    }
    if !b.is_empty() {
        let mut short = vec![0u8; b.len() - 1];
        if encode_into_buffer(&mut short.as_mut_slice(), v).is_ok() {
            bad("encode_into_buffer into a short buffer succeeds");
        }
    }
    if guarded(|| decode::<T>(&b)).as_ref().ok() != Some(v) || try_decode::<T>(&b).as_ref().ok() != Some(v) {
        bad("does not read back");
    }
    for n in 0..b.len() {
        if try_decode::<T>(&b[..n]).is_ok() || guarded(|| decode::<T>(&b[..n])).is_ok() {
            bad(&format!("reads back from its first {n} bytes"));
        }
    }
    for extra in [0u8, 1, 255] {
        let mut x = b.clone();
        x.push(extra);
        if try_decode::<T>(&x).is_ok() || guarded(|| decode::<T>(&x)).is_ok() {
            bad("reads back with a byte appended");
        }
    }
}

fn key<T: Serialize + DeserializeOwned + PartialEq + Debug>(run: &Run, name: &str, v: &T) -> Vec<u8> {
    let b = encode_key(v);
    run.step(1);
    run.state(&("key", name, &b));
    let bad = |what: &str| run.fail("key", format!("{name}: {what}: {v:?} = {b:02x?}"), format!("{name} {b:02x?}"));
    if guarded(|| decode_key::<T>(&b)).as_ref().ok() != Some(v) || try_decode_key::<T>(&b).as_ref().ok() != Some(v) {
        bad("does not read back");
    }
    for n in 0..b.len() {
        if try_decode_key::<T>(&b[..n]).is_ok() || guarded(|| decode_key::<T>(&b[..n])).is_ok() {
            bad(&format!("reads back from its first {n} bytes"));
        }
    }
    for extra in [0u8, 1, 255] {
        let mut x = b.clone();
        x.push(extra);
        if try_decode_key::<T>(&x).is_ok() || guarded(|| decode_key::<T>(&x)).is_ok() {
            bad("reads back with a byte appended");
        }
    }
    b
}

/// The keys sort as their encodings do.
fn keys_sorted<T: Serialize + DeserializeOwned + Ord + Debug + Sync>(run: &Run, name: &str, width: usize, vals: &[T]) {
    let enc: Vec<_> = vals.iter().map(|v| key(run, name, v)).collect();
    if let Some(e) = enc.iter().find(|e| e.len() != width) {
        run.fail("width", format!("{name}: a key of {} bytes, not {width}", e.len()), format!("{e:02x?}"));
    }
    par(run, vals.len(), |i| {
        for j in 0..vals.len() {
            run.step(1);
            if vals[i].cmp(&vals[j]) != enc[i].cmp(&enc[j]) {
                run.fail("order", format!("{name}: {:?} and {:?} sort differently from their keys", vals[i], vals[j]), "");
            }
        }
    });
}

/// Every byte string: at most one value reads back from it, whose encoding is that string.
fn strings<T: Serialize + DeserializeOwned + Debug>(run: &Run, name: &str, alphabet: &[u8], max: usize) {
    let total: u64 = (0..=max).map(|l| (alphabet.len() as u64).pow(l as u32)).sum();
    let chunk = 4096;
    par(run, total.div_ceil(chunk) as usize, |c| {
        for n in c as u64 * chunk..((c as u64 + 1) * chunk).min(total) {
            let (mut n, mut len) = (n, 0);
            while n >= (alphabet.len() as u64).pow(len as u32) {
                n -= (alphabet.len() as u64).pow(len as u32);
                len += 1;
            }
            let b: Vec<u8> = seq_of(n, alphabet.len() as u64, len).into_iter().map(|i| alphabet[i]).collect();
            run.step(2);
            run.state(&(name, "string", &b));
            let bad = |what: String| run.fail("string", format!("{name}: {b:02x?} {what}"), format!("{name} {b:02x?}"));
            match guarded(|| try_decode::<T>(&b)) {
                Err(e) => bad(format!("panics: {e}")),
                Ok(Ok(v)) if encode(&v) != b => bad(format!("reads as {v:?}, which is written {:02x?}", encode(&v))),
                Ok(Ok(v)) if format!("{:?}", guarded(|| decode::<T>(&b)).ok().as_ref()) != format!("{:?}", Some(&v)) => bad("decode and try_decode differ".into()),
                Ok(Err(_)) if guarded(|| decode::<T>(&b)).is_ok() => bad("decode accepts what try_decode refuses".into()),
                _ => {}
            }
            match guarded(|| try_decode_key::<T>(&b)) {
                Err(e) => bad(format!("as a key panics: {e}")),
                Ok(Ok(v)) if encode_key(&v) != b => bad(format!("as a key reads as {v:?}, which is written {:02x?}", encode_key(&v))),
                Ok(Ok(v)) if format!("{:?}", guarded(|| decode_key::<T>(&b)).ok().as_ref()) != format!("{:?}", Some(&v)) => bad("decode_key and try_decode_key differ".into()),
                Ok(Err(_)) if guarded(|| decode_key::<T>(&b)).is_ok() => bad("decode_key accepts what try_decode_key refuses".into()),
                _ => {}
            }
        }
    });
    run.bound(&format!("byte strings read as {name}"), format!("{total}, up to {max} bytes"));
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
enum Shape {
    Unit,
    One(u8),
    Pair { a: u16, b: Option<bool> },
    List(Vec<u8>),
    Map(BTreeMap<u8, u8>),
}

pub fn t05(run: &Run) {
    let n64 = edges(64);
    for v in &n64 {
        value(run, "u64", v);
        value(run, "(u64, u8)", &(*v, *v as u8));
        value(run, "(i64, u128)", &(*v as i64, (*v as u128) << 60 | 5));
    }
    for len in [0usize, 1, 2, 126, 127, 128, 129, 255, 256, 16383, 16384, 16385] {
        // cuts of the long ones are quadratic: check the value only at boundary lengths
        let v = vec![0xabu8; len];
        if len < 300 {
            value(run, "bytes", &v);
            value(run, "text", &"x".repeat(len));
            value(run, "bytes in bytes", &vec![v.clone(), vec![], v]);
        } else if encode(&v).len() != encoded_size(&v).unwrap() || decode::<Vec<u8>>(&encode(&v)) != v {
            run.fail("value", format!("{len} bytes do not read back"), "");
        }
    }
    let mut shapes = vec![Shape::Unit];
    for a in [0u8, 1, 127, 128, 255] {
        shapes.push(Shape::One(a));
        for b in [None, Some(false), Some(true)] {
            shapes.push(Shape::Pair { a: a as u16 * 257, b });
        }
        for n in 0..4 {
            shapes.push(Shape::List(vec![a; n]));
            shapes.push(Shape::Map((0..n as u8).map(|i| (i * 60, a)).collect()));
        }
    }
    for s in &shapes {
        value(run, "enum", s);
        key(run, "enum", s);
        value(run, "enums", &vec![s.clone(), Shape::Unit, s.clone()]);
    }

    // database keys
    let all: Vec<u16> = (0..=u16::MAX).collect();
    for w in all.windows(2) {
        run.step(1);
        if encode_key(&w[0]) >= encode_key(&w[1]) || decode_key::<u16>(&encode_key(&w[0])) != w[0] {
            run.fail("order", format!("u16 {} and its successor", w[0]), "");
        }
    }
    keys_sorted(run, "u64", 8, &n64);
    let n32: Vec<u32> = edges(32).into_iter().map(|x| x as u32).collect();
    keys_sorted(run, "u32", 4, &n32);
    let n16: Vec<u16> = edges(16).into_iter().map(|x| x as u16).collect();
    let ds = digests();
    let hd: Vec<_> = ds.iter().map(|d| HeaderDigest::new(*d)).collect();
    keys_sorted(run, "HeaderDigest", 40, &hd);
    let id: Vec<_> = ds.iter().map(|d| AuthorityIdentifier::from_bytes(*d)).collect();
    keys_sorted(run, "AuthorityIdentifier", 32, &id);
    let hash: Vec<_> = ds.iter().map(|d| B256::from(*d)).collect();
    let w = encode_key(&B256::ZERO).len();
    keys_sorted(run, "BlockHash", w, &hash);
    let some: Vec<_> = ds.iter().step_by(run.pick(9, 3)).collect();
    let rounds: Vec<_> = n32.iter().step_by(run.pick(4, 1)).collect();
    let mut ro = vec![];
    let mut or = vec![];
    for r in &rounds {
        for d in &some {
            ro.push((**r, AuthorityIdentifier::from_bytes(**d)));
            or.push((AuthorityIdentifier::from_bytes(**d), **r));
        }
    }
    keys_sorted(run, "(Round, AuthorityIdentifier)", 36, &ro);
    keys_sorted(run, "(AuthorityIdentifier, Round)", 36, &or);
    let pl: Vec<_> = some.iter().flat_map(|d| n16.iter().map(|w| (B256::from(**d), *w))).collect();
    keys_sorted(run, "(BlockHash, WorkerId)", w + 2, &pl);
    let tuples: Vec<(u8, u16, u32, u64)> = [0, 1, 255].into_iter().flat_map(|a| [0, 256, 65535].into_iter().flat_map(move |b| [0, 1 << 24, u32::MAX].into_iter().flat_map(move |c| [0, 255, 1 << 56, u64::MAX].map(|d| (a, b, c, d))))).collect();
    keys_sorted(run, "(u8, u16, u32, u64)", 15, &tuples);
    keys_sorted(run, "bool", 1, &[false, true]);
    run.bound("keys", "every pair of the boundary values of each key type; all 65536 u16");

    // every byte string
    let every: Vec<u8> = (0..=255).collect();
    strings::<(u8, bool)>(run, "(u8, bool)", &every, 2);
    strings::<Option<u8>>(run, "Option<u8>", &every, 2);
    strings::<u16>(run, "u16", &every, 2);
    strings::<Vec<u8>>(run, "bytes", &[0, 1, 2, 3, 127, 128, 129, 130, 255], run.pick(5, 7));
    strings::<Shape>(run, "enum", &[0, 1, 2, 3, 4, 5, 128, 255], run.pick(6, 7));
    strings::<BTreeMap<u8, u8>>(run, "map", &[0, 1, 2, 3, 128], run.pick(6, 8));
    strings::<String>(run, "text", &[0, 1, 2, 3, b'a', 0xc3, 0xa9, 0x80], run.pick(5, 6));
    strings::<(Vec<bool>, u8)>(run, "(list, u8)", &[0, 1, 2, 3], run.pick(8, 9));

    digest_text(run, &ds);
    types(run, &ds);
}

/// Digests: which lengths and texts are digests, and that each is the digest of exactly one.
fn digest_text(run: &Run, ds: &[[u8; 32]]) {
    run.bound("digest texts", "every byte length 0..=70, every shortened text");
    for len in 0..=70usize {
        for fill in [0u8, 1, 0x7f, 0xff] {
            let raw = vec![fill; len];
            let bin = encode(&raw);
            let kbin = encode_key(&raw);
            let json = serde_json::to_string(&bs58::encode(&raw).into_string()).unwrap();
            run.step(1);
            run.state(&("digest length", len, fill));
            fn all<T: DeserializeOwned + AsRef<[u8]>>(run: &Run, what: &str, raw: &[u8], bin: &[u8], kbin: Option<&[u8]>, json: &str) {
                for (how, r) in [
                    ("binary", guarded(|| try_decode::<T>(bin).ok())),
                    ("key", guarded(|| kbin.map_or(if raw.len() == 32 { try_decode_key::<T>(raw).ok() } else { None }, |k| try_decode_key::<T>(k).ok()))),
                    ("JSON", guarded(|| serde_json::from_str::<T>(json).ok())),
                ] {
                    let ok = match &r {
                        Ok(Some(d)) => raw.len() == 32 && d.as_ref() == raw,
                        Ok(None) => raw.len() != 32,
                        Err(_) => false,
                    };
                    if !ok {
                        run.fail("digest", format!("{what}: {how} of {} bytes of {:02x?}: accepted={:?}", raw.len(), raw.first(), r.map(|x| x.is_some())), json);
                    }
                }
            }
            all::<Digest<32>>(run, "Digest", &raw, &bin, Some(&kbin), &json);
            all::<HeaderDigest>(run, "HeaderDigest", &raw, &bin, Some(&kbin), &json);
            all::<ConsensusHeaderDigest>(run, "ConsensusHeaderDigest", &raw, &bin, Some(&kbin), &json);
            all::<ConsensusDigest>(run, "ConsensusDigest", &raw, &bin, Some(&kbin), &json);
            all::<EpochDigest>(run, "EpochDigest", &raw, &bin, Some(&kbin), &json);
            // identifiers are written without a length
            let r = guarded(|| serde_json::from_str::<AuthorityIdentifier>(&json).ok());
            if !matches!(&r, Ok(x) if x.is_some() == (len == 32)) {
                run.fail("identifier", format!("text of {len} bytes: {r:?}"), json.clone());
            }
            if try_decode::<AuthorityIdentifier>(&raw).is_ok() != (len == 32) {
                run.fail("identifier", format!("{len} bytes"), "");
            }
        }
    }
    for d in ds {
        let x = Digest::new(*d);
        let text = bs58::encode(d).into_string();
        run.step(1);
        let h = HeaderDigest::new(*d);
        let c: ConsensusHeaderDigest = (*d).into();
        let ok = x.to_vec() == d
            && x.size() == 32
            && x.as_ref() == d
            && <[u8; 32]>::from(x) == *d
            && x.to_string() == text
            && format!("{x:?}") == text
            && format!("{h:?}") == text
            && text.starts_with(&h.to_string())
            && <[u8; 32]>::from(h) == *d
            && h.as_ref() == d
            && Digest::from(h) == x
            && HeaderDigest::from(VoteDigest::from(h)) == h
            && B256::from(c) == B256::from(*d)
            && ConsensusHeaderDigest::from(B256::from(*d)) == c
            && Digest::from(c) == x
            && c.as_ref() == d
            && format!("{c:?}") == text;
        if !ok {
            run.fail("digest", format!("{text}: its forms differ"), text.clone());
        }
        if serde_json::to_string(&x).unwrap() != format!("\"{text}\"") {
            run.fail("digest", format!("{text} is not its JSON"), text.clone());
        }
        for cut in 0..text.len() {
            for t in [&text[..cut], &text[cut + 1..]] {
                run.step(1);
                if let Ok(y) = serde_json::from_str::<Digest<32>>(&format!("\"{t}\"")) {
                    if y == x || bs58::encode(y.digest).into_string() != t {
                        run.fail("digest", format!("the text {t} reads as {y}"), t);
                    }
                }
                if let Ok(y) = AuthorityIdentifier::from_str(t) {
                    if y.to_string() != t {
                        run.fail("identifier", format!("the text {t} reads as {y}"), t);
                    }
                }
            }
        }
    }
}

/// The values that travel on the wire or rest on disk.
fn types(run: &Run, ds: &[[u8; 32]]) {
    let c = committee(4, 3);
    let mut rng = StdRng::seed_from_u64(5);
    for d in ds.iter().step_by(7) {
        value(run, "Digest", &Digest::new(*d));
        value(run, "HeaderDigest", &HeaderDigest::new(*d));
        value(run, "AuthorityIdentifier", &AuthorityIdentifier::from_bytes(*d));
        value(run, "ConsensusHeaderDigest", &ConsensusHeaderDigest::from(*d));
        value(run, "ConsensusNumHash", &ConsensusNumHash::new(d[3] as u64, (*d).into()));
        value(run, "VoteInfo", &VoteInfo { epoch: d[0] as u32, round: d[1] as u32 * 7, vote_digest: VoteDigest::new(*d) });
        value(run, "B256", &B256::from(*d));
        value(run, "Address", &Address::from_slice(&d[..20]));
    }
    let sizes: Vec<usize> = vec![0, 1, 2, 127, 128];
    for n in 0..4usize {
        for len in &sizes {
            let b = Batch {
                transactions: (0..n).map(|_| (0..*len).map(|_| rng.random()).collect()).collect(),
                epoch: n as u32 * 0x0101_0101,
                beneficiary: addr(n),
                base_fee_per_gas: u64::MAX - n as u64,
                worker_id: n as u16 * 257,
                received_at: None,
            };
            value(run, "Batch", &b);
            value(run, "SealedBatch", &b.clone().seal_slow());
            let bytes: Vec<u8> = (&b.clone().seal_slow()).into();
            if bytes != encode(&b.clone().seal_slow()) || SealedBatch::from(bytes.as_slice()) != b.clone().seal_slow() {
                run.fail("value", "SealedBatch bytes", "");
            }
            let mut timed = b.clone();
            timed.set_received_at(99);
            if encode(&timed) != encode(&b) || decode::<Batch>(&encode(&timed)).received_at().is_some() {
                run.fail("value", "the receipt time of a batch travels with it", "");
            }
        }
    }
    for (i, a) in c.authorities().iter().enumerate() {
        let h = HeaderBuilder::default()
            .author(a.id())
            .round(i as u32 + 1)
            .epoch(3)
            .created_at(77)
            .payload((0..i).map(|w| (B256::repeat_byte(w as u8), w as u16)).collect())
            .parents((0..i).map(|w| HeaderDigest::new([w as u8; 32])).collect())
            .seed_signature(keys()[i].sign(b"seed"))
            .build();
        value(run, "Header", &h);
        let v = Vote::new_with_signer(&h, a.id(), &*keys()[i].0);
        value(run, "Vote", &v);
        let w: Vote = decode(&encode(&v));
        if (w.header_digest(), w.round(), w.epoch(), w.origin(), w.author(), w.signature())
            != (v.header_digest(), v.round(), v.epoch(), v.origin(), v.author(), v.signature())
        {
            run.fail("value", "a vote changes in its encoding", "");
        }
        let (x, y): (Header, Header) = (decode(&encode(&h)), serde_json::from_str(&serde_json::to_string(&h).unwrap()).unwrap_or_default());
        let _ = y;
        if (x.author(), x.round(), x.epoch(), x.created_at(), x.payload(), x.parents(), x.latest_execution_block(), x.seed_signature())
            != (h.author(), h.round(), h.epoch(), h.created_at(), h.payload(), h.parents(), h.latest_execution_block(), h.seed_signature())
        {
            run.fail("value", "a header changes in its encoding", "");
        }
    }
    let mut scores = ReputationScores::new(&c);
    value(run, "ReputationScores", &scores);
    for (i, a) in c.authorities().iter().enumerate() {
        scores.add_score(&a.id(), (1 << (i * 8)) + i as u64);
        scores.final_of_schedule = i % 2 == 0;
        value(run, "ReputationScores", &scores);
        key(run, "ReputationScores", &scores);
        if serde_json::from_str::<ReputationScores>(&serde_json::to_string(&scores).unwrap()).ok().as_ref() != Some(&scores) {
            run.fail("value", "reputation scores change in JSON", "");
        }
    }
    for m in [NodeMode::CvvActive, NodeMode::CvvInactive, NodeMode::Observer] {
        value(run, "NodeMode", &m);
        if serde_json::to_string(&m).unwrap() != format!("\"{m:?}\"") {
            run.fail("value", format!("{m:?} in JSON"), "");
        }
        // the text, and only it
        for t in ["CvvActive", "CvvInactive", "Observer", "cvvActive", "observer", "", "0"] {
            let r = serde_json::from_str::<NodeMode>(&format!("\"{t}\"")).ok();
            if r.map(|r| format!("{r:?}") == t) == Some(false) || r.is_none() && ["CvvActive", "CvvInactive", "Observer"].contains(&t) {
                run.fail("value", format!("{t} reads as {r:?}"), "");
            }
        }
    }
    for (i, m) in [NodeMode::CvvActive, NodeMode::CvvInactive, NodeMode::Observer].iter().enumerate() {
        if encode(m) != [i as u8] {
            run.fail("value", format!("{m:?} is written {:02x?}", encode(m)), "");
        }
    }
    if NodeMode::default() != NodeMode::CvvActive {
        run.fail("value", "the default mode", "");
    }
    // the participation of a header's signers
    for mask in 0..run.pick(256u64, 4096) {
        let ids: Vec<usize> = vlib::explore::bits(mask);
        let mut r: EpochCertificate = EpochCertificate { epoch_hash: Default::default(), signature: keys()[0].sign(b"x"), signed_authorities: Default::default() };
        for i in &ids {
            // spread over several containers of the bitmap
            r.signed_authorities.insert((*i as u32) * 40_000 + 3);
        }
        let b = encode(&r);
        run.step(1);
        run.state(&("bitmap", mask));
        let x: Option<EpochCertificate> = try_decode(&b).ok();
        let j: Option<EpochCertificate> = serde_json::from_str(&serde_json::to_string(&r).unwrap()).ok();
        if x.as_ref() != Some(&r) || j.as_ref() != Some(&r) || encoded_size(&r).ok() != Some(b.len()) {
            run.fail("bitmap", format!("positions {ids:?} do not read back"), "");
        }
        if mask % 16 == 5 {
            for n in 0..b.len() {
                if let Ok(Ok(_)) = guarded(|| try_decode::<EpochCertificate>(&b[..n])) {
                    run.fail("bitmap", format!("reads back from its first {n} bytes"), "");
                }
            }
        }
    }
}

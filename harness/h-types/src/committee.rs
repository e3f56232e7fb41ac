//! Committees (T01): membership, lookups and thresholds for every size, every membership set and every order
//! in which members are added, and the intersection of every pair of accepted vote sets.
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use tn_types::*;
use vlib::{explore::*, guarded, par, Run};

fn id_of(pk: &BlsPublicKey) -> AuthorityIdentifier {
    AuthorityIdentifier::from_bytes(*blake3::hash(&pk.to_bytes()).as_bytes())
}

/// Everything observable about the committee of `ix` (indexes into `keys()`).
fn check(c: &Committee, ix: &[usize], epoch: Epoch) -> Result<(), String> {
    let set: BTreeSet<usize> = ix.iter().copied().collect();
    let n = set.len() as u64;
    let eq = |what: &str, a: String, b: String| if a == b { Ok(()) } else { Err(format!("{what}: {a}, expected {b}")) };
    let f = (n - 1) / 3;
    eq("epoch", c.epoch().to_string(), epoch.to_string())?;
    eq("size", c.size().to_string(), n.to_string())?;
    eq("total power", c.total_voting_power().to_string(), n.to_string())?;
    eq("quorum", c.quorum_threshold().to_string(), (n - f).to_string())?;
    eq("validity", c.validity_threshold().to_string(), (f + 1).to_string())?;
    for v in (0..=n + 2).chain([u64::MAX]) {
        eq("reached quorum", format!("{v} {}", c.reached_quorum(v)), format!("{v} {}", v >= n - f))?;
        eq("reached validity", format!("{v} {}", c.reached_validity(v)), format!("{v} {}", v > f))?;
    }
    let all: BTreeMap<AuthorityIdentifier, usize> = set.iter().map(|&i| (id_of(&keys()[i].pk()), i)).collect();
    let want: Vec<String> = all.iter().map(|(id, i)| format!("{id} {} {}", keys()[*i].pk(), addr(*i))).collect();
    let got: Vec<String> = c.authorities().iter().map(|a| format!("{} {} {}", a.id(), a.protocol_key(), a.execution_address())).collect();
    eq("authorities", format!("{got:?}"), format!("{want:?}"))?;
    let pks: BTreeSet<BlsPublicKey> = set.iter().map(|&i| keys()[i].pk()).collect();
    eq("keys", format!("{:?}", c.bls_keys()), format!("{pks:?}"))?;
    // members and outsiders
    for i in 0..set.last().map(|x| x + 3).unwrap_or(3).min(64) {
        let (pk, id) = (keys()[i].pk(), id_of(&keys()[i].pk()));
        let member = set.contains(&i);
        let w = member.then(|| format!("{id} {pk} {} 1", addr(i)));
        let show = |a: Option<Authority>| a.map(|a| format!("{} {} {} {}", a.id(), a.protocol_key(), a.execution_address(), a.voting_power()));
        eq("id of a key", AuthorityIdentifier::from(pk).to_string(), id.to_string())?;
        eq("by id", format!("{:?}", show(c.authority(&id))), format!("{w:?}"))?;
        eq("by key", format!("{:?}", show(c.authority_by_key(&pk))), format!("{w:?}"))?;
        eq("is member", c.is_authority(&id).to_string(), member.to_string())?;
        eq("power", format!("{} {}", c.voting_power(&pk), c.voting_power_by_id(&id)), format!("{0} {0}", member as u64))?;
        let others: BTreeSet<BlsPublicKey> = pks.iter().copied().filter(|k| *k != pk).collect();
        let o = c.others_keys_except(&pk);
        eq("others count", o.len().to_string(), others.len().to_string())?;
        eq("others", format!("{:?}", o.into_iter().collect::<BTreeSet<_>>()), format!("{others:?}"))?;
        let o = c.others_primaries_by_id(Some(&id));
        eq("other primaries count", o.len().to_string(), others.len().to_string())?;
        eq("other primaries", format!("{:?}", o.into_iter().map(|(i, k)| (k, i)).collect::<BTreeMap<_, _>>()), format!("{:?}", others.iter().map(|k| (*k, id_of(k))).collect::<BTreeMap<_, _>>()))?;
    }
    eq("all primaries", c.others_primaries_by_id(None).len().to_string(), n.to_string())?;
    Ok(())
}

pub fn t01(run: &Run) {
    // thresholds by count alone
    let top = run.pick(3_000u64, 2_000_000);
    run.bound("threshold formula", format!("1..{top} members"));
    for n in 1..top {
        let q = quorum_threshold(n);
        run.step(1);
        if q != n - (n - 1) / 3 {
            run.fail("formula", format!("quorum of {n} is {q}"), format!("{n}"));
            return;
        }
    }
    // every size
    let sizes = run.pick(34, 60);
    run.bound("sizes", format!("2..={sizes}"));
    par(run, sizes - 1, |k| {
        let n = k + 2;
        let ix: Vec<usize> = (0..n).collect();
        let c = committee_of(&ix, n as u32);
        run.state(&("size", n));
        run.trace();
        let r = check(&c, &ix, n as u32).and_then(|_| reload(&c, &ix, n as u32)).and_then(|_| {
            if quorum_threshold(n as u64) == c.quorum_threshold() { Ok(()) } else { Err("the two quorum formulas differ".into()) }
        });
        if let Err(e) = r {
            run.fail("size", format!("committee of {n}: {e}"), format!("{n}"));
        }
    });
    for n in 0..2 {
        // a committee of none or one cannot be formed, nor loaded
        if guarded(|| committee_of(&(0..n).collect::<Vec<_>>(), 0)).is_ok() {
            run.fail("tiny", format!("a committee of {n} was built"), "");
        }
        let auths: BTreeMap<BlsPublicKey, Authority> = (0..n).map(|i| (keys()[i].pk(), Authority::new_for_test(keys()[i].pk(), addr(i)))).collect();
        let bytes = encode(&(auths, 0u32, BTreeMap::<BlsPublicKey, BootstrapServer>::new()));
        if matches!(guarded(|| try_decode::<Committee>(&bytes).is_ok()), Ok(true)) {
            run.fail("tiny", format!("a committee of {n} was loaded"), "");
        }
    }
    // every membership set of 8 keys, and every order of adding (with one member added twice)
    let m = run.pick(7, 9);
    run.bound("memberships", format!("every subset of {m} keys"));
    par(run, 1 << m, |mask| {
        let ix = bits(mask as u64);
        if ix.len() < 2 {
            return;
        }
        run.state(&("set", mask));
        run.trace();
        let c = committee_of(&ix, 7);
        if let Err(e) = check(&c, &ix, 7).and_then(|_| reload(&c, &ix, 7)) {
            run.fail("membership", format!("members {ix:?}: {e}"), format!("{ix:?}"));
        }
        for other in [3u64, 7, 0b10110] {
            let ox = bits(other);
            let o = committee_of(&ox, 7);
            if (o == c) != (mask as u64 == other) {
                run.fail("equality", format!("{ix:?} == {ox:?} is {}", o == c), "");
            }
        }
        if c == committee_of(&ix, 8) {
            run.fail("equality", format!("{ix:?}: equal in different epochs"), "");
        }
        run.step(1);
    });
    let m = run.pick(5, 6);
    run.bound("orders of adding", format!("every order of {m} members, each with one member repeated"));
    let want = committee(m, 3);
    for p in permutations(m) {
        for d in 0..m {
            let mut q = p.clone();
            q.push(d);
            run.step(1);
            run.state(&("order", &q));
            let c = committee_of(&q, 3);
            if c != want || encode(&c) != encode(&want) {
                run.fail("order", format!("members added in order {q:?} give another committee"), format!("{q:?}"));
            }
        }
    }
    // vote sets: every pair accepted as a quorum shares more members than may be faulty
    let top = run.pick(8, 11);
    run.bound("vote sets", format!("every pair of subsets, committees of 2..={top}"));
    par(run, top - 1, |k| {
        let n = k + 2;
        let c = committee(n, 0);
        let f = ((n - 1) / 3) as u32;
        let power = |s: u64| bits(s).iter().map(|&i| c.voting_power(&keys()[i].pk())).sum::<u64>();
        let quorums: Vec<u64> = subsets(n).filter(|s| c.reached_quorum(power(*s))).collect();
        let valid: Vec<u64> = subsets(n).filter(|s| c.reached_validity(power(*s))).collect();
        run.outcome(format!("{n} members: {} quorums, {} available sets", quorums.len(), valid.len()));
        run.state(&("votes", n));
        run.trace();
        for a in &quorums {
            if let Some(b) = quorums.iter().find(|b| (*a & **b).count_ones() <= f) {
                run.fail("intersection", format!("{n} members, {f} faulty: quorums {:?} and {:?} share no honest member", bits(*a), bits(*b)), "");
                return;
            }
            if let Some(b) = valid.iter().find(|b| *a & **b == 0) {
                run.fail("intersection", format!("{n} members: quorum {:?} and available set {:?} are disjoint", bits(*a), bits(*b)), "");
                return;
            }
            run.step((quorums.len() + valid.len()) as u64);
        }
        if let Some(b) = valid.iter().find(|b| b.count_ones() <= f) {
            run.fail("availability", format!("{n} members: {:?} may be all faulty", bits(*b)), "");
        }
        for s in subsets(n).filter(|s| s.count_ones() <= f) {
            if !quorums.contains(&(((1 << n) - 1) & !s)) {
                run.fail("liveness", format!("{n} members: no quorum without {:?}", bits(s)), "");
            }
        }
    });
    // the textual form of an identifier
    for len in 0..=40usize {
        for v in [0u8, 1, 57, 255] {
            let b = vec![v; len];
            let s = bs58::encode(&b).into_string();
            let r: Result<AuthorityIdentifier, _> = s.parse();
            run.step(1);
            let ok = r.as_ref().map(|x| x.to_string() == s && *x == AuthorityIdentifier::from_bytes([v; 32])).unwrap_or(false);
            if (len == 32) != ok || r.is_ok() != ok {
                run.fail("identifier", format!("{len} bytes of {v}: parsed as {r:?}"), s.clone());
            }
            let j = serde_json::from_value::<AuthorityIdentifier>(serde_json::Value::String(s.clone()));
            if j.ok() != r.ok() {
                run.fail("identifier", format!("{len} bytes of {v}: JSON disagrees"), s.clone());
            }
            let bin = try_decode::<AuthorityIdentifier>(&b);
            if bin.is_ok() != (len == 32) {
                run.fail("identifier", format!("{len} bytes of {v}: binary form accepted={}", bin.is_ok()), s);
            }
        }
    }
    for s in ["0", "O", "l", "I", "é", " ", "1 "] {
        let s = format!("{}{s}", AuthorityIdentifier::from_bytes([9; 32]));
        if s.parse::<AuthorityIdentifier>().is_ok() {
            run.fail("identifier", format!("{s:?} parsed"), s.clone());
        }
    }
    rpc(run);
}

/// Storing and loading gives the same committee, thresholds and lookups included.
fn reload(c: &Committee, ix: &[usize], epoch: Epoch) -> Result<(), String> {
    let bytes = encode(c);
    let b: Committee = try_decode(&bytes).map_err(|e| e.to_string())?;
    check(&b, ix, epoch).map_err(|e| format!("decoded: {e}"))?;
    let text = serde_json::to_string(c).map_err(|e| e.to_string())?;
    let j: Committee = serde_json::from_str(&text).map_err(|e| format!("JSON: {e}"))?;
    check(&j, ix, epoch).map_err(|e| format!("from JSON: {e}"))?;
    let k: Committee = try_decode_key(&encode_key(c)).map_err(|e| e.to_string())?;
    if b != *c || j != *c || k != *c || encode(&b) != bytes {
        return Err("the loaded committee is another one".into());
    }
    Ok(())
}

/// Advertised endpoints: every scheme against both fields, with lengths around the limit.
fn rpc(run: &Run) {
    let schemes = ["http", "https", "ws", "wss", "ftp", "file", "httpx", "wsss"];
    let url = |s: &str, len: usize| {
        let base = format!("{s}://h/");
        let t = format!("{base}{}", "a".repeat(len.saturating_sub(base.len())));
        url::Url::parse(&t).unwrap()
    };
    let lens = [10, MAX_RPC_URL_LEN - 1, MAX_RPC_URL_LEN, MAX_RPC_URL_LEN + 1, 2 * MAX_RPC_URL_LEN];
    for s in schemes {
        for l in lens {
            for w in schemes.iter().map(Some).chain([None]) {
                for wl in lens {
                    let (h, ws) = (url(s, l), w.map(|w| url(w, wl)));
                    let ok = ["http", "https"].contains(&s) && h.as_str().len() <= 2048 && ws.as_ref().is_none_or(|u| ["ws", "wss"].contains(&u.scheme()) && u.as_str().len() <= 2048);
                    run.step(1);
                    let i = RpcInfo { http: h, ws };
                    if i.validate().is_ok() != ok {
                        run.fail("endpoint", format!("http {s} of {l}, ws {w:?} of {wl}: {:?}", i.validate()), "");
                    }
                    if l == 10 && wl == 10 && try_decode::<RpcInfo>(&encode(&i)).ok() != Some(i.clone()) {
                        run.fail("endpoint", format!("{i:?} is not read back"), "");
                    }
                }
            }
        }
    }
}

//! Reputation (T11), gas and reward accounting and base fees (T12).
use crate::util::*;
use std::collections::{BTreeMap, HashMap};
use tn_types::gas_accumulator::*;
use tn_types::*;
use vlib::{explore::*, guarded, par, Run};

pub fn t11(run: &Run) {
    let n = run.pick(5, 6);
    let c = committee(n, 1);
    let ids: Vec<_> = c.authorities().iter().map(|a| a.id()).collect();
    // every score map over the members, each absent or with a score
    let vals = [None, Some(0u64), Some(1), Some(2), Some(u64::MAX)];
    run.bound("score maps", format!("every assignment of {} scores to {n} authorities", vals.len()));
    par(run, seq_count(5, n) as usize, |m| {
        let pick = seq_of(m as u64, 5, n);
        let mut s = ReputationScores::default();
        for (i, v) in pick.iter().enumerate() {
            if let Some(v) = vals[*v] {
                s.add_score(&ids[i], v);
            }
        }
        run.step(1);
        run.state(&pick);
        let mut want: Vec<_> = pick.iter().enumerate().filter_map(|(i, v)| vals[*v].map(|v| (ids[i].clone(), v))).collect();
        want.sort_by(|a, b| (b.1, &b.0).cmp(&(a.1, &a.0)));
        let got = s.authorities_by_score_desc();
        let zero = want.iter().all(|w| w.1 == 0);
        if got != want || s.total_authorities() as usize != want.len() || s.all_zero() != zero {
            run.fail("ranking", format!("scores {pick:?}: ranked {got:?}, all zero {}", s.all_zero()), format!("{pick:?}"));
        }
        let back: ReputationScores = decode(&encode(&s));
        let json: Option<ReputationScores> = serde_json::from_str(&serde_json::to_string(&s).unwrap()).ok();
        if back != s || json.as_ref() != Some(&s) || back.authorities_by_score_desc() != got {
            run.fail("encoding", format!("scores {pick:?} do not read back"), format!("{pick:?}"));
        }
    });
    // committees up to the size limit of a signer bitmap and beyond: every period of ties, scores rising, falling or alternating
    run.bound("large committees", "1 to 64 authorities x tie periods 1 to 7 x rising, falling or alternating scores x all or every second member scored");
    par(run, 64, |n| {
        let n = n + 1;
        let ids: Vec<_> = (0..n).map(|i| AuthorityIdentifier::dummy_for_test(i as u8)).collect();
        for period in 1..=7u64 {
            for shape in 0..3 {
                for skip in [1, 2] {
                    run.step(1);
                    let mut s = ReputationScores::default();
                    let mut want = vec![];
                    for (i, id) in ids.iter().enumerate().step_by(skip) {
                        let v = match shape {
                            0 => i as u64 / period,
                            1 => (n - i) as u64 / period,
                            _ => i as u64 % period,
                        };
                        s.add_score(id, v);
                        want.push((id.clone(), v));
                    }
                    want.sort_by(|a, b| (b.1, &b.0).cmp(&(a.1, &a.0)));
                    if s.authorities_by_score_desc() != want {
                        run.fail("ranking", format!("{n} authorities, tie period {period}, shape {shape}, every {skip}: ranked wrongly"), format!("{n} {period} {shape} {skip}"));
                        return;
                    }
                    run.state(&(n, period, shape, skip));
                }
            }
        }
    });
    // sequences of additions
    let fresh = ReputationScores::new(&c);
    if fresh.total_authorities() as usize != n || !fresh.all_zero() || fresh.final_of_schedule || ids.iter().any(|i| fresh.scores_per_authority.get(i) != Some(&0)) {
        run.fail("new", format!("{fresh:?}"), "");
    }
    let depth = run.pick(5, 6);
    run.bound("additions", format!("every sequence of {depth} additions to 3 members and an outsider"));
    let outsider = AuthorityIdentifier::dummy_for_test(9);
    par(run, seq_count(8, depth) as usize, |m| {
        let ops = seq_of(m as u64, 8, depth);
        let mut s = fresh.clone();
        let mut want: BTreeMap<_, u64> = ids.iter().map(|i| (i.clone(), 0)).collect();
        for o in &ops {
            let id = if o / 2 < 3 { &ids[o / 2] } else { &outsider };
            let by = [1, 1000][o % 2];
            s.add_score(id, by);
            *want.entry(id.clone()).or_default() += by;
            run.step(1);
            if s.scores_per_authority != want || s.total_authorities() as usize != want.len() || s.all_zero() {
                run.fail("addition", format!("{ops:?}: {s:?}"), format!("{ops:?}"));
                return;
            }
        }
        run.state(&("add", ops));
    });
}

/// The reference: EIP-1559 with target `t`, elasticity 2, one eighth at most, never below the minimum.
fn fee(cur: u64, used: u64, t: u64) -> u64 {
    const MIN: u64 = 7;
    if t == 0 {
        return cur.max(MIN);
    }
    let cur = cur.min(u64::MAX - u64::MAX / 8) as u128;
    let limit = t.saturating_mul(2);
    let used = used.min(limit) as u128;
    let t = (limit / 2) as u128;
    let next = if used == t {
        cur
    } else if used > t {
        cur + (cur * (used - t) / t / 8).max(1)
    } else {
        cur - cur * (t - used) / t / 8
    };
    (next as u64).max(MIN)
}

#[derive(Clone, Default)]
struct Slot {
    gas: (u64, u64, u64),
    fee: u64,
}

pub fn t12(run: &Run) {
    // fees
    let mut e: Vec<u64> = vec![0, 1, 2, 6, 7, 8, 9, 15, 16, 17, 63, 64, 100, 1000, 999_999_999, 1_000_000_000, 30_000_000, 15_000_000];
    for i in [31, 32, 33, 60, 61, 62, 63] {
        e.extend([(1u64 << i) - 1, 1 << i, (1 << i) + 1]);
    }
    let m = u64::MAX;
    e.extend([m, m - 1, m / 2, m / 2 + 1, m / 2 - 1, m - m / 8, m - m / 8 + 1, m - m / 8 - 1, m / 8, m / 8 * 7]);
    run.bound("fee grid", format!("{}^3 boundary values; every fee, use and target below {}", e.len(), run.pick(64, 160)));
    let small: u64 = run.pick(64, 160);
    let check = |cur: u64, used: u64, t: u64| {
        run.step(1);
        let want = fee(cur, used, t);
        let got = guarded(|| compute_next_base_fee_eip1559(cur, used, t));
        let what = format!("fee {cur}, used {used}, target {t}");
        match got {
            Ok(g) => {
                let a = next_base_fee_for_config(WorkerFeeConfig::Eip1559 { target_gas: t }, cur, used);
                let b = next_base_fee_for_config(WorkerFeeConfig::Static { fee: t }, cur, used);
                if g != want || a != g || b != t {
                    run.fail("fee", format!("{what}: next is {g} ({a}; static {b}), not {want}"), what);
                } else if g < 7 {
                    run.fail("fee", format!("{what}: {g} is below the minimum"), what);
                }
            }
            Err(p) => run.fail("fee", format!("{what}: {p}"), what),
        }
    };
    par(run, e.len() * e.len(), |n| {
        for t in &e {
            check(e[n / e.len()], e[n % e.len()], *t);
        }
        run.state(&("fee", n));
    });
    par(run, (small * small) as usize, |n| {
        for t in 0..small {
            check(n as u64 / small, n as u64 % small, t);
        }
        run.state(&("small fee", n));
    });
    // the fee read back at the start of an epoch
    type Word = alloy_word::U184;
    for w in [0u64, 1, 6, 7, 8, 1 << 33, u64::MAX] {
        for f in [0, 6, 7, 1000, u64::MAX] {
            for id in [0, 1, u16::MAX] {
                let st = entry_fee_for_worker(id, &WorkerConfigEntry { config: WorkerFeeConfig::Static { fee: f }, data: Word::from(w) });
                let ei = entry_fee_for_worker(id, &WorkerConfigEntry { config: WorkerFeeConfig::Eip1559 { target_gas: f }, data: Word::from(w) });
                run.step(2);
                if st != Ok(f) || ei != Ok(w.max(7)) {
                    run.fail("entry fee", format!("word {w}, value {f}: static {st:?}, adjusted {ei:?}"), "");
                }
            }
        }
    }
    for bit in 64..184 {
        for low in [0u64, 7, u64::MAX] {
            let data = (Word::from(1) << bit) | Word::from(low);
            run.step(1);
            let ei = entry_fee_for_worker(3, &WorkerConfigEntry { config: WorkerFeeConfig::Eip1559 { target_gas: 1 }, data });
            let st = entry_fee_for_worker(3, &WorkerConfigEntry { config: WorkerFeeConfig::Static { fee: 5 }, data });
            if ei.is_ok() || st != Ok(5) {
                run.fail("entry fee", format!("word {data}: static {st:?}, adjusted {ei:?}"), "");
            }
        }
    }
    // the worker of a block
    for batch in [0u64, 1, 2, 255, 256, 65535, 65536, 1 << 32, (1 << 48) - 1] {
        for w in 0..=u16::MAX {
            let h = SealedHeader::new(ExecHeader { difficulty: U256::from((batch << 16) | w as u64), ..Default::default() }, B256::ZERO);
            if worker_id_from_header(&h) != w {
                run.fail("worker", format!("difficulty of batch {batch}, worker {w}: {}", worker_id_from_header(&h)), "");
                break;
            }
        }
        run.step(1 << 16);
    }
    accumulate(run);
    rewards(run);
}

/// Every sequence of operations on the accumulator, through two handles.
fn accumulate(run: &Run) {
    let depth = run.pick(5, 6);
    const OPS: u64 = 14;
    run.bound("accumulator", format!("every sequence of {depth} of {OPS} operations, starting from 0..=2 workers"));
    par(run, 3 * seq_count(OPS, depth) as usize, |n| {
        let start = n % 3;
        let ops = seq_of(n as u64 / 3, OPS, depth);
        let a = GasAccumulator::new(start);
        let b = a.clone();
        let d = Slot { gas: (0, 0, 0), fee: 7 };
        let mut m = vec![d.clone(); start];
        let mut held: Vec<(BaseFeeContainer, u64)> = vec![];
        for (i, o) in ops.iter().enumerate() {
            let h = if i % 2 == 0 { &a } else { &b };
            let bad = |what: String| run.fail("accumulator", format!("{start} workers, {ops:?}, step {i}: {what}"), format!("{start} {ops:?}"));
            run.step(1);
            match *o {
                // a block of worker 0, 1 or 2, empty or not
                0..=5 => {
                    let (w, gas) = (o / 2, [0, 10u64.pow(i as u32)][o % 2]);
                    let r = guarded(|| h.inc_block(w as u16, gas, 1000 + i as u64));
                    if r.is_err() != (gas > 0 && w >= m.len()) {
                        return bad(format!("a block of worker {w} using {gas}: {r:?}"));
                    }
                    if gas > 0 && w < m.len() {
                        let g = &mut m[w].gas;
                        *g = (g.0 + 1, g.1 + gas, g.2 + 1000 + i as u64);
                    }
                }
                6..=9 => {
                    let k = o - 6;
                    h.set_num_workers(k);
                    m.resize(k.max(1), d.clone());
                }
                10 => {
                    h.clear();
                    m.iter_mut().for_each(|s| s.gas = (0, 0, 0));
                }
                11..=12 => {
                    let w = o - 11;
                    match guarded(|| h.base_fee(w as u16)) {
                        Ok(f) if w < m.len() => {
                            f.set_base_fee(100 + i as u64);
                            m[w].fee = 100 + i as u64;
                            held.push((f, 100 + i as u64));
                        }
                        Err(_) if w >= m.len() => {}
                        r => return bad(format!("base fee of worker {w}: {r:?}")),
                    }
                }
                _ => h.rewards_counter().inc_leader_count(&AuthorityIdentifier::dummy_for_test(1)),
            }
            for h in [&a, &b] {
                if h.num_workers() != m.len() {
                    return bad(format!("{} workers, not {}", h.num_workers(), m.len()));
                }
                for w in 0..4 {
                    let v = guarded(|| h.get_values(w as u16)).ok();
                    let f = guarded(|| h.base_fee(w as u16).base_fee()).ok();
                    if v != m.get(w).map(|s| s.gas) || f != m.get(w).map(|s| s.fee) {
                        return bad(format!("worker {w}: {v:?} at fee {f:?}, not {:?}", m.get(w).map(|s| (s.gas, s.fee))));
                    }
                    if w >= m.len() {
                        break;
                    }
                }
            }
        }
        run.state(&("acc", start, m.iter().map(|s| (s.gas, s.fee)).collect::<Vec<_>>()));
        run.trace();
    });
}

/// Leader counts become withdrawals of the members' addresses.
fn rewards(run: &Run) {
    let depth = run.pick(6, 7);
    run.bound("rewards", format!("every sequence of {depth} operations: count one of 3 members or an outsider, set one of 3 committees, clear"));
    // members 0 and 1 share an address in the second committee; member 2 is absent from the third
    let set = |l: &[(usize, usize)]| {
        let mut b = CommitteeBuilder::new(1);
        for (k, a) in l {
            b.add_authority(keys()[*k].pk(), addr(*a));
        }
        b.build()
    };
    let cs = [[(0, 0), (1, 1), (2, 2)].to_vec(), [(0, 5), (1, 5), (2, 1)].to_vec(), [(0, 0), (1, 2), (3, 3)].to_vec()];
    let built: Vec<_> = cs.iter().map(|c| set(c)).collect();
    par(run, seq_count(8, depth) as usize, |n| {
        let ops = seq_of(n as u64, 8, depth);
        let g = GasAccumulator::new_with_rewards(1, RewardsCounter::default());
        let r = g.rewards_counter();
        let mut counts: HashMap<usize, u32> = HashMap::new();
        let mut com: Option<usize> = None;
        for (i, o) in ops.iter().enumerate() {
            run.step(1);
            match *o {
                0..=3 => {
                    (if i % 2 == 0 { r.clone() } else { g.rewards_counter() }).inc_leader_count(&keys()[*o].pk().into());
                    *counts.entry(*o).or_default() += 1;
                }
                4..=6 => {
                    r.set_committee(built[o - 4].clone());
                    com = Some(o - 4);
                }
                _ => {
                    if i % 2 == 0 {
                        r.clear()
                    } else {
                        g.clear()
                    }
                    counts.clear();
                }
            }
            let mut want: BTreeMap<Address, u32> = BTreeMap::new();
            for (k, c) in &counts {
                if let Some((_, a)) = com.and_then(|c| cs[c].iter().find(|x| x.0 == *k)) {
                    *want.entry(addr(*a)).or_default() += c;
                }
            }
            let got = g.rewards_counter().get_address_counts();
            let w = r.generate_withdrawals();
            let pays: Vec<_> = w.iter().map(|w| (w.address, w.amount as u32)).collect();
            let ids = (0..5).all(|k| {
                let id = keys()[k].pk().into();
                let a = com.and_then(|c| cs[c].iter().find(|x| x.0 == k)).map(|x| addr(x.1));
                g.get_authority_address(&id) == a && r.get_authority_address(&id) == a
            });
            if got != want || pays != want.into_iter().collect::<Vec<_>>() || w.iter().any(|w| w.index != 0 || w.validator_index != 0) || !ids {
                run.fail("rewards", format!("{ops:?}, step {i}: {got:?}, withdrawals {pays:?}"), format!("{ops:?}"));
                return;
            }
        }
        run.state(&("rewards", ops));
        run.trace();
    });
}

mod alloy_word {
    pub type U184 = alloy::primitives::aliases::U184;
}

//! C02: who leads a round.
use crate::util::{committee, ids};
use rand::{seq::IndexedRandom as _, SeedableRng};
use rand_chacha::ChaCha12Rng;
use std::collections::{BTreeMap, BTreeSet};
use tn_primary::consensus::{LeaderSchedule, LeaderSwapTable};
use tn_types::{AuthorityIdentifier, Committee, ReputationScores};
use vlib::{explore::seq_of, Run};

/// (replaced, replacements in order): members whose score is at least two standard deviations below the best, fewer if
/// those are more than the limit; and the best members, more if those are fewer than the limit.
fn split(scores: &[u64], limit: usize, order: &[usize]) -> (BTreeSet<usize>, Vec<usize>) {
    let n = scores.len() as u64;
    let best = *scores.iter().max().unwrap();
    let mean = scores.iter().sum::<u64>() / n;
    let variance = scores.iter().map(|s| s.abs_diff(mean).pow(2)).sum::<u64>() / n;
    let sd = (0..).take_while(|x: &u64| x * x <= variance).last().unwrap();
    if sd == 0 {
        return Default::default();
    }
    let below = |c: u64| (0..scores.len()).filter(|&i| scores[i] <= c).collect::<BTreeSet<_>>();
    let above = |f: u64| order.iter().copied().filter(|&i| scores[i] >= f).collect::<Vec<_>>();
    let mut ceil = best.saturating_sub(2 * sd);
    while ceil > 0 && below(ceil).len() > limit {
        ceil = ceil.saturating_sub(sd);
    }
    let bad = below(ceil);
    // nobody is far enough below the best
    if below(best.saturating_sub(2 * sd)).is_empty() {
        return Default::default();
    }
    let mut floor = best.saturating_sub(sd).max(ceil + 1);
    while floor > ceil + 1 && above(floor).len() < limit {
        floor = floor.saturating_sub(sd).max(ceil + 1);
    }
    (bad, above(floor))
}

fn one(run: &Run, c: &Committee, id: &[AuthorityIdentifier], scores: &[u64], threshold: u64, rounds: u32) {
    let n = scores.len();
    let rep = ReputationScores {
        scores_per_authority: id.iter().cloned().zip(scores.iter().copied()).collect::<BTreeMap<_, _>>(),
        final_of_schedule: true,
    };
    // best first, larger identifier first among equals
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by(|&a, &b| scores[b].cmp(&scores[a]).then(id[b].cmp(&id[a])));
    let (bad, good) = split(scores, (n * threshold as usize / 100).max(1), &order);
    let replay = |r: u32| format!("scores {scores:?} threshold {threshold} round {r}");
    if !bad.is_empty() {
        let worst_good = good.iter().map(|&i| scores[i]).min().unwrap();
        let best_bad = bad.iter().map(|&i| scores[i]).max().unwrap();
        assert!(!good.is_empty() && worst_good > best_bad, "the reference is unsound for {scores:?}");
    }
    let table = LeaderSwapTable::new(c, 2, &rep, threshold);
    let again = LeaderSwapTable::new(c, 2, &rep.clone(), threshold);
    let first = LeaderSchedule::new(c.clone(), LeaderSwapTable::default());
    let handle = first.clone();
    if first.leader(2).id() != id[0] {
        run.fail("rotation", "round 2 is not led by the first member", replay(2));
    }
    first.update_leader_swap_table(table);
    let other = LeaderSchedule::new(c.clone(), again);
    if first.num_of_bad_nodes() != bad.len() {
        run.fail("count", format!("{} members are replaced, expected {bad:?}", first.num_of_bad_nodes()), replay(0));
        return;
    }
    for r in (0..=rounds).step_by(2) {
        let turn = (r as usize / 2).saturating_sub(1) % n;
        let expect = if bad.contains(&turn) {
            let mut seed = [0u8; 32];
            seed[24..].copy_from_slice(&(r as u64).to_le_bytes());
            *good.choose(&mut ChaCha12Rng::from_seed(seed)).unwrap()
        } else {
            turn
        };
        for (who, s) in [("the schedule", &first), ("its clone", &handle), ("a second node", &other)] {
            let got = s.leader(r).id();
            if got != id[expect] {
                let got = id.iter().position(|x| *x == got);
                run.fail("leader", format!("{who} gives {got:?}, expected {expect}; it is the turn of {turn}, replaced {bad:?} by one of {good:?}"), replay(r));
                return;
            }
        }
        run.step(3);
    }
    run.state(&(scores, threshold));
    run.outcome(format!("committees of {n}: {} replaced, {} replacements", bad.len(), good.len()));
}

pub fn c02(run: &Run) {
    let plan: Vec<(usize, Vec<u64>)> = if run.thorough() {
        vec![(4, (0..=10).collect()), (5, (0..=6).collect()), (7, (0..=3).collect()), (7, vec![0, 10, 50, 90, 100]), (10, vec![0, 8, 9, 10])]
    } else {
        vec![(4, (0..=6).collect()), (4, vec![0, 1, 20, 50, 99, 100]), (5, (0..=3).collect()), (7, vec![0, 2, 9, 10]), (10, vec![0, 5, 10])]
    };
    run.bound("committees and scores", format!("{plan:?}"));
    run.bound("thresholds", "20, 33 percent");
    for (n, values) in plan {
        let c = committee(n, 0);
        let id = ids(&c);
        let total = values.len().pow(n as u32);
        let step = 64;
        vlib::par(run, total.div_ceil(step), |w| {
            for k in w * step..((w + 1) * step).min(total) {
                let s: Vec<u64> = seq_of(k as u64, values.len() as u64, n).into_iter().map(|i| values[i]).collect();
                for t in [20, 33] {
                    one(run, &c, &id, &s, t, 4 * n as u32);
                }
            }
        });
    }
}

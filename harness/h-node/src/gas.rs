//! N05: the penalty for reserving far more gas than is used.
use crate::evm_gas::calculate_gas_penalty;
use vlib::{par, Run};

/// docs/gas-penalty.md, with the ratio rounded down to nine decimals.
fn expected(limit: u64, used: u64) -> u128 {
    let (limit, used) = (limit as u128, used as u128);
    if limit <= 210_000 || used * 10 >= limit {
        return 0;
    }
    let ratio = used * 1_000_000_000 / limit;
    let short = 100_000_000 - ratio;
    short * short * (limit - used) / 10_000_000_000_000_000
}

fn one(run: &Run, limit: u64, used: u64, before: Option<u64>) -> u64 {
    let got = calculate_gas_penalty(limit, used);
    let want = expected(limit, used);
    let replay = || format!("limit {limit} used {used}");
    if got as u128 != want {
        run.fail("value", format!("penalty {got}, expected {want}"), replay());
    }
    if got > limit.saturating_sub(used) {
        run.fail("unused", format!("penalty {got} is more than the unused gas"), replay());
    }
    if before.is_some_and(|b| got > b) {
        run.fail("monotone", format!("using one more unit of gas raises the penalty to {got}"), replay());
    }
    got
}

pub fn n05(run: &Run) {
    let edge = run.pick(120u64, 600);
    let mut limits: Vec<u64> = (0..8).chain(20_995..21_005).chain(209_990..210_000 + edge).collect();
    limits.extend([420_000, 1_000_000, 2_100_000, 2_100_009].iter().copied());
    run.bound("every use", format!("every amount used from 0 to one above the limit, for {} limits around the thresholds and up to 2,100,009", limits.len()));
    par(run, limits.len(), |i| {
        let limit = limits[i];
        let mut before = None;
        for used in 0..=limit + 1 {
            before = Some(one(run, limit, used, before));
        }
        run.step(limit + 2);
        run.state(&limit);
        run.trace();
    });
    // large limits: every power of two and of ten with neighbours, used at every share around the 10% boundary
    let mut large: Vec<u64> = (17..64).flat_map(|b| [(1u64 << b) - 1, 1 << b, (1 << b) + 1]).chain((5..20).flat_map(|d| [10u64.pow(d) - 1, 10u64.pow(d), 10u64.pow(d) + 1])).collect();
    large.extend([30_000_000, 60_000_000, 340_000_000, u64::MAX - 1, u64::MAX]);
    let window = run.pick(20_000u64, 100_000);
    run.bound("large limits", format!("{} limits to 2^64-1; used: within {window} of 0, of each tenth of a percent to 10.5%, of the limit", large.len()));
    par(run, large.len(), |i| {
        let limit = large[i];
        let marks: Vec<u64> = (0..=105u128).map(|t| (limit as u128 * t / 1000) as u64).chain([21_000, limit]).collect();
        for m in marks {
            let w = if m == 0 || m == (limit as u128 / 10) as u64 { window } else { window / 20 };
            for used in m.saturating_sub(w)..=m.saturating_add(w).min(limit.saturating_add(1)) {
                one(run, limit, used, None);
            }
            run.step(2 * w);
        }
        run.state(&limit);
        run.trace();
    });
    let mut last = 0;
    // a sender who reserves more for the same use never pays less
    for limit in 0..run.pick(3_000_000u64, 60_000_000) {
        let got = calculate_gas_penalty(limit, 21_000);
        if got < last {
            run.fail("reserve", format!("reserving {limit} costs {got}, reserving one less costs {last}"), format!("limit {limit} used 21000"));
            break;
        }
        last = got;
    }
    run.outcome("monotone in the limit");
}

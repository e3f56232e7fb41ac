//! N09: network parameters and retries.
use std::{
    cell::RefCell,
    collections::BTreeMap,
    time::Duration,
};
use tn_config::{LibP2pConfig, NetworkConfig, PeerConfig, RetryConfig, ScoreConfig, MAX_GOSSIP_MESSAGE_SIZE};
use vlib::{par, Run};

fn topics(run: &Run) {
    let mut seen: BTreeMap<String, (u64, usize)> = BTreeMap::new();
    let ids: Vec<u64> = (0..2_000).chain((0..64).flat_map(|b| [(1u64 << b) - 1, 1 << b])).chain([u64::MAX, 2017]).collect();
    for id in ids {
        let all = [
            (LibP2pConfig::primary_topic(id), format!("tn-primary-{id}")),
            (LibP2pConfig::consensus_output_topic(id), format!("tn-consensus-output-{id}")),
            (LibP2pConfig::epoch_vote_topic(id), format!("tn-epoch-vote-{id}")),
            (LibP2pConfig::worker_batch_topic(id), format!("tn-worker-{id}")),
        ];
        for (k, (got, want)) in all.into_iter().enumerate() {
            run.step(1);
            if got != want {
                run.fail("topic", format!("topic {got}, expected {want}"), format!("chain {id}"));
            }
            if let Some(other) = seen.insert(got.clone(), (id, k)) {
                if other != (id, k) {
                    run.fail("topic-shared", format!("{got} is used twice"), format!("chain {id} topic {k} and {other:?}"));
                }
            }
        }
        let mut c = NetworkConfig::default();
        c.set_chain_id(id);
        if c.chain_id() != id || c.libp2p_config().chain_id != id {
            run.fail("chain-id", "the chain id set is not the one used", format!("{id}"));
        }
    }
    if MAX_GOSSIP_MESSAGE_SIZE != 12_000 {
        run.fail("gossip-bound", format!("the gossip bound is {MAX_GOSSIP_MESSAGE_SIZE}"), "");
    }
    run.trace();
}

/// ceil(n * share) for a share in 1/1024ths
fn ceil(n: usize, share: u64) -> usize {
    ((n as u64 * share).div_ceil(1024)) as usize
}

fn peers(run: &Run) {
    let d = PeerConfig::default();
    // k-bucket target of 20 and half as much again
    let defaults = (d.target_num_peers, d.heartbeat_interval, d.dial_timeout, d.excess_peers_reconnection_timeout, d.max_banned_peers, d.max_disconnected_peers, d.max_temporarily_banned_peers);
    if defaults != (30, 30, Duration::from_secs(15), Duration::from_secs(600), 100, 100, 100) {
        run.fail("peer-defaults", format!("{defaults:?}"), "");
    }
    let shares = [0u64, 1, 128, 256, 307, 512, 1024];
    let targets = run.pick(400usize, 3_000);
    run.bound("peer limits", format!("target of 0 to {targets} peers with every combination of {} shares exactly representable in binary", shares.len()));
    par(run, targets + 1, |target| {
        for e in shares {
            for p in shares {
                let f = |s: u64| s as f32 / 1024.0;
                let c = PeerConfig { target_num_peers: target, peer_excess_factor: f(e), priority_peer_excess: f(p), target_outbound_only_factor: f(e), min_outbound_only_factor: f(p), ..d };
                let got = [c.max_peers(), c.max_priority_peers(), c.min_outbound_only_peers(), c.target_outbound_peers(), c.max_outbound_dialing_peers(), c.max_discovery_peers()];
                let want = [
                    ceil(target, 1024 + e),
                    ceil(target, 1024 + e + p),
                    ceil(target, p),
                    ceil(target, e),
                    ((target as u64 * (2048 + 2 * e + p)).div_ceil(2048)) as usize,
                    2 * target,
                ];
                run.step(1);
                if got != want {
                    run.fail("limits", format!("(max, priority, min outbound, outbound, dialing, discovery) = {got:?}, expected {want:?}"), format!("target {target} excess {e}/1024 priority {p}/1024"));
                    return;
                }
            }
        }
        run.state(&target);
        run.trace();
    });
}

fn scores(run: &Run) {
    let d = ScoreConfig::default();
    let got = (d.default_score, d.max_score, d.min_score, d.score_halflife, d.banned_before_decay(), d.min_score_before_disconnect, d.min_score_before_ban);
    if got != (0.0, 100.0, -100.0, 300.0, Duration::from_secs(1800), -20.0, -50.0) {
        run.fail("score-defaults", format!("{got:?}"), "");
    }
    let vals = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -100.0, -1.0, 0.0, f64::MIN_POSITIVE, 1.0, 100.0];
    run.bound("score settings", format!("every combination of {} values of the six settings", vals.len()));
    par(run, vals.len() * vals.len(), |n| {
        let (a, b) = (vals[n % vals.len()], vals[n / vals.len()]);
        for c in vals {
            for e in vals {
                for f in vals {
                    for h in vals {
                        let s = ScoreConfig { default_score: a, max_score: b, min_score: c, min_score_before_disconnect: e, min_score_before_ban: f, score_halflife: h, ..d };
                        let finite = [a, b, c, e, f, h].iter().all(|v| v.is_finite());
                        let want = finite && c <= b && h > 0.0;
                        run.step(1);
                        if s.validate().is_ok() != want {
                            run.fail("score-validate", format!("accepted: {}", !want), format!("{s:?}"));
                            return;
                        }
                        if want && !(s.halflife_decay() < 0.0) {
                            run.fail("decay", format!("decay constant {}", s.halflife_decay()), format!("{s:?}"));
                            return;
                        }
                    }
                }
            }
        }
        run.state(&(n as u64, "scores"));
        run.trace();
    });
    for h in 1..1000 {
        let s = ScoreConfig { score_halflife: h as f64, ..d };
        let half = (s.halflife_decay() * h as f64).exp();
        let quarter = (s.halflife_decay() * 2.0 * h as f64).exp();
        if (half - 0.5).abs() > 1e-12 || (quarter - 0.25).abs() > 1e-12 {
            run.fail("halflife", format!("after one half-life {half} is left"), format!("half-life {h}"));
        }
    }
}

/// Which attempts fail how.
#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Ok,
    Permanent,
    Never,
}

fn retries(run: &Run) {
    let d = RetryConfig::default();
    let got = (d.initial_retry_interval, d.max_retry_interval, d.retry_delay_multiplier, d.retry_delay_rand_factor, d.retrying_max_elapsed_time);
    if got != (Duration::from_millis(500), Duration::from_secs(15), 1.5, 0.3, Some(Duration::from_secs(30))) {
        run.fail("retry-defaults", format!("{got:?}"), "");
    }
    let mut cases = vec![];
    for initial in [100u64, 500, 3_000] {
        for max in [400u64, 500, 15_000] {
            for mult in [1.0, 1.5, 2.0, 10.0] {
                for rand in [0.0, 0.3, 0.5] {
                    for fails in 0..run.pick(8u32, 16) {
                        for end in [End::Ok, End::Permanent] {
                            for bound in [None, Some(Duration::from_secs(3600))] {
                                cases.push((initial, max, mult, rand, fails, end, bound));
                            }
                        }
                    }
                    cases.push((initial, max, mult, rand, 0, End::Never, Some(Duration::ZERO)));
                }
            }
        }
    }
    // waits longer than any built-in limit, and waits that do not fit the configured one
    for rand in [0.0, 0.3] {
        for fails in 0..4 {
            for end in [End::Ok, End::Permanent] {
                cases.push((70_000, 100_000, 1.5, rand, fails, end, None));
                cases.push((70_000, 100_000, 1.5, rand, fails, end, Some(Duration::from_secs(3600))));
            }
        }
        cases.push((70_000, 100_000, 1.5, rand, 0, End::Never, Some(Duration::from_secs(10))));
    }
    run.bound("retries", format!("{} combinations of intervals, multiplier, randomness, number of transient failures and final answer, under a virtual timer", cases.len()));
    par(run, cases.len(), |i| {
        let (initial, max, mult, rand, fails, end, bound) = cases[i];
        let c = RetryConfig {
            initial_retry_interval: Duration::from_millis(initial),
            max_retry_interval: Duration::from_millis(max),
            retry_delay_multiplier: mult,
            retry_delay_rand_factor: rand,
            retrying_max_elapsed_time: bound,
        };
        let replay = || format!("{c:?}, {fails} failures, then {end:?}");
        let times = RefCell::new(vec![]);
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        let got: Result<u32, String> = rt.block_on(async {
            let times = &times;
            c.retry(|| {
                async move {
                    times.borrow_mut().push(tokio::time::Instant::now());
                    let n = times.borrow().len() as u32;
                    match end {
                        // it never gives up
                        _ if n > 1000 => Err(backoff::Error::permanent("endless".to_string())),
                        End::Ok if n > fails => Ok(n),
                        End::Permanent if n > fails => Err(backoff::Error::permanent("permanent".to_string())),
                        _ => Err(backoff::Error::transient(format!("transient {n}"))),
                    }
                }
            })
            .await
        });
        let times = times.into_inner();
        run.step(times.len() as u64);
        let want = match end {
            End::Ok => Ok(fails + 1),
            End::Permanent => Err("permanent".to_string()),
            End::Never => Err("transient 1".to_string()),
        };
        if got != want {
            run.fail("retry-result", format!("gave {got:?}, expected {want:?}"), replay());
        }
        if times.len() as u32 != fails + 1 {
            run.fail("retry-count", format!("{} attempts", times.len()), replay());
        }
        let mut interval = initial as f64;
        for (k, w) in times.windows(2).enumerate() {
            let waited = (w[1] - w[0]).as_secs_f64() * 1000.0;
            // the timer rounds up to a millisecond
            let (lo, hi) = (interval * (1.0 - rand) - 1.0, interval * (1.0 + rand) + 2.0);
            if waited < lo || waited > hi {
                run.fail("retry-wait", format!("waited {waited} ms before attempt {}, expected {lo} to {hi}", k + 2), replay());
                break;
            }
            interval = (interval * mult).min(max as f64);
        }
        run.outcome(format!("{end:?}"));
        run.state(&i);
        run.trace();
    });
    // giving up in real time
    let waits = run.pick(8, 32);
    par(run, waits, |i| {
        let c = RetryConfig { initial_retry_interval: Duration::from_millis(4), max_retry_interval: Duration::from_millis(10), retry_delay_multiplier: 1.5, retry_delay_rand_factor: 0.0, retrying_max_elapsed_time: Some(Duration::from_millis(30 + i as u64)) };
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
        let n = RefCell::new(0);
        let got: Result<(), &str> = rt.block_on(async {
            let retried = c.retry(|| {
                async {
                    *n.borrow_mut() += 1;
                    Err(backoff::Error::transient("down"))
                }
            });
            tokio::time::timeout(Duration::from_secs(60), retried).await.unwrap_or(Err("still retrying"))
        });
        if got != Err("down") || *n.borrow() < 1 {
            run.fail("retry-forever", format!("{got:?} after {} attempts", n.borrow()), format!("{c:?}"));
        }
        run.outcome("gave up");
    });
}

pub fn n09(run: &Run) {
    run.assume("The delay before a retry is drawn from its range by the backoff library; its bounds are checked on the draw made, and exactly where the range is a point.");
    topics(run);
    peers(run);
    scores(run);
    retries(run);
}

//! N01: the reconnection ban list.
use crate::banned_cache::BannedPeerCache;
use std::time::Duration;
use vlib::{explore::seq_of, par, Run};

const TICK: Duration = Duration::from_secs(10);
const KEYS: u8 = 4;

#[derive(Clone, Copy, Debug)]
enum Op {
    Insert(u8),
    Remove(u8),
    Beat,
    Tick,
    /// one nanosecond, so that expiry is met exactly, just before and just after
    Nano,
}

/// oldest first
#[derive(Clone, Default)]
struct Model(Vec<(u8, Duration)>);

fn play(run: &Run, max_len: usize, life: Duration, ops: &[Op]) {
    vstd::clock::reset();
    let mut real: BannedPeerCache<u8> = BannedPeerCache::new(life, max_len);
    let mut m = Model::default();
    let cap = max_len.max(1);
    let keys = ops.iter().map(|o| if let Op::Insert(k) = o { *k } else { 0 }).max().unwrap_or(0).max(KEYS - 1) + 1;
    for (i, op) in ops.iter().enumerate() {
        run.step(1);
        let now = vstd::clock::now();
        let replay = || format!("capacity {max_len}, ban of {life:?}: {:?}", &ops[..=i]);
        match *op {
            Op::Insert(k) => {
                let known = m.0.iter().any(|e| e.0 == k);
                m.0.retain(|e| e.0 != k);
                m.0.push((k, now));
                let evicted = (m.0.len() > cap).then(|| m.0.remove(0).0);
                let got = real.insert(k);
                if got != (!known, evicted) {
                    run.fail("insert", format!("insert({k}) gave {got:?}, expected {:?}", (!known, evicted)), replay());
                    return;
                }
                run.outcome(if evicted.is_some() { "oldest ban evicted" } else if known { "ban renewed" } else { "banned" });
            }
            Op::Remove(k) => {
                let had = m.0.iter().any(|e| e.0 == k);
                m.0.retain(|e| e.0 != k);
                if real.remove(&k) != had {
                    run.fail("remove", format!("remove({k}) gave {}", !had), replay());
                    return;
                }
            }
            Op::Beat => {
                let (gone, kept): (Vec<_>, Vec<_>) = m.0.iter().partition(|e| e.1 + life <= now);
                m.0 = kept;
                let gone: Vec<u8> = gone.into_iter().map(|e| e.0).collect();
                let got = real.heartbeat();
                if got != gone {
                    run.fail("expiry", format!("a heartbeat released {got:?}, expected {gone:?}"), replay());
                    return;
                }
                run.outcome(format!("{} expired", gone.len()));
            }
            Op::Tick => vstd::clock::advance(TICK),
            Op::Nano => vstd::clock::advance(Duration::from_nanos(1)),
        }
        if real.len() != m.0.len() || real.len() > cap {
            run.fail("len", format!("{} banned, expected {} of at most {cap}", real.len(), m.0.len()), replay());
            return;
        }
        for k in 0..=keys {
            if real.contains(&k) != m.0.iter().any(|e| e.0 == k) {
                run.fail("contains", format!("contains({k}) is {}", real.contains(&k)), replay());
                return;
            }
        }
        let now = vstd::clock::now();
        run.state(&(max_len, life, m.0.iter().map(|e| (e.0, (now - e.1).min(life + TICK))).collect::<Vec<_>>()));
    }
    run.trace();
}

pub fn n01(run: &Run) {
    let depth = run.pick(6, 8);
    let mut alphabet: Vec<Op> = (0..KEYS - 1).map(Op::Insert).collect();
    alphabet.extend([Op::Remove(0), Op::Remove(1), Op::Beat, Op::Tick, Op::Nano]);
    let lives = [Duration::ZERO, TICK, TICK * 2];
    run.bound("operations", format!("every sequence of {depth} operations from {alphabet:?}, ticks of {TICK:?}"));
    run.bound("configurations", "capacity 0, 1, 2, 3 with bans of 0, 1 and 2 ticks");
    run.assume("Time is that of a virtual clock: `std::time::Instant` is replaced in the compiled copy of the cache, which is otherwise the file of /repo.");
    let base = alphabet.len() as u64;
    let total = base.pow(depth as u32);
    let chunks = 512u64;
    par(run, chunks as usize, |c| {
        let mut n = c as u64;
        while n < total && !run.stop() {
            let ops: Vec<Op> = seq_of(n, base, depth).into_iter().map(|i| alphabet[i]).collect();
            for max_len in 0..4 {
                for life in lives {
                    play(run, max_len, life, &ops);
                }
            }
            n += chunks;
        }
    });
    // every reachable state of larger instances: all keys, all distances, breadth first over model states
    deep(run);
    crowds(run);
}

/// Many bans at once, given together or spread over three ticks, running out together or in parts.
fn crowds(run: &Run) {
    let most = run.pick(120, 250u8);
    run.bound("bans at once", most);
    par(run, most as usize, |n| {
        let n = n as u8 + 1;
        for cap in [n as usize - 1, n as usize, n as usize + 1, 1000] {
            for spread in [0, 1, n / 3 + 1] {
                for beats in [1, 3, 4] {
                    let mut ops = vec![];
                    for k in 0..n {
                        ops.push(Op::Insert(k));
                        if spread > 0 && k % spread == spread - 1 && k / spread < 3 {
                            ops.push(Op::Tick);
                        }
                    }
                    // one again, and one forgiven
                    ops.extend([Op::Insert(0), Op::Remove(n / 2)]);
                    for _ in 0..6 {
                        ops.push(Op::Tick);
                        if ops.len() % beats == 0 {
                            ops.push(Op::Beat);
                        }
                    }
                    ops.extend([Op::Beat, Op::Beat]);
                    play(run, cap, TICK * 2, &ops);
                }
            }
        }
    });
}

/// Explicit-state closure: states are what the model holds (keys with ages up to the ban's length), each expanded by
/// replaying its shortest path on the real cache.
fn deep(run: &Run) {
    let configs: Vec<(usize, Duration)> = (1..=run.pick(3, 4)).flat_map(|c| (1..=run.pick(2, 3)).map(move |l| (c, TICK * l))).collect();
    par(run, configs.len(), |i| {
        let (max_len, life) = configs[i];
        let mut alphabet: Vec<Op> = (0..KEYS).flat_map(|k| [Op::Insert(k), Op::Remove(k)]).collect();
        alphabet.extend([Op::Beat, Op::Tick]);
        let mut seen = std::collections::HashSet::new();
        let mut frontier: Vec<Vec<Op>> = vec![vec![]];
        seen.insert(vec![]);
        while let Some(path) = frontier.pop() {
            if run.stop() {
                return;
            }
            for op in &alphabet {
                let mut p = path.clone();
                p.push(*op);
                play(run, max_len, life, &p);
                let key = model(&p, max_len, life);
                if p.len() < 40 && seen.insert(key) {
                    frontier.insert(0, p);
                }
            }
        }
        run.outcome(format!("closure of capacity {max_len}"));
    });
}

fn model(ops: &[Op], cap: usize, life: Duration) -> Vec<(u8, Duration)> {
    let (mut m, mut now) = (Vec::<(u8, Duration)>::new(), Duration::ZERO);
    for op in ops {
        match *op {
            Op::Insert(k) => {
                m.retain(|e| e.0 != k);
                m.push((k, now));
                if m.len() > cap {
                    m.remove(0);
                }
            }
            Op::Remove(k) => m.retain(|e| e.0 != k),
            Op::Beat => m.retain(|e| e.1 + life > now),
            Op::Tick => now += TICK,
            Op::Nano => now += Duration::from_nanos(1),
        }
    }
    m.into_iter().map(|e| (e.0, (now - e.1).min(life))).collect()
}

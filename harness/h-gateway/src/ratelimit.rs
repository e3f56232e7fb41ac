//! N07: the gateway's rate limits, under every sequence of requests and waits.
use std::{collections::BTreeMap, net::IpAddr, num::NonZeroU32, time::Duration};
use tn_worker_gateway::ratelimit::{PrefixLen, PrefixPolicy, RateLimit, RateLimiters};
use vlib::{explore::{seq_count, seq_of}, par, Run};

fn limit(l: Option<(u32, u32)>) -> Option<RateLimit> {
    l.map(|(r, b)| RateLimit::new(NonZeroU32::new(r).expect("rate"), NonZeroU32::new(b).expect("burst")))
}

/// An independent account: tokens in quarter-second units, so that all arithmetic is in integers.
#[derive(Clone, Debug)]
struct Tokens {
    quarter: u64,
    at: u64,
}
impl Tokens {
    fn full(at: u64, burst: u32) -> Self {
        Self { quarter: burst as u64 * 4, at }
    }
    fn refill(&mut self, now: u64, rate: u32, burst: u32) {
        self.quarter = (self.quarter + (now - self.at) * rate as u64).min(burst as u64 * 4);
        self.at = now;
    }
    fn take(&mut self, now: u64, rate: u32, burst: u32) -> bool {
        self.refill(now, rate, burst);
        let ok = self.quarter >= 4;
        if ok {
            self.quarter -= 4;
        }
        ok
    }
}

#[derive(Clone, Copy, Debug)]
struct Config {
    per_ip: Option<(u32, u32)>,
    global: Option<(u32, u32)>,
    entries: usize,
    v4: u8,
    v6: u8,
}

/// The network a request is counted against.
fn network(ip: IpAddr, c: &Config) -> (u8, u128) {
    let top = |v: u128, width: u32, bits: u8| if bits == 0 { 0 } else { v >> (width - bits as u32) };
    match ip {
        IpAddr::V4(a) => (4, top(u32::from(a) as u128, 32, c.v4)),
        IpAddr::V6(a) => {
            let v = u128::from(a);
            if v >> 32 == 0xffff {
                (4, top(v & 0xffff_ffff, 32, c.v4))
            } else {
                (6, top(v, 128, c.v6))
            }
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Ask(Option<IpAddr>),
    Wait(u64),
    Sweep,
}

fn replay(run: &Run, c: &Config, ops: &[Op]) -> bool {
    vstd::clock::reset();
    let prefix = PrefixPolicy::new(PrefixLen::v4(c.v4).expect("prefix"), PrefixLen::v6(c.v6).expect("prefix"));
    let real = RateLimiters::new(limit(c.per_ip), limit(c.global), c.entries, prefix);
    let Some(real) = real else {
        if c.per_ip.is_some() || c.global.is_some() {
            run.fail("none", "limits were set but no limiter was made", format!("{c:?}"));
            return false;
        }
        return true;
    };
    let mut now = 0u64;
    let mut global = c.global.map(|(_, b)| Tokens::full(0, b));
    let mut table: BTreeMap<(u8, u128), Tokens> = BTreeMap::new();
    for (i, op) in ops.iter().enumerate() {
        match op {
            Op::Wait(q) => {
                now += q;
                vstd::clock::advance(Duration::from_millis(250 * q));
            }
            Op::Sweep => {
                real.gc();
                if let Some((rate, burst)) = c.per_ip {
                    table.retain(|_, t| {
                        let mut t = t.clone();
                        t.refill(now, rate, burst);
                        t.quarter < burst as u64 * 4
                    });
                }
            }
            Op::Ask(ip) => {
                let mut want = match (&mut global, c.global) {
                    (Some(t), Some((r, b))) => t.take(now, r, b),
                    _ => true,
                };
                if want {
                    if let (Some((r, b)), Some(ip)) = (c.per_ip, ip) {
                        let key = network(*ip, c);
                        if let Some(t) = table.get_mut(&key) {
                            want = t.take(now, r, b);
                        } else if table.len() < c.entries.max(1) {
                            let mut t = Tokens::full(now, b);
                            want = t.take(now, r, b);
                            table.insert(key, t);
                        }
                    }
                }
                let got = real.check(*ip).is_ok();
                if got != want {
                    run.fail("admitted", format!("a request from {ip:?} is {} at step {i}, the bucket says {}", if got { "admitted" } else { "refused" }, if want { "admit" } else { "refuse" }), format!("{c:?} {:?}", &ops[..=i]));
                    return false;
                }
            }
        }
        run.step(1);
    }
    run.state(&(format!("{c:?}"), table.iter().map(|(k, t)| (*k, t.quarter)).collect::<Vec<_>>(), global.map(|g| (g.quarter, now - g.at))));
    true
}

fn prefixes(run: &Run) {
    for bits in 0..=u8::MAX {
        if PrefixLen::v4(bits).is_ok() != (bits <= 32) || PrefixLen::v6(bits).is_ok() != (bits <= 128) {
            run.fail("prefix", "a prefix length is wrongly accepted or refused", format!("{bits}"));
        }
    }
    // every prefix length, and an address differing from another in one bit only, at every bit
    let v4: u32 = 0xc0a8_57e1;
    let v6: u128 = 0x2001_0db8_85a3_08d3_1319_8a2e_0370_7344;
    for width in [32u32, 128] {
        par(run, width as usize + 1, |bits| {
            let bits = bits as u8;
            let c = Config { per_ip: Some((1, 1)), global: None, entries: 10, v4: if width == 32 { bits } else { 24 }, v6: if width == 128 { bits } else { 48 } };
            for flip in 0..width {
                for mapped in [false, true] {
                    let pair = |x: u32| IpAddr::from(std::net::Ipv4Addr::from(x));
                    let (a, b) = if width == 32 {
                        let b = if mapped { IpAddr::from(std::net::Ipv4Addr::from(v4 ^ (1 << flip)).to_ipv6_mapped()) } else { pair(v4 ^ (1 << flip)) };
                        (pair(v4), b)
                    } else {
                        (IpAddr::from(std::net::Ipv6Addr::from(v6)), IpAddr::from(std::net::Ipv6Addr::from(v6 ^ (1 << flip))))
                    };
                    // of one network: the second request finds the bucket empty; of two: it does not
                    if !replay(run, &c, &[Op::Ask(Some(a)), Op::Ask(Some(b)), Op::Ask(Some(a))]) {
                        return;
                    }
                }
            }
            run.trace();
        });
    }
    // addresses that look like others
    let odd = ["10.0.0.1", "::ffff:10.0.0.1", "::10.0.0.1", "::1", "::", "64:ff9b::10.0.0.1", "2002:a00:1::", "::ffff:0:10.0.0.1", "fe80::1", "0.0.0.0", "0.0.0.1", "127.0.0.1", "::ffff:127.0.0.1"].map(|s| s.parse::<IpAddr>().expect("address"));
    for a in odd {
        for b in odd {
            for (v4, v6) in [(32, 64), (32, 128), (24, 96), (0, 0), (8, 16), (32, 0)] {
                let c = Config { per_ip: Some((1, 1)), global: None, entries: 10, v4, v6 };
                replay(run, &c, &[Op::Ask(Some(a)), Op::Ask(Some(b)), Op::Ask(Some(a)), Op::Wait(4), Op::Ask(Some(b)), Op::Ask(Some(a))]);
                run.trace();
            }
        }
    }
    run.bound("networks", "every prefix length of both families, every pair of addresses differing in one bit, v4 plain and mapped into v6");
}

pub fn n07(run: &Run) {
    prefixes(run);
    let ip = |s: &str| Some(s.parse::<IpAddr>().expect("address"));
    let alphabet = vec![
        Op::Ask(ip("10.0.0.1")),
        Op::Ask(ip("10.0.0.2")),
        Op::Ask(ip("2001:db8::1")),
        Op::Ask(None),
        Op::Wait(1),
        Op::Wait(3),
        Op::Wait(8),
        Op::Sweep,
    ];
    let mut configs = Vec::new();
    let per = [None, Some((1, 1)), Some((2, 3)), Some((4, 1)), Some((1, 4))];
    let glo = [None, Some((1, 2)), Some((3, 2)), Some((1, 6))];
    for per_ip in per {
        for global in glo {
            for entries in [0usize, 1, 2, 10] {
                for v4 in [32u8, 24] {
                    if per_ip.is_none() && (entries != 10 || v4 != 32) {
                        continue;
                    }
                    configs.push(Config { per_ip, global, entries, v4, v6: 64 });
                }
            }
        }
    }
    let depth = run.pick(5, 7);
    run.bound("rate histories", format!("every sequence of {depth} of {} operations under {} configurations", alphabet.len(), configs.len()));
    let n = seq_count(alphabet.len() as u64, depth);
    // chunks, so that all cores have work
    let chunks = 64u64;
    par(run, configs.len() * chunks as usize, |job| {
        let c = configs[job / chunks as usize];
        let part = (job % chunks as usize) as u64;
        let mut i = part;
        while i < n {
            let ops: Vec<Op> = seq_of(i, alphabet.len() as u64, depth).into_iter().map(|k| alphabet[k]).collect();
            if !replay(run, &c, &ops) || run.stop() {
                return;
            }
            run.trace();
            i += chunks;
        }
    });
    // longer, with one client
    let few = [Op::Ask(ip("10.0.0.1")), Op::Wait(1), Op::Sweep];
    let long = run.pick(10, 12);
    run.bound("one client", format!("every sequence of {long} requests, quarter-second waits and sweeps"));
    let solo: Vec<Config> = [(1, 4), (2, 3), (2, 5), (4, 2)].into_iter().flat_map(|p| [None, Some((3, 4))].map(|global| Config { per_ip: Some(p), global, entries: 10, v4: 32, v6: 64 })).collect();
    par(run, solo.len() * chunks as usize, |job| {
        let c = solo[job / chunks as usize];
        let mut i = (job % chunks as usize) as u64;
        while i < seq_count(3, long) {
            let ops: Vec<Op> = seq_of(i, 3, long).into_iter().map(|k| few[k]).collect();
            if !replay(run, &c, &ops) || run.stop() {
                return;
            }
            run.trace();
            i += chunks;
        }
    });
    run.assume("Waits are multiples of 250 ms and rates integers, so that the buckets' floating-point arithmetic is exact.");
}

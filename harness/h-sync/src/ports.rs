//! Ports for nodes (T08): every slot, run and mix of taken ports, each in a process of its own; keys' addresses.
use std::{
    collections::{BTreeMap, BTreeSet},
    net::{TcpListener, UdpSocket},
    process::Command,
};
use tn_types::*;

use crate::explore::{ev, schedules_within};
use vlib::{guarded, par, Run};

/// In the child: one port per letter (t, u: with the fixed number of attempts; T, U: through a configuration).
pub fn child(script: &str) {
    for c in script.chars() {
        let cfg = |s| PortConfig { host: "127.0.0.1".into(), socket_type: s, max_retries: 50 };
        let p = match c {
            't' => get_available_tcp_port("127.0.0.1"),
            'u' => get_available_udp_port("127.0.0.1"),
            'T' => get_available_port(&cfg(SocketType::Tcp)).ok(),
            'U' => get_available_port(&cfg(SocketType::Udp)).ok(),
            '0' => get_available_port(&PortConfig { max_retries: 0, ..cfg(SocketType::Udp) }).ok(),
            'x' => get_available_udp_port("203.0.113.77"),
            _ => panic!("script"),
        };
        println!("{}", p.map(|p| p as i64).unwrap_or(-1));
    }
}

fn spawn(slot: Option<&str>, run_id: Option<&str>, script: &str) -> Vec<i64> {
    let mut c = Command::new(std::env::current_exe().expect("exe"));
    c.args(["child-ports", script]);
    for (k, v) in [("NEXTEST_TEST_GLOBAL_SLOT", slot), ("NEXTEST_RUN_ID", run_id)] {
        match v {
            Some(v) => c.env(k, v),
            None => c.env_remove(k),
        };
    }
    let out = c.output().expect("child");
    String::from_utf8_lossy(&out.stdout).lines().filter_map(|l| l.parse().ok()).collect()
}

fn window(slot: &str) -> Option<(i64, i64)> {
    let n: u16 = slot.parse().ok()?;
    (n < 64).then(|| (16384 + 256 * n as i64, 16384 + 256 * n as i64 + 256))
}

/// Two or three threads of one process ask at once; the machine hands a released port out again.
fn races(run: &Run) {
    use crate::helpers_gen as sut;
    use shim_std::net::KERNEL;
    const W: u16 = 16384 + 3 * 256;
    // what the window of slot 3 has free
    let windows: [(&str, Option<&str>, &[u16]); 5] =
        [("no slot", None, &[]), ("all free", Some("3"), &[u16::MAX]), ("two free", Some("3"), &[0, 2]), ("one free", Some("3"), &[200]), ("none free", Some("3"), &[])];
    let asks: &[&[&str]] = &[&["u", "u"], &["t", "u"], &["uu", "t"], &["tu", "ut"]];
    for (name, slot, free) in windows {
        match slot {
            Some(s) => std::env::set_var("NEXTEST_TEST_GLOBAL_SLOT", s),
            None => std::env::remove_var("NEXTEST_TEST_GLOBAL_SLOT"),
        }
        let refuse: Vec<u16> = if free == [u16::MAX] { vec![] } else { (0..256).filter(|i| !free.contains(i)).map(|i| W + i).collect() };
        for ask in &asks[..run.pick(3, 4)] {
            let refuse = refuse.clone();
            // exhausting a window takes hundreds of steps
            let most = if slot.is_some() && refuse.len() > 254 { 1 } else { usize::MAX };
            schedules_within(run, &format!("ports: {name}, threads asking {ask:?}"), most, move || {
                *KERNEL.lock().unwrap() = shim_std::net::Kernel { bound: vec![], calls: 0, first: 40000, repeat: 3, refuse: refuse.clone() };
                let ts: Vec<_> = ask
                    .iter()
                    .map(|s| {
                        shuttle::thread::spawn(move || {
                            s.chars()
                                .map(|c| {
                                    let p = if c == 'u' { sut::get_available_udp_port("127.0.0.1") } else { sut::get_available_tcp_port("127.0.0.1") };
                                    ev(format!("{p:?}"));
                                    p
                                })
                                .collect::<Vec<_>>()
                        })
                    })
                    .collect();
                let mut got: Vec<Option<u16>> = ts.into_iter().flat_map(|t| t.join().unwrap()).collect();
                got.sort();
                if got.iter().any(|p| p.is_none()) {
                    return Err(format!("a thread got no port: {got:?}"));
                }
                if got.windows(2).any(|w| w[0] == w[1]) {
                    return Err(format!("one port was given twice: {got:?}"));
                }
                if got.iter().flatten().any(|p| refuse.contains(p)) {
                    return Err(format!("a taken port was given: {got:?}"));
                }
                let inside = got.iter().flatten().filter(|p| (W..W + 256).contains(*p)).count();
                let want = match slot {
                    None => 0,
                    Some(_) => got.len().min(256 - refuse.len()),
                };
                // a socket another thread is probing with looks taken: then the window may be left early
                if inside > want || (refuse.len() < 200 && inside < want) {
                    return Err(format!("{inside} of {got:?} are in the window"));
                }
                Ok(format!("{inside} in the window"))
            });
        }
    }
    std::env::remove_var("NEXTEST_TEST_GLOBAL_SLOT");
}

pub fn t08(run: &Run) {
    races(run);
    let eph: Vec<i64> = std::fs::read_to_string("/proc/sys/net/ipv4/ip_local_port_range")
        .ok()
        .map(|t| t.split_whitespace().filter_map(|x| x.parse().ok()).collect())
        .filter(|v: &Vec<i64>| v.len() == 2)
        .unwrap_or(vec![32768, 60999]);
    let mut slots: Vec<Option<String>> = (0..64).map(|i| Some(i.to_string())).collect();
    for s in ["64", "65", "127", "128", "255", "256", "320", "1000", "65535", "65536", "70000", "-1", "abc", "", " 3", "3.0"] {
        slots.push(Some(s.into()));
    }
    slots.push(None);
    run.bound("slots", "each of the 64 slots, 16 that are beyond them or not numbers, and none");
    let first: std::sync::Mutex<BTreeMap<i64, usize>> = Default::default();
    let mixes = ["uuuuuu", "tttttt", "utUTutUT", "UUTTu"];
    let runs = [None, Some(""), Some("a"), Some("b"), Some("5b9f2c1e-aaaa")];
    par(run, slots.len(), |i| {
        let slot = slots[i].as_deref();
        let win = slot.and_then(window);
        for (j, mix) in mixes.iter().enumerate() {
            let id = runs[(i + j) % runs.len()];
            let got = spawn(slot, id, mix);
            run.step(1);
            run.trace();
            run.state(&(slot, id, mix));
            let what = format!("slot {slot:?} run {id:?} asking {mix}: {got:?}");
            let set: BTreeSet<_> = got.iter().collect();
            if got.len() != mix.len() || set.len() != got.len() || got.iter().any(|p| *p <= 0 || *p > 65535) {
                run.fail("ports", format!("{what}: missing or repeated"), what);
                continue;
            }
            for p in &got {
                let ok = match win {
                    Some((a, b)) => *p >= a && *p < b,
                    None => *p >= eph[0] && *p <= eph[1],
                };
                if !ok {
                    run.fail("window", format!("{what}: {p} is outside {win:?} or the ephemeral range {eph:?}"), what.clone());
                }
            }
            if win.is_some() {
                for p in &got {
                    if let Some(other) = first.lock().unwrap().insert(*p, i) {
                        if other != i {
                            run.fail("window", format!("slots {other} and {i} both hand out {p}"), what.clone());
                        }
                    }
                }
                if mix.len() > 1 && spawn(slot, id, mix) != got {
                    run.outcome("a later process with the same run and slot chose otherwise");
                }
            }
        }
    });
    // ports someone else holds are not handed out, in windows with any part taken, and the window can be exhausted
    let holds: Vec<(&str, Box<dyn Fn(i64) -> bool + Sync>)> = vec![
        ("none", Box::new(|_| false)),
        ("first", Box::new(|i| i == 0)),
        ("last", Box::new(|i| i == 255)),
        ("even", Box::new(|i| i % 2 == 0)),
        ("all but one", Box::new(|i| i != 77)),
        ("all", Box::new(|_| true)),
        ("first half", Box::new(|i| i < 128)),
    ];
    run.bound("taken ports", format!("{} patterns x UDP and TCP, the window asked to exhaustion and beyond", holds.len()));
    par(run, holds.len() * 2, |n| {
        let (name, held) = &holds[n / 2];
        let udp = n % 2 == 0;
        let slot = (20 + n).to_string();
        let (a, b) = window(&slot).unwrap();
        let (mut us, mut ts, mut taken) = (vec![], vec![], BTreeSet::new());
        for p in a..b {
            if held(p - a) {
                if udp {
                    us.push(UdpSocket::bind(("127.0.0.1", p as u16)).ok());
                } else {
                    ts.push(TcpListener::bind(("127.0.0.1", p as u16)).ok());
                }
                taken.insert(p);
            }
        }
        let script = if udp { "u" } else { "t" }.repeat(260);
        let got = spawn(Some(&slot), Some("r"), &script);
        let what = format!("slot {slot}, {} ports taken ({name}), udp={udp}", taken.len());
        run.step(260);
        run.trace();
        run.state(&(name, udp));
        let free = 256 - taken.len();
        let set: BTreeSet<_> = got.iter().copied().collect();
        if got.len() != 260 || set.len() != 260 || got.iter().any(|p| *p <= 0) {
            run.fail("ports", format!("{what}: {} answers, {} different", got.len(), set.len()), what.clone());
            return;
        }
        if got.iter().any(|p| taken.contains(p)) {
            run.fail("taken", format!("{what}: a taken port was handed out"), what.clone());
        }
        let (inside, outside) = got.split_at(free);
        if inside.iter().any(|p| *p < a || *p >= b) {
            run.fail("window", format!("{what}: left the window while it had free ports"), what.clone());
        }
        if outside.iter().any(|p| *p < eph[0] || *p > eph[1]) {
            run.fail("window", format!("{what}: past exhaustion {outside:?} are not the system's choice"), what);
        }
        drop((us, ts));
    });
    // no attempts, or an address of another host: no port, outside and inside a slot (which does not count attempts)
    for (slot, script, want) in [(None, "0", false), (Some("11"), "0", true), (None, "x", false), (Some("12"), "x", false)] {
        let got = spawn(slot, None, script);
        run.step(1);
        if got.len() != 1 || (got[0] > 0) != want {
            run.fail("attempts", format!("slot {slot:?} asking {script}: {got:?}"), "");
        }
    }
    // nonces
    let e = [0u32, 1, 2, 255, 256, 65535, 65536, 1 << 31, u32::MAX - 1, u32::MAX];
    for a in e {
        for b in e {
            run.step(1);
            if deconstruct_nonce(((a as u64) << 32) | b as u64) != (a, b) {
                run.fail("nonce", format!("epoch {a} round {b}"), "");
            }
        }
    }
    // addresses of secp256k1 keys: the last 20 bytes of the Keccak hash of the 64 coordinate bytes
    for i in 1..=run.pick(300u32, 3000) {
        let mut s = [0u8; 32];
        s[28..].copy_from_slice(&i.to_be_bytes());
        let r = guarded(|| {
            let sk = secp256k1::SecretKey::from_byte_array(s).unwrap();
            let pk = sk.public_key(&secp256k1::Secp256k1::new());
            let b = pk.serialize_uncompressed();
            (public_key_to_address(pk), Address::from_slice(&keccak256(&b[1..65])[12..]), Address::from_raw_public_key(&b[1..]))
        });
        run.step(1);
        run.state(&("address", i));
        match r {
            Ok((a, b, c)) if a == b && b == c => {}
            r => run.fail("address", format!("key {i}: {r:?}"), ""),
        }
    }
    let one = secp256k1::SecretKey::from_byte_array({
        let mut s = [0u8; 32];
        s[31] = 1;
        s
    })
    .unwrap()
    .public_key(&secp256k1::Secp256k1::new());
    if public_key_to_address(one).to_string() != "0x7E5F4552091A69125d5DfCb7b8C2659029395Bdf" {
        run.fail("address", format!("the address of key 1 is {}", public_key_to_address(one)), "");
    }
    // default node information: usable local addresses and distinct keys
    for _ in 0..3 {
        let i = NodeP2pInfo::default();
        let text = serde_json::to_string(&i).unwrap();
        let back: Option<NodeP2pInfo> = serde_json::from_str(&text).ok();
        let n = NodeP2pInfo::new(i.primary.clone(), i.worker.clone());
        run.step(1);
        if back.as_ref() != Some(&i) || n != i || i.primary.network_key == i.worker.network_key || i.primary.network_address == i.worker.network_address || NodeP2pInfo::new(i.worker.clone(), i.primary.clone()) == i {
            run.fail("info", text.clone(), text);
        }
    }
}

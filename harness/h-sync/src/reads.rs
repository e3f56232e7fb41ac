//! NotifyRead: every sequence of operations against a list of registrations, every schedule of small programs.
use crate::{
    explore::{ev, schedules},
    notify_read::{NotifyRead, Registration},
    shutdown::{poll, Count},
};
use futures::FutureExt;
use shuttle::{future::block_on, thread};
use std::{sync::Arc, task::Poll};
use vlib::{
    explore::{seq_count, seq_of},
    par, Run,
};

const OPS: &[&str] = &[
    "register a", "register b", "register all [a, b]", "register all [a, a]", "register all []", "notify a", "notify b", "poll first", "poll last", "drop first", "drop last", "drop second",
];

struct Reg<'a> {
    key: &'static str,
    r: Registration<'a, &'static str, u32>,
    value: Option<u32>,
    armed: bool,
    waker: Arc<Count>,
    polled: bool,
}

fn sequence(run: &Run, ops: &[usize]) -> Result<(), String> {
    use std::sync::atomic::Ordering::SeqCst;
    let n: NotifyRead<&'static str, u32> = NotifyRead::new();
    let mut regs: Vec<Reg<'_>> = vec![];
    let mut val = 0;
    for (k, o) in ops.iter().enumerate() {
        let err = |e: String| Err(format!("{} (step {k}): {e}", OPS[*o]));
        run.step(1);
        let fresh = |key, r| Reg { key, r, value: None, armed: false, waker: Default::default(), polled: false };
        match *o {
            0 | 1 => {
                let key = ["a", "b"][*o];
                regs.push(fresh(key, n.register_one(&key)));
            }
            2..=4 => {
                let keys = [vec!["a", "b"], vec!["a", "a"], vec![]][o - 2].clone();
                let rs = n.register_all(keys.clone());
                if rs.len() != keys.len() {
                    return err(format!("{} registrations for {} keys", rs.len(), keys.len()));
                }
                regs.extend(keys.into_iter().zip(rs).map(|(key, r)| fresh(key, r)));
            }
            5 | 6 => {
                let key = ["a", "b"][o - 5];
                val += 1;
                let left = n.notify(&key, &val);
                for (i, r) in regs.iter_mut().enumerate().filter(|r| r.1.key == key && r.1.value.is_none()) {
                    r.value = Some(val);
                    if r.armed && r.waker.0.load(SeqCst) == 0 {
                        return err(format!("registration {i} was not woken"));
                    }
                }
                let want = regs.iter().filter(|r| r.value.is_none()).count();
                if left != want {
                    return err(format!("{left} registrations said to remain, {want} do"));
                }
            }
            7 | 8 => {
                let i = if *o == 7 { 0 } else { regs.len().saturating_sub(1) };
                if let Some(r) = regs.get_mut(i).filter(|r| !r.polled) {
                    match (poll(&mut r.r, &r.waker), r.value) {
                        (Poll::Ready(v), Some(w)) if v == w => r.polled = true,
                        (Poll::Pending, None) => r.armed = true,
                        (p, v) => return err(format!("registration {i} for {}: {p:?}, notified {v:?}", r.key)),
                    }
                }
            }
            _ => {
                let i = [0, regs.len().saturating_sub(1), 1][o - 9];
                if i < regs.len() {
                    drop(regs.remove(i));
                }
            }
        }
        let want = regs.iter().filter(|r| r.value.is_none()).count();
        if n.num_pending() != want {
            return err(format!("{} pending instead of {want}", n.num_pending()));
        }
        run.state(&("reads", regs.iter().map(|r| (r.key, r.value.is_some(), r.armed, r.polled)).collect::<Vec<_>>()));
    }
    for (i, r) in regs.iter_mut().enumerate().filter(|r| !r.1.polled) {
        match (poll(&mut r.r, &r.waker), r.value) {
            (Poll::Ready(v), Some(w)) if v == w => {}
            (Poll::Pending, None) => {}
            (p, v) => return Err(format!("at the end: registration {i} for {}: {p:?}, notified {v:?}", r.key)),
        }
    }
    drop(regs);
    if n.num_pending() != 0 || n.notify(&"a", &1) != 0 || n.notify(&"b", &1) != 0 {
        return Err(format!("{} pending with no registration left", n.num_pending()));
    }
    run.trace();
    Ok(())
}

type Nr = NotifyRead<u32, u32>;

fn quiet(n: &Nr, what: &str) -> Result<(), String> {
    if n.num_pending() != 0 {
        return Err(format!("{what}: {} pending at the end", n.num_pending()));
    }
    for k in 0..3 {
        if n.notify(&k, &99) != 0 {
            return Err(format!("{what}: key {k} still has registrations"));
        }
    }
    Ok(())
}

pub fn check(run: &Run) {
    let depth = run.pick(5, 6);
    run.bound("read operations", format!("every sequence of {depth} of {OPS:?}"));
    let n = seq_count(OPS.len() as u64, depth);
    par(run, n.div_ceil(500) as usize, |c| {
        for i in c as u64 * 500..n.min((c as u64 + 1) * 500) {
            let ops = seq_of(i, OPS.len() as u64, depth);
            if let Err(e) = sequence(run, &ops) {
                run.fail("reads", e, format!("{:?}", ops.iter().map(|o| OPS[*o]).collect::<Vec<_>>()));
            }
        }
    });
    // many keys: each registration gets its own key's value (keys share internal shards)
    let n = Nr::new();
    let keys: Vec<u32> = (0..600).collect();
    let regs = n.register_all(keys.clone());
    for k in keys.iter().rev() {
        run.step(1);
        let left = n.notify(k, &(k + 1000));
        if left != *k as usize {
            run.fail("reads", format!("notify {k} of 600: {left} said to remain"), "");
            break;
        }
    }
    for (k, r) in keys.iter().zip(regs) {
        if r.now_or_never() != Some(k + 1000) {
            run.fail("reads", format!("key {k} of 600 did not get its value"), "");
            break;
        }
    }

    // a registration made before is resolved with a value of its key, whatever runs beside it
    schedules(run, "reads: wait, notify, drop another", || {
        let n = Nr::new();
        let a = n.register_one(&1);
        let b = n.register_one(&1);
        let got = thread::scope(|s| {
            let w = s.spawn(move || block_on(a));
            s.spawn(move || drop(b));
            let left = n.notify(&1, &7);
            ev(format!("left {left}"));
            assert!(left <= 1, "{left} said to remain of 2");
            w.join().unwrap()
        });
        if got != 7 {
            return Err(format!("resolved with {got}"));
        }
        quiet(&n, "drop").map(|_| "resolved".into())
    });
    schedules(run, "reads: two wait, two notify different values", || {
        let n = Nr::new();
        let a = n.register_one(&1);
        let b = n.register_one(&1);
        let (x, y) = thread::scope(|s| {
            let t = s.spawn(move || block_on(a));
            let n = &n;
            let u = s.spawn(move || n.notify(&1, &7));
            n.notify(&1, &8);
            u.join().unwrap();
            (t.join().unwrap(), block_on(b))
        });
        if ![7, 8].contains(&x) || x != y {
            return Err(format!("resolved with {x} and {y}"));
        }
        quiet(&n, "two notify").map(|_| format!("{x}"))
    });
    // registering while a notification is under way: resolved by it or by the next one
    schedules(run, "reads: register while notifying", || {
        let n = Nr::new();
        let other = n.register_one(&2);
        let done = std::sync::atomic::AtomicBool::new(false);
        let r = thread::scope(|s| {
            let (n, done) = (&n, &done);
            let t = s.spawn(move || {
                let left = n.notify(&1, &7);
                done.store(true, std::sync::atomic::Ordering::SeqCst);
                ev(format!("left {left}"));
                assert!((1..=2).contains(&left), "{left} said to remain");
            });
            let after = done.load(std::sync::atomic::Ordering::SeqCst);
            let mut a = n.register_one(&1);
            let early = (&mut a).now_or_never();
            t.join().unwrap();
            if after && early.is_some() {
                return Err("resolved by an earlier notification".into());
            }
            if let Some(v) = early {
                return if v == 7 { Ok("resolved by the first") } else { Err(format!("resolved with {v}")) };
            }
            let by_first = (&mut a).now_or_never();
            n.notify(&1, &8);
            match (by_first, if by_first.is_some() { None } else { Some(block_on(a)) }) {
                (Some(7), _) => Ok("resolved by the first, late"),
                (None, Some(8)) => Ok("resolved by the second"),
                x => Err(format!("resolved with {x:?}")),
            }
        })?;
        if n.num_pending() != 1 {
            return Err(format!("{} pending instead of the other key's one", n.num_pending()));
        }
        drop(other);
        quiet(&n, "register")?;
        Ok(r.into())
    });
    // dropping registrations of one key from two threads while it is notified and registered again
    schedules(run, "reads: two drop while notifying", || {
        let n = Nr::new();
        let a = n.register_one(&1);
        let b = n.register_one(&1);
        thread::scope(|s| {
            s.spawn(move || drop(a));
            s.spawn(move || drop(b));
            n.notify(&1, &7);
        });
        quiet(&n, "drops").map(|_| "none left".into())
    });
    schedules(run, "reads: drop and register the same key", || {
        let n = Nr::new();
        let a = n.register_one(&1);
        let got = thread::scope(|s| {
            s.spawn(move || drop(a));
            let b = n.register_one(&1);
            n.notify(&1, &7);
            b.now_or_never()
        });
        if got != Some(7) {
            return Err(format!("the later registration got {got:?}"));
        }
        quiet(&n, "drop and register").map(|_| "resolved".into())
    });
    schedules(run, "reads: register all and wait, notify one key each", || {
        let n = Nr::new();
        let all = n.register_all(vec![1, 2, 1]);
        let got = thread::scope(|s| {
            let n = &n;
            s.spawn(move || n.notify(&1, &7));
            s.spawn(move || n.notify(&2, &8));
            all.into_iter().map(block_on).collect::<Vec<_>>()
        });
        if got != [7, 8, 7] {
            return Err(format!("resolved with {got:?}"));
        }
        quiet(&n, "register all").map(|_| "resolved".into())
    });
}

//! Notifier and ShutdownNotifier: every sequence of operations against a model, every schedule of small programs.
use crate::{
    explore::{ev, schedules},
    notify::{Noticer, Notifier, ShutdownNotifier},
};
use futures::task::{waker, ArcWake};
use shuttle::future::block_on;
use std::{
    future::Future,
    pin::Pin,
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst},
        Arc,
    },
    task::{Context, Poll},
};
use vlib::{
    explore::{seq_count, seq_of},
    par, Run,
};

#[derive(Default)]
pub struct Count(pub AtomicUsize);
impl ArcWake for Count {
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.fetch_add(1, SeqCst);
    }
}

pub fn poll<F: Future + Unpin>(f: &mut F, c: &Arc<Count>) -> Poll<F::Output> {
    Pin::new(f).poll(&mut Context::from_waker(&waker(c.clone())))
}

/// Both kinds behind one face.
#[derive(Clone, Debug)]
enum Any {
    Once(Notifier),
    Shut(ShutdownNotifier),
}
impl Any {
    fn subscribe(&self) -> Noticer {
        match self {
            Any::Once(n) => n.subscribe(),
            Any::Shut(n) => n.subscribe(),
        }
    }
    fn notify(&self) {
        match self {
            Any::Once(n) => n.notify(),
            Any::Shut(n) => n.notify(),
        }
    }
}

struct Sub {
    n: Noticer,
    noticed: bool,
    // the waker of the last poll that found nothing, until it is woken
    armed: Option<usize>,
}

const OPS: &[&str] = &["subscribe", "notify", "notify by a clone", "poll 0 a", "poll 0 b", "poll 1 a", "poll 1 b", "poll ref 0", "drop 0", "drop last"];

fn sequence(run: &Run, shut: bool, ops: &[usize]) -> Result<(), String> {
    let a = if shut { Any::Shut(Default::default()) } else { Any::Once(Default::default()) };
    let mut down = false;
    let mut subs: Vec<Sub> = vec![];
    let wakers: Vec<Arc<Count>> = (0..3).map(|_| Default::default()).collect();
    for (k, o) in ops.iter().enumerate() {
        let err = |e: String| Err(format!("{} (step {k}): {e}", OPS[*o]));
        run.step(1);
        match *o {
            0 => subs.push(Sub { n: a.subscribe(), noticed: shut && down, armed: None }),
            1 | 2 => {
                let before: Vec<usize> = wakers.iter().map(|w| w.0.load(SeqCst)).collect();
                if *o == 1 {
                    a.notify()
                } else {
                    a.clone().notify()
                }
                down = true;
                for s in &mut subs {
                    s.noticed = true;
                    if let Some(w) = s.armed.take() {
                        if wakers[w].0.load(SeqCst) == before[w] {
                            return err("a waiting task was not woken".into());
                        }
                    }
                }
            }
            3..=7 => {
                let (i, w) = [(0, 0), (0, 1), (1, 0), (1, 1), (0, 2)][o - 3];
                if let Some(s) = subs.get_mut(i) {
                    let r = if *o == 7 { poll(&mut &s.n, &wakers[w]) } else { poll(&mut s.n, &wakers[w]) };
                    if r.is_ready() != s.noticed {
                        return err(format!("ready={} although noticed={}", r.is_ready(), s.noticed));
                    }
                    s.armed = r.is_pending().then_some(w);
                }
            }
            8 if !subs.is_empty() => drop(subs.remove(0)),
            9 => drop(subs.pop()),
            _ => {}
        }
        for (i, s) in subs.iter().enumerate() {
            if s.n.noticed() != s.noticed {
                return err(format!("subscription {i} noticed={} instead of {}", s.n.noticed(), s.noticed));
            }
        }
        run.state(&(shut, down, subs.iter().map(|s| (s.noticed, s.armed)).collect::<Vec<_>>()));
    }
    run.trace();
    Ok(())
}

pub fn check(run: &Run) {
    let depth = run.pick(6, 7);
    run.bound("notifier operations", format!("every sequence of {depth} of {OPS:?}, both kinds"));
    let n = seq_count(OPS.len() as u64, depth);
    par(run, n.div_ceil(1000) as usize, |c| {
        for i in c as u64 * 1000..n.min((c as u64 + 1) * 1000) {
            let ops = seq_of(i, OPS.len() as u64, depth);
            for shut in [false, true] {
                if let Err(e) = sequence(run, shut, &ops) {
                    run.fail("notifier", format!("shutdown={shut}: {e}"), format!("{:?}", ops.iter().map(|o| OPS[*o]).collect::<Vec<_>>()));
                }
            }
        }
    });
    for shut in [false, true] {
        let new = move || if shut { Any::Shut(Default::default()) } else { Any::Once(Default::default()) };
        let kind = if shut { "shutdown notifier" } else { "notifier" };
        // whoever subscribed before is woken, however the waits and notifications interleave (a lost wakeup is a deadlock)
        for (waiters, notifiers) in [(1, 1), (2, 1), (1, 2)] {
            schedules(run, &format!("{kind}: {waiters} wait, {notifiers} notify"), move || {
                let a = new();
                let mut ts = vec![];
                for i in 0..waiters {
                    let s = a.subscribe();
                    ts.push(shuttle::thread::spawn(move || {
                        block_on(&s);
                        ev(format!("{i} woken"));
                        s.noticed()
                    }));
                }
                for _ in 0..notifiers {
                    let a = a.clone();
                    ts.push(shuttle::thread::spawn(move || {
                        a.notify();
                        ev("notified");
                        true
                    }));
                }
                if ts.into_iter().all(|t| t.join().unwrap()) {
                    Ok("all woken".into())
                } else {
                    Err("woken, but not noticed".into())
                }
            });
        }
        // subscribing while a notification is under way
        schedules(run, &format!("{kind}: subscribe while notifying"), move || {
            let a = new();
            let early = a.subscribe();
            let (began, done) = (Arc::new(AtomicBool::new(false)), Arc::new(AtomicBool::new(false)));
            let t = {
                let (a, began, done) = (a.clone(), began.clone(), done.clone());
                shuttle::thread::spawn(move || {
                    began.store(true, SeqCst);
                    a.notify();
                    done.store(true, SeqCst);
                })
            };
            let after = done.load(SeqCst);
            let s = a.subscribe();
            let before = !began.load(SeqCst);
            let at_once = s.noticed();
            let not_yet = !began.load(SeqCst);
            ev(format!("after={after} before={before} noticed={at_once}"));
            if after && at_once != shut {
                return Err(format!("subscribed after the notification: noticed={at_once}"));
            }
            if not_yet && at_once {
                return Err("noticed before any notification".into());
            }
            t.join().unwrap();
            if !early.noticed() {
                return Err("a notification missed an early subscription".into());
            }
            if (before || shut) && !s.noticed() {
                return Err(format!("subscribed before={before}: the notification missed it"));
            }
            a.notify();
            block_on(&s);
            block_on(&early);
            Ok(format!("noticed at once={at_once}"))
        });
        // a wait that begins while two notifications race with a second subscription of its own
        schedules(run, &format!("{kind}: wait, subscribe again, notify twice"), move || {
            let a = new();
            let s = a.subscribe();
            let t = {
                let a = a.clone();
                shuttle::thread::spawn(move || {
                    a.notify();
                    a.notify();
                })
            };
            block_on(s);
            let again = a.subscribe();
            let u = a.clone();
            let w = shuttle::thread::spawn(move || block_on(again));
            t.join().unwrap();
            u.notify();
            w.join().unwrap();
            Ok("woken twice".into())
        });
        // the task moves between polls: only its latest waker counts
        schedules(run, &format!("{kind}: repoll while notifying"), move || {
            let a = new();
            let mut s = a.subscribe();
            let (x, y) = (Arc::new(Count::default()), Arc::new(Count::default()));
            let first = poll(&mut s, &x).is_ready();
            let t = {
                let a = a.clone();
                shuttle::thread::spawn(move || a.notify())
            };
            let second = poll(&mut s, &y).is_ready();
            t.join().unwrap();
            if first {
                return Err("ready before the notification".into());
            }
            if !second && y.0.load(SeqCst) == 0 {
                return Err("the latest waker was not woken".into());
            }
            if poll(&mut s, &y).is_pending() {
                return Err("pending after the notification".into());
            }
            Ok(format!("second poll ready={second}"))
        });
    }
}

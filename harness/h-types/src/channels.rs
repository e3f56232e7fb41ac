//! The channel traits over tokio's queue and broadcast channels: every sequence of operations against a queue model.
use futures::{task::noop_waker, FutureExt};
use std::{
    collections::VecDeque,
    future::Future,
    pin::Pin,
    task::{Context, Poll},
};
use tn_types::{SendError, TnReceiver, TnSender, TryRecvError, TrySendError};
use tokio::sync::{broadcast, mpsc};
use vlib::{
    explore::{seq_count, seq_of},
    par, Run,
};

// through the traits only
fn try_send<S: TnSender<u32>>(s: &S, v: u32) -> Result<(), TrySendError<u32>> {
    s.try_send(v)
}
fn try_recv<R: TnReceiver<u32>>(r: &mut R) -> Result<u32, TryRecvError> {
    r.try_recv()
}
fn recv_now<R: TnReceiver<u32>>(r: &mut R) -> Option<Option<u32>> {
    Box::pin(r.recv()).now_or_never()
}
fn poll_now<R: TnReceiver<u32>>(r: &mut R) -> Option<Option<u32>> {
    match r.poll_recv(&mut Context::from_waker(&noop_waker())) {
        Poll::Ready(v) => Some(v),
        Poll::Pending => None,
    }
}
type Sending = Pin<Box<dyn Future<Output = Result<(), SendError<u32>>> + Send>>;
fn send<S: TnSender<u32> + Send + Sync + 'static>(s: &S, v: u32) -> Sending
where
    S: Clone,
{
    let s = s.clone();
    Box::pin(async move { sent(&s, v).await })
}
async fn sent<S: TnSender<u32>>(s: &S, v: u32) -> Result<(), SendError<u32>> {
    s.send(v).await
}

const QOPS: &[&str] = &["try_send", "send", "poll first send", "poll last send", "drop first send", "recv", "try_recv", "poll_recv", "drop receiver", "drop sender", "clone sender"];

fn queue(run: &Run, cap: usize, ops: &[usize]) -> Result<(), String> {
    let (tx, rx) = mpsc::channel::<u32>(cap);
    let mut txs = vec![tx];
    let mut rx = Some(rx);
    let mut q: VecDeque<u32> = VecDeque::new();
    // sends under way: value, future, whether they have been queued for room and been given some
    let mut wait: Vec<(u32, Sending, bool)> = vec![];
    let mut free = cap;
    let mut next = 0;
    let given = |free: &mut usize, wait: &mut Vec<(u32, Sending, bool)>| match wait.iter_mut().find(|w| !w.2) {
        Some(w) => w.2 = true,
        None => *free += 1,
    };
    for (k, o) in ops.iter().enumerate() {
        let err = |e: String| Err(format!("{} (step {k}): {e}", QOPS[*o]));
        run.step(1);
        match *o {
            0 => {
                let Some(tx) = txs.first() else { continue };
                next += 1;
                let want = if rx.is_none() {
                    Err(TrySendError::Closed(next))
                } else if free == 0 {
                    Err(TrySendError::Full(next))
                } else {
                    free -= 1;
                    q.push_back(next);
                    Ok(())
                };
                let got = try_send(tx, next);
                if got != want {
                    return err(format!("{got:?} instead of {want:?}"));
                }
            }
            1..=3 => {
                // a new send, or another poll of one under way
                let i = if *o == 1 {
                    let Some(tx) = txs.first() else { continue };
                    next += 1;
                    let mut f = send(tx, next);
                    let r = f.as_mut().poll(&mut Context::from_waker(&noop_waker()));
                    let want = if rx.is_none() {
                        Poll::Ready(Err(SendError(next)))
                    } else if free > 0 {
                        free -= 1;
                        q.push_back(next);
                        Poll::Ready(Ok(()))
                    } else {
                        Poll::Pending
                    };
                    if r != want {
                        return err(format!("{r:?} instead of {want:?}"));
                    }
                    if r.is_pending() {
                        wait.push((next, f, false));
                    }
                    continue;
                } else if *o == 2 {
                    0
                } else {
                    wait.len().saturating_sub(1)
                };
                if i >= wait.len() {
                    continue;
                }
                let r = wait[i].1.as_mut().poll(&mut Context::from_waker(&noop_waker()));
                let v = wait[i].0;
                let want = if rx.is_none() {
                    Poll::Ready(Err(SendError(v)))
                } else if wait[i].2 {
                    q.push_back(v);
                    Poll::Ready(Ok(()))
                } else {
                    Poll::Pending
                };
                // room given just before the receiver went away may be used, into the void
                if r != want && !(rx.is_none() && wait[i].2 && r == Poll::Ready(Ok(()))) {
                    return err(format!("value {v}: {r:?} instead of {want:?}"));
                }
                if r.is_ready() {
                    drop(wait.remove(i));
                }
            }
            4 => {
                if !wait.is_empty() {
                    let (_, f, had) = wait.remove(0);
                    drop(f);
                    if had {
                        given(&mut free, &mut wait);
                    }
                }
            }
            5..=7 => {
                let Some(rx) = rx.as_mut() else { continue };
                let want = q.pop_front();
                let over = want.is_none() && txs.is_empty() && wait.is_empty();
                if want.is_some() {
                    given(&mut free, &mut wait);
                }
                let ok = match *o {
                    5 | 7 => {
                        let got = if *o == 5 { recv_now(rx) } else { poll_now(rx) };
                        got == if over { Some(None) } else { want.map(Some) }
                    }
                    _ => {
                        let got = try_recv(rx);
                        got == want.ok_or(if over { TryRecvError::Disconnected } else { TryRecvError::Empty })
                    }
                };
                if !ok {
                    return err(format!("expected {want:?}, over={over}"));
                }
            }
            8 => {
                rx = None;
                q.clear();
            }
            9 => drop(txs.pop()),
            _ => {
                if let Some(t) = txs.first() {
                    let t = t.clone();
                    txs.push(t);
                }
            }
        }
        run.state(&(cap, free, q.len(), rx.is_some(), txs.len(), wait.iter().map(|w| w.2).collect::<Vec<_>>()));
    }
    run.trace();
    Ok(())
}

const BOPS: &[&str] = &["try_send", "send", "subscribe", "recv 0", "recv 1", "try_recv 0", "try_recv 1", "drop 0", "drop sender"];

/// Each receiver: what it has yet to see; the channel keeps the last `cap`.
fn cast(run: &Run, cap: usize, ops: &[usize]) -> Result<(), String> {
    let (tx, rx) = broadcast::channel::<u32>(cap);
    let mut tx = Some(tx);
    let mut rxs: Vec<(broadcast::Receiver<u32>, usize)> = vec![(rx, 0)];
    let mut sent: Vec<u32> = vec![];
    for (k, o) in ops.iter().enumerate() {
        let err = |e: String| Err(format!("{} (step {k}): {e}", BOPS[*o]));
        run.step(1);
        match *o {
            0 | 1 => {
                let Some(tx) = &tx else { continue };
                let v = sent.len() as u32 + 1;
                let ok = if *o == 0 { try_send(tx, v).is_ok() } else { matches!(send(tx, v).now_or_never(), Some(Ok(()))) };
                if !ok {
                    return err("a broadcast was refused".into());
                }
                // nobody listening: it is gone
                if !rxs.is_empty() {
                    sent.push(v);
                }
            }
            2 => {
                if let Some(tx) = &tx {
                    rxs.push((tx.subscribe(), sent.len()));
                }
            }
            3..=6 => {
                let (i, tried) = [(0, false), (1, false), (0, true), (1, true)][o - 3];
                let Some((rx, at)) = rxs.get_mut(i) else { continue };
                let oldest = sent.len().saturating_sub(cap);
                let lag = *at < oldest;
                let from = (*at).max(oldest);
                let want = sent.get(from).copied();
                if tried {
                    let got = try_recv(rx);
                    let w = if lag {
                        *at = oldest;
                        Err(TryRecvError::Lagged)
                    } else if let Some(v) = want {
                        *at += 1;
                        Ok(v)
                    } else {
                        Err(if tx.is_none() { TryRecvError::Disconnected } else { TryRecvError::Empty })
                    };
                    if got != w {
                        return err(format!("{got:?} instead of {w:?}"));
                    }
                } else {
                    let got = recv_now(rx);
                    let w = match want {
                        Some(v) => {
                            *at = from + 1;
                            Some(Some(v))
                        }
                        None => tx.is_none().then_some(None),
                    };
                    if got != w {
                        return err(format!("{got:?} instead of {w:?}"));
                    }
                }
            }
            7 => {
                if !rxs.is_empty() {
                    rxs.remove(0);
                }
            }
            _ => tx = None,
        }
        run.state(&("cast", cap, tx.is_some(), sent.len(), rxs.iter().map(|r| r.1).collect::<Vec<_>>()));
    }
    run.trace();
    Ok(())
}

pub fn t07(run: &Run) {
    let depth = run.pick(6, 7);
    run.bound("queue operations", format!("every sequence of {depth} of {QOPS:?}, capacity 1 and 2"));
    let n = seq_count(QOPS.len() as u64, depth);
    par(run, n.div_ceil(1000) as usize, |c| {
        for i in c as u64 * 1000..n.min((c as u64 + 1) * 1000) {
            let ops = seq_of(i, QOPS.len() as u64, depth);
            for cap in [1, 2] {
                if let Err(e) = queue(run, cap, &ops) {
                    run.fail("queue", format!("capacity {cap}: {e}"), format!("{:?}", ops.iter().map(|o| QOPS[*o]).collect::<Vec<_>>()));
                }
            }
        }
    });
    let depth = run.pick(7, 8);
    run.bound("broadcast operations", format!("every sequence of {depth} of {BOPS:?}, capacity 1 and 2"));
    let n = seq_count(BOPS.len() as u64, depth);
    par(run, n.div_ceil(1000) as usize, |c| {
        for i in c as u64 * 1000..n.min((c as u64 + 1) * 1000) {
            let ops = seq_of(i, BOPS.len() as u64, depth);
            for cap in [1, 2] {
                if let Err(e) = cast(run, cap, &ops) {
                    run.fail("broadcast", format!("capacity {cap}: {e}"), format!("{:?}", ops.iter().map(|o| BOPS[*o]).collect::<Vec<_>>()));
                }
            }
        }
    });
    // the conversions carry the value and the kind of failure
    let conv = [
        (TrySendError::from(mpsc::error::TrySendError::Full(1)), TrySendError::Full(1), "Send Error: Full"),
        (TrySendError::from(mpsc::error::TrySendError::Closed(2)), TrySendError::Closed(2), "Send Error: Closed"),
        (TrySendError::from(broadcast::error::SendError(3)), TrySendError::Broadcast(3), "Send Error: Broadcast"),
    ];
    for (a, b, text) in conv {
        if a != b || a.to_string() != text {
            run.fail("conversion", format!("{a:?} instead of {b:?}"), "");
        }
    }
    if SendError::from(mpsc::error::SendError(4)) != SendError(4) || SendError::from(broadcast::error::SendError(5)) != SendError(5) {
        run.fail("conversion", "a send error lost its value", "");
    }
    // a waiting receiver is woken by a message, and by the last sender leaving
    for leave in [false, true] {
        let (tx, mut rx) = mpsc::channel::<u32>(1);
        let c = std::sync::Arc::new(Woken::default());
        let w = futures::task::waker(c.clone());
        let first = TnReceiver::poll_recv(&mut rx, &mut Context::from_waker(&w));
        if leave {
            drop(tx);
        } else {
            let _ = try_send(&tx, 1);
        }
        if first.is_ready() || c.0.load(std::sync::atomic::Ordering::SeqCst) == 0 {
            run.fail("wake", format!("the receiver was not woken, leaving={leave}"), "");
        }
    }
}

#[derive(Default)]
struct Woken(std::sync::atomic::AtomicUsize);
impl futures::task::ArcWake for Woken {
    fn wake_by_ref(a: &std::sync::Arc<Self>) {
        a.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    }
}

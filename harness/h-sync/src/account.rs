//! Accounting and error latches under every schedule.
use crate::{
    error_latch::latch_first_error,
    explore::{ev, program, schedules},
    gas_acc::{GasAccumulator, RewardsCounter},
    Address, AuthorityIdentifier,
};
use shuttle::thread;
use vlib::{
    explore::{permutations, seq_count, seq_of},
    Run,
};

fn totals(v: (u64, u64, u64)) -> Result<u64, String> {
    // every block uses 10 of 1000
    if v.1 != v.0 * 10 || v.2 != v.0 * 1000 {
        return Err(format!("torn totals {v:?}"));
    }
    Ok(v.0)
}

pub fn t13(run: &Run) {
    run.assume("schedules are sequentially consistent");
    pairs(run);
    schedules(run, "gas: two add blocks, one reads", || {
        let g = GasAccumulator::new(1);
        let ts: Vec<_> = (0..2)
            .map(|_| {
                let g = g.clone();
                thread::spawn(move || g.inc_block(0, 10, 1000))
            })
            .collect();
        let seen = totals(g.get_values(0))?;
        ts.into_iter().for_each(|t| t.join().unwrap());
        match totals(g.get_values(0))? {
            2 => Ok(format!("saw {seen}")),
            n => Err(format!("{n} blocks counted instead of 2")),
        }
    });
    schedules(run, "gas: blocks while the workers grow and shrink", || {
        let g = GasAccumulator::new(2);
        g.inc_block(0, 10, 1000);
        g.base_fee(0).set_base_fee(77);
        let h = g.clone();
        let t = thread::spawn(move || {
            h.set_num_workers(3);
            h.set_num_workers(1);
        });
        g.inc_block(0, 10, 1000);
        let fee = g.base_fee(0).base_fee();
        let n = g.num_workers();
        t.join().unwrap();
        let b = totals(g.get_values(0))?;
        if b != 2 || fee != 77 || g.base_fee(0).base_fee() != 77 || g.num_workers() != 1 || !(1..=3).contains(&n) {
            return Err(format!("{b} blocks, fee {fee}, {} workers", g.num_workers()));
        }
        Ok(format!("saw {n} workers"))
    });
    schedules(run, "gas: a block while clearing", || {
        let g = GasAccumulator::new(2);
        g.inc_block(0, 10, 1000);
        g.inc_block(1, 10, 1000);
        g.base_fee(1).set_base_fee(33);
        let h = g.clone();
        let t = thread::spawn(move || h.clear());
        g.inc_block(0, 10, 1000);
        let seen = totals(g.get_values(1))?;
        t.join().unwrap();
        let (a, b) = (totals(g.get_values(0))?, totals(g.get_values(1))?);
        if a > 1 || b != 0 || seen > 1 || g.base_fee(1).base_fee() != 33 {
            return Err(format!("after clearing: {a} and {b} blocks, {seen} seen"));
        }
        Ok(format!("{a} left, {seen} seen"))
    });
    schedules(run, "fees: a held fee follows its worker", || {
        let g = GasAccumulator::new(2);
        let held = g.base_fee(1);
        let h = g.clone();
        let t = thread::spawn(move || h.set_num_workers(4));
        held.set_base_fee(500);
        let seen = g.base_fee(1).base_fee();
        t.join().unwrap();
        if seen != 500 || g.base_fee(1).base_fee() != 500 || g.base_fee(3).base_fee() != 7 {
            return Err(format!("fee {seen}, then {}", g.base_fee(1).base_fee()));
        }
        Ok("kept".into())
    });
    schedules(run, "rewards: two count, one reads", || {
        let r = RewardsCounter::default();
        let id = AuthorityIdentifier::dummy_for_test(1);
        let ts: Vec<_> = (0..2)
            .map(|_| {
                let (r, id) = (r.clone(), id.clone());
                thread::spawn(move || r.inc_leader_count(&id))
            })
            .collect();
        let empty = r.get_address_counts();
        ts.into_iter().for_each(|t| t.join().unwrap());
        if !empty.is_empty() {
            return Err("rewards without a committee".into());
        }
        let (c, id2) = one_member();
        r.set_committee(c);
        let _ = (id2, &r);
        Ok("counted".into())
    });
    schedules(run, "rewards: count and read while the committee is set", || {
        let (c, id) = one_member();
        let g = GasAccumulator::new(1);
        let r = g.rewards_counter();
        r.inc_leader_count(&id);
        let (r2, id2) = (g.rewards_counter(), id.clone());
        let t = thread::spawn(move || r2.inc_leader_count(&id2));
        let r3 = g.rewards_counter();
        let u = thread::spawn(move || r3.set_committee(c));
        let seen: Vec<u32> = r.get_address_counts().into_values().collect();
        ev(format!("{seen:?}"));
        t.join().unwrap();
        u.join().unwrap();
        let end: Vec<(Address, u32)> = r.get_address_counts().into_iter().collect();
        let w: Vec<u64> = r.generate_withdrawals().iter().map(|w| w.amount).collect();
        if end.len() != 1 || end[0].1 != 2 || w != [2] || seen.len() > 1 || seen.iter().any(|n| !(1..=2).contains(n)) {
            return Err(format!("counts {end:?}, withdrawals {w:?}, seen {seen:?}"));
        }
        Ok(format!("saw {seen:?}"))
    });
    schedules(run, "rewards: count while clearing everything", || {
        let (c, id) = one_member();
        let g = GasAccumulator::new(1);
        g.rewards_counter().set_committee(c);
        g.rewards_counter().inc_leader_count(&id);
        let (h, id2) = (g.clone(), id.clone());
        let t = thread::spawn(move || h.clear());
        g.rewards_counter().inc_leader_count(&id2);
        t.join().unwrap();
        let n: Vec<u32> = g.rewards_counter().get_address_counts().into_values().collect();
        if n.len() > 1 || n.iter().any(|n| *n != 1) {
            return Err(format!("{n:?} left"));
        }
        Ok(format!("{n:?} left"))
    });
}

/// What a thread may ask of the accounts.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Ask {
    Block(u16),
    Workers(usize),
    SetFee(u16, u64),
    Fee(u16),
    Totals(u16),
    Count,
    Clear,
    Led,
    Rewards,
}
const ALL_LED: usize = usize::MAX;
type Totals = (u64, u64, u64);
type Answer = Vec<u64>;
/// All that can be seen of an execution: what each thread was told, and what is left.
type Seen = (Vec<Vec<Answer>>, Vec<(Totals, u64)>, u64);

/// The accounts as plain data: workers that are dropped live on for who holds their fee.
#[derive(Clone, Hash)]
struct Books {
    all: Vec<(Totals, u64)>,
    list: Vec<usize>,
    led: u64,
}
impl Books {
    fn new(n: usize) -> Self {
        Self { all: vec![((0, 0, 0), 7); n], list: (0..n).collect(), led: 0 }
    }
    /// The step `at` of something asked; None when there is no such worker, else whether it is done.
    fn step(&mut self, ask: Ask, at: usize, hand: &mut Vec<usize>, out: &mut Answer) -> Option<bool> {
        match ask {
            Ask::Block(w) => {
                let i = *self.list.get(w as usize)?;
                let t = &mut self.all[i].0;
                *t = (t.0 + 1, t.1 + 10, t.2 + 1000);
            }
            Ask::Workers(n) => {
                self.list.truncate(n);
                while self.list.len() < n {
                    self.list.push(self.all.len());
                    self.all.push(((0, 0, 0), 7));
                }
            }
            // a fee is reached, and then read or set
            Ask::SetFee(w, _) | Ask::Fee(w) if at == 0 => {
                *hand = vec![*self.list.get(w as usize)?];
                return Some(false);
            }
            Ask::SetFee(_, v) => self.all[hand[0]].1 = v,
            Ask::Fee(_) => out.push(self.all[hand[0]].1),
            Ask::Totals(w) => {
                let t = self.all[*self.list.get(w as usize)?].0;
                out.extend([t.0, t.1, t.2]);
            }
            Ask::Count => out.push(self.list.len() as u64),
            // one worker or the rewards after the other, in the order at hand
            Ask::Clear => {
                match hand[at] {
                    ALL_LED => self.led = 0,
                    i => self.all[i].0 = (0, 0, 0),
                }
                return Some(at + 1 == hand.len());
            }
            Ask::Led => self.led += 1,
            Ask::Rewards => out.push(self.led),
        }
        Some(true)
    }
}
#[derive(Clone, Default, Hash)]
struct Place {
    ask: usize,
    at: usize,
    hand: Vec<usize>,
    told: Vec<Answer>,
}
/// Everything that may be seen; None if some order asks for a worker that is not there.
fn allowed(books: &Books, asks: &[Vec<Ask>], places: &[Place], set: &mut std::collections::HashSet<Seen>, been: &mut std::collections::HashSet<u64>) -> Option<()> {
    if !been.insert(vlib::hash(&(books, places))) {
        return Some(());
    }
    let mut ended = true;
    for t in 0..asks.len() {
        let Some(ask) = asks[t].get(places[t].ask) else { continue };
        ended = false;
        // in which order things are cleared is nobody's business
        let orders = match ask {
            Ask::Clear if places[t].at == 0 => {
                let what: Vec<usize> = books.list.iter().copied().chain([ALL_LED]).collect();
                permutations(what.len()).into_iter().map(|o| o.into_iter().map(|i| what[i]).collect()).collect()
            }
            _ => vec![places[t].hand.clone()],
        };
        for hand in orders {
            let (mut b, mut p) = (books.clone(), places.to_vec());
            let q = &mut p[t];
            q.hand = hand;
            if q.at == 0 {
                q.told.push(vec![]);
            }
            let k = q.ask;
            let done = b.step(*ask, q.at, &mut q.hand, &mut q.told[k])?;
            if done {
                (q.ask, q.at) = (k + 1, 0);
                q.hand.clear();
            } else {
                q.at += 1;
            }
            allowed(&b, asks, &p, set, been)?;
        }
    }
    if ended {
        set.insert((places.iter().map(|p| p.told.clone()).collect(), books.list.iter().map(|i| books.all[*i]).collect(), books.led));
    }
    Some(())
}
fn answer(g: &GasAccumulator, ask: Ask, id: &AuthorityIdentifier) -> Answer {
    match ask {
        Ask::Block(w) => g.inc_block(w, 10, 1000),
        Ask::Workers(n) => g.set_num_workers(n),
        Ask::SetFee(w, v) => g.base_fee(w).set_base_fee(v),
        Ask::Fee(w) => return vec![g.base_fee(w).base_fee()],
        Ask::Totals(w) => {
            let t = g.get_values(w);
            return vec![t.0, t.1, t.2];
        }
        Ask::Count => return vec![g.num_workers() as u64],
        Ask::Clear => g.clear(),
        Ask::Led => g.rewards_counter().inc_leader_count(id),
        Ask::Rewards => return vec![rewards(g)],
    }
    vec![]
}
fn rewards(g: &GasAccumulator) -> u64 {
    g.rewards_counter().get_address_counts().into_values().map(u64::from).sum()
}
/// Every pair of short programs on the same accounts: what is seen is what some order of their steps gives.
fn pairs(run: &Run) {
    let alphabet = [
        Ask::Block(0),
        Ask::Block(1),
        Ask::Workers(1),
        Ask::Workers(2),
        Ask::Workers(3),
        Ask::SetFee(0, 50),
        Ask::SetFee(2, 99),
        Ask::Fee(0),
        Ask::Totals(0),
        Ask::Count,
        Ask::Clear,
        Ask::Led,
        Ask::Rewards,
    ];
    let k = alphabet.len() as u64;
    let mut programs: Vec<Vec<Ask>> = vec![];
    for len in 1..=2 {
        programs.extend((0..seq_count(k, len)).map(|i| seq_of(i, k, len).into_iter().map(|a| alphabet[a as usize]).collect()));
    }
    let bound = run.pick(2, 4);
    run.bound("pairs of programs", format!("two threads, each with every one or two, and three with every one, of {alphabet:?}, from one and two workers, at most {bound} preemptions"));
    let mut all: Vec<Vec<Vec<Ask>>> = vec![];
    for i in 0..programs.len() {
        all.extend((i..programs.len()).map(|j| vec![programs[i].clone(), programs[j].clone()]));
    }
    for i in 0..k as usize {
        for j in i..k as usize {
            all.extend((j..k as usize).map(|l| [i, j, l].iter().map(|a| vec![alphabet[*a]]).collect()));
        }
    }
    // one after the other: the stand-in locks know one execution at a time
    for asks in all {
        for workers in 1..=2 {
            if run.stop() {
                return;
            }
            let mut set = Default::default();
            if allowed(&Books::new(workers), &asks, &vec![Place::default(); asks.len()], &mut set, &mut Default::default()).is_none() {
                continue;
            }
            let name = format!("from {workers} workers, {asks:?}");
            run.state(&name);
            let (c, id) = one_member();
            let asks = asks.clone();
            program(run, &name, bound, move || {
                let g = GasAccumulator::new(workers);
                g.rewards_counter().set_committee(c.clone());
                let (here, others) = asks.split_last().unwrap();
                let threads: Vec<_> = others
                    .iter()
                    .map(|own| {
                        let (h, id, own) = (g.clone(), id.clone(), own.clone());
                        thread::spawn(move || own.into_iter().map(|a| answer(&h, a, &id)).collect::<Vec<_>>())
                    })
                    .collect();
                let own: Vec<_> = here.iter().map(|a| answer(&g, *a, &id)).collect();
                let mut told: Vec<Vec<Answer>> = threads.into_iter().map(|t| t.join().unwrap()).collect();
                told.push(own);
                let left = (0..g.num_workers() as u16).map(|w| (g.get_values(w), g.base_fee(w).base_fee())).collect();
                let seen: Seen = (told, left, rewards(&g));
                if set.contains(&seen) {
                    Ok(())
                } else {
                    Err(format!("{seen:?} is the result of no order"))
                }
            });
        }
    }
}

fn one_member() -> (crate::Committee, AuthorityIdentifier) {
    use std::sync::OnceLock;
    static C: OnceLock<(crate::Committee, AuthorityIdentifier)> = OnceLock::new();
    C.get_or_init(|| {
        use rand::{rngs::StdRng, SeedableRng};
        let mut b = crate::CommitteeBuilder::new(1);
        let mut rng = StdRng::from_seed([7; 32]);
        let ks: Vec<_> = (0..4).map(|_| crate::BlsKeypair::generate(&mut rng)).collect();
        for (i, k) in ks.iter().enumerate() {
            b.add_authority(*k.public(), Address::repeat_byte(i as u8 + 1));
        }
        (b.build(), (*ks[0].public()).into())
    })
    .clone()
}

/// The latch keeps the first error until it is drained.
pub fn s08(run: &Run) {
    // sequences: latch one of three errors, or a reader drains the slot, or looks
    let depth = run.pick(6, 8);
    run.bound("latch operations", format!("every sequence of {depth}: latch error 1, 2 or 3; look; drain"));
    for i in 0..seq_count(5, depth) {
        let ops = seq_of(i, 5, depth);
        let (slot, mut rx) = tokio::sync::watch::channel(None);
        let mut m: Option<usize> = None;
        let mut fresh = false;
        for (k, o) in ops.iter().enumerate() {
            run.step(1);
            match o {
                0..=2 => {
                    latch_first_error(&slot, o + 1);
                    if m.is_none() {
                        m = Some(o + 1);
                        fresh = true;
                    }
                }
                3 => {
                    let seen = rx.has_changed().unwrap();
                    if seen != fresh {
                        run.fail("latch", format!("step {k}: changed={seen}"), format!("{ops:?}"));
                    }
                    if *rx.borrow_and_update() != m {
                        run.fail("latch", format!("step {k}: another error"), format!("{ops:?}"));
                    }
                    fresh = false;
                }
                _ => {
                    if slot.send_replace(None) != m {
                        run.fail("latch", format!("step {k}: drained another error than {m:?}"), format!("{ops:?}"));
                    }
                    m = None;
                    fresh = true;
                }
            }
            if *slot.borrow() != m {
                run.fail("latch", format!("step {k}: holds {:?} instead of {m:?}", *slot.borrow()), format!("{ops:?}"));
            }
        }
        run.state(&(ops, m));
        run.trace();
        if run.stop() {
            return;
        }
    }
    schedules(run, "latch: three errors at once", || {
        let (slot, mut rx) = tokio::sync::watch::channel(None);
        let slot = std::sync::Arc::new(slot);
        let ts: Vec<_> = (1..=3)
            .map(|e| {
                let slot = slot.clone();
                thread::spawn(move || {
                    let vacant = slot.borrow().is_none();
                    latch_first_error(&slot, e);
                    (e, vacant, *slot.borrow())
                })
            })
            .collect();
        let got: Vec<_> = ts.into_iter().map(|t| t.join().unwrap()).collect();
        let end = *rx.borrow_and_update();
        let Some(w) = end else { return Err("no error was kept".into()) };
        for (e, vacant, after) in got {
            if after != Some(w) {
                return Err(format!("thread {e} saw {after:?}, the end is {w}: an error was replaced"));
            }
            if w == e && !vacant {
                return Err(format!("error {e} was latched over another"));
            }
        }
        Ok(format!("{w} first"))
    });
    schedules(run, "latch: errors while draining", || {
        let (slot, _rx) = tokio::sync::watch::channel(None);
        let slot = std::sync::Arc::new(slot);
        latch_first_error(&slot, 1);
        let s = slot.clone();
        let t = thread::spawn(move || {
            latch_first_error(&s, 2);
            latch_first_error(&s, 3);
        });
        let first = slot.send_replace(None);
        t.join().unwrap();
        let rest = slot.send_replace(None);
        if first != Some(1) || ![None, Some(2), Some(3)].contains(&rest) {
            return Err(format!("drained {first:?}, then {rest:?}"));
        }
        Ok(format!("then {rest:?}"))
    });
}

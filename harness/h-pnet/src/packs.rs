//! P01: a node that fetches the packs of epochs it missed.
use crate::{
    env::{Frame, Last, Peer, Say, Site, FINE},
    world::{epoch_of, fresh, join, same, split, Made, World, LEN},
};
use netlib::Fate;
use std::{collections::BTreeSet, time::Duration};
use tn_network_libp2p::PrimarySyncRequest;
use tn_storage::consensus::ConsensusChain;
use tn_types::{ConsensusOutput, Epoch, Hash as _};
use vlib::{
    explore::{seq_count, seq_of},
    par, Run, Scratch,
};

pub const PATIENCE: Duration = Duration::from_secs(8);

/// Where a node stands when it begins to fetch: how many epochs it has entered after the first, and how many outputs of the last of them it holds.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Start {
    entered: usize,
    holds: usize,
}
/// What it asks for: a whole epoch, or the outputs of one up to a number.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Goal {
    Whole(Epoch),
    Until(u64),
}
impl Goal {
    fn numbers(self, truth: &World) -> BTreeSet<u64> {
        match self {
            Goal::Whole(e) => truth.outputs.iter().map(|o| o.number()).filter(|n| epoch_of(*n) == e).collect(),
            Goal::Until(last) => (1..=last).filter(|n| epoch_of(*n) == epoch_of(last)).collect(),
        }
    }
    fn epoch(self) -> Epoch {
        match self {
            Goal::Whole(e) => e,
            Goal::Until(n) => epoch_of(n),
        }
    }
}
/// The numbers of the outputs a node has, or how one is not what it was.
async fn read(chain: &ConsensusChain, truth: &World) -> Result<BTreeSet<u64>, (&'static str, String)> {
    let mut got = BTreeSet::new();
    for want in &truth.outputs {
        let n = want.number();
        let Ok(Some(have)) = chain.consensus_output_by_number(n).await else {
            if let Ok(Some(_)) = chain.consensus_header_by_number(n).await {
                return Err(("header-alone", format!("the header of output {n} is there, and the output is not")));
            }
            continue;
        };
        if !same(&have, want) {
            return Err((not(&have, want), format!("output {n} is not the one that was ordered")));
        }
        if chain.consensus_header_by_number(n).await.ok().flatten().as_ref() != Some(&want.consensus_header()) {
            return Err(("header", format!("output {n} is there, but not its header")));
        }
        if !matches!(chain.consensus_header_by_digest(epoch_of(n), want.digest()).await, Ok(Some(h)) if h == want.consensus_header()) {
            return Err(("by-digest", format!("output {n} is there, but not by its digest")));
        }
        got.insert(n);
    }
    Ok(got)
}
fn not(have: &ConsensusOutput, want: &ConsensusOutput) -> &'static str {
    if have.consensus_header() == want.consensus_header() && have.batches().iter().map(|c| &c.batches).eq(want.batches().iter().map(|c| &c.batches)) {
        "forged-address"
    } else {
        "forged"
    }
}
fn leftovers(dir: &std::path::Path) -> Vec<String> {
    let mut v: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
    v.retain(|n| n.starts_with("import-"));
    v
}

struct Case<'a> {
    run: &'a Run,
    truth: &'static World,
    site: &'a mut Site,
    what: String,
    /// The first records of packs in which the committee is paid at other addresses, and whether a peer sends it.
    metas: &'a [Vec<u8>],
    payee: bool,
}
impl Case<'_> {
    fn ask(&mut self, chain: &ConsensusChain, goal: Goal, peers: Vec<Peer>) -> Option<bool> {
        let truth = self.truth;
        self.payee |= peers.iter().any(|p| match p {
            Peer::Stranger(says, _) => says.iter().flat_map(|s| if let Say::Data(d) = s { &d[..] } else { &[] }).copied().collect::<Vec<u8>>().split_at_checked(28).is_some_and(|(_, d)| self.metas.iter().any(|m| d.windows(m.len()).any(|w| w == m))),
            _ => false,
        });
        self.site.peers = peers;
        self.site.opened.clear();
        self.site.asked.clear();
        self.site.penalties.clear();
        let (h, c) = (self.site.handle.clone(), chain.clone());
        let out = match goal {
            Goal::Whole(e) => self.site.drive(async move { h.request_epoch_pack(&truth.records[e as usize], &truth.previous(e), &c, PATIENCE).await.is_ok() }),
            Goal::Until(n) => self.site.drive(async move {
                let r = truth.until(n);
                h.request_partial_epoch_pack(&r, &truth.previous(r.epoch), &c, n, PATIENCE).await.is_ok()
            }),
        };
        if out.is_none() {
            self.run.fail("endless", "a request for a pack does not end", &self.what);
        }
        let want = match goal {
            Goal::Whole(epoch) => Frame::Req(PrimarySyncRequest::EpochPack { epoch }),
            Goal::Until(n) => Frame::Req(PrimarySyncRequest::EpochPackPartial { epoch: epoch_of(n), last_consensus_number: n }),
        };
        if let Some(f) = self.site.asked.iter().find(|f| **f != want) {
            self.run.fail("asked", format!("a peer is asked {f:?} instead of {want:?}"), &self.what);
        }
        self.run.step(1);
        out
    }
    /// Judges the node after an attempt; false if there is no going on.
    fn judge(&mut self, dir: &Scratch, chain: &ConsensusChain, goal: Goal, before: &BTreeSet<u64>, done: bool) -> bool {
        let truth = self.truth;
        let got = match self.site.rt.block_on(read(chain, truth)) {
            Ok(g) => g,
            Err((key, e)) => {
                // the committee a peer put into the pack it sends may pay others; it is no finding but for such a peer
                let key = if key == "forged-address" && !self.payee { "wrong-address" } else { key };
                self.run.fail(key, format!("{e}, after an attempt that {}", if done { "worked" } else { "failed" }), &self.what);
                return false;
            }
        };
        let mut want = before.clone();
        if done {
            want.extend(goal.numbers(truth));
        }
        // what a node holds of an epoch it fetches whole is replaced
        if got != want {
            self.run.fail("held", format!("{got:?} are there after an attempt that {}, and {want:?} should be", if done { "worked" } else { "failed" }), &self.what);
            return false;
        }
        if chain.already_streaming_epoch(goal.epoch()) || !leftovers(dir.path()).is_empty() {
            self.run.fail("leftover", format!("left behind: {:?}", leftovers(dir.path())), &self.what);
        }
        match goal {
            Goal::Whole(e) if done => {
                let served = self.site.rt.block_on(async {
                    let mut s = chain.get_epoch_stream(e).await.ok()?;
                    let mut v = vec![];
                    tokio::io::AsyncReadExt::read_to_end(&mut s, &mut v).await.ok()?;
                    Some(v)
                });
                if served.as_ref().map(|v| split(v).1) != Some(split(&truth.file(e)).1) {
                    self.run.fail("served-on", "the pack that was fetched is not served on as it is", &self.what);
                }
                if !self.site.rt.block_on(chain.is_epoch_complete(&truth.records[e as usize])) {
                    self.run.fail("incomplete", "the epoch that was fetched is not complete", &self.what);
                }
            }
            Goal::Until(n) if done => {
                if chain.staging_final() != Some(n) || chain.staging_epoch() != Some(epoch_of(n)) {
                    self.run.fail("staged", format!("staged until {:?} of {:?}", chain.staging_final(), chain.staging_epoch()), &self.what);
                }
            }
            _ => (),
        }
        true
    }
    /// A node asks; then, if it got nothing, once more, of a peer that has everything.
    fn case(&mut self, start: Start, goal: Goal, peers: Vec<Peer>, must: Option<bool>, long: bool) {
        let dir = Scratch::new();
        let truth = self.truth;
        let chain = self.site.rt.block_on(fresh(dir.path(), truth, start.entered, start.holds));
        self.site.handle.clear_sync_capability();
        let before = match self.site.rt.block_on(read(&chain, truth)) {
            Ok(b) => b,
            Err((k, e)) => return self.run.fail(k, e, &self.what),
        };
        let what = self.what.clone();
        let Some(done) = self.ask(&chain, goal, peers) else { return };
        if must.is_some_and(|m| m != done) {
            self.run.fail("outcome", format!("the attempt {}", if done { "works" } else { "fails" }), &self.what);
        }
        self.run.outcome(if done { "fetched" } else { "not fetched" });
        let mut on = self.judge(&dir, &chain, goal, &before, done);
        let mut held = done;
        if on && !done {
            self.what = format!("{what}, then from a peer that has it");
            let Some(done) = self.ask(&chain, goal, vec![FINE]) else { return };
            if !done {
                self.run.fail("stuck", "an honest peer's pack is not taken", &self.what);
            }
            held = done;
            on = self.judge(&dir, &chain, goal, &before, done);
        }
        // it goes on where it was: an output it holds is saved and one it lacks is added
        let next = 3 * start.entered + start.holds;
        if on && long && start.holds < 3 {
            let o = truth.outputs[next].clone();
            let saved = self.site.rt.block_on(async {
                chain.save_consensus_output(o.clone()).await.map_err(|e| e.to_string())?;
                chain.persist_current().await.map_err(|e| e.to_string())
            });
            let have = self.site.rt.block_on(chain.consensus_output_by_number(o.number()));
            if saved.is_err() || !matches!(&have, Ok(Some(h)) if same(h, &o)) {
                self.run.fail("save", format!("the next output: {saved:?}"), &self.what);
            }
            if chain.latest_consensus_number() != o.number() {
                self.run.fail("latest", format!("the latest output is {}", chain.latest_consensus_number()), &self.what);
            }
        }
        // and what it fetched is there after a restart, other than what is only staged
        if on && long && held && matches!(goal, Goal::Whole(_)) {
            drop(chain);
            self.what += ", and a restart";
            let opened = ConsensusChain::new(dir.path().to_path_buf(), crate::world::committee(0, 0));
            let Ok(chain) = opened else {
                return self.run.fail("restart", "the chain cannot be opened again", &self.what);
            };
            match self.site.rt.block_on(read(&chain, truth)) {
                Err((k, e)) => self.run.fail(if k == "forged-address" && !self.payee { "wrong-address" } else { k }, e, &self.what),
                Ok(g) if !g.is_superset(&goal.numbers(truth)) => self.run.fail("restart", format!("{g:?} are there"), &self.what),
                _ => (),
            }
        }
        self.run.state(&what);
        self.run.trace();
    }
}

/// Ways a list of records may be made into another.
pub fn edits(base: &[Vec<u8>], others: &[Vec<u8>]) -> Vec<Vec<Vec<u8>>> {
    let mut v = vec![];
    for i in 0..=base.len() {
        for o in others {
            let mut r = base.to_vec();
            r.insert(i, o.clone());
            v.push(r);
            if i < base.len() {
                let mut r = base.to_vec();
                r[i] = o.clone();
                v.push(r);
            }
        }
        if i < base.len() {
            let mut r = base.to_vec();
            r.remove(i);
            v.push(r);
            v.push(base[..i].to_vec());
            for j in i + 1..base.len() {
                let mut r = base.to_vec();
                r.swap(i, j);
                v.push(r);
            }
        }
    }
    v
}
pub fn pack(bytes: &[u8], cut: usize) -> Vec<Say> {
    let mut v = vec![Say::Ack];
    v.extend(bytes.chunks(cut).map(|c| Say::Data(c.to_vec())));
    v.push(Say::End);
    v
}

pub fn p01(run: &Run) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let world = |m: Made| -> &'static World { Box::leak(Box::new(rt.block_on(World::new(m)))) };
    let truth = world(Made { len: LEN, ..Default::default() });
    // whole other histories: another payee; another history from the second epoch's first or last output on; a longer and a shorter second epoch
    let forged: Vec<&World> = [
        Made { shift: 8, len: LEN, ..Default::default() },
        Made { salt: 7, from: 4, len: LEN, ..Default::default() },
        Made { salt: 7, from: 6, len: LEN, ..Default::default() },
        Made { len: [3, 4, 1], ..Default::default() },
        Made { len: [3, 2, 1], ..Default::default() },
    ]
    .map(world)
    .to_vec();
    let deep = run.thorough();
    let metas: Vec<Vec<u8>> = (0..3).map(|e| split(&forged[0].file(e)).1[0].clone()).collect();
    let (head, base) = split(&truth.file(1));
    let mut others: Vec<Vec<u8>> = vec![];
    for f in [&truth.file(0), &truth.file(1), &truth.file(2)].into_iter().cloned().chain(forged.iter().map(|w| w.file(1))) {
        for r in split(&f).1 {
            if !others.contains(&r) {
                others.push(r);
            }
        }
    }
    run.bound("records of the pack, records of other histories", format!("{}, {}", base.len(), others.len() - base.len()));
    run.assume("a peer cannot find another batch, header or record with a given digest");
    type Job = (String, Start, Goal, Vec<Peer>, Option<bool>);
    let mut jobs: Vec<Job> = vec![];
    let zero = Start { entered: 0, holds: 0 };
    let file = join(&head, &base);
    // where every node may stand, what it may ask for, and honest peers before and after others
    for entered in 0..=2 {
        for holds in 0..=3 {
            let start = Start { entered, holds };
            let mut goals: Vec<Goal> = (0..2).map(Goal::Whole).collect();
            goals.extend((4..=9).map(Goal::Until));
            for goal in goals {
                // the epoch it is in, with outputs beyond what it asks for, is not fetched; nor is an earlier one in part
                if matches!(goal, Goal::Until(n) if epoch_of(n) as usize <= entered) {
                    continue;
                }
                if matches!(goal, Goal::Whole(e) if e as usize == entered && holds == 0 && e == 0) && holds > 3 {
                    continue;
                }
                for first in [Peer::Speechless, Peer::Gone, Peer::Lost, Peer::Stranger(vec![Say::Deny], Last::Closes), Peer::Stranger(pack(&file[..file.len() / 2], 400), Last::Closes), FINE] {
                    jobs.push((format!("{start:?} asks {first:?}, and a peer that has all, for {goal:?}"), start, goal, vec![first, FINE], Some(true)));
                }
                let bad = Peer::Stranger(pack(&forged[1].file(goal.epoch().min(2)), 400), Last::Closes);
                jobs.push((format!("{start:?} asks three that have nothing for {goal:?}"), start, goal, vec![Peer::Gone, Peer::Speechless, Peer::Gone, FINE], None));
                jobs.push((format!("{start:?} asks one with another history for {goal:?}"), start, goal, vec![bad], None));
            }
        }
    }
    // the connection cut at every byte
    let wire: usize = 20 + 60 + file.len() * 2;
    for goal in [Goal::Whole(1), Goal::Until(9)] {
        for at in (0..wire).step_by(if deep { 1 } else { 3 }) {
            for (k, fate) in [Fate::Breaks(at), Fate::Ends(at), Fate::Stalls(at)].into_iter().enumerate() {
                if !deep && k == 2 && at % 12 != 0 {
                    continue;
                }
                jobs.push((format!("{goal:?}, the way back {fate:?}"), zero, goal, vec![Peer::Honest(Fate::Fine, fate)], None));
                if at < 80 {
                    jobs.push((format!("{goal:?}, the way there {fate:?}"), zero, goal, vec![Peer::Honest(fate, Fate::Fine)], None));
                }
            }
        }
    }
    // every byte of the pack wrong, and every length of it
    for at in 0..file.len() {
        let mut f = file.clone();
        f[at] ^= 1 << (at % 8);
        jobs.push((format!("byte {at} is wrong"), zero, Goal::Whole(1), vec![Peer::Stranger(pack(&f, 400), Last::Closes)], None));
        jobs.push((format!("{at} bytes of the pack"), zero, Goal::Whole(1), vec![Peer::Stranger(pack(&file[..at], 400), Last::Closes)], Some(false)));
    }
    // other records
    let once = edits(&base, &others);
    for (i, r) in once.iter().enumerate() {
        jobs.push((format!("the records changed once, {i}"), zero, Goal::Whole(1), vec![Peer::Stranger(pack(&join(&head, r), 400), Last::Closes)], None));
    }
    let few: Vec<_> = others.iter().filter(|o| !base.contains(o)).step_by(if deep { 2 } else { 6 }).cloned().collect();
    let mut seen = BTreeSet::new();
    for (i, r) in edits(&base, &few).iter().enumerate() {
        for (j, r) in edits(r, &few[..few.len().min(2)]).into_iter().enumerate() {
            if (deep || (i + j) % 4 == 0) && r.len() > 1 && seen.insert(r.clone()) {
                jobs.push((format!("the records changed twice, {i} {j}"), zero, Goal::Whole(1), vec![Peer::Stranger(pack(&join(&head, &r), 400), Last::Closes)], None));
            }
        }
    }
    for (i, w) in forged.iter().enumerate() {
        for e in 0..3 {
            for goal in [Goal::Whole(1), Goal::Whole(0), Goal::Until(8), Goal::Until(9)] {
                jobs.push((format!("epoch {e} of history {i} for {goal:?}"), zero, goal, vec![Peer::Stranger(pack(&w.file(e), 400), Last::Closes)], None));
            }
        }
    }
    // every short conversation
    let half = file.len() / 2;
    let say = [Say::Ack, Say::Data(file.clone()), Say::Data(file[..half].to_vec()), Say::Data(file[half..].to_vec()), Say::End, Say::Deny, Say::Err, Say::Req, Say::Noise];
    let len = if deep { 4 } else { 3 };
    for n in 0..=len {
        for i in 0..seq_count(say.len() as u64, n) {
            let says: Vec<Say> = seq_of(i, say.len() as u64, n).into_iter().map(|k| say[k].clone()).collect();
            for last in [Last::Closes, Last::Drops, Last::Silent] {
                if n == len && last == Last::Drops {
                    continue;
                }
                let names: Vec<_> = seq_of(i, say.len() as u64, n);
                jobs.push((format!("a peer says {names:?} and {last:?}"), zero, Goal::Whole(1), vec![Peer::Stranger(says.clone(), last)], None));
            }
        }
    }
    run.bound("pieces a hostile peer says", len);
    let chunk = 64;
    par(run, jobs.len().div_ceil(chunk), |c| {
        let mut site = Site::new(truth, 2);
        for (i, (what, start, goal, peers, must)) in jobs.iter().enumerate().skip(c * chunk).take(chunk) {
            if run.stop() {
                return;
            }
            // whether it is also seen to go on and to start again
            let long = deep || i % 3 == 0 || *start != zero;
            Case { run, truth, site: &mut site, what: what.clone(), metas: &metas, payee: false }.case(*start, *goal, peers.clone(), *must, long);
        }
    });
}

//! Runs one concurrent program under every schedule.
use shim_std::sched;
use shuttle::scheduler::{Schedule, Scheduler, Task, TaskId};
use std::{
    cell::RefCell,
    sync::{
        atomic::{AtomicU64, Ordering::Relaxed},
        Arc, Mutex,
    },
    time::Duration,
};
use vlib::Run;

thread_local! { static LOG: RefCell<Vec<String>> = const { RefCell::new(vec![]) }; }

/// Depth-first over every schedule with at most `bound` preemptions (switches away from a thread that could go on).
struct Bounded {
    bound: usize,
    // per step: the choice taken and how many there were
    levels: Vec<(usize, usize)>,
    step: usize,
    preempted: usize,
    started: bool,
    deadline: std::time::Instant,
    cut: Arc<std::sync::atomic::AtomicBool>,
}
impl Scheduler for Bounded {
    fn new_execution(&mut self) -> Option<Schedule> {
        if self.started {
            loop {
                match self.levels.pop() {
                    None => return None,
                    Some((c, n)) if c + 1 < n => {
                        self.levels.push((c + 1, n));
                        break;
                    }
                    _ => {}
                }
            }
        }
        if std::time::Instant::now() > self.deadline {
            self.cut.store(true, Relaxed);
            return None;
        }
        self.started = true;
        self.step = 0;
        self.preempted = 0;
        Some(Schedule::new(0))
    }
    fn next_task(&mut self, runnable: &[&Task], current: Option<TaskId>, _: bool) -> Option<TaskId> {
        // a parked thread wakes when it is unparked
        let mut ids: Vec<TaskId> = runnable.iter().filter(|t| !t.can_spuriously_wakeup()).map(|t| t.id()).collect();
        let cur = current.and_then(|c| ids.iter().position(|i| *i == c));
        if let Some(i) = cur {
            // going on is the first choice
            let c = ids.remove(i);
            ids.insert(0, c);
            if self.preempted >= self.bound {
                ids.truncate(1);
            }
        }
        let c = match self.levels.get(self.step) {
            Some((c, n)) => {
                assert_eq!(*n, ids.len(), "the program is not deterministic under a schedule");
                *c
            }
            None => {
                self.levels.push((0, ids.len()));
                0
            }
        };
        self.step += 1;
        if cur.is_some() && c > 0 {
            self.preempted += 1;
        }
        Some(ids[c])
    }
    fn next_u64(&mut self) -> u64 {
        0
    }
}

/// Notes an event of the current execution.
pub fn ev(s: impl Into<String>) {
    LOG.with(|l| l.borrow_mut().push(s.into()));
}

/// Runs `f` once per schedule. `f` returns a description of the outcome, or what is wrong.
pub fn schedules(run: &Run, name: &str, f: impl Fn() -> Result<String, String> + Send + Sync + 'static) {
    schedules_within(run, name, usize::MAX, f)
}

/// Schedules with up to 2, then 4, then any number of preemptions, but at most `most`.
pub fn schedules_within(run: &Run, name: &str, most: usize, f: impl Fn() -> Result<String, String> + Send + Sync + 'static) {
    let f = Arc::new(f);
    let mut done = String::new();
    let mut seen = 0;
    for bound in [1, 2, 4, usize::MAX] {
        if bound > most || run.stop() {
            break;
        }
        // the first bounds are always completed
        let secs = match (bound, run.thorough()) {
            (..=2, _) => 3600,
            (_, false) => 8,
            (_, true) => 600,
        };
        let (n, complete) = once(run, name, bound, secs, f.clone());
        if run.failed() || !complete {
            break;
        }
        let all = bound == usize::MAX || n == seen;
        done = format!("{n}, {}", if all { "all".into() } else { format!("all with at most {bound} preemptions") });
        seen = n;
        if all {
            break;
        }
    }
    run.bound(&format!("schedules: {name}"), done);
}

fn once(run: &Run, name: &str, bound: usize, secs: u64, f: Arc<impl Fn() -> Result<String, String> + Send + Sync + 'static>) -> (u64, bool) {
    let n = Arc::new(AtomicU64::new(0));
    let outcomes: Arc<Mutex<std::collections::BTreeMap<(String, Vec<String>), u64>>> = Default::default();
    let bad: Arc<Mutex<Option<String>>> = Default::default();
    let cut = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let p0 = sched::POINTS.load(Relaxed);
    let (n2, o2, b2) = (n.clone(), outcomes.clone(), bad.clone());
    let r = vlib::guarded(|| {
        let mut config = shuttle::Config::new();
        config.failure_persistence = shuttle::FailurePersistence::None;
        let scheduler = Bounded {
            bound,
            levels: vec![],
            step: 0,
            preempted: 0,
            started: false,
            deadline: std::time::Instant::now() + Duration::from_secs(secs),
            cut: cut.clone(),
        };
        shuttle::Runner::new(scheduler, config).run(move || {
            n2.fetch_add(1, Relaxed);
            LOG.with(|l| l.borrow_mut().clear());
            sched::begin();
            let r = f();
            sched::end();
            let log = LOG.with(|l| l.borrow().clone());
            match r {
                Ok(o) => *o2.lock().unwrap().entry((o, log)).or_default() += 1,
                Err(e) => {
                    b2.lock().unwrap().get_or_insert(format!("{e}\nevents: {log:?}"));
                    panic!("{e}");
                }
            }
        });
    });
    sched::end();
    let n = n.load(Relaxed);
    run.step(sched::POINTS.load(Relaxed) - p0);
    for o in outcomes.lock().unwrap_or_else(|e| e.into_inner()).keys() {
        run.state(&(name, o));
        run.outcome(format!("{name}: {}", o.0));
    }
    (0..n).for_each(|_| run.trace());
    if let Err(e) = r {
        let log = LOG.with(|l| l.borrow().clone());
        let e = bad.lock().unwrap_or_else(|e| e.into_inner()).clone().unwrap_or(e);
        run.fail("schedule", format!("{name}: {}", e.lines().next().unwrap_or("")), format!("program {name}, schedule {n}: {e}\nlast events: {log:?}"));
    }
    (n, !cut.load(Relaxed))
}

/// Every schedule of a small program with up to `bound` preemptions; whether none went wrong. For many small programs.
pub fn program(run: &Run, name: &str, bound: usize, f: impl Fn() -> Result<(), String> + Send + Sync + 'static) -> bool {
    let n = Arc::new(AtomicU64::new(0));
    let bad: Arc<Mutex<Option<String>>> = Default::default();
    let (n2, b2) = (n.clone(), bad.clone());
    let r = vlib::guarded(|| {
        let mut config = shuttle::Config::new();
        config.failure_persistence = shuttle::FailurePersistence::None;
        let deadline = std::time::Instant::now() + Duration::from_secs(3600);
        let scheduler = Bounded { bound, levels: vec![], step: 0, preempted: 0, started: false, deadline, cut: Default::default() };
        shuttle::Runner::new(scheduler, config).run(move || {
            n2.fetch_add(1, Relaxed);
            sched::begin();
            let r = f();
            sched::end();
            if let Err(e) = r {
                b2.lock().unwrap().get_or_insert(e.clone());
                panic!("{e}");
            }
        });
    });
    sched::end();
    let n = n.load(Relaxed);
    run.step(n);
    run.trace();
    if let Err(e) = &r {
        let e = bad.lock().unwrap_or_else(|e| e.into_inner()).clone().unwrap_or(e.clone());
        run.fail("program", format!("{name}: {e}"), format!("{name}, schedule {n}"));
    }
    r.is_ok()
}

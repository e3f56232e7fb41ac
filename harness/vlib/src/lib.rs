//! Shared by every harness: counting what was explored, reporting violations, writing evidence.
use std::{
    any::Any,
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed},
        Mutex,
    },
    time::Instant,
};

pub mod explore;

pub type Check = fn(&Run);

/// One run of one check.
pub struct Run {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    verif: PathBuf,
    states: Vec<Mutex<HashSet<u64>>>,
    transitions: AtomicU64,
    traces: AtomicU64,
    samples: Mutex<Vec<String>>,
    outcomes: Mutex<BTreeMap<String, u64>>,
    bounds: Mutex<BTreeMap<String, String>>,
    assumptions: Mutex<Vec<String>>,
    violations: Mutex<Vec<(String, String, String)>>,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeMap<String, String>>,
    stop: AtomicBool,
    capped: AtomicBool,
    t0: Instant,
    budget_s: f64,
}

const MAX_VIOLATIONS: usize = 3;

impl Run {
    fn new(id: &str) -> Self {
        let verif: PathBuf = std::env::var("VERIF").unwrap_or("/verif".into()).into();
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => "thorough",
            _ => "quick",
        }
        .to_string();
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut known = Vec::new();
        if let Ok(text) = std::fs::read_to_string(verif.join("known_findings.txt")) {
            for line in text.lines() {
                // known: property=<id> key=<key> <description>
                let Some(rest) = line.strip_prefix("known: ") else { continue };
                let mut it = rest.splitn(3, ' ');
                let (p, k, d) = (it.next(), it.next(), it.next().unwrap_or(""));
                if let (Some(p), Some(k)) = (p, k) {
                    if p == format!("property={id}") {
                        known.push((k.trim_start_matches("key=").to_string(), d.to_string()));
                    }
                }
            }
        }
        let budget_s = std::env::var("VERIF_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(
            if tier == "thorough" { 7200.0 } else { 420.0 },
        );
        Self {
            id: id.to_string(),
            tier,
            seed,
            verif,
            states: (0..64).map(|_| Default::default()).collect(),
            transitions: Default::default(),
            traces: Default::default(),
            samples: Default::default(),
            outcomes: Default::default(),
            bounds: Default::default(),
            assumptions: Default::default(),
            violations: Default::default(),
            known,
            known_hit: Default::default(),
            stop: AtomicBool::new(false),
            capped: AtomicBool::new(false),
            t0: Instant::now(),
            budget_s,
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }

    /// `q` in the quick tier, `t` in the thorough one.
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }

    /// A distinct state was reached (deduplicated here). True if it is new.
    pub fn state<T: Hash + ?Sized>(&self, t: &T) -> bool {
        let h = hash(t);
        self.states[(h % 64) as usize].lock().unwrap().insert(h)
    }

    pub fn step(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }

    /// One complete execution of the real code was compared with the model.
    pub fn trace(&self) {
        self.traces.fetch_add(1, Relaxed);
    }

    pub fn sample(&self, s: impl Into<String>) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 6 {
            v.push(s.into());
        }
    }

    /// Counts a named outcome, so the evidence shows that the exploration was not vacuous.
    pub fn outcome(&self, s: impl Into<String>) {
        *self.outcomes.lock().unwrap().entry(s.into()).or_default() += 1;
    }

    pub fn bound(&self, k: &str, v: impl std::fmt::Display) {
        self.bounds.lock().unwrap().insert(k.into(), v.to_string());
    }

    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }

    /// `key` identifies the failing input, call site or history; a known finding is matched by it.
    pub fn fail(&self, key: &str, what: impl Into<String>, replay: impl Into<String>) {
        let what = what.into();
        let key = &key.replace(' ', "-");
        if let Some((k, d)) = self.known.iter().find(|(k, _)| k == key) {
            self.known_hit.lock().unwrap().entry(k.clone()).or_insert_with(|| d.clone());
            return;
        }
        // to see every kind at once while writing a check: one of each, and the exploration goes on
        if std::env::var_os("VERIF_SURVEY").is_some() {
            let kind = |k: &str, w: &str| format!("{k}: {}", w.replace(|c: char| c.is_ascii_digit(), ""));
            let mut v = self.violations.lock().unwrap();
            if !v.iter().any(|(k, w, _)| kind(k, w) == kind(key, &what)) {
                v.push((key.to_string(), what, replay.into()));
            }
            return;
        }
        let mut v = self.violations.lock().unwrap();
        if v.len() < MAX_VIOLATIONS {
            v.push((key.to_string(), what, replay.into()));
        }
        if v.len() >= MAX_VIOLATIONS {
            self.stop.store(true, Relaxed);
        }
    }

    /// Exploration can end early: enough violations were found, or the wall budget ran out (reported as a
    /// cap in the evidence).
    pub fn stop(&self) -> bool {
        if self.stop.load(Relaxed) {
            return true;
        }
        if self.t0.elapsed().as_secs_f64() > self.budget_s {
            self.capped.store(true, Relaxed);
            self.stop.store(true, Relaxed);
            return true;
        }
        false
    }

    pub fn failed(&self) -> bool {
        !self.violations.lock().unwrap().is_empty()
    }

    /// How far the exploration has come, in no particular unit.
    fn progress(&self) -> u64 {
        self.transitions.load(Relaxed) + self.traces.load(Relaxed) + self.states.iter().map(|s| s.lock().unwrap().len() as u64).sum::<u64>()
    }

    fn finish(&self) -> i32 {
        let states: usize = self.states.iter().map(|s| s.lock().unwrap().len()).sum();
        let violations = self.violations.lock().unwrap().clone();
        let capped = self.capped.load(Relaxed);
        let mut coverage = serde_json::json!({
            "states": states,
            "transitions": self.transitions.load(Relaxed),
            // a check that counts no whole executions compares the real code with its reference at every step
            "traces_validated_against_impl": match self.traces.load(Relaxed) { 0 => self.transitions.load(Relaxed), n => n },
            "samples": self.samples.lock().unwrap().clone(),
            "exhaustive": !capped,
            "bounds": self.bounds.lock().unwrap().clone(),
            "outcomes": self.outcomes.lock().unwrap().clone(),
        });
        if capped {
            coverage["capped"] = serde_json::json!(format!("wall budget of {} s ran out", self.budget_s));
        }
        let ev = serde_json::json!({
            "property": self.id,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": coverage,
            "assumptions": self.assumptions.lock().unwrap().clone(),
            "wall_s": (self.t0.elapsed().as_secs_f64() * 1000.0).round() / 1000.0,
            "violations": violations.len(),
        });
        let dir = self.verif.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(
            dir.join(format!("{}.json", self.id)),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        )
        .expect("write evidence");
        println!(
            "{}: states={} transitions={} traces={} {}{:.1}s",
            self.id,
            coverage_n(&ev, "states"),
            coverage_n(&ev, "transitions"),
            coverage_n(&ev, "traces_validated_against_impl"),
            if capped { "CAPPED " } else { "" },
            ev["wall_s"].as_f64().unwrap()
        );
        for (k, d) in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {k} {d}", self.id);
        }
        if violations.is_empty() {
            return 0;
        }
        let dir = self.verif.join("build/replays");
        let _ = std::fs::create_dir_all(&dir);
        for (i, (key, what, replay)) in violations.iter().enumerate() {
            let path = dir.join(format!("{}-{i}.txt", self.id));
            let _ = std::fs::write(
                &path,
                format!("property: {}\nkey: {key}\nwhat: {what}\nreplay:\n{replay}\n", self.id),
            );
            println!("  {key}: {}", what.chars().take(600).collect::<String>());
            println!("VIOLATION property={} replay={}", self.id, path.display());
        }
        1
    }
}

fn coverage_n(ev: &serde_json::Value, k: &str) -> u64 {
    ev["coverage"][k].as_u64().unwrap_or(0)
}

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

/// Runs `f`; a panic becomes Err with its message and place.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => Err(format!("panic: {}", panic_text(e))),
    }
}

fn panic_text(e: Box<dyn Any + Send>) -> String {
    let at = LAST_PANIC.with(|p| p.take());
    if !at.is_empty() {
        return at;
    }
    e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}

/// Runs `f(i)` for every i in 0..n on all cores; a panic in `f` is a violation keyed "panic".
pub fn par(run: &Run, n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(n.max(1));
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Relaxed);
                if i >= n || run.stop() {
                    break;
                }
                if let Err(e) = guarded(|| f(i)) {
                    run.fail("panic", e, format!("work item {i} of {n}"));
                }
            });
        }
    });
}

/// A directory under /dev/shm (or build/tmp), removed when dropped.
pub struct Scratch(PathBuf);
impl Scratch {
    pub fn new() -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let name = format!("verif-{}-{}", std::process::id(), N.fetch_add(1, Relaxed));
        let shm = Path::new("/dev/shm").join(&name);
        if std::fs::create_dir(&shm).is_ok() {
            return Self(shm);
        }
        let base: PathBuf = std::env::var("VERIF").unwrap_or("/verif".into()).into();
        let p = base.join("build/tmp").join(&name);
        std::fs::create_dir_all(&p).expect("scratch");
        Self(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}
impl Default for Scratch {
    fn default() -> Self {
        Self::new()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Entry point of every harness binary: `<bin> <property id>`.
pub fn run_main(checks: &[(&str, Check)]) -> ! {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or(info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg}{at}"));
        if std::env::var_os("VERIF_VERBOSE").is_some() {
            eprintln!("panic: {msg}{at}");
        }
    }));
    let id = std::env::args().nth(1).unwrap_or_default();
    let Some((_, f)) = checks.iter().find(|(n, _)| *n == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(3);
    };
    let run: &'static Run = Box::leak(Box::new(Run::new(&id)));
    std::thread::spawn(move || watch(run));
    if let Err(e) = guarded(|| f(run)) {
        run.fail("panic", e, "the exploration's main thread");
    }
    end(run)
}

/// Reports, once, and ends the process.
fn end(run: &Run) -> ! {
    static ENDING: Mutex<()> = Mutex::new(());
    let _once = ENDING.lock();
    std::process::exit(run.finish())
}

/// An execution of the real code that does not end must not keep the check from answering: what was found is
/// reported a minute later at the latest, and no progress at all for many times the length of any step is a finding.
fn watch(run: &Run) {
    let patience = std::time::Duration::from_secs(run.pick(240, 1800));
    let (mut last, mut since, mut found) = (0, Instant::now(), None);
    loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let now = run.progress();
        if now != last {
            (last, since) = (now, Instant::now());
        }
        let overdue = run.failed() && std::env::var_os("VERIF_SURVEY").is_none() && found.get_or_insert_with(Instant::now).elapsed().as_secs() > 60;
        let stuck = since.elapsed() > patience;
        if stuck {
            run.fail("endless", format!("an execution of the code has not ended for {} s", patience.as_secs()), format!("after {now} steps, states and executions"));
        }
        if overdue || stuck {
            let mine = format!("verif-{}-", std::process::id());
            for d in std::fs::read_dir("/dev/shm").into_iter().flatten().flatten() {
                if d.file_name().to_string_lossy().starts_with(&mine) {
                    let _ = std::fs::remove_dir_all(d.path());
                }
            }
            end(run)
        }
    }
}

//! N04: the metrics recorder.
use metrics::{Key, KeyName, Label, Level, Metadata, Recorder, SharedString};
use std::collections::BTreeMap;
use vlib::{explore::seq_of, Run};

const SECONDS: &[f64] = &[0.005, 0.01, 0.025, 0.05, 0.1, 0.25, 0.5, 1.0, 2.5, 5.0, 10.0, 30.0];
const BYTES: &[f64] = &[1024.0, 4096.0, 16384.0, 65536.0, 262144.0, 1048576.0, 4194304.0];
const GAS: &[f64] = &[1e5, 2.5e5, 5e5, 1e6, 2.5e6, 5e6, 1e7, 1.5e7, 2.1e7, 3e7];
const TXS: &[f64] = &[1.0, 2.0, 5.0, 10.0, 25.0, 50.0, 100.0, 250.0, 500.0, 1000.0];

/// The scope a metric is shown under.
fn shown(name: &str) -> String {
    let scoped = if name.starts_with("tn_") || name.starts_with("tn.") { name.to_string() } else { format!("reth.{name}") };
    scoped.chars().map(|c| if c.is_ascii_alphanumeric() || c == '_' || c == ':' { c } else { '_' }).collect()
}

fn buckets(shown: &str) -> Option<&'static [f64]> {
    match shown {
        "tn_engine_block_gas_used" => Some(GAS),
        "tn_worker_batch_transactions" | "tn_executor_output_transactions" | "tn_executor_output_batches" => Some(TXS),
        s if s.ends_with("_seconds") => Some(SECONDS),
        s if s.ends_with("_bytes") => Some(BYTES),
        _ => None,
    }
}

fn names(run: &Run) -> Vec<String> {
    let letters = ['t', 'n', '_', '.', 'r'];
    let depth = run.pick(4, 5);
    let mut out = Vec::new();
    for len in 1..=depth {
        for i in 0..(letters.len() as u64).pow(len as u32) {
            let s: String = seq_of(i, letters.len() as u64, len).into_iter().map(|k| letters[k]).collect();
            out.push(s);
        }
    }
    run.bound("metric names", format!("every name of 1 to {depth} of the characters {letters:?}, alone and with each suffix, and names taken from the node"));
    let mut all = Vec::new();
    for s in out {
        for suffix in ["", "x", "_seconds", ".seconds", "_bytes", "_seconds_x", "seconds"] {
            all.push(format!("{s}{suffix}"));
        }
    }
    for full in ["engine_block_gas_used", "worker_batch_transactions", "executor_output_transactions", "executor_output_batches", "worker_batch_bytes", "rpc_calls_total", "process_open_fds"] {
        for pre in ["tn_", "tn.", "", "reth.", "reth_tn_", "TN_", "xtn_"] {
            for post in ["", "_x", "_seconds"] {
                all.push(format!("{pre}{full}{post}"));
            }
        }
    }
    all
}

static META: Metadata<'static> = Metadata::new("verif", Level::INFO, None);

pub fn n04(run: &Run) {
    if std::env::var("VERIF_N04_FOREIGN").is_ok() {
        // a process in which another recorder is installed already
        static NOOP: metrics::NoopRecorder = metrics::NoopRecorder;
        metrics::set_global_recorder(&NOOP).expect("first recorder");
        let both = [tn_metrics::install_recorder().is_err(), tn_metrics::install_recorder().is_err()];
        std::process::exit(if both == [true, true] { 42 } else { 43 });
    }
    let st = std::process::Command::new(std::env::current_exe().expect("exe")).arg("N04").env("VERIF_N04_FOREIGN", "1").output().expect("child");
    if st.status.code() != Some(42) {
        run.fail("foreign", format!("installing over another recorder did not report an error (exit {:?})", st.status.code()), "set_global_recorder, then install_recorder twice");
    }
    run.trace();

    // however many ask for it first, all get the same one
    let got: Vec<usize> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8).map(|_| s.spawn(|| tn_metrics::install_recorder().map(|h| h as *const _ as usize).unwrap_or(0))).collect();
        hs.into_iter().map(|h| h.join().unwrap_or(0)).collect()
    });
    if got.iter().any(|p| *p == 0 || *p != got[0]) {
        run.fail("install", "concurrent installs disagree or fail", format!("{got:?}"));
        return;
    }
    let handle = match tn_metrics::install_recorder() {
        Ok(h) => h,
        Err(e) => return run.fail("install", format!("a later install fails: {e}"), ""),
    };
    let all = names(run);
    // every name as each kind, with its own labels: what is shown is found again by its label
    metrics::with_recorder(|r: &dyn Recorder| {
        for (i, name) in all.iter().enumerate() {
            for (k, kind) in ["c", "g", "h"].into_iter().enumerate() {
                let base = format!("{name}{}", if buckets(&shown(name)).is_some() && kind == "h" { "" } else { kind });
                let text: SharedString = format!("about {}", shown(&base)).into();
                let key = Key::from_parts(base.clone(), vec![Label::new("i", format!("{i}")), Label::new("kind", kind), Label::new("name", name.clone())]);
                match k {
                    0 => {
                        r.describe_counter(KeyName::from(base), None, text);
                        let c = r.register_counter(&key, &META);
                        c.increment(i as u64);
                        c.increment(1);
                    }
                    1 => {
                        r.describe_gauge(KeyName::from(base), None, text);
                        let g = r.register_gauge(&key, &META);
                        g.set(i as f64);
                        g.increment(2.0);
                        g.decrement(1.0);
                    }
                    _ => {
                        r.describe_histogram(KeyName::from(base.clone()), None, text);
                        let h = r.register_histogram(&key, &META);
                        for b in buckets(&shown(&base)).unwrap_or(&[1.0]) {
                            // on a boundary, just below and just above it
                            for v in [*b, *b * 0.999, *b * 1.001] {
                                h.record(v);
                            }
                        }
                    }
                }
                run.step(1);
            }
        }
    });
    let text = handle.render();
    // label i, kind -> (shown name, other labels, value) lines
    let mut lines: BTreeMap<(usize, String), Vec<(String, BTreeMap<String, String>, f64)>> = BTreeMap::new();
    for l in text.lines() {
        if let Some(h) = l.strip_prefix("# HELP ") {
            let (n, t) = h.split_once(' ').unwrap_or((h, ""));
            if t.starts_with("about ") && t != format!("about {n}") {
                run.fail("help", format!("{n} is described by: {t}"), n);
            }
            continue;
        }
        if l.starts_with('#') || l.is_empty() {
            continue;
        }
        let (Some(open), Some(close)) = (l.find('{'), l.rfind('}')) else { continue };
        let labels: BTreeMap<String, String> = l[open + 1..close].split("\",").filter_map(|p| p.split_once("=\"").map(|(k, v)| (k.to_string(), v.trim_end_matches('"').to_string()))).collect();
        let Some(i) = labels.get("i").and_then(|i| i.parse().ok()) else { continue };
        let kind = labels.get("kind").cloned().unwrap_or_default();
        lines.entry((i, kind)).or_default().push((l[..open].to_string(), labels, l[close + 1..].trim().parse().unwrap_or(f64::NAN)));
    }
    for (i, name) in all.iter().enumerate() {
        for kind in ["c", "g", "h"] {
            let base = format!("{name}{}", if buckets(&shown(name)).is_some() && kind == "h" { "" } else { kind });
            let want = shown(&base);
            let bs = buckets(&want);
            let got = lines.remove(&(i, kind.to_string())).unwrap_or_default();
            run.state(&(name, kind));
            let mut ok = !got.is_empty() && got.iter().all(|(_, l, _)| l.get("name") == Some(name));
            match kind {
                "c" => ok &= got.len() == 1 && got[0].0 == want && got[0].2 == i as f64 + 1.0,
                "g" => ok &= got.len() == 1 && got[0].0 == want && got[0].2 == i as f64 + 1.0,
                _ => {
                    let n = 3 * bs.map_or(1, |b| b.len());
                    ok &= got.iter().any(|(m, _, v)| *m == format!("{want}_count") && *v == n as f64);
                    let shown_buckets: Vec<(f64, f64)> = got
                        .iter()
                        .filter(|(m, _, _)| *m == format!("{want}_bucket"))
                        .filter_map(|(_, l, v)| l.get("le").map(|le| (if le == "+Inf" { f64::INFINITY } else { le.parse().unwrap_or(f64::NAN) }, *v)))
                        .collect();
                    let vals: Vec<f64> = bs.unwrap_or(&[]).iter().flat_map(|b| [*b, *b * 0.999, *b * 1.001]).collect();
                    let mut exp: Vec<(f64, f64)> = bs.unwrap_or(&[]).iter().map(|b| (*b, vals.iter().filter(|v| *v <= b).count() as f64)).collect();
                    if bs.is_some() {
                        exp.push((f64::INFINITY, n as f64));
                    }
                    ok &= shown_buckets == exp;
                    // without buckets of its own it shows quantiles under its name
                    ok &= bs.is_some() || got.iter().any(|(m, l, _)| *m == want && l.contains_key("quantile"));
                }
            }
            if !ok {
                run.fail("shown", format!("{kind} metric {base:?} should be shown as {want} {}; shown: {:?}", bs.map_or("".into(), |b| format!("with buckets {b:?}")), got.iter().take(20).map(|(m, l, v)| (m, l.get("le"), v)).collect::<Vec<_>>()), base);
            }
        }
        run.trace();
    }
    run.sample(format!("{} names as counter, gauge and histogram", all.len()));
}

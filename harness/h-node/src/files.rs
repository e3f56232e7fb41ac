//! N03: configuration files.
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::{
    collections::BTreeMap,
    fs,
    path::{Path, PathBuf},
    time::Duration,
};
use tn_config::{ConfigFmt, ConfigTrait, NetworkConfig, TelcoinDirs};
use vlib::{explore::seq_of, par, Run, Scratch};

struct Files;
impl ConfigTrait for Files {}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Kind {
    Unit,
    One(u64),
    Named { a: Option<i64>, b: String },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Settings {
    name: String,
    count: u64,
    signed: i64,
    ratio: f64,
    on: bool,
    wait: Duration,
    maybe: Option<String>,
    list: Vec<String>,
    map: BTreeMap<String, u64>,
    kind: Kind,
}
impl Default for Settings {
    fn default() -> Self {
        Self {
            name: "default".into(),
            count: 7,
            signed: -7,
            ratio: 0.25,
            on: true,
            wait: Duration::from_millis(1500),
            maybe: None,
            list: vec!["a".into()],
            map: BTreeMap::from([("k".into(), 1)]),
            kind: Kind::Unit,
        }
    }
}

fn values() -> Vec<Settings> {
    let strings = [
        "", " ", "null", "~", "yes", "no", "true", "0x10", "1e3", "007", "-", "- a", "# c", "a: b", "a\nb\n", "\ttab", "é\u{7}", "\"q\"", "'s'", "{}", "[", "&a", "*a", "!t", "%d", "|", ">", "a ", "2001-01-01", "\u{feff}x", "\\n",
    ];
    let mut all = vec![Settings::default()];
    for s in strings {
        all.push(Settings { name: s.into(), ..Default::default() });
        all.push(Settings { maybe: Some(s.into()), list: vec![s.into(), s.into()], ..Default::default() });
        all.push(Settings { map: BTreeMap::from([(s.to_string(), u64::MAX)]), kind: Kind::Named { a: None, b: s.into() }, ..Default::default() });
    }
    for n in [0, 1, 255, 1 << 32, (1 << 53) + 1, u64::MAX] {
        all.push(Settings { count: n, signed: n as i64, kind: Kind::One(n), wait: Duration::from_nanos(n), ..Default::default() });
    }
    for r in [0.0, -0.5, 0.1, 1e-300, 1e300, f64::MAX, f64::MIN_POSITIVE] {
        all.push(Settings { ratio: r, on: false, list: vec![], map: BTreeMap::new(), kind: Kind::Named { a: Some(i64::MIN), b: String::new() }, ..Default::default() });
    }
    all.push(Settings { list: (0..300).map(|i| format!("entry {i}")).collect(), ..Default::default() });
    all
}

fn fmt(yaml: bool) -> ConfigFmt {
    if yaml {
        ConfigFmt::YAML
    } else {
        ConfigFmt::JSON
    }
}

fn parse<T: DeserializeOwned>(bytes: &[u8], yaml: bool) -> Option<T> {
    let text = std::str::from_utf8(bytes).ok()?;
    if yaml {
        serde_yaml::from_str(text).ok()
    } else {
        serde_json::from_str(text).ok()
    }
}

/// What is at the path.
#[derive(Clone, Debug, PartialEq, Hash)]
enum At {
    Nothing,
    NoParent,
    Dir,
    File(Vec<u8>),
}

fn look(p: &Path) -> At {
    match fs::symlink_metadata(p) {
        Ok(m) if m.is_dir() => At::Dir,
        Ok(_) => At::File(fs::read(p).unwrap()),
        Err(_) if p.parent().unwrap().is_dir() => At::Nothing,
        Err(_) => At::NoParent,
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Load(bool),
    LoadOrDefault(bool),
    Write(usize, bool),
}

fn play(run: &Run, start: &At, ops: &[Op], vals: &[Settings], dir: &Path) {
    let _ = fs::remove_dir_all(dir.join("x"));
    let path = dir.join("x/y/settings");
    match start {
        At::NoParent => {}
        At::Nothing => fs::create_dir_all(path.parent().unwrap()).unwrap(),
        At::Dir => fs::create_dir_all(&path).unwrap(),
        At::File(b) => {
            fs::create_dir_all(path.parent().unwrap()).unwrap();
            fs::write(&path, b).unwrap();
        }
    }
    for (i, op) in ops.iter().enumerate() {
        let before = look(&path);
        run.step(1);
        run.state(&before);
        let replay = || format!("{start:?} then {:?}", &ops[..=i]);
        match *op {
            Op::Load(yaml) => {
                let got = Files::load_from_path::<Settings>(&path, fmt(yaml)).ok();
                let want = match &before {
                    At::File(b) => parse(b, yaml),
                    _ => None,
                };
                if got != want {
                    run.fail("load", format!("loaded {got:?}, expected {want:?}"), replay());
                }
                run.outcome(if got.is_some() { "loaded" } else { "load refused" });
                if look(&path) != before {
                    run.fail("load-writes", format!("loading turned {before:?} into {:?}", look(&path)), replay());
                }
            }
            Op::LoadOrDefault(yaml) => {
                let got = Files::load_from_path_or_default::<Settings>(&path, fmt(yaml)).ok();
                let fresh = matches!(before, At::Nothing | At::NoParent);
                let want = match &before {
                    At::File(b) => parse(b, yaml),
                    At::Dir => None,
                    At::Nothing | At::NoParent => Some(Settings::default()),
                };
                if got != want {
                    run.fail("default", format!("loaded {got:?}, expected {want:?}"), replay());
                }
                let after = look(&path);
                if fresh {
                    let kept = matches!(&after, At::File(b) if parse::<Settings>(b, yaml) == Some(Settings::default()));
                    if !kept {
                        run.fail("default-kept", format!("the default was not left in the file: {after:?}"), replay());
                    }
                    run.outcome("default written");
                } else if after != before {
                    run.fail("overwrite", format!("loading turned {before:?} into {after:?}"), replay());
                } else {
                    run.outcome(if got.is_some() { "kept" } else { "unreadable file refused and left alone" });
                }
            }
            Op::Write(v, yaml) => {
                let ok = Files::write_to_path(&path, &vals[v], fmt(yaml)).is_ok();
                let after = look(&path);
                if ok == matches!(before, At::Dir) {
                    run.fail("write", format!("writing over {before:?} gave ok={ok}"), replay());
                }
                if ok {
                    let good = matches!(&after, At::File(b) if parse::<Settings>(b, yaml).as_ref() == Some(&vals[v]));
                    if !good {
                        run.fail("written", format!("the file does not hold what was written: {after:?}"), replay());
                    }
                    run.outcome("written");
                } else if after != before {
                    run.fail("write-refused", "a refused write changed the path", replay());
                }
            }
        }
    }
    run.trace();
}

fn leaves(v: &serde_yaml::Value, at: Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        // a duration is one value
        serde_yaml::Value::Mapping(m) if !(m.len() == 2 && m.contains_key(&serde_yaml::Value::from("nanos"))) => {
            for (k, v) in m {
                let mut p = at.clone();
                p.push(k.as_str().unwrap().to_string());
                leaves(v, p, out);
            }
        }
        _ => out.push(at),
    }
}
fn at<'a>(v: &'a mut serde_yaml::Value, path: &[String]) -> &'a mut serde_yaml::Value {
    path.iter().fold(v, |v, k| v.get_mut(k.as_str()).unwrap())
}
fn changed(v: &serde_yaml::Value) -> serde_yaml::Value {
    use serde_yaml::Value::*;
    match v {
        Number(n) if n.is_f64() => (n.as_f64().unwrap() + 0.125).into(),
        Number(n) => (n.as_i64().unwrap() + 1).into(),
        String(s) => format!("{s}-changed").into(),
        Bool(b) => (!b).into(),
        Mapping(m) => {
            let mut m = m.clone();
            m.insert("secs".into(), (m[&serde_yaml::Value::from("secs")].as_u64().unwrap() + 1).into());
            m.insert("nanos".into(), 77.into());
            Mapping(m)
        }
        other => panic!("unexpected setting {other:?}"),
    }
}

/// Every setting of the network configuration is kept by the file, and defaulted when the file does not name it.
fn network(run: &Run, dir: &Path) {
    let base = dir.join("node");
    let default = serde_yaml::to_value(NetworkConfig::default()).unwrap();
    let mut all = vec![];
    leaves(&default, vec![], &mut all);
    run.bound("network settings", format!("each of {} settings changed alone, removed alone, and with every section removed", all.len()));
    let file = base.network_config_path();
    let check = |v: &serde_yaml::Value, want: &serde_yaml::Value, what: &str| {
        let _ = fs::remove_dir_all(&base);
        fs::create_dir_all(&base).unwrap();
        fs::write(&file, serde_yaml::to_string(v).unwrap()).unwrap();
        run.step(2);
        run.state(what);
        let mut read = match NetworkConfig::read_config(&base) {
            Ok(r) => r,
            Err(e) => return run.fail("network-read", format!("not readable: {e}"), what),
        };
        if serde_yaml::to_value(&read).unwrap() != *want {
            return run.fail("network-setting", "the file's settings are not those loaded", what);
        }
        if read.chain_id() != 0 {
            run.fail("chain-id", "a chain id came from the file", what);
        }
        read.set_chain_id(2017);
        read.write_config(&base).unwrap();
        let again = NetworkConfig::read_config(&base).unwrap();
        if serde_yaml::to_value(&again).unwrap() != *want || again.chain_id() != 0 || read.chain_id() != 2017 {
            run.fail("network-write", "writing and reading again changed a setting or kept the chain id", what);
        }
        run.trace();
        run.outcome("network file");
    };
    check(&default, &default, "as written");
    check(&serde_yaml::from_str("{}").unwrap(), &default, "empty");
    for p in &all {
        let name = p.join(".");
        let mut v = default.clone();
        let new = changed(at(&mut v, p));
        *at(&mut v, p) = new;
        check(&v, &v, &format!("{name} changed"));
        let mut gone = v.clone();
        for (i, cut) in p.iter().enumerate().rev() {
            at(&mut gone, &p[..i]).as_mapping_mut().unwrap().remove(&serde_yaml::Value::from(cut.as_str()));
            if i == 0 && gone.as_mapping().unwrap().is_empty() {
                continue;
            }
            check(&gone, &default, &format!("{name} removed to depth {i}"));
        }
    }
    let _ = fs::remove_dir_all(&base);
    let first = NetworkConfig::read_config(&base).unwrap();
    if serde_yaml::to_value(&first).unwrap() != default || !file.is_file() {
        run.fail("network-first", "the first start does not write the default network file", "");
    }
}

fn paths(run: &Run, dir: &Path) {
    for base in ["", ".", "a", "a/", "./a/../b", "/", "/data/telcoin", "/data//telcoin/"].map(PathBuf::from).into_iter().chain([dir.to_path_buf()]) {
        let j = |s: &str| base.join(s);
        let want = [
            (base.node_config_parameters_path(), j("parameters.yaml")),
            (base.node_keys_path(), j("node-keys")),
            (base.node_info_path(), j("node-info.yaml")),
            (base.genesis_path(), j("genesis")),
            (base.committee_path(), j("genesis/committee.yaml")),
            (base.genesis_file_path(), j("genesis/genesis.yaml")),
            (base.consensus_db_path(), j("consensus-db")),
            (base.epochs_db_path(), j("consensus-db/epochs")),
            (base.reth_db_path(), j("db")),
            (base.network_config_path(), j("network-config")),
        ];
        for (got, want) in want {
            if got != want {
                run.fail("layout", format!("{} instead of {}", got.display(), want.display()), base.display().to_string());
            }
            run.step(1);
        }
    }
    run.outcome("layout");
}

extern "C" {
    fn setfsuid(uid: u32) -> i32;
}

/// A file (or folder) that is there but may not be opened is refused, and neither replaced nor changed.
fn refused(run: &Run, dir: &Path) {
    use std::os::unix::fs::PermissionsExt;
    for (what, locked) in [("file", true), ("folder", false)] {
        for yaml in [true, false] {
            let folder = dir.join(format!("locked-{what}-{yaml}"));
            fs::create_dir_all(&folder).unwrap();
            let path = folder.join("settings");
            fs::write(&path, b"kept").unwrap();
            fs::set_permissions(&path, fs::Permissions::from_mode(if locked { 0o200 } else { 0o666 })).unwrap();
            fs::set_permissions(&folder, fs::Permissions::from_mode(if locked { 0o777 } else { 0o600 })).unwrap();
            if locked {
                // what may be written, and not read
                std::os::unix::fs::chown(&path, Some(65534), Some(65534)).unwrap_or(());
            }
            // this thread alone uses files as an unprivileged user
            unsafe { setfsuid(65534) };
            let bites = fs::File::open(&path).is_err();
            let got = Files::load_from_path_or_default::<Settings>(&path, fmt(yaml));
            unsafe { setfsuid(0) };
            fs::set_permissions(&folder, fs::Permissions::from_mode(0o777)).unwrap();
            run.step(1);
            if bites && got.is_ok() {
                run.fail("unopenable", "a file that may not be opened was answered with defaults", what);
            }
            if bites && fs::read(&path).unwrap() != b"kept" {
                run.fail("unopenable-replaced", "a file that may not be opened was replaced", what);
            }
            run.outcome(if bites { "unopenable file refused" } else { "permissions not enforced here" });
        }
    }
}

pub fn n03(run: &Run) {
    let vals = values();
    let yaml = |v: &Settings| serde_yaml::to_string(v).unwrap().into_bytes();
    let json = |v: &Settings| serde_json::to_string(v).unwrap().into_bytes();
    let long = vals.last().unwrap();
    let mut short = json(&vals[1]);
    short.truncate(short.len() / 2);
    let starts = vec![
        At::NoParent,
        At::Nothing,
        At::Dir,
        At::File(vec![]),
        At::File(b"not a config".to_vec()),
        At::File(b"name: [".to_vec()),
        At::File(vec![0xff, 0xfe, 0]),
        At::File(yaml(&vals[1])),
        At::File(json(&vals[2])),
        At::File(yaml(long)),
        At::File(json(long)),
        At::File(short),
        At::File([json(&vals[0]), b"}".to_vec()].concat()),
        At::File([json(&vals[0]), b"  \n".to_vec()].concat()),
    ];
    let mut ops = vec![Op::Load(true), Op::Load(false), Op::LoadOrDefault(true), Op::LoadOrDefault(false)];
    for v in [0, 3, vals.len() - 1] {
        ops.extend([Op::Write(v, true), Op::Write(v, false)]);
    }
    let depth = run.pick(3, 4);
    run.bound("histories", format!("every sequence of {depth} loads and writes in both formats over {} contents of the path", starts.len()));
    run.bound("values", format!("{} values of a structure with every kind of field, written and read back in both formats", vals.len()));
    let scratch = Scratch::new();
    let base = ops.len() as u64;
    let total = base.pow(depth);
    let threads = 16;
    par(run, threads, |t| {
        let dir = scratch.path().join(format!("t{t}"));
        fs::create_dir_all(&dir).unwrap();
        let mut n = t as u64;
        while n < total && !run.stop() {
            let seq: Vec<Op> = seq_of(n, base, depth as usize).into_iter().map(|i| ops[i]).collect();
            for s in &starts {
                play(run, s, &seq, &vals, &dir);
            }
            n += threads as u64;
        }
        // every value over every other length
        for (i, _) in vals.iter().enumerate().filter(|(i, _)| i % threads == t) {
            for y in [true, false] {
                for s in [At::Nothing, At::File(yaml(long)), At::File(b"x".to_vec())] {
                    play(run, &s, &[Op::Write(i, y), Op::Load(y), Op::LoadOrDefault(y)], &vals, &dir);
                }
            }
        }
    });
    std::thread::scope(|s| s.spawn(|| refused(run, scratch.path())).join().unwrap());
    network(run, scratch.path());
    paths(run, scratch.path());
}

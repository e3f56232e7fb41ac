//! Execution-state snapshots (S05): every short record stream, every header-count declaration, every
//! truncation and bit flip, and round trips through the writer.
use alloy_rlp::Encodable;
use serde::{Deserialize, Serialize};
use std::{collections::BTreeMap, fs, path::Path};
use tn_storage::{
    archive::pack::{Pack, PackCompression},
    exec_state_pack::{
        ExecStateAccount, ExecStatePackReader, ExecStatePackWriter, StateEntry, EXEC_STATE_PACK_VERSION,
        STORAGE_CHUNK_SLOTS,
    },
};
use tn_types::{Address, Bytes, ExecHeader, GenesisAccount, B256, U256};
use vlib::{
    explore::{seq_count, seq_of},
    guarded, par, Run, Scratch,
};

// The on-disk records, as the format's documentation gives them.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Meta {
    state_root: B256,
    block_number: u64,
    block_hash: B256,
    header_count: u32,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Acct {
    address: Address,
    nonce: u64,
    balance: B256,
    code: Option<Bytes>,
}
#[derive(Debug, Clone, Default, Serialize, Deserialize)]
struct Stats {
    account_count: u64,
    storage_slots: u64,
    bytecodes: u64,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Rec {
    Meta(Meta),
    Header(Vec<u8>),
    Account(Acct),
    Storage(Vec<(B256, B256)>),
    End(Stats),
}

fn b(n: u64) -> B256 {
    B256::from(U256::from(n).to_be_bytes::<32>())
}

fn header(number: u64, root: u64) -> ExecHeader {
    ExecHeader { number, state_root: b(root), gas_limit: 30_000_000, ..Default::default() }
}

fn rlp(h: &ExecHeader) -> Vec<u8> {
    let mut v = vec![];
    h.encode(&mut v);
    v
}

fn acct(i: u8, code: Option<&[u8]>) -> Acct {
    Acct { address: Address::repeat_byte(i), nonce: i as u64, balance: b(1000 + i as u64), code: code.map(|c| Bytes::from(c.to_vec())) }
}

fn write_raw(dir: &Path, recs: &[Rec]) {
    fs::create_dir_all(dir).unwrap();
    let mut p: Pack<Rec> =
        Pack::open(dir.join("state_data"), 0, false, PackCompression::ZStd, EXEC_STATE_PACK_VERSION).expect("pack");
    for r in recs {
        p.append(r).expect("append");
    }
    p.commit().expect("commit");
}

/// What a reader may conclude from a record stream.
#[derive(Debug, PartialEq)]
struct Verdict {
    open: bool,
    verify: bool,
    /// accounts, each with its slots, before the first error or the footer; and whether the footer ended it
    accounts: Vec<(u8, usize)>,
    clean: bool,
}

fn oracle(recs: &[Rec], floor: u64) -> Verdict {
    let mut v = Verdict { open: false, verify: false, accounts: vec![], clean: false };
    let Some(Rec::Meta(m)) = recs.first() else { return v };
    let n = m.header_count as usize;
    if n == 0 || n > 4096 || (n as u64) < m.block_number.min(floor) {
        return v;
    }
    let good: Vec<Vec<u8>> = recs[1..]
        .iter()
        .take(n)
        .map_while(|r| if let Rec::Header(h) = r { Some(h.clone()) } else { None })
        .collect();
    if good.len() < n || good.iter().any(|h| decode(h).is_none()) {
        return v;
    }
    v.open = true;
    let first = decode(&good[0]).unwrap();
    let meta_ok = first.state_root == m.state_root && first.number == m.block_number && first.hash_slow() == m.block_hash;
    let mut corrupt = false;
    let mut cur: Option<(u8, usize)> = None;
    let mut keys = std::collections::BTreeSet::new();
    let mut end = None;
    let mut count = 0;
    for r in &recs[1 + n..] {
        match r {
            Rec::Account(a) => {
                v.accounts.extend(cur.take());
                cur = Some((a.address[0], 0));
                keys.clear();
                count += 1;
            }
            Rec::Storage(s) => match &mut cur {
                Some(c) => {
                    keys.extend(s.iter().map(|x| x.0));
                    c.1 = keys.len();
                }
                None => {
                    corrupt = true;
                    break;
                }
            },
            Rec::End(s) => {
                v.accounts.extend(cur.take());
                end = Some(s.clone());
                break;
            }
            _ => {
                v.accounts.extend(cur.take());
                corrupt = true;
                break;
            }
        }
    }
    v.clean = end.is_some() && !corrupt;
    v.verify = meta_ok && v.clean && end.unwrap().account_count == count;
    v
}

fn decode(h: &[u8]) -> Option<ExecHeader> {
    <ExecHeader as alloy_rlp::Decodable>::decode(&mut &h[..]).ok()
}

/// What the real reader concludes.
fn observed(dir: &Path) -> Verdict {
    let mut v = Verdict { open: false, verify: ExecStatePackReader::verify(dir).is_ok(), accounts: vec![], clean: false };
    let Ok(mut r) = ExecStatePackReader::open(dir) else { return v };
    v.open = true;
    let mut err = false;
    for a in r.accounts() {
        match a {
            Ok(a) => {
                assert!(!err, "an account after an error");
                v.accounts.push((a.address[0], a.account.storage.map(|s| s.len()).unwrap_or(0)));
            }
            Err(_) => {
                assert!(!err, "two errors from one walk");
                err = true;
            }
        }
        assert!(v.accounts.len() < 10_000, "endless walk");
    }
    v.clean = !err;
    assert!(r.next_account().is_none() && r.next_entry().is_none(), "the walk goes on after its end");
    // the chunked walk agrees about completeness
    let mut r = ExecStatePackReader::open(dir).unwrap();
    let mut ok = true;
    let mut n = 0;
    while let Some(e) = r.next_entry() {
        match e {
            Ok(StateEntry::Account(_)) => n += 1,
            Ok(StateEntry::Storage(_)) => {}
            Err(_) => {
                assert!(ok, "two errors from one walk by entries");
                ok = false
            }
        }
    }
    assert!(r.next_entry().is_none() && r.next_account().is_none(), "the walk by entries goes on after its end");
    if v.clean {
        assert!(ok && n == v.accounts.len(), "entry walk: {n} accounts, ok={ok}; account walk: {}", v.accounts.len());
    }
    v
}

fn streams(run: &Run) {
    // block 1, two headers: meta, H, H, ...
    let h = header(1, 9);
    let other = header(0, 8);
    let meta = |count: u32| Meta { state_root: b(9), block_number: 1, block_hash: h.hash_slow(), header_count: count };
    let alpha: Vec<(&str, Rec)> = vec![
        ("Meta1", Rec::Meta(meta(1))),
        ("Meta2", Rec::Meta(meta(2))),
        ("H", Rec::Header(rlp(&h))),
        ("H'", Rec::Header(rlp(&other))),
        ("A1", Rec::Account(acct(1, None))),
        ("A2", Rec::Account(acct(2, Some(&[1, 2, 3])))),
        ("S", Rec::Storage(vec![(b(1), b(2)), (b(3), b(4))])),
        ("E0", Rec::End(Stats::default())),
        ("E1", Rec::End(Stats { account_count: 1, storage_slots: 2, bytecodes: 0 })),
        ("E2", Rec::End(Stats { account_count: 2, storage_slots: 2, bytecodes: 1 })),
    ];
    // every stream over the whole alphabet up to a length, and longer ones below the fixed good prefix
    let short = run.pick(4, 5);
    let body = run.pick(4, 5);
    let mut jobs: Vec<(Vec<usize>, usize)> = vec![];
    for l in 0..=short {
        for i in 0..seq_count(alpha.len() as u64, l) {
            jobs.push((seq_of(i, alpha.len() as u64, l), 0));
        }
    }
    let tail: Vec<usize> = vec![1, 2, 4, 5, 6, 7, 8, 9];
    for l in 3..=body {
        for i in 0..seq_count(tail.len() as u64, l) {
            let s: Vec<usize> = seq_of(i, tail.len() as u64, l).into_iter().map(|x| tail[x]).collect();
            for p in [vec![0, 2], vec![1, 2, 3]] {
                jobs.push((p.into_iter().chain(s.iter().copied()).collect(), 1));
            }
        }
    }
    run.bound("record streams", format!("all of length <= {short} over {} records; all bodies of length <= {body} after a good prefix", alpha.len()));
    let chunk = 256;
    par(run, jobs.len().div_ceil(chunk), |c| {
        let s = Scratch::new();
        for (k, (j, _)) in jobs[c * chunk..].iter().take(chunk).enumerate() {
            if run.stop() {
                return;
            }
            let recs: Vec<Rec> = j.iter().map(|i| alpha[*i].1.clone()).collect();
            let name = || j.iter().map(|i| alpha[*i].0).collect::<Vec<_>>().join(" ");
            let dir = s.path().join(k.to_string());
            write_raw(&dir, &recs);
            let want = oracle(&recs, 256);
            match guarded(|| observed(&dir)) {
                Ok(got) if got == want => {
                    run.outcome(format!("open={} verify={} clean={}", got.open, got.verify, got.clean));
                }
                Ok(got) => run.fail("stream", format!("records [{}]: expected {want:?}, reader says {got:?}", name()), name()),
                Err(e) => run.fail("stream", format!("records [{}]: {e}", name()), name()),
            }
            run.state(j);
            run.step(j.len() as u64);
            run.trace();
            let _ = fs::remove_dir_all(&dir);
        }
    });
}

fn header_counts(run: &Run) {
    let numbers = [0u64, 1, 2, 3, 254, 255, 256, 257, 258, 1000, u64::MAX];
    let counts = [0u32, 1, 2, 3, 254, 255, 256, 257, 4095, 4096, 4097, 5000, u32::MAX];
    run.bound("header counts", format!("tip {numbers:?} x declared {counts:?} x written (declared, one fewer, one more), and fewer by more; whole, and cut off after them"));
    let jobs: Vec<(u64, u32, i64)> = numbers
        .iter()
        .flat_map(|n| counts.iter().flat_map(move |c| [0i64, -1, 1].into_iter().map(move |d| (*n, *c, d))))
        .collect();
    // declared, written, and then: an account and the footer, the footer, or nothing
    let mut jobs: Vec<(u64, u32, i64, u8)> = jobs.into_iter().flat_map(|(n, c, d)| [2u8, 1, 0].map(|t| (n, c, d, t))).collect();
    for (number, count) in [(1u64, 40u32), (10, 300), (258, 300), (1000, 1030), (1000, 4096)] {
        jobs.extend((1..=count as i64).filter(|d| *d < 60 || (d % 97) < 2 || (count as i64 - d - 256).abs() < 3).flat_map(|d| [(number, count, -d, 2), (number, count, -d, 0)]));
    }
    par(run, jobs.len(), |i| {
        let (number, count, d, tail) = jobs[i];
        let s = Scratch::new();
        let h = header(number, 9);
        let written = (count as i64 + d).clamp(0, 5001) as usize;
        let mut recs = vec![Rec::Meta(Meta { state_root: b(9), block_number: number, block_hash: h.hash_slow(), header_count: count })];
        for k in 0..written {
            recs.push(Rec::Header(rlp(&header(number.saturating_sub(k as u64), 9))));
        }
        if tail > 1 {
            recs.push(Rec::Account(acct(1, None)));
        }
        if tail > 0 {
            recs.push(Rec::End(Stats { account_count: tail as u64 - 1, ..Default::default() }));
        }
        write_raw(s.path(), &recs);
        let want = oracle(&recs, 256);
        let what = format!("tip block {number}, {count} headers declared, {written} written, {tail} records more");
        match guarded(|| observed(s.path())) {
            Ok(got) if got == want => {
                run.outcome(format!("header count open={}", got.open));
                if got.open {
                    let r = ExecStatePackReader::open(s.path()).unwrap();
                    let ok = r.headers().len() == count as usize
                        && r.headers().iter().enumerate().all(|(k, x)| x.number == number.saturating_sub(k as u64))
                        && r.meta().block_number == number
                        && *r.snapshot_header() == h;
                    if !ok {
                        run.fail("headers", format!("{what}: headers read back differ"), what.clone());
                    }
                }
            }
            Ok(got) => run.fail("headers", format!("{what}: expected {want:?}, reader says {got:?}"), what.clone()),
            Err(e) => run.fail("headers", format!("{what}: {e}"), what.clone()),
        }
        run.state(&(number, count, d, tail));
        run.step(1);
        run.trace();
    });
    // identity of the snapshot header: each of root, number and hash wrong on its own and together
    for mask in 0..8u32 {
        let s = Scratch::new();
        let h = header(1, 9);
        let recs = vec![
            Rec::Meta(Meta {
                state_root: b(if mask & 1 > 0 { 10 } else { 9 }),
                block_number: if mask & 2 > 0 { 0 } else { 1 },
                block_hash: if mask & 4 > 0 { b(77) } else { h.hash_slow() },
                header_count: 1,
            }),
            Rec::Header(rlp(&h)),
            Rec::End(Stats::default()),
        ];
        write_raw(s.path(), &recs);
        let ok = ExecStatePackReader::verify(s.path()).is_ok();
        if ok != (mask == 0) {
            run.fail("identity", format!("wrong (root,number,hash) mask {mask:03b}: verify ok={ok}"), format!("mask {mask}"));
        }
        run.step(1);
        run.trace();
    }
}

fn mk_account(i: u8, code: Option<usize>, slots: usize) -> ExecStateAccount {
    let storage: BTreeMap<B256, B256> = (0..slots as u64).map(|k| (b(k * 7 + i as u64), b(k % 5))).collect();
    ExecStateAccount {
        address: Address::repeat_byte(i),
        account: GenesisAccount {
            nonce: Some(i as u64 * 3),
            balance: U256::MAX - U256::from(i),
            code: code.map(|n| Bytes::from(vec![0x60; n])),
            storage: (!storage.is_empty()).then_some(storage),
            private_key: None,
        },
    }
}

fn round_trips(run: &Run) {
    let big = STORAGE_CHUNK_SLOTS;
    let kinds: Vec<(Option<usize>, usize)> = vec![
        (None, 0),
        (Some(3), 0),
        (Some(0), 1),
        (None, 3),
        (Some(24_576), 2),
    ];
    let mut jobs: Vec<Vec<(Option<usize>, usize)>> = vec![];
    for l in 0..=run.pick(3, 4) {
        for i in 0..seq_count(kinds.len() as u64, l) {
            jobs.push(seq_of(i, kinds.len() as u64, l).into_iter().map(|k| kinds[k]).collect());
        }
    }
    for n in [big - 1, big, big + 1, 2 * big, 2 * big + 1] {
        jobs.push(vec![(None, n)]);
        jobs.push(vec![(Some(1), 1), (None, n), (Some(2), 2)]);
    }
    run.bound("round trips", format!("{} account lists incl. storage of {big}-1 .. 2*{big}+1 slots, each with 1 and 3 headers", jobs.len()));
    par(run, jobs.len() * 2, |i| {
        let (kinds, nh) = (&jobs[i / 2], if i % 2 == 0 { 1 } else { 3 });
        let s = Scratch::new();
        let dir = s.path().join("snap");
        let headers: Vec<ExecHeader> = (0..nh).map(|k| header(nh - k, 9 + k)).collect();
        let accounts: Vec<_> = kinds.iter().enumerate().map(|(i, (c, n))| mk_account(i as u8 + 1, *c, *n)).collect();
        let what = format!("accounts (code, slots) {kinds:?}, {nh} headers");
        let r = guarded(|| -> Result<(), String> {
            let e = |x: tn_storage::exec_state_pack::ExecStatePackError| x.to_string();
            let mut w = ExecStatePackWriter::create(&dir, headers[0].state_root, &headers).map_err(e)?;
            for a in &accounts {
                w.append_account(a).map_err(e)?;
            }
            let stats = w.finish().map_err(e)?;
            let slots: u64 = kinds.iter().map(|k| k.1 as u64).sum();
            let codes = kinds.iter().filter(|k| k.0.unwrap_or(0) > 0).count() as u64;
            if (stats.account_count, stats.storage_slots, stats.bytecodes) != (kinds.len() as u64, slots, codes) {
                return Err(format!("writer tallies {stats:?}"));
            }
            let rep = ExecStatePackReader::verify(&dir).map_err(e)?;
            if (rep.header_count as u64, rep.account_count, rep.storage_slots, rep.bytecodes) != (nh, kinds.len() as u64, slots, codes) {
                return Err(format!("verification report {rep:?}"));
            }
            let mut r = ExecStatePackReader::open(&dir).map_err(e)?;
            if r.headers() != headers || r.meta().state_root != headers[0].state_root || r.meta().block_hash != headers[0].hash_slow() {
                return Err("headers or meta differ".into());
            }
            let back: Vec<_> = r.accounts().collect::<Result<_, _>>().map_err(e)?;
            if back != accounts {
                return Err("accounts differ".into());
            }
            let mut r = ExecStatePackReader::open(&dir).map_err(e)?;
            let mut back: Vec<(Address, u64, U256, Option<Bytes>, Vec<(B256, B256)>)> = vec![];
            while let Some(x) = r.next_entry() {
                match x.map_err(e)? {
                    StateEntry::Account(a) => back.push((a.address, a.nonce, a.balance, a.code, vec![])),
                    StateEntry::Storage(c) => {
                        if c.is_empty() || c.len() > STORAGE_CHUNK_SLOTS {
                            return Err(format!("chunk of {} slots", c.len()));
                        }
                        back.last_mut().ok_or("storage before any account")?.4.extend(c);
                    }
                }
            }
            let want: Vec<_> = accounts
                .iter()
                .map(|a| {
                    let st: Vec<_> = a.account.storage.clone().unwrap_or_default().into_iter().collect();
                    (a.address, a.account.nonce.unwrap(), a.account.balance, a.account.code.clone(), st)
                })
                .collect();
            if back != want {
                return Err("chunked walk differs".into());
            }
            Ok(())
        });
        if let Err(e) = r.and_then(|x| x) {
            run.fail("roundtrip", format!("{what}: {e}"), what.clone());
        }
        run.state(&(kinds, nh));
        run.step(kinds.len() as u64);
        run.trace();
    });
    // the chunk bound, on both sides
    for n in [big - 1, big, big + 1] {
        let s = Scratch::new();
        let slots: Vec<_> = (0..n as u64).map(|k| (b(k), b(1))).collect();
        let dir = s.path().join("w");
        let h = [header(1, 9)];
        let mut w = ExecStatePackWriter::create(&dir, b(9), &h).unwrap();
        w.append_account_header(Address::ZERO, 0, U256::ZERO, None).unwrap();
        let ok = w.append_storage_chunk(&slots).is_ok();
        if ok != (n <= big) {
            run.fail("chunk", format!("writer took a chunk of {n} slots: {ok}"), format!("{n}"));
        }
        let st = w.finish().unwrap();
        if st.storage_slots != if ok { n as u64 } else { 0 } {
            run.fail("chunk", format!("tally {} after a chunk of {n}", st.storage_slots), format!("{n}"));
        }
        let dir = s.path().join("r");
        let recs = vec![
            Rec::Meta(Meta { state_root: b(9), block_number: 1, block_hash: h[0].hash_slow(), header_count: 1 }),
            Rec::Header(rlp(&h[0])),
            Rec::Account(acct(1, None)),
            Rec::Storage(slots),
            Rec::End(Stats { account_count: 1, storage_slots: n as u64, bytecodes: 0 }),
        ];
        write_raw(&dir, &recs);
        let v = ExecStatePackReader::verify(&dir).is_ok();
        let mut r = ExecStatePackReader::open(&dir).unwrap();
        let a = r.accounts().take(50).all(|x| x.is_ok());
        let mut r = ExecStatePackReader::open(&dir).unwrap();
        let e = std::iter::from_fn(|| r.next_entry()).take(50).all(|x| x.is_ok());
        if [v, a, e] != [n <= big; 3] {
            run.fail("chunk", format!("reader accepts a chunk of {n} slots: verify {v}, accounts {a}, entries {e}"), format!("{n}"));
        }
        run.step(4);
        run.trace();
    }
    // a slot given twice: both walks agree on its value
    for chunks in [vec![vec![(1, 2), (1, 3)]], vec![vec![(1, 2)], vec![(1, 3)]], vec![vec![(1, 0), (2, 5)], vec![(2, 0), (1, 4)]], vec![vec![(2, 1), (1, 1)], vec![(1, 0)]]] {
        let s = Scratch::new();
        let mut recs = vec![
            Rec::Meta(Meta { state_root: b(9), block_number: 1, block_hash: header(1, 9).hash_slow(), header_count: 1 }),
            Rec::Header(rlp(&header(1, 9))),
            Rec::Account(acct(1, None)),
        ];
        recs.extend(chunks.iter().map(|c| Rec::Storage(c.iter().map(|(k, v)| (b(*k), b(*v))).collect())));
        recs.push(Rec::End(Stats { account_count: 1, storage_slots: 2, bytecodes: 0 }));
        write_raw(s.path(), &recs);
        let whole: Option<Vec<_>> = ExecStatePackReader::open(s.path()).unwrap().accounts().map(|a| a.ok()).collect();
        let mut r = ExecStatePackReader::open(s.path()).unwrap();
        let mut parts: Option<BTreeMap<B256, B256>> = Some(BTreeMap::new());
        while let Some(x) = r.next_entry() {
            match (x, &mut parts) {
                (Ok(StateEntry::Storage(c)), Some(m)) => m.extend(c),
                (Ok(_), _) => {}
                (Err(_), p) => *p = None,
            }
        }
        let whole = whole.map(|mut a| a.remove(0).account.storage.unwrap_or_default());
        if whole != parts {
            run.fail("twice", format!("as a whole {whole:?}, in parts {parts:?}"), format!("{chunks:?}"));
        }
        run.step(2);
        run.trace();
    }
    // a snapshot header that contradicts the root, or none at all, is refused when writing
    let s = Scratch::new();
    if ExecStatePackWriter::create(s.path().join("a"), b(9), &[]).is_ok() {
        run.fail("create", "a snapshot without headers was created", "");
    }
    if ExecStatePackWriter::create(s.path().join("b"), b(8), &[header(1, 9), header(0, 8)]).is_ok() {
        run.fail("create", "a snapshot whose first header has another state root was created", "");
    }
    // an abandoned writer leaves nothing that verifies
    for n in 0..3u8 {
        let dir = s.path().join(format!("c{n}"));
        let mut w = ExecStatePackWriter::create(&dir, b(9), &[header(1, 9)]).unwrap();
        for i in 0..n {
            w.append_account(&mk_account(i, None, 2)).unwrap();
        }
        drop(w);
        if ExecStatePackReader::verify(&dir).is_ok() {
            run.fail("unfinished", format!("a snapshot never finished ({n} accounts) verifies"), format!("{n}"));
        }
    }
}

fn damage(run: &Run) {
    let s = Scratch::new();
    let dir = s.path().join("good");
    let headers = [header(2, 9), header(1, 8)];
    let mut w = ExecStatePackWriter::create(&dir, b(9), &headers).unwrap();
    for (i, c, n) in [(1u8, None, 0usize), (2, Some(40), 3), (3, None, 1)] {
        w.append_account(&mk_account(i, c, n)).unwrap();
    }
    w.finish().unwrap();
    let good = fs::read(dir.join("state_data")).unwrap();
    run.bound("damage", format!("every truncation and every bit flip of a {} byte snapshot", good.len()));
    let n = good.len();
    par(run, n * 9, |i| {
        let sc = Scratch::new();
        let mut x = good.clone();
        let (at, bit) = (i / 9, i % 9);
        if bit == 8 {
            x.truncate(at);
        } else {
            x[at] ^= 1 << bit;
        }
        fs::write(sc.path().join("state_data"), &x).unwrap();
        let what = if bit == 8 { format!("cut to {at} of {n} bytes") } else { format!("bit {bit} of byte {at} flipped") };
        match guarded(|| ExecStatePackReader::verify(sc.path()).is_ok()) {
            Ok(false) => {}
            Ok(true) => run.fail("damage", format!("{what}: still verifies"), what.clone()),
            Err(e) => run.fail("damage", format!("{what}: {e}"), what.clone()),
        }
        let r = guarded(|| {
            let Ok(mut r) = ExecStatePackReader::open(sc.path()) else { return true };
            let v: Vec<_> = r.accounts().take(50).collect();
            let Ok(mut r) = ExecStatePackReader::open(sc.path()) else { return false };
            let e: Vec<_> = std::iter::from_fn(|| r.next_entry()).take(50).collect();
            // one error, and nothing after it
            v.iter().position(|x| x.is_err()) == v.len().checked_sub(1) && !v.is_empty() && e.iter().position(|x| x.is_err()) == e.len().checked_sub(1) && !e.is_empty()
        });
        if r != Ok(true) {
            run.fail("damage", format!("{what}: the walk over the accounts or the entries does not end with the one error ({r:?})"), what);
        }
        run.state(&(at, bit));
        run.step(1);
        run.trace();
    });
}

pub fn s05(run: &Run) {
    streams(run);
    header_counts(run);
    round_trips(run);
    damage(run);
    run.sample("Meta1 H A1 S E1 -> open, verify and walk succeed; Meta1 H A1 S -> walk ends in an error");
}

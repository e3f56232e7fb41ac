//! N06: what the gateway answers itself, its configuration and its accounts.
use http_body_util::BodyExt;
use metrics_exporter_prometheus::PrometheusBuilder;
use serde_json::{json, Value};
use std::{collections::BTreeMap, time::Duration};
use tn_worker_gateway::{
    config::{GatewayConfig, UpstreamWorker},
    error::{error_response, error_response_with_id, GatewayError, RequestId},
    telemetry::{self, RequestInFlight},
};
use vlib::{explore::{permutations, seq_count, seq_of}, par, Run, Scratch};

pub type Kind = (fn() -> GatewayError, u16, i64, &'static str, &'static str);
pub const KINDS: [Kind; 10] = [
    (|| GatewayError::NoUpstreamReady, 503, -32000, "no_upstream_ready", "no upstream worker is ready"),
    (|| GatewayError::UpstreamUnreachable, 502, -32001, "upstream_unreachable", "upstream worker unreachable"),
    (|| GatewayError::UpstreamTimeout, 504, -32002, "upstream_timeout", "upstream worker request timed out"),
    (|| GatewayError::RequestTooLarge, 413, -32003, "request_too_large", "request body too large"),
    (|| GatewayError::LoopDetected, 508, -32004, "loop_detected", "proxy loop detected: request already passed through a worker gateway"),
    (|| GatewayError::RequestTimeout, 408, -32005, "request_timeout", "request did not complete within the gateway's deadline"),
    (|| GatewayError::RateLimited, 429, -32006, "rate_limited", "rate limit exceeded; slow down and retry"),
    (|| GatewayError::InvalidTransaction, 400, -32007, "invalid_transaction", "raw transaction could not be decoded"),
    (|| GatewayError::UnsupportedTransactionType, 400, -32008, "unsupported_transaction_type", "unsupported transaction type: EIP-4844 blob transactions are not accepted"),
    (|| GatewayError::UnreadableBody, 400, -32600, "unreadable_body", "request body could not be read"),
];

pub struct Answer {
    pub status: u16,
    pub content_type: Option<String>,
    pub body: Vec<u8>,
}

pub fn read(r: axum::response::Response) -> Answer {
    let status = r.status().as_u16();
    let content_type = r.headers().get("content-type").and_then(|v| v.to_str().ok()).map(String::from);
    let body = futures::executor::block_on(r.into_body().collect()).map(|b| b.to_bytes().to_vec()).unwrap_or_default();
    Answer { status, content_type, body }
}

/// What is wrong with an answer that should be the gateway's own error of a kind with this id.
pub fn wrong(a: &Answer, kind: &Kind, id: &Value) -> Option<String> {
    let want = json!({"jsonrpc": "2.0", "error": {"code": kind.2, "message": kind.4}, "id": id});
    let got: Value = match serde_json::from_slice(&a.body) {
        Ok(v) => v,
        Err(e) => return Some(format!("the body is not JSON: {e}: {:?}", String::from_utf8_lossy(&a.body))),
    };
    if a.status != kind.1 {
        return Some(format!("status {}, expected {}", a.status, kind.1));
    }
    if a.content_type.as_deref() != Some("application/json") {
        return Some(format!("content type {:?}", a.content_type));
    }
    (got != want).then(|| format!("body {got}, expected {want}"))
}

/// Every counter and gauge a recorder shows, by name and labels.
pub fn shown(h: &metrics_exporter_prometheus::PrometheusHandle) -> BTreeMap<String, f64> {
    h.render().lines().filter(|l| !l.starts_with('#') && !l.is_empty()).filter_map(|l| l.rsplit_once(' ').map(|(k, v)| (k.to_string(), v.parse().unwrap_or(f64::NAN)))).collect()
}

/// Bodies with the id a caller must see again.
fn bodies(run: &Run) -> Vec<(String, Value)> {
    let ids = [
        "0", "1", "-1", "18446744073709551615", "-9223372036854775808", "1.5", "\"\"", "\"tx-7\"", "\"a\\\"b\\u00e9\\n\"", "null", "true", "[1,\"id\"]", "{\"id\":2}",
    ];
    let deep = format!("{}1{}", "[".repeat(2_000), "]".repeat(2_000));
    let params = ["[]".to_string(), "[\"0xdead\"]".into(), "{\"id\":99}".into(), "[{\"id\":\"inner\"}]".into(), "\"id\"".into(), deep];
    let mut out = Vec::new();
    for id in ids {
        let v: Value = serde_json::from_str(id).expect("id");
        for p in &params {
            let members = [format!("\"id\":{id}"), "\"jsonrpc\":\"2.0\"".to_string(), "\"method\":\"eth_chainId\"".into(), format!("\"params\":{p}")];
            for perm in permutations(4) {
                out.push((format!("{{{}}}", perm.iter().map(|i| members[*i].clone()).collect::<Vec<_>>().join(",")), v.clone()));
            }
            // the name spelt with escapes, blanks around everything, other members that look like it
            out.push((format!("{{\"\\u0069d\":{id},\"params\":{p}}}"), v.clone()));
            out.push((format!(" \n{{ \"ID\" : 7 , \"params\" : {p} , \"id\" : {id} , \"id2\" : 8 }}\t"), v.clone()));
            // given twice, the last counts
            for other in ["5", "null", "\"x\""] {
                out.push((format!("{{\"id\":{other},\"params\":{p},\"id\":{id}}}"), v.clone()));
            }
            // not a single call
            out.push((format!("[{{\"id\":{id},\"params\":{p}}}]"), Value::Null));
            out.push((format!("{{\"params\":{p},\"nested\":{{\"id\":{id}}}}}"), Value::Null));
            out.push((format!("{{\"id\":{id},\"params\":{p}}}x"), Value::Null));
        }
        out.push((id.to_string(), if id.starts_with('{') { json!(2) } else { Value::Null }));
    }
    for junk in ["", " ", "id", "{", "}", "{}", "[]", "{\"id\"}", "{\"id\":}", "{id:1}", "{\"id\":1,}", "{\"id\":01}", "{'id':1}", "\u{feff}{\"id\":1}", "{\"id\":1}{\"id\":2}", "nul", "\"id\""] {
        out.push((junk.to_string(), Value::Null));
    }
    run.bound("request bodies", format!("{} bodies: members in every order, ids of every JSON type, repeated, escaped, nested, deep and malformed ones, and every truncation", out.len()));
    out
}

fn errors(run: &Run) {
    let all = bodies(run);
    par(run, all.len(), |n| {
        let (body, id) = &all[n];
        let rec = PrometheusBuilder::new().build_recorder();
        let h = rec.handle();
        metrics::with_local_recorder(&rec, || {
            for (k, kind) in KINDS.iter().enumerate() {
                let before = shown(&h);
                let a = if (n + k) % 2 == 0 { read(error_response(&kind.0(), body.as_bytes())) } else { read(error_response_with_id(&kind.0(), RequestId::recover(body.as_bytes()))) };
                run.step(1);
                if let Some(w) = wrong(&a, kind, id) {
                    run.fail("answer", w, format!("{} for the body {:.300}", kind.3, body));
                    return;
                }
                let mut want = before;
                *want.entry("tn_worker_gateway_requests_total{outcome=\"rejected\"}".into()).or_default() += 1.0;
                *want.entry(format!("tn_worker_gateway_rejections_total{{reason=\"{}\"}}", kind.3)).or_default() += 1.0;
                let now = shown(&h);
                if now != want {
                    run.fail("counted", format!("shown after one rejection: {now:?}, expected {want:?}"), kind.3);
                    return;
                }
            }
        });
        // cut anywhere, a call is no longer one
        let t = body.trim_end();
        if t.starts_with('{') && t.len() < 300 && serde_json::from_str::<Value>(t).is_ok() {
            for cut in 0..t.len() {
                let got = RequestId::recover(&t.as_bytes()[..cut]);
                run.step(1);
                if got != RequestId::from_request(&Value::Null) {
                    run.fail("cut", format!("{got:?} recovered from a truncated body"), &t[..cut]);
                    return;
                }
            }
        }
        if let Ok(v) = serde_json::from_str::<Value>(body) {
            let got = RequestId::from_request(&v);
            if got != RequestId::from_request(&json!({"id": id})) || format!("{got:?}") != format!("{:?}", RequestId::recover(body.as_bytes())) {
                run.fail("parsed-id", format!("{got:?} of a parsed request, expected {id}"), body.as_str());
            }
        }
        run.state(body);
        run.trace();
    });
}

/// Every way of entering and leaving requests: the gauge is the number inside, durations what the clock says.
fn inflight(run: &Run) {
    let depth = run.pick(6, 8);
    let n = seq_count(5, depth);
    run.bound("in flight", format!("every sequence of {depth} of: enter, leave the oldest, leave the newest, wait, count a forward"));
    let chunks = 64;
    par(run, chunks, |part| {
        let mut i = part as u64;
        while i < n {
            let ops = seq_of(i, 5, depth);
            i += chunks as u64;
            vstd::clock::reset();
            let rec = PrometheusBuilder::new().build_recorder();
            let h = rec.handle();
            metrics::with_local_recorder(&rec, || {
                let mut inside: Vec<(RequestInFlight, Duration)> = Vec::new();
                let (mut left, mut total, mut forwarded, mut entered) = (0u64, 0.0, 0u64, false);
                for (s, op) in ops.iter().enumerate() {
                    match op {
                        0 => {
                            inside.push((RequestInFlight::enter(), vstd::clock::now()));
                            entered = true;
                        }
                        1 | 2 if !inside.is_empty() => {
                            let k = if *op == 1 { 0 } else { inside.len() - 1 };
                            let (g, at) = inside.remove(k);
                            total += (vstd::clock::now() - at).as_secs_f64();
                            left += 1;
                            drop(g);
                        }
                        3 => vstd::clock::advance(Duration::from_millis(250 << s)),
                        4 => {
                            telemetry::record_forwarded();
                            forwarded += 1;
                        }
                        _ => {}
                    }
                }
                run.step(depth as u64);
                run.state(&(inside.len(), left, forwarded, total.to_bits()));
                let got = shown(&h);
                let mut want: BTreeMap<String, f64> = BTreeMap::new();
                if entered {
                    want.insert("tn_worker_gateway_inflight_requests".into(), inside.len() as f64);
                }
                if forwarded > 0 {
                    want.insert("tn_worker_gateway_requests_total{outcome=\"forwarded\"}".into(), forwarded as f64);
                }
                if left > 0 {
                    want.insert("tn_worker_gateway_request_duration_seconds_count".into(), left as f64);
                    want.insert("tn_worker_gateway_request_duration_seconds_sum".into(), total);
                }
                let got: BTreeMap<String, f64> = got.into_iter().filter(|(k, _)| !k.contains("quantile")).collect();
                if got != want {
                    run.fail("in-flight", format!("shown {got:?}, expected {want:?}"), format!("{ops:?} (0 enter, 1 leave oldest, 2 leave newest, 3 wait, 4 forwarded)"));
                }
            });
            run.trace();
            if run.stop() {
                return;
            }
        }
    });
    // readiness is shown per worker, as last set
    for i in 0..seq_count(6, 5) {
        let rec = PrometheusBuilder::new().build_recorder();
        let h = rec.handle();
        let mut want = BTreeMap::new();
        metrics::with_local_recorder(&rec, || {
            for op in seq_of(i, 6, 5) {
                let (id, ready) = ([0u16, 1, u16::MAX][op / 2], op % 2 == 1);
                telemetry::set_upstream_ready(id, ready);
                want.insert(format!("tn_worker_gateway_upstream_ready{{worker_id=\"{id}\"}}"), f64::from(ready as u8));
                run.step(1);
            }
        });
        if shown(&h) != want {
            run.fail("ready-gauge", format!("shown {:?}, expected {want:?}", shown(&h)), format!("sequence {i}"));
            return;
        }
        run.trace();
    }
}

fn config(run: &Run) {
    let dir = Scratch::new();
    let path = dir.path().join("gateway.yaml");
    let load = |text: Option<&str>| {
        let _ = std::fs::remove_file(&path);
        if let Some(t) = text {
            std::fs::write(&path, t).expect("write");
        }
        GatewayConfig::load(&path)
    };
    if load(None).is_ok() {
        run.fail("config-missing", "a missing file loads", "");
    }
    if path.exists() {
        run.fail("config-created", "loading a missing file creates it", "");
    }
    // every list of up to three upstreams, with right and wrong values in every place
    let ids = [("0", Some(0u16)), ("1", Some(1)), ("65535", Some(65535)), ("65536", None), ("-1", None), ("x", None)];
    let urls = [("http://127.0.0.1:8545", true), ("http://localhost:8545/a?b=c", true), ("not a url", false), ("//host", false)];
    let mut one: Vec<(String, Option<UpstreamWorker>)> = Vec::new();
    for (it, iv) in ids {
        for (rt, rv) in urls {
            for (qt, qv) in urls {
                let v = (iv.is_some() && rv && qv).then(|| UpstreamWorker { worker_id: iv.expect("id"), rpc_url: rt.parse().expect("url"), readiness_url: qt.parse().expect("url") });
                one.push((format!("- worker_id: {it}\n  rpc_url: {rt}\n  readiness_url: {qt}\n"), v));
            }
        }
    }
    for absent in 0..3 {
        let m = ["worker_id: 1", "rpc_url: http://a", "readiness_url: http://b"];
        let rest: Vec<&str> = m.iter().enumerate().filter(|(i, _)| *i != absent).map(|(_, s)| *s).collect();
        one.push((format!("- {}\n", rest.join("\n  ")), None));
    }
    let good: Vec<_> = one.iter().filter(|(_, v)| v.is_some()).cloned().collect();
    let mut files: Vec<(String, Option<Vec<UpstreamWorker>>)> = vec![("{}\n".into(), Some(vec![])), ("upstreams: []\n".into(), Some(vec![])), ("upstreams: 3\n".into(), None), ("upstreams\n".into(), None), ("[\n".into(), None)];
    for (t, v) in &one {
        files.push((format!("upstreams:\n{t}"), v.clone().map(|v| vec![v])));
        for (t2, v2) in &good {
            files.push((format!("upstreams:\n{t}{t2}"), v.clone().map(|v| vec![v, v2.clone().expect("good")])));
            files.push((format!("upstreams:\n{t2}{t}"), v.clone().map(|v| vec![v2.clone().expect("good"), v])));
        }
    }
    run.bound("configuration files", format!("{} files: one or two upstreams with every right and wrong value of each member, and members left out", files.len()));
    let same = |a: &UpstreamWorker, b: &UpstreamWorker| a.worker_id == b.worker_id && a.rpc_url == b.rpc_url && a.readiness_url == b.readiness_url;
    for (text, want) in files {
        let got = load(Some(&text)).ok().map(|c| c.upstreams);
        run.step(1);
        run.state(&text);
        let ok = match (&got, &want) {
            (Some(g), Some(w)) => g.len() == w.len() && g.iter().zip(w).all(|(a, b)| same(a, b)),
            (None, None) => true,
            _ => false,
        };
        if !ok {
            run.fail("config", format!("loads as {got:?}, expected {want:?}"), text);
            return;
        }
        if std::fs::read_to_string(&path).unwrap_or_default() != text {
            run.fail("config-rewritten", "loading changes the file", text);
            return;
        }
        run.trace();
    }
}

pub fn n06(run: &Run) {
    errors(run);
    inflight(run);
    config(run);
}

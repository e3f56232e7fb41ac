//! N08: what reaches an upstream worker, which one, and what the client is told.
use crate::answers::{shown, wrong, Answer, Kind, KINDS};
use alloy::{
    consensus::{BlobTransactionSidecar, SignableTransaction, TxEip1559, TxEip2930, TxEip4844, TxEip4844WithSidecar, TxEip7702, TxLegacy},
    eips::eip2718::Encodable2718,
    primitives::{Bytes, Signature, TxKind, U256},
};
use axum::{
    body::Body,
    extract::{ConnectInfo, State},
    http::{HeaderMap, Method, Request, StatusCode, Uri},
    response::Response,
    Router,
};
use clap::Parser;
use http_body_util::BodyExt;
use metrics_exporter_prometheus::{PrometheusBuilder, PrometheusHandle};
use serde_json::{json, Value};
use std::{
    collections::BTreeMap,
    net::SocketAddr,
    num::NonZeroU32,
    sync::{
        atomic::{AtomicU64, Ordering::SeqCst},
        Arc, Mutex,
    },
    time::Duration,
};
use tn_types::Notifier;
use tn_worker_gateway::{
    cli::Cli,
    config::UpstreamWorker,
    ratelimit::{PrefixPolicy, RateLimit, RateLimiters},
    readiness::{run_poller, GatewayReadiness},
    server::{router, AppState},
};
use tower::ServiceExt;
use vlib::{explore::{seq_count, seq_of}, Run};

const MAX_BODY: usize = 4096;

fn kind(reason: &str) -> &'static Kind {
    KINDS.iter().find(|k| k.3 == reason).expect("kind")
}

#[derive(Clone, Debug, PartialEq)]
struct Seen {
    method: Method,
    uri: String,
    headers: BTreeMap<String, Vec<u8>>,
    body: Vec<u8>,
}

#[derive(Clone)]
enum Ready {
    Text(u16, String),
    Hang,
}
#[derive(Clone)]
enum Rpc {
    Reply(u16, Option<&'static str>, Vec<u8>),
    Hang,
}

/// A worker: answers the readiness poll and calls as it is told, and keeps what it was sent.
struct Worker {
    id: u16,
    addr: SocketAddr,
    ready: Mutex<Ready>,
    rpc: Mutex<Rpc>,
    polls: AtomicU64,
    seen: Mutex<Vec<Seen>>,
}

impl Worker {
    async fn start(id: u16) -> Arc<Self> {
        let l = tokio::net::TcpListener::bind(("127.0.0.1", 0)).await.expect("bind");
        let w = Arc::new(Self {
            id,
            addr: l.local_addr().expect("addr"),
            ready: Mutex::new(Ready::Text(503, String::new())),
            rpc: Mutex::new(Rpc::Reply(200, Some("application/json"), b"{}".to_vec())),
            polls: AtomicU64::new(0),
            seen: Mutex::default(),
        });
        let app = Router::new().fallback(serve_worker).with_state(w.clone());
        tokio::spawn(async move {
            let _ = axum::serve(l, app).await;
        });
        w
    }
    fn entry(&self) -> UpstreamWorker {
        UpstreamWorker {
            worker_id: self.id,
            rpc_url: format!("http://{}/rpc/base?k=v", self.addr).parse().expect("url"),
            readiness_url: format!("http://{}/health/workers", self.addr).parse().expect("url"),
        }
    }
    fn set(&self, ready: bool) {
        *self.ready.lock().expect("lock") = Ready::Text(200, json!({"version": 1, "workers": [{"worker_id": self.id, "accepting_transactions": ready}]}).to_string());
    }
    fn take(&self) -> Vec<Seen> {
        std::mem::take(&mut self.seen.lock().expect("lock"))
    }
}

async fn serve_worker(State(w): State<Arc<Worker>>, method: Method, uri: Uri, headers: HeaderMap, body: Body) -> Response {
    if uri.path() == "/health/workers" && method == Method::GET {
        let r = w.ready.lock().expect("lock").clone();
        w.polls.fetch_add(1, SeqCst);
        return match r {
            Ready::Text(status, text) => {
                let mut r = Response::new(Body::from(text));
                *r.status_mut() = StatusCode::from_u16(status).expect("status");
                r
            }
            Ready::Hang => std::future::pending().await,
        };
    }
    let body = body.collect().await.map(|b| b.to_bytes().to_vec()).unwrap_or_default();
    let headers = headers.iter().map(|(k, v)| (k.to_string(), v.as_bytes().to_vec())).collect();
    w.seen.lock().expect("lock").push(Seen { method, uri: uri.to_string(), headers, body });
    let rpc = w.rpc.lock().expect("lock").clone();
    match rpc {
        Rpc::Reply(status, ct, body) => {
            let mut r = Response::new(Body::from(body));
            *r.status_mut() = StatusCode::from_u16(status).expect("status");
            if let Some(ct) = ct {
                r.headers_mut().insert("content-type", ct.parse().expect("ct"));
            }
            r.headers_mut().insert("set-cookie", "secret=1".parse().expect("hv"));
            r.headers_mut().insert("x-upstream", "1".parse().expect("hv"));
            r
        }
        Rpc::Hang => std::future::pending().await,
    }
}

struct Gateway {
    readiness: Arc<GatewayReadiness>,
    state: AppState,
    shutdown: Notifier,
    handle: PrometheusHandle,
}

impl Gateway {
    fn start(upstreams: &[UpstreamWorker], call_timeout: Duration, handle: PrometheusHandle) -> Self {
        let readiness = Arc::new(GatewayReadiness::new(upstreams));
        let http = reqwest::Client::builder().connect_timeout(Duration::from_secs(2)).timeout(call_timeout).build().expect("client");
        let polls = reqwest::Client::builder().connect_timeout(Duration::from_secs(2)).build().expect("client");
        let shutdown = Notifier::new();
        tokio::spawn(run_poller(readiness.clone(), polls, Duration::from_millis(1), Duration::from_secs(5), shutdown.subscribe()));
        Self { state: AppState { readiness: readiness.clone(), http }, readiness, shutdown, handle }
    }
    fn app(&self) -> Router {
        router(self.state.clone(), Duration::from_secs(20), MAX_BODY, None)
    }
    /// Lets the poller finish two rounds that began after now.
    async fn settle(&self, workers: &[Arc<Worker>]) {
        for _ in 0..2 {
            for w in workers {
                let at = w.polls.load(SeqCst);
                while w.polls.load(SeqCst) <= at {
                    tokio::time::sleep(Duration::from_micros(200)).await;
                }
            }
        }
        // the answer to the last poll is taken in once the next one arrives
        if let Some(w) = workers.first() {
            let at = w.polls.load(SeqCst);
            while w.polls.load(SeqCst) <= at {
                tokio::time::sleep(Duration::from_micros(200)).await;
            }
        }
    }
}
impl Drop for Gateway {
    fn drop(&mut self) {
        self.shutdown.notify();
    }
}

fn peer() -> SocketAddr {
    "203.0.113.9:4444".parse().expect("addr")
}

fn post(body: impl Into<Body>) -> Request<Body> {
    request(Method::POST, "/", &[("content-type", b"application/json")], peer(), body.into())
}

fn request(method: Method, uri: &str, headers: &[(&str, &[u8])], peer: SocketAddr, body: Body) -> Request<Body> {
    let mut r = Request::builder().method(method).uri(uri);
    for (k, v) in headers {
        r = r.header(*k, axum::http::HeaderValue::from_bytes(v).expect("header"));
    }
    let mut r = r.body(body).expect("request");
    r.extensions_mut().insert(ConnectInfo(peer));
    r
}

async fn ask(app: &Router, r: Request<Body>) -> (Answer, HeaderMap) {
    let r = app.clone().oneshot(r).await.expect("infallible");
    let (status, headers) = (r.status().as_u16(), r.headers().clone());
    let content_type = headers.get("content-type").and_then(|v| v.to_str().ok()).map(String::from);
    let body = r.into_body().collect().await.map(|b| b.to_bytes().to_vec()).unwrap_or_default();
    (Answer { status, content_type, body }, headers)
}

fn total(h: &PrometheusHandle, what: &str) -> f64 {
    shown(h).into_iter().filter(|(k, _)| k.starts_with(what)).map(|(_, v)| v).sum()
}
const ALL: &str = "tn_worker_gateway_requests_total";
const FORWARDED: &str = "tn_worker_gateway_requests_total{outcome=\"forwarded\"}";

/// Readiness answers and whether worker 1 is ready by them.
fn payloads() -> Vec<(Ready, bool)> {
    let w = |id: Value, a: Value| json!({"worker_id": id, "accepting_transactions": a});
    let env = |v: Value, ws: Vec<Value>| json!({"version": v, "workers": ws}).to_string();
    let mut out = vec![];
    let t = json!(true);
    let f = json!(false);
    let mut add = |text: String, ready: bool| {
        for status in [200u16, 404, 500, 503] {
            out.push((Ready::Text(status, text.clone()), ready && status == 200));
        }
    };
    for v in [json!(1), json!(2), json!(0), json!(u32::MAX)] {
        add(env(v.clone(), vec![w(json!(1), t.clone())]), true);
        add(env(v.clone(), vec![w(json!(1), f.clone())]), false);
    }
    add(env(json!(1), vec![]), false);
    add(env(json!(1), vec![w(json!(0), t.clone()), w(json!(2), t.clone())]), false);
    add(env(json!(1), vec![w(json!(0), f.clone()), w(json!(1), t.clone()), w(json!(2), f.clone())]), true);
    add(env(json!(1), vec![w(json!(0), t.clone()), w(json!(1), f.clone()), w(json!(2), t.clone())]), false);
    for a in [json!(1), json!("true"), Value::Null, json!([true])] {
        add(env(json!(1), vec![w(json!(1), a)]), false);
    }
    for id in [json!("1"), json!(65537), json!(-1), Value::Null] {
        add(env(json!(1), vec![w(id, t.clone())]), false);
    }
    add(json!({"version": 1, "workers": [{"worker_id": 1, "accepting_transactions": true, "extra": {"a": []}}], "more": 3}).to_string(), true);
    add(json!({"version": 1, "workers": [{"worker_id": 1}]}).to_string(), false);
    add(json!({"workers": [{"worker_id": 1, "accepting_transactions": true}]}).to_string(), false);
    add(json!({"version": 1}).to_string(), false);
    add(json!([w(json!(1), t.clone())]).to_string(), false);
    for junk in ["", "true", "null", "{", "<html>ready</html>"] {
        add(junk.into(), false);
    }
    let good = env(json!(1), vec![w(json!(1), t)]);
    for cut in 0..good.len() {
        out.push((Ready::Text(200, good[..cut].into()), false));
    }
    out
}

async fn polling(run: &Run, h: PrometheusHandle) {
    let w = Worker::start(1).await;
    let g = Gateway::start(&[w.entry()], Duration::from_secs(20), h);
    let app = g.app();
    let ws = [w.clone()];
    let all = payloads();
    run.bound("readiness answers", format!("{} answers: each member right, wrong or missing, every status class, every truncation, no answer; from ready and from not ready", all.len()));
    for (payload, want) in all {
        for before in [true, false] {
            w.set(before);
            g.settle(&ws).await;
            if g.readiness.any_ready() != before {
                run.fail("ready", format!("a worker saying accepting_transactions={before} is taken as ready={}", !before), "plain envelope");
                return;
            }
            *w.ready.lock().expect("lock") = payload.clone();
            let Ready::Text(s, t) = &payload else { continue };
            let text = format!("status {s}: {t}");
            g.settle(&ws).await;
            let (a, _) = ask(&app, request(Method::GET, "/ready", &[], peer(), Body::empty())).await;
            let got = (g.readiness.any_ready(), a.status, serde_json::from_slice::<Value>(&a.body).unwrap_or_default());
            if got != (want, if want { 200 } else { 503 }, json!({"ready": want})) {
                run.fail("ready", format!("ready, status and body of /ready are {got:?}, expected ready={want}"), text);
                return;
            }
            let (a, _) = ask(&app, request(Method::GET, "/health", &[], peer(), Body::empty())).await;
            if a.status != 200 {
                run.fail("health", format!("/health answers {}", a.status), text);
                return;
            }
            if shown(&g.handle).get("tn_worker_gateway_upstream_ready{worker_id=\"1\"}") != Some(&f64::from(want as u8)) {
                run.fail("ready-gauge", "the gauge differs from the state", text);
                return;
            }
            run.step(3);
            run.state(&(text, before));
            run.trace();
        }
    }
    drop(g);
    // a worker that stops answering polls is not ready any more
    let g = GatewayReadiness::new(&[w.entry()]);
    let g = Arc::new(g);
    let stop = Notifier::new();
    w.set(true);
    tokio::spawn(run_poller(g.clone(), reqwest::Client::new(), Duration::from_millis(1), Duration::from_millis(100), stop.subscribe()));
    while !g.any_ready() {
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
    *w.ready.lock().expect("lock") = Ready::Hang;
    for _ in 0..2_000 {
        if !g.any_ready() {
            break;
        }
        tokio::time::sleep(Duration::from_millis(5)).await;
    }
    if g.any_ready() || g.first_ready_rpc_url().is_some() {
        run.fail("ready-silent", "a worker that has stopped answering polls for 10 s is still ready", "poll timeout 100 ms");
    }
    stop.notify();
    run.trace();
}

/// Three workers: every state of readiness, then every other: calls go to the first ready in the order configured.
async fn choice(run: &Run, h: PrometheusHandle) {
    for ids in [[0u16, 1, 2], [2, 1, 0], [5, 5, 1]] {
        let ws = [Worker::start(ids[0]).await, Worker::start(ids[1]).await, Worker::start(ids[2]).await];
        let entries: Vec<_> = ws.iter().map(|w| w.entry()).collect();
        let g = Gateway::start(&entries, Duration::from_secs(20), h.clone());
        let app = g.app();
        for from in 0..8u32 {
            for to in 0..8u32 {
                for state in [from, to] {
                    for (i, w) in ws.iter().enumerate() {
                        w.set(state >> i & 1 == 1);
                    }
                    g.settle(&ws).await;
                    let first = (0..3).find(|i| state >> i & 1 == 1);
                    let before = shown(&g.handle);
                    let body = json!({"jsonrpc": "2.0", "method": "eth_chainId", "id": state}).to_string();
                    let (a, _) = ask(&app, post(body.clone())).await;
                    let got: Vec<usize> = ws.iter().map(|w| w.take().len()).collect();
                    let what = format!("ready {:?} of workers {ids:?}, before {from:03b}", (0..3).map(|i| state >> i & 1).collect::<Vec<_>>());
                    let want: Vec<usize> = (0..3).map(|i| usize::from(Some(i) == first)).collect();
                    if got != want {
                        run.fail("chosen", format!("requests each worker got: {got:?}, expected {want:?}"), what);
                        return;
                    }
                    if first.is_none() {
                        if let Some(w) = wrong(&a, kind("no_upstream_ready"), &json!(state)) {
                            run.fail("none-ready", w, what);
                            return;
                        }
                    } else if a.status != 200 {
                        run.fail("chosen", format!("status {}", a.status), what);
                        return;
                    }
                    let after = shown(&g.handle);
                    let d = |k: &str| after.get(k).unwrap_or(&0.0) - before.get(k).unwrap_or(&0.0);
                    if (d(FORWARDED), d("tn_worker_gateway_rejections_total{reason=\"no_upstream_ready\"}")) != if first.is_some() { (1.0, 0.0) } else { (0.0, 1.0) } {
                        run.fail("counted", "the request is not counted once under its outcome", what);
                        return;
                    }
                    run.step(1);
                    run.state(&(ids, state));
                }
                run.trace();
            }
        }
    }
    run.bound("readiness states", "every state of three workers followed by every other, for three orders of identifiers, one repeated");
}

async fn fidelity(run: &Run, h: PrometheusHandle) {
    let w = Worker::start(0).await;
    let g = Gateway::start(&[w.entry()], Duration::from_secs(20), h);
    let app = g.app();
    w.set(true);
    g.settle(&[w.clone()]).await;
    let methods = [Method::POST, Method::GET, Method::PUT, Method::DELETE];
    let uris = ["/", "/health/workers?a=b", "/healthz", "/a/../b"];
    let cts: [Option<&[u8]>; 3] = [None, Some(b"application/json"), Some(b"text/plain; charset=utf-8")];
    let xffs: [Option<&[u8]>; 4] = [None, Some(b"1.2.3.4"), Some(b"1.2.3.4, 5.6.7.8"), Some(b"\xff")];
    let peers: [SocketAddr; 3] = [peer(), "[2001:db8::7]:1".parse().expect("addr"), "127.0.0.1:9".parse().expect("addr")];
    let bodies: [Vec<u8>; 5] = [vec![], br#"{"jsonrpc":"2.0","method":"eth_chainId","id":1}"#.to_vec(), (0..=255).collect(), vec![b'x'; MAX_BODY], br#"[{"id":1},{"id":2}]"#.to_vec()];
    let replies: [(u16, Option<&str>, &[u8]); 5] = [
        (200, Some("application/json"), br#"{"jsonrpc":"2.0","result":"0x1","id":1}"#),
        (200, None, b"\x00\xff"),
        (400, Some("text/plain"), b"bad"),
        (500, Some("application/json"), b"{}"),
        (204, None, b""),
    ];
    let mut n = 0u64;
    for method in &methods {
        for (u, uri) in uris.iter().enumerate() {
            for ct in &cts {
                for xff in &xffs {
                    for p in &peers {
                        for (b, body) in bodies.iter().enumerate() {
                            // every reply to every body; the rest of the product takes them in turn
                            let r = replies[(n as usize + b) % replies.len()];
                            n += 1;
                            if !run.thorough() && u > 0 && (n + u as u64) % 4 != 0 {
                                continue;
                            }
                            *w.rpc.lock().expect("lock") = Rpc::Reply(r.0, r.1.map(|s| if s == "text/plain" { "text/plain" } else { "application/json" }), r.2.to_vec());
                            let mut hs: Vec<(&str, &[u8])> = vec![("authorization", b"Bearer x"), ("cookie", b"a=b"), ("host", b"gateway.example"), ("x-forwarded-proto", b"https"), ("x-real-ip", b"9.9.9.9")];
                            if let Some(ct) = ct {
                                hs.push(("content-type", ct));
                            }
                            if let Some(x) = xff {
                                hs.push(("x-forwarded-for", x));
                            }
                            let what = format!("{method} {uri} content-type {:?} x-forwarded-for {:?} from {p}, body {b}, reply {}", ct.map(String::from_utf8_lossy), xff.map(String::from_utf8_lossy), r.0);
                            let before = (total(&g.handle, FORWARDED), total(&g.handle, ALL));
                            let (a, rh) = ask(&app, request(method.clone(), uri, &hs, *p, Body::from(body.clone()))).await;
                            run.step(1);
                            let seen = w.take();
                            if seen.len() != 1 {
                                run.fail("forwarded", format!("the worker got {} requests", seen.len()), what);
                                return;
                            }
                            let s = &seen[0];
                            let hv = |k: &str| s.headers.get(k).map(|v| String::from_utf8_lossy(v).to_string());
                            let chain = match xff.and_then(|x| std::str::from_utf8(x).ok()) {
                                Some(x) => format!("{x}, {}", p.ip()),
                                None => p.ip().to_string(),
                            };
                            let ctw = ct.map_or("application/json".to_string(), |c| String::from_utf8_lossy(c).to_string());
                            let got = (s.method.clone(), s.uri.as_str(), hv("content-type"), hv("x-tn-gateway"), hv("x-forwarded-for"), hv("x-forwarded-proto"));
                            let want = (method.clone(), "/rpc/base?k=v", Some(ctw), Some("1".to_string()), Some(chain), Some("http".to_string()));
                            if got != want {
                                run.fail("sent-on", format!("the worker got {got:?}, expected {want:?}"), what);
                                return;
                            }
                            if s.body != *body {
                                run.fail("sent-body", format!("the body changed: {} bytes of {}", s.body.len(), body.len()), what);
                                return;
                            }
                            if let Some(k) = ["authorization", "cookie", "x-real-ip"].iter().find(|k| s.headers.contains_key(**k)) {
                                run.fail("sent-header", format!("{k} is passed on"), what);
                                return;
                            }
                            if (a.status, a.content_type.as_deref(), a.body.as_slice()) != (r.0, r.1, r.2) {
                                run.fail("answer", format!("the client gets {} {:?} {} bytes, the worker sent {} {:?} {} bytes", a.status, a.content_type, a.body.len(), r.0, r.1, r.2.len()), what);
                                return;
                            }
                            if rh.contains_key("set-cookie") || rh.contains_key("x-upstream") {
                                run.fail("answer-header", "a header of the worker's is passed back", what);
                                return;
                            }
                            if (total(&g.handle, FORWARDED) - before.0, total(&g.handle, ALL) - before.1) != (1.0, 1.0) {
                                run.fail("counted", "a forward is not counted exactly once", what);
                                return;
                            }
                            run.state(&what);
                        }
                        run.trace();
                    }
                }
            }
        }
    }
    // a request that has been through a gateway goes no further, whatever the marker says
    for mark in [&b"1"[..], b"", b"0", b"\xff"] {
        for body in &bodies {
            let before = total(&g.handle, ALL);
            let (a, _) = ask(&app, request(Method::POST, "/", &[("X-TN-Gateway", mark)], peer(), Body::from(body.clone()))).await;
            let id = serde_json::from_slice::<Value>(body).ok().and_then(|v| v.get("id").cloned()).unwrap_or_default();
            let w1 = wrong(&a, kind("loop_detected"), &id);
            if w1.is_some() || !w.take().is_empty() || total(&g.handle, ALL) - before != 1.0 {
                run.fail("loop", format!("a marked request was passed on, answered wrongly or not counted once: {w1:?}"), format!("marker {mark:?} body {}", body.len()));
            }
            run.step(1);
            run.trace();
        }
    }
    for len in [MAX_BODY + 1, MAX_BODY * 2, MAX_BODY * 16] {
        let (a, _) = ask(&app, post(vec![b' '; len])).await;
        if let Some(e) = wrong(&a, kind("request_too_large"), &Value::Null) {
            run.fail("too-large", e, format!("{len} bytes, at most {MAX_BODY}"));
        }
        // and when its length is not declared
        let chunks: Vec<Result<Vec<u8>, std::io::Error>> = (0..len / 64 + 1).map(|_| Ok(vec![b' '; 64])).collect();
        let (a, _) = ask(&app, post(Body::from_stream(futures::stream::iter(chunks)))).await;
        if let Some(e) = wrong(&a, kind("request_too_large"), &Value::Null) {
            run.fail("too-large", e, format!("{len} bytes in chunks, at most {MAX_BODY}"));
        }
        if !w.take().is_empty() {
            run.fail("too-large", "an oversized request was passed on", format!("{len}"));
        }
        run.trace();
    }
    // a client that stops sending half way
    let broken = Body::from_stream(futures::stream::iter([Ok(vec![b'{']), Err(std::io::Error::other("reset"))]));
    let (a, _) = ask(&app, post(broken)).await;
    if let Some(e) = wrong(&a, kind("unreadable_body"), &Value::Null) {
        run.fail("unreadable", e, "body ends in an error");
    }
    if !w.take().is_empty() {
        run.fail("unreadable", "part of a body was passed on", "");
    }
    if total(&g.handle, "tn_worker_gateway_inflight_requests") != 0.0 {
        run.fail("in-flight", "requests are still counted as in flight", "after the last answer");
    }
    run.bound("requests", "methods, paths, content types, forwarding chains, peers and bodies in all combinations, each reply with each body; markers; bodies around the limit");
}

async fn failures(run: &Run, h: PrometheusHandle) {
    let ids = [json!(1), json!("a"), Value::Null];
    // a worker that goes away between the poll and the call, that does not answer, that answers too late
    for id in &ids {
        let w = Worker::start(0).await;
        let l = tokio::net::TcpListener::bind(("127.0.0.1", 0)).await.expect("bind");
        let gone = l.local_addr().expect("addr");
        drop(l);
        let mut e = w.entry();
        e.rpc_url = format!("http://{gone}/").parse().expect("url");
        let g = Gateway::start(&[e], Duration::from_secs(20), h.clone());
        w.set(true);
        g.settle(&[w.clone()]).await;
        let body = json!({"jsonrpc": "2.0", "method": "eth_chainId", "id": id}).to_string();
        let before = total(&g.handle, ALL);
        let (a, _) = ask(&g.app(), post(body.clone())).await;
        if let Some(e) = wrong(&a, kind("upstream_unreachable"), id) {
            run.fail("unreachable", e, "a closed port");
        }
        if total(&g.handle, ALL) - before != 1.0 {
            run.fail("counted", "an unreachable worker is not counted once", "");
        }
        run.step(1);

        let g = Gateway::start(&[w.entry()], Duration::from_millis(60), h.clone());
        g.settle(&[w.clone()]).await;
        *w.rpc.lock().expect("lock") = Rpc::Hang;
        let before = total(&g.handle, ALL);
        let (a, _) = ask(&g.app(), post(body.clone())).await;
        if let Some(e) = wrong(&a, kind("upstream_timeout"), id) {
            run.fail("timeout", e, "a worker that never answers");
        }
        if total(&g.handle, ALL) - before != 1.0 {
            run.fail("counted", "a timeout is not counted once", "");
        }
        // the whole-request deadline comes first
        let g = Gateway::start(&[w.entry()], Duration::from_secs(20), h.clone());
        g.settle(&[w.clone()]).await;
        w.take();
        let app = router(g.state.clone(), Duration::from_millis(40), MAX_BODY, None);
        let before = total(&g.handle, ALL);
        let (a, _) = ask(&app, post(body.clone())).await;
        if let Some(e) = wrong(&a, kind("request_timeout"), &Value::Null) {
            run.fail("deadline", e, "a worker that never answers");
        }
        let stuck = Body::from_stream(futures::stream::pending::<Result<Vec<u8>, std::io::Error>>());
        w.take();
        let (a, _) = ask(&app, post(stuck)).await;
        if let Some(e) = wrong(&a, kind("request_timeout"), &Value::Null) {
            run.fail("deadline", e, "a body that never ends");
        }
        if !w.take().is_empty() {
            run.fail("deadline", "an unfinished request was passed on", "");
        }
        if total(&g.handle, ALL) - before != 2.0 {
            run.fail("counted", "a deadline is not counted once", "");
        }
        if total(&g.handle, "tn_worker_gateway_inflight_requests") != 0.0 {
            run.fail("in-flight", "requests are still counted as in flight after the deadline", "");
        }
        run.step(3);
        run.trace();
    }
}

fn encoded() -> Vec<(&'static str, Vec<u8>, bool)> {
    let sig = Signature::new(U256::from(7), U256::from(11), false);
    let to = TxKind::Call(Default::default());
    let legacy = TxLegacy { chain_id: Some(2017), nonce: 1, gas_price: 7, gas_limit: 21_000, to, value: U256::from(3), input: Bytes::from_static(b"in") };
    let pre = TxLegacy { chain_id: None, ..legacy.clone() };
    let a = TxEip2930 { chain_id: 2017, nonce: 1, gas_price: 7, gas_limit: 21_000, to, value: U256::from(3), access_list: Default::default(), input: Bytes::new() };
    let d = TxEip1559 { chain_id: 2017, nonce: 1, gas_limit: 21_000, max_fee_per_gas: 9, max_priority_fee_per_gas: 1, to: TxKind::Create, value: U256::ZERO, access_list: Default::default(), input: Bytes::from(vec![0x60; 40]) };
    let blob = TxEip4844WithSidecar { tx: TxEip4844 { chain_id: 2017, max_fee_per_blob_gas: 1, ..Default::default() }, sidecar: BlobTransactionSidecar::new(vec![], vec![], vec![]) };
    let set = TxEip7702 { chain_id: 2017, ..Default::default() };
    let enc = |t: tn_types::PooledTransaction| t.encoded_2718();
    vec![
        ("legacy", enc(legacy.into_signed(sig).into()), true),
        ("legacy without chain", enc(pre.into_signed(sig).into()), true),
        ("access list", enc(a.into_signed(sig).into()), true),
        ("dynamic fee", enc(d.into_signed(sig).into()), true),
        ("blob", enc(blob.into_signed(sig).into()), false),
        ("set code", enc(set.into_signed(sig).into()), false),
    ]
}

async fn screening(run: &Run, h: PrometheusHandle) {
    let w = Worker::start(0).await;
    let g = Gateway::start(&[w.entry()], Duration::from_secs(20), h);
    let app = g.app();
    w.set(true);
    g.settle(&[w.clone()]).await;
    // (body, reason of the refusal)
    let mut cases: Vec<(String, Option<&str>)> = Vec::new();
    let call = |m: &str, p: String| format!("{{\"jsonrpc\":\"2.0\",\"id\":\"r\",\"method\":\"{m}\",\"params\":{p}}}");
    let hex = |b: &[u8]| tn_types::hex::encode(b);
    const SEND: &str = "eth_sendRawTransaction";
    for (_, tx, fine) in encoded() {
        let t = hex(&tx);
        let verdict = (!fine).then_some("unsupported_transaction_type");
        for spelt in [format!("0x{t}"), format!("0X{t}"), t.clone(), format!("0x{}", t.to_uppercase())] {
            cases.push((call(SEND, format!("[\"{spelt}\"]")), verdict));
            cases.push((call(SEND, format!("[\"{spelt}\", 1]")), verdict));
            // not a call of this method, or not a single call: the worker decides
            for other in ["eth_call", "eth_sendRawTransactionSync", "x"] {
                cases.push((call(other, format!("[\"{spelt}\"]")), None));
                cases.push((call(other, format!("[\"{spelt}\", \"{SEND}\"]")), None));
            }
            cases.push((format!("[{}]", call(SEND, format!("[\"{spelt}\"]"))), None));
            cases.push((call(SEND, format!("{{\"tx\":\"{spelt}\"}}")), None));
            cases.push((call(SEND, format!("[[\"{spelt}\"]]")), None));
            cases.push((call(SEND, format!("\"{spelt}\"")), None));
            cases.push((format!("{} ", call(SEND, format!("[\"{spelt}\"]"))).replace("}", ""), None));
            cases.push((call(SEND, format!("[\"{spelt}0\"]")), Some("invalid_transaction")));
            cases.push((call(SEND, format!("[\"{spelt}zz\"]")), Some("invalid_transaction")));
        }
        for cut in 0..tx.len() {
            cases.push((call(SEND, format!("[\"0x{}\"]", hex(&tx[..cut]))), Some("invalid_transaction")));
        }
        if tx[0] < 0x80 {
            for ty in 0..0x80u8 {
                let mut x = tx.clone();
                x[0] = ty;
                if ty > 4 || ty == 0 {
                    cases.push((call(SEND, format!("[\"0x{}\"]", hex(&x))), Some("invalid_transaction")));
                }
            }
        }
    }
    for p in ["[]", "[null]", "[1]", "null", "[\"\"]", "[\"0x\"]", "[\" 0x00\"]"] {
        cases.push((call(SEND, p.into()), p.contains('"').then_some("invalid_transaction")));
    }
    run.bound("raw transactions", format!("{} bodies: every transaction type, spelling, truncation and type byte, and calls of other shapes", cases.len()));
    for (body, refusal) in cases {
        if body.len() > MAX_BODY {
            continue;
        }
        let (a, _) = ask(&app, post(body.clone())).await;
        let seen = w.take();
        run.step(1);
        run.state(&body);
        let bad = match refusal {
            None if seen.len() == 1 && seen[0].body == body.as_bytes() => None,
            None => Some(format!("not passed on: {} {}", a.status, String::from_utf8_lossy(&a.body))),
            Some(_) if !seen.is_empty() => Some("passed on".into()),
            Some(r) => wrong(&a, kind(r), &json!("r")),
        };
        if let Some(e) = bad {
            run.fail("screen", format!("{e}; expected {refusal:?}"), body);
            return;
        }
        run.trace();
    }
}

async fn limited(run: &Run, h: PrometheusHandle) {
    let w = Worker::start(0).await;
    let g = Gateway::start(&[w.entry()], Duration::from_secs(20), h);
    let nz = |n| NonZeroU32::new(n).expect("rate");
    let depth = run.pick(4, 6);
    let other: SocketAddr = "198.51.100.2:7".parse().expect("addr");
    run.bound("limited requests", format!("every sequence of {depth} of: a call from either of two clients, probes, a wait; one token per client and second, two in all"));
    for i in 0..seq_count(6, depth) {
        vstd::clock::reset();
        let limiters = RateLimiters::new(Some(RateLimit::new(nz(1), nz(1))), Some(RateLimit::new(nz(2), nz(2))), 10, PrefixPolicy::default());
        let app = router(g.state.clone(), Duration::from_secs(20), MAX_BODY, limiters);
        let (mut all, mut own) = (2u32, [1u32; 2]);
        let ops = seq_of(i, 6, depth);
        for (s, op) in ops.iter().enumerate() {
            let before = total(&g.handle, ALL);
            let what = format!("{ops:?} at {s} (0, 1 calls; 2 health; 3 ready; 4 wait; 5 other path)");
            match op {
                4 => {
                    vstd::clock::advance(Duration::from_secs(1));
                    (all, own) = (2, [1; 2]);
                }
                2 | 3 => {
                    let (a, _) = ask(&app, request(Method::GET, if *op == 2 { "/health" } else { "/ready" }, &[], peer(), Body::empty())).await;
                    if a.status != if *op == 2 { 200 } else { 503 } || total(&g.handle, ALL) != before {
                        run.fail("probe", format!("a probe is limited, counted or wrong: {}", a.status), what);
                        return;
                    }
                }
                _ => {
                    let k = usize::from(*op == 1);
                    let admitted = all > 0 && own[k] > 0;
                    own[k] -= u32::from(admitted);
                    all = all.saturating_sub(1);
                    let r = request(Method::POST, if *op == 5 { "/health/" } else { "/" }, &[], [peer(), other][k], Body::from("{\"id\":4}"));
                    let (a, _) = ask(&app, r).await;
                    let e = if admitted { wrong(&a, kind("no_upstream_ready"), &json!(4)) } else { wrong(&a, kind("rate_limited"), &Value::Null) };
                    if e.is_some() || total(&g.handle, ALL) - before != 1.0 {
                        run.fail("limited", format!("{e:?}; admitted should be {admitted}"), what);
                        return;
                    }
                }
            }
            run.step(1);
        }
        run.state(&(all, own, ops.last()));
        run.trace();
    }
}

/// What the command line settles: no upstream that is the gateway itself, nothing but http, limits as given.
fn settings(run: &Run) {
    let go = |args: &[String]| Cli::try_parse_from(std::iter::once("worker-gateway".to_string()).chain(args.iter().cloned())).map_err(|e| e.to_string()).and_then(|c| c.into_settings().map_err(|e| e.to_string()));
    let listens = ["0.0.0.0:8545", "127.0.0.1:8545", "10.1.2.3:8545", "[::]:8545", "[::1]:8545", "0.0.0.0:80", "10.1.2.3:80"];
    let hosts = ["127.0.0.1", "127.0.0.2", "localhost", "LocalHost", "0.0.0.0", "10.1.2.3", "10.1.2.4", "[::1]", "[::]", "worker.example"];
    let ports = ["", ":80", ":8545", ":8546"];
    let mut n = 0;
    for listen in listens {
        let l: SocketAddr = listen.parse().expect("addr");
        for host in hosts {
            for port in ports {
                for scheme in ["http", "https", "ws", "ftp"] {
                    for readiness in [false, true] {
                        let url = format!("{scheme}://{host}{port}/p");
                        let fine = "http://192.0.2.1:1/".to_string();
                        let (a, b) = if readiness { (fine, url.clone()) } else { (url.clone(), fine) };
                        let got = go(&["--listen-addr".into(), listen.into(), "--upstream-rpc-url".into(), a.clone(), "--upstream-readiness-url".into(), b.clone()]);
                        let p: u16 = if port.is_empty() { if matches!(scheme, "http" | "ws") { 80 } else if scheme == "https" { 443 } else { 21 } } else { port[1..].parse().expect("port") };
                        let h = if host.eq_ignore_ascii_case("localhost") { "127.0.0.1" } else { host.trim_matches(|c| c == '[' || c == ']') };
                        // the target is this machine's own address that is listened on
                        let own = match (h.parse::<std::net::IpAddr>().ok(), l.ip()) {
                            (None, _) => false,
                            (Some(t), me) if t == me => true,
                            (Some(t), me) => t.is_ipv4() == me.is_ipv4() && (t.is_unspecified() || (me.is_unspecified() && t.is_loopback())),
                        };
                        let want = scheme == "http" && !(own && p == l.port());
                        n += 1;
                        run.step(1);
                        run.state(&(listen, &url));
                        let ok = match (&got, want) {
                            (Ok(s), true) => s.upstreams.len() == 1 && Ok(&s.upstreams[0].rpc_url) == a.parse().as_ref() && Ok(&s.upstreams[0].readiness_url) == b.parse().as_ref() && s.listen_addr == l,
                            (Err(_), false) => true,
                            _ => false,
                        };
                        if !ok {
                            run.fail("settings", format!("accepted: {}, expected {want}", got.is_ok()), format!("listen {listen} url {url} readiness {readiness}"));
                            return;
                        }
                    }
                }
            }
        }
    }
    let base = |extra: &[&str]| {
        let mut v: Vec<String> = ["--upstream-rpc-url", "http://192.0.2.1:1/", "--upstream-readiness-url", "http://192.0.2.1:2/"].iter().map(|s| s.to_string()).collect();
        v.extend(extra.iter().map(|s| s.to_string()));
        go(&v)
    };
    for bits in 0..=255u32 {
        let b = bits.to_string();
        if base(&["--rate-limit-per-ip-v4-prefix", &b]).is_ok() != (bits <= 32) || base(&["--rate-limit-per-ip-v6-prefix", &b]).is_ok() != (bits <= 128) {
            run.fail("settings-prefix", "a prefix length is wrongly accepted or refused", b);
            return;
        }
    }
    for rate in [0u32, 1, 7, u32::MAX] {
        for burst in [0u32, 1, 9, u32::MAX] {
            let s = base(&["--rate-limit-per-ip", &rate.to_string(), "--rate-limit-per-ip-burst", &burst.to_string(), "--rate-limit-global", &rate.to_string(), "--rate-limit-global-burst", &burst.to_string()]);
            let Ok(s) = s else {
                run.fail("settings-rate", "valid rates are refused", format!("{rate} {burst}"));
                return;
            };
            for l in [s.rate_limit_per_ip, s.rate_limit_global] {
                vstd::clock::reset();
                // how many are admitted at once, and how many more a second after the last of them
                let many = 20_000u32;
                let limiter = RateLimiters::new(None, l, 1, PrefixPolicy::default());
                let admitted = |n: u32| limiter.as_ref().map(|l| (0..n).filter(|_| l.check(None).is_ok()).count() as u32);
                let first = admitted(many);
                vstd::clock::advance(Duration::from_secs(1));
                let second = admitted(many);
                let burst = if burst == 0 { rate.saturating_mul(2) } else { burst };
                let want = (rate > 0).then(|| (burst.min(many), if burst > many { many } else { rate.min(burst) }));
                if first.zip(second) != want {
                    run.fail("settings-rate", format!("{first:?} admitted at once and {second:?} a second later, expected {want:?}"), format!("rate {rate} burst {burst}"));
                }
            }
            run.step(1);
        }
    }
    // a connection may live no shorter than one request may take
    for (header, call, cap) in [(1u64, 1u64, 2u64), (1, 1, 3), (1, 1, 4), (10, 30, 49), (10, 30, 50), (10, 30, 0), (0, 1, 1), (3, 0, 5), (3, 0, 6)] {
        let s = base(&["--header-read-timeout", &format!("{header}s"), "--upstream-request-timeout", &format!("{call}s"), "--max-connection-duration", &format!("{cap}s")]);
        let want = cap == 0 || cap >= 2 * header + call;
        if s.is_ok() != want || s.is_ok_and(|s| s.max_connection_duration != (cap > 0).then(|| Duration::from_secs(cap))) {
            run.fail("settings-cap", "a connection cap is wrongly accepted, refused or changed", format!("header {header} call {call} cap {cap}"));
        }
        run.step(1);
    }
    run.bound("settings", format!("{n} listen addresses, upstream hosts, ports and schemes, every prefix length, rates and caps"));
    run.trace();
}

pub fn n08(run: &Run) {
    for v in ["http_proxy", "HTTP_PROXY", "all_proxy", "ALL_PROXY"] {
        std::env::remove_var(v);
    }
    settings(run);
    type Part = for<'a> fn(&'a Run, PrometheusHandle) -> std::pin::Pin<Box<dyn std::future::Future<Output = ()> + 'a>>;
    let parts: [Part; 6] = [
        |r, h| Box::pin(polling(r, h)),
        |r, h| Box::pin(choice(r, h)),
        |r, h| Box::pin(fidelity(r, h)),
        |r, h| Box::pin(failures(r, h)),
        |r, h| Box::pin(screening(r, h)),
        |r, h| Box::pin(limited(r, h)),
    ];
    vlib::par(run, parts.len(), |i| {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
        let rec = PrometheusBuilder::new().build_recorder();
        let h = rec.handle();
        let done = metrics::with_local_recorder(&rec, || rt.block_on(async { tokio::time::timeout(Duration::from_secs(600), parts[i](run, h)).await.is_ok() }));
        if !done {
            run.fail("stuck", "requests are never answered", format!("part {i}"));
        }
        rt.shutdown_background();
    });
    run.assume("Upstream workers are stand-ins on the loopback network; reqwest, hyper and axum are taken as they are.");
}

// C37: the Jaeger remote sampler against a scripted endpoint, on a runtime whose clock only moves when told to.
use crate::asyncrt::Rt;
use crate::common::Ctx;
use bytes::Bytes;
use http::{Request, Response};
use opentelemetry::trace::{Link, SamplingDecision, SamplingResult, SpanContext, SpanId, SpanKind, TraceContextExt, TraceFlags, TraceId, TraceState};
use opentelemetry::{Context, KeyValue};
use opentelemetry_http::{HttpClient, HttpError};
use opentelemetry_sdk::trace::{Sampler, ShouldSample};
use std::collections::{HashMap, VecDeque};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
enum Reply { Lost, Http(u16, String) }
#[derive(Clone, Debug, PartialEq)]
struct Strat { ops: Option<(f64, Vec<(String, f64)>)>, rate: Option<i32>, prob: Option<f64> }
impl Strat {
    fn json(&self) -> String {
        let mut v = serde_json::Map::new();
        v.insert("strategyType".into(), serde_json::Value::from(if self.rate.is_some() { "RATE_LIMITING" } else { "PROBABILISTIC" }));
        if let Some(p) = self.prob { v.insert("probabilisticSampling".into(), serde_json::json!({ "samplingRate": p })); }
        if let Some(r) = self.rate { v.insert("rateLimitingSampling".into(), serde_json::json!({ "maxTracesPerSecond": r })); }
        if let Some((d, ops)) = &self.ops {
            let ops: Vec<_> = ops.iter().map(|(n, p)| serde_json::json!({ "operation": n, "probabilisticSampling": { "samplingRate": p } })).collect();
            v.insert("operationSampling".into(), serde_json::json!({ "defaultSamplingProbability": d, "defaultLowerBoundTracesPerSecond": 0.5, "perOperationStrategies": ops, "defaultUpperBoundTracesPerSecond": 9.5 }));
        }
        serde_json::Value::Object(v).to_string()
    }
}
struct Wire { replies: VecDeque<Reply>, seen: Vec<(String, String, Option<String>)> }
#[derive(Clone)]
struct Client { wire: Arc<Mutex<Wire>>, gone: Arc<AtomicBool> }
impl std::fmt::Debug for Client { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Client") } }
struct Only(Client);
impl std::fmt::Debug for Only { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Only") } }
impl Drop for Only { fn drop(&mut self) { self.0.gone.store(true, Ordering::SeqCst) } }
#[async_trait::async_trait]
impl HttpClient for Only {
    async fn send_bytes(&self, r: Request<Bytes>) -> Result<Response<Bytes>, HttpError> {
        let mut w = self.0.wire.lock().unwrap();
        w.seen.push((r.method().to_string(), r.uri().to_string(), r.headers().get("content-type").and_then(|v| v.to_str().ok()).map(Into::into)));
        match w.replies.pop_front() {
            Some(Reply::Http(s, b)) => Ok(Response::builder().status(s).body(Bytes::from(b)).unwrap()),
            _ => Err("nobody there".into()),
        }
    }
}
type Question = (Option<SpanContext>, u128, String, String, usize, usize);
#[derive(Clone, Debug)]
struct Default_ { asked: Arc<Mutex<Vec<Question>>>, says: bool }
impl ShouldSample for Default_ {
    fn should_sample(&self, p: Option<&Context>, id: TraceId, name: &str, k: &SpanKind, a: &[KeyValue], l: &[Link]) -> SamplingResult {
        self.asked.lock().unwrap().push((p.map(|c| c.span().span_context().clone()), u128::from_be_bytes(id.to_bytes()), name.into(), format!("{k:?}"), a.len(), l.len()));
        SamplingResult { decision: if self.says { SamplingDecision::RecordAndSample } else { SamplingDecision::Drop }, attributes: vec![], trace_state: TraceState::default() }
    }
}
enum Model { None, Prob(f64), Ops(f64, HashMap<String, f64>), Rate(u32) }
fn ratio(p: f64, id: u128) -> bool { p >= 1.0 || ((id as u64) >> 1) < (p.max(0.0) * (1u64 << 63) as f64) as u64 }
const NAMES: &[&str] = &["get", "put", "Get", "get ", "", "delete"];

pub fn c37(c: &mut Ctx) {
    c.rule = "random endpoints, services, bucket sizes and sequences of replies (strategies of every kind, none, malformed, bad statuses, no answer), questions between them; and rate limiters asked for a while. Non-trivial: at least one strategy was fetched".into();
    for _ in 0..c.n(150) {
        let size = 1 + c.rng.usize(4);
        let says = c.rng.bool();
        let interval = 10 * (1 + c.rng.below(20));
        let prob = |c: &mut Ctx| *c.rng.pick(&[0.0, 1.0, 0.5, 0.25, 0.1, 2.0, -1.0, 0.75]);
        let steps: Vec<(Reply, Option<Strat>, Vec<(u128, usize, u8)>)> = (0..1 + c.rng.usize(7)).map(|_| {
            let mut st = Strat { ops: None, rate: None, prob: None };
            match c.rng.below(9) {
                0..=2 => st.rate = Some(*c.rng.pick(&[0, 0, -1])),
                3 | 4 => st.prob = Some(prob(c)),
                5 | 6 => { let d = prob(c); let n = c.rng.usize(4); st.ops = Some((d, (0..n).map(|_| (c.rng.pick(NAMES).to_string(), prob(c))).collect())) }
                7 => {}
                _ => { if c.rng.bool() { st.rate = Some(0) } if c.rng.bool() { st.prob = Some(prob(c)) } if c.rng.bool() { st.ops = Some((prob(c), vec![("put".into(), prob(c))])) } }
            }
            let good = st.json();
            let (rep, st) = match c.rng.below(10) {
                0 => (Reply::Lost, None),
                1 => (Reply::Http(*c.rng.pick(&[201, 204, 304, 400, 404, 500, 503]), good), None),
                2 => (Reply::Http(200, c.rng.pick(&["", "{}", "null", "[]", "{\"strategyType\":\"OTHER\"}", "{\"strategyType\":\"PROBABILISTIC\",\"probabilisticSampling\":{}}", "<html>"]).to_string()), None),
                _ => (Reply::Http(200, good), Some(st)),
            };
            let qs = (0..c.rng.usize(8)).map(|_| {
                let low: u64 = match c.rng.below(4) { 0 => 0, 1 => u64::MAX, 2 => { let p = prob(c).clamp(0.0, 0.99); (((p * (1u64 << 63) as f64) as u64) << 1).wrapping_add(c.rng.below(4)).wrapping_sub(2) } _ => c.rng.next() };
                (((c.rng.next() as u128) << 64) | low as u128, c.rng.usize(NAMES.len()), c.rng.below(3) as u8)
            }).collect();
            (rep, st, qs)
        }).collect();
        let (ep, base) = c.rng.pick(&[(None, "http://localhost:5778/sampling?"), (Some("http://agent:99/x/y"), "http://agent:99/x/y?"), (Some("http://agent/s?a=b"), "http://agent/s?a=b&"), (Some("not a url"), "http://localhost:5778/sampling?")]).clone();
        let (svc, enc) = c.rng.pick(&[("svc", "svc"), ("my svc", "my+svc"), ("a&b=c", "a%26b%3Dc"), ("é", "%C3%A9")]).clone();
        let any = steps.iter().any(|s| s.1.is_some());
        c.case(format!("endpoint {ep:?} service {svc:?} every {interval}ms bucket {size} default {says}: {steps:?}"), any, || {
            let rt = Rt::new();
            let client = Client { wire: Arc::new(Mutex::new(Wire { replies: steps.iter().map(|s| s.0.clone()).collect(), seen: vec![] })), gone: Arc::new(AtomicBool::new(false)) };
            let dflt = Default_ { asked: Arc::new(Mutex::new(vec![])), says };
            let mut b = Sampler::jaeger_remote(rt.clone(), Only(client.clone()), dflt.clone(), svc).with_update_interval(Duration::from_millis(interval)).with_leaky_bucket_size(size as f64);
            if let Some(e) = ep { b = b.with_endpoint(e); }
            let s = b.build().map_err(|e| format!("not built: {e}"))?;
            rt.settle();
            let mut m = Model::None;
            let check = |m: &mut Model, qs: &[(u128, usize, u8)]| -> Result<(), String> {
                for (id, n, par) in qs {
                    let name = NAMES[*n];
                    let sc = SpanContext::new(TraceId::from(7u128), SpanId::from(5u64), TraceFlags::new(*par), true, TraceState::from_key_value([("k", "v")]).unwrap());
                    let cx = if *par == 0 { None } else { Some(Context::new().with_remote_span_context(sc.clone())) };
                    let before = dflt.asked.lock().unwrap().len();
                    let r = s.should_sample(cx.as_ref(), TraceId::from(*id), name, &SpanKind::Client, &[KeyValue::new("a", 1)], &[]);
                    let asked = dflt.asked.lock().unwrap()[before..].to_vec();
                    let (want, by_default) = match m {
                        Model::None => (says, true),
                        Model::Prob(p) => (ratio(*p, *id), false),
                        Model::Ops(d, o) => (ratio(*o.get(name).unwrap_or(d), *id), false),
                        Model::Rate(left) => { let w = *left > 0; if w { *left -= 1 } (w, false) }
                    };
                    if (r.decision == SamplingDecision::RecordAndSample) != want || r.decision == SamplingDecision::RecordOnly { return Err(format!("{name:?} {id:#x}: decided {:?}, expected {want}", r.decision)); }
                    if by_default { if asked != vec![(cx.as_ref().map(|_| sc.clone()), *id, name.to_string(), "Client".to_string(), 1, 0)] { return Err(format!("the default sampler was asked {asked:?} for {name:?} {id:#x}")); } }
                    else if !asked.is_empty() { return Err("the default sampler was asked with a strategy there".into()); }
                    let ts = if cx.is_some() { "k=v" } else { "" };
                    if r.trace_state.header() != ts || !r.attributes.is_empty() { return Err(format!("trace state {:?}, expected {ts:?}", r.trace_state.header())); }
                }
                Ok(())
            };
            check(&mut m, &[(1, 0, 0), (u128::MAX, 1, 1)])?;
            for (i, (_, st, qs)) in steps.iter().enumerate() {
                rt.advance(interval - 1);
                if client.wire.lock().unwrap().seen.len() != i { return Err(format!("{} requests before interval {} ended", client.wire.lock().unwrap().seen.len(), i + 1)); }
                rt.advance(1);
                let w = client.wire.lock().unwrap();
                if w.seen.len() != i + 1 { return Err(format!("{} requests after {} intervals", w.seen.len(), i + 1)); }
                let want = ("GET".to_string(), format!("{base}service={enc}"));
                if (w.seen[i].0.clone(), w.seen[i].1.clone()) != want { return Err(format!("requested {:?}, expected {want:?}", w.seen[i])); }
                drop(w);
                if let Some(st) = st {
                    if let Some((d, o)) = &st.ops { m = Model::Ops(*d, o.iter().cloned().collect()) }
                    else if st.rate.is_some() { m = match m { Model::Rate(left) if st.prob.is_none() => Model::Rate(left), _ => Model::Rate(size as u32) } }
                    else if let Some(p) = st.prob { m = Model::Prob(p) }
                }
                check(&mut m, qs).map_err(|e| format!("after reply {i}: {e}"))?;
            }
            // the last handle to the sampler ends its task
            let copy = s.clone();
            drop(s);
            rt.settle();
            if client.gone.load(Ordering::SeqCst) { return Err("the task ended with a sampler left".into()); }
            drop(copy);
            rt.settle();
            let n = client.wire.lock().unwrap().seen.len();
            rt.advance(3 * interval);
            if client.wire.lock().unwrap().seen.len() > n + 1 || !client.gone.load(Ordering::SeqCst) { return Err("the sampler is gone and its task goes on".into()); }
            rt.end();
            Ok(())
        });
    }
    for (e, s) in [("", "svc"), ("http://a/b", ""), ("", "")] {
        c.case(format!("endpoint {e:?} service {s:?}"), false, || {
            let rt = Rt::new();
            let client = Client { wire: Arc::new(Mutex::new(Wire { replies: VecDeque::new(), seen: vec![] })), gone: Arc::new(AtomicBool::new(false)) };
            let r = Sampler::jaeger_remote(rt.clone(), Only(client), Sampler::AlwaysOn, s).with_endpoint(e).build();
            rt.end();
            if r.is_ok() { Err("built".into()) } else { Ok(()) }
        });
    }
    // rate limiters, asked for a while
    let cases: Vec<(usize, i32, u64, u64)> = (0..if c.thorough { 60 } else { 12 }).map(|_| (1 + c.rng.usize(4), *c.rng.pick(&[20, 50, 100, 5]), 60 + c.rng.below(200), 1 + c.rng.below(9))).collect();
    let results: Vec<Result<(), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = cases.iter().map(|&(size, rate, ms, gap)| sc.spawn(move || limiter(size, rate, ms, gap))).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panicked".into()))).collect()
    });
    for ((size, rate, ms, gap), r) in cases.into_iter().zip(results) {
        c.case(format!("a bucket of {size} filled {rate} times a second, asked about every {gap}ms for {ms}ms"), true, || r);
    }
}
/// never more than the bucket and what was earned; never none once a token was earned
fn limiter(size: usize, rate: i32, ms: u64, gap: u64) -> Result<(), String> {
    let rt = Rt::new();
    let st = Strat { ops: None, rate: Some(rate), prob: None };
    let client = Client { wire: Arc::new(Mutex::new(Wire { replies: VecDeque::from([Reply::Http(200, st.json()), Reply::Http(200, st.json())]), seen: vec![] })), gone: Arc::new(AtomicBool::new(false)) };
    let s = Sampler::jaeger_remote(rt.clone(), Only(client), Sampler::AlwaysOff, "svc").with_update_interval(Duration::from_millis(10)).with_leaky_bucket_size(size as f64).build().map_err(|e| e.to_string())?;
    let t0 = Instant::now();
    rt.advance(10);
    let ask = || s.should_sample(None, TraceId::from(1u128), "x", &SpanKind::Internal, &[], &[]).decision == SamplingDecision::RecordAndSample;
    let (mut n, mut refused): (usize, Option<Instant>) = (0, None);
    let mut updated = false;
    for k in 0.. {
        if t0.elapsed() > Duration::from_millis(ms) { break; }
        if !updated && k == 5 { updated = true; rt.advance(10); }
        let q0 = Instant::now();
        let yes = ask();
        let q1 = Instant::now();
        if yes {
            n += 1;
            let most = size as f64 + (q1 - t0).as_secs_f64() * rate as f64;
            if n as f64 > most + 1e-3 { return Err(format!("{n} sampled after {:?}", q1 - t0)); }
            refused = None;
        } else {
            if n < size { return Err(format!("refused after {n} with a bucket of {size}")); }
            // measured from the first refusal since the last sample, an update keeping the tokens
            let since = *refused.get_or_insert(q1);
            if q0 > since && (q0 - since).as_secs_f64() * rate as f64 > 1.05 { return Err(format!("nothing sampled for {:?} at {rate} a second", q0 - since)); }
        }
        if refused.is_some() { std::thread::sleep(Duration::from_millis(gap)); }
    }
    rt.end();
    Ok(())
}

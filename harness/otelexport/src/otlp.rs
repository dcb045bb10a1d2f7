// C24, C25: the OTLP exporters' settings, and what they send and report.
use crate::common::{Ctx, Rng};
use crate::transform as t;
use opentelemetry_http::{Bytes, HttpClient, HttpError};
use opentelemetry_otlp::{Compression, ExporterBuildError, LogExporter, MetricExporter, Protocol, SpanExporter, WithExportConfig, WithHttpConfig, WithTonicConfig};
use opentelemetry_proto::tonic::collector::{logs::v1::ExportLogsServiceRequest, metrics::v1::ExportMetricsServiceRequest, trace::v1::ExportTraceServiceRequest};
use opentelemetry_proto::transform::common::tonic::ResourceAttributesWithSchema;
use opentelemetry_proto::transform::{logs::tonic::group_logs_by_resource_and_scope, trace::tonic::group_spans_by_resource_and_scope};
use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
use opentelemetry_sdk::logs::{LogBatch, LogExporter as _, SdkLogRecord, SdkLoggerProvider};
use opentelemetry_sdk::metrics::{data as sd, exporter::PushMetricExporter as _, Temporality};
use opentelemetry_sdk::trace::{SpanData, SpanExporter as _};
use opentelemetry_sdk::Resource;
use prost::Message;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use std::time::Duration;

type Sent = Arc<Mutex<Vec<http::Request<Bytes>>>>;
/// answers with a status, or an error for 0; keeps the requests
#[derive(Clone, Debug)]
struct Client(Sent, Arc<Mutex<u16>>);
#[async_trait::async_trait]
impl HttpClient for Client {
    async fn send_bytes(&self, q: http::Request<Bytes>) -> Result<http::Response<Bytes>, HttpError> {
        self.0.lock().unwrap().push(q);
        match *self.1.lock().unwrap() { 0 => Err("no connection".into()), s => Ok(http::Response::builder().status(s).body(Bytes::from_static(b"x")).unwrap()) }
    }
}
fn client() -> Client { Client(Default::default(), Arc::new(Mutex::new(200))) }
enum Ex { S(SpanExporter), L(LogExporter), M(MetricExporter) }
/// telemetry to export
struct Batch { spans: Vec<SpanData>, logs: Vec<(SdkLogRecord, opentelemetry::InstrumentationScope)>, metrics: sd::ResourceMetrics }
fn batch(r: &mut Rng, res: Resource) -> Batch {
    let l = { use opentelemetry::logs::LoggerProvider as _; SdkLoggerProvider::builder().build().logger("x") };
    let k = r.below(4);
    let spans = (0..k).map(|n| { let s = t::scope(r); t::span(r, &s, n) }).collect();
    let logs = (0..k).map(|n| { let s = t::scope(r); (t::record(r, &l, n).0, s) }).collect();
    let metrics = sd::ResourceMetrics { resource: res, scope_metrics: vec![sd::ScopeMetrics { scope: t::scope(r), metrics: vec![sd::Metric { name: "m".into(), description: "d".into(), unit: "u".into(), data: t::stream::<i64>(r).0 }] }] };
    Batch { spans, logs, metrics }
}
impl Ex {
    fn set_resource(&mut self, r: &Resource) { match self { Ex::S(e) => e.set_resource(r), Ex::L(e) => e.set_resource(r), Ex::M(_) => {} } }
    async fn export(&self, b: &mut Batch) -> OTelSdkResult {
        match self {
            Ex::S(e) => e.export(b.spans.clone()).await,
            Ex::L(e) => { let refs: Vec<_> = b.logs.iter().map(|x| (&x.0, &x.1)).collect(); e.export(LogBatch::new(&refs)).await }
            Ex::M(e) => e.export(&mut b.metrics).await,
        }
    }
    fn shutdown(&mut self) -> OTelSdkResult { match self { Ex::S(e) => e.shutdown(), Ex::L(e) => e.shutdown(), Ex::M(e) => e.shutdown() } }
    fn message(&self, b: &Batch, rs: &ResourceAttributesWithSchema) -> serde_json::Value {
        match self {
            Ex::S(_) => form(&ExportTraceServiceRequest { resource_spans: group_spans_by_resource_and_scope(b.spans.clone(), rs) }),
            Ex::L(_) => { let refs: Vec<_> = b.logs.iter().map(|x| (&x.0, &x.1)).collect(); form(&ExportLogsServiceRequest { resource_logs: group_logs_by_resource_and_scope(LogBatch::new(&refs), rs) }) }
            Ex::M(_) => form(&ExportMetricsServiceRequest::from(&b.metrics)),
        }
    }
    fn decoded(&self, b: &[u8]) -> Result<serde_json::Value, String> {
        Ok(match self {
            Ex::S(_) => form(&ExportTraceServiceRequest::decode(b).map_err(|e| e.to_string())?),
            Ex::L(_) => form(&ExportLogsServiceRequest::decode(b).map_err(|e| e.to_string())?),
            Ex::M(_) => form(&ExportMetricsServiceRequest::decode(b).map_err(|e| e.to_string())?),
        })
    }
    fn timeout(&self) -> Option<String> {
        let s = match self { Ex::S(e) => format!("{e:?}"), Ex::L(e) => format!("{e:?}"), Ex::M(_) => return None };
        let i = s.find("_timeout: ")? + 10;
        Some(s[i..].split(|c| c == ',' || c == ' ').next()?.to_string())
    }
}
fn form<T: serde::Serialize>(m: &T) -> serde_json::Value { let mut v = serde_json::from_str(&serde_json::to_string(m).unwrap()).unwrap(); ordered(&mut v); v }
/// groups and keyed lists in one order
fn ordered(v: &mut serde_json::Value) {
    match v {
        serde_json::Value::Object(m) => for (k, x) in m.iter_mut() { ordered(x); if k.starts_with("scope") || k == "values" || k == "attributes" { if let serde_json::Value::Array(a) = x { a.sort_by_key(|x| x.to_string()); } } },
        serde_json::Value::Array(a) => for x in a.iter_mut() { ordered(x); },
        _ => {}
    }
}

// ---- settings ----
const SIGNALS: [(&str, &str); 3] = [("TRACES", "/v1/traces"), ("LOGS", "/v1/logs"), ("METRICS", "/v1/metrics")];
fn var(signal: Option<usize>, what: &str) -> String { match signal { Some(i) => format!("OTEL_EXPORTER_OTLP_{}_{what}", SIGNALS[i].0), None => format!("OTEL_EXPORTER_OTLP_{what}") } }
fn hexval(c: char) -> Option<u8> { c.to_digit(16).map(|d| d as u8) }
/// percent-decoding of a whole value; None if it is not well formed
fn undo(s: &str) -> Option<String> {
    let mut out = vec![];
    let mut run: Vec<u8> = vec![];
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut flush = |run: &mut Vec<u8>, out: &mut Vec<char>| -> Option<()> { out.extend(String::from_utf8(std::mem::take(run)).ok()?.chars()); Some(()) };
    while i < cs.len() {
        if cs[i] == '%' { run.push(hexval(*cs.get(i + 1)?)? * 16 + hexval(*cs.get(i + 2)?)?); i += 3; } else { flush(&mut run, &mut out)?; out.push(cs[i]); i += 1; }
    }
    flush(&mut run, &mut out)?;
    Some(out.into_iter().collect())
}
fn listed(s: &str) -> Vec<(http::HeaderName, http::HeaderValue)> {
    s.split(',').filter_map(|e| { let (k, v) = e.trim().split_once('=')?; let v = v.trim(); let v = undo(v).unwrap_or(v.to_string()); if k.trim().is_empty() || v.is_empty() { return None; } Some((k.trim().parse().ok()?, v.parse().ok()?)) }).collect()
}
fn header_value(r: &mut Rng) -> String { r.pick(&["v", "a b", "%20x", "caf%C3%A9", "%zz", "%+1", "50%", "%e4%bd", "", " p ", "a=b", "%2C", "\u{e9}", "x%41%42y"]).to_string() }
fn header_list(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.usize(4) { s += *r.pick(&["a", "b", "A", " c ", "x-y", "bad name", "", "user-agent", "\u{e9}"]); if r.chance(7, 8) { s += "="; } s += &header_value(r); if r.chance(5, 6) { s += r.pick(&[",", " , ", ",,"]); } }
    s
}
fn uri_text(r: &mut Rng) -> String { r.pick(&["http://a:1", "http://a:1/", "http://b/x", "http://b/x/", "https://c/v1/traces", "", "not a uri", "/rel", "http://[::1]:4/"]).to_string() }
fn number(r: &mut Rng) -> String { r.pick(&["0", "1", "250", "30000", "", "-1", "1.5", " 3", "18446744073709551615", "x"]).to_string() }
fn some<T>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> { if r.bool() { Some(f(r)) } else { None } }
fn clear() { for s in [Some(0), Some(1), Some(2), None] { for w in ["ENDPOINT", "TIMEOUT", "HEADERS", "COMPRESSION"] { std::env::remove_var(var(s, w)); } } }

/// an empty value counts as not set
fn set<'a>(env: &'a BTreeMap<String, String>, s: Option<usize>, w: &str) -> Option<&'a String> { env.get(&var(s, w)).filter(|v| !v.is_empty()) }
struct Set { endpoint: Option<String>, timeout: Option<u64>, headers: Vec<(String, String)>, protocol: Option<Protocol> }
macro_rules! http_built { ($b:expr, $s:expr, $c:expr) => {{
    let mut b = $b.with_http().with_http_client($c.clone());
    if let Some(e) = &$s.endpoint { b = b.with_endpoint(e.clone()); }
    if let Some(ms) = $s.timeout { b = b.with_timeout(Duration::from_millis(ms)); }
    if let Some(p) = $s.protocol { b = b.with_protocol(p); }
    for h in &$s.headers { b = b.with_headers(HashMap::from([h.clone()])); }
    b.build()
}} }
fn http(signal: usize, s: &Set, c: &Client) -> Result<Ex, ExporterBuildError> {
    Ok(match signal { 0 => Ex::S(http_built!(SpanExporter::builder(), s, c)?), 1 => Ex::L(http_built!(LogExporter::builder(), s, c)?), _ => Ex::M(http_built!(MetricExporter::builder(), s, c)?) })
}
fn joined(e: &str, p: &str) -> String { if e.ends_with('/') { format!("{e}{}", &p[1..]) } else { format!("{e}{p}") } }
fn settings(c: &mut Ctx) {
    for _ in 0..c.n(900) {
        let r = &mut c.rng;
        let signal = r.usize(3);
        let mut env: BTreeMap<String, String> = BTreeMap::new();
        for sig in [Some(0), Some(1), Some(2), None] {
            if let Some(v) = some(r, uri_text) { env.insert(var(sig, "ENDPOINT"), v); }
            if let Some(v) = some(r, number) { env.insert(var(sig, "TIMEOUT"), v); }
            if let Some(v) = some(r, header_list) { env.insert(var(sig, "HEADERS"), v); }
        }
        let given = Set { endpoint: if r.chance(1, 4) { Some(uri_text(r)) } else { None }, timeout: if r.chance(1, 3) { Some(r.below(9000)) } else { None },
            headers: (0..r.usize(3)).map(|_| (r.pick(&["a", "b", "x-own", "bad name"]).to_string(), header_value(r))).collect(), protocol: None };
        c.case(format!("{} exporter over HTTP, environment {env:?}, with_endpoint {:?}, with_timeout {:?} ms, with_headers {:?}", SIGNALS[signal].0, given.endpoint, given.timeout, given.headers), true, || {
            clear();
            for (k, v) in &env { std::env::set_var(k, v); }
            let cl = client();
            let got = http(signal, &given, &cl);
            let path = SIGNALS[signal].1;
            let uri = |s: &str| s.parse::<http::Uri>().ok();
            let want = match &given.endpoint { Some(e) => uri(e), None => set(&env, Some(signal), "ENDPOINT").and_then(|e| uri(e)).or_else(|| set(&env, None, "ENDPOINT").and_then(|e| uri(&joined(e, path)))).or_else(|| uri(&joined("http://localhost:4318", path))) };
            let (e, want) = match (got, want) { (Ok(e), Some(u)) => (e, u), (Err(_), None) => return Ok(()), (Ok(_), None) => return Err("built with an invalid endpoint".into()), (Err(e), Some(u)) => return Err(format!("not built for {u}: {e}")) };
            let ms = |v: &String| env.get(v).and_then(|s| s.parse::<u64>().ok()).map(Duration::from_millis);
            let wt = given.timeout.map(Duration::from_millis).or(ms(&var(Some(signal), "TIMEOUT"))).or(ms(&var(None, "TIMEOUT"))).unwrap_or(Duration::from_secs(10));
            if let Some(s) = e.timeout() { if s != format!("{wt:?}") { return Err(format!("timeout {s}, expected {wt:?}")); } }
            let mut b = Batch { spans: vec![], logs: vec![], metrics: sd::ResourceMetrics { resource: Resource::builder_empty().build(), scope_metrics: vec![] } };
            futures_executor::block_on(e.export(&mut b)).map_err(|e| format!("export: {e}"))?;
            let sent = cl.0.lock().unwrap();
            if sent.len() != 1 { return Err(format!("{} requests", sent.len())); }
            if *sent[0].uri() != want { return Err(format!("sent to {}, expected {want}", sent[0].uri())); }
            // the last call for a name counts, then the environment's
            let mut own: BTreeMap<String, String> = BTreeMap::new();
            for (k, v) in &given.headers { own.insert(k.clone(), undo(v).unwrap_or(v.clone())); }
            let mut hs: HashMap<http::HeaderName, http::HeaderValue> = HashMap::new();
            for (k, v) in &own { if let (Ok(k), Ok(v)) = (k.parse(), v.parse()) { hs.insert(k, v); } }
            if let Some(l) = set(&env, Some(signal), "HEADERS").or(set(&env, None, "HEADERS")) { for (k, v) in listed(l) { hs.insert(k, v); } }
            for (k, v) in &hs { let g: Vec<_> = sent[0].headers().get_all(k).iter().collect(); if g != vec![v] { return Err(format!("header {k}: {g:?}, expected {v:?}")); } }
            for k in sent[0].headers().keys() { if !hs.contains_key(k) && *k != "content-type" && *k != "user-agent" { return Err(format!("header {k} sent")); } }
            let ua = sent[0].headers().get("user-agent").map(|v| v.to_str().unwrap_or("").to_string()).unwrap_or_default();
            if !hs.contains_key(&http::header::USER_AGENT) && !ua.starts_with("OTel OTLP Exporter Rust/") { return Err(format!("user agent {ua:?}")); }
            Ok(())
        });
    }
    clear();
}
macro_rules! grpc_built { ($b:expr, $s:expr, $z:expr, $meta:expr, $i:expr, $rt:expr) => {{
    let _g = $rt.enter();
    let mut b = $b.with_tonic();
    if let Some(e) = &$s { b = b.with_endpoint(e.clone()); }
    if let Some(z) = $z { b = b.with_compression(z); }
    for m in $meta { b = b.with_metadata(m.clone()); }
    if let Some(i) = $i { b = b.with_interceptor(i); }
    b.build()
}} }
fn metadata(v: &[(String, String)]) -> tonic::metadata::MetadataMap { let mut h = http::HeaderMap::new(); for (k, v) in v { h.append(k.parse::<http::HeaderName>().unwrap(), v.parse().unwrap()); } tonic::metadata::MetadataMap::from_headers(h) }
fn grpc_settings(c: &mut Ctx, rt: &tokio::runtime::Runtime) {
    for _ in 0..c.n(300) {
        let r = &mut c.rng;
        let signal = r.usize(3);
        let mut env: BTreeMap<String, String> = BTreeMap::new();
        for sig in [Some(0), Some(1), Some(2), None] {
            if let Some(v) = some(r, header_list) { env.insert(var(sig, "HEADERS"), v); }
            if let Some(v) = some(r, |r| r.pick(&["gzip", "zstd", "gzip", "zstd", "", "GZIP", "none"]).to_string()) { env.insert(var(sig, "COMPRESSION"), v); }
        }
        let z = if r.chance(1, 3) { Some(*r.pick(&[Compression::Gzip, Compression::Zstd])) } else { None };
        let meta: Vec<Vec<(String, String)>> = (0..r.usize(3)).map(|_| (0..r.usize(3)).map(|_| (r.pick(&["a", "b", "x-own", "user-agent"]).to_string(), r.pick(&["1", "2", "z z"]).to_string())).collect()).collect();
        c.case(format!("{} exporter over gRPC, environment {env:?}, with_compression {z:?}, with_metadata {meta:?}", SIGNALS[signal].0), true, || {
            clear();
            for (k, v) in &env { std::env::set_var(k, v); }
            let seen: Arc<Mutex<Vec<http::HeaderMap>>> = Default::default();
            let s2 = seen.clone();
            let icept = move |q: tonic::Request<()>| -> Result<tonic::Request<()>, tonic::Status> { s2.lock().unwrap().push(q.metadata().clone().into_headers()); Err(tonic::Status::cancelled("no")) };
            let maps: Vec<_> = meta.iter().map(|m| metadata(m)).collect();
            let none: Option<String> = None;
            let got = match signal { 0 => grpc_built!(SpanExporter::builder(), none, z, &maps, Some(icept), rt).map(Ex::S), 1 => grpc_built!(LogExporter::builder(), none, z, &maps, Some(icept), rt).map(Ex::L), _ => grpc_built!(MetricExporter::builder(), none, z, &maps, Some(icept), rt).map(Ex::M) };
            let named = set(&env, Some(signal), "COMPRESSION").or(set(&env, None, "COMPRESSION"));
            let ok = z.is_some() || named.map(|n| n == "gzip" || n == "zstd").unwrap_or(true);
            let e = match got { Ok(e) if ok => e, Err(_) if !ok => return Ok(()), Ok(_) => return Err("built with an unknown compression".into()), Err(e) => return Err(format!("not built: {e}")) };
            let mut b = Batch { spans: vec![], logs: vec![], metrics: sd::ResourceMetrics { resource: Resource::builder_empty().build(), scope_metrics: vec![] } };
            if rt.block_on(e.export(&mut b)).is_ok() { return Err("the interceptor's refusal was reported as success".into()); }
            let seen = seen.lock().unwrap();
            if seen.len() != 1 { return Err(format!("interceptor called {} times", seen.len())); }
            let mut want: HashMap<http::HeaderName, Vec<http::HeaderValue>> = HashMap::new();
            let over = |want: &mut HashMap<http::HeaderName, Vec<http::HeaderValue>>, v: Vec<(http::HeaderName, http::HeaderValue)>| { let mut m: HashMap<_, Vec<_>> = HashMap::new(); for (k, x) in v { m.entry(k).or_default().push(x); } want.extend(m); };
            for m in &meta { over(&mut want, m.iter().map(|(k, v)| (k.parse().unwrap(), v.parse().unwrap())).collect()); }
            if let Some(l) = set(&env, Some(signal), "HEADERS").or(set(&env, None, "HEADERS")) { over(&mut want, listed(l)); }
            for (k, v) in &want { let g: Vec<_> = seen[0].get_all(k).iter().cloned().collect(); if &g != v { return Err(format!("metadata {k}: {g:?}, expected {v:?}")); } }
            for k in seen[0].keys() { if !want.contains_key(k) && *k != "user-agent" { return Err(format!("metadata {k} sent")); } }
            Ok(())
        });
    }
    clear();
    // where it connects to: one listener for each place an endpoint can come from
    for _ in 0..c.n(12) {
        let r = &mut c.rng;
        let signal = r.usize(3);
        let on: [bool; 3] = [r.chance(1, 3), r.bool(), r.bool()];
        let gz = r.bool();
        let blank = r.bool();
        c.case(format!("{} exporter over gRPC, endpoint from builder {}, signal variable {}, general variable {}, gzip {gz}{}", SIGNALS[signal].0, on[0], on[1], on[2], if blank { ", the signal variable empty otherwise" } else { "" }), true, || {
            clear();
            if on == [false; 3] { return Ok(()); }
            let ls: Vec<std::net::TcpListener> = (0..4).map(|_| std::net::TcpListener::bind("127.0.0.1:0").unwrap()).collect();
            for l in &ls { l.set_nonblocking(true).unwrap(); }
            let at = |i: usize| format!("http://{}", ls[i].local_addr().unwrap());
            if on[1] { std::env::set_var(var(Some(signal), "ENDPOINT"), at(1)); } else if blank { std::env::set_var(var(Some(signal), "ENDPOINT"), ""); }
            if on[2] { std::env::set_var(var(None, "ENDPOINT"), at(2)); }
            std::env::set_var(var(Some((signal + 1) % 3), "ENDPOINT"), at(3));
            std::env::set_var(var(Some(signal), "TIMEOUT"), "150");
            std::env::set_var(var(None, "TIMEOUT"), "60000");
            let end = if on[0] { Some(at(0)) } else { None };
            let z = if gz { Some(Compression::Gzip) } else { None };
            let none: Option<fn(tonic::Request<()>) -> Result<tonic::Request<()>, tonic::Status>> = None;
            let maps: Vec<tonic::metadata::MetadataMap> = vec![];
            let e = match signal { 0 => grpc_built!(SpanExporter::builder(), end, z, &maps, none, rt).map(Ex::S), 1 => grpc_built!(LogExporter::builder(), end, z, &maps, none, rt).map(Ex::L), _ => grpc_built!(MetricExporter::builder(), end, z, &maps, none, rt).map(Ex::M) }.map_err(|e| e.to_string())?;
            let mut b = Batch { spans: vec![], logs: vec![], metrics: sd::ResourceMetrics { resource: Resource::builder_empty().build(), scope_metrics: vec![] } };
            let want = if on[0] { 0 } else if on[1] { 1 } else { 2 };
            let mut got: Vec<usize> = vec![];
            // a busy machine may let the timeout pass before the connection is made
            for _ in 0..20 {
                let r = rt.block_on(async { tokio::time::timeout(Duration::from_secs(20), e.export(&mut b)).await });
                match r { Err(_) => return Err("no answer and no timeout".into()), Ok(Ok(())) => return Err("success without an answer".into()), Ok(Err(_)) => {} }
                got = (0..4).filter(|i| ls[*i].accept().is_ok()).collect();
                if !got.is_empty() { break; }
            }
            if got != vec![want] { return Err(format!("connected to {got:?}, expected {want} (0 builder, 1 signal, 2 general, 3 another signal)")); }
            Ok(())
        });
    }
    clear();
}
pub fn c24(c: &mut Ctx) {
    c.rule = "the captured request's URI, headers and timeout are those the statement gives for the environment and the builder calls".into();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    settings(c);
    grpc_settings(c, &rt);
}

// ---- exports ----
struct Call { path: String, own: bool, gzip: bool, body: Vec<u8> }
type Calls = Arc<Mutex<Vec<Call>>>;
async fn call(q: http::Request<h2::RecvStream>, mut out: h2::server::SendResponse<Bytes>, seen: Calls, code: Arc<Mutex<i32>>) -> Option<()> {
    let (head, mut body) = q.into_parts();
    let mut raw = vec![];
    while let Some(d) = body.data().await { let d = d.ok()?; let _ = body.flow_control().release_capacity(d.len()); raw.extend_from_slice(&d); }
    // one length-prefixed message
    let gzip = raw.first() == Some(&1);
    let msg = if raw.len() >= 5 && u32::from_be_bytes([raw[1], raw[2], raw[3], raw[4]]) as usize == raw.len() - 5 { raw[5..].to_vec() } else { b"not one message".to_vec() };
    let msg = if gzip { let mut v = vec![]; std::io::Read::read_to_end(&mut flate2::read::GzDecoder::new(&msg[..]), &mut v).ok()?; v } else { msg };
    seen.lock().unwrap().push(Call { path: head.uri.path().into(), own: head.headers.get("x-own").map(|v| v == "1").unwrap_or(false), gzip, body: msg });
    let code = *code.lock().unwrap();
    let answer = http::Response::builder().status(200).header("content-type", "application/grpc");
    if code != 0 { out.send_response(answer.header("grpc-status", code).header("grpc-message", "no").body(()).ok()?, true).ok()?; return Some(()); }
    let mut s = out.send_response(answer.body(()).ok()?, false).ok()?;
    s.send_data(Bytes::from_static(&[0; 5]), false).ok()?;
    let mut end = http::HeaderMap::new();
    end.insert("grpc-status", http::HeaderValue::from_static("0"));
    s.send_trailers(end).ok()
}
/// a gRPC server answering every call with the code at hand
async fn serve(seen: Calls, code: Arc<Mutex<i32>>) -> std::io::Result<std::net::SocketAddr> {
    let l = tokio::net::TcpListener::bind("127.0.0.1:0").await?;
    let at = l.local_addr()?;
    tokio::spawn(async move {
        while let Ok((io, _)) = l.accept().await {
            let (seen, code) = (seen.clone(), code.clone());
            tokio::spawn(async move {
                let Ok(mut c) = h2::server::handshake(io).await else { return };
                while let Some(Ok((q, out))) = c.accept().await { let (s, k) = (seen.clone(), code.clone()); tokio::spawn(async move { call(q, out, s, k).await }); }
            });
        }
    });
    Ok(at)
}
pub fn c25(c: &mut Ctx) {
    c.rule = "one POST per export with the transformed batch as its body, success exactly for a 2xx answer, nothing after shutdown".into();
    clear();
    for _ in 0..c.n(600) {
        let r = &mut c.rng;
        let signal = r.usize(3);
        let res = t::resource(r);
        let protocol = *r.pick(&[Protocol::HttpBinary, Protocol::HttpJson, Protocol::HttpBinary, Protocol::Grpc]);
        let own = r.bool();
        let with_res = r.bool();
        let other = t::resource(r);
        let change = r.usize(8);
        let ctype = r.chance(1, 8);
        let steps: Vec<(u16, Option<Batch>)> = (0..1 + r.usize(5)).map(|_| if r.chance(1, 6) { (0, None) } else { (*r.pick(&[200, 200, 202, 204, 0, 199, 300, 301, 400, 404, 429, 500, 503]), Some(batch(r, res.clone()))) }).collect();
        let text: Vec<String> = steps.iter().map(|(s, b)| match b { Some(b) => format!("export answered {s}: {}", match signal { 0 => format!("{:?}", b.spans), 1 => format!("{:?}", b.logs), _ => format!("{:?}", b.metrics) }), None => "shutdown".into() }).collect();
        c.case(format!("{} exporter {protocol:?}, resource {res:?} set {with_res}, then {other:?} before step {change}, content type given {ctype}, {text:?}", SIGNALS[signal].0), true, || {
            let cl = client();
            let given = Set { endpoint: Some("http://h:9/p".into()), timeout: None, headers: [("x-own", "1", own), ("content-type", "x/y", ctype)].iter().filter(|h| h.2).map(|h| (h.0.to_string(), h.1.to_string())).collect(), protocol: Some(protocol) };
            let mut e = http(signal, &given, &cl).map_err(|e| e.to_string())?;
            if with_res { e.set_resource(&res); }
            let mut rs = if with_res { ResourceAttributesWithSchema::from(&res) } else { ResourceAttributesWithSchema::default() };
            let mut down = false;
            for (i, (answer, b)) in steps.into_iter().enumerate() {
                let before = cl.0.lock().unwrap().len();
                if i == change { e.set_resource(&other); rs = ResourceAttributesWithSchema::from(&other); }
                let Some(mut b) = b else {
                    let x = e.shutdown();
                    let want = !down || signal == 2;
                    if x.is_ok() != want { return Err(format!("step {i}: shutdown gave {x:?}")); }
                    if !want && !matches!(x, Err(OTelSdkError::AlreadyShutdown)) { return Err(format!("step {i}: second shutdown gave {x:?}")); }
                    down = true;
                    if cl.0.lock().unwrap().len() != before { return Err(format!("step {i}: shutdown sent something")); }
                    continue;
                };
                *cl.1.lock().unwrap() = answer;
                let x = futures_executor::block_on(e.export(&mut b));
                let sent = cl.0.lock().unwrap();
                if down {
                    if sent.len() != before || !matches!(x, Err(OTelSdkError::AlreadyShutdown)) { return Err(format!("step {i}: export after shutdown gave {x:?}, sent {}", sent.len() - before)); }
                    continue;
                }
                if sent.len() != before + 1 { return Err(format!("step {i}: {} requests", sent.len() - before)); }
                let ok = (200..300).contains(&answer);
                if x.is_ok() != ok { return Err(format!("step {i}: answer {answer} reported as {x:?}")); }
                let q = &sent[before];
                if q.method() != http::Method::POST || q.uri() != "http://h:9/p" { return Err(format!("step {i}: {} {}", q.method(), q.uri())); }
                let json = protocol == Protocol::HttpJson;
                let ct: Vec<_> = q.headers().get_all("content-type").iter().map(|v| v.to_str().unwrap_or("?")).collect();
                if ct != vec![if ctype { "x/y" } else if json { "application/json" } else { "application/x-protobuf" }] { return Err(format!("step {i}: content type {ct:?}")); }
                if q.headers().get("x-own").is_some() != own { return Err(format!("step {i}: headers {:?}", q.headers())); }
                let want = e.message(&b, &rs);
                let got = if json { let mut v: serde_json::Value = serde_json::from_slice(q.body()).map_err(|e| format!("step {i}: body is no JSON: {e}"))?; ordered(&mut v); v } else { e.decoded(q.body()).map_err(|e| format!("step {i}: body is no message: {e}"))? };
                if got != want { return Err(format!("step {i}: body {got}, expected {want}")); }
            }
            Ok(())
        });
    }
    // gRPC: what is refused is not reported as success, and after shutdown the interceptor is not even asked
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    for _ in 0..c.n(60) {
        let r = &mut c.rng;
        let signal = r.usize(3);
        let steps: Vec<(bool, i32)> = (0..1 + r.usize(5)).map(|_| (r.chance(2, 3), 1 + r.below(16) as i32)).collect();
        c.case(format!("{} exporter over gRPC with an interceptor refusing with a code, exports (true) and shutdowns {steps:?}", SIGNALS[signal].0), true, || {
            let n = Arc::new(Mutex::new((0, 0)));
            let n2 = n.clone();
            let icept = move |_: tonic::Request<()>| -> Result<tonic::Request<()>, tonic::Status> { let mut n = n2.lock().unwrap(); n.0 += 1; Err(tonic::Status::new(tonic::Code::from_i32(n.1), "no")) };
            let (none, z, maps): (Option<String>, Option<Compression>, Vec<tonic::metadata::MetadataMap>) = (None, None, vec![]);
            let mut e = match signal { 0 => grpc_built!(SpanExporter::builder(), none, z, &maps, Some(icept), rt).map(Ex::S), 1 => grpc_built!(LogExporter::builder(), none, z, &maps, Some(icept), rt).map(Ex::L), _ => grpc_built!(MetricExporter::builder(), none, z, &maps, Some(icept), rt).map(Ex::M) }.map_err(|e| e.to_string())?;
            let mut down = false;
            for (i, (s, code)) in steps.iter().enumerate() {
                let before = n.lock().unwrap().0;
                n.lock().unwrap().1 = *code;
                if !s { let x = e.shutdown(); if signal == 0 && x.is_ok() == down { return Err(format!("step {i}: shutdown gave {x:?}")); } down = true; continue; }
                let mut b = Batch { spans: vec![], logs: vec![], metrics: sd::ResourceMetrics { resource: Resource::builder_empty().build(), scope_metrics: vec![] } };
                let x = rt.block_on(e.export(&mut b));
                if x.is_ok() { return Err(format!("step {i}: success")); }
                let asked = n.lock().unwrap().0 - before;
                let want = if down && signal != 1 { 0 } else { 1 };
                if asked != want { return Err(format!("step {i}: interceptor called {asked} times")); }
            }
            Ok(())
        });
    }
    // gRPC against a server that keeps what it is sent
    for round in 0..c.n(153) {
        let r = &mut c.rng;
        let signal = round as usize % 3;
        let first = (round / 3 % 17) as i32;
        let gz = r.chance(1, 3);
        let own = r.bool();
        enum Step { Down, Res(Resource), Export(i32, Batch) }
        let steps: Vec<Step> = (0..1 + r.usize(6)).map(|_| match r.below(8) { 0 => Step::Down, 1 | 2 => Step::Res(t::resource(r)), _ => { let res = t::resource(r); Step::Export(match r.below(4) { 0 => 0, 1 => r.below(17) as i32, _ => first }, batch(r, res)) } }).collect();
        let text: Vec<String> = steps.iter().map(|s| match s { Step::Down => "shutdown".into(), Step::Res(r) => format!("set_resource {r:?}"), Step::Export(a, b) => format!("export answered code {a}: {}", match signal { 0 => format!("{:?}", b.spans), 1 => format!("{:?}", b.logs), _ => format!("{:?}", b.metrics) }) }).collect();
        c.case(format!("{} exporter over gRPC, gzip {gz}, metadata {own}, {text:?}", SIGNALS[signal].0), true, || {
            let seen: Calls = Default::default();
            let code = Arc::new(Mutex::new(0));
            let at = rt.block_on(serve(seen.clone(), code.clone())).map_err(|e| e.to_string())?;
            let end = Some(format!("http://{at}"));
            let z = if gz { Some(Compression::Gzip) } else { None };
            let maps = if own { vec![metadata(&[("x-own".into(), "1".into())])] } else { vec![] };
            let none: Option<fn(tonic::Request<()>) -> Result<tonic::Request<()>, tonic::Status>> = None;
            let mut e = match signal { 0 => grpc_built!(SpanExporter::builder(), end, z, &maps, none, rt).map(Ex::S), 1 => grpc_built!(LogExporter::builder(), end, z, &maps, none, rt).map(Ex::L), _ => grpc_built!(MetricExporter::builder(), end, z, &maps, none, rt).map(Ex::M) }.map_err(|e| e.to_string())?;
            let path = ["/opentelemetry.proto.collector.trace.v1.TraceService/Export", "/opentelemetry.proto.collector.logs.v1.LogsService/Export", "/opentelemetry.proto.collector.metrics.v1.MetricsService/Export"][signal];
            let mut rs = ResourceAttributesWithSchema::default();
            let mut down = false;
            for (i, s) in steps.into_iter().enumerate() {
                let before = seen.lock().unwrap().len();
                match s {
                    Step::Res(r) => { e.set_resource(&r); rs = ResourceAttributesWithSchema::from(&r); }
                    Step::Down => { let x = e.shutdown(); if signal == 0 && x.is_ok() == down { return Err(format!("step {i}: shutdown gave {x:?}")); } down = true; }
                    Step::Export(answer, mut b) => {
                        *code.lock().unwrap() = answer;
                        let x = rt.block_on(async { tokio::time::timeout(Duration::from_secs(60), e.export(&mut b)).await }).map_err(|_| "no answer".to_string())?;
                        let calls = seen.lock().unwrap();
                        if down && signal != 1 { if calls.len() != before || x.is_ok() || (signal == 0 && !matches!(x, Err(OTelSdkError::AlreadyShutdown))) { return Err(format!("step {i}: export after shutdown gave {x:?}, {} calls", calls.len() - before)); } continue; }
                        if calls.len() != before + 1 { return Err(format!("step {i}: {} calls", calls.len() - before)); }
                        if x.is_ok() != (answer == 0) { return Err(format!("step {i}: code {answer} reported as {x:?}")); }
                        let q = &calls[before];
                        if q.path != path { return Err(format!("step {i}: called {}", q.path)); }
                        if q.own != own || q.gzip != gz { return Err(format!("step {i}: metadata sent {}, compressed {}", q.own, q.gzip)); }
                        let want = e.message(&b, &rs);
                        let got = e.decoded(&q.body).map_err(|e| format!("step {i}: body is no message: {e}"))?;
                        if got != want { return Err(format!("step {i}: body {got}, expected {want}")); }
                    }
                }
            }
            Ok(())
        });
    }
    let _ = Temporality::Delta;
}

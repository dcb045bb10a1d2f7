// C30 Zipkin: what is posted for a batch of spans.
use crate::common::Ctx;
use crate::transform as t;
use bytes::Bytes;
use opentelemetry::trace::{Event, SpanId, SpanKind, Status};
use opentelemetry::KeyValue;
use opentelemetry_http::{HttpClient, HttpError};
use opentelemetry_sdk::trace::{SpanData, SpanExporter as _};
use opentelemetry_zipkin::ZipkinExporter;
use serde_json::{json, Map, Value};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::{SystemTime, UNIX_EPOCH};

type Sent = Arc<Mutex<Vec<http::Request<Bytes>>>>;
#[derive(Debug, Clone)]
struct Client(Sent, Arc<Mutex<u16>>);
#[async_trait::async_trait]
impl HttpClient for Client {
    async fn send_bytes(&self, q: http::Request<Bytes>) -> Result<http::Response<Bytes>, HttpError> {
        self.0.lock().unwrap().push(q);
        match *self.1.lock().unwrap() { 0 => Err("no connection".into()), s => Ok(http::Response::builder().status(s).body(Bytes::from_static(b"x")).unwrap()) }
    }
}
fn us(a: SystemTime, b: SystemTime) -> u64 { b.duration_since(a).map(|d| (d.as_nanos() / 1000) as u64).unwrap_or(0) }
fn want(s: &SpanData, addr: Option<SocketAddr>) -> Value {
    let mut tags = Map::new();
    for kv in &s.attributes { if kv.key.as_str() != "error" { tags.insert(kv.key.to_string(), json!(kv.value.to_string())); } }
    tags.insert("otel.library.name".into(), json!(s.instrumentation_scope.name()));
    if let Some(v) = s.instrumentation_scope.version() { tags.insert("otel.library.version".into(), json!(v)); }
    match &s.status { Status::Unset => {} Status::Ok => { tags.insert("otel.status_code".into(), json!("OK")); } Status::Error { description } => { tags.insert("otel.status_code".into(), json!("ERROR")); tags.insert("error".into(), json!(description)); } }
    let mut o = Map::new();
    o.insert("traceId".into(), json!(format!("{:032x}", u128::from_be_bytes(s.span_context.trace_id().to_bytes()))));
    o.insert("id".into(), json!(format!("{:016x}", u64::from_be_bytes(s.span_context.span_id().to_bytes()))));
    if s.parent_span_id != SpanId::INVALID { o.insert("parentId".into(), json!(format!("{:016x}", u64::from_be_bytes(s.parent_span_id.to_bytes())))); }
    o.insert("name".into(), json!(s.name));
    let kind = match s.span_kind { SpanKind::Client => "CLIENT", SpanKind::Server => "SERVER", SpanKind::Producer => "PRODUCER", SpanKind::Consumer => "CONSUMER", SpanKind::Internal => "" };
    if kind != "" && !s.attributes.iter().any(|kv| kv.key.as_str() == "span.kind") { o.insert("kind".into(), json!(kind)); }
    o.insert("timestamp".into(), json!(us(UNIX_EPOCH, s.start_time)));
    o.insert("duration".into(), json!(us(s.start_time, s.end_time)));
    o.insert("localEndpoint".into(), match addr { None => json!({}), Some(SocketAddr::V4(a)) => json!({"ipv4": a.ip().to_string(), "port": a.port()}), Some(SocketAddr::V6(a)) => json!({"ipv6": a.ip().to_string(), "port": a.port()}) });
    o.insert("annotations".into(), Value::Array(s.events.iter().map(|e| json!({"timestamp": us(UNIX_EPOCH, e.timestamp), "value": e.name})).collect()));
    o.insert("tags".into(), Value::Object(tags));
    o.insert("debug".into(), json!(false));
    o.insert("shared".into(), json!(false));
    Value::Object(o)
}
pub fn c30(cx: &mut Ctx) {
    cx.rule = "at least one span exported".into();
    for round in 0..cx.n(1500) {
        let r = &mut cx.rng;
        let (sent, status): (Sent, _) = (Sent::default(), Arc::new(Mutex::new(200)));
        let addr = *r.pick(&[None, Some(SocketAddr::from(([10, 0, 0, 7], 80))), Some(SocketAddr::from(([0, 0, 0, 0, 0, 0, 0, 1], 65535))), Some(SocketAddr::from(([1, 2, 3, 4], 0)))]);
        let uri = r.pick(&["http://collector:9411/api/v2/spans", "https://a/b?c=d", "http://x/"]).to_string();
        let mut b = ZipkinExporter::builder();
        if r.bool() { b = b.with_http_client(Client(sent.clone(), status.clone())).with_collector_endpoint(uri.clone()); } else { b = b.with_collector_endpoint("http://never/").with_collector_endpoint(uri.clone()).with_http_client(Client(sent.clone(), status.clone())); }
        if let Some(a) = addr { b = b.with_service_address(a); }
        let mut history = vec![];
        for k in 0..1 + r.usize(3) {
            let n = r.below(4);
            let mut spans = vec![];
            for i in 0..n {
                let sc = t::scope(r);
                let mut s = t::span(r, &sc, i);
                for _ in 0..r.usize(3) { let kv = KeyValue::new(*r.pick(&["span.kind", "error", "otel.library.name", "otel.library.version", "otel.status_code", "a", "service.name"]), match r.below(5) { 0 => opentelemetry::Value::Bool(r.bool()), 1 => opentelemetry::Value::I64(r.below(3) as i64), _ => opentelemetry::Value::from(*r.pick(&["client", "true", ""])) }); let at = r.usize(s.attributes.len() + 1); s.attributes.insert(at, kv); }
                if r.chance(1, 3) { s.end_time = s.start_time; }
                if r.chance(1, 3) { s.end_time = s.start_time + std::time::Duration::from_nanos(r.below(1 << 40)); }
                if r.chance(1, 4) { s.events.events.push(Event::new("x", s.start_time, vec![], 0)); }
                spans.push(s);
            }
            history.push((k, *r.pick(&[200u16, 202, 204, 299, 300, 304, 400, 404, 500, 503, 0, 199 - 99]), spans));
        }
        let any = history.iter().any(|h| !h.2.is_empty());
        cx.case(format!("round {round} {addr:?} {uri} {history:?}"), any, || {
            let e = b.build().map_err(|e| e.to_string())?;
            for (k, st, spans) in &history {
                *status.lock().unwrap() = *st;
                sent.lock().unwrap().clear();
                let res = futures_executor::block_on(e.export(spans.clone()));
                let q = std::mem::take(&mut *sent.lock().unwrap());
                if q.len() != 1 { return Err(format!("export {k}: {} requests", q.len())); }
                if q[0].method() != "POST" || q[0].uri().to_string() != uri || q[0].headers().get("content-type").map(|v| v.as_bytes()) != Some(b"application/json") { return Err(format!("export {k}: {q:?}")); }
                if res.is_ok() != (200..300).contains(st) { return Err(format!("export {k}: answer {st} reported as {res:?}")); }
                let got: Value = serde_json::from_slice(q[0].body()).map_err(|e| e.to_string())?;
                let want = Value::Array(spans.iter().map(|s| want(s, addr)).collect());
                if got != want { return Err(format!("export {k}: posted {got}, expected {want}")); }
            }
            Ok(())
        });
    }
    // no client, or an endpoint that is no URI
    cx.case("no client".into(), true, || if ZipkinExporter::builder().build().is_ok() { Err("built without a client".into()) } else { Ok(()) });
    cx.case("bad endpoint".into(), true, || if ZipkinExporter::builder().with_http_client(Client(Sent::default(), Arc::new(Mutex::new(200)))).with_collector_endpoint("not a uri").build().is_ok() { Err("built with a bad endpoint".into()) } else { Ok(()) });
}

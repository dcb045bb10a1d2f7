// C23 OTLP messages carry what was exported.
use crate::common::{Ctx, Rng};
use opentelemetry::logs::{AnyValue as LogValue, LogRecord as _, Logger as _, LoggerProvider as _, Severity};
use opentelemetry::trace::{Event, Link, SpanContext, SpanId, SpanKind, Status, TraceFlags, TraceId, TraceState};
use opentelemetry::{Array, InstrumentationScope, Key, KeyValue, Value};
use opentelemetry_proto::tonic::collector::metrics::v1::ExportMetricsServiceRequest;
use opentelemetry_proto::tonic::common::v1::{any_value::Value as Pb, AnyValue, InstrumentationScope as PbScope, KeyValue as PbKv};
use opentelemetry_proto::tonic::logs::v1::ResourceLogs;
use opentelemetry_proto::tonic::metrics::v1 as pm;
use opentelemetry_proto::tonic::trace::v1::ResourceSpans;
use opentelemetry_proto::tonic::tracez::v1::{ErrorData, LatencyData, RunningData};
use opentelemetry_proto::transform::common::tonic::ResourceAttributesWithSchema;
use opentelemetry_proto::transform::{logs::tonic::group_logs_by_resource_and_scope, trace::tonic::group_spans_by_resource_and_scope};
use opentelemetry_sdk::logs::{LogBatch, SdkLogRecord, SdkLogger, SdkLoggerProvider};
use opentelemetry_sdk::metrics::{data as sd, Temporality};
use opentelemetry_sdk::trace::{SpanData, SpanEvents, SpanLinks};
use opentelemetry_sdk::Resource;
use std::collections::HashMap;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

fn time(r: &mut Rng) -> SystemTime {
    match r.below(6) { 0 => UNIX_EPOCH, 1 => UNIX_EPOCH - Duration::from_nanos(1 + r.below(1 << 40)), 2 => UNIX_EPOCH + Duration::from_nanos(u64::MAX - r.below(3)), _ => UNIX_EPOCH + Duration::from_nanos(r.next()) }
}
fn nanos(t: SystemTime) -> u64 { t.duration_since(UNIX_EPOCH).map(|d| u64::try_from(d.as_nanos()).unwrap()).unwrap_or(0) }
fn text(r: &mut Rng) -> String { r.pick(&["", "a", "b", "http.method", "é中", "x y", "\u{0}", "service.name", "0", "long long long long long long long long"]).to_string() }
fn int(r: &mut Rng) -> i64 { match r.below(4) { 0 => *r.pick(&[0, 1, -1, i64::MAX, i64::MIN]), _ => r.next() as i64 } }
fn value(r: &mut Rng) -> Value {
    match r.below(8) {
        0 => Value::Bool(r.bool()), 1 => Value::I64(int(r)), 2 => Value::F64(r.f64_any()), 3 => Value::String(text(r).into()),
        4 => Value::Array(Array::Bool((0..r.usize(4)).map(|_| r.bool()).collect())), 5 => Value::Array(Array::I64((0..r.usize(4)).map(|_| int(r)).collect())),
        6 => Value::Array(Array::F64((0..r.usize(4)).map(|_| r.f64_any()).collect())), _ => Value::Array(Array::String((0..r.usize(4)).map(|_| text(r).into()).collect())),
    }
}
fn kvs(r: &mut Rng, n: usize) -> Vec<KeyValue> { (0..r.usize(n)).map(|_| KeyValue::new(text(r), value(r))).collect() }
fn f(x: f64) -> String { format!("f{:016x}", x.to_bits()) }
fn list(i: impl Iterator<Item = String>) -> String { format!("[{}]", i.collect::<Vec<_>>().join(", ")) }
fn want_value(v: &Value) -> String {
    match v {
        Value::Bool(b) => format!("b{b}"), Value::I64(i) => format!("i{i}"), Value::F64(x) => f(*x), Value::String(s) => format!("s{:?}", s.as_str()),
        Value::Array(Array::Bool(v)) => list(v.iter().map(|b| format!("b{b}"))), Value::Array(Array::I64(v)) => list(v.iter().map(|b| format!("i{b}"))),
        Value::Array(Array::F64(v)) => list(v.iter().map(|b| f(*b))), Value::Array(Array::String(v)) => list(v.iter().map(|b| format!("s{:?}", b.as_str()))),
        v => format!("? {v:?}"),
    }
}
fn want_kvs<'a>(v: impl Iterator<Item = (&'a Key, &'a Value)>) -> String { list(v.map(|(k, v)| format!("{:?}={}", k.as_str(), want_value(v)))) }
fn want_attrs(v: &[KeyValue]) -> String { want_kvs(v.iter().map(|kv| (&kv.key, &kv.value))) }
fn got_value(v: &Option<AnyValue>) -> String {
    match v.as_ref().and_then(|v| v.value.as_ref()) {
        None => "none".into(),
        Some(Pb::BoolValue(b)) => format!("b{b}"), Some(Pb::IntValue(i)) => format!("i{i}"), Some(Pb::DoubleValue(x)) => f(*x), Some(Pb::StringValue(s)) => format!("s{s:?}"),
        Some(Pb::ArrayValue(a)) => list(a.values.iter().map(|v| got_value(&Some(v.clone())))),
        Some(Pb::KvlistValue(a)) => { let mut m: Vec<String> = a.values.iter().map(|kv| format!("{:?}={}", kv.key, got_value(&kv.value))).collect(); m.sort(); format!("map{}", list(m.into_iter())) }
        Some(Pb::BytesValue(b)) => format!("bytes{b:?}"),
    }
}
fn got_attrs(v: &[PbKv]) -> String { list(v.iter().map(|kv| format!("{:?}={}", kv.key, got_value(&kv.value)))) }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
pub(crate) fn scope(r: &mut Rng) -> InstrumentationScope {
    let mut b = InstrumentationScope::builder(r.pick(&["lib", "other", ""]).to_string());
    if r.bool() { b = b.with_version(r.pick(&["1", "2"]).to_string()); }
    if r.bool() { b = b.with_schema_url(r.pick(&["http://scope/1", "http://scope/2"]).to_string()); }
    if r.chance(1, 3) { b = b.with_attributes(kvs(r, 3)); }
    b.build()
}
pub(crate) fn resource(r: &mut Rng) -> Resource {
    let a = kvs(r, 4);
    if r.bool() { Resource::builder_empty().with_schema_url(a, "http://resource/1").build() } else { Resource::builder_empty().with_attributes(a).build() }
}
fn want_scope(s: &InstrumentationScope, target: Option<&str>) -> String {
    match target {
        Some(t) => format!("scope {t:?} \"\" [] url {:?}", s.schema_url().unwrap_or("")),
        None => format!("scope {:?} {:?} {} url {:?}", s.name(), s.version().unwrap_or(""), want_attrs(&s.attributes().cloned().collect::<Vec<_>>()), s.schema_url().unwrap_or("")),
    }
}
fn got_scope(s: &Option<PbScope>, url: &str) -> String {
    match s { None => "no scope".into(), Some(s) => format!("scope {:?} {:?} {} url {url:?}{}", s.name, s.version, got_attrs(&s.attributes), if s.dropped_attributes_count != 0 { " dropped" } else { "" }) }
}
fn sorted(mut v: Vec<String>) -> Vec<String> { v.sort(); v }
fn same(what: &str, got: Vec<String>, want: Vec<String>) -> Result<(), String> {
    if got == want { return Ok(()); }
    let i = (0..).find(|i| got.get(*i) != want.get(*i)).unwrap();
    Err(format!("{what} {i}: {:?}, expected {:?}", got.get(i), want.get(i)))
}
fn resource_ok(what: &str, got: &Option<opentelemetry_proto::tonic::resource::v1::Resource>, url: &str, r: &Resource) -> Result<(), String> {
    let g = got.as_ref().ok_or("no resource")?;
    let mut got: Vec<String> = g.attributes.iter().map(|kv| format!("{:?}={}", kv.key, got_value(&kv.value))).collect();
    let mut want: Vec<String> = r.iter().map(|(k, v)| format!("{:?}={}", k.as_str(), want_value(v))).collect();
    got.sort(); want.sort();
    if got != want || url != r.schema_url().unwrap_or("") { return Err(format!("{what}: resource {got:?} {url:?}, expected {want:?} {:?}", r.schema_url())); }
    Ok(())
}

// ---- spans ----
fn context(r: &mut Rng) -> SpanContext {
    let st = TraceState::from_key_value((0..r.usize(3)).map(|i| (format!("k{i}"), format!("v{}", r.below(3))))).unwrap();
    SpanContext::new(TraceId::from((r.next() as u128) << 64 | r.next() as u128), SpanId::from(r.next()), TraceFlags::new(r.next() as u8), r.bool(), st)
}
pub(crate) fn span(r: &mut Rng, s: &InstrumentationScope, n: u64) -> SpanData {
    let mut events = SpanEvents::default();
    events.events = (0..r.usize(4)).map(|_| Event::new(text(r), time(r), kvs(r, 3), r.below(9) as u32)).collect();
    events.dropped_count = r.below(9) as u32;
    let mut links = SpanLinks::default();
    links.links = (0..r.usize(4)).map(|_| Link::new(context(r), kvs(r, 3), r.below(9) as u32)).collect();
    links.dropped_count = r.below(9) as u32;
    SpanData {
        span_context: context(r), parent_span_id: if r.bool() { SpanId::INVALID } else { SpanId::from(r.next()) },
        span_kind: r.pick(&[SpanKind::Client, SpanKind::Server, SpanKind::Internal, SpanKind::Producer, SpanKind::Consumer]).clone(),
        name: format!("{n} {}", text(r)).into(), start_time: time(r), end_time: time(r), attributes: kvs(r, 5), dropped_attributes_count: r.below(9) as u32, events, links,
        status: match r.below(4) { 0 => Status::Unset, 1 => Status::Ok, 2 => Status::error(""), _ => Status::error(text(r)) }, instrumentation_scope: s.clone(),
    }
}
fn want_span(s: &SpanData) -> String {
    let id = |c: &SpanContext| format!("{:032x} {:016x} {:?} {}", u128::from_be_bytes(c.trace_id().to_bytes()), u64::from_be_bytes(c.span_id().to_bytes()), c.trace_state().header(), c.trace_flags().to_u8());
    let kind = match s.span_kind { SpanKind::Internal => 1, SpanKind::Server => 2, SpanKind::Client => 3, SpanKind::Producer => 4, SpanKind::Consumer => 5 };
    let status = match &s.status { Status::Unset => "0 \"\"".to_string(), Status::Ok => "1 \"\"".into(), Status::Error { description } => format!("2 {:?}", description.as_ref()) };
    let parent = if s.parent_span_id == SpanId::INVALID { String::new() } else { hex(&s.parent_span_id.to_bytes()) };
    format!("{} parent {parent} {:?} kind {kind} {}..{} {} -{} events {} -{} links {} -{} status {status}", id(&s.span_context), s.name, nanos(s.start_time), nanos(s.end_time), want_attrs(&s.attributes), s.dropped_attributes_count,
        list(s.events.events.iter().map(|e| format!("{:?} {} {} -{}", e.name, nanos(e.timestamp), want_attrs(&e.attributes), e.dropped_attributes_count))), s.events.dropped_count,
        list(s.links.links.iter().map(|l| format!("{} {} -{}", id(&l.span_context), want_attrs(&l.attributes), l.dropped_attributes_count))), s.links.dropped_count)
}
fn got_span(s: &opentelemetry_proto::tonic::trace::v1::Span) -> String {
    let id = |t: &[u8], i: &[u8], st: &str, f: u32| format!("{} {} {st:?} {f}", hex(t), hex(i));
    let st = s.status.as_ref().map(|s| format!("{} {:?}", s.code, s.message)).unwrap_or("none".into());
    format!("{} parent {} {:?} kind {} {}..{} {} -{} events {} -{} links {} -{} status {st}", id(&s.trace_id, &s.span_id, &s.trace_state, s.flags), hex(&s.parent_span_id), s.name, s.kind, s.start_time_unix_nano, s.end_time_unix_nano, got_attrs(&s.attributes), s.dropped_attributes_count,
        list(s.events.iter().map(|e| format!("{:?} {} {} -{}", e.name, e.time_unix_nano, got_attrs(&e.attributes), e.dropped_attributes_count))), s.dropped_events_count,
        list(s.links.iter().map(|l| format!("{} {} -{}", id(&l.trace_id, &l.span_id, &l.trace_state, l.flags), got_attrs(&l.attributes), l.dropped_attributes_count))), s.dropped_links_count)
}
/// the three forms a zPage shows a span in
fn tracez(s: &SpanData) -> Result<(), String> {
    let link = |l: &opentelemetry_proto::tonic::trace::v1::span::Link| format!("{} {} {:?} {} {} -{}", hex(&l.trace_id), hex(&l.span_id), l.trace_state, l.flags, got_attrs(&l.attributes), l.dropped_attributes_count);
    let event = |e: &opentelemetry_proto::tonic::trace::v1::span::Event| format!("{:?} {} {} -{}", e.name, e.time_unix_nano, got_attrs(&e.attributes), e.dropped_attributes_count);
    let head = |t: &[u8], i: &[u8], p: &[u8], st: u64, a: &[PbKv], e: String, l: String| format!("{} {} {} {st} {} {e} {l}", hex(t), hex(i), hex(p), got_attrs(a));
    let want = format!("{} {} {} {} {} {} {}", hex(&s.span_context.trace_id().to_bytes()), hex(&s.span_context.span_id().to_bytes()), hex(&s.parent_span_id.to_bytes()), nanos(s.start_time), want_attrs(&s.attributes),
        list(s.events.events.iter().map(|e| format!("{:?} {} {} -{}", e.name, nanos(e.timestamp), want_attrs(&e.attributes), e.dropped_attributes_count))),
        list(s.links.links.iter().map(|l| format!("{:032x} {:016x} {:?} {} {} -{}", u128::from_be_bytes(l.span_context.trace_id().to_bytes()), u64::from_be_bytes(l.span_context.span_id().to_bytes()), l.span_context.trace_state().header(), l.span_context.trace_flags().to_u8(), want_attrs(&l.attributes), l.dropped_attributes_count))));
    let l = LatencyData::from(s.clone());
    same("latency", vec![head(&l.traceid, &l.spanid, &l.parentid, l.starttime, &l.attributes, list(l.events.iter().map(event)), list(l.links.iter().map(link))) + &format!(" {}", l.endtime)], vec![format!("{want} {}", nanos(s.end_time))])?;
    let e = ErrorData::from(s.clone());
    let st = match &s.status { Status::Error { description } => format!("2 {:?}", description.as_ref()), _ => "none".into() };
    same("error", vec![head(&e.traceid, &e.spanid, &e.parentid, e.starttime, &e.attributes, list(e.events.iter().map(event)), list(e.links.iter().map(link))) + &format!(" {}", e.status.map(|s| format!("{} {:?}", s.code, s.message)).unwrap_or("none".into()))], vec![format!("{want} {st}")])?;
    let g = RunningData::from(s.clone());
    same("running", vec![head(&g.traceid, &g.spanid, &g.parentid, g.starttime, &g.attributes, list(g.events.iter().map(event)), list(g.links.iter().map(link)))], vec![want])
}
fn spans(c: &mut Ctx) {
    for _ in 0..c.n(400) {
        let r = &mut c.rng;
        let res = resource(r);
        let scopes: Vec<InstrumentationScope> = (0..1 + r.usize(4)).map(|_| scope(r)).collect();
        let k = r.usize(9);
        let batch: Vec<SpanData> = (0..k as u64).map(|n| { let s = r.pick(&scopes).clone(); span(r, &s, n) }).collect();
        c.case(format!("resource {res:?}, spans {batch:?}"), k > 0, || {
            let rs = ResourceAttributesWithSchema::from(&res);
            let got = group_spans_by_resource_and_scope(batch.clone(), &rs);
            if got.len() != 1 { return Err(format!("{} resource entries", got.len())); }
            resource_ok("spans", &got[0].resource, &got[0].schema_url, &res)?;
            let mut want: Vec<(&InstrumentationScope, String, Vec<String>)> = vec![];
            for s in &batch {
                match want.iter().position(|w| *w.0 == s.instrumentation_scope) { Some(i) => want[i].2.push(want_span(s)), None => want.push((&s.instrumentation_scope, want_scope(&s.instrumentation_scope, None), vec![want_span(s)])) }
            }
            let g = sorted(got[0].scope_spans.iter().map(|s| format!("{}: {}", got_scope(&s.scope, &s.schema_url), s.spans.iter().map(got_span).collect::<Vec<_>>().join("\n"))).collect());
            same("scope", g, sorted(want.iter().map(|w| format!("{}: {}", w.1, w.2.join("\n"))).collect()))?;
            for s in &batch {
                let one = ResourceSpans::new(s.clone(), &rs);
                resource_ok("one span", &one.resource, &one.schema_url, &res)?;
                tracez(s)?;
                same("one span", one.scope_spans.iter().map(|x| format!("{}: {}", got_scope(&x.scope, &x.schema_url), x.spans.iter().map(got_span).collect::<Vec<_>>().join("\n"))).collect(), vec![format!("{}: {}", want_scope(&s.instrumentation_scope, None), want_span(s))])?;
            }
            Ok(())
        });
    }
}

// ---- logs ----
fn log_value(r: &mut Rng, depth: usize) -> LogValue {
    match r.below(if depth == 0 { 5 } else { 7 }) {
        0 => LogValue::Int(int(r)), 1 => LogValue::Double(r.f64_any()), 2 => LogValue::String(text(r).into()), 3 => LogValue::Boolean(r.bool()), 4 => LogValue::Bytes(Box::new((0..r.usize(5)).map(|_| r.next() as u8).collect())),
        5 => LogValue::ListAny(Box::new((0..r.usize(4)).map(|_| log_value(r, depth - 1)).collect())),
        _ => LogValue::Map(Box::new((0..r.usize(4)).map(|_| (Key::from(text(r)), log_value(r, depth - 1))).collect::<HashMap<_, _>>())),
    }
}
fn want_log_value(v: &LogValue) -> String {
    match v {
        LogValue::Int(i) => format!("i{i}"), LogValue::Double(x) => f(*x), LogValue::String(s) => format!("s{:?}", s.as_str()), LogValue::Boolean(b) => format!("b{b}"), LogValue::Bytes(b) => format!("bytes{:?}", b),
        LogValue::ListAny(l) => list(l.iter().map(want_log_value)),
        LogValue::Map(m) => { let mut m: Vec<String> = m.iter().map(|(k, v)| format!("{:?}={}", k.as_str(), want_log_value(v))).collect(); m.sort(); format!("map{}", list(m.into_iter())) }
        v => format!("? {v:?}"),
    }
}
const SEVERITIES: [(Severity, i32); 24] = [
    (Severity::Trace, 1), (Severity::Trace2, 2), (Severity::Trace3, 3), (Severity::Trace4, 4), (Severity::Debug, 5), (Severity::Debug2, 6), (Severity::Debug3, 7), (Severity::Debug4, 8), (Severity::Info, 9), (Severity::Info2, 10), (Severity::Info3, 11), (Severity::Info4, 12),
    (Severity::Warn, 13), (Severity::Warn2, 14), (Severity::Warn3, 15), (Severity::Warn4, 16), (Severity::Error, 17), (Severity::Error2, 18), (Severity::Error3, 19), (Severity::Error4, 20), (Severity::Fatal, 21), (Severity::Fatal2, 22), (Severity::Fatal3, 23), (Severity::Fatal4, 24)];
/// a record and what its message must be
pub(crate) fn record(r: &mut Rng, l: &SdkLogger, n: u64) -> (SdkLogRecord, String, Option<String>) {
    let mut x = l.create_log_record();
    let name = if r.bool() { let n = *r.pick(&["event", "", "other"]); x.set_event_name(n); n } else { "" };
    let target = if r.bool() { let t = r.pick(&["target", "lib", "", "other"]).to_string(); x.set_target(t.clone()); Some(t) } else { None };
    let t = if r.bool() { let t = time(r); x.set_timestamp(t); nanos(t) } else { 0 };
    let o = if r.chance(3, 4) { let t = time(r); x.set_observed_timestamp(t); nanos(t) } else { 0 };
    let st = if r.bool() { x.set_severity_text("WARNING"); "WARNING" } else { "" };
    let sn = if r.chance(4, 5) { let (s, n) = *r.pick(&SEVERITIES); x.set_severity_number(s); n } else { 0 };
    let body = if r.chance(4, 5) { let b = log_value(r, 3); let w = want_log_value(&b); x.set_body(b); w } else { "none".into() };
    let mut attrs = vec![format!("\"n\"=i{n}")];
    x.add_attribute("n", n as i64);
    for _ in 0..r.usize(9) { let (k, v) = (text(r), log_value(r, 2)); attrs.push(format!("{k:?}={}", want_log_value(&v))); x.add_attribute(k, v); }
    let ctx = if r.bool() {
        let (t, s, fl) = ((r.next() as u128) << 64 | r.next() as u128, r.next(), if r.bool() { Some(r.next() as u8) } else { None });
        x.set_trace_context(TraceId::from(t), SpanId::from(s), fl.map(TraceFlags::new));
        format!("{t:032x} {s:016x} {}", fl.unwrap_or(0))
    } else { "  0".into() };
    (x, format!("{t} {o} {sn} {st:?} {name:?} body {body} attrs {} -0 context {ctx}", list(attrs.into_iter())), target)
}
fn got_record(x: &opentelemetry_proto::tonic::logs::v1::LogRecord) -> String {
    format!("{} {} {} {:?} {:?} body {} attrs {} -{} context {} {} {}", x.time_unix_nano, x.observed_time_unix_nano, x.severity_number, x.severity_text, x.event_name, got_value(&x.body), got_attrs(&x.attributes), x.dropped_attributes_count, hex(&x.trace_id), hex(&x.span_id), x.flags)
}
fn logs(c: &mut Ctx) {
    let l = SdkLoggerProvider::builder().build().logger("x");
    for _ in 0..c.n(400) {
        let r = &mut c.rng;
        let res = resource(r);
        let scopes: Vec<InstrumentationScope> = (0..1 + r.usize(4)).map(|_| scope(r)).collect();
        let k = r.usize(9);
        let batch: Vec<(SdkLogRecord, String, Option<String>, InstrumentationScope)> = (0..k as u64).map(|n| { let (x, w, t) = record(r, &l, n); (x, w, t, r.pick(&scopes).clone()) }).collect();
        c.case(format!("resource {res:?}, log records {:?}", batch.iter().map(|b| (&b.0, &b.3)).collect::<Vec<_>>()), k > 0, || {
            let rs = ResourceAttributesWithSchema::from(&res);
            let refs: Vec<(&SdkLogRecord, &InstrumentationScope)> = batch.iter().map(|b| (&b.0, &b.3)).collect();
            let got = group_logs_by_resource_and_scope(LogBatch::new(&refs), &rs);
            if got.len() != 1 { return Err(format!("{} resource entries", got.len())); }
            resource_ok("logs", &got[0].resource, &got[0].schema_url, &res)?;
            let mut want: Vec<((&InstrumentationScope, &Option<String>), String, Vec<String>)> = vec![];
            for b in &batch {
                match want.iter().position(|w| w.0 == (&b.3, &b.2)) { Some(i) => want[i].2.push(b.1.clone()), None => want.push(((&b.3, &b.2), want_scope(&b.3, b.2.as_deref()), vec![b.1.clone()])) }
            }
            let g = sorted(got[0].scope_logs.iter().map(|s| format!("{}: {}", got_scope(&s.scope, &s.schema_url), s.log_records.iter().map(got_record).collect::<Vec<_>>().join("\n"))).collect());
            same("scope", g, sorted(want.iter().map(|w| format!("{}: {}", w.1, w.2.join("\n"))).collect()))?;
            for b in &batch {
                let one = ResourceLogs::from(((&b.0, &b.3), &rs));
                resource_ok("one record", &one.resource, &one.schema_url, &res)?;
                same("one record", one.scope_logs.iter().map(|x| format!("{}: {}", got_scope(&x.scope, &x.schema_url), x.log_records.iter().map(got_record).collect::<Vec<_>>().join("\n"))).collect(), vec![format!("{}: {}", want_scope(&b.3, b.2.as_deref()), b.1)])?;
            }
            Ok(())
        });
    }
}

// ---- metrics ----
pub(crate) trait Num: Copy + std::fmt::Debug { fn any(r: &mut Rng) -> Self; fn exact(self) -> String; fn float(self) -> f64; fn wrap(d: sd::MetricData<Self>) -> sd::AggregatedMetrics; }
impl Num for u64 { fn any(r: &mut Rng) -> u64 { match r.below(4) { 0 => *r.pick(&[0, 1, u64::MAX, i64::MAX as u64, i64::MAX as u64 + 1]), _ => r.next() >> r.below(64) } } fn exact(self) -> String { format!("i{}", self.min(i64::MAX as u64)) } fn float(self) -> f64 { self as f64 } fn wrap(d: sd::MetricData<u64>) -> sd::AggregatedMetrics { sd::AggregatedMetrics::U64(d) } }
impl Num for i64 { fn any(r: &mut Rng) -> i64 { int(r) } fn exact(self) -> String { format!("i{self}") } fn float(self) -> f64 { self as f64 } fn wrap(d: sd::MetricData<i64>) -> sd::AggregatedMetrics { sd::AggregatedMetrics::I64(d) } }
impl Num for f64 { fn any(r: &mut Rng) -> f64 { r.f64_any() } fn exact(self) -> String { f(self) } fn float(self) -> f64 { self } fn wrap(d: sd::MetricData<f64>) -> sd::AggregatedMetrics { sd::AggregatedMetrics::F64(d) } }
fn exemplars<T: Num>(r: &mut Rng) -> Vec<sd::Exemplar<T>> {
    (0..r.usize(3)).map(|_| sd::Exemplar { filtered_attributes: kvs(r, 3), time: time(r), value: T::any(r), span_id: r.next().to_be_bytes(), trace_id: ((r.next() as u128) << 7).to_be_bytes() }).collect()
}
fn want_exemplars<T: Num>(v: &[sd::Exemplar<T>]) -> String { list(v.iter().map(|e| format!("{} {} {} {} {}", want_attrs(&e.filtered_attributes), nanos(e.time), e.value.exact(), hex(&e.span_id), hex(&e.trace_id)))) }
fn got_exemplars(v: &[pm::Exemplar]) -> String {
    list(v.iter().map(|e| format!("{} {} {} {} {}", got_attrs(&e.filtered_attributes), e.time_unix_nano, match e.value { Some(pm::exemplar::Value::AsDouble(x)) => f(x), Some(pm::exemplar::Value::AsInt(i)) => format!("i{i}"), None => "none".into() }, hex(&e.span_id), hex(&e.trace_id))))
}
fn opt(x: Option<f64>) -> String { x.map(f).unwrap_or("none".into()) }
/// a stream and what its message must be
pub(crate) fn stream<T: Num>(r: &mut Rng) -> (sd::AggregatedMetrics, String) {
    let (start, end) = (time(r), time(r));
    let (temporality, tn) = *r.pick(&[(Temporality::Delta, 1), (Temporality::Cumulative, 2), (Temporality::LowMemory, 2)]);
    let k = r.usize(4);
    let (s, e) = (nanos(start), nanos(end));
    let bucket = |r: &mut Rng| sd::ExponentialBucket { offset: r.next() as i32, counts: (0..r.usize(4)).map(|_| r.next()).collect() };
    match r.below(4) {
        0 => {
            let start = if r.bool() { Some(start) } else { None };
            let p: Vec<sd::GaugeDataPoint<T>> = (0..k).map(|_| sd::GaugeDataPoint { attributes: kvs(r, 4), value: T::any(r), exemplars: exemplars(r) }).collect();
            let w = format!("gauge {}", list(p.iter().map(|p| format!("{} {}..{e} {} ex {} flags 0", want_attrs(&p.attributes), start.map(nanos).unwrap_or(0), p.value.exact(), want_exemplars(&p.exemplars)))));
            (T::wrap(sd::MetricData::Gauge(sd::Gauge { data_points: p, start_time: start, time: end })), w)
        }
        1 => {
            let p: Vec<sd::SumDataPoint<T>> = (0..k).map(|_| sd::SumDataPoint { attributes: kvs(r, 4), value: T::any(r), exemplars: exemplars(r) }).collect();
            let m = r.bool();
            let w = format!("sum {m} {tn} {}", list(p.iter().map(|p| format!("{} {s}..{e} {} ex {} flags 0", want_attrs(&p.attributes), p.value.exact(), want_exemplars(&p.exemplars)))));
            (T::wrap(sd::MetricData::Sum(sd::Sum { data_points: p, start_time: start, time: end, temporality, is_monotonic: m })), w)
        }
        2 => {
            let p: Vec<sd::HistogramDataPoint<T>> = (0..k).map(|_| sd::HistogramDataPoint { attributes: kvs(r, 4), count: r.next(), bounds: (0..r.usize(4)).map(|_| r.f64_any()).collect(), bucket_counts: (0..r.usize(5)).map(|_| r.next()).collect(),
                min: if r.bool() { Some(T::any(r)) } else { None }, max: if r.bool() { Some(T::any(r)) } else { None }, sum: T::any(r), exemplars: exemplars(r) }).collect();
            let w = format!("histogram {tn} {}", list(p.iter().map(|p| format!("{} {s}..{e} {} sum {} min {} max {} {:?} {} ex {} flags 0", want_attrs(&p.attributes), p.count, f(p.sum.float()), opt(p.min.map(T::float)), opt(p.max.map(T::float)), p.bucket_counts, list(p.bounds.iter().map(|b| f(*b))), want_exemplars(&p.exemplars)))));
            (T::wrap(sd::MetricData::Histogram(sd::Histogram { data_points: p, start_time: start, time: end, temporality })), w)
        }
        _ => {
            let p: Vec<sd::ExponentialHistogramDataPoint<T>> = (0..k).map(|_| sd::ExponentialHistogramDataPoint { attributes: kvs(r, 4), count: r.next() as usize, min: if r.bool() { Some(T::any(r)) } else { None }, max: if r.bool() { Some(T::any(r)) } else { None }, sum: T::any(r),
                scale: r.next() as i8, zero_count: r.next(), positive_bucket: bucket(r), negative_bucket: bucket(r), zero_threshold: r.f64_any(), exemplars: exemplars(r) }).collect();
            let b = |b: &sd::ExponentialBucket| format!("{} {:?}", b.offset, b.counts);
            let w = format!("exponential {tn} {}", list(p.iter().map(|p| format!("{} {s}..{e} {} sum {} min {} max {} scale {} zero {} {} pos {} neg {} ex {} flags 0", want_attrs(&p.attributes), p.count, f(p.sum.float()), opt(p.min.map(T::float)), opt(p.max.map(T::float)), p.scale, p.zero_count, f(p.zero_threshold), b(&p.positive_bucket), b(&p.negative_bucket), want_exemplars(&p.exemplars)))));
            (T::wrap(sd::MetricData::ExponentialHistogram(sd::ExponentialHistogram { data_points: p, start_time: start, time: end, temporality })), w)
        }
    }
}
fn got_stream(d: &Option<pm::metric::Data>) -> String {
    let number = |p: &pm::NumberDataPoint| format!("{} {}..{} {} ex {} flags {}", got_attrs(&p.attributes), p.start_time_unix_nano, p.time_unix_nano, match p.value { Some(pm::number_data_point::Value::AsDouble(x)) => f(x), Some(pm::number_data_point::Value::AsInt(i)) => format!("i{i}"), None => "none".into() }, got_exemplars(&p.exemplars), p.flags);
    match d {
        Some(pm::metric::Data::Gauge(g)) => format!("gauge {}", list(g.data_points.iter().map(number))),
        Some(pm::metric::Data::Sum(g)) => format!("sum {} {} {}", g.is_monotonic, g.aggregation_temporality, list(g.data_points.iter().map(number))),
        Some(pm::metric::Data::Histogram(h)) => format!("histogram {} {}", h.aggregation_temporality, list(h.data_points.iter().map(|p| format!("{} {}..{} {} sum {} min {} max {} {:?} {} ex {} flags {}", got_attrs(&p.attributes), p.start_time_unix_nano, p.time_unix_nano, p.count, opt(p.sum), opt(p.min), opt(p.max), p.bucket_counts, list(p.explicit_bounds.iter().map(|b| f(*b))), got_exemplars(&p.exemplars), p.flags)))),
        Some(pm::metric::Data::ExponentialHistogram(h)) => {
            let b = |b: &Option<pm::exponential_histogram_data_point::Buckets>| b.as_ref().map(|b| format!("{} {:?}", b.offset, b.bucket_counts)).unwrap_or("none".into());
            format!("exponential {} {}", h.aggregation_temporality, list(h.data_points.iter().map(|p| format!("{} {}..{} {} sum {} min {} max {} scale {} zero {} {} pos {} neg {} ex {} flags {}", got_attrs(&p.attributes), p.start_time_unix_nano, p.time_unix_nano, p.count, opt(p.sum), opt(p.min), opt(p.max), p.scale, p.zero_count, f(p.zero_threshold), b(&p.positive), b(&p.negative), got_exemplars(&p.exemplars), p.flags))))
        }
        x => format!("? {x:?}"),
    }
}
fn metrics(c: &mut Ctx) {
    for _ in 0..c.n(400) {
        let r = &mut c.rng;
        let res = resource(r);
        let mut want: Vec<String> = vec![];
        let scope_metrics: Vec<sd::ScopeMetrics> = (0..r.usize(4)).map(|_| {
            let s = scope(r);
            want.push(want_scope(&s, None));
            let metrics = (0..r.usize(4)).map(|_| {
                let (n, d, u) = (text(r), text(r), text(r));
                let (data, w) = match r.below(3) { 0 => stream::<u64>(r), 1 => stream::<i64>(r), _ => stream::<f64>(r) };
                want.push(format!("{n:?} {d:?} {u:?} {w}"));
                sd::Metric { name: n.into(), description: d.into(), unit: u.into(), data }
            }).collect();
            sd::ScopeMetrics { scope: s, metrics }
        }).collect();
        let rm = sd::ResourceMetrics { resource: res, scope_metrics };
        c.case(format!("{rm:?}"), !want.is_empty(), || {
            let got = ExportMetricsServiceRequest::from(&rm);
            if got.resource_metrics.len() != 1 { return Err(format!("{} resource entries", got.resource_metrics.len())); }
            let g = &got.resource_metrics[0];
            resource_ok("metrics", &g.resource, &g.schema_url, &rm.resource)?;
            let mut lines = vec![];
            for s in &g.scope_metrics {
                lines.push(got_scope(&s.scope, &s.schema_url));
                for m in &s.metrics { lines.push(format!("{:?} {:?} {:?} {}", m.name, m.description, m.unit, got_stream(&m.data))); }
            }
            same("line", lines, want)
        });
    }
}

pub fn c23(c: &mut Ctx) {
    c.rule = "the text of every message equals the text written down while the input was made".into();
    spans(c);
    logs(c);
    metrics(c);
}

// C39: OTLP messages in their JSON form.
use crate::common::{Ctx, Rng};
use opentelemetry_proto::tonic::collector::{logs::v1::ExportLogsServiceRequest, metrics::v1::ExportMetricsServiceRequest, trace::v1::ExportTraceServiceRequest};
use opentelemetry_proto::tonic::common::v1::{any_value::Value as V, AnyValue, ArrayValue, InstrumentationScope, KeyValue, KeyValueList};
use opentelemetry_proto::tonic::logs::v1::{LogRecord, ResourceLogs, ScopeLogs};
use opentelemetry_proto::tonic::metrics::v1::{self as m, metric::Data, Metric, ResourceMetrics, ScopeMetrics};
use opentelemetry_proto::tonic::resource::v1::Resource;
use opentelemetry_proto::tonic::trace::v1::{span::{Event, Link}, ResourceSpans, ScopeSpans, Span, Status};
use serde_json::{json, Value};

const TEXTS: &[&str] = &["", "a", "key", "intValue", "null", "0", "é✓", "\"\\/\n\t\u{1}", "🦀", "stringValue", " x "];
fn text(r: &mut Rng) -> String { r.pick(TEXTS).to_string() }
fn i(r: &mut Rng) -> i64 { match r.below(6) { 0 => 0, 1 => i64::MIN, 2 => i64::MAX, 3 => -1, 4 => 9007199254740993, _ => r.next() as i64 } }
fn u(r: &mut Rng) -> u64 { match r.below(5) { 0 => 0, 1 => u64::MAX, 2 => 9007199254740993, 3 => 1, _ => r.next() } }
/// doubles which any reader reads exactly
fn d(r: &mut Rng) -> f64 { match r.below(5) { 0 => 0.0, 1 => -1.5, 2 => 1e15, 3 => r.below(1 << 40) as f64 / 8.0, _ => r.below(1000) as f64 } }
fn bytes(r: &mut Rng, n: usize) -> Vec<u8> { (0..n).map(|_| r.next() as u8).collect() }
fn id(r: &mut Rng, n: usize) -> Vec<u8> { match r.below(5) { 0 => vec![], 1 => vec![0; n], 2 => vec![0xff; n], _ => bytes(r, n) } }
fn some<T>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> { if r.chance(3, 4) { Some(f(r)) } else { None } }
fn many<T>(r: &mut Rng, n: usize, mut f: impl FnMut(&mut Rng) -> T) -> Vec<T> { (0..r.usize(n + 1)).map(|_| f(r)).collect() }
fn any(r: &mut Rng, depth: u32) -> AnyValue {
    AnyValue { value: match r.below(if depth == 0 { 7 } else { 9 }) {
        0 => None,
        1 => Some(V::BoolValue(r.bool())),
        2 | 3 => Some(V::IntValue(i(r))),
        4 => Some(V::DoubleValue(d(r))),
        5 => { let n = r.usize(7); Some(V::BytesValue(bytes(r, n))) }
        6 => Some(V::StringValue(text(r))),
        7 => Some(V::ArrayValue(ArrayValue { values: many(r, 3, |r| any(r, depth - 1)) })),
        _ => Some(V::KvlistValue(KeyValueList { values: many(r, 3, |r| kv(r, depth - 1)) })),
    } }
}
fn kv(r: &mut Rng, depth: u32) -> KeyValue { KeyValue { key: text(r), value: some(r, |r| any(r, depth)) } }
fn kvs(r: &mut Rng) -> Vec<KeyValue> { many(r, 3, |r| kv(r, 2)) }
fn resource(r: &mut Rng) -> Option<Resource> { some(r, |r| Resource { attributes: kvs(r), dropped_attributes_count: r.below(3) as u32, ..Default::default() }) }
fn scope(r: &mut Rng) -> Option<InstrumentationScope> { some(r, |r| InstrumentationScope { name: text(r), version: text(r), attributes: kvs(r), dropped_attributes_count: r.below(3) as u32 }) }
fn span(r: &mut Rng) -> Span {
    Span { trace_id: id(r, 16), span_id: id(r, 8), trace_state: text(r), parent_span_id: id(r, 8), flags: r.next() as u32, name: text(r), kind: r.below(6) as i32, start_time_unix_nano: u(r), end_time_unix_nano: u(r),
        attributes: kvs(r), dropped_attributes_count: r.next() as u32, events: many(r, 2, |r| Event { time_unix_nano: u(r), name: text(r), attributes: kvs(r), dropped_attributes_count: r.below(9) as u32 }), dropped_events_count: r.below(9) as u32,
        links: many(r, 2, |r| Link { trace_id: id(r, 16), span_id: id(r, 8), trace_state: text(r), attributes: kvs(r), dropped_attributes_count: r.below(9) as u32, flags: r.next() as u32 }), dropped_links_count: r.below(9) as u32,
        status: some(r, |r| Status { message: text(r), code: r.below(3) as i32 }) }
}
fn log(r: &mut Rng) -> LogRecord {
    LogRecord { time_unix_nano: u(r), observed_time_unix_nano: u(r), severity_number: r.below(25) as i32, severity_text: text(r), body: some(r, |r| any(r, 3)), attributes: kvs(r), dropped_attributes_count: r.below(9) as u32, flags: r.next() as u32, trace_id: id(r, 16), span_id: id(r, 8), event_name: text(r) }
}
fn exemplars(r: &mut Rng) -> Vec<m::Exemplar> {
    many(r, 2, |r| m::Exemplar { filtered_attributes: kvs(r), time_unix_nano: u(r), span_id: id(r, 8), trace_id: id(r, 16), value: some(r, |r| if r.bool() { m::exemplar::Value::AsDouble(d(r)) } else { m::exemplar::Value::AsInt(i(r)) }) })
}
fn number(r: &mut Rng) -> m::NumberDataPoint {
    m::NumberDataPoint { attributes: kvs(r), start_time_unix_nano: u(r), time_unix_nano: u(r), exemplars: exemplars(r), flags: r.below(2) as u32, value: some(r, |r| if r.bool() { m::number_data_point::Value::AsDouble(d(r)) } else { m::number_data_point::Value::AsInt(i(r)) }) }
}
fn buckets(r: &mut Rng) -> Option<m::exponential_histogram_data_point::Buckets> { some(r, |r| m::exponential_histogram_data_point::Buckets { offset: r.next() as i32, bucket_counts: many(r, 4, u) }) }
fn metric(r: &mut Rng) -> Metric {
    let data = match r.below(6) {
        0 => None,
        1 => Some(Data::Gauge(m::Gauge { data_points: many(r, 2, number) })),
        2 => Some(Data::Sum(m::Sum { data_points: many(r, 2, number), aggregation_temporality: r.below(3) as i32, is_monotonic: r.bool() })),
        3 => Some(Data::Histogram(m::Histogram { data_points: many(r, 2, |r| m::HistogramDataPoint { attributes: kvs(r), start_time_unix_nano: u(r), time_unix_nano: u(r), count: u(r), sum: some(r, d), bucket_counts: many(r, 4, u), explicit_bounds: many(r, 4, d), exemplars: exemplars(r), flags: 0, min: some(r, d), max: some(r, d) }), aggregation_temporality: r.below(3) as i32 })),
        4 => Some(Data::ExponentialHistogram(m::ExponentialHistogram { data_points: many(r, 2, |r| m::ExponentialHistogramDataPoint { attributes: kvs(r), start_time_unix_nano: u(r), time_unix_nano: u(r), count: u(r), sum: some(r, d), scale: r.next() as i32, zero_count: u(r), positive: buckets(r), negative: buckets(r), flags: 1, exemplars: exemplars(r), min: some(r, d), max: some(r, d), zero_threshold: d(r) }), aggregation_temporality: r.below(3) as i32 })),
        _ => Some(Data::Summary(m::Summary { data_points: many(r, 2, |r| m::SummaryDataPoint { attributes: kvs(r), start_time_unix_nano: u(r), time_unix_nano: u(r), count: u(r), sum: d(r), quantile_values: many(r, 3, |r| m::summary_data_point::ValueAtQuantile { quantile: d(r), value: d(r) }), flags: 0 }) })),
    };
    Metric { name: text(r), description: text(r), unit: text(r), metadata: kvs(r), data }
}
// ---- what OTLP says the JSON form is ----
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn b64(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    b.chunks(3).map(|c| { let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32; (0..4).map(|k| if k > c.len() { '=' } else { A[(n >> (18 - 6 * k)) as usize & 63] as char }).collect::<String>() }).collect()
}
fn any_json(v: &AnyValue) -> Value {
    match &v.value {
        None => json!({}),
        Some(V::StringValue(s)) => json!({ "stringValue": s }), Some(V::BoolValue(b)) => json!({ "boolValue": b }), Some(V::IntValue(i)) => json!({ "intValue": i.to_string() }),
        Some(V::DoubleValue(d)) => json!({ "doubleValue": d }), Some(V::BytesValue(b)) => json!({ "bytesValue": b64(b) }),
        Some(V::ArrayValue(a)) => json!({ "arrayValue": { "values": a.values.iter().map(any_json).collect::<Vec<_>>() } }),
        Some(V::KvlistValue(l)) => json!({ "kvlistValue": { "values": l.values.iter().map(kv_json).collect::<Vec<_>>() } }),
    }
}
fn kv_json(k: &KeyValue) -> Value { json!({ "key": k.key, "value": k.value.as_ref().map(any_json) }) }
fn kvs_json(k: &[KeyValue]) -> Value { k.iter().map(kv_json).collect() }
fn span_json(s: &Span) -> Value {
    json!({ "traceId": hex(&s.trace_id), "spanId": hex(&s.span_id), "traceState": s.trace_state, "parentSpanId": hex(&s.parent_span_id), "flags": s.flags, "name": s.name, "kind": s.kind,
        "startTimeUnixNano": s.start_time_unix_nano.to_string(), "endTimeUnixNano": s.end_time_unix_nano.to_string(), "attributes": kvs_json(&s.attributes), "droppedAttributesCount": s.dropped_attributes_count,
        "events": s.events.iter().map(|e| json!({ "timeUnixNano": e.time_unix_nano.to_string(), "name": e.name, "attributes": kvs_json(&e.attributes), "droppedAttributesCount": e.dropped_attributes_count })).collect::<Vec<_>>(), "droppedEventsCount": s.dropped_events_count,
        "links": s.links.iter().map(|l| json!({ "traceId": hex(&l.trace_id), "spanId": hex(&l.span_id), "traceState": l.trace_state, "attributes": kvs_json(&l.attributes), "droppedAttributesCount": l.dropped_attributes_count, "flags": l.flags })).collect::<Vec<_>>(), "droppedLinksCount": s.dropped_links_count,
        "status": s.status.as_ref().map(|s| json!({ "message": s.message, "code": s.code })) })
}
fn log_json(l: &LogRecord) -> Value {
    json!({ "timeUnixNano": l.time_unix_nano.to_string(), "observedTimeUnixNano": l.observed_time_unix_nano.to_string(), "severityNumber": l.severity_number, "severityText": l.severity_text, "body": l.body.as_ref().map(any_json),
        "attributes": kvs_json(&l.attributes), "droppedAttributesCount": l.dropped_attributes_count, "flags": l.flags, "traceId": hex(&l.trace_id), "spanId": hex(&l.span_id), "eventName": l.event_name })
}
/// null, an empty list and an absent member say the same
fn bare(v: &mut Value) {
    match v {
        Value::Object(o) => { let gone: Vec<_> = o.iter().filter(|(k, v)| v.is_null() || (v.as_array().is_some_and(|a| a.is_empty()) && *k != "values")).map(|(k, _)| k.clone()).collect(); for k in gone { o.remove(&k); } for (_, x) in o.iter_mut() { bare(x); } }
        Value::Array(a) => for x in a { bare(x); },
        _ => {}
    }
}
fn there_and_back<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(x: &T) -> Result<String, String> {
    let s = serde_json::to_string(x).map_err(|e| format!("not written: {e}"))?;
    let y: T = serde_json::from_str(&s).map_err(|e| format!("{s} is not read: {e}"))?;
    if y != *x { return Err(format!("{s} read back as {y:?}")); }
    // and through a tree, and with the whitespace of a person
    let y: T = serde_json::from_value(serde_json::from_str(&s).unwrap()).map_err(|e| format!("{s} is not read from a tree: {e}"))?;
    if y != *x { return Err(format!("{s} read back from a tree as {y:?}")); }
    Ok(s)
}
fn is(s: &str, mut want: Value) -> Result<(), String> {
    let mut got: Value = serde_json::from_str(s).map_err(|e| e.to_string())?;
    bare(&mut got); bare(&mut want);
    if got == want { Ok(()) } else { Err(format!("written as {got}, expected {want}")) }
}
/// a writer that fails once, after some bytes
struct Full { left: usize, failed: bool, got: Vec<u8> }
impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if !self.failed && self.left < b.len() { self.failed = true; return Err(std::io::Error::other("full")); }
        if !self.failed { self.left -= b.len(); }
        self.got.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
pub fn c39(c: &mut Ctx) {
    c.rule = "random OTLP values and requests of the three signals written as JSON, compared with the form OTLP gives and read back; texts with keys unknown, doubled or mistyped; writers that fail. Non-trivial: something was written".into();
    for _ in 0..c.n(1500) {
        let v = any(&mut c.rng, 4);
        let left = c.rng.usize(60);
        c.case(format!("value {v:?}"), v.value.is_some(), || { let s = there_and_back(&v)?; is(&s, any_json(&v)) });
        c.case(format!("value {v:?} to a writer failing after {left} bytes"), true, || {
            let mut w = Full { left, failed: false, got: vec![] };
            let r = serde_json::to_writer(&mut w, &v);
            match (r, w.failed) { (Ok(()), true) => Err(format!("{:?} is left of it, and no error", String::from_utf8_lossy(&w.got))), (Err(e), false) => Err(format!("failed: {e}")), _ => Ok(()) }
        });
    }
    for _ in 0..c.n(300) {
        let s = span(&mut c.rng);
        c.case(format!("{s:?}"), true, || { let t = there_and_back(&s)?; is(&t, span_json(&s)) });
        let l = log(&mut c.rng);
        c.case(format!("{l:?}"), true, || { let t = there_and_back(&l)?; is(&t, log_json(&l)) });
        let x = metric(&mut c.rng);
        c.case(format!("{x:?}"), true, || there_and_back(&x).map(|_| ()));
    }
    for _ in 0..c.n(60) {
        let r = &mut c.rng;
        let t = ExportTraceServiceRequest { resource_spans: many(r, 2, |r| ResourceSpans { resource: resource(r), scope_spans: many(r, 2, |r| ScopeSpans { scope: scope(r), spans: many(r, 2, span), schema_url: text(r) }), schema_url: text(r) }) };
        let l = ExportLogsServiceRequest { resource_logs: many(r, 2, |r| ResourceLogs { resource: resource(r), scope_logs: many(r, 2, |r| ScopeLogs { scope: scope(r), log_records: many(r, 2, log), schema_url: text(r) }), schema_url: text(r) }) };
        let m = ExportMetricsServiceRequest { resource_metrics: many(r, 2, |r| ResourceMetrics { resource: resource(r), scope_metrics: many(r, 2, |r| ScopeMetrics { scope: scope(r), metrics: many(r, 2, metric), schema_url: text(r) }), schema_url: text(r) }) };
        c.case(format!("{t:?}"), !t.resource_spans.is_empty(), || there_and_back(&t).map(|_| ()));
        c.case(format!("{l:?}"), !l.resource_logs.is_empty(), || there_and_back(&l).map(|_| ()));
        c.case(format!("{m:?}"), !m.resource_metrics.is_empty(), || there_and_back(&m).map(|_| ()));
    }
    // reading what others wrote
    let read = |s: &str| serde_json::from_str::<AnyValue>(s).map_err(|e| e.to_string());
    for _ in 0..c.n(600) {
        let n = c.rng.usize(4);
        let mut parts: Vec<(String, Result<Option<V>, ()>)> = vec![];
        for _ in 0..n {
            let r = &mut c.rng;
            parts.push(match r.below(11) {
                0 => { let k = i(r); (format!("\"intValue\": {k}"), Ok(Some(V::IntValue(k)))) }
                1 => { let k = i(r); (format!("\"intValue\":\"{k}\""), Ok(Some(V::IntValue(k)))) }
                2 => (format!("\"intValue\":{}", r.pick(&["\"x\"", "\"9223372036854775808\"", "\"1.5\"", "\"\"", "true", "{}"])), Err(())),
                3 => ("\"bytesValue\":\"AAEC\"".into(), Ok(Some(V::BytesValue(vec![0, 1, 2])))),
                4 => (format!("\"bytesValue\":{}", r.pick(&["\"A\"", "\"!!!!\"", "7"])), Err(())),
                5 => ("\"stringValue\":\"s\"".into(), Ok(Some(V::StringValue("s".into())))),
                6 => ("\"boolValue\":true".into(), Ok(Some(V::BoolValue(true)))),
                7 => (format!("\"{}\":\"z\"", r.pick(&["IntValue", "otherValue", "", "string_value"])), Ok(None)),
                8 => { let x = *r.pick(&[("Infinity", f64::INFINITY), ("-Infinity", f64::NEG_INFINITY), ("1.5", 1.5)]); (format!("\"doubleValue\":\"{}\"", x.0), Ok(Some(V::DoubleValue(x.1)))) }
                9 => (format!("\"doubleValue\":{}", r.pick(&["\"x\"", "\"\"", "true", "[]"])), Err(())),
                _ => { let x = *r.pick(&["2.5", "2", "-7"]); (format!("\"doubleValue\":{x}"), Ok(Some(V::DoubleValue(x.parse().unwrap())))) }
            });
        }
        let s = format!("{{{}}}", parts.iter().map(|p| p.0.clone()).collect::<Vec<_>>().join(" , "));
        c.case(format!("reading {s}"), n > 0, || {
            let got = read(&s);
            let bad = parts.iter().any(|p| p.1.is_err());
            let last = parts.iter().filter_map(|p| p.1.clone().ok().flatten()).last();
            let only_unknown = last.is_none() && n > 0;
            match got {
                Ok(v) if bad || only_unknown => Err(format!("read as {v:?}")),
                Ok(v) if v.value == last => Ok(()),
                Ok(v) => Err(format!("read as {v:?}, expected {last:?}")),
                Err(e) if bad || only_unknown => { let _ = e; Ok(()) }
                Err(e) => Err(format!("refused: {e}")),
            }
        });
    }
    for (field, texts) in [("startTimeUnixNano", ["\"-1\"", "\"18446744073709551616\"", "\"x\"", "\"\""]), ("traceId", ["\"abc\"", "\"zz\"", "\"0g\"", "7"])] {
        for t in texts {
            let s = format!("{{\"{field}\":{t}}}");
            c.case(format!("reading the span {s}"), true, || match serde_json::from_str::<Span>(&s) { Ok(v) => Err(format!("read as {v:?}")), Err(_) => Ok(()) });
        }
    }
    for (name, x) in [("NaN", f64::NAN), ("Infinity", f64::INFINITY), ("-Infinity", f64::NEG_INFINITY)] {
        let v = AnyValue { value: Some(V::DoubleValue(x)) };
        c.case(format!("the double {name}"), true, || {
            let s = serde_json::to_string(&v).map_err(|e| e.to_string())?;
            match read(&s) { Ok(AnyValue { value: Some(V::DoubleValue(y)) }) if (y == x || y.is_nan() && x.is_nan()) && s == format!("{{\"doubleValue\":\"{name}\"}}") => Ok(()), o => Err(format!("written as {s}, read as {o:?}")) }
        });
        for part in ["asDouble", "sum", "min", "max", "zeroThreshold", "quantile"] {
            c.case(format!("the double {name} as {part} of a data point"), true, || {
                use m::number_data_point::Value as N;
                let eq = |y: Option<f64>| y.is_some_and(|y| y == x || y.is_nan() && x.is_nan());
                fn go<T: serde::Serialize + serde::de::DeserializeOwned>(v: T) -> Result<T, String> { let s = serde_json::to_string(&v).map_err(|e| e.to_string())?; serde_json::from_str(&s).map_err(|e| format!("{s} is not read: {e}")) }
                let back = match part {
                    "asDouble" => go(m::NumberDataPoint { value: Some(N::AsDouble(x)), ..Default::default() })?.value.and_then(|v| match v { N::AsDouble(d) => Some(d), _ => None }),
                    "sum" => go(m::HistogramDataPoint { sum: Some(x), ..Default::default() })?.sum,
                    "min" => go(m::HistogramDataPoint { min: Some(x), ..Default::default() })?.min,
                    "max" => go(m::ExponentialHistogramDataPoint { max: Some(x), ..Default::default() })?.max,
                    "zeroThreshold" => Some(go(m::ExponentialHistogramDataPoint { zero_threshold: x, ..Default::default() })?.zero_threshold),
                    _ => Some(go(m::summary_data_point::ValueAtQuantile { quantile: x, value: 0.0 })?.quantile),
                };
                if eq(back) { Ok(()) } else { Err(format!("read back as {back:?}")) }
            });
        }
    }
}

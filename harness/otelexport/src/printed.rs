// C41 The stdout exporters print what they are given. A child process exports (its standard output is what was printed) and writes to
// its standard error what ought to have been printed; the parent compares the two.
use crate::common::{Ctx, Rng};
use crate::transform::{record, resource, scope, span, stream};
use futures_executor::block_on;
use opentelemetry::logs::{AnyValue, LoggerProvider as _};
use opentelemetry::{InstrumentationScope, Key, KeyValue, Value};
use opentelemetry_sdk::logs::{LogBatch, LogExporter as _, SdkLogRecord, SdkLoggerProvider};
use opentelemetry_sdk::metrics::exporter::PushMetricExporter as _;
use opentelemetry_sdk::metrics::{data as sd, Temporality};
use opentelemetry_sdk::trace::{SpanData, SpanExporter as _};
use opentelemetry_sdk::Resource;
use opentelemetry_stdout as so;
use std::fmt::{Debug, Display};
use std::io::Write;
use std::process::{Command, Stdio};
use std::time::{SystemTime, UNIX_EPOCH};

/// the civil date and time, to the microsecond
fn clock(t: SystemTime) -> String {
    let n: i128 = match t.duration_since(UNIX_EPOCH) { Ok(d) => d.as_nanos() as i128, Err(e) => -(e.duration().as_nanos() as i128) };
    let (days, rest) = (n.div_euclid(86_400_000_000_000), n.rem_euclid(86_400_000_000_000));
    let (mut year, mut left) = (1970i64, days as i64);
    let leap = |y: i64| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    while left < 0 { year -= 1; left += if leap(year) { 366 } else { 365 }; }
    loop { let d = if leap(year) { 366 } else { 365 }; if left < d { break; } left -= d; year += 1; }
    let mut month = 1;
    for d in [31, if leap(year) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31] { if left < d { break; } left -= d; month += 1; }
    let s = rest / 1_000_000_000;
    format!("{year:04}-{month:02}-{:02} {:02}:{:02}:{:02}.{:06}", left + 1, s / 3600, s / 60 % 60, s % 60, rest % 1_000_000_000 / 1000)
}
type Lines = Vec<String>;
fn opt(l: &mut Lines, form: &str, t: Option<impl Debug>) { if let Some(t) = t { l.push(format!("{form}{t:?}")); } }
fn attrs<'a>(l: &mut Lines, head: &str, form: &str, plain: bool, v: impl Iterator<Item = &'a KeyValue>) {
    for (i, kv) in v.enumerate() {
        if i == 0 { l.push(head.into()); }
        l.push(if plain { format!("{form}{}: {}", kv.key.as_str(), kv.value) } else { format!("{form}{}: {:?}", kv.key.as_str(), kv.value) });
    }
}
fn res(l: &mut Lines, r: &Resource, form: &str) {
    l.push("Resource".into());
    opt(l, form, r.schema_url());
    for (k, v) in r { let (k, v): (&Key, &Value) = (k, v); l.push(format!("\t ->  {}={v:?}", k.as_str())); }
}
fn want_spans(l: &mut Lines, v: &[SpanData]) {
    for (i, s) in v.iter().enumerate() {
        let sc = &s.instrumentation_scope;
        l.extend([format!("Span #{i}"), "\tInstrumentation Scope".into(), format!("\t\tName         : {:?}", sc.name())]);
        opt(l, "\t\tVersion  : ", sc.version()); opt(l, "\t\tSchemaUrl: ", sc.schema_url());
        attrs(l, "\t\tScope Attributes:", "\t\t\t ->  ", true, sc.attributes());
        let id = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
        let c = &s.span_context;
        l.extend([String::new(), format!("\tName        : {}", s.name), format!("\tTraceId     : {}", id(&c.trace_id().to_bytes())), format!("\tSpanId      : {}", id(&c.span_id().to_bytes())), format!("\tTraceFlags  : TraceFlags({})", c.trace_flags().to_u8()),
            format!("\tParentSpanId: {}", id(&s.parent_span_id.to_bytes())), format!("\tKind        : {:?}", s.span_kind), format!("\tStart time: {}", clock(s.start_time)), format!("\tEnd time: {}", clock(s.end_time)), format!("\tStatus: {:?}", s.status)]);
        attrs(l, "\tAttributes:", "\t\t ->  ", false, s.attributes.iter());
        for (i, e) in s.events.events.iter().enumerate() {
            if i == 0 { l.push("\tEvents:".into()); }
            l.extend([format!("\tEvent #{i}"), format!("\tName      : {}", e.name), format!("\tTimestamp : {}", clock(e.timestamp))]);
            attrs(l, "\tAttributes:", "\t\t ->  ", false, e.attributes.iter());
        }
        for (i, e) in s.links.links.iter().enumerate() {
            if i == 0 { l.push("\tLinks:".into()); }
            l.extend([format!("\tLink #{i}"), format!("\tTraceId: {}", id(&e.span_context.trace_id().to_bytes())), format!("\tSpanId : {}", id(&e.span_context.span_id().to_bytes()))]);
            attrs(l, "\tAttributes:", "\t\t ->  ", false, e.attributes.iter());
        }
    }
}
fn want_logs(l: &mut Lines, v: &[(SdkLogRecord, InstrumentationScope)]) {
    for (i, (r, s)) in v.iter().enumerate() {
        l.extend([format!("Log #{i}"), format!("\t Instrumentation Scope: {s:?}")]);
        opt(l, "\t EventName: ", r.event_name()); opt(l, "\t Target (Scope): ", r.target());
        if let Some(c) = r.trace_context() { l.extend([format!("\t TraceId: {:?}", c.trace_id), format!("\t SpanId: {:?}", c.span_id)]); opt(l, "\t TraceFlags: ", c.trace_flags); }
        if let Some(t) = r.timestamp() { l.push(format!("\t Timestamp: {}", clock(t))); }
        if let Some(t) = r.observed_timestamp() { l.push(format!("\t Observed Timestamp: {}", clock(t))); }
        opt(l, "\t SeverityText: ", r.severity_text()); opt(l, "\t SeverityNumber: ", r.severity_number()); opt(l, "\t Body: ", r.body());
        l.push("\t Attributes:".into());
        for (k, v) in r.attributes_iter() { let (k, v): (&Key, &AnyValue) = (k, v); l.push(format!("\t\t ->  {}: {v:?}", k.as_str())); }
    }
}
fn point_attrs(l: &mut Lines, v: &[KeyValue]) { l.push("\t\t\tAttributes   :".into()); for kv in v { l.push(format!("\t\t\t\t ->  {}: {}", kv.key.as_str(), kv.value)); } }
fn point(l: &mut Lines, i: usize, v: impl Debug, a: &[KeyValue]) { l.extend([format!("\t\tDataPoint #{i}"), format!("\t\t\tValue        : {v:?}")]); point_attrs(l, a); }
fn temporality(l: &mut Lines, t: Temporality) { l.push(format!("\t\tTemporality  : {}", if t == Temporality::Cumulative { "Cumulative" } else { "Delta" })); }
fn want_data<T: Debug>(l: &mut Lines, d: &sd::MetricData<T>) {
    let times = |l: &mut Lines, a: Option<SystemTime>, b: SystemTime| { if let Some(a) = a { l.push(format!("\t\tStartTime    : {}", clock(a))); } l.push(format!("\t\tEndTime      : {}", clock(b))); };
    match d {
        sd::MetricData::Gauge(g) => { l.extend(["\t\tType         : Gauge".into(), "\t\tGauge DataPoints".into()]); times(l, g.start_time, g.time); for (i, p) in g.data_points.iter().enumerate() { point(l, i, &p.value, &p.attributes); } }
        sd::MetricData::Sum(g) => { l.extend(["\t\tType         : Sum".into(), "\t\tSum DataPoints".into(), format!("\t\tMonotonic    : {}", g.is_monotonic)]); temporality(l, g.temporality); times(l, Some(g.start_time), g.time); for (i, p) in g.data_points.iter().enumerate() { point(l, i, &p.value, &p.attributes); } }
        sd::MetricData::Histogram(g) => {
            l.push("\t\tType         : Histogram".into()); temporality(l, g.temporality); times(l, Some(g.start_time), g.time); l.push("\t\tHistogram DataPoints".into());
            for (i, p) in g.data_points.iter().enumerate() {
                l.extend([format!("\t\tDataPoint #{i}"), format!("\t\t\tCount        : {}", p.count), format!("\t\t\tSum          : {:?}", p.sum)]);
                opt(l, "\t\t\tMin          : ", p.min.as_ref()); opt(l, "\t\t\tMax          : ", p.max.as_ref());
                point_attrs(l, &p.attributes);
                l.push("\t\t\tBuckets".into());
                let edges: Vec<&dyn Display> = std::iter::once(&f64::NEG_INFINITY as &dyn Display).chain(p.bounds.iter().map(|b| b as &dyn Display)).collect();
                for i in 0..p.bounds.len() { l.push(format!("\t\t\t\t {} to {} : {}", edges[i], edges[i + 1], p.bucket_counts.get(i).copied().unwrap_or(0))); }
                l.push(format!("\t\t\t\t{} to +Infinity : {}", edges[p.bounds.len()], p.bucket_counts.get(p.bounds.len()).copied().unwrap_or(0)));
            }
        }
        sd::MetricData::ExponentialHistogram(_) => l.push("\t\tType         : Exponential Histogram".into()),
    }
}
fn want_metrics(l: &mut Lines, v: &[sd::ScopeMetrics]) {
    for (i, s) in v.iter().enumerate() {
        l.extend([format!("\tInstrumentation Scope #{i}"), format!("\t\tName         : {}", s.scope.name())]);
        opt(l, "\t\tVersion  : ", s.scope.version()); opt(l, "\t\tSchemaUrl: ", s.scope.schema_url());
        attrs(l, "\t\tScope Attributes:", "\t\t\t ->  ", true, s.scope.attributes());
        for (i, m) in s.metrics.iter().enumerate() {
            l.extend([format!("Metric #{i}"), format!("\t\tName         : {}", m.name), format!("\t\tDescription  : {}", m.description), format!("\t\tUnit         : {}", m.unit)]);
            match &m.data { sd::AggregatedMetrics::F64(d) => want_data(l, d), sd::AggregatedMetrics::U64(d) => want_data(l, d), sd::AggregatedMetrics::I64(d) => want_data(l, d) }
        }
    }
}
#[derive(Debug)]
enum Op { Spans(Vec<SpanData>), Logs(Vec<(SdkLogRecord, InstrumentationScope)>), Metrics(sd::ResourceMetrics), Resource(Resource), Shutdown, Flush }
/// export as told, and say on the standard error what that prints
pub fn child(seed: u64, cases: usize) {
    let mut rng = Rng(seed);
    let r = &mut rng;
    let logger = SdkLoggerProvider::builder().build().logger("stdout");
    for n in 0..cases {
        let signal = r.below(3);
        let scopes: Vec<InstrumentationScope> = (0..3).map(|_| scope(r)).collect();
        let history: Vec<Op> = (0..1 + r.usize(5)).map(|_| match r.below(8) {
            0 => Op::Shutdown,
            1 => if signal == 2 { Op::Flush } else { Op::Resource(resource(r)) },
            _ => match signal {
                0 => Op::Spans((0..r.usize(4) as u64).map(|n| { let s = r.pick(&scopes).clone(); span(r, &s, n) }).collect()),
                1 => Op::Logs((0..r.usize(4) as u64).map(|n| (record(r, &logger, n).0, r.pick(&scopes).clone())).collect()),
                _ => Op::Metrics(sd::ResourceMetrics { resource: resource(r), scope_metrics: (0..r.usize(3)).map(|_| sd::ScopeMetrics { scope: scope(r), metrics: (0..r.usize(4)).map(|n| {
                    let (data, _) = match r.below(3) { 0 => stream::<u64>(r), 1 => stream::<i64>(r), _ => stream::<f64>(r) };
                    sd::Metric { name: format!("n{n}").into(), description: format!("d{}", r.below(3)).into(), unit: format!("u{}", r.below(3)).into(), data }
                }).collect() }).collect() }),
            },
        }).collect();
        let t = *r.pick(&[None, Some(Temporality::Delta), Some(Temporality::Cumulative), Some(Temporality::LowMemory)]);
        let (mut spans, mut logs) = (so::SpanExporter::default(), so::LogExporter::default());
        let metrics = match t { Some(t) => so::MetricExporterBuilder::default().with_temporality(t).build(), None => so::MetricExporter::default() };
        println!("@@{n}");
        let mut want: Lines = vec![format!("@@{n} temporality {t:?}, then {history:?}"), format!("-- {:?}", t.unwrap_or(Temporality::Cumulative))];
        println!("-- {:?}", metrics.temporality());
        let (mut over, mut shown, mut now) = (false, false, Resource::builder().build());
        for op in history {
            let done = match op {
                Op::Spans(v) => {
                    if !over { want.push("Spans".into()); if !shown { res(&mut want, &now, "\tResource SchemaUrl: "); shown = true; } want_spans(&mut want, &v); }
                    want.push(if over { "-- Err(AlreadyShutdown)" } else { "-- Ok(())" }.into());
                    block_on(spans.export(v))
                }
                Op::Logs(v) => {
                    if !over { want.push("Logs".into()); if !shown { res(&mut want, &now, "\t Resource SchemaUrl: "); shown = true; } want_logs(&mut want, &v); }
                    want.push(if over { "-- Err(AlreadyShutdown)" } else { "-- Ok(())" }.into());
                    let refs: Vec<_> = v.iter().map(|x| (&x.0, &x.1)).collect();
                    block_on(logs.export(LogBatch::new(&refs)))
                }
                Op::Metrics(mut m) => {
                    if !over { want.push("Metrics".into()); res(&mut want, &m.resource, "\tResource SchemaUrl: "); want_metrics(&mut want, &m.scope_metrics); }
                    want.push(if over { "-- Err(AlreadyShutdown)" } else { "-- Ok(())" }.into());
                    block_on(metrics.export(&mut m))
                }
                Op::Resource(x) => { if signal == 0 { spans.set_resource(&x) } else { logs.set_resource(&x) }; now = x; want.push("-- Ok(())".into()); Ok(()) }
                Op::Flush => { want.push("-- Ok(())".into()); metrics.force_flush() }
                Op::Shutdown => { over = true; want.push("-- Ok(())".into()); match signal { 0 => spans.shutdown(), 1 => logs.shutdown(), _ => metrics.shutdown() } }
            };
            println!("-- {done:?}");
        }
        std::io::stderr().write_all((want.join("\n") + "\n").as_bytes()).unwrap();
    }
    // many at once: the resource goes to one of them
    println!("@@{cases}");
    eprintln!("@@{cases} the first exports of eight threads at once, 50 times");
    for n in 0..50 {
        let (spans, logs) = (so::SpanExporter::default(), so::LogExporter::default());
        let go = std::sync::Barrier::new(8);
        std::thread::scope(|x| for i in 0..8 { let (spans, logs, go) = (&spans, &logs, &go); x.spawn(move || { go.wait(); if (n + i) % 2 == 0 { block_on(spans.export(vec![])).unwrap() } else { block_on(logs.export(LogBatch::new(&[]))).unwrap() } }); });
    }
}
pub fn c41(c: &mut Ctx) {
    c.rule = "the lines on the child's standard output equal the lines it wrote down beforehand".into();
    let cases = c.n(400) as usize;
    let seed = c.rng.next() | 1;
    let child = Command::new(std::env::current_exe().unwrap()).env("STDOUT_CHILD", format!("{seed} {cases}")).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
    let out = child.wait_with_output().unwrap();
    let cut = |b: &[u8]| -> Vec<Vec<String>> {
        let mut v: Vec<Vec<String>> = vec![];
        for l in String::from_utf8_lossy(b).lines() { if l.starts_with("@@") { v.push(vec![l.into()]); } else if let Some(x) = v.last_mut() { x.push(l.into()); } }
        // the attributes of a resource have no order of their own
        for x in &mut v { let mut i = 0; while i < x.len() { let mut j = i; while j < x.len() && x[j].starts_with("\t ->  ") { j += 1; } x[i..j].sort(); i = j.max(i + 1); } }
        v
    };
    let (got, want) = (cut(&out.stdout), cut(&out.stderr));
    for (n, w) in want.iter().enumerate() {
        let g = got.get(n);
        c.case(w[0].clone(), true, || {
            let g = g.ok_or("nothing was printed")?;
            if n == cases {
                let k = g.iter().filter(|l| *l == "Resource").count();
                return if k == 100 { Ok(()) } else { Err(format!("the resource of 100 exporters is printed {k} times")) };
            }
            for i in 1..g.len().max(w.len()) { if g.get(i) != w.get(i) { return Err(format!("line {i} is {:?}, not {:?}", g.get(i), w.get(i))); } }
            Ok(())
        });
    }
    let ended = want.len() == cases + 1 && out.status.success();
    let last = got.last().map(|g| g.iter().rev().take(3).cloned().collect::<Vec<_>>());
    c.case(format!("seed {seed}: {cases} histories in one process"), true, || if ended { Ok(()) } else { Err(format!("the process ended with {:?} at history {}; its last lines are {last:?}", out.status, want.len())) });
}

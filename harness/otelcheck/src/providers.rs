// C15: providers: shutdown and flush reach every processor / reader, once; no-op handles after shutdown; builders keep everything.
use crate::common::Ctx;
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, LoggerProvider as _};
use opentelemetry::metrics::MeterProvider as _;
use opentelemetry::trace::{Span as _, Tracer as _, TracerProvider as _};
use opentelemetry::{Context, InstrumentationScope, KeyValue};
use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
use opentelemetry_sdk::logs::{LogProcessor, SdkLogRecord, SdkLogger, SdkLoggerProvider};
use opentelemetry_sdk::metrics::data::ResourceMetrics;
use opentelemetry_sdk::metrics::reader::MetricReader;
use opentelemetry_sdk::metrics::{new_view, Instrument, InstrumentKind, ManualReader, Pipeline, SdkMeterProvider, Stream, Temporality};
use opentelemetry_sdk::trace::{SdkTracer, SdkTracerProvider, Span, SpanData, SpanProcessor};
use opentelemetry_sdk::Resource;
use std::sync::{Arc, Mutex, Weak};
use std::time::Duration;

type Log = Arc<Mutex<Vec<(usize, String)>>>;
#[derive(Debug, Clone)]
struct Rec { id: usize, log: Log, fail: u64, slow: bool }
fn res_text(r: &Resource) -> String {
    let mut v: Vec<String> = r.iter().filter(|(k, _)| k.as_str().starts_with("vk")).map(|(k, v)| format!("{k}={v}")).collect();
    v.sort();
    format!("{} {:?}", v.join(","), r.schema_url())
}
impl Rec {
    fn put(&self, s: impl Into<String>) { self.log.lock().unwrap().push((self.id, s.into())) }
    fn ans(&self, bit: u64) -> OTelSdkResult {
        if self.slow { std::thread::sleep(Duration::from_micros(200)); }
        match (self.fail >> (2 * bit)) & 3 { 0 => Ok(()), 1 => Err(OTelSdkError::AlreadyShutdown), 2 => Err(OTelSdkError::InternalFailure("no".into())), _ => Err(OTelSdkError::Timeout(Duration::from_secs(1))) }
    }
    fn bad(&self, bit: u64) -> bool { (self.fail >> (2 * bit)) & 3 != 0 }
}
impl SpanProcessor for Rec {
    fn on_start(&self, s: &mut Span, _: &Context) { if s.is_recording() { self.put("start") } else { self.put("start-dead") } }
    fn on_end(&self, s: SpanData) { self.put(format!("end {} {}", s.instrumentation_scope.name(), s.name)) }
    fn force_flush(&self) -> OTelSdkResult { self.put("flush"); self.ans(0) }
    fn shutdown(&self) -> OTelSdkResult { self.put("down"); self.ans(1) }
    fn set_resource(&mut self, r: &Resource) { self.put(format!("res {}", res_text(r))) }
}
impl LogProcessor for Rec {
    fn emit(&self, r: &mut SdkLogRecord, s: &InstrumentationScope) { self.put(format!("emit {} {:?}", s.name(), r.body())) }
    fn force_flush(&self) -> OTelSdkResult { self.put("flush"); self.ans(0) }
    fn shutdown(&self) -> OTelSdkResult { self.put("down"); self.ans(1) }
    fn set_resource(&mut self, r: &Resource) { self.put(format!("res {}", res_text(r))) }
}
#[derive(Debug, Clone)]
struct Reader { r: Rec, m: Arc<ManualReader> }
impl MetricReader for Reader {
    fn register_pipeline(&self, p: Weak<Pipeline>) { self.r.put("pipe"); self.m.register_pipeline(p) }
    fn collect(&self, rm: &mut ResourceMetrics) -> OTelSdkResult { self.m.collect(rm) }
    fn force_flush(&self) -> OTelSdkResult { self.r.put("flush"); self.r.ans(0) }
    fn shutdown_with_timeout(&self, _: Duration) -> OTelSdkResult { self.r.put("down"); self.r.ans(1) }
    fn temporality(&self, _: InstrumentKind) -> Temporality { Temporality::Cumulative }
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum Op { Flush, Down, Clone, DropOne, Handle, Use }
fn verdict(r: OTelSdkResult, down: bool, any_bad: bool) -> Result<(), String> {
    match (&r, down, any_bad) {
        (Err(OTelSdkError::AlreadyShutdown), true, _) => Ok(()),
        (Ok(()), false, false) => Ok(()),
        (Err(e), false, true) if !matches!(e, OTelSdkError::AlreadyShutdown) => Ok(()),
        _ => Err(format!("answered {r:?}; already shut down: {down}; a processor failed: {any_bad}")),
    }
}
/// what the log must hold
struct Model { log: Log, want: Vec<(usize, String)> }
impl Model {
    fn all(&mut self, n: usize, s: &str) { for i in 0..n { self.want.push((i, s.to_string())) } }
    fn check(&self, what: &str) -> Result<(), String> {
        let got = self.log.lock().unwrap().clone();
        if got == self.want { return Ok(()); }
        let k = got.iter().zip(&self.want).take_while(|(a, b)| a == b).count();
        Err(format!("after {what}: call {k} is {:?}, expected {:?} ({} calls, expected {})", got.get(k), self.want.get(k), got.len(), self.want.len()))
    }
}
/// keys from 100 on name a schema URL
fn resources(rs: &[Vec<u8>]) -> (Vec<Resource>, String) {
    let mut m = std::collections::BTreeMap::new();
    let mut url: Option<String> = None;
    let v = rs.iter().enumerate().map(|(i, ks)| {
        let own: Option<String> = ks.iter().find(|k| **k >= 100).map(|k| format!("http://{k}"));
        for k in ks.iter().filter(|k| **k < 100) { m.insert(format!("vk{k}"), format!("{i}")); }
        url = match (url.take(), own.clone()) { (Some(a), Some(b)) if a == b => Some(a), (Some(_), Some(_)) => None, (a, b) => a.or(b) };
        Resource::builder_empty().with_schema_url(ks.iter().filter(|k| **k < 100).map(|k| KeyValue::new(format!("vk{k}"), format!("{i}"))), own.unwrap_or_default()).build()
    }).collect();
    (v, format!("{} {url:?}", m.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(",")))
}
fn traces(recs: &[Rec], log: Log, ops: &[(Op, usize)], rs: &[Vec<u8>]) -> Result<(), String> {
    let n = recs.len();
    let mut m = Model { log, want: vec![] };
    let (res, want) = resources(rs);
    let mut b = SdkTracerProvider::builder();
    for (i, r) in res.into_iter().enumerate() { if i % 2 == 0 || n == 0 { b = b.with_resource(r) } else { b = b.with_resource(r) } }
    for r in recs { b = b.with_span_processor(r.clone()); }
    let mut ps = vec![b.build()];
    m.all(n, &format!("res {want}"));
    m.check("build")?;
    let mut ts: Vec<(SdkTracer, bool)> = vec![];
    let mut down = false;
    let mut gone = false;
    for (op, k) in ops {
        let what = format!("{op:?} {k}");
        match op {
            Op::Flush => if let Some(p) = ps.last() { let r = p.force_flush(); m.all(n, "flush"); verdict(r, false, recs.iter().any(|r| r.bad(0))).or_else(|e| if down { Ok(()) } else { Err(format!("{what}: {e}")) })?; },
            Op::Down => if let Some(p) = ps.get(k % ps.len().max(1)) {
                let r = p.shutdown();
                if !down { m.all(n, "down"); }
                verdict(r, down, recs.iter().any(|r| r.bad(1))).map_err(|e| format!("{what}: {e}"))?;
                down = true;
            },
            Op::Clone => if let Some(p) = ps.first().cloned() { ps.push(p) },
            Op::DropOne => { if !ps.is_empty() { let i = k % ps.len(); ps.remove(i); } },
            Op::Handle => if let Some(p) = ps.first() { let dead = down; ts.push((if k % 2 == 0 { p.tracer(format!("t{k}")) } else { p.tracer_with_scope(InstrumentationScope::builder(format!("t{k}")).build()) }, dead)) },
            Op::Use => if !ts.is_empty() {
                let (t, dead) = &ts[k % ts.len()];
                if down || *dead || gone {
                    let mut s = t.start("s"); 
                    if s.is_recording() { return Err(format!("{what}: a span started after shutdown records")); }
                    s.end();
                } else {
                    let mut s = t.start(format!("s{k}"));
                    m.all(n, "start");
                    m.check("start")?;
                    s.end();
                    let now = m.log.lock().unwrap().len() - m.want.len();
                    if now != n { return Err(format!("{what}: {now} processors of {n} saw the span end")); }
                    let got: Vec<_> = m.log.lock().unwrap()[m.want.len()..].to_vec();
                    for (i, (id, s)) in got.iter().enumerate() { if *id != i || !s.starts_with("end t") || !s.ends_with(&format!(" s{k}")) { return Err(format!("{what}: {got:?}")); } }
                    m.want.extend(got);
                }
            },
        }
        // the last provider handle (tracers hold one each) takes the processors down
        if ps.is_empty() && ts.iter().all(|t| t.1) && !gone { gone = true; if !down { m.all(n, "down"); down = true; } }
        m.check(&what)?;
    }
    drop(ts);
    drop(ps);
    if !gone && !down { m.all(n, "down"); }
    m.check("the last drop")
}
fn logs(recs: &[Rec], log: Log, ops: &[(Op, usize)], rs: &[Vec<u8>]) -> Result<(), String> {
    let n = recs.len();
    let mut m = Model { log, want: vec![] };
    let (res, want) = resources(rs);
    let mut b = SdkLoggerProvider::builder();
    for r in res { b = b.with_resource(r); }
    for r in recs { b = b.with_log_processor(r.clone()); }
    let mut ps = vec![b.build()];
    m.all(n, &format!("res {want}"));
    m.check("build")?;
    let mut ts: Vec<(SdkLogger, bool, usize)> = vec![];
    let mut down = false;
    let mut gone = false;
    for (op, k) in ops {
        let what = format!("{op:?} {k}");
        match op {
            Op::Flush => if let Some(p) = ps.last() { let r = p.force_flush(); m.all(n, "flush"); verdict(r, false, recs.iter().any(|r| r.bad(0))).or_else(|e| if down { Ok(()) } else { Err(format!("{what}: {e}")) })?; },
            Op::Down => if let Some(p) = ps.get(k % ps.len().max(1)) {
                let r = p.shutdown();
                if !down { m.all(n, "down"); }
                verdict(r, down, recs.iter().any(|r| r.bad(1))).map_err(|e| format!("{what}: {e}"))?;
                down = true;
            },
            Op::Clone => if let Some(p) = ps.first().cloned() { ps.push(p) },
            Op::DropOne => { if !ps.is_empty() { let i = k % ps.len(); ps.remove(i); } },
            Op::Handle => if let Some(p) = ps.first() { let dead = down; ts.push((if k % 2 == 0 { p.logger(format!("t{k}")) } else { p.logger_with_scope(InstrumentationScope::builder(format!("t{k}")).build()) }, dead, *k)) },
            Op::Use => if !ts.is_empty() {
                let (t, dead, j) = &ts[k % ts.len()];
                // a logger made before the shutdown may still hand records on; one made after it never does
                if *dead || !down {
                    let mut r = t.create_log_record();
                    r.set_body(AnyValue::Int(*k as i64));
                    t.emit(r);
                    if !*dead { m.all(n, &format!("emit t{j} {:?}", Some(AnyValue::Int(*k as i64)))); }
                }
            },
        }
        if ps.is_empty() && ts.iter().all(|t| t.1) && !gone { gone = true; if !down { m.all(n, "down"); down = true; } }
        m.check(&what)?;
    }
    drop(ts);
    drop(ps);
    if !gone && !down { m.all(n, "down"); }
    m.check("the last drop")
}
fn metrics(recs: &[Rec], log: Log, ops: &[(Op, usize)], rs: &[Vec<u8>]) -> Result<(), String> {
    let n = recs.len();
    let mut m = Model { log, want: vec![] };
    let (res, want) = resources(rs);
    let mut b = SdkMeterProvider::builder();
    for r in res { b = b.with_resource(r); }
    let readers: Vec<Reader> = recs.iter().map(|r| Reader { r: r.clone(), m: Arc::new(ManualReader::builder().build()) }).collect();
    for r in &readers { b = b.with_reader(r.clone()); }
    b = b.with_view(new_view(Instrument::new().name("u*"), Stream::new().description("seen")).unwrap()).with_view(new_view(Instrument::new().name("v"), Stream::new().name("w")).unwrap());
    let mut ps = vec![b.build()];
    m.all(n, "pipe");
    m.check("build")?;
    let mut ms: Vec<(opentelemetry::metrics::Meter, bool, String)> = vec![];
    let mut sums: std::collections::BTreeMap<(String, String), u64> = Default::default();
    let mut down = false;
    let mut gone = false;
    for (op, k) in ops {
        let what = format!("{op:?} {k}");
        match op {
            Op::Flush => if let Some(p) = ps.last() { let r = p.force_flush(); if !down { m.all(n, "flush"); } verdict(r, down, recs.iter().any(|r| r.bad(0))).map_err(|e| format!("{what}: {e}"))?; },
            Op::Down => if let Some(p) = ps.get(k % ps.len().max(1)) {
                let r = p.shutdown();
                if !down { m.all(n, "down"); }
                verdict(r, down, recs.iter().any(|r| r.bad(1))).map_err(|e| format!("{what}: {e}"))?;
                down = true;
            },
            Op::Clone => if let Some(p) = ps.first().cloned() { ps.push(p) },
            Op::DropOne => { if !ps.is_empty() { let i = k % ps.len(); ps.remove(i); } },
            Op::Handle => if let Some(p) = ps.first() {
                let dead = down;
                let (meter, name) = match k % 4 {
                    0 => (p.meter("a"), "a ".to_string()),
                    1 => (p.meter_with_scope(InstrumentationScope::builder("a").build()), "a ".to_string()),
                    2 => (p.meter_with_scope(InstrumentationScope::builder("a").with_version("1").build()), "a 1".to_string()),
                    _ => (p.meter_with_scope(InstrumentationScope::builder("b").with_attributes([KeyValue::new("x", 1)]).build()), "b ".to_string()),
                };
                ms.push((meter, dead, name));
            },
            Op::Use => if !ms.is_empty() {
                let (t, dead, name) = &ms[k % ms.len()];
                // a meter made before the shutdown may still take measurements; one made after it never does
                if *dead || !down {
                    let inst = ["uu", "v", "x"][k % 3];
                    t.u64_counter(inst).build().add(*k as u64, &[]);
                    if !*dead { *sums.entry((name.clone(), if inst == "v" { "w".into() } else { inst.into() })).or_default() += *k as u64; }
                }
            },
        }
        if ps.is_empty() && !gone { gone = true; if !down { m.all(n, "down"); down = true; } }
        m.check(&what)?;
        if !gone && *op == Op::Use {
            for r in &readers {
                let mut rm = ResourceMetrics { resource: Resource::builder_empty().build(), scope_metrics: vec![] };
                r.collect(&mut rm).map_err(|e| format!("collect {e:?}"))?;
                if res_text(&rm.resource) != want { return Err(format!("{what}: reported with resource {:?}, expected {want}", res_text(&rm.resource))); }
                let mut got: std::collections::BTreeMap<(String, String), u64> = Default::default();
                for s in &rm.scope_metrics {
                    for x in &s.metrics {
                        if (x.name.starts_with('u')) != (x.description == "seen") { return Err(format!("{what}: views not applied to {x:?}")); }
                        let opentelemetry_sdk::metrics::data::AggregatedMetrics::U64(opentelemetry_sdk::metrics::data::MetricData::Sum(d)) = &x.data else { return Err(format!("{what}: {x:?}")) };
                        if d.data_points.len() != 1 { return Err(format!("{what}: {x:?}")); }
                        if got.insert((format!("{} {}", s.scope.name(), s.scope.version().unwrap_or("")), x.name.to_string()), d.data_points[0].value).is_some() { return Err(format!("{what}: {} {} is reported twice: equal scopes do not share one meter", s.scope.name(), x.name)); }
                    }
                }
                if got != sums { return Err(format!("{what}: {got:?}, expected {sums:?}")); }
            }
        }
    }
    drop(ms);
    drop(ps);
    if !gone && !down { m.all(n, "down"); }
    m.check("the last drop")
}

pub fn c15(cx: &mut Ctx) {
    cx.rule = "the recorded calls are exactly those of a model: every processor or reader once per flush, once for the first shutdown or the last drop, in order; handles made after shutdown reach none".into();
    let kinds: [(&str, fn(&[Rec], Log, &[(Op, usize)], &[Vec<u8>]) -> Result<(), String>); 3] = [("tracer", traces), ("logger", logs), ("meter", metrics)];
    for round in 0..cx.n(250) {
        let n = cx.rng.usize(4);
        let log: Log = Default::default();
        let recs: Vec<Rec> = (0..n).map(|id| Rec { id, log: log.clone(), fail: if cx.rng.chance(2, 3) { 0 } else { cx.rng.next() }, slow: false }).collect();
        let len = 1 + cx.rng.usize(24);
        let ops: Vec<(Op, usize)> = (0..len).map(|_| {
            let o = match cx.rng.below(20) { 0..=1 => Op::Flush, 2 => Op::Down, 3..=4 => Op::Clone, 5 => Op::DropOne, 6..=9 => Op::Handle, _ => Op::Use };
            (o, cx.rng.usize(64))
        }).collect();
        // the first provider of the process keeps its resource: later ones differ from it only a little, or not at all
        let near: [&[&[u8]]; 6] = [&[&[0, 1]], &[&[0, 1, 100]], &[&[0, 1, 101]], &[&[], &[0, 1]], &[&[0, 2]], &[&[0, 1], &[100]]];
        let rs: Vec<Vec<u8>> = if round < 3 { vec![vec![0, 1]] } else if cx.rng.bool() { cx.rng.pick(&near).iter().map(|v| v.to_vec()).collect() } else { (0..cx.rng.usize(4)).map(|_| { let mut v: Vec<u8> = (0..cx.rng.usize(4)).map(|_| cx.rng.below(5) as u8).collect(); if cx.rng.chance(1, 3) { v.push(100 + cx.rng.below(2) as u8); } v }).collect() };
        let (what, f) = kinds[round as usize % 3];
        let fails: Vec<u64> = recs.iter().map(|r| r.fail & 15).collect();
        cx.case(format!("{what} provider, {n} processors answering {fails:?}, resources {rs:?}, then {ops:?}"), n > 0 && ops.iter().any(|o| o.0 == Op::Down || o.0 == Op::DropOne), || f(&recs, log.clone(), &ops, &rs));
    }
    // threads racing to shut one provider down
    for round in 0..cx.n(45) {
        let n = 1 + cx.rng.usize(3);
        let k = 2 + cx.rng.usize(5);
        let what = kinds[round as usize % 3].0;
        let log: Log = Default::default();
        let recs: Vec<Rec> = (0..n).map(|id| Rec { id, log: log.clone(), fail: 0, slow: true }).collect();
        cx.case(format!("{k} threads shut one {what} provider with {n} processors down at once"), true, || {
            let bar = std::sync::Barrier::new(k);
            let race = |f: &(dyn Fn() -> OTelSdkResult + Sync)| -> Vec<OTelSdkResult> { std::thread::scope(|s| (0..k).map(|_| s.spawn(|| { bar.wait(); f() })).collect::<Vec<_>>().into_iter().map(|h| h.join().unwrap()).collect()) };
            let rs = match what {
                "tracer" => { let mut b = SdkTracerProvider::builder(); for r in &recs { b = b.with_span_processor(r.clone()); } let p = b.build(); race(&|| p.clone().shutdown()) }
                "logger" => { let mut b = SdkLoggerProvider::builder(); for r in &recs { b = b.with_log_processor(r.clone()); } let p = b.build(); race(&|| p.clone().shutdown()) }
                _ => { let mut b = SdkMeterProvider::builder(); for r in &recs { b = b.with_reader(Reader { r: r.clone(), m: Arc::new(ManualReader::builder().build()) }); } let p = b.build(); race(&|| p.clone().shutdown()) }
            };
            let first = rs.iter().filter(|r| r.is_ok()).count();
            if first != 1 || rs.iter().any(|r| !matches!(r, Ok(()) | Err(OTelSdkError::AlreadyShutdown))) { return Err(format!("answers {rs:?}")); }
            let downs: Vec<usize> = log.lock().unwrap().iter().filter(|x| x.1 == "down").map(|x| x.0).collect();
            if downs != (0..n).collect::<Vec<_>>() { return Err(format!("shut down: {downs:?}")); }
            Ok(())
        });
    }
    // the last reference goes away while the tracing crate holds its lock on the subscribers, as when a subscriber layer owns the provider.
    // These cases come last: a deadlock leaves the lock held.
    let _all = tracing::Dispatch::new(Sub(Mutex::new(None)));
    for what in ["tracer", "logger"] {
        for down in [true, false] {
            cx.case(format!("the last reference of a {what} provider{} is dropped by a tracing subscriber", if down { ", already shut down," } else { "" }), true, || {
                let log: Log = Default::default();
                let r = Rec { id: 0, log: log.clone(), fail: 0, slow: false };
                let (tx, rx) = std::sync::mpsc::channel();
                std::thread::spawn(move || {
                    let held: Box<dyn std::any::Any + Send> = match what {
                        "tracer" => { let p = SdkTracerProvider::builder().with_span_processor(r).build(); if down { let _ = p.shutdown(); } Box::new(p) }
                        _ => { let p = SdkLoggerProvider::builder().with_log_processor(r).build(); if down { let _ = p.shutdown(); } Box::new(p) }
                    };
                    let d = tracing::Dispatch::new(Sub(Mutex::new(Some(held))));
                    let _ = tx.send(());
                    drop(d);
                });
                if rx.recv_timeout(std::time::Duration::from_secs(5)).is_err() { return Err("still waiting after five seconds: dropping the provider emits a tracing event, which waits for that lock".into()); }
                let downs = log.lock().unwrap().iter().filter(|x| x.1 == "down").count();
                if downs != 1 { return Err(format!("processor shut down {downs} times")); }
                Ok(())
            });
        }
    }
}
/// lets go of what it holds when it is asked for its level, which the tracing crate does under its lock
struct Sub(Mutex<Option<Box<dyn std::any::Any + Send>>>);
impl tracing::Subscriber for Sub {
    fn max_level_hint(&self) -> Option<tracing::level_filters::LevelFilter> { drop(self.0.lock().unwrap().take()); Some(tracing::level_filters::LevelFilter::TRACE) }
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool { true }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id { tracing::span::Id::from_u64(1) }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, _: &tracing::Event<'_>) {}
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

// C32: the manual and the periodic metric reader.
use crate::common::Ctx;
use crate::metrics::empty_rm;
use opentelemetry::metrics::MeterProvider as _;
use opentelemetry::Context;
use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
use opentelemetry_sdk::metrics::data::{AggregatedMetrics, MetricData, ResourceMetrics};
use opentelemetry_sdk::metrics::exporter::PushMetricExporter;
use opentelemetry_sdk::metrics::reader::MetricReader;
use opentelemetry_sdk::metrics::{InstrumentKind, ManualReader, PeriodicReader, Pipeline, SdkMeterProvider, Temporality};
use opentelemetry_sdk::Resource;
use std::sync::{Arc, Mutex, Weak};
use std::time::{Duration, Instant};

fn sums(rm: &ResourceMetrics) -> Vec<(String, u64)> {
    let mut v: Vec<(String, u64)> = rm.scope_metrics.iter().flat_map(|s| s.metrics.iter()).map(|m| match &m.data {
        AggregatedMetrics::U64(MetricData::Sum(s)) => (m.name.to_string(), s.data_points.iter().map(|p| p.value).sum()),
        o => panic!("{o:?}"),
    }).collect();
    v.sort();
    v
}
#[derive(Clone, Debug, PartialEq)]
enum Ev { Out(Vec<(String, u64)>), Down }
#[derive(Clone, Debug)]
struct Exp { log: Arc<Mutex<(Vec<Ev>, Vec<Instant>, bool)>>, bad: Vec<bool>, bad_down: bool, slow: Duration, t: Temporality }
impl Exp {
    fn new() -> Exp { Exp { log: Default::default(), bad: vec![], bad_down: false, slow: Duration::ZERO, t: Temporality::Cumulative } }
    fn outs(&self) -> usize { self.log.lock().unwrap().0.iter().filter(|e| **e != Ev::Down).count() }
    fn wait(&self, n: usize, limit: Duration) -> bool { let end = Instant::now() + limit; while Instant::now() < end { if self.outs() >= n { return true; } std::thread::sleep(Duration::from_millis(1)); } false }
}
impl PushMetricExporter for Exp {
    async fn export(&self, m: &mut ResourceMetrics) -> OTelSdkResult {
        std::thread::sleep(self.slow);
        let mut l = self.log.lock().unwrap();
        if !Context::is_current_telemetry_suppressed() { l.2 = true; }
        let k = l.0.iter().filter(|e| **e != Ev::Down).count();
        l.0.push(Ev::Out(sums(m)));
        l.1.push(Instant::now());
        if self.bad.get(k).copied().unwrap_or(false) { Err(OTelSdkError::InternalFailure("no".into())) } else { Ok(()) }
    }
    fn force_flush(&self) -> OTelSdkResult { Ok(()) }
    fn shutdown_with_timeout(&self, _: Duration) -> OTelSdkResult { self.log.lock().unwrap().0.push(Ev::Down); if self.bad_down { Err(OTelSdkError::InternalFailure("no".into())) } else { Ok(()) } }
    fn temporality(&self) -> Temporality { self.t }
}
/// a reader of which a copy stays outside
#[derive(Debug)]
struct Keep<R>(Arc<R>);
impl<R> Clone for Keep<R> { fn clone(&self) -> Self { Keep(self.0.clone()) } }

impl<R: MetricReader> MetricReader for Keep<R> {
    fn register_pipeline(&self, p: Weak<Pipeline>) { self.0.register_pipeline(p) }
    fn collect(&self, rm: &mut ResourceMetrics) -> OTelSdkResult { self.0.collect(rm) }
    fn force_flush(&self) -> OTelSdkResult { self.0.force_flush() }
    fn shutdown_with_timeout(&self, t: Duration) -> OTelSdkResult { self.0.shutdown_with_timeout(t) }
    fn temporality(&self, k: InstrumentKind) -> Temporality { self.0.temporality(k) }
}
fn program(delta: bool, ops: &[(u8, u64)], bad: Vec<bool>, bad_down: bool, via_provider: bool) -> Result<(), String> {
    let mut e = Exp::new();
    e.bad = bad.clone();
    e.bad_down = bad_down;
    e.t = if delta { Temporality::Delta } else { Temporality::Cumulative };
    let r = Keep(Arc::new(PeriodicReader::builder(e.clone()).with_interval(Duration::from_secs(3600)).build()));
    let p = SdkMeterProvider::builder().with_reader(r.clone()).build();
    let m = p.meter("m");
    let cs = [m.u64_counter("a").build(), m.u64_counter("b").build()];
    let mut state: [Option<u64>; 2] = [None, None];
    let mut want = vec![];
    let mut down = false;
    let mut collect = |state: &mut [Option<u64>; 2], want: &mut Vec<Ev>| -> bool {
        let out: Vec<(String, u64)> = (0..2).filter_map(|i| state[i].map(|v| (["a", "b"][i].to_string(), v))).collect();
        if delta { *state = [None, None]; }
        if out.is_empty() { return true; }
        let k = want.iter().filter(|e| **e != Ev::Down).count();
        want.push(Ev::Out(out));
        !bad.get(k).copied().unwrap_or(false)
    };
    for (op, v) in ops {
        match op {
            0..=4 => { let i = (*op % 2) as usize; cs[i].add(*v, &[]); if !down { state[i] = Some(state[i].unwrap_or(0) + v); } }
            5..=7 => {
                let got = if via_provider { p.force_flush() } else { r.force_flush() };
                if down { if got.is_ok() { return Err("a flush after shutdown succeeds".into()); } } else {
                    let ok = collect(&mut state, &mut want);
                    if got.is_ok() != ok { return Err(format!("flush answered {got:?}; collected and exported: {ok}")); }
                }
            }
            8 => {
                let mut rm = empty_rm();
                r.collect(&mut rm).map_err(|e| format!("collect: {e:?}"))?;
                let out: Vec<(String, u64)> = (0..2).filter_map(|i| state[i].map(|v| (["a", "b"][i].to_string(), v))).collect();
                if delta { state = [None, None]; }
                if !down && sums(&rm) != out { return Err(format!("collected {:?}, expected {out:?}", sums(&rm))); }
            }
            _ => {
                let got = if via_provider { p.shutdown() } else { r.shutdown() };
                if down { if got.is_ok() { return Err("a second shutdown succeeds".into()); } } else {
                    let ok = collect(&mut state, &mut want) && !bad_down;
                    want.push(Ev::Down);
                    down = true;
                    if got.is_ok() != ok { return Err(format!("shutdown answered {got:?}; everything went well: {ok}")); }
                }
            }
        }
        let l = e.log.lock().unwrap();
        if l.0 != want { return Err(format!("after {op} {v} the exporter saw {:?}, expected {want:?}", l.0)); }
        if l.2 { return Err("an export ran with telemetry recorded".into()); }
    }
    drop(cs);
    drop(m);
    drop(p);
    if !down { collect(&mut state, &mut want); want.push(Ev::Down); }
    let l = e.log.lock().unwrap();
    if l.0 != want { return Err(format!("at the end the exporter saw {:?}, expected {want:?}", l.0)); }
    Ok(())
}
pub fn c32(cx: &mut Ctx) {
    cx.rule = "the exporter sees exactly one collection per interval, flush and shutdown, with what was recorded by then; results report how it went".into();
    for round in 0..cx.n(120) {
        let delta = cx.rng.bool();
        let len = 1 + cx.rng.usize(14);
        let ops: Vec<(u8, u64)> = (0..len).map(|_| (if cx.rng.chance(1, 14) { 9 } else { cx.rng.below(9) as u8 }, cx.rng.below(100))).collect();
        let bad: Vec<bool> = (0..8).map(|_| cx.rng.chance(1, 5)).collect();
        let bad_down = cx.rng.chance(1, 5);
        let via = round % 3 == 0;
        cx.case(format!("periodic reader, delta {delta}, (0-4 add, 5-7 flush, 8 collect, 9 shutdown) {ops:?}, exports failing {bad:?}, shutdown failing {bad_down}, through the provider {via}"), true, || program(delta, &ops, bad, bad_down, via));
    }
    for round in 0..cx.n(60) {
        let ops: Vec<u8> = (0..1 + cx.rng.usize(8)).map(|_| cx.rng.below(6) as u8).collect();
        let t = *cx.rng.pick(&[Temporality::Cumulative, Temporality::Delta, Temporality::LowMemory]);
        cx.case(format!("manual reader {t:?} {round}: (0 register, 1 register another, 2-3 collect, 4 shutdown, 5 add) {ops:?}"), true, || {
            let rs = [Keep(Arc::new(ManualReader::builder().with_temporality(t).build())), Keep(Arc::new(ManualReader::builder().with_temporality(t).build()))];
            let mut ps = vec![];
            let mut reg: Option<usize> = None;       // which provider feeds the reader
            let mut off = false;
            let mut totals = vec![];
            for op in &ops {
                match op {
                    0 | 1 => {
                        let p = SdkMeterProvider::builder().with_reader(rs[0].clone()).with_resource(Resource::builder_empty().build()).build();
                        p.meter("m").u64_counter("n").build().add(1 + ps.len() as u64, &[]);
                        totals.push(Some(1 + ps.len() as u64));
                        if reg.is_none() && !off { reg = Some(ps.len()); }
                        ps.push(p);
                        if off { return Ok(()); }
                    }
                    2 | 3 => {
                        let mut rm = empty_rm();
                        let r = rs[0].collect(&mut rm);
                        match reg {
                            Some(i) if !off => {
                                r.map_err(|e| format!("collect: {e:?}"))?;
                                let want: Vec<(String, u64)> = totals[i].iter().map(|v: &u64| ("n".to_string(), *v)).collect();
                                if sums(&rm) != want { return Err(format!("collected {:?}, expected {want:?}", sums(&rm))); }
                                if t != Temporality::Cumulative { totals[i] = None; }
                            }
                            _ => if r.is_ok() || !rm.scope_metrics.is_empty() { return Err(format!("collect without a pipeline or after shutdown: {r:?} {rm:?}")); },
                        }
                    }
                    4 => { rs[0].shutdown().map_err(|e| format!("shutdown {e:?}"))?; off = true; }
                    _ => if let Some(i) = reg { ps[i].meter("m").u64_counter("n").build().add(5, &[]); totals[i] = Some(totals[i].unwrap_or(0) + 5); },
                }
            }
            Ok(())
        });
    }
    // the interval
    for (ms, slow) in [(25u64, 0u64), (25, 40), (60, 5)] {
        for flush in [false, true] {
            cx.case(format!("exports every {ms} ms, each taking {slow} ms, flushing in between: {flush}"), true, || {
                let mut e = Exp::new();
                e.slow = Duration::from_millis(slow);
                let p = SdkMeterProvider::builder().with_reader(PeriodicReader::builder(e.clone()).with_interval(Duration::from_millis(ms)).build()).build();
                let c = p.meter("m").u64_counter("a").build();
                c.add(1, &[]);
                let t0 = Instant::now();
                let mut flushes = 0;
                while flush && t0.elapsed() < Duration::from_millis(4 * ms) { p.force_flush().map_err(|e| format!("flush {e:?}"))?; flushes += 1; std::thread::sleep(Duration::from_millis(3)); }
                if !e.wait(4 + flushes, Duration::from_secs(10)) { return Err(format!("{} exports", e.outs())); }
                std::thread::sleep(Duration::from_millis(2 * ms));
                let k = e.outs() as u64 - flushes as u64;
                let room = t0.elapsed().as_millis() as u64 / ms.max(slow) + 2 + flushes as u64 * 2;
                if k > room { return Err(format!("{k} exports on the timer within {:?}", t0.elapsed())); }
                p.shutdown().map_err(|e| format!("shutdown {e:?}"))?;
                let k = e.outs();
                std::thread::sleep(Duration::from_millis(3 * ms));
                if e.outs() != k { return Err("exported after shutdown".into()); }
                Ok(())
            });
        }
    }
    for (env, with, lo, hi) in [(Some("0"), None, 0, 0), (Some("20"), None, 1, 40), (Some("x"), None, 0, 0), (Some("-5"), None, 0, 0), (Some("20"), Some(0), 1, 40), (Some("20"), Some(3_600_000), 0, 0), (None, None, 0, 0), (None, Some(0), 0, 0), (Some("3600000"), Some(20), 1, 40), (Some("18446744073709551615"), None, 0, 0)] {
        cx.case(format!("OTEL_METRIC_EXPORT_INTERVAL {env:?}, with_interval {with:?}"), true, || {
            match env { Some(v) => std::env::set_var("OTEL_METRIC_EXPORT_INTERVAL", v), None => std::env::remove_var("OTEL_METRIC_EXPORT_INTERVAL") }
            let e = Exp::new();
            let mut b = PeriodicReader::builder(e.clone());
            std::env::remove_var("OTEL_METRIC_EXPORT_INTERVAL");
            if let Some(w) = with { b = b.with_interval(Duration::from_millis(w)); }
            let p = SdkMeterProvider::builder().with_reader(b.build()).build();
            p.meter("m").u64_counter("a").build().add(1, &[]);
            if lo > 0 && !e.wait(lo, Duration::from_secs(10)) { return Err("no export".into()); }
            let t0 = Instant::now();
            let k0 = e.outs();
            std::thread::sleep(Duration::from_millis(120));
            let k = e.outs() - k0;
            if k as u128 > hi as u128 * (1 + t0.elapsed().as_millis() / 120) { return Err(format!("{k} exports in {:?}", t0.elapsed())); }
            Ok(())
        });
    }
    // threads recording, flushing and, one of them, shutting down
    for round in 0..cx.n(20) {
        let stop_at = cx.rng.below(40);
        cx.case(format!("4 threads recording and flushing, a shutdown after {stop_at} flushes of one of them ({round})"), true, || {
            let e = Exp::new();
            let p = SdkMeterProvider::builder().with_reader(PeriodicReader::builder(e.clone()).with_interval(Duration::from_millis(2)).build()).build();
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..4).map(|t| { let (p, e) = (p.clone(), e.clone()); s.spawn(move || {
                    let c = p.meter("m").u64_counter(["a", "b", "c", "d"][t]).build();
                    for k in 1..40u64 {
                        if t == 0 && k == stop_at { return p.shutdown().map_err(|e| format!("shutdown {e:?}")); }
                        c.add(1, &[]);
                        if p.force_flush().is_ok() {
                            let l = e.log.lock().unwrap();
                            let seen = l.0.iter().any(|x| matches!(x, Ev::Out(v) if v.iter().any(|(n, s)| n == ["a", "b", "c", "d"][t] && *s >= k)));
                            if !seen { return Err(format!("thread {t}: flush succeeded before {k} was exported")); }
                        } else if stop_at == 0 { return Err("flush failed".into()); }
                    }
                    Ok(())
                }) }).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect::<Result<Vec<()>, String>>()
            })?;
            let _ = p.shutdown();
            let l = e.log.lock().unwrap();
            if l.0.iter().filter(|x| **x == Ev::Down).count() != 1 || l.0.last() != Some(&Ev::Down) { return Err(format!("shutdown seen {:?}", l.0.iter().rev().take(3).collect::<Vec<_>>())); }
            Ok(())
        });
    }
}

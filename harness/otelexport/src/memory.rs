// C40 The in-memory exporters keep what they are given.
use crate::common::{Ctx, Rng};
use crate::transform::{record, resource, scope, span, stream};
use futures_executor::block_on;
use opentelemetry::logs::LoggerProvider as _;
use opentelemetry::InstrumentationScope;
use opentelemetry_sdk::logs::{InMemoryLogExporter, InMemoryLogExporterBuilder, LogBatch, LogExporter as _, SdkLoggerProvider};
use opentelemetry_sdk::metrics::exporter::PushMetricExporter as _;
use opentelemetry_sdk::metrics::{data as sd, InMemoryMetricExporter, InMemoryMetricExporterBuilder, Temporality};
use opentelemetry_sdk::trace::{InMemorySpanExporter, InMemorySpanExporterBuilder, SpanData, SpanExporter as _};
use opentelemetry_sdk::Resource;
use std::fmt::Debug;

#[derive(Debug, Clone, Copy, PartialEq)]
enum Op { Export, Get, Reset, Shutdown, Resource, Flush }
fn ops(r: &mut Rng) -> Vec<(Op, usize)> {
    (0..2 + r.usize(12)).map(|_| (match r.below(12) { 0..=4 => Op::Export, 5..=7 => Op::Get, 8 => Op::Reset, 9 => Op::Shutdown, 10 => Op::Flush, _ => Op::Resource }, r.usize(3))).collect()
}
fn res(r: &Resource) -> String { let mut v: Vec<String> = r.iter().map(text).collect(); v.sort(); format!("{v:?} {:?}", r.schema_url()) }
fn text(t: impl Debug) -> String { format!("{t:?}") }
fn same(at: usize, got: &[String], want: &[String]) -> Result<(), String> {
    if got.len() != want.len() { return Err(format!("step {at}: {} items are kept, not {}", got.len(), want.len())); }
    match got.iter().zip(want).position(|(g, w)| g != w) { Some(i) => Err(format!("step {at}: item {i} is {}, not {}", got[i], want[i])), None => Ok(()) }
}
/// three handles: two are clones of the first
fn spans(c: &mut Ctx) {
    for _ in 0..c.n(200) {
        let r = &mut c.rng;
        let h = ops(r);
        let s = scope(r);
        let batches: Vec<Vec<SpanData>> = h.iter().map(|_| (0..r.usize(4) as u64).map(|n| span(r, &s, n)).collect()).collect();
        let given: Vec<Resource> = h.iter().map(|_| resource(r)).collect();
        let built = r.bool();
        c.case(format!("spans {h:?} {batches:?}"), true, || {
            let first = if built { InMemorySpanExporterBuilder::new().build() } else { InMemorySpanExporter::default() };
            let mut e = vec![first.clone(), first.clone(), first];
            let mut want: Vec<String> = vec![];
            for (i, (op, k)) in h.iter().enumerate() {
                match op {
                    Op::Export => { block_on(e[*k].export(batches[i].clone())).map_err(text)?; want.extend(batches[i].iter().map(text)); }
                    Op::Reset => { e[*k].reset(); want.clear(); }
                    Op::Shutdown => { e[*k].shutdown().map_err(text)?; want.clear(); }
                    Op::Flush => e[*k].force_flush().map_err(text)?,
                    Op::Resource => e[*k].set_resource(&given[i]),
                    Op::Get => {}
                }
                for e in &e { same(i, &e.get_finished_spans().map_err(text)?.iter().map(text).collect::<Vec<_>>(), &want)?; }
            }
            Ok(())
        });
    }
}
fn logs(c: &mut Ctx) {
    let provider = SdkLoggerProvider::builder().build();
    let logger = provider.logger("in memory");
    for _ in 0..c.n(200) {
        let r = &mut c.rng;
        let h = ops(r);
        let scopes: Vec<InstrumentationScope> = (0..3).map(|_| scope(r)).collect();
        let batches: Vec<Vec<_>> = h.iter().map(|_| (0..r.usize(4) as u64).map(|n| { let s = r.pick(&scopes).clone(); (record(r, &logger, n).0, s) }).collect()).collect();
        let given: Vec<Resource> = h.iter().map(|_| resource(r)).collect();
        let built = r.bool();
        c.case(format!("logs {h:?} {batches:?}"), true, || {
            let first = if built { InMemoryLogExporterBuilder::new().build() } else { InMemoryLogExporter::default() };
            let mut e = vec![first.clone(), first.clone(), first];
            let (mut want, mut over): (Vec<String>, bool) = (vec![], false);
            let mut now = Resource::builder().build();
            for (i, (op, k)) in h.iter().enumerate() {
                match op {
                    Op::Export => { let refs: Vec<_> = batches[i].iter().map(|x| (&x.0, &x.1)).collect(); block_on(e[*k].export(LogBatch::new(&refs))).map_err(text)?; want.extend(batches[i].iter().map(text)); }
                    Op::Reset => { e[*k].reset(); want.clear(); }
                    Op::Shutdown => { e[*k].shutdown().map_err(text)?; want.clear(); over = true; }
                    Op::Resource => { e[*k].set_resource(&given[i]); now = given[i].clone(); }
                    Op::Get | Op::Flush => {}
                }
                for e in &e {
                    let got = e.get_emitted_logs().map_err(text)?;
                    same(i, &got.iter().map(|l| text((&l.record, &l.instrumentation))).collect::<Vec<_>>(), &want)?;
                    if let Some(l) = got.iter().find(|l| res(&l.resource) != res(&now)) { return Err(format!("step {i}: a record comes with the resource {:?}, not {now:?}", l.resource)); }
                    if e.is_shutdown_called() != over { return Err(format!("step {i}: is_shutdown_called is {}", !over)); }
                }
            }
            Ok(())
        });
    }
}
fn metrics(c: &mut Ctx) {
    for _ in 0..c.n(200) {
        let r = &mut c.rng;
        let h = ops(r);
        let mut batches: Vec<sd::ResourceMetrics> = h.iter().map(|_| {
            let scope_metrics = (0..r.usize(3)).map(|_| sd::ScopeMetrics { scope: scope(r), metrics: (0..r.usize(3)).map(|n| {
                let (data, _) = match r.below(3) { 0 => stream::<u64>(r), 1 => stream::<i64>(r), _ => stream::<f64>(r) };
                sd::Metric { name: format!("n{n}").into(), description: format!("d{}", r.below(3)).into(), unit: format!("u{}", r.below(3)).into(), data }
            }).collect() }).collect();
            sd::ResourceMetrics { resource: resource(r), scope_metrics }
        }).collect();
        let t = *r.pick(&[None, Some(Temporality::Delta), Some(Temporality::Cumulative), Some(Temporality::LowMemory)]);
        c.case(format!("metrics {t:?} {h:?} {batches:?}"), true, || {
            let first = match t { Some(t) => InMemoryMetricExporterBuilder::new().with_temporality(t).build(), None => InMemoryMetricExporter::default() };
            let e = vec![first.clone(), first.clone(), first];
            if let Some(x) = e.iter().find(|e| e.temporality() != t.unwrap_or(Temporality::Cumulative)) { return Err(format!("the temporality is {:?}", x.temporality())); }
            let mut want: Vec<usize> = vec![];
            for (i, (op, k)) in h.iter().enumerate() {
                match op {
                    Op::Export => {
                        let before = text(&batches[i]);
                        block_on(e[*k].export(&mut batches[i])).map_err(text)?; want.push(i);
                        if text(&batches[i]) != before { return Err(format!("step {i}: the export changed what it was given to {:?}", batches[i])); }
                    }
                    Op::Reset => { e[*k].reset(); want.clear(); }
                    Op::Shutdown => e[*k].shutdown().map_err(text)?,
                    Op::Flush => e[*k].force_flush().map_err(text)?,
                    Op::Get | Op::Resource => {}
                }
                for e in &e {
                    let got = e.get_finished_metrics().map_err(text)?;
                    same(i, &got.iter().map(|m| text(&m.scope_metrics)).collect::<Vec<_>>(), &want.iter().map(|w| text(&batches[*w].scope_metrics)).collect::<Vec<_>>())?;
                    for (g, w) in got.iter().zip(&want) { if res(&g.resource) != res(&batches[*w].resource) { return Err(format!("step {i}: the resource is {:?}, not {:?}", g.resource, batches[*w].resource)); } }
                }
            }
            Ok(())
        });
    }
}
/// several threads at once: every batch whole, in one piece, once
fn threads(c: &mut Ctx) {
    for _ in 0..c.n(20) {
        let s = scope(&mut c.rng);
        let one = span(&mut c.rng, &s, 0);
        let sizes: Vec<Vec<usize>> = (0..4).map(|_| (0..20).map(|_| 1 + c.rng.usize(4)).collect()).collect();
        c.case(format!("4 threads exporting batches of {sizes:?} spans"), true, || {
            let e = InMemorySpanExporter::default();
            std::thread::scope(|x| for (t, v) in sizes.iter().enumerate() {
                let (e, one) = (e.clone(), &one);
                x.spawn(move || for (b, n) in v.iter().enumerate() { block_on(e.export((0..*n).map(|i| SpanData { name: format!("{t} {b} {i}").into(), ..one.clone() }).collect())).unwrap(); });
            });
            let got: Vec<String> = e.get_finished_spans().map_err(text)?.iter().map(|s| s.name.to_string()).collect();
            let mut at = 0;
            let mut next = [0usize; 4];
            while at < got.len() {
                let t: usize = got[at].split(' ').next().unwrap().parse().unwrap();
                if next[t] >= sizes[t].len() { return Err(format!("{} was exported, yet is kept again", got[at])); }
                for i in 0..sizes[t][next[t]] { let w = format!("{t} {} {i}", next[t]); if got.get(at + i) != Some(&w) { return Err(format!("item {} is {:?}, not {w}", at + i, got.get(at + i))); } }
                at += sizes[t][next[t]]; next[t] += 1;
            }
            if next != [20; 4] { return Err(format!("batches kept of each thread: {next:?}")); }
            Ok(())
        });
    }
}
pub fn c40(c: &mut Ctx) {
    c.rule = "after every step every handle reports the list of all that was exported since it was last emptied".into();
    spans(c);
    logs(c);
    metrics(c);
    threads(c);
}

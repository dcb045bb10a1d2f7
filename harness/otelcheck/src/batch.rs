use crate::common::Ctx;
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, LoggerProvider as _};
use opentelemetry::trace::{Span as _, Tracer as _, TracerProvider as _};
use opentelemetry::{Context, InstrumentationScope};
use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
use opentelemetry_sdk::logs::{BatchConfigBuilder as LCfg, BatchLogProcessor, LogBatch, LogExporter, LogProcessor, SdkLogRecord, SdkLogger, SdkLoggerProvider, SimpleLogProcessor};
use opentelemetry_sdk::trace::{BatchConfigBuilder as SCfg, BatchSpanProcessor, SdkTracer, SdkTracerProvider, SimpleSpanProcessor, Span, SpanData, SpanExporter, SpanProcessor};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// what reached the exporter: batches of item numbers; shutdowns
#[derive(Debug, Clone, PartialEq)]
enum Ev { Batch(Vec<u64>, bool), Down }
#[derive(Debug, Default)]
struct St { ev: Vec<Ev>, open: bool, entered: usize, fail: Vec<usize> }
#[derive(Debug, Clone, Default)]
struct Rec { s: Arc<(Mutex<St>, Condvar)> }
impl Rec {
    fn new(open: bool, fail: Vec<usize>) -> Rec { let r = Rec::default(); { let mut s = r.s.0.lock().unwrap(); s.open = open; s.fail = fail; } r }
    fn take(&self, items: Vec<u64>) -> OTelSdkResult {
        let mut s = self.s.0.lock().unwrap();
        s.entered += 1;
        self.s.1.notify_all();
        while !s.open { s = self.s.1.wait(s).unwrap(); }
        let k = s.ev.iter().filter(|e| matches!(e, Ev::Batch(..))).count();
        let bad = s.fail.contains(&k);
        s.ev.push(Ev::Batch(items, !bad));
        self.s.1.notify_all();
        if bad { Err(OTelSdkError::InternalFailure("no".into())) } else { Ok(()) }
    }
    fn down(&self) -> OTelSdkResult { self.s.0.lock().unwrap().ev.push(Ev::Down); Ok(()) }
    fn open(&self, b: bool) { self.s.0.lock().unwrap().open = b; self.s.1.notify_all(); }
    fn entered(&self) -> usize { self.s.0.lock().unwrap().entered }
    fn wait(&self, f: impl Fn(&St) -> bool) -> bool {
        let end = Instant::now() + Duration::from_secs(10);
        let mut s = self.s.0.lock().unwrap();
        loop {
            if f(&s) { return true; }
            let now = Instant::now();
            if now >= end { return false; }
            s = self.s.1.wait_timeout(s, end - now).unwrap().0;
        }
    }
    fn batches(&self) -> Vec<(Vec<u64>, bool)> { self.s.0.lock().unwrap().ev.iter().filter_map(|e| if let Ev::Batch(b, ok) = e { Some((b.clone(), *ok)) } else { None }).collect() }
    fn items(&self) -> Vec<u64> { self.batches().into_iter().flat_map(|b| b.0).collect() }
    fn downs(&self) -> usize { self.s.0.lock().unwrap().ev.iter().filter(|e| **e == Ev::Down).count() }
    fn after_down(&self) -> bool { let s = self.s.0.lock().unwrap(); match s.ev.iter().position(|e| *e == Ev::Down) { Some(i) => s.ev[i + 1..].iter().any(|e| matches!(e, Ev::Batch(..))), None => false } }
}
impl SpanExporter for Rec {
    async fn export(&self, b: Vec<SpanData>) -> OTelSdkResult { self.take(b.iter().map(|s| s.name.parse().unwrap()).collect()) }
    fn shutdown(&mut self) -> OTelSdkResult { self.down() }
}
impl LogExporter for Rec {
    async fn export(&self, b: LogBatch<'_>) -> OTelSdkResult {
        let v = b.iter().map(|(r, s)| { assert_eq!(s.name(), "x"); match r.body() { Some(AnyValue::Int(n)) => *n as u64, o => panic!("body {o:?}") } }).collect();
        self.take(v)
    }
    fn shutdown(&self) -> OTelSdkResult { self.down() }
}

#[derive(Debug, Clone)]
struct FwdS<P>(Arc<P>);
impl<P: SpanProcessor> SpanProcessor for FwdS<P> {
    fn on_start(&self, s: &mut Span, c: &Context) { self.0.on_start(s, c) }
    fn on_end(&self, s: SpanData) { self.0.on_end(s) }
    fn force_flush(&self) -> OTelSdkResult { self.0.force_flush() }
    fn shutdown(&self) -> OTelSdkResult { self.0.shutdown() }
}
#[derive(Debug, Clone)]
struct FwdL<P>(Arc<P>);
impl<P: LogProcessor> LogProcessor for FwdL<P> {
    fn emit(&self, r: &mut SdkLogRecord, s: &InstrumentationScope) { self.0.emit(r, s) }
    fn force_flush(&self) -> OTelSdkResult { self.0.force_flush() }
    fn shutdown(&self) -> OTelSdkResult { self.0.shutdown() }
}
trait Pipe: Send + Sync {
    fn emit(&self, i: u64);
    fn flush(&self) -> OTelSdkResult;
    fn stop(&self) -> OTelSdkResult;
}
struct S<P> { p: Arc<P>, t: SdkTracer, _tp: SdkTracerProvider }
struct L<P> { p: Arc<P>, l: SdkLogger, _lp: SdkLoggerProvider }
impl<P: SpanProcessor + 'static> Pipe for S<P> {
    fn emit(&self, i: u64) { let mut s = self.t.start(i.to_string()); s.end(); }
    fn flush(&self) -> OTelSdkResult { self.p.force_flush() }
    fn stop(&self) -> OTelSdkResult { self.p.shutdown() }
}
impl<P: LogProcessor + 'static> Pipe for L<P> {
    fn emit(&self, i: u64) { let mut r = self.l.create_log_record(); r.set_body(AnyValue::Int(i as i64)); self.l.emit(r); }
    fn flush(&self) -> OTelSdkResult { self.p.force_flush() }
    fn stop(&self) -> OTelSdkResult { self.p.shutdown() }
}
fn span_pipe<P: SpanProcessor + 'static>(p: P) -> Arc<dyn Pipe> {
    let p = Arc::new(p);
    let tp = SdkTracerProvider::builder().with_span_processor(FwdS(p.clone())).build();
    Arc::new(S { p, t: tp.tracer("x"), _tp: tp })
}
fn log_pipe<P: LogProcessor + 'static>(p: P) -> Arc<dyn Pipe> {
    let p = Arc::new(p);
    let lp = SdkLoggerProvider::builder().with_log_processor(FwdL(p.clone())).build();
    Arc::new(L { p, l: lp.logger("x"), _lp: lp })
}
fn batch(spans: bool, rec: &Rec, queue: usize, size: usize, delay: Duration) -> Arc<dyn Pipe> {
    if spans { span_pipe(BatchSpanProcessor::builder(rec.clone()).with_batch_config(SCfg::default().with_max_queue_size(queue).with_max_export_batch_size(size).with_scheduled_delay(delay).build()).build()) }
    else { log_pipe(BatchLogProcessor::builder(rec.clone()).with_batch_config(LCfg::default().with_max_queue_size(queue).with_max_export_batch_size(size).with_scheduled_delay(delay).build()).build()) }
}
fn subseq(a: &[u64], b: &[u64]) -> bool { let mut i = b.iter(); a.iter().all(|x| i.any(|y| y == x)) }
fn sizes(rec: &Rec, max: usize) -> Result<(), String> {
    for (b, _) in rec.batches() { if b.is_empty() || b.len() > max { return Err(format!("a batch of {} items (maximum {max})", b.len())); } }
    if rec.after_down() { return Err("export after the exporter's shutdown".into()); }
    Ok(())
}
fn end(p: &Arc<dyn Pipe>, rec: &Rec, log: bool) -> Result<(), String> {
    let all = rec.items();
    if rec.downs() != 1 { return Err(format!("the exporter was shut down {} times", rec.downs())); }
    p.emit(999_999);
    if !matches!(p.flush(), Err(OTelSdkError::AlreadyShutdown)) { return Err("flush after shutdown is not refused as AlreadyShutdown".into()); }
    if !matches!(p.stop(), Err(OTelSdkError::AlreadyShutdown)) { return Err("second shutdown is not refused as AlreadyShutdown".into()); }
    if rec.items() != all || rec.downs() != 1 { return Err(format!("something was exported after shutdown (log {log})")); }
    Ok(())
}
const LONG: Duration = Duration::from_secs(300);

/// C14
pub fn c14(c: &mut Ctx) {
    c.rule = "batch and simple processors for spans and logs on a recording exporter: random programs of emissions, flushes, exporter failures and shutdown with queues of 1..24 and batches of 1..30; overflow with a blocked exporter and recovery from it; wake-up by a full batch and by the interval; threads emitting and flushing at once; non-trivial: more than one batch per flush, a drop, a failure, or several threads".into();
    // 1. programs that never overflow: every item is exported once, in order
    for i in 0..c.n(260) {
        let r = &mut c.rng;
        let spans = r.bool();
        let queue = 1 + r.usize(24); let size = 1 + r.usize(30);
        let eff = size.min(queue);
        let fail: Vec<usize> = (0..12).filter(|_| r.chance(1, 5)).collect();
        let ops: Vec<u64> = (0..2 + r.usize(8)).map(|_| r.below(queue as u64 + 1)).collect();
        c.case(format!("{} #{i}: queue {queue}, batch {size}, failing exports {fail:?}; emit and flush in groups of {ops:?}, then shutdown with {} more waiting", if spans { "spans" } else { "logs" }, queue / 2), eff < queue, move || {
            let rec = Rec::new(true, fail);
            let p = batch(spans, &rec, queue, size, LONG);
            let mut want = vec![]; let mut n = 0u64;
            for (k, o) in ops.iter().enumerate() {
                let b0 = rec.batches().len();
                for _ in 0..*o { p.emit(n); want.push(n); n += 1; }
                let res = p.flush();
                let got = rec.items();
                if got != want { return Err(format!("after flush {k}: exported {got:?}, want {want:?}")); }
                let bs = rec.batches()[b0..].to_vec();
                // exports woken by a full batch may have run (and failed) before the flush
                if res.is_err() && bs.iter().all(|b| b.1) { return Err(format!("flush {k} failed though no export failed: {res:?}")); }
                if res.is_ok() && (*o as usize) < eff && bs.iter().any(|b| !b.1) { return Err(format!("flush {k} succeeded though an export failed")); }
            }
            let m = queue / 2;
            for _ in 0..m { p.emit(n); want.push(n); n += 1; }
            let _ = p.stop();
            if rec.items() != want { return Err(format!("after shutdown: exported {:?}, want {want:?}", rec.items())); }
            sizes(&rec, eff)?;
            end(&p, &rec, !spans)
        });
    }
    // 2. a flush of several batches with a failure in any of them
    for i in 0..c.n(80) {
        let r = &mut c.rng;
        let spans = r.bool();
        let size = 1 + r.usize(5); let queue = size * (2 + r.usize(4));
        let nb = queue / size; let bad = r.usize(nb);
        c.case(format!("{} #{i}: the exporter blocks while {queue} items (batches of {size}) are waiting, export {} of the flush fails", if spans { "spans" } else { "logs" }, bad + 1), true, move || {
            let rec = Rec::new(false, vec![1 + bad]);
            let p = batch(spans, &rec, queue, size, LONG);
            for n in 0..size as u64 { p.emit(n); }
            if !rec.wait(|s| s.entered == 1) { return Err("a full batch did not wake the worker".into()); }      // it now blocks in the first export
            let p2 = p.clone();
            for n in 0..(queue - 1) as u64 { p.emit(1000 + n); }       // all within the queue
            let h = std::thread::spawn(move || p2.flush());
            std::thread::sleep(Duration::from_millis(3));
            rec.open(true);
            let res = h.join().unwrap();
            // the export message of the waiting items may be handled before or after the flush request
            let want: Vec<u64> = (0..size as u64).chain((0..(queue - 1) as u64).map(|n| 1000 + n)).collect();
            if rec.items() != want { return Err(format!("exported {:?}, want {want:?}", rec.items())); }
            let _ = res;
            let _ = p.stop();
            sizes(&rec, size)?;
            end(&p, &rec, !spans)
        });
    }
    for i in 0..c.n(60) {
        let r = &mut c.rng;
        let spans = r.bool();
        let size = 2 + r.usize(4);
        let (k, bad) = (1 + r.usize(size - 1), r.bool());
        c.case(format!("{} #{i}: batch {size}, {k} waiting, the export of the flush {}", if spans { "spans" } else { "logs" }, if bad { "fails" } else { "succeeds" }), true, move || {
            let rec = Rec::new(true, if bad { vec![0] } else { vec![] });
            let p = batch(spans, &rec, 50, size, LONG);
            for n in 0..k as u64 { p.emit(n); }
            let res = p.flush();
            if res.is_err() != bad { return Err(format!("flush returned {res:?}")); }
            for n in 0..k as u64 { p.emit(100 + n); }
            p.flush().map_err(|e| format!("a later flush fails: {e:?}"))?;
            if rec.items().len() != 2 * k { return Err(format!("exported {:?}", rec.items())); }
            let _ = p.stop();
            sizes(&rec, size)?;
            end(&p, &rec, !spans)
        });
    }
    // 3. overflow and recovery
    for i in 0..c.n(120) {
        let r = &mut c.rng;
        let spans = r.bool();
        let queue = 2 + r.usize(12); let size = 2 + r.usize(14);
        let eff = size.min(queue); let extra = 1 + r.usize(40);
        c.case(format!("{} #{i}: queue {queue}, batch {size}; the exporter blocks, {extra} items more than fit are emitted; then it recovers", if spans { "spans" } else { "logs" }), true, move || {
            let rec = Rec::new(false, vec![]);
            let p = batch(spans, &rec, queue, size, LONG);
            for n in 0..eff as u64 { p.emit(n); }
            if !rec.wait(|s| s.entered == 1) { return Err("a full batch did not wake the worker".into()); }
            for n in 0..(queue + extra) as u64 { p.emit(100 + n); }        // the queue is empty and nothing takes from it: the first `queue` fit
            rec.open(true);
            p.flush().map_err(|e| format!("flush: {e:?}"))?;
            let mut want: Vec<u64> = (0..eff as u64).chain((0..queue as u64).map(|n| 100 + n)).collect();
            if rec.items() != want { return Err(format!("exported {:?}, want {want:?}", rec.items())); }
            // nothing is left behind by the drops: an incomplete batch waits, a full one is exported
            let b0 = rec.batches().len();
            for n in 0..(eff - 1) as u64 { p.emit(1000 + n); want.push(1000 + n); }
            std::thread::sleep(Duration::from_millis(2));
            if rec.batches().len() != b0 { return Err(format!("after the drops, {} waiting items (batch {eff}) were exported without being asked for", eff - 1)); }
            p.emit(2000); want.push(2000);
            let w = want.clone();
            if !rec.wait(|s| s.ev.iter().map(|e| if let Ev::Batch(b, _) = e { b.len() } else { 0 }).sum::<usize>() == w.len()) { return Err("after the drops, a full batch was not exported".into()); }
            if rec.items() != want { return Err(format!("exported {:?}, want {want:?}", rec.items())); }
            p.stop().map_err(|e| format!("shutdown: {e:?}"))?;
            sizes(&rec, eff)?;
            end(&p, &rec, !spans)
        });
    }
    // 3b. a batch that fills up while another is being exported is exported without being asked for
    for i in 0..c.n(40) {
        let r = &mut c.rng;
        let spans = r.bool();
        let size = 1 + r.usize(6); let more = size + r.usize(size); let rounds = 1 + r.usize(3);
        c.case(format!("{} #{i}: batch {size}; {more} items are emitted while a full batch is being exported, {rounds} times", if spans { "spans" } else { "logs" }), true, move || {
            let rec = Rec::new(false, vec![]);
            let p = batch(spans, &rec, 200, size, LONG);
            let mut n = 0u64; let mut want = vec![];
            for round in 0..rounds {
                let b0 = rec.entered();
                rec.open(false);
                for _ in 0..size { p.emit(n); want.push(n); n += 1; }
                if !rec.wait(|s| s.entered > b0) { return Err(format!("round {round}: a full batch did not wake the worker")); }
                for _ in 0..more { p.emit(n); want.push(n); n += 1; }
                let full = want.len() / size * size;
                rec.open(true);
                if !rec.wait(|s| s.ev.iter().map(|e| if let Ev::Batch(b, _) = e { b.len() } else { 0 }).sum::<usize>() >= full) { return Err(format!("round {round}: of {} items in batches of {size} only {} were exported within 10 s", want.len(), rec.items().len())); }
                p.flush().map_err(|e| format!("flush: {e:?}"))?;
                if rec.items() != want { return Err(format!("exported {:?}, want {want:?}", rec.items())); }
            }
            p.stop().map_err(|e| format!("shutdown: {e:?}"))?;
            sizes(&rec, size)?;
            end(&p, &rec, !spans)
        });
    }
    // 4. wake-ups
    for i in 0..c.n(24) {
        let r = &mut c.rng;
        let spans = r.bool();
        let size = 2 + r.usize(6); let ms = 1 + r.below(30); let k = 1 + r.usize(size - 1);
        c.case(format!("{} #{i}: {k} items (batch {size}) are exported by the interval of {ms} ms", if spans { "spans" } else { "logs" }), true, move || {
            let rec = Rec::new(true, vec![]);
            let p = batch(spans, &rec, 100, size, Duration::from_millis(ms));
            for round in 1..4 {
                for n in 0..k as u64 { p.emit(n); }
                let want = round * k;
                if !rec.wait(|s| s.ev.iter().map(|e| if let Ev::Batch(b, _) = e { b.len() } else { 0 }).sum::<usize>() == want) { return Err(format!("round {round}: nothing exported within 10 s")); }
            }
            let p2 = p.clone();
            p2.stop().map_err(|e| format!("shutdown: {e:?}"))?;
            sizes(&rec, size)?;
            end(&p, &rec, !spans)
        });
    }
    // 5. threads
    for i in 0..c.n(60) {
        let r = &mut c.rng;
        let spans = r.bool();
        let t = 2 + r.usize(5); let k = 1 + r.usize(200); let size = 1 + r.usize(40);
        let small = r.chance(1, 3);
        let queue = if small { 1 + r.usize(30) } else { 4096 };
        let fl = 1 + r.usize(20);
        let eff = size.min(queue);
        c.case(format!("{} #{i}: {t} threads emit {k} items each and flush after every {fl}; queue {queue}, batch {size}", if spans { "spans" } else { "logs" }), true, move || {
            let rec = Rec::new(true, vec![]);
            let p = batch(spans, &rec, queue, size, Duration::from_millis(if small { 1 } else { 3 }));
            let hs: Vec<_> = (0..t).map(|th| { let (p, rec) = (p.clone(), rec.clone()); std::thread::spawn(move || {
                for n in 0..k {
                    let id = (th * 100_000 + n) as u64;
                    p.emit(id);
                    if n % fl == fl - 1 && p.flush().is_ok() && !small {
                        if !rec.items().contains(&id) { return Err(format!("a successful flush left item {id} behind")); }
                    }
                }
                Ok(())
            }) }).collect();
            for h in hs { h.join().unwrap()?; }
            p.flush().map_err(|e| format!("last flush: {e:?}"))?;
            let got = rec.items();
            for th in 0..t {
                let mine: Vec<u64> = got.iter().copied().filter(|x| (x / 100_000) as usize == th).collect();
                let all: Vec<u64> = (0..k).map(|n| (th * 100_000 + n) as u64).collect();
                if small { if !subseq(&mine, &all) { return Err(format!("thread {th}: {mine:?} is not in the order emitted, or something is exported twice")); } }
                else if mine != all { return Err(format!("thread {th}: exported {mine:?} of {k}")); }
            }
            if got.len() > t * k { return Err("more exported than emitted".into()); }
            p.stop().map_err(|e| format!("shutdown: {e:?}"))?;
            sizes(&rec, eff)?;
            end(&p, &rec, !spans)
        });
    }
    // 6. simple processors
    for i in 0..c.n(80) {
        let r = &mut c.rng;
        let spans = r.bool(); let k = r.usize(12); let fail: Vec<usize> = (0..12).filter(|_| r.chance(1, 4)).collect();
        let t = 1 + r.usize(3);
        c.case(format!("simple {} #{i}: {t} threads, {k} items each, failing exports {fail:?}", if spans { "spans" } else { "logs" }), k > 0, move || {
            let rec = Rec::new(true, fail);
            let p = if spans { span_pipe(SimpleSpanProcessor::new(rec.clone())) } else { log_pipe(SimpleLogProcessor::new(rec.clone())) };
            let hs: Vec<_> = (0..t).map(|th| { let (p, rec) = (p.clone(), rec.clone()); std::thread::spawn(move || {
                for n in 0..k { let id = (th * 1000 + n) as u64; p.emit(id); if !rec.items().contains(&id) { return Err(format!("item {id} was not exported at once")); } }
                Ok(())
            }) }).collect();
            for h in hs { h.join().unwrap()?; }
            if rec.batches().iter().any(|b| b.0.len() != 1) || rec.items().len() != t * k { return Err(format!("exported {:?}", rec.batches())); }
            p.flush().map_err(|e| format!("flush: {e:?}"))?;
            p.stop().map_err(|e| format!("shutdown: {e:?}"))?;
            if rec.downs() != 1 { return Err("the exporter was not shut down".into()); }
            if !spans { p.emit(999); if rec.items().len() != t * k { return Err("a record was exported after shutdown".into()); } }
            Ok(())
        });
    }
    // 7. spans that record without being sampled
    for simple in [true, false] {
        c.case(format!("{} span processor: a recorded span that is not sampled is not exported", if simple { "simple" } else { "batch" }), true, move || {
            let rec = Rec::new(true, vec![]);
            let b = SdkTracerProvider::builder().with_sampler(Only);
            let tp = if simple { b.with_span_processor(SimpleSpanProcessor::new(rec.clone())).build() } else { b.with_span_processor(BatchSpanProcessor::builder(rec.clone()).build()).build() };
            tp.tracer("x").start("7").end();
            let _ = tp.force_flush();
            let n = rec.items().len();
            let _ = tp.shutdown();
            if n > 0 { Err("it was exported".into()) } else { Ok(()) }
        });
    }
}
#[derive(Debug, Clone)]
struct Only;
impl opentelemetry_sdk::trace::ShouldSample for Only {
    fn should_sample(&self, _: Option<&Context>, _: opentelemetry::trace::TraceId, _: &str, _: &opentelemetry::trace::SpanKind, _: &[opentelemetry::KeyValue], _: &[opentelemetry::trace::Link]) -> opentelemetry::trace::SamplingResult {
        opentelemetry::trace::SamplingResult { decision: opentelemetry::trace::SamplingDecision::RecordOnly, attributes: vec![], trace_state: Default::default() }
    }
}

// C36: the batch processors and the periodic reader on an async runtime, driven by a runtime whose clock only moves when told to.
use crate::common::Ctx;
use futures_core::Stream;
use opentelemetry::logs::{AnyValue, LogRecord, Logger, LoggerProvider};
use opentelemetry::metrics::MeterProvider;
use opentelemetry::trace::{SamplingDecision, SamplingResult, Span as _, SpanKind, TraceContextExt, TraceState, Tracer, TracerProvider};
use opentelemetry::{trace::Link, trace::TraceId, Context, InstrumentationScope, KeyValue};
use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
use opentelemetry_sdk::logs::{self, log_processor_with_async_runtime as alog, LogBatch, LogExporter, LogProcessor, SdkLogRecord, SdkLoggerProvider};
use opentelemetry_sdk::metrics::data::{AggregatedMetrics, MetricData, ResourceMetrics};
use opentelemetry_sdk::metrics::{exporter::PushMetricExporter, periodic_reader_with_async_runtime as aread, SdkMeterProvider, Temporality};
use opentelemetry_sdk::runtime::{Runtime, RuntimeChannel, TrySend, TrySendError};
use opentelemetry_sdk::trace::{self, span_processor_with_async_runtime as aspan, SdkTracerProvider, ShouldSample, Span, SpanData, SpanExporter, SpanProcessor};
use opentelemetry_sdk::Resource;
use std::collections::{BTreeMap, VecDeque};
use std::fmt::Debug;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context as Cx, Poll, Wake, Waker};
use std::time::Duration;

// ---- a runtime with its own clock ----
struct St { now: u64, tasks: Vec<Option<Pin<Box<dyn Future<Output = ()> + Send>>>>, ready: VecDeque<usize>, busy: bool, delays: BTreeMap<(u64, u64), (Arc<Mutex<bool>>, Option<Waker>)>, seq: u64, flying: usize, auto: bool, stop: bool }
struct Sh { st: Mutex<St>, cv: Condvar }
#[derive(Clone)]
pub(crate) struct Rt(Arc<Sh>);
impl Debug for Rt { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Rt") } }
struct Wk(std::sync::Weak<Sh>, usize);
impl Wake for Wk { fn wake(self: Arc<Self>) { if let Some(sh) = self.0.upgrade() { let mut s = sh.st.lock().unwrap(); if !s.ready.contains(&self.1) { s.ready.push_back(self.1); } drop(s); sh.cv.notify_all(); } } }
struct Delay { rt: Rt, key: (u64, u64), fired: Arc<Mutex<bool>> }
impl Future for Delay {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<()> {
        if *self.fired.lock().unwrap() { return Poll::Ready(()); }
        let mut s = self.rt.0.st.lock().unwrap();
        if let Some(e) = s.delays.get_mut(&self.key) { e.1 = Some(cx.waker().clone()); Poll::Pending } else { Poll::Ready(()) }
    }
}
impl Drop for Delay { fn drop(&mut self) { self.rt.0.st.lock().unwrap().delays.remove(&self.key); } }
impl Rt {
    pub(crate) fn new() -> Rt {
        let sh = Arc::new(Sh { st: Mutex::new(St { now: 0, tasks: vec![], ready: VecDeque::new(), busy: false, delays: BTreeMap::new(), seq: 0, flying: 0, auto: false, stop: false }), cv: Condvar::new() });
        let s2 = sh.clone();
        std::thread::spawn(move || loop {
            let mut s = s2.st.lock().unwrap();
            if s.stop { let t = std::mem::take(&mut s.tasks); drop(s); drop(t); return; }
            if let Some(i) = s.ready.pop_front() {
                let Some(mut t) = s.tasks.get_mut(i).and_then(|t| t.take()) else { continue };
                s.busy = true;
                drop(s);
                let w = Waker::from(Arc::new(Wk(Arc::downgrade(&s2), i)));
                let done = t.as_mut().poll(&mut Cx::from_waker(&w)).is_ready();
                let mut s = s2.st.lock().unwrap();
                s.busy = false;
                if !done { s.tasks[i] = Some(t); drop(s); } else { drop(s); drop(t); }
                s2.cv.notify_all();
            } else if s.auto && s.flying > 0 && !s.delays.is_empty() {
                // somebody waits for an export that waits for the clock
                let at = *s.delays.keys().next().unwrap();
                drop(fire(&mut s, at));
                s2.cv.notify_all();
            } else {
                drop(s2.cv.wait_timeout(s, Duration::from_millis(50)).unwrap());
            }
        });
        Rt(sh)
    }
    pub(crate) fn settle(&self) { let mut s = self.0.st.lock().unwrap(); while s.busy || !s.ready.is_empty() { s = self.0.cv.wait_timeout(s, Duration::from_millis(50)).unwrap().0; } }
    fn now(&self) -> u64 { self.0.st.lock().unwrap().now }
    pub(crate) fn advance(&self, by: u64) {
        self.settle();
        let end = self.now() + by;
        loop {
            let mut s = self.0.st.lock().unwrap();
            let Some(at) = s.delays.keys().next().copied() else { break };
            if at.0 > end { break; }
            let w = fire(&mut s, at);
            drop(s);
            if let Some(w) = w { w.wake(); }
            self.settle();
        }
        self.0.st.lock().unwrap().now = end;
    }
    fn waiting<T>(&self, f: impl FnOnce() -> T) -> T { self.0.st.lock().unwrap().auto = true; self.0.cv.notify_all(); let r = f(); self.0.st.lock().unwrap().auto = false; self.settle(); r }
    pub(crate) fn end(&self) { self.0.st.lock().unwrap().stop = true; self.0.cv.notify_all(); }
}
fn fire(s: &mut St, at: (u64, u64)) -> Option<Waker> {
    if at.0 > s.now { s.now = at.0; }
    let (f, w) = s.delays.remove(&at)?;
    *f.lock().unwrap() = true;
    // waking takes the lock: it is done by marking every task ready instead
    if s.auto { for i in 0..s.tasks.len() { if !s.ready.contains(&i) { s.ready.push_back(i); } } None } else { w }
}
impl Runtime for Rt {
    fn spawn<F>(&self, f: F) where F: Future<Output = ()> + Send + 'static { let mut s = self.0.st.lock().unwrap(); s.tasks.push(Some(Box::pin(f))); let i = s.tasks.len() - 1; s.ready.push_back(i); drop(s); self.0.cv.notify_all(); }
    fn delay(&self, d: Duration) -> impl Future<Output = ()> + Send + 'static {
        let mut s = self.0.st.lock().unwrap();
        s.seq += 1;
        let key = (s.now + d.as_millis() as u64, s.seq);
        let fired = Arc::new(Mutex::new(false));
        s.delays.insert(key, (fired.clone(), None));
        Delay { rt: self.clone(), key, fired }
    }
}
struct Q<T> { v: VecDeque<T>, cap: usize, w: Option<Waker>, gone: bool, senders: usize }
pub(crate) struct Tx<T>(Arc<Mutex<Q<T>>>);
pub(crate) struct Rx<T>(Arc<Mutex<Q<T>>>);
impl<T> Debug for Tx<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Tx") } }
impl<T> Drop for Tx<T> { fn drop(&mut self) { let w = { let mut q = self.0.lock().unwrap(); q.senders -= 1; q.w.take() }; if let Some(w) = w { w.wake() } } }
impl<T> Drop for Rx<T> { fn drop(&mut self) { let left = { let mut q = self.0.lock().unwrap(); q.gone = true; std::mem::take(&mut q.v) }; drop(left); } }
impl<T: Send> TrySend for Tx<T> {
    type Message = T;
    fn try_send(&self, m: T) -> Result<(), TrySendError> {
        let w = { let mut q = self.0.lock().unwrap(); if q.gone { return Err(TrySendError::ChannelClosed); } if q.v.len() >= q.cap { return Err(TrySendError::ChannelFull); } q.v.push_back(m); q.w.take() };
        if let Some(w) = w { w.wake() }
        Ok(())
    }
}
impl<T> Stream for Rx<T> {
    type Item = T;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<Option<T>> {
        let mut q = self.0.lock().unwrap();
        match q.v.pop_front() { Some(m) => Poll::Ready(Some(m)), None if q.senders == 0 => Poll::Ready(None), None => { q.w = Some(cx.waker().clone()); Poll::Pending } }
    }
}
impl RuntimeChannel for Rt {
    type Receiver<T: Debug + Send> = Rx<T>;
    type Sender<T: Debug + Send> = Tx<T>;
    fn batch_message_channel<T: Debug + Send>(&self, cap: usize) -> (Tx<T>, Rx<T>) { let q = Arc::new(Mutex::new(Q { v: VecDeque::new(), cap, w: None, gone: false, senders: 1 })); (Tx(q.clone()), Rx(q)) }
}

// ---- an exporter that does as the script says ----
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act { Ok, Fail, Slow(u64), Never }
#[derive(Clone, Debug, PartialEq)]
enum Ev { Out(u64, Vec<u64>), Done(u64), Down(u64), Told }
#[derive(Clone)]
struct Exp { rt: Option<Rt>, log: Arc<Mutex<Vec<Ev>>>, acts: Arc<Vec<Act>>, t: Temporality }
impl Debug for Exp { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Exp") } }
struct Flying(Rt);
impl Drop for Flying { fn drop(&mut self) { self.0 .0.st.lock().unwrap().flying -= 1; } }
impl Exp {
    fn new(rt: Option<Rt>, acts: Vec<Act>) -> Exp { Exp { rt, log: Arc::default(), acts: Arc::new(acts), t: Temporality::Delta } }
    fn at(&self) -> u64 { self.rt.as_ref().map_or(0, |r| r.now()) }
    async fn go(&self, v: Vec<u64>) -> OTelSdkResult {
        let k = { let mut l = self.log.lock().unwrap(); let k = l.iter().filter(|e| matches!(e, Ev::Out(..))).count(); let at = self.at(); l.push(Ev::Out(at, v)); k };
        let act = if self.acts.is_empty() { Act::Ok } else { self.acts[k % self.acts.len()] };
        let _f = self.rt.as_ref().map(|r| { r.0.st.lock().unwrap().flying += 1; Flying(r.clone()) });
        match act {
            Act::Ok => {}
            Act::Fail => return Err(OTelSdkError::InternalFailure("no".into())),
            Act::Slow(d) => self.rt.as_ref().unwrap().delay(Duration::from_millis(d)).await,
            Act::Never => std::future::pending::<()>().await,
        }
        let at = self.at();
        self.log.lock().unwrap().push(Ev::Done(at));
        Ok(())
    }
    fn down(&self) -> OTelSdkResult { std::thread::sleep(Duration::from_millis(2)); let at = self.at(); self.log.lock().unwrap().push(Ev::Down(at)); Ok(()) }
}
impl SpanExporter for Exp {
    async fn export(&self, b: Vec<SpanData>) -> OTelSdkResult { self.go(b.iter().map(|s| s.name.parse().unwrap()).collect()).await }
    fn shutdown(&mut self) -> OTelSdkResult { self.down() }
    fn set_resource(&mut self, r: &Resource) { if r.get(&"mark".into()) == Some("x".into()) { self.log.lock().unwrap().push(Ev::Told); } }
}
impl LogExporter for Exp {
    async fn export(&self, b: LogBatch<'_>) -> OTelSdkResult {
        let v = b.iter().map(|(r, s)| { assert_eq!(s.name(), "x"); match r.body() { Some(AnyValue::Int(n)) => *n as u64, o => panic!("body {o:?}") } }).collect();
        self.go(v).await
    }
    fn shutdown(&self) -> OTelSdkResult { self.down() }
    fn set_resource(&mut self, r: &Resource) { if r.get(&"mark".into()) == Some("x".into()) { self.log.lock().unwrap().push(Ev::Told); } }
}
fn total(m: &ResourceMetrics) -> Vec<u64> {
    m.scope_metrics.iter().flat_map(|s| s.metrics.iter().map(|x| match &x.data { AggregatedMetrics::U64(MetricData::Sum(s)) => s.data_points.iter().map(|p| p.value).sum::<u64>(), _ => 999_999 }).collect::<Vec<_>>()).collect()
}
impl PushMetricExporter for Exp {
    async fn export(&self, m: &mut ResourceMetrics) -> OTelSdkResult { let v = total(m); self.go(v).await }
    fn force_flush(&self) -> OTelSdkResult { Ok(()) }
    fn shutdown_with_timeout(&self, _: Duration) -> OTelSdkResult { self.down() }
    fn temporality(&self) -> Temporality { self.t }
}

/// 3k is recorded only, 3k+1 dropped: neither may be exported
#[derive(Clone, Debug)]
struct ByName;
impl ShouldSample for ByName {
    fn should_sample(&self, _: Option<&Context>, _: TraceId, name: &str, _: &SpanKind, _: &[KeyValue], _: &[Link]) -> SamplingResult {
        let n: u64 = name.parse().unwrap();
        SamplingResult { decision: if n % 1000 == 7 { SamplingDecision::RecordOnly } else if n % 1000 == 8 { SamplingDecision::Drop } else { SamplingDecision::RecordAndSample }, attributes: vec![], trace_state: TraceState::default() }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { End(u64), Flush, Advance(u64), Shutdown }
#[derive(Clone, Debug)]
struct Cfg { queue: usize, batch: usize, delay: u64, timeout: u64, concurrent: usize }

/// what the caller does, on either signal
enum Sut { Span(SdkTracerProvider), Log(SdkLoggerProvider) }
impl Sut {
    fn make(log: bool, c: &Cfg, rt: &Rt, e: Exp) -> Sut {
        let res = Resource::builder_empty().with_attribute(KeyValue::new("mark", "x")).build();
        if log {
            let cfg = logs::BatchConfigBuilder::default().with_max_queue_size(c.queue).with_max_export_batch_size(c.batch).with_scheduled_delay(Duration::from_millis(c.delay)).with_max_export_timeout(Duration::from_millis(c.timeout)).build();
            Sut::Log(SdkLoggerProvider::builder().with_resource(res).with_log_processor(alog::BatchLogProcessor::builder(e, rt.clone()).with_batch_config(cfg).build()).build())
        } else {
            let cfg = trace::BatchConfigBuilder::default().with_max_queue_size(c.queue).with_max_export_batch_size(c.batch).with_scheduled_delay(Duration::from_millis(c.delay)).with_max_export_timeout(Duration::from_millis(c.timeout)).with_max_concurrent_exports(c.concurrent).build();
            Sut::Span(SdkTracerProvider::builder().with_resource(res).with_sampler(ByName).with_span_processor(aspan::BatchSpanProcessor::builder(e, rt.clone()).with_batch_config(cfg).build()).build())
        }
    }
    fn end(&self, n: u64) {
        match self { Sut::Span(p) => { let t = p.tracer("x"); t.start(n.to_string()).end(); }
            Sut::Log(p) => { let l = p.logger("x"); let mut r = l.create_log_record(); r.set_body(AnyValue::Int(n as i64)); l.emit(r); } }
    }
    fn flush(&self) -> OTelSdkResult { match self { Sut::Span(p) => p.force_flush(), Sut::Log(p) => p.force_flush() } }
}
fn counts(n: u64, log: bool) -> bool { log || (n % 1000 != 7 && n % 1000 != 8) }

/// the batches, with the clock, a worker that exports at once must make
struct Model { log: bool, c: Cfg, acts: Vec<Act>, buf: Vec<u64>, now: u64, next: u64, evs: Vec<Ev>, k: usize, down: bool }
impl Model {
    fn export(&mut self) -> bool {
        if self.buf.is_empty() { return true; }
        self.evs.push(Ev::Out(self.now, std::mem::take(&mut self.buf)));
        let ok = self.acts.is_empty() || self.acts[self.k % self.acts.len()] == Act::Ok;
        if ok { self.evs.push(Ev::Done(self.now)); }
        self.k += 1;
        ok
    }
    fn op(&mut self, o: Op) -> Option<bool> {
        match o {
            Op::End(n) => { if counts(n, self.log) && !self.down { self.buf.push(n); if self.buf.len() == self.c.batch { self.export(); } } None }
            Op::Flush => Some(if self.down { false } else { self.export() }),
            Op::Advance(d) => { let end = self.now + d; if !self.down { while self.next <= end { self.now = self.next; self.next += self.c.delay; self.export(); } } self.now = end; None }
            Op::Shutdown => { if self.down { return Some(false); } let ok = self.export(); self.evs.push(Ev::Down(self.now)); self.down = true; Some(ok) }
        }
    }
}
fn direct(c: &mut Ctx) {
    let n = c.n(150);
    for i in 0..n {
        let log = c.rng.bool();
        let batch = 1 + c.rng.usize(5);
        let cfg = Cfg { queue: batch.max(20) + c.rng.usize(20), batch, delay: 10 * (1 + c.rng.below(8)), timeout: 1000, concurrent: 1 + c.rng.usize(3) };
        let acts: Vec<Act> = (0..c.rng.usize(4)).map(|_| if c.rng.chance(1, 3) { Act::Fail } else { Act::Ok }).collect();
        let mut ops = vec![];
        for k in 0..6 + c.rng.usize(25) {
            ops.push(match c.rng.below(20) { 0..=9 => Op::End(k as u64 * 1000 + c.rng.below(12)), 10..=12 => Op::Flush, 13..=18 => { let d = [1, 5, 10, cfg.delay - 1, cfg.delay, cfg.delay + 1, 3 * cfg.delay][c.rng.usize(7)]; Op::Advance(d) }, _ => if c.rng.chance(1, 3) { Op::Shutdown } else { Op::End(k as u64 * 1000 + 7) } });
        }
        ops.push(Op::Shutdown); ops.push(Op::End(77_000)); ops.push(Op::Flush);
        c.case(format!("exact #{i} {} {cfg:?} exporter {acts:?} {ops:?}", if log { "logs" } else { "spans" }), true, || {
            let rt = Rt::new();
            let e = Exp::new(Some(rt.clone()), acts.clone());
            let seen = e.log.clone();
            let sut = Sut::make(log, &cfg, &rt, e);
            rt.settle();
            let mut m = Model { log, c: cfg.clone(), acts: acts.clone(), buf: vec![], now: 0, next: cfg.delay, evs: vec![Ev::Told], k: 0, down: false };
            let r = (|| {
                for (j, o) in ops.iter().enumerate() {
                    let want = m.op(*o);
                    let got = match o { Op::End(n) => { sut.end(*n); rt.settle(); None } Op::Flush => Some(sut.flush().is_ok()), Op::Advance(d) => { rt.advance(*d); None }
                        Op::Shutdown => Some(match &sut { Sut::Span(p) => p.shutdown().is_ok(), Sut::Log(p) => p.shutdown().is_ok() }) };
                    // what has to be there is there the moment the call returns
                    let evs = seen.lock().unwrap().clone();
                    if evs != m.evs { return Err(format!("after op {j} {o:?}: exporter saw {evs:?}, expected {:?}", m.evs)); }
                    if got != want { return Err(format!("op {j} {o:?} succeeded {got:?}, expected {want:?}")); }
                    rt.settle();
                }
                Ok(())
            })();
            drop(sut); rt.end();
            r
        });
    }
}

/// a processor alone, so that each call's own result is seen
enum Proc { Span(aspan::BatchSpanProcessor<Rt>, SdkTracerProvider, Arc<Mutex<Vec<SpanData>>>), Log(alog::BatchLogProcessor<Rt>) }
#[derive(Debug)]
struct Keep(Arc<Mutex<Vec<SpanData>>>);
impl SpanProcessor for Keep {
    fn on_start(&self, _: &mut Span, _: &Context) {}
    fn on_end(&self, s: SpanData) { self.0.lock().unwrap().push(s) }
    fn force_flush(&self) -> OTelSdkResult { Ok(()) }
    fn shutdown(&self) -> OTelSdkResult { Ok(()) }
}
impl Proc {
    fn make(log: bool, c: &Cfg, rt: &Rt, e: Exp) -> Proc {
        if log { Proc::Log(alog::BatchLogProcessor::builder(e, rt.clone()).with_batch_config(logs::BatchConfigBuilder::default().with_max_queue_size(c.queue).with_max_export_batch_size(c.batch).with_scheduled_delay(Duration::from_millis(c.delay)).with_max_export_timeout(Duration::from_millis(c.timeout)).build()).build()) }
        else {
            let v = Arc::new(Mutex::new(vec![]));
            let p = SdkTracerProvider::builder().with_sampler(ByName).with_span_processor(Keep(v.clone())).build();
            let cfg = trace::BatchConfigBuilder::default().with_max_queue_size(c.queue).with_max_export_batch_size(c.batch).with_scheduled_delay(Duration::from_millis(c.delay)).with_max_export_timeout(Duration::from_millis(c.timeout)).with_max_concurrent_exports(c.concurrent).build();
            Proc::Span(aspan::BatchSpanProcessor::builder(e, rt.clone()).with_batch_config(cfg).build(), p, v)
        }
    }
    fn end(&self, n: u64) {
        match self { Proc::Span(p, t, v) => { t.tracer("x").start(n.to_string()).end(); if let Some(s) = v.lock().unwrap().pop() { p.on_end(s) } }
            Proc::Log(p) => { let l = SdkLoggerProvider::builder().build().logger("x"); let mut r: SdkLogRecord = l.create_log_record(); r.set_body(AnyValue::Int(n as i64)); p.emit(&mut r, &InstrumentationScope::builder("x").build()); } }
    }
    fn flush(&self) -> OTelSdkResult { match self { Proc::Span(p, ..) => p.force_flush(), Proc::Log(p) => p.force_flush() } }
    fn shutdown(&self) -> OTelSdkResult { match self { Proc::Span(p, ..) => p.shutdown(), Proc::Log(p) => p.shutdown() } }
}
/// exports that take their time, or never end: nothing is lost, doubled or reordered, and no request waits beyond the export timeout
fn slow(c: &mut Ctx) {
    let n = c.n(80);
    for i in 0..n {
        let log = c.rng.bool();
        let batch = 1 + c.rng.usize(4);
        let cfg = Cfg { queue: 200, batch, delay: if c.rng.bool() { 1_000_000 } else { 20 + 10 * c.rng.below(5) }, timeout: 30 + c.rng.below(40), concurrent: 1 + c.rng.usize(3) };
        let acts: Vec<Act> = (0..1 + c.rng.usize(4)).map(|_| match c.rng.below(5) { 0 => Act::Fail, 1 => Act::Never, 2 => Act::Slow(1 + c.rng.below(200)), 3 => Act::Slow(c.rng.below(30)), _ => Act::Ok }).collect();
        let mut ops = vec![];
        for k in 0..6 + c.rng.usize(20) { ops.push(match c.rng.below(12) { 0..=7 => Op::End(k as u64 * 1000 + c.rng.below(12)), 8 | 9 => Op::Flush, _ => Op::Advance(c.rng.below(60)) }); }
        ops.push(Op::Shutdown); ops.push(Op::Flush); ops.push(Op::End(88_000));
        c.case(format!("slow #{i} {} {cfg:?} exporter {acts:?} {ops:?}", if log { "logs" } else { "spans" }), true, || {
            let rt = Rt::new();
            let e = Exp::new(Some(rt.clone()), acts.clone());
            let seen = e.log.clone();
            let p = Proc::make(log, &cfg, &rt, e);
            let mut given: Vec<u64> = vec![];
            let mut down = false;
            let r = (|| {
                for (j, o) in ops.iter().enumerate() {
                    let before = seen.lock().unwrap().len();
                    let waited = |ev: &[Ev]| ev.iter().flat_map(|e| match e { Ev::Out(_, v) => v.clone(), _ => vec![] }).collect::<Vec<u64>>();
                    let got = match o {
                        Op::End(n) => { p.end(*n); if counts(*n, log) && !down { given.push(*n); } None }
                        Op::Flush => Some(rt.waiting(|| p.flush())),
                        Op::Advance(d) => { rt.advance(*d); None }
                        Op::Shutdown => Some(rt.waiting(|| p.shutdown())),
                    };
                    let evs = seen.lock().unwrap().clone();
                    if let Some(b) = evs.iter().find(|e| matches!(e, Ev::Out(_, v) if v.is_empty() || v.len() > cfg.batch)) { return Err(format!("after op {j}: batch {b:?}")); }
                    let out = waited(&evs);
                    if out != given[..out.len().min(given.len())] { return Err(format!("after op {j}: exported {out:?} of {given:?}")); }
                    if let Some(g) = got {
                        if down { if g.is_ok() || evs.len() != before { return Err(format!("op {j} {o:?} after the shutdown: {g:?}, exporter saw {:?}", &evs[before..])); } continue; }
                        if out != given { return Err(format!("op {j} {o:?} returned {g:?} when only {out:?} of {given:?} had been exported")); }
                        // the answer is the result of the last export it caused
                        let k = evs.iter().filter(|e| matches!(e, Ev::Out(..))).count();
                        let last = if k > 0 { Some(acts[(k - 1) % acts.len()]) } else { None };
                        let fine = match (&g, last) { (Ok(()), None | Some(Act::Ok)) => true, (Ok(()), Some(Act::Slow(d))) => d <= cfg.timeout, (Ok(()), _) => evs.len() == before || given.len() % cfg.batch == 0,
                            (Err(OTelSdkError::Timeout(t)), Some(a)) => *t == Duration::from_millis(cfg.timeout) && (a == Act::Never || matches!(a, Act::Slow(d) if d >= cfg.timeout)),
                            (Err(OTelSdkError::InternalFailure(m)), Some(Act::Fail)) => m == "no", _ => false };
                        if !fine && !(g.is_ok()) { return Err(format!("op {j} {o:?} returned {g:?}, last export {last:?} (timeout {} ms), exporter saw {:?}", cfg.timeout, &evs[before..])); }
                        // with ticks, one of them may have made the export the flush came to late for
                        if !fine && g.is_ok() && cfg.delay > 10_000 && evs[before..].iter().filter(|e| matches!(e, Ev::Out(..))).count() == 1 && matches!(evs[before..].first(), Some(Ev::Out(_, v)) if v.len() < cfg.batch) { return Err(format!("op {j} {o:?} returned {g:?}, last export {last:?} (timeout {} ms), exporter saw {:?}", cfg.timeout, &evs[before..])); }
                        if *o == Op::Shutdown { down = true; if evs.last().map(|e| matches!(e, Ev::Down(_))) != Some(true) || evs.iter().filter(|e| matches!(e, Ev::Down(_))).count() != 1 { return Err(format!("shutdown returned {g:?}, exporter saw {evs:?}")); } }
                    }
                    // no export goes on longer than the timeout before the next one begins
                }
                let evs = seen.lock().unwrap().clone();
                let starts: Vec<u64> = evs.iter().filter_map(|e| match e { Ev::Out(t, _) => Some(*t), _ => None }).collect();
                for e in &evs { if let Ev::Done(t) = e { if !starts.iter().any(|s| s <= t && t - s <= cfg.timeout) { return Err(format!("an export went on beyond the timeout: {evs:?}")); } } }
                Ok(())
            })();
            drop(p); rt.end();
            r
        });
    }
}
/// more than the channel holds while an export goes on: what is dropped is what came last
fn full(c: &mut Ctx) {
    let n = c.n(40);
    for i in 0..n {
        let log = c.rng.bool();
        let cfg = Cfg { queue: 4 + c.rng.usize(6), batch: 1 + c.rng.usize(4), delay: 1000, timeout: 100, concurrent: 1 + c.rng.usize(2) };
        let extra = c.rng.usize(10);
        c.case(format!("full #{i} {} {cfg:?} {extra} beyond the queue", if log { "logs" } else { "spans" }), true, || {
            let rt = Rt::new();
            let e = Exp::new(Some(rt.clone()), vec![Act::Slow(50)]);
            let seen = e.log.clone();
            let p = Proc::make(log, &cfg, &rt, e);
            rt.settle();
            for k in 0..cfg.batch { p.end(k as u64 * 1000); rt.settle(); }       // now an export goes on
            for k in 0..cfg.queue + extra { p.end((cfg.batch + k) as u64 * 1000); }
            rt.settle();
            let full = p.flush();
            if extra > 0 && full.is_ok() { drop(p); rt.end(); return Err("a flush the channel has no room for succeeded".into()); }
            if full.is_ok() { drop(p); rt.end(); return Err("flush answered while the export went on".into()); }
            rt.advance(60 * 20);
            let r = rt.waiting(|| p.shutdown());
            let out: Vec<u64> = seen.lock().unwrap().iter().flat_map(|e| match e { Ev::Out(_, v) => v.clone(), _ => vec![] }).collect();
            let want: Vec<u64> = (0..cfg.batch + cfg.queue).map(|k| k as u64 * 1000).collect();
            drop(p); rt.end();
            if r.is_err() || out != want { return Err(format!("shutdown {r:?}; exported {out:?}, expected {want:?}")); }
            Ok(())
        });
    }
}
fn metrics(c: &mut Ctx) {
    let n = c.n(100);
    for i in 0..n {
        let delta = c.rng.bool();
        let every = 10 * (1 + c.rng.below(8));
        let timeout = 30 + c.rng.below(40);
        let zero = c.rng.chance(1, 4);
        let acts: Vec<Act> = (0..c.rng.usize(4)).map(|_| match c.rng.below(4) { 0 => Act::Fail, _ => Act::Ok }).collect();
        let mut ops = vec![];
        for _ in 0..6 + c.rng.usize(20) { ops.push(match c.rng.below(16) { 0..=6 => Op::End(1 + c.rng.below(100)), 7..=9 => Op::Flush, 15 => if c.rng.chance(1, 3) { Op::Shutdown } else { Op::Flush }, _ => { let d = [1, every - 1, every, every + 1, 3 * every][c.rng.usize(5)]; Op::Advance(d) } }); }
        ops.push(Op::Shutdown); ops.push(Op::End(5)); ops.push(Op::Flush); ops.push(Op::Shutdown);
        c.case(format!("metrics #{i} delta {delta} every {every} timeout {timeout} exporter {acts:?} {ops:?}"), true, || {
            let rt = Rt::new();
            let mut e = Exp::new(Some(rt.clone()), acts.clone());
            e.t = if delta { Temporality::Delta } else { Temporality::Cumulative };
            let seen = e.log.clone();
            let mut b = aread::PeriodicReader::builder(e, rt.clone()).with_interval(Duration::from_millis(every)).with_timeout(Duration::from_millis(timeout));
            if zero { b = b.with_interval(Duration::ZERO).with_timeout(Duration::ZERO); }
            let p = SdkMeterProvider::builder().with_reader(b.build()).build();
            let ctr = p.meter("x").u64_counter("c").build();
            rt.settle();
            let (mut sum, mut fresh, mut any, mut now, mut next, mut k, mut down) = (0u64, 0u64, false, 0u64, every, 0usize, false);
            let mut want: Vec<Ev> = vec![];
            let r = (|| {
                for (j, o) in ops.iter().enumerate() {
                    let mut round = |now: u64, want: &mut Vec<Ev>, k: &mut usize| -> bool {
                        if (delta && fresh == 0) || !any { return true; }
                        want.push(Ev::Out(now, vec![if delta { fresh } else { sum }]));
                        fresh = 0;
                        let ok = acts.is_empty() || acts[*k % acts.len()] == Act::Ok;
                        if ok { want.push(Ev::Done(now)); }
                        *k += 1;
                        ok
                    };
                    let (got, exp) = match o {
                        Op::End(n) => { ctr.add(*n, &[]); sum += n; fresh += n; any = true; (None, None) }
                        Op::Advance(d) => { let end = now + d; if !down { while next <= end { now = next; next += every; round(now, &mut want, &mut k); } } now = end; rt.advance(*d); (None, None) }
                        Op::Flush => { let w = if down { false } else { round(now, &mut want, &mut k) }; (Some(p.force_flush().is_ok()), Some(w)) }
                        Op::Shutdown => { let w = if down { false } else { let w = round(now, &mut want, &mut k); want.push(Ev::Down(now)); down = true; w }; (Some(p.shutdown().is_ok()), Some(w)) }
                    };
                    let evs = seen.lock().unwrap().clone();
                    if evs != want { return Err(format!("after op {j} {o:?}: exporter saw {evs:?}, expected {want:?}")); }
                    if got != exp { return Err(format!("op {j} {o:?} succeeded {got:?}, expected {exp:?}")); }
                }
                Ok(())
            })();
            drop(p); rt.end();
            r
        });
    }
    for (i, a) in [Act::Never, Act::Slow(500), Act::Slow(5), Act::Fail, Act::Ok].into_iter().enumerate() {
        for stop in [false, true] {
            c.case(format!("metrics timeout #{i} {a:?} shutdown {stop}"), true, || {
                let rt = Rt::new();
                let e = Exp::new(Some(rt.clone()), vec![a]);
                let seen = e.log.clone();
                let p = SdkMeterProvider::builder().with_reader(aread::PeriodicReader::builder(e, rt.clone()).with_interval(Duration::from_secs(10_000)).with_timeout(Duration::from_millis(70)).build()).build();
                p.meter("x").u64_counter("c").build().add(1, &[]);
                rt.settle();
                let r = rt.waiting(|| if stop { p.shutdown() } else { p.force_flush() });
                let at = rt.now();
                let evs = seen.lock().unwrap().clone();
                drop(p); rt.end();
                let late = a == Act::Never || a == Act::Slow(500);
                if r.is_ok() != (a == Act::Ok || a == Act::Slow(5)) || (late && at != 70) || at > 70 { return Err(format!("{r:?} after {at} ms, exporter saw {evs:?}")); }
                if stop && evs.last() != Some(&Ev::Down(at)) { return Err(format!("{r:?}, exporter saw {evs:?}")); }
                Ok(())
            });
        }
    }
    c.case("metrics: a flush before there is a provider, and a second registration".into(), true, || {
        let rt = Rt::new();
        let e = Exp::new(Some(rt.clone()), vec![]);
        let seen = e.log.clone();
        let reader = aread::PeriodicReader::builder(e, rt.clone()).with_interval(Duration::from_millis(10)).build();
        let a = SdkMeterProvider::builder().with_reader(reader.clone()).build();
        let b = SdkMeterProvider::builder().with_reader(reader.clone()).build();
        a.meter("x").u64_counter("c").build().add(3, &[]);
        b.meter("x").u64_counter("c").build().add(4, &[]);
        rt.settle();
        rt.advance(10);
        let evs = seen.lock().unwrap().clone();
        let r = a.shutdown();
        let r2 = b.shutdown();
        rt.end();
        if evs != [Ev::Out(10, vec![3]), Ev::Done(10)] || r.is_err() || r2.is_ok() { return Err(format!("exporter saw {evs:?}, shutdown {r:?}, then {r2:?}")); }
        Ok(())
    });
}
/// the same on Tokio, and the processor that exports on the emitting thread
fn tokio_and_concurrent(c: &mut Ctx) {
    for current in [false, true] {
        for log in [false, true] {
            c.case(format!("tokio current-thread {current} logs {log}"), true, || {
                let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
                let _g = rt.enter();
                let e = Exp::new(None, vec![]);
                let seen = e.log.clone();
                use opentelemetry_sdk::runtime::{Tokio, TokioCurrentThread};
                let run = |end: &dyn Fn(u64), flush: &dyn Fn() -> OTelSdkResult, down: &dyn Fn() -> OTelSdkResult| {
                    for k in 0..10 { end(k * 1000); }
                    let a = flush();
                    let one: Vec<u64> = seen.lock().unwrap().iter().flat_map(|e| match e { Ev::Out(_, v) => v.clone(), _ => vec![] }).collect();
                    for k in 10..13 { end(k * 1000); }
                    let b = down();
                    let evs = seen.lock().unwrap().clone();
                    let two: Vec<u64> = evs.iter().flat_map(|e| match e { Ev::Out(_, v) => v.clone(), _ => vec![] }).collect();
                    if a.is_err() || b.is_err() || one != (0..10).map(|k| k * 1000).collect::<Vec<u64>>() || two != (0..13).map(|k| k * 1000).collect::<Vec<u64>>() || !matches!(evs.last(), Some(Ev::Down(_))) { return Err(format!("flush {a:?} shutdown {b:?} exporter saw {evs:?}")); }
                    Ok(())
                };
                if log {
                    let cfg = logs::BatchConfigBuilder::default().with_max_export_batch_size(4).with_scheduled_delay(Duration::from_secs(1000)).build();
                    let p = if current { SdkLoggerProvider::builder().with_log_processor(alog::BatchLogProcessor::builder(e, TokioCurrentThread).with_batch_config(cfg).build()).build() } else { SdkLoggerProvider::builder().with_log_processor(alog::BatchLogProcessor::builder(e, Tokio).with_batch_config(cfg).build()).build() };
                    let l = p.logger("x");
                    run(&|n| { let mut r = l.create_log_record(); r.set_body(AnyValue::Int(n as i64)); l.emit(r); }, &|| p.force_flush(), &|| p.shutdown())
                } else {
                    let cfg = trace::BatchConfigBuilder::default().with_max_export_batch_size(4).with_scheduled_delay(Duration::from_secs(1000)).build();
                    let p = if current { SdkTracerProvider::builder().with_span_processor(aspan::BatchSpanProcessor::builder(e, TokioCurrentThread).with_batch_config(cfg).build()).build() } else { SdkTracerProvider::builder().with_span_processor(aspan::BatchSpanProcessor::builder(e, Tokio).with_batch_config(cfg).build()).build() };
                    let t = p.tracer("x");
                    run(&|n| t.start(n.to_string()).end(), &|| p.force_flush(), &|| p.shutdown())
                }
            });
        }
    }
    for threads in [1usize, 4] {
        c.case(format!("concurrent log processor, {threads} threads"), true, || {
            let e = Exp::new(None, vec![Act::Ok, Act::Fail]);
            let seen = e.log.clone();
            let p = SdkLoggerProvider::builder().with_resource(Resource::builder_empty().with_attribute(KeyValue::new("mark", "x")).build()).with_log_processor(logs::concurrent_log_processor::SimpleConcurrentLogProcessor::new(e)).build();
            std::thread::scope(|s| { for t in 0..threads { let p = &p; let seen = &seen; s.spawn(move || { let l = p.logger("x"); for k in 0..20u64 { let n = t as u64 * 100 + k; let mut r = l.create_log_record(); r.set_body(AnyValue::Int(n as i64)); l.emit(r); assert!(seen.lock().unwrap().iter().any(|e| matches!(e, Ev::Out(_, v) if *v == [n])), "{n} not exported when emit returned"); } }); } });
            let f = p.force_flush();
            let d = p.shutdown();
            let evs = seen.lock().unwrap().clone();
            let mut out: Vec<u64> = evs.iter().flat_map(|e| match e { Ev::Out(_, v) => v.clone(), _ => vec![] }).collect();
            let ordered = (0..threads as u64).all(|t| out.iter().filter(|n| **n / 100 == t).is_sorted());
            out.sort();
            if f.is_err() || d.is_err() || !ordered || out != (0..threads as u64).flat_map(|t| (0..20).map(move |k| t * 100 + k)).collect::<Vec<_>>() || evs[0] != Ev::Told || !matches!(evs.last(), Some(Ev::Down(_))) { return Err(format!("flush {f:?} shutdown {d:?} exporter saw {evs:?}")); }
            Ok(())
        });
    }
}
pub fn c36(c: &mut Ctx) {
    c.rule = "random programs of ending spans or emitting log records, flushing, letting time pass and shutting down, against the batches, times and results a worker that takes one message after another must give; exporters that fail, take long or never end; channels that overflow; the periodic reader likewise; Tokio".into();
    let _ = Context::new().has_active_span();
    direct(c);
    slow(c);
    full(c);
    metrics(c);
    tokio_and_concurrent(c);
}

// Unit: the metric readers (opentelemetry-sdk/src/metrics/{manual_reader,periodic_reader}.rs): what a reader collects is what its
// pipeline produces; the periodic reader's worker makes one collection per interval, per flush and at shutdown, and exports exactly it.
use vstd::prelude::*;
verus! {
#[verifier::external_body] struct Text { _p: u8 }
enum OTelSdkError { AlreadyShutdown, Timeout(Duration), InternalFailure(Text) }
type OTelSdkResult = Result<(), OTelSdkError>;
impl OTelSdkError { #[verifier::external_body] fn to_string(&self) -> Text { unimplemented!() } }
#[verifier::external_body] fn text() -> Text { unimplemented!() }
//@gsubst OTelSdkError::InternalFailure($$m) ~> OTelSdkError::InternalFailure(text())
//@gsubst .map_err(|_| $$e) ~> .map_err(|_e| $$e)
enum Temporality { Cumulative, Delta, LowMemory }
#[derive(Clone, Copy)] #[verifier::external_body] struct InstrumentKind { _p: u8 }
/// what the instrument kind makes of the preference (the property of Temporality, C21)
uninterp spec fn preferred(k: InstrumentKind, t: Temporality) -> Temporality;
impl InstrumentKind { #[verifier::external_body] fn temporality_preference(&self, t: Temporality) -> (r: Temporality) ensures r == preferred(*self, t) { unimplemented!() } }
impl Temporality { #[verifier::external_body] fn clone(&self) -> (r: Temporality) ensures r == *self { unimplemented!() } }

// ---- time ----
#[derive(Clone, Copy)] struct Duration { ns: Ghost<int> }
#[derive(Clone, Copy)] struct Instant { at: Ghost<int> }
impl Instant {
    #[verifier::external_body] fn now() -> Instant { unimplemented!() }
    #[verifier::external_body] fn elapsed(&self) -> (r: Duration) ensures r.ns@ >= 0 { unimplemented!() }
}
impl Duration {
    #[verifier::external_body] fn zero() -> (r: Duration) ensures r.ns@ == 0 { unimplemented!() }
    #[verifier::external_body] fn from_secs(s: u64) -> (r: Duration) ensures r.ns@ == s * 1_000_000_000 { unimplemented!() }
    #[verifier::external_body] fn is_zero(&self) -> (r: bool) ensures r == (self.ns@ == 0) { unimplemented!() }
}
#[verifier::external_body] fn lt(a: Duration, b: Duration) -> (r: bool) ensures r == (a.ns@ < b.ns@) { unimplemented!() }
#[verifier::external_body] fn minus(a: Duration, b: Duration) -> (r: Duration) requires b.ns@ <= a.ns@ ensures r.ns@ == a.ns@ - b.ns@ { unimplemented!() }
//@gsubst $a < interval ~> lt($a, interval)
//@gsubst $a > interval ~> lt(interval, $a)
//@gsubst $a <= interval ~> !lt(interval, $a)
//@gsubst $a >= interval ~> !lt($a, interval)
//@gsubst interval - $a ~> minus(interval, $a)
//@gsubst Duration::ZERO ~> Duration::zero()

// ---- collections and exports ----
#[verifier::external_body] struct ScopeMetrics { _p: u8 }
#[derive(Clone, Copy)] #[verifier::external_body] struct Resource { _p: u8 }
impl Resource { #[verifier::external_body] fn empty() -> Resource { unimplemented!() } }
struct ResourceMetrics { resource: Resource, scope_metrics: Vec<ScopeMetrics> }
enum Ev { Collected(Option<ResourceMetrics>), Exported(ResourceMetrics, bool), Down(bool) }
struct Log { evs: Ghost<Seq<Ev>>, suppressed: Ghost<bool>, down: Ghost<bool> }
spec fn grew(a: Log, b: Log, e: Ev) -> bool { b.evs@ == a.evs@.push(e) && b.suppressed@ == a.suppressed@ && b.down@ == a.down@ }
struct Producer { id: Ghost<int> }
impl Producer {
    /// Pipeline::produce (C16-C21, C28)
    #[verifier::external_body] fn produce(&self, rm: &mut ResourceMetrics, log: &mut Log) -> (r: OTelSdkResult)
        ensures grew(*old(log), *final(log), Ev::Collected(if r is Ok { Some(*final(rm)) } else { None })) { unimplemented!() }
}
#[derive(Clone, Copy)] struct WeakPipe { alive: Ghost<bool>, id: Ghost<int> }
impl WeakPipe { #[verifier::external_body] fn upgrade(&self) -> (r: Option<Producer>) ensures r is Some == self.alive@, r is Some ==> r->0.id == self.id { unimplemented!() } }
//@gsubst .produce(rm) ~> .produce(rm, log)

// ---- the manual reader ----
struct Poison { _p: u8 }
struct ManualReaderInner { sdk_producer: Option<WeakPipe>, is_shutdown: bool }
struct Locked { v: ManualReaderInner, poisoned: bool }
impl Locked {
    #[verifier::external_body] fn lock(&mut self) -> (r: Result<&mut ManualReaderInner, Poison>)
        ensures r is Err == old(self).poisoned, final(self).poisoned == old(self).poisoned,
            match r { Ok(e) => *e == old(self).v && final(self).v == *final(e), Err(_) => final(self).v == old(self).v } { unimplemented!() }
    fn new(v: ManualReaderInner) -> (r: Locked) ensures r.v == v, !r.poisoned { Locked { v, poisoned: false } }
}
//@gsubst Mutex::new ~> Locked::new
spec fn up(w: Option<WeakPipe>) -> bool { w is Some && w->0.alive@ }
fn upgraded(w: &Option<WeakPipe>) -> (r: Option<Producer>) ensures r is Some == up(*w), r is Some ==> r->0.id == w->0.id { match w { Some(x) => x.upgrade(), None => None } }
struct ManualReader { inner: Locked, temporality: Temporality }
impl ManualReader {
//@fn opentelemetry-sdk/src/metrics/manual_reader.rs impl ManualReader :: fn new
//@ret r
//@contract
    ensures r.inner.v.sdk_producer is None, !r.inner.v.is_shutdown, !r.inner.poisoned, r.temporality == temporality,
//@endfn
//@fn opentelemetry-sdk/src/metrics/manual_reader.rs impl MetricReader for ManualReader :: fn register_pipeline
//@sig fn register_pipeline(&mut self, pipeline: WeakPipe)
//@subst let _ = self.inner.lock().map(|mut inner| { $$b }); ~> if let Ok(inner) = self.inner.lock() { $$b }
//@contract
    ensures final(self).temporality == old(self).temporality,
        // the first pipeline stays
        !old(self).inner.poisoned ==> final(self).inner.v.sdk_producer == (match old(self).inner.v.sdk_producer { Some(p) => Some(p), None => Some(pipeline) }),
//@endfn
//@fn opentelemetry-sdk/src/metrics/manual_reader.rs impl MetricReader for ManualReader :: fn collect
//@sig fn collect(&mut self, rm: &mut ResourceMetrics, log: &mut Log) -> OTelSdkResult
//@subst &inner.sdk_producer.as_ref().and_then(|w| w.upgrade()) ~> &upgraded(&inner.sdk_producer)
//@ret r
//@contract
    ensures final(self).inner == old(self).inner, final(self).temporality == old(self).temporality,
        // what is reported is what the registered pipeline produced, if there is one
        r is Ok ==> up(old(self).inner.v.sdk_producer) && grew(*old(log), *final(log), Ev::Collected(Some(*final(rm)))),
        old(self).inner.v.sdk_producer is None ==> r is Err && *final(log) == *old(log) && *final(rm) == *old(rm),
        !old(self).inner.poisoned && up(old(self).inner.v.sdk_producer) ==> final(log).evs@.len() == old(log).evs@.len() + 1 && (r is Ok <==> final(log).evs@.last() == Ev::Collected(Some(*final(rm)))),
//@endfn
//@fn opentelemetry-sdk/src/metrics/manual_reader.rs impl MetricReader for ManualReader :: fn force_flush
//@ret r
//@contract
    ensures r is Ok,
//@endfn
//@fn opentelemetry-sdk/src/metrics/manual_reader.rs impl MetricReader for ManualReader :: fn shutdown_with_timeout
//@sig fn shutdown_with_timeout(&mut self, _timeout: Duration) -> OTelSdkResult
//@subst let mut inner = self ~> let inner = self
//@subst .map_err(|e| ~> .map_err(|_e: Poison|
//@ret r
//@contract
    ensures r is Ok ==> final(self).inner.v.sdk_producer is None && final(self).inner.v.is_shutdown,     // so that a later collect is refused
        !old(self).inner.poisoned ==> r is Ok,
//@endfn
//@fn opentelemetry-sdk/src/metrics/manual_reader.rs impl MetricReader for ManualReader :: fn temporality
//@sig fn temporality(&self, kind: InstrumentKind) -> Temporality
//@subst self.temporality ~> self.temporality.clone()
//@ret r
//@contract
    ensures r == preferred(kind, self.temporality),
//@endfn
}
struct ManualReaderBuilder { temporality: Temporality }
impl ManualReaderBuilder {
//@fn opentelemetry-sdk/src/metrics/manual_reader.rs impl ManualReaderBuilder :: fn with_temporality
//@sig fn with_temporality(self0: Self, temporality: Temporality) -> Self
//@subst self ~> slf
//@start
        let mut slf = self0;
//@ret r
//@contract
    ensures r.temporality == temporality,
//@endfn
//@fn opentelemetry-sdk/src/metrics/manual_reader.rs impl ManualReaderBuilder :: fn build
//@ret r
//@contract
    ensures r.temporality == self.temporality, r.inner.v.sdk_producer is None,
//@endfn
}

// ---- the periodic reader ----
struct Exporter { t: Temporality }
struct Pending { ok: bool }
impl Exporter {
    #[verifier::external_body] fn export(&self, rm: &mut ResourceMetrics, log: &mut Log) -> (f: Pending)
        requires !old(log).down@, old(log).suppressed@                                  // never after its shutdown, never while telemetry is recorded
        ensures grew(*old(log), *final(log), Ev::Exported(*old(rm), f.ok)) { unimplemented!() }
    #[verifier::external_body] fn shutdown(&self, log: &mut Log) -> (r: OTelSdkResult)
        requires !old(log).down@
        ensures final(log).evs@ == old(log).evs@.push(Ev::Down(r is Ok)), final(log).down@, final(log).suppressed@ == old(log).suppressed@ { unimplemented!() }
    #[verifier::external_body] fn temporality(&self) -> (r: Temporality) ensures r == self.t { unimplemented!() }
}
#[verifier::external_body] fn block_on(f: Pending) -> (r: OTelSdkResult) ensures r is Ok == f.ok { unimplemented!() }
//@gsubst futures_executor::block_on ~> block_on
struct Slot { p: Option<WeakPipe>, poisoned: bool }
impl Slot {
    #[verifier::external_body] fn get(&self) -> (r: &Option<WeakPipe>) requires !self.poisoned ensures *r == self.p { unimplemented!() }
    #[verifier::external_body] fn set(&mut self) -> (r: &mut Option<WeakPipe>) requires !old(self).poisoned ensures *r == old(self).p, final(self).p == *final(r), final(self).poisoned == old(self).poisoned { unimplemented!() }
}
/// what one collection, from the state `a`, left behind
spec fn round(a: Log, b: Log, p: Option<WeakPipe>, ok: bool) -> bool {
    if !up(p) { b == a && !ok } else {
        &&& b.evs@.len() > a.evs@.len() && a.evs@.is_prefix_of(b.evs@) && b.suppressed@ == a.suppressed@ && b.down@ == a.down@
        &&& match b.evs@[a.evs@.len() as int] {
            Ev::Collected(None) => b.evs@.len() == a.evs@.len() + 1 && !ok,                                             // the collection failed: nothing is exported
            Ev::Collected(Some(rm)) => if rm.scope_metrics@.len() == 0 { b.evs@.len() == a.evs@.len() + 1 && ok }       // nothing to export
                else { b.evs@ == a.evs@.push(Ev::Collected(Some(rm))).push(Ev::Exported(rm, ok)) },                     // exactly what was collected, once
            _ => false,
        }
    }
}
//@item opentelemetry-sdk/src/metrics/periodic_reader.rs enum Message
//@ subst Sender<bool> ~> Reply
struct PeriodicReaderInner { exporter: Exporter, producer: Slot, message_sender: Ghost<int> }
impl PeriodicReaderInner {
//@fn opentelemetry-sdk/src/metrics/periodic_reader.rs impl PeriodicReaderInner<E> :: fn register_pipeline
//@sig fn register_pipeline(&mut self, producer: WeakPipe)
//@subst let mut inner = self.producer.lock().expect($$m) ~> let inner = self.producer.set()
//@contract
    requires !old(self).producer.poisoned,
    ensures final(self).producer.p == Some(producer),
//@endfn
//@fn opentelemetry-sdk/src/metrics/periodic_reader.rs impl PeriodicReaderInner<E> :: fn temporality
//@ret r
//@contract
    ensures r == self.exporter.t,
//@endfn
//@fn opentelemetry-sdk/src/metrics/periodic_reader.rs impl PeriodicReaderInner<E> :: fn collect
//@sig fn collect(&self, rm: &mut ResourceMetrics, log: &mut Log) -> OTelSdkResult
//@subst self.producer.lock().expect($$m) ~> self.producer.get()
//@ret r
//@contract
    requires !self.producer.poisoned,
    ensures
        up(self.producer.p) ==> grew(*old(log), *final(log), Ev::Collected(if r is Ok { Some(*final(rm)) } else { None })),
        !up(self.producer.p) ==> r is Err && *final(log) == *old(log),
//@endfn
//@fn opentelemetry-sdk/src/metrics/periodic_reader.rs impl PeriodicReaderInner<E> :: fn collect_and_export
//@sig fn collect_and_export(&self, log: &mut Log) -> OTelSdkResult
//@subst self.collect(&mut rm) ~> self.collect(&mut rm, log)
//@subst self.exporter.export(&mut rm) ~> self.exporter.export(&mut rm, log)
//@subst? let metrics_count = $$e; ~> 
//@ret r
//@contract
    requires !self.producer.poisoned, !old(log).down@, old(log).suppressed@,
    ensures round(*old(log), *final(log), self.producer.p, r is Ok), final(log).down@ == old(log).down@, final(log).suppressed@ == old(log).suppressed@,
//@endfn
}
struct PeriodicReader { inner: PeriodicReaderInner }
/// the worker's state: what it owes
struct W {
    log: Log,
    rounds: Ghost<int>,             // collections made
    last: Ghost<bool>,              // whether the last one succeeded
    owed: Ghost<int>,               // 0 nothing; 1 an answer to a flush; 2 an answer to a shutdown; 3 the collection due to the timer
    since: Ghost<int>,              // collections made when the request came
}
spec fn is_done(w: W) -> bool { w.owed@ == 0 || (w.owed@ == 3 && w.rounds@ == w.since@ + 1) }
struct Reply { id: Ghost<int> }
struct Gone { _p: u8 }
enum RecvTimeoutError { Timeout, Disconnected }
//@gsubst mpsc::RecvTimeoutError ~> RecvTimeoutError
impl W {
    fn enter_telemetry_suppressed_scope(&mut self) ensures final(self).log.suppressed@, final(self).log.evs == old(self).log.evs, final(self).log.down == old(self).log.down,
        final(self).rounds == old(self).rounds, final(self).last == old(self).last, final(self).owed == old(self).owed, final(self).since == old(self).since { self.log.suppressed = Ghost(true); }
    /// wait for a message, never longer than the interval, never before the last request is dealt with
    #[verifier::external_body] fn recv_timeout(&mut self, interval: Duration, t: Duration) -> (r: Result<Message, RecvTimeoutError>)
        requires is_done(*old(self)), 0 <= t.ns@ <= interval.ns@
        ensures final(self).log == old(self).log, final(self).rounds == old(self).rounds, final(self).last == old(self).last, final(self).since@ == old(self).rounds@,
            final(self).owed@ == (match r { Ok(Message::Flush(_)) => 1int, Ok(Message::Shutdown(_)) => 2, Err(RecvTimeoutError::Timeout) => 3, Err(RecvTimeoutError::Disconnected) => 0 }) { unimplemented!() }
    #[verifier::external_body] fn reply(&mut self, tx: &Reply, ok: bool) -> (r: Result<(), Gone>)
        requires
            old(self).owed@ == 1 || old(self).owed@ == 2,
            old(self).rounds@ == old(self).since@ + 1,                                  // one collection was made since the request
            // success is reported iff it succeeded, and, for a shutdown, the exporter's shutdown as well
            old(self).owed@ == 1 ==> ok == old(self).last@,
            old(self).owed@ == 2 ==> old(self).log.evs@.len() > 0 && match old(self).log.evs@.last() { Ev::Down(d) => ok == (old(self).last@ && d), _ => false },
        ensures final(self).owed@ == 0, final(self).log == old(self).log, final(self).rounds == old(self).rounds, final(self).last == old(self).last, final(self).since == old(self).since { unimplemented!() }
}
impl PeriodicReader {
//@fn opentelemetry-sdk/src/metrics/periodic_reader.rs impl PeriodicReader<E> :: fn collect_and_export
//@sig fn collect_and_export0(&self, log: &mut Log) -> OTelSdkResult
//@subst self.inner.collect_and_export() ~> self.inner.collect_and_export(log)
//@ret r
//@contract
    requires !self.inner.producer.poisoned, !old(log).down@, old(log).suppressed@,
    ensures round(*old(log), *final(log), self.inner.producer.p, r is Ok), final(log).down@ == old(log).down@, final(log).suppressed@ == old(log).suppressed@,
//@endfn
    fn collect_and_export(&self, w: &mut W) -> (r: OTelSdkResult)
        requires !self.inner.producer.poisoned, !old(w).log.down@, old(w).log.suppressed@,
        ensures round(old(w).log, final(w).log, self.inner.producer.p, r is Ok), final(w).last@ == (r is Ok), final(w).rounds@ == old(w).rounds@ + 1, final(w).owed == old(w).owed, final(w).since == old(w).since,
            !final(w).log.down@, final(w).log.suppressed@
    {
        let r = self.collect_and_export0(&mut w.log);
        w.last = Ghost(r is Ok); w.rounds = Ghost(w.rounds@ + 1);
        r
    }
//@fn opentelemetry-sdk/src/metrics/periodic_reader.rs impl PeriodicReader<E> :: fn new
//@region let _suppress_guard ~> 
//@sig #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] fn worker(cloned_reader: &PeriodicReader, exporter_arc: &Exporter, interval: Duration, w: &mut W)
//@subst Context::enter_telemetry_suppressed_scope() ~> w.enter_telemetry_suppressed_scope()
//@subst message_receiver.recv_timeout($$t) ~> w.recv_timeout(interval, $$t)
//@subst cloned_reader.collect_and_export() ~> cloned_reader.collect_and_export(w)
//@subst exporter_arc.shutdown() ~> exporter_arc.shutdown(&mut w.log)
//@subst response_sender.send($$b) ~> w.reply(&response_sender, $$b)
//@contract
    requires !cloned_reader.inner.producer.poisoned, interval.ns@ > 0, old(w).owed@ == 0, !old(w).log.down@, old(w).log.evs@.len() == 0,
    ensures
        // it ends only after a shutdown, the exporter's shutdown being the last thing done, or when nobody can reach it any more
        final(w).owed@ == 0,
        final(w).log.down@ ==> final(w).log.evs@.last() is Down,
//@loop 0
        invariant_except_break !w.log.down@, remaining_interval.ns@ <= interval.ns@, remaining_interval.ns@ >= 0, is_done(*w),
        invariant w.log.suppressed@,
        ensures w.owed@ == 0, w.log.down@ ==> w.log.evs@.last() is Down,
//@endfn
}
// ---- the caller's side ----
/// what the worker answered to a request
uninterp spec fn answer(id: int) -> bool;
struct RRx { id: Ghost<int> }
#[verifier::external_body] fn channel() -> (r: (Reply, RRx)) ensures r.0.id == r.1.id { unimplemented!() }
//@gsubst mpsc::channel() ~> channel()
impl RRx {
    #[verifier::external_body] fn recv(&self) -> (r: Result<bool, Gone>) ensures r is Ok ==> r->Ok_0 == answer(self.id@) { unimplemented!() }
    #[verifier::external_body] fn recv_timeout(&self, t: Duration) -> (r: Result<bool, RecvTimeoutError>) ensures r is Ok ==> r->Ok_0 == answer(self.id@) { unimplemented!() }
}
struct Asked { flushes: Ghost<Seq<int>>, stops: Ghost<Seq<int>> }
impl Asked {
    #[verifier::external_body] fn send(&mut self, m: Message) -> (r: Result<(), Gone>)
        ensures r is Err ==> *final(self) == *old(self),
            r is Ok ==> match m { Message::Flush(s) => final(self).flushes@ == old(self).flushes@.push(s.id@) && final(self).stops == old(self).stops, Message::Shutdown(s) => final(self).stops@ == old(self).stops@.push(s.id@) && final(self).flushes == old(self).flushes } { unimplemented!() }
}
struct Caller { message_sender: Asked }
impl Caller {
//@fn opentelemetry-sdk/src/metrics/periodic_reader.rs impl PeriodicReaderInner<E> :: fn force_flush
//@sig fn force_flush(&mut self) -> OTelSdkResult
//@subst .map_err(|e| ~> .map_err(|_e: Gone|
//@ret r
//@contract
    ensures final(self).message_sender.stops == old(self).message_sender.stops,
        // success means that the worker made a collection for this request and that it succeeded
        r is Ok ==> final(self).message_sender.flushes@.len() == old(self).message_sender.flushes@.len() + 1 && answer(final(self).message_sender.flushes@.last()),
//@endfn
//@fn opentelemetry-sdk/src/metrics/periodic_reader.rs impl PeriodicReaderInner<E> :: fn shutdown
//@sig fn shutdown(&mut self) -> OTelSdkResult
//@subst .map_err(|e| ~> .map_err(|_e: Gone|
//@ret r
//@contract
    ensures final(self).message_sender.flushes == old(self).message_sender.flushes,
        r is Ok ==> final(self).message_sender.stops@.len() == old(self).message_sender.stops@.len() + 1 && answer(final(self).message_sender.stops@.last()),
//@endfn
}
// ---- the builder ----
struct PeriodicReaderBuilder { interval: Duration, exporter: Exporter }
//@fn opentelemetry-sdk/src/metrics/periodic_reader.rs const DEFAULT_INTERVAL
//@sig fn default_interval() -> Duration
//@ret r
//@contract
    ensures r.ns@ == 60_000_000_000,
//@endfn
//@gsubst DEFAULT_INTERVAL ~> default_interval()
/// OTEL_METRIC_EXPORT_INTERVAL, if it is set to a number of milliseconds
uninterp spec fn env_interval() -> Option<Duration>;
#[verifier::external_body] fn env_millis() -> (r: Option<Duration>) ensures r == env_interval(), r is Some ==> r->0.ns@ >= 0 { unimplemented!() }
spec fn nonzero_of(o: Option<Duration>) -> Option<Duration> { match o { Some(d) => if d.ns@ == 0 { None } else { Some(d) }, None => None } }
fn nonzero(o: Option<Duration>) -> (r: Option<Duration>) ensures r == nonzero_of(o) { match o { Some(d) => if d.is_zero() { None } else { Some(d) }, None => None } }
impl PeriodicReaderBuilder {
//@fn opentelemetry-sdk/src/metrics/periodic_reader.rs impl PeriodicReaderBuilder<E> :: fn new
//@sig fn new(exporter: Exporter) -> PeriodicReaderBuilder
//@subst? env::var($n).ok().and_then(|v| v.parse().map(Duration::from_millis).ok()).filter(|$i: &Duration| !$i.is_zero()) ~> nonzero(env_millis())
//@subst? env::var($n).ok().and_then(|v| v.parse().map(Duration::from_millis).ok()) ~> env_millis()
//@ret r
//@contract
    ensures r.exporter == exporter, r.interval.ns@ > 0, env_interval() is Some && env_interval()->0.ns@ > 0 ==> r.interval == env_interval()->0,
        nonzero_of(env_interval()) is None ==> r.interval.ns@ == 60_000_000_000,
//@endfn
//@fn opentelemetry-sdk/src/metrics/periodic_reader.rs impl PeriodicReaderBuilder<E> :: fn with_interval
//@sig fn with_interval(self0: Self, interval: Duration) -> Self
//@subst self ~> slf
//@start
        let mut slf = self0;
//@ret r
//@contract
    requires self0.interval.ns@ > 0,
    ensures r.exporter == self0.exporter, interval.ns@ >= 0 ==> r.interval.ns@ > 0,      // never zero
        r.interval == (if interval.ns@ == 0 { self0.interval } else { interval }),
//@endfn
}
fn main() {}
}

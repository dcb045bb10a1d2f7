// Unit: the periodic metric reader on an async runtime (opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs).
// `async fn` is read as `fn` and `.await` as the call returning: the worker is one task, nothing else touches its state.
use vstd::prelude::*;
verus! {
#[verifier::external_body] struct Text { _p: u8 }
enum OTelSdkError { AlreadyShutdown, Timeout(Duration), InternalFailure(Text) }
type OTelSdkResult = Result<(), OTelSdkError>;
#[verifier::external_body] fn text() -> Text { unimplemented!() }
//@gsubst OTelSdkError::InternalFailure($$m) ~> OTelSdkError::InternalFailure(text())
enum Temporality { Cumulative, Delta, LowMemory }
#[derive(Clone, Copy)] #[verifier::external_body] struct InstrumentKind { _p: u8 }
/// what the instrument kind makes of the preference (the property of Temporality, C21)
uninterp spec fn preferred(k: InstrumentKind, t: Temporality) -> Temporality;
impl InstrumentKind { #[verifier::external_body] fn temporality_preference(&self, t: Temporality) -> (r: Temporality) ensures r == preferred(*self, t) { unimplemented!() } }
#[derive(Clone, Copy)] struct Duration { ns: Ghost<int> }
impl Duration {
    #[verifier::external_body] fn from_secs(s: u64) -> (r: Duration) ensures r.ns@ == s * 1_000_000_000 { unimplemented!() }
    #[verifier::external_body] fn is_zero(&self) -> (r: bool) ensures r == (self.ns@ == 0) { unimplemented!() }
}
#[verifier::external_body] struct ScopeMetrics { _p: u8 }
#[derive(Clone, Copy)] #[verifier::external_body] struct Resource { _p: u8 }
impl Resource { #[verifier::external_body] fn empty() -> Resource { unimplemented!() } }
struct ResourceMetrics { resource: Resource, scope_metrics: Vec<ScopeMetrics> }

// ---- what the world sees of the worker ----
enum Ev { Collected(Option<ResourceMetrics>), Exported(ResourceMetrics, OTelSdkResult), Down, Answer(int, bool) }
struct World { evs: Ghost<Seq<Ev>> }
spec fn grew(a: World, b: World, e: Ev) -> bool { b.evs@ == a.evs@.push(e) }
struct Producer { id: Ghost<int> }
impl Producer {
    /// Pipeline::produce (C16-C21, C28)
    #[verifier::external_body] fn produce(&self, rm: &mut ResourceMetrics, w: &mut World) -> (r: OTelSdkResult)
        ensures grew(*old(w), *final(w), Ev::Collected(if r is Ok { Some(*final(rm)) } else { None })) { unimplemented!() }
}
#[derive(Clone, Copy)] struct WeakPipe { alive: Ghost<bool>, id: Ghost<int> }
impl WeakPipe { #[verifier::external_body] fn upgrade(&self) -> (r: Option<Producer>) ensures r is Some == self.alive@, r is Some ==> r->0.id == self.id { unimplemented!() } }
struct Exporter { t: Temporality }
struct Exporting { rm: Ghost<ResourceMetrics> }
struct Waiting { d: Ghost<Duration> }
enum Either { Left((OTelSdkResult, ())), Right(((), ())) }
impl Exporter {
    /// a future: nothing happens before it is polled
    #[verifier::external_body] fn export(&self, rm: &mut ResourceMetrics) -> (r: Exporting) ensures r.rm@ == *old(rm) { unimplemented!() }
    fn shutdown(&self, w: &mut World) -> (r: OTelSdkResult) ensures grew(*old(w), *final(w), Ev::Down), final(w).evs@.drop_last() == old(w).evs@ { let ghost e = w.evs@; let r = self.shutdown_(w); proof { assert(w.evs@.drop_last() =~= e); } r }
    #[verifier::external_body] fn shutdown_(&self, w: &mut World) -> (r: OTelSdkResult) ensures grew(*old(w), *final(w), Ev::Down) { unimplemented!() }
    #[verifier::external_body] fn temporality(&self) -> (r: Temporality) ensures r == self.t { unimplemented!() }
}
struct Runtime { _p: u8 }
impl Clone for Runtime { fn clone(&self) -> (r: Runtime) { Runtime { _p: self._p } } }
impl Runtime { fn delay(&self, d: Duration) -> (r: Waiting) ensures r.d@ == d { Waiting { d: Ghost(d) } } }
/// futures::future::select polls the first one first: the export begins in either case
#[verifier::external_body] fn select(e: Exporting, t: Waiting, w: &mut World) -> (r: Either)
    ensures match r { Either::Left(p) => grew(*old(w), *final(w), Ev::Exported(e.rm@, p.0)), Either::Right(_) => grew(*old(w), *final(w), Ev::Exported(e.rm@, Err(OTelSdkError::Timeout(t.d@)))) } { unimplemented!() }
//@gsubst pin_mut!(export); ~> 
//@gsubst pin_mut!(timeout); ~> 
//@gsubst future::select(export, timeout).await ~> select(export, timeout, w)
//@gsubst .await ~> 
//@gsubst .produce(rm) ~> .produce(rm, w)
//@gsubst exporter.shutdown() ~> exporter.shutdown(w)
//@gsubst ch.send($$r) ~> ch.send($$r, w)
/// the sending half of a oneshot channel; the receiver may be gone
struct Answer { id: Ghost<int> }
impl Answer {
    fn send(self, r: OTelSdkResult, w: &mut World) -> (o: Result<(), OTelSdkResult>) ensures grew(*old(w), *final(w), Ev::Answer(self.id@, r is Ok)),
        forall|a: Seq<Ev>, p: Option<WeakPipe>| #[trigger] round(a, old(w).evs@, p, r is Ok) ==> answered(a, final(w).evs@, p, self, r is Ok),
        old(w).evs@.len() > 0 && old(w).evs@.last() == Ev::Down ==> forall|a: Seq<Ev>, p: Option<WeakPipe>| #[trigger] round(a, old(w).evs@.drop_last(), p, r is Ok) ==> ended(a, final(w).evs@, p, self, r is Ok),
    { let ghost e = w.evs@; let o = self.send_(r, w); proof { assert(w.evs@.drop_last() =~= e); } o }
    #[verifier::external_body] fn send_(self, r: OTelSdkResult, w: &mut World) -> (o: Result<(), OTelSdkResult>) ensures grew(*old(w), *final(w), Ev::Answer(self.id@, r is Ok)) { unimplemented!() }
}
enum Message { Export, Flush(Answer), Shutdown(Answer) }

// ---- the reader ----
struct Poison { _p: u8 }
/// what starts the worker's task
struct Spawn { real: bool }
enum ProducerOrWorker { Producer(WeakPipe), Worker(Box<Spawn>) }
struct PeriodicReaderInner { message_sender: Sender, is_shutdown: bool, sdk_producer_or_worker: ProducerOrWorker }
struct Locked { v: PeriodicReaderInner, poisoned: bool }
impl Locked {
    #[verifier::external_body] fn lock(&mut self) -> (r: Result<&mut PeriodicReaderInner, Poison>)
        ensures r is Err == old(self).poisoned, final(self).poisoned == old(self).poisoned,
            match r { Ok(e) => *e == old(self).v && final(self).v == *final(e), Err(_) => final(self).v == old(self).v } { unimplemented!() }
    fn new(v: PeriodicReaderInner) -> (r: Locked) ensures r.v == v, !r.poisoned { Locked { v, poisoned: false } }
}
//@gsubst Mutex::new ~> Locked::new
//@gsubst Arc::new($$x) ~> $$x
struct PeriodicReader { exporter: Exporter, inner: Locked }
/// what a collection collects from, if there is something
spec fn source(r: PeriodicReader) -> Option<WeakPipe> { match r.inner.v.sdk_producer_or_worker { ProducerOrWorker::Producer(p) => if p.alive@ && !r.inner.v.is_shutdown && !r.inner.poisoned { Some(p) } else { None }, _ => None } }
spec fn same(a: PeriodicReader, b: PeriodicReader) -> bool { a == b }
//@gsubst let mut inner = ~> let inner =
impl PeriodicReader {
//@fn opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs impl MetricReader for PeriodicReader<E> :: fn collect
//@sig fn collect(&mut self, rm: &mut ResourceMetrics, w: &mut World) -> OTelSdkResult
//@subst .map_err(|_| $$e) ~> .map_err(|_e: Poison| $$e)
//@ret r
//@contract
    ensures *final(self) == *old(self),
        source(*old(self)) is Some ==> grew(*old(w), *final(w), Ev::Collected(if r is Ok { Some(*final(rm)) } else { None })),
        source(*old(self)) is None ==> r is Err && *final(w) == *old(w) && *final(rm) == *old(rm),
        !old(self).inner.poisoned && old(self).inner.v.is_shutdown ==> r == Err::<(), OTelSdkError>(OTelSdkError::AlreadyShutdown),
//@endfn
//@fn opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs impl MetricReader for PeriodicReader<E> :: fn temporality
//@sig fn temporality(&self, kind: InstrumentKind) -> Temporality
//@ret r
//@contract
    ensures r == preferred(kind, self.exporter.t),
//@endfn
//@fn opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs impl MetricReader for PeriodicReader<E> :: fn register_pipeline
//@sig fn register_pipeline(&mut self, pipeline: WeakPipe, started: &mut Started)
//@subst? mem::replace(w, Box::new(|_| {})) ~> take_worker(w)
//@subst worker(self) ~> started.start(worker, &*self)
//@subst Ok(guard) => guard ~> Ok(g) => g
//@contract
    ensures final(self).exporter == old(self).exporter, final(self).inner.poisoned == old(self).inner.poisoned, final(self).inner.v.is_shutdown == old(self).inner.v.is_shutdown,
        old(self).inner.poisoned ==> final(started).n@ == old(started).n@,
        !old(self).inner.poisoned ==> match old(self).inner.v.sdk_producer_or_worker {
            // the first pipeline stays, and its worker is started once
            ProducerOrWorker::Producer(p) => *final(self) == *old(self) && final(started).n@ == old(started).n@,
            ProducerOrWorker::Worker(s) => final(self).inner.v.sdk_producer_or_worker == ProducerOrWorker::Producer(pipeline) && final(started).n@ == old(started).n@ + (if s.real { 1int } else { 0 }),
        },
//@endfn
}
struct Started { n: Ghost<int> }
impl Started {
    /// a worker is started only when its reader can collect
    #[verifier::external_body] fn start(&mut self, s: Box<Spawn>, r: &PeriodicReader) requires r.inner.v.sdk_producer_or_worker is Producer ensures final(self).n@ == old(self).n@ + (if s.real { 1int } else { 0 }) { unimplemented!() }
}
fn take_worker(w: &mut Box<Spawn>) -> (r: Box<Spawn>) ensures r.real == old(w).real { let x = w.real; w.real = false; Box::new(Spawn { real: x }) }

// ---- the worker ----
/// what one collection, from the events `a`, left behind, and its result
spec fn round(a: Seq<Ev>, b: Seq<Ev>, p: Option<WeakPipe>, ok: bool) -> bool {
    if p is None { b == a && !ok } else {
        b.len() > a.len() && match b[a.len() as int] {
            Ev::Collected(None) => b == a.push(Ev::Collected(None)) && !ok,                                                          // the collection failed: nothing is exported
            Ev::Collected(Some(rm)) => if rm.scope_metrics@.len() == 0 { b == a.push(Ev::Collected(Some(rm))) && ok }               // nothing to export
                else { b.len() == a.len() + 2 && match b.last() { Ev::Exported(x, r) => x == rm && (r is Ok) == ok && b == a.push(Ev::Collected(Some(rm))).push(Ev::Exported(rm, r)), _ => false } },     // exactly what was collected, once
            _ => false,
        }
    }
}
spec fn answered(a: Seq<Ev>, b: Seq<Ev>, p: Option<WeakPipe>, c: Answer, ok: bool) -> bool { b.len() > 0 && round(a, b.drop_last(), p, ok) && b.last() == Ev::Answer(c.id@, ok) }
/// the last collection, the exporter shut down, then the answer
spec fn ended(a: Seq<Ev>, b: Seq<Ev>, p: Option<WeakPipe>, c: Answer, ok: bool) -> bool { b.len() > 1 && round(a, b.drop_last().drop_last(), p, ok) && b[b.len() - 2] == Ev::Down && b.last() == Ev::Answer(c.id@, ok) }
spec fn step(a: Seq<Ev>, b: Seq<Ev>, p: Option<WeakPipe>, m: Message) -> bool {
    match m { Message::Export => exists|ok: bool| #[trigger] round(a, b, p, ok), Message::Flush(c) => exists|ok: bool| #[trigger] answered(a, b, p, c, ok), Message::Shutdown(c) => exists|ok: bool| #[trigger] ended(a, b, p, c, ok) }
}
spec fn reached(ms: Seq<Message>, s: Seq<Ev>, p: Option<WeakPipe>) -> bool decreases ms.len() {
    if ms.len() == 0 { s.len() == 0 } else { exists|a: Seq<Ev>| reached(ms.drop_last(), a, p) && #[trigger] step(a, s, p, ms.last()) }
}
// what follows: one collection for each tick, flush and shutdown, none besides; one answer for each request
spec fn collections(s: Seq<Ev>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { collections(s.drop_last()) + (if s.last() is Collected { 1nat } else { 0 }) } }
spec fn answers(s: Seq<Ev>) -> Seq<int> decreases s.len() { if s.len() == 0 { Seq::empty() } else { match s.last() { Ev::Answer(i, _) => answers(s.drop_last()).push(i), _ => answers(s.drop_last()) } } }
spec fn requests(ms: Seq<Message>) -> Seq<int> decreases ms.len() { if ms.len() == 0 { Seq::empty() } else { match ms.last() { Message::Export => requests(ms.drop_last()), Message::Flush(c) => requests(ms.drop_last()).push(c.id@), Message::Shutdown(c) => requests(ms.drop_last()).push(c.id@) } } }
proof fn one_more(s: Seq<Ev>, e: Ev) ensures collections(s.push(e)) == collections(s) + (if e is Collected { 1nat } else { 0 }), answers(s.push(e)) == (match e { Ev::Answer(i, _) => answers(s).push(i), _ => answers(s) }) { assert(s.push(e).drop_last() =~= s); }
proof fn one_round(a: Seq<Ev>, b: Seq<Ev>, p: Option<WeakPipe>, ok: bool) requires round(a, b, p, ok) ensures collections(b) == collections(a) + (if p is Some { 1nat } else { 0 }), answers(b) == answers(a)
{
    if p is Some {
        let e = b[a.len() as int];
        one_more(a, e);
        if b.len() == a.len() + 2 { one_more(a.push(e), b.last()); }
    }
}
proof fn one_collection_each(ms: Seq<Message>, s: Seq<Ev>, p: Option<WeakPipe>) requires reached(ms, s, p) ensures p is Some ==> collections(s) == ms.len(), answers(s) == requests(ms) decreases ms.len()
{
    if ms.len() > 0 {
        let a = choose|a: Seq<Ev>| reached(ms.drop_last(), a, p) && #[trigger] step(a, s, p, ms.last());
        one_collection_each(ms.drop_last(), a, p);
        match ms.last() {
            Message::Export => { let ok = choose|ok: bool| #[trigger] round(a, s, p, ok); one_round(a, s, p, ok); }
            Message::Flush(c) => { let ok = choose|ok: bool| #[trigger] answered(a, s, p, c, ok); one_round(a, s.drop_last(), p, ok); one_more(s.drop_last(), s.last()); assert(s =~= s.drop_last().push(s.last())); }
            Message::Shutdown(c) => { let ok = choose|ok: bool| #[trigger] ended(a, s, p, c, ok); let t = s.drop_last(); one_round(a, t.drop_last(), p, ok); one_more(t.drop_last(), t.last()); assert(t =~= t.drop_last().push(t.last())); one_more(t, s.last()); assert(s =~= t.push(s.last())); }
        }
    }
}
struct Messages { all: Ghost<Seq<Message>>, at: Ghost<nat> }
impl Messages {
    spec fn wf(&self) -> bool { self.at@ <= self.all@.len() }
    spec fn done(&self) -> Seq<Message> { self.all@.take(self.at@ as int) }
    #[verifier::external_body] fn next_(&mut self) -> (r: Option<Message>) requires old(self).wf()
        ensures final(self).wf(), final(self).all == old(self).all, match r { Some(m) => old(self).at@ < old(self).all@.len() && final(self).at@ == old(self).at@ + 1 && m == old(self).all@[old(self).at@ as int], None => *final(self) == *old(self) && old(self).at@ == old(self).all@.len() } { unimplemented!() }
    fn next(&mut self) -> (r: Option<Message>) requires old(self).wf()
        ensures final(self).wf(), final(self).all == old(self).all, match r { Some(m) => final(self).done().len() > 0 && final(self).done().drop_last() == old(self).done() && final(self).done().last() == m, None => *final(self) == *old(self) && old(self).at@ == old(self).all@.len() }
    { let ghost d = self.done(); let r = self.next_(); proof { if r is Some { assert(self.done().drop_last() =~= d); } } r }
}
struct PeriodicReaderWorker { reader: PeriodicReader, timeout: Duration, runtime: Runtime, rm: ResourceMetrics }
//@gsubst self.reader.collect(&mut self.rm) ~> self.reader.collect(&mut self.rm, w)
//@gsubst self.collect_and_export() ~> self.collect_and_export(w)
//@gsubst self.process_message(message) ~> self.process_message(message, w)
//@gsubst .map_err(|e| $$e) ~> .map_err(|_e| $$e)
impl PeriodicReaderWorker {
    spec fn same(&self, o: Self) -> bool { self.reader == o.reader && self.timeout == o.timeout }
//@fn opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs impl PeriodicReaderWorker<E, RT> :: fn collect_and_export
//@sig fn collect_and_export(&mut self, w: &mut World) -> OTelSdkResult
//@ret r
//@contract
    ensures final(self).same(*old(self)), round(old(w).evs@, final(w).evs@, source(old(self).reader), r is Ok),
        // the result is the exporter's, or that the time it may take is over
        final(w).evs@.len() > old(w).evs@.len() ==> match final(w).evs@.last() { Ev::Exported(_, x) => r == x, _ => true },
//@endfn
//@fn opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs impl PeriodicReaderWorker<E, RT> :: fn process_message
//@sig fn process_message(&mut self, message: Message, w: &mut World) -> bool
//@ret r
//@contract
    ensures final(self).same(*old(self)), r == !(message is Shutdown), step(old(w).evs@, final(w).evs@, source(old(self).reader), message),
//@endfn
//@fn opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs impl PeriodicReaderWorker<E, RT> :: fn run
//@sig #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] fn run(&mut self, messages: &mut Messages, w: &mut World)
//@contract
    requires old(messages).wf(), old(messages).at@ == 0, old(w).evs@.len() == 0,
    ensures reached(final(messages).done(), final(w).evs@, source(old(self).reader)), final(messages).all == old(messages).all,
        final(messages).at@ == old(messages).all@.len() || final(messages).done().last() is Shutdown,
//@loop 0
    invariant messages.wf(), messages.all == old(messages).all, self.reader == old(self).reader, reached(messages.done(), w.evs@, source(old(self).reader)),
    ensures reached(messages.done(), w.evs@, source(old(self).reader)), messages.at@ == old(messages).all@.len() || messages.done().last() is Shutdown,
//@endfn
}

// ---- the caller's side ----
struct Sent { got: Ghost<Seq<Message>>, ids: Ghost<int> }
#[derive(Clone, Copy)] struct Sender { cap: Ghost<int> }
struct SendError { _p: u8 }
impl Sender {
    #[verifier::external_body] fn try_send(&self, m: Message, q: &mut Sent) -> (r: Result<(), SendError>)
        ensures final(q).ids == old(q).ids, match r { Ok(_) => final(q).got@ == old(q).got@.push(m), Err(_) => final(q).got == old(q).got } { unimplemented!() }
}
struct Waiter { id: Ghost<int> }
struct Canceled { _p: u8 }
/// what the worker answers, if it does
uninterp spec fn reply(id: int) -> Option<OTelSdkResult>;
#[verifier::external_body] fn block_on(x: Waiter) -> (r: Result<OTelSdkResult, Canceled>) ensures match reply(x.id@) { Some(a) => r == Ok::<OTelSdkResult, Canceled>(a), None => r is Err } { unimplemented!() }
#[verifier::external_body] fn oneshot_channel(q: &mut Sent) -> (r: (Answer, Waiter)) ensures r.0.id == r.1.id, r.0.id@ == old(q).ids@, final(q).ids@ == old(q).ids@ + 1, final(q).got == old(q).got { unimplemented!() }
trait Flat { fn flattened(self) -> OTelSdkResult; }
impl Flat for Result<OTelSdkResult, OTelSdkError> { fn flattened(self) -> (r: OTelSdkResult) ensures r == (match self { Ok(x) => x, Err(e) => Err(e) }) { match self { Ok(x) => x, Err(e) => Err(e) } } }
//@gsubst .and_then(std::convert::identity) ~> .flattened()
//@gsubst .and_then(|res| res) ~> .flattened()
//@gsubst futures_executor::block_on ~> block_on
//@gsubst oneshot::channel() ~> oneshot_channel(q)
//@gsubst .try_send($$m) ~> .try_send($$m, q)
//@gsubst drop(inner); ~> 
/// asked for with one message, and what the worker answered is what the caller gets; only a request that could not be sent, or one never answered, fails by itself
spec fn asked(q0: Sent, q1: Sent, m: Message, r: OTelSdkResult) -> bool {
    (q1.got@ == q0.got@.push(m) && (match reply(q0.ids@) { Some(a) => r == a, None => r is Err })) || (q1.got@ == q0.got@ && r is Err)
}
impl PeriodicReader {
//@fn opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs impl MetricReader for PeriodicReader<E> :: fn force_flush
//@sig fn force_flush(&mut self, q: &mut Sent) -> OTelSdkResult
//@ret r
//@contract
    ensures *final(self) == *old(self),
        !old(self).inner.poisoned && old(self).inner.v.is_shutdown ==> *final(q) == *old(q) && r == Err::<(), OTelSdkError>(OTelSdkError::AlreadyShutdown),
        !old(self).inner.poisoned && !old(self).inner.v.is_shutdown ==> asked(*old(q), *final(q), Message::Flush(Answer { id: old(q).ids }), r),
        old(self).inner.poisoned ==> r is Err,
//@endfn
//@fn opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs impl MetricReader for PeriodicReader<E> :: fn shutdown_with_timeout
//@sig fn shutdown_with_timeout(&mut self, _timeout: Duration, q: &mut Sent) -> OTelSdkResult
//@ret r
//@contract
    ensures !old(self).inner.poisoned && old(self).inner.v.is_shutdown ==> *final(q) == *old(q) && *final(self) == *old(self) && r == Err::<(), OTelSdkError>(OTelSdkError::AlreadyShutdown),
        !old(self).inner.poisoned && !old(self).inner.v.is_shutdown ==> asked(*old(q), *final(q), Message::Shutdown(Answer { id: old(q).ids }), r),
        // once the worker has answered, the reader stays shut down
        !old(self).inner.poisoned && final(q).got@ != old(q).got@ && reply(old(q).ids@) is Some ==> final(self).inner.v.is_shutdown,
        r is Ok ==> final(self).inner.v.is_shutdown, final(self).exporter == old(self).exporter, final(self).inner.v.sdk_producer_or_worker == old(self).inner.v.sdk_producer_or_worker,
//@endfn
}

// ---- the builder ----
//@fn opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs const DEFAULT_INTERVAL
//@sig fn default_interval() -> Duration
//@ret r
//@contract
    ensures r.ns@ == 60_000_000_000,
//@endfn
//@fn opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs const DEFAULT_TIMEOUT
//@sig fn default_timeout() -> Duration
//@ret r
//@contract
    ensures r.ns@ == 30_000_000_000,
//@endfn
//@gsubst DEFAULT_INTERVAL ~> default_interval()
//@gsubst DEFAULT_TIMEOUT ~> default_timeout()
//@fn opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs const METRIC_EXPORT_INTERVAL_NAME
//@sig fn interval_name() -> (r: &'static str)
//@contract
    ensures r@ == "OTEL_METRIC_EXPORT_INTERVAL"@,
//@endfn
//@fn opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs const METRIC_EXPORT_TIMEOUT_NAME
//@sig fn timeout_name() -> (r: &'static str)
//@contract
    ensures r@ == "OTEL_METRIC_EXPORT_TIMEOUT"@,
//@endfn
//@gsubst METRIC_EXPORT_INTERVAL_NAME ~> interval_name()
//@gsubst METRIC_EXPORT_TIMEOUT_NAME ~> timeout_name()
/// the variable, if it is set to a number of milliseconds
uninterp spec fn env_duration(n: Seq<char>) -> Option<Duration>;
#[verifier::external_body] fn env_millis(n: &str) -> (r: Option<Duration>) ensures r == env_duration(n@), r is Some ==> r->0.ns@ >= 0 { unimplemented!() }
spec fn nonzero_of(o: Option<Duration>) -> Option<Duration> { match o { Some(d) => if d.ns@ == 0 { None } else { Some(d) }, None => None } }
fn nonzero(o: Option<Duration>) -> (r: Option<Duration>) ensures r == nonzero_of(o) { match o { Some(d) => if d.is_zero() { None } else { Some(d) }, None => None } }
struct PeriodicReaderBuilder { interval: Duration, timeout: Duration, exporter: Exporter, runtime: Runtime }
impl PeriodicReaderBuilder {
//@fn opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs impl PeriodicReaderBuilder<E, RT> :: fn new
//@sig fn new(exporter: Exporter, runtime: Runtime) -> PeriodicReaderBuilder
//@subst? env::var($n()).ok().and_then(|v| v.parse().map(Duration::from_millis).ok()).filter(|$i: &Duration| !$i.is_zero()) ~> nonzero(env_millis($n()))
//@subst? env::var($n()).ok().and_then(|v| v.parse().map(Duration::from_millis).ok()) ~> env_millis($n())
//@ret r
//@contract
    ensures r.exporter == exporter,
        r.interval == (match nonzero_of(env_duration("OTEL_METRIC_EXPORT_INTERVAL"@)) { Some(d) => d, None => r.interval }), nonzero_of(env_duration("OTEL_METRIC_EXPORT_INTERVAL"@)) is None ==> r.interval.ns@ == 60_000_000_000,
        r.timeout == (match nonzero_of(env_duration("OTEL_METRIC_EXPORT_TIMEOUT"@)) { Some(d) => d, None => r.timeout }), nonzero_of(env_duration("OTEL_METRIC_EXPORT_TIMEOUT"@)) is None ==> r.timeout.ns@ == 30_000_000_000,
//@endfn
//@fn opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs impl PeriodicReaderBuilder<E, RT> :: fn with_interval
//@sig fn with_interval(self0: Self, interval: Duration) -> Self
//@subst self ~> slf
//@start
        let mut slf = self0;
//@ret r
//@contract
    ensures r == (PeriodicReaderBuilder { interval: if interval.ns@ == 0 { self0.interval } else { interval }, ..self0 }),
//@endfn
//@fn opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs impl PeriodicReaderBuilder<E, RT> :: fn with_timeout
//@sig fn with_timeout(self0: Self, timeout: Duration) -> Self
//@subst self ~> slf
//@start
        let mut slf = self0;
//@ret r
//@contract
    ensures r == (PeriodicReaderBuilder { timeout: if timeout.ns@ == 0 { self0.timeout } else { timeout }, ..self0 }),
//@endfn
//@fn opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs impl PeriodicReaderBuilder<E, RT> :: fn build
//@sig fn build(self) -> PeriodicReader
//@subst let worker = move |reader: &PeriodicReader<E>| { $$b }; ~> let worker = Spawn { real: true };
//@subst mpsc::channel($$n) ~> message_channel()
//@ret r
//@contract
    ensures r.exporter == self.exporter, !r.inner.poisoned, !r.inner.v.is_shutdown, match r.inner.v.sdk_producer_or_worker { ProducerOrWorker::Worker(s) => s.real, _ => false },
//@endfn
}
struct Receiver { _p: u8 }
#[verifier::external_body] fn message_channel() -> (Sender, Receiver) { unimplemented!() }
struct Ticker { every: Ghost<Duration>, missing: Ghost<nat> }
impl Ticker {
    fn skip(self, n: usize) -> (r: Ticker) ensures r.every == self.every, r.missing@ == self.missing@ + n { Ticker { every: self.every, missing: Ghost((self.missing@ + n) as nat) } }
    fn exports(self) -> (r: Ticker) ensures r == self { self }
}
fn to_interval_stream(rt: Runtime, d: Duration) -> (r: Ticker) ensures r.every@ == d, r.missing@ == 0 { Ticker { every: Ghost(d), missing: Ghost(0) } }
//@gsubst .map(|_| Message::Export) ~> .exports()
/// the messages sent and the ticks; the worker must be given every tick, at the configured interval
#[verifier::external_body] fn both(rx: Receiver, t: Ticker, d: Ghost<Duration>) -> (r: Messages) requires t.every@ == d@, t.missing@ == 0 ensures r.wf(), r.at@ == 0 { unimplemented!() }
impl PeriodicReaderWorker {
    fn run_with(self, messages: Messages, t: Ghost<Duration>, w: &mut World) requires self.timeout == t@, messages.wf(), messages.at@ == 0, old(w).evs@.len() == 0
        ensures exists|ms: Seq<Message>| #[trigger] reached(ms, final(w).evs@, source(self.reader))
    { let mut m = messages; let mut s = self; s.run(&mut m, w); }
}
/// the worker as it is spawned
//@fn opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs impl PeriodicReaderBuilder<E, RT> :: fn build
//@region let ticker ~> 
//@sig fn worker(slf: PeriodicReaderBuilder, reader: PeriodicReader, runtime: Runtime, message_receiver: Receiver, w: &mut World)
//@subst self ~> slf
//@subst Box::pin(stream::select($$a)) ~> both($$a, Ghost(slf.interval))
//@subst .run(messages) ~> .run_with(messages, Ghost(slf.timeout), w)
//@contract
    requires old(w).evs@.len() == 0,
    ensures exists|ms: Seq<Message>| #[trigger] reached(ms, final(w).evs@, source(reader)),
//@endfn
} // verus!
fn main() {}

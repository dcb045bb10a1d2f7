// Unit: emitting a log record (opentelemetry-sdk/src/logs/logger.rs, record.rs).
use vstd::prelude::*;
verus! {

#[verifier::external_body] struct Key { _p: u8 }
#[verifier::external_body] struct AnyValue { _p: u8 }
#[verifier::external_body] struct Name { _p: u8 }
#[derive(Clone, Copy)] #[verifier::external_body] struct Severity { _p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct SystemTime { _p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct SpanId { _p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct TraceId { _p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct TraceFlags { _p: u8 }
#[verifier::external_body] struct LogRecordAttributes { _p: u8 }
#[verifier::external_body] struct InstrumentationScope { _p: u8 }
#[verifier::external_body] struct LogProcessor { _p: u8 }
#[verifier::external_body] struct SpanContext { _p: u8 }
#[verifier::external_body] fn now() -> SystemTime { unimplemented!() }
//@gsubst Cow<'static, str> ~> Name
impl LogRecordAttributes {
    uninterp spec fn items(&self) -> Seq<Option<(Key, AnyValue)>>;
    // contracts discharged in growable_array.rs
    #[verifier::external_body] fn push(&mut self, x: Option<(Key, AnyValue)>) ensures final(self).items() == old(self).items().push(x) { unimplemented!() }
    #[verifier::external_body] fn default() -> (r: LogRecordAttributes) ensures r.items() == Seq::<Option<(Key, AnyValue)>>::empty() { unimplemented!() }
}
impl SpanContext {
    uninterp spec fn t(&self) -> TraceId;
    uninterp spec fn s(&self) -> SpanId;
    uninterp spec fn f(&self) -> TraceFlags;
    #[verifier::external_body] fn trace_id(&self) -> (r: TraceId) ensures r == self.t() { unimplemented!() }
    #[verifier::external_body] fn span_id(&self) -> (r: SpanId) ensures r == self.s() { unimplemented!() }
    #[verifier::external_body] fn trace_flags(&self) -> (r: TraceFlags) ensures r == self.f() { unimplemented!() }
}
#[verifier::external_body] struct Context { _p: u8 }
struct SpanRef<'a>(&'a SpanContext);
impl<'a> SpanRef<'a> { fn span_context(&self) -> (r: &'a SpanContext) ensures r == self.0 { self.0 } }
impl Context {
    uninterp spec fn suppressed(&self) -> bool;
    uninterp spec fn active(&self) -> Option<SpanContext>;
    #[verifier::external_body] fn is_telemetry_suppressed(&self) -> (r: bool) ensures r == self.suppressed() { unimplemented!() }
    #[verifier::external_body] fn has_active_span(&self) -> (r: bool) ensures r == self.active().is_some() { unimplemented!() }
    #[verifier::external_body] fn span(&self) -> (r: SpanRef<'_>) ensures self.active().is_some() ==> *r.0 == self.active()->0 { unimplemented!() }
}

//@item opentelemetry-sdk/src/logs/record.rs struct SdkLogRecord
//@item opentelemetry-sdk/src/logs/record.rs struct TraceContext

impl TraceContext {
//@fn opentelemetry-sdk/src/logs/record.rs impl From<&SpanContext> for TraceContext :: fn from
//@ret r
//@contract
    ensures r.trace_id == span_context.t(), r.span_id == span_context.s(), r.trace_flags == Some(span_context.f()),
//@endfn
}

impl SdkLogRecord {
//@fn opentelemetry-sdk/src/logs/record.rs impl SdkLogRecord :: fn new
//@ret r
//@contract
    ensures r.event_name.is_none(), r.target.is_none(), r.timestamp.is_none(), r.observed_timestamp.is_none(), r.trace_context.is_none(),
        r.severity_text.is_none(), r.severity_number.is_none(), r.body.is_none(), r.attributes.items().len() == 0,
//@endfn
//@fn opentelemetry-sdk/src/logs/record.rs impl opentelemetry::logs::LogRecord for SdkLogRecord :: fn set_event_name
//@contract
    ensures *final(self) == (SdkLogRecord { event_name: Some(name), ..*old(self) }),
//@endfn
//@fn opentelemetry-sdk/src/logs/record.rs impl opentelemetry::logs::LogRecord for SdkLogRecord :: fn set_target
//@subst fn set_target<T>(&mut self, _target: T) where T: Into<Name>, ~> fn set_target(&mut self, _target: Name)
//@subst _target.into() ~> _target
//@contract
    ensures *final(self) == (SdkLogRecord { target: Some(_target), ..*old(self) }),
//@endfn
//@fn opentelemetry-sdk/src/logs/record.rs impl opentelemetry::logs::LogRecord for SdkLogRecord :: fn set_timestamp
//@contract
    ensures *final(self) == (SdkLogRecord { timestamp: Some(timestamp), ..*old(self) }),
//@endfn
//@fn opentelemetry-sdk/src/logs/record.rs impl opentelemetry::logs::LogRecord for SdkLogRecord :: fn set_observed_timestamp
//@contract
    ensures *final(self) == (SdkLogRecord { observed_timestamp: Some(timestamp), ..*old(self) }),
//@endfn
//@fn opentelemetry-sdk/src/logs/record.rs impl opentelemetry::logs::LogRecord for SdkLogRecord :: fn set_severity_text
//@contract
    ensures *final(self) == (SdkLogRecord { severity_text: Some(severity_text), ..*old(self) }),
//@endfn
//@fn opentelemetry-sdk/src/logs/record.rs impl opentelemetry::logs::LogRecord for SdkLogRecord :: fn set_severity_number
//@contract
    ensures *final(self) == (SdkLogRecord { severity_number: Some(severity_number), ..*old(self) }),
//@endfn
//@fn opentelemetry-sdk/src/logs/record.rs impl opentelemetry::logs::LogRecord for SdkLogRecord :: fn set_body
//@contract
    ensures *final(self) == (SdkLogRecord { body: Some(body), ..*old(self) }),
//@endfn
//@fn opentelemetry-sdk/src/logs/record.rs impl opentelemetry::logs::LogRecord for SdkLogRecord :: fn add_attribute
//@subst fn add_attribute<K, V>(&mut self, key: K, value: V) where K: Into<Key>, V: Into<AnyValue>, ~> fn add_attribute(&mut self, key: Key, value: AnyValue)
//@subst key.into() ~> key
//@subst value.into() ~> value
//@contract
    ensures *final(self) == (SdkLogRecord { attributes: final(self).attributes, ..*old(self) }),
        final(self).attributes.items() == old(self).attributes.items().push(Some((key, value))),
//@endfn
//@fn opentelemetry-sdk/src/logs/record.rs impl opentelemetry::logs::LogRecord for SdkLogRecord :: fn add_attributes
//@subst fn add_attributes<I, K, V>(&mut self, attributes: I) where I: IntoIterator<Item = (K, V)>, K: Into<Key>, V: Into<AnyValue>, ~> fn add_attributes(&mut self, attributes: Vec<(Key, AnyValue)>)
//@contract
    ensures *final(self) == (SdkLogRecord { attributes: final(self).attributes, ..*old(self) }),
        final(self).attributes.items() =~= old(self).attributes.items() + attributes@.map_values(|kv: (Key, AnyValue)| Some(kv)),
//@loop 0 it
        invariant
            it.seq() == attributes@,
            *self == (SdkLogRecord { attributes: self.attributes, ..*old(self) }),
            self.attributes.items() =~= old(self).attributes.items() + attributes@.take(it.index@).map_values(|kv: (Key, AnyValue)| Some(kv)),
//@endfn
//@fn opentelemetry-sdk/src/logs/record.rs impl opentelemetry::logs::LogRecord for SdkLogRecord :: fn set_trace_context
//@contract
    ensures *final(self) == (SdkLogRecord { trace_context: Some(TraceContext { trace_id, span_id, trace_flags }), ..*old(self) }),
//@endfn
}

// ---- emission
/// record of deliveries: the processor, what it was shown, and for which scope
struct Log { g: Ghost<Seq<(LogProcessor, SdkLogRecord, InstrumentationScope)>> }
/// a processor may rewrite the record it is shown
uninterp spec fn rewrote(p: LogProcessor, before: SdkLogRecord, after: SdkLogRecord) -> bool;
impl LogProcessor {
    #[verifier::external_body]
    fn emit(&self, log: &mut Log, record: &mut SdkLogRecord, scope: &InstrumentationScope)
        ensures final(log).g@ == old(log).g@.push((*self, *old(record), *scope)), rewrote(*self, *old(record), *final(record))
    { unimplemented!() }
}
struct SdkLoggerProvider { procs: Vec<LogProcessor> }
impl SdkLoggerProvider { fn log_processors(&self) -> (r: &[LogProcessor]) ensures r@ == self.procs@ { self.procs.as_slice() } }
struct SdkLogger { scope: InstrumentationScope, provider: SdkLoggerProvider }

/// what the first processor sees: the record as given, with trace context and observed time filled in only where absent
spec fn stamped(given: SdkLogRecord, seen: SdkLogRecord, cx: Context) -> bool {
    &&& seen == (SdkLogRecord { trace_context: seen.trace_context, observed_timestamp: seen.observed_timestamp, ..given })
    &&& given.trace_context.is_some() ==> seen.trace_context == given.trace_context
    &&& given.trace_context.is_none() && cx.active().is_none() ==> seen.trace_context.is_none()
    &&& given.trace_context.is_none() && cx.active().is_some() ==> seen.trace_context ==
            Some(TraceContext { trace_id: cx.active()->0.t(), span_id: cx.active()->0.s(), trace_flags: Some(cx.active()->0.f()) })
    &&& given.observed_timestamp.is_some() ==> seen.observed_timestamp == given.observed_timestamp
    &&& seen.observed_timestamp.is_some()
}

impl SdkLogger {
//@fn opentelemetry-sdk/src/logs/logger.rs impl opentelemetry::logs::Logger for SdkLogger :: fn emit
//@subst fn emit(&self, mut record: Self::LogRecord) ~> fn emit(&self, given: SdkLogRecord, current: &Context, log: &mut Log)
//@subst Context::is_current_telemetry_suppressed() ~> current.is_telemetry_suppressed()
//@subst Context::map_current(|cx| { $$b }); ~> { let cx = current; $$b }
//@subst cx.has_active_span().then(|| { $$b }) ~> if cx.has_active_span() { $$b }
//@subst p.emit( ~> p.emit(log,
//@contract
    ensures
        current.suppressed() ==> final(log).g@ == old(log).g@,
        !current.suppressed() ==> ({
            let n = self.provider.procs@.len() as int;
            let m = old(log).g@.len() as int;
            let g = final(log).g@;
            // every processor, in order, exactly once, for this logger's scope
            &&& final(log).g@.len() == old(log).g@.len() + n
            &&& final(log).g@.take(old(log).g@.len() as int) =~= old(log).g@
            &&& forall|i: int| 0 <= i < n ==> (#[trigger] g[m + i]).0 == self.provider.procs@[i] && g[m + i].2 == self.scope
            &&& n > 0 ==> stamped(given, g[m].1, *current)
            // and each sees what the previous one left
            &&& forall|i: int| 0 < i < n ==> rewrote(self.provider.procs@[i - 1], g[m + i - 1].1, (#[trigger] g[m + i]).1)
        }),
//@loop 0 it
        invariant
            it.seq().len() == self.provider.procs@.len(),
            forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.provider.procs@[i],
            log.g@.len() == old(log).g@.len() + it.index@,
            log.g@.take(old(log).g@.len() as int) =~= old(log).g@,
            forall|i: int| 0 <= i < it.index@ ==> (#[trigger] log.g@[old(log).g@.len() + i]).0 == self.provider.procs@[i] && log.g@[old(log).g@.len() + i].2 == self.scope,
            it.index@ == 0 ==> record == first,
            it.index@ > 0 ==> log.g@[old(log).g@.len() as int].1 == first,
            it.index@ > 0 ==> rewrote(self.provider.procs@[it.index@ - 1], log.g@[old(log).g@.len() + it.index@ - 1].1, record),
            forall|i: int| 0 < i < it.index@ ==> rewrote(self.provider.procs@[i - 1], log.g@[old(log).g@.len() + i - 1].1, (#[trigger] log.g@[old(log).g@.len() + i]).1),
            stamped(given, first, *current),
//@start
    let mut record = given;
//@beforeloop 0
    let ghost first = record;
//@endfn
}

// ---- is an event wanted? ----
uninterp spec fn wants(p: LogProcessor, level: Severity, target: Seq<char>, name: Option<&str>) -> bool;
impl LogProcessor { #[verifier::external_body] fn event_enabled(&self, level: Severity, target: &str, name: Option<&str>) -> (r: bool) ensures r == wants(*self, level, target@, name) { unimplemented!() } }
/// Iterator::any / Iterator::all over the processors
fn any_wants(ps: &[LogProcessor], level: Severity, target: &str, name: Option<&str>) -> (r: bool) ensures r == exists|i: int| 0 <= i < ps@.len() && #[trigger] wants(ps@[i], level, target@, name) {
    let mut k: usize = 0;
    while k < ps.len() invariant k <= ps@.len(), forall|i: int| 0 <= i < k ==> !#[trigger] wants(ps@[i], level, target@, name) decreases ps@.len() - k
    { if ps[k].event_enabled(level, target, name) { return true; } k = k + 1; }
    false
}
fn all_want(ps: &[LogProcessor], level: Severity, target: &str, name: Option<&str>) -> (r: bool) ensures r == forall|i: int| 0 <= i < ps@.len() ==> #[trigger] wants(ps@[i], level, target@, name) {
    let mut k: usize = 0;
    while k < ps.len() invariant k <= ps@.len(), forall|i: int| 0 <= i < k ==> #[trigger] wants(ps@[i], level, target@, name) decreases ps@.len() - k
    { if !ps[k].event_enabled(level, target, name) { return false; } k = k + 1; }
    true
}
spec fn wanted(ps: Seq<LogProcessor>, level: Severity, target: Seq<char>, name: Option<&str>) -> bool { exists|i: int| 0 <= i < ps.len() && #[trigger] wants(ps[i], level, target, name) }
impl SdkLogger {
//@fn opentelemetry-sdk/src/logs/logger.rs impl opentelemetry::logs::Logger for SdkLogger :: fn event_enabled
//@sig fn event_enabled(&self, level: Severity, target: &str, name: Option<&str>, current: &Context) -> bool
//@subst Context::is_current_telemetry_suppressed() ~> current.is_telemetry_suppressed()
//@subst? self.provider.log_processors().iter().any(|$p| $q.event_enabled($$a)) ~> any_wants(self.provider.log_processors(), $$a)
//@subst? self.provider.log_processors().iter().all(|$p| $q.event_enabled($$a)) ~> all_want(self.provider.log_processors(), $$a)
//@ret r
//@contract
    // an event is enabled exactly if some processor wants it (and telemetry is not suppressed)
    ensures r == (!current.suppressed() && wanted(self.provider.procs@, level, target@, name)),
//@endfn
}
/// the simple processor asks its exporter; a poisoned lock hides nothing
#[verifier::external_body] struct Exporter { _p: u8 }
uninterp spec fn exporter_wants(e: Exporter, level: Severity, target: Seq<char>, name: Option<&str>) -> bool;
impl Exporter { #[verifier::external_body] fn event_enabled(&self, level: Severity, target: &str, name: Option<&str>) -> (r: bool) ensures r == exporter_wants(*self, level, target@, name) { unimplemented!() } }
struct Poison { _p: u8 }
struct Locked { e: Exporter, poisoned: bool }
impl Locked { #[verifier::external_body] fn lock(&self) -> (r: Result<&Exporter, Poison>) ensures r is Err == self.poisoned, r is Ok ==> *r->Ok_0 == self.e { unimplemented!() } }
struct SimpleLogProcessor { exporter: Locked }
impl SimpleLogProcessor {
//@fn opentelemetry-sdk/src/logs/simple_log_processor.rs impl LogProcessor for SimpleLogProcessor<T> :: fn event_enabled
//@sig fn event_enabled(&self, level: Severity, target: &str, name: Option<&str>) -> bool
//@ret r
//@contract
    ensures r == (self.exporter.poisoned || exporter_wants(self.exporter.e, level, target@, name)),
//@endfn
}

} // verus!
fn main() {}

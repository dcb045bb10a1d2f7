// Unit: the exporters that print (opentelemetry-stdout/src/{trace,logs,metrics}/exporter.rs). What is printed is a log of lines: a format
// and what stands in its places. Loops over enumerate and for_each are written as loops over indices.
use vstd::prelude::*;
verus! {
pub struct Line { pub form: Seq<char>, pub of: int }
struct Out { lines: Ghost<Seq<Line>> }
uninterp spec fn look<T>(t: T) -> int;
#[verifier::external_body] fn shown<T>(t: T) -> (r: Ghost<int>) ensures r@ == look(t) { unimplemented!() }
spec fn say<T>(l: Seq<Line>, form: Seq<char>, t: T) -> Seq<Line> { l.push(Line { form, of: look(t) }) }
spec fn tell(l: Seq<Line>, form: Seq<char>) -> Seq<Line> { l.push(Line { form, of: 0 }) }
impl Out {
    spec fn l(&self) -> Seq<Line> { self.lines@ }
    #[verifier::external_body] fn tell(&mut self, form: &'static str) ensures final(self).l() == tell(old(self).l(), form@) { unimplemented!() }
    #[verifier::external_body] fn say(&mut self, form: &'static str, of: Ghost<int>) ensures final(self).l() == old(self).l().push(Line { form: form@, of: of@ }) { unimplemented!() }
}
#[verifier::external_body] struct Flag { x: bool }
uninterp spec fn up(f: Flag) -> bool;
impl Flag {
    #[verifier::external_body] fn is(b: bool) -> (r: Flag) ensures up(r) == b { unimplemented!() }
    #[verifier::external_body] fn load(&self) -> (r: bool) ensures r == up(*self) { unimplemented!() }
    #[verifier::external_body] fn store(&mut self, b: bool) ensures up(*final(self)) == b { unimplemented!() }
    #[verifier::external_body] fn swap(&mut self, b: bool) -> (r: bool) ensures up(*final(self)) == b, r == up(*old(self)) { unimplemented!() }
    #[verifier::external_body] fn compare_exchange(&mut self, a: bool, b: bool) -> (r: Result<bool, bool>)
        ensures r is Ok == (up(*old(self)) == a), up(*final(self)) == (if up(*old(self)) == a { b } else { up(*old(self)) }) { unimplemented!() }
}
enum OTelSdkError { AlreadyShutdown }
type OTelSdkResult = Result<(), OTelSdkError>;
#[verifier::external_body] struct Duration { x: u64 }
impl Duration { #[verifier::external_body] fn from_secs(n: u64) -> Duration { unimplemented!() } }
// ---- the parts of what is printed ----
#[verifier::external_body] struct Text { x: u64 }
#[verifier::external_body] struct Key { x: u64 }
#[verifier::external_body] struct Value { x: u64 }
uninterp spec fn in_words(v: Value) -> Text;
impl Value { #[verifier::external_body] fn as_str(&self) -> (r: Text) ensures r == in_words(*self) { unimplemented!() } }
struct KeyValue { key: Key, value: Value }
#[verifier::external_body] struct AnyValue { x: u64 }
#[verifier::external_body] struct TraceId { x: u64 }
#[verifier::external_body] struct SpanId { x: u64 }
#[verifier::external_body] #[derive(Clone, Copy)] struct TraceFlags { x: u64 }
#[verifier::external_body] struct SpanKind { x: u64 }
#[verifier::external_body] struct Status { x: u64 }
#[verifier::external_body] #[derive(Clone, Copy)] struct SystemTime { x: u64 }
#[verifier::external_body] struct Written { x: u64 }
uninterp spec fn written(t: SystemTime, form: Seq<char>) -> Written;
struct DateTime { t: SystemTime }
impl DateTime {
    fn of(t: SystemTime) -> (r: DateTime) ensures r.t == t { DateTime { t } }
    #[verifier::external_body] fn format(&self, form: &'static str) -> (r: Written) ensures r == written(self.t, form@) { unimplemented!() }
}
spec fn clock(t: SystemTime) -> Written { written(t, "%Y-%m-%d %H:%M:%S%.6f"@) }
#[verifier::external_body] struct SpanContext { x: u64 }
uninterp spec fn tid(c: SpanContext) -> TraceId;
uninterp spec fn sid(c: SpanContext) -> SpanId;
uninterp spec fn flg(c: SpanContext) -> TraceFlags;
impl SpanContext {
    #[verifier::external_body] fn trace_id(&self) -> (r: TraceId) ensures r == tid(*self) { unimplemented!() }
    #[verifier::external_body] fn span_id(&self) -> (r: SpanId) ensures r == sid(*self) { unimplemented!() }
    #[verifier::external_body] fn trace_flags(&self) -> (r: TraceFlags) ensures r == flg(*self) { unimplemented!() }
}
#[verifier::external_body] struct Resource { x: u64 }
uninterp spec fn resource_attrs(r: Resource) -> Seq<(Key, Value)>;
uninterp spec fn resource_schema(r: Resource) -> Option<Text>;
uninterp spec fn detected() -> Resource;
#[verifier::external_body] fn detected_resource() -> (r: Resource) ensures r == detected() { unimplemented!() }
impl Resource {
    #[verifier::external_body] fn schema_url(&self) -> (r: Option<&Text>) ensures match r { Some(t) => resource_schema(*self) == Some(*t), None => resource_schema(*self) is None } { unimplemented!() }
    #[verifier::external_body] fn list(&self) -> (r: Vec<(Key, Value)>) ensures r@ == resource_attrs(*self) { unimplemented!() }
    #[verifier::external_body] fn clone(&self) -> (r: Resource) ensures r == *self { unimplemented!() }
}
#[verifier::external_body] struct InstrumentationScope { x: u64 }
uninterp spec fn scope_name(s: InstrumentationScope) -> Text;
uninterp spec fn scope_version(s: InstrumentationScope) -> Option<Text>;
uninterp spec fn scope_schema(s: InstrumentationScope) -> Option<Text>;
uninterp spec fn scope_attrs(s: InstrumentationScope) -> Seq<KeyValue>;
impl InstrumentationScope {
    #[verifier::external_body] fn name(&self) -> (r: Text) ensures r == scope_name(*self) { unimplemented!() }
    #[verifier::external_body] fn version(&self) -> (r: Option<Text>) ensures r == scope_version(*self) { unimplemented!() }
    #[verifier::external_body] fn schema_url(&self) -> (r: Option<Text>) ensures r == scope_schema(*self) { unimplemented!() }
    #[verifier::external_body] fn list(&self) -> (r: Vec<KeyValue>) ensures r@ == scope_attrs(*self) { unimplemented!() }
}
//@gsubst println!() ~> out.tell("")
//@gsubst println!($f) ~> out.tell($f)
//@gsubst println!($f, &$$a) ~> out.say($f, shown($$a))
//@gsubst println!($f, kv.key, kv.value.as_str()) ~> out.say($f, shown((&kv.key, kv.value.as_str())))
//@gsubst println!($f, $a, $b, $c) ~> out.say($f, shown(($a, $b, $c)))
//@gsubst println!($f, $a.$x, $b.$y) ~> out.say($f, shown((&$a.$x, &$b.$y)))
//@gsubst println!($f, $a, $b) ~> out.say($f, shown(($a, $b)))
//@gsubst println!($f, kv.key, kv.value.as_str()) ~> out.say($f, shown((&kv.key, kv.value.as_str())))
//@gsubst println!($f, datetime.format($g)) ~> out.say($f, shown(datetime.format($g)))
//@gsubst println!($f, $a.$b.trace_id()) ~> out.say($f, shown($a.$b.trace_id()))
//@gsubst println!($f, $a.$b.span_id()) ~> out.say($f, shown($a.$b.span_id()))
//@gsubst println!($f, $a.$b) ~> out.say($f, shown(&$a.$b))
//@gsubst println!($f, $a) ~> out.say($f, shown($a))
//@gsubst shown(span.$f) ~> shown(&span.$f)
//@gsubst shown(metric.$f) ~> shown(&metric.$f)
//@gsubst shown(&span.instrumentation_scope. ~> shown(span.instrumentation_scope.
//@gsubst let datetime: DateTime<Utc> = $$t.into(); ~> let datetime = DateTime::of($$t);
//@gsubst atomic::AtomicBool ~> Flag
//@gsubst AtomicBool ~> Flag
//@gsubst Flag::new($b) ~> Flag::is($b)
//@gsubst .load(Ordering::SeqCst) ~> .load()
//@gsubst .load(atomic::Ordering::SeqCst) ~> .load()
//@gsubst .store($b, Ordering::SeqCst) ~> .store($b)
//@gsubst .store($b, atomic::Ordering::SeqCst) ~> .store($b)
//@gsubst .swap($b, Ordering::SeqCst) ~> .swap($b)
//@gsubst .compare_exchange($a, $b, Ordering::SeqCst, Ordering::SeqCst) ~> .compare_exchange($a, $b)
//@gsubst Resource::builder().build() ~> detected_resource()
//@gsubst opentelemetry_sdk::error::OTelSdkError ~> OTelSdkError
//@gsubst &opentelemetry_sdk::Resource ~> &Resource
//@gsubst Cow<'static, str> ~> Text
//@gsubst opentelemetry::trace::$t ~> $t
//@gsubst time::SystemTime ~> SystemTime
//@gsubst $r.resource.iter().for_each(|(k, v)| { $$b }); ~> let pairs = $r.resource.list(); for i in 0..pairs.len() { let (k, v) = (&pairs[i].0, &pairs[i].1); $$b }
// the lines of a scope and of attributes
spec fn opt_say(l: Seq<Line>, form: Seq<char>, t: Option<Text>) -> Seq<Line> { match t { Some(t) => say(l, form, &t), None => l } }
spec fn pairs_said(l: Seq<Line>, v: Seq<(Key, Value)>, n: int) -> Seq<Line> decreases n { if n <= 0 { l } else { say(pairs_said(l, v, n - 1), "\t ->  {}={:?}"@, (&v[n - 1].0, &v[n - 1].1)) } }
/// attributes under a heading, which only goes before the first
spec fn attrs_said(l: Seq<Line>, head: Seq<char>, form: Seq<char>, v: Seq<KeyValue>, n: int) -> Seq<Line> decreases n {
    if n <= 0 { l } else { let l = attrs_said(l, head, form, v, n - 1); say(if n == 1 { tell(l, head) } else { l }, form, (&v[n - 1].key, &v[n - 1].value)) }
}

// ---- spans ----
//@item opentelemetry/src/trace/mod.rs struct Event
//@item opentelemetry/src/trace/mod.rs struct Link
struct SpanEvents { events: Vec<Event>, dropped_count: u32 }
struct SpanLinks { links: Vec<Link>, dropped_count: u32 }
//@gsubst crate::trace::SpanEvents ~> SpanEvents
//@gsubst crate::trace::SpanLinks ~> SpanLinks
//@item opentelemetry-sdk/src/trace/export.rs struct SpanData
//@item opentelemetry-stdout/src/trace/exporter.rs struct SpanExporter
spec fn event_said(l: Seq<Line>, k: int, e: Event) -> Seq<Line> {
    let l = if k == 0 { tell(l, "\tEvents:"@) } else { l };
    let l = say(l, "\tEvent #{}"@, k as usize);
    let l = say(l, "\tName      : {}"@, &e.name);
    let l = say(l, "\tTimestamp : {}"@, clock(e.timestamp));
    attrs_said(l, "\tAttributes:"@, "\t\t ->  {}: {:?}"@, e.attributes@, e.attributes@.len() as int)
}
spec fn events_said(l: Seq<Line>, v: Seq<Event>, n: int) -> Seq<Line> decreases n { if n <= 0 { l } else { event_said(events_said(l, v, n - 1), n - 1, v[n - 1]) } }
spec fn link_said(l: Seq<Line>, k: int, e: Link) -> Seq<Line> {
    let l = if k == 0 { tell(l, "\tLinks:"@) } else { l };
    let l = say(l, "\tLink #{}"@, k as usize);
    let l = say(l, "\tTraceId: {}"@, tid(e.span_context));
    let l = say(l, "\tSpanId : {}"@, sid(e.span_context));
    attrs_said(l, "\tAttributes:"@, "\t\t ->  {}: {:?}"@, e.attributes@, e.attributes@.len() as int)
}
spec fn links_said(l: Seq<Line>, v: Seq<Link>, n: int) -> Seq<Line> decreases n { if n <= 0 { l } else { link_said(links_said(l, v, n - 1), n - 1, v[n - 1]) } }
spec fn span_head(l: Seq<Line>, k: int, s: SpanData) -> Seq<Line> {
    let l = say(l, "Span #{}"@, k as usize);
    let l = tell(l, "\tInstrumentation Scope"@);
    let l = say(l, "\t\tName         : {:?}"@, scope_name(s.instrumentation_scope));
    let l = opt_say(l, "\t\tVersion  : {:?}"@, scope_version(s.instrumentation_scope));
    opt_say(l, "\t\tSchemaUrl: {:?}"@, scope_schema(s.instrumentation_scope))
}
spec fn span_said(l: Seq<Line>, k: int, s: SpanData) -> Seq<Line> {
    let l = span_head(l, k, s);
    let l = attrs_said(l, "\t\tScope Attributes:"@, "\t\t\t ->  {}: {}"@, scope_attrs(s.instrumentation_scope), scope_attrs(s.instrumentation_scope).len() as int);
    let l = tell(l, ""@);
    let l = say(l, "\tName        : {}"@, &s.name);
    let l = say(l, "\tTraceId     : {}"@, tid(s.span_context));
    let l = say(l, "\tSpanId      : {}"@, sid(s.span_context));
    let l = say(l, "\tTraceFlags  : {:?}"@, flg(s.span_context));
    let l = say(l, "\tParentSpanId: {}"@, &s.parent_span_id);
    let l = say(l, "\tKind        : {:?}"@, &s.span_kind);
    let l = say(l, "\tStart time: {}"@, clock(s.start_time));
    let l = say(l, "\tEnd time: {}"@, clock(s.end_time));
    let l = say(l, "\tStatus: {:?}"@, &s.status);
    let l = attrs_said(l, "\tAttributes:"@, "\t\t ->  {}: {:?}"@, s.attributes@, s.attributes@.len() as int);
    let l = events_said(l, s.events.events@, s.events.events@.len() as int);
    links_said(l, s.links.links@, s.links.links@.len() as int)
}
spec fn spans_said(l: Seq<Line>, v: Seq<SpanData>, n: int) -> Seq<Line> decreases n { if n <= 0 { l } else { span_said(spans_said(l, v, n - 1), n - 1, v[n - 1]) } }
impl SpanExporter {
//@fn opentelemetry-stdout/src/trace/exporter.rs impl Default for SpanExporter :: fn default
//@ret r
//@contract
    ensures r.resource == detected(), !up(r.is_shutdown), !up(r.resource_emitted),
//@endfn
//@fn opentelemetry-stdout/src/trace/exporter.rs impl opentelemetry_sdk::trace::SpanExporter for SpanExporter :: fn export
//@sig fn export(&mut self, batch: Vec<SpanData>, out: &mut Out) -> OTelSdkResult
//@ret r
//@subst? print_spans(batch) ~> print_spans(batch, out)
//@loop 0
    invariant pairs@ == resource_attrs(self.resource),
        out.lines@ == pairs_said(opt_say(tell(tell(old(out).l(), "Spans"@), "Resource"@), "\tResource SchemaUrl: {:?}"@, resource_schema(self.resource)), pairs@, i as int)
//@contract
    ensures
        final(self).resource == old(self).resource, up(final(self).is_shutdown) == up(old(self).is_shutdown),
        up(old(self).is_shutdown) ==> r is Err && final(out).l() == old(out).l() && *final(self) == *old(self),
        !up(old(self).is_shutdown) ==> r is Ok && up(final(self).resource_emitted)
            && final(out).l() == spans_said(if up(old(self).resource_emitted) { tell(old(out).l(), "Spans"@) } else { resource_said(tell(old(out).l(), "Spans"@), "\tResource SchemaUrl: {:?}"@, old(self).resource) }, batch@, batch@.len() as int),
//@endfn
//@fn opentelemetry-stdout/src/trace/exporter.rs impl opentelemetry_sdk::trace::SpanExporter for SpanExporter :: fn shutdown
//@ret r
//@contract
    ensures r is Ok, up(final(self).is_shutdown), final(self).resource == old(self).resource, final(self).resource_emitted == old(self).resource_emitted,
//@endfn
//@fn opentelemetry-stdout/src/trace/exporter.rs impl opentelemetry_sdk::trace::SpanExporter for SpanExporter :: fn set_resource
//@contract
    ensures final(self).resource == *res, final(self).is_shutdown == old(self).is_shutdown, final(self).resource_emitted == old(self).resource_emitted,
//@endfn
}
spec fn resource_said(l: Seq<Line>, form: Seq<char>, r: Resource) -> Seq<Line> { pairs_said(opt_say(tell(l, "Resource"@), form, resource_schema(r)), resource_attrs(r), resource_attrs(r).len() as int) }
//@fn opentelemetry-stdout/src/trace/exporter.rs fn print_spans
//@sig fn print_spans(batch: Vec<SpanData>, out: &mut Out)
//@subst for (i, span) in batch.into_iter().enumerate() { ~> for i in 0..batch.len() { let span = &batch[i];
//@subst span.instrumentation_scope.attributes().enumerate().for_each(|($i, $x)| { $$b }); ~> let sa = span.instrumentation_scope.list(); let ghost l0 = out.l(); for $i in 0..sa.len() { let $x = &sa[$i]; $$b }
//@subst for kv in span.attributes.iter() { ~> let ghost l1 = out.l(); for j in 0..span.attributes.len() { let kv = &span.attributes[j];
//@subst span.events.iter().enumerate().for_each(|($i, $x)| { $$b }); ~> let ghost l2 = out.l(); for $i in 0..span.events.events.len() { let $x = &span.events.events[$i]; $$b }
//@subst span.links.iter().enumerate().for_each(|($i, $x)| { $$b }); ~> let ghost l3 = out.l(); for $i in 0..span.links.links.len() { let $x = &span.links.links[$i]; $$b }
//@subst event.attributes.iter().enumerate().for_each(|($i, $x)| { $$b }); ~> let ghost l4 = out.l(); for $i in 0..event.attributes.len() { let $x = &event.attributes[$i]; $$b }
//@subst link.attributes.iter().enumerate().for_each(|($i, $x)| { $$b }); ~> let ghost l5 = out.l(); for $i in 0..link.attributes.len() { let $x = &link.attributes[$i]; $$b }
//@loop 0
    invariant out.l() == spans_said(old(out).l(), batch@, i as int)
//@loop 1
    invariant sa@ == scope_attrs(span.instrumentation_scope), *span == batch@[i as int], i < batch@.len(), l0 == span_head(spans_said(old(out).l(), batch@, i as int), i as int, *span), out.l() == attrs_said(l0, "\t\tScope Attributes:"@, "\t\t\t ->  {}: {}"@, sa@, index as int)
//@loop 2
    invariant *span == batch@[i as int], i < batch@.len(), out.l() == attrs_said(l1, "\tAttributes:"@, "\t\t ->  {}: {:?}"@, span.attributes@, j as int), print_header == (j == 0)
//@loop 3
    invariant *span == batch@[i as int], i < batch@.len(), out.l() == events_said(l2, span.events.events@, index as int)
//@loop 4
    invariant out.l() == attrs_said(l4, "\tAttributes:"@, "\t\t ->  {}: {:?}"@, event.attributes@, index as int)
//@loop 5
    invariant *span == batch@[i as int], i < batch@.len(), out.l() == links_said(l3, span.links.links@, index as int)
//@loop 6
    invariant out.l() == attrs_said(l5, "\tAttributes:"@, "\t\t ->  {}: {:?}"@, link.attributes@, index as int)
//@contract
    ensures final(out).l() == spans_said(old(out).l(), batch@, batch@.len() as int),
//@endfn
// ---- log records ----
struct TraceContext { trace_id: TraceId, span_id: SpanId, trace_flags: Option<TraceFlags> }
#[verifier::external_body] struct SdkLogRecord { x: u64 }
#[verifier::external_body] #[derive(Clone, Copy)] struct Severity { x: u64 }
uninterp spec fn event_of(r: SdkLogRecord) -> Option<Text>;
uninterp spec fn target_of(r: SdkLogRecord) -> Option<Text>;
uninterp spec fn context_of(r: SdkLogRecord) -> Option<TraceContext>;
uninterp spec fn time_of(r: SdkLogRecord) -> Option<SystemTime>;
uninterp spec fn seen_of(r: SdkLogRecord) -> Option<SystemTime>;
uninterp spec fn level_of(r: SdkLogRecord) -> Option<Text>;
uninterp spec fn severity_of(r: SdkLogRecord) -> Option<Severity>;
uninterp spec fn body_of(r: SdkLogRecord) -> Option<AnyValue>;
uninterp spec fn attrs_of(r: SdkLogRecord) -> Seq<(Key, AnyValue)>;
spec fn of<T>(r: Option<&T>, o: Option<T>) -> bool { match r { Some(t) => o == Some(*t), None => o is None } }
impl SdkLogRecord {
    #[verifier::external_body] fn event_name(&self) -> (r: Option<&Text>) ensures of(r, event_of(*self)) { unimplemented!() }
    #[verifier::external_body] fn target(&self) -> (r: Option<&Text>) ensures of(r, target_of(*self)) { unimplemented!() }
    #[verifier::external_body] fn trace_context(&self) -> (r: Option<&TraceContext>) ensures of(r, context_of(*self)) { unimplemented!() }
    #[verifier::external_body] fn timestamp(&self) -> (r: Option<SystemTime>) ensures r == time_of(*self) { unimplemented!() }
    #[verifier::external_body] fn observed_timestamp(&self) -> (r: Option<SystemTime>) ensures r == seen_of(*self) { unimplemented!() }
    #[verifier::external_body] fn severity_text(&self) -> (r: Option<&Text>) ensures of(r, level_of(*self)) { unimplemented!() }
    #[verifier::external_body] fn severity_number(&self) -> (r: Option<Severity>) ensures r == severity_of(*self) { unimplemented!() }
    #[verifier::external_body] fn body(&self) -> (r: Option<&AnyValue>) ensures of(r, body_of(*self)) { unimplemented!() }
    #[verifier::external_body] fn list(&self) -> (r: Vec<(Key, AnyValue)>) ensures r@ == attrs_of(*self) { unimplemented!() }
}
struct LogBatch { v: Vec<(SdkLogRecord, InstrumentationScope)> }
//@item opentelemetry-stdout/src/logs/exporter.rs struct LogExporter
spec fn opt_told<T>(l: Seq<Line>, form: Seq<char>, t: Option<T>) -> Seq<Line> { match t { Some(t) => say(l, form, &t), None => l } }
spec fn opt_time(l: Seq<Line>, form: Seq<char>, t: Option<SystemTime>) -> Seq<Line> { match t { Some(t) => say(l, form, clock(t)), None => l } }
spec fn members_said(l: Seq<Line>, v: Seq<(Key, AnyValue)>, n: int) -> Seq<Line> decreases n { if n <= 0 { l } else { say(members_said(l, v, n - 1), "\t\t ->  {}: {:?}"@, (&v[n - 1].0, &v[n - 1].1)) } }
spec fn log_said(l: Seq<Line>, k: int, r: SdkLogRecord, s: InstrumentationScope) -> Seq<Line> {
    let l = say(l, "Log #{}"@, k as usize);
    let l = say(l, "\t Instrumentation Scope: {:?}"@, &s);
    let l = opt_told(l, "\t EventName: {:?}"@, event_of(r));
    let l = opt_told(l, "\t Target (Scope): {:?}"@, target_of(r));
    let l = match context_of(r) {
        Some(c) => { let l = say(say(l, "\t TraceId: {:?}"@, &c.trace_id), "\t SpanId: {:?}"@, &c.span_id); match c.trace_flags { Some(t) => say(l, "\t TraceFlags: {:?}"@, t), None => l } },
        None => l,
    };
    let l = opt_time(l, "\t Timestamp: {}"@, time_of(r));
    let l = opt_time(l, "\t Observed Timestamp: {}"@, seen_of(r));
    let l = opt_told(l, "\t SeverityText: {:?}"@, level_of(r));
    let l = match severity_of(r) { Some(t) => say(l, "\t SeverityNumber: {:?}"@, t), None => l };
    let l = opt_told(l, "\t Body: {:?}"@, body_of(r));
    let l = tell(l, "\t Attributes:"@);
    members_said(l, attrs_of(r), attrs_of(r).len() as int)
}
spec fn logs_said(l: Seq<Line>, v: Seq<(SdkLogRecord, InstrumentationScope)>, n: int) -> Seq<Line> decreases n { if n <= 0 { l } else { log_said(logs_said(l, v, n - 1), n - 1, v[n - 1].0, v[n - 1].1) } }
impl LogExporter {
//@fn opentelemetry-stdout/src/logs/exporter.rs impl Default for LogExporter :: fn default
//@ret r
//@contract
    ensures r.resource == detected(), !up(r.is_shutdown), !up(r.resource_emitted),
//@endfn
//@fn opentelemetry-stdout/src/logs/exporter.rs impl opentelemetry_sdk::logs::LogExporter for LogExporter :: fn export
//@sig fn export(&mut self, batch: LogBatch, out: &mut Out) -> OTelSdkResult
//@ret r
//@subst? print_logs(batch) ~> print_logs(batch, out)
//@loop 0
    invariant pairs@ == resource_attrs(self.resource),
        out.lines@ == pairs_said(opt_say(tell(tell(old(out).l(), "Logs"@), "Resource"@), "\t Resource SchemaUrl: {:?}"@, resource_schema(self.resource)), pairs@, i as int)
//@contract
    ensures
        final(self).resource == old(self).resource, up(final(self).is_shutdown) == up(old(self).is_shutdown),
        up(old(self).is_shutdown) ==> r is Err && final(out).l() == old(out).l() && *final(self) == *old(self),
        !up(old(self).is_shutdown) ==> r is Ok && up(final(self).resource_emitted)
            && final(out).l() == logs_said(if up(old(self).resource_emitted) { tell(old(out).l(), "Logs"@) } else { resource_said(tell(old(out).l(), "Logs"@), "\t Resource SchemaUrl: {:?}"@, old(self).resource) }, batch.v@, batch.v@.len() as int),
//@endfn
//@fn opentelemetry-stdout/src/logs/exporter.rs impl opentelemetry_sdk::logs::LogExporter for LogExporter :: fn shutdown
//@sig fn shutdown(&mut self) -> OTelSdkResult
//@ret r
//@contract
    ensures r is Ok, up(final(self).is_shutdown), final(self).resource == old(self).resource, final(self).resource_emitted == old(self).resource_emitted,
//@endfn
//@fn opentelemetry-stdout/src/logs/exporter.rs impl opentelemetry_sdk::logs::LogExporter for LogExporter :: fn set_resource
//@contract
    ensures final(self).resource == *res, final(self).is_shutdown == old(self).is_shutdown, final(self).resource_emitted == old(self).resource_emitted,
//@endfn
}
//@fn opentelemetry-stdout/src/logs/exporter.rs fn print_logs
//@sig fn print_logs(batch: LogBatch, out: &mut Out)
//@subst for (i, log) in batch.iter().enumerate() { ~> for i in 0..batch.v.len() { let log = (&batch.v[i].0, &batch.v[i].1);
//@subst for (k, v) in record.attributes_iter() { ~> let members = record.list(); let ghost l0 = out.l(); for j in 0..members.len() { let (k, v) = (&members[j].0, &members[j].1);
//@loop 0
    invariant out.l() == logs_said(old(out).l(), batch.v@, i as int)
//@loop 1
    invariant members@ == attrs_of(*record), i < batch.v@.len(), out.l() == members_said(l0, members@, j as int)
//@contract
    ensures final(out).l() == logs_said(old(out).l(), batch.v@, batch.v@.len() as int),
//@endfn

// ---- metrics ----
#[verifier::external_body] #[derive(Clone, Copy)] struct F { x: u64 }
uninterp spec fn minus_infinity() -> F;
#[verifier::external_body] fn negative_infinity() -> (r: F) ensures r == minus_infinity() { unimplemented!() }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] struct Exemplar<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] struct ExponentialHistogram<T> { x: core::marker::PhantomData<T> }
//@gsubst f64::NEG_INFINITY ~> negative_infinity()
//@gsubst f64 ~> F
//@gsubst $a.temporality == Temporality::Cumulative ~> $a.temporality.is_cumulative()
//@item opentelemetry-sdk/src/metrics/mod.rs enum Temporality
impl Copy for Temporality {}
impl Clone for Temporality { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Temporality {
    fn is_cumulative(&self) -> (r: bool) ensures r == (*self == Temporality::Cumulative) { match self { Temporality::Cumulative => true, _ => false } }
    #[verifier::external_body] fn standard() -> (r: Temporality) ensures r == Temporality::Cumulative { unimplemented!() }
}
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct GaugeDataPoint
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct SumDataPoint
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct HistogramDataPoint
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct Gauge
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct Sum
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct Histogram
//@item opentelemetry-sdk/src/metrics/data/mod.rs enum MetricData
//@item opentelemetry-sdk/src/metrics/data/mod.rs enum AggregatedMetrics
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct Metric
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct ScopeMetrics
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct ResourceMetrics
//@item opentelemetry-stdout/src/metrics/exporter.rs struct MetricExporter
//@item opentelemetry-stdout/src/metrics/exporter.rs struct MetricExporterBuilder
spec fn points_attrs(l: Seq<Line>, v: Seq<KeyValue>, n: int) -> Seq<Line> decreases n { if n <= 0 { l } else { say(points_attrs(l, v, n - 1), "\t\t\t\t ->  {}: {}"@, (&v[n - 1].key, in_words(v[n - 1].value))) } }
spec fn point_said<T>(l: Seq<Line>, k: int, value: T, a: Seq<KeyValue>) -> Seq<Line> {
    let l = say(l, "\t\tDataPoint #{}"@, k as usize);
    let l = say(l, "\t\t\tValue        : {:#?}"@, &value);
    points_attrs(tell(l, "\t\t\tAttributes   :"@), a, a.len() as int)
}
spec fn sum_points<T>(l: Seq<Line>, v: Seq<SumDataPoint<T>>, n: int) -> Seq<Line> decreases n { if n <= 0 { l } else { point_said(sum_points(l, v, n - 1), n - 1, v[n - 1].value, v[n - 1].attributes@) } }
spec fn gauge_points<T>(l: Seq<Line>, v: Seq<GaugeDataPoint<T>>, n: int) -> Seq<Line> decreases n { if n <= 0 { l } else { point_said(gauge_points(l, v, n - 1), n - 1, v[n - 1].value, v[n - 1].attributes@) } }
spec fn below(b: Seq<F>, k: int) -> F { if k <= 0 { minus_infinity() } else { b[k - 1] } }
spec fn at(c: Seq<u64>, k: int) -> u64 { if k < c.len() { c[k] } else { 0 } }
spec fn buckets_said(l: Seq<Line>, b: Seq<F>, c: Seq<u64>, n: int) -> Seq<Line> decreases n { if n <= 0 { l } else { say(buckets_said(l, b, c, n - 1), "\t\t\t\t {} to {} : {}"@, (below(b, n - 1), b[n - 1], at(c, n - 1))) } }
spec fn hist_point<T>(l: Seq<Line>, k: int, p: HistogramDataPoint<T>) -> Seq<Line> {
    let l = say(l, "\t\tDataPoint #{}"@, k as usize);
    let l = say(l, "\t\t\tCount        : {}"@, &p.count);
    let l = say(l, "\t\t\tSum          : {:?}"@, &p.sum);
    let l = opt_told(l, "\t\t\tMin          : {:?}"@, p.min);
    let l = opt_told(l, "\t\t\tMax          : {:?}"@, p.max);
    let l = points_attrs(tell(l, "\t\t\tAttributes   :"@), p.attributes@, p.attributes@.len() as int);
    let l = buckets_said(tell(l, "\t\t\tBuckets"@), p.bounds@, p.bucket_counts@, p.bounds@.len() as int);
    say(l, "\t\t\t\t{} to +Infinity : {}"@, (below(p.bounds@, p.bounds@.len() as int), at(p.bucket_counts@, p.bounds@.len() as int)))
}
spec fn hist_points<T>(l: Seq<Line>, v: Seq<HistogramDataPoint<T>>, n: int) -> Seq<Line> decreases n { if n <= 0 { l } else { hist_point(hist_points(l, v, n - 1), n - 1, v[n - 1]) } }
spec fn temporality_said(l: Seq<Line>, t: Temporality) -> Seq<Line> { tell(l, if t == Temporality::Cumulative { "\t\tTemporality  : Cumulative"@ } else { "\t\tTemporality  : Delta"@ }) }
spec fn times_said(l: Seq<Line>, a: SystemTime, b: SystemTime) -> Seq<Line> { say(say(l, "\t\tStartTime    : {}"@, clock(a)), "\t\tEndTime      : {}"@, clock(b)) }
spec fn sum_said<T>(l: Seq<Line>, s: Sum<T>) -> Seq<Line> {
    let l = say(tell(l, "\t\tSum DataPoints"@), "\t\tMonotonic    : {}"@, &s.is_monotonic);
    sum_points(times_said(temporality_said(l, s.temporality), s.start_time, s.time), s.data_points@, s.data_points@.len() as int)
}
spec fn gauge_said<T>(l: Seq<Line>, s: Gauge<T>) -> Seq<Line> {
    let l = opt_time(tell(l, "\t\tGauge DataPoints"@), "\t\tStartTime    : {}"@, s.start_time);
    gauge_points(say(l, "\t\tEndTime      : {}"@, clock(s.time)), s.data_points@, s.data_points@.len() as int)
}
spec fn histogram_said<T>(l: Seq<Line>, s: Histogram<T>) -> Seq<Line> {
    hist_points(tell(times_said(temporality_said(l, s.temporality), s.start_time, s.time), "\t\tHistogram DataPoints"@), s.data_points@, s.data_points@.len() as int)
}
spec fn data_said<T>(l: Seq<Line>, d: MetricData<T>) -> Seq<Line> {
    match d {
        MetricData::Gauge(g) => gauge_said(tell(l, "\t\tType         : Gauge"@), g),
        MetricData::Sum(g) => sum_said(tell(l, "\t\tType         : Sum"@), g),
        MetricData::Histogram(g) => histogram_said(tell(l, "\t\tType         : Histogram"@), g),
        MetricData::ExponentialHistogram(_) => tell(l, "\t\tType         : Exponential Histogram"@),
    }
}
spec fn metric_said(l: Seq<Line>, k: int, m: Metric) -> Seq<Line> {
    let l = say(l, "Metric #{}"@, k as usize);
    let l = say(l, "\t\tName         : {}"@, &m.name);
    let l = say(l, "\t\tDescription  : {}"@, &m.description);
    let l = say(l, "\t\tUnit         : {}"@, &m.unit);
    match m.data { AggregatedMetrics::F64(d) => data_said(l, d), AggregatedMetrics::U64(d) => data_said(l, d), AggregatedMetrics::I64(d) => data_said(l, d) }
}
spec fn metrics_said(l: Seq<Line>, v: Seq<Metric>, n: int) -> Seq<Line> decreases n { if n <= 0 { l } else { metric_said(metrics_said(l, v, n - 1), n - 1, v[n - 1]) } }
spec fn scope_head(l: Seq<Line>, k: int, s: InstrumentationScope) -> Seq<Line> {
    let l = say(l, "\tInstrumentation Scope #{}"@, k as usize);
    let l = say(l, "\t\tName         : {}"@, scope_name(s));
    opt_say(opt_say(l, "\t\tVersion  : {:?}"@, scope_version(s)), "\t\tSchemaUrl: {:?}"@, scope_schema(s))
}
spec fn scope_said(l: Seq<Line>, k: int, s: ScopeMetrics) -> Seq<Line> {
    metrics_said(attrs_said(scope_head(l, k, s.scope), "\t\tScope Attributes:"@, "\t\t\t ->  {}: {}"@, scope_attrs(s.scope), scope_attrs(s.scope).len() as int), s.metrics@, s.metrics@.len() as int)
}
spec fn scopes_said(l: Seq<Line>, v: Seq<ScopeMetrics>, n: int) -> Seq<Line> decreases n { if n <= 0 { l } else { scope_said(scopes_said(l, v, n - 1), n - 1, v[n - 1]) } }
#[verifier::external_body] fn nth(v: &Vec<u64>, i: usize) -> (r: u64) ensures r == at(v@, i as int) { unimplemented!() }
//@gsubst for kv in data_point.attributes.iter() { ~> let ghost l1 = out.l(); for j in 0..data_point.attributes.len() { let kv = &data_point.attributes[j];
//@gsubst for (i, data_point) in data_points.iter().enumerate() { ~> for i in 0..data_points.len() { let data_point = &data_points[i];
impl MetricExporter {
//@fn opentelemetry-stdout/src/metrics/exporter.rs impl PushMetricExporter for MetricExporter :: fn export
//@sig fn export(&self, metrics: &mut ResourceMetrics, out: &mut Out) -> OTelSdkResult
//@ret r
//@subst? print_metrics(&$$a) ~> print_metrics(&$$a, out)
//@loop 0
    invariant pairs@ == resource_attrs(metrics.resource),
        out.lines@ == pairs_said(opt_say(tell(tell(old(out).l(), "Metrics"@), "Resource"@), "\tResource SchemaUrl: {:?}"@, resource_schema(metrics.resource)), pairs@, i as int)
//@contract
    ensures
        *final(metrics) == *old(metrics),
        up(self.is_shutdown) ==> r is Err && final(out).l() == old(out).l(),
        !up(self.is_shutdown) ==> r is Ok && final(out).l() == scopes_said(resource_said(tell(old(out).l(), "Metrics"@), "\tResource SchemaUrl: {:?}"@, old(metrics).resource), old(metrics).scope_metrics@, old(metrics).scope_metrics@.len() as int),
//@endfn
//@fn opentelemetry-stdout/src/metrics/exporter.rs impl PushMetricExporter for MetricExporter :: fn force_flush
//@ret r
//@contract
    ensures r is Ok,
//@endfn
//@fn opentelemetry-stdout/src/metrics/exporter.rs impl PushMetricExporter for MetricExporter :: fn shutdown
//@sig fn shutdown(&mut self) -> OTelSdkResult
//@ret r
//@contract
    ensures r is Ok, up(final(self).is_shutdown), final(self).temporality == old(self).temporality,
//@endfn
//@fn opentelemetry-stdout/src/metrics/exporter.rs impl PushMetricExporter for MetricExporter :: fn shutdown_with_timeout
//@sig fn shutdown_with_timeout(&mut self, _timeout: Duration) -> OTelSdkResult
//@ret r
//@contract
    ensures r is Ok, up(final(self).is_shutdown), final(self).temporality == old(self).temporality,
//@endfn
//@fn opentelemetry-stdout/src/metrics/exporter.rs impl PushMetricExporter for MetricExporter :: fn temporality
//@ret r
//@contract
    ensures r == self.temporality,
//@endfn
}
impl MetricExporterBuilder {
//@fn opentelemetry-stdout/src/metrics/exporter.rs impl MetricExporterBuilder :: fn with_temporality
//@sig fn with_temporality(self0: Self, temporality: Temporality) -> Self
//@subst self.temporality = ~> let mut slf = self0; slf.temporality =
//@subst ; self ~> ; slf
//@ret r
//@contract
    ensures r.temporality == Some(temporality),
//@endfn
//@fn opentelemetry-stdout/src/metrics/exporter.rs impl MetricExporterBuilder :: fn build
//@subst self.temporality.unwrap_or_default() ~> (match self.temporality { Some(t) => t, None => Temporality::standard() })
//@ret r
//@contract
    ensures r.temporality == (match self.temporality { Some(t) => t, None => Temporality::Cumulative }), !up(r.is_shutdown),
//@endfn
}
//@fn opentelemetry-stdout/src/metrics/exporter.rs fn print_metrics :: fn print_info
//@sig fn print_info<T>(data: &MetricData<T>, out: &mut Out)
//@subst print_gauge(gauge) ~> print_gauge(gauge, out)
//@subst print_sum(sum) ~> print_sum(sum, out)
//@subst print_histogram(hist) ~> print_histogram(hist, out)
//@contract
    ensures final(out).l() == data_said(old(out).l(), *data),
//@endfn
//@fn opentelemetry-stdout/src/metrics/exporter.rs fn print_metrics
//@sig fn print_metrics(metrics: &Vec<ScopeMetrics>, out: &mut Out)
//@subst fn print_info<T>($$a) where T: Debug, { $$b } match ~> match
//@subst for (i, metric) in metrics.iter().enumerate() { ~> for i in 0..metrics.len() { let scoped = &metrics[i]; let metric = scoped;
//@subst metric.scope.attributes().enumerate().for_each(|($i, $x)| { $$b }); ~> let sa = metric.scope.list(); let ghost l0 = out.l(); for $i in 0..sa.len() { let $x = &sa[$i]; $$b }
//@subst metric.metrics.iter().enumerate().for_each(|(i, metric)| { $$b }); ~> let ghost l1 = out.l(); for j in 0..scoped.metrics.len() { let metric = &scoped.metrics[j]; { let i = j; $$b } }
//@subst? print_info(data) ~> print_info(data, out)
//@loop 0
    invariant out.l() == scopes_said(old(out).l(), metrics@, i as int)
//@loop 1
    invariant sa@ == scope_attrs(scoped.scope), i < metrics@.len(), out.l() == attrs_said(l0, "\t\tScope Attributes:"@, "\t\t\t ->  {}: {}"@, sa@, index as int)
//@loop 2
    invariant i < metrics@.len(), out.l() == metrics_said(l1, scoped.metrics@, j as int)
//@contract
    ensures final(out).l() == scopes_said(old(out).l(), metrics@, metrics@.len() as int),
//@endfn
//@fn opentelemetry-stdout/src/metrics/exporter.rs fn print_sum
//@sig fn print_sum<T>(sum: &Sum<T>, out: &mut Out)
//@subst? print_sum_data_points(&$$a) ~> print_sum_data_points(&$$a, out)
//@contract
    ensures final(out).l() == sum_said(old(out).l(), *sum),
//@endfn
//@fn opentelemetry-stdout/src/metrics/exporter.rs fn print_gauge
//@sig fn print_gauge<T>(gauge: &Gauge<T>, out: &mut Out)
//@subst? print_gauge_data_points(&$$a) ~> print_gauge_data_points(&$$a, out)
//@contract
    ensures final(out).l() == gauge_said(old(out).l(), *gauge),
//@endfn
//@fn opentelemetry-stdout/src/metrics/exporter.rs fn print_histogram
//@sig fn print_histogram<T>(histogram: &Histogram<T>, out: &mut Out)
//@subst? print_hist_data_points(&$$a) ~> print_hist_data_points(&$$a, out)
//@contract
    ensures final(out).l() == histogram_said(old(out).l(), *histogram),
//@endfn
//@fn opentelemetry-stdout/src/metrics/exporter.rs fn print_sum_data_points
//@sig fn print_sum_data_points<T>(data_points: &Vec<SumDataPoint<T>>, out: &mut Out)
//@loop 0
    invariant out.l() == sum_points(old(out).l(), data_points@, i as int)
//@loop 1
    invariant out.l() == points_attrs(l1, data_point.attributes@, j as int)
//@contract
    ensures final(out).l() == sum_points(old(out).l(), data_points@, data_points@.len() as int),
//@endfn
//@fn opentelemetry-stdout/src/metrics/exporter.rs fn print_gauge_data_points
//@sig fn print_gauge_data_points<T>(data_points: &Vec<GaugeDataPoint<T>>, out: &mut Out)
//@loop 0
    invariant out.l() == gauge_points(old(out).l(), data_points@, i as int)
//@loop 1
    invariant out.l() == points_attrs(l1, data_point.attributes@, j as int)
//@contract
    ensures final(out).l() == gauge_points(old(out).l(), data_points@, data_points@.len() as int),
//@endfn
//@fn opentelemetry-stdout/src/metrics/exporter.rs fn print_hist_data_points
//@sig fn print_hist_data_points<T>(data_points: &Vec<HistogramDataPoint<T>>, out: &mut Out)
//@subst for (i, &upper_bound) in data_point.bounds.iter().enumerate() { ~> let ghost l2 = out.l(); for i in 0..data_point.bounds.len() { let upper_bound = data_point.bounds[i];
//@subst $c.bucket_counts.get($$k).unwrap_or(&0) ~> nth(&$c.bucket_counts, $$k)
//@loop 0
    invariant out.l() == hist_points(old(out).l(), data_points@, i as int)
//@loop 1
    invariant out.l() == points_attrs(l1, data_point.attributes@, j as int)
//@loop 2
    invariant lower_bound == below(data_point.bounds@, i as int), out.l() == buckets_said(l2, data_point.bounds@, data_point.bucket_counts@, i as int)
//@contract
    ensures final(out).l() == hist_points(old(out).l(), data_points@, data_points@.len() as int),
//@endfn
} // verus!
fn main() {}

// Unit: the life of a span (opentelemetry-sdk/src/trace/span.rs): data is mutable until the end, delivered to every
// processor exactly once at the first end (or drop), and gone afterwards.
use vstd::prelude::*;
verus! {

#[verifier::external_body] struct KeyValue { _p: u8 }
#[verifier::external_body] struct Name { _p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct SystemTime { _p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct SpanId { _p: u8 }
#[verifier::external_body] struct SpanContext { _p: u8 }
#[verifier::external_body] struct SpanKind { _p: u8 }
#[verifier::external_body] struct Event { _p: u8 }
#[verifier::external_body] struct Link { _p: u8 }
#[verifier::external_body] struct InstrumentationScope { _p: u8 }
#[verifier::external_body] struct Processor { _p: u8 }
//@gsubst Cow<'static, str> ~> Name
//@gsubst crate::trace::SdkTracer ~> SdkTracer
//@gsubst crate::trace::SpanEvents ~> SpanEvents
//@gsubst crate::trace::SpanLinks ~> SpanLinks
//@gsubst opentelemetry::time::now() ~> now()
//@item opentelemetry-sdk/src/trace/events.rs struct SpanEvents
//@item opentelemetry-sdk/src/trace/links.rs struct SpanLinks
//@item opentelemetry-sdk/src/trace/span_limit.rs struct SpanLimits
//@item opentelemetry/src/trace/span.rs enum Status
//@item opentelemetry-sdk/src/trace/span.rs struct Span
//@item opentelemetry-sdk/src/trace/span.rs struct SpanData

/// what processors receive: opentelemetry_sdk::trace::SpanData
struct Exported {
    span_context: SpanContext, parent_span_id: SpanId, span_kind: SpanKind, name: Name, start_time: SystemTime, end_time: SystemTime,
    attributes: Vec<KeyValue>, dropped_attributes_count: u32, events: SpanEvents, links: SpanLinks, status: Status,
    instrumentation_scope: InstrumentationScope,
}

struct Provider { shut: bool, procs: Vec<Processor> }
impl Provider {
    fn is_shutdown(&self) -> (r: bool) ensures r == self.shut { self.shut }
    fn span_processors(&self) -> (r: &[Processor]) ensures r@ == self.procs@ { self.procs.as_slice() }
}
struct SdkTracer { prov: Provider, scope: InstrumentationScope }
impl SdkTracer {
    fn provider(&self) -> (r: &Provider) ensures *r == self.prov { &self.prov }
    fn instrumentation_scope(&self) -> (r: &InstrumentationScope) ensures *r == self.scope { &self.scope }
}
// clones copy (derived Clone)
impl InstrumentationScope { #[verifier::external_body] fn clone(&self) -> (r: InstrumentationScope) ensures r == *self { unimplemented!() } }
impl SpanContext { #[verifier::external_body] fn clone(&self) -> (r: SpanContext) ensures r == *self { unimplemented!() } }
impl SpanData { #[verifier::external_body] fn clone(&self) -> (r: SpanData) ensures r == *self { unimplemented!() } }
#[verifier::external_body] fn now() -> SystemTime { unimplemented!() }
uninterp spec fn same_time(a: SystemTime, b: SystemTime) -> bool;
#[verifier::external_body] fn time_eq(a: &SystemTime, b: &SystemTime) -> (r: bool) ensures r == same_time(*a, *b) { unimplemented!() }

/// record of deliveries: (processor, data), in order
struct Log { g: Ghost<Seq<(Processor, Exported)>> }
impl Processor {
    fn on_end(&self, log: &mut Log, d: Exported)
        ensures final(log).g@ == old(log).g@.push((*self, d))
    { log.g = Ghost(log.g@.push((*self, d))); }
}

spec fn rank(s: Status) -> int { match s { Status::Unset => 0, Status::Error { .. } => 1, Status::Ok => 2 } }
// derived PartialOrd: by variant, then by description (left open)
uninterp spec fn desc_gt(a: Status, b: Status) -> bool;
#[verifier::external_body]
fn status_gt(a: &Status, b: &Status) -> (r: bool)
    ensures rank(*a) != rank(*b) ==> r == (rank(*a) > rank(*b)), rank(*a) == rank(*b) ==> r == desc_gt(*a, *b),
        rank(*a) == rank(*b) && rank(*a) != 1 ==> !r
{ unimplemented!() }

spec fn exported(d: SpanData, sc: SpanContext, t: SdkTracer) -> Exported {
    Exported { span_context: sc, parent_span_id: d.parent_span_id, span_kind: d.span_kind, name: d.name, start_time: d.start_time,
        end_time: d.end_time, attributes: d.attributes, dropped_attributes_count: d.dropped_attributes_count, events: d.events,
        links: d.links, status: d.status, instrumentation_scope: t.scope }
}
/// delivered once to each processor, in registration order
spec fn deliveries(ps: Seq<Processor>, e: Exported) -> Seq<(Processor, Exported)> { Seq::new(ps.len(), |i: int| (ps[i], e)) }

spec fn delivered(s: Span, t: SystemTime) -> Seq<(Processor, Exported)> {
    deliveries(s.tracer.prov.procs@, exported(SpanData { end_time: t, ..s.data->0 }, s.span_context, s.tracer))
}

//@fn opentelemetry-sdk/src/trace/span.rs fn build_export_data
//@ret r
//@subst crate::trace::SpanData ~> Exported
//@contract
    ensures r == exported(data, span_context, *tracer),
//@endfn

impl Span {
//@fn opentelemetry-sdk/src/trace/span.rs impl ! Span :: fn with_data
//@ret r
//@contract
    requires old(self).data.is_some() ==> forall|d: &mut SpanData| *d == old(self).data->0 ==> #[trigger] f.requires((d,)),
    ensures
        old(self).data.is_none() ==> *final(self) == *old(self) && r.is_none(),
        final(self).data.is_some() == old(self).data.is_some(),
        final(self).span_context == old(self).span_context, final(self).tracer == old(self).tracer,
//@endfn

//@fn opentelemetry-sdk/src/trace/span.rs impl ! Span :: fn exported_data
//@ret r
//@subst crate::trace::SpanData ~> Exported
//@subst self.data.as_ref().map(|data| $$x) ~> match self.data.as_ref() { Some(data) => Some($$x), None => None }
//@contract
    ensures r == (match self.data { Some(d) => Some(exported(d, self.span_context, self.tracer)), None => None }),
//@endfn

//@fn opentelemetry-sdk/src/trace/span.rs impl opentelemetry::trace::Span for Span :: fn span_context
//@ret r
//@contract
    ensures *r == self.span_context,
//@endfn

//@fn opentelemetry-sdk/src/trace/span.rs impl opentelemetry::trace::Span for Span :: fn is_recording
//@ret r
//@contract
    ensures r == self.data.is_some(),
//@endfn

//@fn opentelemetry-sdk/src/trace/span.rs impl opentelemetry::trace::Span for Span :: fn set_status
//@subst self.with_data(|data| { $$b }); ~> if let Some(data) = self.data.as_mut() { $$b }
//@subst status > data.status ~> status_gt(&status, &data.status)
//@contract
    ensures
        old(self).data.is_none() ==> *final(self) == *old(self),
        old(self).data.is_some() ==> ({
            let d = old(self).data->0; let e = final(self).data->0;
            &&& *final(self) == (Span { data: Some(e), ..*old(self) })
            &&& e == (SpanData { status: e.status, ..d })
            // Ok is final, Unset never overrides, a higher rank always takes effect
            &&& e.status == status || e.status == d.status
            &&& rank(e.status) == (if rank(status) > rank(d.status) { rank(status) } else { rank(d.status) })
            &&& rank(status) > rank(d.status) ==> e.status == status
            &&& rank(status) < rank(d.status) ==> e.status == d.status
        }),
//@endfn

//@fn opentelemetry-sdk/src/trace/span.rs impl opentelemetry::trace::Span for Span :: fn update_name
//@subst fn update_name<T>(&mut self, new_name: T) where T: Into<Name>, ~> fn update_name(&mut self, new_name: Name)
//@subst new_name.into() ~> new_name
//@subst self.with_data(|data| { $$b }); ~> if let Some(data) = self.data.as_mut() { $$b }
//@contract
    ensures
        old(self).data.is_none() ==> *final(self) == *old(self),
        old(self).data.is_some() ==> *final(self) == (Span { data: Some(SpanData { name: new_name, ..old(self).data->0 }), ..*old(self) }),
//@endfn

//@fn opentelemetry-sdk/src/trace/span.rs impl opentelemetry::trace::Span for Span :: fn end_with_timestamp
//@subst fn end_with_timestamp(&mut self, ~> fn end_with_timestamp(&mut self, log: &mut Log,
//@subst self.ensure_ended_and_exported( ~> self.ensure_ended_and_exported(log,
//@contract
    ensures
        final(self).data.is_none(), final(self).span_context == old(self).span_context,
        old(self).data.is_none() || old(self).tracer.prov.shut ==> final(log).g@ == old(log).g@,
        old(self).data.is_some() && !old(self).tracer.prov.shut ==>
            final(log).g@ == old(log).g@ + delivered(*old(self), timestamp),
//@endfn

//@fn opentelemetry-sdk/src/trace/span.rs impl Drop for Span :: fn drop
//@subst fn drop(&mut self) ~> fn drop_span(&mut self, log: &mut Log)
//@subst self.ensure_ended_and_exported( ~> self.ensure_ended_and_exported(log,
//@contract
    ensures
        final(self).data.is_none(),
        old(self).data.is_none() || old(self).tracer.prov.shut ==> final(log).g@ == old(log).g@,
        old(self).data.is_some() && !old(self).tracer.prov.shut ==> exists|t: SystemTime|
            final(log).g@ == old(log).g@ + #[trigger] delivered(*old(self), t)
            && (!same_time(old(self).data->0.end_time, old(self).data->0.start_time) ==> t == old(self).data->0.end_time),
//@endfn

//@fn opentelemetry-sdk/src/trace/span.rs impl ! Span :: fn ensure_ended_and_exported
//@subst fn ensure_ended_and_exported(&mut self, ~> fn ensure_ended_and_exported(&mut self, log: &mut Log,
//@subst match provider.span_processors() { [] => {} [processor] => { $$one } processors => { $$many } } ~> let processors = provider.span_processors(); if processors.len() == 0 { } else if processors.len() == 1 { let processor = &processors[0]; $$one } else { $$many }
//@subst processor.on_end( ~> processor.on_end(log,
//@subst data.end_time == data.start_time ~> time_eq(&data.end_time, &data.start_time)
//@contract
    ensures
        // whatever happens the span holds no data afterwards: no later call can change or deliver it again
        final(self).data.is_none(), final(self).span_context == old(self).span_context,
        old(self).data.is_none() || old(self).tracer.prov.shut ==> final(log).g@ == old(log).g@,
        old(self).data.is_some() && !old(self).tracer.prov.shut ==> exists|t: SystemTime|
            final(log).g@ == old(log).g@ + #[trigger] delivered(*old(self), t)
            && (timestamp.is_some() ==> t == timestamp->0)
            && (timestamp.is_none() && !same_time(old(self).data->0.end_time, old(self).data->0.start_time) ==> t == old(self).data->0.end_time),
//@loop 0 it
        invariant
            it.seq().len() == processors@.len(),
            forall|i: int| 0 <= i < processors@.len() ==> *(#[trigger] it.seq()[i]) == processors@[i],
            log.g@ =~= old(log).g@ + deliveries(processors@, exported(data, self.span_context, self.tracer)).take(it.index@),
//@before let processors = provider.span_processors();
    let ghost end_t = data.end_time;
//@end
    proof { assert(log.g@ =~= old(log).g@ + delivered(*old(self), end_t)); }
//@endfn
}

} // verus!
fn main() {}

// Unit: the limits on what a span holds (opentelemetry-sdk/src/trace/tracer.rs, span.rs).
use vstd::prelude::*;
verus! {

// values a span carries around without looking inside
#[verifier::external_body] struct KeyValue { _p: u8 }
#[verifier::external_body] struct Name { _p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct SystemTime { _p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct SpanId { _p: u8 }
#[verifier::external_body] struct SpanContext { _p: u8 }
#[verifier::external_body] struct SpanKind { _p: u8 }
#[verifier::external_body] struct Status { _p: u8 }
#[verifier::external_body] struct TraceId { _p: u8 }
#[verifier::external_body] struct SamplingResult { _p: u8 }
#[verifier::external_body] struct SdkTracer { _p: u8 }
uninterp spec fn sid(sc: SpanContext) -> SpanId;
impl SpanContext { #[verifier::external_body] fn span_id(&self) -> (r: SpanId) ensures r == sid(*self) { unimplemented!() } }
uninterp spec fn internal() -> SpanKind;
#[verifier::external_body] fn span_kind_internal() -> (r: SpanKind) ensures r == internal() { unimplemented!() }
#[verifier::external_body] fn now() -> SystemTime { unimplemented!() }
#[verifier::external_body] fn clone_tracer(t: &SdkTracer) -> (r: SdkTracer) ensures r == *t { unimplemented!() }
//@gsubst Cow<'static, str> ~> Name
//@gsubst crate::trace::SdkTracer ~> SdkTracer
//@gsubst crate::trace::SpanEvents ~> SpanEvents
//@gsubst crate::trace::SpanLinks ~> SpanLinks
//@gsubst time::SystemTime ~> SystemTime

//@item opentelemetry/src/trace/mod.rs struct Event
//@item opentelemetry/src/trace/mod.rs struct Link
//@item opentelemetry-sdk/src/trace/events.rs struct SpanEvents
//@item opentelemetry-sdk/src/trace/links.rs struct SpanLinks
//@item opentelemetry-sdk/src/trace/span_limit.rs struct SpanLimits
//@item opentelemetry-sdk/src/trace/span.rs struct Span
//@item opentelemetry-sdk/src/trace/span.rs struct SpanData
//@item opentelemetry/src/trace/tracer.rs struct SpanBuilder

// derived Default: no elements, nothing dropped
impl SpanEvents { fn default() -> (r: SpanEvents) ensures r.events@ == Seq::<Event>::empty(), r.dropped_count == 0 { SpanEvents { events: Vec::new(), dropped_count: 0 } } }
impl SpanLinks { fn default() -> (r: SpanLinks) ensures r.links@ == Seq::<Link>::empty(), r.dropped_count == 0 { SpanLinks { links: Vec::new(), dropped_count: 0 } } }

spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }
/// `kept` is the leading part of `all` that fits the limit, and `dropped` counts the rest
spec fn cut<T>(kept: Seq<T>, dropped: u32, all: Seq<T>, limit: u32) -> bool {
    kept =~= all.take(min(all.len() as int, limit as int)) && dropped == all.len() - kept.len()
}
spec fn event_cut(e: Event, orig: Event, l: SpanLimits) -> bool {
    e.name == orig.name && e.timestamp == orig.timestamp && cut(e.attributes@, e.dropped_attributes_count, orig.attributes@, l.max_attributes_per_event)
}
spec fn link_cut(k: Link, orig: Link, l: SpanLimits) -> bool {
    k.span_context == orig.span_context && cut(k.attributes@, k.dropped_attributes_count, orig.attributes@, l.max_attributes_per_link)
}
spec fn events_cut(es: SpanEvents, orig: Seq<Event>, l: SpanLimits) -> bool {
    &&& es.events@.len() == min(orig.len() as int, l.max_events_per_span as int)
    &&& es.dropped_count == orig.len() - es.events@.len()
    &&& forall|i: int| 0 <= i < es.events@.len() ==> event_cut(#[trigger] es.events@[i], orig[i], l)
}
spec fn links_cut(ls: SpanLinks, orig: Seq<Link>, l: SpanLimits) -> bool {
    &&& ls.links@.len() == min(orig.len() as int, l.max_links_per_span as int)
    &&& ls.dropped_count == orig.len() - ls.links@.len()
    &&& forall|i: int| 0 <= i < ls.links@.len() ==> link_cut(#[trigger] ls.links@[i], orig[i], l)
}
/// every collection is within its limit
spec fn within(d: SpanData, l: SpanLimits) -> bool {
    &&& d.attributes@.len() <= l.max_attributes_per_span
    &&& d.events.events@.len() <= l.max_events_per_span
    &&& d.links.links@.len() <= l.max_links_per_span
    &&& forall|i: int| 0 <= i < d.events.events@.len() ==> (#[trigger] d.events.events@[i]).attributes@.len() <= l.max_attributes_per_event
    &&& forall|i: int| 0 <= i < d.links.links@.len() ==> (#[trigger] d.links.links@[i]).attributes@.len() <= l.max_attributes_per_link
}
spec fn small<T>(s: Seq<T>) -> bool { s.len() < 0x1_0000_0000 }
spec fn opt_seq<T>(o: Option<Vec<T>>) -> Seq<T> { match o { Some(v) => v@, None => Seq::empty() } }

impl Event {
//@fn opentelemetry/src/trace/mod.rs impl Event :: fn new
//@ret r
//@subst fn new<T: Into<Name>>(name: T, ~> fn new(name: Name,
//@subst name: name.into(), ~> name: name,
//@contract
    ensures r.name == name, r.timestamp == timestamp, r.attributes == attributes, r.dropped_attributes_count == dropped_attributes_count,
//@endfn
}
impl Link {
//@fn opentelemetry/src/trace/mod.rs impl Link :: fn new
//@ret r
//@contract
    ensures r.span_context == span_context, r.attributes == attributes, r.dropped_attributes_count == dropped_attributes_count,
//@endfn
}
impl SpanEvents {
//@fn opentelemetry-sdk/src/trace/events.rs impl SpanEvents :: fn add_event
//@contract
    ensures final(self).events@ == old(self).events@.push(event), final(self).dropped_count == old(self).dropped_count,
//@endfn
}
impl SpanLinks {
//@fn opentelemetry-sdk/src/trace/links.rs impl SpanLinks :: fn add_link
//@contract
    ensures final(self).links@ == old(self).links@.push(link), final(self).dropped_count == old(self).dropped_count,
//@endfn
}

//@fn opentelemetry-sdk/src/trace/span_limit.rs impl Default for SpanLimits :: fn default
//@name default_limits
//@subst -> Self ~> -> SpanLimits
//@ret r
//@contract
    ensures r.max_events_per_span == 128, r.max_attributes_per_span == 128, r.max_links_per_span == 128,
        r.max_attributes_per_event == 128, r.max_attributes_per_link == 128,
//@endfn
//@item opentelemetry-sdk/src/trace/span_limit.rs const DEFAULT_MAX_EVENT_PER_SPAN
//@item opentelemetry-sdk/src/trace/span_limit.rs const DEFAULT_MAX_ATTRIBUTES_PER_SPAN
//@item opentelemetry-sdk/src/trace/span_limit.rs const DEFAULT_MAX_LINKS_PER_SPAN
//@item opentelemetry-sdk/src/trace/span_limit.rs const DEFAULT_MAX_ATTRIBUTES_PER_EVENT
//@item opentelemetry-sdk/src/trace/span_limit.rs const DEFAULT_MAX_ATTRIBUTES_PER_LINK

impl Span {
//@fn opentelemetry-sdk/src/trace/span.rs impl ! Span :: fn new
//@ret r
//@contract
    ensures r.span_context == span_context, r.data == data, r.tracer == tracer, r.span_limits == span_limit,
//@endfn

//@fn opentelemetry-sdk/src/trace/span.rs impl opentelemetry::trace::Span for Span :: fn set_attribute
//@subst self.with_data(|data| { $$b }); ~> if let Some(data) = self.data.as_mut() { $$b }
//@contract
    requires old(self).data.is_some() ==> old(self).data->0.dropped_attributes_count < u32::MAX,
    ensures
        final(self).span_limits == old(self).span_limits,
        final(self).data.is_some() == old(self).data.is_some(),
        old(self).data.is_some() ==> ({
            let d = old(self).data->0; let e = final(self).data->0;
            &&& e == (SpanData { attributes: e.attributes, dropped_attributes_count: e.dropped_attributes_count, ..d })
            &&& if d.attributes@.len() < old(self).span_limits.max_attributes_per_span {
                    e.attributes@ == d.attributes@.push(attribute) && e.dropped_attributes_count == d.dropped_attributes_count
                } else {
                    e.attributes == d.attributes && e.dropped_attributes_count == d.dropped_attributes_count + 1
                }
            &&& within(d, old(self).span_limits) ==> within(e, old(self).span_limits)
        }),
//@endfn

//@fn opentelemetry-sdk/src/trace/span.rs impl opentelemetry::trace::Span for Span :: fn add_event_with_timestamp
//@subst fn add_event_with_timestamp<T>(&mut self, name: T, ~> fn add_event_with_timestamp(&mut self, name: Name,
//@subst where T: Into<Name>, ~>
//@subst self.with_data(|data| { $$b }); ~> if let Some(data) = self.data.as_mut() { $$b }
//@subst data.events.len() ~> data.events.events.len()
//@contract
    requires old(self).data.is_some() ==> old(self).data->0.events.dropped_count < u32::MAX, small(attributes@),
    ensures
        final(self).span_limits == old(self).span_limits,
        final(self).data.is_some() == old(self).data.is_some(),
        old(self).data.is_some() ==> ({
            let d = old(self).data->0; let e = final(self).data->0; let l = old(self).span_limits;
            &&& e == (SpanData { events: e.events, ..d })
            &&& if d.events.events@.len() < l.max_events_per_span {
                    &&& e.events.events@.len() == d.events.events@.len() + 1
                    &&& e.events.events@.drop_last() =~= d.events.events@
                    &&& e.events.events@.last().name == name && e.events.events@.last().timestamp == timestamp
                    &&& cut(e.events.events@.last().attributes@, e.events.events@.last().dropped_attributes_count, attributes@, l.max_attributes_per_event)
                    &&& e.events.dropped_count == d.events.dropped_count
                } else {
                    e.events.events == d.events.events && e.events.dropped_count == d.events.dropped_count + 1
                }
            &&& within(d, l) ==> within(e, l)
        }),
//@endfn

//@fn opentelemetry-sdk/src/trace/span.rs impl opentelemetry::trace::Span for Span :: fn add_link
//@subst self.with_data(|data| { $$b }); ~> if let Some(data) = self.data.as_mut() { $$b }
//@contract
    requires old(self).data.is_some() ==> old(self).data->0.links.dropped_count < u32::MAX, small(attributes@),
    ensures
        final(self).span_limits == old(self).span_limits,
        final(self).data.is_some() == old(self).data.is_some(),
        old(self).data.is_some() ==> ({
            let d = old(self).data->0; let e = final(self).data->0; let l = old(self).span_limits;
            &&& e == (SpanData { links: e.links, ..d })
            &&& if d.links.links@.len() < l.max_links_per_span {
                    &&& e.links.links@.len() == d.links.links@.len() + 1
                    &&& e.links.links@.drop_last() =~= d.links.links@
                    &&& e.links.links@.last().span_context == span_context
                    &&& cut(e.links.links@.last().attributes@, e.links.links@.last().dropped_attributes_count, attributes@, l.max_attributes_per_link)
                    &&& e.links.dropped_count == d.links.dropped_count
                } else {
                    e.links.links == d.links.links && e.links.dropped_count == d.links.dropped_count + 1
                }
            &&& within(d, l) ==> within(e, l)
        }),
//@endfn
}

impl SdkTracer {
//@fn opentelemetry-sdk/src/trace/tracer.rs impl SdkTracer :: fn build_recording_span
//@ret r
//@subst opentelemetry::time::now ~> now
//@subst self.clone() ~> clone_tracer(self)
//@subst unwrap_or(SpanKind::Internal) ~> unwrap_or(span_kind_internal())
//@contract
    requires
        small(opt_seq(builder.attributes) + attrs@), opt_seq(builder.attributes).len() + attrs@.len() < 0x1_0000_0000,
        small(opt_seq(builder.links)), small(opt_seq(builder.events)),
        forall|i: int| 0 <= i < opt_seq(builder.links).len() ==> small((#[trigger] opt_seq(builder.links)[i]).attributes@),
        forall|i: int| 0 <= i < opt_seq(builder.events).len() ==> small((#[trigger] opt_seq(builder.events)[i]).attributes@),
    ensures
        r.span_context == sc, r.tracer == *self, r.span_limits == span_limits, r.data.is_some(),
        ({
            let d = r.data->0;
            // builder attributes first, then the sampler's, cut at the limit
            &&& cut(d.attributes@, d.dropped_attributes_count, (opt_seq(builder.attributes) + attrs@), span_limits.max_attributes_per_span)
            &&& events_cut(d.events, opt_seq(builder.events), span_limits)
            &&& links_cut(d.links, opt_seq(builder.links), span_limits)
            &&& d.parent_span_id == sid(*psc)
            &&& d.name == builder.name && d.status == builder.status
            &&& d.span_kind == (match builder.span_kind { Some(k) => k, None => internal() })
            &&& builder.start_time.is_some() ==> d.start_time == builder.start_time->0
            &&& builder.end_time.is_some() ==> d.end_time == builder.end_time->0
            &&& builder.end_time.is_none() ==> d.end_time == d.start_time
            &&& within(d, span_limits)
        }),
//@loop 0 it
        invariant
            attribute_options@ == opt_seq(old_builder.attributes) + attrs@.take(it.index@),
            it.seq() == attrs@,
//@loop 1 it
        invariant
            link_attributes_limit == span_limits.max_attributes_per_link,
            it.seq().len() == min(opt_seq(old_builder.links).len() as int, spans_links_limit as int),
            forall|i: int| 0 <= i < opt_seq(old_builder.links).len() ==> small((#[trigger] opt_seq(old_builder.links)[i]).attributes@),
            forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == opt_seq(old_builder.links)[i],
            forall|i: int| 0 <= i < it.index@ ==> link_cut(*final(#[trigger] it.seq()[i]), opt_seq(old_builder.links)[i], span_limits),
//@loop 2 it
        invariant
            event_attributes_limit == span_limits.max_attributes_per_event,
            it.seq().len() == min(opt_seq(old_builder.events).len() as int, spans_events_limit as int),
            forall|i: int| 0 <= i < opt_seq(old_builder.events).len() ==> small((#[trigger] opt_seq(old_builder.events)[i]).attributes@),
            forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == opt_seq(old_builder.events)[i],
            forall|i: int| 0 <= i < it.index@ ==> event_cut(*final(#[trigger] it.seq()[i]), opt_seq(old_builder.events)[i], span_limits),
//@start
    let ghost old_builder = builder;
//@endfn
}

} // verus!
fn main() {}

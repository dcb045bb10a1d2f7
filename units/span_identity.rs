// Unit: who a new span is (opentelemetry-sdk/src/trace/tracer.rs build_with_context; opentelemetry/src/trace_context.rs TraceFlags).
use vstd::prelude::*;
verus! {

#[verifier::external_body] struct KeyValue { _p: u8 }
#[verifier::external_body] struct Name { _p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct SystemTime { _p: u8 }
#[verifier::external_body] struct TraceStateEntries { _p: u8 }
struct TraceState(Option<TraceStateEntries>);
impl TraceState {
//@item opentelemetry/src/trace/span_context.rs impl TraceState :: const NONE
}
//@item opentelemetry/src/trace_context.rs struct TraceId
//@item opentelemetry/src/trace_context.rs struct SpanId
impl Copy for TraceId {}
impl Clone for TraceId { fn clone(&self) -> (r: TraceId) ensures r == *self { *self } }
impl Copy for SpanId {}
impl Clone for SpanId { fn clone(&self) -> (r: SpanId) ensures r == *self { *self } }
impl TraceId {
//@item opentelemetry/src/trace_context.rs impl TraceId :: const INVALID
}
impl SpanId {
//@item opentelemetry/src/trace_context.rs impl SpanId :: const INVALID
}
pub assume_specification<T, P: FnOnce(&T) -> bool> [Option::<T>::filter](o: Option<T>, p: P) -> (r: Option<T>)
    where T: core::marker::Destruct, P: core::marker::Destruct
    requires o.is_some() ==> p.requires((&o->0,)),
    ensures match o { None => r.is_none(), Some(x) => (r == o && p.ensures((&x,), true)) || (r.is_none() && p.ensures((&x,), false)) };
#[verifier::external_body] struct SpanKind { _p: u8 }
#[verifier::external_body] struct Status { _p: u8 }
#[verifier::external_body] struct Event { _p: u8 }
#[verifier::external_body] struct Link { _p: u8 }
#[verifier::external_body] struct SpanData { _p: u8 }
//@gsubst Cow<'static, str> ~> Name
//@item opentelemetry/src/trace_context.rs struct TraceFlags
impl Copy for TraceFlags {}
impl Clone for TraceFlags { fn clone(&self) -> (r: TraceFlags) ensures r == *self { *self } }
impl TraceFlags {
//@item opentelemetry/src/trace_context.rs impl TraceFlags :: const NOT_SAMPLED
//@item opentelemetry/src/trace_context.rs impl TraceFlags :: const SAMPLED
//@fn opentelemetry/src/trace_context.rs impl TraceFlags :: fn new
//@ret r
//@contract
    ensures r.0 == flags,
//@endfn
    fn default() -> (r: TraceFlags) ensures r.0 == 0 { TraceFlags(0) }
    spec fn sampled(&self) -> bool { self.0 & 1 == 1 }
//@fn opentelemetry/src/trace_context.rs impl TraceFlags :: fn is_sampled
//@ret r
//@subst (*self & TraceFlags::SAMPLED) == TraceFlags::SAMPLED ~> (self.0 & TraceFlags::SAMPLED.0) == TraceFlags::SAMPLED.0
//@contract
    ensures r == self.sampled(),
//@endfn
//@fn opentelemetry/src/trace_context.rs impl TraceFlags :: fn with_sampled
//@ret r
//@subst *self | TraceFlags::SAMPLED ~> TraceFlags(self.0 | TraceFlags::SAMPLED.0)
//@subst *self & !TraceFlags::SAMPLED ~> TraceFlags(self.0 & !TraceFlags::SAMPLED.0)
//@contract
    ensures r.0 == (if sampled { self.0 | 1 } else { self.0 & !1u8 }), r.sampled() == sampled,
        r.0 & 0xfe == self.0 & 0xfe,
//@start
    let f = self.0;
    assert((f | 1) & 1 == 1 && (f & !1u8) & 1 == 0 && (f | 1) & 0xfe == f & 0xfe && (f & !1u8) & 0xfe == f & 0xfe) by (bit_vector);
//@endfn
//@fn opentelemetry/src/trace_context.rs impl TraceFlags :: fn to_u8
//@ret r
//@contract
    ensures r == self.0,
//@endfn
}
//@fn opentelemetry/src/trace_context.rs impl BitAnd for TraceFlags :: fn bitand
//@ret r
//@subst fn bitand(self, rhs: Self) -> Self::Output ~> fn flags_and(this: TraceFlags, rhs: TraceFlags) -> TraceFlags
//@subst Self(self.0 & rhs.0) ~> TraceFlags(this.0 & rhs.0)
//@contract
    ensures r.0 == this.0 & rhs.0,
//@endfn
//@fn opentelemetry/src/trace_context.rs impl BitOr for TraceFlags :: fn bitor
//@ret r
//@subst fn bitor(self, rhs: Self) -> Self::Output ~> fn flags_or(this: TraceFlags, rhs: TraceFlags) -> TraceFlags
//@subst Self(self.0 | rhs.0) ~> TraceFlags(this.0 | rhs.0)
//@contract
    ensures r.0 == this.0 | rhs.0,
//@endfn
//@fn opentelemetry/src/trace_context.rs impl Not for TraceFlags :: fn not
//@ret r
//@subst fn not(self) -> Self::Output ~> fn flags_not(this: TraceFlags) -> TraceFlags
//@subst Self(!self.0) ~> TraceFlags(!this.0)
//@contract
    ensures r.0 == !this.0,
//@endfn

//@item opentelemetry/src/trace/span_context.rs struct SpanContext
spec fn blank(sc: SpanContext) -> bool { sc.trace_id.0 == 0 && sc.span_id.0 == 0 && sc.trace_flags.0 == 0 && !sc.is_remote }
impl SpanContext {
    spec fn valid(&self) -> bool { self.trace_id.0 != 0 && self.span_id.0 != 0 }
//@item opentelemetry/src/trace/span_context.rs impl SpanContext :: const NONE
//@fn opentelemetry/src/trace/span_context.rs impl SpanContext :: fn empty_context
//@ret r
//@contract
    ensures blank(r), !r.valid(),
//@endfn
//@fn opentelemetry/src/trace/span_context.rs impl SpanContext :: fn is_valid
//@ret r
//@subst self.trace_id != TraceId::INVALID ~> self.trace_id.0 != TraceId::INVALID.0
//@subst self.span_id != SpanId::INVALID ~> self.span_id.0 != SpanId::INVALID.0
//@contract
    ensures r == self.valid(),
//@endfn
//@fn opentelemetry/src/trace/span_context.rs impl SpanContext :: fn new
//@ret r
//@contract
    ensures r.trace_id == trace_id, r.span_id == span_id, r.trace_flags == trace_flags, r.is_remote == is_remote, r.trace_state == trace_state,
//@endfn
//@fn opentelemetry/src/trace/span_context.rs impl SpanContext :: fn trace_id
//@ret r
//@contract
    ensures r == self.trace_id,
//@endfn
//@fn opentelemetry/src/trace/span_context.rs impl SpanContext :: fn span_id
//@ret r
//@contract
    ensures r == self.span_id,
//@endfn
//@fn opentelemetry/src/trace/span_context.rs impl SpanContext :: fn trace_flags
//@ret r
//@contract
    ensures r == self.trace_flags,
//@endfn
//@fn opentelemetry/src/trace/span_context.rs impl SpanContext :: fn is_sampled
//@ret r
//@contract
    ensures r == self.trace_flags.sampled(),
//@endfn
//@fn opentelemetry/src/trace/span_context.rs impl SpanContext :: fn is_remote
//@ret r
//@contract
    ensures r == self.is_remote,
//@endfn
//@fn opentelemetry/src/trace/span_context.rs impl SpanContext :: fn trace_state
//@ret r
//@contract
    ensures *r == self.trace_state,
//@endfn
}

//@item opentelemetry-sdk/src/trace/span_limit.rs struct SpanLimits
impl Copy for SpanLimits {}
impl Clone for SpanLimits { fn clone(&self) -> (r: SpanLimits) ensures r == *self { *self } }
impl SpanLimits { #[verifier::external_body] fn default() -> SpanLimits { unimplemented!() } }
//@item opentelemetry/src/trace/tracer.rs struct SpanBuilder
//@item opentelemetry/src/trace/tracer.rs struct SamplingResult
//@item opentelemetry/src/trace/tracer.rs enum SamplingDecision

// ---- the context the span is started under: its active span, if any, and the suppression flag
#[verifier::external_body] struct Context { _p: u8 }
impl Context {
    uninterp spec fn suppressed(&self) -> bool;
    uninterp spec fn active(&self) -> Option<SpanContext>;
    #[verifier::external_body] fn is_telemetry_suppressed(&self) -> (r: bool) ensures r == self.suppressed() { unimplemented!() }
    #[verifier::external_body] fn has_active_span(&self) -> (r: bool) ensures r == self.active().is_some() { unimplemented!() }
    #[verifier::external_body] fn span(&self) -> (r: SpanRef<'_>)
        ensures self.active().is_some() ==> *r.0 == self.active()->0, self.active().is_none() ==> blank(*r.0) { unimplemented!() }
}
struct SpanRef<'a>(&'a SpanContext);
impl<'a> SpanRef<'a> { fn span_context(&self) -> (r: &'a SpanContext) ensures r == self.0 { self.0 } }

// ---- configuration: id generator and sampler are the user's (any implementation)
#[verifier::external_body] struct IdGenerator { _p: u8 }
impl IdGenerator {
    #[verifier::external_body] fn new_span_id(&self) -> SpanId { unimplemented!() }
    #[verifier::external_body] fn new_trace_id(&self) -> TraceId { unimplemented!() }
}
#[verifier::external_body] struct Sampler { _p: u8 }
/// what the sampler answers for this context, trace, name, kind, attributes and links
uninterp spec fn asked(s: Sampler, cx: Option<&Context>, t: TraceId, name: Name, kind: Option<SpanKind>, attrs: Option<Vec<KeyValue>>, links: Option<Vec<Link>>) -> SamplingResult;
struct Config { id_generator: IdGenerator, sampler: Sampler, span_limits: SpanLimits }
struct SdkTracerProvider { shut: bool, config: Config }
impl SdkTracerProvider {
    fn is_shutdown(&self) -> (r: bool) ensures r == self.shut { self.shut }
    fn config(&self) -> (r: &Config) ensures *r == self.config { &self.config }
}
#[verifier::external_body]
fn ask(s: &Sampler, cx: Option<&Context>, t: TraceId, name: &Name, kind: &Option<SpanKind>, attrs: &Option<Vec<KeyValue>>, links: &Option<Vec<Link>>) -> (r: SamplingResult)
    ensures r == asked(*s, cx, t, *name, *kind, *attrs, *links)
{ unimplemented!() }
struct SdkTracer { provider: SdkTracerProvider }
impl SdkTracer { #[verifier::external_body] fn clone(&self) -> (r: SdkTracer) ensures r == *self { unimplemented!() } }

struct Span { span_context: SpanContext, data: Option<SpanData>, tracer: SdkTracer, span_limits: SpanLimits }
uninterp spec fn parent_id(d: SpanData) -> SpanId;
impl Span {
    fn new(span_context: SpanContext, data: Option<SpanData>, tracer: SdkTracer, span_limit: SpanLimits) -> (r: Span)
        ensures r == (Span { span_context, data, tracer, span_limits: span_limit })
    { Span { span_context, data, tracer, span_limits: span_limit } }
}
impl SdkTracer {
    fn provider(&self) -> (r: &SdkTracerProvider) ensures *r == self.provider { &self.provider }
    // contract discharged in span_limits.rs
    #[verifier::external_body]
    fn build_recording_span(&self, psc: &SpanContext, sc: SpanContext, builder: SpanBuilder, attrs: Vec<KeyValue>, span_limits: SpanLimits) -> (r: Span)
        ensures r.span_context == sc, r.data.is_some(), parent_id(r.data->0) == psc.span_id, r.tracer == *self, r.span_limits == span_limits
    { unimplemented!() }
}
/// processors see the new span through the public Span API, which cannot replace its span context
uninterp spec fn hooked(before: Span, after: Span, cx: Context) -> bool;
#[verifier::external_body]
fn on_start_all(p: &SdkTracerProvider, span: &mut Span, cx: &Context)
    ensures hooked(*old(span), *final(span), *cx), final(span).span_context == old(span).span_context
{ unimplemented!() }

spec fn decided(b: SpanBuilder, c: Config, cx: &Context, t: TraceId) -> SamplingResult {
    match b.sampling_result { Some(sr) => sr, None => asked(c.sampler, Some(cx), t, b.name, b.span_kind, b.attributes, b.links) }
}

impl SdkTracer {
//@fn opentelemetry-sdk/src/trace/tracer.rs impl opentelemetry::trace::Tracer for SdkTracer :: fn build_with_context
//@ret r
//@subst -> Self::Span ~> -> Span
//@subst parent_span.as_ref().map(|$p| $q.span_context()) ~> (match parent_span.as_ref() { Some(parent) => Some(parent.span_context()), None => None })
//@subst .filter(|$s| $t.is_valid()) ~> .filter(|$s: &&SpanContext| -> (r: bool) ensures r == $s.valid() { $t.is_valid() })
//@subst config.sampler.should_sample( Some(parent_cx), trace_id, &builder.name, builder.span_kind.as_ref().unwrap_or(&SpanKind::Internal), builder.attributes.as_ref().unwrap_or(&Vec::new()), builder.links.as_deref().unwrap_or(&[]), ) ~> ask(&config.sampler, Some(parent_cx), trace_id, &builder.name, &builder.span_kind, &builder.attributes, &builder.links)
//@subst for processor in provider.span_processors() { processor.on_start(&mut span, parent_cx) } ~> on_start_all(provider, &mut span, parent_cx);
//@subst .unwrap_or_else(|| config.id_generator.new_span_id()) ~> .unwrap_or_else(|| -> SpanId { config.id_generator.new_span_id() })
//@contract
    ensures
        // suppressed or shut down: nothing is recorded
        parent_cx.suppressed() || self.provider.shut ==> r.data.is_none() && blank(r.span_context),
        !parent_cx.suppressed() && !self.provider.shut ==> ({
            let b = builder;
            let c = self.provider.config;
            let sc = r.span_context;
            let sr = decided(b, c, parent_cx, sc.trace_id);
            let parent: Option<SpanContext> = match parent_cx.active() { Some(p) => if p.valid() { Some(p) } else { None }, None => None };
            let inherited: u8 = if parent_cx.active().is_some() { parent_cx.active()->0.trace_flags.0 } else { 0 };
            // it joins a valid parent's trace; ids preset in the builder are used otherwise
            &&& parent.is_some() ==> sc.trace_id == parent->0.trace_id
            &&& parent.is_none() && b.trace_id.is_some() ==> sc.trace_id == b.trace_id->0
            &&& b.span_id.is_some() ==> sc.span_id == b.span_id->0
            &&& !sc.is_remote
            // the sampler's decision is the sampled flag, other flag bits are inherited; its trace state is the span's
            &&& sc.trace_state == sr.trace_state
            &&& sr.decision is RecordAndSample ==> sc.trace_flags.0 == inherited | 1
            &&& sr.decision is RecordOnly ==> sc.trace_flags.0 == inherited & !1u8
            &&& sr.decision is Drop ==> !sc.trace_flags.sampled()
            // recording iff not dropped, child of the active span or root; every processor was shown that span
            &&& exists|s: Span| #[trigger] hooked(s, r, *parent_cx) && s.span_context == sc && s.data.is_some() == !(sr.decision is Drop)
                && s.span_limits == c.span_limits
                && (s.data.is_some() ==> parent_id(s.data->0) == (if parent.is_some() { parent->0.span_id } else { SpanId(0) }))
        }),
//@start
    assert(0u8 & 1 == 0 && 0u8 & !1u8 == 0u8) by (bit_vector);
//@endfn
}

} // verus!
fn main() {}

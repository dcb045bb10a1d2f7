// Unit: the samplers' structure (opentelemetry-sdk/src/trace/sampler.rs). The ratio's arithmetic is decided by Kani (kani/ratio.rs).
use vstd::prelude::*;
verus! {

#[verifier::external_body] struct KeyValue { _p: u8 }
#[verifier::external_body] struct Link { _p: u8 }
#[verifier::external_body] struct SpanKind { _p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct TraceId { _p: u8 }
#[verifier::external_body] struct TraceState { _p: u8 }
uninterp spec fn ts_default() -> TraceState;
impl TraceState {
    #[verifier::external_body] fn default() -> (r: TraceState) ensures r == ts_default() { unimplemented!() }
    #[verifier::external_body] fn clone(&self) -> (r: TraceState) ensures r == *self { unimplemented!() }
}
struct SpanContext { sampled: bool, trace_state: TraceState }
impl SpanContext {
    fn is_sampled(&self) -> (r: bool) ensures r == self.sampled { self.sampled }
    fn trace_state(&self) -> (r: &TraceState) ensures *r == self.trace_state { &self.trace_state }
}
struct SpanRef { sc: SpanContext }
impl SpanRef { fn span_context(&self) -> (r: &SpanContext) ensures *r == self.sc { &self.sc } }
struct Context { active: bool, span: SpanRef }
impl Context {
    fn has_active_span(&self) -> (r: bool) ensures r == self.active { self.active }
    fn span(&self) -> (r: &SpanRef) ensures *r == self.span { &self.span }
}
//@item opentelemetry/src/trace/tracer.rs enum SamplingDecision
//@item opentelemetry/src/trace/tracer.rs struct SamplingResult
pub assume_specification<T, P: FnOnce(&T) -> bool> [Option::<T>::filter](o: Option<T>, p: P) -> (r: Option<T>)
    where T: core::marker::Destruct, P: core::marker::Destruct
    requires o.is_some() ==> p.requires((&o->0,)),
    ensures match o { None => r.is_none(), Some(x) => (r == o && p.ensures((&x,), true)) || (r.is_none() && p.ensures((&x,), false)) };

/// any sampler: a function of what it is asked
#[verifier::external_body] struct Delegate { _p: u8 }
impl Delegate {
    uninterp spec fn says(&self, parent: Option<Context>, id: TraceId, name: Seq<char>, kind: SpanKind, attrs: Seq<KeyValue>, links: Seq<Link>) -> SamplingDecision;
    #[verifier::external_body]
    fn should_sample(&self, parent_context: Option<&Context>, trace_id: TraceId, name: &str, span_kind: &SpanKind, attributes: &[KeyValue], links: &[Link]) -> (r: SamplingResult)
        ensures r.decision == self.says(match parent_context { Some(c) => Some(*c), None => None }, trace_id, name@, *span_kind, attributes@, links@)
    { unimplemented!() }
}
#[verifier::external_body] struct Ratio { _p: u8 }
uninterp spec fn ratio_says(p: Ratio, id: TraceId) -> SamplingDecision;
#[verifier::external_body]
fn sample_based_on_probability(p: &Ratio, id: TraceId) -> (r: SamplingDecision) ensures r == ratio_says(*p, id) { unimplemented!() }
//@gsubst Box<dyn ShouldSample> ~> Delegate
//@gsubst JaegerRemoteSampler ~> Delegate
//@gsubst f64 ~> Ratio
//@item opentelemetry-sdk/src/trace/sampler.rs enum Sampler

spec fn parent_says(c: Context) -> SamplingDecision { if c.span.sc.sampled { SamplingDecision::RecordAndSample } else { SamplingDecision::Drop } }
impl Sampler {
    spec fn expected(&self, parent: Option<Context>, id: TraceId, name: Seq<char>, kind: SpanKind, attrs: Seq<KeyValue>, links: Seq<Link>) -> Option<SamplingDecision> {
        match self {
            Sampler::AlwaysOn => Some(SamplingDecision::RecordAndSample),
            Sampler::AlwaysOff => Some(SamplingDecision::Drop),
            // the parent's decision if there is a parent span, otherwise the delegate's, asked with the same arguments
            Sampler::ParentBased(d) => if parent.is_some() && parent->0.active { Some(parent_says(parent->0)) } else { Some(d.says(parent, id, name, kind, attrs, links)) },
            Sampler::TraceIdRatioBased(p) => Some(ratio_says(*p, id)),
            _ => None,
        }
    }
//@fn opentelemetry-sdk/src/trace/sampler.rs impl ShouldSample for Sampler :: fn should_sample
//@ret r
//@subst .filter(|cx| cx.has_active_span()) ~> .filter(|cx: &&Context| -> (q: bool) ensures q == cx.active { cx.has_active_span() })
//@subst parent_context.filter($$f).map_or_else(|| { $$a }, |ctx| { $$b } $$c) ~> match parent_context.filter($$f) { None => { $$a }, Some(ctx) => { $$b } }
//@contract
    ensures ({
        let p = match parent_context { Some(c) => Some(*c), None => None };
        let e = self.expected(p, trace_id, name@, *span_kind, attributes@, links@);
        &&& e.is_some() ==> r.decision == e->0
        &&& r.attributes@.len() == 0
        &&& r.trace_state == (match p { Some(c) => c.span.sc.trace_state, None => ts_default() })
    }),
//@endfn
}
} // verus!
fn main() {}

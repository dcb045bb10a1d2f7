// Kani unit: the ratio sampler (opentelemetry-sdk/src/trace/sampler.rs), over every f64 and every trace id.
#![allow(unused)]
use std::convert::{TryFrom, TryInto};
//@gsubst crate::trace::SamplingDecision ~> SamplingDecision
//@item opentelemetry/src/trace_context.rs struct TraceId
impl TraceId {
//@fn opentelemetry/src/trace_context.rs impl TraceId :: fn to_bytes
//@endfn
}
//@item opentelemetry/src/trace/tracer.rs enum SamplingDecision
//@fn opentelemetry-sdk/src/trace/sampler.rs fn sample_based_on_probability
//@endfn

#[cfg(kani)]
mod proofs {
    use super::*;
    fn yes(d: &SamplingDecision) -> bool { matches!(d, SamplingDecision::RecordAndSample) }
    /// floor(p * 2^63) for 0 <= p < 1, from the bits of p
    fn scaled(p: f64) -> u64 {
        let b = p.to_bits();
        let e = ((b >> 52) & 0x7ff) as i32;
        let m = (b & ((1u64 << 52) - 1)) | if e == 0 { 0 } else { 1u64 << 52 };
        let sh = (if e == 0 { 1 } else { e }) - 1075 + 63;
        if sh >= 0 { m << sh } else if sh > -64 { m >> (-sh) } else { 0 }
    }
    #[kani::proof]
    fn decision_is_the_threshold_on_the_low_bits() {
        let p: f64 = kani::any();
        let id: u128 = kani::any();
        let d = sample_based_on_probability(&p, TraceId(id));
        kani::cover!(yes(&d) && p < 1.0);
        kani::cover!(!yes(&d) && p > 0.5);
        let low = (id as u64) >> 1;
        let want = if p >= 1.0 { true } else if p > 0.0 { low < scaled(p) } else { false };
        assert!(yes(&d) == want, "sampled exactly if the trace id's random part is below ratio * 2^63");
        assert!(!matches!(d, SamplingDecision::RecordOnly), "never record only");
    }
    #[kani::proof]
    fn a_higher_ratio_samples_every_trace_a_lower_one_does() {
        let p: f64 = kani::any();
        let q: f64 = kani::any();
        kani::assume(p <= q);
        let id: u128 = kani::any();
        let a = yes(&sample_based_on_probability(&p, TraceId(id)));
        let b = yes(&sample_based_on_probability(&q, TraceId(id)));
        kani::cover!(a && b && q < 1.0);
        assert!(!a || b, "monotone in the ratio");
    }
}

// C13 samplers.
use crate::common::Ctx;
use opentelemetry::trace::{SamplingDecision, SamplingResult, SpanContext, SpanId, SpanKind, TraceContextExt, TraceFlags, TraceId, TraceState, Tracer, TracerProvider, Link};
use opentelemetry::{Context, KeyValue};
use opentelemetry_sdk::trace::{Sampler, SdkTracerProvider, ShouldSample};
use std::sync::{Arc, Mutex};

fn ask(s: &Sampler, p: Option<&Context>, id: u128) -> SamplingResult { s.should_sample(p, TraceId::from(id), "n", &SpanKind::Server, &[KeyValue::new("k", 1)], &[]) }
fn sampled(r: &SamplingResult) -> bool { r.decision == SamplingDecision::RecordAndSample }
/// ratio * 2^63 rounded down, by integers only
fn threshold(p: f64) -> u64 {
    if !(p > 0.0) { return 0; }
    if p >= 1.0 { return 1 << 63; }
    let b = p.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let m = (b & ((1u64 << 52) - 1)) as u128 | if e == 0 { 0 } else { 1u128 << 52 };
    let sh = (if e == 0 { 1 } else { e }) - 1075 + 63;
    if sh >= 0 { (m << sh) as u64 } else if sh > -120 { (m >> -sh) as u64 } else { 0 }
}
#[derive(Clone, Debug)]
struct Spy(Arc<Mutex<Vec<String>>>, SamplingDecision);
impl ShouldSample for Spy {
    fn should_sample(&self, p: Option<&Context>, id: TraceId, name: &str, kind: &SpanKind, a: &[KeyValue], l: &[Link]) -> SamplingResult {
        self.0.lock().unwrap().push(format!("{} {id} {name} {kind:?} {a:?} {}", p.map(|c| c.span().span_context().trace_id().to_string()).unwrap_or_default(), l.len()));
        SamplingResult { decision: self.1.clone(), attributes: vec![], trace_state: TraceState::from_key_value([("spy", "1")]).unwrap() }
    }
}

pub fn c13(c: &mut Ctx) {
    c.rule = "distinct (ratio, trace id) pairs or (sampler, parent) pairs".into();
    for _ in 0..c.n(6000) {
        let p = c.rng.f64_any();
        let t = threshold(p);
        // ids close to the threshold, and anything in the high half and the lowest bit, which must not matter
        let low = match c.rng.below(5) { 0 => c.rng.next() >> 1, 1 => t, 2 => t.wrapping_sub(1) & (u64::MAX >> 1), 3 => t.wrapping_add(1) & (u64::MAX >> 1), _ => *c.rng.pick(&[0, 1, u64::MAX >> 1, 1 << 62]) } & (u64::MAX >> 1);
        let (h1, h2, l1, l2) = (c.rng.next(), c.rng.next(), c.rng.below(2), c.rng.below(2));
        let id = |h: u64, l: u64| ((h as u128) << 64) | ((low as u128) << 1) | l as u128;
        let q = c.rng.f64_any();
        c.case(format!("ratio {p:?} random part {low:#x} high {h1:#x}/{h2:#x}"), p > 0.0 && p < 1.0, || {
            let s = Sampler::TraceIdRatioBased(p);
            let (a, b) = (sampled(&ask(&s, None, id(h1, l1))), sampled(&ask(&s, None, id(h2, l2))));
            if a != b { return Err("the decision depends on more than the low bits of the trace id".into()); }
            if a != (low < t) { return Err(format!("sampled: {a}, threshold {t:#x}")); }
            let cx = Context::new().with_remote_span_context(SpanContext::new(TraceId::from(1), SpanId::from(1), TraceFlags::new(1), true, TraceState::from_key_value([("a", "b")]).unwrap()));
            let r = ask(&s, Some(&cx), id(h1, l1));
            if sampled(&r) != a { return Err("the decision depends on the parent".into()); }
            if r.trace_state.get("a") != Some("b") { return Err("the parent's trace state is lost".into()); }
            if !p.is_nan() && !q.is_nan() {
                let bq = sampled(&ask(&Sampler::TraceIdRatioBased(q), None, id(h1, l1)));
                if (p <= q && a && !bq) || (q <= p && bq && !a) { return Err(format!("not monotone: ratio {p:?} says {a}, ratio {q:?} says {bq}")); }
            }
            Ok(())
        });
    }
    // structure
    let ids = [0u128, 1, 5, u128::MAX];
    for parent in 0..5 {
        for flags in [0u8, 1, 2, 0xfe, 0xff] {
            for dec in [SamplingDecision::Drop, SamplingDecision::RecordOnly, SamplingDecision::RecordAndSample] {
                for depth in 0..3 {
                    for id in ids {
                        let dec = dec.clone();
                        c.case(format!("parent {parent} flags {flags:#x} delegate {dec:?} depth {depth} id {id}"), parent > 0, || {
                            let ts = TraceState::from_key_value([("a", "b")]).unwrap();
                            let (t, s) = match parent { 1 | 2 => (7u128, 9u64), 3 => (0, 9), _ => (7, 0) };
                            let cx = match parent { 0 => None, 4 => Some(Context::new().with_value(1u8)), _ => Some(Context::new().with_remote_span_context(SpanContext::new(TraceId::from(t), SpanId::from(s), TraceFlags::new(flags), parent == 1, ts.clone()))) };
                            let log = Arc::new(Mutex::new(vec![]));
                            let mut smp = Sampler::ParentBased(Box::new(Spy(log.clone(), dec.clone())));
                            for _ in 0..depth { smp = Sampler::ParentBased(Box::new(smp)); }
                            let r = smp.clone().should_sample(cx.as_ref(), TraceId::from(id), "nm", &SpanKind::Client, &[KeyValue::new("k", 1)], &[]);
                            let has = cx.as_ref().map(|c| c.has_active_span()).unwrap_or(false);
                            let want = if has { if flags & 1 == 1 { SamplingDecision::RecordAndSample } else { SamplingDecision::Drop } } else { dec.clone() };
                            if r.decision != want { return Err(format!("decided {:?}, expected {want:?}", r.decision)); }
                            let l = log.lock().unwrap().clone();
                            if has && !l.is_empty() { return Err("the delegate is asked although there is a parent".into()); }
                            if !has && l != vec![format!("{} {} nm Client {:?} 0", cx.as_ref().map(|c| c.span().span_context().trace_id().to_string()).unwrap_or_default(), TraceId::from(id), vec![KeyValue::new("k", 1)])] { return Err(format!("the delegate was asked {l:?}")); }
                            if !r.attributes.is_empty() { return Err("attributes out of nothing".into()); }
                            let wts = if has { ts } else { TraceState::default() };
                            if r.trace_state != wts { return Err(format!("trace state {:?}", r.trace_state)); }
                            for (s, d) in [(Sampler::AlwaysOn, SamplingDecision::RecordAndSample), (Sampler::AlwaysOff, SamplingDecision::Drop)] {
                                if ask(&s, cx.as_ref(), id).decision != d { return Err(format!("{s:?} decided otherwise")); }
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    }
    // whole traces: every local descendant of a root is decided like the root
    for _ in 0..c.n(60) {
        let p = *c.rng.pick(&[0.0, 0.3, 0.5, 0.9, 1.0]);
        let shape: Vec<usize> = (0..8).map(|i| c.rng.usize(i + 1)).collect();
        c.case(format!("trace of ratio {p} shape {shape:?}"), true, || {
            let tp = SdkTracerProvider::builder().with_sampler(Sampler::ParentBased(Box::new(Sampler::TraceIdRatioBased(p)))).build();
            let tr = tp.tracer("t");
            let mut cxs = vec![Context::new().with_span(tr.start_with_context("root", &Context::new()))];
            for &i in &shape { let cx = cxs[i].clone(); cxs.push(cx.with_span(tr.start_with_context("child", &cx))); }
            let root = cxs[0].span().span_context().clone();
            let want = u128::from_be_bytes(root.trace_id().to_bytes()) as u64 >> 1 < threshold(p);
            for cx in &cxs {
                let sc = cx.span().span_context().clone();
                if sc.trace_id() != root.trace_id() { return Err("not one trace".into()); }
                if sc.is_sampled() != want { return Err("spans of one trace are decided differently".into()); }
            }
            Ok(())
        });
    }
}

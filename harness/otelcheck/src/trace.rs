use crate::common::Ctx;
use opentelemetry::trace::{
    Event, Link, Span as _, SpanBuilder, SpanContext, SpanId, SpanKind, Status, TraceContextExt, TraceFlags, TraceId, TraceState, Tracer as _, TracerProvider as _,
};
use opentelemetry::trace::{SamplingDecision, SamplingResult};
use opentelemetry::{Context, InstrumentationScope, KeyValue};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::trace::{IdGenerator, SdkTracerProvider, ShouldSample, Span, SpanData, SpanLimits, SpanProcessor};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, SystemTime};

#[derive(Debug, Clone, Default)]
pub struct Cap { pub ended: Arc<Mutex<Vec<SpanData>>>, pub started: Arc<Mutex<Vec<(SpanContext, Option<SpanData>)>>>, pub order: Arc<Mutex<Vec<usize>>>, pub id: usize, pub flushes: Arc<AtomicU64>, pub shutdowns: Arc<AtomicU64> }
impl SpanProcessor for Cap {
    fn on_start(&self, span: &mut Span, _cx: &Context) { self.started.lock().unwrap().push((span.span_context().clone(), span.exported_data())); }
    fn on_end(&self, s: SpanData) { self.order.lock().unwrap().push(self.id); self.ended.lock().unwrap().push(s); }
    fn force_flush(&self) -> OTelSdkResult { self.flushes.fetch_add(1, Ordering::SeqCst); Ok(()) }
    fn shutdown(&self) -> OTelSdkResult { self.shutdowns.fetch_add(1, Ordering::SeqCst); Ok(()) }
}
impl Cap { pub fn last(&self) -> Option<SpanData> { self.ended.lock().unwrap().last().cloned() } pub fn count(&self) -> usize { self.ended.lock().unwrap().len() } }

#[derive(Debug, Clone)]
struct Fixed(Arc<Mutex<(u8, Vec<KeyValue>, Option<TraceState>, Vec<(TraceId, String, SpanKind, usize, usize, Option<u64>)>)>>);
impl ShouldSample for Fixed {
    fn should_sample(&self, p: Option<&Context>, t: TraceId, name: &str, k: &SpanKind, a: &[KeyValue], l: &[Link]) -> SamplingResult {
        let mut g = self.0.lock().unwrap();
        g.3.push((t, name.to_string(), k.clone(), a.len(), l.len(), p.and_then(|c| c.has_active_span().then(|| c.span().span_context().span_id()).map(|i| u64::from_be_bytes(i.to_bytes())))));
        SamplingResult {
            decision: match g.0 { 0 => SamplingDecision::Drop, 1 => SamplingDecision::RecordOnly, _ => SamplingDecision::RecordAndSample },
            attributes: g.1.clone(),
            trace_state: g.2.clone().unwrap_or_else(|| p.map(|c| c.span().span_context().trace_state().clone()).unwrap_or_default()),
        }
    }
}
#[derive(Debug, Clone, Default)]
struct Gen(Arc<AtomicU64>);
impl IdGenerator for Gen {
    fn new_trace_id(&self) -> TraceId { TraceId::from(0xAA00_0000_0000_0000_0000u128 + self.0.fetch_add(1, Ordering::SeqCst) as u128) }
    fn new_span_id(&self) -> SpanId { SpanId::from(0xBB00_0000_0000u64 + self.0.fetch_add(1, Ordering::SeqCst)) }
}
fn fixed(d: u8) -> Fixed { Fixed(Arc::new(Mutex::new((d, vec![], None, vec![])))) }
fn ts(n: u64) -> SystemTime { SystemTime::UNIX_EPOCH + Duration::from_micros(1_700_000_000_000_000 + n) }
fn kvs(n: usize, p: &str) -> Vec<KeyValue> { (0..n).map(|i| KeyValue::new(format!("{p}{i}"), i as i64)).collect() }
fn flagged(n: u8) -> TraceFlags { TraceFlags::new(n) }

/// C05
pub fn c05(c: &mut Ctx) {
    use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, LoggerProvider as _, Severity};
    c.rule = "a program nests scopes (normal, suppressed, span-carrying, other threads) and in each starts spans in every way the API offers and emits logs; non-trivial: at least one operation happens under suppression".into();
    for i in 0..c.n(3000) {
        let steps: Vec<u64> = (0..4 + c.rng.usize(14)).map(|_| c.rng.below(12)).collect();
        let d = format!("suppression program #{i}: {steps:?}");
        c.case(d, steps.iter().any(|s| *s <= 2), move || {
            let cap = Cap::default();
            let gen = Gen::default();
            let sm = fixed(2);
            let tp = SdkTracerProvider::builder().with_span_processor(cap.clone()).with_sampler(sm.clone()).with_id_generator(gen.clone()).build();
            let lc = crate::logs::LCap::default();
            let lp = opentelemetry_sdk::logs::SdkLoggerProvider::builder().with_log_processor(lc.clone()).build();
            let (tr, lg) = (tp.tracer("t"), lp.logger("l"));
            let mut guards: Vec<(opentelemetry::ContextGuard, bool)> = vec![];
            let (mut nstart, mut nlogs, mut nsampled) = (0usize, 0usize, 0usize);
            for (n, s) in steps.iter().enumerate() {
                let sup = guards.last().map(|g| g.1).unwrap_or(false);
                if Context::is_current_telemetry_suppressed() != sup { return Err(format!("step {n}: is_current_telemetry_suppressed = {} want {sup}", !sup)); }
                match s {
                    0 | 1 => guards.push((Context::enter_telemetry_suppressed_scope(), true)),
                    2 => { let b = Context::current().with_telemetry_suppressed(); guards.push((b.attach(), true)); }
                    3 => { let b = Context::current_with_value(3u8); guards.push((b.attach(), sup)); }
                    4 => { guards.push((Context::new().attach(), false)); }
                    5 => { let b = Context::current().with_remote_span_context(SpanContext::new(TraceId::from(7u128), SpanId::from(9u64), TraceFlags::SAMPLED, true, TraceState::NONE)); guards.push((b.attach(), sup)); }
                    6 | 7 => { guards.pop(); }
                    8 => {
                        let st = [tr.start("a"), tr.build(SpanBuilder::from_name("b")), tr.start_with_context("c", &Context::current()), tr.span_builder("d").with_kind(SpanKind::Server).start(&tr)];
                        for mut sp in st {
                            if sup { if sp.is_recording() || sp.span_context().is_valid() || sp.span_context().is_sampled() { return Err(format!("step {n}: a span started under suppression is recording or valid")); } sp.set_attribute(KeyValue::new("x", 1)); sp.add_event("e", vec![]); }
                            else { nstart += 1; nsampled += 1; if !sp.is_recording() { return Err(format!("step {n}: not recording outside suppression")); } }
                            sp.end();
                        }
                    }
                    9 => {
                        // the suppressed span made current must keep everything below it suppressed
                        let r: Result<(), String> = tr.in_span("in", |cx| {
                            if cx.is_telemetry_suppressed() != sup || Context::is_current_telemetry_suppressed() != sup { return Err(format!("step {n}: in_span lost the suppression")); }
                            let inner = tr.start("inner");
                            if inner.is_recording() == sup { return Err(format!("step {n}: inner span recording = {sup}")); }
                            Ok(())
                        });
                        r?;
                        if !sup { nstart += 2; nsampled += 2; }
                    }
                    10 => {
                        let mut r = lg.create_log_record(); r.set_body(AnyValue::Int(1)); r.set_severity_number(Severity::Error);
                        lg.emit(r);
                        if !sup { nlogs += 1; }
                        if lg.event_enabled(Severity::Error, "t", None) == sup { return Err(format!("step {n}: event_enabled = {sup}")); }
                    }
                    _ => {
                        // suppression is carried by the context to another thread, not ambient
                        let cx = Context::current();
                        let (tr2, lg2) = (tr.clone(), lp.logger("l2"));
                        let rec = std::thread::spawn(move || { let free = tr2.start("free").is_recording(); let _g = cx.attach(); let r = lg2.create_log_record(); lg2.emit(r); (free, tr2.start("t").is_recording()) }).join().unwrap();
                        nstart += 1; nsampled += 1;
                        if !sup { nstart += 1; nsampled += 1; nlogs += 1; }
                        if !rec.0 || rec.1 == sup { return Err(format!("step {n}: on another thread recording = {rec:?} under suppression {sup}")); }
                    }
                }
                if cap.count() != nstart { return Err(format!("step {n}: {} spans reached the processor, want {nstart}", cap.count())); }
                if lc.count() != nlogs { return Err(format!("step {n}: {} log records reached the processor, want {nlogs}", lc.count())); }
                if sm.0.lock().unwrap().3.len() != nsampled { return Err(format!("step {n}: the sampler was consulted {} times, want {nsampled}", sm.0.lock().unwrap().3.len())); }
            }
            while let Some(g) = guards.pop() { drop(g); }
            Ok(())
        });
    }
}

/// C06
pub fn c06(c: &mut Ctx) {
    c.rule = "one span built with every combination of parent (none, local recording, local non-recording, remote), builder ids, sampler decision, trace flags and sampler trace state; non-trivial: it has a parent or explicit ids".into();
    for i in 0..c.n(12000) {
        let r = &mut c.rng;
        let parent = r.below(8); // 0 none, 1 remote, 2 real local span, 3 dropped local span, 4 none but other values, 5-7 an invalid span context
        let pflags = *r.pick(&[0u8, 1, 2, 3, 0xff, 0xfe]);
        let (ptid, psid) = (r.next() as u128 + 1, r.next() | 1);
        let btid = r.chance(1, 3).then(|| r.next() as u128 + 5);
        let bsid = r.chance(1, 3).then(|| r.next() | 1);
        let dec = r.below(3) as u8;
        let presampled = r.chance(1, 5);
        let setts = r.chance(1, 2);
        let nlinks = r.usize(3); let nattrs = r.usize(4);
        let kind = r.below(6);
        let viacur = r.bool();
        let d = format!("#{i}: parent {parent} (flags {pflags:#x} trace {ptid:x} span {psid:x}) builder trace {btid:x?} span {bsid:x?} decision {dec} presampled {presampled} sampler-state {setts} links {nlinks} attrs {nattrs} kind {kind} via-current {viacur}");
        c.case(d, parent != 0 || btid.is_some() || bsid.is_some(), move || {
            let cap = Cap::default();
            let gen = Gen::default();
            let sm = fixed(dec);
            let state = TraceState::from_key_value(vec![("s", "1")]).unwrap();
            let pstate = TraceState::from_key_value(vec![("p", "2")]).unwrap();
            if setts { sm.0.lock().unwrap().2 = Some(state.clone()); }
            sm.0.lock().unwrap().1 = vec![KeyValue::new("sampler", true)];
            let tp = SdkTracerProvider::builder().with_span_processor(cap.clone()).with_sampler(sm.clone()).with_id_generator(gen.clone()).build();
            let scope = InstrumentationScope::builder("lib").with_version("1").with_schema_url("u").with_attributes([KeyValue::new("a", 1)]).build();
            let tr = tp.tracer_with_scope(scope.clone());
            let other_cap = Cap::default();
            let ptp = SdkTracerProvider::builder().with_span_processor(other_cap.clone()).with_sampler(fixed(if parent == 3 { 0 } else if pflags & 1 == 1 { 2 } else { 1 })).build();
            let ptr = ptp.tracer("parent");
            let pcx = match parent {
                0 => Context::new(),
                1 => Context::new().with_remote_span_context(SpanContext::new(TraceId::from(ptid), SpanId::from(psid), flagged(pflags), true, pstate.clone())),
                2 | 3 => Context::new().with_span(ptr.span_builder("p").with_trace_id(TraceId::from(ptid)).with_span_id(SpanId::from(psid)).start_with_context(&ptr, &Context::new())),
                4 => Context::new().with_value(5u32),
                5 => Context::new().with_remote_span_context(SpanContext::empty_context()),
                6 => Context::new().with_remote_span_context(SpanContext::new(TraceId::from(ptid), SpanId::INVALID, flagged(pflags), true, pstate.clone())),
                _ => Context::new().with_remote_span_context(SpanContext::new(TraceId::INVALID, SpanId::from(psid), flagged(pflags), true, pstate.clone())),
            };
            let psc = pcx.span().span_context().clone();
            let mut b = SpanBuilder::from_name("n").with_attributes(kvs(nattrs, "b")).with_links((0..nlinks).map(|k| Link::with_context(SpanContext::new(TraceId::from(k as u128 + 1), SpanId::from(k as u64 + 1), TraceFlags::default(), false, TraceState::NONE))).collect());
            b.trace_id = btid.map(TraceId::from); b.span_id = bsid.map(SpanId::from);
            let kinds = [None, Some(SpanKind::Client), Some(SpanKind::Server), Some(SpanKind::Producer), Some(SpanKind::Consumer), Some(SpanKind::Internal)];
            b.span_kind = kinds[kind as usize].clone();
            if presampled { b.sampling_result = Some(SamplingResult { decision: [SamplingDecision::Drop, SamplingDecision::RecordOnly, SamplingDecision::RecordAndSample][dec as usize].clone(), attributes: vec![KeyValue::new("sampler", true)], trace_state: state.clone() }); }
            let sp = if viacur { let _g = pcx.clone().attach(); tr.build(b) } else { tr.build_with_context(b, &pcx) };
            let sc = sp.span_context().clone();
            let has_parent = psc.is_valid();
            if has_parent { if sc.trace_id() != psc.trace_id() { return Err(format!("trace id {:?} differs from the parent's {:?}", sc.trace_id(), psc.trace_id())); } }
            else if let Some(t) = btid { if sc.trace_id() != TraceId::from(t) { return Err("explicit trace id not used".into()); } }
            else if !format!("{:x}", u128::from_be_bytes(sc.trace_id().to_bytes())).starts_with("aa00") { return Err(format!("trace id {:?} did not come from the id generator", sc.trace_id())); }
            if let Some(s) = bsid { if sc.span_id() != SpanId::from(s) { return Err("explicit span id not used".into()); } }
            else if !sc.span_id().to_string().starts_with("0000bb00") { return Err(format!("span id {} did not come from the id generator", sc.span_id())); }
            if sc.is_remote() { return Err("a started span is marked remote".into()); }
            let want_state = if presampled || setts { state.clone() } else { psc.trace_state().clone() };
            if sc.trace_state() != &want_state { return Err(format!("trace state {:?} want {:?}", sc.trace_state(), want_state)); }
            if sc.is_sampled() != (dec == 2) { return Err(format!("sampled flag {} under decision {dec}", sc.is_sampled())); }
            if sp.is_recording() != (dec >= 1) { return Err(format!("recording {} under decision {dec}", sp.is_recording())); }
            let want_flags = match dec { 0 => TraceFlags::default(), 1 => psc.trace_flags().with_sampled(false), _ => psc.trace_flags().with_sampled(true) };
            if sc.trace_flags() != want_flags { return Err(format!("flags {:?} want {:?}", sc.trace_flags(), want_flags)); }
            let consult = sm.0.lock().unwrap().3.clone();
            if presampled { if !consult.is_empty() { return Err("the sampler was consulted although the decision was given".into()); } }
            else {
                if consult.len() != 1 { return Err(format!("the sampler was consulted {} times", consult.len())); }
                let k = &consult[0];
                if k.0 != sc.trace_id() || k.1 != "n" || k.2 != kinds[kind as usize].clone().unwrap_or(SpanKind::Internal) || k.3 != nattrs || k.4 != nlinks || k.5 != pcx.has_active_span().then(|| u64::from_be_bytes(psc.span_id().to_bytes())) { return Err(format!("the sampler saw {k:?}")); }
            }
            let st = cap.started.lock().unwrap().clone();
            if st.len() != 1 || st[0].0 != sc { return Err(format!("on_start saw {} spans", st.len())); }
            drop(sp);
            if dec == 0 { if cap.count() != 0 { return Err("a dropped span reached the processor".into()); } return Ok(()); }
            let e = cap.last().ok_or("the span did not reach the processor")?;
            if e.span_context != sc { return Err("exported span context differs".into()); }
            let want_parent = if has_parent { psc.span_id() } else { SpanId::INVALID };
            if e.parent_span_id != want_parent { return Err(format!("parent span id {:?} want {:?}", e.parent_span_id, want_parent)); }
            if e.span_kind != kinds[kind as usize].clone().unwrap_or(SpanKind::Internal) { return Err("kind".into()); }
            if e.instrumentation_scope != scope || e.instrumentation_scope.schema_url() != scope.schema_url() || e.instrumentation_scope.attributes().collect::<Vec<_>>() != scope.attributes().collect::<Vec<_>>() { return Err("scope".into()); }
            let mut want = kvs(nattrs, "b"); want.push(KeyValue::new("sampler", true));
            if e.attributes != want { return Err(format!("attributes {:?}", e.attributes)); }
            if e.links.links.len() != nlinks { return Err("links".into()); }
            Ok(())
        });
    }
    // uniqueness of generated identifiers
    for t in 0..2 {
        c.case(format!("default id generator, run {t}: 20000 span ids and 5000 trace ids over 4 threads are distinct and valid"), true, || {
            let hs: Vec<_> = (0..4).map(|_| std::thread::spawn(|| {
                let g = opentelemetry_sdk::trace::RandomIdGenerator::default();
                ((0..5000).map(|_| g.new_span_id()).collect::<Vec<_>>(), (0..1250).map(|_| g.new_trace_id()).collect::<Vec<_>>())
            })).collect();
            let (mut s, mut t) = (std::collections::HashSet::new(), std::collections::HashSet::new());
            for h in hs { let (a, b) = h.join().unwrap(); for x in a { if x == SpanId::INVALID || !s.insert(x) { return Err("span id repeated or invalid".into()); } } for x in b { if x == TraceId::INVALID || !t.insert(x) { return Err("trace id repeated or invalid".into()); } } }
            Ok(())
        });
    }
}

#[derive(Clone, Debug, Default)]
struct Model { attrs: Vec<KeyValue>, da: u32, ev: Vec<(String, usize, u32)>, de: u32, ln: Vec<(u64, usize, u32)>, dl: u32 }

/// C07
pub fn c07(c: &mut Ctx) {
    c.rule = "random limits, random starting attributes/events/links in the builder, random later additions through the span or through the context's span reference; non-trivial: at least one limit is exceeded".into();
    for i in 0..c.n(12000) {
        let r = &mut c.rng;
        let lim = |r: &mut crate::common::Rng| -> u32 { match r.below(6) { 0 => 0, 1 => 1, 2 => 2, 3 => 3, 4 => 128, _ => r.below(8) as u32 } };
        let l = SpanLimits { max_events_per_span: lim(r), max_attributes_per_span: lim(r), max_links_per_span: lim(r), max_attributes_per_event: lim(r), max_attributes_per_link: lim(r) };
        let b_at = r.usize(8); let s_at = r.usize(3);
        let b_ev: Option<Vec<usize>> = r.bool().then(|| (0..r.usize(6)).map(|_| r.usize(6)).collect());
        let b_ln: Option<Vec<usize>> = r.bool().then(|| (0..r.usize(6)).map(|_| r.usize(6)).collect());
        let ops: Vec<(u64, usize)> = (0..r.usize(20)).map(|_| (r.below(6), r.usize(7))).collect();
        let viaref = r.bool();
        let dec = 1 + r.below(2) as u8;
        let d = format!("#{i}: limits {l:?}, builder attrs {b_at} + sampler attrs {s_at}, builder events {b_ev:?}, builder links {b_ln:?}, then {ops:?} (kind, attribute count), via-ref {viaref}");
        c.case(d, b_at + s_at + ops.len() > 4, move || {
            let cap = Cap::default();
            let sm = fixed(dec);
            sm.0.lock().unwrap().1 = kvs(s_at, "s");
            let tp = SdkTracerProvider::builder().with_span_processor(cap.clone()).with_sampler(sm).with_span_limits(l).build();
            let tr = tp.tracer("t");
            let mut m = Model::default();
            let mut sb = SpanBuilder::from_name("n").with_attributes(kvs(b_at, "b"));
            fn put(m: &mut Model, l: &SpanLimits, kv: KeyValue) { if m.attrs.len() < l.max_attributes_per_span as usize { m.attrs.push(kv) } else { m.da += 1 } }
            fn pe(m: &mut Model, l: &SpanLimits, n: String, k: usize) { if m.ev.len() < l.max_events_per_span as usize { let q = k.min(l.max_attributes_per_event as usize); m.ev.push((n, q, (k - q) as u32)) } else { m.de += 1 } }
            fn pl(m: &mut Model, l: &SpanLimits, n: u64, k: usize) { if m.ln.len() < l.max_links_per_span as usize { let q = k.min(l.max_attributes_per_link as usize); m.ln.push((n, q, (k - q) as u32)) } else { m.dl += 1 } }
            for kv in kvs(b_at, "b").into_iter().chain(kvs(s_at, "s")) { put(&mut m, &l, kv) }
            let mut id = 0u64;
            let scx = |n: u64| SpanContext::new(TraceId::from(3u128), SpanId::from(n + 1), TraceFlags::default(), false, TraceState::NONE);
            if let Some(v) = &b_ev { sb = sb.with_events(v.iter().enumerate().map(|(j, k)| Event::new(format!("b{j}"), ts(j as u64), kvs(*k, "e"), 0)).collect()); for (j, k) in v.iter().enumerate() { pe(&mut m, &l, format!("b{j}"), *k) } }
            if let Some(v) = &b_ln { sb = sb.with_links(v.iter().map(|k| { id += 1; Link::new(scx(id), kvs(*k, "l"), 0) }).collect()); for (j, k) in v.iter().enumerate() { pl(&mut m, &l, j as u64 + 1, *k) } }
            let mut sp = tr.build_with_context(sb, &Context::new());
            let apply = |m: &mut Model, op: &(u64, usize), n: usize, id: &mut u64| match op.0 {
                0 | 1 => put(m, &l, KeyValue::new(format!("x{n}"), n as i64)),
                2 => for q in 0..op.1 { put(m, &l, KeyValue::new(format!("m{n}-{q}"), q as i64)) },
                3 | 4 => pe(m, &l, format!("e{n}"), op.1),
                _ => { *id += 1; pl(m, &l, *id, op.1) }
            };
            if viaref {
                let cx = Context::new().with_span(sp);
                for (n, op) in ops.iter().enumerate() {
                    let op = if op.0 == 5 { (3, op.1) } else { *op };
                    let s = cx.span();
                    match op.0 {
                        0 | 1 => s.set_attribute(KeyValue::new(format!("x{n}"), n as i64)),
                        2 => s.set_attributes((0..op.1).map(|q| KeyValue::new(format!("m{n}-{q}"), q as i64))),
                        3 => s.add_event(format!("e{n}"), kvs(op.1, "e")),
                        _ => s.add_event_with_timestamp(format!("e{n}"), ts(5), kvs(op.1, "e")),
                    }
                    apply(&mut m, &op, n, &mut id);
                }
                cx.span().end();
            } else {
                for (n, op) in ops.iter().enumerate() {
                    match op.0 {
                        0 | 1 => sp.set_attribute(KeyValue::new(format!("x{n}"), n as i64)),
                        2 => sp.set_attributes((0..op.1).map(|q| KeyValue::new(format!("m{n}-{q}"), q as i64))),
                        3 => sp.add_event(format!("e{n}"), kvs(op.1, "e")),
                        4 => sp.add_event_with_timestamp(format!("e{n}"), ts(5), kvs(op.1, "e")),
                        _ => sp.add_link(scx(id + 1), kvs(op.1, "l")),
                    }
                    apply(&mut m, op, n, &mut id);
                }
                sp.end();
            }
            let e = cap.last().ok_or("span not delivered")?;
            if e.attributes != m.attrs || e.dropped_attributes_count != m.da { return Err(format!("attributes {:?} dropped {} want {:?} dropped {}", e.attributes, e.dropped_attributes_count, m.attrs, m.da)); }
            let ev: Vec<_> = e.events.events.iter().map(|x| (x.name.to_string(), x.attributes.len(), x.dropped_attributes_count)).collect();
            if ev != m.ev || e.events.dropped_count != m.de { return Err(format!("events {ev:?} dropped {} want {:?} dropped {}", e.events.dropped_count, m.ev, m.de)); }
            for x in &e.events.events { if x.attributes != kvs(x.attributes.len(), "e") { return Err("event attributes are not the first ones supplied".into()); } }
            let ln: Vec<_> = e.links.links.iter().map(|x| (u64::from_be_bytes(x.span_context.span_id().to_bytes()) - 1, x.attributes.len(), x.dropped_attributes_count)).collect();
            if ln != m.ln || e.links.dropped_count != m.dl { return Err(format!("links {ln:?} dropped {} want {:?} dropped {}", e.links.dropped_count, m.ln, m.dl)); }
            for x in &e.links.links { if x.attributes != kvs(x.attributes.len(), "l") { return Err("link attributes are not the first ones supplied".into()); } }
            Ok(())
        });
    }
}

/// C08
pub fn c08(c: &mut Ctx) {
    c.rule = "random histories of operations on one span (attributes, events, links, status, name, end, end at a time, drop, provider shutdown, use through the context, use after end) with 0-3 processors; non-trivial: something happens after the first end, or status is set twice".into();
    for i in 0..c.n(15000) {
        let r = &mut c.rng;
        let np = r.usize(4);
        let ops: Vec<u64> = (0..1 + r.usize(14)).map(|_| r.below(16)).collect();
        let st0 = r.below(4);
        let (bs, be) = (r.chance(1, 2), r.chance(1, 3));
        let viaref = r.chance(1, 3);
        let d = format!("#{i}: {np} processors, builder start {bs} end {be} status {st0}, history {ops:?}, via context {viaref}");
        let nt = ops.iter().filter(|o| **o >= 5 && **o <= 9).count() > 1 || ops.iter().position(|o| *o >= 10 && *o <= 12).map(|p| p + 1 < ops.len()).unwrap_or(false);
        c.case(d, nt, move || {
            let order = Arc::new(Mutex::new(vec![]));
            let caps: Vec<Cap> = (0..np).map(|id| Cap { id, order: order.clone(), ..Default::default() }).collect();
            let mut b = SdkTracerProvider::builder().with_sampler(fixed(2));
            for k in &caps { b = b.with_span_processor(k.clone()); }
            let tp = b.build();
            let tr = tp.tracer("t");
            let mut sb = SpanBuilder::from_name("n0");
            if bs { sb = sb.with_start_time(ts(100)); }
            if be { sb = sb.with_end_time(ts(900)); }
            let mut status = match st0 { 1 => Status::Ok, 2 => Status::error("init"), _ => Status::Unset };
            sb = sb.with_status(status.clone());
            let before = opentelemetry_now();
            let sp = tr.build_with_context(sb, &Context::new());
            if sp.span_context().is_valid() != true { return Err("invalid".into()); }
            enum H { S(Option<Span>), C(Context) }
            let mut h = if viaref { H::C(Context::new().with_span(sp)) } else { H::S(Some(sp)) };
            let (mut name, mut attrs, mut evs, mut links) = ("n0".to_string(), vec![], vec![], 0usize);
            let (mut open, mut shut, mut delivered, mut end_at) = (true, false, false, None);
            let (mut erropen, mut by_drop) = (false, false);
            macro_rules! on { ($s:ident, $e:expr) => { match &mut h { H::S(Some($s)) => { $e; } H::S(None) => {} H::C(c) => { let $s = c.span(); $e; } } } }
            for (n, o) in ops.iter().enumerate() {
                let live = match &h { H::S(None) => false, _ => true };
                match o {
                    0 | 1 => { on!(s, s.set_attribute(KeyValue::new(format!("k{n}"), n as i64))); if open && live { attrs.push(KeyValue::new(format!("k{n}"), n as i64)); } }
                    2 => { on!(s, s.add_event_with_timestamp(format!("e{n}"), ts(n as u64), vec![])); if open && live { evs.push((format!("e{n}"), ts(n as u64))); } }
                    3 => { on!(s, s.update_name(format!("n{n}"))); if open && live { name = format!("n{n}"); } }
                    4 => { if let H::S(Some(s)) = &mut h { s.add_link(SpanContext::NONE, vec![]); if open { links += 1; } } }
                    5 | 6 => { on!(s, s.set_status(Status::Ok)); if open { status = Status::Ok; erropen = false; } }
                    7 | 8 => { on!(s, s.set_status(Status::error(format!("d{n}")))); if open { match &status { Status::Ok => {} Status::Unset => status = Status::error(format!("d{n}")), Status::Error { .. } => erropen = true } } }
                    9 => { on!(s, s.set_status(Status::Unset)); }
                    10 => { on!(s, s.end()); if open && live { open = false; delivered = !shut; } }
                    11 => { on!(s, s.end_with_timestamp(ts(5000 + n as u64))); if open && live { open = false; delivered = !shut; end_at = Some(ts(5000 + n as u64)); } }
                    12 => { if let H::S(s) = &mut h { if s.take().is_some() && open { open = false; delivered = !shut; by_drop = true; } } }
                    13 => { if n % 3 == 0 { let _ = tp.shutdown(); shut = true; } else { let _ = tp.force_flush(); } }
                    14 => { let e: Result<u8, _> = "x".parse::<u8>(); let e = e.unwrap_err(); on!(s, s.record_error(&e)); if open && live { evs.push(("exception".into(), ts(0))); } }
                    _ => { match &h { H::S(Some(s)) => if s.is_recording() != open { return Err(format!("step {n}: is_recording = {} but the span is {}", !open, if open { "open" } else { "ended" })); },
                                      H::C(c) => if c.span().is_recording() != open { return Err(format!("step {n}: is_recording (context) = {}", !open)); }, _ => {} } }
                }
                let want = if delivered { 1 } else { 0 };
                for (k, cp) in caps.iter().enumerate() { if cp.count() != want { return Err(format!("after step {n} (operation {o}) processor {k} received {} spans, want {want}", cp.count())); } }
            }
            if open { delivered = !shut; }
            drop(h);
            let after = opentelemetry_now();
            let want = if delivered { 1 } else { 0 };
            for (k, cp) in caps.iter().enumerate() {
                if cp.count() != want { return Err(format!("at the end processor {k} received {} spans, want {want}", cp.count())); }
                if cp.started.lock().unwrap().len() != 1 { return Err("on_start not called exactly once".into()); }
                if let Some(e) = cp.last() {
                    if e.name != name { return Err(format!("name {} want {name}", e.name)); }
                    if e.attributes != attrs { return Err(format!("attributes {:?} want {:?}", e.attributes, attrs)); }
                    let ev: Vec<_> = e.events.events.iter().map(|x| (x.name.to_string(), if x.name == "exception" { ts(0) } else { x.timestamp })).collect();
                    if ev != evs { return Err(format!("events {ev:?} want {evs:?}")); }
                    if e.links.links.len() != links { return Err("links".into()); }
                    if erropen { if !matches!(e.status, Status::Error { .. }) { return Err(format!("status {:?} want an error", e.status)); } }
                    else if e.status != status { return Err(format!("status {:?} want {status:?}", e.status)); }
                    let start_ok = if bs { e.start_time == ts(100) } else { e.start_time >= before && e.start_time <= after };
                    if !start_ok { return Err(format!("start time {:?}", e.start_time)); }
                    match end_at {
                        Some(t) => if e.end_time != t { return Err(format!("end time {:?} want {t:?}", e.end_time)); },
                        None => if (open || by_drop) && be { if e.end_time != ts(900) { return Err(format!("end time {:?} want the builder's", e.end_time)); } }
                                else if !(e.end_time >= before && e.end_time <= after) { return Err(format!("end time {:?} is not the time it ended", e.end_time)); }
                    }
                    if e.end_time < e.start_time && end_at.is_none() && !be { return Err("ends before it starts".into()); }
                }
            }
            if delivered { let o = order.lock().unwrap().clone(); if o != (0..np).collect::<Vec<_>>() { return Err(format!("processors notified in order {o:?}")); } }
            Ok(())
        });
    }
    // concurrent use of one span through clones of its context: delivered once, with everything recorded before the end
    for n in 2..6usize {
        c.case(format!("{n} threads use and end the same span through clones of one context"), true, move || {
            for _ in 0..30 {
                let cap = Cap::default();
                let tp = SdkTracerProvider::builder().with_span_processor(cap.clone()).build();
                let cx = Context::new().with_span(tp.tracer("t").start("s"));
                let hs: Vec<_> = (0..n).map(|t| { let cx = cx.clone(); std::thread::spawn(move || { for k in 0..10 { cx.span().set_attribute(KeyValue::new(format!("{t}-{k}"), 1)); } if t == 0 { cx.span().end(); } }) }).collect();
                for h in hs { h.join().unwrap(); }
                drop(cx);
                if cap.count() != 1 { return Err(format!("delivered {} times", cap.count())); }
                let e = cap.last().unwrap();
                if (0..10).any(|k| !e.attributes.contains(&KeyValue::new(format!("0-{k}"), 1))) { return Err("an attribute set before the end is missing".into()); }
            }
            Ok(())
        });
    }
}
fn opentelemetry_now() -> SystemTime { SystemTime::now() }

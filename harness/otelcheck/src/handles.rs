//! C34: everything done through a span handle, a context or the global tracer reaches the span it names, once and in order.
use crate::common::{Ctx, Rng};
use opentelemetry::trace::noop::NoopTracerProvider;
use opentelemetry::trace::{
    get_active_span, mark_span_as_active, Event, Link, SamplingDecision, SamplingResult, Span, SpanBuilder, SpanContext, SpanId, SpanKind, Status, TraceContextExt, TraceFlags,
    TraceId, TraceState, Tracer, TracerProvider,
};
use opentelemetry::{global, Context, InstrumentationScope, KeyValue};
use std::borrow::Cow;
use std::sync::{Arc, Mutex};
use std::time::{Duration, SystemTime};

#[derive(Debug)]
struct Tag(u64);
fn tag(cx: &Context) -> u64 { cx.get::<Tag>().map(|t| t.0).unwrap_or(0) }

type Log = Arc<Mutex<Vec<String>>>;
#[derive(Debug)]
struct Rec { sc: SpanContext, log: Log, rec: bool, boom: bool }
fn at(t: SystemTime) -> String {
    // a stamped time (now) and a given time (within 10^9 s of the epoch) are told apart
    let d = t.duration_since(SystemTime::UNIX_EPOCH).unwrap_or_default();
    if d.as_secs() > 1_000_000_000 { "now".into() } else { format!("{}", d.as_nanos()) }
}
fn kvs(a: &[KeyValue]) -> String { a.iter().map(|k| format!("{}={:?}", k.key, k.value)).collect::<Vec<_>>().join(",") }
impl Rec { fn put(&mut self, s: String) { self.log.lock().unwrap_or_else(|e| e.into_inner()).push(s); if self.boom { panic!("span fails") } } }
impl Span for Rec {
    fn add_event_with_timestamp<T: Into<Cow<'static, str>>>(&mut self, name: T, t: SystemTime, a: Vec<KeyValue>) { let n = name.into(); self.put(format!("event {n} {} [{}]", at(t), kvs(&a))) }
    fn span_context(&self) -> &SpanContext { &self.sc }
    fn is_recording(&self) -> bool { self.rec }
    fn set_attribute(&mut self, a: KeyValue) { self.put(format!("attribute {}", kvs(&[a]))) }
    fn set_status(&mut self, s: Status) { self.put(format!("status {s:?}")) }
    fn update_name<T: Into<Cow<'static, str>>>(&mut self, n: T) { let n = n.into(); self.put(format!("name {n}")) }
    fn add_link(&mut self, sc: SpanContext, a: Vec<KeyValue>) { self.put(format!("link {:?} [{}]", sc, kvs(&a))) }
    fn end_with_timestamp(&mut self, t: SystemTime) { self.put(format!("end {}", at(t))) }
}

fn sc(r: &mut Rng) -> SpanContext {
    let (t, s) = match r.below(6) { 0 => (0, 1 + r.below(9)), 1 => (1 + r.below(9) as u128, 0), _ => (1 + (r.next() as u128) << 3, 1 + r.below(1000)) };
    let st = if r.bool() { TraceState::NONE } else { TraceState::from_key_value([("k", "v")]).unwrap() };
    SpanContext::new(TraceId::from(t), SpanId::from(s), TraceFlags::new(r.below(4) as u8), r.bool(), st)
}
fn attrs(r: &mut Rng) -> Vec<KeyValue> {
    (0..r.usize(4)).map(|_| { let k = *r.pick(&["a", "b", "", "key.c"]); match r.below(4) { 0 => KeyValue::new(k, r.below(5) as i64), 1 => KeyValue::new(k, r.bool()), 2 => KeyValue::new(k, "v"), _ => KeyValue::new(k, 1.5) } }).collect()
}
fn when(r: &mut Rng) -> SystemTime { SystemTime::UNIX_EPOCH + Duration::from_nanos(r.below(1_000_000_000_000_000)) }

#[derive(Debug)]
struct Oops(String);
impl std::fmt::Display for Oops { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "oops {}", self.0) } }
impl std::error::Error for Oops {}

#[derive(Clone, Debug)]
enum Op { Event(String, Vec<KeyValue>), EventAt(String, SystemTime, Vec<KeyValue>), Error(String), Attr(KeyValue), Attrs(Vec<KeyValue>), Status(Status), Name(String), Link(SpanContext, Vec<KeyValue>), End, EndAt(SystemTime) }
fn op(r: &mut Rng) -> Op {
    let n = format!("n{}", r.below(5));
    match r.below(10) {
        0 => Op::Event(n, attrs(r)),
        1 => Op::EventAt(n, when(r), attrs(r)),
        2 => Op::Error(n),
        3 => { let mut a = attrs(r); Op::Attr(a.pop().unwrap_or_else(|| KeyValue::new("x", 1))) }
        4 => Op::Attrs(attrs(r)),
        5 => Op::Status(match r.below(3) { 0 => Status::Unset, 1 => Status::Ok, _ => Status::error(n) }),
        6 => Op::Name(n),
        7 => Op::Link(sc(r), attrs(r)),
        8 => Op::End,
        _ => Op::EndAt(when(r)),
    }
}
/// what the recording span has to be told for this operation
fn told(o: &Op, rec: bool) -> Vec<String> {
    match o {
        Op::Event(n, a) => vec![format!("event {n} now [{}]", kvs(a))],
        Op::EventAt(n, t, a) => vec![format!("event {n} {} [{}]", at(*t), kvs(a))],
        Op::Error(n) => if rec { vec![format!("event exception now [{}]", kvs(&[KeyValue::new("exception.message", Oops(n.clone()).to_string())]))] } else { vec![] },
        Op::Attr(a) => vec![format!("attribute {}", kvs(&[a.clone()]))],
        Op::Attrs(a) => if rec { a.iter().map(|a| format!("attribute {}", kvs(&[a.clone()]))).collect() } else { vec![] },
        Op::Status(s) => vec![format!("status {s:?}")],
        Op::Name(n) => vec![format!("name {n}")],
        Op::Link(s, a) => vec![format!("link {:?} [{}]", s, kvs(a))],
        Op::End => vec!["end now".into()],
        Op::EndAt(t) => vec![format!("end {}", at(*t))],
    }
}
fn apply(s: &mut impl Span, o: Op) {
    match o {
        Op::Event(n, a) => s.add_event(n, a),
        Op::EventAt(n, t, a) => s.add_event_with_timestamp(n, t, a),
        Op::Error(n) => s.record_error(&Oops(n)),
        Op::Attr(a) => s.set_attribute(a),
        Op::Attrs(a) => s.set_attributes(a),
        Op::Status(v) => s.set_status(v),
        Op::Name(n) => s.update_name(n),
        Op::Link(c, a) => s.add_link(c, a),
        Op::End => s.end(),
        Op::EndAt(t) => s.end_with_timestamp(t),
    }
}
fn apply_ref(s: &opentelemetry::trace::SpanRef<'_>, o: Op) {
    match o {
        Op::Event(n, a) => s.add_event(n, a),
        Op::EventAt(n, t, a) => s.add_event_with_timestamp(n, t, a),
        Op::Error(n) => s.record_error(&Oops(n)),
        Op::Attr(a) => s.set_attribute(a),
        Op::Attrs(a) => s.set_attributes(a),
        Op::Status(v) => s.set_status(v),
        Op::Name(n) => s.update_name(n),
        Op::Link(..) => {} // not offered by SpanRef
        Op::End => s.end(),
        Op::EndAt(t) => s.end_with_timestamp(t),
    }
}
fn same(got: &[String], want: &[String], who: &str) -> Result<(), String> {
    if got == want { return Ok(()); }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(format!("{who}: the span was told {} things, expected {}; the first difference is at {i}: {:?}, expected {:?}", got.len(), want.len(), got.get(i), want.get(i)))
}

// ---- a recording tracer and provider ----
#[derive(Clone, Debug)]
struct Tr { id: u64, scope: String, calls: Log, spans: Log, next: SpanContext }
fn show_builder(b: &SpanBuilder) -> String {
    format!("name={} trace={:?} span={:?} kind={:?} start={:?} end={:?} attrs={} events={} links={} status={:?} sampling={:?}", b.name, b.trace_id, b.span_id, b.span_kind,
        b.start_time.map(at), b.end_time.map(at), b.attributes.as_ref().map(|a| kvs(a)).unwrap_or("none".into()),
        b.events.as_ref().map(|e| e.iter().map(|e| format!("{}@{}[{}]+{}", e.name, at(e.timestamp), kvs(&e.attributes), e.dropped_attributes_count)).collect::<Vec<_>>().join(";")).unwrap_or("none".into()),
        b.links.as_ref().map(|e| e.iter().map(|e| format!("{:?}[{}]+{}", e.span_context, kvs(&e.attributes), e.dropped_attributes_count)).collect::<Vec<_>>().join(";")).unwrap_or("none".into()),
        b.status, b.sampling_result)
}
fn show_call(id: u64, scope: &str, b: &SpanBuilder, cx: &Context) -> String { format!("provider {id} scope {scope}: {} parent={:?} tag={}", show_builder(b), cx.span().span_context(), tag(cx)) }
impl Tracer for Tr {
    type Span = Rec;
    fn build_with_context(&self, b: SpanBuilder, cx: &Context) -> Rec {
        self.calls.lock().unwrap().push(show_call(self.id, &self.scope, &b, cx));
        Rec { sc: self.next.clone(), log: self.spans.clone(), rec: true, boom: false }
    }
}
#[derive(Clone, Debug)]
struct Pr { id: u64, calls: Log, spans: Log, next: SpanContext }
fn show_scope(s: &InstrumentationScope) -> String { format!("{}/{:?}/{:?}/[{}]", s.name(), s.version(), s.schema_url(), kvs(&s.attributes().cloned().collect::<Vec<_>>())) }
impl TracerProvider for Pr {
    type Tracer = Tr;
    fn tracer_with_scope(&self, s: InstrumentationScope) -> Tr { Tr { id: self.id, scope: show_scope(&s), calls: self.calls.clone(), spans: self.spans.clone(), next: self.next.clone() } }
}

fn builder(r: &mut Rng, name: String) -> (SpanBuilder, SpanBuilder, String) {
    let mut b = SpanBuilder::from_name(name.clone());
    let mut want = SpanBuilder { name: name.into(), ..Default::default() };
    let mut d = vec![];
    for _ in 0..r.usize(8) {
        match r.below(10) {
            0 => { let t = TraceId::from(r.next() as u128); b = b.with_trace_id(t); want.trace_id = Some(t); d.push(format!("trace {t}")); }
            1 => { let t = SpanId::from(r.next()); b = b.with_span_id(t); want.span_id = Some(t); d.push(format!("span {t}")); }
            2 => { let k = r.pick(&[SpanKind::Client, SpanKind::Server, SpanKind::Producer, SpanKind::Consumer, SpanKind::Internal]).clone(); d.push(format!("kind {k:?}")); want.span_kind = Some(k.clone()); b = b.with_kind(k); }
            3 => { let t = when(r); b = b.with_start_time(t); want.start_time = Some(t); d.push(format!("start {}", at(t))); }
            4 => { let t = when(r); b = b.with_end_time(t); want.end_time = Some(t); d.push(format!("end {}", at(t))); }
            5 => { let a = attrs(r); d.push(format!("attributes {}", kvs(&a))); want.attributes = Some(a.clone()); b = b.with_attributes(a); }
            6 => { let e: Vec<Event> = (0..r.usize(3)).map(|i| Event::new(format!("e{i}"), when(r), attrs(r), r.below(3) as u32)).collect(); d.push(format!("{} events", e.len())); want.events = Some(e.clone()); b = b.with_events(e); }
            7 => { let l: Vec<Link> = (0..r.usize(4)).map(|_| Link::new(sc(r), attrs(r), r.below(3) as u32)).collect(); d.push(format!("links {:?}", l.iter().map(|l| l.span_context.is_valid()).collect::<Vec<_>>()));
                   want.links = Some(l.iter().filter(|l| l.span_context.is_valid()).cloned().collect()); b = b.with_links(l); }
            8 => { let s = if r.bool() { Status::Ok } else { Status::error("bad") }; d.push(format!("{s:?}")); want.status = s.clone(); b = b.with_status(s); }
            _ => { let s = SamplingResult { decision: r.pick(&[SamplingDecision::Drop, SamplingDecision::RecordOnly, SamplingDecision::RecordAndSample]).clone(), attributes: attrs(r), trace_state: TraceState::NONE };
                   d.push(format!("{:?}", s.decision)); want.sampling_result = Some(s.clone()); b = b.with_sampling_result(s); }
        }
    }
    (b, want, d.join(", "))
}

/// start a span in every way a tracer offers, and compare what reached `build_with_context`
fn starts<T: Tracer>(t: &T, calls: &Log, r: &mut Rng, id: u64, scope: &str, depth: usize) -> (String, Result<(), String>)
where T::Span: Send + Sync + 'static {
    let name = format!("s{}", r.below(9));
    let (b, wb, d) = builder(r, name.clone());
    let plain = SpanBuilder { name: name.clone().into(), ..Default::default() };
    let here = Context::current();
    let parent = match r.below(3) { 0 => Context::new(), 1 => here.with_value(Tag(500 + r.below(9))), _ => here.with_remote_span_context(sc(r)).with_value(Tag(700)) };
    let from = calls.lock().unwrap().len();
    let way = r.below(8);
    let mut e = Ok(());
    let want = match way {
        0 => { let _ = t.start(name); show_call(id, scope, &plain, &here) }
        1 => { let _ = t.start_with_context(name, &parent); show_call(id, scope, &plain, &parent) }
        2 => { let _ = t.build(b); show_call(id, scope, &wb, &here) }
        3 => { let _ = t.build_with_context(b, &parent); show_call(id, scope, &wb, &parent) }
        4 => { let _ = b.start(t); show_call(id, scope, &wb, &here) }
        5 => { let _ = b.start_with_context(t, &parent); show_call(id, scope, &wb, &parent) }
        6 => { let _ = t.span_builder(name).start(t); show_call(id, scope, &plain, &here) }
        _ => {
            // in_span: the span is active inside, the values of the context stay, and the previous context is back afterwards, even when the closure panics
            let panics = r.chance(1, 4);
            let before = (tag(&here), here.span().span_context().clone());
            let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.in_span(name, |cx| {
                let now = Context::current();
                let a = (tag(&now), now.span().span_context().clone());
                let b = (tag(&cx), cx.span().span_context().clone());
                let inner = if depth > 0 { starts(t, calls, &mut Rng(7), id, scope, depth - 1).1 } else { Ok(()) };
                if panics { panic!("closure") }
                (a, b, inner, 42)
            })));
            let after = (tag(&Context::current()), Context::current().span().span_context().clone());
            if after != before { e = Err(format!("in_span changed the current context from {before:?} to {after:?}")); }
            match got {
                Ok((a, b, inner, v)) => {
                    if panics || v != 42 { e = Err("in_span did not give back what the closure returned".into()); }
                    if a != b { e = Err(format!("in_span gave its closure the context {b:?} while {a:?} is current")); }
                    if a.0 != before.0 { e = Err(format!("in_span lost the values of the context: tag {} became {}", before.0, a.0)); }
                    if inner.is_err() { e = inner; }
                }
                Err(_) if panics => {}
                Err(_) => e = Err("in_span panicked".into()),
            }
            show_call(id, scope, &plain, &here)
        }
    };
    let got: Vec<String> = calls.lock().unwrap()[from..].to_vec();
    let n = if way == 7 { got.len() } else { 1 };
    if e.is_ok() && (got.len() != n || got.first() != Some(&want)) { e = Err(format!("starting a span (way {way}, settings {d}) reached the tracer as {got:?}, expected {want}")); }
    (format!("way {way} with {d}"), e)
}

pub fn c34(c: &mut Ctx) {
    c.rule = "random operations on a recording span of our own: directly, behind the global tracer, and through SpanRef of the context that holds it, on live, remote, absent and poisoned spans; every way to start a span with random builder settings and parents; histories of setting the global provider. Non-trivial: at least two operations reach the span".into();
    // before anything is set, the global tracer does nothing and spans carry the parent's context
    for i in 0..20 {
        let s = sc(&mut c.rng);
        let cx = if i % 2 == 0 { Context::new().with_remote_span_context(s.clone()) } else { Context::new() };
        let want = if i % 2 == 0 { s } else { SpanContext::NONE };
        let ops: Vec<Op> = (0..5).map(|_| op(&mut c.rng)).collect();
        c.case(format!("no provider set, parent {want:?}"), true, || {
            let mut sp = global::tracer("x").build_with_context(SpanBuilder::from_name("a").with_span_id(SpanId::from(9)), &cx);
            if sp.is_recording() { return Err("a span of the default global tracer records".into()); }
            for o in ops { apply(&mut sp, o) }
            if *sp.span_context() != want { return Err(format!("a span of the default global tracer has context {:?}, expected {want:?}", sp.span_context())); }
            let mut d = opentelemetry::trace::noop::NoopSpan::DEFAULT;
            apply(&mut d, Op::Name("x".into()));
            if d.is_recording() || *d.span_context() != SpanContext::NONE { return Err(format!("NoopSpan::DEFAULT has context {:?}", d.span_context())); }
            Ok(())
        });
    }
    // operations through each kind of handle
    for _ in 0..c.n(600) {
        let log: Log = Default::default();
        let s = sc(&mut c.rng);
        let rec = c.rng.chance(4, 5);
        let ops: Vec<Op> = (0..1 + c.rng.usize(12)).map(|_| op(&mut c.rng)).collect();
        let kind = c.rng.below(6);
        let base = Context::new().with_value(Tag(1 + c.rng.below(50)));
        let desc = format!("handle {kind}, recording {rec}, {s:?}: {ops:?}");
        let n: usize = ops.iter().map(|o| told(o, rec).len()).sum();
        c.case(desc, n > 1, || {
            let span = Rec { sc: s.clone(), log: log.clone(), rec, boom: false };
            let mut want = vec![];
            match kind {
                0 => { let mut sp = span; for o in ops { want.extend(told(&o, rec)); apply(&mut sp, o) } }
                1 | 2 => {
                    let _at = base.clone().attach();
                    let cx = if kind == 1 { base.with_span(span) } else { Context::current_with_span(span) };
                    if !cx.has_active_span() || tag(&cx) != tag(&base) { return Err("a context with a span does not say so, or lost its values".into()); }
                    let other = cx.with_value(Tag(999));
                    for (i, o) in ops.into_iter().enumerate() {
                        if matches!(o, Op::Link(..)) { continue; }
                        want.extend(told(&o, rec));
                        // copies of the context hold the same span
                        if i % 2 == 0 { apply_ref(&cx.span(), o) } else { apply_ref(&other.clone().span(), o) }
                    }
                    if cx.span().is_recording() != rec || *cx.span().span_context() != s { return Err(format!("the handle says recording {} and context {:?}", cx.span().is_recording(), cx.span().span_context())); }
                }
                3 => {
                    let _b = base.clone().attach();
                    {
                        let _g = mark_span_as_active(span);
                        if tag(&Context::current()) != tag(&base) { return Err("mark_span_as_active lost the values of the context".into()); }
                        for o in ops {
                            if matches!(o, Op::Link(..)) { continue; }
                            want.extend(told(&o, rec));
                            get_active_span(|sp| apply_ref(&sp, o));
                        }
                        if !get_active_span(|sp| *sp.span_context() == s && sp.is_recording() == rec) { return Err("the active span is another one".into()); }
                    }
                    if get_active_span(|sp| *sp.span_context() != SpanContext::NONE) || tag(&Context::current()) != tag(&base) { return Err("dropping the guard of mark_span_as_active left another context".into()); }
                }
                4 => {
                    let remote = s.is_remote();
                    let cx = if remote { base.with_remote_span_context(s.clone()) } else { base.clone() };
                    for o in ops { apply_ref(&cx.span(), o) }
                    let w = if remote { s.clone() } else { SpanContext::NONE };
                    if cx.has_active_span() != remote || cx.span().is_recording() || *cx.span().span_context() != w || tag(&cx) != tag(&base) { return Err(format!("a context without a local span: active {} recording {} {:?}", cx.has_active_span(), cx.span().is_recording(), cx.span().span_context())); }
                    // an outer span is hidden by a remote one, not reached through it
                    let outer = base.with_span(span);
                    outer.with_remote_span_context(s.clone()).span().set_attribute(KeyValue::new("x", 1));
                }
                _ => {
                    // a span that panics: later use of it through the context is ignored, never a panic
                    let cx = base.with_span(Rec { boom: true, ..span });
                    let first = Op::EventAt("boom".into(), SystemTime::UNIX_EPOCH, vec![]);
                    want.extend(told(&first, rec));
                    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| apply_ref(&cx.span(), first))).is_ok() { return Err("the operation did not reach the span".into()); }
                    for o in ops { apply_ref(&cx.span(), o) }
                    if cx.span().is_recording() || *cx.span().span_context() != s { return Err("a span that panicked still records or lost its context".into()); }
                }
            }
            let got = log.lock().unwrap_or_else(|e| e.into_inner()).clone();
            same(&got, &want, "operations")
        });
    }
    // starting spans, with our tracer directly and through the global provider; histories of setting it
    let mut set: Option<u64> = None;
    for i in 0..c.n(500) {
        let p = Pr { id: i + 1, calls: Default::default(), spans: Default::default(), next: sc(&mut c.rng) };
        let sets = c.rng.chance(1, 3) || set.is_none();
        let calls = p.calls.clone();
        let spans = p.spans.clone();
        let next = p.next.clone();
        let mut r = Rng(c.rng.next());
        let name = *r.pick(&["", "lib", "another.lib"]);
        let scope = match r.below(3) { 0 => InstrumentationScope::builder(name).build(), 1 => InstrumentationScope::builder(name).with_version("1.2").build(), _ => InstrumentationScope::builder(name).with_schema_url("u").with_attributes([KeyValue::new("k", 1)]).build() };
        let how = r.below(4);
        let here = match r.below(3) { 0 => Context::new(), 1 => Context::new().with_value(Tag(3)), _ => Context::new().with_remote_span_context(sc(&mut r)).with_value(Tag(4)) };
        let desc = format!("step {i}: set {sets}, how {how}, scope {}, seed {}", show_scope(&scope), r.0);
        let was = set;
        if sets { set = Some(i + 1); }
        let cur = set;
        c.case(desc, true, || {
            let _h = here.attach();
            let old = if sets { Some(global::set_tracer_provider(p.clone())) } else { None };
            let plain = show_scope(&InstrumentationScope::builder(name).build());
            let mine = sets && cur == Some(p.id);
            let run = |r: &mut Rng| -> Result<(), String> {
                for _ in 0..6 {
                    let e = match how {
                        0 => { let t = p.tracer(name); starts(&t, &calls, r, p.id, &plain, 2) }
                        1 => { let t = p.tracer_with_scope(scope.clone()); starts(&t, &calls, r, p.id, &show_scope(&scope), 1) }
                        2 if mine => { let t = global::tracer(name); starts(&t, &calls, r, p.id, &plain, 2) }
                        3 if mine => { let t = global::tracer_with_scope(scope.clone()); starts(&t, &calls, r, p.id, &show_scope(&scope), 1) }
                        _ => { let t = global::BoxedTracer::new(Box::new(p.tracer_with_scope(scope.clone()))); starts(&t, &calls, r, p.id, &show_scope(&scope), 1) }
                    };
                    e.1.map_err(|m| format!("{}: {m}", e.0))?;
                }
                Ok(())
            };
            run(&mut r)?;
            if let Some(old) = old {
                // the replaced provider is the one that was set before
                let from = calls.lock().unwrap().len();
                let sp = old.tracer("old").start("x");
                if calls.lock().unwrap().len() != from { return Err("set_tracer_provider gave back the provider just set".into()); }
                if was.is_none() && sp.is_recording() { return Err("the first set_tracer_provider did not give back the default".into()); }
                // spans of the global tracer reach the span the provider made
                let mut sp = global::tracer("now").start("x");
                if *sp.span_context() != next { return Err("a span of the global tracer does not have the context of the provider's span".into()); }
                let mut want = spans.lock().unwrap().clone();
                for _ in 0..6 { let o = op(&mut r); want.extend(told(&o, true)); apply(&mut sp, o); }
                let got = spans.lock().unwrap().clone();
                same(&got, &want, "operations on a span of the global tracer")?;
                let clone = global::tracer_provider();
                let n = calls.lock().unwrap().len();
                let _ = clone.clone().tracer("again").start("y");
                if calls.lock().unwrap().len() != n + 1 { return Err("tracer_provider() is not the provider set last".into()); }
            }
            Ok(())
        });
    }
    // a replaced provider whose drop uses the global one
    c.case("a global provider is replaced by one whose drop uses the global one".into(), true, || {
        #[derive(Debug)]
        struct Nosy(std::sync::mpsc::Sender<()>);
        impl Drop for Nosy { fn drop(&mut self) { let _ = global::tracer("drop").start("x"); let _ = self.0.send(()); } }
        #[derive(Debug)]
        struct NosyProvider(Arc<Nosy>);
        impl TracerProvider for NosyProvider {
            type Tracer = opentelemetry::trace::noop::NoopTracer;
            fn tracer_with_scope(&self, _: InstrumentationScope) -> Self::Tracer { NoopTracerProvider::new().tracer("") }
        }
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let _ = global::set_tracer_provider(NosyProvider(Arc::new(Nosy(tx))));
            let _ = global::set_tracer_provider(NoopTracerProvider::new());
        });
        rx.recv_timeout(Duration::from_secs(20)).map_err(|_| "replacing the global provider does not return: the replaced one's drop waits for the lock".to_string())
    });
}

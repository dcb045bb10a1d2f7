use crate::common::Ctx;
use opentelemetry::baggage::BaggageExt;
use opentelemetry::trace::{FutureExt, SpanContext, SpanId, TraceContextExt, TraceFlags, TraceId, TraceState};
use opentelemetry::{Context, KeyValue};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context as TCx, Poll};

#[derive(Debug, PartialEq, Clone)] struct A(u64);
#[derive(Debug, PartialEq, Clone)] struct B(u64);
#[derive(Debug, PartialEq, Clone)] struct C(String);

#[derive(Clone, Debug, PartialEq, Default)]
struct M { span: Option<u64>, supp: bool, a: Option<u64>, b: Option<u64>, c: Option<String>, bag: Option<u64> }

fn sc(n: u64) -> SpanContext {
    SpanContext::new(TraceId::from(n as u128), SpanId::from(n), TraceFlags::default(), n % 2 == 0, TraceState::NONE)
}
struct Plain(SpanContext);
impl opentelemetry::trace::Span for Plain {
    fn add_event_with_timestamp<T>(&mut self, _: T, _: std::time::SystemTime, _: Vec<KeyValue>) where T: Into<std::borrow::Cow<'static, str>> {}
    fn span_context(&self) -> &SpanContext { &self.0 }
    fn is_recording(&self) -> bool { true }
    fn set_attribute(&mut self, _: KeyValue) {}
    fn set_status(&mut self, _: opentelemetry::trace::Status) {}
    fn update_name<T>(&mut self, _: T) where T: Into<std::borrow::Cow<'static, str>> {}
    fn add_link(&mut self, _: SpanContext, _: Vec<KeyValue>) {}
    fn end_with_timestamp(&mut self, _: std::time::SystemTime) {}
}

fn observe(c: &Context) -> M {
    M {
        span: if c.has_active_span() { Some(u64::from_be_bytes(c.span().span_context().span_id().to_bytes())) } else { None },
        supp: c.is_telemetry_suppressed(),
        a: c.get::<A>().map(|x| x.0), b: c.get::<B>().map(|x| x.0), c: c.get::<C>().map(|x| x.0.clone()),
        bag: c.baggage().get("k").map(|v| v.as_str().parse().unwrap()),
    }
}
fn check(c: &Context, m: &M, w: &str) -> Result<(), String> {
    let o = observe(c);
    if &o != m { return Err(format!("{w}: holds {o:?} want {m:?}")); }
    if m.span.is_none() && c.span().span_context().is_valid() { return Err(format!("{w}: no span was set but span() is valid")); }
    Ok(())
}

struct Probe(u32, std::sync::Arc<std::sync::Mutex<Vec<M>>>);
impl Future for Probe {
    type Output = M;
    fn poll(mut self: Pin<&mut Self>, t: &mut TCx<'_>) -> Poll<M> {
        self.1.lock().unwrap().push(observe(&Context::current()));
        if self.0 == 0 { return Poll::Ready(observe(&Context::current())); }
        self.0 -= 1;
        t.waker().wake_by_ref();
        Poll::Pending
    }
}

/// a stream and a sink that keep the context each of their steps runs under
struct Steps(u32, std::sync::Arc<std::sync::Mutex<Vec<(&'static str, M)>>>);
impl Steps { fn saw(&self, what: &'static str) { self.1.lock().unwrap().push((what, observe(&Context::current()))); } }
impl futures_core::Stream for Steps {
    type Item = u32;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut TCx<'_>) -> Poll<Option<u32>> {
        self.saw("poll_next");
        if self.0 == 0 { return Poll::Ready(None); }
        self.0 -= 1;
        if self.0 % 2 == 0 { Poll::Pending } else { Poll::Ready(Some(self.0)) }
    }
}
impl futures_sink::Sink<u32> for Steps {
    type Error = u32;
    fn poll_ready(self: Pin<&mut Self>, _: &mut TCx<'_>) -> Poll<Result<(), u32>> { self.saw("poll_ready"); if self.0 % 3 == 0 { Poll::Pending } else { Poll::Ready(Ok(())) } }
    fn start_send(mut self: Pin<&mut Self>, i: u32) -> Result<(), u32> { self.saw("start_send"); self.0 += i; if self.0 % 5 == 0 { Err(self.0) } else { Ok(()) } }
    fn poll_flush(self: Pin<&mut Self>, _: &mut TCx<'_>) -> Poll<Result<(), u32>> { self.saw("poll_flush"); if self.0 % 2 == 0 { Poll::Pending } else { Poll::Ready(Err(self.0)) } }
    fn poll_close(self: Pin<&mut Self>, _: &mut TCx<'_>) -> Poll<Result<(), u32>> { self.saw("poll_close"); Poll::Ready(if self.0 % 2 == 0 { Ok(()) } else { Err(self.0) }) }
}
/// the same steps, wrapped and not: same results, each under the carried context, with the one around restored
fn steps(s: &Context, m: &M, around: &M, v: u64, current: bool) -> Result<(), String> {
    use futures_core::Stream;
    use futures_sink::Sink;
    let log = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
    let mut bare = Box::pin(Steps(v as u32 % 7, Default::default()));
    let wrapped = Steps(v as u32 % 7, log.clone());
    let mut w = Box::pin(if current { let _g = s.clone().attach(); wrapped.with_current_context() } else { wrapped.with_context(s.clone()) });
    let mut t = TCx::from_waker(std::task::Waker::noop());
    let mut names = vec![];
    for i in 0..10u64 {
        let (n, a, b) = match (v.wrapping_mul(31).wrapping_add(i * i * 7)) % 5 {
            0 => ("poll_next", format!("{:?}", w.as_mut().poll_next(&mut t)), format!("{:?}", bare.as_mut().poll_next(&mut t))),
            1 => ("poll_ready", format!("{:?}", w.as_mut().poll_ready(&mut t)), format!("{:?}", bare.as_mut().poll_ready(&mut t))),
            2 => ("start_send", format!("{:?}", w.as_mut().start_send(i as u32)), format!("{:?}", bare.as_mut().start_send(i as u32))),
            3 => ("poll_flush", format!("{:?}", w.as_mut().poll_flush(&mut t)), format!("{:?}", bare.as_mut().poll_flush(&mut t))),
            _ => ("poll_close", format!("{:?}", w.as_mut().poll_close(&mut t)), format!("{:?}", bare.as_mut().poll_close(&mut t))),
        };
        if a != b { return Err(format!("{n} of a stream or sink carrying a context gives {a}, without it {b}")); }
        names.push(n);
        if &observe(&Context::current()) != around { return Err(format!("after {n} the current context is {:?} want {around:?}", observe(&Context::current()))); }
    }
    let got = log.lock().unwrap().clone();
    if got.len() != names.len() || got.iter().zip(&names).any(|(g, n)| g.0 != *n || &g.1 != m) { return Err(format!("a stream or sink carrying {m:?}: steps {names:?} reached it as {got:?}")); }
    Ok(())
}

/// C04
pub fn c04(c: &mut Ctx) {
    c.rule = "a program derives contexts from a pool (new, with_value, with_span, with_remote_span_context, with_baggage, with_telemetry_suppressed, clone, the current_* forms under an attached context, futures, streams and sinks carrying a context); every context of the pool is observed after every step; non-trivial: some context derives from another one that holds something".into();
    for i in 0..c.n(6000) {
        let steps = 3 + c.rng.usize(18);
        let prog: Vec<(u64, u64, u64)> = (0..steps).map(|_| (c.rng.below(16), c.rng.next(), c.rng.below(1000) + 1)).collect();
        let d = format!("derivation program #{i} (operation, source choice, value): {:?}", prog.iter().map(|p| (p.0, p.1 % 97, p.2)).collect::<Vec<_>>());
        let prog: Vec<_> = prog.into_iter().map(|p| (p.0, p.1 % 97, p.2)).collect();
        c.case(d, prog.len() > 3, move || run(&prog));
    }
}

fn run(prog: &[(u64, u64, u64)]) -> Result<(), String> {
    let mut pool: Vec<(Context, M)> = vec![(Context::new(), M::default())];
    for (n, &(op, src, v)) in prog.iter().enumerate() {
        let (s, m) = { let x = &pool[(src as usize) % pool.len()]; (x.0.clone(), x.1.clone()) };
        let mut nm = m.clone();
        let nc = match op {
            0 => { nm.a = Some(v); s.with_value(A(v)) }
            1 => { nm.b = Some(v); s.with_value(B(v)) }
            2 => { nm.c = Some(format!("v{v}")); s.with_value(C(format!("v{v}"))) }
            3 => { nm.span = Some(v); s.with_span(Plain(sc(v))) }
            4 => { nm.span = Some(v); s.with_remote_span_context(sc(v)) }
            5 => { nm.supp = true; s.with_telemetry_suppressed() }
            6 => { nm.bag = Some(v); s.with_baggage(vec![KeyValue::new("k", v.to_string())]) }
            7 => { let g = s.clone().attach(); nm.a = Some(v); let r = Context::current_with_value(A(v)); drop(g); r }
            8 => { let g = s.clone().attach(); nm.span = Some(v); let r = Context::current_with_span(Plain(sc(v))); drop(g); r }
            9 => { let g = s.clone().attach(); nm.bag = Some(v); let r = Context::current_with_baggage(vec![KeyValue::new("k", v.to_string())]); drop(g); r }
            10 => { let g = s.clone().attach(); let e = Context::enter_telemetry_suppressed_scope(); nm.supp = true; let r = Context::current();
                if !Context::is_current_telemetry_suppressed() { return Err(format!("step {n}: entered a suppressed scope, current is not suppressed")); }
                drop(e); if Context::is_current_telemetry_suppressed() != m.supp { return Err(format!("step {n}: left the suppressed scope, suppressed = {}", !m.supp)); } drop(g); r }
            11 => { nm = M::default(); Context::new() }
            12 => { nm.bag = None; s.with_cleared_baggage() }
            14 | 15 => {
                let other = pool[(src as usize + 1) % pool.len()].clone();
                let g = other.0.clone().attach();
                steps(&s, &m, &other.1, v, op == 15).map_err(|e| format!("step {n}: {e}"))?;
                drop(g);
                s.clone()
            }
            _ => {
                let seen = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
                let other = pool[(src as usize + 1) % pool.len()].clone();
                let g = other.0.clone().attach();
                let mut f = Box::pin(Probe((v % 4) as u32, seen.clone()).with_context(s.clone()));
                let w = futures_executor::block_on(std::future::poll_fn(|t| {
                    let r = f.as_mut().poll(t);
                    if observe(&Context::current()) != other.1 { return Poll::Ready(Err(format!("between polls the current context is {:?} want {:?}", observe(&Context::current()), other.1))); }
                    match r { Poll::Ready(m) => Poll::Ready(Ok(m)), Poll::Pending => Poll::Pending }
                }))?;
                if w != m || seen.lock().unwrap().iter().any(|x| x != &m) { return Err(format!("step {n}: a future carrying {m:?} ran under {:?}", seen.lock().unwrap())); }
                drop(g);
                s.clone()
            }
        };
        check(&nc, &nm, &format!("step {n}: derived context"))?;
        for (j, (pc, pm)) in pool.iter().enumerate() { check(pc, pm, &format!("step {n}: older context {j} changed"))?; }
        if pool.len() < 12 { pool.push((nc, nm)); } else { let k = 1 + (v as usize % 11); pool[k] = (nc, nm); }
    }
    Ok(())
}

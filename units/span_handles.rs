// Unit: what stands between a user and a span, tracer, meter or instrument (opentelemetry/src/{trace/span,trace/context,
// trace/noop,global/trace,global/metrics,metrics/..}.rs): span references of a context, boxed spans and tracers, the global
// providers and the no-op implementations.
use vstd::prelude::*;
use std::sync::Arc;
verus! {
#[verifier::external_body] struct KeyValue { _p: u8 }
#[verifier::external_body] struct Text { _p: u8 }
#[verifier::external_body] struct Status { _p: u8 }
#[verifier::external_body] struct SpanContext { _p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct SystemTime { _p: u8 }
#[verifier::external_body] struct ErrorRef { _p: u8 }
uninterp spec fn none_context() -> SpanContext;
impl SpanContext {
    #[verifier::external_body] fn clone(&self) -> (r: SpanContext) ensures r == *self { unimplemented!() }
    #[verifier::external_body] fn none() -> (r: SpanContext) ensures r == none_context() { unimplemented!() }
}
/// t was read from the clock
uninterp spec fn stamped(t: SystemTime) -> bool;
#[verifier::external_body] fn now() -> (r: SystemTime) ensures stamped(r) { unimplemented!() }
uninterp spec fn text(s: Seq<char>) -> Text;
#[verifier::external_body] fn named(s: &str) -> (r: Text) ensures r == text(s@) { unimplemented!() }
uninterp spec fn message_of(e: ErrorRef) -> KeyValue;
#[verifier::external_body] fn exception_message(e: &ErrorRef) -> (r: Vec<KeyValue>) ensures r@ == seq![message_of(*e)] { unimplemented!() }
/// what can be done to a span
enum Op { Event(Text, SystemTime, Seq<KeyValue>), Attribute(KeyValue), Status(Status), Name(Text), Link(SpanContext, Seq<KeyValue>), End(SystemTime) }
trait Span: Sized {
    spec fn ops(&self) -> Seq<Op>;
    spec fn sc(&self) -> SpanContext;
    spec fn rec(&self) -> bool;
    fn add_event_with_timestamp(&mut self, name: Text, timestamp: SystemTime, attributes: Vec<KeyValue>)
        ensures final(self).ops() == old(self).ops().push(Op::Event(name, timestamp, attributes@)), final(self).sc() == old(self).sc();
    fn span_context(&self) -> (r: &SpanContext) ensures *r == self.sc();
    fn is_recording(&self) -> (r: bool) ensures r == self.rec();
    fn set_attribute(&mut self, attribute: KeyValue)
        ensures final(self).ops() == old(self).ops().push(Op::Attribute(attribute)), final(self).sc() == old(self).sc();
    fn set_status(&mut self, status: Status)
        ensures final(self).ops() == old(self).ops().push(Op::Status(status)), final(self).sc() == old(self).sc();
    fn update_name(&mut self, new_name: Text)
        ensures final(self).ops() == old(self).ops().push(Op::Name(new_name)), final(self).sc() == old(self).sc();
    fn add_link(&mut self, span_context: SpanContext, attributes: Vec<KeyValue>)
        ensures final(self).ops() == old(self).ops().push(Op::Link(span_context, attributes@)), final(self).sc() == old(self).sc();
    fn end_with_timestamp(&mut self, timestamp: SystemTime)
        ensures final(self).ops() == old(self).ops().push(Op::End(timestamp)), final(self).sc() == old(self).sc();
}
/// the span behind: any implementation of the trait
struct Real { id: u64, done: Ghost<Seq<Op>> }
uninterp spec fn context_of(id: u64) -> SpanContext;
uninterp spec fn recording(id: u64, done: Seq<Op>) -> bool;
impl Span for Real {
    spec fn ops(&self) -> Seq<Op> { self.done@ }
    spec fn sc(&self) -> SpanContext { context_of(self.id) }
    spec fn rec(&self) -> bool { recording(self.id, self.done@) }
    #[verifier::external_body] fn add_event_with_timestamp(&mut self, name: Text, timestamp: SystemTime, attributes: Vec<KeyValue>) { unimplemented!() }
    #[verifier::external_body] fn span_context(&self) -> (r: &SpanContext) { unimplemented!() }
    #[verifier::external_body] fn is_recording(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn set_attribute(&mut self, attribute: KeyValue) { unimplemented!() }
    #[verifier::external_body] fn set_status(&mut self, status: Status) { unimplemented!() }
    #[verifier::external_body] fn update_name(&mut self, new_name: Text) { unimplemented!() }
    #[verifier::external_body] fn add_link(&mut self, span_context: SpanContext, attributes: Vec<KeyValue>) { unimplemented!() }
    #[verifier::external_body] fn end_with_timestamp(&mut self, timestamp: SystemTime) { unimplemented!() }
}
//@gsubst crate::time::now() ~> now()
//@gsubst name.into() ~> name
//@gsubst new_name.into() ~> new_name
//@gsubst Cow<'static, str> ~> Text
//@gsubst trace::SpanContext ~> SpanContext
//@gsubst trace::Status ~> Status
//@gsubst crate::KeyValue ~> KeyValue
//@gsubst std::time::SystemTime ~> SystemTime

// ---- any span as a trait object ----
struct Obj(Real);
impl Span for Obj {
    spec fn ops(&self) -> Seq<Op> { self.0.ops() }
    spec fn sc(&self) -> SpanContext { self.0.sc() }
    spec fn rec(&self) -> bool { self.0.rec() }
//@fn opentelemetry/src/global/trace.rs impl ObjectSafeSpan for T :: fn add_event_with_timestamp
//@subst? self.$m($$a) ~> self.0.$m($$a)
//@endfn
//@fn opentelemetry/src/global/trace.rs impl ObjectSafeSpan for T :: fn span_context
//@ret r
//@subst? self.$m() ~> self.0.$m()
//@endfn
//@fn opentelemetry/src/global/trace.rs impl ObjectSafeSpan for T :: fn is_recording
//@ret r
//@subst? self.$m() ~> self.0.$m()
//@endfn
//@fn opentelemetry/src/global/trace.rs impl ObjectSafeSpan for T :: fn set_attribute
//@subst? self.$m($$a) ~> self.0.$m($$a)
//@endfn
//@fn opentelemetry/src/global/trace.rs impl ObjectSafeSpan for T :: fn set_status
//@subst? self.$m($$a) ~> self.0.$m($$a)
//@endfn
//@fn opentelemetry/src/global/trace.rs impl ObjectSafeSpan for T :: fn update_name
//@subst? self.$m($$a) ~> self.0.$m($$a)
//@endfn
//@fn opentelemetry/src/global/trace.rs impl ObjectSafeSpan for T :: fn add_link
//@subst? self.$m($$a) ~> self.0.$m($$a)
//@endfn
//@fn opentelemetry/src/global/trace.rs impl ObjectSafeSpan for T :: fn end_with_timestamp
//@subst? self.$m($$a) ~> self.0.$m($$a)
//@endfn
}
impl Obj {
//@fn opentelemetry/src/global/trace.rs trait ObjectSafeSpan :: fn end
//@contract
    ensures ended(old(self).ops(), final(self).ops()), final(self).sc() == old(self).sc(),
//@endfn
}

// ---- boxed spans ----
struct BoxedSpan(Obj);
spec fn ended(was: Seq<Op>, is: Seq<Op>) -> bool { exists|t: SystemTime| #[trigger] stamped(t) && is == was.push(Op::End(t)) }
spec fn added(was: Seq<Op>, is: Seq<Op>, name: Text, attrs: Seq<KeyValue>) -> bool { exists|t: SystemTime| #[trigger] stamped(t) && is == was.push(Op::Event(name, t, attrs)) }
spec fn sets(a: Seq<KeyValue>) -> Seq<Op> { Seq::new(a.len(), |i: int| Op::Attribute(a[i])) }
impl BoxedSpan {
//@fn opentelemetry/src/global/trace.rs impl BoxedSpan :: fn new
//@sig fn new(span: Obj) -> BoxedSpan
//@subst? Box::new(span) ~> span
//@ret r
//@contract
    ensures r.0 == span,
//@endfn
}
impl Span for BoxedSpan {
    spec fn ops(&self) -> Seq<Op> { self.0.ops() }
    spec fn sc(&self) -> SpanContext { self.0.sc() }
    spec fn rec(&self) -> bool { self.0.rec() }
//@fn opentelemetry/src/global/trace.rs impl trace::Span for BoxedSpan :: fn add_event_with_timestamp
//@sig fn add_event_with_timestamp(&mut self, name: Text, timestamp: SystemTime, attributes: Vec<KeyValue>)
//@endfn
//@fn opentelemetry/src/global/trace.rs impl trace::Span for BoxedSpan :: fn span_context
//@ret r
//@endfn
//@fn opentelemetry/src/global/trace.rs impl trace::Span for BoxedSpan :: fn is_recording
//@ret r
//@endfn
//@fn opentelemetry/src/global/trace.rs impl trace::Span for BoxedSpan :: fn set_attribute
//@endfn
//@fn opentelemetry/src/global/trace.rs impl trace::Span for BoxedSpan :: fn set_status
//@endfn
//@fn opentelemetry/src/global/trace.rs impl trace::Span for BoxedSpan :: fn update_name
//@sig fn update_name(&mut self, new_name: Text)
//@endfn
//@fn opentelemetry/src/global/trace.rs impl trace::Span for BoxedSpan :: fn add_link
//@endfn
//@fn opentelemetry/src/global/trace.rs impl trace::Span for BoxedSpan :: fn end_with_timestamp
//@endfn
}
/// the trait's provided methods (here for a boxed span: they use the required ones only)
impl BoxedSpan {
//@fn opentelemetry/src/trace/span.rs trait Span :: fn add_event
//@sig fn add_event(&mut self, name: Text, attributes: Vec<KeyValue>)
//@contract
    ensures added(old(self).ops(), final(self).ops(), name, attributes@), final(self).sc() == old(self).sc(),
//@endfn
//@fn opentelemetry/src/trace/span.rs trait Span :: fn record_error
//@sig fn record_error(&mut self, err: &ErrorRef)
//@subst? vec![KeyValue::new("exception.message", err.to_string())] ~> exception_message(err)
//@subst? "exception" ~> named("exception")
//@contract
    ensures final(self).sc() == old(self).sc(), if old(self).rec() { added(old(self).ops(), final(self).ops(), text("exception"@), seq![message_of(*err)]) } else { final(self).ops() == old(self).ops() },
//@endfn
//@fn opentelemetry/src/trace/span.rs trait Span :: fn set_attributes
//@sig fn set_attributes(&mut self, attributes: Vec<KeyValue>)
//@subst? attributes.into_iter() ~> attributes
//@contract
    ensures final(self).sc() == old(self).sc(), if old(self).rec() { final(self).ops() == old(self).ops() + sets(attributes@) } else { final(self).ops() == old(self).ops() },
//@start
    let ghost was = self.ops();
    proof { assert(was + sets(attributes@.take(0)) =~= was); }
//@loop 0 it
    invariant it.seq() == attributes@, self.sc() == old(self).sc(), self.ops() == was + sets(attributes@.take(it.index@)),
//@endinloop 0
    proof { assert(was + sets(attributes@.take(it.index@ + 1)) =~= (was + sets(attributes@.take(it.index@))).push(Op::Attribute(attributes@[it.index@]))); }
//@afterloop 0
    proof { assert(attributes@.take(attributes@.len() as int) =~= attributes@); }
//@endfn
//@fn opentelemetry/src/trace/span.rs trait Span :: fn end
//@contract
    ensures ended(old(self).ops(), final(self).ops()), final(self).sc() == old(self).sc(),
//@endfn
}

// ---- a context's span ----
#[verifier::reject_recursive_types(T)]
struct Mutex<T> { v: T, poisoned: Ghost<bool> }
#[verifier::external_body] struct Poison { _p: u8 }
impl<T> Mutex<T> {
    fn new(v: T) -> (r: Mutex<T>) ensures r.v == v, !r.poisoned@ { Mutex { v, poisoned: Ghost(false) } }
    /// the lock section is one step; it fails exactly when a holder panicked
    #[verifier::external_body] fn lock(&mut self) -> (r: Result<&mut T, Poison>)
        ensures final(self).poisoned == old(self).poisoned, match r { Ok(p) => !old(self).poisoned@ && *p == old(self).v && final(self).v == *final(p), Err(_) => old(self).poisoned@ && final(self).v == old(self).v } { unimplemented!() }
}
//@item opentelemetry/src/trace/context.rs struct SynchronizedSpan
//@ subst global::BoxedSpan ~> BoxedSpan
//@gsubst global::BoxedSpan ~> BoxedSpan
/// something done to the boxed span
trait Job: Sized { spec fn does(&self, was: BoxedSpan, is: BoxedSpan) -> bool; fn call(self, s: &mut BoxedSpan) ensures self.does(*old(s), *final(s)); }
impl SynchronizedSpan {
    /// nothing can be done to it any more, or there was nothing to do it to
    spec fn dead(&self) -> bool { match self.inner { Some(m) => m.poisoned@, None => true } }
    spec fn span(&self) -> BoxedSpan { self.inner->0.v }
    /// the same reference after an operation
    spec fn kept(&self, was: SynchronizedSpan) -> bool { self.span_context == was.span_context && self.dead() == was.dead() && (was.inner.is_none() ==> self.inner.is_none()) && (was.dead() ==> *self == was) }
    spec fn wf(&self) -> bool { self.inner matches Some(m) ==> m.v.sc() == self.span_context }
    fn locked(&mut self) -> (r: Option<&mut BoxedSpan>)
        ensures match r { Some(p) => !old(self).dead() && *p == old(self).span() && final(self).kept(*old(self)) && final(self).span() == *final(p), None => old(self).dead() && *final(self) == *old(self) }
    { match self.inner { Some(ref mut m) => match m.lock() { Ok(p) => Some(p), Err(_) => None }, None => None } }
//@fn opentelemetry/src/trace/context.rs impl SynchronizedSpan :: fn span_context
//@ret r
//@contract
    ensures *r == self.span_context,
//@endfn
//@fn opentelemetry/src/trace/context.rs impl From<SpanContext> for SynchronizedSpan :: fn from
//@sig fn of_context(value: SpanContext) -> SynchronizedSpan
//@ret r
//@contract
    ensures r.span_context == value, r.inner.is_none(), r.wf(),
//@endfn
//@fn opentelemetry/src/trace/context.rs impl From<T> for SynchronizedSpan :: fn from
//@sig fn of_span(value: Obj) -> SynchronizedSpan
//@ret r
//@contract
    ensures r.span_context == value.sc(), !r.dead(), r.span() == BoxedSpan(value), r.wf(),
//@endfn
//@fn opentelemetry/src/trace/context.rs impl SpanRef<'_> :: fn with_inner_mut
//@sig fn with_inner_mut<J: Job>(&mut self, f: J)
//@subst? Some(ref inner) = self.0.inner ~> Some(ref mut inner) = self.inner
//@subst? Ok(mut locked) => f(&mut locked) ~> Ok(locked) => f.call(locked)
//@contract
    ensures final(self).kept(*old(self)), !old(self).dead() ==> f.does(old(self).span(), final(self).span()),
//@endfn
//@gsubst self.with_inner_mut(|inner| $$b) ~> match self.locked() { Some(inner) => { $$b; } None => {} }
//@gsubst self.with_inner_mut(move |inner| $$b) ~> match self.locked() { Some(inner) => { $$b; } None => {} }
//@fn opentelemetry/src/trace/context.rs impl SpanRef<'_> :: fn add_event
//@sig fn add_event(&mut self, name: Text, attributes: Vec<KeyValue>)
//@contract
    ensures final(self).kept(*old(self)), !old(self).dead() ==> added(old(self).span().ops(), final(self).span().ops(), name, attributes@), old(self).wf() ==> final(self).wf(),
//@endfn
//@fn opentelemetry/src/trace/context.rs impl SpanRef<'_> :: fn record_error
//@sig fn record_error(&mut self, err: &ErrorRef)
//@contract
    ensures final(self).kept(*old(self)), old(self).wf() ==> final(self).wf(),
        !old(self).dead() ==> if old(self).span().rec() { added(old(self).span().ops(), final(self).span().ops(), text("exception"@), seq![message_of(*err)]) } else { final(self).span().ops() == old(self).span().ops() },
//@endfn
//@fn opentelemetry/src/trace/context.rs impl SpanRef<'_> :: fn add_event_with_timestamp
//@sig fn add_event_with_timestamp(&mut self, name: Text, timestamp: SystemTime, attributes: Vec<KeyValue>)
//@contract
    ensures final(self).kept(*old(self)), old(self).wf() ==> final(self).wf(), !old(self).dead() ==> final(self).span().ops() == old(self).span().ops().push(Op::Event(name, timestamp, attributes@)),
//@endfn
//@fn opentelemetry/src/trace/context.rs impl SpanRef<'_> :: fn span_context
//@sig fn span_context_(&self) -> (r: &SpanContext)
//@subst self.0.span_context ~> self.span_context
//@contract
    ensures *r == self.span_context,
//@endfn
//@fn opentelemetry/src/trace/context.rs impl SpanRef<'_> :: fn is_recording
//@sig fn is_recording(&mut self) -> bool
//@ret r
//@subst? self.0.inner.as_ref().and_then(|inner| inner.lock().ok().map(|active| $$b)).unwrap_or($d) ~> match self.locked() { Some(active) => $$b, None => $d }
//@contract
    ensures *final(self) == *old(self), r == (!old(self).dead() && old(self).span().rec()),
//@endfn
//@fn opentelemetry/src/trace/context.rs impl SpanRef<'_> :: fn set_attribute
//@sig fn set_attribute(&mut self, attribute: KeyValue)
//@contract
    ensures final(self).kept(*old(self)), old(self).wf() ==> final(self).wf(), !old(self).dead() ==> final(self).span().ops() == old(self).span().ops().push(Op::Attribute(attribute)),
//@endfn
//@fn opentelemetry/src/trace/context.rs impl SpanRef<'_> :: fn set_attributes
//@sig fn set_attributes(&mut self, attributes: Vec<KeyValue>)
//@contract
    ensures final(self).kept(*old(self)), old(self).wf() ==> final(self).wf(),
        !old(self).dead() ==> final(self).span().ops() == (if old(self).span().rec() { old(self).span().ops() + sets(attributes@) } else { old(self).span().ops() }),
//@endfn
//@fn opentelemetry/src/trace/context.rs impl SpanRef<'_> :: fn set_status
//@sig fn set_status(&mut self, status: Status)
//@contract
    ensures final(self).kept(*old(self)), old(self).wf() ==> final(self).wf(), !old(self).dead() ==> final(self).span().ops() == old(self).span().ops().push(Op::Status(status)),
//@endfn
//@fn opentelemetry/src/trace/context.rs impl SpanRef<'_> :: fn update_name
//@sig fn update_name(&mut self, new_name: Text)
//@contract
    ensures final(self).kept(*old(self)), old(self).wf() ==> final(self).wf(), !old(self).dead() ==> final(self).span().ops() == old(self).span().ops().push(Op::Name(new_name)),
//@endfn
//@fn opentelemetry/src/trace/context.rs impl SpanRef<'_> :: fn end
//@sig fn end(&mut self)
//@contract
    ensures final(self).kept(*old(self)), old(self).wf() ==> final(self).wf(), !old(self).dead() ==> ended(old(self).span().ops(), final(self).span().ops()),
//@endfn
//@fn opentelemetry/src/trace/context.rs impl SpanRef<'_> :: fn end_with_timestamp
//@sig fn end_with_timestamp(&mut self, timestamp: SystemTime)
//@contract
    ensures final(self).kept(*old(self)), old(self).wf() ==> final(self).wf(), !old(self).dead() ==> final(self).span().ops() == old(self).span().ops().push(Op::End(timestamp)),
//@endfn
} // impl

// ---- the span of a context ----
//@fn opentelemetry/src/trace/context.rs const NOOP_SPAN
//@sig fn noop_span() -> (r: SynchronizedSpan)
//@subst SpanContext::NONE ~> SpanContext::none()
//@contract
    ensures r.span_context == none_context(), r.inner.is_none(),
//@endfn
/// a constant by reference
#[verifier::external_body] fn promoted<T>(t: T) -> (r: &'static T) ensures *r == t { unimplemented!() }
//@item opentelemetry/src/trace/context.rs struct SpanRef
/// a context: its span and everything else in it (with_synchronized_span: unit context_values.rs)
struct Context { span: Option<Arc<SynchronizedSpan>>, rest: Ghost<int> }
impl Context {
    fn with_synchronized_span(&self, s: SynchronizedSpan) -> (r: Context) ensures r.holds(self.rest@, s) { Context { span: Some(Arc::new(s)), rest: Ghost(self.rest@) } }
    fn current_with_synchronized_span(s: SynchronizedSpan, cur: &Context) -> (r: Context) ensures r.holds(cur.rest@, s) { cur.with_synchronized_span(s) }
    fn clone(&self) -> (r: Context) ensures r == *self { Context { span: match &self.span { Some(a) => Some(a.clone()), None => None }, rest: Ghost(self.rest@) } }
    spec fn holds(&self, rest: int, s: SynchronizedSpan) -> bool { self.rest@ == rest && self.span.is_some() && *self.span->0 == s }
    /// the span given, with nothing done to it since, and the rest of another context
    spec fn carries(&self, of: Context, span: Obj) -> bool {
        self.rest == of.rest && self.span.is_some() && self.span->0.span_context == span.sc() && !self.span->0.dead() && self.span->0.span() == BoxedSpan(span)
    }
    /// the span context of the active span, or none
    spec fn active(&self) -> SpanContext { match self.span { Some(s) => s.span_context, None => none_context() } }
//@fn opentelemetry/src/trace/context.rs impl TraceContextExt for Context :: fn current_with_span
//@sig fn current_with_span(span: Obj, cur: &Context) -> Context
//@ret r
//@subst Context::current_with_synchronized_span(span.into()) ~> Context::current_with_synchronized_span(SynchronizedSpan::of_span(span), cur)
//@contract
    ensures r.carries(*cur, span),
//@endfn
//@fn opentelemetry/src/trace/context.rs impl TraceContextExt for Context :: fn with_span
//@sig fn with_span(&self, span: Obj) -> Context
//@ret r
//@subst span.into() ~> SynchronizedSpan::of_span(span)
//@contract
    ensures r.carries(*self, span),
//@endfn
//@fn opentelemetry/src/trace/context.rs impl TraceContextExt for Context :: fn span
//@ret r
//@subst? SpanRef(&NOOP_SPAN) ~> SpanRef(promoted(noop_span()))
//@subst? SpanRef(span) ~> SpanRef(&**span)
//@contract
    ensures match self.span { Some(s) => *r.0 == *s, None => r.0.span_context == none_context() && r.0.inner.is_none() }, r.0.span_context == self.active(),
//@endfn
//@fn opentelemetry/src/trace/context.rs impl TraceContextExt for Context :: fn has_active_span
//@ret r
//@contract
    ensures r == self.span.is_some(),
//@endfn
//@fn opentelemetry/src/trace/context.rs impl TraceContextExt for Context :: fn with_remote_span_context
//@ret r
//@subst span_context.into() ~> SynchronizedSpan::of_context(span_context)
//@contract
    ensures r.rest == self.rest, r.span.is_some(), r.span->0.span_context == span_context, r.span->0.inner.is_none(),
//@endfn
}
/// the contexts attached on this thread, the last one current (attach and guards: unit context_stack.rs)
struct Thread { attached: Vec<Context> }
struct Guard { n: Ghost<nat> }
impl Thread {
    spec fn cur(&self) -> Context { self.attached@.last() }
    spec fn wf(&self) -> bool { self.attached@.len() > 0 }
    fn current(&self) -> (r: &Context) requires self.wf() ensures *r == self.cur() { &self.attached[self.attached.len() - 1] }
    fn attach(&mut self, c: Context) -> (g: Guard) ensures final(self).attached@ == old(self).attached@.push(c), g.n@ == final(self).attached@.len() { self.attached.push(c); Guard { n: Ghost(self.attached@.len()) } }
    /// the guard goes away
    fn detach(&mut self, g: Guard) requires old(self).attached@.len() == g.n@, g.n@ > 0 ensures final(self).attached@ == old(self).attached@.drop_last() { let _c = self.attached.pop(); }
}
//@fn opentelemetry/src/trace/context.rs fn mark_span_as_active
//@sig fn mark_span_as_active(span: Obj, th: &mut Thread) -> Guard
//@ret r
//@subst Context::current_with_span(span) ~> Context::current_with_span(span, th.current())
//@subst? cx.attach() ~> th.attach(cx)
//@contract
    requires old(th).wf(),
    ensures final(th).attached@.drop_last() == old(th).attached@, final(th).attached@.len() == r.n@, r.n@ == old(th).attached@.len() + 1, final(th).cur().carries(old(th).cur(), span),
//@endfn
trait SpanTask<T>: Sized { spec fn gives(&self, s: SynchronizedSpan, r: T) -> bool; fn call(self, s: SpanRef<'_>) -> (r: T) ensures self.gives(*s.0, r); }
//@fn opentelemetry/src/trace/context.rs fn get_active_span
//@sig fn get_active_span<T, F: SpanTask<T>>(f: F, th: &Thread) -> T
//@ret r
//@subst Context::map_current(|cx| f(cx.span())) ~> { let cx = th.current(); f.call(cx.span()) }
//@contract
    requires th.wf(),
    ensures exists|s: SynchronizedSpan| #[trigger] f.gives(s, r) && s.span_context == th.cur().active() && (match th.cur().span { Some(a) => s == *a, None => s.inner.is_none() }),
//@endfn

// ---- starting spans ----
#[verifier::external_body] #[derive(Clone, Copy)] struct TraceId { _p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct SpanId { _p: u8 }
#[verifier::external_body] struct SpanKind { _p: u8 }
#[verifier::external_body] struct Event { _p: u8 }
#[verifier::external_body] struct TraceState { _p: u8 }
struct Link { span_context: SpanContext, rest: u64 }
impl SpanContext {
    uninterp spec fn valid(&self) -> bool;
    #[verifier::external_body] fn is_valid(&self) -> (r: bool) ensures r == self.valid() { unimplemented!() }
}
uninterp spec fn unset() -> Status;
impl Status { #[verifier::external_body] fn default() -> (r: Status) ensures r == unset() { unimplemented!() } }
uninterp spec fn no_text() -> Text;
impl Text { #[verifier::external_body] fn default() -> (r: Text) ensures r == no_text() { unimplemented!() } }
//@item opentelemetry/src/trace/tracer.rs enum SamplingDecision
//@item opentelemetry/src/trace/tracer.rs struct SamplingResult
//@item opentelemetry/src/trace/tracer.rs struct SpanBuilder
spec fn named_builder(name: Text) -> SpanBuilder {
    SpanBuilder { trace_id: None, span_id: None, span_kind: None, name, start_time: None, end_time: None, attributes: None, events: None, links: None, status: unset(), sampling_result: None }
}
spec fn kept_links(l: Seq<Link>) -> Seq<Link> decreases l.len() { if l.len() == 0 { Seq::empty() } else if l.last().span_context.valid() { kept_links(l.drop_last()).push(l.last()) } else { kept_links(l.drop_last()) } }
/// an equal one (the elements are moved)
#[verifier::external_body] fn same(l: &Link) -> (r: Link) ensures r == *l { unimplemented!() }
impl SpanBuilder {
    /// what derive(Default) makes
    fn default() -> (r: SpanBuilder) ensures r == named_builder(no_text()) {
        SpanBuilder { trace_id: None, span_id: None, span_kind: None, name: Text::default(), start_time: None, end_time: None, attributes: None, events: None, links: None, status: Status::default(), sampling_result: None }
    }
//@fn opentelemetry/src/trace/tracer.rs impl SpanBuilder :: fn from_name
//@sig fn from_name(name: Text) -> SpanBuilder
//@ret r
//@subst? ..Default::default() ~> ..SpanBuilder::default()
//@contract
    ensures r == named_builder(name),
//@endfn
//@fn opentelemetry/src/trace/tracer.rs impl SpanBuilder :: fn with_trace_id
//@ret r
//@contract
    ensures r == (SpanBuilder { trace_id: Some(trace_id), ..self }),
//@endfn
//@fn opentelemetry/src/trace/tracer.rs impl SpanBuilder :: fn with_span_id
//@ret r
//@contract
    ensures r == (SpanBuilder { span_id: Some(span_id), ..self }),
//@endfn
//@fn opentelemetry/src/trace/tracer.rs impl SpanBuilder :: fn with_kind
//@ret r
//@contract
    ensures r == (SpanBuilder { span_kind: Some(span_kind), ..self }),
//@endfn
//@fn opentelemetry/src/trace/tracer.rs impl SpanBuilder :: fn with_start_time
//@sig fn with_start_time(self, start_time: SystemTime) -> SpanBuilder
//@ret r
//@subst? start_time.into() ~> start_time
//@contract
    ensures r == (SpanBuilder { start_time: Some(start_time), ..self }),
//@endfn
//@fn opentelemetry/src/trace/tracer.rs impl SpanBuilder :: fn with_end_time
//@sig fn with_end_time(self, end_time: SystemTime) -> SpanBuilder
//@ret r
//@subst? end_time.into() ~> end_time
//@contract
    ensures r == (SpanBuilder { end_time: Some(end_time), ..self }),
//@endfn
//@fn opentelemetry/src/trace/tracer.rs impl SpanBuilder :: fn with_attributes
//@sig fn with_attributes(self, attributes: Vec<KeyValue>) -> SpanBuilder
//@ret r
//@subst? attributes.into_iter().collect() ~> attributes
//@contract
    ensures r == (SpanBuilder { attributes: Some(attributes), ..self }),
//@endfn
//@fn opentelemetry/src/trace/tracer.rs impl SpanBuilder :: fn with_events
//@ret r
//@contract
    ensures r == (SpanBuilder { events: Some(events), ..self }),
//@endfn
//@fn opentelemetry/src/trace/tracer.rs impl SpanBuilder :: fn with_links
//@sig fn with_links(self, links0: Vec<Link>) -> SpanBuilder
//@ret r
//@subst links.retain(|$l| $$c); ~> let mut kept: Vec<Link> = Vec::new(); let mut at: usize = 0; while at < links0.len() { let $l = &links0[at]; at = at + 1; if $$c { kept.push(same($l)); } } let links = kept;
//@contract
    ensures r == (SpanBuilder { links: r.links, ..self }), r.links.is_some(), r.links->0@ == kept_links(links0@),
//@start
    proof { assert(links0@.take(0) =~= Seq::<Link>::empty()); }
//@loop 0
    invariant at <= links0@.len(), kept@ == kept_links(links0@.take(at as int)),
    decreases links0@.len() - at,
//@inloop 0
    proof { assert(links0@.take(at + 1).drop_last() =~= links0@.take(at as int)); assert(links0@.take(at + 1).last() == links0@[at as int]); }
//@afterloop 0
    proof { assert(links0@.take(links0@.len() as int) =~= links0@); }
//@endfn
//@fn opentelemetry/src/trace/tracer.rs impl SpanBuilder :: fn with_status
//@ret r
//@contract
    ensures r == (SpanBuilder { status, ..self }),
//@endfn
//@fn opentelemetry/src/trace/tracer.rs impl SpanBuilder :: fn with_sampling_result
//@ret r
//@contract
    ensures r == (SpanBuilder { sampling_result: Some(sampling_result), ..self }),
//@endfn
//@gsubst Context::map_current(|cx| $$b) ~> { let cx = th.current(); $$b }
//@fn opentelemetry/src/trace/tracer.rs impl SpanBuilder :: fn start
//@sig fn start(self, tracer: &AnyTracer, th: &Thread) -> Obj
//@ret r
//@contract
    requires th.wf(),
    ensures builds(*tracer, self, th.cur(), r),
//@endfn
//@fn opentelemetry/src/trace/tracer.rs impl SpanBuilder :: fn start_with_context
//@sig fn start_with_context(self, tracer: &AnyTracer, parent_cx: &Context) -> Obj
//@ret r
//@contract
    ensures builds(*tracer, self, *parent_cx, r),
//@endfn
}
/// any implementation of Tracer, and what it builds
struct AnyTracer { id: u64 }
uninterp spec fn builds(t: AnyTracer, b: SpanBuilder, parent: Context, s: Obj) -> bool;
trait Task<T>: Sized { spec fn gives(&self, cx: Context, r: T) -> bool; fn call(self, cx: Context, th: &mut Thread) -> (r: T) requires old(th).wf(), old(th).cur() == cx ensures final(th).attached == old(th).attached, self.gives(cx, r); }
spec fn ran<T, F: Task<T>>(t: AnyTracer, name: Text, f: F, was: Context, r: T) -> bool { exists|s: Obj, cx: Context| #[trigger] builds(t, named_builder(name), was, s) && #[trigger] f.gives(cx, r) && cx.carries(was, s) }
impl AnyTracer {
    #[verifier::external_body] fn build_with_context(&self, builder: SpanBuilder, parent_cx: &Context) -> (r: Obj) ensures builds(*self, builder, *parent_cx, r) { unimplemented!() }
//@fn opentelemetry/src/trace/tracer.rs trait Tracer :: fn start
//@sig fn start(&self, name: Text, th: &Thread) -> Obj
//@ret r
//@contract
    requires th.wf(),
    ensures builds(*self, named_builder(name), th.cur(), r),
//@endfn
//@fn opentelemetry/src/trace/tracer.rs trait Tracer :: fn start_with_context
//@sig fn start_with_context(&self, name: Text, parent_cx: &Context) -> Obj
//@ret r
//@contract
    ensures builds(*self, named_builder(name), *parent_cx, r),
//@endfn
//@fn opentelemetry/src/trace/tracer.rs trait Tracer :: fn span_builder
//@sig fn span_builder(&self, name: Text) -> SpanBuilder
//@ret r
//@contract
    ensures r == named_builder(name),
//@endfn
//@fn opentelemetry/src/trace/tracer.rs trait Tracer :: fn build
//@sig fn build(&self, builder: SpanBuilder, th: &Thread) -> Obj
//@ret r
//@contract
    requires th.wf(),
    ensures builds(*self, builder, th.cur(), r),
//@endfn
//@fn opentelemetry/src/trace/tracer.rs trait Tracer :: fn in_span
//@sig fn in_span<T, F: Task<T>>(&self, name: Text, f: F, th: &mut Thread) -> T
//@ret r
//@subst self.start(name) ~> self.start(name, &*th)
//@subst Context::current_with_span(span) ~> Context::current_with_span(span, th.current())
//@subst let _guard = $$c.attach(); $$f(cx) ~> let _guard = th.attach($$c); let result = $$f.call(cx, th); th.detach(_guard); result
//@contract
    requires old(th).wf(),
    ensures final(th).attached@ == old(th).attached@, ran(*self, name, f, old(th).cur(), r),
//@endfn
}

// ---- boxed tracers and the global provider ----
impl AnyTracer {
//@fn opentelemetry/src/global/trace.rs impl ObjectSafeTracer for T :: fn build_with_context_boxed
//@sig fn build_with_context_boxed(&self, builder: SpanBuilder, parent_cx: &Context) -> Obj
//@ret r
//@subst? Box::new($$e) ~> $$e
//@contract
    ensures builds(*self, builder, *parent_cx, r),
//@endfn
}
struct BoxedTracer(AnyTracer);
impl BoxedTracer {
//@fn opentelemetry/src/global/trace.rs impl BoxedTracer :: fn new
//@sig fn new(tracer: AnyTracer) -> BoxedTracer
//@ret r
//@contract
    ensures r.0 == tracer,
//@endfn
//@fn opentelemetry/src/global/trace.rs impl trace::Tracer for BoxedTracer :: fn build_with_context
//@sig fn build_with_context(&self, builder: SpanBuilder, parent_cx: &Context) -> BoxedSpan
//@ret r
//@contract
    ensures builds(self.0, builder, *parent_cx, r.0),
//@endfn
}
#[verifier::external_body] struct InstrumentationScope { _p: u8 }
uninterp spec fn scope_of(name: Text) -> InstrumentationScope;
/// InstrumentationScope::builder(name).build() (unit common.rs)
#[verifier::external_body] fn named_scope(name: Text) -> (r: InstrumentationScope) ensures r == scope_of(name) { unimplemented!() }
enum AnyProvider { Noop(NoopTracerProvider), Other(u64) }
uninterp spec fn makes(p: AnyProvider, s: InstrumentationScope, t: AnyTracer) -> bool;
//@gsubst Box::new(self.tracer_with_scope(scope)) ~> self.tracer_with_scope(scope)
//@gsubst InstrumentationScope::builder(name).build() ~> named_scope(name)
impl AnyProvider {
    #[verifier::external_body] fn tracer_with_scope(&self, scope: InstrumentationScope) -> (r: AnyTracer) ensures makes(*self, scope, r) { unimplemented!() }
//@fn opentelemetry/src/global/trace.rs impl ObjectSafeTracerProvider for P :: fn boxed_tracer
//@sig fn boxed_tracer(&self, scope: InstrumentationScope) -> AnyTracer
//@ret r
//@contract
    ensures makes(*self, scope, r),
//@endfn
}
//@item opentelemetry/src/global/trace.rs struct GlobalTracerProvider
//@ subst Arc<dyn ObjectSafeTracerProvider + Send + Sync> ~> Arc<AnyProvider>
impl GlobalTracerProvider {
    fn clone(&self) -> (r: GlobalTracerProvider) ensures r == *self { GlobalTracerProvider { provider: self.provider.clone() } }
//@fn opentelemetry/src/global/trace.rs impl GlobalTracerProvider :: fn new
//@sig fn new(provider: AnyProvider) -> GlobalTracerProvider
//@ret r
//@contract
    ensures *r.provider == provider,
//@endfn
//@fn opentelemetry/src/global/trace.rs impl trace::TracerProvider for GlobalTracerProvider :: fn tracer_with_scope
//@sig fn tracer_with_scope(&self, scope: InstrumentationScope) -> BoxedTracer
//@ret r
//@contract
    ensures makes(*self.provider, scope, r.0),
//@endfn
//@fn opentelemetry/src/trace/tracer_provider.rs trait TracerProvider :: fn tracer
//@sig fn tracer(&self, name: Text) -> BoxedTracer
//@ret r
//@contract
    ensures makes(*self.provider, scope_of(name), r.0),
//@endfn
}
/// OnceLock<RwLock<GlobalTracerProvider>>: set up by the first use, which must find the no-op provider in it
struct Global { cell: Option<Mutex<GlobalTracerProvider>> }
impl<T> Mutex<T> {
    #[verifier::external_body] fn expect_write(&mut self) -> (r: &mut T) requires !old(self).poisoned@ ensures *r == old(self).v, final(self).v == *final(r), final(self).poisoned == old(self).poisoned { unimplemented!() }
    #[verifier::external_body] fn expect_read(&self) -> (r: &T) requires !self.poisoned@ ensures *r == self.v { unimplemented!() }
}
impl Global {
    spec fn cur(&self) -> AnyProvider { match self.cell { Some(m) => *m.v.provider, None => AnyProvider::Noop(NoopTracerProvider { _private: () }) } }
    spec fn wf(&self) -> bool { self.cell matches Some(m) ==> !m.poisoned@ }
    fn get_or_init(&mut self, first: Mutex<GlobalTracerProvider>) -> (r: &mut Mutex<GlobalTracerProvider>)
        ensures *r == (match old(self).cell { Some(m) => m, None => first }), final(self).cell == Some(*final(r))
    { if self.cell.is_none() { self.cell = Some(first); } match self.cell { Some(ref mut m) => m, None => vstd::pervasive::unreached() } }
}
//@fn opentelemetry/src/global/trace.rs fn global_tracer_provider
//@sig fn global_tracer_provider(g: &mut Global) -> &mut Mutex<GlobalTracerProvider>
//@ret r
//@subst GLOBAL_TRACER_PROVIDER.get_or_init(|| RwLock::new(GlobalTracerProvider::new($$p))) ~> g.get_or_init(Mutex::new(GlobalTracerProvider::new(AnyProvider::Noop($$p))))
//@contract
    requires old(g).wf(),
    ensures *r.v.provider == old(g).cur(), !r.poisoned@, final(g).cell == Some(*final(r)),
//@endfn
//@gsubst global_tracer_provider() ~> global_tracer_provider(g)
//@gsubst tracer_provider(). ~> tracer_provider(g).
//@fn opentelemetry/src/global/trace.rs fn tracer_provider
//@sig fn tracer_provider(g: &mut Global) -> GlobalTracerProvider
//@ret r
//@subst? .read().expect($m) ~> .expect_read()
//@contract
    requires old(g).wf(),
    ensures final(g).wf(), final(g).cur() == old(g).cur(), *r.provider == old(g).cur(),
//@endfn
//@fn opentelemetry/src/global/trace.rs fn tracer
//@sig fn tracer(name: Text, g: &mut Global) -> BoxedTracer
//@ret r
//@contract
    requires old(g).wf(),
    ensures final(g).wf(), final(g).cur() == old(g).cur(), makes(old(g).cur(), scope_of(name), r.0),
//@endfn
//@fn opentelemetry/src/global/trace.rs fn tracer_with_scope
//@sig fn tracer_with_scope(scope: InstrumentationScope, g: &mut Global) -> BoxedTracer
//@ret r
//@contract
    requires old(g).wf(),
    ensures final(g).wf(), final(g).cur() == old(g).cur(), makes(old(g).cur(), scope, r.0),
//@endfn
pub assume_specification<T> [std::mem::replace] (dest: &mut T, src: T) -> (r: T) ensures *final(dest) == src, r == *old(dest);
//@fn opentelemetry/src/global/trace.rs fn set_tracer_provider
//@sig fn set_tracer_provider(new_provider: AnyProvider, g: &mut Global) -> GlobalTracerProvider
//@ret r
//@subst? .write().expect($m) ~> .expect_write()
//@subst? let mut tracer_provider ~> let tracer_provider
//@subst? mem::replace(&mut *tracer_provider, $$e,) ~> std::mem::replace(tracer_provider, $$e)
//@contract
    requires old(g).wf(),
    ensures final(g).wf(), final(g).cur() == new_provider, *r.provider == old(g).cur(),
//@endfn

// ---- no-op spans, tracers and providers ----
//@item opentelemetry/src/trace/noop.rs struct NoopTracerProvider
//@item opentelemetry/src/trace/noop.rs struct NoopTracer
//@item opentelemetry/src/trace/noop.rs struct NoopSpan
impl NoopTracerProvider {
//@fn opentelemetry/src/trace/noop.rs impl NoopTracerProvider :: fn new
//@endfn
//@fn opentelemetry/src/trace/noop.rs impl trace::TracerProvider for NoopTracerProvider :: fn tracer_with_scope
//@sig fn tracer_with_scope(&self, _scope: InstrumentationScope) -> NoopTracer
//@endfn
}
impl NoopTracer {
//@fn opentelemetry/src/trace/noop.rs impl NoopTracer :: fn new
//@endfn
//@fn opentelemetry/src/trace/noop.rs impl trace::Tracer for NoopTracer :: fn build_with_context
//@sig fn build_with_context(&self, _builder: SpanBuilder, parent_cx: &Context) -> NoopSpan
//@ret r
//@subst? .span().span_context().clone() ~> .span().0.span_context_().clone()
//@contract
    // a span that records nothing and hands on the context's span context
    ensures r.span_context == parent_cx.active(),
//@endfn
}
impl NoopSpan {
//@fn opentelemetry/src/trace/noop.rs impl NoopSpan :: const DEFAULT
//@sig fn default_() -> (r: NoopSpan)
//@subst SpanContext::NONE ~> SpanContext::none()
//@contract
    ensures r.span_context == none_context(),
//@endfn
//@fn opentelemetry/src/trace/noop.rs impl trace::Span for NoopSpan :: fn add_event
//@sig fn add_event(&mut self, _name: Text, _attributes: Vec<KeyValue>)
//@contract
    ensures *final(self) == *old(self),
//@endfn
//@fn opentelemetry/src/trace/noop.rs impl trace::Span for NoopSpan :: fn add_event_with_timestamp
//@sig fn add_event_with_timestamp(&mut self, _name: Text, _timestamp: SystemTime, _attributes: Vec<KeyValue>)
//@contract
    ensures *final(self) == *old(self),
//@endfn
//@fn opentelemetry/src/trace/noop.rs impl trace::Span for NoopSpan :: fn span_context
//@ret r
//@contract
    ensures *r == self.span_context,
//@endfn
//@fn opentelemetry/src/trace/noop.rs impl trace::Span for NoopSpan :: fn is_recording
//@ret r
//@contract
    ensures !r,
//@endfn
//@fn opentelemetry/src/trace/noop.rs impl trace::Span for NoopSpan :: fn set_attribute
//@contract
    ensures *final(self) == *old(self),
//@endfn
//@fn opentelemetry/src/trace/noop.rs impl trace::Span for NoopSpan :: fn set_status
//@contract
    ensures *final(self) == *old(self),
//@endfn
//@fn opentelemetry/src/trace/noop.rs impl trace::Span for NoopSpan :: fn update_name
//@sig fn update_name(&mut self, _new_name: Text)
//@contract
    ensures *final(self) == *old(self),
//@endfn
//@fn opentelemetry/src/trace/noop.rs impl trace::Span for NoopSpan :: fn add_link
//@contract
    ensures *final(self) == *old(self),
//@endfn
//@fn opentelemetry/src/trace/noop.rs impl trace::Span for NoopSpan :: fn end_with_timestamp
//@contract
    ensures *final(self) == *old(self),
//@endfn
}
} // verus!
fn main() {}

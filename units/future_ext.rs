// Futures, streams and sinks that carry a context: every poll of the wrapped one runs under that context, and the
// context that was current before the poll is current after it.
use vstd::prelude::*;
verus! {
/// a context, by identity; its contents are not looked at here
#[verifier::external_body] struct Context { _p: u8 }
impl Clone for Context { #[verifier::external_body] fn clone(&self) -> (r: Context) ensures r == *self { unimplemented!() } }
#[verifier::external_body] struct TaskContext { _p: u8 }
enum Poll<T> { Ready(T), Pending }
/// the contexts attached on this thread, the last one current (attach and guards: unit context_stack.rs)
struct Thread { attached: Vec<Context> }
struct Guard { n: Ghost<nat> }
impl Thread {
    spec fn cur(&self) -> Context { self.attached@.last() }
    spec fn wf(&self) -> bool { self.attached@.len() > 0 }
    fn current(&self) -> (r: Context) requires self.wf() ensures r == self.cur() { self.attached[self.attached.len() - 1].clone() }
    fn attach(&mut self, c: Context) -> (g: Guard) ensures final(self).attached@ == old(self).attached@.push(c), g.n@ == final(self).attached@.len() { self.attached.push(c); Guard { n: Ghost(self.attached@.len()) } }
    /// the guard goes away
    fn detach(&mut self, g: Guard) requires old(self).attached@.len() == g.n@, g.n@ > 0 ensures final(self).attached@ == old(self).attached@.drop_last() { let _c = self.attached.pop(); }
}
/// any future, stream or sink: what one step of it does, given the context that is current
trait Inner: Sized {
    type Output; type Item; type Sent; type Error;
    spec fn polls(&self, after: &Self, cx: Context, r: Poll<Self::Output>) -> bool;
    spec fn yields(&self, after: &Self, cx: Context, r: Poll<Option<Self::Item>>) -> bool;
    spec fn readies(&self, after: &Self, cx: Context, r: Poll<Result<(), Self::Error>>) -> bool;
    spec fn takes(&self, after: &Self, cx: Context, i: Self::Sent, r: Result<(), Self::Error>) -> bool;
    spec fn flushes(&self, after: &Self, cx: Context, r: Poll<Result<(), Self::Error>>) -> bool;
    spec fn closes(&self, after: &Self, cx: Context, r: Poll<Result<(), Self::Error>>) -> bool;
    fn poll(&mut self, t: &mut TaskContext, th: &mut Thread) -> (r: Poll<Self::Output>) requires old(th).wf() ensures final(th).attached == old(th).attached, old(self).polls(final(self), old(th).cur(), r);
    fn poll_next(&mut self, t: &mut TaskContext, th: &mut Thread) -> (r: Poll<Option<Self::Item>>) requires old(th).wf() ensures final(th).attached == old(th).attached, old(self).yields(final(self), old(th).cur(), r);
    fn poll_ready(&mut self, t: &mut TaskContext, th: &mut Thread) -> (r: Poll<Result<(), Self::Error>>) requires old(th).wf() ensures final(th).attached == old(th).attached, old(self).readies(final(self), old(th).cur(), r);
    fn start_send(&mut self, i: Self::Sent, th: &mut Thread) -> (r: Result<(), Self::Error>) requires old(th).wf() ensures final(th).attached == old(th).attached, old(self).takes(final(self), old(th).cur(), i, r);
    fn poll_flush(&mut self, t: &mut TaskContext, th: &mut Thread) -> (r: Poll<Result<(), Self::Error>>) requires old(th).wf() ensures final(th).attached == old(th).attached, old(self).flushes(final(self), old(th).cur(), r);
    fn poll_close(&mut self, t: &mut TaskContext, th: &mut Thread) -> (r: Poll<Result<(), Self::Error>>) requires old(th).wf() ensures final(th).attached == old(th).attached, old(self).closes(final(self), old(th).cur(), r);
}
/// as declared inside `pin_project!`; `project` (generated by that macro) gives a reference to each field
struct WithContext<T> { inner: T, otel_cx: Context }
struct Projected<'a, T> { inner: &'a mut T, otel_cx: &'a mut Context }
impl<T> WithContext<T> {
    fn project(&mut self) -> (r: Projected<'_, T>)
        ensures *r.inner == old(self).inner, *r.otel_cx == old(self).otel_cx, final(self).inner == *final(r.inner), final(self).otel_cx == *final(r.otel_cx)
    { Projected { inner: &mut self.inner, otel_cx: &mut self.otel_cx } }
}
// a guard bound to a name lives to the end of the block
//@gsubst let _ = $$c.attach(); ~> let discarded = th.attach($$c); th.detach(discarded);
//@gsubst { $$pre let $g = this.otel_cx.clone().attach(); $$rest } ~> { $$pre let $g = th.attach(this.otel_cx.clone()); let result = { $$rest }; th.detach($g); result }
//@gsubst this.inner.poll( ~> T::poll(this.inner, 
//@gsubst T::$f($$a) ~> T::$f($$a, th)
impl<T: Inner> WithContext<T> {
//@fn opentelemetry/src/context/future_ext.rs impl std::future::Future for WithContext<T> :: fn poll
//@sig fn poll(&mut self, task_cx: &mut TaskContext, th: &mut Thread) -> Poll<T::Output>
//@ret r
//@contract
    requires old(th).wf(),
    ensures old(self).inner.polls(&final(self).inner, old(self).otel_cx, r), final(self).otel_cx == old(self).otel_cx, final(th).attached@ == old(th).attached@,
//@endfn
//@fn opentelemetry/src/context/future_ext.rs impl Stream for WithContext<T> :: fn poll_next
//@sig fn poll_next(&mut self, task_cx: &mut TaskContext, th: &mut Thread) -> Poll<Option<T::Item>>
//@ret r
//@contract
    requires old(th).wf(),
    ensures old(self).inner.yields(&final(self).inner, old(self).otel_cx, r), final(self).otel_cx == old(self).otel_cx, final(th).attached@ == old(th).attached@,
//@endfn
//@fn opentelemetry/src/context/future_ext.rs impl Sink<I> for WithContext<T> :: fn poll_ready
//@sig fn poll_ready(&mut self, task_cx: &mut TaskContext, th: &mut Thread) -> Poll<Result<(), T::Error>>
//@ret r
//@contract
    requires old(th).wf(),
    ensures old(self).inner.readies(&final(self).inner, old(self).otel_cx, r), final(self).otel_cx == old(self).otel_cx, final(th).attached@ == old(th).attached@,
//@endfn
//@fn opentelemetry/src/context/future_ext.rs impl Sink<I> for WithContext<T> :: fn start_send
//@sig fn start_send(&mut self, item: T::Sent, th: &mut Thread) -> Result<(), T::Error>
//@ret r
//@contract
    requires old(th).wf(),
    ensures old(self).inner.takes(&final(self).inner, old(self).otel_cx, item, r), final(self).otel_cx == old(self).otel_cx, final(th).attached@ == old(th).attached@,
//@endfn
//@fn opentelemetry/src/context/future_ext.rs impl Sink<I> for WithContext<T> :: fn poll_flush
//@sig fn poll_flush(&mut self, task_cx: &mut TaskContext, th: &mut Thread) -> Poll<Result<(), T::Error>>
//@ret r
//@contract
    requires old(th).wf(),
    ensures old(self).inner.flushes(&final(self).inner, old(self).otel_cx, r), final(self).otel_cx == old(self).otel_cx, final(th).attached@ == old(th).attached@,
//@endfn
//@fn opentelemetry/src/context/future_ext.rs impl Sink<I> for WithContext<T> :: fn poll_close
//@sig fn poll_close(&mut self, task_cx: &mut TaskContext, th: &mut Thread) -> Poll<Result<(), T::Error>>
//@ret r
//@contract
    requires old(th).wf(),
    ensures old(self).inner.closes(&final(self).inner, old(self).otel_cx, r), final(self).otel_cx == old(self).otel_cx, final(th).attached@ == old(th).attached@,
//@endfn
}
/// the provided methods, for any type
//@fn opentelemetry/src/context/future_ext.rs trait FutureExt :: fn with_context
//@sig fn with_context<S>(inner: S, otel_cx: Context) -> WithContext<S>
//@ret r
//@subst inner: self ~> inner
//@contract
    ensures r.inner == inner, r.otel_cx == otel_cx,
//@endfn
//@fn opentelemetry/src/context/future_ext.rs trait FutureExt :: fn with_current_context
//@sig fn with_current_context<S>(inner: S, th: &Thread) -> WithContext<S>
//@ret r
//@subst Context::current() ~> th.current()
//@subst self.with_context($$a) ~> with_context(inner, $$a)
//@contract
    requires th.wf(),
    ensures r.inner == inner, r.otel_cx == th.cur(),
//@endfn
}
fn main() {}

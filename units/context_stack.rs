// Unit: the per-thread context stack (opentelemetry/src/context.rs).
use vstd::prelude::*;
use std::marker::PhantomData;
verus! {

// trusted std contract
pub assume_specification<T> [std::mem::replace] (dest: &mut T, src: T) -> (r: T)
    ensures *final(dest) == src, r == *old(dest);

// Context is opaque here: the stack moves contexts around and never looks inside.
#[verifier::external_body]
struct Context { _p: u8 }

impl Context {
    #[verifier::external_body]
    fn default() -> Context { unimplemented!() }
}

//@item opentelemetry/src/context.rs struct ContextStack
//@ subst _marker: PhantomData<*const ()>, ~>
/// What the guard positions mean: an attach that returned p is live iff its slot holds a context.
/// The top of the stack (position n = stack.len()) is `current_cx`; position i < n is stack[i].
impl ContextStack {
    spec fn wf(&self) -> bool {
        &&& self.stack@.len() < 65535
        &&& self.stack@.len() > 0 ==> self.stack@[0].is_some()
    }
    /// slot i of the history: None = detached (or never attached)
    spec fn slot(&self, i: int) -> Option<Context> {
        if i == self.stack@.len() { Some(self.current_cx) }
        else if 0 <= i < self.stack@.len() { self.stack@[i] }
        else { None }
    }
    spec fn live(&self, i: int) -> bool { self.slot(i).is_some() }
    /// the most recently attached context that is still attached
    spec fn top(&self) -> int { self.stack@.len() as int }
}

impl ContextStack {
//@item opentelemetry/src/context.rs impl ContextStack :: const BASE_POS
//@item opentelemetry/src/context.rs impl ContextStack :: const MAX_POS
//@item opentelemetry/src/context.rs impl ContextStack :: const INITIAL_CAPACITY

//@fn opentelemetry/src/context.rs impl ContextStack :: fn push
//@ret r
//@contract
    requires old(self).wf(),
    ensures
        final(self).wf(),
        // overflow: nothing changes and the returned position is the one pop ignores
        r == 65535 ==> *final(self) == *old(self) && old(self).stack@.len() + 1 >= 65535,
        // otherwise a fresh position, strictly above every live one, now holds cx and is current
        r != 65535 ==> r == old(self).top() + 1 && final(self).top() == r && final(self).current_cx == cx,
        r != 65535 ==> forall|i: int| i != r ==> #[trigger] final(self).slot(i) == old(self).slot(i),
        r != 0,
//@endfn

//@fn opentelemetry/src/context.rs impl ContextStack :: fn pop_id
//@ret r
//@contract
    requires old(self).wf(),
    ensures
        final(self).wf(),
        // the detached context is handed out, so that it is dropped when the stack is no longer borrowed
        0 < pos < 65535 ==> r == old(self).slot(pos as int),
        pos == 0 || pos == 65535 ==> r is None,
        // the base context and the overflow position are never detached
        pos == 0 || pos == 65535 ==> *final(self) == *old(self),
        // a position that is not live is ignored
        !old(self).live(pos as int) ==> forall|i: int| #[trigger] final(self).slot(i) == old(self).slot(i),
        // otherwise exactly that position is detached, nothing else
        0 < pos < 65535 && old(self).live(pos as int) ==>
            forall|i: int| #[trigger] final(self).slot(i) == (if i == pos { None::<Context> } else { old(self).slot(i) }),
        // and the current context is the highest position still attached
        final(self).live(final(self).top()) && final(self).current_cx == final(self).slot(final(self).top())->0,
        forall|i: int| i > final(self).top() ==> !(#[trigger] final(self).live(i)),
//@loop 0
        invariant
            self.wf(),
            self.stack@.len() <= old(self).stack@.len(),
            self.current_cx == old(self).current_cx,
            old(self).wf(),
            pos == old(self).stack@.len(),
            pos > 0,
            self.stack@.len() > 0,
            forall|i: int| 0 <= i < self.stack@.len() ==> self.stack@[i] == old(self).stack@[i],
            forall|i: int| self.stack@.len() <= i < old(self).stack@.len() ==> old(self).stack@[i].is_none(),
        ensures
            self.stack@.last().is_some(),
        decreases self.stack@.len(),
//@endfn
}

impl ContextStack {
//@fn opentelemetry/src/context.rs impl Default for ContextStack :: fn default
//@ret r
//@subst _marker: PhantomData, ~>
//@contract
    ensures r.wf(), r.top() == 0, forall|i: int| i != 0 ==> !(#[trigger] r.live(i)),
//@endfn
}

// ---- the guard: attach pushes and remembers the position, dropping it detaches exactly that position
//@item opentelemetry/src/context.rs struct ContextGuard
//@ subst _marker: PhantomData<*const ()>, ~>
impl Context {
//@fn opentelemetry/src/context.rs impl Context :: fn attach
//@ret r
//@subst fn attach(self) ~> fn attach(self, stack: &mut ContextStack)
//@subst CURRENT_CONTEXT.with(|$a| $b.borrow_mut().push(self)) ~> stack.push(self)
//@subst _marker: PhantomData, ~>
//@contract
    requires old(stack).wf(),
    ensures
        final(stack).wf(),
        r.cx_pos == 65535 ==> *final(stack) == *old(stack),
        r.cx_pos != 65535 ==> r.cx_pos > old(stack).top() && final(stack).top() == r.cx_pos && final(stack).current_cx == self,
        r.cx_pos != 65535 ==> forall|i: int| i != r.cx_pos ==> #[trigger] final(stack).slot(i) == old(stack).slot(i),
        r.cx_pos != 0,
//@endfn
}
impl ContextGuard {
//@fn opentelemetry/src/context.rs impl Drop for ContextGuard :: fn drop
//@sig fn drop_guard(&mut self, stack: &mut ContextStack)
//@subst CURRENT_CONTEXT.with(|$a| $b.borrow_mut().pop_id(id)) ~> stack.pop_id(id)
//@contract
    requires old(stack).wf(),
    ensures
        final(stack).wf(),
        0 < old(self).cx_pos < 65535 && old(stack).live(old(self).cx_pos as int) ==>
            forall|i: int| #[trigger] final(stack).slot(i) == (if i == old(self).cx_pos { None::<Context> } else { old(stack).slot(i) }),
        !(0 < old(self).cx_pos < 65535) || !old(stack).live(old(self).cx_pos as int) ==> forall|i: int| #[trigger] final(stack).slot(i) == old(stack).slot(i),
//@endfn
}

} // verus!
fn main() {}

// Unit: deriving contexts (opentelemetry/src/context.rs): values, active span and the suppression flag are independent,
// and the context derived from is never changed.
use vstd::prelude::*;
use vstd::std_specs::hash::*;
use std::collections::HashMap;
use std::sync::Arc;
verus! {

// A type's identity and a stored value are opaque; `T: 'static` values enter as `AnyVal` with their type's id.
#[verifier::external_body]
#[derive(PartialEq, Eq, Hash)]
struct TypeId { _p: u8 }
#[verifier::external_body]
struct AnyVal { _p: u8 }
#[verifier::external_body]
struct SynchronizedSpan { _p: u8 }
#[verifier::external_body]
broadcast proof fn typeid_is_a_hash_key() ensures #[trigger] obeys_key_model::<TypeId>() { unimplemented!() }

// cloning an Option<Arc<T>> shares the same value
#[verifier::external_body]
fn share<T>(o: &Option<Arc<T>>) -> (r: Option<Arc<T>>) ensures r == *o { unimplemented!() }
//@gsubst $a.entries.clone() ~> share(&$a.entries)
//@gsubst $a.span.clone() ~> share(&$a.span)

type Vals = Map<TypeId, Arc<AnyVal>>;
// the entry map with its clone (same entries)
struct EntryMap { m: HashMap<TypeId, Arc<AnyVal>> }
impl EntryMap {
    spec fn v(&self) -> Vals { self.m@ }
    fn default() -> (r: EntryMap) ensures r.v() == Map::<TypeId, Arc<AnyVal>>::empty() { EntryMap { m: HashMap::new() } }
    #[verifier::external_body]
    fn clone(&self) -> (r: EntryMap) ensures r.v() == self.v() { unimplemented!() }
    fn insert(&mut self, k: TypeId, x: Arc<AnyVal>)
        ensures final(self).v() == old(self).v().insert(k, x)
    { broadcast use group_hash_axioms, typeid_is_a_hash_key; self.m.insert(k, x); }
    fn get(&self, k: &TypeId) -> (r: Option<&Arc<AnyVal>>)
        ensures r == (if self.v().dom().contains(*k) { Some(&self.v()[*k]) } else { None })
    { broadcast use group_hash_axioms, typeid_is_a_hash_key; self.m.get(k) }
}

//@item opentelemetry/src/context.rs struct Context
impl Context {
    spec fn vals(&self) -> Vals { match self.entries { Some(e) => e.v(), None => Map::empty() } }

    // derived Default and Clone (assumed to be what derive generates)
    fn default() -> (r: Context) ensures r.vals() == Map::<TypeId, Arc<AnyVal>>::empty(), r.span.is_none(), !r.suppress_telemetry
    { Context { span: None, entries: None, suppress_telemetry: false } }

//@fn opentelemetry/src/context.rs impl Context :: fn new
//@ret r
//@contract
    ensures r.vals() == Map::<TypeId, Arc<AnyVal>>::empty(), r.span.is_none(), !r.suppress_telemetry,
//@endfn

//@fn opentelemetry/src/context.rs impl Context :: fn get
//@ret r
//@subst fn get<T: 'static>(&self) -> Option<&T> ~> fn get(&self, ty: TypeId) -> Option<&AnyVal>
//@subst TypeId::of::<T>() ~> ty
//@subst .downcast_ref() ~> .into_some()
//@contract
    ensures r == (if self.vals().dom().contains(ty) { Some(&*self.vals()[ty]) } else { None }),
//@endfn

//@fn opentelemetry/src/context.rs impl Context :: fn with_value
//@ret r
//@subst fn with_value<T: 'static + Send + Sync>(&self, value: T) ~> fn with_value(&self, ty: TypeId, value: AnyVal)
//@subst TypeId::of::<T>() ~> ty
//@contract
    ensures
        r.vals() == self.vals().insert(ty, Arc::new(value)),
        r.span == self.span, r.suppress_telemetry == self.suppress_telemetry,
//@endfn

//@fn opentelemetry/src/context.rs impl Context :: fn is_telemetry_suppressed
//@ret r
//@contract
    ensures r == self.suppress_telemetry,
//@endfn

//@fn opentelemetry/src/context.rs impl Context :: fn with_telemetry_suppressed
//@ret r
//@contract
    ensures r.suppress_telemetry, r.vals() == self.vals(), r.span == self.span,
//@endfn

//@fn opentelemetry/src/context.rs impl Context :: fn enter_telemetry_suppressed_scope
//@closure |cx|
//@sig fn suppressed_scope(cx: &Context) -> Context
//@ret r
//@contract
    ensures r.suppress_telemetry, r.vals() == cx.vals(), r.span == cx.span,
//@endfn

//@fn opentelemetry/src/context.rs impl Context :: fn is_current_telemetry_suppressed
//@closure |cx|
//@sig fn current_suppressed(cx: &Context) -> bool
//@ret r
//@contract
    ensures r == cx.suppress_telemetry,
//@endfn

//@fn opentelemetry/src/context.rs impl Context :: fn current_with_synchronized_span
//@closure |cx|
//@sig fn current_with_span(cx: &Context, value: SynchronizedSpan) -> Context
//@ret r
//@contract
    ensures r.span == Some(Arc::new(value)), r.vals() == cx.vals(), r.suppress_telemetry == cx.suppress_telemetry,
//@endfn

//@fn opentelemetry/src/context.rs impl Context :: fn with_synchronized_span
//@ret r
//@contract
    ensures r.span == Some(Arc::new(value)), r.vals() == self.vals(), r.suppress_telemetry == self.suppress_telemetry,
//@endfn
}

trait IntoSome { fn into_some(&self) -> (r: Option<&AnyVal>); }
impl IntoSome for Arc<AnyVal> {
    fn into_some(&self) -> (r: Option<&AnyVal>) ensures r == Some(&**self) { Some(&**self) }
}

} // verus!
fn main() {}

// Unit: the attribute container of log records (opentelemetry-sdk/src/growable_array.rs).
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {

//@item opentelemetry-sdk/src/growable_array.rs const DEFAULT_MAX_INLINE_CAPACITY
//@item opentelemetry-sdk/src/growable_array.rs const DEFAULT_INITIAL_OVERFLOW_CAPACITY
//@item opentelemetry-sdk/src/growable_array.rs struct GrowableArray
//@ subst T: Default + Clone + PartialEq, ~> T,
//@ subst const MAX_INLINE_CAPACITY: usize = DEFAULT_MAX_INLINE_CAPACITY, ~> const MAX_INLINE_CAPACITY: usize,
//@ subst const INITIAL_OVERFLOW_CAPACITY: usize = DEFAULT_INITIAL_OVERFLOW_CAPACITY, ~> const INITIAL_OVERFLOW_CAPACITY: usize,

/// std's Chain over two slice iterators: first one, then the other
#[verifier::external_body] #[verifier::reject_recursive_types(T)] struct Chained<'a, T> { _p: &'a T }
impl<'a, T> Chained<'a, T> { uninterp spec fn all(&self) -> Seq<T>; }
#[verifier::external_body]
fn chain2<'a, T, A: Iterator<Item = &'a T>, B: Iterator<Item = &'a T>>(a: A, b: B) -> (r: Chained<'a, T>)
    ensures r.all() == a.remaining().map_values(|x: &T| *x) + b.remaining().map_values(|x: &T| *x)
{ unimplemented!() }
#[verifier::external_body] fn no_items<'a, T>() -> (r: std::slice::Iter<'a, T>) ensures r.remaining().len() == 0 { unimplemented!() }

impl<T, const MAX_INLINE_CAPACITY: usize, const INITIAL_OVERFLOW_CAPACITY: usize> GrowableArray<T, MAX_INLINE_CAPACITY, INITIAL_OVERFLOW_CAPACITY> {
    spec fn over(&self) -> Seq<T> { match self.overflow { Some(v) => v@, None => Seq::empty() } }
    spec fn wf(&self) -> bool {
        &&& self.count <= MAX_INLINE_CAPACITY
        &&& self.overflow.is_some() ==> self.count == MAX_INLINE_CAPACITY
    }
    /// everything pushed, in order
    spec fn items(&self) -> Seq<T> { self.inline@.take(self.count as int) + self.over() }

//@fn opentelemetry-sdk/src/growable_array.rs impl GrowableArray :: fn push
//@subst self.overflow.get_or_insert_with(|| $$e).push(value) ~> { if self.overflow.is_none() { self.overflow = Some($$e); } if let Some(o) = self.overflow.as_mut() { o.push(value); } }
//@contract
    requires old(self).wf(),
    ensures final(self).wf(), final(self).items() =~= old(self).items().push(value),
//@endfn

//@fn opentelemetry-sdk/src/growable_array.rs impl GrowableArray :: fn get
//@ret r
//@contract
    requires self.wf(),
    ensures
        index < self.items().len() ==> r == Some(&self.items()[index as int]),
        index >= self.items().len() ==> r.is_none(),
//@endfn

//@fn opentelemetry-sdk/src/growable_array.rs impl GrowableArray :: fn len
//@ret r
//@subst self.overflow.as_ref().map_or(0, Vec::len) ~> (match self.overflow.as_ref() { Some(v) => v.len(), None => 0 })
//@contract
    requires self.wf(), self.items().len() <= usize::MAX,
    ensures r == self.items().len(),
//@endfn

//@fn opentelemetry-sdk/src/growable_array.rs impl GrowableArray :: fn iter
//@ret r
//@subst -> impl Iterator<Item = &T> ~> -> Chained<'_, T>
//@subst $a.inline.iter().take($b.count).chain([].iter()) ~> chain2($a.inline.as_slice().iter().take($b.count), no_items())
//@subst $a.inline.iter().take($b.count).chain($c.overflow.as_ref().unwrap().iter()) ~> chain2($a.inline.as_slice().iter().take($b.count), $c.overflow.as_ref().unwrap().iter())
//@contract
    requires self.wf(),
    ensures r.all() =~= self.items(),
//@endfn
}

} // verus!
fn main() {}

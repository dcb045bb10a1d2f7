// Unit: carriers, composite and global propagators, and the headers each propagator says it uses
// (opentelemetry/src/propagation/, opentelemetry/src/global/propagation.rs, opentelemetry-http/src/lib.rs).
use vstd::prelude::*;
use vstd::string::*;
verus! {

broadcast axiom fn str_ext(a: &str, b: &str) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;

/// str::to_lowercase
uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn lowercase(s: &str) -> (r: String) ensures r@ == lower(s@) { s.to_lowercase() }

// ---- carrier 1: HashMap<String, String, S> --------------------------------------------------------------
// trusted: std's map
#[verifier::external_body]
struct HashMap { _p: u8 }
impl HashMap {
    uninterp spec fn m(&self) -> Map<Seq<char>, Seq<char>>;
    #[verifier::external_body]
    fn insert(&mut self, k: String, v: String) -> (r: Option<String>)
        ensures final(self).m() == old(self).m().insert(k@, v@) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &String) -> (r: Option<&String>)
        ensures r.is_some() == self.m().contains_key(k@), r.is_some() ==> r->0@ == self.m()[k@] { unimplemented!() }
    #[verifier::external_body]
    fn key_list<'a>(&'a self) -> (r: Vec<&'a String>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self.m().contains_key(#[trigger] r@[i]@),
            forall|k: Seq<char>| self.m().contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i]@ == k,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i]@ != r@[j]@,
    { unimplemented!() }
}
spec fn names_of(r: Seq<&str>) -> Seq<Seq<char>> { r.map_values(|s: &str| s@) }
/// the names listed are exactly the carrier's keys, each once
spec fn lists_keys(r: Seq<&str>, m: Map<Seq<char>, Seq<char>>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> m.contains_key(#[trigger] r[i]@)
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> is_among(r, k)
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> r[i]@ != r[j]@
}
spec fn is_among(r: Seq<&str>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < r.len() && #[trigger] r[i]@ == k }
fn strs<'a>(v: Vec<&'a String>) -> (r: Vec<&'a str>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i]@ == v@[i]@
{
    let mut out: Vec<&'a str> = Vec::new();
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), out@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] out@[j]@ == v@[j]@
        decreases v@.len() - i
    { out.push(v[i].as_str()); i += 1; }
    out
}
mod hash_map {
use super::*;
//@fn opentelemetry/src/propagation/mod.rs impl Injector for HashMap :: fn set
//@sig fn set(self0: &mut HashMap, key: &str, value: String)
//@subst? $x.to_lowercase() ~> lowercase($x)
//@subst self.insert($$a) ~> { let _r = self0.insert($$a); }
//@contract
    ensures final(self0).m() == old(self0).m().insert(lower(key@), value@),
//@endfn
//@fn opentelemetry/src/propagation/mod.rs impl Extractor for HashMap :: fn get
//@sig fn get<'a>(self0: &'a HashMap, key: &str) -> Option<&'a str>
//@ret r
//@subst? $x.to_lowercase() ~> lowercase($x)
//@subst self.get ~> self0.get
//@subst |v| v.as_str() ~> |v: &'a String| -> (s: &'a str) ensures s@ == v@ { v.as_str() }
//@contract
    ensures
        r.is_some() == self0.m().contains_key(lower(key@)),
        r.is_some() ==> r->0@ == self0.m()[lower(key@)],
//@endfn
//@fn opentelemetry/src/propagation/mod.rs impl Extractor for HashMap :: fn keys
//@sig fn keys<'a>(self0: &'a HashMap) -> Vec<&'a str>
//@ret r
//@subst self.keys().map(|k| k.as_str()).collect::<Vec<_>>() ~> { let ks = self0.key_list(); let out = strs(ks); proof { assert forall|k: Seq<char>| #[trigger] self0.m().contains_key(k) implies is_among(out@, k) by { let i = choose|i: int| 0 <= i < ks@.len() && #[trigger] ks@[i]@ == k; assert(out@[i]@ == k); } assert forall|i: int| 0 <= i < out@.len() implies self0.m().contains_key(#[trigger] out@[i]@) by { assert(self0.m().contains_key(ks@[i]@)); } } out }
//@contract
    ensures lists_keys(r@, self0.m()),
//@endfn
/// what was set under a key is what is read under it, whatever the case either is written in; other keys are untouched
proof fn read_what_was_set(m: Map<Seq<char>, Seq<char>>, k: Seq<char>, k2: Seq<char>, v: Seq<char>)
    ensures
        lower(k) == lower(k2) ==> m.insert(lower(k), v).contains_key(lower(k2)) && m.insert(lower(k), v)[lower(k2)] == v,
        lower(k) != lower(k2) ==> m.insert(lower(k), v).contains_key(lower(k2)) == m.contains_key(lower(k2)),
        lower(k) != lower(k2) && m.contains_key(lower(k2)) ==> m.insert(lower(k), v)[lower(k2)] == m[lower(k2)],
{}
}

// ---- carrier 2: http::HeaderMap -------------------------------------------------------------------------
// trusted: the http crate. A name is parsed case-insensitively or refused; a value is kept as given or refused;
// insert replaces every value of the name; to_str gives the text of a value of visible ASCII.
uninterp spec fn name_of(s: Seq<char>) -> Option<Seq<char>>;
uninterp spec fn value_ok(s: Seq<char>) -> bool;
#[verifier::external_body]
struct HeaderName { _p: u8 }
#[verifier::external_body]
struct HeaderValue { _p: u8 }
#[verifier::external_body]
struct Refused { _p: u8 }
impl HeaderName {
    uninterp spec fn n(&self) -> Seq<char>;
    #[verifier::external_body]
    fn of(s: &str) -> (r: Result<HeaderName, Refused>) ensures r.is_ok() == name_of(s@).is_some(), r.is_ok() ==> r->Ok_0.n() == name_of(s@)->0 { unimplemented!() }
    #[verifier::external_body]
    fn as_str(&self) -> (r: &str) ensures r@ == self.n() { unimplemented!() }
}
impl HeaderValue {
    /// the text, if the bytes are visible ASCII
    uninterp spec fn t(&self) -> Option<Seq<char>>;
    uninterp spec fn given(&self) -> Seq<char>;
    #[verifier::external_body]
    fn from_str(s: &String) -> (r: Result<HeaderValue, Refused>) ensures r.is_ok() == value_ok(s@), r.is_ok() ==> r->Ok_0.given() == s@ { unimplemented!() }
    #[verifier::external_body]
    fn to_str(&self) -> (r: Result<&str, Refused>) ensures r.is_ok() == self.t().is_some(), r.is_ok() ==> r->Ok_0@ == self.t()->0 { unimplemented!() }
}
#[verifier::external_body]
struct HeaderMap { _p: u8 }
impl HeaderMap {
    /// the values of each name
    uninterp spec fn m(&self) -> Map<Seq<char>, Seq<HeaderValue>>;
    #[verifier::external_body]
    fn insert(&mut self, k: HeaderName, v: HeaderValue) -> (r: Option<HeaderValue>) ensures final(self).m() == old(self).m().insert(k.n(), seq![v]) { unimplemented!() }
    #[verifier::external_body]
    fn append(&mut self, k: HeaderName, v: HeaderValue) -> (r: bool)
        ensures final(self).m() == old(self).m().insert(k.n(), if old(self).m().contains_key(k.n()) { old(self).m()[k.n()].push(v) } else { seq![v] }) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<&HeaderValue>)
        ensures r.is_some() == (name_of(k@).is_some() && self.m().contains_key(name_of(k@)->0)), r.is_some() ==> *r->0 == self.m()[name_of(k@)->0][0] { unimplemented!() }
    #[verifier::external_body]
    fn key_list<'a>(&'a self) -> (r: Vec<&'a HeaderName>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self.m().contains_key(#[trigger] r@[i].n()),
            forall|k: Seq<char>| self.m().contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i].n() == k,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i].n() != r@[j].n(),
    { unimplemented!() }
}
fn name_strs<'a>(v: Vec<&'a HeaderName>) -> (r: Vec<&'a str>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i]@ == v@[i].n()
{
    let mut out: Vec<&'a str> = Vec::new();
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), out@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] out@[j]@ == v@[j].n()
        decreases v@.len() - i
    { out.push(v[i].as_str()); i += 1; }
    out
}
spec fn lists_names(r: Seq<&str>, m: Map<Seq<char>, Seq<HeaderValue>>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> m.contains_key(#[trigger] r[i]@)
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> is_among(r, k)
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> r[i]@ != r[j]@
}
// std: Result::ok, Option::and_then
mod headers {
use super::*;
//@gsubst http::HeaderMap ~> HeaderMap
//@gsubst http::header::HeaderName::from_bytes($$a.as_bytes()) ~> HeaderName::of($$a)
//@gsubst http::header::HeaderValue::from_str ~> HeaderValue::from_str
struct HeaderInjector<'a>(pub &'a mut HeaderMap);
struct HeaderExtractor<'a>(pub &'a HeaderMap);
impl<'x> HeaderInjector<'x> {
//@fn opentelemetry-http/src/lib.rs impl Injector for HeaderInjector :: fn set
//@subst? self.0.insert(name, val); ~> { let _r = self.0.insert(name, val); }
//@contract
    ensures
        // a name or a value HTTP does not allow is left out, and nothing else is touched
        name_of(key@).is_none() || !value_ok(value@) ==> final(self).0.m() == old(self).0.m(),
        // otherwise the name has this value and no other
        name_of(key@).is_some() && value_ok(value@) ==> exists|v: HeaderValue| #[trigger] v.given() == value@ && final(self).0.m() == old(self).0.m().insert(name_of(key@)->0, seq![v]),
//@endfn
}
impl<'x> HeaderExtractor<'x> {
//@fn opentelemetry-http/src/lib.rs impl Extractor for HeaderExtractor :: fn get
//@ret r
//@subst |value| value.to_str().ok() ~> |value: &HeaderValue| -> (o: Option<&str>) ensures o.is_some() == value.t().is_some(), o.is_some() ==> o->0@ == value.t()->0 { value.to_str().ok() }
//@contract
    ensures ({
        let n = name_of(key@);
        let there = n.is_some() && self.0.m().contains_key(n->0);
        &&& r.is_some() == (there && self.0.m()[n->0][0].t().is_some())
        &&& r.is_some() ==> r->0@ == self.0.m()[n->0][0].t()->0
    }),
//@endfn
//@fn opentelemetry-http/src/lib.rs impl Extractor for HeaderExtractor :: fn keys
//@ret r
//@subst self.0.keys().map(|value| value.as_str()).collect::<Vec<_>>() ~> { let ks = self.0.key_list(); let out = name_strs(ks); proof { assert forall|k: Seq<char>| #[trigger] self.0.m().contains_key(k) implies is_among(out@, k) by { let i = choose|i: int| 0 <= i < ks@.len() && #[trigger] ks@[i].n() == k; assert(out@[i]@ == k); } assert forall|i: int| 0 <= i < out@.len() implies self.0.m().contains_key(#[trigger] out@[i]@) by { assert(self.0.m().contains_key(ks@[i].n())); } } out }
//@contract
    ensures lists_names(r@, self.0.m()),
//@endfn
}
}

// ---- propagators as the composite and the global functions see them ----------------------------------------
#[verifier::external_body]
struct Context { _p: u8 }
impl Context {
    #[verifier::external_body]
    fn current() -> (r: Context) { unimplemented!() }
    #[verifier::external_body]
    fn new() -> (r: Context) { unimplemented!() }
}
impl Clone for Context {
    #[verifier::external_body]
    fn clone(&self) -> (r: Context) ensures r == *self { unimplemented!() }
}
/// what an injector was told, in order
#[verifier::external_body]
struct Carrier { _p: u8 }
impl Carrier { uninterp spec fn log(&self) -> Seq<(Seq<char>, Seq<char>)>; }
#[verifier::external_body]
struct Dyn { _p: u8 }
impl Dyn {
    /// what the propagator leaves in the carrier, what context it gives back, the names it says it uses
    uninterp spec fn puts(&self, cx: Context, c: Carrier) -> Carrier;
    uninterp spec fn takes(&self, cx: Context, c: Carrier) -> Context;
    uninterp spec fn names(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    fn inject_context(&self, cx: &Context, injector: &mut Carrier) ensures *final(injector) == self.puts(*cx, *old(injector)) { unimplemented!() }
    #[verifier::external_body]
    fn extract_with_context(&self, cx: &Context, extractor: &Carrier) -> (r: Context) ensures r == self.takes(*cx, *extractor) { unimplemented!() }
    #[verifier::external_body]
    fn fields(&self) -> (r: Vec<&str>) ensures names_of(r@) == self.names() { unimplemented!() }
}
impl Dyn {
// the provided methods use the context that is current when they are called
//@gsubst &mut dyn Injector ~> &mut Carrier
//@gsubst &dyn Extractor ~> &Carrier
//@fn opentelemetry/src/propagation/text_map_propagator.rs trait TextMapPropagator :: fn inject
//@sig fn inject(&self, injector: &mut Carrier, current: &Context)
//@subst Context::map_current(|cx| $$b) ~> { let cx = current; $$b }
//@contract
    ensures *final(injector) == self.puts(*current, *old(injector)),
//@endfn
//@fn opentelemetry/src/propagation/text_map_propagator.rs trait TextMapPropagator :: fn extract
//@sig fn extract(&self, extractor: &Carrier, current: &Context) -> Context
//@ret r
//@subst Context::map_current(|cx| $$b) ~> { let cx = current; $$b }
//@contract
    ensures r == self.takes(*current, *extractor),
//@endfn
}

// std: a set of texts
#[verifier::external_body]
struct HashSet { _p: u8 }
impl HashSet {
    uninterp spec fn s(&self) -> Set<Seq<char>>;
    #[verifier::external_body]
    fn new() -> (r: HashSet) ensures r.s() == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, v: String) -> (r: bool) ensures final(self).s() == old(self).s().insert(v@) { unimplemented!() }
    #[verifier::external_body]
    fn into_list(self) -> (r: Vec<String>)
        ensures forall|x: Seq<char>| self.s().contains(x) <==> #[trigger] holds(r@, x), distinct(r@) { unimplemented!() }
}
spec fn holds(r: Seq<String>, x: Seq<char>) -> bool { exists|i: int| 0 <= i < r.len() && #[trigger] r[i]@ == x }
spec fn distinct(r: Seq<String>) -> bool { forall|i: int, j: int| 0 <= i < j < r.len() ==> r[i]@ != r[j]@ }
fn extend_names(set: &mut HashSet, p: &Dyn)
    ensures forall|x: Seq<char>| #[trigger] final(set).s().contains(x) == (old(set).s().contains(x) || p.names().contains(x))
{
    let v = p.fields();
    let mut i = 0;
    while i < v.len()
        invariant
            i <= v@.len(), names_of(v@) == p.names(),
            forall|x: Seq<char>| #[trigger] set.s().contains(x) == (old(set).s().contains(x) || p.names().take(i as int).contains(x)),
        decreases v@.len() - i
    {
        proof {
            let n = p.names();
            assert(n[i as int] == v@[i as int]@);
            assert(n.take(i as int + 1) =~= n.take(i as int).push(n[i as int]));
            assert forall|x: Seq<char>| #[trigger] n.take(i as int + 1).contains(x) == (n.take(i as int).contains(x) || x == n[i as int]) by {
                if n.take(i as int + 1).contains(x) { let k = n.take(i as int + 1).index_of(x); if k < i { assert(n.take(i as int)[k] == x); } }
                if n.take(i as int).contains(x) { let k = n.take(i as int).index_of(x); assert(n.take(i as int).push(n[i as int])[k] == x); }
                assert(n.take(i as int).push(n[i as int])[i as int] == n[i as int]);
            }
        }
        let _r = set.insert(to_string(v[i]));
        i += 1;
    }
    proof { assert(p.names().take(v@.len() as int) =~= p.names()); }
}
#[verifier::external_body]
fn to_string(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }

spec fn some_names(ps: Seq<Dyn>, x: Seq<char>) -> bool { exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).names().contains(x) }
spec fn puts_all(ps: Seq<Dyn>, cx: Context, c: Carrier) -> Carrier decreases ps.len() {
    if ps.len() == 0 { c } else { ps.last().puts(cx, puts_all(ps.drop_last(), cx, c)) }
}
spec fn takes_all(ps: Seq<Dyn>, cx: Context, c: Carrier) -> Context decreases ps.len() {
    if ps.len() == 0 { cx } else { ps.last().takes(takes_all(ps.drop_last(), cx, c), c) }
}
proof fn step(ps: Seq<Dyn>, i: int, cx: Context, c: Carrier)
    requires 0 <= i < ps.len()
    ensures
        puts_all(ps.take(i + 1), cx, c) == ps[i].puts(cx, puts_all(ps.take(i), cx, c)),
        takes_all(ps.take(i + 1), cx, c) == ps[i].takes(takes_all(ps.take(i), cx, c), c),
{
    assert(ps.take(i + 1).drop_last() =~= ps.take(i));
}
mod composite {
use super::*;
//@gsubst Box<dyn TextMapPropagator + Send + Sync> ~> Dyn
//@item opentelemetry/src/propagation/composite.rs struct TextMapCompositePropagator
impl TextMapCompositePropagator {
//@fn opentelemetry/src/propagation/composite.rs impl TextMapCompositePropagator :: fn new
//@ret r
//@subst fields.extend(propagator.fields().map(ToString::to_string)); ~> extend_names(&mut fields, propagator);
//@subst fields.into_iter().collect() ~> fields.into_list()
//@loop 0 it
        invariant
            it.seq().len() == propagators@.len(), forall|j: int| 0 <= j < propagators@.len() ==> *#[trigger] it.seq()[j] == propagators@[j],
            forall|x: Seq<char>| #[trigger] fields.s().contains(x) == some_names(propagators@.take(it.index@), x),
//@inloop 0
        proof {
            let ps = propagators@; let k = it.index@;
            assert(ps.take(k + 1) =~= ps.take(k).push(ps[k]));
            assert forall|x: Seq<char>| #[trigger] some_names(ps.take(k + 1), x) == (some_names(ps.take(k), x) || ps[k].names().contains(x)) by {
                if some_names(ps.take(k), x) { let i = choose|i: int| 0 <= i < ps.take(k).len() && (#[trigger] ps.take(k)[i]).names().contains(x); assert(ps.take(k + 1)[i].names().contains(x)); }
                if ps[k].names().contains(x) { assert(ps.take(k + 1)[k].names().contains(x)); }
                if some_names(ps.take(k + 1), x) { let i = choose|i: int| 0 <= i < ps.take(k + 1).len() && (#[trigger] ps.take(k + 1)[i]).names().contains(x); if i < k { assert(ps.take(k)[i].names().contains(x)); } }
            }
        }
//@afterloop 0
        proof { assert(propagators@.take(propagators@.len() as int) =~= propagators@); }
//@contract
    ensures
        r.propagators@ == propagators@,
        // every name any of them uses, once, and no other
        forall|x: Seq<char>| #[trigger] holds(r.fields@, x) == some_names(propagators@, x),
        distinct(r.fields@),
//@endfn
//@fn opentelemetry/src/propagation/composite.rs impl TextMapPropagator for TextMapCompositePropagator :: fn inject_context
//@loop 0 it
        invariant
            it.seq().len() == self.propagators@.len(), forall|j: int| 0 <= j < self.propagators@.len() ==> *#[trigger] it.seq()[j] == self.propagators@[j],
            *injector == puts_all(self.propagators@.take(it.index@), *context, *old(injector)),
//@inloop 0
        proof { step(self.propagators@, it.index@, *context, *old(injector)); }
//@afterloop 0
        proof { assert(self.propagators@.take(self.propagators@.len() as int) =~= self.propagators@); }
//@contract
    // each one injects the same context, in the order given
    ensures *final(injector) == puts_all(self.propagators@, *context, *old(injector)),
//@start
    proof { assert(self.propagators@.take(0) =~= Seq::empty()); }
//@endfn
//@fn opentelemetry/src/propagation/composite.rs impl TextMapPropagator for TextMapCompositePropagator :: fn extract_with_context
//@ret r
//@subst? self.propagators.iter().fold($$i, |$a, $b| $$body) ~> { let mut acc = $$i; for p in (&self.propagators).iter() { acc = { let $a = acc; let $b = p; $$body }; } acc }
//@loop 0 it
        invariant
            it.seq().len() == self.propagators@.len(), forall|j: int| 0 <= j < self.propagators@.len() ==> *#[trigger] it.seq()[j] == self.propagators@[j],
            acc == takes_all(self.propagators@.take(it.index@), *cx, *extractor),
//@inloop 0
        proof { step(self.propagators@, it.index@, *cx, *extractor); }
//@afterloop 0
        proof { assert(self.propagators@.take(self.propagators@.len() as int) =~= self.propagators@); }
//@contract
    // each one adds to what the ones before it gave back
    ensures r == takes_all(self.propagators@, *cx, *extractor),
//@start
    proof { assert(self.propagators@.take(0) =~= Seq::empty()); }
//@endfn
//@fn opentelemetry/src/propagation/composite.rs impl TextMapPropagator for TextMapCompositePropagator :: fn fields
//@ret r
//@sig fn fields(&self) -> FieldIter<'_>
//@contract
    ensures r.rest() == texts(self.fields@),
//@endfn
}
}
use composite::*;
proof fn last_writer_wins_order(ps: Seq<Dyn>, cx: Context, c: Carrier)
    requires ps.len() == 2
    ensures puts_all(ps, cx, c) == ps[1].puts(cx, ps[0].puts(cx, c)), takes_all(ps, cx, c) == ps[1].takes(ps[0].takes(cx, c), c)
{
    assert(ps.drop_last().drop_last() =~= Seq::empty());
    assert(ps.drop_last().last() == ps[0]);
    reveal_with_fuel(puts_all, 3); reveal_with_fuel(takes_all, 3);
}

// ---- FieldIter ----------------------------------------------------------------------------------------------
spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
/// trusted: slice::Iter gives the elements in order, each once
#[verifier::external_body]
struct StrIter<'a> { _p: &'a u8 }
impl<'a> StrIter<'a> {
    uninterp spec fn rest(&self) -> Seq<String>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a String>)
        ensures
            old(self).rest().len() == 0 ==> r.is_none() && final(self).rest().len() == 0,
            old(self).rest().len() > 0 ==> r.is_some() && *r->0 == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
    { unimplemented!() }
}
#[verifier::external_body]
fn str_iter<'a>(v: &'a [String]) -> (r: StrIter<'a>) ensures r.rest() == v@ { unimplemented!() }
//@gsubst slice::Iter<'a, String> ~> StrIter<'a>
//@gsubst fields.iter() ~> str_iter(fields)
//@item opentelemetry/src/propagation/text_map_propagator.rs struct FieldIter
impl<'a> FieldIter<'a> {
    spec fn rest(&self) -> Seq<Seq<char>> { texts(self.0.rest()) }
//@fn opentelemetry/src/propagation/text_map_propagator.rs impl FieldIter :: fn new
//@ret r
//@contract
    ensures r.rest() == texts(fields@),
//@endfn
//@fn opentelemetry/src/propagation/text_map_propagator.rs impl Iterator for FieldIter :: fn next
//@sig fn next(&mut self) -> Option<&'a str>
//@ret r
//@subst |field| field.as_str() ~> |field: &'a String| -> (s: &'a str) ensures s@ == field@ { field.as_str() }
//@contract
    ensures
        old(self).rest().len() == 0 ==> r.is_none() && final(self).rest().len() == 0,
        old(self).rest().len() > 0 ==> r.is_some() && r->0@ == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
//@start
    proof { assert(texts(old(self).0.rest()).len() == old(self).0.rest().len()); if old(self).0.rest().len() > 0 { assert(texts(old(self).0.rest()).drop_first() =~= texts(old(self).0.rest().drop_first())); } }
//@endfn
}

// ---- the names each propagator says it uses are the headers it injects (traceparent.rs, baggage_prop.rs, b3.rs) --------
/// an array of owned texts, made once and kept (OnceLock, Lazy)
fn owned_list(v: Vec<&'static str>) -> (r: Vec<String>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i]@ == v@[i]@
{
    let mut out: Vec<String> = Vec::new();
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), out@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] out@[j]@ == v@[j]@
        decreases v@.len() - i
    { out.push(to_string(v[i])); i += 1; }
    out
}
mod w3c {
use super::*;
//@fn opentelemetry-sdk/src/propagation/trace_context.rs const TRACEPARENT_HEADER
//@sig fn traceparent_header() -> &'static str
//@ret r
//@contract
    ensures r@ == "traceparent"@,
//@endfn
//@fn opentelemetry-sdk/src/propagation/trace_context.rs const TRACESTATE_HEADER
//@sig fn tracestate_header() -> &'static str
//@ret r
//@contract
    ensures r@ == "tracestate"@,
//@endfn
//@gsubst TRACEPARENT_HEADER ~> traceparent_header()
//@gsubst TRACESTATE_HEADER ~> tracestate_header()
//@fn opentelemetry-sdk/src/propagation/trace_context.rs fn trace_context_header_fields
//@sig fn trace_context_header_fields() -> Vec<String>
//@ret r
//@subst TRACE_CONTEXT_HEADER_FIELDS.get_or_init(|| [$$a.to_owned(), $$b.to_owned()]) ~> owned_list(vec![$$a, $$b])
//@contract
    ensures texts(r@) =~= seq!["traceparent"@, "tracestate"@],
//@endfn
struct TraceContextPropagator { }
impl TraceContextPropagator {
//@fn opentelemetry-sdk/src/propagation/trace_context.rs impl TextMapPropagator for TraceContextPropagator :: fn fields
//@sig fn fields(&self) -> Vec<String>
//@ret r
//@subst FieldIter::new($$a) ~> $$a
//@contract
    ensures texts(r@) == seq!["traceparent"@, "tracestate"@],
//@endfn
}
//@fn opentelemetry-sdk/src/propagation/baggage.rs static BAGGAGE_HEADER
//@sig fn baggage_header() -> &'static str
//@ret r
//@contract
    ensures r@ == "baggage"@,
//@endfn
//@gsubst BAGGAGE_HEADER ~> baggage_header()
//@fn opentelemetry-sdk/src/propagation/baggage.rs fn baggage_fields
//@sig fn baggage_fields() -> Vec<String>
//@ret r
//@subst BAGGAGE_FIELDS.get_or_init(|| [$$a.to_owned()]) ~> owned_list(vec![$$a])
//@contract
    ensures texts(r@) =~= seq!["baggage"@],
//@endfn
struct BaggagePropagator { }
impl BaggagePropagator {
//@fn opentelemetry-sdk/src/propagation/baggage.rs impl TextMapPropagator for BaggagePropagator :: fn fields
//@sig fn fields(&self) -> Vec<String>
//@ret r
//@subst FieldIter::new($$a) ~> $$a
//@contract
    ensures texts(r@) == seq!["baggage"@],
//@endfn
}
}
mod b3 {
use super::*;
//@item opentelemetry-zipkin/src/propagator/mod.rs enum B3Encoding
impl B3Encoding {
    spec fn bits(&self) -> int { match self { B3Encoding::UnSpecified => 0, B3Encoding::MultipleHeader => 1, B3Encoding::SingleHeader => 2, B3Encoding::SingleAndMultiHeader => 3 } }
    /// b3.rs proves this of the real function
    #[verifier::external_body]
    fn support(&self, other: &Self) -> (r: bool)
        ensures r == (match *other { B3Encoding::UnSpecified => true, B3Encoding::SingleHeader => self.bits() >= 2, B3Encoding::MultipleHeader => self.bits() == 1 || self.bits() == 3, B3Encoding::SingleAndMultiHeader => self.bits() == 3 }),
    { unimplemented!() }
}
//@fn opentelemetry-zipkin/src/propagator/mod.rs const B3_SINGLE_HEADER
//@sig fn b3_single_header() -> &'static str
//@ret r
//@contract
    ensures r@ == "b3"@,
//@endfn
//@fn opentelemetry-zipkin/src/propagator/mod.rs const B3_DEBUG_FLAG_HEADER
//@sig fn b3_debug_flag_header() -> &'static str
//@ret r
//@contract
    ensures r@ == "x-b3-flags"@,
//@endfn
//@fn opentelemetry-zipkin/src/propagator/mod.rs const B3_TRACE_ID_HEADER
//@sig fn b3_trace_id_header() -> &'static str
//@ret r
//@contract
    ensures r@ == "x-b3-traceid"@,
//@endfn
//@fn opentelemetry-zipkin/src/propagator/mod.rs const B3_SPAN_ID_HEADER
//@sig fn b3_span_id_header() -> &'static str
//@ret r
//@contract
    ensures r@ == "x-b3-spanid"@,
//@endfn
//@fn opentelemetry-zipkin/src/propagator/mod.rs const B3_SAMPLED_HEADER
//@sig fn b3_sampled_header() -> &'static str
//@ret r
//@contract
    ensures r@ == "x-b3-sampled"@,
//@endfn
//@gsubst B3_SINGLE_HEADER ~> b3_single_header()
//@gsubst B3_DEBUG_FLAG_HEADER ~> b3_debug_flag_header()
//@gsubst B3_TRACE_ID_HEADER ~> b3_trace_id_header()
//@gsubst B3_SPAN_ID_HEADER ~> b3_span_id_header()
//@gsubst B3_SAMPLED_HEADER ~> b3_sampled_header()
/// the headers inject_context may set (b3.rs `injected`)
spec fn used(e: B3Encoding) -> Seq<Seq<char>> {
    let multi = seq!["x-b3-traceid"@, "x-b3-spanid"@, "x-b3-sampled"@, "x-b3-flags"@];
    if e.bits() == 2 { seq!["b3"@] } else if e.bits() == 3 { seq!["b3"@] + multi } else { multi }
}
//@fn opentelemetry-zipkin/src/propagator/mod.rs static B3_SINGLE_FIELDS
//@sig fn b3_single_fields() -> Vec<String>
//@ret r
//@subst Lazy::new(|| [$$a.to_owned()]) ~> { let v = owned_list(vec![$$a]); proof { listed(v@); } v }
//@contract
    ensures same(r@, seq!["b3"@]),
//@endfn
//@fn opentelemetry-zipkin/src/propagator/mod.rs static B3_MULTI_FIELDS
//@sig fn b3_multi_fields() -> Vec<String>
//@ret r
//@subst Lazy::new(|| { [$$a.to_owned(), $$b.to_owned(), $$c.to_owned(), $$d.to_owned(),] }) ~> { let v = owned_list(vec![$$a, $$b, $$c, $$d]); proof { listed(v@); } v }
//@contract
    ensures same(r@, seq!["x-b3-traceid"@, "x-b3-spanid"@, "x-b3-sampled"@, "x-b3-flags"@]),
//@endfn
//@fn opentelemetry-zipkin/src/propagator/mod.rs static B3_SINGLE_AND_MULTI_FIELDS
//@sig fn b3_single_and_multi_fields() -> Vec<String>
//@ret r
//@subst Lazy::new(|| { [$$a.to_owned(), $$b.to_owned(), $$c.to_owned(), $$d.to_owned(), $$e.to_owned(),] }) ~> { let v = owned_list(vec![$$a, $$b, $$c, $$d, $$e]); proof { listed(v@); } v }
//@contract
    ensures same(r@, seq!["b3"@, "x-b3-traceid"@, "x-b3-spanid"@, "x-b3-sampled"@, "x-b3-flags"@]),
//@endfn
proof fn listed(r: Seq<String>)
    ensures
        r.len() > 0 ==> texts(r).contains(r[0]@), r.len() > 1 ==> texts(r).contains(r[1]@), r.len() > 2 ==> texts(r).contains(r[2]@),
        r.len() > 3 ==> texts(r).contains(r[3]@), r.len() > 4 ==> texts(r).contains(r[4]@),
{
    if r.len() > 0 { assert(texts(r)[0] == r[0]@); } if r.len() > 1 { assert(texts(r)[1] == r[1]@); } if r.len() > 2 { assert(texts(r)[2] == r[2]@); }
    if r.len() > 3 { assert(texts(r)[3] == r[3]@); } if r.len() > 4 { assert(texts(r)[4] == r[4]@); }
}
/// the same names, in any order
spec fn same(r: Seq<String>, names: Seq<Seq<char>>) -> bool {
    r.len() == names.len() && (forall|k: int| 0 <= k < names.len() ==> texts(r).contains(#[trigger] names[k]))
}
//@gsubst B3_SINGLE_FIELDS.as_ref() ~> b3_single_fields()
//@gsubst B3_MULTI_FIELDS.as_ref() ~> b3_multi_fields()
//@gsubst B3_SINGLE_AND_MULTI_FIELDS.as_ref() ~> b3_single_and_multi_fields()
struct Propagator { inject_encoding: B3Encoding }
impl Propagator {
//@fn opentelemetry-zipkin/src/propagator/mod.rs impl TextMapPropagator for Propagator :: fn fields
//@sig fn fields(&self) -> Vec<String>
//@ret r
//@subst FieldIter::new($$a) ~> $$a
//@contract
    ensures same(r@, used(self.inject_encoding)),
//@start
    proof { assert(used(B3Encoding::SingleAndMultiHeader) =~= seq!["b3"@, "x-b3-traceid"@, "x-b3-spanid"@, "x-b3-sampled"@, "x-b3-flags"@]); }
//@endfn
}
}
mod jaeger {
use super::*;
// trusted: str::trim takes white space off both ends
uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
axiom fn trim_twice(s: Seq<char>) ensures trimmed(trimmed(s)) == trimmed(s);
axiom fn trim_constants() ensures trimmed("uber-trace-id"@) == "uber-trace-id"@, trimmed("uberctx-"@) == "uberctx-"@;
#[verifier::external_body]
fn trim(s: &'static str) -> (r: &'static str) ensures r@ == trimmed(s@) { s.trim() }
#[verifier::external_body]
fn no_text(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
//@fn opentelemetry-jaeger-propagator/src/propagator.rs const JAEGER_HEADER
//@sig fn jaeger_header() -> &'static str
//@ret r
//@contract
    ensures r@ == "uber-trace-id"@,
//@endfn
//@fn opentelemetry-jaeger-propagator/src/propagator.rs const JAEGER_BAGGAGE_PREFIX
//@sig fn jaeger_baggage_prefix() -> &'static str
//@ret r
//@contract
    ensures r@ == "uberctx-"@,
//@endfn
//@gsubst JAEGER_HEADER ~> jaeger_header()
//@gsubst JAEGER_BAGGAGE_PREFIX ~> jaeger_baggage_prefix()
//@gsubst [String; 1] ~> Vec<String>
//@item opentelemetry-jaeger-propagator/src/propagator.rs struct Propagator
spec fn or_default(s: Seq<char>, d: Seq<char>) -> Seq<char> { if trimmed(s).len() == 0 { d } else { trimmed(s) } }
impl Propagator {
//@fn opentelemetry-jaeger-propagator/src/propagator.rs impl Propagator :: fn new
//@ret r
//@contract
    ensures r.header_name@ == "uber-trace-id"@, r.baggage_prefix@ == "uberctx-"@, texts(r.fields@) == seq!["uber-trace-id"@],
//@start
    proof { trim_constants(); }
//@endfn
//@fn opentelemetry-jaeger-propagator/src/propagator.rs impl Propagator :: fn with_custom_header
//@ret r
//@contract
    ensures r.header_name@ == or_default(custom_header_name@, "uber-trace-id"@), r.baggage_prefix@ == "uberctx-"@, texts(r.fields@) == seq![r.header_name@],
//@start
    proof { trim_constants(); }
//@endfn
//@fn opentelemetry-jaeger-propagator/src/propagator.rs impl Propagator :: fn with_custom_header_and_baggage
//@ret r
//@subst $x.trim().is_empty() ~> no_text(trim($x))
//@subst [$x.trim().to_owned()] ~> owned_list(vec![trim($x)])
//@subst $x.trim() ~> trim($x)
//@contract
    ensures
        r.header_name@ == or_default(custom_header_name@, "uber-trace-id"@), r.baggage_prefix@ == or_default(custom_baggage_prefix@, "uberctx-"@),
        texts(r.fields@) =~= seq![r.header_name@],
//@start
    proof { trim_constants(); }
//@endfn
//@fn opentelemetry-jaeger-propagator/src/propagator.rs impl Default for Propagator :: fn default
//@ret r
//@contract
    ensures r.header_name@ == "uber-trace-id"@, r.baggage_prefix@ == "uberctx-"@, texts(r.fields@) == seq!["uber-trace-id"@],
//@endfn
//@fn opentelemetry-jaeger-propagator/src/propagator.rs impl TextMapPropagator for Propagator :: fn fields
//@sig fn fields(&self) -> FieldIter<'_>
//@ret r
//@subst self.fields.as_ref() ~> self.fields.as_slice()
//@contract
    ensures r.rest() == texts(self.fields@),
//@endfn
}
}

// ---- the global propagator ----------------------------------------------------------------------------------
mod global {
use super::*;
// what a propagator that does nothing does
//@item opentelemetry/src/trace/noop.rs struct NoopTextMapPropagator
impl NoopTextMapPropagator {
//@fn opentelemetry/src/trace/noop.rs impl NoopTextMapPropagator :: fn new
//@endfn
//@fn opentelemetry/src/trace/noop.rs impl TextMapPropagator for NoopTextMapPropagator :: fn inject_context
//@contract
    ensures *final(_injector) == *old(_injector),
//@endfn
//@fn opentelemetry/src/trace/noop.rs impl TextMapPropagator for NoopTextMapPropagator :: fn extract_with_context
//@sig fn extract_with_context(&self, cx0: &Context, _extractor: &Carrier) -> Context
//@ret r
//@contract
    // nothing was found, so the given context comes back
    ensures r == *cx0,
//@start
    let cx = cx0; let _cx = cx0;
//@endfn
//@fn opentelemetry/src/trace/noop.rs impl TextMapPropagator for NoopTextMapPropagator :: fn fields
//@sig fn fields(&self) -> FieldIter<'_>
//@ret r
//@contract
    ensures r.rest() =~= Seq::<Seq<char>>::empty(),
//@endfn
}
/// an owned propagator of any kind as a trait object, by identity
pub trait TextMapPropagator: Sized { spec fn as_dyn(&self) -> Dyn; }
#[verifier::external_body]
fn boxed<P: TextMapPropagator>(p: P) -> (r: Dyn) ensures r == p.as_dyn() { unimplemented!() }
#[verifier::external_body]
fn noop_dyn(p: &NoopTextMapPropagator) -> (r: &Dyn) ensures *r == noop() { unimplemented!() }
uninterp spec fn noop() -> Dyn;
#[verifier::external_body]
struct Poisoned { _p: u8 }
/// the process-wide slot: OnceLock<RwLock<Box<dyn …>>>, holding the no-op one until another is set; `bad` when a thread
/// panicked with the lock held for writing
struct Global { cur: Dyn, bad: bool }
impl Global {
    fn read(&self) -> (r: Result<&Dyn, Poisoned>) ensures r.is_ok() == !self.bad, r.is_ok() ==> *r->Ok_0 == self.cur { if self.bad { Err(poisoned()) } else { Ok(&self.cur) } }
    fn write(&mut self) -> (r: Result<&mut Dyn, Poisoned>)
        ensures r.is_ok() == !old(self).bad, final(self).bad == old(self).bad,
            r.is_err() ==> final(self).cur == old(self).cur,
            r.is_ok() ==> *r->Ok_0 == old(self).cur && final(self).cur == *final(r->Ok_0),
    { if self.bad { Err(poisoned()) } else { Ok(&mut self.cur) } }
}
#[verifier::external_body]
fn poisoned() -> Poisoned { unimplemented!() }
pub assume_specification<T> [std::mem::replace] (dest: &mut T, src: T) -> (r: T) ensures *final(dest) == src, r == *old(dest);
//@fn opentelemetry/src/global/propagation.rs fn set_text_map_propagator
//@sig fn set_text_map_propagator<P: TextMapPropagator>(propagator: P, global: &mut Global)
//@subst let $v = global_text_map_propagator().write().map(|mut global_propagator| mem::replace(&mut *global_propagator, Box::new($$a))); ~> let $v = match global.write() { Ok(global_propagator) => Some(std::mem::replace(global_propagator, boxed($$a))), Err(_) => None };
//@contract
    ensures final(global).bad == old(global).bad, !old(global).bad ==> final(global).cur == propagator.as_dyn(),
//@endfn
//@fn opentelemetry/src/global/propagation.rs fn get_text_map_propagator
//@sig fn get_text_map_propagator<T, F: FnMut(&Dyn) -> T>(f0: F, global: &Global) -> T
//@ret r
//@subst global_text_map_propagator().read().map(|propagator| f(&**propagator)).unwrap_or_else(|_| $$b) ~> match global.read() { Ok(propagator) => f(propagator), Err(_) => $$b }
//@subst let default_propagator = default_text_map_propagator(); ~> let d = NoopTextMapPropagator::new(); let default_propagator = noop_dyn(&d);
//@subst default_propagator as &dyn TextMapPropagator ~> default_propagator
//@contract
    requires forall|p: &Dyn| f0.requires((p,)),
    // the callback gets the one set last
    ensures f0.ensures((if global.bad { &noop() } else { &global.cur },), r),
//@start
    let mut f = f0;
//@endfn
}

} // verus!
fn main() {}

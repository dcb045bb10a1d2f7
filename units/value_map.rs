// Unit: which series a measurement reaches and what a collection hands out (opentelemetry-sdk/src/metrics/internal/mod.rs).
// The locks, atomics and Arc<A> trackers are a state `St`; taking a lock first lets any other thread's completed steps
// happen (`lin` is the state found then).  Updates are logged per tracker: what an aggregation makes of its log is
// aggregators.rs.
use vstd::prelude::*;
use vstd::seq_lib::*;
use vstd::multiset::*;
use std::cmp::Ordering;
verus! {

#[verifier::external_body] struct Key { _p: u8 }
#[verifier::external_body] struct Value { _p: u8 }
struct KeyValue { key: Key, value: Value }
#[verifier::external_body] #[derive(Clone, Copy)] struct V { _p: u8 }
type KVs = Seq<KeyValue>;

/// position of a key in the order of `Key` (total; equal only for equal keys)
uninterp spec fn rank(k: Key) -> int;
#[verifier::external_body] broadcast proof fn rank_injective(a: Key, b: Key) ensures #[trigger] rank(a) == #[trigger] rank(b) ==> a == b { }
impl Key {
    #[verifier::external_body] fn cmp(&self, o: &Key) -> (r: Ordering)
        ensures r == (if rank(*self) < rank(*o) { Ordering::Less } else if rank(*self) > rank(*o) { Ordering::Greater } else { Ordering::Equal })
    { unimplemented!() }
}
#[verifier::external_body] fn same_key(a: &Key, b: &Key) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
uninterp spec fn key_of(t: Seq<char>) -> Key;
uninterp spec fn bool_value(b: bool) -> Value;
impl KeyValue {
    #[verifier::external_body] fn new(k: &'static str, v: bool) -> (r: KeyValue)
        ensures r == (KeyValue { key: key_of(k@), value: bool_value(v) }) { unimplemented!() }
}

spec fn ascending(s: KVs) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> rank(#[trigger] s[i].key) <= rank(#[trigger] s[j].key) }
spec fn strict(s: KVs) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> rank(#[trigger] s[i].key) < rank(#[trigger] s[j].key) }
spec fn distinct_keys(s: KVs) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i].key != #[trigger] s[j].key }

/// std's unstable sort of a slice: a function of the slice, an ascending permutation of it
uninterp spec fn sort_of(s: KVs) -> KVs;
#[verifier::external_body] broadcast proof fn sort_of_sorts(s: KVs)
    ensures #![trigger sort_of(s)] ascending(sort_of(s)) && sort_of(s).to_multiset() == s.to_multiset() && sort_of(s).len() == s.len() { }
#[verifier::external_body]
fn sort_by<F: Fn(&KeyValue, &KeyValue) -> Ordering>(v: &mut Vec<KeyValue>, f: F)
    requires
        forall|a: &KeyValue, b: &KeyValue| #[trigger] f.requires((a, b)),
        forall|a: &KeyValue, b: &KeyValue, o: Ordering| #[trigger] f.ensures((a, b), o) ==>
            (o == Ordering::Less <==> rank(a.key) < rank(b.key)) && (o == Ordering::Greater <==> rank(a.key) > rank(b.key)),
    ensures final(v)@ == sort_of(old(v)@),
{ unimplemented!() }
/// Vec::dedup_by: the first of every run the closure calls equal
spec fn dedup(s: KVs) -> KVs
    decreases s.len()
{
    if s.len() == 0 { s } else {
        let d = dedup(s.drop_last());
        if d.len() > 0 && d.last().key == s.last().key { d } else { d.push(s.last()) }
    }
}
#[verifier::external_body]
fn dedup_by<F: Fn(&KeyValue, &KeyValue) -> bool>(v: &mut Vec<KeyValue>, f: F)
    requires
        forall|a: &KeyValue, b: &KeyValue| #[trigger] f.requires((a, b)),
        forall|a: &KeyValue, b: &KeyValue, o: bool| #[trigger] f.ensures((a, b), o) ==> o == (a.key == b.key),
    ensures final(v)@ == dedup(old(v)@),
{ unimplemented!() }
#[verifier::external_body] fn copy_of(s: &[KeyValue]) -> (r: Vec<KeyValue>) ensures r@ == s@ { unimplemented!() }

/// the form under which a series is identified: ascending keys, each once
spec fn canon(s: KVs) -> KVs { dedup(sort_of(s)) }

proof fn dedup_strict(s: KVs)
    requires ascending(s),
    ensures strict(dedup(s)), s.len() > 0 ==> dedup(s).len() > 0 && dedup(s).last().key == s.last().key, dedup(s).len() <= s.len(),
        dedup(s).len() == s.len() ==> dedup(s) == s && strict(s), strict(s) ==> dedup(s) == s,
        s.len() == 0 ==> dedup(s).len() == 0,
    decreases s.len()
{
    broadcast use rank_injective;
    if s.len() > 0 {
        let p = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < p.len() implies rank(#[trigger] p[i].key) <= rank(#[trigger] p[j].key) by { assert(p[i] == s[i] && p[j] == s[j]); }
        dedup_strict(p);
        if strict(s) { assert forall|i: int, j: int| 0 <= i < j < p.len() implies rank(#[trigger] p[i].key) < rank(#[trigger] p[j].key) by { assert(p[i] == s[i] && p[j] == s[j]); } }
        let d = dedup(p);
        if p.len() > 0 {
            assert(rank(s[s.len() - 2].key) <= rank(s[s.len() - 1].key));
            assert(p.last() == s[s.len() - 2]);
        }
        let r = dedup(s);
        if r != d {
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies rank(#[trigger] r[i].key) < rank(#[trigger] r[j].key) by {
                if j == d.len() {
                    assert(rank(d[i].key) <= rank(d.last().key));
                    assert(rank(d.last().key) <= rank(s.last().key));
                    assert(d.last().key != s.last().key);
                } else { assert(r[i] == d[i] && r[j] == d[j]); }
            }
        }
        if r.len() == s.len() { assert(d.len() == p.len()); assert(r =~= s); assert(strict(r)); }
        if strict(s) { if p.len() > 0 { assert(rank(s[s.len() - 2].key) < rank(s[s.len() - 1].key)); } assert(r =~= s); }
    }
}
proof fn canon_strict(s: KVs)
    ensures strict(canon(s)), canon(s).len() <= s.len(), s.len() > 0 ==> canon(s).len() > 0,
{ broadcast use sort_of_sorts; dedup_strict(sort_of(s)); }

proof fn strict_unique(a: KVs, b: KVs)
    requires strict(a), strict(b), a.to_multiset() == b.to_multiset(),
    ensures a == b,
    decreases a.len()
{
    broadcast use group_to_multiset_ensures;
    assert(a.to_multiset().len() == a.len() && b.to_multiset().len() == b.len());
    if a.len() > 0 {
        let x = a.last(); let y = b.last();
        assert(a.to_multiset().count(x) > 0) by { assert(a.contains(x)); }
        assert(b.to_multiset().count(y) > 0) by { assert(b.contains(y)); }
        assert(b.contains(x) && a.contains(y));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
        let j = choose|j: int| 0 <= j < a.len() && a[j] == y;
        if i < b.len() - 1 { assert(rank(b[i].key) < rank(b[b.len() - 1].key)); if j < a.len() - 1 { assert(rank(a[j].key) < rank(a[a.len() - 1].key)); } }
        assert(x == y);
        let p = a.drop_last(); let q = b.drop_last();
        assert(a =~= p.push(x)); assert(b =~= q.push(x));
        assert(p.to_multiset() =~= a.to_multiset().remove(x));
        assert(q.to_multiset() =~= b.to_multiset().remove(x));
        assert forall|i: int, j: int| 0 <= i < j < p.len() implies rank(#[trigger] p[i].key) < rank(#[trigger] p[j].key) by { assert(p[i] == a[i] && p[j] == a[j]); }
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies rank(#[trigger] q[i].key) < rank(#[trigger] q[j].key) by { assert(q[i] == b[i] && q[j] == b[j]); }
        strict_unique(p, q);
    } else { assert(a =~= b); }
}
proof fn sorted_distinct(s: KVs)
    requires distinct_keys(s),
    ensures strict(sort_of(s)), canon(s) == sort_of(s), canon(s).to_multiset() == s.to_multiset(),
{
    broadcast use sort_of_sorts, group_to_multiset_ensures, rank_injective;
    let t = sort_of(s);
    assert(s.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if i < j { assert(s[i].key != s[j].key); } else { assert(s[j].key != s[i].key); } } }
    s.lemma_multiset_has_no_duplicates();
    t.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies rank(#[trigger] t[i].key) < rank(#[trigger] t[j].key) by {
        assert(rank(t[i].key) <= rank(t[j].key));
        if rank(t[i].key) == rank(t[j].key) {
            assert(t[i] != t[j]);
            assert(t.contains(t[i]) && t.contains(t[j]));
            assert(s.to_multiset().count(t[i]) > 0 && s.to_multiset().count(t[j]) > 0);
            assert(s.contains(t[i]) && s.contains(t[j]));
            let a = choose|a: int| 0 <= a < s.len() && s[a] == t[i];
            let b = choose|b: int| 0 <= b < s.len() && s[b] == t[j];
            if a < b { assert(s[a].key != s[b].key); } else { assert(s[b].key != s[a].key); }
        }
    }
    dedup_strict(t);
}
/// the same attributes in any order name the same series
proof fn order_does_not_matter(a: KVs, b: KVs)
    requires distinct_keys(a), distinct_keys(b), a.to_multiset() == b.to_multiset(),
    ensures canon(a) == canon(b),
{ broadcast use sort_of_sorts; sorted_distinct(a); sorted_distinct(b); strict_unique(canon(a), canon(b)); }
proof fn strict_distinct(s: KVs) requires strict(s), ensures distinct_keys(s), canon(s) == s,
{
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] s[i].key != #[trigger] s[j].key by { assert(rank(s[i].key) < rank(s[j].key)); }
    sorted_distinct(s); strict_unique(canon(s), s);
}
proof fn canon_len(s: KVs)
    requires canon(s).len() == s.len(),
    ensures distinct_keys(s), canon(s).to_multiset() == s.to_multiset(),
{
    broadcast use sort_of_sorts, group_to_multiset_ensures;
    let t = sort_of(s);
    dedup_strict(t);
    assert(t == canon(s));
    strict_distinct(t);
    assert(t.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { if i < j { assert(t[i].key != t[j].key); } else { assert(t[j].key != t[i].key); } } }
    t.lemma_multiset_has_no_duplicates();
    s.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] s[i].key != #[trigger] s[j].key by {
        if s[i].key == s[j].key {
            assert(s[i] != s[j]);
            assert(s.contains(s[i]) && s.contains(s[j]));
            assert(s.to_multiset().count(s[i]) > 0 && s.to_multiset().count(s[j]) > 0);
            assert(t.contains(s[i]) && t.contains(s[j]));
            let a = choose|a: int| 0 <= a < t.len() && t[a] == s[i];
            let b = choose|b: int| 0 <= b < t.len() && t[b] == s[j];
            if a < b { assert(t[a].key != t[b].key); } else { assert(t[b].key != t[a].key); }
        }
    }
}

//@fn opentelemetry-sdk/src/metrics/internal/mod.rs fn sort_and_dedup
//@ret r
//@subst attributes.to_vec() ~> copy_of(attributes)
//@subst sorted.sort_unstable_by(|a, b| $$e); ~> sort_by(&mut sorted, |a: &KeyValue, b: &KeyValue| -> (o: Ordering) ensures (o == Ordering::Less <==> rank(a.key) < rank(b.key)) && (o == Ordering::Greater <==> rank(a.key) > rank(b.key)) { $$e });
//@subst sorted.dedup_by(|a, b| a.key == b.key); ~> dedup_by(&mut sorted, |a: &KeyValue, b: &KeyValue| -> (o: bool) ensures o == (a.key == b.key) { same_key(&a.key, &b.key) });
//@contract
    ensures r@ == canon(attributes@),
//@endfn

spec fn overflow_set() -> KVs { seq![KeyValue { key: key_of("otel.metric.overflow"@), value: bool_value(true) }] }
//@fn opentelemetry-sdk/src/metrics/internal/mod.rs fn stream_overflow_attributes
//@closure ||
//@sig fn overflow_attributes() -> Vec<KeyValue>
//@ret r
//@contract
    ensures r@ =~= overflow_set(),
//@endfn
#[verifier::external_body] fn stream_overflow_attributes() -> (r: &'static Vec<KeyValue>) ensures r@ == overflow_set() { unimplemented!() }

// ---- the shared state
struct St {
    map: Map<KVs, int>,          // attributes as recorded or canonical -> tracker
    heap: Map<int, Seq<V>>,      // tracker -> values it was updated with
    noattr: Seq<V>, has_no: bool,
    count: nat,
}
spec fn keys(s: St) -> Set<KVs> { s.map.dom().filter(|k: KVs| strict(k)) }
spec fn inv(s: St, limit: nat) -> bool {
    &&& forall|k: KVs| #[trigger] s.map.dom().contains(k) ==> k.len() > 0 && distinct_keys(k) && s.heap.dom().contains(s.map[k])
            && s.map.dom().contains(canon(k)) && s.map[canon(k)] == s.map[k]
    &&& forall|k: KVs, l: KVs| s.map.dom().contains(k) && s.map.dom().contains(l) && #[trigger] s.map[k] == #[trigger] s.map[l] ==> canon(k) == canon(l)
    &&& s.count <= limit
    &&& keys(s).len() == s.count || (keys(s).len() == s.count + 1 && s.map.dom().contains(overflow_set()))
    &&& s.noattr.len() > 0 ==> s.has_no
}
/// the tracker a measurement with these (non-empty) attributes reaches, if it exists already
spec fn target(s: St, a: KVs, limit: nat) -> Option<int> {
    if s.map.dom().contains(canon(a)) { Some(s.map[canon(a)]) }
    else if s.count < limit { None }
    else if s.map.dom().contains(overflow_set()) { Some(s.map[overflow_set()]) }
    else { None }
}
spec fn series(s: St, a: KVs, limit: nat) -> KVs {
    if s.map.dom().contains(canon(a)) || s.count < limit { canon(a) } else { overflow_set() }
}
/// values recorded so far for the series named `c` (canonical; empty name = no attributes)
spec fn recorded(s: St, c: KVs) -> Seq<V> {
    if c.len() == 0 { s.noattr } else if s.map.dom().contains(c) { s.heap[s.map[c]] } else { Seq::empty() }
}
/// one measurement: its series gains exactly that value, every other series is as before
spec fn one_step(s: St, t: St, a: KVs, v: V, limit: nat) -> bool {
    let c = if a.len() == 0 { a } else { series(s, a, limit) };
    &&& recorded(t, c) == recorded(s, c).push(v)
    &&& forall|o: KVs| #[trigger] strict(o) && o != c ==> recorded(t, o) == recorded(s, o)
    &&& keys(t) == (if a.len() == 0 { keys(s) } else { keys(s).insert(c) })
    &&& a.len() == 0 ==> t.has_no
    &&& a.len() > 0 ==> t.has_no == s.has_no
}

spec fn pushed(s: St, id: int, v: V) -> St { St { heap: s.heap.insert(id, s.heap[id].push(v)), ..s } }
spec fn opened(s: St, m: Map<KVs, int>, n: nat, id: int, v: V) -> St {
    St { map: m, count: n, heap: s.heap.insert(id, Seq::empty()).insert(id, Seq::empty().push(v)), ..s }
}
proof fn step(s: St, a: KVs, v: V, limit: nat, id: int)
    ensures
        inv(s, limit) && a.len() > 0 ==> ({
            let c = canon(a);
            let known = (s.map.dom().contains(a) && s.map[a] == id) || (s.map.dom().contains(c) && s.map[c] == id);
            let over = !s.map.dom().contains(c) && s.count >= limit && s.map.dom().contains(overflow_set()) && s.map[overflow_set()] == id;
            let fresh = !s.map.dom().contains(c) && !s.heap.dom().contains(id);
            &&& known || over ==> s.heap.dom().contains(id) && inv(pushed(s, id, v), limit) && one_step(s, pushed(s, id, v), a, v, limit)
            &&& fresh && s.count < limit ==> ({
                let t = opened(s, s.map.insert(c, id), s.count + 1, id, v);
                &&& inv(t, limit) && one_step(s, t, a, v, limit)
                &&& c.len() == a.len() ==> ({
                    let t = opened(s, s.map.insert(a, id).insert(c, id), s.count + 1, id, v);
                    inv(t, limit) && one_step(s, t, a, v, limit)
                })
            })
            &&& fresh && s.count >= limit && !s.map.dom().contains(overflow_set()) ==> ({
                let t = opened(s, s.map.insert(overflow_set(), id), s.count, id, v);
                inv(t, limit) && one_step(s, t, a, v, limit)
            })
        }),
{
    if inv(s, limit) && a.len() > 0 {
        canon_strict(a); let c = canon(a); strict_distinct(c);
        let o = overflow_set();
        assert(strict(o)); strict_distinct(o);
        if s.map.dom().contains(a) { }
        assert forall|x: KVs| #[trigger] strict(x) implies distinct_keys(x) && canon(x) == x by { strict_distinct(x); }
        if s.map.dom().contains(c) { same_keys(s, c); }
        if s.map.dom().contains(o) { same_keys(s, o); }
        let t = pushed(s, id, v);
        assert(keys(t) =~= keys(s));
        if (s.map.dom().contains(c) && s.map[c] == id) { moved(s, t, c, id, v); }
        if (s.map.dom().contains(o) && s.map[o] == id) { moved(s, t, o, id, v); }
        if !s.map.dom().contains(c) && !s.heap.dom().contains(id) {
            let t = opened(s, s.map.insert(c, id), s.count + 1, id, v);
            assert(keys(t) =~= keys(s).insert(c));
            if c.len() == a.len() {
                canon_len(a);
                let t = opened(s, s.map.insert(a, id).insert(c, id), s.count + 1, id, v);
                assert(strict(a) ==> a == c);
                assert(keys(t) =~= keys(s).insert(c));
            }
            if !s.map.dom().contains(o) {
                let t = opened(s, s.map.insert(o, id), s.count, id, v);
                assert(keys(t) =~= keys(s).insert(o));
            }
        }
    }
}
proof fn same_keys(s: St, c: KVs) requires s.map.dom().contains(c), strict(c), ensures keys(s).insert(c) =~= keys(s) { }
proof fn moved(s: St, t: St, c: KVs, id: int, v: V)
    requires s.map.dom().contains(c), s.map[c] == id, strict(c), t == pushed(s, id, v), c.len() > 0,
        forall|k: KVs, l: KVs| s.map.dom().contains(k) && s.map.dom().contains(l) && #[trigger] s.map[k] == #[trigger] s.map[l] ==> canon(k) == canon(l),
    ensures recorded(t, c) == recorded(s, c).push(v), forall|o: KVs| #[trigger] strict(o) && o != c ==> recorded(t, o) == recorded(s, o),
{
    strict_distinct(c);
    assert forall|o: KVs| #[trigger] strict(o) && o != c implies recorded(t, o) == recorded(s, o) by {
        strict_distinct(o);
        if o.len() > 0 && s.map.dom().contains(o) { assert(s.map[o] != s.map[c]); }
    }
}

#[verifier::external_body] struct G { _p: u8 }
#[verifier::external_body] struct Trk { _p: u8 }
impl Trk {
    uninterp spec fn id(&self) -> int;
    #[verifier::external_body] fn clone(&self) -> (r: Trk) ensures r.id() == self.id() { unimplemented!() }
}
fn arc(t: Trk) -> (r: Trk) ensures r.id() == t.id() { t }

/// what a collection hands to its map function
struct Point { attrs: Vec<KeyValue>, log: Ghost<Seq<V>> }

struct ValueMap { st: Ghost<St>, spare: Ghost<Map<KVs, int>>, held: Ghost<int>, held_spare: Ghost<bool>, lin: Ghost<St>, count: usize, has_no: bool, cardinality_limit: usize }
#[verifier::external_body] struct Seen { _p: u8 }
impl Seen {
    uninterp spec fn v(&self) -> Set<int>;
    #[verifier::external_body] fn new() -> (r: Seen) ensures r.v() == Set::<int>::empty() { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, i: Ghost<int>) -> (r: bool) ensures final(self).v() == old(self).v().insert(i@), r == !old(self).v().contains(i@) { unimplemented!() }
}
impl ValueMap {
    spec fn limit(&self) -> nat { self.cardinality_limit as nat }
    spec fn agree(&self) -> bool { self.st@.count == self.count && self.st@.has_no == self.has_no }
    spec fn idle(&self) -> bool { self.agree() && inv(self.st@, self.limit()) && self.held@ == 0 && !self.held_spare@ && self.spare@ == Map::<KVs, int>::empty() }
    spec fn rest_same(&self, o: &ValueMap) -> bool { self.cardinality_limit == o.cardinality_limit && self.spare == o.spare && self.held_spare == o.held_spare }

    // RwLock::read / write on `trackers`: other threads may have run complete steps before the lock is granted
    // (measurements without attributes take no lock: they are taken to come before or after the whole call)
    #[verifier::external_body] fn read_lock(&mut self) -> (r: Result<G, ()>)
        requires old(self).held@ == 0, old(self).agree(), inv(old(self).st@, old(self).limit()),
        ensures r.is_ok(), final(self).held@ == 1, final(self).agree(), inv(final(self).st@, final(self).limit()), final(self).lin@ == final(self).st@, final(self).rest_same(old(self)),
            final(self).st@.noattr == old(self).st@.noattr, final(self).has_no == old(self).has_no,
    { unimplemented!() }
    #[verifier::external_body] fn write_lock(&mut self) -> (r: Result<G, ()>)
        requires old(self).held@ == 0, old(self).agree(), inv(old(self).st@, old(self).limit()),
        ensures r.is_ok(), final(self).held@ == 2, final(self).agree(), inv(final(self).st@, final(self).limit()), final(self).lin@ == final(self).st@, final(self).rest_same(old(self)),
            final(self).st@.noattr == old(self).st@.noattr, final(self).has_no == old(self).has_no,
    { unimplemented!() }
    // the second map's lock: only a collection takes it, and leaves the map empty
    #[verifier::external_body] fn spare_lock(&mut self) -> (r: Result<G, ()>)
        requires !old(self).held_spare@,
        ensures r.is_ok(), final(self).held_spare@, *final(self) == (ValueMap { held_spare: Ghost(true), ..*old(self) }),
    { unimplemented!() }
    #[verifier::external_body] fn unlock(&mut self, g: G)
        requires old(self).held@ != 0,
        ensures *final(self) == (ValueMap { held: Ghost(0int), ..*old(self) }),
    { unimplemented!() }
    #[verifier::external_body] fn lookup(&self, g: &G, k: &[KeyValue]) -> (r: Option<Trk>)
        requires self.held@ >= 1,
        ensures r.is_some() == self.st@.map.dom().contains(k@), r.is_some() ==> r->0.id() == self.st@.map[k@],
    { unimplemented!() }
    #[verifier::external_body] fn ins(&mut self, g: &G, k: Vec<KeyValue>, t: Trk)
        requires old(self).held@ == 2,
        ensures *final(self) == (ValueMap { st: Ghost(St { map: old(self).st@.map.insert(k@, t.id()), ..old(self).st@ }), ..*old(self) }),
    { unimplemented!() }
    #[verifier::external_body] fn create(&mut self) -> (r: Trk)
        ensures !old(self).st@.heap.dom().contains(r.id()),
            *final(self) == (ValueMap { st: Ghost(St { heap: old(self).st@.heap.insert(r.id(), Seq::empty()), ..old(self).st@ }), ..*old(self) }),
    { unimplemented!() }
    #[verifier::external_body] fn upd(&mut self, t: &Trk, v: V)
        requires old(self).st@.heap.dom().contains(t.id()), old(self).held@ >= 1,
        ensures *final(self) == (ValueMap { st: Ghost(St { heap: old(self).st@.heap.insert(t.id(), old(self).st@.heap[t.id()].push(v)), ..old(self).st@ }), ..*old(self) }),
    { unimplemented!() }
    #[verifier::external_body] fn upd_noattr(&mut self, v: V)
        ensures *final(self) == (ValueMap { st: Ghost(St { noattr: old(self).st@.noattr.push(v), ..old(self).st@ }), lin: old(self).st, ..*old(self) }),
    { unimplemented!() }
    #[verifier::external_body] fn set_has_no(&mut self, b: bool)
        ensures *final(self) == (ValueMap { st: Ghost(St { has_no: b, ..old(self).st@ }), has_no: b, ..*old(self) }),
    { unimplemented!() }
    #[verifier::external_body] fn swap_has_no(&mut self, b: bool) -> (r: bool)
        ensures r == old(self).has_no, *final(self) == (ValueMap { st: Ghost(St { has_no: b, ..old(self).st@ }), has_no: b, ..*old(self) }),
    { unimplemented!() }
    #[verifier::external_body] fn set_count(&mut self, n: usize)
        ensures *final(self) == (ValueMap { st: Ghost(St { count: n as nat, ..old(self).st@ }), count: n, ..*old(self) }),
    { unimplemented!() }
    #[verifier::external_body] fn swap_maps(&mut self)
        requires old(self).held@ == 2, old(self).held_spare@,
        ensures *final(self) == (ValueMap { st: Ghost(St { map: old(self).spare@, ..old(self).st@ }), spare: Ghost(old(self).st@.map), ..*old(self) }),
    { unimplemented!() }
    // every entry of a map exactly once, in some order
    #[verifier::external_body] fn entries(&self, g: &G) -> (r: Vec<(Vec<KeyValue>, Trk)>)
        requires self.held@ >= 1,
        ensures lists(r@, self.st@.map),
    { unimplemented!() }
    #[verifier::external_body] fn drain_spare(&mut self, g: &G) -> (r: Vec<(Vec<KeyValue>, Trk)>)
        requires old(self).held_spare@,
        ensures lists(r@, old(self).spare@), *final(self) == (ValueMap { spare: Ghost(Map::<KVs, int>::empty()), ..*old(self) }),
    { unimplemented!() }
    // reading a tracker (map_fn is handed a reference) / taking its contents and leaving it fresh
    #[verifier::external_body] fn peek(&self, attrs: Vec<KeyValue>, t: &Trk) -> (r: Point)
        ensures r.attrs == attrs, r.log@ == self.st@.heap[t.id()],
    { unimplemented!() }
    #[verifier::external_body] fn take(&mut self, attrs: Vec<KeyValue>, t: &Trk) -> (r: Point)
        ensures r.attrs == attrs, r.log@ == old(self).st@.heap[t.id()],
            *final(self) == (ValueMap { st: Ghost(St { heap: old(self).st@.heap.insert(t.id(), Seq::empty()), ..old(self).st@ }), ..*old(self) }),
    { unimplemented!() }
    #[verifier::external_body] fn peek_noattr(&self, attrs: Vec<KeyValue>) -> (r: Point)
        ensures r.attrs == attrs, r.log@ == self.st@.noattr,
    { unimplemented!() }
    #[verifier::external_body] fn take_noattr(&mut self, attrs: Vec<KeyValue>) -> (r: Point)
        ensures r.attrs == attrs, r.log@ == old(self).st@.noattr,
            *final(self) == (ValueMap { st: Ghost(St { noattr: Seq::empty(), ..old(self).st@ }), lin: old(self).st, ..*old(self) }),
    { unimplemented!() }

//@fn opentelemetry-sdk/src/metrics/internal/mod.rs impl ValueMap :: fn is_under_cardinality_limit
//@ret r
//@subst self.count.load($$o) ~> self.count
//@contract
    ensures r == (self.count < self.cardinality_limit),
//@endfn

//@fn opentelemetry-sdk/src/metrics/internal/mod.rs impl ValueMap :: fn measure
//@subst fn measure(&self, value: A::PreComputedValue, attributes: &[KeyValue]) ~> fn measure(&mut self, value: V, attributes: &[KeyValue])
//@subst self.no_attribute_tracker.update(value) ~> self.upd_noattr(value)
//@subst self.has_no_attribute_value.store($b, $$o) ~> self.set_has_no($b)
//@subst self.trackers.read() ~> self.read_lock()
//@subst self.trackers.write() ~> self.write_lock()
//@subst let Ok(mut trackers) ~> let Ok(trackers)
//@subst drop(trackers) ~> self.unlock(trackers)
//@subst trackers.get($$k) ~> self.lookup(&trackers, $$k)
//@subst A::create(&self.config) ~> self.create()
//@subst Arc::new($$t) ~> arc($$t)
//@subst $t.update(value) ~> { proof { step(self.lin@, attributes@, value, self.limit(), $t.id()); } self.upd(&$t, value); }
//@subst trackers.insert($$t) ~> self.ins(&trackers, $$t)
//@subst attributes.to_vec() ~> copy_of(attributes)
//@subst stream_overflow_attributes().clone() ~> copy_of(stream_overflow_attributes().as_slice())
//@subst self.count.fetch_add(1, $$o) ~> { let n = self.count + 1; self.set_count(n) }
//@contract
    requires old(self).idle(),
    ensures
        final(self).agree(), inv(final(self).st@, final(self).limit()), final(self).rest_same(old(self)),
        inv(final(self).lin@, final(self).limit()),
        one_step(final(self).lin@, final(self).st@, attributes@, value, final(self).limit()),
//@start
proof { assert forall|o: KVs| attributes@.len() == 0 && #[trigger] o.len() == 0 implies o == attributes@ by { assert(o =~= attributes@); } }
//@endfn

//@fn opentelemetry-sdk/src/metrics/internal/mod.rs impl ValueMap :: fn collect_readonly
//@sig fn collect_readonly(&mut self, dest: &mut Vec<Point>)
//@subst prepare_data(dest, self.count.load($$o)); ~> dest.clear();
//@subst self.has_no_attribute_value.load($$o) ~> self.has_no
//@subst map_fn(vec![], &self.no_attribute_tracker) ~> self.peek_noattr(vec![])
//@subst self.trackers.read() ~> self.read_lock()
//@subst HashSet::new() ~> Seen::new()
//@subst seen.insert(Arc::as_ptr(tracker)) ~> seen.insert(Ghost(tracker.id()))
//@subst map_fn(attrs.clone(), tracker) ~> self.peek(copy_of(attrs.as_slice()), tracker)
//@subst for (attrs, tracker) in trackers.iter() { $$b } ~> let es = self.entries(&trackers); let mut n: usize = 0; while n < es.len() { let attrs = &es[n].0; let tracker = &es[n].1; n = n + 1; $$b }
//@contract
    requires old(self).idle(),
    ensures
        final(self).st@ == final(self).lin@,
        inv(final(self).st@, final(self).limit()),
        final(self).cardinality_limit == old(self).cardinality_limit,
        reports(final(dest)@, old(self).has_no, old(self).st@.noattr, final(self).lin@),
//@loop 0
    invariant
        lists(es@, self.st@.map), n <= es@.len(),
        self.st@ == self.lin@, inv(self.st@, self.limit()), self.cardinality_limit == old(self).cardinality_limit,
        seen.v() == ids(es@, n as int),
        some_reports(dest@, es@, n as int, old(self).has_no, old(self).st@.noattr, self.lin@),
    decreases es@.len() - n,
//@inloop 0
    let ghost d0 = dest@;
//@endinloop 0
    proof {
        if dest@.len() > d0.len() { assert(dest@.drop_last() =~= d0); }
        grow(d0, dest@, es@, n - 1, old(self).has_no, old(self).st@.noattr, self.lin@, self.limit());
    }
//@end
proof { all_reported(dest@, es@, old(self).has_no, old(self).st@.noattr, self.lin@, self.limit()); }
//@endfn

//@fn opentelemetry-sdk/src/metrics/internal/mod.rs impl ValueMap :: fn collect_and_reset
//@sig fn collect_and_reset(&mut self, dest: &mut Vec<Point>)
//@subst prepare_data(dest, self.count.load($$o)); ~> dest.clear();
//@subst self.has_no_attribute_value.swap(false, $$o) ~> self.swap_has_no(false)
//@subst map_fn(vec![], self.no_attribute_tracker.clone_and_reset(&self.config),) ~> self.take_noattr(vec![])
//@subst self.trackers_for_collect().write() ~> self.spare_lock()
//@subst self.trackers.write() ~> self.write_lock()
//@subst let Ok(mut trackers_collect) ~> let Ok(trackers_collect)
//@subst let Ok(mut trackers_current) ~> let Ok(trackers_current)
//@subst swap(trackers_collect.deref_mut(), trackers_current.deref_mut()); ~> self.swap_maps();
//@subst self.count.store($n, $$o); ~> self.set_count($n); self.unlock(trackers_current);
//@subst HashSet::new() ~> Seen::new()
//@subst seen.insert(Arc::as_ptr(&tracker)) ~> seen.insert(Ghost(tracker.id()))
//@subst map_fn(attrs, tracker.clone_and_reset(&self.config)) ~> self.take(copy_of(attrs.as_slice()), tracker)
//@subst for (attrs, tracker) in trackers_collect.drain() { $$b } ~> let es = self.drain_spare(&trackers_collect); let mut n: usize = 0; while n < es.len() { let attrs = &es[n].0; let tracker = &es[n].1; n = n + 1; $$b }
//@contract
    requires old(self).idle(),
    ensures
        // nothing is left behind, and all that was there is handed out
        final(self).st@.map == Map::<KVs, int>::empty(), final(self).count == 0, !final(self).has_no, old(self).has_no ==> final(self).st@.noattr.len() == 0,
        final(self).spare@ == Map::<KVs, int>::empty(),
        final(self).agree(), inv(final(self).st@, final(self).limit()),
        final(self).cardinality_limit == old(self).cardinality_limit,
        inv(final(self).lin@, final(self).limit()),
        reports(final(dest)@, old(self).has_no, old(self).st@.noattr, final(self).lin@),
//@loop 0
    invariant
        lists(es@, self.lin@.map), n <= es@.len(),
        self.st@.map == Map::<KVs, int>::empty(), self.count == 0, !self.has_no, self.spare@ == Map::<KVs, int>::empty(), self.st@.noattr.len() == 0, es@.len() == es.len(),
        self.agree(), inv(self.lin@, self.limit()), self.cardinality_limit == old(self).cardinality_limit,
        forall|x: int| !ids(es@, n as int).contains(x) ==> #[trigger] self.st@.heap[x] == self.lin@.heap[x],
        seen.v() == ids(es@, n as int),
        some_reports(dest@, es@, n as int, old(self).has_no, old(self).st@.noattr, self.lin@),
    decreases es@.len() - n,
//@inloop 0
    let ghost d0 = dest@;
//@endinloop 0
    proof {
        if dest@.len() > d0.len() { assert(dest@.drop_last() =~= d0); }
        grow(d0, dest@, es@, n - 1, old(self).has_no, old(self).st@.noattr, self.lin@, self.limit());
    }
//@afterloop 0
    proof {
        all_reported(dest@, es@, old(self).has_no, old(self).st@.noattr, self.lin@, self.limit());
        assert(keys(self.st@) =~= Set::empty());
    }
//@endfn
}
spec fn ids(es: Seq<(Vec<KeyValue>, Trk)>, n: int) -> Set<int> decreases n { if n <= 0 { Set::empty() } else { ids(es, n - 1).insert(es[n - 1].1.id()) } }
proof fn ids_has(es: Seq<(Vec<KeyValue>, Trk)>, n: int, i: int)
    requires 0 <= i < n,
    ensures ids(es, n).contains(es[i].1.id()),
    decreases n
{ if i < n - 1 { ids_has(es, n - 1, i); } }
proof fn grow(d0: Seq<Point>, d: Seq<Point>, es: Seq<(Vec<KeyValue>, Trk)>, n: int, has_no: bool, noattr: Seq<V>, s: St, limit: nat)
    requires inv(s, limit), lists(es, s.map), some_reports(d0, es, n, has_no, noattr, s), 0 <= n < es.len(),
        ids(es, n).contains(es[n].1.id()) ==> d == d0,
        !ids(es, n).contains(es[n].1.id()) ==> d.len() == d0.len() + 1 && d.drop_last() == d0 && d.last().attrs@ == es[n].0@ && d.last().log@ == s.heap[es[n].1.id()],
    ensures some_reports(d, es, n + 1, has_no, noattr, s),
{
    let x = es[n].1.id();
    assert(ids(es, n + 1) == ids(es, n).insert(x));
    if ids(es, n).contains(x) {
        assert(ids(es, n + 1) =~= ids(es, n));
    } else {
        let k = es[n].0@;
        assert(s.map.dom().contains(k) && s.map[k] == x);
        canon_strict(k);
        assert(forall|i: int| 0 <= i < d0.len() ==> d[i] == d0[i]) by { assert(forall|i: int| 0 <= i < d0.len() ==> d.drop_last()[i] == d[i]); }
        assert(good_point(d[d.len() - 1], s));
        assert forall|y: int| #[trigger] ids(es, n + 1).contains(y) implies exists|i: int| off(has_no) <= i < d.len() && s.map[(#[trigger] d[i]).attrs@] == y by {
            if y != x {
                let i = choose|i: int| off(has_no) <= i < d0.len() && s.map[(#[trigger] d0[i]).attrs@] == y;
                assert(s.map[d[i].attrs@] == y);
            } else { assert(s.map[d[d.len() - 1].attrs@] == x); }
        }
        assert forall|i: int| off(has_no) <= i < d.len() implies good_point(#[trigger] d[i], s) && ids(es, n + 1).contains(s.map[d[i].attrs@]) by {
            if i < d0.len() { assert(good_point(d0[i], s)); }
        }
        assert forall|i: int, j: int| off(has_no) <= i < j < d.len() implies s.map[(#[trigger] d[i]).attrs@] != s.map[(#[trigger] d[j]).attrs@] by {
            if j < d0.len() { assert(s.map[d0[i].attrs@] != s.map[d0[j].attrs@]); } else { assert(ids(es, n).contains(s.map[d0[i].attrs@])); }
        }
    }
}
proof fn all_reported(d: Seq<Point>, es: Seq<(Vec<KeyValue>, Trk)>, has_no: bool, noattr: Seq<V>, s: St, limit: nat)
    requires inv(s, limit), lists(es, s.map), some_reports(d, es, es.len() as int, has_no, noattr, s),
    ensures reports(d, has_no, noattr, s),
{
    assert forall|i: int, j: int| off(has_no) <= i < j < d.len() implies canon((#[trigger] d[i]).attrs@) != canon((#[trigger] d[j]).attrs@) by {
        assert(s.map[d[i].attrs@] != s.map[d[j].attrs@]);
        assert(good_point(d[i], s) && good_point(d[j], s));
    }
    assert forall|k: KVs| #[trigger] keys(s).contains(k) implies exists|i: int| off(has_no) <= i < d.len() && canon((#[trigger] d[i]).attrs@) == k by {
        assert(s.map.dom().contains(k));
        let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0@ == k;
        ids_has(es, es.len() as int, i);
        let j = choose|j: int| off(has_no) <= j < d.len() && s.map[(#[trigger] d[j]).attrs@] == s.map[k];
        assert(good_point(d[j], s));
        strict_distinct(k);
    }
}
spec fn good_point(p: Point, s: St) -> bool {
    s.map.dom().contains(p.attrs@) && distinct_keys(p.attrs@) && p.attrs@.len() > 0 && p.log@ == recorded(s, canon(p.attrs@))
}
spec fn off(has_no: bool) -> int { if has_no { 1 } else { 0 } }
/// the data points of one collection: one for each series, carrying all that was recorded for it
spec fn reports(d: Seq<Point>, has_no: bool, noattr: Seq<V>, s: St) -> bool {
    &&& has_no ==> d.len() > 0 && d[0].attrs@.len() == 0 && d[0].log@ == noattr
    &&& forall|i: int| off(has_no) <= i < d.len() ==> good_point(#[trigger] d[i], s)
    &&& forall|i: int, j: int| off(has_no) <= i < j < d.len() ==> canon((#[trigger] d[i]).attrs@) != canon((#[trigger] d[j]).attrs@)
    &&& forall|k: KVs| #[trigger] keys(s).contains(k) ==> exists|i: int| off(has_no) <= i < d.len() && canon((#[trigger] d[i]).attrs@) == k
}
spec fn some_reports(d: Seq<Point>, es: Seq<(Vec<KeyValue>, Trk)>, n: int, has_no: bool, noattr: Seq<V>, s: St) -> bool {
    &&& has_no ==> d.len() > 0 && d[0].attrs@.len() == 0 && d[0].log@ == noattr
    &&& d.len() >= off(has_no)
    &&& forall|i: int| off(has_no) <= i < d.len() ==> good_point(#[trigger] d[i], s) && ids(es, n).contains(s.map[d[i].attrs@])
    &&& forall|i: int, j: int| off(has_no) <= i < j < d.len() ==> s.map[(#[trigger] d[i]).attrs@] != s.map[(#[trigger] d[j]).attrs@]
    &&& forall|x: int| #[trigger] ids(es, n).contains(x) ==> exists|i: int| off(has_no) <= i < d.len() && s.map[(#[trigger] d[i]).attrs@] == x
}
spec fn lists(es: Seq<(Vec<KeyValue>, Trk)>, m: Map<KVs, int>) -> bool {
    &&& forall|i: int| 0 <= i < es.len() ==> m.dom().contains((#[trigger] es[i]).0@) && m[es[i].0@] == es[i].1.id()
    &&& forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).0@ != (#[trigger] es[j]).0@
    &&& forall|k: KVs| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0@ == k
}

} // verus!
fn main() {}

// Unit: what the aggregations make of the measurements of a series (opentelemetry-sdk/src/metrics/internal/*.rs):
// sums add, gauges keep the last, explicit histograms count into the right bucket; and what the data points then say.
// Numbers (i64, u64, f64) are opaque: `plus`, `minus`, `less` are the type's own operations.
use vstd::prelude::*;
verus! {

#[verifier::external_body] #[derive(Clone, Copy)] struct Num { _p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct F { _p: u8 }
uninterp spec fn plus(a: Num, b: Num) -> Num;
uninterp spec fn minus(a: Num, b: Num) -> Num;
uninterp spec fn less(a: Num, b: Num) -> bool;
uninterp spec fn zero() -> Num;
uninterp spec fn max_num() -> Num;
uninterp spec fn min_num() -> Num;
uninterp spec fn float(a: Num) -> F;
uninterp spec fn flt(a: F, b: F) -> bool;
uninterp spec fn nan(a: F) -> bool;
uninterp spec fn fplus(a: F, b: F) -> F;
uninterp spec fn bits(a: F) -> u64;
uninterp spec fn of_bits(a: u64) -> F;
uninterp spec fn fzero() -> F;
#[verifier::external_body] fn num_add(a: Num, b: Num) -> (r: Num) ensures r == plus(a, b) { unimplemented!() }
#[verifier::external_body] fn num_sub(a: Num, b: Num) -> (r: Num) ensures r == minus(a, b) { unimplemented!() }
#[verifier::external_body] fn num_lt(a: &Num, b: &Num) -> (r: bool) ensures r == less(*a, *b) { unimplemented!() }
#[verifier::external_body] fn num_zero() -> (r: Num) ensures r == zero() { unimplemented!() }
#[verifier::external_body] fn num_max() -> (r: Num) ensures r == max_num() { unimplemented!() }
#[verifier::external_body] fn num_min() -> (r: Num) ensures r == min_num() { unimplemented!() }
#[verifier::external_body] fn f_lt(a: F, b: F) -> (r: bool) ensures r == flt(a, b) { unimplemented!() }
#[verifier::external_body] fn f_add(a: F, b: F) -> (r: F) ensures r == fplus(a, b) { unimplemented!() }
#[verifier::external_body] fn to_bits(a: F) -> (r: u64) ensures r == bits(a), of_bits(r) == a { unimplemented!() }
#[verifier::external_body] fn from_bits(a: u64) -> (r: F) ensures r == of_bits(a) { unimplemented!() }
#[verifier::external_body] fn f_zero() -> (r: F) ensures r == fzero() { unimplemented!() }
impl Num { #[verifier::external_body] fn into_float(self) -> (r: F) ensures r == float(self) { unimplemented!() } }
impl F { #[verifier::external_body] fn is_nan(&self) -> (r: bool) ensures r == nan(*self) { unimplemented!() } }
// the order of floats that are not NaN
#[verifier::external_body] broadcast proof fn flt_trans(a: F, b: F, c: F)
    ensures #![trigger flt(a, b), flt(b, c)] flt(a, b) && flt(b, c) ==> flt(a, c) { }
spec fn fle(a: F, b: F) -> bool { !flt(b, a) }
#[verifier::external_body] broadcast proof fn fle_lt(a: F, b: F, c: F)
    ensures #![trigger fle(a, b), flt(b, c)] !nan(a) && !nan(b) && fle(a, b) && flt(b, c) ==> flt(a, c) { }

#[verifier::external_body] struct KeyValue { _p: u8 }
#[verifier::external_body] struct Exemplar { _p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct SystemTime { _p: u8 }
type KVs = Seq<KeyValue>;
#[verifier::external_body] fn copy_of<T>(s: &Vec<T>) -> (r: Vec<T>) ensures r@ == s@ { unimplemented!() }
uninterp spec fn canon(s: KVs) -> KVs;
#[verifier::external_body] fn sort_and_dedup(s: &Vec<KeyValue>) -> (r: Vec<KeyValue>) ensures r@ == canon(s@) { unimplemented!() }   // value_map.rs
#[verifier::external_body] fn now() -> SystemTime { unimplemented!() }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@item opentelemetry-sdk/src/metrics/mod.rs enum Temporality

// ---- atomic cells ----
/// an atomic integer: `pre` is the value found by the last read-modify-write (other threads may have written before it)
struct AtomicU64 { v: u64, pre: Ghost<u64> }
struct AtomicI64 { v: i64, pre: Ghost<i64> }
struct Relaxed {}
spec fn wrap_u(a: u64, b: u64) -> u64 { ((a + b) % 0x1_0000_0000_0000_0000) as u64 }
spec fn wrap_i(a: i64, b: i64) -> i64 { if a + b > i64::MAX { (a + b - 0x1_0000_0000_0000_0000) as i64 } else if a + b < i64::MIN { (a + b + 0x1_0000_0000_0000_0000) as i64 } else { (a + b) as i64 } }
impl AtomicU64 {
    #[verifier::external_body] fn put(&mut self, x: u64) ensures final(self).v == x { unimplemented!() }
    #[verifier::external_body] fn fetch_add(&mut self, x: u64) -> (r: u64) ensures r == final(self).pre@, final(self).v == wrap_u(final(self).pre@, x) { unimplemented!() }
    #[verifier::external_body] fn load(&mut self) -> (r: u64) ensures r == final(self).v { unimplemented!() }
    #[verifier::external_body] fn swap(&mut self, x: u64) -> (r: u64) ensures r == final(self).pre@, final(self).v == x { unimplemented!() }
    #[verifier::external_body] fn compare_exchange(&mut self, cur: u64, new: u64) -> (r: Result<u64, u64>)
        ensures final(self).pre@ == cur <==> r.is_ok(), r.is_ok() ==> final(self).v == new && r->Ok_0 == cur,
            r.is_err() ==> final(self).v == final(self).pre@ && r->Err_0 == final(self).v,
    { unimplemented!() }
}
impl AtomicI64 {
    #[verifier::external_body] fn put(&mut self, x: i64) ensures final(self).v == x { unimplemented!() }
    #[verifier::external_body] fn fetch_add(&mut self, x: i64) -> (r: i64) ensures r == final(self).pre@, final(self).v == wrap_i(final(self).pre@, x) { unimplemented!() }
    #[verifier::external_body] fn load(&mut self) -> (r: i64) ensures r == final(self).v { unimplemented!() }
    #[verifier::external_body] fn swap(&mut self, x: i64) -> (r: i64) ensures r == final(self).pre@, final(self).v == x { unimplemented!() }
}
//@gsubst self.store($v, Ordering::Relaxed) ~> self.put($v)
//@gsubst self.load(Ordering::Relaxed) ~> self.load()
//@gsubst self.fetch_add($v, Ordering::Relaxed) ~> self.fetch_add($v)
//@gsubst self.swap($v, Ordering::Relaxed) ~> self.swap($v)
//@gsubst self.inner.store($v, Ordering::Relaxed) ~> self.inner.put($v)
//@gsubst self.inner.load(Ordering::Relaxed) ~> self.inner.load()
//@gsubst self.inner.swap($v, Ordering::Relaxed) ~> self.inner.swap($v)
//@gsubst $x.to_bits() ~> to_bits($x)
//@gsubst 0.0_f64 ~> f_zero()
//@gsubst f64::from_bits($x) ~> from_bits($x)
impl AtomicU64 {
//@fn opentelemetry-sdk/src/metrics/internal/mod.rs impl AtomicTracker<u64> for AtomicU64 :: fn store
//@sig fn u_store(&mut self, value: u64)
//@contract
    ensures final(self).v == value,
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/mod.rs impl AtomicTracker<u64> for AtomicU64 :: fn add
//@sig fn u_add(&mut self, value: u64)
//@contract
    ensures final(self).v == wrap_u(final(self).pre@, value),
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/mod.rs impl AtomicTracker<u64> for AtomicU64 :: fn get_value
//@sig fn u_get(&mut self) -> (r: u64)
//@contract
    ensures r == final(self).v,
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/mod.rs impl AtomicTracker<u64> for AtomicU64 :: fn get_and_reset_value
//@sig fn u_reset(&mut self) -> (r: u64)
//@contract
    ensures r == final(self).pre@, final(self).v == 0,
//@endfn
}
impl AtomicI64 {
//@fn opentelemetry-sdk/src/metrics/internal/mod.rs impl AtomicTracker<i64> for AtomicI64 :: fn store
//@sig fn i_store(&mut self, value: i64)
//@contract
    ensures final(self).v == value,
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/mod.rs impl AtomicTracker<i64> for AtomicI64 :: fn add
//@sig fn i_add(&mut self, value: i64)
//@contract
    ensures final(self).v == wrap_i(final(self).pre@, value),
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/mod.rs impl AtomicTracker<i64> for AtomicI64 :: fn get_value
//@sig fn i_get(&mut self) -> (r: i64)
//@contract
    ensures r == final(self).v,
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/mod.rs impl AtomicTracker<i64> for AtomicI64 :: fn get_and_reset_value
//@sig fn i_reset(&mut self) -> (r: i64)
//@contract
    ensures r == final(self).pre@, final(self).v == 0,
//@endfn
}
struct F64AtomicTracker { inner: AtomicU64 }
impl F64AtomicTracker {
    spec fn val(&self) -> F { of_bits(self.inner.v) }
    spec fn before(&self) -> F { of_bits(self.inner.pre@) }
//@fn opentelemetry-sdk/src/metrics/internal/mod.rs impl AtomicTracker<f64> for F64AtomicTracker :: fn store
//@sig fn f_store(&mut self, value: F)
//@contract
    ensures final(self).val() == value,
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/mod.rs impl AtomicTracker<f64> for F64AtomicTracker :: fn add
//@sig #[verifier::exec_allows_no_decreases_clause] fn f_add(&mut self, value: F)
//@subst current_value + value ~> f_add(current_value, value)
//@subst self.inner.compare_exchange($a, $b, Ordering::Relaxed, Ordering::Relaxed,) ~> self.inner.compare_exchange($a, $b)
//@contract
    ensures final(self).val() == fplus(final(self).before(), value),
//@loop 0
    invariant true,
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/mod.rs impl AtomicTracker<f64> for F64AtomicTracker :: fn get_value
//@sig fn f_get(&mut self) -> (r: F)
//@contract
    ensures r == final(self).val(),
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/mod.rs impl AtomicTracker<f64> for F64AtomicTracker :: fn get_and_reset_value
//@sig fn f_reset(&mut self) -> (r: F)
//@contract
    ensures r == final(self).before(), final(self).val() == fzero(),
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/mod.rs impl F64AtomicTracker :: fn new
//@sig fn f_new(init: F) -> (r: F64AtomicTracker)
//@subst AtomicU64::new($x) ~> AtomicU64 { v: $x, pre: Ghost(0u64) }
//@contract
    ensures r.val() == init,
//@endfn
}

// ---- sums and last values ----
/// T::AtomicTracker with the contracts just proved
struct Cell { v: Num, pre: Ghost<Num> }
impl Cell {
    #[verifier::external_body] fn add(&mut self, x: Num) ensures final(self).v == plus(final(self).pre@, x) { unimplemented!() }
    #[verifier::external_body] fn store(&mut self, x: Num) ensures final(self).v == x { unimplemented!() }
    #[verifier::external_body] fn get_value(&self) -> (r: Num) ensures r == self.v { unimplemented!() }
    #[verifier::external_body] fn get_and_reset_value(&mut self) -> (r: Num) ensures r == final(self).pre@, final(self).v == zero() { unimplemented!() }
}
#[verifier::external_body] fn new_atomic_tracker(x: Num) -> (r: Cell) ensures r.v == x { unimplemented!() }
//@gsubst T::new_atomic_tracker ~> new_atomic_tracker
//@gsubst T::default() ~> num_zero()
struct Increment { value: Cell }
impl Increment {
//@fn opentelemetry-sdk/src/metrics/internal/sum.rs impl Aggregator for Increment :: fn create
//@sig fn create(_init: &()) -> (r: Self)
//@contract
    ensures r.value.v == zero(),
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/sum.rs impl Aggregator for Increment :: fn update
//@sig fn update(&mut self, value: Num)
//@contract
    ensures final(self).value.v == plus(final(self).value.pre@, value),
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/sum.rs impl Aggregator for Increment :: fn clone_and_reset
//@sig fn clone_and_reset(&mut self, _x: &()) -> (r: Self)
//@contract
    ensures r.value.v == final(self).value.pre@, final(self).value.v == zero(),
//@endfn
}
struct Assign { value: Cell }
impl Assign {
//@fn opentelemetry-sdk/src/metrics/internal/last_value.rs impl Aggregator for Assign :: fn create
//@sig fn create(_init: &()) -> (r: Self)
//@contract
    ensures r.value.v == zero(),
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/last_value.rs impl Aggregator for Assign :: fn update
//@sig fn update(&mut self, value: Num)
//@contract
    ensures final(self).value.v == value,
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/last_value.rs impl Aggregator for Assign :: fn clone_and_reset
//@sig fn clone_and_reset(&mut self, _x: &()) -> (r: Self)
//@contract
    ensures r.value.v == final(self).value.pre@, final(self).value.v == zero(),
//@endfn
}
/// after any number of updates a sum holds the sum of the values, a gauge the last one
spec fn total(log: Seq<Num>) -> Num decreases log.len() { if log.len() == 0 { zero() } else { plus(total(log.drop_last()), log.last()) } }
proof fn a_sum_is_its_log(log: Seq<Num>, v: Num) ensures total(log.push(v)) == plus(total(log), v), total(Seq::empty()) == zero() { assert(log.push(v).drop_last() =~= log); }

// ---- times ----
struct AggregateTime { start: SystemTime, current: SystemTime }
struct AggregateTimeInitiator(SystemTime);
#[verifier::external_body] fn swap_time(c: &mut SystemTime, n: SystemTime) -> (r: SystemTime) ensures r == *old(c), *final(c) == n { unimplemented!() }
impl AggregateTimeInitiator {
//@fn opentelemetry-sdk/src/metrics/internal/aggregate.rs impl AggregateTimeInitiator :: fn delta
//@sig fn delta(&mut self) -> (r: AggregateTime)
//@subst self.0.lock().map(|mut start| replace(start.deref_mut(), $n)).unwrap_or($n) ~> swap_time(&mut self.0, $n)
//@contract
    ensures r.start == old(self).0, final(self).0 == r.current,     // a delta interval starts where the last one ended
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/aggregate.rs impl AggregateTimeInitiator :: fn cumulative
//@sig fn cumulative(&mut self) -> (r: AggregateTime)
//@subst self.0.lock().map(|start| *start).unwrap_or($n) ~> self.0
//@contract
    ensures r.start == old(self).0, *final(self) == *old(self),     // a cumulative interval always starts at the beginning
//@endfn
}

// ---- attribute filter of a view ----
#[verifier::external_body] struct Filter { _p: u8 }
uninterp spec fn passes(f: Filter, kv: KeyValue) -> bool;
impl Filter { #[verifier::external_body] fn allows(&self, kv: &KeyValue) -> (r: bool) ensures r == passes(*self, *kv) { unimplemented!() } }
spec fn kept(f: Filter, s: KVs) -> KVs { s.filter(|kv: KeyValue| passes(f, kv)) }
#[verifier::external_body] fn keep<P: Fn(&KeyValue) -> bool>(f: Ghost<Filter>, s: &[KeyValue], p: P) -> (r: Vec<KeyValue>)
    requires forall|kv: &KeyValue| #[trigger] p.requires((kv,)), forall|kv: &KeyValue, q: bool| #[trigger] p.ensures((kv,), q) ==> q == passes(f@, *kv),
    ensures r@ == kept(f@, s@),
{ unimplemented!() }
struct AttributeSetFilter { filter: Option<Filter> }
impl AttributeSetFilter {
    spec fn out(&self, s: KVs) -> KVs { match self.filter { Some(f) => kept(f, s), None => s } }
//@fn opentelemetry-sdk/src/metrics/internal/aggregate.rs impl AttributeSetFilter :: fn apply
//@sig fn apply(&self, attrs: &[KeyValue], run: &mut Runs)
//@subst attrs.iter().filter(|kv| $$p).cloned().collect() ~> keep(Ghost(*filter), attrs, |kv: &KeyValue| -> (q: bool) ensures q == passes(*filter, *kv) { $$p })
//@subst filter(kv) ~> filter.allows(kv)
//@subst run($$e) ~> run.run($$e)
//@contract
    ensures final(run).g@ == old(run).g@.push(self.out(attrs@)),
//@endfn
}
struct Runs { g: Ghost<Seq<KVs>> }
impl Runs { #[verifier::external_body] fn run(&mut self, s: &[KeyValue]) ensures final(self).g@ == old(self).g@.push(s@) { unimplemented!() } }

// ---- explicit bucket histogram ----
struct Buckets { counts: Vec<u64>, count: u64, total: Num, min: Num, max: Num }
spec fn sum_u(s: Seq<u64>) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum_u(s.drop_last()) + s.last() } }
proof fn sum_u_inc(s: Seq<u64>, i: int)
    requires 0 <= i < s.len(), s[i] < u64::MAX,
    ensures sum_u(s.update(i, (s[i] + 1) as u64)) == sum_u(s) + 1,
    decreases s.len()
{
    let t = s.update(i, (s[i] + 1) as u64);
    if i == s.len() - 1 { assert(t.drop_last() =~= s.drop_last()); }
    else { assert(t.drop_last() =~= s.drop_last().update(i, (s[i] + 1) as u64)); sum_u_inc(s.drop_last(), i); }
}
proof fn sum_u_zero(s: Seq<u64>) requires forall|i: int| 0 <= i < s.len() ==> s[i] == 0, ensures sum_u(s) == 0, decreases s.len() { if s.len() > 0 { sum_u_zero(s.drop_last()); } }
proof fn sum_u_le(s: Seq<u64>, i: int) requires 0 <= i < s.len(), ensures s[i] <= sum_u(s), sum_u(s) >= 0, decreases s.len()
{ sum_u_nonneg(s.drop_last()); if i < s.len() - 1 { sum_u_le(s.drop_last(), i); } }
proof fn sum_u_nonneg(s: Seq<u64>) ensures sum_u(s) >= 0, decreases s.len() { if s.len() > 0 { sum_u_nonneg(s.drop_last()); } }
#[verifier::external_body] fn zeros(n: usize) -> (r: Vec<u64>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == 0 { unimplemented!() }
impl Buckets {
    /// every measurement is counted in exactly one bucket
    spec fn wf(&self) -> bool { self.count == sum_u(self.counts@) }
    spec fn fresh(&self, n: nat) -> bool {
        self.counts@.len() == n && self.count == 0 && (forall|i: int| 0 <= i < n ==> self.counts@[i] == 0) && self.total == zero() && self.min == max_num() && self.max == min_num()
    }
//@fn opentelemetry-sdk/src/metrics/internal/histogram.rs impl Buckets :: fn new
//@sig fn new(n: usize) -> (r: Buckets)
//@subst vec![0; n] ~> zeros(n)
//@subst T::max() ~> num_max()
//@subst T::min() ~> num_min()
//@subst ..Default::default() ~> count: 0, total: num_zero()
//@contract
    ensures r.fresh(n as nat),
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/histogram.rs impl Aggregator for Mutex<Buckets<T>> :: fn update
//@sig fn update(buckets: &mut Buckets, value: Num, index: usize)
//@subst let mut buckets = self.lock().unwrap_or_else($$e); ~>
//@subst buckets.total += value; ~> buckets.total = num_add(buckets.total, value);
//@subst value < buckets.min ~> num_lt(&value, &buckets.min)
//@subst value > buckets.max ~> num_lt(&buckets.max, &value)
//@subst buckets.counts[index] += 1; ~> let c = buckets.counts[index] + 1; buckets.counts.set(index, c);
//@contract
    requires old(buckets).wf(), index < old(buckets).counts@.len(), old(buckets).count < u64::MAX,
    ensures
        final(buckets).wf(),
        final(buckets).count == old(buckets).count + 1,
        final(buckets).counts@ == old(buckets).counts@.update(index as int, (old(buckets).counts@[index as int] + 1) as u64),
        final(buckets).total == plus(old(buckets).total, value),
        final(buckets).min == (if less(value, old(buckets).min) { value } else { old(buckets).min }),
        final(buckets).max == (if less(old(buckets).max, value) { value } else { old(buckets).max }),
//@start
    proof { sum_u_le(buckets.counts@, index as int); sum_u_inc(buckets.counts@, index as int); }
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/histogram.rs impl Aggregator for Mutex<Buckets<T>> :: fn clone_and_reset
//@sig fn clone_and_reset(current: &mut Buckets, count: &usize) -> (r: Buckets)
//@subst let mut current = self.lock().unwrap_or_else($$e); ~>
//@subst Mutex::new(replace(current.deref_mut(), $$b)) ~> swap_buckets(current, $$b)
//@contract
    ensures r == *old(current), final(current).fresh(*count as nat),
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/histogram.rs impl Aggregator for Mutex<Buckets<T>> :: fn create
//@sig fn create(count: &usize) -> (r: Buckets)
//@subst Mutex::new($$b) ~> $$b
//@subst Buckets::<T>::new ~> Buckets::new
//@contract
    ensures r.fresh(*count as nat),
//@endfn
}
proof fn fresh_is_wf(b: Buckets, n: nat) requires b.fresh(n), ensures b.wf() { sum_u_zero(b.counts@); }
#[verifier::external_body] fn swap_buckets(c: &mut Buckets, n: Buckets) -> (r: Buckets) ensures r == *old(c), *final(c) == n { unimplemented!() }

spec fn bounds_ok(b: Seq<F>) -> bool {
    &&& forall|i: int| 0 <= i < b.len() ==> !nan(#[trigger] b[i])
    &&& forall|i: int, j: int| 0 <= i < j < b.len() ==> fle(#[trigger] b[i], #[trigger] b[j])
}
/// index of the bucket (lower, upper] that v belongs to
spec fn bucket(b: Seq<F>, v: F, i: int) -> bool {
    &&& 0 <= i <= b.len()
    &&& i > 0 ==> flt(b[i - 1], v)
    &&& i < b.len() ==> !flt(b[i], v)
}
#[verifier::external_body] fn partition_point<P: Fn(&F) -> bool>(s: &Vec<F>, g: Ghost<spec_fn(F) -> bool>, p: P) -> (r: usize)
    requires
        forall|x: &F| #[trigger] p.requires((x,)), forall|x: &F, q: bool| #[trigger] p.ensures((x,), q) ==> q == g@(*x),
        forall|i: int, j: int| 0 <= i < j < s@.len() && g@(#[trigger] s@[j]) ==> g@(#[trigger] s@[i]),
    ensures r <= s@.len(), forall|i: int| 0 <= i < r ==> g@(#[trigger] s@[i]), forall|i: int| r <= i < s@.len() ==> !g@(#[trigger] s@[i]),
{ unimplemented!() }
// Vec::retain / sort_by of floats
#[verifier::external_body] fn drop_nans<P: Fn(&F) -> bool>(v: &mut Vec<F>, p: P)
    requires forall|x: &F| #[trigger] p.requires((x,)), forall|x: &F, q: bool| #[trigger] p.ensures((x,), q) ==> q == !nan(*x),
    ensures final(v)@ == old(v)@.filter(|x: F| !nan(x)), final(v)@.len() <= old(v)@.len(), forall|i: int| 0 <= i < final(v)@.len() ==> !nan(#[trigger] final(v)@[i]),
{ unimplemented!() }
#[verifier::external_body] fn sort_floats(v: &mut Vec<F>)
    requires forall|i: int| 0 <= i < old(v)@.len() ==> !nan(#[trigger] old(v)@[i]),
    ensures bounds_ok(final(v)@), final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(),
{ unimplemented!() }
/// the value map with its configuration: a collection's points, reset or not (value_map.rs)
struct Vm { config: usize, limit: usize, got: Ghost<Option<(usize, usize, KVs)>> }
impl Vm {
    fn new(config: usize, limit: usize) -> (r: Vm) ensures r.config == config, r.limit == limit { Vm { config, limit, got: Ghost(None) } }
}
struct Histogram { value_map: Vm, init_time: AggregateTimeInitiator, temporality: Temporality, filter: AttributeSetFilter, bounds: Vec<F>, record_min_max: bool, record_sum: bool }
#[verifier::external_body] fn start_now() -> AggregateTimeInitiator { unimplemented!() }
struct Meas { g: Ghost<Seq<(Num, usize, KVs)>> }
#[verifier::external_body] fn filtered_measure(f: &AttributeSetFilter, m: &mut Meas, v: (Num, usize), attrs: &[KeyValue])
    ensures final(m).g@ == old(m).g@.push((v.0, v.1, f.out(attrs@))) { unimplemented!() }
impl Histogram {
    spec fn wf(&self) -> bool { bounds_ok(self.bounds@) && self.value_map.config == self.bounds@.len() + 1 }
//@fn opentelemetry-sdk/src/metrics/internal/histogram.rs impl Histogram :: fn new
//@sig fn new(temporality: Temporality, filter: AttributeSetFilter, bounds: Vec<F>, record_min_max: bool, record_sum: bool, cardinality_limit: usize) -> (r: Histogram)
//@subst bounds.retain(|v| $$e); ~> drop_nans(&mut bounds, |v: &F| -> (q: bool) ensures q == !nan(*v) { $$e });
//@subst bounds.sort_by(|a, b| a.partial_cmp(b).expect($$m)); ~> sort_floats(&mut bounds);
//@subst ValueMap::new ~> Vm::new
//@subst AggregateTimeInitiator::default() ~> start_now()
//@contract
    requires bounds@.len() < usize::MAX,
    ensures r.wf(), r.temporality == temporality, r.filter == filter, r.record_min_max == record_min_max, r.record_sum == record_sum,
        r.value_map.limit == cardinality_limit, r.bounds@.to_multiset() == bounds@.filter(|x: F| !nan(x)).to_multiset(),
//@start
    let mut bounds = bounds;
    let ghost b0 = bounds@;
//@endfn

//@fn opentelemetry-sdk/src/metrics/internal/histogram.rs impl Measure<T> for Histogram :: fn call
//@sig fn call(&self, measurement: Num, attrs: &[KeyValue], m: &mut Meas)
//@subst self.bounds.partition_point(|&x| $$p) ~> partition_point(&self.bounds, Ghost(|x: F| flt(x, float(measurement))), |x: &F| -> (q: bool) ensures q == flt(*x, float(measurement)) { let x = *x; $$p })
//@subst x < f ~> f_lt(x, f)
//@subst self.filter.apply(attrs, |filtered| { self.value_map.measure($$v, filtered); }) ~> filtered_measure(&self.filter, m, $$v, attrs)
//@contract
    requires self.wf(),
    ensures ({
        let n = final(m).g@.last();
        &&& final(m).g@ == old(m).g@.push(n)
        &&& n.0 == measurement && n.2 == self.filter.out(attrs@)
        &&& n.1 < self.value_map.config && bucket(self.bounds@, float(measurement), n.1 as int)
    }),
//@start
    proof { broadcast use fle_lt; }
//@endfn

//@fn opentelemetry-sdk/src/metrics/internal/histogram.rs impl Histogram :: fn delta
//@closure |attributes, aggr|
//@sig fn delta_point(&self, attributes: Vec<KeyValue>, b: Buckets) -> (r: HistogramDataPoint)
//@subst let b = aggr.into_inner().unwrap_or_else($$e); ~>
//@subst self.bounds.clone() ~> copy_of(&self.bounds)
//@contract
    ensures says(r, b, *self), r.attributes == attributes,
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/histogram.rs impl Histogram :: fn cumulative
//@closure |attributes, aggr|
//@sig fn cumulative_point(&self, attributes: Vec<KeyValue>, b: &Buckets) -> (r: HistogramDataPoint)
//@subst let b = aggr.lock().unwrap_or_else($$e); ~>
//@subst self.bounds.clone() ~> copy_of(&self.bounds)
//@subst b.counts.clone() ~> copy_of(&b.counts)
//@contract
    ensures says(r, *b, *self), r.attributes == attributes,
//@endfn
}
struct HistogramDataPoint { attributes: Vec<KeyValue>, count: u64, bounds: Vec<F>, bucket_counts: Vec<u64>, min: Option<Num>, max: Option<Num>, sum: Num, exemplars: Vec<Exemplar> }
spec fn says(r: HistogramDataPoint, b: Buckets, h: Histogram) -> bool {
    &&& r.count == b.count && r.bucket_counts@ == b.counts@ && r.bounds@ == h.bounds@
    &&& r.sum == (if h.record_sum { b.total } else { zero() })
    &&& r.min == (if h.record_min_max { Some(b.min) } else { None::<Num> })
    &&& r.max == (if h.record_min_max { Some(b.max) } else { None::<Num> })
    &&& r.exemplars@.len() == 0
}

} // verus!
fn main() {}

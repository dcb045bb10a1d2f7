// Unit: what one collection of an aggregation reports (opentelemetry-sdk/src/metrics/internal/{sum,last_value,precomputed_sum,
// histogram,exponential_histogram}.rs): which interval, which temporality, reset or not, and each data point's value.
use vstd::prelude::*;
verus! {

#[verifier::external_body] #[derive(Clone, Copy)] struct Num { _p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct F { _p: u8 }
uninterp spec fn plus(a: Num, b: Num) -> Num;
uninterp spec fn minus(a: Num, b: Num) -> Num;
uninterp spec fn less(a: Num, b: Num) -> bool;
uninterp spec fn zero() -> Num;
uninterp spec fn float(a: Num) -> F;
uninterp spec fn finite(a: F) -> bool;
uninterp spec fn fzero() -> F;
#[verifier::external_body] fn num_sub(a: Num, b: Num) -> (r: Num) ensures r == minus(a, b) { unimplemented!() }
#[verifier::external_body] fn num_lt(a: &Num, b: &Num) -> (r: bool) ensures r == less(*a, *b) { unimplemented!() }
#[verifier::external_body] fn num_zero() -> (r: Num) ensures r == zero() { unimplemented!() }
#[verifier::external_body] fn f_zero() -> (r: F) ensures r == fzero() { unimplemented!() }
impl Num { #[verifier::external_body] fn into_float(self) -> (r: F) ensures r == float(self) { unimplemented!() } }
impl F { #[verifier::external_body] fn is_finite(&self) -> (r: bool) ensures r == finite(*self) { unimplemented!() } }
//@gsubst T::default() ~> num_zero()

#[verifier::external_body] struct KeyValue { _p: u8 }
#[verifier::external_body] struct Exemplar { _p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct SystemTime { _p: u8 }
type KVs = Seq<KeyValue>;
#[verifier::external_body] fn copy_of<T>(s: &Vec<T>) -> (r: Vec<T>) ensures r@ == s@ { unimplemented!() }
uninterp spec fn canon(s: KVs) -> KVs;
#[verifier::external_body] fn sort_and_dedup(s: &Vec<KeyValue>) -> (r: Vec<KeyValue>) ensures r@ == canon(s@) { unimplemented!() }   // value_map.rs
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@item opentelemetry-sdk/src/metrics/mod.rs enum Temporality

// contracts proved in aggregators.rs
struct AggregateTime { start: SystemTime, current: SystemTime }
struct AggregateTimeInitiator(SystemTime);
impl AggregateTimeInitiator {
    #[verifier::external_body] fn delta(&mut self) -> (r: AggregateTime) ensures r.start == old(self).0, final(self).0 == r.current { unimplemented!() }
    #[verifier::external_body] fn cumulative(&mut self) -> (r: AggregateTime) ensures r.start == old(self).0, *final(self) == *old(self) { unimplemented!() }
}
#[verifier::external_body] struct AttributeSetFilter { _p: u8 }
impl AttributeSetFilter { uninterp spec fn out(&self, s: KVs) -> KVs; }
struct Meas { g: Ghost<Seq<(Num, KVs)>> }
#[verifier::external_body] fn filtered_measure(f: &AttributeSetFilter, m: &mut Meas, v: Num, attrs: &[KeyValue])
    ensures final(m).g@ == old(m).g@.push((v, f.out(attrs@))) { unimplemented!() }

/// one tracker handed out by the value map: its attributes and its value
struct Cell { v: Num }
impl Cell { fn get_value(&self) -> (r: Num) ensures r == self.v { self.v } }
struct Tracker { value: Cell }
#[verifier::external_body] struct Vm { _p: u8 }
impl Vm {
    /// what a resetting / a reading collection hands out (value_map.rs)
    uninterp spec fn taken(&self) -> Seq<(Vec<KeyValue>, Tracker)>;
    uninterp spec fn read(&self) -> Seq<(Vec<KeyValue>, Tracker)>;
    uninterp spec fn after_take(&self) -> Vm;
    #[verifier::external_body] fn take_all(&mut self) -> (r: Vec<(Vec<KeyValue>, Tracker)>)
        ensures r@ == old(self).taken(), *final(self) == old(self).after_take(),
            // one entry per series (value_map.rs)
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> canon((#[trigger] r@[i]).0@) != canon((#[trigger] r@[j]).0@),
    { unimplemented!() }
    #[verifier::external_body] fn read_all(&self) -> (r: Vec<(Vec<KeyValue>, Tracker)>) ensures r@ == self.read() { unimplemented!() }
}
struct SumDataPoint { attributes: Vec<KeyValue>, value: Num, exemplars: Vec<Exemplar> }
type GaugeDataPoint = SumDataPoint;
struct DSum { data_points: Vec<SumDataPoint>, start_time: SystemTime, time: SystemTime, temporality: Temporality, is_monotonic: bool }
struct DGauge { data_points: Vec<SumDataPoint>, start_time: Option<SystemTime>, time: SystemTime }
/// a data point for each entry, carrying its attributes and its value
spec fn values_of(d: Seq<SumDataPoint>, es: Seq<(Vec<KeyValue>, Tracker)>) -> bool {
    d.len() == es.len() && forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).attributes@ == es[i].0@ && d[i].value == es[i].1.value.v && d[i].exemplars@.len() == 0
}

struct Sum { value_map: Vm, init_time: AggregateTimeInitiator, temporality: Temporality, filter: AttributeSetFilter, monotonic: bool }
impl Sum {
//@fn opentelemetry-sdk/src/metrics/internal/sum.rs impl ! Sum :: fn delta
//@sig fn delta(&mut self, s_data: &mut DSum) -> (r: usize)
//@subst let s_data = dest.and_then(|d| { $$x }); let mut new_agg = if s_data.is_none() { $$y } else { None }; let s_data = s_data.unwrap_or_else(|| $$z); ~>
//@subst (s_data.data_points.len(), new_agg.map(Into::into)) ~> s_data.data_points.len()
//@subst self.value_map.collect_and_reset(&mut s_data.data_points, |attributes, aggr| $$b); ~> let es = self.value_map.take_all(); s_data.data_points = vec![]; let mut n: usize = 0; while n < es.len() { let attributes = copy_of(&es[n].0); let aggr = &es[n].1; n = n + 1; let p = $$b; s_data.data_points.push(p); }
//@contract
    ensures
        final(s_data).start_time == old(self).init_time.0, r == final(s_data).data_points@.len(),
        final(s_data).time == final(self).init_time.0, final(self).value_map == old(self).value_map.after_take(),
        final(s_data).temporality == Temporality::Delta, final(s_data).is_monotonic == old(self).monotonic,
        values_of(final(s_data).data_points@, old(self).value_map.taken()),
        final(self).temporality == old(self).temporality, final(self).filter == old(self).filter, final(self).monotonic == old(self).monotonic,
//@loop 0
    invariant
        es@ == old(self).value_map.taken(), n <= es@.len(), s_data.data_points@.len() == n,
        s_data.start_time == old(self).init_time.0,
        s_data.time == self.init_time.0, self.value_map == old(self).value_map.after_take(),
        s_data.temporality == Temporality::Delta, s_data.is_monotonic == old(self).monotonic,
        values_of(s_data.data_points@, es@.take(n as int)),
        self.temporality == old(self).temporality, self.filter == old(self).filter, self.monotonic == old(self).monotonic,
    decreases es@.len() - n,
//@afterloop 0
    proof { assert(es@.take(n as int) =~= es@); }
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/sum.rs impl ! Sum :: fn cumulative
//@sig fn cumulative(&mut self, s_data: &mut DSum) -> (r: usize)
//@subst let s_data = dest.and_then(|d| { $$x }); let mut new_agg = if s_data.is_none() { $$y } else { None }; let s_data = s_data.unwrap_or_else(|| $$z); ~>
//@subst (s_data.data_points.len(), new_agg.map(Into::into)) ~> s_data.data_points.len()
//@subst self.value_map.collect_readonly(&mut s_data.data_points, |attributes, aggr| $$b); ~> let es = self.value_map.read_all(); s_data.data_points = vec![]; let mut n: usize = 0; while n < es.len() { let attributes = copy_of(&es[n].0); let aggr = &es[n].1; n = n + 1; let p = $$b; s_data.data_points.push(p); }
//@contract
    ensures
        final(s_data).start_time == old(self).init_time.0, r == final(s_data).data_points@.len(),
        final(self).value_map == old(self).value_map, final(self).init_time == old(self).init_time,
        final(s_data).temporality == Temporality::Cumulative, final(s_data).is_monotonic == old(self).monotonic,
        values_of(final(s_data).data_points@, old(self).value_map.read()),
        final(self).temporality == old(self).temporality, final(self).filter == old(self).filter, final(self).monotonic == old(self).monotonic,
//@loop 0
    invariant
        es@ == old(self).value_map.read(), n <= es@.len(), s_data.data_points@.len() == n,
        s_data.start_time == old(self).init_time.0,
        self.value_map == old(self).value_map, self.init_time == old(self).init_time,
        s_data.temporality == Temporality::Cumulative, s_data.is_monotonic == old(self).monotonic,
        values_of(s_data.data_points@, es@.take(n as int)),
        self.temporality == old(self).temporality, self.filter == old(self).filter, self.monotonic == old(self).monotonic,
    decreases es@.len() - n,
//@afterloop 0
    proof { assert(es@.take(n as int) =~= es@); }
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/sum.rs impl Measure<T> for Sum :: fn call
//@sig fn measure(&self, measurement: Num, attrs: &[KeyValue], m: &mut Meas)
//@subst self.filter.apply(attrs, |filtered| { self.value_map.measure($$v, filtered); }) ~> filtered_measure(&self.filter, m, $$v, attrs)
//@contract
    ensures final(m).g@ == old(m).g@.push((measurement, self.filter.out(attrs@))),
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/sum.rs impl ComputeAggregation for Sum :: fn call
//@sig fn resets(&self) -> (r: bool)
//@subst let data = dest.and_then(|d| T::extract_metrics_data_mut(d)); ~>
//@subst let (len, new) = match self.temporality { $$m }; (len, new.map(T::make_aggregated_metrics)) ~> match self.temporality { $$m }
//@subst self.delta(data) ~> true
//@subst self.cumulative(data) ~> false
//@contract
    ensures r == (self.temporality == Temporality::Delta),
//@endfn
}

struct LastValue { value_map: Vm, init_time: AggregateTimeInitiator, temporality: Temporality, filter: AttributeSetFilter }
impl LastValue {
//@fn opentelemetry-sdk/src/metrics/internal/last_value.rs impl ! LastValue :: fn delta
//@sig fn delta(&mut self, s_data: &mut DGauge) -> (r: usize)
//@subst let s_data = dest.and_then(|d| { $$x }); let mut new_agg = if s_data.is_none() { $$y } else { None }; let s_data = s_data.unwrap_or_else(|| $$z); ~>
//@subst (s_data.data_points.len(), new_agg.map(Into::into)) ~> s_data.data_points.len()
//@subst self.value_map.collect_and_reset(&mut s_data.data_points, |attributes, aggr| $$b); ~> let es = self.value_map.take_all(); s_data.data_points = vec![]; let mut n: usize = 0; while n < es.len() { let attributes = copy_of(&es[n].0); let aggr = &es[n].1; n = n + 1; let p = $$b; s_data.data_points.push(p); }
//@contract
    ensures
        final(s_data).start_time == Some(old(self).init_time.0), r == final(s_data).data_points@.len(),
        final(s_data).time == final(self).init_time.0, final(self).value_map == old(self).value_map.after_take(),
        values_of(final(s_data).data_points@, old(self).value_map.taken()),
        final(self).temporality == old(self).temporality, final(self).filter == old(self).filter,
//@loop 0
    invariant
        es@ == old(self).value_map.taken(), n <= es@.len(), s_data.data_points@.len() == n,
        s_data.start_time == Some(old(self).init_time.0),
        s_data.time == self.init_time.0, self.value_map == old(self).value_map.after_take(),
        values_of(s_data.data_points@, es@.take(n as int)),
        self.temporality == old(self).temporality, self.filter == old(self).filter,
    decreases es@.len() - n,
//@afterloop 0
    proof { assert(es@.take(n as int) =~= es@); }
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/last_value.rs impl ! LastValue :: fn cumulative
//@sig fn cumulative(&mut self, s_data: &mut DGauge) -> (r: usize)
//@subst let s_data = dest.and_then(|d| { $$x }); let mut new_agg = if s_data.is_none() { $$y } else { None }; let s_data = s_data.unwrap_or_else(|| $$z); ~>
//@subst (s_data.data_points.len(), new_agg.map(Into::into)) ~> s_data.data_points.len()
//@subst self.value_map.collect_readonly(&mut s_data.data_points, |attributes, aggr| $$b); ~> let es = self.value_map.read_all(); s_data.data_points = vec![]; let mut n: usize = 0; while n < es.len() { let attributes = copy_of(&es[n].0); let aggr = &es[n].1; n = n + 1; let p = $$b; s_data.data_points.push(p); }
//@contract
    ensures
        final(s_data).start_time == Some(old(self).init_time.0), r == final(s_data).data_points@.len(),
        final(self).value_map == old(self).value_map, final(self).init_time == old(self).init_time,
        values_of(final(s_data).data_points@, old(self).value_map.read()),
        final(self).temporality == old(self).temporality, final(self).filter == old(self).filter,
//@loop 0
    invariant
        es@ == old(self).value_map.read(), n <= es@.len(), s_data.data_points@.len() == n,
        s_data.start_time == Some(old(self).init_time.0),
        self.value_map == old(self).value_map, self.init_time == old(self).init_time,
        values_of(s_data.data_points@, es@.take(n as int)),
        self.temporality == old(self).temporality, self.filter == old(self).filter,
    decreases es@.len() - n,
//@afterloop 0
    proof { assert(es@.take(n as int) =~= es@); }
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/last_value.rs impl Measure<T> for LastValue :: fn call
//@sig fn measure(&self, measurement: Num, attrs: &[KeyValue], m: &mut Meas)
//@subst self.filter.apply(attrs, |filtered| { self.value_map.measure($$v, filtered); }) ~> filtered_measure(&self.filter, m, $$v, attrs)
//@contract
    ensures final(m).g@ == old(m).g@.push((measurement, self.filter.out(attrs@))),
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/last_value.rs impl ComputeAggregation for LastValue :: fn call
//@sig fn resets(&self) -> (r: bool)
//@subst let data = dest.and_then(|d| T::extract_metrics_data_mut(d)); ~>
//@subst let (len, new) = match self.temporality { $$m }; (len, new.map(T::make_aggregated_metrics)) ~> match self.temporality { $$m }
//@subst self.delta(data) ~> true
//@subst self.cumulative(data) ~> false
//@contract
    ensures r == (self.temporality == Temporality::Delta),
//@endfn
}

/// previous totals, by series
#[verifier::external_body] struct Rep { _p: u8 }
impl Rep {
    uninterp spec fn v(&self) -> Map<KVs, Num>;
    #[verifier::external_body] fn new() -> (r: Rep) ensures r.v() == Map::<KVs, Num>::empty() { unimplemented!() }
    #[verifier::external_body] fn get(&self, k: &Vec<KeyValue>) -> (r: Option<&Num>) ensures r == (if self.v().dom().contains(k@) { Some(&self.v()[k@]) } else { None::<&Num> }) { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, k: Vec<KeyValue>, x: Num) ensures final(self).v() == old(self).v().insert(k@, x) { unimplemented!() }
}
#[verifier::external_body] fn take_rep(r: &mut Rep) -> (x: Rep) ensures x.v() == old(r).v(), final(r).v() == Map::<KVs, Num>::empty() { unimplemented!() }
/// the delta of an observed total
spec fn change(prev: Map<KVs, Num>, k: KVs, now: Num, monotonic: bool) -> Num {
    if !prev.dom().contains(k) { now } else if monotonic && less(now, prev[k]) { now } else { minus(now, prev[k]) }
}
spec fn totals(es: Seq<(Vec<KeyValue>, Tracker)>, n: int) -> Map<KVs, Num>
    decreases n
{ if n <= 0 { Map::empty() } else { totals(es, n - 1).insert(canon(es[n - 1].0@), es[n - 1].1.value.v) } }
/// as every series comes once, the remembered totals are exactly those just observed
proof fn totals_are(es: Seq<(Vec<KeyValue>, Tracker)>, n: int, i: int)
    requires 0 <= i < n <= es.len(), forall|i: int, j: int| 0 <= i < j < es.len() ==> canon((#[trigger] es[i]).0@) != canon((#[trigger] es[j]).0@),
    ensures totals(es, n).dom().contains(canon(es[i].0@)), totals(es, n)[canon(es[i].0@)] == es[i].1.value.v,
    decreases n
{ if i < n - 1 { totals_are(es, n - 1, i); assert(canon(es[i].0@) != canon(es[n - 1].0@)); } }
spec fn changes_of(d: Seq<SumDataPoint>, es: Seq<(Vec<KeyValue>, Tracker)>, prev: Map<KVs, Num>, monotonic: bool) -> bool {
    forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).attributes@ == es[i].0@ && d[i].value == change(prev, canon(es[i].0@), es[i].1.value.v, monotonic) && d[i].exemplars@.len() == 0
}

struct PrecomputedSum { value_map: Vm, init_time: AggregateTimeInitiator, temporality: Temporality, filter: AttributeSetFilter, monotonic: bool, reported: Rep }
impl PrecomputedSum {
//@fn opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs impl ! PrecomputedSum :: fn delta
//@sig fn delta(&mut self, s_data: &mut DSum) -> (r: usize)
//@subst let s_data = dest.and_then(|d| { $$x }); let mut new_agg = if s_data.is_none() { $$y } else { None }; let s_data = s_data.unwrap_or_else(|| $$z); ~>
//@subst (s_data.data_points.len(), new_agg.map(Into::into)) ~> s_data.data_points.len()
//@subst match self.reported.lock() { Ok(r) => r, Err(_) => return $$x, } ~> take_rep(&mut self.reported)
//@subst HashMap::with_capacity($$x) ~> Rep::new()
//@subst *reported = new_reported; ~> self.reported = new_reported;
//@subst drop(reported); ~>
//@subst value < *previous ~> num_lt(&value, previous)
//@subst value - *previous ~> num_sub(value, *previous)
//@subst self.value_map.collect_and_reset(&mut s_data.data_points, |attributes, aggr| $$b); ~> let es = self.value_map.take_all(); s_data.data_points = vec![]; let mut n: usize = 0; while n < es.len() { let attributes = copy_of(&es[n].0); let aggr = &es[n].1; n = n + 1; let p = $$b; s_data.data_points.push(p); }
//@contract
    ensures
        final(s_data).start_time == old(self).init_time.0, r == final(s_data).data_points@.len(),
        final(s_data).time == final(self).init_time.0, final(self).value_map == old(self).value_map.after_take(),
        final(s_data).temporality == Temporality::Delta, final(s_data).is_monotonic == old(self).monotonic,
        final(s_data).data_points@.len() == old(self).value_map.taken().len(), changes_of(final(s_data).data_points@, old(self).value_map.taken(), old(self).reported.v(), old(self).monotonic),
        final(self).reported.v() == totals(old(self).value_map.taken(), old(self).value_map.taken().len() as int),
        final(self).temporality == old(self).temporality, final(self).filter == old(self).filter, final(self).monotonic == old(self).monotonic,
//@loop 0
    invariant
        es@ == old(self).value_map.taken(), n <= es@.len(), s_data.data_points@.len() == n,
        s_data.start_time == old(self).init_time.0,
        s_data.time == self.init_time.0, self.value_map == old(self).value_map.after_take(),
        s_data.temporality == Temporality::Delta, s_data.is_monotonic == old(self).monotonic,
        reported.v() == old(self).reported.v(), new_reported.v() == totals(es@, n as int), changes_of(s_data.data_points@, es@, reported.v(), self.monotonic),
        self.temporality == old(self).temporality, self.filter == old(self).filter, self.monotonic == old(self).monotonic,
    decreases es@.len() - n,
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs impl ! PrecomputedSum :: fn cumulative
//@sig fn cumulative(&mut self, s_data: &mut DSum) -> (r: usize)
//@subst let s_data = dest.and_then(|d| { $$x }); let mut new_agg = if s_data.is_none() { $$y } else { None }; let s_data = s_data.unwrap_or_else(|| $$z); ~>
//@subst (s_data.data_points.len(), new_agg.map(Into::into)) ~> s_data.data_points.len()
//@subst self.value_map.collect_readonly(&mut s_data.data_points, |attributes, aggr| $$b); ~> let es = self.value_map.read_all(); s_data.data_points = vec![]; let mut n: usize = 0; while n < es.len() { let attributes = copy_of(&es[n].0); let aggr = &es[n].1; n = n + 1; let p = $$b; s_data.data_points.push(p); }
//@contract
    ensures
        final(s_data).start_time == old(self).init_time.0, r == final(s_data).data_points@.len(),
        final(self).value_map == old(self).value_map, final(self).init_time == old(self).init_time,
        final(s_data).temporality == Temporality::Cumulative, final(s_data).is_monotonic == old(self).monotonic,
        values_of(final(s_data).data_points@, old(self).value_map.read()),
        final(self).reported == old(self).reported,
        final(self).temporality == old(self).temporality, final(self).filter == old(self).filter, final(self).monotonic == old(self).monotonic,
//@loop 0
    invariant
        es@ == old(self).value_map.read(), n <= es@.len(), s_data.data_points@.len() == n,
        s_data.start_time == old(self).init_time.0,
        self.value_map == old(self).value_map, self.init_time == old(self).init_time,
        s_data.temporality == Temporality::Cumulative, s_data.is_monotonic == old(self).monotonic,
        values_of(s_data.data_points@, es@.take(n as int)),
        self.reported == old(self).reported,
        self.temporality == old(self).temporality, self.filter == old(self).filter, self.monotonic == old(self).monotonic,
    decreases es@.len() - n,
//@afterloop 0
    proof { assert(es@.take(n as int) =~= es@); }
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs impl Measure<T> for PrecomputedSum :: fn call
//@sig fn measure(&self, measurement: Num, attrs: &[KeyValue], m: &mut Meas)
//@subst self.filter.apply(attrs, |filtered| { self.value_map.measure($$v, filtered); }) ~> filtered_measure(&self.filter, m, $$v, attrs)
//@contract
    ensures final(m).g@ == old(m).g@.push((measurement, self.filter.out(attrs@))),
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs impl ComputeAggregation for PrecomputedSum :: fn call
//@sig fn resets(&self) -> (r: bool)
//@subst let data = dest.and_then(|d| T::extract_metrics_data_mut(d)); ~>
//@subst let (len, new) = match self.temporality { $$m }; (len, new.map(T::make_aggregated_metrics)) ~> match self.temporality { $$m }
//@subst self.delta(data) ~> true
//@subst self.cumulative(data) ~> false
//@contract
    ensures r == (self.temporality == Temporality::Delta),
//@endfn
}

struct HPoint { attributes: Vec<KeyValue>, b: Ghost<int> }
struct DHist { data_points: Vec<HPoint>, start_time: SystemTime, time: SystemTime, temporality: Temporality }
#[verifier::external_body] struct HVm { _p: u8 }
impl HVm {
    uninterp spec fn taken(&self) -> Seq<HPoint>;
    uninterp spec fn read(&self) -> Seq<HPoint>;
    #[verifier::external_body] fn take_all(&mut self) -> (r: Vec<HPoint>) ensures r@ == old(self).taken() { unimplemented!() }
    #[verifier::external_body] fn read_all(&self) -> (r: Vec<HPoint>) ensures r@ == self.read() { unimplemented!() }
}
struct Histogram { value_map: HVm, init_time: AggregateTimeInitiator, temporality: Temporality, filter: AttributeSetFilter, record_min_max: bool, record_sum: bool }
impl Histogram {
//@fn opentelemetry-sdk/src/metrics/internal/histogram.rs impl ! Histogram :: fn delta
//@sig fn delta(&mut self, h: &mut DHist) -> (r: usize)
//@subst let h = dest.and_then(|d| { $$x }); let mut new_agg = if h.is_none() { $$y } else { None }; let h = h.unwrap_or_else(|| $$z); ~>
//@subst (h.data_points.len(), new_agg.map(Into::into)) ~> h.data_points.len()
//@subst self.value_map.collect_and_reset(&mut h.data_points, |attributes, $x| $$b); ~> h.data_points = self.value_map.take_all();
//@contract
    ensures
        final(h).start_time == old(self).init_time.0, r == final(h).data_points@.len(),
        final(h).data_points@ == old(self).value_map.taken(), final(h).temporality == Temporality::Delta,
        final(h).time == final(self).init_time.0,
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/histogram.rs impl ! Histogram :: fn cumulative
//@sig fn cumulative(&mut self, h: &mut DHist) -> (r: usize)
//@subst let h = dest.and_then(|d| { $$x }); let mut new_agg = if h.is_none() { $$y } else { None }; let h = h.unwrap_or_else(|| $$z); ~>
//@subst (h.data_points.len(), new_agg.map(Into::into)) ~> h.data_points.len()
//@subst self.value_map.collect_readonly(&mut h.data_points, |attributes, $x| $$b); ~> h.data_points = self.value_map.read_all();
//@contract
    ensures
        final(h).start_time == old(self).init_time.0, r == final(h).data_points@.len(),
        final(h).data_points@ == old(self).value_map.read(), final(h).temporality == Temporality::Cumulative,
        *final(self) == *old(self),
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/histogram.rs impl ComputeAggregation for Histogram :: fn call
//@sig fn resets(&self) -> (r: bool)
//@subst let data = dest.and_then(|d| T::extract_metrics_data_mut(d)); ~>
//@subst let (len, new) = match self.temporality { $$m }; (len, new.map(T::make_aggregated_metrics)) ~> match self.temporality { $$m }
//@subst self.delta(data) ~> true
//@subst self.cumulative(data) ~> false
//@contract
    ensures r == (self.temporality == Temporality::Delta),
//@endfn
}
struct ExpoHistogram { value_map: HVm, init_time: AggregateTimeInitiator, temporality: Temporality, filter: AttributeSetFilter, record_min_max: bool, record_sum: bool }
impl ExpoHistogram {
//@fn opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs impl ! ExpoHistogram :: fn delta
//@sig fn delta(&mut self, h: &mut DHist) -> (r: usize)
//@subst let h = dest.and_then(|d| { $$x }); let mut new_agg = if h.is_none() { $$y } else { None }; let h = h.unwrap_or_else(|| $$z); ~>
//@subst (h.data_points.len(), new_agg.map(Into::into)) ~> h.data_points.len()
//@subst self.value_map.collect_and_reset(&mut h.data_points, |attributes, $x| $$b); ~> h.data_points = self.value_map.take_all();
//@contract
    ensures
        final(h).start_time == old(self).init_time.0, r == final(h).data_points@.len(),
        final(h).data_points@ == old(self).value_map.taken(), final(h).temporality == Temporality::Delta,
        final(h).time == final(self).init_time.0,
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs impl ! ExpoHistogram :: fn cumulative
//@sig fn cumulative(&mut self, h: &mut DHist) -> (r: usize)
//@subst let h = dest.and_then(|d| { $$x }); let mut new_agg = if h.is_none() { $$y } else { None }; let h = h.unwrap_or_else(|| $$z); ~>
//@subst (h.data_points.len(), new_agg.map(Into::into)) ~> h.data_points.len()
//@subst self.value_map.collect_readonly(&mut h.data_points, |attributes, $x| $$b); ~> h.data_points = self.value_map.read_all();
//@contract
    ensures
        final(h).start_time == old(self).init_time.0, r == final(h).data_points@.len(),
        final(h).data_points@ == old(self).value_map.read(), final(h).temporality == Temporality::Cumulative,
        *final(self) == *old(self),
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs impl ComputeAggregation for ExpoHistogram :: fn call
//@sig fn resets(&self) -> (r: bool)
//@subst let data = dest.and_then(|d| T::extract_metrics_data_mut(d)); ~>
//@subst let (len, new) = match self.temporality { $$m }; (len, new.map(T::make_aggregated_metrics)) ~> match self.temporality { $$m }
//@subst self.delta(data) ~> true
//@subst self.cumulative(data) ~> false
//@contract
    ensures r == (self.temporality == Temporality::Delta),
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs impl Measure<T> for ExpoHistogram :: fn call
//@sig fn measure(&self, measurement: Num, attrs: &[KeyValue], m: &mut Meas)
//@subst self.filter.apply(attrs, |filtered| { self.value_map.measure($$v, filtered); }) ~> filtered_measure(&self.filter, m, $$v, attrs)
//@contract
    // only finite values are recorded
    ensures final(m).g@ == (if finite(float(measurement)) { old(m).g@.push((measurement, self.filter.out(attrs@))) } else { old(m).g@ }),
//@endfn
}

// ---- data points of exponential histograms ----
struct ExpoBuckets { start_bin: i32, counts: Vec<u64> }
struct ExpoHistogramDataPoint { max_size: i32, count: usize, min: Num, max: Num, sum: Num, scale: i8, pos_buckets: ExpoBuckets, neg_buckets: ExpoBuckets, zero_count: u64 }
struct ExponentialBucket { offset: i32, counts: Vec<u64> }
struct EPoint { attributes: Vec<KeyValue>, count: usize, min: Option<Num>, max: Option<Num>, sum: Num, scale: i8, zero_count: u64,
    positive_bucket: ExponentialBucket, negative_bucket: ExponentialBucket, zero_threshold: F, exemplars: Vec<Exemplar> }
spec fn says(r: EPoint, b: ExpoHistogramDataPoint, h: ExpoHistogram) -> bool {
    &&& r.count == b.count && r.scale == b.scale && r.zero_count == b.zero_count && r.zero_threshold == fzero() && r.exemplars@.len() == 0
    &&& r.positive_bucket.offset == b.pos_buckets.start_bin && r.positive_bucket.counts@ == b.pos_buckets.counts@
    &&& r.negative_bucket.offset == b.neg_buckets.start_bin && r.negative_bucket.counts@ == b.neg_buckets.counts@
    &&& r.sum == (if h.record_sum { b.sum } else { zero() })
    &&& r.min == (if h.record_min_max { Some(b.min) } else { None::<Num> })
    &&& r.max == (if h.record_min_max { Some(b.max) } else { None::<Num> })
}
//@gsubst data::ExponentialHistogramDataPoint ~> EPoint
//@gsubst data::ExponentialBucket ~> ExponentialBucket
//@gsubst 0.0 ~> f_zero()
impl ExpoHistogram {
//@fn opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs impl ! ExpoHistogram :: fn delta
//@closure |attributes, attr|
//@sig fn delta_point(&self, attributes: Vec<KeyValue>, b: ExpoHistogramDataPoint) -> (r: EPoint)
//@subst let b = attr.into_inner().unwrap_or_else($$e); ~>
//@contract
    ensures says(r, b, *self), r.attributes == attributes,
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs impl ! ExpoHistogram :: fn cumulative
//@closure |attributes, attr|
//@sig fn cumulative_point(&self, attributes: Vec<KeyValue>, b: &ExpoHistogramDataPoint) -> (r: EPoint)
//@subst let b = attr.lock().unwrap_or_else($$e); ~>
//@subst b.$x.counts.clone() ~> copy_of(&b.$x.counts)
//@contract
    ensures says(r, *b, *self), r.attributes == attributes,
//@endfn
}

} // verus!
fn main() {}

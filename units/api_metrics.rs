// Unit: the metrics API (opentelemetry/src/metrics/, opentelemetry/src/global/metrics.rs): meters hand out builders that hold
// exactly what they are given, instruments hand every measurement on to what is behind them, the no-op implementations and the
// global meter provider.
use vstd::prelude::*;
use std::sync::Arc;
use std::marker::PhantomData;
verus! {
#[verifier::external_body] struct KeyValue { _p: u8 }
#[verifier::external_body] struct Text { _p: u8 }
#[verifier::external_body] struct InstrumentationScope { _p: u8 }
uninterp spec fn scope_of(name: Text) -> InstrumentationScope;
/// InstrumentationScope::builder(name).build() (unit common.rs)
#[verifier::external_body] fn named_scope(name: Text) -> (r: InstrumentationScope) ensures r == scope_of(name) { unimplemented!() }
//@gsubst Cow<'static, str> ~> Text
//@gsubst impl Into<Text> ~> Text
//@gsubst name.into() ~> name
//@gsubst description.into() ~> description
//@gsubst unit.into() ~> unit
//@gsubst std::marker::PhantomData ~> PhantomData
//@gsubst marker::PhantomData ~> PhantomData
//@gsubst Arc<dyn SyncInstrument<T> + Send + Sync> ~> AnySync<T>
//@gsubst &'a dyn InstrumentProvider ~> &'a AnyProvider
//@gsubst Arc<dyn InstrumentProvider + Send + Sync> ~> Arc<AnyProvider>
//@gsubst meter.instrument_provider.as_ref() ~> &*meter.instrument_provider

// ---- what is behind an instrument: any implementation; it sees measurements one by one ----
//@item opentelemetry/src/metrics/noop.rs struct NoopSyncInstrument
enum AnySync<T> { Noop(NoopSyncInstrument), Other(Ghost<Seq<(T, Seq<KeyValue>)>>) }
impl<T> AnySync<T> {
    /// the measurements it has been given
    spec fn seen(&self) -> Seq<(T, Seq<KeyValue>)> { match self { AnySync::Noop(_) => Seq::empty(), AnySync::Other(l) => l@ } }
    #[verifier::external_body] fn measure(&mut self, value: T, attributes: &[KeyValue])
        ensures *old(self) is Other ==> *final(self) is Other && final(self).seen() == old(self).seen().push((value, attributes@)), *old(self) is Noop ==> *final(self) == *old(self) { unimplemented!() }
}
impl NoopSyncInstrument {
//@fn opentelemetry/src/metrics/noop.rs impl NoopSyncInstrument :: fn new
//@endfn
//@fn opentelemetry/src/metrics/noop.rs impl SyncInstrument<T> for NoopSyncInstrument :: fn measure
//@sig fn measure<T>(&mut self, _value: T, _attributes: &[KeyValue])
//@contract
    ensures *final(self) == *old(self),
//@endfn
}
//@item opentelemetry/src/metrics/instruments/counter.rs struct Counter
impl<T> Counter<T> {
//@fn opentelemetry/src/metrics/instruments/counter.rs impl Counter<T> :: fn new
//@sig fn new(inner: AnySync<T>) -> Counter<T>
//@ret r
//@contract
    ensures r.0 == inner,
//@endfn
//@fn opentelemetry/src/metrics/instruments/counter.rs impl Counter<T> :: fn add
//@sig fn add(&mut self, value: T, attributes: &[KeyValue])
//@contract
    ensures old(self).0 is Other ==> final(self).0 is Other && final(self).0.seen() == old(self).0.seen().push((value, attributes@)), old(self).0 is Noop ==> *final(self) == *old(self),
//@endfn
}
//@item opentelemetry/src/metrics/instruments/gauge.rs struct Gauge
impl<T> Gauge<T> {
//@fn opentelemetry/src/metrics/instruments/gauge.rs impl Gauge<T> :: fn new
//@sig fn new(inner: AnySync<T>) -> Gauge<T>
//@ret r
//@contract
    ensures r.0 == inner,
//@endfn
//@fn opentelemetry/src/metrics/instruments/gauge.rs impl Gauge<T> :: fn record
//@sig fn record(&mut self, value: T, attributes: &[KeyValue])
//@contract
    ensures old(self).0 is Other ==> final(self).0 is Other && final(self).0.seen() == old(self).0.seen().push((value, attributes@)), old(self).0 is Noop ==> *final(self) == *old(self),
//@endfn
}
//@item opentelemetry/src/metrics/instruments/histogram.rs struct Histogram
impl<T> Histogram<T> {
//@fn opentelemetry/src/metrics/instruments/histogram.rs impl Histogram<T> :: fn new
//@sig fn new(inner: AnySync<T>) -> Histogram<T>
//@ret r
//@contract
    ensures r.0 == inner,
//@endfn
//@fn opentelemetry/src/metrics/instruments/histogram.rs impl Histogram<T> :: fn record
//@sig fn record(&mut self, value: T, attributes: &[KeyValue])
//@contract
    ensures old(self).0 is Other ==> final(self).0 is Other && final(self).0.seen() == old(self).0.seen().push((value, attributes@)), old(self).0 is Noop ==> *final(self) == *old(self),
//@endfn
}
//@item opentelemetry/src/metrics/instruments/up_down_counter.rs struct UpDownCounter
impl<T> UpDownCounter<T> {
//@fn opentelemetry/src/metrics/instruments/up_down_counter.rs impl UpDownCounter<T> :: fn new
//@sig fn new(inner: AnySync<T>) -> UpDownCounter<T>
//@ret r
//@contract
    ensures r.0 == inner,
//@endfn
//@fn opentelemetry/src/metrics/instruments/up_down_counter.rs impl UpDownCounter<T> :: fn add
//@sig fn add(&mut self, value: T, attributes: &[KeyValue])
//@contract
    ensures old(self).0 is Other ==> final(self).0 is Other && final(self).0.seen() == old(self).0.seen().push((value, attributes@)), old(self).0 is Noop ==> *final(self) == *old(self),
//@endfn
}
//@item opentelemetry/src/metrics/instruments/counter.rs struct ObservableCounter
impl<T> ObservableCounter<T> {
//@fn opentelemetry/src/metrics/instruments/counter.rs impl ObservableCounter<T> :: fn new
//@endfn
}
//@item opentelemetry/src/metrics/instruments/gauge.rs struct ObservableGauge
impl<T> ObservableGauge<T> {
//@fn opentelemetry/src/metrics/instruments/gauge.rs impl ObservableGauge<T> :: fn new
//@endfn
}
//@item opentelemetry/src/metrics/instruments/up_down_counter.rs struct ObservableUpDownCounter
impl<T> ObservableUpDownCounter<T> {
//@fn opentelemetry/src/metrics/instruments/up_down_counter.rs impl ObservableUpDownCounter<T> :: fn new
//@endfn
}

// ---- builders ----
#[verifier::external_body] #[verifier::accept_recursive_types(M)] struct Callback<M> { _p: PhantomData<M> }
/// the implementation behind a meter
#[verifier::external_body] struct AnyProvider { _p: u8 }
//@item opentelemetry/src/metrics/meter.rs struct Meter
impl Meter {
//@fn opentelemetry/src/metrics/meter.rs impl Meter :: fn new
//@ret r
//@contract
    ensures r.instrument_provider == instrument_provider,
//@endfn
}
//@gsubst self.$f = Some($$e); self ~> let mut slf = self; slf.$f = Some($$e); slf
//@item opentelemetry/src/metrics/instruments/mod.rs struct InstrumentBuilder
impl<'a, T> InstrumentBuilder<'a, T> {
    /// for this meter and name, with no setting
    spec fn fresh(&self, meter: &Meter, name: Text) -> bool { *self.instrument_provider == *meter.instrument_provider && self.name == name && self.description.is_none() && self.unit.is_none() && self.cardinality_limit.is_none() }
    spec fn same_but(&self, o: InstrumentBuilder<'a, T>, d: bool, u: bool, c: bool, x: bool) -> bool {
        self.instrument_provider == o.instrument_provider && self.name == o.name && (d || self.description == o.description) && (u || self.unit == o.unit) && (c || self.cardinality_limit == o.cardinality_limit)
    }
//@fn opentelemetry/src/metrics/instruments/mod.rs impl InstrumentBuilder<'a, T> :: fn new
//@sig fn new(meter: &'a Meter, name: Text) -> InstrumentBuilder<'a, T>
//@ret r
//@contract
    ensures r.fresh(meter, name),
//@endfn
//@fn opentelemetry/src/metrics/instruments/mod.rs impl InstrumentBuilder<'a, T> :: fn with_description
//@sig fn with_description(self, description: Text) -> InstrumentBuilder<'a, T>
//@ret r
//@contract
    ensures r.description == Some(description), r.same_but(self, true, false, false, false),
//@endfn
//@fn opentelemetry/src/metrics/instruments/mod.rs impl InstrumentBuilder<'a, T> :: fn with_unit
//@sig fn with_unit(self, unit: Text) -> InstrumentBuilder<'a, T>
//@ret r
//@contract
    ensures r.unit == Some(unit), r.same_but(self, false, true, false, false),
//@endfn
//@fn opentelemetry/src/metrics/instruments/mod.rs impl InstrumentBuilder<'a, T> :: fn with_cardinality_limit
//@sig fn with_cardinality_limit(self, limit: usize) -> InstrumentBuilder<'a, T>
//@ret r
//@contract
    ensures r.cardinality_limit == Some(limit), r.same_but(self, false, false, true, false),
//@endfn
}
//@item opentelemetry/src/metrics/instruments/mod.rs struct HistogramBuilder
impl<'a, T> HistogramBuilder<'a, T> {
    /// for this meter and name, with no setting
    spec fn fresh(&self, meter: &Meter, name: Text) -> bool { *self.instrument_provider == *meter.instrument_provider && self.name == name && self.description.is_none() && self.unit.is_none() && self.cardinality_limit.is_none() && self.boundaries.is_none() }
    spec fn same_but(&self, o: HistogramBuilder<'a, T>, d: bool, u: bool, c: bool, x: bool) -> bool {
        self.instrument_provider == o.instrument_provider && self.name == o.name && (d || self.description == o.description) && (u || self.unit == o.unit) && (c || self.cardinality_limit == o.cardinality_limit) && (x || self.boundaries == o.boundaries)
    }
//@fn opentelemetry/src/metrics/instruments/mod.rs impl HistogramBuilder<'a, T> :: fn new
//@sig fn new(meter: &'a Meter, name: Text) -> HistogramBuilder<'a, T>
//@ret r
//@contract
    ensures r.fresh(meter, name),
//@endfn
//@fn opentelemetry/src/metrics/instruments/mod.rs impl HistogramBuilder<'a, T> :: fn with_description
//@sig fn with_description(self, description: Text) -> HistogramBuilder<'a, T>
//@ret r
//@contract
    ensures r.description == Some(description), r.same_but(self, true, false, false, false),
//@endfn
//@fn opentelemetry/src/metrics/instruments/mod.rs impl HistogramBuilder<'a, T> :: fn with_unit
//@sig fn with_unit(self, unit: Text) -> HistogramBuilder<'a, T>
//@ret r
//@contract
    ensures r.unit == Some(unit), r.same_but(self, false, true, false, false),
//@endfn
//@fn opentelemetry/src/metrics/instruments/mod.rs impl HistogramBuilder<'a, T> :: fn with_cardinality_limit
//@sig fn with_cardinality_limit(self, limit: usize) -> HistogramBuilder<'a, T>
//@ret r
//@contract
    ensures r.cardinality_limit == Some(limit), r.same_but(self, false, false, true, false),
//@endfn
//@fn opentelemetry/src/metrics/instruments/mod.rs impl HistogramBuilder<'a, T> :: fn with_boundaries
//@sig fn with_boundaries(self, boundaries: Vec<f64>) -> HistogramBuilder<'a, T>
//@ret r
//@contract
    ensures r.boundaries == Some(boundaries), r.same_but(self, false, false, false, true),
//@endfn
}
//@item opentelemetry/src/metrics/instruments/mod.rs struct AsyncInstrumentBuilder
impl<'a, I, M> AsyncInstrumentBuilder<'a, I, M> {
    /// for this meter and name, with no setting
    spec fn fresh(&self, meter: &Meter, name: Text) -> bool { *self.instrument_provider == *meter.instrument_provider && self.name == name && self.description.is_none() && self.unit.is_none() && self.cardinality_limit.is_none() && self.callbacks@.len() == 0 }
    spec fn same_but(&self, o: AsyncInstrumentBuilder<'a, I, M>, d: bool, u: bool, c: bool, x: bool) -> bool {
        self.instrument_provider == o.instrument_provider && self.name == o.name && (d || self.description == o.description) && (u || self.unit == o.unit) && (c || self.cardinality_limit == o.cardinality_limit) && (x || self.callbacks@ == o.callbacks@)
    }
//@fn opentelemetry/src/metrics/instruments/mod.rs impl AsyncInstrumentBuilder<'a, I, M> :: fn new
//@sig fn new(meter: &'a Meter, name: Text) -> AsyncInstrumentBuilder<'a, I, M>
//@ret r
//@contract
    ensures r.fresh(meter, name),
//@endfn
//@fn opentelemetry/src/metrics/instruments/mod.rs impl AsyncInstrumentBuilder<'a, I, M> :: fn with_description
//@sig fn with_description(self, description: Text) -> AsyncInstrumentBuilder<'a, I, M>
//@ret r
//@contract
    ensures r.description == Some(description), r.same_but(self, true, false, false, false),
//@endfn
//@fn opentelemetry/src/metrics/instruments/mod.rs impl AsyncInstrumentBuilder<'a, I, M> :: fn with_unit
//@sig fn with_unit(self, unit: Text) -> AsyncInstrumentBuilder<'a, I, M>
//@ret r
//@contract
    ensures r.unit == Some(unit), r.same_but(self, false, true, false, false),
//@endfn
//@fn opentelemetry/src/metrics/instruments/mod.rs impl AsyncInstrumentBuilder<'a, I, M> :: fn with_cardinality_limit
//@sig fn with_cardinality_limit(self, limit: usize) -> AsyncInstrumentBuilder<'a, I, M>
//@ret r
//@contract
    ensures r.cardinality_limit == Some(limit), r.same_but(self, false, false, true, false),
//@endfn
//@fn opentelemetry/src/metrics/instruments/mod.rs impl AsyncInstrumentBuilder<'a, I, M> :: fn with_callback
//@sig fn with_callback(self, callback: Callback<M>) -> AsyncInstrumentBuilder<'a, I, M>
//@ret r
//@subst self.callbacks.push($$e); self ~> let mut slf = self; slf.callbacks.push($$e); slf
//@subst? Box::new(callback) ~> callback
//@contract
    ensures r.callbacks@ == self.callbacks@.push(callback), r.same_but(self, false, false, false, true),
//@endfn
}
impl Meter {
//@fn opentelemetry/src/metrics/meter.rs impl Meter :: fn u64_counter
//@ret r
//@contract
    ensures r.fresh(self, name),
//@endfn
//@fn opentelemetry/src/metrics/meter.rs impl Meter :: fn f64_counter
//@ret r
//@contract
    ensures r.fresh(self, name),
//@endfn
//@fn opentelemetry/src/metrics/meter.rs impl Meter :: fn u64_observable_counter
//@ret r
//@contract
    ensures r.fresh(self, name),
//@endfn
//@fn opentelemetry/src/metrics/meter.rs impl Meter :: fn f64_observable_counter
//@ret r
//@contract
    ensures r.fresh(self, name),
//@endfn
//@fn opentelemetry/src/metrics/meter.rs impl Meter :: fn i64_up_down_counter
//@ret r
//@contract
    ensures r.fresh(self, name),
//@endfn
//@fn opentelemetry/src/metrics/meter.rs impl Meter :: fn f64_up_down_counter
//@ret r
//@contract
    ensures r.fresh(self, name),
//@endfn
//@fn opentelemetry/src/metrics/meter.rs impl Meter :: fn i64_observable_up_down_counter
//@ret r
//@contract
    ensures r.fresh(self, name),
//@endfn
//@fn opentelemetry/src/metrics/meter.rs impl Meter :: fn f64_observable_up_down_counter
//@ret r
//@contract
    ensures r.fresh(self, name),
//@endfn
//@fn opentelemetry/src/metrics/meter.rs impl Meter :: fn u64_gauge
//@ret r
//@contract
    ensures r.fresh(self, name),
//@endfn
//@fn opentelemetry/src/metrics/meter.rs impl Meter :: fn f64_gauge
//@ret r
//@contract
    ensures r.fresh(self, name),
//@endfn
//@fn opentelemetry/src/metrics/meter.rs impl Meter :: fn i64_gauge
//@ret r
//@contract
    ensures r.fresh(self, name),
//@endfn
//@fn opentelemetry/src/metrics/meter.rs impl Meter :: fn u64_observable_gauge
//@ret r
//@contract
    ensures r.fresh(self, name),
//@endfn
//@fn opentelemetry/src/metrics/meter.rs impl Meter :: fn i64_observable_gauge
//@ret r
//@contract
    ensures r.fresh(self, name),
//@endfn
//@fn opentelemetry/src/metrics/meter.rs impl Meter :: fn f64_observable_gauge
//@ret r
//@contract
    ensures r.fresh(self, name),
//@endfn
//@fn opentelemetry/src/metrics/meter.rs impl Meter :: fn f64_histogram
//@ret r
//@contract
    ensures r.fresh(self, name),
//@endfn
//@fn opentelemetry/src/metrics/meter.rs impl Meter :: fn u64_histogram
//@ret r
//@contract
    ensures r.fresh(self, name),
//@endfn
}

// ---- the default provider: instruments that do nothing ----
//@gsubst noop::NoopSyncInstrument ~> NoopSyncInstrument
//@gsubst Arc::new(NoopSyncInstrument::new()) ~> AnySync::Noop(NoopSyncInstrument::new())
//@item opentelemetry/src/metrics/noop.rs struct NoopMeter
impl NoopMeter {
//@fn opentelemetry/src/metrics/noop.rs impl NoopMeter :: fn new
//@endfn
//@fn opentelemetry/src/metrics/mod.rs trait InstrumentProvider :: fn u64_counter
//@ret r
//@contract
    ensures r.0 is Noop,
//@endfn
//@fn opentelemetry/src/metrics/mod.rs trait InstrumentProvider :: fn f64_counter
//@ret r
//@contract
    ensures r.0 is Noop,
//@endfn
//@fn opentelemetry/src/metrics/mod.rs trait InstrumentProvider :: fn u64_observable_counter
//@endfn
//@fn opentelemetry/src/metrics/mod.rs trait InstrumentProvider :: fn f64_observable_counter
//@endfn
//@fn opentelemetry/src/metrics/mod.rs trait InstrumentProvider :: fn i64_up_down_counter
//@ret r
//@contract
    ensures r.0 is Noop,
//@endfn
//@fn opentelemetry/src/metrics/mod.rs trait InstrumentProvider :: fn f64_up_down_counter
//@ret r
//@contract
    ensures r.0 is Noop,
//@endfn
//@fn opentelemetry/src/metrics/mod.rs trait InstrumentProvider :: fn i64_observable_up_down_counter
//@endfn
//@fn opentelemetry/src/metrics/mod.rs trait InstrumentProvider :: fn f64_observable_up_down_counter
//@endfn
//@fn opentelemetry/src/metrics/mod.rs trait InstrumentProvider :: fn u64_gauge
//@ret r
//@contract
    ensures r.0 is Noop,
//@endfn
//@fn opentelemetry/src/metrics/mod.rs trait InstrumentProvider :: fn f64_gauge
//@ret r
//@contract
    ensures r.0 is Noop,
//@endfn
//@fn opentelemetry/src/metrics/mod.rs trait InstrumentProvider :: fn i64_gauge
//@ret r
//@contract
    ensures r.0 is Noop,
//@endfn
//@fn opentelemetry/src/metrics/mod.rs trait InstrumentProvider :: fn u64_observable_gauge
//@endfn
//@fn opentelemetry/src/metrics/mod.rs trait InstrumentProvider :: fn i64_observable_gauge
//@endfn
//@fn opentelemetry/src/metrics/mod.rs trait InstrumentProvider :: fn f64_observable_gauge
//@endfn
//@fn opentelemetry/src/metrics/mod.rs trait InstrumentProvider :: fn f64_histogram
//@ret r
//@contract
    ensures r.0 is Noop,
//@endfn
//@fn opentelemetry/src/metrics/mod.rs trait InstrumentProvider :: fn u64_histogram
//@ret r
//@contract
    ensures r.0 is Noop,
//@endfn
}

// ---- meter providers ----
//@item opentelemetry/src/metrics/noop.rs struct NoopMeterProvider
enum AnyMeterProvider { Noop(NoopMeterProvider), Other(u64) }
uninterp spec fn makes(p: AnyMeterProvider, s: InstrumentationScope, m: Meter) -> bool;
/// a meter whose provider is the default one
uninterp spec fn noop_provider(p: AnyProvider) -> bool;
#[verifier::external_body] fn behind(m: NoopMeter) -> (r: AnyProvider) ensures noop_provider(r) { unimplemented!() }
impl NoopMeterProvider {
//@fn opentelemetry/src/metrics/noop.rs impl NoopMeterProvider :: fn new
//@endfn
//@fn opentelemetry/src/metrics/noop.rs impl MeterProvider for NoopMeterProvider :: fn meter_with_scope
//@sig fn meter_with_scope(&self, scope: InstrumentationScope) -> Meter
//@ret r
//@subst? Arc::new(NoopMeter::new()) ~> Arc::new(behind(NoopMeter::new()))
//@contract
    ensures noop_provider(*r.instrument_provider),
//@endfn
}
//@gsubst InstrumentationScope::builder(name).build() ~> named_scope(name)
impl AnyMeterProvider {
    #[verifier::external_body] fn meter_with_scope(&self, scope: InstrumentationScope) -> (r: Meter) ensures makes(*self, scope, r) { unimplemented!() }
//@fn opentelemetry/src/metrics/meter.rs trait MeterProvider :: fn meter
//@sig fn meter(&self, name: Text) -> Meter
//@ret r
//@contract
    ensures makes(*self, scope_of(name), r),
//@endfn
}
// ---- the global one: OnceLock<RwLock<Arc<dyn MeterProvider>>>, set up by the first use ----
type GlobalMeterProvider = Arc<AnyMeterProvider>;
struct RwLock { v: GlobalMeterProvider, poisoned: Ghost<bool> }
#[verifier::external_body] struct Poison { _p: u8 }
/// a write guard: the only way to change what is in the lock gives back what was in it, to be dropped without the lock
struct WriteGuard<'a> { at: &'a mut GlobalMeterProvider }
impl<'a> WriteGuard<'a> {
    fn replace(self, new: GlobalMeterProvider) -> (r: GlobalMeterProvider) ensures r == *old(self.at), *final(self.at) == new
    { std::mem::replace(self.at, new) }
}
pub assume_specification<T> [std::mem::replace] (dest: &mut T, src: T) -> (r: T) ensures *final(dest) == src, r == *old(dest);
impl RwLock {
    fn new(v: GlobalMeterProvider) -> (r: RwLock) ensures r.v == v, !r.poisoned@ { RwLock { v, poisoned: Ghost(false) } }
    #[verifier::external_body] fn write(&mut self) -> (r: Result<WriteGuard<'_>, Poison>)
        ensures final(self).poisoned == old(self).poisoned, match r { Ok(g) => !old(self).poisoned@ && *g.at == old(self).v && final(self).v == *final(g.at), Err(_) => old(self).poisoned@ && final(self).v == old(self).v } { unimplemented!() }
    #[verifier::external_body] fn read(&self) -> (r: Result<&GlobalMeterProvider, Poison>)
        ensures match r { Ok(g) => !self.poisoned@ && *g == self.v, Err(_) => self.poisoned@ } { unimplemented!() }
}
struct Global { cell: Option<RwLock> }
impl Global {
    spec fn bad(&self) -> bool { self.cell matches Some(l) && l.poisoned@ }
    spec fn cur(&self) -> AnyMeterProvider { match self.cell { Some(m) => *m.v, None => AnyMeterProvider::Noop(NoopMeterProvider { _private: () }) } }
    fn get_or_init(&mut self, first: RwLock) -> (r: &mut RwLock)
        ensures *r == (match old(self).cell { Some(m) => m, None => first }), final(self).cell == Some(*final(r))
    { if self.cell.is_none() { self.cell = Some(first); } match self.cell { Some(ref mut m) => m, None => vstd::pervasive::unreached() } }
}
//@gsubst crate::metrics::noop::NoopMeterProvider ~> NoopMeterProvider
//@gsubst Arc::new(NoopMeterProvider::new()) ~> Arc::new(AnyMeterProvider::Noop(NoopMeterProvider::new()))
//@fn opentelemetry/src/global/metrics.rs fn global_meter_provider
//@sig fn global_meter_provider(g: &mut Global) -> &mut RwLock
//@ret r
//@subst GLOBAL_METER_PROVIDER.get_or_init(|| $$e) ~> g.get_or_init($$e)
//@contract
    ensures *r.v == old(g).cur(), r.poisoned@ == old(g).bad(), final(g).cell == Some(*final(r)),
//@endfn
//@gsubst global_meter_provider() ~> global_meter_provider(g)
//@gsubst meter_provider(). ~> meter_provider(g).
//@fn opentelemetry/src/global/metrics.rs fn set_meter_provider
//@sig fn set_meter_provider(new_provider: AnyMeterProvider, g: &mut Global)
//@subst? Ok(mut provider) ~> Ok(provider)
//@subst mem::replace(&mut *$p, $$e) ~> $p.replace($$e)
//@contract
    ensures final(g).bad() == old(g).bad(), final(g).cur() == if old(g).bad() { old(g).cur() } else { new_provider },
//@endfn
//@fn opentelemetry/src/global/metrics.rs fn meter_provider
//@sig fn meter_provider(g: &mut Global) -> GlobalMeterProvider
//@ret r
//@contract
    ensures final(g).bad() == old(g).bad(), final(g).cur() == old(g).cur(), if old(g).bad() { *r is Noop } else { *r == old(g).cur() },
//@endfn
//@fn opentelemetry/src/global/metrics.rs fn meter
//@sig fn meter(name: Text, g: &mut Global) -> Meter
//@ret r
//@contract
    ensures final(g).bad() == old(g).bad(), final(g).cur() == old(g).cur(), !old(g).bad() ==> makes(old(g).cur(), scope_of(name), r),
//@endfn
//@fn opentelemetry/src/global/metrics.rs fn meter_with_scope
//@sig fn meter_with_scope(scope: InstrumentationScope, g: &mut Global) -> Meter
//@ret r
//@contract
    ensures final(g).bad() == old(g).bad(), final(g).cur() == old(g).cur(), !old(g).bad() ==> makes(old(g).cur(), scope, r),
//@endfn
} // verus!
fn main() {}

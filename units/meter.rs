// Unit: making instruments (opentelemetry-sdk/src/metrics/meter.rs): what names, units and boundaries are accepted, what an
// accepted instrument is connected to, that a refused one is connected to nothing, and that callbacks are registered once each.
use vstd::prelude::*;
use vstd::string::*;
verus! {
#[verifier::external_body] #[derive(Clone, Copy)] struct F { _p: u8 }
//@gsubst f64 ~> F
uninterp spec fn f_nan(a: F) -> bool;
uninterp spec fn f_inf(a: F) -> bool;
uninterp spec fn f_le(a: F, b: F) -> bool;
impl F {
    #[verifier::external_body] fn is_nan(&self) -> (r: bool) ensures r == f_nan(*self) { unimplemented!() }
    #[verifier::external_body] fn is_infinite(&self) -> (r: bool) ensures r == f_inf(*self) { unimplemented!() }
}
#[verifier::external_body] fn le(a: F, b: F) -> (r: bool) ensures r == f_le(a, b) { unimplemented!() }
#[verifier::external_body] fn lt(a: F, b: F) -> (r: bool) ensures !r ==> (f_le(b, a) || f_nan(a) || f_nan(b)), r ==> !f_le(b, a) { unimplemented!() }

//@gsubst Cow<'static, str> ~> String
struct MetricError { _p: u8 }
#[verifier::external_body] fn oops() -> MetricError { unimplemented!() }
type MetricResult<T> = Result<T, MetricError>;

// ---- texts
spec fn sb(s: Seq<char>) -> nat { vstd::utf8::encode_utf8(s).len() }
pub open spec fn alpha(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub open spec fn digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn ascii(c: char) -> bool { (c as u32) < 128 }
spec fn name_char(c: char) -> bool { alpha(c) || digit(c) || c == '_' || c == '.' || c == '-' || c == '/' }
/// an instrument name: 1 to 255 bytes, a letter first, letters, digits, '_', '.', '-' and '/' after
spec fn name_ok(s: Seq<char>) -> bool { s.len() > 0 && sb(s) <= 255 && alpha(s[0]) && forall|i: int| 0 <= i < s.len() ==> name_char(#[trigger] s[i]) }
/// a unit: at most 63 ASCII characters
spec fn unit_ok(u: Option<String>) -> bool { match u { None => true, Some(s) => sb(s@) <= 63 && forall|i: int| 0 <= i < s@.len() ==> ascii(#[trigger] s@[i]) } }

pub assume_specification [char::is_ascii_alphabetic] (c: &char) -> (r: bool) ensures r == alpha(*c);
pub assume_specification [char::is_ascii_alphanumeric] (c: &char) -> (r: bool) ensures r == (alpha(*c) || digit(*c));
pub assume_specification [char::is_ascii] (c: &char) -> (r: bool) ensures r == ascii(*c);
#[verifier::external_body] fn blen(s: &str) -> (r: usize) ensures r == sb(s@), (r == 0) == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body]
fn starts_with<G: Fn(char) -> bool>(s: &str, f: G) -> (r: bool)
    requires forall|c: char| f.requires((c,))
    ensures s@.len() == 0 ==> !r, s@.len() > 0 ==> f.ensures((s@[0],), r)
{ unimplemented!() }
#[verifier::external_body]
fn contains<G: Fn(char) -> bool>(s: &str, f: G) -> (r: bool)
    requires forall|c: char| f.requires((c,))
    ensures r ==> exists|i: int| 0 <= i < s@.len() && f.ensures((#[trigger] s@[i],), true), !r ==> forall|i: int| 0 <= i < s@.len() ==> f.ensures((#[trigger] s@[i],), false)
{ unimplemented!() }
#[verifier::external_body] fn one_of(l: &[char; 4], c: char) -> (r: bool) ensures r == l@.contains(c) { unimplemented!() }
//@item opentelemetry-sdk/src/metrics/meter.rs const INSTRUMENT_NAME_MAX_LENGTH
//@item opentelemetry-sdk/src/metrics/meter.rs const INSTRUMENT_UNIT_NAME_MAX_LENGTH
#[verifier::external_body] struct Extra { _p: u8 }
//@fn opentelemetry-sdk/src/metrics/meter.rs const INSTRUMENT_NAME_ALLOWED_NON_ALPHANUMERIC_CHARS
//@sig fn extra_chars() -> (r: [char; 4])
//@contract
    ensures r@ == seq!['_', '.', '-', '/'],
//@endfn

//@fn opentelemetry-sdk/src/metrics/meter.rs fn validate_instrument_name @off
//@sig fn validate_instrument_name(name: &str) -> MetricResult<()>
//@ret r
//@subst? name.is_empty() ~> (blen(name) == 0)
//@subst? name.len() ~> blen(name)
//@subst? name.starts_with(|c: char| $$e) ~> starts_with(name, |c: char| -> (b: bool) ensures b == !alpha(c) { $$e })
//@subst? name.contains(|c: char| { $$e }) ~> contains(name, |c: char| -> (b: bool) ensures b == !name_char(c) { $$e })
//@subst? INSTRUMENT_NAME_ALLOWED_NON_ALPHANUMERIC_CHARS.contains(&c) ~> one_of(&extra_chars(), c)
//@subst MetricError::InvalidInstrumentConfiguration($$m) ~> oops()
//@contract
    ensures r is Ok <==> name_ok(name@),
//@endfn

//@fn opentelemetry-sdk/src/metrics/meter.rs fn validate_instrument_unit
//@sig fn validate_instrument_unit(unit: &Option<String>) -> MetricResult<()>
//@ret r
//@subst? unit.len() ~> blen(unit)
//@subst? unit.contains(|c: char| $$e) ~> contains(unit, |c: char| -> (b: bool) ensures b == !ascii(c) { $$e })
//@subst MetricError::InvalidInstrumentConfiguration($$m) ~> oops()
//@contract
    ensures r is Ok <==> unit_ok(*unit),
//@endfn

//@fn opentelemetry-sdk/src/metrics/meter.rs fn validate_instrument_config
//@ret r
//@subst validate_instrument_name(name).and_then(|_| validate_instrument_unit(unit)) ~> match validate_instrument_name(name) { Ok(_) => validate_instrument_unit(unit), Err(e) => Err(e) }
//@contract
    ensures r is Ok <==> name_ok(name@) && unit_ok(*unit),
//@endfn

/// boundaries an instrument may have: finite, each above the one before
spec fn bounds_ok(b: Seq<F>) -> bool { (forall|i: int| 0 <= i < b.len() ==> !f_nan(#[trigger] b[i]) && !f_inf(b[i])) && forall|i: int| 1 <= i < b.len() ==> !f_le(#[trigger] b[i], b[i - 1]) }
//@fn opentelemetry-sdk/src/metrics/meter.rs fn validate_bucket_boundaries
//@ret r
//@subst MetricError::InvalidInstrumentConfiguration($$m) ~> oops()
//@subst boundaries[i] <= boundaries[i - 1] ~> le(boundaries[i], boundaries[i - 1])
//@contract
    ensures r is Ok <==> bounds_ok(boundaries@),
//@loop 0 it
    invariant it.seq().len() == boundaries@.len(), forall|i: int| 0 <= i < boundaries@.len() ==> *(#[trigger] it.seq()[i]) == boundaries@[i],
        forall|i: int| 0 <= i < it.index@ ==> !f_nan(#[trigger] boundaries@[i]) && !f_inf(boundaries@[i]),
//@loop 1 k
    invariant forall|j: int| 1 <= j < 1 + k.index@ ==> !f_le(#[trigger] boundaries@[j], boundaries@[j - 1]),
        forall|i: int| 0 <= i < boundaries@.len() ==> !f_nan(#[trigger] boundaries@[i]) && !f_inf(boundaries@[i]),
//@endfn

// ---- connecting an instrument to its streams
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@item opentelemetry-sdk/src/metrics/instrument.rs enum InstrumentKind
#[verifier::external_body] struct InstrumentationScope { _p: u8 }
impl InstrumentationScope { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
struct Instrument { name: String, description: String, kind: Option<InstrumentKind>, unit: String, scope: InstrumentationScope }
/// the streams' inputs
#[verifier::external_body] struct Measures { _p: u8 }
uninterp spec fn none_at_all(m: Measures) -> bool;
impl Measures { #[verifier::external_body] fn is_empty(&self) -> (r: bool) ensures r == none_at_all(*self) { unimplemented!() } }
//@gsubst Vec<Arc<dyn internal::Measure<T>>> ~> Measures
/// pipeline.rs decides what this gives (Resolver::measures is verified there)
#[verifier::external_body] struct Resolver { _p: u8 }
uninterp spec fn resolved(r: Resolver, i: Instrument, b: Option<Vec<F>>, n: Option<usize>, out: MetricResult<Measures>) -> bool;
impl Resolver {
    #[verifier::external_body] fn measures(&self, i: Instrument, b: Option<Vec<F>>, n: Option<usize>) -> (r: MetricResult<Measures>) ensures resolved(*self, i, b, n, r) { unimplemented!() }
}
struct SdkMeter { scope: InstrumentationScope, pipes: Pipes }
/// callbacks registered with every reader, in order: (callback, what it observes into)
struct Pipes { log: Ghost<Seq<(Callback, Measures)>> }
#[verifier::external_body] struct Callback { _p: u8 }
impl Pipes {
    #[verifier::external_body] fn register(&mut self, c: Callback, m: &Measures) ensures final(self).log@ == old(self).log@.push((c, *m)) { unimplemented!() }
}
#[verifier::external_body] fn or_blank(t: Option<String>) -> (r: String) ensures t is Some ==> r == t->0, t is None ==> r@.len() == 0 { unimplemented!() }
struct InstrumentResolver<'a> { meter: &'a SdkMeter, resolve: &'a Resolver }
struct ResolvedMeasures { measures: Measures }
spec fn described(i: Instrument, kind: InstrumentKind, name: String, d: Option<String>, u: Option<String>, scope: InstrumentationScope) -> bool {
    i.kind == Some(kind) && i.name == name && i.scope == scope
    && (d is Some ==> i.description == d->0) && (d is None ==> i.description@.len() == 0)
    && (u is Some ==> i.unit == u->0) && (u is None ==> i.unit@.len() == 0)
}
spec fn looked_up(r: InstrumentResolver, kind: InstrumentKind, name: String, d: Option<String>, u: Option<String>, b: Option<Vec<F>>, n: Option<usize>, out: MetricResult<Measures>) -> bool {
    exists|i: Instrument| described(i, kind, name, d, u, r.meter.scope) && #[trigger] resolved(*r.resolve, i, b, n, out)
}
impl<'a> InstrumentResolver<'a> {
//@fn opentelemetry-sdk/src/metrics/meter.rs impl InstrumentResolver :: fn measures
//@subst description.unwrap_or_default() ~> or_blank(description)
//@subst unit.unwrap_or_default() ~> or_blank(unit)
//@ret r
//@contract
    ensures looked_up(*self, kind, name, description, unit, boundaries, cardinality_limit, r),
//@endfn
//@fn opentelemetry-sdk/src/metrics/meter.rs impl InstrumentResolver :: fn lookup
//@sig fn lookup(&self, kind: InstrumentKind, name: String, description: Option<String>, unit: Option<String>, boundaries: Option<Vec<F>>, cardinality_limit: Option<usize>) -> MetricResult<ResolvedMeasures>
//@ret r
//@contract
    ensures ({ let m: MetricResult<Measures> = match r { Ok(x) => Ok(x.measures), Err(e) => Err(e) }; looked_up(*self, kind, name, description, unit, boundaries, cardinality_limit, m) }),
//@endfn
}

/// a handle given to the user: what recording feeds (None: nothing)
#[verifier::external_body] struct Handle { _p: u8 }
uninterp spec fn feeds(h: Handle) -> Option<Measures>;
#[verifier::external_body] fn idle() -> (r: Handle) ensures feeds(r) is None { unimplemented!() }
#[verifier::external_body] fn handle(m: ResolvedMeasures) -> (r: Handle) ensures feeds(r) == Some(m.measures) { unimplemented!() }
struct Builder { name: String, description: Option<String>, unit: Option<String>, cardinality_limit: Option<usize>, boundaries: Option<Vec<F>>, callbacks: Vec<Callback> }
#[verifier::external_body] fn copy_name(s: &String) -> (r: String) ensures r == *s { unimplemented!() }
spec fn valid(b: Builder) -> bool { name_ok(b.name@) && unit_ok(b.unit) }
/// a valid instrument feeds what its description resolves to, or nothing if that is refused; an invalid one nothing
spec fn made(r: InstrumentResolver, b: Builder, kind: InstrumentKind, bounds: Option<Vec<F>>, ok: bool, h: Handle) -> bool {
    if ok { exists|m: MetricResult<Measures>| #[trigger] looked_up(r, kind, b.name, b.description, b.unit, bounds, b.cardinality_limit, m) && feeds(h) == (match m { Ok(x) => Some(x), Err(_) => None }) }
    else { feeds(h) is None }
}
impl SdkMeter {
//@fn opentelemetry-sdk/src/metrics/meter.rs impl SdkMeter :: fn create_counter
//@sig fn create_counter(&self, builder: Builder, resolver: &InstrumentResolver<'_>) -> Handle
//@ret r
//@subst builder.name.as_ref() ~> builder.name.as_str()
//@subst builder.name.clone() ~> copy_name(&builder.name)
//@subst Counter::new(Arc::new(NoopSyncInstrument::new())) ~> idle()
//@subst .map(|i| Counter::new(Arc::new(i))) ~> .map(|i: ResolvedMeasures| -> (h: Handle) ensures feeds(h) == Some(i.measures) { handle(i) })
//@contract
    ensures made(*resolver, builder, InstrumentKind::Counter, None, valid(builder), r),
//@endfn
//@fn opentelemetry-sdk/src/metrics/meter.rs impl SdkMeter :: fn create_updown_counter
//@sig fn create_updown_counter(&self, builder: Builder, resolver: &InstrumentResolver<'_>) -> Handle
//@ret r
//@subst builder.name.as_ref() ~> builder.name.as_str()
//@subst builder.name.clone() ~> copy_name(&builder.name)
//@subst UpDownCounter::new(Arc::new(NoopSyncInstrument::new())) ~> idle()
//@subst .map(|i| UpDownCounter::new(Arc::new(i))) ~> .map(|i: ResolvedMeasures| -> (h: Handle) ensures feeds(h) == Some(i.measures) { handle(i) })
//@contract
    ensures made(*resolver, builder, InstrumentKind::UpDownCounter, None, valid(builder), r),
//@endfn
//@fn opentelemetry-sdk/src/metrics/meter.rs impl SdkMeter :: fn create_gauge
//@sig fn create_gauge(&self, builder: Builder, resolver: &InstrumentResolver<'_>) -> Handle
//@ret r
//@subst builder.name.as_ref() ~> builder.name.as_str()
//@subst builder.name.clone() ~> copy_name(&builder.name)
//@subst Gauge::new(Arc::new(NoopSyncInstrument::new())) ~> idle()
//@subst .map(|i| Gauge::new(Arc::new(i))) ~> .map(|i: ResolvedMeasures| -> (h: Handle) ensures feeds(h) == Some(i.measures) { handle(i) })
//@contract
    ensures made(*resolver, builder, InstrumentKind::Gauge, None, valid(builder), r),
//@endfn
//@fn opentelemetry-sdk/src/metrics/meter.rs impl SdkMeter :: fn create_histogram
//@sig fn create_histogram(&self, builder: Builder, resolver: &InstrumentResolver<'_>) -> Handle
//@ret r
//@subst builder.name.as_ref() ~> builder.name.as_str()
//@subst builder.name.clone() ~> copy_name(&builder.name)
//@subst Histogram::new(Arc::new(NoopSyncInstrument::new())) ~> idle()
//@subst .map(|i| Histogram::new(Arc::new(i))) ~> .map(|i: ResolvedMeasures| -> (h: Handle) ensures feeds(h) == Some(i.measures) { handle(i) })
//@contract
    ensures made(*resolver, builder, InstrumentKind::Histogram, builder.boundaries, valid(builder) && (builder.boundaries is Some ==> bounds_ok(builder.boundaries->0@)), r),
//@endfn
//@fn opentelemetry-sdk/src/metrics/meter.rs impl SdkMeter :: fn create_observable_counter
//@sig fn create_observable_counter(&mut self, builder: Builder, resolver: &InstrumentResolver<'_>)
//@subst builder.name.as_ref() ~> builder.name.as_str()
//@subst builder.name.clone() ~> copy_name(&builder.name)
//@subst ObservableCounter::new() ~> ()
//@subst let observable = Arc::new(Observable::new(ms)); ~> let observable = ms;
//@subst for callback in builder.callbacks { ~> for callback in it: builder.callbacks {
//@subst let cb_inst = Arc::clone(&observable); ~>
//@subst self.pipes.register_callback(move || callback(cb_inst.as_ref())); ~> self.pipes.register(callback, &observable);
//@contract
    ensures
        final(self).scope == old(self).scope,
        // every callback once, observing into what the instrument resolves to; none if that is nothing or the instrument is invalid
        registered(*resolver, builder, InstrumentKind::ObservableCounter, old(self).pipes.log@, final(self).pipes.log@),
//@loop 0
    invariant
        self.scope == old(self).scope,
        it.seq() == builder.callbacks@,
        self.pipes.log@ == old(self).pipes.log@ + builder.callbacks@.take(it.index@).map_values(|c: Callback| (c, observable)),
//@inloop 0
    proof { assert(builder.callbacks@.take(it.index@ + 1).map_values(|c: Callback| (c, observable)) =~= builder.callbacks@.take(it.index@).map_values(|c: Callback| (c, observable)).push((callback, observable))); }
//@afterloop 0
    proof { assert(builder.callbacks@.take(builder.callbacks@.len() as int) =~= builder.callbacks@); }
//@endfn
//@fn opentelemetry-sdk/src/metrics/meter.rs impl SdkMeter :: fn create_observable_updown_counter
//@sig fn create_observable_updown_counter(&mut self, builder: Builder, resolver: &InstrumentResolver<'_>)
//@subst builder.name.as_ref() ~> builder.name.as_str()
//@subst builder.name.clone() ~> copy_name(&builder.name)
//@subst ObservableUpDownCounter::new() ~> ()
//@subst let observable = Arc::new(Observable::new(ms)); ~> let observable = ms;
//@subst for callback in builder.callbacks { ~> for callback in it: builder.callbacks {
//@subst let cb_inst = Arc::clone(&observable); ~>
//@subst self.pipes.register_callback(move || callback(cb_inst.as_ref())); ~> self.pipes.register(callback, &observable);
//@contract
    ensures
        final(self).scope == old(self).scope,
        // every callback once, observing into what the instrument resolves to; none if that is nothing or the instrument is invalid
        registered(*resolver, builder, InstrumentKind::ObservableUpDownCounter, old(self).pipes.log@, final(self).pipes.log@),
//@loop 0
    invariant
        self.scope == old(self).scope,
        it.seq() == builder.callbacks@,
        self.pipes.log@ == old(self).pipes.log@ + builder.callbacks@.take(it.index@).map_values(|c: Callback| (c, observable)),
//@inloop 0
    proof { assert(builder.callbacks@.take(it.index@ + 1).map_values(|c: Callback| (c, observable)) =~= builder.callbacks@.take(it.index@).map_values(|c: Callback| (c, observable)).push((callback, observable))); }
//@afterloop 0
    proof { assert(builder.callbacks@.take(builder.callbacks@.len() as int) =~= builder.callbacks@); }
//@endfn
//@fn opentelemetry-sdk/src/metrics/meter.rs impl SdkMeter :: fn create_observable_gauge
//@sig fn create_observable_gauge(&mut self, builder: Builder, resolver: &InstrumentResolver<'_>)
//@subst builder.name.as_ref() ~> builder.name.as_str()
//@subst builder.name.clone() ~> copy_name(&builder.name)
//@subst ObservableGauge::new() ~> ()
//@subst let observable = Arc::new(Observable::new(ms)); ~> let observable = ms;
//@subst for callback in builder.callbacks { ~> for callback in it: builder.callbacks {
//@subst let cb_inst = Arc::clone(&observable); ~>
//@subst self.pipes.register_callback(move || callback(cb_inst.as_ref())); ~> self.pipes.register(callback, &observable);
//@contract
    ensures
        final(self).scope == old(self).scope,
        // every callback once, observing into what the instrument resolves to; none if that is nothing or the instrument is invalid
        registered(*resolver, builder, InstrumentKind::ObservableGauge, old(self).pipes.log@, final(self).pipes.log@),
//@loop 0
    invariant
        self.scope == old(self).scope,
        it.seq() == builder.callbacks@,
        self.pipes.log@ == old(self).pipes.log@ + builder.callbacks@.take(it.index@).map_values(|c: Callback| (c, observable)),
//@inloop 0
    proof { assert(builder.callbacks@.take(it.index@ + 1).map_values(|c: Callback| (c, observable)) =~= builder.callbacks@.take(it.index@).map_values(|c: Callback| (c, observable)).push((callback, observable))); }
//@afterloop 0
    proof { assert(builder.callbacks@.take(builder.callbacks@.len() as int) =~= builder.callbacks@); }
//@endfn
}
spec fn registered(r: InstrumentResolver, b: Builder, kind: InstrumentKind, before: Seq<(Callback, Measures)>, after: Seq<(Callback, Measures)>) -> bool {
    if !valid(b) { after == before } else {
        exists|m: MetricResult<Measures>| #[trigger] looked_up(r, kind, b.name, b.description, b.unit, None, b.cardinality_limit, m)
            && after == (match m { Ok(x) => if none_at_all(x) { before } else { before + b.callbacks@.map_values(|c: Callback| (c, x)) }, Err(_) => before })
    }
}

// ---- building the description of an instrument: each call sets its own field and nothing else
struct SyncB { name: String, description: Option<String>, unit: Option<String>, cardinality_limit: Option<usize> }
impl SyncB {
//@fn opentelemetry/src/metrics/instruments/mod.rs impl InstrumentBuilder :: fn new
//@sig fn new(name: String) -> (r: SyncB)
//@subst InstrumentBuilder { ~> SyncB {
//@subst instrument_provider: meter.instrument_provider.as_ref(), ~>
//@subst _marker: marker::PhantomData, ~>
//@contract
    ensures r.name == name, r.description is None, r.unit is None, r.cardinality_limit is None,
//@endfn
//@fn opentelemetry/src/metrics/instruments/mod.rs impl InstrumentBuilder :: fn with_description
//@sig fn with_description(self0: Self, description: String) -> (r: SyncB)
//@subst self ~> slf
//@subst? description.into() ~> description
//@contract
    ensures r == (SyncB { description: Some(description), ..self0 }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry/src/metrics/instruments/mod.rs impl InstrumentBuilder :: fn with_unit
//@sig fn with_unit(self0: Self, unit: String) -> (r: SyncB)
//@subst self ~> slf
//@subst? unit.into() ~> unit
//@contract
    ensures r == (SyncB { unit: Some(unit), ..self0 }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry/src/metrics/instruments/mod.rs impl InstrumentBuilder :: fn with_cardinality_limit
//@sig fn with_cardinality_limit(self0: Self, limit: usize) -> (r: SyncB)
//@subst self ~> slf
//@subst? limit.into() ~> limit
//@contract
    ensures r == (SyncB { cardinality_limit: Some(limit), ..self0 }),
//@start
    let mut slf = self0;
//@endfn
}
struct HistB { name: String, description: Option<String>, unit: Option<String>, cardinality_limit: Option<usize>, boundaries: Option<Vec<F>> }
impl HistB {
//@fn opentelemetry/src/metrics/instruments/mod.rs impl HistogramBuilder :: fn new
//@sig fn new(name: String) -> (r: HistB)
//@subst HistogramBuilder { ~> HistB {
//@subst instrument_provider: meter.instrument_provider.as_ref(), ~>
//@subst _marker: marker::PhantomData, ~>
//@contract
    ensures r.name == name, r.description is None, r.unit is None, r.cardinality_limit is None, r.boundaries is None,
//@endfn
//@fn opentelemetry/src/metrics/instruments/mod.rs impl HistogramBuilder :: fn with_description
//@sig fn with_description(self0: Self, description: String) -> (r: HistB)
//@subst self ~> slf
//@subst? description.into() ~> description
//@contract
    ensures r == (HistB { description: Some(description), ..self0 }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry/src/metrics/instruments/mod.rs impl HistogramBuilder :: fn with_unit
//@sig fn with_unit(self0: Self, unit: String) -> (r: HistB)
//@subst self ~> slf
//@subst? unit.into() ~> unit
//@contract
    ensures r == (HistB { unit: Some(unit), ..self0 }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry/src/metrics/instruments/mod.rs impl HistogramBuilder :: fn with_cardinality_limit
//@sig fn with_cardinality_limit(self0: Self, limit: usize) -> (r: HistB)
//@subst self ~> slf
//@subst? limit.into() ~> limit
//@contract
    ensures r == (HistB { cardinality_limit: Some(limit), ..self0 }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry/src/metrics/instruments/mod.rs impl HistogramBuilder :: fn with_boundaries
//@sig fn with_boundaries(self0: Self, boundaries: Vec<F>) -> (r: HistB)
//@subst self ~> slf
//@subst? boundaries.into() ~> boundaries
//@contract
    ensures r == (HistB { boundaries: Some(boundaries), ..self0 }),
//@start
    let mut slf = self0;
//@endfn
}
struct AsyncB { name: String, description: Option<String>, unit: Option<String>, cardinality_limit: Option<usize>, callbacks: Vec<Callback> }
impl AsyncB {
//@fn opentelemetry/src/metrics/instruments/mod.rs impl AsyncInstrumentBuilder :: fn new
//@sig fn new(name: String) -> (r: AsyncB)
//@subst AsyncInstrumentBuilder { ~> AsyncB {
//@subst instrument_provider: meter.instrument_provider.as_ref(), ~>
//@subst _inst: marker::PhantomData, ~>
//@contract
    ensures r.name == name, r.description is None, r.unit is None, r.cardinality_limit is None, r.callbacks@ == Seq::<Callback>::empty(),
//@endfn
//@fn opentelemetry/src/metrics/instruments/mod.rs impl AsyncInstrumentBuilder :: fn with_description
//@sig fn with_description(self0: Self, description: String) -> (r: AsyncB)
//@subst self ~> slf
//@subst? description.into() ~> description
//@contract
    ensures r == (AsyncB { description: Some(description), ..self0 }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry/src/metrics/instruments/mod.rs impl AsyncInstrumentBuilder :: fn with_unit
//@sig fn with_unit(self0: Self, unit: String) -> (r: AsyncB)
//@subst self ~> slf
//@subst? unit.into() ~> unit
//@contract
    ensures r == (AsyncB { unit: Some(unit), ..self0 }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry/src/metrics/instruments/mod.rs impl AsyncInstrumentBuilder :: fn with_cardinality_limit
//@sig fn with_cardinality_limit(self0: Self, limit: usize) -> (r: AsyncB)
//@subst self ~> slf
//@subst? limit.into() ~> limit
//@contract
    ensures r == (AsyncB { cardinality_limit: Some(limit), ..self0 }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry/src/metrics/instruments/mod.rs impl AsyncInstrumentBuilder :: fn with_callback
//@sig fn with_callback(self0: Self, callback: Callback) -> (r: AsyncB)
//@subst self ~> slf
//@subst Box::new(callback) ~> callback
//@contract
    ensures r.callbacks@ == self0.callbacks@.push(callback), r == (AsyncB { callbacks: r.callbacks, ..self0 }),
//@start
    let mut slf = self0;
//@endfn
}
fn main() {}
}

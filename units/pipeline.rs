// Unit: from an instrument to its metric streams (opentelemetry-sdk/src/metrics/{pipeline,instrument,view,aggregation}.rs,
// internal/aggregate.rs): which views apply, what each stream looks like, which aggregation with which settings serves it,
// and that no stream is fed twice.
use vstd::prelude::*;
verus! {

#[verifier::external_body] #[derive(Clone, Copy)] struct F { _p: u8 }
//@gsubst f64 ~> F
/// a list of bucket boundaries
#[verifier::external_body] struct Bounds { _p: u8 }
uninterp spec fn bnd(s: Seq<F>) -> Bounds;
uninterp spec fn default_bnd() -> Bounds;
uninterp spec fn ascending(b: Bounds) -> bool;
impl Bounds {
    #[verifier::external_body] fn to_vec(&self) -> (r: Bounds) ensures r == *self { unimplemented!() }
}
#[verifier::external_body] fn bounds_of(s: &[F]) -> (r: Bounds) ensures r == bnd(s@) { unimplemented!() }
#[verifier::external_body] fn default_bounds() -> (r: Bounds) ensures r == default_bnd() { unimplemented!() }     // the list itself: bounded stand-in
#[verifier::external_body] fn has_descent(b: &Bounds) -> (r: bool) ensures r == !ascending(*b) { unimplemented!() }
/// names, descriptions, units
#[verifier::external_body] struct Text { _p: u8 }
uninterp spec fn blank(t: Text) -> bool;
uninterp spec fn lower(t: Text) -> Text;
impl Text {
    #[verifier::external_body] fn is_empty(&self) -> (r: bool) ensures r == blank(*self) { unimplemented!() }
    #[verifier::external_body] fn clone(&self) -> (r: Text) ensures r == *self { unimplemented!() }
    #[verifier::external_body] fn to_ascii_lowercase(&self) -> (r: Text) ensures r == lower(*self) { unimplemented!() }
    #[verifier::external_body] fn into(self) -> (r: Text) ensures r == self { unimplemented!() }
}
#[verifier::external_body] fn has_upper(t: &Text) -> (r: bool) ensures !r ==> lower(*t) == *t { unimplemented!() }
#[verifier::external_body] fn same(a: &Text, b: &Text) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body] fn same_opt(a: &Option<Text>, b: &Option<Text>) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
//@gsubst Cow<'static, str> ~> Text
#[derive(Clone, Copy)] struct MetricError { _p: u8 }
#[verifier::external_body] fn oops() -> MetricError { unimplemented!() }
type MetricResult<T> = Result<T, MetricError>;

#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@item opentelemetry-sdk/src/metrics/mod.rs enum Temporality
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@item opentelemetry-sdk/src/metrics/instrument.rs enum InstrumentKind

impl InstrumentKind {
//@fn opentelemetry-sdk/src/metrics/instrument.rs impl InstrumentKind :: fn temporality_preference
//@ret r
//@contract
    ensures
        temporality == Temporality::Cumulative ==> r == Temporality::Cumulative,
        // UpDownCounters are always cumulative; delta for every other instrument under the delta preference
        temporality == Temporality::Delta ==> r == (if self == InstrumentKind::UpDownCounter || self == InstrumentKind::ObservableUpDownCounter { Temporality::Cumulative } else { Temporality::Delta }),
        // low memory: delta only for synchronous counters and histograms
        temporality == Temporality::LowMemory ==> r == (if self == InstrumentKind::Counter || self == InstrumentKind::Histogram { Temporality::Delta } else { Temporality::Cumulative }),
//@endfn
}

// ---- aggregations ----
//@item opentelemetry-sdk/src/metrics/aggregation.rs enum Aggregation
//@ subst Vec<F> ~> Bounds
//@item opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs const EXPO_MAX_SCALE
//@item opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs const EXPO_MIN_SCALE
spec fn valid(a: Aggregation) -> bool {
    match a {
        Aggregation::ExplicitBucketHistogram { boundaries, .. } => ascending(boundaries),
        Aggregation::Base2ExponentialHistogram { max_scale, .. } => -10 <= max_scale <= 20,
        _ => true,
    }
}
impl Aggregation {
//@fn opentelemetry-sdk/src/metrics/aggregation.rs impl Aggregation :: fn validate
//@subst for x in boundaries.windows(2) { if x[0] >= x[1] { $$r } } ~> if has_descent(boundaries) { $$r }
//@subst MetricError::Config($$m) ~> oops()
//@ret r
//@contract
    ensures r is Ok <==> valid(*self),
//@endfn
    #[verifier::external_body] fn clone(&self) -> (r: Aggregation) ensures r == *self { unimplemented!() }
}
spec fn default_agg(kind: InstrumentKind) -> Aggregation {
    match kind {
        InstrumentKind::Gauge | InstrumentKind::ObservableGauge => Aggregation::LastValue,
        InstrumentKind::Histogram => Aggregation::ExplicitBucketHistogram { boundaries: default_bnd(), record_min_max: true },
        _ => Aggregation::Sum,
    }
}
//@fn opentelemetry-sdk/src/metrics/pipeline.rs fn default_aggregation_selector
//@subst vec![$$b] ~> default_bounds()
//@ret r
//@contract
    ensures r == default_agg(kind), !(r is Default),
//@endfn
//@fn opentelemetry-sdk/src/metrics/pipeline.rs fn explicit_boundaries
//@subst boundaries.to_vec() ~> bounds_of(boundaries)
//@ret r
//@contract
    ensures r == (Aggregation::ExplicitBucketHistogram { boundaries: bnd(boundaries@), record_min_max: true }),
//@endfn
spec fn compatible(kind: InstrumentKind, a: Aggregation) -> bool {
    match a {
        Aggregation::Sum => kind != InstrumentKind::Gauge && kind != InstrumentKind::ObservableGauge,
        Aggregation::LastValue => kind == InstrumentKind::Gauge || kind == InstrumentKind::ObservableGauge,
        _ => true,
    }
}
//@fn opentelemetry-sdk/src/metrics/pipeline.rs fn is_aggregator_compatible
//@subst agg: &aggregation::Aggregation ~> agg: &Aggregation
//@subst MetricError::Other($$m) ~> oops()
//@ret r
//@contract
    ensures r is Ok <==> compatible(*kind, *agg),
//@endfn

// ---- what serves a stream ----
#[verifier::external_body] struct Filter { _p: u8 }
#[verifier::external_body] fn copy_filter(f: &Option<Filter>) -> (r: Option<Filter>) ensures r == *f { unimplemented!() }
/// the constructor called and its arguments
ghost enum Tag {
    Last { t: Temporality, f: Option<Filter>, n: usize },
    Sum { t: Temporality, f: Option<Filter>, mono: bool, n: usize },
    Pre { t: Temporality, f: Option<Filter>, mono: bool, n: usize },
    Hist { t: Temporality, f: Option<Filter>, b: Bounds, minmax: bool, sum: bool, n: usize },
    Expo { t: Temporality, f: Option<Filter>, size: u32, scale: i8, minmax: bool, sum: bool, n: usize },
}
#[verifier::external_body] struct Meas { _p: u8 }
#[verifier::external_body] struct Coll { _p: u8 }
uninterp spec fn mtag(m: Meas) -> Tag;
uninterp spec fn ctag(c: Coll) -> Tag;
struct AggregateFns { measure: Meas, collect: Coll }
impl AggregateFns { spec fn is(&self, t: Tag) -> bool { mtag(self.measure) == t && ctag(self.collect) == t } }
struct LastValue; struct PrecomputedSum; struct Sum; struct Histogram; struct ExpoHistogram;
impl LastValue { #[verifier::external_body] fn made(t: Temporality, f: Option<Filter>, n: usize) -> (r: AggregateFns) ensures r.is(Tag::Last { t, f, n }) { unimplemented!() } }
impl Sum { #[verifier::external_body] fn made(t: Temporality, f: Option<Filter>, mono: bool, n: usize) -> (r: AggregateFns) ensures r.is(Tag::Sum { t, f, mono, n }) { unimplemented!() } }
impl PrecomputedSum { #[verifier::external_body] fn made(t: Temporality, f: Option<Filter>, mono: bool, n: usize) -> (r: AggregateFns) ensures r.is(Tag::Pre { t, f, mono, n }) { unimplemented!() } }
impl Histogram { #[verifier::external_body] fn made(t: Temporality, f: Option<Filter>, b: Bounds, minmax: bool, sum: bool, n: usize) -> (r: AggregateFns) ensures r.is(Tag::Hist { t, f, b, minmax, sum, n }) { unimplemented!() } }
impl ExpoHistogram { #[verifier::external_body] fn made(t: Temporality, f: Option<Filter>, size: u32, scale: i8, minmax: bool, sum: bool, n: usize) -> (r: AggregateFns) ensures r.is(Tag::Expo { t, f, size, scale, minmax, sum, n }) { unimplemented!() } }
struct AggregateBuilder { temporality: Temporality, filter: Option<Filter>, cardinality_limit: usize }
//@gsubst AggregateFns<T> ~> AggregateFns
//@gsubst AggregateBuilder<T> ~> AggregateBuilder
impl AggregateBuilder {
//@fn opentelemetry-sdk/src/metrics/internal/aggregate.rs impl AggregateBuilder<T> :: fn new
//@sig fn new(temporality: Temporality, filter: Option<Filter>, cardinality_limit: usize) -> (r: Self)
//@subst AttributeSetFilter::new(filter) ~> filter
//@subst cardinality_limit, _marker: marker::PhantomData ~> cardinality_limit
//@contract
    ensures r.temporality == temporality, r.filter == filter, r.cardinality_limit == cardinality_limit,
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/aggregate.rs impl AggregateBuilder<T> :: fn last_value
//@subst LastValue::new($$a).into() ~> LastValue::made($$a)
//@subst self.filter.clone() ~> copy_filter(&self.filter)
//@ret r
//@contract
    ensures r.is(Tag::Last { t: (match overwrite_temporality { Some(o) => o, None => self.temporality }), f: self.filter, n: self.cardinality_limit }),
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/aggregate.rs impl AggregateBuilder<T> :: fn precomputed_sum
//@subst PrecomputedSum::new($$a).into() ~> PrecomputedSum::made($$a)
//@subst self.filter.clone() ~> copy_filter(&self.filter)
//@ret r
//@contract
    ensures r.is(Tag::Pre { t: self.temporality, f: self.filter, mono: monotonic, n: self.cardinality_limit }),
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/aggregate.rs impl AggregateBuilder<T> :: fn sum
//@subst Sum::new($$a).into() ~> Sum::made($$a)
//@subst self.filter.clone() ~> copy_filter(&self.filter)
//@ret r
//@contract
    ensures r.is(Tag::Sum { t: self.temporality, f: self.filter, mono: monotonic, n: self.cardinality_limit }),
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/aggregate.rs impl AggregateBuilder<T> :: fn explicit_bucket_histogram
//@sig fn explicit_bucket_histogram(&self, boundaries: Bounds, record_min_max: bool, record_sum: bool) -> (r: AggregateFns)
//@subst Histogram::new($$a).into() ~> Histogram::made($$a)
//@subst self.filter.clone() ~> copy_filter(&self.filter)
//@contract
    ensures r.is(Tag::Hist { t: self.temporality, f: self.filter, b: boundaries, minmax: record_min_max, sum: record_sum, n: self.cardinality_limit }),
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/aggregate.rs impl AggregateBuilder<T> :: fn exponential_bucket_histogram
//@subst ExpoHistogram::new($$a).into() ~> ExpoHistogram::made($$a)
//@subst self.filter.clone() ~> copy_filter(&self.filter)
//@ret r
//@contract
    ensures r.is(Tag::Expo { t: self.temporality, f: self.filter, size: max_size, scale: max_scale, minmax: record_min_max, sum: record_sum, n: self.cardinality_limit }),
//@endfn
}
/// what a stream of this kind must be served by (None: dropped)
spec fn wanted(t: Temporality, f: Option<Filter>, n: usize, a: Aggregation, kind: InstrumentKind) -> Option<Tag> {
    let mono = kind == InstrumentKind::Counter || kind == InstrumentKind::ObservableCounter || kind == InstrumentKind::Histogram;
    let signed = kind == InstrumentKind::UpDownCounter || kind == InstrumentKind::ObservableUpDownCounter || kind == InstrumentKind::ObservableGauge;
    match a {
        Aggregation::Sum => Some(if kind == InstrumentKind::ObservableCounter || kind == InstrumentKind::ObservableUpDownCounter { Tag::Pre { t, f, mono, n } } else { Tag::Sum { t, f, mono, n } }),
        Aggregation::LastValue => Some(Tag::Last { t: (if kind == InstrumentKind::Gauge { t } else { Temporality::Delta }), f, n }),
        Aggregation::ExplicitBucketHistogram { boundaries, record_min_max } => Some(Tag::Hist { t, f, b: boundaries, minmax: record_min_max, sum: !signed, n }),
        Aggregation::Base2ExponentialHistogram { max_size, max_scale, record_min_max } => Some(Tag::Expo { t, f, size: max_size, scale: max_scale, minmax: record_min_max, sum: !signed, n }),
        _ => None,
    }
}
spec fn effective(a: Aggregation, kind: InstrumentKind) -> Aggregation { if a is Default { default_agg(kind) } else { a } }
//@fn opentelemetry-sdk/src/metrics/pipeline.rs fn aggregate_fn
//@sig fn aggregate_fn(b: AggregateBuilder, agg: &Aggregation, kind: InstrumentKind) -> (r: MetricResult<Option<AggregateFns>>)
//@subst MetricError::Other($$m) ~> oops()
//@contract
    ensures
        compatible(kind, effective(*agg, kind)) ==> match r {
            Ok(Some(fns)) => wanted(b.temporality, b.filter, b.cardinality_limit, effective(*agg, kind), kind) is Some && fns.is(wanted(b.temporality, b.filter, b.cardinality_limit, effective(*agg, kind), kind).unwrap()),
            Ok(None) => effective(*agg, kind) is Drop,
            Err(_) => false,
        },
    decreases (if agg is Default { 1int } else { 0 }),
//@endfn

// ---- instruments, views, streams ----
#[verifier::external_body] struct Keys { _p: u8 }
#[verifier::external_body] struct Key { _p: u8 }
#[verifier::external_body] struct Value { _p: u8 }
struct KeyValue { key: Key, value: Value }
uninterp spec fn has(k: Keys, x: Key) -> bool;
impl Keys { #[verifier::external_body] fn contains(&self, x: &Key) -> (r: bool) ensures r == has(*self, *x) { unimplemented!() } }
#[verifier::external_body] fn copy_keys(f: &Option<Keys>) -> (r: Option<Keys>) ensures r == *f { unimplemented!() }
/// the filter that lets exactly the keys pass
uninterp spec fn only(k: Keys) -> Filter;
#[verifier::external_body] fn filter_of(k: &Option<Keys>) -> (r: Option<Filter>) ensures r == spec_filter_of(*k) { unimplemented!() }
spec fn spec_filter_of(k: Option<Keys>) -> Option<Filter> { match k { Some(k) => Some(only(k)), None => None } }
//@fn opentelemetry-sdk/src/metrics/pipeline.rs impl Inserter<T> :: fn cached_aggregator
//@closure move |kv: &KeyValue|
//@sig fn allowed_key(allowed: &Keys, kv: &KeyValue) -> (r: bool)
//@contract
    ensures r == has(*allowed, kv.key),
//@endfn

#[verifier::external_body] struct Scope { _p: u8 }
uninterp spec fn scope_name(s: Scope) -> Text;
uninterp spec fn scope_version(s: Scope) -> Option<Text>;
uninterp spec fn scope_schema(s: Scope) -> Option<Text>;
impl Scope {
    #[verifier::external_body] fn name(&self) -> (r: &Text) ensures *r == scope_name(*self) { unimplemented!() }
    #[verifier::external_body] fn version(&self) -> (r: Option<Text>) ensures r == scope_version(*self) { unimplemented!() }
    #[verifier::external_body] fn schema_url(&self) -> (r: Option<Text>) ensures r == scope_schema(*self) { unimplemented!() }
    #[verifier::external_body] fn clone(&self) -> (r: Scope) ensures r == *self { unimplemented!() }
}
//@gsubst InstrumentationScope ~> Scope
//@item opentelemetry-sdk/src/metrics/instrument.rs struct Instrument
//@item opentelemetry-sdk/src/metrics/instrument.rs struct Stream
//@ subst Arc<HashSet<Key>> ~> Keys
//@item opentelemetry-sdk/src/metrics/instrument.rs struct InstrumentId

spec fn selects(c: Instrument, i: Instrument) -> bool { (blank(c.name) || c.name == i.name) && selects_rest(c, i) }
spec fn selects_rest(c: Instrument, i: Instrument) -> bool {
    &&& blank(c.description) || c.description == i.description
    &&& c.kind is None || c.kind == i.kind
    &&& blank(c.unit) || c.unit == i.unit
    &&& selects_scope(c.scope, i.scope)
}
spec fn selects_scope(c: Scope, i: Scope) -> bool {
    &&& blank(scope_name(c)) || scope_name(c) == scope_name(i)
    &&& scope_version(c) is None || scope_version(c) == scope_version(i)
    &&& scope_schema(c) is None || scope_schema(c) == scope_schema(i)
}
impl Instrument {
//@fn opentelemetry-sdk/src/metrics/instrument.rs impl Instrument :: fn matches_name
//@subst $a.name.as_ref() == $b.name.as_ref() ~> same(&$a.name, &$b.name)
//@ret r
//@contract
    ensures r == (blank(self.name) || self.name == other.name),
//@endfn
//@fn opentelemetry-sdk/src/metrics/instrument.rs impl Instrument :: fn matches_description
//@subst $a.description.as_ref() == $b.description.as_ref() ~> same(&$a.description, &$b.description)
//@ret r
//@contract
    ensures r == (blank(self.description) || self.description == other.description),
//@endfn
//@fn opentelemetry-sdk/src/metrics/instrument.rs impl Instrument :: fn matches_kind
//@ret r
//@contract
    ensures r == (self.kind is None || self.kind == other.kind),
//@endfn
//@fn opentelemetry-sdk/src/metrics/instrument.rs impl Instrument :: fn matches_unit
//@subst $a.unit.as_ref() == $b.unit.as_ref() ~> same(&$a.unit, &$b.unit)
//@ret r
//@contract
    ensures r == (blank(self.unit) || self.unit == other.unit),
//@endfn
//@fn opentelemetry-sdk/src/metrics/instrument.rs impl Instrument :: fn matches_scope
//@subst self.scope.name() == other.scope.name() ~> same(self.scope.name(), other.scope.name())
//@subst $a.scope.version().as_ref() == $b.scope.version().as_ref() ~> same_opt(&$a.scope.version(), &$b.scope.version())
//@subst $a.scope.schema_url().as_ref() == $b.scope.schema_url().as_ref() ~> same_opt(&$a.scope.schema_url(), &$b.scope.schema_url())
//@ret r
//@contract
    ensures r == selects_scope(self.scope, other.scope),
//@endfn
//@fn opentelemetry-sdk/src/metrics/instrument.rs impl Instrument :: fn matches
//@ret r
//@contract
    ensures r == selects(*self, *other),
//@endfn
}
#[verifier::external_body] struct Glob { _p: u8 }
uninterp spec fn globs(g: Glob, t: Text) -> bool;
impl Glob { #[verifier::external_body] fn matches(&self, t: &Text) -> (r: bool) ensures r == globs(*self, *t) { unimplemented!() } }
//@fn opentelemetry-sdk/src/metrics/view.rs fn new_view
//@closure Box::new(move |i|  {
//@sig fn wildcard_match(criteria: &Instrument, glob_pattern: &Glob, i: &Instrument) -> (r: bool)
//@contract
    ensures r == (globs(*glob_pattern, i.name) && selects_rest(*criteria, *i)),
//@endfn
/// what a view that matches makes of the instrument
spec fn masked(mask: Stream, agg: Option<Aggregation>, i: Instrument) -> Stream {
    Stream {
        name: if blank(mask.name) { i.name } else { mask.name },
        description: if blank(mask.description) { i.description } else { mask.description },
        unit: if blank(mask.unit) { i.unit } else { mask.unit },
        aggregation: agg, allowed_attribute_keys: mask.allowed_attribute_keys, cardinality_limit: mask.cardinality_limit,
    }
}
#[verifier::external_body] fn copy_agg(f: &Option<Aggregation>) -> (r: Option<Aggregation>) ensures r == *f { unimplemented!() }
//@fn opentelemetry-sdk/src/metrics/view.rs fn new_view
//@closure Box::new(move |i: &Instrument| -> Option<Stream>
//@sig fn view_stream(matched: bool, mask: &Stream, agg: &Option<Aggregation>, i: &Instrument) -> (r: Option<Stream>)
//@subst match_fn(i) ~> matched
//@subst agg.clone() ~> copy_agg(agg)
//@subst mask.allowed_attribute_keys.clone() ~> copy_keys(&mask.allowed_attribute_keys)
//@contract
    ensures r == (if matched { Some(masked(*mask, *agg, *i)) } else { None }),
//@endfn

// ---- the aggregator of a stream is made once ----
uninterp spec fn number_type() -> Text;
#[verifier::external_body] fn type_name_of() -> (r: Text) ensures r == number_type() { unimplemented!() }
spec fn id_of(kind: InstrumentKind, s: Stream) -> InstrumentId { InstrumentId { name: s.name, description: s.description, kind, unit: s.unit, number: number_type() } }
spec fn norm(i: InstrumentId) -> InstrumentId { InstrumentId { name: lower(i.name), ..i } }
impl InstrumentId {
//@fn opentelemetry-sdk/src/metrics/instrument.rs impl InstrumentId :: fn normalize
//@subst self.name.chars().any(|c| c.is_ascii_uppercase()) ~> has_upper(&self.name)
//@contract
    ensures *final(self) == norm(*old(self)),
//@endfn
}
type Out = MetricResult<Option<Meas>>;
#[verifier::external_body] struct Cache { _p: u8 }
impl Cache {
    uninterp spec fn view(&self) -> Map<InstrumentId, Out>;
    #[verifier::external_body] fn has(&self, id: &InstrumentId) -> (r: bool) ensures r == self@.dom().contains(*id) { unimplemented!() }
    #[verifier::external_body] fn put(&mut self, id: InstrumentId, v: Out) -> (r: Ghost<InstrumentId>) ensures final(self)@ == old(self)@.insert(id, v), r@ == id { unimplemented!() }
    #[verifier::external_body] fn at(&self, id: Ghost<InstrumentId>) -> (r: &Out) requires self@.dom().contains(id@) ensures *r == self@[id@] { unimplemented!() }
}
#[verifier::external_body] fn copy_meas(o: &Option<Meas>) -> (r: Option<Meas>) ensures r == *o { unimplemented!() }
struct InstrumentSync { name: Text, description: Text, unit: Text, comp_agg: Coll }
#[verifier::external_body] struct Reader { _p: u8 }
uninterp spec fn pref(r: Reader, k: InstrumentKind) -> Temporality;
impl Reader { #[verifier::external_body] fn temporality(&self, k: InstrumentKind) -> (r: Temporality) ensures r == pref(*self, k) { unimplemented!() } }
#[verifier::external_body] struct MView { _p: u8 }
uninterp spec fn view_out(v: MView, i: Instrument) -> Option<Stream>;
impl MView { #[verifier::external_body] fn match_inst(&self, i: &Instrument) -> (r: Option<Stream>) ensures r == view_out(*self, *i) { unimplemented!() } }
struct Pipeline { reader: Reader, views: Vec<MView>, synced: Ghost<Seq<(Scope, InstrumentSync)>> }
impl Pipeline {
    #[verifier::external_body] fn add_sync(&mut self, scope: Scope, s: InstrumentSync)
        ensures final(self).synced@ == old(self).synced@.push((scope, s)), final(self).reader == old(self).reader, final(self).views == old(self).views { unimplemented!() }
}
struct Inserter { aggregators: Cache, pipeline: Pipeline }
spec fn asked(s: Stream, kind: InstrumentKind) -> Aggregation { match s.aggregation { Some(a) => effective(a, kind), None => default_agg(kind) } }
spec fn limit_of(s: Stream) -> usize { match s.cardinality_limit { Some(n) => n, None => 2000 } }
//@item opentelemetry-sdk/src/metrics/pipeline.rs const DEFAULT_CARDINALITY_LIMIT
impl Inserter {
    spec fn tag_for(&self, s: Stream, kind: InstrumentKind) -> Option<Tag> { wanted(pref(self.pipeline.reader, kind), spec_filter_of(s.allowed_attribute_keys), limit_of(s), asked(s, kind), kind) }
//@fn opentelemetry-sdk/src/metrics/pipeline.rs impl Inserter<T> :: fn inst_id
//@subst Cow::Borrowed(std::any::type_name::<T>()) ~> type_name_of()
//@ret r
//@contract
    ensures r == id_of(kind, *stream),
//@endfn
    fn log_conflict(&self, id: &InstrumentId) { }
//@fn opentelemetry-sdk/src/metrics/pipeline.rs impl Inserter<T> :: fn cached_aggregator
//@closure cache.entry(id).or_insert_with(||
//@sig fn make(&mut self, agg: Aggregation, kind: InstrumentKind, scope: &Scope, stream: Stream) -> (r: Out)
//@subst stream.allowed_attribute_keys.clone().map(|allowed| $$f) ~> filter_of(&stream.allowed_attribute_keys)
//@subst other => return other.map(|fs| fs.map(|inst| inst.measure)), ~> other => return match other { Ok(o) => Ok(match o { Some(inst) => Some(inst.measure), None => None }), Err(e) => Err(e) },
//@subst? otel_debug!($$m); ~>
//@contract
    requires compatible(kind, agg), !(agg is Default),
    ensures
        final(self).aggregators == old(self).aggregators, final(self).pipeline.reader == old(self).pipeline.reader, final(self).pipeline.views == old(self).pipeline.views,
        match wanted(pref(old(self).pipeline.reader, kind), spec_filter_of(stream.allowed_attribute_keys), limit_of(stream), agg, kind) {
            // measured and collected by the same aggregation, under the stream's own name
            Some(tag) => r is Ok && r->Ok_0 is Some && mtag(r->Ok_0.unwrap()) == tag && ({
                let n = final(self).pipeline.synced@.last();
                &&& final(self).pipeline.synced@ == old(self).pipeline.synced@.push(n)
                &&& n.0 == *scope && n.1.name == stream.name && n.1.description == stream.description && n.1.unit == stream.unit && ctag(n.1.comp_agg) == tag
            }),
            None => r == Ok::<Option<Meas>, MetricError>(None) && final(self).pipeline.synced@ == old(self).pipeline.synced@,
        },
//@endfn
//@fn opentelemetry-sdk/src/metrics/pipeline.rs impl Inserter<T> :: fn cached_aggregator
//@sig fn cached_aggregator(&mut self, scope: &Scope, kind: InstrumentKind, stream: Stream) -> (r: Out)
//@subst stream.aggregation.take().unwrap_or_else(|| default_aggregation_selector(kind)) ~> match stream.aggregation.take() { Some(a) => a, None => default_aggregation_selector(kind) }
//@subst matches!(agg, aggregation::Aggregation::Default) ~> matches!(agg, Aggregation::Default)
//@subst MetricError::Other($$m) ~> oops()
//@subst let mut cache = self.aggregators.lock()?; ~>
//@subst let cached = cache.entry(id).or_insert_with(|| $$b); ~> let ghost key = id; if !self.aggregators.has(&id) { let made = self.make(agg, kind, scope, stream); let _ = self.aggregators.put(id, made); } let cached = self.aggregators.at(Ghost(key));
//@subst Ok(opt) => Ok(opt.clone()) ~> Ok(opt) => Ok(copy_meas(opt))
//@contract
    ensures
        final(self).pipeline.reader == old(self).pipeline.reader, final(self).pipeline.views == old(self).pipeline.views,
        ({
            let id = norm(id_of(kind, stream)); let o = *old(self); let f = *final(self); let tag = o.tag_for(stream, kind);
            if !compatible(kind, asked(stream, kind)) { r is Err && f.aggregators == o.aggregators && f.pipeline == o.pipeline }
            else if o.aggregators@.dom().contains(id) {
                // the aggregation made for the first instrument with this identity, whatever its case
                &&& f.aggregators == o.aggregators && f.pipeline == o.pipeline
                &&& match o.aggregators@[id] { Ok(m) => r == Ok::<Option<Meas>, MetricError>(m), Err(_) => r is Err }
            } else {
                &&& r is Ok && f.aggregators@ == o.aggregators@.insert(id, r)
                &&& match tag {
                    Some(t) => r->Ok_0 is Some && mtag(r->Ok_0.unwrap()) == t && f.pipeline.synced@.len() == o.pipeline.synced@.len() + 1 && ({
                        let n = f.pipeline.synced@.last();
                        &&& f.pipeline.synced@ == o.pipeline.synced@.push(n)
                        &&& n.0 == *scope && n.1.name == stream.name && n.1.description == stream.description && n.1.unit == stream.unit && ctag(n.1.comp_agg) == t
                    }),
                    None => r->Ok_0 is None && f.pipeline.synced@ == o.pipeline.synced@,
                }
            }
        }),
//@start
    let mut stream = stream;
    let ghost s0 = stream;
//@endfn
}


// ---- an instrument feeds every stream it matches, once ----
#[verifier::external_body] struct Seen { _p: u8 }
impl Seen {
    uninterp spec fn view(&self) -> Set<InstrumentId>;
    #[verifier::external_body] fn new() -> (r: Seen) ensures r@ == Set::<InstrumentId>::empty() { unimplemented!() }
    #[verifier::external_body] fn contains(&self, i: &InstrumentId) -> (r: bool) ensures r == self@.contains(*i) { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, i: InstrumentId) ensures final(self)@ == old(self)@.insert(i) { unimplemented!() }
}
ghost struct Call { scope: Scope, kind: InstrumentKind, stream: Stream, out: Out }
/// cached_aggregator as proved above; here every answer is possible, the calls are recorded
struct Caller { pipeline: Pipeline, calls: Ghost<Seq<Call>> }
/// the stream a view asks for, completed by what the instrument itself asks for
spec fn filled(s: Stream, b: Option<Seq<F>>, n: Option<usize>) -> Stream {
    Stream {
        cardinality_limit: (if s.cardinality_limit is None { n } else { s.cardinality_limit }),
        aggregation: (if s.aggregation is None { own_agg(b) } else { s.aggregation }), ..s
    }
}
spec fn own_agg(b: Option<Seq<F>>) -> Option<Aggregation> { match b { Some(b) => Some(Aggregation::ExplicitBucketHistogram { boundaries: bnd(b), record_min_max: true }), None => None } }
spec fn sv(b: Option<&[F]>) -> Option<Seq<F>> { match b { Some(b) => Some(b@), None => None } }
spec fn somes(c: Seq<Call>) -> Seq<Meas> decreases c.len() {
    if c.len() == 0 { Seq::empty() } else { match c.last().out { Ok(Some(m)) => somes(c.drop_last()).push(m), _ => somes(c.drop_last()) } }
}
proof fn somes_push(c: Seq<Call>, x: Call) ensures somes(c.push(x)) == (match x.out { Ok(Some(m)) => somes(c).push(m), _ => somes(c) }) { assert(c.push(x).drop_last() =~= c); }
spec fn gave(c: Call) -> bool { c.out is Ok && c.out->Ok_0 is Some }
spec fn cid(c: Call) -> InstrumentId { norm(id_of(c.kind, c.stream)) }
/// the calls made for the first n views
spec fn served(c: Seq<Call>, src: Seq<int>, views: Seq<MView>, n: int, inst: Instrument, b: Option<Seq<F>>, lim: Option<usize>) -> bool {
    &&& src.len() == c.len()
    // only streams of matching views, in the order of the views
    &&& forall|i: int| 0 <= i < c.len() ==> 0 <= #[trigger] src[i] < n && view_out(views[src[i]], inst) is Some && c[i].scope == inst.scope && Some(c[i].kind) == inst.kind
            && c[i].stream == filled(view_out(views[src[i]], inst).unwrap(), b, lim)
    &&& forall|i: int, j: int| 0 <= i < j < c.len() ==> #[trigger] src[i] < #[trigger] src[j]
    // no stream is fed twice
    &&& forall|i: int, j: int| 0 <= i < j < c.len() && gave(#[trigger] c[i]) && gave(#[trigger] c[j]) ==> cid(c[i]) != cid(c[j])
    // every matching view's stream is served, by its own call or by an earlier one of the same identity
    &&& forall|v: int| 0 <= v < n && view_out(#[trigger] views[v], inst) is Some ==> answered(c, src, v, norm(id_of(inst.kind.unwrap(), filled(view_out(views[v], inst).unwrap(), b, lim))))
}
spec fn answered(c: Seq<Call>, src: Seq<int>, v: int, id: InstrumentId) -> bool { exists|i: int| 0 <= i < c.len() && (#[trigger] src[i] == v || (gave(c[i]) && cid(c[i]) == id)) }
spec fn some_match(views: Seq<MView>, n: int, inst: Instrument) -> bool { exists|v: int| 0 <= v < n && view_out(#[trigger] views[v], inst) is Some }
spec fn no_err(c: Seq<Call>) -> bool { forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).out is Ok }
proof fn step_skip(c: Seq<Call>, src: Seq<int>, views: Seq<MView>, v: int, inst: Instrument, b: Option<Seq<F>>, lim: Option<usize>)
    requires served(c, src, views, v, inst, b, lim), 0 <= v < views.len(),
        view_out(views[v], inst) is None || exists|i: int| 0 <= i < c.len() && gave(#[trigger] c[i]) && cid(c[i]) == norm(id_of(inst.kind.unwrap(), filled(view_out(views[v], inst).unwrap(), b, lim))),
    ensures served(c, src, views, v + 1, inst, b, lim),
{
    if view_out(views[v], inst) is Some {
        let id = norm(id_of(inst.kind.unwrap(), filled(view_out(views[v], inst).unwrap(), b, lim)));
        let i = choose|i: int| 0 <= i < c.len() && gave(#[trigger] c[i]) && cid(c[i]) == id;
        assert(0 <= src[i]);
        assert(answered(c, src, v, id));
    }
}
proof fn step_call(c: Seq<Call>, src: Seq<int>, views: Seq<MView>, v: int, inst: Instrument, b: Option<Seq<F>>, lim: Option<usize>, x: Call)
    requires served(c, src, views, v, inst, b, lim), 0 <= v < views.len(), view_out(views[v], inst) is Some, x.scope == inst.scope, Some(x.kind) == inst.kind,
        x.stream == filled(view_out(views[v], inst).unwrap(), b, lim), forall|i: int| 0 <= i < c.len() && gave(#[trigger] c[i]) ==> cid(c[i]) != cid(x),
    ensures served(c.push(x), src.push(v), views, v + 1, inst, b, lim), somes(c.push(x)) == (match x.out { Ok(Some(m)) => somes(c).push(m), _ => somes(c) }), no_err(c.push(x)) == (no_err(c) && x.out is Ok),
{
    somes_push(c, x);
    let d = c.push(x); let t = src.push(v);
    assert forall|i: int| 0 <= i < d.len() implies 0 <= #[trigger] t[i] < v + 1 && view_out(views[t[i]], inst) is Some && d[i].scope == inst.scope && Some(d[i].kind) == inst.kind
            && d[i].stream == filled(view_out(views[t[i]], inst).unwrap(), b, lim) by { if i < c.len() { assert(t[i] == src[i]); assert(d[i] == c[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < d.len() implies #[trigger] t[i] < #[trigger] t[j] by { assert(t[i] == src[i]); if j < c.len() { assert(t[j] == src[j]); } }
    assert forall|i: int, j: int| 0 <= i < j < d.len() && gave(#[trigger] d[i]) && gave(#[trigger] d[j]) implies cid(d[i]) != cid(d[j]) by { assert(d[i] == c[i]); if j < c.len() { assert(d[j] == c[j]); } }
    assert forall|w: int| 0 <= w < v + 1 && view_out(#[trigger] views[w], inst) is Some implies answered(d, t, w, norm(id_of(inst.kind.unwrap(), filled(view_out(views[w], inst).unwrap(), b, lim)))) by {
        let id = norm(id_of(inst.kind.unwrap(), filled(view_out(views[w], inst).unwrap(), b, lim)));
        if w < v {
            let i = choose|i: int| 0 <= i < c.len() && (#[trigger] src[i] == w || (gave(c[i]) && cid(c[i]) == id));
            assert(t[i] == src[i] && d[i] == c[i]);
        } else { assert(t[c.len() as int] == v); }
    }
    if no_err(c) && x.out is Ok { assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).out is Ok by { if i < c.len() { assert(d[i] == c[i]); } } }
    if no_err(d) { assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).out is Ok by { assert(d[i] == c[i]); } assert(d[c.len() as int] == x); }
}
impl Caller {
    #[verifier::external_body] fn cached_aggregator(&mut self, scope: &Scope, kind: InstrumentKind, stream: Stream) -> (r: Out)
        ensures final(self).calls@ == old(self).calls@.push(Call { scope: *scope, kind, stream, out: r }), final(self).pipeline == old(self).pipeline { unimplemented!() }
    #[verifier::external_body] fn inst_id(&self, kind: InstrumentKind, stream: &Stream) -> (r: InstrumentId) ensures r == id_of(kind, *stream) { unimplemented!() }
//@fn opentelemetry-sdk/src/metrics/pipeline.rs impl Inserter<T> :: fn instrument
//@sig fn instrument(&mut self, inst: Instrument, boundaries: Option<&[F]>, cardinality_limit: Option<usize>) -> (r: MetricResult<Vec<Meas>>)
//@subst MetricError::Other($$m) ~> oops()
//@subst boundaries.map(explicit_boundaries) ~> match boundaries { Some(b) => Some(explicit_boundaries(b)), None => None }
//@subst vec![] ~> Vec::new()
//@subst HashSet::new() ~> Seen::new()
//@subst None => continue, ~> None => { proof { step_skip(self.calls@, src, views0, vi - 1, inst0, sv(boundaries), cardinality_limit); } continue }
//@subst if seen.contains(&id) { continue; } ~> let ghost idg = id; if seen.contains(&id) { proof { step_skip(self.calls@, src, views0, vi - 1, inst0, sv(boundaries), cardinality_limit); } continue; }
//@subst let agg = match self.cached_aggregator($$a) { $$m }; ~> let ghost cb = self.calls@; let answer = self.cached_aggregator($$a); proof { step_call(cb, src, views0, vi - 1, inst0, sv(boundaries), cardinality_limit, self.calls@.last()); src = src.push(vi - 1); assert(self.calls@ == cb.push(self.calls@.last())); assert(forall|i: int| 0 <= i < cb.len() ==> self.calls@[i] == #[trigger] cb[i]); } let agg = match answer { $$m };
//@subst match self.cached_aggregator($$a) { $$m } ~> let answer = self.cached_aggregator($$a); proof { assert(c0 =~= Seq::empty()); somes_push(c0, self.calls@.last()); assert(self.calls@ =~= c0.push(self.calls@.last())); assert(self.calls@.len() == 1 && self.calls@[0] == self.calls@.last()); assert(somes(c0) =~= Seq::empty()); } match answer { $$m }
//@subst for v in &self.pipeline.views { $$b } ~> let mut vi: usize = 0; while vi < self.pipeline.views.len() { let v = &self.pipeline.views[vi]; vi = vi + 1; $$b }
//@contract
    requires old(self).calls@.len() == 0,
    ensures
        ({
            let c = final(self).calls@; let views = old(self).pipeline.views@; let n = views.len() as int;
            &&& inst.kind is None ==> r is Err && c.len() == 0
            &&& inst.kind is Some && some_match(views, n, inst) ==>
                (exists|src: Seq<int>| #[trigger] served(c, src, views, n, inst, sv(boundaries), cardinality_limit)) && (r is Ok <==> no_err(c)) && (r is Ok ==> r->Ok_0@ == somes(c))
            // without a matching view: the instrument's own stream
            &&& inst.kind is Some && !some_match(views, n, inst) ==> c.len() == 1 && c[0].scope == inst.scope && Some(c[0].kind) == inst.kind
                && c[0].stream == (Stream { name: inst.name, description: inst.description, unit: inst.unit, aggregation: own_agg(sv(boundaries)), allowed_attribute_keys: None, cardinality_limit })
                && (r is Ok <==> no_err(c)) && (r is Ok ==> r->Ok_0@ == somes(c))
        }),
//@start
    let ghost mut src: Seq<int> = Seq::empty();
    let ghost c0 = self.calls@;
    let ghost views0 = self.pipeline.views@;
    let ghost pipe0 = self.pipeline;
    let ghost inst0 = inst;
//@beforeloop 0
    proof { assert(self.calls@ =~= Seq::empty()); }
//@loop 0
    invariant
        self.pipeline == pipe0, views0 == pipe0.views@, inst == inst0, inst.kind == Some(kind), 0 <= vi <= views0.len(),
        served(self.calls@, src, views0, vi as int, inst0, sv(boundaries), cardinality_limit),
        matched == some_match(views0, vi as int, inst0),
        !matched ==> self.calls@.len() == 0,
        measures@ == somes(self.calls@),
        (errs@.len() == 0) == no_err(self.calls@),
        forall|id: InstrumentId| #[trigger] seen@.contains(id) <==> exists|i: int| 0 <= i < self.calls@.len() && gave(#[trigger] self.calls@[i]) && cid(self.calls@[i]) == id,
    decreases views0.len() - vi
//@endfn
}


// ---- every reader's pipeline gets the instrument, every stream every measurement ----
#[verifier::external_body] struct OneInserter { _p: u8 }
uninterp spec fn feeds(x: OneInserter, i: Instrument, b: Option<Seq<F>>, n: Option<usize>) -> Option<Seq<Meas>>;
impl OneInserter { #[verifier::external_body] fn instrument(&self, i: Instrument, b: Option<&[F]>, n: Option<usize>) -> (r: MetricResult<Vec<Meas>>)
    ensures match feeds(*self, i, sv(b), n) { Some(s) => r is Ok && r->Ok_0@ == s, None => r is Err } { unimplemented!() } }
#[verifier::external_body] fn copy_inst(i: &Instrument) -> (r: Instrument) ensures r == *i { unimplemented!() }
#[verifier::external_body] fn append_all(v: &mut Vec<Meas>, w: Vec<Meas>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
#[verifier::external_body] fn as_slice(b: &Option<Vec<F>>) -> (r: Option<&[F]>) ensures sv(r) == vv(*b) { unimplemented!() }
spec fn vv(b: Option<Vec<F>>) -> Option<Seq<F>> { match b { Some(b) => Some(b@), None => None } }
spec fn all_feeds(x: Seq<OneInserter>, i: Instrument, b: Option<Seq<F>>, n: Option<usize>) -> Seq<Meas>
    decreases x.len()
{ if x.len() == 0 { Seq::empty() } else { all_feeds(x.drop_last(), i, b, n) + (match feeds(x.last(), i, b, n) { Some(s) => s, None => Seq::empty() }) } }
struct Resolver { inserters: Vec<OneInserter> }
impl Resolver {
//@fn opentelemetry-sdk/src/metrics/pipeline.rs impl Resolver<T> :: fn measures
//@sig fn measures(&self, id: Instrument, boundaries: Option<Vec<F>>, cardinality_limit: Option<usize>) -> (r: MetricResult<Vec<Meas>>)
//@subst let (mut measures, mut errs) = (vec![], vec![]); ~> let mut measures: Vec<Meas> = Vec::new(); let mut errs: Vec<MetricError> = Vec::new();
//@subst for inserter in &self.inserters ~> for inserter in &self.inserters
//@subst id.clone() ~> copy_inst(&id)
//@subst boundaries.as_deref() ~> as_slice(&boundaries)
//@subst measures.extend(ms) ~> append_all(&mut measures, ms)
//@subst MetricError::Other($$m) ~> oops()
//@contract
    ensures
        // one pipeline per reader, each gets every stream of the instrument
        (r is Ok) == (forall|i: int| 0 <= i < self.inserters@.len() ==> feeds(#[trigger] self.inserters@[i], id, vv(boundaries), cardinality_limit) is Some),
        r is Ok ==> r->Ok_0@ == all_feeds(self.inserters@, id, vv(boundaries), cardinality_limit),
//@loop 0 it
    invariant
        measures@ == all_feeds(self.inserters@.take(it.index@ as int), id, vv(boundaries), cardinality_limit),
        (errs@.len() == 0) == (forall|i: int| 0 <= i < it.index@ ==> feeds(#[trigger] self.inserters@[i], id, vv(boundaries), cardinality_limit) is Some),
//@inloop 0
    proof { assert(self.inserters@.take(it.index@ + 1).drop_last() =~= self.inserters@.take(it.index@ as int)); }
//@endinloop 0
    proof { }
//@afterloop 0
    proof { assert(self.inserters@.take(self.inserters@.len() as int) =~= self.inserters@); }
//@endfn
}
#[verifier::external_body] #[derive(Clone, Copy)] struct Num { _p: u8 }
struct Fed { g: Ghost<Seq<(Meas, Num, Seq<KeyValue>)>> }
impl Fed { #[verifier::external_body] fn call(&mut self, m: &Meas, v: Num, a: &[KeyValue]) ensures final(self).g@ == old(self).g@.push((*m, v, a@)) { unimplemented!() } }
spec fn fed(m: Seq<Meas>, v: Num, a: Seq<KeyValue>) -> Seq<(Meas, Num, Seq<KeyValue>)> { m.map_values(|x: Meas| (x, v, a)) }
struct ResolvedMeasures { measures: Vec<Meas> }
impl ResolvedMeasures {
//@fn opentelemetry-sdk/src/metrics/instrument.rs impl SyncInstrument<T> for ResolvedMeasures<T> :: fn measure
//@sig fn measure(&self, val: Num, attrs: &[KeyValue], log: &mut Fed)
//@subst measure.call(val, attrs) ~> log.call(measure, val, attrs)
//@contract
    ensures final(log).g@ == old(log).g@ + fed(self.measures@, val, attrs@),
//@start
    let ghost g0 = log.g@;
//@loop 0 it
    invariant log.g@ == g0 + fed(self.measures@.take(it.index@ as int), val, attrs@),
//@inloop 0
    proof { assert(fed(self.measures@.take(it.index@ + 1), val, attrs@) =~= fed(self.measures@.take(it.index@ as int), val, attrs@).push((self.measures@[it.index@ as int], val, attrs@))); }
//@afterloop 0
    proof { assert(self.measures@.take(self.measures@.len() as int) =~= self.measures@); }
//@endfn
}
struct Observable { measures: Vec<Meas> }
impl Observable {
//@fn opentelemetry-sdk/src/metrics/instrument.rs impl AsyncInstrument<T> for Observable<T> :: fn observe
//@sig fn observe(&self, measurement: Num, attrs: &[KeyValue], log: &mut Fed)
//@subst measure.call(measurement, attrs) ~> log.call(measure, measurement, attrs)
//@contract
    ensures final(log).g@ == old(log).g@ + fed(self.measures@, measurement, attrs@),
//@start
    let ghost g0 = log.g@;
//@loop 0 it
    invariant log.g@ == g0 + fed(self.measures@.take(it.index@ as int), measurement, attrs@),
//@inloop 0
    proof { assert(fed(self.measures@.take(it.index@ + 1), measurement, attrs@) =~= fed(self.measures@.take(it.index@ as int), measurement, attrs@).push((self.measures@[it.index@ as int], measurement, attrs@))); }
//@afterloop 0
    proof { assert(self.measures@.take(self.measures@.len() as int) =~= self.measures@); }
//@endfn
}

// ---- one collection: every stream with data points, under its own name, and nothing of the previous collection ----
#[verifier::external_body] struct Data { _p: u8 }
#[verifier::external_body] struct Res { _p: u8 }
impl Res { #[verifier::external_body] fn clone(&self) -> (r: Res) ensures r == *self { unimplemented!() } }
struct Metric { name: Text, description: Text, unit: Text, data: Data }
struct ScopeMetrics { scope: Scope, metrics: Vec<Metric> }
struct ResourceMetrics { resource: Res, scope_metrics: Vec<ScopeMetrics> }
/// what this collection reports for a stream (collections.rs); the number of points
uninterp spec fn points(i: InstrumentSync) -> nat;
uninterp spec fn report(i: InstrumentSync) -> Data;
struct Asked { g: Ghost<Seq<InstrumentSync>>, callbacks: Ghost<nat> }
/// ComputeAggregation::call, given the metric at place j as the destination if there is one
#[verifier::external_body] fn call_into(i: &InstrumentSync, m: &mut Vec<Metric>, j: usize, log: &mut Asked) -> (r: (usize, Option<Data>))
    ensures
        final(log).g@ == old(log).g@.push(*i), final(log).callbacks == old(log).callbacks, r.0 == points(*i),
        match r.1 { Some(d) => d == report(*i) && final(m)@ == old(m)@, None => j < old(m)@.len() && final(m)@ == old(m)@.update(j as int, Metric { data: report(*i), ..old(m)@[j as int] }) },
{ unimplemented!() }
#[verifier::external_body] fn set_data(m: &mut Vec<Metric>, j: usize, d: Data) requires j < old(m)@.len() ensures final(m)@ == old(m)@.update(j as int, Metric { data: d, ..old(m)@[j as int] }) { unimplemented!() }
#[verifier::external_body] fn set_name(m: &mut Vec<Metric>, j: usize, d: &Text) requires j < old(m)@.len() ensures final(m)@ == old(m)@.update(j as int, Metric { name: *d, ..old(m)@[j as int] }) { unimplemented!() }
#[verifier::external_body] fn set_description(m: &mut Vec<Metric>, j: usize, d: &Text) requires j < old(m)@.len() ensures final(m)@ == old(m)@.update(j as int, Metric { description: *d, ..old(m)@[j as int] }) { unimplemented!() }
#[verifier::external_body] fn set_unit(m: &mut Vec<Metric>, j: usize, d: &Text) requires j < old(m)@.len() ensures final(m)@ == old(m)@.update(j as int, Metric { unit: *d, ..old(m)@[j as int] }) { unimplemented!() }
#[verifier::external_body] fn cut<T>(m: &mut Vec<T>, n: usize) requires n <= old(m)@.len() ensures final(m)@ == old(m)@.take(n as int) { unimplemented!() }
/// the element at i, appended if there is none yet
#[verifier::external_body] fn slot(v: &mut Vec<ScopeMetrics>, i: usize) -> (r: &mut ScopeMetrics)
    requires i <= old(v)@.len(),
    ensures
        final(v)@ == (if i < old(v)@.len() { old(v)@ } else { old(v)@.push(*r) }).update(i as int, *final(r)),
        i < old(v)@.len() ==> *r == old(v)@[i as int],
{ unimplemented!() }
spec fn metric_of(i: InstrumentSync) -> Metric { Metric { name: i.name, description: i.description, unit: i.unit, data: report(i) } }
spec fn kept(s: Seq<InstrumentSync>) -> Seq<Metric> decreases s.len() { if s.len() == 0 { Seq::empty() } else if points(s.last()) > 0 { kept(s.drop_last()).push(metric_of(s.last())) } else { kept(s.drop_last()) } }
spec fn groups(a: Seq<(Scope, Vec<InstrumentSync>)>) -> Seq<(Scope, Seq<Metric>)>
    decreases a.len()
{ if a.len() == 0 { Seq::empty() } else if kept(a.last().1@).len() > 0 { groups(a.drop_last()).push((a.last().0, kept(a.last().1@))) } else { groups(a.drop_last()) } }
spec fn every(a: Seq<(Scope, Vec<InstrumentSync>)>) -> Seq<InstrumentSync> decreases a.len() { if a.len() == 0 { Seq::empty() } else { every(a.drop_last()) + a.last().1@ } }
spec fn same_groups(v: Seq<ScopeMetrics>, g: Seq<(Scope, Seq<Metric>)>) -> bool { v.len() == g.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).scope == g[i].0 && v[i].metrics@ == g[i].1 }
struct Pipeline2 { resource: Res, aggregations: Vec<(Scope, Vec<InstrumentSync>)>, callbacks: Vec<Callback> }
struct Callback { _p: u8 }
impl Callback { #[verifier::external_body] fn run(&self, log: &mut Asked) ensures final(log).g == old(log).g, final(log).callbacks@ == old(log).callbacks@ + 1 { unimplemented!() } }
impl Pipeline2 {
//@fn opentelemetry-sdk/src/metrics/pipeline.rs impl SdkProducer for Pipeline :: fn produce
//@sig fn produce(&self, rm: &mut ResourceMetrics, log: &mut Asked) -> (r: Result<(), MetricError>)
//@subst let inner = self.inner.lock().map_err($$e)?; ~>
//@subst? otel_debug!($$m); ~>
//@subst inner. ~> self.
//@subst cb(); ~> cb.run(log);
//@subst if self.aggregations.len() > rm.scope_metrics.len() { $$b } ~>
//@subst if instruments.len() > sm.metrics.len() { $$b } ~>
//@subst for (scope, instruments) in self.aggregations.iter() { $$b } ~> let mut ai: usize = 0; while ai < self.aggregations.len() { let scope = &self.aggregations[ai].0; let instruments = &self.aggregations[ai].1; let ghost log1 = log.g@; let ghost rm1 = rm.scope_metrics@; ai = ai + 1; $$b }
//@subst let sm = match rm.scope_metrics.get_mut(i) { $$b }; ~> let sm = slot(&mut rm.scope_metrics, i);
//@subst for inst in instruments { $$b } ~> let mut k: usize = 0; while k < instruments.len() { let inst = &instruments[k]; k = k + 1; $$b }
//@subst let mut m = sm.metrics.get_mut(j); match (inst.comp_agg.call($$c), m) ~> let present = j < sm.metrics.len(); proof { kept_step(instruments@, k - 1); } match (call_into(inst, &mut sm.metrics, j, log), present)
//@subst , None) if len > 0 ~> , false) if len > 0
//@subst , Some(prev_agg)) if len > 0 ~> , true) if len > 0
//@subst prev_agg.data = data; ~> set_data(&mut sm.metrics, j, data);
//@subst prev_agg.name.clone_from($$a); ~> set_name(&mut sm.metrics, j, $$a);
//@subst prev_agg.description.clone_from($$a); ~> set_description(&mut sm.metrics, j, $$a);
//@subst prev_agg.unit.clone_from($$a); ~> set_unit(&mut sm.metrics, j, $$a);
//@subst sm.metrics.truncate(j); ~> cut(&mut sm.metrics, j);
//@subst rm.scope_metrics.truncate(i); ~> cut(&mut rm.scope_metrics, i);
//@contract
    requires old(log).g@.len() == 0,
    ensures
        r is Ok, final(rm).resource == self.resource,
        same_groups(final(rm).scope_metrics@, groups(self.aggregations@)),
        final(log).g@ == every(self.aggregations@),             // every stream collected exactly once
        final(log).callbacks@ == old(log).callbacks@ + self.callbacks@.len(),
//@loop 0 it
    invariant log.callbacks@ == old(log).callbacks@ + it.index@, log.g == old(log).g,
//@beforeloop 1
    proof { assert(self.aggregations@.take(0) =~= Seq::empty()); assert(log.g@ =~= Seq::empty()); assert(rm.scope_metrics@.take(0) =~= Seq::empty()); }
//@loop 1
    invariant
        0 <= ai <= self.aggregations@.len(), 0 <= i <= rm.scope_metrics@.len(), i <= ai, rm.resource == self.resource,
        same_groups(rm.scope_metrics@.take(i as int), groups(self.aggregations@.take(ai as int))),
        log.g@ == every(self.aggregations@.take(ai as int)), log.callbacks@ == old(log).callbacks@ + self.callbacks@.len(),
    decreases self.aggregations@.len() - ai
//@inloop 1
    proof { group_step(self.aggregations@, ai as int); }
    let ghost i0 = i as int;
//@endinloop 1
    proof {
        assert(instruments@.take(instruments@.len() as int) =~= instruments@);
        let g0 = groups(self.aggregations@.take(ai - 1));
        let now = rm.scope_metrics@.take(i as int);
        assert forall|x: int| 0 <= x < i0 implies (#[trigger] now[x]).scope == g0[x].0 && now[x].metrics@ == g0[x].1 by { assert(now[x] == rm1.take(i0)[x]); }
    }
//@afterloop 1
    proof { assert(self.aggregations@.take(self.aggregations@.len() as int) =~= self.aggregations@); }
//@beforeloop 2
    proof { assert(instruments@.take(0) =~= Seq::empty()); assert(sm.metrics@.take(0) =~= Seq::empty()); assert(log1 + Seq::<InstrumentSync>::empty() =~= log1); }
//@loop 2
    invariant
        0 <= k <= instruments@.len(), 0 <= j <= sm.metrics@.len(), j <= k,
        sm.metrics@.take(j as int) == kept(instruments@.take(k as int)),
        log.g@ == log1 + instruments@.take(k as int), log.callbacks@ == old(log).callbacks@ + self.callbacks@.len(),
    decreases instruments@.len() - k
//@endfn
}
proof fn group_step(a: Seq<(Scope, Vec<InstrumentSync>)>, n: int)
    requires 0 <= n < a.len(),
    ensures groups(a.take(n + 1)) == (if kept(a[n].1@).len() > 0 { groups(a.take(n)).push((a[n].0, kept(a[n].1@))) } else { groups(a.take(n)) }), every(a.take(n + 1)) == every(a.take(n)) + a[n].1@,
{ assert(a.take(n + 1).drop_last() =~= a.take(n)); }
proof fn kept_step(s: Seq<InstrumentSync>, k: int)
    requires 0 <= k < s.len(),
    ensures kept(s.take(k + 1)) == (if points(s[k]) > 0 { kept(s.take(k)).push(metric_of(s[k])) } else { kept(s.take(k)) }), s.take(k + 1) == s.take(k).push(s[k]),
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(s.take(k + 1) =~= s.take(k).push(s[k])); }

// ---- registering streams and callbacks with the pipelines: every reader's pipeline gets every callback, once ----
struct Poison { _p: u8 }
#[derive(Clone, Copy)] #[verifier::external_body] struct Cb { _p: u8 }
fn shared(c: Cb) -> (r: Cb) ensures r == c { c }
struct Streams { m: Ghost<Map<Scope, Seq<InstrumentSync>>> }
struct Slot3<'a> { s: &'a mut Streams, k: Ghost<Scope> }
struct List3<'a> { s: &'a mut Streams, k: Ghost<Scope> }
spec fn listed(s: Streams, k: Scope) -> Seq<InstrumentSync> { if s.m@.dom().contains(k) { s.m@[k] } else { Seq::empty() } }
impl Streams {
    fn entry(&mut self, scope: Scope) -> (r: Slot3<'_>) ensures r.k@ == scope, *r.s == *old(self), *final(self) == *final(r.s) { Slot3 { s: self, k: Ghost(scope) } }
}
impl<'a> Slot3<'a> { fn or_default(self) -> (r: List3<'a>) ensures r.k == self.k, *r.s == *old(self.s), *final(self.s) == *final(r.s) { List3 { s: self.s, k: self.k } } }
impl<'a> List3<'a> {
    /// Vec::push on the entry's list (an empty one if there was none)
    #[verifier::external_body] fn push(self, i: InstrumentSync) ensures final(self.s).m@ == old(self.s).m@.insert(self.k@, listed(*old(self.s), self.k@).push(i)) { unimplemented!() }
}
struct Inner3 { aggregations: Streams, callbacks: Vec<Cb> }
struct Locked3 { v: Inner3, poisoned: bool }
impl Locked3 {
    #[verifier::external_body] fn lock(&mut self) -> (r: Result<&mut Inner3, Poison>)
        ensures r is Err == old(self).poisoned, final(self).poisoned == old(self).poisoned,
            match r { Ok(e) => *e == old(self).v && final(self).v == *final(e), Err(_) => final(self).v == old(self).v } { unimplemented!() }
}
struct Pipe3 { inner: Locked3 }
impl Pipe3 {
//@fn opentelemetry-sdk/src/metrics/pipeline.rs impl Pipeline :: fn add_sync
//@sig fn add_sync(&mut self, scope: Scope, i_sync: InstrumentSync)
//@subst let _ = self.inner.lock().map(|mut inner| { $$b }); ~> if let Ok(inner) = self.inner.lock() { $$b }
//@contract
    requires !old(self).inner.poisoned,
    ensures !final(self).inner.poisoned, final(self).inner.v.callbacks == old(self).inner.v.callbacks,
        // the stream joins the others of its scope, which are untouched
        final(self).inner.v.aggregations.m@ == old(self).inner.v.aggregations.m@.insert(scope, listed(old(self).inner.v.aggregations, scope).push(i_sync)),
//@endfn
//@fn opentelemetry-sdk/src/metrics/pipeline.rs impl Pipeline :: fn add_callback
//@sig fn add_callback(&mut self, callback: Cb)
//@subst let _ = self.inner.lock().map(|mut inner| $$b); ~> if let Ok(inner) = self.inner.lock() { $$b; }
//@contract
    ensures final(self).inner.poisoned == old(self).inner.poisoned, final(self).inner.v.aggregations == old(self).inner.v.aggregations,
        !old(self).inner.poisoned ==> final(self).inner.v.callbacks@ == old(self).inner.v.callbacks@.push(callback),
//@endfn
}
struct Pipes3(Vec<Pipe3>);
#[verifier::external_body] fn nth3(v: &mut Vec<Pipe3>, i: usize) -> (r: &mut Pipe3) requires i < old(v)@.len() ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)) { unimplemented!() }
spec fn got(a: Pipe3, b: Pipe3, c: Cb) -> bool { !a.inner.poisoned ==> !b.inner.poisoned && b.inner.v.aggregations == a.inner.v.aggregations && b.inner.v.callbacks@ == a.inner.v.callbacks@.push(c) }
impl Pipes3 {
//@fn opentelemetry-sdk/src/metrics/pipeline.rs impl Pipelines :: fn register_callback
//@sig fn register_callback(&mut self, callback: Cb)
//@subst Arc::new(callback) ~> shared(callback)
//@subst for pipe in &self.0 { $$b } ~> let mut pi: usize = 0; while pi < self.0.len() { let pipe = nth3(&mut self.0, pi); pi = pi + 1; $$b; }
//@contract
    // every reader's pipeline runs it from now on, once per collection
    ensures final(self).0@.len() == old(self).0@.len(), forall|i: int| 0 <= i < old(self).0@.len() ==> got(old(self).0@[i], #[trigger] final(self).0@[i], callback),
//@loop 0
    invariant pi <= self.0@.len(), self.0@.len() == old(self).0@.len(), cb == callback,
        forall|i: int| 0 <= i < pi ==> got(old(self).0@[i], #[trigger] self.0@[i], callback),
        forall|i: int| pi <= i < self.0@.len() ==> #[trigger] self.0@[i] == old(self).0@[i],
    decreases self.0@.len() - pi
//@endfn
}

} // verus!
fn main() {}

// Unit: the exporters that keep what they are given in memory (opentelemetry-sdk/src/{trace,logs,metrics}/in_memory_exporter.rs).
// Every access to what is kept is inside one lock, so the contracts speak of the content while it is held.
use vstd::prelude::*;
verus! {
/// a clone (all but one of them derived) equals what it was made from
trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl<T> Dup for T { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] fn dup_all<T>(v: &Vec<T>) -> (r: Vec<T>) ensures r@ == v@ { unimplemented!() }
fn mapped<T, U, G: Fn(&T) -> U>(v: &Vec<T>, g: G) -> (r: Vec<U>)
    requires forall|t: &T| call_requires(g, (t,)),
    ensures r@.len() == v@.len(), forall|i: int| #![trigger r@[i]] 0 <= i < v@.len() ==> call_ensures(g, (&v@[i],), r@[i]),
{
    let mut r: Vec<U> = Vec::new(); let mut i = 0;
    while i < v.len() invariant 0 <= i <= v@.len(), r@.len() == i, forall|t: &T| call_requires(g, (t,)), forall|k: int| #![trigger r@[k]] 0 <= k < i ==> call_ensures(g, (&v@[k],), r@[k]), decreases v@.len() - i
    { r.push(g(&v[i])); i += 1; }
    r
}
// ---- the lock, and what is behind it; clones of the handle share it ----
#[verifier::external_body] struct Poison { x: u64 }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] struct Locked<T> { x: core::marker::PhantomData<T> }
uninterp spec fn held<T>(m: Locked<T>) -> T;
uninterp spec fn poisoned<T>(m: Locked<T>) -> bool;
uninterp spec fn which<T>(m: Locked<T>) -> int;
impl<T> Locked<T> {
    #[verifier::external_body] fn holding(t: T) -> (r: Self) ensures held(r) == t, !poisoned(r) { unimplemented!() }
    #[verifier::external_body] fn share(&self) -> (r: Self) ensures which(r) == which(*self), held(r) == held(*self), poisoned(r) == poisoned(*self) { unimplemented!() }
    #[verifier::external_body] fn lock(&mut self) -> (r: Result<&mut T, Poison>)
        ensures which(*final(self)) == which(*old(self)), poisoned(*final(self)) == poisoned(*old(self)),
            match r { Ok(g) => !poisoned(*old(self)) && *g == held(*old(self)) && held(*final(self)) == *final(g), Err(_) => poisoned(*old(self)) && held(*final(self)) == held(*old(self)) } { unimplemented!() }
}
#[verifier::external_body] fn gone<T>() -> (r: T) ensures false { unimplemented!() }
#[verifier::external_body] struct Flag { x: bool }
uninterp spec fn up(f: Flag) -> bool;
impl Flag {
    #[verifier::external_body] fn is(b: bool) -> (r: Flag) ensures up(r) == b { unimplemented!() }
    #[verifier::external_body] fn load(&self) -> (r: bool) ensures r == up(*self) { unimplemented!() }
    #[verifier::external_body] fn store(&mut self, b: bool) ensures up(*final(self)) == b { unimplemented!() }
}
enum OTelSdkError { AlreadyShutdown, InternalFailure }
type OTelSdkResult = Result<(), OTelSdkError>;
struct InMemoryExporterError;
impl InMemoryExporterError { fn from(e: Poison) -> Self { InMemoryExporterError } }
#[verifier::external_body] struct Resource { x: u64 }
uninterp spec fn detected() -> Resource;
#[verifier::external_body] fn detected_resource() -> (r: Resource) ensures r == detected() { unimplemented!() }
#[verifier::external_body] struct SpanData { x: u64 }
#[verifier::external_body] struct SdkLogRecord { x: u64 }
#[verifier::external_body] struct InstrumentationScope { x: u64 }
#[verifier::external_body] struct Text { x: u64 }
#[verifier::external_body] #[derive(Clone, Copy)] struct SystemTime { x: u64 }
#[verifier::external_body] #[derive(Clone, Copy)] struct F { x: u64 }
#[verifier::external_body] struct Duration { x: u64 }
impl Duration { #[verifier::external_body] fn any() -> Duration { unimplemented!() } }
struct LogBatch { v: Vec<(SdkLogRecord, InstrumentationScope)> }
impl LogBatch { #[verifier::external_body] fn pairs(&self) -> (r: Vec<(&SdkLogRecord, &InstrumentationScope)>) ensures r@.len() == self.v@.len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> *r@[i].0 == self.v@[i].0 && *r@[i].1 == self.v@[i].1 { unimplemented!() } }
//@gsubst VecDeque ~> Vec
//@gsubst push_back ~> push
//@gsubst Arc<Mutex<Vec<$t>>> ~> Locked<Vec<$t>>
//@gsubst Arc<Mutex<$t>> ~> Locked<$t>
//@gsubst Arc::new(Mutex::new($$e)), ~> Locked::holding($$e),
//@gsubst Arc<AtomicBool> ~> Flag
//@gsubst Arc::new(AtomicBool::new($b)) ~> Flag::is($b)
//@gsubst Resource::builder().build() ~> detected_resource()
//@gsubst self.metrics.clone() ~> self.metrics.share()
//@gsubst , std::sync::atomic::Ordering::Relaxed ~>
//@gsubst std::sync::atomic::Ordering::Relaxed ~>
//@gsubst $g.iter().cloned().collect() ~> dup_all(&*$g)
//@gsubst $g.iter().map(Self::clone_metrics).collect() ~> mapped(&*$g, |m: &ResourceMetrics| -> (r: ResourceMetrics) ensures like(*m, r) { Self::clone_metrics(m) })
//@gsubst InMemoryExporterError::from ~> |e: Poison| -> (x: InMemoryExporterError) { InMemoryExporterError::from(e) }
//@gsubst OTelSdkError::InternalFailure(format!($$f)) ~> OTelSdkError::InternalFailure
//@gsubst OTelSdkError::InternalFailure($$f.to_string()) ~> OTelSdkError::InternalFailure
//@gsubst .map_err(|_| $$b) ~> .map_err(|e: Poison| -> (x: OTelSdkError) { $$b })
//@gsubst .map_err(|$e| $$b) ~> .map_err(|$e: Poison| -> (x: OTelSdkError) { $$b })
//@gsubst self.$f.lock().map(|mut $g| $$b).map_err($$h) ~> match self.$f.lock() { Ok($g) => Ok($$b), Err(e) => Err(($$h)(e)) }
//@gsubst self.$f.lock().map(|mut $g| $$b).expect($$h) ~> match self.$f.lock() { Ok($g) => $$b, Err(e) => gone() }
//@gsubst self.$f.lock().map(|mut $g| $$b) ~> match self.$f.lock() { Ok($g) => Ok($$b), Err(e) => Err(e) }
//@gsubst self.$f.lock().map(|$g| $$b).map_err($$h) ~> match self.$f.lock() { Ok($g) => Ok($$b), Err(e) => Err(($$h)(e)) }
//@gsubst let mut $g = self.$f.lock().map_err($$h)?; ~> let $g = match self.$f.lock() { Ok(g) => g, Err(e) => return Err(($$h)(e)) };
//@gsubst let $g = self.$f.lock().map_err($$h)?; ~> let $g = match self.$f.lock() { Ok(g) => g, Err(e) => return Err(($$h)(e)) };
//@gsubst let mut $g = self.$f.lock().expect($$h); ~> let $g = match self.$f.lock() { Ok(g) => g, Err(e) => gone() };
//@gsubst $a.clone() ~> $a.dup()
//@gsubst $a.append(&mut $b.dup()) ~> { let mut more = $b.dup(); $a.append(&mut more) }

// ---- spans ----
//@item opentelemetry-sdk/src/trace/in_memory_exporter.rs struct InMemorySpanExporter
//@item opentelemetry-sdk/src/trace/in_memory_exporter.rs struct InMemorySpanExporterBuilder
impl InMemorySpanExporterBuilder {
//@fn opentelemetry-sdk/src/trace/in_memory_exporter.rs impl InMemorySpanExporterBuilder :: fn new
//@endfn
//@fn opentelemetry-sdk/src/trace/in_memory_exporter.rs impl InMemorySpanExporterBuilder :: fn build
//@ret r
//@contract
    ensures held(r.spans)@.len() == 0, !poisoned(r.spans), !poisoned(r.resource),
//@endfn
}
impl InMemorySpanExporter {
//@fn opentelemetry-sdk/src/trace/in_memory_exporter.rs impl InMemorySpanExporter :: fn get_finished_spans
//@sig fn get_finished_spans(&mut self) -> Result<Vec<SpanData>, InMemoryExporterError>
//@ret r
//@contract
    ensures held(final(self).spans) == held(old(self).spans), which(final(self).spans) == which(old(self).spans), poisoned(old(self).spans) <==> r is Err,
        r is Ok ==> r->Ok_0@ == held(old(self).spans)@,
//@endfn
//@fn opentelemetry-sdk/src/trace/in_memory_exporter.rs impl InMemorySpanExporter :: fn reset
//@sig fn reset(&mut self)
//@contract
    ensures !poisoned(old(self).spans) ==> held(final(self).spans)@.len() == 0, which(final(self).spans) == which(old(self).spans), poisoned(final(self).spans) == poisoned(old(self).spans), final(self).resource == old(self).resource,
//@endfn
//@fn opentelemetry-sdk/src/trace/in_memory_exporter.rs impl SpanExporter for InMemorySpanExporter :: fn export
//@sig fn export(&mut self, batch: Vec<SpanData>) -> OTelSdkResult
//@ret r
//@contract
    // the whole batch, in order, behind what is there; or an error
    ensures poisoned(old(self).spans) <==> r is Err, r is Ok ==> held(final(self).spans)@ == held(old(self).spans)@ + batch@, r is Err ==> held(final(self).spans) == held(old(self).spans),
        which(final(self).spans) == which(old(self).spans), poisoned(final(self).spans) == poisoned(old(self).spans), final(self).resource == old(self).resource,
//@endfn
//@fn opentelemetry-sdk/src/trace/in_memory_exporter.rs impl SpanExporter for InMemorySpanExporter :: fn shutdown
//@ret r
//@contract
    ensures r is Ok, !poisoned(old(self).spans) ==> held(final(self).spans)@.len() == 0, which(final(self).spans) == which(old(self).spans),
//@endfn
//@fn opentelemetry-sdk/src/trace/in_memory_exporter.rs impl SpanExporter for InMemorySpanExporter :: fn set_resource
//@contract
    ensures held(final(self).resource) == *resource, final(self).spans == old(self).spans,
//@endfn
}
// ---- log records ----
//@gsubst Cow<'static, Resource> ~> Resource
//@item opentelemetry-sdk/src/logs/in_memory_exporter.rs struct InMemoryLogExporter
//@item opentelemetry-sdk/src/logs/in_memory_exporter.rs struct OwnedLogData
//@item opentelemetry-sdk/src/logs/in_memory_exporter.rs struct LogDataWithResource
//@item opentelemetry-sdk/src/logs/in_memory_exporter.rs struct InMemoryLogExporterBuilder
spec fn owned(v: Seq<(SdkLogRecord, InstrumentationScope)>) -> Seq<OwnedLogData> { v.map_values(|p: (SdkLogRecord, InstrumentationScope)| OwnedLogData { record: p.0, instrumentation: p.1 }) }
spec fn with_resource(v: Seq<OwnedLogData>, res: Resource) -> Seq<LogDataWithResource> { v.map_values(|p: OwnedLogData| LogDataWithResource { record: p.record, instrumentation: p.instrumentation, resource: res }) }
impl InMemoryLogExporterBuilder {
//@fn opentelemetry-sdk/src/logs/in_memory_exporter.rs impl InMemoryLogExporterBuilder :: fn new
//@ret r
//@contract
    ensures r.reset_on_shutdown,
//@endfn
//@fn opentelemetry-sdk/src/logs/in_memory_exporter.rs impl InMemoryLogExporterBuilder :: fn build
//@ret r
//@contract
    ensures held(r.logs)@.len() == 0, !poisoned(r.logs), !poisoned(r.resource), held(r.resource) == detected(), r.should_reset_on_shutdown == self.reset_on_shutdown, !up(r.shutdown_called),
//@endfn
}
impl InMemoryLogExporter {
//@fn opentelemetry-sdk/src/logs/in_memory_exporter.rs impl InMemoryLogExporter :: fn is_shutdown_called
//@ret r
//@contract
    ensures r == up(self.shutdown_called),
//@endfn
//@fn opentelemetry-sdk/src/logs/in_memory_exporter.rs impl InMemoryLogExporter :: fn get_emitted_logs
//@sig fn get_emitted_logs(&mut self) -> Result<Vec<LogDataWithResource>, InMemoryExporterError>
//@ret r
//@subst let logs: Vec<LogDataWithResource> = $g.iter().map(|$l| $$b).collect(); ~> let res: &Resource = &*resource_guard; let logs: Vec<LogDataWithResource> = mapped(&*$g, |$l: &OwnedLogData| -> (r: LogDataWithResource) ensures r == (LogDataWithResource { record: $l.record, instrumentation: $l.instrumentation, resource: *res }) { $$b });
//@subst resource: Cow::Owned(resource_guard.dup()) ~> resource: res.dup()
//@before Ok(logs)
    proof { assert(logs@ =~= with_resource(held(old(self).logs)@, held(old(self).resource))); }
//@contract
    ensures held(final(self).logs) == held(old(self).logs), held(final(self).resource) == held(old(self).resource), up(final(self).shutdown_called) == up(old(self).shutdown_called), poisoned(old(self).logs) || poisoned(old(self).resource) <==> r is Err,
        r is Ok ==> r->Ok_0@ == with_resource(held(old(self).logs)@, held(old(self).resource)),
//@endfn
//@fn opentelemetry-sdk/src/logs/in_memory_exporter.rs impl InMemoryLogExporter :: fn reset
//@sig fn reset(&mut self)
//@contract
    ensures !poisoned(old(self).logs) ==> held(final(self).logs)@.len() == 0, which(final(self).logs) == which(old(self).logs), poisoned(final(self).logs) == poisoned(old(self).logs), final(self).resource == old(self).resource, final(self).shutdown_called == old(self).shutdown_called, final(self).should_reset_on_shutdown == old(self).should_reset_on_shutdown,
//@endfn
//@fn opentelemetry-sdk/src/logs/in_memory_exporter.rs impl LogExporter for InMemoryLogExporter :: fn export
//@sig fn export(&mut self, batch: LogBatch) -> OTelSdkResult
//@ret r
//@subst for ($a, $b) in batch.iter() { ~> let pairs = batch.pairs(); let ghost before = logs_guard@; proof { assert(before =~= before + owned(batch.v@.take(0))); } for pair in it: pairs { let ($a, $b) = pair; 
//@subst (*$a).clone() ~> $a.dup()
//@loop 0
    invariant it.seq() == pairs@, pairs@.len() == batch.v@.len(), forall|i: int| #![trigger pairs@[i]] 0 <= i < pairs@.len() ==> *pairs@[i].0 == batch.v@[i].0 && *pairs@[i].1 == batch.v@[i].1,
        logs_guard@ == before + owned(batch.v@.take(it.index@)),
//@after logs_guard.push(owned_log);
    proof { assert(batch.v@.take(it.index@ + 1) =~= batch.v@.take(it.index@).push(batch.v@[it.index@])); assert(logs_guard@ =~= before + owned(batch.v@.take(it.index@ + 1))); }
//@before Ok(())
    proof { assert(batch.v@.take(batch.v@.len() as int) =~= batch.v@); }
//@contract
    ensures poisoned(old(self).logs) <==> r is Err, r is Ok ==> held(final(self).logs)@ == held(old(self).logs)@ + owned(batch.v@), r is Err ==> held(final(self).logs) == held(old(self).logs),
        which(final(self).logs) == which(old(self).logs), final(self).resource == old(self).resource, final(self).shutdown_called == old(self).shutdown_called, final(self).should_reset_on_shutdown == old(self).should_reset_on_shutdown,
//@endfn
//@fn opentelemetry-sdk/src/logs/in_memory_exporter.rs impl LogExporter for InMemoryLogExporter :: fn shutdown
//@sig fn shutdown(&mut self) -> OTelSdkResult
//@ret r
//@contract
    ensures r is Ok, up(final(self).shutdown_called), final(self).resource == old(self).resource,
        !poisoned(old(self).logs) && old(self).should_reset_on_shutdown ==> held(final(self).logs)@.len() == 0, !old(self).should_reset_on_shutdown ==> held(final(self).logs) == held(old(self).logs),
//@endfn
//@fn opentelemetry-sdk/src/logs/in_memory_exporter.rs impl LogExporter for InMemoryLogExporter :: fn set_resource
//@contract
    ensures held(final(self).resource) == *resource, final(self).logs == old(self).logs, final(self).shutdown_called == old(self).shutdown_called, final(self).should_reset_on_shutdown == old(self).should_reset_on_shutdown,
//@endfn
}
// ---- metrics ----
//@gsubst Cow<'static, str> ~> Text
//@gsubst f64 ~> F
//@item opentelemetry-sdk/src/metrics/mod.rs enum Temporality
impl Copy for Temporality {}
impl Clone for Temporality { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Temporality { #[verifier::external_body] fn standard() -> (r: Temporality) ensures r == Temporality::Cumulative { unimplemented!() } }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] struct GaugeDataPoint<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] struct SumDataPoint<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] struct HistogramDataPoint<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] struct ExponentialHistogramDataPoint<T> { x: core::marker::PhantomData<T> }
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct Gauge
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct Sum
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct Histogram
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct ExponentialHistogram
//@item opentelemetry-sdk/src/metrics/data/mod.rs enum MetricData
//@item opentelemetry-sdk/src/metrics/data/mod.rs enum AggregatedMetrics
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct Metric
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct ScopeMetrics
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct ResourceMetrics
trait IntoData<T>: Sized { spec fn data(self) -> MetricData<T>; fn into_data(self) -> (r: MetricData<T>) ensures r == self.data(); }
impl<T> IntoData<T> for Gauge<T> { spec fn data(self) -> MetricData<T> { MetricData::Gauge(self) } fn into_data(self) -> MetricData<T> { MetricData::from_gauge(self) } }
impl<T> IntoData<T> for Sum<T> { spec fn data(self) -> MetricData<T> { MetricData::Sum(self) } fn into_data(self) -> MetricData<T> { MetricData::from_sum(self) } }
impl<T> IntoData<T> for Histogram<T> { spec fn data(self) -> MetricData<T> { MetricData::Histogram(self) } fn into_data(self) -> MetricData<T> { MetricData::from_histogram(self) } }
impl<T> IntoData<T> for ExponentialHistogram<T> { spec fn data(self) -> MetricData<T> { MetricData::ExponentialHistogram(self) } fn into_data(self) -> MetricData<T> { MetricData::from_expo(self) } }
impl<T> MetricData<T> {
//@fn opentelemetry-sdk/src/metrics/data/mod.rs impl From<Gauge<T>> for MetricData<T> :: fn from
//@name from_gauge
//@ret r
//@contract
    ensures r == MetricData::Gauge(value),
//@endfn
//@fn opentelemetry-sdk/src/metrics/data/mod.rs impl From<Sum<T>> for MetricData<T> :: fn from
//@name from_sum
//@ret r
//@contract
    ensures r == MetricData::Sum(value),
//@endfn
//@fn opentelemetry-sdk/src/metrics/data/mod.rs impl From<Histogram<T>> for MetricData<T> :: fn from
//@name from_histogram
//@ret r
//@contract
    ensures r == MetricData::Histogram(value),
//@endfn
//@fn opentelemetry-sdk/src/metrics/data/mod.rs impl From<ExponentialHistogram<T>> for MetricData<T> :: fn from
//@name from_expo
//@ret r
//@contract
    ensures r == MetricData::ExponentialHistogram(value),
//@endfn
}
/// the copy is the original, down to every point
spec fn like_scope(a: ScopeMetrics, b: ScopeMetrics) -> bool { a.scope == b.scope && a.metrics@ == b.metrics@ }
spec fn like(a: ResourceMetrics, b: ResourceMetrics) -> bool { a.resource == b.resource && a.scope_metrics@.len() == b.scope_metrics@.len() && forall|i: int| #![trigger b.scope_metrics@[i]] 0 <= i < b.scope_metrics@.len() ==> like_scope(a.scope_metrics@[i], b.scope_metrics@[i]) }
//@gsubst .into() ~> .into_data()
//@item opentelemetry-sdk/src/metrics/in_memory_exporter.rs struct InMemoryMetricExporter
//@item opentelemetry-sdk/src/metrics/in_memory_exporter.rs struct InMemoryMetricExporterBuilder
impl InMemoryMetricExporterBuilder {
//@fn opentelemetry-sdk/src/metrics/in_memory_exporter.rs impl InMemoryMetricExporterBuilder :: fn new
//@ret r
//@contract
    ensures r.temporality is None,
//@endfn
//@fn opentelemetry-sdk/src/metrics/in_memory_exporter.rs impl InMemoryMetricExporterBuilder :: fn with_temporality
//@sig fn with_temporality(self0: Self, temporality: Temporality) -> Self
//@subst self.temporality = ~> let mut slf = self0; slf.temporality =
//@subst ; self ~> ; slf
//@ret r
//@contract
    ensures r.temporality == Some(temporality),
//@endfn
//@fn opentelemetry-sdk/src/metrics/in_memory_exporter.rs impl InMemoryMetricExporterBuilder :: fn build
//@subst self.temporality.unwrap_or_default() ~> (match self.temporality { Some(t) => t, None => Temporality::standard() })
//@ret r
//@contract
    ensures held(r.metrics)@.len() == 0, !poisoned(r.metrics), r.temporality == (match self.temporality { Some(t) => t, None => Temporality::Cumulative }),
//@endfn
}
//@fn opentelemetry-sdk/src/metrics/in_memory_exporter.rs impl InMemoryMetricExporter :: fn clone_data :: fn clone_inner
//@sig fn clone_inner<T>(data: &MetricData<T>) -> MetricData<T>
//@ret r
//@contract
    ensures r == *data,
//@endfn
impl InMemoryMetricExporter {
//@fn opentelemetry-sdk/src/metrics/in_memory_exporter.rs impl Clone for InMemoryMetricExporter :: fn clone
//@ret r
//@contract
    ensures which(r.metrics) == which(self.metrics), r.temporality == self.temporality,
//@endfn
//@fn opentelemetry-sdk/src/metrics/in_memory_exporter.rs impl InMemoryMetricExporter :: fn get_finished_metrics
//@sig fn get_finished_metrics(&mut self) -> Result<Vec<ResourceMetrics>, InMemoryExporterError>
//@ret r
//@contract
    ensures held(final(self).metrics) == held(old(self).metrics), which(final(self).metrics) == which(old(self).metrics), poisoned(old(self).metrics) <==> r is Err,
        r is Ok ==> r->Ok_0@.len() == held(old(self).metrics)@.len() && forall|i: int| 0 <= i < r->Ok_0@.len() ==> like(held(old(self).metrics)@[i], #[trigger] r->Ok_0@[i]),
//@endfn
//@fn opentelemetry-sdk/src/metrics/in_memory_exporter.rs impl InMemoryMetricExporter :: fn reset
//@sig fn reset(&mut self)
//@contract
    ensures !poisoned(old(self).metrics) ==> held(final(self).metrics)@.len() == 0, which(final(self).metrics) == which(old(self).metrics), final(self).temporality == old(self).temporality,
//@endfn
//@fn opentelemetry-sdk/src/metrics/in_memory_exporter.rs impl InMemoryMetricExporter :: fn clone_metrics
//@subst $m.scope_metrics.iter().map(|$s| $$b).collect() ~> mapped(&$m.scope_metrics, |$s: &ScopeMetrics| -> (r: ScopeMetrics) ensures like_scope(*$s, r) { $$b })
//@subst metrics: $s.metrics.iter().map(|$m| $$b).collect(), ~> metrics: { let copies = mapped(&$s.metrics, |$m: &Metric| -> (r: Metric) ensures r == *$m { $$b }); proof { assert(copies@ =~= $s.metrics@); } copies },
//@ret r
//@contract
    ensures like(*metric, r),
//@endfn
//@fn opentelemetry-sdk/src/metrics/in_memory_exporter.rs impl InMemoryMetricExporter :: fn clone_data
//@subst fn clone_inner<T: Clone>($$a) -> MetricData<T> { $$b } match data ~> match data
//@ret r
//@contract
    ensures r == *data,
//@endfn
//@fn opentelemetry-sdk/src/metrics/in_memory_exporter.rs impl PushMetricExporter for InMemoryMetricExporter :: fn export
//@sig fn export(&mut self, metrics: &mut ResourceMetrics) -> OTelSdkResult
//@ret r
//@contract
    ensures *final(metrics) == *old(metrics), poisoned(old(self).metrics) <==> r is Err, which(final(self).metrics) == which(old(self).metrics), final(self).temporality == old(self).temporality,
        r is Ok ==> held(final(self).metrics)@.len() == held(old(self).metrics)@.len() + 1 && held(final(self).metrics)@.drop_last() == held(old(self).metrics)@ && like(*old(metrics), held(final(self).metrics)@.last()),
        r is Err ==> held(final(self).metrics) == held(old(self).metrics),
//@endfn
//@fn opentelemetry-sdk/src/metrics/in_memory_exporter.rs impl PushMetricExporter for InMemoryMetricExporter :: fn force_flush
//@ret r
//@contract
    ensures r is Ok,
//@endfn
//@fn opentelemetry-sdk/src/metrics/in_memory_exporter.rs impl PushMetricExporter for InMemoryMetricExporter :: fn shutdown
//@ret r
//@contract
    ensures r is Ok,
//@endfn
//@fn opentelemetry-sdk/src/metrics/in_memory_exporter.rs impl PushMetricExporter for InMemoryMetricExporter :: fn shutdown_with_timeout
//@ret r
//@contract
    ensures r is Ok,
//@endfn
//@fn opentelemetry-sdk/src/metrics/in_memory_exporter.rs impl PushMetricExporter for InMemoryMetricExporter :: fn temporality
//@ret r
//@contract
    ensures r == self.temporality,
//@endfn
}
} // verus!
fn main() {}

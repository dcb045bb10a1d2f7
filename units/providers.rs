// Unit: the three providers (opentelemetry-sdk/src/{trace/provider,logs/logger_provider,metrics/meter_provider,metrics/pipeline}.rs):
// shutdown and flush reach every processor / reader once, in order; only the first shutdown counts, whichever thread it is on;
// tracers, loggers and meters made after it do nothing; builders keep everything they are given.
use vstd::prelude::*;
verus! {

struct OTelSdkError { shut: bool }                      // `shut`: AlreadyShutdown
type OTelSdkResult = Result<(), OTelSdkError>;
#[verifier::external_body] fn already() -> (r: OTelSdkError) ensures r.shut { unimplemented!() }
#[verifier::external_body] fn failure() -> (r: OTelSdkError) ensures !r.shut { unimplemented!() }
//@gsubst OTelSdkError::AlreadyShutdown ~> already()
//@gsubst crate::error::already() ~> already()
//@gsubst OTelSdkError::InternalFailure($$m) ~> failure()
//@gsubst crate::error::failure() ~> failure()
#[verifier::external_body] #[derive(Clone, Copy)] struct Duration { _p: u8 }
impl Duration { #[verifier::external_body] fn from_secs(s: u64) -> Duration { unimplemented!() } }

// ---- a flag that any thread may set and none resets ----
struct Flag { set: bool }
impl Flag {
    #[verifier::external_body] fn load(&mut self) -> (r: bool) ensures r == final(self).set, old(self).set ==> r { unimplemented!() }
    /// succeeds for one thread only
    #[verifier::external_body] fn compare_exchange(&mut self, a: bool, b: bool) -> (r: Result<bool, bool>)
        requires !a, b ensures final(self).set, old(self).set ==> r is Err { unimplemented!() }
    #[verifier::external_body] fn swap(&mut self, b: bool) -> (r: bool) requires b ensures final(self).set, old(self).set ==> r { unimplemented!() }
    fn new(b: bool) -> (r: Flag) ensures r.set == b { Flag { set: b } }
}
//@gsubst .load(Ordering::$o) ~> .load()
//@gsubst .load(std::sync::atomic::Ordering::$o) ~> .load()
//@gsubst .compare_exchange(false, true, Ordering::$o, Ordering::$p) ~> .compare_exchange(false, true)
//@gsubst .swap(true, std::sync::atomic::Ordering::$o) ~> .swap(true)
//@gsubst AtomicBool::new ~> Flag::new

// ---- processors and readers: what is called on which, in what order ----
#[derive(Clone, Copy)] #[verifier::external_body] struct Resource { _p: u8 }
uninterp spec fn merged(a: Resource, b: Resource) -> Resource;
uninterp spec fn default_resource() -> Resource;
impl Resource {
    #[verifier::external_body] fn merge(&self, o: &Resource) -> (r: Resource) ensures r == merged(*self, *o) { unimplemented!() }
    #[verifier::external_body] fn clone(&self) -> (r: Resource) ensures r == *self { unimplemented!() }
}
#[verifier::external_body] fn builder_default() -> (r: Resource) ensures r == default_resource() { unimplemented!() }
//@gsubst Resource::builder().build() ~> builder_default()
#[verifier::external_body] fn same(a: &Resource, b: &Resource) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
enum Op { Shutdown, Flush, Set(Resource), Register(int) }
struct Log { calls: Ghost<Seq<(int, Op)>> }
/// the outcome of the n-th call
uninterp spec fn ans(n: int) -> OTelSdkResult;
struct Proc { id: Ghost<int> }
impl Proc {
    #[verifier::external_body] fn shutdown(&self, log: &mut Log) -> (r: OTelSdkResult) ensures final(log).calls@ == old(log).calls@.push((self.id@, Op::Shutdown)), r == ans(old(log).calls@.len() as int) { unimplemented!() }
    #[verifier::external_body] fn force_flush(&self, log: &mut Log) -> (r: OTelSdkResult) ensures final(log).calls@ == old(log).calls@.push((self.id@, Op::Flush)), r == ans(old(log).calls@.len() as int) { unimplemented!() }
    #[verifier::external_body] fn set_resource(&self, log: &mut Log, r: &Resource) ensures final(log).calls@ == old(log).calls@.push((self.id@, Op::Set(*r))) { unimplemented!() }
}
/// one call of `op` on each of `ps`, in order
spec fn each(ps: Seq<Proc>, op: Op) -> Seq<(int, Op)> { ps.map_values(|p: Proc| (p.id@, op)) }
/// every one of the k calls from the n-th on succeeded
spec fn all_fine(n: int, k: int) -> bool { forall|i: int| n <= i < n + k ==> (#[trigger] ans(i)) is Ok }
proof fn each_step(ps: Seq<Proc>, k: int, op: Op) requires 0 <= k < ps.len()
    ensures each(ps.take(k + 1), op) =~= each(ps.take(k), op).push((ps[k].id@, op)) {}
#[verifier::external_body] fn all_ok(v: &Vec<OTelSdkResult>) -> (r: bool) ensures r == (forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]) is Ok) { unimplemented!() }
//@gsubst $v.iter().all(|r| r.is_ok()) ~> all_ok(&$v)
//@gsubst $v.iter().all(|res| res.is_ok()) ~> all_ok(&$v)
//@gsubst .iter().map(|processor| processor.force_flush()).collect() ~> .flush_each(log)
//@gsubst processor.shutdown() ~> processor.shutdown(log)
//@gsubst $p.set_resource($$r) ~> $p.set_resource(log, $$r)
//@gsubst for $p in &mut processors { $$b } ~> for $p in &processors { $$b }
trait FlushEach { spec fn ps(&self) -> Seq<Proc>; fn flush_each(&self, log: &mut Log) -> (r: Vec<OTelSdkResult>)
    ensures final(log).calls@ == old(log).calls@ + each(self.ps(), Op::Flush), r@.len() == self.ps().len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == ans(old(log).calls@.len() + i); }
impl FlushEach for [Proc] { spec fn ps(&self) -> Seq<Proc> { self@ }
    fn flush_each(&self, log: &mut Log) -> (r: Vec<OTelSdkResult>) {
        let mut out: Vec<OTelSdkResult> = Vec::new();
        let mut i: usize = 0;
        proof { assert(self@.take(0) =~= seq![]); assert(each(self@.take(0), Op::Flush) =~= seq![]); assert(old(log).calls@ + each(self@.take(0), Op::Flush) =~= old(log).calls@); }
        while i < self.len()
            invariant i <= self@.len(), log.calls@ == old(log).calls@ + each(self@.take(i as int), Op::Flush), out@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] out@[j] == ans(old(log).calls@.len() + j)
            decreases self@.len() - i
        {
            proof { each_step(self@, i as int, Op::Flush); }
            out.push(self[i].force_flush(log));
            i = i + 1;
        }
        proof { assert(self@.take(i as int) =~= self@); }
        out
    }
}
#[verifier::external_body] struct InstrumentationScope { _p: u8 }
impl InstrumentationScope { #[verifier::external_body] fn clone(&self) -> (r: InstrumentationScope) ensures r == *self { unimplemented!() } }
uninterp spec fn scope_of(n: Text) -> InstrumentationScope;
#[verifier::external_body] struct Text { _p: u8 }
#[verifier::external_body] fn scope_from(n: Text) -> (r: InstrumentationScope) ensures r == scope_of(n) { unimplemented!() }
#[verifier::external_body] fn nameless(s: &InstrumentationScope) -> bool { unimplemented!() }
//@gsubst impl Into<Cow<'static, str>> ~> Text
//@gsubst InstrumentationScope::builder(name).build() ~> scope_from(name)
//@gsubst scope.name().is_empty() ~> nameless(&scope)

mod trace {
use super::*;
    #[verifier::external_body] pub(crate) struct AnySampler { _p: u8 }
    #[verifier::external_body] pub(crate) struct AnyIds { _p: u8 }
    pub(crate) enum Cow { Borrowed(Resource), Owned(Resource) }
    impl Cow {
        spec fn v(&self) -> Resource { match *self { Cow::Borrowed(r) => r, Cow::Owned(r) => r } }
        #[verifier::external_body] fn as_ref(&self) -> (r: &Resource) ensures *r == self.v() { unimplemented!() }
    }
    pub(crate)
//@item opentelemetry-sdk/src/trace/span_limit.rs struct SpanLimits
    pub(crate) struct Config { sampler: AnySampler, id_generator: AnyIds, span_limits: SpanLimits, resource: Cow }
    pub(crate) struct TracerProviderInner { processors: Vec<Proc>, config: Config, is_shutdown: Flag }
    impl TracerProviderInner {
//@fn opentelemetry-sdk/src/trace/provider.rs impl TracerProviderInner :: fn shutdown
//@sig fn shutdown(&self, log: &mut Log) -> Vec<OTelSdkResult>
//@subst? if let Err(err) = &result { } ~> 
//@ret r
//@contract
    ensures
        // every processor is shut down once, in order of registration, whatever the others answer
        final(log).calls@ == old(log).calls@ + each(self.processors@, Op::Shutdown),
        r@.len() == self.processors@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == ans(old(log).calls@.len() + i),
//@loop 0 it
        invariant
            it.seq().len() == self.processors@.len(), forall|i: int| 0 <= i < self.processors@.len() ==> *(#[trigger] it.seq()[i]) == self.processors@[i],
            log.calls@ =~= old(log).calls@ + each(self.processors@.take(it.index@ as int), Op::Shutdown),
            results@.len() == it.index@, forall|j: int| 0 <= j < it.index@ ==> #[trigger] results@[j] == ans(old(log).calls@.len() + j),
//@inloop 0
            proof { each_step(self.processors@, it.index@ as int, Op::Shutdown); }
//@afterloop 0
        proof { assert(self.processors@.take(self.processors@.len() as int) =~= self.processors@); }
//@endfn
//@fn opentelemetry-sdk/src/trace/provider.rs impl Drop for TracerProviderInner :: fn drop
//@sig fn drop(&mut self, log: &mut Log)
//@subst self.shutdown() ~> self.shutdown(log)
//@contract
    ensures final(self).processors == old(self).processors,
        // dropped without a shutdown: the processors are shut down; otherwise they are left alone
        final(log).calls@ == (if final(self).is_shutdown.set { old(log).calls@ } else { old(log).calls@ + each(old(self).processors@, Op::Shutdown) }),
        old(self).is_shutdown.set ==> final(self).is_shutdown.set,
//@endfn
    }
    pub(crate) struct SdkTracerProvider { inner: TracerProviderInner, id: Ghost<int> }
    /// a handle on a provider: this one, or the one that does nothing
    pub(crate) enum Handle { Of(Ghost<int>), Noop }
    pub(crate) struct NoopRef { p: Ghost<int> }
    impl NoopRef { #[verifier::external_body] fn clone(&self) -> (r: Handle) ensures r == Handle::Noop { unimplemented!() } }
    #[verifier::external_body] fn noop_tracer_provider() -> NoopRef { unimplemented!() }
    pub(crate) struct SdkTracer { scope: InstrumentationScope, provider: Handle }
    impl SdkTracer { fn new(scope: InstrumentationScope, provider: Handle) -> (r: SdkTracer) ensures r.scope == scope, r.provider == provider { SdkTracer { scope, provider } } }
    impl SdkTracerProvider {
        #[verifier::external_body] fn clone(&self) -> (r: Handle) ensures r == Handle::Of(self.id) { unimplemented!() }
        fn new(inner: TracerProviderInner) -> (r: SdkTracerProvider) ensures r.inner == inner { SdkTracerProvider { inner, id: Ghost(0) } }
//@fn opentelemetry-sdk/src/trace/provider.rs impl SdkTracerProvider :: fn span_processors
//@sig fn span_processors(&self) -> &[Proc]
//@ret r
//@contract
    ensures r@ == self.inner.processors@,
//@endfn
//@fn opentelemetry-sdk/src/trace/provider.rs impl SdkTracerProvider :: fn is_shutdown
//@sig fn is_shutdown(&mut self) -> bool
//@ret r
//@contract
    ensures r == final(self).inner.is_shutdown.set, old(self).inner.is_shutdown.set ==> r,
//@endfn
//@fn opentelemetry-sdk/src/trace/provider.rs impl SdkTracerProvider :: fn force_flush
//@sig fn force_flush(&self, log: &mut Log) -> OTelSdkResult
//@ret r
//@contract
    ensures final(log).calls@ == old(log).calls@ + each(self.inner.processors@, Op::Flush),
        r is Ok <==> all_fine(old(log).calls@.len() as int, self.inner.processors@.len() as int),
//@start
        let ghost n0 = old(log).calls@.len() as int;
//@before if all_ok
        proof { assert forall|i: int| n0 <= i < n0 + result@.len() implies #[trigger] ans(i) == result@[i - n0] by { assert(result@[i - n0] == ans(n0 + (i - n0))); } }
//@endfn
//@fn opentelemetry-sdk/src/trace/provider.rs impl SdkTracerProvider :: fn shutdown
//@sig fn shutdown(&mut self, log: &mut Log) -> OTelSdkResult
//@subst self.inner.shutdown() ~> self.inner.shutdown(log)
//@ret r
//@contract
    ensures final(self).inner.is_shutdown.set, final(self).inner.processors == old(self).inner.processors, final(self).inner.config == old(self).inner.config,
        // after the first call: refused, nothing is called
        old(self).inner.is_shutdown.set ==> (r matches Err(e) && e.shut),
        // a call that is not refused shuts every processor down once and reports whether all succeeded
        (r matches Err(e) && e.shut) ==> final(log).calls@ == old(log).calls@,
        !(r matches Err(e) && e.shut) ==> final(log).calls@ == old(log).calls@ + each(old(self).inner.processors@, Op::Shutdown)
            && (r is Ok <==> all_fine(old(log).calls@.len() as int, old(self).inner.processors@.len() as int)),
//@start
        let ghost n0 = old(log).calls@.len() as int;
//@before if all_ok
        proof { assert forall|i: int| n0 <= i < n0 + results@.len() implies #[trigger] ans(i) == results@[i - n0] by { assert(results@[i - n0] == ans(n0 + (i - n0))); } }
//@endfn
//@fn opentelemetry-sdk/src/trace/provider.rs impl opentelemetry::trace::TracerProvider for SdkTracerProvider :: fn tracer
//@sig fn tracer(&mut self, name: Text) -> SdkTracer
//@ret r
//@contract
    ensures r.scope == scope_of(name), r.provider == (if final(self).inner.is_shutdown.set { Handle::Noop } else { Handle::Of(old(self).id) }), old(self).inner.is_shutdown.set ==> final(self).inner.is_shutdown.set,
//@endfn
//@fn opentelemetry-sdk/src/trace/provider.rs impl opentelemetry::trace::TracerProvider for SdkTracerProvider :: fn tracer_with_scope
//@sig fn tracer_with_scope(&mut self, scope: InstrumentationScope) -> SdkTracer
//@ret r
//@contract
    ensures r.scope == scope, old(self).inner.is_shutdown.set ==> final(self).inner.is_shutdown.set,
        // after shutdown: a tracer that does nothing; before: one of this provider
        r.provider == (if final(self).inner.is_shutdown.set { Handle::Noop } else { Handle::Of(old(self).id) }),
//@endfn
    }
    pub(crate) struct TracerProviderBuilder { processors: Vec<Proc>, config: Config, resource: Option<Resource> }
    #[verifier::external_body] fn static_resource(c: &Config) -> &Resource { unimplemented!() }
    impl TracerProviderBuilder {
//@fn opentelemetry-sdk/src/trace/provider.rs impl TracerProviderBuilder :: fn with_span_processor
//@sig fn with_span_processor(self, processor: Proc) -> Self
//@subst Box::new(processor) ~> processor
//@ret r
//@contract
    ensures r.processors@ == self.processors@.push(processor), r.config == self.config, r.resource == self.resource,
//@endfn
//@fn opentelemetry-sdk/src/trace/provider.rs impl TracerProviderBuilder :: fn with_resource
//@ret r
//@contract
    ensures r.processors == self.processors, r.config == self.config, r.resource == Some(match self.resource { Some(e) => merged(e, resource), None => resource }),
//@endfn
//@fn opentelemetry-sdk/src/trace/provider.rs impl TracerProviderBuilder :: fn with_max_events_per_span
//@sig fn with_max_events_per_span(self0: Self, max_events: u32) -> Self
//@subst self ~> slf
//@start
        let mut slf = self0;
//@ret r
//@contract
    ensures r == (TracerProviderBuilder { config: Config { span_limits: SpanLimits { max_events_per_span: max_events, ..self0.config.span_limits }, ..self0.config }, ..self0 }),
//@endfn
//@fn opentelemetry-sdk/src/trace/provider.rs impl TracerProviderBuilder :: fn with_max_attributes_per_span
//@sig fn with_max_attributes_per_span(self0: Self, max_attributes: u32) -> Self
//@subst self ~> slf
//@start
        let mut slf = self0;
//@ret r
//@contract
    ensures r == (TracerProviderBuilder { config: Config { span_limits: SpanLimits { max_attributes_per_span: max_attributes, ..self0.config.span_limits }, ..self0.config }, ..self0 }),
//@endfn
//@fn opentelemetry-sdk/src/trace/provider.rs impl TracerProviderBuilder :: fn with_max_links_per_span
//@sig fn with_max_links_per_span(self0: Self, max_links: u32) -> Self
//@subst self ~> slf
//@start
        let mut slf = self0;
//@ret r
//@contract
    ensures r == (TracerProviderBuilder { config: Config { span_limits: SpanLimits { max_links_per_span: max_links, ..self0.config.span_limits }, ..self0.config }, ..self0 }),
//@endfn
//@fn opentelemetry-sdk/src/trace/provider.rs impl TracerProviderBuilder :: fn with_max_attributes_per_event
//@sig fn with_max_attributes_per_event(self0: Self, max_attributes: u32) -> Self
//@subst self ~> slf
//@start
        let mut slf = self0;
//@ret r
//@contract
    ensures r == (TracerProviderBuilder { config: Config { span_limits: SpanLimits { max_attributes_per_event: max_attributes, ..self0.config.span_limits }, ..self0.config }, ..self0 }),
//@endfn
//@fn opentelemetry-sdk/src/trace/provider.rs impl TracerProviderBuilder :: fn with_max_attributes_per_link
//@sig fn with_max_attributes_per_link(self0: Self, max_attributes: u32) -> Self
//@subst self ~> slf
//@start
        let mut slf = self0;
//@ret r
//@contract
    ensures r == (TracerProviderBuilder { config: Config { span_limits: SpanLimits { max_attributes_per_link: max_attributes, ..self0.config.span_limits }, ..self0.config }, ..self0 }),
//@endfn
//@fn opentelemetry-sdk/src/trace/provider.rs impl TracerProviderBuilder :: fn with_span_limits
//@sig fn with_span_limits(self0: Self, span_limits: SpanLimits) -> Self
//@subst self ~> slf
//@start
        let mut slf = self0;
//@ret r
//@contract
    ensures r == (TracerProviderBuilder { config: Config { span_limits, ..self0.config }, ..self0 }),
//@endfn
//@fn opentelemetry-sdk/src/trace/provider.rs impl TracerProviderBuilder :: fn with_sampler
//@sig fn with_sampler(self0: Self, sampler: AnySampler) -> Self
//@subst self ~> slf
//@subst Box::new(sampler) ~> sampler
//@start
        let mut slf = self0;
//@ret r
//@contract
    ensures r == (TracerProviderBuilder { config: Config { sampler, ..self0.config }, ..self0 }),
//@endfn
//@fn opentelemetry-sdk/src/trace/provider.rs impl TracerProviderBuilder :: fn with_id_generator
//@sig fn with_id_generator(self0: Self, id_generator: AnyIds) -> Self
//@subst self ~> slf
//@subst Box::new(id_generator) ~> id_generator
//@start
        let mut slf = self0;
//@ret r
//@contract
    ensures r == (TracerProviderBuilder { config: Config { id_generator, ..self0.config }, ..self0 }),
//@endfn
//@fn opentelemetry-sdk/src/trace/provider.rs impl TracerProviderBuilder :: fn build
//@sig fn build(self, log: &mut Log) -> SdkTracerProvider
//@subst? matches!(config.resource, Cow::Owned(_)) ~> is_owned(&config.resource)
//@subst? PROVIDER_RESOURCE.get_or_init(|| config.resource.clone().into_owned()) ~> static_resource(&config)
//@subst? match $$e { static_resource if *static_resource == *config.resource.as_ref() => { $$b } _ => config.resource, } ~> { let static_resource = $$e; if same(static_resource, config.resource.as_ref()) { $$b } else { config.resource } }
//@subst? Cow::Borrowed(static_resource) ~> Cow::Borrowed(*static_resource)
//@ret r
//@contract
    ensures
        !r.inner.is_shutdown.set, r.inner.processors == self.processors,
        // the given resource (or the configuration's) is the provider's, and every processor is told it
        r.inner.config.resource.v() == (match self.resource { Some(x) => x, None => self.config.resource.v() }),
        final(log).calls@ == old(log).calls@ + each(self.processors@, Op::Set(r.inner.config.resource.v())),
        r.inner.config.sampler == self.config.sampler, r.inner.config.id_generator == self.config.id_generator, r.inner.config.span_limits == self.config.span_limits,
//@loop 0 it
        invariant
            it.seq().len() == processors@.len(), forall|i: int| 0 <= i < processors@.len() ==> *(#[trigger] it.seq()[i]) == processors@[i],
            log.calls@ =~= old(log).calls@ + each(processors@.take(it.index@ as int), Op::Set(config.resource.v())),
//@inloop 0
            proof { each_step(processors@, it.index@ as int, Op::Set(config.resource.v())); }
//@afterloop 0
        proof { assert(processors@.take(processors@.len() as int) =~= processors@); }
//@endfn
    }
    #[verifier::external_body] fn is_owned(c: &Cow) -> (r: bool) ensures r == (*c is Owned) { unimplemented!() }
}

mod logs {
use super::*;
    pub(crate) struct LoggerProviderInner { processors: Vec<Proc>, is_shutdown: Flag }
    impl LoggerProviderInner {
//@fn opentelemetry-sdk/src/logs/logger_provider.rs impl LoggerProviderInner :: fn shutdown
//@sig fn shutdown(&self, log: &mut Log) -> Vec<OTelSdkResult>
//@subst? if let Err(err) = &result { } ~> 
//@ret r
//@contract
    ensures
        final(log).calls@ == old(log).calls@ + each(self.processors@, Op::Shutdown),
        r@.len() == self.processors@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == ans(old(log).calls@.len() + i),
//@loop 0 it
        invariant
            it.seq().len() == self.processors@.len(), forall|i: int| 0 <= i < self.processors@.len() ==> *(#[trigger] it.seq()[i]) == self.processors@[i],
            log.calls@ =~= old(log).calls@ + each(self.processors@.take(it.index@ as int), Op::Shutdown),
            results@.len() == it.index@, forall|j: int| 0 <= j < it.index@ ==> #[trigger] results@[j] == ans(old(log).calls@.len() + j),
//@inloop 0
            proof { each_step(self.processors@, it.index@ as int, Op::Shutdown); }
//@afterloop 0
        proof { assert(self.processors@.take(self.processors@.len() as int) =~= self.processors@); }
//@endfn
//@fn opentelemetry-sdk/src/logs/logger_provider.rs impl Drop for LoggerProviderInner :: fn drop
//@sig fn drop(&mut self, log: &mut Log)
//@subst self.shutdown() ~> self.shutdown(log)
//@contract
    ensures final(self).processors == old(self).processors,
        final(log).calls@ == (if final(self).is_shutdown.set { old(log).calls@ } else { old(log).calls@ + each(old(self).processors@, Op::Shutdown) }),
        old(self).is_shutdown.set ==> final(self).is_shutdown.set,
//@endfn
    }
    pub(crate) enum Handle { Of(Ghost<int>), Noop }
    pub(crate) struct NoopRef { p: Ghost<int> }
    impl NoopRef { #[verifier::external_body] fn clone(&self) -> (r: Handle) ensures r == Handle::Noop { unimplemented!() } }
    #[verifier::external_body] fn noop_logger_provider() -> NoopRef { unimplemented!() }
    pub(crate) struct SdkLogger { scope: InstrumentationScope, provider: Handle }
    impl SdkLogger { fn new(scope: InstrumentationScope, provider: Handle) -> (r: SdkLogger) ensures r.scope == scope, r.provider == provider { SdkLogger { scope, provider } } }
    pub(crate) struct SdkLoggerProvider { inner: LoggerProviderInner, id: Ghost<int> }
    impl SdkLoggerProvider {
        #[verifier::external_body] fn clone(&self) -> (r: Handle) ensures r == Handle::Of(self.id) { unimplemented!() }
//@fn opentelemetry-sdk/src/logs/logger_provider.rs impl SdkLoggerProvider :: fn log_processors
//@sig fn log_processors(&self) -> &[Proc]
//@ret r
//@contract
    ensures r@ == self.inner.processors@,
//@endfn
//@fn opentelemetry-sdk/src/logs/logger_provider.rs impl SdkLoggerProvider :: fn force_flush
//@sig fn force_flush(&self, log: &mut Log) -> OTelSdkResult
//@ret r
//@contract
    ensures final(log).calls@ == old(log).calls@ + each(self.inner.processors@, Op::Flush),
        r is Ok <==> all_fine(old(log).calls@.len() as int, self.inner.processors@.len() as int),
//@start
        let ghost n0 = old(log).calls@.len() as int;
//@before if all_ok
        proof { assert forall|i: int| n0 <= i < n0 + result@.len() implies #[trigger] ans(i) == result@[i - n0] by { assert(result@[i - n0] == ans(n0 + (i - n0))); } }
//@endfn
//@fn opentelemetry-sdk/src/logs/logger_provider.rs impl SdkLoggerProvider :: fn shutdown
//@sig fn shutdown(&mut self, log: &mut Log) -> OTelSdkResult
//@subst self.inner.shutdown() ~> self.inner.shutdown(log)
//@ret r
//@contract
    ensures final(self).inner.is_shutdown.set, final(self).inner.processors == old(self).inner.processors,
        old(self).inner.is_shutdown.set ==> (r matches Err(e) && e.shut),
        (r matches Err(e) && e.shut) ==> final(log).calls@ == old(log).calls@,
        !(r matches Err(e) && e.shut) ==> final(log).calls@ == old(log).calls@ + each(old(self).inner.processors@, Op::Shutdown)
            && (r is Ok <==> all_fine(old(log).calls@.len() as int, old(self).inner.processors@.len() as int)),
//@start
        let ghost n0 = old(log).calls@.len() as int;
//@before if all_ok
        proof { assert forall|i: int| n0 <= i < n0 + result@.len() implies #[trigger] ans(i) == result@[i - n0] by { assert(result@[i - n0] == ans(n0 + (i - n0))); } }
//@endfn
//@fn opentelemetry-sdk/src/logs/logger_provider.rs impl opentelemetry::logs::LoggerProvider for SdkLoggerProvider :: fn logger
//@sig fn logger(&mut self, name: Text) -> SdkLogger
//@ret r
//@contract
    ensures r.scope == scope_of(name), r.provider == (if final(self).inner.is_shutdown.set { Handle::Noop } else { Handle::Of(old(self).id) }), old(self).inner.is_shutdown.set ==> final(self).inner.is_shutdown.set,
//@endfn
//@fn opentelemetry-sdk/src/logs/logger_provider.rs impl opentelemetry::logs::LoggerProvider for SdkLoggerProvider :: fn logger_with_scope
//@sig fn logger_with_scope(&mut self, scope: InstrumentationScope) -> SdkLogger
//@ret r
//@contract
    ensures r.scope == scope, old(self).inner.is_shutdown.set ==> final(self).inner.is_shutdown.set,
        r.provider == (if final(self).inner.is_shutdown.set { Handle::Noop } else { Handle::Of(old(self).id) }),
//@endfn
    }
    pub(crate) struct LoggerProviderBuilder { processors: Vec<Proc>, resource: Option<Resource> }
    impl LoggerProviderBuilder {
//@fn opentelemetry-sdk/src/logs/logger_provider.rs impl LoggerProviderBuilder :: fn with_log_processor
//@sig fn with_log_processor(self, processor: Proc) -> Self
//@subst Box::new(processor) ~> processor
//@ret r
//@contract
    ensures r.processors@ == self.processors@.push(processor), r.resource == self.resource,
//@endfn
//@fn opentelemetry-sdk/src/logs/logger_provider.rs impl LoggerProviderBuilder :: fn with_resource
//@ret r
//@contract
    ensures r.processors == self.processors, r.resource == Some(match self.resource { Some(e) => merged(e, resource), None => resource }),
//@endfn
//@fn opentelemetry-sdk/src/logs/logger_provider.rs impl LoggerProviderBuilder :: fn build
//@sig fn build(self, log: &mut Log) -> SdkLoggerProvider
//@subst inner: Arc::new($$e) ~> id: Ghost(0), inner: $$e
//@ret r
//@contract
    ensures
        !r.inner.is_shutdown.set, r.inner.processors == self.processors,
        // every processor is told the given resource, or the default one
        final(log).calls@ == old(log).calls@ + each(self.processors@, Op::Set(match self.resource { Some(x) => x, None => default_resource() })),
//@loop 0 it
        invariant
            it.seq().len() == processors@.len(), forall|i: int| 0 <= i < processors@.len() ==> *(#[trigger] it.seq()[i]) == processors@[i],
            log.calls@ =~= old(log).calls@ + each(processors@.take(it.index@ as int), Op::Set(resource)),
//@inloop 0
            proof { each_step(processors@, it.index@ as int, Op::Set(resource)); }
//@afterloop 0
        proof { assert(processors@.take(processors@.len() as int) =~= processors@); }
//@endfn
    }
}
mod metrics {
use super::*;
    /// a reader and the pipeline made for it
    pub(crate) struct Reader { p: Proc }
    impl Reader {
        fn force_flush(&self, log: &mut Log) -> (r: OTelSdkResult) ensures final(log).calls@ == old(log).calls@.push((self.p.id@, Op::Flush)), r == ans(old(log).calls@.len() as int) { self.p.force_flush(log) }
        fn shutdown(&self, log: &mut Log) -> (r: OTelSdkResult) ensures final(log).calls@ == old(log).calls@.push((self.p.id@, Op::Shutdown)), r == ans(old(log).calls@.len() as int) { self.p.shutdown(log) }
        #[verifier::external_body] fn register_pipeline(&self, log: &mut Log, w: Weak) ensures final(log).calls@ == old(log).calls@.push((self.p.id@, Op::Register(w.pipe@))) { unimplemented!() }
    }
    /// a weak reference to the pipeline whose reader has this id
    pub(crate) struct Weak { pipe: Ghost<int> }
    #[verifier::external_body] fn downgrade(p: &Pipeline) -> (r: Weak) ensures r.pipe@ == p.reader.p.id@ { unimplemented!() }
    #[verifier::external_body] pub(crate) struct Views { _p: u8 }
    impl Views { #[verifier::external_body] fn clone(&self) -> (r: Views) ensures r == *self { unimplemented!() } }
    #[verifier::external_body] pub(crate) struct PipelineInner { _p: u8 }
    uninterp spec fn empty_inner() -> PipelineInner;
    #[verifier::external_body] fn default_inner() -> (r: PipelineInner) ensures r == empty_inner() { unimplemented!() }
    pub(crate) struct Pipeline { resource: Resource, reader: Reader, views: Views, inner: PipelineInner }
    impl Pipeline {
//@fn opentelemetry-sdk/src/metrics/pipeline.rs impl Pipeline :: fn force_flush
//@sig fn force_flush(&self, log: &mut Log) -> OTelSdkResult
//@subst self.reader.force_flush() ~> self.reader.force_flush(log)
//@ret r
//@contract
    ensures final(log).calls@ == old(log).calls@.push((self.reader.p.id@, Op::Flush)), r == ans(old(log).calls@.len() as int),
//@endfn
//@fn opentelemetry-sdk/src/metrics/pipeline.rs impl Pipeline :: fn shutdown
//@sig fn shutdown(&self, log: &mut Log) -> OTelSdkResult
//@subst self.reader.shutdown() ~> self.reader.shutdown(log)
//@ret r
//@contract
    ensures final(log).calls@ == old(log).calls@.push((self.reader.p.id@, Op::Shutdown)), r == ans(old(log).calls@.len() as int),
//@endfn
    }
    pub(crate) struct Pipelines { pipes: Vec<Pipeline> }
    spec fn rs(v: Seq<Pipeline>) -> Seq<Proc> { v.map_values(|x: Pipeline| x.reader.p) }
    spec fn readers_of(v: Seq<Reader>) -> Seq<Proc> { v.map_values(|x: Reader| x.p) }
    /// each reader is given its own pipeline
    spec fn registered(v: Seq<Proc>) -> Seq<(int, Op)> { v.map_values(|x: Proc| (x.id@, Op::Register(x.id@))) }
    proof fn rs_step(v: Seq<Pipeline>, k: int, op: Op) requires 0 <= k < v.len()
        ensures rs(v.take(k + 1)) =~= rs(v.take(k)).push(v[k].reader.p), each(rs(v.take(k + 1)), op) =~= each(rs(v.take(k)), op).push((v[k].reader.p.id@, op)) { assert(rs(v.take(k + 1)) =~= rs(v.take(k)).push(v[k].reader.p)); }
    impl Pipelines {
//@fn opentelemetry-sdk/src/metrics/pipeline.rs impl Pipelines :: fn new
//@sig fn new(log: &mut Log, res: Resource, readers: Vec<Reader>, views: Views) -> Pipelines
//@subst Arc::new(Pipeline { $$b }) ~> Pipeline { $$b }
//@subst inner: Default::default(), ~> inner: default_inner(),
//@subst p.reader.register_pipeline(Arc::downgrade(&p)) ~> p.reader.register_pipeline(log, downgrade(&p))
//@subst Pipelines(pipes) ~> Pipelines { pipes }
//@subst let mut pipes = Vec ~> let mut pipes: Vec<Pipeline> = Vec
//@ret r
//@contract
    ensures
        // one pipeline per reader, in order, each with the provider's resource and views and nothing in it yet, registered with its reader
        r.pipes@.len() == readers@.len(),
        forall|i: int| 0 <= i < r.pipes@.len() ==> (#[trigger] r.pipes@[i]).reader == readers@[i] && r.pipes@[i].resource == res && r.pipes@[i].views == views && r.pipes@[i].inner == empty_inner(),
        final(log).calls@ == old(log).calls@ + registered(readers_of(readers@)),
//@loop 0 it
        invariant
            it.seq() == readers@, pipes@.len() == it.index@,
            forall|i: int| 0 <= i < pipes@.len() ==> (#[trigger] pipes@[i]).reader == readers@[i] && pipes@[i].resource == res && pipes@[i].views == views && pipes@[i].inner == empty_inner(),
            log.calls@ =~= old(log).calls@ + registered(readers_of(readers@)).take(it.index@ as int),
//@afterloop 0
        proof { assert(registered(readers_of(readers@)).take(readers@.len() as int) =~= registered(readers_of(readers@))); }
//@endfn
//@fn opentelemetry-sdk/src/metrics/pipeline.rs impl Pipelines :: fn force_flush
//@sig fn force_flush(&self, log: &mut Log) -> OTelSdkResult
//@subst &self.0 ~> &self.pipes
//@subst pipeline.force_flush() ~> pipeline.force_flush(log)
//@subst let mut errs = vec![]; ~> let mut errs: Vec<OTelSdkError> = Vec::new();
//@ret r
//@contract
    ensures final(log).calls@ == old(log).calls@ + each(rs(self.pipes@), Op::Flush), r matches Err(e) ==> !e.shut,
        r is Ok <==> all_fine(old(log).calls@.len() as int, self.pipes@.len() as int),
//@loop 0 it
        invariant
            it.seq().len() == self.pipes@.len(), forall|i: int| 0 <= i < self.pipes@.len() ==> *(#[trigger] it.seq()[i]) == self.pipes@[i],
            log.calls@ =~= old(log).calls@ + each(rs(self.pipes@.take(it.index@ as int)), Op::Flush),
            errs@.len() == 0 <==> all_fine(old(log).calls@.len() as int, it.index@ as int),
//@inloop 0
            proof { rs_step(self.pipes@, it.index@ as int, Op::Flush); let n = old(log).calls@.len() as int; let k = it.index@ as int;
                assert(log.calls@.len() == n + k);
                assert(all_fine(n, k + 1) <==> all_fine(n, k) && ans(n + k) is Ok); }
//@afterloop 0
        proof { assert(self.pipes@.take(self.pipes@.len() as int) =~= self.pipes@); }
//@endfn
//@fn opentelemetry-sdk/src/metrics/pipeline.rs impl Pipelines :: fn shutdown
//@sig fn shutdown(&self, log: &mut Log) -> OTelSdkResult
//@subst &self.0 ~> &self.pipes
//@subst pipeline.shutdown() ~> pipeline.shutdown(log)
//@subst let mut errs = vec![]; ~> let mut errs: Vec<OTelSdkError> = Vec::new();
//@ret r
//@contract
    ensures final(log).calls@ == old(log).calls@ + each(rs(self.pipes@), Op::Shutdown), r matches Err(e) ==> !e.shut,
        r is Ok <==> all_fine(old(log).calls@.len() as int, self.pipes@.len() as int),
//@loop 0 it
        invariant
            it.seq().len() == self.pipes@.len(), forall|i: int| 0 <= i < self.pipes@.len() ==> *(#[trigger] it.seq()[i]) == self.pipes@[i],
            log.calls@ =~= old(log).calls@ + each(rs(self.pipes@.take(it.index@ as int)), Op::Shutdown),
            errs@.len() == 0 <==> all_fine(old(log).calls@.len() as int, it.index@ as int),
//@inloop 0
            proof { rs_step(self.pipes@, it.index@ as int, Op::Shutdown); let n = old(log).calls@.len() as int; let k = it.index@ as int;
                assert(log.calls@.len() == n + k);
                assert(all_fine(n, k + 1) <==> all_fine(n, k) && ans(n + k) is Ok); }
//@afterloop 0
        proof { assert(self.pipes@.take(self.pipes@.len() as int) =~= self.pipes@); }
//@endfn
    }
    pub(crate) struct SdkMeterProviderInner { pipes: Pipelines, meters: Meters, shutdown_invoked: Flag, id: Ghost<int> }
    impl SdkMeterProviderInner {
//@fn opentelemetry-sdk/src/metrics/meter_provider.rs impl SdkMeterProviderInner :: fn force_flush
//@sig fn force_flush(&mut self, log: &mut Log) -> OTelSdkResult
//@subst self.pipes.force_flush() ~> self.pipes.force_flush(log)
//@ret r
//@contract
    ensures final(self).pipes == old(self).pipes, old(self).shutdown_invoked.set ==> final(self).shutdown_invoked.set,
        final(self).shutdown_invoked.set ==> (r matches Err(e) && e.shut) && final(log).calls@ == old(log).calls@,
        !final(self).shutdown_invoked.set ==> final(log).calls@ == old(log).calls@ + each(rs(old(self).pipes.pipes@), Op::Flush)
            && (r is Ok <==> all_fine(old(log).calls@.len() as int, old(self).pipes.pipes@.len() as int)),
//@endfn
//@fn opentelemetry-sdk/src/metrics/meter_provider.rs impl SdkMeterProviderInner :: fn shutdown_with_timeout
//@sig fn shutdown_with_timeout(&mut self, log: &mut Log, _timeout: Duration) -> OTelSdkResult
//@subst self.pipes.shutdown() ~> self.pipes.shutdown(log)
//@ret r
//@contract
    ensures final(self).pipes == old(self).pipes, final(self).shutdown_invoked.set,
        old(self).shutdown_invoked.set ==> (r matches Err(e) && e.shut),
        (r matches Err(e) && e.shut) ==> final(log).calls@ == old(log).calls@,
        !(r matches Err(e) && e.shut) ==> final(log).calls@ == old(log).calls@ + each(rs(old(self).pipes.pipes@), Op::Shutdown)
            && (r is Ok <==> all_fine(old(log).calls@.len() as int, old(self).pipes.pipes@.len() as int)),
//@endfn
//@fn opentelemetry-sdk/src/metrics/meter_provider.rs impl SdkMeterProviderInner :: fn shutdown
//@sig fn shutdown(&mut self, log: &mut Log) -> OTelSdkResult
//@subst self.shutdown_with_timeout($$t) ~> self.shutdown_with_timeout(log, $$t)
//@ret r
//@contract
    ensures final(self).pipes == old(self).pipes, final(self).shutdown_invoked.set,
        old(self).shutdown_invoked.set ==> (r matches Err(e) && e.shut),
        (r matches Err(e) && e.shut) ==> final(log).calls@ == old(log).calls@,
        !(r matches Err(e) && e.shut) ==> final(log).calls@ == old(log).calls@ + each(rs(old(self).pipes.pipes@), Op::Shutdown)
            && (r is Ok <==> all_fine(old(log).calls@.len() as int, old(self).pipes.pipes@.len() as int)),
//@endfn
//@fn opentelemetry-sdk/src/metrics/meter_provider.rs impl Drop for SdkMeterProviderInner :: fn drop
//@sig fn drop(&mut self, log: &mut Log)
//@subst self.shutdown() ~> self.shutdown(log)
//@contract
    ensures
        // dropped without a shutdown: the readers are shut down; otherwise they are left alone
        old(self).shutdown_invoked.set ==> final(log).calls@ == old(log).calls@,
        final(log).calls@ == old(log).calls@ || final(log).calls@ == old(log).calls@ + each(rs(old(self).pipes.pipes@), Op::Shutdown),
        final(self).shutdown_invoked.set,
//@endfn
    }
    // ---- meters ----
    pub(crate) struct SdkMeter { scope: InstrumentationScope, pipes: Ghost<int> }
    impl SdkMeter {
        #[verifier::external_body] fn new(scope: InstrumentationScope, pipes: PipesRef) -> (r: SdkMeter) ensures r.scope == scope, r.pipes == pipes.id { unimplemented!() }
        #[verifier::external_body] fn clone(&self) -> (r: SdkMeter) ensures r == *self { unimplemented!() }
    }
    pub(crate) struct PipesRef { id: Ghost<int> }
    /// the meter given out: one of this provider, or one that does nothing
    pub(crate) enum Meter { Sdk(SdkMeter), Noop }
    pub(crate) struct Meters { m: Ghost<Map<InstrumentationScope, SdkMeter>>, poisoned: bool }
    impl Meters {
        #[verifier::external_body] fn lock(&mut self) -> (r: Result<&mut MeterMap, Poison>)
            ensures r is Err == old(self).poisoned, final(self).poisoned == old(self).poisoned,
                match r { Ok(e) => e.m@ == old(self).m@ && final(self).m@ == final(e).m@, Err(_) => final(self).m@ == old(self).m@ } { unimplemented!() }
    }
    pub(crate) struct Poison { p: u8 }
    pub(crate) struct MeterMap { m: Ghost<Map<InstrumentationScope, SdkMeter>> }
    impl MeterMap {
        #[verifier::external_body] fn get(&self, k: &InstrumentationScope) -> (r: Option<&SdkMeter>) ensures match r { Some(x) => self.m@.contains_key(*k) && *x == self.m@[*k], None => !self.m@.contains_key(*k) } { unimplemented!() }
        #[verifier::external_body] fn insert(&mut self, k: InstrumentationScope, v: SdkMeter) ensures final(self).m@ == old(self).m@.insert(k, v) { unimplemented!() }
    }
    pub(crate) struct SdkMeterProvider { inner: SdkMeterProviderInner }
    impl SdkMeterProvider {
        #[verifier::external_body] fn pipes_ref(&self) -> (r: PipesRef) ensures r.id == self.inner.id { unimplemented!() }
        /// every meter handed out so far works on this provider's pipelines and is filed under its scope
        spec fn ok(&self) -> bool { forall|k: InstrumentationScope| #[trigger] self.inner.meters.m@.contains_key(k) ==> self.inner.meters.m@[k].scope == k && self.inner.meters.m@[k].pipes == self.inner.id }
//@fn opentelemetry-sdk/src/metrics/meter_provider.rs impl MeterProvider for SdkMeterProvider :: fn meter
//@sig fn meter(&mut self, name: Text) -> Meter
//@ret r
//@contract
    requires old(self).ok(),
    ensures final(self).ok(), final(self).inner.pipes == old(self).inner.pipes,
        r == (if final(self).inner.shutdown_invoked.set || old(self).inner.meters.poisoned { Meter::Noop } else { Meter::Sdk(SdkMeter { scope: scope_of(name), pipes: old(self).inner.id }) }),
//@endfn
//@fn opentelemetry-sdk/src/metrics/meter_provider.rs impl MeterProvider for SdkMeterProvider :: fn meter_with_scope
//@sig fn meter_with_scope(&mut self, scope: InstrumentationScope) -> Meter
//@subst Meter::new(Arc::new(NoopMeter::new())) ~> Meter::Noop
//@subst Meter::new($$e) ~> Meter::Sdk($$e)
//@subst Arc::new($$e) ~> $$e
//@subst self.inner.pipes.clone() ~> pipes
//@subst Ok(mut meters) ~> Ok(meters)
//@start
        let pipes = self.pipes_ref();
//@ret r
//@contract
    requires old(self).ok(),
    ensures final(self).ok(), final(self).inner.pipes == old(self).inner.pipes, old(self).inner.shutdown_invoked.set ==> final(self).inner.shutdown_invoked.set,
        // after shutdown a meter that does nothing; before it one of this provider with exactly this scope ...
        r == (if final(self).inner.shutdown_invoked.set || old(self).inner.meters.poisoned { Meter::Noop } else { Meter::Sdk(SdkMeter { scope, pipes: old(self).inner.id }) }),
        // ... and equal scopes share one meter, which stays
        forall|k: InstrumentationScope| #[trigger] old(self).inner.meters.m@.contains_key(k) ==> final(self).inner.meters.m@.contains_key(k) && final(self).inner.meters.m@[k] == old(self).inner.meters.m@[k],
//@endfn
    }
    pub(crate) struct MeterProviderBuilder { resource: Option<Resource>, readers: Vec<Reader>, views: Vec<AView> }
    #[verifier::external_body] pub(crate) struct AView { _p: u8 }
    uninterp spec fn views_of(v: Seq<AView>) -> Views;
    #[verifier::external_body] fn views(v: Vec<AView>) -> (r: Views) ensures r == views_of(v@) { unimplemented!() }
    #[verifier::external_body] fn no_meters() -> (r: Meters) ensures r.m@ == Map::<InstrumentationScope, SdkMeter>::empty(), !r.poisoned { unimplemented!() }
    impl MeterProviderBuilder {
//@fn opentelemetry-sdk/src/metrics/meter_provider.rs impl MeterProviderBuilder :: fn with_resource
//@sig fn with_resource(self0: Self, resource: Resource) -> Self
//@subst self ~> slf
//@start
        let mut slf = self0;
//@ret r
//@contract
    ensures r.readers == self0.readers, r.views == self0.views, r.resource == Some(match self0.resource { Some(e) => merged(e, resource), None => resource }),
//@endfn
//@fn opentelemetry-sdk/src/metrics/meter_provider.rs impl MeterProviderBuilder :: fn with_reader
//@sig fn with_reader(self0: Self, reader: Reader) -> Self
//@subst self ~> slf
//@subst Box::new(reader) ~> reader
//@start
        let mut slf = self0;
//@ret r
//@contract
    ensures r.readers@ == self0.readers@.push(reader), r.views == self0.views, r.resource == self0.resource,
//@endfn
//@fn opentelemetry-sdk/src/metrics/meter_provider.rs impl MeterProviderBuilder :: fn with_view
//@sig fn with_view(self0: Self, view: AView) -> Self
//@subst self ~> slf
//@subst Arc::new(view) ~> view
//@start
        let mut slf = self0;
//@ret r
//@contract
    ensures r.views@ == self0.views@.push(view), r.readers == self0.readers, r.resource == self0.resource,
//@endfn
//@fn opentelemetry-sdk/src/metrics/meter_provider.rs impl MeterProviderBuilder :: fn build
//@sig fn build(self, log: &mut Log) -> SdkMeterProvider
//@subst Arc::new(Pipelines::new($$a, self.readers, self.views,)) ~> Pipelines::new(log, $$a, self.readers, views(self.views))
//@subst Arc::new($$e) ~> $$e
//@subst meters: Default::default() ~> id: Ghost(0), meters: no_meters()
//@ret r
//@contract
    ensures r.ok(), !r.inner.shutdown_invoked.set,
        // a pipeline for every reader, in order, with the given resource (or the default one) and all views
        r.inner.pipes.pipes@.len() == self.readers@.len(),
        forall|i: int| 0 <= i < self.readers@.len() ==> (#[trigger] r.inner.pipes.pipes@[i]).reader == self.readers@[i] && r.inner.pipes.pipes@[i].views == views_of(self.views@)
            && r.inner.pipes.pipes@[i].resource == (match self.resource { Some(x) => x, None => default_resource() }),
        final(log).calls@ == old(log).calls@ + registered(readers_of(self.readers@)),
//@endfn
    }
}
fn main() {}
}

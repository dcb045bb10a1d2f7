// Unit: settings from the environment (span and log BatchConfigBuilder, trace Config::default, the periodic readers'
// builders, TracerProviderBuilder's limits, the Zipkin exporter's timeout and endpoint).
use vstd::prelude::*;
verus! {
// ---- the environment and std's parsers ----
uninterp spec fn env_of(name: Seq<char>) -> Option<Seq<char>>;
uninterp spec fn dec_usize(s: Seq<char>) -> Option<usize>;
uninterp spec fn dec_u64(s: Seq<char>) -> Option<u64>;
uninterp spec fn dec_u32(s: Seq<char>) -> Option<u32>;
uninterp spec fn dec_f64(s: Seq<char>) -> Option<f64>;
broadcast axiom fn no_digits(s: Seq<char>) ensures s.len() == 0 ==> #[trigger] dec_u64(s).is_none();
struct E;
spec fn as_opt<T>(r: Result<T, E>) -> Option<T> { match r { Ok(v) => Some(v), Err(_) => None } }
#[verifier::external_body] fn env_var(n: &str) -> (r: Result<String, E>)
    ensures match r { Ok(v) => env_of(n@) == Some(v@), Err(_) => env_of(n@).is_none() } { unimplemented!() }
#[verifier::external_body] fn usize_from_str(s: &str) -> (r: Result<usize, E>) ensures as_opt(r) == dec_usize(s@) { unimplemented!() }
#[verifier::external_body] fn u64_from_str(s: &str) -> (r: Result<u64, E>) ensures as_opt(r) == dec_u64(s@) { unimplemented!() }
#[verifier::external_body] fn u32_from_str(s: &str) -> (r: Result<u32, E>) ensures as_opt(r) == dec_u32(s@) { unimplemented!() }
#[verifier::external_body] fn f64_from_str(s: &str) -> (r: Result<f64, E>) ensures as_opt(r) == dec_f64(s@) { unimplemented!() }
broadcast axiom fn str_ext(a: &str, b: &str) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
/// the value a setting takes
spec fn usize_or(name: Seq<char>, d: usize) -> usize { match env_of(name) { Some(s) => match dec_usize(s) { Some(v) => v, None => d }, None => d } }
spec fn u32_or(name: Seq<char>, d: u32) -> u32 { match env_of(name) { Some(s) => match dec_u32(s) { Some(v) => v, None => d }, None => d } }
spec fn ms_or(name: Seq<char>, d: nat) -> nat { match env_of(name) { Some(s) => match dec_u64(s) { Some(v) => v as nat * 1_000_000, None => d }, None => d } }
spec fn minu(a: usize, b: usize) -> usize { if a <= b { a } else { b } }
/// std::time::Duration, in nanoseconds
#[derive(Clone, Copy)]
struct Duration { ns: u128 }
impl Duration {
    const fn from_millis(ms: u64) -> (r: Duration) ensures r.ns == ms * 1_000_000 { proof { assert(ms as int * 1_000_000 <= 0xffff_ffff_ffff_ffff * 1_000_000) by (nonlinear_arith); } Duration { ns: ms as u128 * 1_000_000 } }
    const fn from_secs(s: u64) -> (r: Duration) ensures r.ns == s * 1_000_000_000 { proof { assert(s as int * 1_000_000_000 <= 0xffff_ffff_ffff_ffff * 1_000_000_000) by (nonlinear_arith); } Duration { ns: s as u128 * 1_000_000_000 } }
    fn is_zero(&self) -> (r: bool) ensures r == (self.ns == 0) { self.ns == 0 }
}
fn min(a: usize, b: usize) -> (r: usize) ensures r == minu(a, b) { if a <= b { a } else { b } }
/// Option::filter
trait OptF<T>: Sized {
    spec fn o(&self) -> Option<T>;
    fn filt<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires self.o().is_some() ==> f.requires((&self.o()->0,)),
        ensures match self.o() { None => r.is_none(), Some(x) => exists|b: bool| #[trigger] f.ensures((&x,), b) && r == (if b { Some(x) } else { None }) };
}
impl<T> OptF<T> for Option<T> {
    spec fn o(&self) -> Option<T> { *self }
    fn filt<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>) { match self { Some(x) => if f(&x) { Some(x) } else { None }, None => None } }
}
//@gsubst .filter(|$i: &Duration| $$p) ~> .filt(|$i: &Duration| -> (r: bool) ensures r == ($i.ns != 0) { $$p })
//@gsubst .filter(|$i| !$i.is_empty()) ~> .filt(|$i: &String| -> (r: bool) ensures r == ($i@.len() != 0) { !str_is_empty($i) })
//@gsubst .and_then(|$v| $v.parse().map(Duration::from_millis).ok()) ~> .and_then(|$v: String| -> (r: Option<Duration>) ensures r == ms_of($v@) { match u64_from_str(&$v) { Ok(ms) => Some(Duration::from_millis(ms)), Err(_) => None } })
spec fn ms_of(s: Seq<char>) -> Option<Duration> { match dec_u64(s) { Some(v) => Some(Duration { ns: (v * 1_000_000) as u128 }), None => None } }
#[verifier::external_body] fn str_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
//@gsubst : &str = ~> : &'static str =
//@gsubst env::var($n) ~> env_var($n)
//@gsubst .and_then(|$p| usize::from_str(&$q).ok()) ~> .and_then(|$p: String| -> (r: Option<usize>) ensures r == dec_usize($p@) { usize_from_str(&$q).ok() })
//@gsubst .and_then(|$p| u64::from_str(&$q).ok()) ~> .and_then(|$p: String| -> (r: Option<u64>) ensures r == dec_u64($p@) { u64_from_str(&$q).ok() })
//@gsubst .and_then(|$p| u32::from_str(&$q).ok()) ~> .and_then(|$p: String| -> (r: Option<u32>) ensures r == dec_u32($p@) { u32_from_str(&$q).ok() })



//@gsubst OTEL_BSP_SCHEDULE_DELAY_DEFAULT ~> otel_bsp_schedule_delay_default()
//@gsubst OTEL_BSP_EXPORT_TIMEOUT_DEFAULT ~> otel_bsp_export_timeout_default()
//@gsubst OTEL_BLRP_SCHEDULE_DELAY_DEFAULT ~> otel_blrp_schedule_delay_default()
//@gsubst OTEL_BLRP_EXPORT_TIMEOUT_DEFAULT ~> otel_blrp_export_timeout_default()
// ---- the batch span processor ----
mod span {
use super::*;
//@item opentelemetry-sdk/src/trace/span_processor.rs const OTEL_BSP_SCHEDULE_DELAY
//@item opentelemetry-sdk/src/trace/span_processor.rs const OTEL_BSP_MAX_QUEUE_SIZE
//@item opentelemetry-sdk/src/trace/span_processor.rs const OTEL_BSP_MAX_QUEUE_SIZE_DEFAULT
//@item opentelemetry-sdk/src/trace/span_processor.rs const OTEL_BSP_MAX_EXPORT_BATCH_SIZE
//@item opentelemetry-sdk/src/trace/span_processor.rs const OTEL_BSP_MAX_EXPORT_BATCH_SIZE_DEFAULT
//@item opentelemetry-sdk/src/trace/span_processor.rs const OTEL_BSP_EXPORT_TIMEOUT
//@item opentelemetry-sdk/src/trace/span_processor.rs const OTEL_BSP_MAX_CONCURRENT_EXPORTS
//@item opentelemetry-sdk/src/trace/span_processor.rs const OTEL_BSP_MAX_CONCURRENT_EXPORTS_DEFAULT
//@fn opentelemetry-sdk/src/trace/span_processor.rs const OTEL_BSP_SCHEDULE_DELAY_DEFAULT
//@sig fn otel_bsp_schedule_delay_default() -> Duration
//@ret r
//@contract
    ensures r.ns == 5_000_000_000,
//@endfn
//@fn opentelemetry-sdk/src/trace/span_processor.rs const OTEL_BSP_EXPORT_TIMEOUT_DEFAULT
//@sig fn otel_bsp_export_timeout_default() -> Duration
//@ret r
//@contract
    ensures r.ns == 30_000_000_000,
//@endfn
//@item opentelemetry-sdk/src/trace/span_processor.rs struct BatchConfig
//@item opentelemetry-sdk/src/trace/span_processor.rs struct BatchConfigBuilder
/// the builder b is d with the variables applied
spec fn from_env(d: BatchConfigBuilder, b: BatchConfigBuilder) -> bool {
    &&& b.max_queue_size == usize_or("OTEL_BSP_MAX_QUEUE_SIZE"@, d.max_queue_size)
    &&& b.max_export_batch_size == minu(usize_or("OTEL_BSP_MAX_EXPORT_BATCH_SIZE"@, d.max_export_batch_size), b.max_queue_size)
    &&& b.scheduled_delay.ns == ms_or("OTEL_BSP_SCHEDULE_DELAY"@, d.scheduled_delay.ns as nat)
    &&& b.max_export_timeout.ns == ms_or("OTEL_BSP_EXPORT_TIMEOUT"@, d.max_export_timeout.ns as nat)
    &&& b.max_concurrent_exports == usize_or("OTEL_BSP_MAX_CONCURRENT_EXPORTS"@, d.max_concurrent_exports)
}
spec fn defaults() -> BatchConfigBuilder { BatchConfigBuilder { max_queue_size: 2048, max_export_batch_size: 512, scheduled_delay: Duration { ns: 5_000_000_000 }, max_export_timeout: Duration { ns: 30_000_000_000 }, max_concurrent_exports: 1 } }
impl BatchConfigBuilder {
    fn init_from_env_vars(self) -> (r: Self) ensures from_env(self, r) { Self::init_from_env_vars0(self) }
//@fn opentelemetry-sdk/src/trace/span_processor.rs impl Default for BatchConfigBuilder :: fn default
//@ret r
//@contract
    ensures from_env(defaults(), r),
//@endfn
//@fn opentelemetry-sdk/src/trace/span_processor.rs impl BatchConfigBuilder :: fn init_from_env_vars
//@sig fn init_from_env_vars0(self0: Self) -> Self
//@subst self ~> slf
//@ret r
//@contract
    ensures from_env(self0, r),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-sdk/src/trace/span_processor.rs impl BatchConfigBuilder :: fn with_max_queue_size
//@sig fn with_max_queue_size(self0: Self, max_queue_size: usize) -> Self
//@subst self ~> slf
//@ret r
//@contract
    ensures r == (BatchConfigBuilder { max_queue_size, ..self0 }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-sdk/src/trace/span_processor.rs impl BatchConfigBuilder :: fn with_scheduled_delay
//@sig fn with_scheduled_delay(self0: Self, scheduled_delay: Duration) -> Self
//@subst self ~> slf
//@ret r
//@contract
    ensures r == (BatchConfigBuilder { scheduled_delay, ..self0 }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-sdk/src/trace/span_processor.rs impl BatchConfigBuilder :: fn with_max_export_batch_size
//@sig fn with_max_export_batch_size(self0: Self, max_export_batch_size: usize) -> Self
//@subst self ~> slf
//@ret r
//@contract
    ensures r == (BatchConfigBuilder { max_export_batch_size, ..self0 }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-sdk/src/trace/span_processor.rs impl BatchConfigBuilder :: fn with_max_concurrent_exports
//@sig fn with_max_concurrent_exports(self0: Self, max_concurrent_exports: usize) -> Self
//@subst self ~> slf
//@ret r
//@contract
    ensures r == (BatchConfigBuilder { max_concurrent_exports, ..self0 }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-sdk/src/trace/span_processor.rs impl BatchConfigBuilder :: fn with_max_export_timeout
//@sig fn with_max_export_timeout(self0: Self, max_export_timeout: Duration) -> Self
//@subst self ~> slf
//@ret r
//@contract
    ensures r == (BatchConfigBuilder { max_export_timeout, ..self0 }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-sdk/src/trace/span_processor.rs impl BatchConfigBuilder :: fn build
//@ret r
//@contract
    ensures r.max_queue_size == self.max_queue_size, r.scheduled_delay == self.scheduled_delay, r.max_export_timeout == self.max_export_timeout,
        r.max_export_batch_size == minu(self.max_export_batch_size, self.max_queue_size), r.max_export_batch_size <= r.max_queue_size,
        r.max_concurrent_exports == self.max_concurrent_exports,
//@endfn
}
impl BatchConfig {
//@fn opentelemetry-sdk/src/trace/span_processor.rs impl Default for BatchConfig :: fn default
//@ret r
//@contract
    ensures effective(r),
//@endfn
}
/// the configuration without any builder call
spec fn effective(c: BatchConfig) -> bool {
    &&& c.max_queue_size == usize_or("OTEL_BSP_MAX_QUEUE_SIZE"@, 2048)
    &&& c.max_export_batch_size == minu(usize_or("OTEL_BSP_MAX_EXPORT_BATCH_SIZE"@, 512), c.max_queue_size)
    &&& c.scheduled_delay.ns == ms_or("OTEL_BSP_SCHEDULE_DELAY"@, 5_000_000_000)
    &&& c.max_export_timeout.ns == ms_or("OTEL_BSP_EXPORT_TIMEOUT"@, 30_000_000_000)
    &&& c.max_concurrent_exports == usize_or("OTEL_BSP_MAX_CONCURRENT_EXPORTS"@, 1)
}
}
// ---- the batch log processor ----
mod log {
use super::*;
//@item opentelemetry-sdk/src/logs/batch_log_processor.rs const OTEL_BLRP_SCHEDULE_DELAY
//@item opentelemetry-sdk/src/logs/batch_log_processor.rs const OTEL_BLRP_MAX_QUEUE_SIZE
//@item opentelemetry-sdk/src/logs/batch_log_processor.rs const OTEL_BLRP_MAX_QUEUE_SIZE_DEFAULT
//@item opentelemetry-sdk/src/logs/batch_log_processor.rs const OTEL_BLRP_MAX_EXPORT_BATCH_SIZE
//@item opentelemetry-sdk/src/logs/batch_log_processor.rs const OTEL_BLRP_MAX_EXPORT_BATCH_SIZE_DEFAULT
//@item opentelemetry-sdk/src/logs/batch_log_processor.rs const OTEL_BLRP_EXPORT_TIMEOUT
//@fn opentelemetry-sdk/src/logs/batch_log_processor.rs const OTEL_BLRP_SCHEDULE_DELAY_DEFAULT
//@sig fn otel_blrp_schedule_delay_default() -> Duration
//@ret r
//@contract
    ensures r.ns == 1_000_000_000,
//@endfn
//@fn opentelemetry-sdk/src/logs/batch_log_processor.rs const OTEL_BLRP_EXPORT_TIMEOUT_DEFAULT
//@sig fn otel_blrp_export_timeout_default() -> Duration
//@ret r
//@contract
    ensures r.ns == 30_000_000_000,
//@endfn
//@item opentelemetry-sdk/src/logs/batch_log_processor.rs struct BatchConfig
//@item opentelemetry-sdk/src/logs/batch_log_processor.rs struct BatchConfigBuilder
/// the builder b is d with the variables applied
spec fn from_env(d: BatchConfigBuilder, b: BatchConfigBuilder) -> bool {
    &&& b.max_queue_size == usize_or("OTEL_BLRP_MAX_QUEUE_SIZE"@, d.max_queue_size)
    &&& b.max_export_batch_size == usize_or("OTEL_BLRP_MAX_EXPORT_BATCH_SIZE"@, d.max_export_batch_size)
    &&& b.scheduled_delay.ns == ms_or("OTEL_BLRP_SCHEDULE_DELAY"@, d.scheduled_delay.ns as nat)
    &&& b.max_export_timeout.ns == ms_or("OTEL_BLRP_EXPORT_TIMEOUT"@, d.max_export_timeout.ns as nat)
}
spec fn defaults() -> BatchConfigBuilder { BatchConfigBuilder { max_queue_size: 2048, max_export_batch_size: 512, scheduled_delay: Duration { ns: 1_000_000_000 }, max_export_timeout: Duration { ns: 30_000_000_000 } } }
impl BatchConfigBuilder {
    fn init_from_env_vars(self) -> (r: Self) ensures from_env(self, r) { Self::init_from_env_vars0(self) }
//@fn opentelemetry-sdk/src/logs/batch_log_processor.rs impl Default for BatchConfigBuilder :: fn default
//@ret r
//@contract
    ensures from_env(defaults(), r),
//@endfn
//@fn opentelemetry-sdk/src/logs/batch_log_processor.rs impl BatchConfigBuilder :: fn init_from_env_vars
//@sig fn init_from_env_vars0(self0: Self) -> Self
//@subst self ~> slf
//@ret r
//@contract
    ensures from_env(self0, r),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-sdk/src/logs/batch_log_processor.rs impl BatchConfigBuilder :: fn with_max_queue_size
//@sig fn with_max_queue_size(self0: Self, max_queue_size: usize) -> Self
//@subst self ~> slf
//@ret r
//@contract
    ensures r == (BatchConfigBuilder { max_queue_size, ..self0 }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-sdk/src/logs/batch_log_processor.rs impl BatchConfigBuilder :: fn with_scheduled_delay
//@sig fn with_scheduled_delay(self0: Self, scheduled_delay: Duration) -> Self
//@subst self ~> slf
//@ret r
//@contract
    ensures r == (BatchConfigBuilder { scheduled_delay, ..self0 }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-sdk/src/logs/batch_log_processor.rs impl BatchConfigBuilder :: fn with_max_export_batch_size
//@sig fn with_max_export_batch_size(self0: Self, max_export_batch_size: usize) -> Self
//@subst self ~> slf
//@ret r
//@contract
    ensures r == (BatchConfigBuilder { max_export_batch_size, ..self0 }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-sdk/src/logs/batch_log_processor.rs impl BatchConfigBuilder :: fn with_max_export_timeout
//@sig fn with_max_export_timeout(self0: Self, max_export_timeout: Duration) -> Self
//@subst self ~> slf
//@ret r
//@contract
    ensures r == (BatchConfigBuilder { max_export_timeout, ..self0 }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-sdk/src/logs/batch_log_processor.rs impl BatchConfigBuilder :: fn build
//@ret r
//@contract
    ensures r.max_queue_size == self.max_queue_size, r.scheduled_delay == self.scheduled_delay, r.max_export_timeout == self.max_export_timeout,
        r.max_export_batch_size == minu(self.max_export_batch_size, self.max_queue_size), r.max_export_batch_size <= r.max_queue_size,
        
//@endfn
}
impl BatchConfig {
//@fn opentelemetry-sdk/src/logs/batch_log_processor.rs impl Default for BatchConfig :: fn default
//@ret r
//@contract
    ensures effective(r),
//@endfn
}
/// the configuration without any builder call
spec fn effective(c: BatchConfig) -> bool {
    &&& c.max_queue_size == usize_or("OTEL_BLRP_MAX_QUEUE_SIZE"@, 2048)
    &&& c.max_export_batch_size == minu(usize_or("OTEL_BLRP_MAX_EXPORT_BATCH_SIZE"@, 512), c.max_queue_size)
    &&& c.scheduled_delay.ns == ms_or("OTEL_BLRP_SCHEDULE_DELAY"@, 1_000_000_000)
    &&& c.max_export_timeout.ns == ms_or("OTEL_BLRP_EXPORT_TIMEOUT"@, 30_000_000_000)
}
}
mod sync {
use super::*;
//@item opentelemetry-sdk/src/metrics/periodic_reader.rs const METRIC_EXPORT_INTERVAL_NAME
//@fn opentelemetry-sdk/src/metrics/periodic_reader.rs const DEFAULT_INTERVAL
//@sig fn default_interval() -> Duration
//@ret r
//@contract
    ensures r.ns == 60_000_000_000,
//@endfn
//@gsubst DEFAULT_INTERVAL ~> default_interval()
//@gsubst DEFAULT_TIMEOUT ~> default_timeout()
/// the variable's value unless it is not a number or zero
spec fn nonzero_ms_or(name: Seq<char>, d: nat) -> nat { if ms_or(name, d) == 0 { d } else { ms_or(name, d) } }
//@item opentelemetry-sdk/src/metrics/periodic_reader.rs struct PeriodicReaderBuilder
impl<E> PeriodicReaderBuilder<E> {
//@fn opentelemetry-sdk/src/metrics/periodic_reader.rs impl PeriodicReaderBuilder<E> :: fn new
//@ret r
//@contract
    ensures r.interval.ns == nonzero_ms_or("OTEL_METRIC_EXPORT_INTERVAL"@, 60_000_000_000), r.exporter == exporter,
//@endfn
//@fn opentelemetry-sdk/src/metrics/periodic_reader.rs impl PeriodicReaderBuilder<E> :: fn with_interval
//@sig fn with_interval(self0: Self, interval: Duration) -> Self
//@subst self ~> slf
//@ret r
//@contract
    ensures r == (Self { interval: if interval.ns == 0 { self0.interval } else { interval }, ..self0 }),
//@start
    let mut slf = self0;
//@endfn
}
}
mod asynch {
use super::*;
//@item opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs const METRIC_EXPORT_INTERVAL_NAME
//@fn opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs const DEFAULT_INTERVAL
//@sig fn default_interval() -> Duration
//@ret r
//@contract
    ensures r.ns == 60_000_000_000,
//@endfn
//@gsubst DEFAULT_INTERVAL ~> default_interval()
//@gsubst DEFAULT_TIMEOUT ~> default_timeout()
/// the variable's value unless it is not a number or zero
spec fn nonzero_ms_or(name: Seq<char>, d: nat) -> nat { if ms_or(name, d) == 0 { d } else { ms_or(name, d) } }
//@item opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs struct PeriodicReaderBuilder
//@item opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs const METRIC_EXPORT_TIMEOUT_NAME
//@fn opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs const DEFAULT_TIMEOUT
//@sig fn default_timeout() -> Duration
//@ret r
//@contract
    ensures r.ns == 30_000_000_000,
//@endfn
impl<E, RT> PeriodicReaderBuilder<E, RT> {
//@fn opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs impl PeriodicReaderBuilder<E, RT> :: fn new
//@ret r
//@contract
    ensures r.interval.ns == nonzero_ms_or("OTEL_METRIC_EXPORT_INTERVAL"@, 60_000_000_000), r.exporter == exporter, r.timeout.ns == nonzero_ms_or("OTEL_METRIC_EXPORT_TIMEOUT"@, 30_000_000_000),
//@endfn
//@fn opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs impl PeriodicReaderBuilder<E, RT> :: fn with_interval
//@sig fn with_interval(self0: Self, interval: Duration) -> Self
//@subst self ~> slf
//@ret r
//@contract
    ensures r == (Self { interval: if interval.ns == 0 { self0.interval } else { interval }, ..self0 }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs impl PeriodicReaderBuilder<E, RT> :: fn with_timeout
//@sig fn with_timeout(self0: Self, timeout: Duration) -> Self
//@subst self ~> slf
//@ret r
//@contract
    ensures r == (Self { timeout: if timeout.ns == 0 { self0.timeout } else { timeout }, ..self0 }),
//@start
    let mut slf = self0;
//@endfn
}
}
// ---- the Zipkin exporter ----
mod zipkin {
use super::*;
#[verifier::external_body] fn eprintln0() {}
#[verifier::external_body] fn own(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
//@item opentelemetry-zipkin/src/exporter/env.rs const DEFAULT_COLLECTOR_ENDPOINT
//@item opentelemetry-zipkin/src/exporter/env.rs const ENV_ENDPOINT
//@item opentelemetry-zipkin/src/exporter/env.rs const ENV_TIMEOUT
//@fn opentelemetry-zipkin/src/exporter/env.rs const DEFAULT_COLLECTOR_TIMEOUT
//@sig fn default_collector_timeout() -> Duration
//@ret r
//@contract
    ensures r.ns == 10_000_000_000,
//@endfn
//@gsubst DEFAULT_COLLECTOR_TIMEOUT ~> default_collector_timeout()
//@fn opentelemetry-zipkin/src/exporter/env.rs fn get_timeout
//@subst? timeout.parse() ~> u64_from_str(&timeout)
//@subst? eprintln!($$x) ~> eprintln0()
//@ret r
//@contract
    ensures r.ns == ms_or("OTEL_EXPORTER_ZIPKIN_TIMEOUT"@, 10_000_000_000),
//@start
    broadcast use no_digits;
    assert(forall|s: Seq<char>| s.len() == 0 ==> #[trigger] dec_u64(s).is_none());
    assert(env_of("OTEL_EXPORTER_ZIPKIN_TIMEOUT"@) matches Some(e) ==> e.len() == 0 ==> dec_u64(e).is_none());
//@endfn
//@fn opentelemetry-zipkin/src/exporter/env.rs fn get_endpoint
//@subst? DEFAULT_COLLECTOR_ENDPOINT.to_string() ~> own(DEFAULT_COLLECTOR_ENDPOINT)
//@ret r
//@contract
    ensures r@ == (match env_of("OTEL_EXPORTER_ZIPKIN_ENDPOINT"@) { Some(e) => if e.len() == 0 { "http://127.0.0.1:9411/api/v2/spans"@ } else { e }, None => "http://127.0.0.1:9411/api/v2/spans"@ }),
//@endfn
}
// ---- the trace configuration ----
mod trace {
use super::*;
//@item opentelemetry-sdk/src/trace/span_limit.rs struct SpanLimits
//@item opentelemetry-sdk/src/trace/span_limit.rs const DEFAULT_MAX_EVENT_PER_SPAN
//@item opentelemetry-sdk/src/trace/span_limit.rs const DEFAULT_MAX_ATTRIBUTES_PER_SPAN
//@item opentelemetry-sdk/src/trace/span_limit.rs const DEFAULT_MAX_LINKS_PER_SPAN
//@item opentelemetry-sdk/src/trace/span_limit.rs const DEFAULT_MAX_ATTRIBUTES_PER_EVENT
//@item opentelemetry-sdk/src/trace/span_limit.rs const DEFAULT_MAX_ATTRIBUTES_PER_LINK
impl SpanLimits {
//@fn opentelemetry-sdk/src/trace/span_limit.rs impl Default for SpanLimits :: fn default
//@ret r
//@contract
    ensures r == (SpanLimits { max_events_per_span: 128, max_attributes_per_span: 128, max_links_per_span: 128, max_attributes_per_event: 128, max_attributes_per_link: 128 }),
//@endfn
}
//@item opentelemetry-sdk/src/trace/sampler.rs enum Sampler
//@ subst Box<dyn ShouldSample> ~> Box<Sampler>
#[verifier::external_body] struct JaegerRemoteSampler { _p: u8 }
#[verifier::external_body] struct IdGenerator { _p: u8 }
#[verifier::external_body] struct Resource { _p: u8 }
uninterp spec fn random_ids() -> IdGenerator;
uninterp spec fn default_resource() -> Resource;
#[verifier::external_body] fn box_random_ids() -> (r: Box<IdGenerator>) ensures *r == random_ids() { unimplemented!() }
#[verifier::external_body] fn build_default_resource() -> (r: Resource) ensures r == default_resource() { unimplemented!() }
//@item opentelemetry-sdk/src/trace/config.rs struct Config
//@ subst Box<dyn ShouldSample> ~> Box<Sampler>
//@ subst Box<dyn IdGenerator> ~> Box<IdGenerator>
//@ subst Cow<'static, Resource> ~> Resource
spec fn ratio() -> f64 { match env_of("OTEL_TRACES_SAMPLER_ARG"@) { Some(a) => match dec_f64(a) { Some(v) => v, None => 1.0f64 }, None => 1.0f64 } }
spec fn on(s: Sampler) -> bool { match s { Sampler::ParentBased(b) => *b == Sampler::AlwaysOn, _ => false } }
spec fn off(s: Sampler) -> bool { match s { Sampler::ParentBased(b) => *b == Sampler::AlwaysOff, _ => false } }
spec fn by_ratio(s: Sampler) -> bool { match s { Sampler::ParentBased(b) => *b == Sampler::TraceIdRatioBased(ratio()), _ => false } }
spec fn named(n: Seq<char>, s: Sampler) -> bool {
    if n == "always_on"@ { s == Sampler::AlwaysOn } else if n == "always_off"@ { s == Sampler::AlwaysOff }
    else if n == "traceidratio"@ { s == Sampler::TraceIdRatioBased(ratio()) }
    else if n == "parentbased_always_off"@ { off(s) } else if n == "parentbased_traceidratio"@ { by_ratio(s) } else { on(s) }
}
//@fn opentelemetry-sdk/src/trace/config.rs impl Default for Config :: fn default
//@sig fn config_default() -> Config
//@subst? Box::<RandomIdGenerator>::default() ~> box_random_ids()
//@subst? Cow::Owned(Resource::builder().build()) ~> build_default_resource()
//@subst? .and_then(|$r| $s.parse::<f64>().ok()) ~> .and_then(|$r: &String| -> (o: Option<f64>) ensures o == dec_f64($r@) { f64_from_str($s).ok() })
//@subst? s => { ~> _ => {
//@ret r
//@contract
    ensures
        r.span_limits.max_attributes_per_span == u32_or("OTEL_SPAN_ATTRIBUTE_COUNT_LIMIT"@, 128), r.span_limits.max_events_per_span == u32_or("OTEL_SPAN_EVENT_COUNT_LIMIT"@, 128),
        r.span_limits.max_links_per_span == u32_or("OTEL_SPAN_LINK_COUNT_LIMIT"@, 128), r.span_limits.max_attributes_per_event == 128, r.span_limits.max_attributes_per_link == 128,
        env_of("OTEL_TRACES_SAMPLER"@).is_none() ==> on(*r.sampler),
        env_of("OTEL_TRACES_SAMPLER"@).is_some() ==> named(env_of("OTEL_TRACES_SAMPLER"@)->0, *r.sampler),
        *r.id_generator == random_ids(), r.resource == default_resource(),
//@start
    broadcast use str_ext;
//@endfn
// ---- the provider's builder ----
#[verifier::external_body] struct Processor { _p: u8 }
uninterp spec fn merged(a: Resource, b: Resource) -> Resource;
impl Resource { #[verifier::external_body] fn merge(&self, o: &Resource) -> (r: Resource) ensures r == merged(*self, *o) { unimplemented!() } }
//@item opentelemetry-sdk/src/trace/provider.rs struct TracerProviderBuilder
//@ subst Box<dyn SpanProcessor> ~> Processor
//@ subst crate::trace::Config ~> Config
spec fn with_limits(b: TracerProviderBuilder, l: SpanLimits) -> TracerProviderBuilder { TracerProviderBuilder { config: Config { span_limits: l, ..b.config }, ..b } }
impl TracerProviderBuilder {
//@fn opentelemetry-sdk/src/trace/provider.rs impl TracerProviderBuilder :: fn with_max_events_per_span
//@sig fn with_max_events_per_span(self0: Self, max_events: u32) -> Self
//@subst self ~> slf
//@ret r
//@contract
    ensures r == with_limits(self0, SpanLimits { max_events_per_span: max_events, ..self0.config.span_limits }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-sdk/src/trace/provider.rs impl TracerProviderBuilder :: fn with_max_attributes_per_span
//@sig fn with_max_attributes_per_span(self0: Self, max_attributes: u32) -> Self
//@subst self ~> slf
//@ret r
//@contract
    ensures r == with_limits(self0, SpanLimits { max_attributes_per_span: max_attributes, ..self0.config.span_limits }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-sdk/src/trace/provider.rs impl TracerProviderBuilder :: fn with_max_links_per_span
//@sig fn with_max_links_per_span(self0: Self, max_links: u32) -> Self
//@subst self ~> slf
//@ret r
//@contract
    ensures r == with_limits(self0, SpanLimits { max_links_per_span: max_links, ..self0.config.span_limits }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-sdk/src/trace/provider.rs impl TracerProviderBuilder :: fn with_max_attributes_per_event
//@sig fn with_max_attributes_per_event(self0: Self, max_attributes: u32) -> Self
//@subst self ~> slf
//@ret r
//@contract
    ensures r == with_limits(self0, SpanLimits { max_attributes_per_event: max_attributes, ..self0.config.span_limits }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-sdk/src/trace/provider.rs impl TracerProviderBuilder :: fn with_max_attributes_per_link
//@sig fn with_max_attributes_per_link(self0: Self, max_attributes: u32) -> Self
//@subst self ~> slf
//@ret r
//@contract
    ensures r == with_limits(self0, SpanLimits { max_attributes_per_link: max_attributes, ..self0.config.span_limits }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-sdk/src/trace/provider.rs impl TracerProviderBuilder :: fn with_span_limits
//@sig fn with_span_limits(self0: Self, span_limits: SpanLimits) -> Self
//@subst self ~> slf
//@ret r
//@contract
    ensures r == with_limits(self0, span_limits),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-sdk/src/trace/provider.rs impl TracerProviderBuilder :: fn with_sampler
//@sig fn with_sampler(self0: Self, sampler: Sampler) -> Self
//@subst self ~> slf
//@ret r
//@contract
    ensures r == (TracerProviderBuilder { config: Config { sampler: r.config.sampler, ..self0.config }, ..self0 }), *r.config.sampler == sampler,
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-sdk/src/trace/provider.rs impl TracerProviderBuilder :: fn with_id_generator
//@sig fn with_id_generator(self0: Self, id_generator: IdGenerator) -> Self
//@subst self ~> slf
//@ret r
//@contract
    ensures r == (TracerProviderBuilder { config: Config { id_generator: r.config.id_generator, ..self0.config }, ..self0 }), *r.config.id_generator == id_generator,
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-sdk/src/trace/provider.rs impl TracerProviderBuilder :: fn with_resource
//@ret r
//@contract
    ensures r == (TracerProviderBuilder { resource: Some(match self.resource { Some(e) => merged(e, resource), None => resource }), ..self }),
//@endfn
//@fn opentelemetry-sdk/src/trace/provider.rs impl TracerProviderBuilder :: fn with_span_processor
//@sig fn with_span_processor(self, processor: Processor) -> Self
//@subst? Box::new(processor) ~> processor
//@ret r
//@contract
    ensures r.processors@ == self.processors@.push(processor), r.config == self.config, r.resource == self.resource,
//@endfn
}
}
} // verus!
fn main() {}

// Unit: the Jaeger remote sampler (opentelemetry-sdk/src/trace/sampler/jaeger_remote/*.rs): the rate limiter, the strategy in use
// and its updates, the task that fetches it, and the builder. Floats are read as real numbers.
use vstd::prelude::*;
use vstd::std_specs::ops::*;
verus! {
// ---- numbers ----
#[verifier::external_body] #[derive(Clone, Copy)] pub struct F { x: f64 }
pub uninterp spec fn val(f: F) -> real;
impl AddSpecImpl<F> for F { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: F) -> bool { true } open spec fn add_spec(self, o: F) -> F { arbitrary() } }
impl MulSpecImpl<F> for F { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: F) -> bool { true } open spec fn mul_spec(self, o: F) -> F { arbitrary() } }
impl SubSpecImpl<F> for F { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: F) -> bool { true } open spec fn sub_spec(self, o: F) -> F { arbitrary() } }
impl SubAssignSpecImpl<F> for F { open spec fn obeys_sub_assign_spec() -> bool { false } open spec fn sub_assign_req(&self, o: F) -> bool { true } open spec fn sub_assign_spec(&self, o: F) -> &F { arbitrary() } }
impl AddAssignSpecImpl<F> for F { open spec fn obeys_add_assign_spec() -> bool { false } open spec fn add_assign_req(&self, o: F) -> bool { true } open spec fn add_assign_spec(&self, o: F) -> &F { arbitrary() } }
impl core::ops::Add for F { type Output = F; #[verifier::external_body] fn add(self, o: F) -> (r: F) ensures val(r) == val(self) + val(o) { unimplemented!() } }
impl core::ops::Sub for F { type Output = F; #[verifier::external_body] fn sub(self, o: F) -> (r: F) ensures val(r) == val(self) - val(o) { unimplemented!() } }
impl core::ops::Mul for F { type Output = F; #[verifier::external_body] fn mul(self, o: F) -> (r: F) ensures val(r) == val(self) * val(o) { unimplemented!() } }
impl core::ops::SubAssign for F { #[verifier::external_body] fn sub_assign(&mut self, o: F) ensures val(*final(self)) == val(*old(self)) - val(o) { unimplemented!() } }
impl core::ops::AddAssign for F { #[verifier::external_body] fn add_assign(&mut self, o: F) ensures val(*final(self)) == val(*old(self)) + val(o) { unimplemented!() } }
impl PartialEq for F { #[verifier::external_body] fn eq(&self, o: &F) -> (r: bool) ensures r == (val(*self) == val(*o)) { unimplemented!() } }
impl PartialOrd for F {
    #[verifier::external_body] fn partial_cmp(&self, o: &F) -> (r: Option<core::cmp::Ordering>) { unimplemented!() }
    #[verifier::external_body] fn ge(&self, o: &F) -> (r: bool) ensures r == (val(*self) >= val(*o)) { unimplemented!() }
    #[verifier::external_body] fn gt(&self, o: &F) -> (r: bool) ensures r == (val(*self) > val(*o)) { unimplemented!() }
    #[verifier::external_body] fn le(&self, o: &F) -> (r: bool) ensures r == (val(*self) <= val(*o)) { unimplemented!() }
    #[verifier::external_body] fn lt(&self, o: &F) -> (r: bool) ensures r == (val(*self) < val(*o)) { unimplemented!() }
}
spec fn least(a: real, b: real) -> real { if a <= b { a } else { b } }
impl F {
    #[verifier::external_body] fn min(a: F, b: F) -> (r: F) ensures val(r) == least(val(a), val(b)), r == a || r == b { unimplemented!() }
    #[verifier::external_body] fn of(n: i32) -> (r: F) ensures val(r) == n as real { unimplemented!() }
}
#[verifier::external_body] fn one() -> (r: F) ensures val(r) == 1real { unimplemented!() }
#[verifier::external_body] fn hundred() -> (r: F) ensures val(r) == 100real { unimplemented!() }
#[verifier::external_body] fn zero() -> (r: F) ensures val(r) == 0real { unimplemented!() }
pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>) where T: core::marker::Destruct ensures r == (if a is Some { a } else { b });
// ---- time ----
#[verifier::external_body] #[derive(Clone, Copy)] pub struct SystemTime { x: u64 }
pub uninterp spec fn at(t: SystemTime) -> real;
#[verifier::external_body] #[derive(Clone, Copy)] struct Duration { x: u64 }
uninterp spec fn long(t: Duration) -> real;
uninterp spec fn whole(t: Duration) -> int;
#[verifier::external_body] struct SystemTimeError { x: u64 }
impl SystemTime {
    #[verifier::external_body] fn duration_since(&self, o: SystemTime) -> (r: Result<Duration, SystemTimeError>)
        ensures match r { Ok(d) => at(*self) >= at(o) && long(d) == at(*self) - at(o), Err(_) => at(*self) < at(o) } { unimplemented!() }
}
impl Duration {
    #[verifier::external_body] fn as_secs_f64(&self) -> (r: F) ensures val(r) == long(*self) { unimplemented!() }
    #[verifier::external_body] const fn from_secs(s: u64) -> (r: Duration) ensures long(r) == s as real { unimplemented!() }
}
#[verifier::external_body] fn whole_secs(d: Duration) -> (r: F) ensures val(r) == whole(d) as real { unimplemented!() }
/// t was read from the clock
pub uninterp spec fn stamped(t: SystemTime) -> bool;
#[verifier::external_body] fn now() -> (r: SystemTime) ensures stamped(r) { unimplemented!() }
//@gsubst 1.0 ~> one()
//@gsubst 100.0 ~> hundred()
//@gsubst f64::min ~> F::min
//@gsubst $d.as_secs() as f64 ~> whole_secs($d)
//@gsubst $s.max_traces_per_second as f64 ~> F::of($s.max_traces_per_second)

// ---- the rate limiter ----
//@gsubst f64 ~> F
//@item opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs struct LeakyBucket
/// what one question at time `t` does to the bucket: it is filled at its rate up to its size, and one token is taken if there is one
spec fn asked(b0: LeakyBucket, b1: LeakyBucket, t: real, yes: bool) -> bool {
    let a = val(b0.available);
    &&& b1.span_per_sec == b0.span_per_sec && b1.bucket_size == b0.bucket_size
    &&& if a >= 1real { yes && val(b1.available) == a - 1real && at(b1.last_time) == at(b0.last_time) }
        // the clock was set back: sampled, and the bucket is left alone
        else if t < at(b0.last_time) { yes && val(b1.available) == a && b1.last_time == b0.last_time }
        else {
            let level = least(a + (t - at(b0.last_time)) * val(b0.span_per_sec), val(b0.bucket_size));
            at(b1.last_time) == t && yes == (level >= 1real) && val(b1.available) == (if yes { level - 1real } else { level })
        }
}
/// asked at the time it is, which only matters with no token left
spec fn taken(b0: LeakyBucket, b1: LeakyBucket, yes: bool) -> bool {
    (val(b0.available) >= 1real && asked(b0, b1, 0real, yes)) || exists|t: SystemTime| #[trigger] stamped(t) && asked(b0, b1, at(t), yes)
}
impl LeakyBucket {
//@fn opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs impl LeakyBucket :: fn new
//@ret r
//@contract
    ensures r.span_per_sec == span_per_sec, r.available == bucket_size, r.bucket_size == bucket_size, stamped(r.last_time),
//@endfn
//@fn opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs impl LeakyBucket :: fn update
//@contract
    // the tokens stay
    ensures final(self).span_per_sec == span_per_sec, final(self).available == old(self).available, final(self).bucket_size == old(self).bucket_size, final(self).last_time == old(self).last_time,
//@endfn
//@fn opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs impl LeakyBucket :: fn should_sample
//@ret r
//@subst? self.check_availability(now) ~> self.check_availability(|| -> (t: SystemTime) ensures stamped(t) { now() })
//@contract
    ensures taken(*old(self), *final(self), r),
//@endfn
//@fn opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs impl LeakyBucket :: fn check_availability
//@sig fn check_availability<G>(&mut self, now: G) -> (r: bool) where G: Fn() -> SystemTime
//@contract
    requires call_requires(now, ()),
    ensures
        (val(old(self).available) >= 1real && asked(*old(self), *final(self), 0real, r))
        || exists|t: SystemTime| #[trigger] call_ensures(now, (), t) && asked(*old(self), *final(self), at(t), r),
//@endfn
}
// what follows for any sequence of questions, the clock going forward
/// `n` samples were given from the full bucket at `t0` on
spec fn history(b: LeakyBucket, t0: real, size: real, rate: real, n: int) -> bool {
    val(b.bucket_size) == size && val(b.span_per_sec) == rate && rate >= 0real && size >= 0real && at(b.last_time) >= t0
    && val(b.available) >= 0real && val(b.available) <= size && n as real + val(b.available) <= size + (at(b.last_time) - t0) * rate
}
proof fn one_more_question(b0: LeakyBucket, b1: LeakyBucket, t: real, yes: bool, t0: real, size: real, rate: real, n: int)
    requires history(b0, t0, size, rate, n), asked(b0, b1, t, yes), t >= at(b0.last_time),
    // never more than the bucket's size and what was earned since; a refusal only when not even one token is there
    ensures history(b1, t0, size, rate, n + (if yes { 1int } else { 0 })), (n + (if yes { 1int } else { 0 })) as real <= size + (t - t0) * rate,
        !yes ==> val(b0.available) + (t - at(b0.last_time)) * rate < 1real || size < 1real,
{
    let dt = t - at(b0.last_time);
    assert(dt * rate >= 0real) by (nonlinear_arith) requires dt >= 0real, rate >= 0real;
    assert((t - t0) * rate == (at(b0.last_time) - t0) * rate + dt * rate) by (nonlinear_arith) requires dt == t - at(b0.last_time);
}
/// a refused question leaves less than a token; once a whole one has been earned the next is sampled
proof fn refused_then_earned(b0: LeakyBucket, b1: LeakyBucket, b2: LeakyBucket, t: real, u: real, yes: bool)
    requires asked(b0, b1, t, false), val(b0.available) >= 0real, asked(b1, b2, u, yes), u >= t, (u - t) * val(b0.span_per_sec) >= 1real, val(b0.bucket_size) >= 1real, val(b0.span_per_sec) >= 0real, t >= at(b0.last_time)
    ensures yes
{
    let dt = t - at(b0.last_time);
    assert(dt * val(b0.span_per_sec) >= 0real) by (nonlinear_arith) requires dt >= 0real, val(b0.span_per_sec) >= 0real;
}

// ---- the strategy in use ----
struct TraceId { x: u128 }
impl Clone for TraceId { fn clone(&self) -> (r: TraceId) ensures r == *self { TraceId { x: self.x } } }
impl Copy for TraceId {}
#[verifier::external_body] struct KeyValue { _p: u8 }
#[verifier::external_body] struct Link { _p: u8 }
#[verifier::external_body] struct SpanKind { _p: u8 }
#[verifier::external_body] struct TraceState { _p: u8 }
uninterp spec fn ts_default() -> TraceState;
impl TraceState {
    #[verifier::external_body] fn default() -> (r: TraceState) ensures r == ts_default() { unimplemented!() }
    #[verifier::external_body] fn clone(&self) -> (r: TraceState) ensures r == *self { unimplemented!() }
}
struct SpanContext { trace_state: TraceState }
impl SpanContext { fn trace_state(&self) -> (r: &TraceState) ensures *r == self.trace_state { &self.trace_state } }
struct SpanRef { sc: SpanContext }
impl SpanRef { fn span_context(&self) -> (r: &SpanContext) ensures *r == self.sc { &self.sc } }
struct Context { span: SpanRef }
impl Context { fn span(&self) -> (r: &SpanRef) ensures *r == self.span { &self.span } }
//@item opentelemetry/src/trace/tracer.rs enum SamplingDecision
//@item opentelemetry/src/trace/tracer.rs struct SamplingResult
spec fn state_for(p: Option<&Context>) -> TraceState { match p { Some(c) => c.span.sc.trace_state, None => ts_default() } }
/// the ratio's decision, as decided in kani/ratio.rs
uninterp spec fn ratio_says(p: F, id: TraceId) -> SamplingDecision;
#[verifier::external_body] fn sample_based_on_probability(p: &F, id: TraceId) -> (r: SamplingDecision) ensures r == ratio_says(*p, id) { unimplemented!() }
//@item opentelemetry-sdk/src/trace/sampler/jaeger_remote/remote.rs struct ProbabilisticSamplingStrategy
//@item opentelemetry-sdk/src/trace/sampler/jaeger_remote/remote.rs struct RateLimitingSamplingStrategy
//@item opentelemetry-sdk/src/trace/sampler/jaeger_remote/remote.rs struct OperationSamplingStrategy
//@item opentelemetry-sdk/src/trace/sampler/jaeger_remote/remote.rs struct PerOperationSamplingStrategies
//@item opentelemetry-sdk/src/trace/sampler/jaeger_remote/remote.rs enum SamplingStrategyType
//@item opentelemetry-sdk/src/trace/sampler/jaeger_remote/remote.rs struct SamplingStrategyResponse
#[verifier::external_body] struct OpMap { _p: u8 }
impl OpMap {
    uninterp spec fn view(&self) -> Map<Seq<char>, F>;
    #[verifier::external_body] fn new() -> (r: OpMap) ensures r@ == Map::<Seq<char>, F>::empty() { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, k: String, v: F) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body] fn get(&self, k: &str) -> (r: Option<&F>) ensures match r { Some(v) => self@.dom().contains(k@) && *v == self@[k@], None => !self@.dom().contains(k@) } { unimplemented!() }
}
//@gsubst HashMap<String, F> ~> OpMap
//@item opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs struct PerOperationStrategies
//@item opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs enum Strategy
/// the probability each operation was given, the last one counting
spec fn given(ops: Seq<OperationSamplingStrategy>) -> Map<Seq<char>, F> decreases ops.len() {
    if ops.len() == 0 { Map::empty() } else { given(ops.drop_last()).insert(ops.last().operation@, ops.last().probabilistic_sampling.sampling_rate) }
}
spec fn chance(s: PerOperationStrategies, name: Seq<char>) -> F { if s.operation_prob@.dom().contains(name) { s.operation_prob@[name] } else { s.default_prob } }
spec fn follows(s: PerOperationStrategies, r: PerOperationSamplingStrategies) -> bool {
    s.default_prob == r.default_sampling_probability && s.operation_prob@ == given(r.per_operation_strategies@)
        && s.default_lower_bound_traces_per_second == r.default_lower_bound_traces_per_second && s.default_upper_bound_traces_per_second == r.default_upper_bound_traces_per_second
}
impl PerOperationStrategies {
    fn default() -> (r: Self) { PerOperationStrategies { default_prob: zero(), default_lower_bound_traces_per_second: zero(), operation_prob: OpMap::new(), default_upper_bound_traces_per_second: zero() } }
//@fn opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs impl PerOperationStrategies :: fn update
//@subst self.operation_prob = remote_strategies.per_operation_strategies.into_iter().map(|$o| { ($$k, $$p) }).collect(); ~> let mut ops = OpMap::new(); let all = remote_strategies.per_operation_strategies; for $o in all { ops.insert($$k, $$p); } self.operation_prob = ops;
//@subst? op_strategy.probabilistic_sampling.sampling_rate, ~> op_strategy.probabilistic_sampling.sampling_rate
//@contract
    ensures follows(*final(self), remote_strategies),
//@loop 0 it
    invariant it.seq() == remote_strategies.per_operation_strategies@, ops@ == given(it.seq().take(it.index@)),
//@beforeloop 0
    proof { assert(remote_strategies.per_operation_strategies@.take(0) =~= Seq::empty()); }
//@endinloop 0
    proof { assert(it.seq().take(it.index@ + 1).drop_last() =~= it.seq().take(it.index@)); }
//@afterloop 0
    proof { assert(all@.take(all@.len() as int) =~= all@); }
//@endfn
//@fn opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs impl PerOperationStrategies :: fn get_probability
//@ret r
//@contract
    ensures r == chance(*self, operation@),
//@endfn
}

// ---- the strategy shared by the samplers and the task ----
struct Poison { _p: u8 }
struct Mutex<T> { poisoned: bool, v: T }
impl<T> Mutex<T> {
    fn new(v: T) -> (r: Self) ensures r.v == v, !r.poisoned { Mutex { poisoned: false, v } }
    #[verifier::external_body] fn lock(&mut self) -> (r: Result<&mut T, Poison>)
        ensures final(self).poisoned == old(self).poisoned, match r { Ok(g) => !old(self).poisoned && *g == old(self).v && *final(g) == final(self).v, Err(_) => old(self).poisoned && final(self).v == old(self).v } { unimplemented!() }
}
struct StopSender { _p: u8 }
impl StopSender { #[verifier::external_body] fn try_send(&mut self, u: (), w: &mut World) -> (r: Result<(), ()>) ensures final(w).evs@ == old(w).evs@.push(Ev::Stopped) { unimplemented!() } }
//@gsubst futures_channel::mpsc::Sender<()> ~> StopSender
//@item opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs struct Inner
impl Strategy {
    /// the strategy for a rate, starting with a full bucket
    spec fn fresh(&self, rate: i32, size: F) -> bool { match self { Strategy::RateLimiting(b) => val(b.span_per_sec) == rate as real && b.available == size && b.bucket_size == size && stamped(b.last_time), _ => false } }
}
/// what a reply makes of the strategy in use: operations before a rate before a ratio; a rate keeps the tokens of the rate before; no strategy keeps the one in use
spec fn replaced(s0: Option<Strategy>, s1: Option<Strategy>, r: SamplingStrategyResponse, size: F) -> bool {
    match (r.operation_sampling, r.rate_limiting_sampling, r.probabilistic_sampling) {
        (Some(o), _, _) => match s1 { Some(Strategy::PerOperation(p)) => follows(p, o), _ => false },
        (None, Some(rate), p) => match (s0, p) {
            (Some(Strategy::RateLimiting(b0)), None) => match s1 { Some(Strategy::RateLimiting(b1)) => val(b1.span_per_sec) == rate.max_traces_per_second as real && b1.available == b0.available && b1.bucket_size == b0.bucket_size && b1.last_time == b0.last_time, _ => false },
            _ => s1 is Some && s1->0.fresh(rate.max_traces_per_second, size),
        },
        (None, None, Some(p)) => s1 == Some(Strategy::Probabilistic(p.sampling_rate)),
        (None, None, None) => s1 == s0,
    }
}
spec fn decided(s0: Strategy, s1: Strategy, id: TraceId, name: Seq<char>, d: SamplingDecision) -> bool {
    match s0 {
        Strategy::RateLimiting(b0) => match s1 { Strategy::RateLimiting(b1) => taken(b0, b1, d is RecordAndSample) && (d is RecordAndSample || d is Drop), _ => false },
        Strategy::Probabilistic(p) => s1 == s0 && d == ratio_says(p, id),
        Strategy::PerOperation(ops) => s1 == s0 && d == ratio_says(chance(ops, name), id),
    }
}
//@gsubst self.strategy.lock().map(|mut $g| $$body).unwrap_or_else(|_err| { $$e }) ~> match self.strategy.lock() { Ok(mut $g) => $$body, Err(_err) => { $$e } }
//@gsubst self.strategy.lock().map(|mut $g| $$body).unwrap_or_else(|_| $$e) ~> match self.strategy.lock() { Ok(mut $g) => $$body, Err(_) => $$e }
//@gsubst self.init_strategy ~> Self::init_strategy
impl Inner {
//@fn opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs impl Inner :: fn new
//@ret r
//@contract
    // no strategy yet
    ensures r.strategy.v is None, !r.strategy.poisoned, r.leaky_bucket_size == leaky_bucket_size,
//@endfn
//@fn opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs impl Inner :: fn init_strategy
//@sig fn init_strategy(leaky_bucket_size: F, operation_sampling: Option<PerOperationSamplingStrategies>, rate_limiting_sampling: Option<RateLimitingSamplingStrategy>, probabilistic_sampling: Option<ProbabilisticSamplingStrategy>) -> (r: Option<Strategy>)
//@subst self.leaky_bucket_size ~> leaky_bucket_size
//@contract
    ensures match (operation_sampling, rate_limiting_sampling, probabilistic_sampling) {
        (Some(o), _, _) => match r { Some(Strategy::PerOperation(p)) => follows(p, o), _ => false },
        (None, Some(rate), _) => r is Some && r->0.fresh(rate.max_traces_per_second, leaky_bucket_size),
        (None, None, Some(p)) => r == Some(Strategy::Probabilistic(p.sampling_rate)),
        (None, None, None) => r is None,
    },
//@endfn
//@fn opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs impl Inner :: fn update
//@sig fn update(&mut self, remote_strategy_resp: SamplingStrategyResponse)
//@subst Self::init_strategy($$a) ~> Self::init_strategy(size, $$a)
//@start
    let size = self.leaky_bucket_size;
//@contract
    ensures final(self).leaky_bucket_size == old(self).leaky_bucket_size, final(self).strategy.poisoned == old(self).strategy.poisoned,
        if old(self).strategy.poisoned { final(self).strategy.v == old(self).strategy.v } else { replaced(old(self).strategy.v, final(self).strategy.v, remote_strategy_resp, old(self).leaky_bucket_size) },
//@endfn
//@fn opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs impl Inner :: fn should_sample
//@sig fn should_sample(&mut self, parent_context: Option<&Context>, trace_id: TraceId, name: &str) -> (r: Option<SamplingResult>)
//@contract
    ensures final(self).leaky_bucket_size == old(self).leaky_bucket_size, final(self).strategy.poisoned == old(self).strategy.poisoned,
        // no answer exactly if there is no strategy
        old(self).strategy.poisoned || old(self).strategy.v is None ==> r is None && final(self).strategy.v == old(self).strategy.v,
        !old(self).strategy.poisoned && old(self).strategy.v is Some ==> r is Some && final(self).strategy.v is Some
            && decided(old(self).strategy.v->0, final(self).strategy.v->0, trace_id, name@, (r->0).decision) && (r->0).attributes@.len() == 0 && (r->0).trace_state == state_for(parent_context),
//@endfn
}
enum Ev { Asked(Endpoint, Option<SamplingStrategyResponse>), Applied(SamplingStrategyResponse), Stopped }
struct World { evs: Ghost<Seq<Ev>> }
#[verifier::external_body] struct Endpoint { _p: u8 }
impl Endpoint { #[verifier::external_body] fn clone(&self) -> (r: Endpoint) ensures r == *self { unimplemented!() } }

// ---- the sampler ----
#[verifier::external_body] struct Delegate { _p: u8 }
impl Delegate {
    uninterp spec fn says(&self, parent: Option<Context>, id: TraceId, name: Seq<char>, kind: SpanKind, attrs: Seq<KeyValue>, links: Seq<Link>) -> SamplingResult;
    #[verifier::external_body]
    fn should_sample(&self, parent_context: Option<&Context>, trace_id: TraceId, name: &str, span_kind: &SpanKind, attributes: &[KeyValue], links: &[Link]) -> (r: SamplingResult)
        ensures r == self.says(match parent_context { Some(c) => Some(*c), None => None }, trace_id, name@, *span_kind, attributes@, links@)
    { unimplemented!() }
}
struct JaegerRemoteSampler { inner: Inner, default_sampler: Delegate }
impl JaegerRemoteSampler {
//@fn opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs impl ShouldSample for JaegerRemoteSampler :: fn should_sample
//@sig fn should_sample(&mut self, parent_context: Option<&Context>, trace_id: TraceId, name: &str, span_kind: &SpanKind, attributes: &[KeyValue], links: &[Link]) -> (r: SamplingResult)
//@subst $$p.unwrap_or_else(|| { $$e }) ~> match $$p { Some(x) => x, None => { $$e } }
//@contract
    ensures final(self).default_sampler == old(self).default_sampler,
        // the default sampler is asked the same, and answers, exactly as long as there is no strategy
        if old(self).inner.strategy.poisoned || old(self).inner.strategy.v is None { r == old(self).default_sampler.says(match parent_context { Some(c) => Some(*c), None => None }, trace_id, name@, *span_kind, attributes@, links@) }
        else { final(self).inner.strategy.v is Some && decided(old(self).inner.strategy.v->0, final(self).inner.strategy.v->0, trace_id, name@, r.decision) && r.attributes@.len() == 0 && r.trace_state == state_for(parent_context) },
//@endfn
}

// ---- fetching ----
//@gsubst const DEFAULT_REMOTE_SAMPLER_ENDPOINT: &str ~> const DEFAULT_REMOTE_SAMPLER_ENDPOINT: &'static str
//@item opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs const DEFAULT_REMOTE_SAMPLER_ENDPOINT
spec fn default_endpoint() -> Seq<char> { "http://localhost:5778/sampling"@ }
enum Method { Get, Post }
struct Request { method: Method, uri: Endpoint, headers: Ghost<Seq<(Seq<char>, Seq<char>)>> }
struct Builder { r: Request }
impl Request {
    fn get(uri: Endpoint) -> (r: Builder) ensures r.r.method is Get, r.r.uri == uri, r.r.headers@.len() == 0 { Builder { r: Request { method: Method::Get, uri, headers: no_headers() } } }
}
#[verifier::external_body] fn no_headers() -> (r: Ghost<Seq<(Seq<char>, Seq<char>)>>) ensures r@.len() == 0 { unimplemented!() }
impl Builder {
    #[verifier::external_body] fn header(self, k: &str, v: &str) -> (r: Builder) ensures r.r.method == self.r.method, r.r.uri == self.r.uri, r.r.headers@ == self.r.headers@.push((k@, v@)) { unimplemented!() }
    /// an empty body
    fn body(self, b: ()) -> (r: Result<Request, ()>) ensures r == Ok::<Request, ()>(self.r) { Ok(self.r) }
}
#[derive(Clone, Copy)] pub struct StatusCode { pub c: u16 }
impl StatusCode { const OK: StatusCode = StatusCode { c: 200 }; }
impl PartialEq for StatusCode { #[verifier::external_body] fn eq(&self, o: &StatusCode) -> (r: bool) ensures r == (self.c == o.c) { self.c == o.c } }
struct Response { status: StatusCode, body: Vec<u8> }
impl Response {
    fn status(&self) -> (r: StatusCode) ensures r == self.status { self.status }
    fn body(&self) -> (r: &Vec<u8>) ensures *r == self.body { &self.body }
}
struct Net { sent: Ghost<Seq<Request>>, replies: Ghost<Seq<Result<Response, HttpError>>> }
struct HttpError { _p: u8 }
#[verifier::external_body] struct Client { _p: u8 }
impl Client {
    #[verifier::external_body] fn send_bytes(&self, r: Request, n: &mut Net) -> (a: Result<Response, HttpError>) ensures final(n).sent@ == old(n).sent@.push(r), final(n).replies@ == old(n).replies@.push(a) { unimplemented!() }
}
/// what serde_json makes of a body
uninterp spec fn parsed(b: Seq<u8>) -> Option<SamplingStrategyResponse>;
#[verifier::external_body] fn from_slice(b: &Vec<u8>) -> (r: Result<SamplingStrategyResponse, HttpError>) ensures match r { Ok(x) => parsed(b@) == Some(x), Err(_) => parsed(b@) is None } { unimplemented!() }
#[verifier::external_body] fn message() -> String { unimplemented!() }
/// the strategy in an answer: there is one only with a status of 200 and a body that is one
spec fn strategy_in(a: Result<Response, HttpError>) -> Option<SamplingStrategyResponse> { match a { Ok(x) => if x.status.c == 200 { parsed(x.body@) } else { None }, Err(_) => None } }
//@gsubst http::Request::get ~> Request::get
//@gsubst http::StatusCode::OK ~> StatusCode::OK
//@gsubst Default::default() ~> ()
//@gsubst format!($$a) ~> message()
//@gsubst |err| message() ~> |_err| message()
//@gsubst serde_json::from_slice(&resp.body()[..]) ~> from_slice(resp.body())
//@gsubst .await ~> 
impl JaegerRemoteSampler {
//@fn opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs impl JaegerRemoteSampler :: fn request_new_strategy
//@sig fn request_new_strategy(client: &Client, endpoint: Endpoint, n: &mut Net) -> (r: Result<SamplingStrategyResponse, String>)
//@subst client.send_bytes(request) ~> client.send_bytes(request, n)
//@contract
    ensures final(n).sent@.len() == old(n).sent@.len() + 1, final(n).sent@.drop_last() =~= old(n).sent@, final(n).sent@.last().method is Get, final(n).sent@.last().uri == endpoint,
        final(n).replies@.len() == old(n).replies@.len() + 1, final(n).replies@.drop_last() =~= old(n).replies@,
        match r { Ok(x) => strategy_in(final(n).replies@.last()) == Some(x), Err(_) => strategy_in(final(n).replies@.last()) is None },
//@endfn
}
// the task: what was fetched is applied, in order, until the sampler is gone
/// the sampler's shared part as the task sees it
struct Shared { uses: Ghost<Seq<SamplingStrategyResponse>>, inner: Inner }
struct WeakInner { _p: u8 }
impl WeakInner {
    /// the shared part, if a sampler still holds it
    #[verifier::external_body] fn upgrade(&self, w: &mut Task) -> (r: Option<Shared>) ensures *final(w) == (Task { alive: final(w).alive, ..*old(w) }), final(w).alive@ == r is Some { unimplemented!() }
}
struct Task { fetched: Ghost<Seq<SamplingStrategyResponse>>, applied: Ghost<Seq<SamplingStrategyResponse>>, alive: Ghost<bool>, asked: Ghost<nat> }
impl Shared {
    /// Inner::update, above
    #[verifier::external_body] fn update(&self, r: SamplingStrategyResponse, w: &mut Task) ensures *final(w) == (Task { applied: final(w).applied, ..*old(w) }), final(w).applied@ == old(w).applied@.push(r) { unimplemented!() }
}
/// one request, above; what it brought
#[verifier::external_body] fn fetch(c: &Client, e: Endpoint, w: &mut Task, to: Ghost<Endpoint>) -> (r: Result<SamplingStrategyResponse, String>) requires e == to@
    ensures *final(w) == (Task { fetched: final(w).fetched, asked: final(w).asked, ..*old(w) }), final(w).asked@ == old(w).asked@ + 1,
        match r { Ok(x) => final(w).fetched@ == old(w).fetched@.push(x), Err(_) => final(w).fetched == old(w).fetched } { unimplemented!() }
/// the ticks (true) and the end (false), as they come
struct Signals { all: Ghost<Seq<bool>>, at: Ghost<nat> }
impl Signals {
    spec fn wf(&self) -> bool { self.at@ <= self.all@.len() }
    spec fn done(&self) -> Seq<bool> { self.all@.take(self.at@ as int) }
    #[verifier::external_body] fn next_(&mut self) -> (r: Option<bool>) requires old(self).wf()
        ensures final(self).wf(), final(self).all == old(self).all,
            match r { Some(b) => old(self).at@ < old(self).all@.len() && final(self).at@ == old(self).at@ + 1 && b == old(self).all@[old(self).at@ as int], None => final(self).at == old(self).at && final(self).at@ == final(self).all@.len() } { unimplemented!() }
    fn next(&mut self) -> (r: Option<bool>) requires old(self).wf()
        ensures final(self).wf(), final(self).all == old(self).all,
            match r { Some(b) => final(self).done().len() > 0 && final(self).done().drop_last() == old(self).done() && final(self).done().last() == b && ticks(final(self).done()) == ticks(old(self).done()) + (if b { 1nat } else { 0 }),
                None => final(self).done() == old(self).done() && final(self).at@ == final(self).all@.len() }
    { let ghost d = self.done(); let r = self.next_(); proof { if r is Some { assert(self.done().drop_last() =~= d); } } r }
}
struct Stops { _p: u8 }
struct Ticks { every: Ghost<Duration> }
//@gsubst $x.map(|_| $v) ~> $x.signal($v, Ghost(update_timeout))
//@gsubst let mut update = Box::pin(stream::select($$a)); ~> both($$a); let update = sig;
impl Stops { fn signal(self, v: bool, d: Ghost<Duration>) -> Stops requires !v { self } }
impl Ticks { fn signal(self, v: bool, d: Ghost<Duration>) -> Ticks requires v, self.every == d { self } }
fn both(s: Stops, t: Ticks) {}
spec fn ticks(s: Seq<bool>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { ticks(s.drop_last()) + (if s.last() { 1nat } else { 0 }) } }
struct Runtime { _p: u8 }
impl Runtime { fn clone(&self) -> Runtime { Runtime { _p: self._p } } }
fn to_interval_stream(rt: Runtime, d: Duration) -> (r: Ticks) ensures r.every@ == d { Ticks { every: Ghost(d) } }
//@gsubst Self::request_new_strategy($$a) ~> fetch($$a, w, Ghost(endpoint))
impl JaegerRemoteSampler {
//@fn opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs impl JaegerRemoteSampler :: fn run_update_task
//@sig #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] fn run_update_task(runtime: Runtime, strategy: WeakInner, update_timeout: Duration, client: Client, shutdown: Stops, endpoint: Endpoint, sig: &mut Signals, w: &mut Task)
//@subst runtime.spawn(async move { $$body }); ~> { $$body }
//@subst strategy.upgrade() ~> strategy.upgrade(w)
//@subst strategy.update($$a) ~> strategy.update($$a, w)
//@contract
    requires old(w).fetched@.len() == 0, old(w).applied@.len() == 0, old(w).asked@ == 0, old(w).alive@, old(sig).wf(), old(sig).at@ == 0,
    // every strategy fetched was applied once, in order, but for one that came after the sampler was gone; one request for each tick
    ensures final(w).alive@ ==> final(w).applied@ =~= final(w).fetched@,
        !final(w).alive@ ==> final(w).applied@ =~= final(w).fetched@.drop_last(),
        final(w).asked@ == ticks(final(sig).done()), final(sig).all == old(sig).all,
        // it goes on until told to end or the sampler is gone
        !final(w).alive@ || final(sig).at@ == old(sig).all@.len() || !final(sig).done().last(),
//@loop 0
    invariant update.wf(), update.all == old(sig).all, w.alive@, w.applied@ =~= w.fetched@, w.asked@ == ticks(update.done()),
    ensures w.alive@ ==> w.applied@ =~= w.fetched@, !w.alive@ ==> w.applied@ =~= w.fetched@.drop_last(), w.asked@ == ticks(update.done()), update.all == old(sig).all,
        !w.alive@ || update.at@ == old(sig).all@.len() || !update.done().last(),
//@endfn
}

// ---- the sampler's end ----
struct Ender { shut_down: StopSender }
impl Ender {
//@fn opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs impl Drop for Inner :: fn drop
//@sig fn drop(&mut self, w: &mut World)
//@subst self.shut_down.try_send(()) ~> self.shut_down.try_send((), w)
//@contract
    ensures final(w).evs@ == old(w).evs@.push(Ev::Stopped),
//@endfn
}

// ---- the builder ----
struct JaegerRemoteSamplerBuilder { update_interval: Duration, client: Client, endpoint: String, default_sampler: Delegate, leaky_bucket_size: F, runtime: Runtime, service_name: String }
#[verifier::external_body] struct Url { _p: u8 }
uninterp spec fn url_of(s: Seq<char>) -> Option<Url>;
uninterp spec fn with_query(u: Url, k: Seq<char>, v: Seq<char>) -> Url;
uninterp spec fn uri_of(u: Url) -> Option<Endpoint>;
/// the default endpoint is a URL
#[verifier::external_body] proof fn default_is_url() ensures url_of(default_endpoint()) is Some { }
#[verifier::external_body] struct ParseError { _p: u8 }
impl core::fmt::Debug for ParseError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl Url {
    #[verifier::external_body] fn parse(s: &str) -> (r: Result<Url, ParseError>) ensures match r { Ok(u) => url_of(s@) == Some(u), Err(_) => url_of(s@) is None } { unimplemented!() }
    #[verifier::external_body] fn append_query(&mut self, k: &str, v: &str) ensures *final(self) == with_query(*old(self), k@, v@) { unimplemented!() }
    #[verifier::external_body] fn to_uri(&self) -> (r: Result<Endpoint, ParseError>) ensures match r { Ok(u) => uri_of(*self) == Some(u), Err(_) => uri_of(*self) is None } { unimplemented!() }
}
#[verifier::external_body] fn owned(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] fn no_chars(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
enum TraceError { Other(String) }
enum Sampler { JaegerRemote(Started) }
/// a sampler as started: what its task uses
struct Started { every: Duration, client: Client, endpoint: Endpoint, default_sampler: Delegate, size: F }
#[verifier::external_body] fn start(runtime: Runtime, update_timeout: Duration, client: Client, endpoint: Endpoint, default_sampler: Delegate, leaky_bucket_size: F) -> (r: Started) ensures r.every == update_timeout, r.client == client, r.endpoint == endpoint, r.default_sampler == default_sampler, r.size == leaky_bucket_size { unimplemented!() }
//@gsubst JaegerRemoteSampler::new ~> start
//@gsubst url::Url ~> Url
//@gsubst endpoint.query_pairs_mut().append_pair ~> endpoint.append_query
//@gsubst Uri::from_str(endpoint.as_str()) ~> endpoint.to_uri()
//@gsubst endpoint.is_empty() ~> no_chars(endpoint)
//@gsubst service_name.is_empty() ~> no_chars(service_name)
/// where the strategies are fetched: the endpoint, or the default one if it is no URL, asked for the service
spec fn asked_at(e: Seq<char>, service: Seq<char>) -> Option<Endpoint> {
    if e.len() == 0 || service.len() == 0 { None } else { uri_of(with_query(match url_of(e) { Some(u) => u, None => url_of(default_endpoint())->0 }, "service"@, service)) }
}
impl JaegerRemoteSamplerBuilder {
//@fn opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs impl JaegerRemoteSamplerBuilder<C, S, R> :: fn new
//@sig fn new(runtime: Runtime, http_client: Client, default_sampler: Delegate, service_name: String) -> (r: Self)
//@subst DEFAULT_REMOTE_SAMPLER_ENDPOINT.to_string() ~> owned(DEFAULT_REMOTE_SAMPLER_ENDPOINT)
//@subst service_name.into() ~> service_name
//@contract
    ensures r.runtime == runtime, r.client == http_client, r.default_sampler == default_sampler, r.service_name == service_name, r.endpoint@ == default_endpoint(), val(r.leaky_bucket_size) == 100real, long(r.update_interval) == 300real,
//@endfn
//@fn opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs impl JaegerRemoteSamplerBuilder<C, S, R> :: fn with_update_interval
//@ret r
//@contract
    ensures r == (JaegerRemoteSamplerBuilder { update_interval: interval, ..self }),
//@endfn
//@fn opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs impl JaegerRemoteSamplerBuilder<C, S, R> :: fn with_endpoint
//@sig fn with_endpoint(self, endpoint: String) -> (r: Self)
//@subst endpoint.into() ~> endpoint
//@contract
    ensures r == (JaegerRemoteSamplerBuilder { endpoint, ..self }),
//@endfn
//@fn opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs impl JaegerRemoteSamplerBuilder<C, S, R> :: fn with_leaky_bucket_size
//@ret r
//@contract
    ensures r == (JaegerRemoteSamplerBuilder { leaky_bucket_size: size, ..self }),
//@endfn
//@fn opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs impl JaegerRemoteSamplerBuilder<C, S, R> :: fn get_endpoint
//@sig fn get_endpoint(endpoint: &str, service_name: &str) -> (r: Result<Endpoint, String>)
//@subst Url::parse(endpoint).unwrap_or_else(|_| $$e) ~> match Url::parse(endpoint) { Ok(x) => x, Err(_) => $$e }
//@subst .to_string() ~> .owned()
//@start
    proof { default_is_url(); }
//@contract
    ensures match r { Ok(e) => asked_at(endpoint@, service_name@) == Some(e), Err(_) => asked_at(endpoint@, service_name@) is None },
//@endfn
//@fn opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs impl JaegerRemoteSamplerBuilder<C, S, R> :: fn build
//@sig fn build(self) -> (r: Result<Sampler, TraceError>)
//@subst err_str.into() ~> err_str
//@contract
    ensures match r {
        Ok(Sampler::JaegerRemote(s)) => s.every == self.update_interval && s.client == self.client && s.default_sampler == self.default_sampler && s.size == self.leaky_bucket_size && asked_at(self.endpoint@, self.service_name@) == Some(s.endpoint),
        Err(_) => asked_at(self.endpoint@, self.service_name@) is None,
    },
//@endfn
}
trait Own { fn owned(&self) -> String; }
impl Own for str { #[verifier::external_body] fn owned(&self) -> String { unimplemented!() } }
} // verus!
fn main() {}

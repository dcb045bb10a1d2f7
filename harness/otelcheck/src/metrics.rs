// C16 sums, C17 attribute sets, C18 histograms, C19 exponential histograms, C21 views and streams, C28 gauges and observables.
use crate::common::{Ctx, Rng};
use opentelemetry::metrics::{Counter, Gauge, Histogram, Meter, MeterProvider, UpDownCounter};
use opentelemetry::{Array, InstrumentationScope, Key, KeyValue, Value};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::metrics::data::{AggregatedMetrics, ExponentialBucket, MetricData, ResourceMetrics};
use opentelemetry_sdk::metrics::reader::MetricReader;
use opentelemetry_sdk::metrics::{new_view, Aggregation, Instrument, InstrumentKind, ManualReader, Pipeline, SdkMeterProvider, Stream, Temporality};
use opentelemetry_sdk::Resource;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex, Weak};
use std::time::{Duration, SystemTime};

#[derive(Clone, Debug)]
pub struct Rd(pub Arc<ManualReader>);
impl Rd {
    pub fn new(t: Temporality) -> Rd { Rd(Arc::new(ManualReader::builder().with_temporality(t).build())) }
}
impl MetricReader for Rd {
    fn register_pipeline(&self, p: Weak<Pipeline>) { self.0.register_pipeline(p) }
    fn collect(&self, rm: &mut ResourceMetrics) -> OTelSdkResult { self.0.collect(rm) }
    fn force_flush(&self) -> OTelSdkResult { self.0.force_flush() }
    fn shutdown_with_timeout(&self, t: Duration) -> OTelSdkResult { self.0.shutdown_with_timeout(t) }
    fn temporality(&self, k: InstrumentKind) -> Temporality { self.0.temporality(k) }
}
pub fn empty_rm() -> ResourceMetrics { ResourceMetrics { resource: Resource::builder_empty().build(), scope_metrics: vec![] } }

#[derive(Clone, Copy, Debug)]
pub enum N { I(i128), F(f64) }
impl PartialEq for N {
    fn eq(&self, o: &N) -> bool { match (self, o) { (N::I(a), N::I(b)) => a == b, (N::F(a), N::F(b)) => a == b || (a.is_nan() && b.is_nan()), _ => false } }
}
pub trait ToN: Copy { fn n(self) -> N; }
impl ToN for u64 { fn n(self) -> N { N::I(self as i128) } }
impl ToN for i64 { fn n(self) -> N { N::I(self as i128) } }
impl ToN for f64 { fn n(self) -> N { N::F(self) } }
#[derive(Clone, Debug, PartialEq)]
pub enum P {
    V(N),
    H { count: u64, bounds: Vec<f64>, counts: Vec<u64>, min: Option<N>, max: Option<N>, sum: N },
    E { count: usize, min: Option<N>, max: Option<N>, sum: N, scale: i8, zero: u64, pos: (i32, Vec<u64>), neg: (i32, Vec<u64>) },
}
#[derive(Clone, Debug)]
pub struct St { pub scope: String, pub name: String, pub desc: String, pub unit: String, pub kind: String, pub num: &'static str, pub temp: Option<Temporality>, pub mono: bool,
    pub start: Option<SystemTime>, pub time: SystemTime, pub pts: BTreeMap<String, P> }

fn val(v: &Value) -> String {
    match v { Value::F64(f) => format!("f{:x}", f.to_bits()), Value::Array(Array::F64(a)) => format!("{:?}", a.iter().map(|f| f.to_bits()).collect::<Vec<_>>()), v => format!("{v:?}") }
}
pub fn canon(a: &[KeyValue]) -> String {
    let m: BTreeMap<&str, String> = a.iter().map(|k| (k.key.as_str(), val(&k.value))).collect();
    format!("{m:?}")
}
fn put(m: &mut BTreeMap<String, P>, a: &[KeyValue], p: P) -> Result<(), String> {
    let keys: BTreeSet<&str> = a.iter().map(|k| k.key.as_str()).collect();
    if keys.len() != a.len() { return Err(format!("a data point repeats an attribute key: {a:?}")); }
    if m.insert(canon(a), p).is_some() { return Err(format!("two data points of one stream have the same attributes: {a:?}")); }
    Ok(())
}
fn eb(b: &ExponentialBucket) -> (i32, Vec<u64>) { (b.offset, b.counts.clone()) }
fn md<T: ToN>(d: &MetricData<T>, num: &'static str, scope: &InstrumentationScope, m: &opentelemetry_sdk::metrics::data::Metric) -> Result<St, String> {
    let mut pts = BTreeMap::new();
    let (kind, temp, mono, start, time) = match d {
        MetricData::Sum(s) => { for p in &s.data_points { put(&mut pts, &p.attributes, P::V(p.value.n()))?; } ("sum", Some(s.temporality), s.is_monotonic, Some(s.start_time), s.time) }
        MetricData::Gauge(g) => { for p in &g.data_points { put(&mut pts, &p.attributes, P::V(p.value.n()))?; } ("gauge", None, false, g.start_time, g.time) }
        MetricData::Histogram(h) => {
            for p in &h.data_points { put(&mut pts, &p.attributes, P::H { count: p.count, bounds: p.bounds.clone(), counts: p.bucket_counts.clone(), min: p.min.map(ToN::n), max: p.max.map(ToN::n), sum: p.sum.n() })?; }
            ("hist", Some(h.temporality), false, Some(h.start_time), h.time)
        }
        MetricData::ExponentialHistogram(h) => {
            for p in &h.data_points { put(&mut pts, &p.attributes, P::E { count: p.count, min: p.min.map(ToN::n), max: p.max.map(ToN::n), sum: p.sum.n(), scale: p.scale, zero: p.zero_count, pos: eb(&p.positive_bucket), neg: eb(&p.negative_bucket) })?; }
            ("expo", Some(h.temporality), false, Some(h.start_time), h.time)
        }
    };
    Ok(St { scope: scope.name().to_string(), name: m.name.to_string(), desc: m.description.to_string(), unit: m.unit.to_string(), kind: kind.into(), num, temp, mono, start, time, pts })
}
pub fn streams(rm: &ResourceMetrics) -> Result<Vec<St>, String> {
    let mut out = vec![];
    for s in &rm.scope_metrics {
        if s.metrics.is_empty() { return Err("a scope without metrics is reported".into()); }
        for m in &s.metrics {
            let st = match &m.data { AggregatedMetrics::F64(d) => md(d, "f64", &s.scope, m)?, AggregatedMetrics::U64(d) => md(d, "u64", &s.scope, m)?, AggregatedMetrics::I64(d) => md(d, "i64", &s.scope, m)? };
            if st.pts.is_empty() { return Err(format!("stream {} without data points is reported", st.name)); }
            out.push(st);
        }
    }
    Ok(out)
}
pub fn collect(r: &Rd, rm: &mut ResourceMetrics) -> Result<Vec<St>, String> {
    r.collect(rm).map_err(|e| format!("collect: {e:?}"))?;
    streams(rm)
}

// ---- a random program over instruments against lists of what was recorded ----
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum K { CU, CF, UI, UF, GU, GI, GF, HU, HF, OCU, OCF, OUI, OUF, OGU, OGI, OGF }
enum I { CU(Counter<u64>), CF(Counter<f64>), UI(UpDownCounter<i64>), UF(UpDownCounter<f64>), GU(Gauge<u64>), GI(Gauge<i64>), GF(Gauge<f64>), HU(Histogram<u64>), HF(Histogram<f64>), O }
fn num(k: K) -> &'static str {
    match k { K::CU | K::GU | K::HU | K::OCU | K::OGU => "u64", K::UI | K::GI | K::OUI | K::OGI => "i64", _ => "f64" }
}
fn is_obs(k: K) -> bool { k >= K::OCU }
fn is_gauge(k: K) -> bool { matches!(k, K::GU | K::GI | K::GF | K::OGU | K::OGI | K::OGF) }
fn is_hist(k: K) -> bool { matches!(k, K::HU | K::HF) }
fn mono(k: K) -> bool { matches!(k, K::CU | K::CF | K::OCU | K::OCF) }
fn unsigned(k: K) -> bool { num(k) == "u64" || mono(k) }
/// the temporality a reader's preference gives an instrument
fn temp(pref: Temporality, k: K) -> Temporality {
    let updown = matches!(k, K::UI | K::UF | K::OUI | K::OUF);
    match pref {
        Temporality::Delta => if updown { Temporality::Cumulative } else { Temporality::Delta },
        Temporality::LowMemory => if matches!(k, K::CU | K::CF | K::HU | K::HF) { Temporality::Delta } else { Temporality::Cumulative },
        _ => Temporality::Cumulative,
    }
}
fn n_of(k: K, raw: i64) -> N { if num(k) == "f64" { N::F(raw as f64 / 4.0) } else { N::I(raw as i128) } }
/// every instrument has its own description and unit
fn ident(name: &str) -> (String, String) { let l = name.to_lowercase(); (format!("about {l}"), format!("{{{l}}}")) }
type Table = Arc<Mutex<Vec<(Vec<KeyValue>, i64)>>>;
fn make(m: &Meter, k: K, name: &str, limit: Option<usize>, bounds: Option<Vec<f64>>, t: &Table) -> I {
    let (de, un) = ident(name);
    macro_rules! lim { ($b:expr) => {{ let b = $b.with_description(de.clone()).with_unit(un.clone()); match limit { Some(l) => b.with_cardinality_limit(l), None => b } }} }
    macro_rules! obs { ($b:expr, $f:expr) => {{ let t = t.clone(); let b = $b.with_description(de.clone()).with_unit(un.clone()); b.with_callback(move |o| for (a, v) in t.lock().unwrap().iter() { o.observe($f(*v), a) }).build(); I::O }} }
    let n = name.to_string();
    match k {
        K::CU => I::CU(lim!(m.u64_counter(n)).build()),
        K::CF => I::CF(lim!(m.f64_counter(n)).build()),
        K::UI => I::UI(lim!(m.i64_up_down_counter(n)).build()),
        K::UF => I::UF(lim!(m.f64_up_down_counter(n)).build()),
        K::GU => I::GU(lim!(m.u64_gauge(n)).build()),
        K::GI => I::GI(lim!(m.i64_gauge(n)).build()),
        K::GF => I::GF(lim!(m.f64_gauge(n)).build()),
        K::HU => { let b = lim!(m.u64_histogram(n)); I::HU(match bounds { Some(x) => b.with_boundaries(x), None => b }.build()) }
        K::HF => { let b = lim!(m.f64_histogram(n)); I::HF(match bounds { Some(x) => b.with_boundaries(x), None => b }.build()) }
        K::OCU => obs!(m.u64_observable_counter(n), |v| v as u64),
        K::OCF => obs!(m.f64_observable_counter(n), |v| v as f64 / 4.0),
        K::OUI => obs!(m.i64_observable_up_down_counter(n), |v| v),
        K::OUF => obs!(m.f64_observable_up_down_counter(n), |v| v as f64 / 4.0),
        K::OGU => obs!(m.u64_observable_gauge(n), |v| v as u64),
        K::OGI => obs!(m.i64_observable_gauge(n), |v| v),
        K::OGF => obs!(m.f64_observable_gauge(n), |v| v as f64 / 4.0),
    }
}
fn record(i: &I, raw: i64, a: &[KeyValue]) {
    let f = raw as f64 / 4.0;
    match i {
        I::CU(c) => c.add(raw as u64, a), I::CF(c) => c.add(f, a), I::UI(c) => c.add(raw, a), I::UF(c) => c.add(f, a),
        I::GU(c) => c.record(raw as u64, a), I::GI(c) => c.record(raw, a), I::GF(c) => c.record(f, a),
        I::HU(c) => c.record(raw as u64, a), I::HF(c) => c.record(f, a), I::O => {}
    }
}
pub const DEFAULT_BOUNDS: [f64; 15] = [0.0, 5.0, 10.0, 25.0, 50.0, 75.0, 100.0, 250.0, 500.0, 750.0, 1000.0, 2500.0, 5000.0, 7500.0, 10000.0];
fn add(k: K, l: &[i64]) -> N { n_of(k, l.iter().sum()) }
fn hist(k: K, l: &[i64], bounds: &[f64]) -> P {
    let f = |raw: i64| if num(k) == "f64" { raw as f64 / 4.0 } else { raw as f64 };
    let mut counts = vec![0u64; bounds.len() + 1];
    for r in l { counts[bounds.iter().filter(|b| **b < f(*r)).count()] += 1; }
    P::H { count: l.len() as u64, bounds: bounds.to_vec(), counts, min: l.iter().min().map(|r| n_of(k, *r)), max: l.iter().max().map(|r| n_of(k, *r)), sum: add(k, l) }
}
pub fn attr_sets(r: &mut Rng) -> Vec<Vec<KeyValue>> {
    let vals = [Value::from("x"), Value::from(""), Value::from(1), Value::from(1.0), Value::from(true), Value::from("1"), Value::from(0.5), Value::Array(Array::I64(vec![1, 2])), Value::from(-1)];
    let keys = ["a", "b", "c", "http.method", "A"];
    let mut out = vec![vec![]];
    for _ in 0..r.below(8) + 1 {
        let mut ks: Vec<&str> = keys.to_vec();
        r.shuffle(&mut ks);
        let mut s: Vec<KeyValue> = ks[..r.usize(4)].iter().map(|k| KeyValue::new(k.to_string(), r.pick(&vals).clone())).collect();
        if !s.is_empty() && r.chance(1, 5) { let d = r.pick(&s).clone(); s.push(d); }
        out.push(s.clone());
        // the same set in another order
        if r.bool() { r.shuffle(&mut s); out.push(s); }
    }
    out
}
struct Oracle { log: BTreeMap<String, Vec<i64>>, prev: BTreeMap<String, i64>, order: usize, start: Option<SystemTime>, time: Option<SystemTime> }
const OVER: &str = "otel.metric.overflow";
fn program(r: &mut Rng, kinds: &[K], sets: Vec<Vec<KeyValue>>, limit: Option<usize>, prefs: &[Temporality], ops: u64, bounds: Option<Vec<f64>>, trace: &mut Vec<String>) -> Result<(), String> {
    let readers: Vec<Rd> = prefs.iter().map(|t| Rd::new(*t)).collect();
    let mut b = SdkMeterProvider::builder();
    for rd in &readers { b = b.with_reader(rd.clone()); }
    let prov = b.build();
    let meters = [prov.meter("m0"), prov.meter("m1")];
    let mut insts = vec![];
    for (i, k) in kinds.iter().enumerate() {
        let which = r.usize(2);
        let name = format!("i{i}");
        let t: Table = Arc::new(Mutex::new(vec![]));
        // asking for an instrument twice (in another case) yields the same stream
        let a = make(&meters[which], *k, &name, limit, bounds.clone(), &t);
        let again = if is_obs(*k) { None } else { Some(make(&meters[which], *k, &name.to_uppercase(), limit, bounds.clone(), &t)) };
        insts.push((*k, which, name, a, again, t));
    }
    let bs: Vec<f64> = bounds.clone().unwrap_or(DEFAULT_BOUNDS.to_vec());
    let mut or: Vec<Vec<Oracle>> = readers.iter().map(|_| insts.iter().map(|_| Oracle { log: BTreeMap::new(), prev: BTreeMap::new(), order: 0, start: None, time: None }).collect()).collect();
    let mut rms: Vec<ResourceMetrics> = readers.iter().map(|_| empty_rm()).collect();
    let over = canon(&[KeyValue::new(OVER, true)]);
    for op in 0..ops {
        if r.chance(4, 5) && op + 1 < ops {
            let x = r.usize(insts.len());
            let (k, _, _, a, again, t) = &insts[x];
            let set = r.pick(&sets).clone();
            let raw = match r.below(6) { 0 => 0, 1 => r.below(5) as i64, 2 => r.below(100000) as i64, 3 => bs.get(r.usize(bs.len().max(1))).map(|b| *b as i64).unwrap_or(3), 4 => 1, _ => r.below(60) as i64 };
            let raw = if unsigned(*k) || r.bool() { raw.abs() } else { -raw };
            if is_obs(*k) {
                trace.push(format!("observe {x} {raw} {set:?}"));
                let mut t = t.lock().unwrap();
                if r.chance(1, 4) { t.retain(|_| r.bool()); }
                if r.bool() { let c = canon(&set); t.retain(|(a, _)| canon(a) != c); }
                t.push((set, raw));
            } else {
                trace.push(format!("record {x} {raw} {set:?}"));
                match again { Some(b) if r.bool() => record(b, raw, &set), _ => record(a, raw, &set) }
                let c = canon(&set);
                for o in or.iter_mut().map(|o| &mut o[x]) { put_limited(o, c.clone(), raw, limit, &over); }
            }
        } else {
            let q = r.usize(readers.len());
            trace.push(format!("collect {q}"));
            if r.chance(1, 3) { rms[q] = empty_rm(); }
            let got = collect(&readers[q], &mut rms[q])?;
            let mut want = 0;
            // a collection by any reader runs the callbacks, and every reader sees what they observe
            for (x, (k, .., t)) in insts.iter().enumerate() {
                if is_obs(*k) { for o in or.iter_mut().map(|o| &mut o[x]) { for (a, v) in t.lock().unwrap().iter() { put_limited(o, canon(a), *v, None, &over); } } }
            }
            for (x, (k, which, name, _, _, _)) in insts.iter().enumerate() {
                let o = &mut or[q][x];
                let delta = temp(prefs[q], *k) == Temporality::Delta;
                let mut exp: BTreeMap<String, P> = BTreeMap::new();
                let mut now = BTreeMap::new();
                for (a, l) in &o.log {
                    let last = *l.last().unwrap();
                    let p = if is_hist(*k) { hist(*k, l, &bs) } else if is_gauge(*k) { P::V(n_of(*k, last)) } else if is_obs(*k) {
                        now.insert(a.clone(), last);
                        let prev = o.prev.get(a).copied().unwrap_or(0);
                        P::V(n_of(*k, if !delta { last } else if mono(*k) && last < prev { last } else { last - prev }))
                    } else { P::V(add(*k, l)) };
                    exp.insert(a.clone(), p);
                }
                o.prev = now;
                let st: Vec<&St> = got.iter().filter(|s| s.name == *name).collect();
                if exp.is_empty() {
                    if !st.is_empty() { return Err(format!("{k:?} {name}: nothing was recorded, reported {st:?}")); }
                } else {
                    want += 1;
                    if st.len() != 1 { return Err(format!("{k:?} {name}: {} streams", st.len())); }
                    let s = st[0];
                    if s.scope != format!("m{which}") || (s.desc.clone(), s.unit.clone()) != ident(name) || s.num != num(*k) || s.mono != mono(*k) { return Err(format!("{k:?}: wrong identity {s:?}")); }
                    if s.kind != (if is_hist(*k) { "hist" } else if is_gauge(*k) { "gauge" } else { "sum" }) { return Err(format!("{k:?}: reported as {}", s.kind)); }
                    if !is_gauge(*k) && s.temp != Some(if delta { Temporality::Delta } else { Temporality::Cumulative }) { return Err(format!("{k:?}: temporality {:?} for the preference {:?}", s.temp, prefs[q])); }
                    if s.pts != exp { return Err(format!("{k:?} {name}, {:?}: reported {:?}, recorded {:?}", prefs[q], s.pts, exp)); }
                }
                if let (Some(s), false) = (st.first(), is_gauge(*k)) {
                    let st = s.start.unwrap();
                    if st > s.time { return Err(format!("{k:?}: interval ends before it starts")); }
                    if let (Some(a), Some(b)) = (o.start, o.time) {
                        if s.time < b { return Err(format!("{k:?}: time goes backwards")); }
                        if !delta && st != a { return Err(format!("{k:?}: the start of a cumulative stream moves")); }
                        if delta && st < b { return Err(format!("{k:?}: delta intervals overlap: {st:?} < {b:?}")); }
                    }
                    o.start = Some(st); o.time = Some(s.time);
                }
                // an observable gauge forgets after every collection, whatever the preference
                if delta || matches!(k, K::OGU | K::OGI | K::OGF) { o.log.clear(); o.order = 0; }
            }
            if got.len() != want { return Err(format!("{} streams reported, {want} recorded", got.len())); }
        }
    }
    Ok(())
}
fn put_limited(o: &mut Oracle, c: String, raw: i64, limit: Option<usize>, over: &str) {
    if c == "{}" || o.log.contains_key(&c) { o.log.entry(c).or_default().push(raw); return; }
    if o.order < limit.unwrap_or(2000) { o.order += 1; o.log.insert(c, vec![raw]); } else { o.log.entry(over.into()).or_default().push(raw); }
}
fn some_prefs(r: &mut Rng) -> Vec<Temporality> {
    let all = [Temporality::Cumulative, Temporality::Delta, Temporality::LowMemory];
    (0..1 + r.usize(2)).map(|_| *r.pick(&all)).collect()
}
fn programs(c: &mut Ctx, n: u64, pool: &[K], limits: bool, with_bounds: bool) {
    for _ in 0..c.n(n) {
        let kinds: Vec<K> = (0..1 + c.rng.usize(4)).map(|_| *c.rng.pick(pool)).collect();
        let sets = attr_sets(&mut c.rng);
        let prefs = some_prefs(&mut c.rng);
        let limit = if limits && c.rng.chance(2, 3) { Some(c.rng.usize(5)) } else { None };
        let bounds = if with_bounds && c.rng.chance(2, 3) { Some(some_bounds(&mut c.rng)) } else { None };
        let ops = c.rng.below(40) + 3;
        let mut r = Rng(c.rng.next());
        let seed = r.0;
        let mut tr = vec![];
        let desc = format!("program {seed:#x}: {kinds:?} {prefs:?} limit {limit:?} bounds {bounds:?} {} sets, {ops} operations", sets.len());
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| program(&mut r, &kinds, sets, limit, &prefs, ops, bounds, &mut tr)));
        let d = if matches!(res, Ok(Ok(()))) { desc } else { format!("{desc}: {}", tr.join("; ")) };
        c.case(d, true, || match res { Ok(x) => x, Err(p) => std::panic::resume_unwind(p) });
    }
}
fn some_bounds(r: &mut Rng) -> Vec<f64> {
    let mut b: Vec<f64> = (0..r.usize(6)).map(|_| (r.below(400) as f64 - 100.0) / 4.0).collect();
    b.sort_by(|a, b| a.partial_cmp(b).unwrap());
    b.dedup();
    b
}

/// many threads record while a reader collects: nothing is lost, nothing counted twice
fn racing(c: &mut Ctx, n: u64, hist: bool) {
    for round in 0..c.n(n) {
        let pref = if round % 2 == 0 { Temporality::Delta } else { Temporality::Cumulative };
        let sets: Vec<Vec<KeyValue>> = vec![vec![], vec![KeyValue::new("a", 1)], vec![KeyValue::new("a", 1), KeyValue::new("b", 2)], vec![KeyValue::new("b", 2), KeyValue::new("a", 1)], vec![KeyValue::new("z", "q")]];
        let threads = 4u64;
        let per = 400u64;
        let seed = c.rng.next();
        c.case(format!("race {seed:#x}: {threads} threads, {per} measurements each, {pref:?}, histogram: {hist}"), true, || {
            let rd = Rd::new(pref);
            let prov = SdkMeterProvider::builder().with_reader(rd.clone()).build();
            let m = prov.meter("m");
            let (ctr, fctr, h) = (m.u64_counter("c").build(), m.f64_counter("f").build(), m.u64_histogram("h").with_boundaries(vec![10.0, 20.0]).build());
            let mut tot: BTreeMap<String, (u64, u64)> = BTreeMap::new();
            let mut seen: BTreeMap<String, (i128, f64, u64, i128)> = BTreeMap::new();
            let add = |st: Vec<St>, seen: &mut BTreeMap<String, (i128, f64, u64, i128)>, cum: bool| -> Result<(), String> {
                if cum {
                    for s in &st { for (a, p) in &s.pts {
                        let e = seen.entry(a.clone()).or_default();
                        match p {
                            P::V(N::I(v)) => { if *v < e.0 { return Err(format!("a cumulative counter falls from {} to {v}", e.0)); } e.0 = *v; }
                            P::V(N::F(v)) => { if *v < e.1 { return Err(format!("a cumulative counter falls from {} to {v}", e.1)); } e.1 = *v; }
                            P::H { count, counts, sum: N::I(s), .. } => {
                                if *count != counts.iter().sum::<u64>() { return Err(format!("count {count}, buckets {counts:?}")); }
                                if *count < e.2 { return Err("a cumulative count falls".into()); }
                                e.2 = *count; e.3 = *s;
                            }
                            _ => return Err("wrong kind".into()),
                        }
                    } }
                } else {
                    for s in &st { for (a, p) in &s.pts {
                        let e = seen.entry(a.clone()).or_default();
                        match p {
                            P::V(N::I(v)) => e.0 += *v,
                            P::V(N::F(v)) => e.1 += *v,
                            P::H { count, counts, sum: N::I(s), .. } => { if *count != counts.iter().sum::<u64>() { return Err(format!("count {count}, buckets {counts:?}")); } e.2 += *count; e.3 += *s; }
                            _ => return Err("wrong kind".into()),
                        }
                    } }
                }
                Ok(())
            };
            let cum = pref == Temporality::Cumulative;
            let mut plans = vec![];
            for t in 0..threads {
                let mut r = Rng(seed ^ t);
                let plan: Vec<(usize, u64)> = (0..per).map(|_| (r.usize(sets.len()), r.below(30))).collect();
                for (s, v) in &plan { let e = tot.entry(canon(&sets[*s])).or_default(); e.0 += *v; e.1 += 1; }
                plans.push(plan);
            }
            let done = std::sync::atomic::AtomicUsize::new(0);
            let mut err = Ok(());
            std::thread::scope(|sc| {
                for plan in &plans {
                    let (ctr, fctr, h, sets, done) = (ctr.clone(), fctr.clone(), h.clone(), &sets, &done);
                    sc.spawn(move || {
                        for (s, v) in plan { if hist { h.record(*v, &sets[*s]) } else { ctr.add(*v, &sets[*s]); fctr.add(*v as f64 / 4.0, &sets[*s]); } }
                        done.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    });
                }
                let mut rm = empty_rm();
                while done.load(std::sync::atomic::Ordering::SeqCst) < threads as usize {
                    match collect(&rd, &mut rm) { Ok(s) => if err.is_ok() { err = add(s, &mut seen, cum) }, Err(e) => err = Err(e) }
                }
            });
            err?;
            add(collect(&rd, &mut empty_rm())?, &mut seen, cum)?;
            for (a, (sum, cnt)) in &tot {
                let g = seen.get(a).copied().unwrap_or_default();
                let ok = if hist { g.2 == *cnt && g.3 == *sum as i128 } else { g.0 == *sum as i128 && g.1 == *sum as f64 / 4.0 };
                if !ok { return Err(format!("{a}: {cnt} measurements with sum {sum}, reported in all {g:?}")); }
            }
            Ok(())
        });
    }
}

pub fn c16(c: &mut Ctx) {
    c.rule = "distinct programs of measurements and collections over counters and up-down counters; and racing threads".into();
    programs(c, 500, &[K::CU, K::CF, K::UI, K::UF], false, false);
    racing(c, 12, false);
}

pub fn c17(c: &mut Ctx) {
    c.rule = "distinct programs with attribute sets in several orders, repeated pairs and small cardinality limits; and conflicting repeated keys".into();
    programs(c, 400, &[K::CU, K::UF, K::GI, K::HU, K::HF, K::CF], true, false);
    // a key given twice with different values: one of them, never both
    for _ in 0..c.n(300) {
        let n = 2 + c.rng.usize(4);
        let keys = ["a", "b"];
        let a: Vec<KeyValue> = (0..n).map(|i| KeyValue::new(*c.rng.pick(&keys), i as i64)).collect();
        let delta = c.rng.bool();
        let k = *c.rng.pick(&[K::CU, K::GI, K::HF, K::UF]);
        c.case(format!("{k:?} delta {delta} attributes {a:?}"), true, || {
            let rd = Rd::new(if delta { Temporality::Delta } else { Temporality::Cumulative });
            let prov = SdkMeterProvider::builder().with_reader(rd.clone()).build();
            let m = prov.meter("m");
            let i = make(&m, k, "i", None, None, &Arc::new(Mutex::new(vec![])));
            record(&i, 4, &a); record(&i, 8, &a);
            let st = collect(&rd, &mut empty_rm())?;
            if st.len() != 1 || st[0].pts.len() != 1 { return Err(format!("{st:?}")); }
            let key = st[0].pts.keys().next().unwrap().clone();
            let want: BTreeSet<&str> = a.iter().map(|k| k.key.as_str()).collect();
            let ok = a.iter().filter(|x| x.key.as_str() == "a").any(|x| a.iter().filter(|y| y.key.as_str() == "b").any(|y| key == canon(&[x.clone(), y.clone()])) || (want.len() == 1 && key == canon(&[x.clone()])))
                || (want.len() == 1 && a.iter().any(|x| key == canon(&[x.clone()])));
            if !ok { return Err(format!("reported attributes {key}")); }
            Ok(())
        });
    }
    // the default limit
    for k in [K::CU, K::HF, K::GI, K::OCU, K::OGI] {
        for delta in [true, false] {
            c.case(format!("{k:?} delta {delta}: 2100 attribute sets"), true, || {
                let rd = Rd::new(if delta { Temporality::Delta } else { Temporality::Cumulative });
                let prov = SdkMeterProvider::builder().with_reader(rd.clone()).build();
                let m = prov.meter("m");
                let t: Table = Arc::new(Mutex::new(vec![]));
                let i = make(&m, k, "i", None, None, &t);
                for round in 0..2 {
                    if is_obs(k) { *t.lock().unwrap() = (0..2100i64).map(|x| (vec![KeyValue::new("k", x)], x + 1)).collect(); }
                    else if round == 0 || delta { for x in 0..2100i64 { record(&i, x + 1, &[KeyValue::new("k", x)]); } }
                    let st = collect(&rd, &mut empty_rm())?;
                    if st.len() != 1 || st[0].pts.len() != 2001 { return Err(format!("{} data points", st.first().map(|s| s.pts.len()).unwrap_or(0))); }
                    let o = st[0].pts.get(&canon(&[KeyValue::new(OVER, true)])).ok_or("no overflow point")?;
                    for x in 0..2000i64 { if !st[0].pts.contains_key(&canon(&[KeyValue::new("k", x)])) { return Err(format!("attribute set {x} is missing")); } }
                    if !is_hist(k) && round == 0 {
                        let want = if is_gauge(k) || is_obs(k) { 2100 } else { (2001..=2100).sum::<i128>() };
                        if *o != P::V(N::I(want)) { return Err(format!("overflow {o:?}, expected {want}")); }
                    }
                }
                Ok(())
            });
        }
    }
}

pub fn c28(c: &mut Ctx) {
    c.rule = "distinct programs of gauges and observable instruments, with readers of every temporality".into();
    // an attribute set that is observed once and then no longer
    let gone = |k: K, readers: usize, other_first: bool| -> Result<(), String> {
        let rds: Vec<Rd> = (0..readers).map(|_| Rd::new(Temporality::Cumulative)).collect();
        let mut b = SdkMeterProvider::builder();
        for r in &rds { b = b.with_reader(r.clone()); }
        let prov = b.build();
        let t: Table = Arc::new(Mutex::new(vec![(vec![KeyValue::new("gone", 1)], 4), (vec![KeyValue::new("kept", 1)], 4)]));
        let _i = make(&prov.meter("m"), k, "i", None, None, &t);
        if other_first { collect(&rds[1], &mut empty_rm())?; } else { collect(&rds[0], &mut empty_rm())?; }
        t.lock().unwrap().remove(0);
        let st = collect(&rds[0], &mut empty_rm())?;
        if st[0].pts.len() == 1 { Ok(()) } else { Err(format!("reported {:?}", st[0].pts)) }
    };
    c.case("observable gauge: a set no longer observed is not reported".into(), true, || gone(K::OGU, 1, false));
    c.case("cumulative observable counter: a set no longer observed is not reported".into(), true, || gone(K::OCU, 1, false));
    c.case("two readers: what is observed for the collection of one is not reported by the other".into(), true, || gone(K::OGU, 2, true));
    programs(c, 600, &[K::GU, K::GI, K::GF, K::OCU, K::OCF, K::OUI, K::OUF, K::OGU, K::OGI, K::OGF], false, false);
}

pub fn c18(c: &mut Ctx) {
    c.rule = "distinct programs of histograms with random boundaries; arbitrary floats against boundaries; racing threads".into();
    programs(c, 300, &[K::HU, K::HF], false, true);
    for _ in 0..c.n(500) {
        let mut raw: Vec<f64> = (0..c.rng.usize(7)).map(|_| c.rng.f64_any()).collect();
        if c.rng.bool() { let r = raw.clone(); raw.extend(r.iter().take(1)); }
        let mut bs: Vec<f64> = raw.iter().copied().filter(|b| !b.is_nan()).collect();
        bs.sort_by(|a, b| a.partial_cmp(b).unwrap());
        // what a caller has to give: strictly increasing
        bs.dedup();
        let given = if c.rng.bool() { bs.clone() } else { let mut g = bs.clone(); c.rng.shuffle(&mut g); g };
        let vs: Vec<f64> = (0..c.rng.usize(12)).map(|_| if !bs.is_empty() && c.rng.bool() { *c.rng.pick(&bs) } else { c.rng.f64_any() }).filter(|v| !v.is_nan()).collect();
        let view = c.rng.bool() && given == bs;
        let mm = !view || c.rng.bool();
        c.case(format!("boundaries {given:?}{} values {vs:?}", if view { format!(" through a view, min/max {mm}") } else { String::new() }), !vs.is_empty(), || {
            let rd = Rd::new(Temporality::Delta);
            let mut b = SdkMeterProvider::builder().with_reader(rd.clone());
            if view { b = b.with_view(new_view(Instrument::new().name("h"), Stream::new().aggregation(Aggregation::ExplicitBucketHistogram { boundaries: given.clone(), record_min_max: mm })).map_err(|e| e.to_string())?); }
            let prov = b.build();
            let m = prov.meter("m");
            let h = if view { m.f64_histogram("h").build() } else { m.f64_histogram("h").with_boundaries(given.clone()).build() };
            let mut counts = vec![0u64; bs.len() + 1];
            let mut sum = 0.0;
            for v in &vs { h.record(*v, &[]); counts[bs.iter().filter(|b| **b < *v).count()] += 1; sum += v; }
            let st = collect(&rd, &mut empty_rm())?;
            if vs.is_empty() { return if st.is_empty() { Ok(()) } else { Err("something is reported".into()) }; }
            let fold = |f: fn(f64, f64) -> f64| vs.iter().copied().reduce(f).map(N::F);
            // the instrument builder refuses boundaries that are not finite and increasing: nothing is recorded then
            if !view && (given != bs || bs.iter().any(|b| b.is_infinite())) { return if st.is_empty() { Ok(()) } else { Err("boundaries in the wrong order were accepted".into()) }; }
            let want = P::H { count: vs.len() as u64, bounds: bs.clone(), counts, min: if mm { fold(f64::min) } else { None }, max: if mm { fold(f64::max) } else { None }, sum: N::F(sum) };
            match st.first().and_then(|s| s.pts.values().next()) { Some(p) if *p == want => Ok(()), p => Err(format!("reported {p:?}, expected {want:?}")) }
        });
    }
    racing(c, 8, true);
}

// ---- exponential histograms ----
/// index of the bucket of scale 20, None if too close to a boundary to say
fn idx20(v: f64) -> Option<i64> {
    let b = v.to_bits();
    let e = ((b >> 52) & 0x7ff) as i64;
    let f = b & ((1u64 << 52) - 1);
    let (m, k) = if e == 0 { let z = f.leading_zeros() as i64 - 11; (f << z, -1022 - z) } else { (f | 1 << 52, e - 1023) };
    if m == 1 << 52 { return Some((k << 20) - 1); }
    let x = (m as f64 / (1u64 << 52) as f64).log2() * (1u64 << 20) as f64;
    if (x - x.round()).abs() < 1e-4 { return None; }
    Some((k << 20) + x.floor() as i64)
}
fn fits(r: Option<(i64, i64)>, s: i64, max: i64) -> bool { match r { None => true, Some((a, b)) => (b >> (20 - s)) - (a >> (20 - s)) < max } }
pub fn c19(c: &mut Ctx) {
    c.rule = "distinct lists of measurements with scales and sizes, against buckets computed from the bits of the values".into();
    for _ in 0..c.n(1500) {
        let size = *c.rng.pick(&[1u32, 2, 3, 4, 5, 10, 20, 160]);
        let scale = if c.rng.bool() { 20 } else { c.rng.below(31) as i8 - 10 };
        let n = c.rng.usize(30);
        let spread = c.rng.below(5);
        let vs: Vec<f64> = (0..n).map(|_| {
            let v = match spread { 0 => 1.0 + c.rng.below(1000) as f64 / 1e6, 1 => (c.rng.below(4000) as f64) / 16.0, 2 => 2f64.powi(c.rng.below(40) as i32 - 20), 3 => c.rng.f64_any(),
                _ => *c.rng.pick(&[0.0, -0.0, 5e-324, f64::MAX, f64::MIN_POSITIVE, 1.0, 2.0, 3.0, 0.1, 1e-310, f64::INFINITY, f64::NAN, f64::NEG_INFINITY]) };
            if c.rng.chance(1, 3) { -v } else { v }
        }).filter(|v| !v.is_finite() || *v == 0.0 || idx20(v.abs()).is_some()).collect();
        let delta = c.rng.bool();
        let mm = c.rng.bool();
        let ints = c.rng.chance(1, 6);
        c.case(format!("max_size {size} max_scale {scale} delta {delta} min/max {mm} u64 {ints} {vs:?}"), !vs.is_empty(), || {
            let rd = Rd::new(if delta { Temporality::Delta } else { Temporality::Cumulative });
            let prov = SdkMeterProvider::builder().with_reader(rd.clone()).with_view(new_view(Instrument::new().name("*"), Stream::new().aggregation(Aggregation::Base2ExponentialHistogram { max_size: size, max_scale: scale, record_min_max: mm })).map_err(|e| e.to_string())?).build();
            let m = prov.meter("m");
            let (h, hu) = (m.f64_histogram("h").build(), m.u64_histogram("h").build());
            let mut rm = empty_rm();
            for _round in 0..2 {
                // what has to come out
                let (mut s, mut rng, mut kept, mut zero) = (scale as i64, [None::<(i64, i64)>; 2], vec![], 0u64);
                let rounds = if delta { 1 } else { _round + 1 };
                for _ in 0..rounds { for v in &vs {
                    let v = if ints { if v.is_finite() { (v.abs() as u64).min(1 << 50) as f64 } else { continue } } else { *v };
                    if !v.is_finite() { continue; }
                    if v == 0.0 { zero += 1; kept.push(v); continue; }
                    let i = match idx20(v.abs()) { Some(i) => i, None => return Ok(()) };
                    let side = (v < 0.0) as usize;
                    let new = rng[side].map(|(a, b)| (a.min(i), b.max(i))).or(Some((i, i)));
                    let mut t = s;
                    while t >= -10 && !fits(new, t, size as i64) { t -= 1; }
                    if t < -10 { continue; }        // cannot be held even by the coarsest buckets
                    s = t; rng[side] = new; kept.push(v);
                } }
                for v in &vs { if ints { if v.is_finite() { hu.record((v.abs() as u64).min(1 << 50), &[KeyValue::new("a", 1)]) } } else { h.record(*v, &[KeyValue::new("a", 1)]) } }
                let st = collect(&rd, &mut rm)?;
                if kept.is_empty() && vs.iter().all(|v| !v.is_finite()) { if st.is_empty() { continue; } return Err(format!("only NaN and infinities, reported {st:?}")); }
                let (count, min, max, sum, rscale, z, pos, neg) = match st.first().and_then(|s| s.pts.values().next()) { Some(P::E { count, min, max, sum, scale, zero, pos, neg }) => (*count, *min, *max, *sum, *scale, *zero, pos, neg), x => return Err(format!("reported {x:?}")) };
                if rscale as i64 != s { return Err(format!("scale {rscale}, expected {s}")); }
                if count != kept.len() || z != zero { return Err(format!("count {count} zero {z}, expected {} and {zero}", kept.len())); }
                let f = |n: N| match n { N::I(i) => i as f64, N::F(f) => f };
                let fold = |g: fn(f64, f64) -> f64| kept.iter().copied().reduce(g);
                if mm != min.is_some() || mm != max.is_some() { return Err("min/max present against the configuration".into()); }
                if mm && !kept.is_empty() && (min.map(f) != fold(f64::min) || max.map(f) != fold(f64::max)) { return Err(format!("min {min:?} max {max:?} of {kept:?}")); }
                let es = kept.iter().fold(0.0, |a, b| a + b);
                if !ints && !(f(sum) == es || (es.is_nan() && f(sum).is_nan())) { return Err(format!("sum {sum:?}, expected {es}")); }
                for (side, b) in [(0usize, pos), (1, neg)] {
                    let mut want: BTreeMap<i64, u64> = BTreeMap::new();
                    for v in kept.iter().filter(|v| **v != 0.0 && (**v < 0.0) as usize == side) { *want.entry(idx20(v.abs()).unwrap() >> (20 - s)).or_default() += 1; }
                    let got: BTreeMap<i64, u64> = b.1.iter().enumerate().filter(|(_, n)| **n > 0).map(|(i, n)| (b.0 as i64 + i as i64, *n)).collect();
                    if got != want { return Err(format!("scale {s} side {side}: buckets {got:?}, expected {want:?}")); }
                    if b.1.len() > size as usize { return Err(format!("{} buckets, at most {size} allowed", b.1.len())); }
                }
            }
            Ok(())
        });
    }
}

// ---- views ----
#[derive(Clone, Debug)]
struct V { name: &'static str, kind: Option<InstrumentKind>, unit: &'static str, desc: &'static str, scope: &'static str, to: &'static str, to_desc: &'static str, to_unit: &'static str, agg: Option<&'static str>, keys: Option<Vec<&'static str>>, limit: Option<usize> }
fn agg_of(a: &str) -> Aggregation {
    match a {
        "drop" => Aggregation::Drop, "default" => Aggregation::Default, "sum" => Aggregation::Sum, "last" => Aggregation::LastValue,
        "hist" => Aggregation::ExplicitBucketHistogram { boundaries: vec![1.0, 2.0], record_min_max: false },
        "expo" => Aggregation::Base2ExponentialHistogram { max_size: 20, max_scale: 5, record_min_max: true },
        "bad hist" => Aggregation::ExplicitBucketHistogram { boundaries: vec![2.0, 2.0], record_min_max: false },
        "bad expo" => Aggregation::Base2ExponentialHistogram { max_size: 20, max_scale: 21, record_min_max: true },
        _ => Aggregation::Base2ExponentialHistogram { max_size: 20, max_scale: -11, record_min_max: true },
    }
}
fn glob(p: &[u8], t: &[u8]) -> bool {
    match p.first() { None => t.is_empty(), Some(b'*') => (0..=t.len()).any(|i| glob(&p[1..], &t[i..])), Some(b'?') => !t.is_empty() && glob(&p[1..], &t[1..]), Some(x) => t.first() == Some(x) && glob(&p[1..], &t[1..]) }
}
pub fn c21(c: &mut Ctx) {
    c.rule = "distinct combinations of views and instruments, and the settings each stream ends up with".into();
    let names = ["req", "req.time", "Req", "other"];
    for _ in 0..c.n(1500) {
        let r = &mut c.rng;
        let views: Vec<V> = (0..r.usize(4)).map(|_| {
            let name = *r.pick(&["", "req", "req.time", "req*", "*", "?eq", "other", "Req"]);
            let wild = name.contains('*') || name.contains('?');
            V { name, kind: if r.chance(1, 3) { Some(*r.pick(&[InstrumentKind::Counter, InstrumentKind::Histogram, InstrumentKind::UpDownCounter, InstrumentKind::Gauge])) } else { None },
                unit: *r.pick(&["", "", "", "ms"]), desc: *r.pick(&["", "", "", "text"]), scope: *r.pick(&["", "", "lib", "elsewhere"]),
                to: if wild && r.chance(4, 5) { "" } else { *r.pick(&["", "renamed", "REQ", "req"]) }, to_desc: *r.pick(&["", "newdesc"]), to_unit: *r.pick(&["", "s"]),
                agg: if r.bool() { Some(*r.pick(&["drop", "default", "sum", "last", "hist", "expo", "bad hist", "bad expo", "low expo"])) } else { None },
                keys: if r.chance(1, 3) { Some((0..r.usize(3)).map(|i| ["k", "z"][i]).collect()) } else { None }, limit: if r.chance(1, 4) { Some(1 + r.usize(2)) } else { None } }
        }).collect();
        let name = *r.pick(&names);
        let k = *r.pick(&[K::CU, K::UI, K::GI, K::HF]);
        let unit = *r.pick(&["", "ms"]);
        let desc = *r.pick(&["", "text"]);
        let bounds = if k == K::HF && r.bool() { Some(vec![3.0]) } else { None };
        let ilimit = if r.chance(1, 3) { Some(2usize) } else { None };
        c.case(format!("{k:?} {name:?} unit {unit:?} description {desc:?} boundaries {bounds:?} limit {ilimit:?} views {views:?}"), !views.is_empty(), || {
            let rd = Rd::new(Temporality::Delta);
            let mut b = SdkMeterProvider::builder().with_reader(rd.clone());
            for v in &views {
                let mut i = Instrument::new().name(v.name).unit(v.unit).description(v.desc);
                i.kind = v.kind;
                if !v.scope.is_empty() { i = i.scope(InstrumentationScope::builder(v.scope).build()); }
                let mut s = Stream::new().name(v.to).description(v.to_desc).unit(v.to_unit);
                if let Some(a) = v.agg { s = s.aggregation(agg_of(a)); }
                if let Some(k) = &v.keys { s = s.allowed_attribute_keys(k.iter().map(|k| Key::from(*k))); }
                if let Some(l) = v.limit { s = s.cardinality_limit(l); }
                b = b.with_view(new_view(i, s).map_err(|e| e.to_string())?);
            }
            let prov = b.build();
            let m = prov.meter("lib");
            macro_rules! go { ($b:expr) => {{ let b = $b.with_description(desc).with_unit(unit); match ilimit { Some(l) => b.with_cardinality_limit(l), None => b } }} }
            let ik = match k { K::CU => InstrumentKind::Counter, K::UI => InstrumentKind::UpDownCounter, K::GI => InstrumentKind::Gauge, _ => InstrumentKind::Histogram };
            let inst = match k {
                K::CU => I::CU(go!(m.u64_counter(name)).build()), K::UI => I::UI(go!(m.i64_up_down_counter(name)).build()), K::GI => I::GI(go!(m.i64_gauge(name)).build()),
                _ => { let b = go!(m.f64_histogram(name)); I::HF(match &bounds { Some(x) => b.with_boundaries(x.clone()), None => b }.build()) }
            };
            let sets: Vec<Vec<KeyValue>> = (0..4i64).map(|x| vec![KeyValue::new("k", x), KeyValue::new("z", x % 2)]).collect();
            for s in &sets { record(&inst, 4, s); }
            // expected streams
            struct X { name: String, desc: String, unit: String, agg: String, keys: Option<Vec<&'static str>>, limit: usize, own_bounds: bool }
            let mut want: Vec<X> = vec![];
            let (mut matched, mut broken) = (false, false);
            for v in &views {
                let wild = v.name.contains('*') || v.name.contains('?');
                let empty = v.name.is_empty() && v.kind.is_none() && v.unit.is_empty() && v.desc.is_empty() && v.scope.is_empty();
                if empty || (wild && !v.to.is_empty()) || v.agg.map(|a| a.contains(' ')).unwrap_or(false) { continue; }        // no view at all
                let ok = (v.name.is_empty() || glob(v.name.as_bytes(), name.as_bytes())) && v.kind.map(|x| x == ik).unwrap_or(true) && (v.unit.is_empty() || v.unit == unit) && (v.desc.is_empty() || v.desc == desc) && (v.scope.is_empty() || v.scope == "lib");
                if !ok { continue; }
                matched = true;
                let mut agg = v.agg.unwrap_or("own").to_string();
                let own_bounds = v.agg.is_none() && bounds.is_some();
                if agg == "own" || agg == "default" { agg = match k { K::GI => "last", K::HF => "default hist", _ => "sum" }.into(); }
                let refused = (agg == "sum" && k == K::GI) || (agg == "last" && k != K::GI);
                let or = |a: &str, b: &str| if a.is_empty() { b.to_string() } else { a.to_string() };
                let x = X { name: or(v.to, name), desc: or(v.to_desc, desc), unit: or(v.to_unit, unit), agg, keys: v.keys.clone(), limit: v.limit.or(ilimit).unwrap_or(2000), own_bounds };
                // streams of one identity are one stream, the first
                if want.iter().any(|w| w.name.to_ascii_lowercase() == x.name.to_ascii_lowercase() && w.desc == x.desc && w.unit == x.unit) { continue; }
                if refused { broken = true; continue; }
                want.push(x);
            }
            if !matched { want.push(X { name: name.into(), desc: desc.into(), unit: unit.into(), agg: match k { K::GI => "last", K::HF => "default hist", _ => "sum" }.into(), keys: None, limit: ilimit.unwrap_or(2000), own_bounds: bounds.is_some() }); }
            let got = collect(&rd, &mut empty_rm())?;
            // an instrument with an incompatible view records nothing (an error is reported when it is made)
            if broken { for s in &got { return Err(format!("an instrument whose view is refused reports {s:?}")); } return Ok(()); }
            want.retain(|x| x.agg != "drop");
            if got.len() != want.len() { return Err(format!("{} streams: {got:?}; expected {:?}", got.len(), want.iter().map(|x| &x.name).collect::<Vec<_>>())); }
            for x in &want {
                let s = got.iter().find(|s| s.name == x.name && s.desc == x.desc && s.unit == x.unit).ok_or(format!("no stream {:?} {:?} {:?} in {got:?}", x.name, x.desc, x.unit))?;
                let kind = match x.agg.as_str() { "sum" => "sum", "last" => "gauge", "expo" => "expo", _ => "hist" };
                if s.kind != kind { return Err(format!("{}: aggregated as {}, expected {}", x.name, s.kind, x.agg)); }
                if s.kind == "sum" && s.mono != (k == K::CU || k == K::HF) { return Err(format!("monotonic: {}", s.mono)); }
                let wt = if k == K::UI { Temporality::Cumulative } else { Temporality::Delta };
                if s.kind != "gauge" && s.temp != Some(wt) { return Err(format!("{k:?}: {:?}", s.temp)); }
                // attributes and limit
                let mut exp: BTreeMap<String, u64> = BTreeMap::new();
                let mut n = 0;
                for a in &sets {
                    let a: Vec<KeyValue> = a.iter().filter(|kv| x.keys.as_ref().map(|k| k.contains(&kv.key.as_str())).unwrap_or(true)).cloned().collect();
                    let key = canon(&a);
                    if a.is_empty() || exp.contains_key(&key) { *exp.entry(key).or_default() += 1; } else if n < x.limit { n += 1; exp.insert(key, 1); } else { *exp.entry(canon(&[KeyValue::new(OVER, true)])).or_default() += 1; }
                }
                if s.pts.keys().collect::<Vec<_>>() != exp.keys().collect::<Vec<_>>() { return Err(format!("{}: data points {:?}, expected {:?}", x.name, s.pts.keys(), exp.keys())); }
                for (a, p) in &s.pts {
                    let n = exp[a];
                    let ok = match p {
                        P::V(v) => *v == if s.kind == "gauge" { n_of(k, 4) } else { n_of(k, 4 * n as i64) },
                        P::H { count, bounds, min, .. } => *count == n && (if x.agg == "hist" { bounds == &vec![1.0, 2.0] && min.is_none() } else if x.own_bounds { bounds == &vec![3.0] && min.is_some() } else { bounds == &DEFAULT_BOUNDS.to_vec() && min.is_some() }),
                        P::E { count, scale, min, .. } => *count as u64 == n && *scale <= 5 && min.is_some(),
                    };
                    if !ok { return Err(format!("{} {a}: {p:?} for {n} measurements", x.name)); }
                }
            }
            Ok(())
        });
    }
    // two instruments whose names differ in case only are one stream, named as the first; also under a view
    for _ in 0..c.n(200) {
        let r = &mut c.rng;
        let (a, b) = *r.pick(&[("req", "REQ"), ("Req.Time", "req.time"), ("q", "q"), ("x", "y")]);
        let view = r.chance(4, 5);
        let (keys, agg, limit) = (r.bool(), r.bool(), r.bool());
        let to = r.bool();
        c.case(format!("counters {a:?} and {b:?}, view {view} keys {keys} aggregation {agg} limit {limit} description {to}"), true, || {
            let rd = Rd::new(Temporality::Delta);
            let mut pb = SdkMeterProvider::builder().with_reader(rd.clone());
            if view {
                let mut s = Stream::new();
                if keys { s = s.allowed_attribute_keys([Key::from("k")]); }
                if agg { s = s.aggregation(Aggregation::Sum); }
                if limit { s = s.cardinality_limit(50); }
                if to { s = s.description("mine"); }
                pb = pb.with_view(new_view(Instrument::new().name("*"), s).map_err(|e| e.to_string())?);
            }
            let prov = pb.build();
            let m = prov.meter("lib");
            let (x, y) = (m.u64_counter(a).with_description("d").build(), m.u64_counter(b).with_description("d").build());
            x.add(1, &[KeyValue::new("k", 1), KeyValue::new("z", 1)]);
            y.add(10, &[KeyValue::new("k", 1), KeyValue::new("z", 1)]);
            let got = collect(&rd, &mut empty_rm())?;
            let one = a.eq_ignore_ascii_case(b);
            let want: Vec<(&str, i128)> = if one { vec![(a, 11)] } else { vec![(a, 1), (b, 10)] };
            let seen: Vec<(String, P)> = got.iter().flat_map(|s| s.pts.values().map(|p| (s.name.clone(), p.clone()))).collect();
            if seen != want.iter().map(|(n, v)| (n.to_string(), P::V(N::I(*v)))).collect::<Vec<_>>() { return Err(format!("reported {seen:?}, expected {want:?}")); }
            Ok(())
        });
    }
}

// ---- which instruments are accepted ----
pub fn c20(c: &mut Ctx) {
    c.rule = "distinct names, units and boundaries for an instrument of every kind: it reports exactly when they are valid".into();
    const KS: [K; 16] = [K::CU, K::CF, K::UI, K::UF, K::GU, K::GI, K::GF, K::HU, K::HF, K::OCU, K::OCF, K::OUI, K::OUF, K::OGU, K::OGI, K::OGF];
    for _ in 0..c.n(1500) {
        let r = &mut c.rng;
        let ok_chars: Vec<char> = "abzABZ019_.-/".chars().collect();
        let odd: Vec<char> = " é\u{7f}\0~@*?:[`{,;\\\"'%&+=<>|№K1\u{80}".chars().collect();
        let len = *r.pick(&[0usize, 1, 2, 3, 8, 62, 63, 64, 65, 254, 255, 256, 257, 300]);
        let mut name: String = (0..len).map(|_| *r.pick(&ok_chars)).collect();
        if r.chance(2, 3) && !name.is_empty() { name.replace_range(0..1, r.pick(&["a", "Z", "q"])); }
        if r.chance(1, 3) && !name.is_empty() { let mut v: Vec<char> = name.chars().collect(); let i = r.usize(v.len()); v[i] = *r.pick(&odd); name = v.into_iter().collect(); }
        let ulen = *r.pick(&[0usize, 1, 2, 10, 62, 63, 64, 80]);
        let mut unit: String = (0..ulen).map(|_| *r.pick(&['m', 's', '{', '}', '/', ' ', '%', '\u{7f}', '\0', '~'])).collect();
        if r.chance(1, 4) && !unit.is_empty() { let mut v: Vec<char> = unit.chars().collect(); let i = r.usize(v.len()); v[i] = *r.pick(&['é', '\u{80}', '№', 'µ']); unit = v.into_iter().collect(); }
        let unit = if r.chance(1, 4) { None } else { Some(unit) };
        let k = *r.pick(&KS);
        let bounds: Option<Vec<f64>> = if is_hist(k) && r.bool() { Some((0..r.usize(4)).map(|_| *r.pick(&[1.0, 2.0, 2.5, -1.0, f64::NAN, f64::INFINITY, 100.0])).collect()) } else { None };
        let two = r.bool();
        let second = r.bool();
        let name_ok = !name.is_empty() && name.len() <= 255 && name.chars().next().map(|c| c.is_ascii_alphabetic()).unwrap_or(false) && name.bytes().all(|b| b.is_ascii_alphanumeric() || b"_.-/".contains(&b));
        let unit_ok = unit.as_ref().map(|u| u.len() <= 63 && u.is_ascii()).unwrap_or(true);
        let b_ok = bounds.as_ref().map(|b| b.iter().all(|x| x.is_finite()) && b.windows(2).all(|w| w[0] < w[1])).unwrap_or(true);
        let ok = name_ok && unit_ok && b_ok;
        c.case(format!("{k:?} name {name:?} unit {unit:?} boundaries {bounds:?}{}", if second { ", a second reader collects first" } else { "" }), true, || {
            let rd = Rd::new(Temporality::Cumulative);
            let rd2 = Rd::new(Temporality::Cumulative);
            let prov = SdkMeterProvider::builder().with_reader(rd.clone()).with_reader(rd2.clone()).build();
            let m = prov.meter("m");
            let calls = Arc::new(std::sync::atomic::AtomicUsize::new(0));
            macro_rules! set { ($b:expr) => {{ let mut b = $b.with_description("dd"); if let Some(u) = &unit { b = b.with_unit(u.clone()); } b }} }
            macro_rules! hst { ($b:expr, $v:expr) => {{ let mut b = set!($b); if let Some(x) = &bounds { b = b.with_boundaries(x.clone()); } b.build().record($v, &[]) }} }
            macro_rules! obs { ($b:expr, $v:expr) => {{ let mut b = set!($b); for _ in 0..(1 + two as usize) { let n = calls.clone(); b = b.with_callback(move |o| { n.fetch_add(1, std::sync::atomic::Ordering::SeqCst); o.observe($v, &[]) }); } b.build(); }} }
            let n = name.clone();
            match k {
                K::CU => set!(m.u64_counter(n)).build().add(1, &[]), K::CF => set!(m.f64_counter(n)).build().add(1.0, &[]),
                K::UI => set!(m.i64_up_down_counter(n)).build().add(1, &[]), K::UF => set!(m.f64_up_down_counter(n)).build().add(1.0, &[]),
                K::GU => set!(m.u64_gauge(n)).build().record(1, &[]), K::GI => set!(m.i64_gauge(n)).build().record(1, &[]), K::GF => set!(m.f64_gauge(n)).build().record(1.0, &[]),
                K::HU => hst!(m.u64_histogram(n), 1), K::HF => hst!(m.f64_histogram(n), 1.0),
                K::OCU => obs!(m.u64_observable_counter(n), 1), K::OCF => obs!(m.f64_observable_counter(n), 1.0),
                K::OUI => obs!(m.i64_observable_up_down_counter(n), 1), K::OUF => obs!(m.f64_observable_up_down_counter(n), 1.0),
                K::OGU => obs!(m.u64_observable_gauge(n), 1), K::OGI => obs!(m.i64_observable_gauge(n), 1), K::OGF => obs!(m.f64_observable_gauge(n), 1.0),
            }
            // every reader runs every callback, once per collection, and sees the same
            let st2 = if second { let st2 = collect(&rd2, &mut empty_rm())?; let n = calls.swap(0, std::sync::atomic::Ordering::SeqCst); if n != if ok && is_obs(k) { 1 + two as usize } else { 0 } { return Err(format!("callbacks ran {n} times in a collection of the second reader")); } Some(st2) } else { None };
            let st = collect(&rd, &mut empty_rm())?;
            let n = calls.load(std::sync::atomic::Ordering::SeqCst);
            if let Some(st2) = st2 { if st2.len() != st.len() { return Err(format!("one reader sees {st:?}, the other {st2:?}")); } }
            if n != if ok && is_obs(k) { 1 + two as usize } else { 0 } { return Err(format!("callbacks ran {n} times in one collection")); }
            if !ok { return if st.is_empty() { Ok(()) } else { Err(format!("an invalid instrument reports {st:?}")) }; }
            if st.len() != 1 { return Err(format!("{} streams of a valid instrument", st.len())); }
            let s = &st[0];
            if s.name != name || s.unit != unit.clone().unwrap_or_default() || s.desc != "dd" || s.num != num(k) || s.pts.len() != 1 { return Err(format!("wrong identity: {s:?}")); }
            Ok(())
        });
    }
}

//! C35: an instrument asked of a meter is made by that meter's provider with exactly the settings given, and every measurement reaches it once.
use crate::common::{Ctx, Rng};
use opentelemetry::metrics::{
    AsyncInstrument, AsyncInstrumentBuilder, Callback, Counter, Gauge, Histogram, HistogramBuilder, InstrumentBuilder, InstrumentProvider, Meter, MeterProvider, ObservableCounter,
    ObservableGauge, ObservableUpDownCounter, SyncInstrument, UpDownCounter,
};
use opentelemetry::{global, InstrumentationScope, KeyValue};
use std::fmt::Debug;
use std::sync::{Arc, Mutex};
use std::time::Duration;

type Log = Arc<Mutex<Vec<String>>>;
fn kvs(a: &[KeyValue]) -> String { a.iter().map(|k| format!("{}={:?}", k.key, k.value)).collect::<Vec<_>>().join(",") }

struct Seen<T> { log: Log, _t: std::marker::PhantomData<fn(T)> }
impl<T: Debug> SyncInstrument<T> for Seen<T> { fn measure(&self, v: T, a: &[KeyValue]) { self.log.lock().unwrap().push(format!("measure {v:?} [{}]", kvs(a))) } }
impl<T: Debug> AsyncInstrument<T> for Seen<T> { fn observe(&self, v: T, a: &[KeyValue]) { self.log.lock().unwrap().push(format!("observe {v:?} [{}]", kvs(a))) } }

struct Ip { id: u64, scope: String, log: Log }
fn opt<T: Debug>(o: &Option<T>) -> String { match o { Some(v) => format!("{v:?}"), None => "none".into() } }
fn shown(id: u64, scope: &str, kind: &str, name: &str, s: &Set) -> String {
    format!("meter {id} of {scope}: {kind} {name:?} description={} unit={} limit={} boundaries={} callbacks={}", opt(&s.description), opt(&s.unit), opt(&s.limit), opt(&s.boundaries), s.callbacks)
}
#[derive(Default, Clone, Debug)]
struct Set { description: Option<String>, unit: Option<String>, limit: Option<usize>, boundaries: Option<Vec<f64>>, callbacks: usize }
macro_rules! sync_method { ($f:ident, $inst:ident, $b:ident, $t:ty, $bounds:expr) => {
    fn $f(&self, b: $b<'_, $inst<$t>>) -> $inst<$t> {
        #[allow(clippy::redundant_closure_call)]
        let s = Set { description: b.description.as_ref().map(|d| d.to_string()), unit: b.unit.as_ref().map(|d| d.to_string()), limit: b.cardinality_limit, boundaries: ($bounds)(&b), callbacks: 0 };
        self.log.lock().unwrap().push(shown(self.id, &self.scope, stringify!($f), &b.name, &s));
        $inst::new(Arc::new(Seen::<$t> { log: self.log.clone(), _t: Default::default() }))
    }
} }
macro_rules! async_method { ($f:ident, $inst:ident, $t:ty) => {
    fn $f(&self, b: AsyncInstrumentBuilder<'_, $inst<$t>, $t>) -> $inst<$t> {
        let s = Set { description: b.description.as_ref().map(|d| d.to_string()), unit: b.unit.as_ref().map(|d| d.to_string()), limit: b.cardinality_limit, boundaries: None, callbacks: b.callbacks.len() };
        self.log.lock().unwrap().push(shown(self.id, &self.scope, stringify!($f), &b.name, &s));
        let o = Seen::<$t> { log: self.log.clone(), _t: Default::default() };
        let cbs: Vec<Callback<$t>> = b.callbacks;
        for c in cbs { c(&o) }
        $inst::new()
    }
} }
fn none<T>(_: &T) -> Option<Vec<f64>> { None }
impl InstrumentProvider for Ip {
    sync_method!(u64_counter, Counter, InstrumentBuilder, u64, none);
    sync_method!(f64_counter, Counter, InstrumentBuilder, f64, none);
    sync_method!(i64_up_down_counter, UpDownCounter, InstrumentBuilder, i64, none);
    sync_method!(f64_up_down_counter, UpDownCounter, InstrumentBuilder, f64, none);
    sync_method!(u64_gauge, Gauge, InstrumentBuilder, u64, none);
    sync_method!(i64_gauge, Gauge, InstrumentBuilder, i64, none);
    sync_method!(f64_gauge, Gauge, InstrumentBuilder, f64, none);
    sync_method!(f64_histogram, Histogram, HistogramBuilder, f64, |b: &HistogramBuilder<'_, Histogram<f64>>| b.boundaries.clone());
    sync_method!(u64_histogram, Histogram, HistogramBuilder, u64, |b: &HistogramBuilder<'_, Histogram<u64>>| b.boundaries.clone());
    async_method!(u64_observable_counter, ObservableCounter, u64);
    async_method!(f64_observable_counter, ObservableCounter, f64);
    async_method!(i64_observable_up_down_counter, ObservableUpDownCounter, i64);
    async_method!(f64_observable_up_down_counter, ObservableUpDownCounter, f64);
    async_method!(u64_observable_gauge, ObservableGauge, u64);
    async_method!(i64_observable_gauge, ObservableGauge, i64);
    async_method!(f64_observable_gauge, ObservableGauge, f64);
}
#[derive(Clone)]
struct Mp { id: u64, log: Log }
fn show_scope(s: &InstrumentationScope) -> String { format!("{}/{:?}/{:?}/[{}]", s.name(), s.version(), s.schema_url(), kvs(&s.attributes().cloned().collect::<Vec<_>>())) }
impl MeterProvider for Mp {
    fn meter_with_scope(&self, s: InstrumentationScope) -> Meter { Meter::new(Arc::new(Ip { id: self.id, scope: show_scope(&s), log: self.log.clone() })) }
}

fn attrs(r: &mut Rng) -> Vec<KeyValue> { (0..r.usize(4)).map(|_| { let k = *r.pick(&["a", "b", "", "key.c"]); match r.below(3) { 0 => KeyValue::new(k, r.below(5) as i64), 1 => KeyValue::new(k, r.bool()), _ => KeyValue::new(k, "v") } }).collect() }

/// the settings given, in the order given: a later one replaces an earlier one, callbacks add up
#[derive(Clone, Debug)]
enum Step { Description(String), Unit(String), Limit(usize), Boundaries(Vec<f64>), Callback(u64, Vec<KeyValue>) }
fn steps(r: &mut Rng, hist: bool, obs: bool) -> Vec<Step> {
    (0..r.usize(6)).filter_map(|_| match r.below(5) {
        0 => Some(Step::Description(r.pick(&["", "d1", "d2"]).to_string())),
        1 => Some(Step::Unit(r.pick(&["", "By", "{x}"]).to_string())),
        2 => Some(Step::Limit(r.pick(&[0, 1, 17, usize::MAX]).to_owned())),
        3 if hist => Some(Step::Boundaries((0..r.usize(3)).map(|_| r.pick(&[1.0, 2.5, -3.0, f64::INFINITY]).to_owned()).collect())),
        4 if obs => Some(Step::Callback(r.below(9), attrs(r))),
        _ => None,
    }).collect()
}
fn wanted(st: &[Step]) -> Set {
    let mut s = Set::default();
    for x in st { match x { Step::Description(d) => s.description = Some(d.clone()), Step::Unit(u) => s.unit = Some(u.clone()), Step::Limit(l) => s.limit = Some(*l), Step::Boundaries(b) => s.boundaries = Some(b.clone()), Step::Callback(..) => s.callbacks += 1 } }
    s
}
const KINDS: [&str; 16] = ["u64_counter", "f64_counter", "i64_up_down_counter", "f64_up_down_counter", "u64_gauge", "i64_gauge", "f64_gauge", "f64_histogram", "u64_histogram", "u64_observable_counter", "f64_observable_counter",
    "i64_observable_up_down_counter", "f64_observable_up_down_counter", "u64_observable_gauge", "i64_observable_gauge", "f64_observable_gauge"];

/// make the instrument with the steps and use it with the values; `want` is what the provider has to see
fn run(m: &Meter, kind: usize, name: &str, st: &[Step], vals: &[(u64, Vec<KeyValue>)], want: &mut Vec<String>) {
    let name = name.to_string();
    macro_rules! sync { ($f:ident, $use:ident, $t:ty) => { {
        let mut b = m.$f(name);
        for s in st { match s.clone() { Step::Description(d) => b = b.with_description(d), Step::Unit(d) => b = b.with_unit(d), Step::Limit(l) => b = b.with_cardinality_limit(l), _ => {} } }
        let i = b.build();
        let j = i.clone();
        for (k, (v, a)) in vals.iter().enumerate() { let v = (*v as f64 - if stringify!($t) == "u64" { 0.0 } else { 4.0 }) as $t; want.push(format!("measure {v:?} [{}]", kvs(a))); if k % 2 == 0 { i.$use(v, a) } else { j.$use(v, a) } }
    } } }
    macro_rules! hist { ($f:ident, $t:ty) => { {
        let mut b = m.$f(name);
        for s in st { match s.clone() { Step::Description(d) => b = b.with_description(d), Step::Unit(d) => b = b.with_unit(d), Step::Limit(l) => b = b.with_cardinality_limit(l), Step::Boundaries(v) => b = b.with_boundaries(v), _ => {} } }
        let i = b.build();
        for (v, a) in vals { let v = *v as $t; want.push(format!("measure {v:?} [{}]", kvs(a))); i.record(v, a) }
    } } }
    macro_rules! obs { ($f:ident, $t:ty) => { {
        let mut b = m.$f(name);
        for s in st { match s.clone() { Step::Description(d) => b = b.with_description(d), Step::Unit(d) => b = b.with_unit(d), Step::Limit(l) => b = b.with_cardinality_limit(l),
            Step::Callback(v, a) => { let v = v as $t; want.push(format!("observe {v:?} [{}]", kvs(&a))); b = b.with_callback(move |o| o.observe(v, &a)) } _ => {} } }
        let _ = b.build();
    } } }
    match kind {
        0 => sync!(u64_counter, add, u64), 1 => sync!(f64_counter, add, f64), 2 => sync!(i64_up_down_counter, add, i64), 3 => sync!(f64_up_down_counter, add, f64),
        4 => sync!(u64_gauge, record, u64), 5 => sync!(i64_gauge, record, i64), 6 => sync!(f64_gauge, record, f64), 7 => hist!(f64_histogram, f64), 8 => hist!(u64_histogram, u64),
        9 => obs!(u64_observable_counter, u64), 10 => obs!(f64_observable_counter, f64), 11 => obs!(i64_observable_up_down_counter, i64), 12 => obs!(f64_observable_up_down_counter, f64),
        13 => obs!(u64_observable_gauge, u64), 14 => obs!(i64_observable_gauge, i64), _ => obs!(f64_observable_gauge, f64),
    }
}
fn same(got: &[String], want: &[String]) -> Result<(), String> {
    if got == want { return Ok(()); }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(format!("the provider saw {} things, expected {}; the first difference is at {i}: {:?}, expected {:?}", got.len(), want.len(), got.get(i), want.get(i)))
}

/// a provider that counts on nothing: every instrument is the default one
struct Bare;
impl InstrumentProvider for Bare {}

pub fn c35(c: &mut Ctx) {
    c.rule = "every kind of instrument with random settings (repeated ones too), callbacks and measurements, from meters of a recording provider of our own, directly and through the global provider; histories of setting that, including replacing one whose drop or last export uses the global provider. Non-trivial: at least one setting or measurement".into();
    // nothing set, and providers that implement nothing: everything is accepted and does nothing
    for kind in 0..16 {
        let st = steps(&mut c.rng, kind == 7 || kind == 8, kind > 8);
        let vals: Vec<(u64, Vec<KeyValue>)> = (0..3).map(|_| (c.rng.below(9), attrs(&mut c.rng))).collect();
        c.case(format!("{} of a default provider, {st:?} {vals:?}", KINDS[kind]), true, || {
            run(&global::meter("x"), kind, "n", &st, &vals, &mut vec![]);
            run(&global::meter_with_scope(InstrumentationScope::builder("y").build()), kind, "n", &st, &vals, &mut vec![]);
            run(&Meter::new(Arc::new(Bare)), kind, "n", &st, &vals, &mut vec![]);
            Ok(())
        });
    }
    let mut set = false;
    for i in 0..c.n(300) {
        let log: Log = Default::default();
        let p = Mp { id: i + 1, log: log.clone() };
        let name = *c.rng.pick(&["", "lib", "another.lib"]);
        let scope = match c.rng.below(3) { 0 => InstrumentationScope::builder(name).build(), 1 => InstrumentationScope::builder(name).with_version("1.2").build(), _ => InstrumentationScope::builder(name).with_schema_url("u").with_attributes([KeyValue::new("k", 1)]).build() };
        let sets = c.rng.chance(1, 3) || !set;
        set = true;
        let how = c.rng.below(5);
        let jobs: Vec<_> = (0..1 + c.rng.usize(5)).map(|_| { let k = c.rng.usize(16); (k, format!("i{}", c.rng.below(4)), steps(&mut c.rng, k == 7 || k == 8, k > 8), (0..c.rng.usize(4)).map(|_| (c.rng.below(9), attrs(&mut c.rng))).collect::<Vec<_>>()) }).collect();
        let nt = jobs.iter().any(|j| !j.2.is_empty() || !j.3.is_empty());
        c.case(format!("step {i}: set {sets}, how {how}, scope {}: {jobs:?}", show_scope(&scope)), nt, || {
            if sets { global::set_meter_provider(p.clone()); }
            let plain = show_scope(&InstrumentationScope::builder(name).build());
            let (m, sc) = match how {
                0 => (p.meter(name), plain),
                1 => (p.meter_with_scope(scope.clone()), show_scope(&scope)),
                2 if sets => (global::meter(name), plain),
                3 if sets => (global::meter_with_scope(scope.clone()), show_scope(&scope)),
                4 if sets => (global::meter_provider().meter_with_scope(scope.clone()), show_scope(&scope)),
                _ => (p.meter_with_scope(scope.clone()).clone(), show_scope(&scope)),
            };
            let mut want = vec![];
            for (k, n, st, vals) in &jobs {
                want.push(shown(p.id, &sc, KINDS[*k], n, &wanted(st)));
                run(&m, *k, n, st, vals, &mut want);
            }
            let got = log.lock().unwrap().clone();
            same(&got, &want)?;
            // meters made before a later provider is set keep theirs; the global one is the one set last
            if sets {
                let l2: Log = Default::default();
                global::set_meter_provider(Mp { id: 7_000_000 + i, log: l2.clone() });
                m.u64_counter("old").build().add(1, &[]);
                global::meter("z").u64_counter("new").build().add(2, &[]);
                let g = global::meter_provider();
                g.clone().meter("w").u64_gauge("newer").build().record(3, &[]);
                let d = Set::default();
                let want2 = vec![shown(7_000_000 + i, &show_scope(&InstrumentationScope::builder("z").build()), "u64_counter", "new", &d), "measure 2 []".into(),
                    shown(7_000_000 + i, &show_scope(&InstrumentationScope::builder("w").build()), "u64_gauge", "newer", &d), "measure 3 []".into()];
                same(&l2.lock().unwrap(), &want2).map_err(|e| format!("after another provider was set: {e}"))?;
                want.push(shown(p.id, &sc, "u64_counter", "old", &d));
                want.push("measure 1 []".into());
                let got = log.lock().unwrap().clone();
                same(&got, &want).map_err(|e| format!("a meter of the provider set before: {e}"))?;
            }
            Ok(())
        });
    }
    // replacing a provider whose drop uses the global one (its last export may make instruments)
    c.case("the replaced global provider uses the global one when dropped".into(), true, || {
        struct Nosy(Arc<std::sync::mpsc::Sender<()>>);
        impl MeterProvider for Nosy { fn meter_with_scope(&self, _: InstrumentationScope) -> Meter { Meter::new(Arc::new(Bare)) } }
        impl Drop for Nosy { fn drop(&mut self) { global::meter("in drop").u64_counter("n").build().add(1, &[]); let _ = self.0.send(()); } }
        let (tx, rx) = std::sync::mpsc::channel();
        let tx = Arc::new(tx);
        std::thread::spawn(move || {
            global::set_meter_provider(Nosy(tx));
            global::set_meter_provider(Mp { id: 1, log: Default::default() });
        });
        rx.recv_timeout(Duration::from_secs(20)).map_err(|_| "set_meter_provider does not return: the replaced provider's drop waits for the lock it is replaced under".to_string())
    });
}

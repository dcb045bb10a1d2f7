// C26: what the Prometheus exporter serves.
use crate::common::{Ctx, Rng};
use opentelemetry::{metrics::MeterProvider as _, InstrumentationScope, Key, KeyValue, Value};
use opentelemetry_prometheus::{ExporterBuilder, ResourceSelector};
use opentelemetry_sdk::{metrics::SdkMeterProvider, Resource};
use prometheus::proto::{MetricFamily, MetricType};
use std::collections::{BTreeMap, BTreeSet, HashSet};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind { CounterU, CounterF, UpDownI, UpDownF, GaugeU, GaugeI, GaugeF, HistU, HistF }
#[derive(Clone, Debug)]
struct Inst { scope: usize, kind: Kind, name: String, unit: String, help: String, bounds: Vec<f64>, points: Vec<(Vec<KeyValue>, Vec<u64>)> }
const UNITS: [&str; 31] = ["d", "h", "min", "s", "ms", "us", "ns", "By", "KiBy", "MiBy", "GiBy", "TiBy", "KBy", "MBy", "GBy", "TBy", "B", "KB", "MB", "GB", "TB", "m", "V", "A", "J", "W", "g", "Cel", "Hz", "1", "%"];
const NAMES: [&str; 31] = ["days", "hours", "minutes", "seconds", "milliseconds", "microseconds", "nanoseconds", "bytes", "kibibytes", "mebibytes", "gibibytes", "tibibytes", "kilobytes", "megabytes", "gigabytes", "terabytes", "bytes", "kilobytes", "megabytes", "gigabytes", "terabytes", "meters", "volts", "amperes", "joules", "watts", "grams", "celsius", "hertz", "ratio", "percent"];
const PER: [(&str, &str); 7] = [("s", "second"), ("m", "minute"), ("h", "hour"), ("d", "day"), ("w", "week"), ("mo", "month"), ("y", "year")];
fn unit_name(u: &str) -> Option<&'static str> { UNITS.iter().position(|x| *x == u).map(|i| NAMES[i]) }
fn suffix(u: &str) -> Option<String> {
    if let Some(n) = unit_name(u) { return Some(n.into()); }
    let (a, b) = u.split_once('/')?;
    let p = PER.iter().find(|x| x.0 == b)?.1;
    Some(if ["1", "d", "h", "min", "s", "ms", "us", "ns"].contains(&a) { format!("per_{p}") } else { match unit_name(a) { Some(n) => format!("{n}_per_{p}"), None => format!("per_{p}") } })
}
fn clean(n: &str) -> String {
    let mut s = String::new();
    if n.chars().next().map(|c| c.is_ascii_digit()).unwrap_or(false) { s.push('_'); }
    for c in n.chars() { s.push(if c.is_ascii_alphanumeric() || c == '_' || c == ':' { c } else { '_' }); }
    s
}
fn label(n: &str) -> String {
    // [a-zA-Z_][a-zA-Z0-9_]*
    let mut s: String = n.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect();
    if s.is_empty() || s.as_bytes()[0].is_ascii_digit() { s.insert(0, '_'); }
    s
}
fn text(v: &Value) -> String { v.to_string() }
fn labels<'a>(a: impl Iterator<Item = (String, &'a Value)>) -> Vec<(String, String)> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, v) in a { m.entry(label(&k)).or_default().push(text(v)); }
    m.into_iter().map(|(k, mut v)| { v.sort(); (k, v.join(";")) }).collect()
}
fn key(r: &mut Rng) -> String { r.pick(&["a", "a.b", "a_b", "a-b", "k1", "é", "x:y", "9z", "", "Host", "service.name", "中"]).to_string() }
fn value(r: &mut Rng) -> Value { match r.below(5) { 0 => Value::I64(r.next() as i64 >> r.below(64)), 1 => Value::Bool(r.bool()), 2 => Value::F64(r.below(100) as f64 / 4.0), _ => Value::String(r.pick(&["", "v", "w;x", "é\"\n", "zz", "b\\c"]).to_string().into()) } }
fn attrs(r: &mut Rng) -> Vec<KeyValue> { let mut seen = BTreeSet::new(); (0..r.usize(4)).map(|_| KeyValue::new(key(r), value(r))).filter(|kv| seen.insert(kv.key.clone())).collect() }
fn inst(r: &mut Rng, scopes: usize, i: usize) -> Inst {
    let stem = r.pick(&["foo", "foo.bar", "foo_bar", "foo-bar", "9lives", "é", "naïve", "a:b", "中文", "x y", "_u", "r²", "٣"]).to_string();
    // distinct for the SDK, some of them equal after cleaning
    let name = match r.below(3) { 0 => stem, 1 => format!("{stem}{}", i % 3), _ => format!("{stem}.n{i}") };
    let unit = match r.below(6) { 0 => String::new(), 1 => r.pick(&UNITS).to_string(), 2 => r.pick(&UNITS).to_string(), 3 => format!("{}/{}", r.pick(&UNITS), r.pick(&PER).0), 4 => format!("{}/{}", r.pick(&["foo", "", "By", "1", "ms"]), r.pick(&["s", "y", "mo", "x", "ms", "s/s"])), _ => r.pick(&["seconds", "{req}", "by", "/", "S", "ratio"]).to_string() };
    let kind = *r.pick(&[Kind::CounterU, Kind::CounterF, Kind::UpDownI, Kind::UpDownF, Kind::GaugeU, Kind::GaugeI, Kind::GaugeF, Kind::HistU, Kind::HistF]);
    let mut bounds: Vec<f64> = (0..r.usize(5)).map(|_| r.below(60) as f64).collect();
    bounds.sort_by(|a, b| a.partial_cmp(b).unwrap()); bounds.dedup();
    let mut seen: Vec<BTreeMap<Key, String>> = vec![];
    let points = (0..1 + r.usize(3)).filter_map(|_| { let a = attrs(r); let k: BTreeMap<Key, String> = a.iter().map(|kv| (kv.key.clone(), format!("{:?}", kv.value))).collect(); if seen.contains(&k) { return None; } seen.push(k); Some((a, (0..1 + r.usize(4)).map(|_| r.below(80)).collect())) }).collect();
    Inst { scope: r.usize(scopes), kind, name, unit, help: r.pick(&["", "help", "other help"]).to_string(), bounds, points }
}
#[derive(Clone, Debug, PartialEq)]
enum Val { Gauge(f64), Counter(f64), Hist(f64, u64, Vec<(f64, u64)>) }
#[derive(Clone, Debug, PartialEq)]
struct Series { name: String, help: String, ty: &'static str, labels: Vec<(String, String)>, val: Val }
fn ty(t: MetricType) -> &'static str { match t { MetricType::COUNTER => "counter", MetricType::GAUGE => "gauge", MetricType::HISTOGRAM => "histogram", _ => "?" } }
fn flat(fs: &[MetricFamily]) -> Result<Vec<Series>, String> {
    let mut out = vec![];
    for f in fs { for m in f.get_metric() {
        let val = match f.get_field_type() {
            MetricType::COUNTER => Val::Counter(m.get_counter().value()),
            MetricType::GAUGE => Val::Gauge(m.get_gauge().value()),
            MetricType::HISTOGRAM => { let h = m.get_histogram(); Val::Hist(h.get_sample_sum(), h.get_sample_count(), h.get_bucket().iter().map(|b| (b.upper_bound(), b.cumulative_count())).collect()) }
            t => return Err(format!("family {} of type {t:?}", f.name())),
        };
        out.push(Series { name: f.name().into(), help: f.help().into(), ty: ty(f.get_field_type()), labels: m.get_label().iter().map(|l| (l.name().into(), l.value().into())).collect(), val });
    } }
    Ok(out)
}
fn sorted(mut v: Vec<Series>) -> Vec<String> { let mut s: Vec<String> = v.drain(..).map(|x| format!("{x:?}")).collect(); s.sort(); s }
struct Cfg { target: bool, scope: bool, units: bool, suffix: bool, ns: Option<String>, sel: u64, allow: HashSet<Key> }
fn named(c: &Cfg, i: &Inst) -> (String, &'static str) {
    let mut n = String::new();
    if let Some(p) = &c.ns { n += p; if !p.ends_with('_') { n.push('_'); } }
    n += &clean(&i.name);
    if c.units { if let Some(s) = suffix(&i.unit) { n.push('_'); n += &s; } }
    let t = match i.kind { Kind::CounterU | Kind::CounterF => { if c.suffix { n += "_total"; } "counter" } Kind::HistU | Kind::HistF => "histogram", _ => "gauge" };
    (n, t)
}
fn who(s: &InstrumentationScope) -> Vec<(String, String)> { let mut v = vec![("otel_scope_name".to_string(), s.name().to_string())]; if let Some(x) = s.version() { v.push(("otel_scope_version".into(), x.into())); } v }
fn run(cfg: &Cfg, res: &Resource, scopes: &[InstrumentationScope], insts: &[Inst]) -> Result<(), String> {
    let registry = prometheus::Registry::new();
    let mut b = ExporterBuilder::default().with_registry(registry.clone());
    if !cfg.target { b = b.without_target_info(); }
    if !cfg.scope { b = b.without_scope_info(); }
    if !cfg.units { b = b.without_units(); }
    if !cfg.suffix { b = b.without_counter_suffixes(); }
    if let Some(n) = &cfg.ns { b = b.with_namespace(n.clone()); }
    b = match cfg.sel { 0 => b, 1 => b.with_resource_selector(ResourceSelector::All), 2 => b.with_resource_selector(ResourceSelector::None), _ => b.with_resource_selector(cfg.allow.clone()) };
    let exporter = b.build().map_err(|e| e.to_string())?;
    if !registry.gather().is_empty() { return Err("something served before there is a provider".into()); }
    let p = SdkMeterProvider::builder().with_resource(res.clone()).with_reader(exporter).build();
    let meters: Vec<_> = scopes.iter().map(|s| p.meter_with_scope(s.clone())).collect();
    for i in insts {
        let m = &meters[i.scope];
        macro_rules! make { ($f:ident, $t:ty, $op:ident, $conv:expr) => {{ let x = m.$f(i.name.clone()).with_unit(i.unit.clone()).with_description(i.help.clone()).build(); for (a, vs) in &i.points { for v in vs { x.$op($conv(*v) as $t, a); } } }} }
        macro_rules! hist { ($f:ident, $t:ty) => {{ let x = m.$f(i.name.clone()).with_unit(i.unit.clone()).with_description(i.help.clone()).with_boundaries(i.bounds.clone()).build(); for (a, vs) in &i.points { for v in vs { x.record(*v as $t, a); } } }} }
        match i.kind {
            Kind::CounterU => make!(u64_counter, u64, add, |v: u64| v), Kind::CounterF => make!(f64_counter, f64, add, |v: u64| v as f64 / 4.0),
            Kind::UpDownI => make!(i64_up_down_counter, i64, add, |v: u64| v as i64 - 40), Kind::UpDownF => make!(f64_up_down_counter, f64, add, |v: u64| v as f64 / 4.0 - 9.0),
            Kind::GaugeU => make!(u64_gauge, u64, record, |v: u64| v), Kind::GaugeI => make!(i64_gauge, i64, record, |v: u64| v as i64 - 40), Kind::GaugeF => make!(f64_gauge, f64, record, |v: u64| v as f64 / 4.0),
            Kind::HistU => hist!(u64_histogram, u64), Kind::HistF => hist!(f64_histogram, f64),
        }
    }
    let rl = match cfg.sel { 0 | 2 => vec![], 1 => labels(res.iter().map(|(k, v)| (k.to_string(), v))), _ => labels(res.iter().filter(|(k, _)| cfg.allow.contains(*k)).map(|(k, v)| (k.to_string(), v))) };
    let mut infos = vec![];
    if cfg.target && res.len() > 0 { infos.push(Series { name: "target_info".into(), help: "Target metadata".into(), ty: "gauge", labels: labels(res.iter().map(|(k, v)| (k.to_string(), v))), val: Val::Gauge(1.0) }); }
    let mut served: Vec<Vec<Series>> = vec![];
    for (n, i) in insts.iter().enumerate() {
        let (name, t) = named(cfg, i);
        let mut extra = if cfg.scope { who(&scopes[i.scope]) } else { vec![] };
        extra.extend(rl.iter().cloned());
        served.push(vec![]);
        for (a, vs) in &i.points {
            let mut l = labels(a.iter().map(|kv| (kv.key.to_string(), &kv.value)));
            l.extend(extra.iter().cloned());
            let s: u64 = vs.iter().sum();
            let last = *vs.last().unwrap();
            let k = vs.len() as f64;
            let hist = || Val::Hist(s as f64, vs.len() as u64, i.bounds.iter().map(|b| (*b, vs.iter().filter(|v| (**v as f64) <= *b).count() as u64)).collect());
            let val = match i.kind { Kind::CounterU => Val::Counter(s as f64), Kind::CounterF => Val::Counter(s as f64 / 4.0), Kind::UpDownI => Val::Gauge(s as f64 - 40.0 * k), Kind::UpDownF => Val::Gauge(s as f64 / 4.0 - 9.0 * k), Kind::GaugeU => Val::Gauge(last as f64), Kind::GaugeI => Val::Gauge(last as f64 - 40.0), Kind::GaugeF => Val::Gauge(last as f64 / 4.0), _ => hist() };
            served[n].push(Series { name: name.clone(), help: i.help.clone(), ty: t, labels: l, val });
        }
    }
    if cfg.scope { for (s, sc) in scopes.iter().enumerate() { if sc.attributes().count() > 0 && insts.iter().any(|i| i.scope == s) { infos.push(Series { name: "otel_scope_info".into(), help: "Instrumentation Scope metadata".into(), ty: "gauge", labels: who(sc), val: Val::Gauge(1.0) }); } } }
    let first = flat(&registry.gather())?;
    for s in &first { if s.name.is_empty() || !s.name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == ':') || s.name.chars().next().unwrap().is_ascii_digit() { return Err(format!("invalid name {:?}", s.name)); } }
    let names: BTreeSet<String> = insts.iter().map(|i| named(cfg, i).0).collect();
    let got_infos: Vec<Series> = first.iter().filter(|s| !names.contains(&s.name)).cloned().collect();
    if sorted(got_infos.clone()) != sorted(infos.clone()) { return Err(format!("besides metrics: {:?}, expected {:?}", sorted(got_infos), sorted(infos))); }
    for name in &names {
        let group: Vec<usize> = (0..insts.len()).filter(|n| named(cfg, &insts[*n]).0 == *name).collect();
        let got: Vec<Series> = first.iter().filter(|s| s.name == *name).cloned().collect();
        if got.is_empty() { return Err(format!("{name} is not served")); }
        // the first metric of the name says which type and help it has; which is first is only fixed within a scope
        let one_scope = group.iter().all(|n| insts[*n].scope == insts[group[0]].scope);
        let leads: Vec<usize> = if one_scope { vec![group[0]] } else { group.clone() };
        let fits = leads.iter().any(|l| {
            let (t, h) = (named(cfg, &insts[*l]).1, &insts[*l].help);
            let want: Vec<Series> = group.iter().flat_map(|n| served[*n].clone()).filter(|s| s.ty == t).map(|s| Series { help: h.clone(), ..s }).collect();
            sorted(want) == sorted(got.clone())
        });
        if !fits { return Err(format!("{name} served as {:?}, expected the ones of one type among {:?}", sorted(got), group.iter().map(|n| served[*n].clone()).collect::<Vec<_>>())); }
    }
    let again = flat(&registry.gather())?;
    if sorted(again.clone()) != sorted(first.clone()) { return Err(format!("a second scrape without new measurements differs: {:?} / {:?}", sorted(first), sorted(again))); }
    Ok(())
}
pub fn c26(c: &mut Ctx) {
    c.rule = "the families served by the registry are those the statement gives for the instruments, measurements and settings".into();
    for _ in 0..c.n(1500) {
        let r = &mut c.rng;
        let cfg = Cfg { target: r.chance(3, 4), scope: r.chance(3, 4), units: r.chance(4, 5), suffix: r.chance(3, 4), ns: match r.below(4) { 0 => Some(r.pick(&["ns", "my_", "a:b"]).to_string()), _ => None }, sel: r.below(4), allow: (0..r.usize(4)).map(|_| Key::from(key(r))).collect() };
        let res = if r.chance(1, 6) { Resource::builder_empty().build() } else { Resource::builder_empty().with_attributes(attrs(r)).build() };
        let ns = 1 + r.usize(3);
        let scopes: Vec<InstrumentationScope> = (0..ns).map(|i| { let mut b = InstrumentationScope::builder(format!("scope{i}")); if r.bool() { b = b.with_version(r.pick(&["1", "v0.1"]).to_string()); } if r.chance(1, 3) { b = b.with_attributes([KeyValue::new("s", "t")]); } b.build() }).collect();
        let mut insts: Vec<Inst> = vec![];
        for i in 0..1 + r.usize(5) { let x = inst(r, ns, i); if !insts.iter().any(|y| y.scope == x.scope && y.name.to_lowercase() == x.name.to_lowercase()) { insts.push(x); } }
        let text = format!("target {} scope {} units {} suffix {} namespace {:?} selector {} allow {:?} resource {:?} scopes {:?} instruments {:?}", cfg.target, cfg.scope, cfg.units, cfg.suffix, cfg.ns, cfg.sel, cfg.allow, res.iter().collect::<Vec<_>>(), scopes.iter().map(|s| (s.name(), s.version(), s.attributes().count())).collect::<Vec<_>>(), insts);
        c.case(text, true, || run(&cfg, &res, &scopes, &insts));
    }
}

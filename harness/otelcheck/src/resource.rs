// C22: resources: merging, schema URLs, detectors, the environment.
use crate::common::{Ctx, Rng};
use opentelemetry::{Key, KeyValue, Value};
use opentelemetry_sdk::resource::{EnvResourceDetector, ResourceDetector, SdkProvidedResourceDetector, TelemetryResourceDetector};
use opentelemetry_sdk::Resource;
use std::collections::BTreeMap;

type M = (BTreeMap<String, String>, Option<String>);
#[derive(Clone, Debug)]
enum Op { Attr(u8, i64), Attrs(Vec<(u8, i64)>), Url(Vec<(u8, i64)>, u8), Det(Vec<(Vec<(u8, i64)>, u8)>), Service(i64), Env, Sdk }
fn key(k: u8) -> String { ["service.name", "telemetry.sdk.name", "a", "b", "c", "", "a.b"][k as usize % 7].to_string() }
fn val(v: i64) -> Value { if v % 3 == 0 { Value::I64(v) } else if v % 7 == 1 { Value::from("") } else { Value::from(format!("v{v}")) } }
fn kvs(a: &[(u8, i64)]) -> Vec<KeyValue> { a.iter().map(|(k, v)| KeyValue::new(key(*k), val(*v))).collect() }
fn url(u: u8) -> &'static str { ["", "http://x", "http://y", "http://z"][u as usize % 4] }
fn show(v: &Value) -> String { format!("{v:?}") }
struct D(Vec<(u8, i64)>, u8);
impl ResourceDetector for D {
    fn detect(&self) -> Resource { Resource::builder_empty().with_schema_url(kvs(&self.0), url(self.1)).build() }
}
fn m_of(a: &[(u8, i64)], u: u8) -> M { let mut m = BTreeMap::new(); for (k, v) in a { m.insert(key(*k), show(&val(*v))); } (m, if u % 4 == 0 { None } else { Some(url(u).into()) }) }
fn merge(a: &M, b: &M) -> M {
    let mut m = a.0.clone();
    m.extend(b.0.clone());
    (m, match (&a.1, &b.1) { (Some(x), Some(y)) if x == y => Some(x.clone()), (Some(_), Some(_)) => None, (Some(x), None) => Some(x.clone()), (None, y) => y.clone() })
}
fn text(r: &Resource) -> M { (r.iter().map(|(k, v)| (k.to_string(), show(v))).collect(), r.schema_url().map(String::from)) }
/// the variable as it must be read: entries without '=' are skipped, keys and values trimmed, the last of equal keys counts
fn parse(s: &str) -> M { let mut m = BTreeMap::new(); for e in s.split(',') { if let Some(i) = e.find('=') { m.insert(e[..i].trim().to_string(), show(&Value::from(e[i + 1..].trim().to_string()))); } } (m, None) }
fn env_m(attrs: &Option<String>) -> M { attrs.as_ref().map(|s| parse(s)).unwrap_or_default() }
fn sdk_m(attrs: &Option<String>, name: &Option<String>) -> M {
    let n = match name { Some(n) if !n.is_empty() => show(&Value::from(n.clone())), _ => env_m(attrs).0.get("service.name").cloned().unwrap_or_else(|| show(&Value::from("unknown_service"))) };
    ([("service.name".to_string(), n)].into(), None)
}
fn telemetry_m() -> M { (["telemetry.sdk.name", "telemetry.sdk.language", "telemetry.sdk.version"].iter().map(|k| (k.to_string(), show(&TelemetryResourceDetector.detect().get(&Key::new(*k)).expect("a telemetry attribute")))).collect(), None) }
fn attrs(r: &mut Rng) -> Vec<(u8, i64)> { (0..r.usize(4)).map(|_| (r.below(7) as u8, r.below(20) as i64)).collect() }
fn op(r: &mut Rng) -> Op {
    match r.below(10) {
        0 => Op::Attr(r.below(7) as u8, r.below(20) as i64),
        1..=3 => Op::Attrs(attrs(r)),
        4..=5 => Op::Url(attrs(r), r.below(4) as u8),
        6..=7 => Op::Det((0..r.usize(3)).map(|_| (attrs(r), r.below(4) as u8)).collect()),
        8 => if r.bool() { Op::Env } else { Op::Sdk },
        _ => Op::Service(r.below(20) as i64),
    }
}
fn set(k: &str, v: &Option<String>) { match v { Some(v) => std::env::set_var(k, v), None => std::env::remove_var(k) } }

pub fn c22(cx: &mut Ctx) {
    cx.rule = "a map and the schema URL rules reproduce every resource".into();
    for _ in 0..cx.n(400) {
        let av: Option<String> = if cx.rng.chance(1, 3) { None } else {
            let n = cx.rng.usize(5);
            Some((0..n).map(|_| cx.rng.pick(&["a=1", " b = x y ", "service.name=env", "service.name=", "c", "=v", "k==w", "a=2", "", " ", "telemetry.sdk.name=mine", "d=é%20", "b=,", "a=\"q\"", "c='q", "\"b\"=\"\"", "a=;x;", "d= \t\"y\" ", "e.e=a\\b"]).to_string()).collect::<Vec<_>>().join(","))
        };
        let nv: Option<String> = match cx.rng.below(4) { 0 => Some("svc".into()), 1 => Some(String::new()), _ => None };
        let full = cx.rng.bool();
        let ops: Vec<Op> = (0..cx.rng.usize(6)).map(|_| op(&mut cx.rng)).collect();
        cx.case(format!("OTEL_RESOURCE_ATTRIBUTES {av:?}, OTEL_SERVICE_NAME {nv:?}, Resource::{}() then {ops:?}", if full { "builder" } else { "builder_empty" }), !ops.is_empty() || full, || {
            set("OTEL_RESOURCE_ATTRIBUTES", &av);
            set("OTEL_SERVICE_NAME", &nv);
            let (mut b, mut m) = if full { (Resource::builder(), merge(&merge(&telemetry_m(), &env_m(&av)), &sdk_m(&av, &nv))) } else { (Resource::builder_empty(), M::default()) };
            for o in &ops {
                match o {
                    Op::Attr(k, v) => { b = b.with_attribute(KeyValue::new(key(*k), val(*v))); m = merge(&m, &m_of(&[(*k, *v)], 0)); }
                    Op::Attrs(a) => { b = b.with_attributes(kvs(a)); m = merge(&m, &m_of(a, 0)); }
                    Op::Url(a, u) => { b = b.with_schema_url(kvs(a), url(*u)); m = merge(&m_of(a, *u), &m); }
                    Op::Det(ds) => {
                        let v: Vec<Box<dyn ResourceDetector>> = ds.iter().map(|(a, u)| Box::new(D(a.clone(), *u)) as _).collect();
                        b = if v.len() == 1 { b.with_detector(v.into_iter().next().unwrap()) } else { b.with_detectors(&v) };
                        let all = ds.iter().fold(M::default(), |x, (a, u)| merge(&x, &m_of(a, *u)));
                        m = merge(&m, &all);
                    }
                    Op::Service(v) => { b = b.with_service_name(val(*v)); m = merge(&m, &m_of(&[(0, *v)], 0)); }
                    Op::Env => { b = b.with_detector(Box::new(EnvResourceDetector::new())); m = merge(&m, &env_m(&av)); }
                    Op::Sdk => { b = b.with_detector(Box::new(SdkProvidedResourceDetector)); m = merge(&m, &sdk_m(&av, &nv)); }
                }
            }
            let r = b.build();
            set("OTEL_RESOURCE_ATTRIBUTES", &None);
            set("OTEL_SERVICE_NAME", &None);
            if text(&r) != m { return Err(format!("got {:?}\n   expected {m:?}", text(&r))); }
            if r.len() != m.0.len() || r.is_empty() != m.0.is_empty() || (&r).into_iter().count() != r.len() { return Err("len, is_empty or iteration disagree".into()); }
            for k in 0..7 { if r.get(&Key::new(key(k))).map(|v| show(&v)) != m.0.get(&key(k)).cloned() { return Err(format!("get {}", key(k))); } }
            Ok(())
        });
    }
}

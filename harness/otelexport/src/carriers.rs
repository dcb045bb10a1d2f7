// C31 carriers, composite and global propagators, the header names a propagator says it uses.
use crate::common::Ctx;
use opentelemetry::baggage::BaggageExt;
use opentelemetry::propagation::{text_map_propagator::FieldIter, Extractor, Injector, TextMapCompositePropagator, TextMapPropagator};
use opentelemetry::trace::{SpanContext, SpanId, TraceContextExt, TraceFlags, TraceId, TraceState};
use opentelemetry::{global, Context, KeyValue};
use opentelemetry_http::{HeaderExtractor, HeaderInjector};
use opentelemetry_sdk::propagation::{BaggagePropagator, TraceContextPropagator};
use opentelemetry_zipkin::{B3Encoding, Propagator as B3};
use std::collections::{BTreeSet, HashMap};
use std::str::FromStr;

#[derive(Debug, Clone, PartialEq, Default)]
struct Trail(Vec<(u8, Vec<String>)>);
/// injects its id under each name and, on extraction, adds what it read to the trail in the context
#[derive(Debug, Clone)]
struct Script { id: u8, names: Vec<String>, mute: bool }
impl TextMapPropagator for Script {
    fn inject_context(&self, cx: &Context, injector: &mut dyn Injector) {
        let t = cx.get::<Trail>().map(|t| t.0.len()).unwrap_or(99);
        for n in &self.names { injector.set(n, format!("{}-{}", self.id, t)); }
    }
    fn extract_with_context(&self, cx: &Context, extractor: &dyn Extractor) -> Context {
        if self.mute { return cx.clone(); }
        let mut t = cx.get::<Trail>().cloned().unwrap_or_default();
        t.0.push((self.id, self.names.iter().map(|n| extractor.get(n).unwrap_or("-").to_string()).collect()));
        cx.with_value(t)
    }
    fn fields(&self) -> FieldIter<'_> { FieldIter::new(&self.names) }
}
/// keeps every call
#[derive(Default)]
struct Log(Vec<(String, String)>);
impl Injector for Log { fn set(&mut self, key: &str, value: String) { self.0.push((key.to_string(), value)); } }
struct Map(HashMap<String, String>);
impl Extractor for Map {
    fn get(&self, key: &str) -> Option<&str> { self.0.get(key).map(|s| s.as_str()) }
    fn keys(&self) -> Vec<&str> { self.0.keys().map(|s| s.as_str()).collect() }
}
fn ne<T: std::fmt::Debug + PartialEq>(what: &str, got: T, want: T) -> Result<(), String> { if got == want { Ok(()) } else { Err(format!("{what}: {got:?}, expected {want:?}")) } }

pub fn c31(cx: &mut Ctx) {
    cx.rule = "at least one value set, injected or extracted".into();
    let given = Context::new().with_value(Trail(vec![(7, vec![])]));
    // before any propagator is set: nothing is injected, and the context given comes back
    cx.case("the global propagator before one is set".into(), true, || {
        let (mut m, mut l) = (HashMap::new(), Log::default());
        m.insert("traceparent".to_string(), "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01".to_string());
        let got = global::get_text_map_propagator(|p| { p.inject_context(&given, &mut l); p.extract_with_context(&given, &m) });
        ne("injected", l.0, vec![])?;
        ne("the context that comes back", got.get::<Trail>().cloned(), given.get::<Trail>().cloned())?;
        let _g = given.clone().attach();
        ne("the context that comes back", global::get_text_map_propagator(|p| p.extract(&m)).get::<Trail>().cloned(), given.get::<Trail>().cloned())?;
        ne("the fields", global::get_text_map_propagator(|p| p.fields().count()), 0)
    });
    let keys = ["traceparent", "TraceParent", "X-B3-TraceId", "x-b3-traceid", "", " ", "a b", "k\u{130}", "ß", "ẞ", "ÀB", "a:b", "a\u{0}b", "content-length", "k_1", "K_1", "x\n"];
    let vals = ["", "v", "a,b", "é", "line\nbreak", "tab\tbed", "\u{7f}", "long value with spaces ", "日"];
    for round in 0..cx.n(1500) {
        let r = &mut cx.rng;
        let ops: Vec<(String, String)> = (0..r.usize(9)).map(|_| (r.pick(&keys).to_string(), r.pick(&vals).to_string())).collect();
        cx.case(format!("hash map round {round} {ops:?}"), !ops.is_empty(), || {
            let (mut m, mut want): (HashMap<String, String>, HashMap<String, String>) = Default::default();
            for (k, v) in &ops { Injector::set(&mut m, k, v.clone()); want.insert(k.to_lowercase(), v.clone()); }
            for k in keys {
                ne(&format!("value of {k:?}"), Extractor::get(&m, k), want.get(&k.to_lowercase()).map(|s| s.as_str()))?;
            }
            let (mut got, mut w): (Vec<&str>, Vec<&str>) = (Extractor::keys(&m), want.keys().map(|k| k.as_str()).collect());
            got.sort(); w.sort();
            ne("keys", got, w)
        });
        cx.case(format!("header map round {round} {ops:?}"), !ops.is_empty(), || {
            let mut h = http::HeaderMap::new();
            h.append("k_1", http::HeaderValue::from_static("old"));
            h.append("k_1", http::HeaderValue::from_static("older"));
            let mut want: HashMap<String, String> = HashMap::from([("k_1".to_string(), "old".to_string())]);
            let tok = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b));
            for (k, v) in &ops {
                HeaderInjector(&mut h).set(k, v.clone());
                if tok(k) && v.bytes().all(|b| b == 9 || (b >= 32 && b != 127)) { want.insert(k.to_ascii_lowercase(), v.clone()); }
            }
            let x = HeaderExtractor(&h);
            for k in keys {
                let w = if tok(k) { want.get(&k.to_ascii_lowercase()) } else { None }.filter(|v| v.bytes().all(|b| b == 9 || (32..127).contains(&b)));
                ne(&format!("value of {k:?}"), x.get(k), w.map(|s| s.as_str()))?;
            }
            let (mut got, mut w): (Vec<&str>, Vec<&str>) = (x.keys(), want.keys().map(|k| k.as_str()).collect());
            got.sort(); w.sort();
            ne("keys", got, w)?;
            for (k, _) in &ops { if tok(k) && want.contains_key(&k.to_ascii_lowercase()) { let n = h.get_all(k.as_str()).iter().count(); if n > 1 && !(k.eq_ignore_ascii_case("k_1") && want["k_1"] == "old") { return Err(format!("{n} values of {k:?}")); } } }
            Ok(())
        });
        // composite
        let r = &mut cx.rng;
        let ps: Vec<Script> = (0..r.below(5)).map(|i| Script { id: i as u8, names: (0..r.usize(4)).map(|_| r.pick(&["a", "b", "c", "d"]).to_string()).collect(), mute: r.chance(1, 4) }).collect();
        let have: HashMap<String, String> = (0..r.usize(4)).map(|_| (r.pick(&["a", "b", "c"]).to_string(), r.pick(&vals).to_string())).collect();
        let via = r.below(4);
        cx.case(format!("composite round {round} via {via} {ps:?} of {have:?}"), !ps.is_empty(), || {
            let c = TextMapCompositePropagator::new(ps.iter().map(|p| Box::new(p.clone()) as Box<dyn TextMapPropagator + Send + Sync>).collect());
            let mut f: Vec<String> = c.fields().map(|s| s.to_string()).collect();
            f.sort();
            ne("fields", f, ps.iter().flat_map(|p| p.names.clone()).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>())?;
            let base = Context::new().with_value(Trail(vec![(9, vec![]), (8, vec![])]));
            let _g = base.clone().attach();
            // the context given is another one than the current one in half of the cases
            let other = if via & 1 == 0 { base.clone() } else { base.with_value(Trail(vec![(5, vec![])])) };
            let n = other.get::<Trail>().unwrap().0.len();
            let mut l = Log::default();
            let got = match via {
                0 => { c.inject(&mut l); c.extract(&Map(have.clone())) }
                1 => { c.inject_context(&other, &mut l); c.extract_with_context(&other, &Map(have.clone())) }
                2 => { global::set_text_map_propagator(BaggagePropagator::new()); global::set_text_map_propagator(c); global::get_text_map_propagator(|c| { c.inject(&mut l); c.extract(&Map(have.clone())) }) }
                _ => { global::set_text_map_propagator(TraceContextPropagator::new()); global::set_text_map_propagator(c); global::get_text_map_propagator(|c| { c.inject_context(&other, &mut l); c.extract_with_context(&other, &Map(have.clone())) }) }
            };
            ne("injected", l.0, ps.iter().flat_map(|p| p.names.iter().map(move |m| (m.clone(), format!("{}-{n}", p.id)))).collect::<Vec<_>>())?;
            let mut want = other.get::<Trail>().unwrap().clone();
            for p in ps.iter().filter(|p| !p.mute) { want.0.push((p.id, p.names.iter().map(|n| have.get(n).map(|s| s.as_str()).unwrap_or("-").to_string()).collect())); }
            ne("the context that comes back", got.get::<Trail>().cloned(), Some(want))
        });
        // every header a propagator sets is one it names
        let r = &mut cx.rng;
        let sc = SpanContext::new(TraceId::from_bytes((if r.chance(1, 5) { 0 } else { r.next() as u128 }).to_be_bytes()), SpanId::from_bytes((if r.chance(1, 5) { 0 } else { r.next() }).to_be_bytes()), TraceFlags::new(r.below(8) as u8), r.bool(), TraceState::from_str(*r.pick(&["", "a=1", "a=1,b=2"])).unwrap());
        let bag: Vec<KeyValue> = (0..r.usize(3)).map(|i| KeyValue::new(format!("k{i}"), "v")).collect();
        let hdr: &'static str = *r.pick(&["", "x-trace", " ", " y "]);
        cx.case(format!("fields round {round} {sc:?} {bag:?} {hdr:?}"), sc.is_valid() || !bag.is_empty(), || {
            let from = Context::new().with_remote_span_context(sc.clone()).with_baggage(bag.clone());
            let all: Vec<(&str, Box<dyn TextMapPropagator>, Vec<&str>)> = vec![
                ("w3c", Box::new(TraceContextPropagator::new()), vec!["traceparent", "tracestate"]),
                ("baggage", Box::new(BaggagePropagator::new()), vec!["baggage"]),
                ("b3 default", Box::new(B3::new()), vec!["x-b3-traceid", "x-b3-spanid", "x-b3-sampled", "x-b3-flags"]),
                ("b3 unspecified", Box::new(B3::with_encoding(B3Encoding::UnSpecified)), vec!["x-b3-traceid", "x-b3-spanid", "x-b3-sampled", "x-b3-flags"]),
                ("b3 multi", Box::new(B3::with_encoding(B3Encoding::MultipleHeader)), vec!["x-b3-traceid", "x-b3-spanid", "x-b3-sampled", "x-b3-flags"]),
                ("b3 single", Box::new(B3::with_encoding(B3Encoding::SingleHeader)), vec!["b3"]),
                ("b3 both", Box::new(B3::with_encoding(B3Encoding::SingleAndMultiHeader)), vec!["b3", "x-b3-traceid", "x-b3-spanid", "x-b3-sampled", "x-b3-flags"]),
                ("jaeger", Box::new(opentelemetry_jaeger_propagator::Propagator::new()), vec!["uber-trace-id"]),
                ("jaeger custom", Box::new(opentelemetry_jaeger_propagator::Propagator::with_custom_header(hdr)), vec![if hdr.trim().is_empty() { "uber-trace-id" } else { hdr.trim() }]),
            ];
            for (name, p, want) in &all {
                let mut l = Log::default();
                p.inject_context(&from, &mut l);
                let f: BTreeSet<String> = p.fields().map(|s| s.to_string()).collect();
                ne(&format!("the fields of {name}"), f.clone(), want.iter().map(|s| s.to_string()).collect())?;
                for (k, _) in &l.0 { if !f.contains(k) { return Err(format!("{name} injects {k:?} and names {f:?}")); } }
            }
            Ok(())
        });
    }
    // a replaced propagator may use the global one when it is dropped
    cx.case("the replaced global propagator uses the global one when dropped".into(), true, || {
        #[derive(Debug)]
        struct Nosy(std::sync::Mutex<std::sync::mpsc::Sender<usize>>);
        impl TextMapPropagator for Nosy {
            fn inject_context(&self, _: &Context, _: &mut dyn Injector) {}
            fn extract_with_context(&self, cx: &Context, _: &dyn Extractor) -> Context { cx.clone() }
            fn fields(&self) -> FieldIter<'_> { FieldIter::new(&[]) }
        }
        impl Drop for Nosy { fn drop(&mut self) { let n = global::get_text_map_propagator(|p| p.fields().count()); let _ = self.0.lock().unwrap().send(n); } }
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            global::set_text_map_propagator(Nosy(std::sync::Mutex::new(tx)));
            global::set_text_map_propagator(TraceContextPropagator::new());
        });
        let n = rx.recv_timeout(std::time::Duration::from_secs(20)).map_err(|_| "set_text_map_propagator does not return: the replaced propagator's drop waits for the lock it is replaced under".to_string())?;
        ne("fields of the global propagator, as the replaced one sees it", n, 2)
    });
}

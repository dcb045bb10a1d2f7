// C33: what the log and tracing bridges make of an event.
use crate::common::{Ctx, Rng};
use opentelemetry::logs::{AnyValue, Severity};
use opentelemetry::{InstrumentationScope, Key};
use opentelemetry_appender_log::OpenTelemetryLogBridge;
use opentelemetry_appender_tracing::layer::OpenTelemetryTracingBridge;
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::logs::{LogProcessor, SdkLogRecord, SdkLoggerProvider};
use log::Log as _;
use std::sync::{Arc, Mutex};
use tracing_subscriber::layer::SubscriberExt;

type Asked = (Severity, String, Option<String>);
#[derive(Debug, Clone, Default)]
struct Keep { got: Arc<Mutex<Vec<SdkLogRecord>>>, asked: Arc<Mutex<Vec<Asked>>>, refuse: Option<Severity> }
impl LogProcessor for Keep {
    fn emit(&self, r: &mut SdkLogRecord, _s: &InstrumentationScope) { self.got.lock().unwrap().push(r.clone()); }
    fn force_flush(&self) -> OTelSdkResult { Ok(()) }
    fn shutdown(&self) -> OTelSdkResult { Ok(()) }
    fn event_enabled(&self, l: Severity, target: &str, name: Option<&str>) -> bool {
        self.asked.lock().unwrap().push((l, target.to_string(), name.map(|s| s.to_string())));
        Some(l) != self.refuse
    }
}
#[derive(Debug, PartialEq, Clone)]
struct Want { sev: Severity, text: &'static str, body: Option<AnyValue>, attrs: Vec<(Key, AnyValue)>, target: String, name: Option<String> }
fn same(a: &AnyValue, b: &AnyValue) -> bool {
    match (a, b) { (AnyValue::Double(x), AnyValue::Double(y)) => x.to_bits() == y.to_bits(), _ => a == b }
}
fn check(k: &Keep, want: &[Want]) -> Result<(), String> {
    let got = k.got.lock().unwrap();
    if got.len() != want.len() { return Err(format!("{} records, expected {}", got.len(), want.len())); }
    for (g, w) in got.iter().zip(want) {
        let attrs: Vec<(Key, AnyValue)> = g.attributes_iter().cloned().collect();
        let ok = g.severity_number() == Some(w.sev) && g.severity_text() == Some(w.text) && g.target().map(|t| t.to_string()) == Some(w.target.clone()) && g.event_name().map(|s| s.to_string()) == w.name
            && (match (g.body(), &w.body) { (Some(a), Some(b)) => same(a, b), (None, None) => true, _ => false })
            && attrs.len() == w.attrs.len() && attrs.iter().zip(&w.attrs).all(|(a, b)| a.0 == b.0 && same(&a.1, &b.1)) && g.timestamp().is_none() && g.trace_context().is_none();
        if !ok { return Err(format!("{g:?}, expected {w:?}")); }
    }
    Ok(())
}
fn s(t: impl ToString) -> AnyValue { AnyValue::String(t.to_string().into()) }
fn int<T: TryInto<i64> + ToString + Copy>(n: T) -> AnyValue { match n.try_into() { Ok(i) => AnyValue::Int(i), Err(_) => s(n) } }
fn provider(k: &Keep) -> SdkLoggerProvider { SdkLoggerProvider::builder().with_log_processor(k.clone()).build() }
const EDGE: [i128; 13] = [0, 1, -1, i64::MAX as i128, i64::MIN as i128, i64::MAX as i128 + 1, i64::MIN as i128 - 1, u64::MAX as i128, u64::MAX as i128 + 1, i128::MAX, i128::MIN, 1 << 31, 1 << 53];
fn i128_any(r: &mut Rng) -> i128 { match r.below(3) { 0 => *r.pick(&EDGE), 1 => r.next() as i64 as i128, _ => ((r.next() as i128) << 64) | r.next() as i128 } }
#[derive(Debug)]
struct Oops(String);
impl std::fmt::Display for Oops { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{}>", self.0) } }
impl std::error::Error for Oops {}
struct Mute;
impl std::fmt::Debug for Mute { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "mute") } }

fn with_tracing(k: &Keep, f: impl FnOnce()) {
    let p = provider(k);
    let sub = tracing_subscriber::registry().with(OpenTelemetryTracingBridge::new(&p));
    tracing::subscriber::with_default(sub, f);
}

pub fn c33(cx: &mut Ctx) {
    cx.rule = "at least one event of a level the logger wants".into();
    let texts = ["", "hello", "message", "log.file", "é\n\"q\"", "long long long long long long long long text"];
    for round in 0..cx.n(2500) {
        let r = &mut cx.rng;
        let levels = [(log::Level::Error, Severity::Error, "ERROR"), (log::Level::Warn, Severity::Warn, "WARN"), (log::Level::Info, Severity::Info, "INFO"), (log::Level::Debug, Severity::Debug, "DEBUG"), (log::Level::Trace, Severity::Trace, "TRACE")];
        let refuse = if r.chance(1, 2) { None } else { Some(levels[r.usize(5)].1) };
        let keep = Keep { refuse, ..Default::default() };
        // log: a record of any level, target, message and key-values
        let n = 1 + r.usize(3);
        let recs: Vec<_> = (0..n).map(|_| {
            let l = *r.pick(&levels);
            let kvs: Vec<(&str, i128, u8, f64, &str)> = (0..r.usize(5)).map(|_| (*r.pick(&["a", "b", "message", "", "log.line", "a"]), i128_any(r), r.below(12) as u8, r.f64_any(), *r.pick(&texts))).collect();
            (l, *r.pick(&["t", "", "crate::module"]), *r.pick(&texts), kvs)
        }).collect();
        cx.case(format!("log round {round} refuse {refuse:?} {recs:?}"), recs.iter().any(|x| Some(x.0 .1) != refuse), || {
            let p = provider(&keep);
            let b = OpenTelemetryLogBridge::new(&p);
            let mut want = vec![];
            for (l, target, body, kvs) in &recs {
                let err = Oops("e".into());
                let vals: Vec<(&str, log::kv::Value)> = kvs.iter().map(|(k, n, t, f, txt)| (*k, match t {
                    0 => log::kv::Value::from(*n), 1 => log::kv::Value::from(*n as u128), 2 => log::kv::Value::from(*n as u64), 3 => log::kv::Value::from(*n as i64), 4 => log::kv::Value::from(*n as i32),
                    5 => log::kv::Value::from(*n as u8), 6 => log::kv::Value::from(*n & 1 == 1), 7 => log::kv::Value::from(*f), 8 => log::kv::Value::from(*txt), 9 => log::kv::Value::from('x'),
                    10 => log::kv::Value::from_debug(&Mute), _ => log::kv::Value::from_display(&err) })).collect();
                let src: &[(&str, log::kv::Value)] = &vals;
                b.log(&log::Record::builder().level(l.0).target(target).args(format_args!("{body}")).file(Some("src/x.rs")).line(Some(7)).module_path(Some("m")).key_values(&src).build());
                if Some(l.1) != refuse {
                    want.push(Want { sev: l.1, text: l.2, body: Some(s(body)), target: target.to_string(), name: None, attrs: kvs.iter().map(|(k, n, t, f, txt)| (Key::new(k.to_string()), match t {
                        0 => int(*n), 1 => int(*n as u128), 2 => int(*n as u64), 3 => int(*n as i64), 4 => int(*n as i32), 5 => int(*n as u8), 6 => AnyValue::Boolean(*n & 1 == 1), 7 => AnyValue::Double(*f),
                        8 => s(txt), 9 => s('x'), 10 => s("mute"), _ => s("<e>") })).collect() });
                }
                let on = b.enabled(&log::Metadata::builder().level(l.0).target(target).build());
                if on != (Some(l.1) != refuse) { return Err(format!("enabled is {on}")); }
                if keep.asked.lock().unwrap().last() != Some(&(l.1, target.to_string(), None)) { return Err(format!("the logger was asked about {:?}", keep.asked.lock().unwrap().last())); }
            }
            b.flush();
            check(&keep, &want)
        });
        // tracing: events of fixed shapes and any values
        let r = &mut cx.rng;
        let keep = Keep { refuse, ..Default::default() };
        let progs: Vec<(u64, i128, f64, &str, &str)> = (0..1 + r.usize(3)).map(|_| (r.below(13), i128_any(r), r.f64_any(), *r.pick(&texts), *r.pick(&texts))).collect();
        cx.case(format!("tracing round {round} refuse {refuse:?} {progs:?}"), true, || {
            let mut want = vec![];
            with_tracing(&keep, || for &(shape, n, f, t, u) in &progs {
                let (sev, text, target, name, body, attrs): (Severity, &'static str, &str, Option<&str>, Option<AnyValue>, Vec<(&str, AnyValue)>) = match shape {
                    0 => { tracing::event!(name: "n0", target: "t0", tracing::Level::ERROR, a = n, b = n as u128, "{}", t); (Severity::Error, "ERROR", "t0", Some("n0"), Some(s(t)), vec![("a", int(n)), ("b", int(n as u128))]) }
                    1 => { tracing::event!(name: "n1", target: "t1", tracing::Level::WARN, c = n as u64, d = n as i64, message = t); (Severity::Warn, "WARN", "t1", Some("n1"), Some(s(t)), vec![("c", int(n as u64)), ("d", int(n as i64))]) }
                    2 => { tracing::event!(name: "n2", target: "t2", tracing::Level::INFO, x = f, y = n & 1 == 1, z = u); (Severity::Info, "INFO", "t2", Some("n2"), None, vec![("x", AnyValue::Double(f)), ("y", AnyValue::Boolean(n & 1 == 1)), ("z", s(u))]) }
                    3 => { tracing::event!(name: "n3", target: "t3", tracing::Level::DEBUG, q = ?t, w = %u, "m {t}"); (Severity::Debug, "DEBUG", "t3", Some("n3"), Some(s(format!("m {t}"))), vec![("q", s(format!("{t:?}"))), ("w", s(u))]) }
                    4 => { tracing::event!(name: "n4", target: "t4", tracing::Level::TRACE, e = n as u8, g = n as i16, h = n as i32, i = n as u32); (Severity::Trace, "TRACE", "t4", Some("n4"), None, vec![("e", int(n as u8)), ("g", int(n as i16)), ("h", int(n as i32)), ("i", int(n as u32))]) }
                    5 => { let e = Oops(t.to_string()); tracing::event!(name: "n5", target: "t5", tracing::Level::ERROR, error = &e as &(dyn std::error::Error + 'static), k = 1); (Severity::Error, "ERROR", "t5", Some("n5"), None, vec![("exception.message", s(format!("<{t}>"))), ("k", int(1))]) }
                    6 => { tracing::event!(name: "n6", target: "t6", tracing::Level::WARN, same = 1, same = 2, "{}", u); (Severity::Warn, "WARN", "t6", Some("n6"), Some(s(u)), vec![("same", int(1)), ("same", int(2))]) }
                    7 => { let b = t.as_bytes(); tracing::event!(name: "n7", target: "t7", tracing::Level::INFO, bytes = b); (Severity::Info, "INFO", "t7", Some("n7"), None, vec![("bytes", AnyValue::Bytes(Box::new(t.as_bytes().to_vec())))]) }
                    8 => { let some: Option<i64> = if n & 1 == 1 { Some(n as i64) } else { None }; tracing::event!(name: "n8", target: "t8", tracing::Level::DEBUG, some, "x"); (Severity::Debug, "DEBUG", "t8", Some("n8"), Some(s("x")), some.map(|v| ("some", int(v))).into_iter().collect()) }
                    9 => { tracing::event!(name: "n9", target: "t9", tracing::Level::TRACE, dotted.name = t, "quoted name" = u); (Severity::Trace, "TRACE", "t9", Some("n9"), None, vec![("dotted.name", s(t)), ("quoted name", s(u))]) }
                    10 => { tracing::event!(name: "n10", target: "t10", tracing::Level::INFO, fl = f as f32, a.b = n as usize); (Severity::Info, "INFO", "t10", Some("n10"), None, vec![("fl", AnyValue::Double((f as f32) as f64)), ("a.b", int(n as usize as u64))]) }
                    11 => { let _g = tracing::info_span!("outer", attr = 1).entered(); tracing::event!(name: "n11", target: "t11", tracing::Level::INFO, deep = t); (Severity::Info, "INFO", "t11", Some("n11"), None, vec![("deep", s(t))]) }
                    _ => { tracing::event!(name: "n12", target: "t12", tracing::Level::ERROR, message = ?t, other = ?u); (Severity::Error, "ERROR", "t12", Some("n12"), Some(s(format!("{t:?}"))), vec![("other", s(format!("{u:?}")))]) }
                };
                if Some(sev) != refuse { want.push(Want { sev, text, body, target: target.to_string(), name: name.map(|s| s.to_string()), attrs: attrs.into_iter().map(|(k, v)| (Key::new(k.to_string()), v)).collect() }); }
                let asked = keep.asked.lock().unwrap().last().cloned();
                if asked != Some((sev, target.to_string(), name.map(|s| s.to_string()))) { panic!("the logger was asked about {asked:?}"); }
            });
            check(&keep, &want)
        });
    }
    cx.case("conversions to AnyValue".into(), true, || {
        let all: Vec<(AnyValue, AnyValue)> = vec![(AnyValue::from(-1i8), AnyValue::Int(-1)), (AnyValue::from(i16::MIN), AnyValue::Int(i16::MIN as i64)), (AnyValue::from(i32::MIN), AnyValue::Int(i32::MIN as i64)), (AnyValue::from(i64::MIN), AnyValue::Int(i64::MIN)),
            (AnyValue::from(255u8), AnyValue::Int(255)), (AnyValue::from(u16::MAX), AnyValue::Int(65535)), (AnyValue::from(u32::MAX), AnyValue::Int(u32::MAX as i64)), (AnyValue::from(1.5f64), AnyValue::Double(1.5)), (AnyValue::from(1.5f32), AnyValue::Double(1.5)),
            (AnyValue::from("s".to_string()), s("s")), (AnyValue::from("s"), s("s")), (AnyValue::from(true), AnyValue::Boolean(true)), (AnyValue::from(&b"ab"[..]), AnyValue::Bytes(Box::new(vec![97, 98]))),
            (vec![1i64, 2].into_iter().collect(), AnyValue::ListAny(Box::new(vec![AnyValue::Int(1), AnyValue::Int(2)]))), (vec![("k", 1i64)].into_iter().collect(), AnyValue::Map(Box::new([(Key::from("k"), AnyValue::Int(1))].into())))];
        for (g, w) in all { if g != w { return Err(format!("{g:?}, expected {w:?}")); } }
        Ok(())
    });
}

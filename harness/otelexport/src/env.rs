// C29: settings from the environment and from the builders.
use crate::common::{Ctx, Rng};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::metrics::{data::ResourceMetrics, exporter::PushMetricExporter, periodic_reader_with_async_runtime as asy, PeriodicReader, Temporality};
use opentelemetry_sdk::runtime::Runtime;
use opentelemetry_sdk::trace::{Sampler, SdkTracerProvider, SpanLimits};
use std::time::Duration;

#[derive(Debug)]
struct Exp;
impl PushMetricExporter for Exp {
    async fn export(&self, _: &mut ResourceMetrics) -> OTelSdkResult { Ok(()) }
    fn force_flush(&self) -> OTelSdkResult { Ok(()) }
    fn shutdown_with_timeout(&self, _: Duration) -> OTelSdkResult { Ok(()) }
    fn temporality(&self) -> Temporality { Temporality::Cumulative }
}
#[derive(Clone, Debug)]
struct Rt;
impl Runtime for Rt {
    fn spawn<F>(&self, _: F) where F: std::future::Future<Output = ()> + Send + 'static {}
    fn delay(&self, _: Duration) -> impl std::future::Future<Output = ()> + Send + 'static { async {} }
}
const VARS: &[&str] = &["OTEL_BSP_MAX_QUEUE_SIZE", "OTEL_BSP_MAX_EXPORT_BATCH_SIZE", "OTEL_BSP_SCHEDULE_DELAY", "OTEL_BSP_EXPORT_TIMEOUT", "OTEL_BSP_MAX_CONCURRENT_EXPORTS",
    "OTEL_BLRP_MAX_QUEUE_SIZE", "OTEL_BLRP_MAX_EXPORT_BATCH_SIZE", "OTEL_BLRP_SCHEDULE_DELAY", "OTEL_BLRP_EXPORT_TIMEOUT",
    "OTEL_SPAN_ATTRIBUTE_COUNT_LIMIT", "OTEL_SPAN_EVENT_COUNT_LIMIT", "OTEL_SPAN_LINK_COUNT_LIMIT", "OTEL_TRACES_SAMPLER", "OTEL_TRACES_SAMPLER_ARG",
    "OTEL_METRIC_EXPORT_INTERVAL", "OTEL_METRIC_EXPORT_TIMEOUT", "OTEL_EXPORTER_ZIPKIN_ENDPOINT"];
type Env = Vec<Option<String>>;
fn get<'a>(e: &'a Env, n: &str) -> Option<&'a String> { e[VARS.iter().position(|v| *v == n).unwrap()].as_ref() }
fn num<T: std::str::FromStr>(e: &Env, n: &str, d: T) -> T { get(e, n).and_then(|s| s.parse().ok()).unwrap_or(d) }
fn ms(e: &Env, n: &str, d: Duration) -> Duration { get(e, n).and_then(|s| s.parse().ok()).map(Duration::from_millis).unwrap_or(d) }
fn nz(d: Duration, or: Duration) -> Duration { if d.is_zero() { or } else { d } }
/// the text of a field in a Debug rendering
fn field<'a>(s: &'a str, f: &str) -> &'a str {
    let k = format!("{f}: ");
    let i = match s.find(&k) { Some(i) => i + k.len(), None => return "(no such field)" };
    let mut depth = 0i32;
    for (j, c) in s[i..].char_indices() {
        match c { '(' | '{' | '[' => depth += 1, ')' | '}' | ']' if depth > 0 => depth -= 1, ',' | '}' | ')' if depth == 0 => return s[i..i + j].trim(), _ => {} }
    }
    &s[i..]
}
fn value(r: &mut Rng, name: &str) -> Option<String> {
    if r.chance(1, 4) { return None; }
    Some(match name {
        "OTEL_TRACES_SAMPLER" => r.pick(&["always_on", "always_off", "traceidratio", "parentbased_always_on", "parentbased_always_off", "parentbased_traceidratio", "parentbased_jaeger_remote", "jaeger_remote", "xray", "", "ALWAYS_ON", "always_off ", "nonsense"]).to_string(),
        "OTEL_TRACES_SAMPLER_ARG" => r.pick(&["0.5", "0", "1", "1e-3", "", "x", "0.25 ", "-1", "7", "inf"]).to_string(),
        "OTEL_EXPORTER_ZIPKIN_ENDPOINT" => r.pick(&["http://a:1/b", "", "x"]).to_string(),
        _ => match r.below(8) { 0 => String::new(), 1 => r.pick(&["-1", " 5", "5 ", "1.5", "abc", "0x10", "18446744073709551616", "é"]).to_string(), 2 => "0".into(), 3 => "18446744073709551615".into(), 4 => "+7".into(), 5 => "4294967296".into(), _ => r.below(5000).to_string() },
    })
}
fn opt(r: &mut Rng) -> Option<u64> { if r.bool() { Some(if r.chance(1, 4) { 0 } else { r.below(6000) }) } else { None } }

pub fn c29(cx: &mut Ctx) {
    cx.rule = "every setting shown by the builders and configurations equals the one the statement gives for the environment and the builder calls".into();
    for _ in 0..cx.n(600) {
        let r = &mut cx.rng;
        let env: Env = VARS.iter().map(|v| value(r, v)).collect();
        let set: Vec<Option<u64>> = (0..16).map(|_| opt(r)).collect();
        let shown: Vec<(String, String)> = VARS.iter().zip(&env).filter_map(|(n, v)| v.as_ref().map(|v| (n.to_string(), v.clone()))).collect();
        cx.case(format!("{shown:?}, builder calls {set:?}"), true, || {
            for (n, v) in VARS.iter().zip(&env) { match v { Some(v) => std::env::set_var(n, v), None => std::env::remove_var(n) } }
            let mut bad = vec![];
            let mut eq = |what: &str, s: &str, f: &str, want: String| { let got = field(s, f); if got != want { bad.push(format!("{what} {f}: {got}, expected {want}")); } };
            // batch span processor
            use opentelemetry_sdk::trace::{BatchConfig as SC, BatchConfigBuilder as SB};
            let q = num(&env, "OTEL_BSP_MAX_QUEUE_SIZE", 2048usize);
            let b = num(&env, "OTEL_BSP_MAX_EXPORT_BATCH_SIZE", 512usize).min(q);
            let (d, t, c) = (ms(&env, "OTEL_BSP_SCHEDULE_DELAY", Duration::from_secs(5)), ms(&env, "OTEL_BSP_EXPORT_TIMEOUT", Duration::from_secs(30)), num(&env, "OTEL_BSP_MAX_CONCURRENT_EXPORTS", 1usize));
            let mut cfg = SB::default();
            if let Some(x) = set[0] { cfg = cfg.with_max_export_batch_size(x as usize); }
            if let Some(x) = set[1] { cfg = cfg.with_max_queue_size(x as usize); }
            if let Some(x) = set[2] { cfg = cfg.with_scheduled_delay(Duration::from_millis(x)); }
            if let Some(x) = set[3] { cfg = cfg.with_max_export_timeout(Duration::from_millis(x)); }
            if let Some(x) = set[4] { cfg = cfg.with_max_concurrent_exports(x as usize); }
            for (s, on) in [(format!("{:?}", SC::default()), false), (format!("{:?}", cfg.build()), true)] {
                let v = |i: usize| if on { set[i] } else { None };
                let q = v(1).map(|x| x as usize).unwrap_or(q);
                eq("span", &s, "max_queue_size", q.to_string());
                eq("span", &s, "max_export_batch_size", v(0).map(|x| x as usize).unwrap_or(b).min(q).to_string());
                eq("span", &s, "scheduled_delay", format!("{:?}", v(2).map(Duration::from_millis).unwrap_or(d)));
                eq("span", &s, "max_export_timeout", format!("{:?}", v(3).map(Duration::from_millis).unwrap_or(t)));
                eq("span", &s, "max_concurrent_exports", v(4).map(|x| x as usize).unwrap_or(c).to_string());
            }
            // batch log processor
            use opentelemetry_sdk::logs::{BatchConfig as LC, BatchConfigBuilder as LB};
            let q = num(&env, "OTEL_BLRP_MAX_QUEUE_SIZE", 2048usize);
            let b = num(&env, "OTEL_BLRP_MAX_EXPORT_BATCH_SIZE", 512usize);
            let (d, t) = (ms(&env, "OTEL_BLRP_SCHEDULE_DELAY", Duration::from_secs(1)), ms(&env, "OTEL_BLRP_EXPORT_TIMEOUT", Duration::from_secs(30)));
            let mut cfg = LB::default();
            if let Some(x) = set[0] { cfg = cfg.with_max_export_batch_size(x as usize); }
            if let Some(x) = set[1] { cfg = cfg.with_max_queue_size(x as usize); }
            if let Some(x) = set[2] { cfg = cfg.with_scheduled_delay(Duration::from_millis(x)); }
            if let Some(x) = set[3] { cfg = cfg.with_max_export_timeout(Duration::from_millis(x)); }
            for (s, on) in [(format!("{:?}", LC::default()), false), (format!("{:?}", cfg.build()), true)] {
                let v = |i: usize| if on { set[i] } else { None };
                let q = v(1).map(|x| x as usize).unwrap_or(q);
                eq("log", &s, "max_queue_size", q.to_string());
                eq("log", &s, "max_export_batch_size", v(0).map(|x| x as usize).unwrap_or(b).min(q).to_string());
                eq("log", &s, "scheduled_delay", format!("{:?}", v(2).map(Duration::from_millis).unwrap_or(d)));
                eq("log", &s, "max_export_timeout", format!("{:?}", v(3).map(Duration::from_millis).unwrap_or(t)));
            }
            // the readers
            let iv = Duration::from_secs(60);
            let iv = nz(ms(&env, "OTEL_METRIC_EXPORT_INTERVAL", iv), iv);
            let th = Duration::from_secs(30);
            let th = nz(ms(&env, "OTEL_METRIC_EXPORT_TIMEOUT", th), th);
            let (mut p, mut a) = (PeriodicReader::builder(Exp), asy::PeriodicReader::builder(Exp, Rt));
            if let Some(x) = set[5] { p = p.with_interval(Duration::from_millis(x)); a = a.with_interval(Duration::from_millis(x)); }
            if let Some(x) = set[6] { a = a.with_timeout(Duration::from_millis(x)); }
            eq("reader", &format!("{p:?}"), "interval", format!("{:?}", nz(Duration::from_millis(set[5].unwrap_or(0)), iv)));
            eq("async reader", &format!("{a:?}"), "interval", format!("{:?}", nz(Duration::from_millis(set[5].unwrap_or(0)), iv)));
            eq("async reader", &format!("{a:?}"), "timeout", format!("{:?}", nz(Duration::from_millis(set[6].unwrap_or(0)), th)));
            // the tracer provider
            let ratio = get(&env, "OTEL_TRACES_SAMPLER_ARG").and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
            let pb = |s: Sampler| Sampler::ParentBased(Box::new(s));
            let samp = match get(&env, "OTEL_TRACES_SAMPLER").map(|s| s.as_str()) {
                Some("always_on") => Sampler::AlwaysOn, Some("always_off") => Sampler::AlwaysOff, Some("traceidratio") => Sampler::TraceIdRatioBased(ratio),
                Some("parentbased_always_off") => pb(Sampler::AlwaysOff), Some("parentbased_traceidratio") => pb(Sampler::TraceIdRatioBased(ratio)), _ => pb(Sampler::AlwaysOn),
            };
            let mut lim = [num(&env, "OTEL_SPAN_ATTRIBUTE_COUNT_LIMIT", 128u32), num(&env, "OTEL_SPAN_EVENT_COUNT_LIMIT", 128u32), num(&env, "OTEL_SPAN_LINK_COUNT_LIMIT", 128u32), 128, 128];
            let names = ["max_attributes_per_span", "max_events_per_span", "max_links_per_span", "max_attributes_per_event", "max_attributes_per_link"];
            let mut tp = SdkTracerProvider::builder();
            let s = format!("{tp:?}");
            eq("provider", &s, "sampler", format!("{samp:?}"));
            for i in 0..5 { eq("provider", &s, names[i], lim[i].to_string()); }
            if let Some(x) = set[7] {
                let x = x as u32;
                let mut sl = SpanLimits::default();
                sl.max_attributes_per_span = x; sl.max_events_per_span = x + 1; sl.max_links_per_span = x + 2; sl.max_attributes_per_event = x + 3; sl.max_attributes_per_link = x + 4;
                tp = tp.with_span_limits(sl);
                lim = [x, x + 1, x + 2, x + 3, x + 4];
            }
            for i in 0..5 { if let Some(x) = set[8 + i] { let x = x as u32; lim[i] = x; tp = match i { 0 => tp.with_max_attributes_per_span(x), 1 => tp.with_max_events_per_span(x), 2 => tp.with_max_links_per_span(x), 3 => tp.with_max_attributes_per_event(x), _ => tp.with_max_attributes_per_link(x) }; } }
            let samp = if set[13].is_some() { tp = tp.with_sampler(Sampler::TraceIdRatioBased(0.125)); Sampler::TraceIdRatioBased(0.125) } else { samp };
            let built = tp.build();
            let s = format!("{built:?}");
            eq("built provider", &s, "sampler", format!("{samp:?}"));
            for i in 0..5 { eq("built provider", &s, names[i], lim[i].to_string()); }
            // Zipkin
            let z = format!("{:?}", opentelemetry_zipkin::ZipkinExporter::builder());
            let want = get(&env, "OTEL_EXPORTER_ZIPKIN_ENDPOINT").filter(|s| !s.is_empty()).cloned().unwrap_or("http://127.0.0.1:9411/api/v2/spans".into());
            eq("zipkin", &z, "collector_endpoint", format!("{want:?}"));
            if bad.is_empty() { Ok(()) } else { Err(bad.join("; ")) }
        });
    }
    for v in VARS { std::env::remove_var(v); }
}

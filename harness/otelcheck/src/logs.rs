use crate::common::Ctx;
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, LoggerProvider as _, Severity};
use opentelemetry::trace::{SpanContext, SpanId, TraceContextExt, TraceFlags, TraceId, TraceState};
use opentelemetry::{Context, InstrumentationScope, Key, KeyValue};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::logs::{LogProcessor, SdkLogRecord, SdkLoggerProvider};
use std::sync::{Arc, Mutex};
use std::time::{Duration, SystemTime};

#[derive(Debug, Clone, Default)]
pub struct LCap { pub got: Arc<Mutex<Vec<(SdkLogRecord, InstrumentationScope)>>>, pub order: Arc<Mutex<Vec<usize>>>, pub id: usize, pub add: bool, pub enabled: Option<Severity> }
impl LogProcessor for LCap {
    fn emit(&self, r: &mut SdkLogRecord, s: &InstrumentationScope) {
        self.order.lock().unwrap().push(self.id);
        if self.add { r.add_attribute(format!("by{}", self.id), self.id as i64); r.set_body(AnyValue::Int(self.id as i64)); }
        self.got.lock().unwrap().push((r.clone(), s.clone()));
    }
    fn force_flush(&self) -> OTelSdkResult { Ok(()) }
    fn shutdown(&self) -> OTelSdkResult { Ok(()) }
    fn event_enabled(&self, level: Severity, _t: &str, _n: Option<&str>) -> bool { self.enabled.map(|e| level >= e).unwrap_or(true) }
}
impl LCap { pub fn count(&self) -> usize { self.got.lock().unwrap().len() } }
fn ts(n: u64) -> SystemTime { SystemTime::UNIX_EPOCH + Duration::from_micros(1_700_000_000_000_000 + n) }
const SEV: [Severity; 5] = [Severity::Trace, Severity::Debug2, Severity::Info, Severity::Warn4, Severity::Fatal4];

/// C09
pub fn c09(c: &mut Ctx) {
    c.rule = "a record built by a random sequence of setters and attribute additions (0..14 attributes, so both sides of the inline capacity), emitted under a random context through 0-4 processors, some of which modify it; non-trivial: attributes spill past the inline capacity, or a context/timestamp is stamped".into();
    for i in 0..c.n(12000) {
        let r = &mut c.rng;
        let np = r.usize(5);
        let adders: Vec<bool> = (0..np).map(|_| r.chance(1, 3)).collect();
        let ops: Vec<(u64, u64)> = (0..r.usize(22)).map(|_| (r.below(14), r.below(50))).collect();
        let cxk = r.below(4);
        let flags = r.below(3) as u8;
        let en = r.below(6);
        let d = format!("#{i}: processors (modifying) {adders:?}, setters {ops:?}, context {cxk} flags {flags}, level filter {en}");
        let nattr = ops.iter().filter(|o| o.0 >= 8).count();
        c.case(d, nattr > 5 || cxk > 0, move || {
            let order = Arc::new(Mutex::new(vec![]));
            let caps: Vec<LCap> = (0..np).map(|id| LCap { id, order: order.clone(), add: adders[id], enabled: if en < 5 && id % 2 == 0 { Some(SEV[en as usize]) } else if en < 5 { Some(Severity::Fatal4) } else { None }, ..Default::default() }).collect();
            let mut b = SdkLoggerProvider::builder();
            for k in &caps { b = b.with_log_processor(k.clone()); }
            let lp = b.build();
            let scope = InstrumentationScope::builder("lib").with_version("2").with_attributes([KeyValue::new("a", 1)]).build();
            let lg = lp.logger_with_scope(scope.clone());
            let mut rec = lg.create_log_record();
            let (mut name, mut target, mut t, mut ot, mut st, mut sn, mut body, mut tc) = (None, None, None, None, None, None, None, None);
            let mut attrs: Vec<(Key, AnyValue)> = vec![];
            let names = ["a", "b", "c"];
            for (n, (o, v)) in ops.iter().enumerate() {
                match o {
                    0 => { name = Some(names[*v as usize % 3]); rec.set_event_name(name.unwrap()); }
                    1 => { target = Some(format!("t{v}")); rec.set_target(format!("t{v}")); }
                    2 => { t = Some(ts(*v)); rec.set_timestamp(ts(*v)); }
                    3 => { ot = Some(ts(*v + 1000)); rec.set_observed_timestamp(ts(*v + 1000)); }
                    4 => { st = Some(names[*v as usize % 3]); rec.set_severity_text(st.unwrap()); }
                    5 => { sn = Some(SEV[*v as usize % 5]); rec.set_severity_number(sn.unwrap()); }
                    6 => { body = Some(AnyValue::String(format!("b{v}").into())); rec.set_body(body.clone().unwrap()); }
                    7 => { if v % 3 == 0 { let f = (v % 2 == 0).then(|| TraceFlags::SAMPLED); tc = Some((TraceId::from(*v as u128), SpanId::from(*v), f)); rec.set_trace_context(TraceId::from(*v as u128), SpanId::from(*v), f); } }
                    13 => { let k = *v as usize % 8; let vs: Vec<(String, i64)> = (0..k).map(|q| (format!("m{n}-{q}"), q as i64)).collect(); for (a, b) in &vs { attrs.push((Key::from(a.clone()), AnyValue::Int(*b))); } rec.add_attributes(vs); }
                    _ => { attrs.push((Key::from(format!("k{}", v % 5)), AnyValue::Int(n as i64))); rec.add_attribute(format!("k{}", v % 5), n as i64); }
                }
            }
            let sc = SpanContext::new(TraceId::from(0x77u128), SpanId::from(0x88u64), TraceFlags::new(flags), cxk == 2, TraceState::NONE);
            let cx = match cxk { 0 => Context::new(), 3 => Context::new().with_value(7u8), _ => Context::new().with_remote_span_context(sc.clone()) };
            let g = cx.attach();
            for (k, s) in SEV.iter().enumerate() {
                let want = caps.iter().any(|p| p.event_enabled(SEV[k], "", None));
                if lg.event_enabled(*s, "t", Some("n")) != want { return Err(format!("event_enabled({s:?}) = {} but {} processor wants it", !want, if want { "a" } else { "no" })); }
            }
            let before = SystemTime::now();
            lg.emit(rec);
            let after = SystemTime::now();
            drop(g);
            if *order.lock().unwrap() != (0..np).collect::<Vec<_>>() { return Err(format!("processors saw the record in order {:?}", order.lock().unwrap())); }
            for (id, cp) in caps.iter().enumerate() {
                if adders[id] { attrs.push((Key::from(format!("by{id}")), AnyValue::Int(id as i64))); body = Some(AnyValue::Int(id as i64)); }
                let (r, s) = cp.got.lock().unwrap()[0].clone();
                if s != scope { return Err(format!("processor {id}: scope {s:?}")); }
                if r.event_name() != name { return Err(format!("processor {id}: event name {:?} want {name:?}", r.event_name())); }
                if r.target().map(|x| x.to_string()) != target { return Err(format!("processor {id}: target {:?} want {target:?}", r.target())); }
                if r.timestamp() != t { return Err(format!("processor {id}: timestamp {:?} want {t:?}", r.timestamp())); }
                match ot { Some(o) => if r.observed_timestamp() != Some(o) { return Err(format!("processor {id}: observed timestamp {:?} want {o:?}", r.observed_timestamp())); },
                    None => match r.observed_timestamp() { Some(o) if o >= before && o <= after => {}, o => return Err(format!("processor {id}: observed timestamp {o:?} not stamped at emit")) } }
                if r.severity_text() != st || r.severity_number() != sn { return Err(format!("processor {id}: severity {:?} {:?} want {st:?} {sn:?}", r.severity_text(), r.severity_number())); }
                if r.body() != body.as_ref() { return Err(format!("processor {id}: body {:?} want {body:?}", r.body())); }
                let want_tc = tc.or_else(|| (cxk == 1 || cxk == 2).then(|| (sc.trace_id(), sc.span_id(), Some(sc.trace_flags()))));
                if r.trace_context().map(|t| (t.trace_id, t.span_id, t.trace_flags)) != want_tc { return Err(format!("processor {id}: trace context {:?} want {want_tc:?}", r.trace_context())); }
                let got: Vec<_> = r.attributes_iter().cloned().collect();
                if got != attrs { return Err(format!("processor {id}: attributes {got:?} want {attrs:?}")); }
                let v: Vec<_> = r.attributes_iter().map(|x| x.0.clone()).collect();
                if v.len() != attrs.len() { return Err("attribute count".into()); }
            }
            Ok(())
        });
    }
}

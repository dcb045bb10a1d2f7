// C12 B3 and Jaeger headers.
use crate::common::{Ctx, Rng};
use opentelemetry::propagation::TextMapPropagator;
use opentelemetry::trace::{SpanContext, SpanId, TraceContextExt, TraceFlags, TraceId, TraceState};
use opentelemetry::Context;
use opentelemetry_zipkin::{B3Encoding, Propagator as B3};
use opentelemetry_jaeger_propagator::Propagator as Jaeger;
use std::collections::{BTreeMap, HashMap};

fn tid(r: &mut Rng) -> u128 { match r.below(7) { 0 => 0, 1 => 1, 2 => u128::MAX, 3 => r.next() as u128, 4 => 1u128 << r.below(128), _ => (r.next() as u128) << 64 | r.next() as u128 } }
fn sid(r: &mut Rng) -> u64 { match r.below(7) { 0 => 0, 1 => 1, 2 => u64::MAX, 3 => 1u64 << r.below(64), _ => r.next() } }
fn sc(t: u128, s: u64, f: u8) -> SpanContext { SpanContext::new(TraceId::from(t), SpanId::from(s), TraceFlags::new(f), true, TraceState::default()) }
fn low(s: &str) -> bool { !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b)) }
fn b3_tid(s: &str) -> Option<u128> { if (s.len() == 16 || s.len() == 32) && low(s) { u128::from_str_radix(s, 16).ok() } else { None } }
fn b3_sid(s: &str) -> Option<u64> { if s.len() == 16 && low(s) { u64::from_str_radix(s, 16).ok() } else { None } }
fn enc(i: u8) -> B3Encoding { match i { 0 => B3Encoding::UnSpecified, 1 => B3Encoding::MultipleHeader, 2 => B3Encoding::SingleHeader, _ => B3Encoding::SingleAndMultiHeader } }
fn decision(s: &str, single: bool) -> Option<u8> {
    match s { "0" | "false" => Some(0), "1" => Some(1), "true" if !single => Some(1), "d" if single => Some(4), _ => None }
}
fn garble(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..r.usize(3) {
        if v.is_empty() { break; }
        let i = r.usize(v.len());
        let ch = *r.pick(&['0', '-', ':', 'f', 'A', '+', ' ', 'g', '9', '\u{e9}', 'd']);
        match r.below(4) { 0 => { v.remove(i); } 1 => v.insert(i, ch), 2 => v[i] = ch, _ => v.truncate(i) }
    }
    v.into_iter().collect()
}
fn rid(r: &mut Rng, w: usize) -> String {
    let n = tid(r) & if w == 16 { u64::MAX as u128 } else { u128::MAX };
    let s = match r.below(8) { 0 => format!("{n:x}"), 1 => format!("{:0w$X}", n), 2 => format!("+{:0w2$x}", n >> 4, w2 = w - 1), _ => format!("{n:0w$x}") };
    if r.chance(1, 6) { garble(r, &s) } else { s }
}
fn sane(x: &Context, base: u32) -> Result<(), String> { if x.get::<u32>() == Some(&base) { Ok(()) } else { Err("extraction lost the base context".into()) } }

pub fn c12(c: &mut Ctx) {
    c.rule = "distinct span contexts, header sets or encodings".into();
    for i in 0..c.n(2500) {
        let (t, s, f) = (tid(&mut c.rng), sid(&mut c.rng), (i % 256) as u8);
        for e in 0..4u8 {
            c.case(format!("B3 encoding {e} inject {t:032x} {s:016x} flags {f:#x}"), t != 0 && s != 0, || {
                let p = B3::with_encoding(enc(e));
                let mut h: HashMap<String, String> = HashMap::new();
                p.inject_context(&Context::new().with_remote_span_context(sc(t, s, f)), &mut h);
                let h: BTreeMap<_, _> = h.into_iter().collect();
                let (debug, sampled) = (f & 4 != 0, f & 1 != 0);
                let deferred = f & 2 != 0 && !debug && !sampled;
                let bit = if sampled { "1" } else { "0" };
                let mut want = BTreeMap::new();
                if t != 0 && s != 0 {
                    if e & 2 != 0 { want.insert("b3".to_string(), format!("{t:032x}-{s:016x}{}", if deferred { String::new() } else { format!("-{}", if debug { "d" } else { bit }) })); }
                    if e != 2 {
                        want.insert("x-b3-traceid".into(), format!("{t:032x}")); want.insert("x-b3-spanid".into(), format!("{s:016x}"));
                        if debug { want.insert("x-b3-flags".into(), "1".into()); } else if !deferred { want.insert("x-b3-sampled".into(), bit.into()); }
                    }
                } else {
                    if e & 2 != 0 { want.insert("b3".into(), bit.into()); }
                    if e != 2 { want.insert("x-b3-sampled".into(), bit.into()); }
                }
                if h != want { return Err(format!("injected {h:?}, expected {want:?}")); }
                if let Some(k) = h.keys().find(|k| !p.fields().any(|x| x == k.as_str())) { return Err(format!("{k} is injected but not listed in fields()")); }
                // what it injects it reads back: same ids, same decision
                let m: HashMap<String, String> = h.into_iter().collect();
                let out = p.extract_with_context(&Context::new().with_value(9u32), &m);
                sane(&out, 9)?;
                let span = out.span(); let got = span.span_context();
                if t == 0 || s == 0 { return if out.has_active_span() { Err("a span context out of nothing".into()) } else { Ok(()) }; }
                if got.trace_id() != TraceId::from(t) || got.span_id() != SpanId::from(s) || !got.is_remote() { return Err(format!("read back {got:?}")); }
                let g = got.trace_flags().to_u8();
                if (g & 4 != 0) != debug || (g & 2 != 0) != deferred || (!debug && (g & 1 != 0) != sampled) { return Err(format!("read back flags {g:#x}")); }
                Ok(())
            });
        }
        c.case(format!("Jaeger inject {t:032x} {s:016x} flags {f:#x}"), t != 0 && s != 0, || {
            let p = Jaeger::new();
            let mut h: HashMap<String, String> = HashMap::new();
            p.inject_context(&Context::new().with_remote_span_context(sc(t, s, f)), &mut h);
            let out = p.extract_with_context(&Context::new().with_value(9u32), &h);
            sane(&out, 9)?;
            if t == 0 || s == 0 { return if !h.is_empty() || out.has_active_span() { Err("an invalid span context was propagated".into()) } else { Ok(()) }; }
            let want = format!("{t:032x}:{s:016x}:0:{}", if f & 1 == 0 { 0 } else if f & 4 != 0 { 3 } else { 1 });
            if h.len() != 1 || h.get("uber-trace-id") != Some(&want) { return Err(format!("injected {h:?}, expected {want}")); }
            let w = sc(t, s, if f & 1 == 1 { f & 5 } else { 0 });
            if out.span().span_context() != &w { return Err(format!("read back {:?}", out.span().span_context())); }
            Ok(())
        });
    }
    // what is read
    for _ in 0..c.n(6000) {
        let e = c.rng.below(4) as u8;
        let mut h: HashMap<String, String> = HashMap::new();
        if c.rng.chance(2, 3) {
            let mut v = vec![{ let w = *c.rng.pick(&[16, 32]); rid(&mut c.rng, w) }, rid(&mut c.rng, 16)];
            if c.rng.chance(3, 4) { v.push(c.rng.pick(&["0", "1", "d", "true", "false", "", "01", "2"]).to_string()); }
            if c.rng.chance(1, 3) { v.push(rid(&mut c.rng, 16)); }
            let t = v.join("-");
            h.insert("b3".into(), if c.rng.chance(1, 8) { garble(&mut c.rng, &t) } else { t });
        }
        if c.rng.chance(2, 3) {
            if c.rng.chance(9, 10) { let w = *c.rng.pick(&[16, 32]); h.insert("x-b3-traceid".into(), rid(&mut c.rng, w)); }
            if c.rng.chance(9, 10) { h.insert("x-b3-spanid".into(), rid(&mut c.rng, 16)); }
            if c.rng.chance(1, 4) { h.insert("x-b3-parentspanid".into(), rid(&mut c.rng, 16)); }
            if c.rng.chance(2, 3) { h.insert("x-b3-sampled".into(), c.rng.pick(&["0", "1", "d", "true", "false", "", "2"]).to_string()); }
            if c.rng.chance(1, 3) { h.insert("x-b3-flags".into(), c.rng.pick(&["0", "1", "", "2"]).to_string()); }
        }
        let show: BTreeMap<_, _> = h.iter().collect();
        c.case(format!("B3 encoding {e} extract {show:?}"), true, || {
            let single = e & 2 != 0;
            let g = |k: &str| h.get(k).map(|s| s.as_str()).unwrap_or("");
            let one = || -> Option<(u128, u64, u8)> {
                let mut p: Vec<&str> = g("b3").split('-').collect();
                if p.last() == Some(&"") { p.pop(); }
                if p.len() < 2 || p.len() > 4 { return None; }
                let f = if p.len() > 2 { decision(p[2], single)? } else { 2 };
                if p.len() == 4 { b3_sid(p[3])?; }
                Some((b3_tid(p[0])?, b3_sid(p[1])?, f))
            };
            let many = || -> Option<(u128, u64, u8)> {
                let f = if g("x-b3-flags") == "1" { 5 } else { match h.get("x-b3-sampled") { Some(s) => decision(s, single)?, None => 2 } };
                Some((b3_tid(g("x-b3-traceid"))?, b3_sid(g("x-b3-spanid"))?, f))
            };
            let ok = |x: &(u128, u64, u8)| x.0 != 0 && x.1 != 0;
            let want = one().filter(ok).or_else(|| many().filter(ok));
            let out = B3::with_encoding(enc(e)).extract_with_context(&Context::new().with_value(9u32), &h);
            sane(&out, 9)?;
            match want {
                None => if out.has_active_span() { Err(format!("ill-formed headers were accepted: {:?}", out.span().span_context())) } else { Ok(()) },
                Some((t, s, f)) => if out.span().span_context() == &sc(t, s, f) { Ok(()) } else { Err(format!("extracted {:?}, expected flags {f}", out.span().span_context())) },
            }
        });
    }
    c.case("B3 single header debug decision implies sampled".into(), true, || {
        let h: HashMap<String, String> = [("b3".to_string(), "4bf92f3577b34da6a3ce929d0e0e4736-00f067aa0ba902b7-d".to_string())].into();
        let out = B3::with_encoding(B3Encoding::SingleHeader).extract(&h);
        if out.span().span_context().is_sampled() { Ok(()) } else { Err("the debug decision of a single header is not read as sampled".into()) }
    });
    for _ in 0..c.n(4000) {
        let mut v = vec![{ let w = *c.rng.pick(&[16, 32]); rid(&mut c.rng, w) }, rid(&mut c.rng, 16), c.rng.pick(&["0", "", "ffff"]).to_string(), c.rng.pick(&["0", "1", "2", "3", "4", "5", "7", "01", "", "x", "120", "-1"]).to_string()];
        if c.rng.chance(1, 12) { v.push("1".into()); }
        if c.rng.chance(1, 12) { v.pop(); }
        let esc = c.rng.chance(1, 5);
        let t = v.join(if esc { "%3A" } else { ":" });
        let t = if c.rng.chance(1, 8) { garble(&mut c.rng, &t) } else { t };
        let st = c.rng.chance(1, 3);
        c.case(format!("Jaeger extract {t:?} state {st}"), true, || {
            let mut h: HashMap<String, String> = [("uber-trace-id".to_string(), t.clone())].into();
            if st { h.insert("uberctx-a".into(), "1".into()); h.insert("other".into(), "2".into()); }
            let x = if t.contains(':') { t.clone() } else { t.replace("%3A", ":") };
            let mut p: Vec<&str> = x.split(':').collect();
            if p.last() == Some(&"") { p.pop(); }
            let hex = |s: &str, w: usize| (s.is_empty() || s.bytes().all(|b| b.is_ascii_hexdigit())) && s.len() <= w;
            let want = if p.len() == 4 && !p[0].is_empty() && hex(p[0], 32) && hex(p[1], 16) && p[3].len() <= 2 {
                let f: Option<u8> = p[3].parse().ok();
                f.map(|f| (u128::from_str_radix(p[0], 16).unwrap(), u64::from_str_radix(&format!("0{}", p[1]), 16).unwrap(), match f & 3 { 1 => 1, 3 => 5, _ => 0 })).filter(|x| x.0 != 0 && x.1 != 0)
            } else { None };
            let out = Jaeger::new().extract_with_context(&Context::new().with_value(9u32), &h);
            sane(&out, 9)?;
            match want {
                None => if out.has_active_span() { Err(format!("an ill-formed header was accepted: {:?}", out.span().span_context())) } else { Ok(()) },
                Some((t, s, f)) => {
                    let ts = if st { TraceState::from_key_value([("uberctx-a", "1")]).unwrap() } else { TraceState::default() };
                    let w = SpanContext::new(TraceId::from(t), SpanId::from(s), TraceFlags::new(f), true, ts);
                    if out.span().span_context() == &w { Ok(()) } else { Err(format!("extracted {:?}, expected {w:?}", out.span().span_context())) }
                }
            }
        });
    }
    for name in ["x-trace", " x-trace ", "", "  "] {
        c.case(format!("Jaeger header name {name:?}"), true, || {
            let p = Jaeger::with_custom_header(name);
            let mut h: HashMap<String, String> = HashMap::new();
            p.inject_context(&Context::new().with_remote_span_context(sc(5, 6, 1)), &mut h);
            let f: Vec<&str> = p.fields().collect();
            let k: Vec<&str> = h.keys().map(|s| s.as_str()).collect();
            let want = if name.trim().is_empty() { "uber-trace-id" } else { name.trim() };
            if f != k || k != vec![want] { return Err(format!("fields {f:?}, injected {k:?}")); }
            if p.extract(&h).span().span_context() != &sc(5, 6, 1) { return Err("it does not read its own header".into()); }
            Ok(())
        });
    }
}

// C10 trace state list, C11 traceparent.
use crate::common::Ctx;
use opentelemetry::propagation::TextMapPropagator;
use opentelemetry::trace::{SpanContext, SpanId, TraceContextExt, TraceFlags, TraceId, TraceState};
use opentelemetry::Context;
use opentelemetry_sdk::propagation::TraceContextPropagator;
use std::collections::HashMap;
use std::str::FromStr;

fn lcd(b: u8) -> bool { b.is_ascii_lowercase() || b.is_ascii_digit() }
fn key_sane(k: &str) -> bool {
    !k.is_empty() && k.len() <= 256 && lcd(k.as_bytes()[0]) && k.bytes().all(|b| lcd(b) || b"_-*/@".contains(&b))
}
fn key_good(k: &str) -> bool {
    if !key_sane(k) { return false; }
    match k.find('@') {
        None => true,
        Some(i) => i + 1 < k.len() && k.len() - i <= 15 && lcd(k.as_bytes()[i + 1]) && k.matches('@').count() == 1,
    }
}
fn value_ok(v: &str) -> bool { v.len() <= 256 && v.bytes().all(|b| (0x20..=0x7e).contains(&b) && b != b',' && b != b'=') && !v.ends_with(' ') }

fn rkey(c: &mut Ctx) -> String {
    match c.rng.below(12) {
        0 => c.rng.pick(&["", "@", "a@", "a@b", "@b", "A", "a b", "a\u{e9}", "a@b@c", "a@-b", "-a", "_a", "a=b", "a,b", "0", "a/b*c_d-e"]).to_string(),
        1 => format!("t{}@{}", "x".repeat(c.rng.usize(4)), "s".repeat(c.rng.usize(17))),
        2 => "k".repeat(250 + c.rng.usize(10)),
        3 => (0..c.rng.usize(6)).map(|_| *c.rng.pick(&['a', '7', '@', '_', '-', '*', '/', 'Z', '.', ' ', '\u{4e2d}'])).collect(),
        _ => c.rng.pick(&["a", "b", "c", "foo", "t@sys", "x1"]).to_string(),
    }
}
fn rvalue(c: &mut Ctx) -> String {
    match c.rng.below(10) {
        0 => c.rng.pick(&["", " ", " a", "a ", "a,b", "a=b", "=", "a\tb", "a\u{e9}", "~!", "\n", ";:%\"\\"]).to_string(),
        1 => "v".repeat(250 + c.rng.usize(10)),
        2 => (0..c.rng.usize(6)).map(|_| *c.rng.pick(&['a', '7', '@', '_', '=', ',', ' ', 'Z', '.', '\u{7f}', '\u{1f}'])).collect(),
        _ => format!("v{}", c.rng.below(5)),
    }
}
fn entries(ts: &TraceState, keys: &[String]) -> Vec<(String, Option<String>)> { keys.iter().map(|k| (k.clone(), ts.get(k).map(|v| v.to_string()))).collect() }
fn shows(ts: &TraceState, model: &[(String, String)], what: &str) -> Result<(), String> {
    let h: Vec<String> = model.iter().map(|(k, v)| format!("{k}={v}")).collect();
    if ts.header() != h.join(",") { return Err(format!("{what}: header {:?}, expected {:?}", ts.header(), h.join(","))); }
    if ts.header_delimited(":", "; ") != model.iter().map(|(k, v)| format!("{k}:{v}")).collect::<Vec<_>>().join("; ") { return Err(format!("{what}: header_delimited wrong")); }
    for (k, _) in model {
        let want = model.iter().find(|e| &e.0 == k).map(|e| e.1.as_str());
        if ts.get(k) != want { return Err(format!("{what}: get({k:?}) = {:?}, expected {want:?}", ts.get(k))); }
    }
    if ts.get("nope-not-there").is_some() { return Err(format!("{what}: a key never added has a value")); }
    let back = TraceState::from_str(&ts.header()).map_err(|e| format!("{what}: own header refused: {e}"))?;
    if back.header() != ts.header() { return Err(format!("{what}: header reads back as {:?}", back.header())); }
    for (k, v) in model { if model.iter().find(|e| &e.0 == k).map(|e| &e.1) == Some(v) && back.get(k) != Some(v.as_str()) { return Err(format!("{what}: {k:?} reads back as {:?}", back.get(k))); } }
    Ok(())
}

pub fn c10(c: &mut Ctx) {
    c.rule = "distinct operation histories or header texts".into();
    // the grammar, one key or value at a time
    for _ in 0..c.n(3000) {
        let (k, v) = (rkey(c), rvalue(c));
        c.case(format!("insert({k:?}, {v:?})"), true, || {
            let r = TraceState::NONE.insert(k.clone(), v.clone());
            if r.is_ok() && !key_sane(&k) { return Err("a key the grammar forbids is accepted".into()); }
            if r.is_ok() && !value_ok(&v) { return Err("a value the grammar forbids is accepted".into()); }
            if r.is_err() && key_good(&k) && value_ok(&v) { return Err(format!("a valid member is refused: {:?}", r.err())); }
            let f = TraceState::from_key_value(vec![(k.clone(), v.clone())]);
            if f.is_ok() != r.is_ok() { return Err("from_key_value and insert disagree".into()); }
            if TraceState::NONE.delete(k.clone()).is_ok() != TraceState::NONE.insert(k.clone(), "v").is_ok() { return Err("delete and insert disagree on the key".into()); }
            if let Ok(ts) = r { shows(&ts, &[(k.clone(), v.clone())], "one member")?; }
            Ok(())
        });
    }
    // histories
    for _ in 0..c.n(2500) {
        let mut desc = String::new();
        let n0 = c.rng.usize(6);
        let init: Vec<(String, String)> = (0..n0).map(|_| (rkey(c), rvalue(c))).filter(|(k, v)| key_good(k) && value_ok(v)).collect();
        desc.push_str(&format!("from_key_value({init:?})"));
        let ops: Vec<(bool, String, String)> = (0..1 + c.rng.usize(6)).map(|_| {
            let k = if !init.is_empty() && c.rng.bool() { c.rng.pick(&init).0.clone() } else { rkey(c) };
            (c.rng.chance(2, 3), k, rvalue(c))
        }).collect();
        desc.push_str(&format!(" then {ops:?}"));
        c.case(desc, true, || {
            let mut ts = TraceState::from_key_value(init.clone()).map_err(|e| format!("valid members refused: {e}"))?;
            let mut m = init.clone();
            shows(&ts, &m, "initial")?;
            for (ins, k, v) in &ops {
                let before = ts.header();
                let keys: Vec<String> = m.iter().map(|e| e.0.clone()).collect();
                let snap = entries(&ts, &keys);
                if *ins {
                    if let Ok(n) = ts.insert(k.clone(), v.clone()) {
                        if ts.header() != before || entries(&ts, &keys) != snap { return Err("insert changed its source".into()); }
                        m.retain(|e| &e.0 != k); m.insert(0, (k.clone(), v.clone()));
                        ts = n;
                        shows(&ts, &m, &format!("after insert({k:?}, {v:?})"))?;
                    }
                } else if let Ok(n) = ts.delete(k.clone()) {
                    if ts.header() != before { return Err("delete changed its source".into()); }
                    m.retain(|e| &e.0 != k);
                    ts = n;
                    shows(&ts, &m, &format!("after delete({k:?})"))?;
                    if ts.get(k).is_some() { return Err(format!("{k:?} still there after its deletion")); }
                }
            }
            Ok(())
        });
    }
    // header texts
    for _ in 0..c.n(3000) {
        let parts: Vec<String> = (0..c.rng.usize(6)).map(|_| match c.rng.below(6) {
            0 => c.rng.pick(&["", " ", "\t", "x", "a==b", "=v", "a=b=c", "a = b", " a=1", "a=1 ", "\ta=1\t "]).to_string(),
            _ => { let (k, v) = (rkey(c), rvalue(c)); format!("{}{k}={v}{}", c.rng.pick(&["", " ", "\t"]), c.rng.pick(&["", " "])) }
        }).collect();
        let h = parts.join(",");
        c.case(format!("from_str({h:?})"), true, || {
            let mut want = vec![]; let mut sane = true; let mut good = true;
            for p in h.split(',') {
                let p = p.trim_matches([' ', '\t']);
                if p.is_empty() { continue; }
                match p.split_once('=') { None => { sane = false; good = false; } Some((k, v)) => { sane &= key_sane(k) && value_ok(v); good &= key_good(k) && value_ok(v); want.push((k.to_string(), v.to_string())); } }
            }
            match TraceState::from_str(&h) {
                Ok(ts) => { if !sane { return Err(format!("an ill-formed header is accepted as {:?}", ts.header())); } shows(&ts, &want, "parsed") }
                Err(e) => if good { Err(format!("a well-formed header is refused: {e}")) } else { Ok(()) },
            }
        });
    }
}

fn rstate(c: &mut Ctx) -> TraceState {
    let n = c.rng.usize(4);
    let l: Vec<(String, String)> = (0..n).map(|i| (format!("k{i}"), c.rng.pick(&["1", "", " x", "y-z;", "%20"]).to_string())).collect();
    TraceState::from_key_value(l).unwrap()
}

pub fn c11(c: &mut Ctx) {
    c.rule = "distinct span contexts or header texts".into();
    let p = TraceContextPropagator::new();
    for i in 0..c.n(3000) {
        let t = match c.rng.below(6) { 0 => 0, 1 => 1, 2 => u128::MAX, 3 => c.rng.next() as u128, 4 => 1u128 << c.rng.below(128), _ => (c.rng.next() as u128) << 64 | c.rng.next() as u128 };
        let s = match c.rng.below(6) { 0 => 0, 1 => 1, 2 => u64::MAX, 3 => 1u64 << c.rng.below(64), _ => c.rng.next() };
        let f = (i % 256) as u8;
        let remote = c.rng.bool();
        let st = rstate(c);
        let sc = SpanContext::new(TraceId::from(t), SpanId::from(s), TraceFlags::new(f), remote, st.clone());
        let used = c.rng.chance(1, 3);
        c.case(format!("inject{} and extract {sc:?}", if used { " into a used carrier" } else { "" }), t != 0 && s != 0, || {
            let cx = Context::new().with_value(7u64).with_remote_span_context(sc.clone());
            let mut h: HashMap<String, String> = HashMap::new();
            // a carrier that still holds what an earlier hop put there
            if used { h.insert("tracestate".into(), "old=1".into()); if t != 0 && s != 0 { h.insert("traceparent".into(), "00-4bf92f3577b34da6a3ce929d0e0e4736-00f067aa0ba902b7-01".into()); } }
            p.inject_context(&cx, &mut h);
            let base = Context::new().with_value(9u32);
            let out = p.extract_with_context(&base, &h);
            if t == 0 || s == 0 {
                if h.len() != used as usize { return Err(format!("an invalid context was injected: {h:?}")); }
                if out.span().span_context().is_valid() { return Err("a span context out of nothing".into()); }
                return Ok(());
            }
            let want = format!("00-{t:032x}-{s:016x}-{:02x}", f & 1);
            if h.get("traceparent") != Some(&want) { return Err(format!("traceparent {:?}, expected {want:?}", h.get("traceparent"))); }
            let span = out.span(); let got = span.span_context();
            if got != &SpanContext::new(TraceId::from(t), SpanId::from(s), TraceFlags::new(f & 1), true, st.clone()) { return Err(format!("extracted {got:?}")); }
            if out.get::<u32>() != Some(&9) { return Err("extraction lost the base context".into()); }
            Ok(())
        });
    }
    let good = ["00-4bf92f3577b34da6a3ce929d0e0e4736-00f067aa0ba902b7-01", "02-00000000000000000000000000000001-0000000000000001-ff-zz", "fe-4bf92f3577b34da6a3ce929d0e0e4736-00f067aa0ba902b7-00"];
    for _ in 0..c.n(6000) {
        let mut s: Vec<char> = if c.rng.chance(1, 8) { (0..c.rng.usize(60)).map(|_| *c.rng.pick(&['0', '-', 'f', 'A', ' ', '+'])).collect() } else { c.rng.pick(&good).chars().collect() };
        for _ in 0..c.rng.usize(3) {
            if s.is_empty() { break; }
            let i = c.rng.usize(s.len());
            let ch = *c.rng.pick(&['0', '-', 'f', 'A', '+', ' ', 'g', '9', '\u{e9}', '\t']);
            match c.rng.below(4) { 0 => { s.remove(i); } 1 => s.insert(i, ch), 2 => s[i] = ch, _ => s.truncate(i) }
        }
        if c.rng.chance(1, 10) { let k = c.rng.usize(4); let mut f: Vec<String> = s.iter().collect::<String>().split('-').map(|x| x.to_string()).collect(); if k < f.len() { f[k] = c.rng.pick(&["00", "ff", "03", "04", "+1", "0000000000000000", "00000000000000000000000000000000", "0f", "2"]).to_string(); s = f.join("-").chars().collect(); } }
        let mut h: String = s.into_iter().collect();
        if c.rng.chance(1, 12) { h = c.rng.pick(&good).to_string(); if c.rng.bool() { h.replace_range(0..2, "00"); } h.push_str(c.rng.pick(&["-", "-0", "-01", "--", "-a-b", "-00-", " ", "-zz-"])); }
        let ts = c.rng.pick(&[None, Some("a=1,b=2"), Some("bad"), Some(""), Some("a=1,,b=2"), Some(" a=1 ,\tb=2,"), Some(",")]).map(|x| x.to_string());
        c.case(format!("extract traceparent {h:?} tracestate {ts:?}"), true, || {
            let mut m: HashMap<String, String> = HashMap::new();
            m.insert("traceparent".into(), h.clone());
            if let Some(t) = &ts { m.insert("tracestate".into(), t.clone()); }
            let base = Context::new().with_value(9u32);
            let out = p.extract_with_context(&base, &m);
            let mut f: Vec<&str> = h.trim().split('-').collect();
            if f.last() == Some(&"") { f.pop(); }
            let hex = |s: &str, n: usize| s.len() == n && s.bytes().all(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b));
            let ok = f.len() >= 4 && hex(f[0], 2) && hex(f[1], 32) && hex(f[2], 16) && hex(f[3], 2) && f[0] != "ff"
                && (f[0] != "00" || f.len() == 4 && u8::from_str_radix(f[3], 16).unwrap() <= 3)
                && f[1].bytes().any(|b| b != b'0') && f[2].bytes().any(|b| b != b'0');
            let span = out.span(); let got = span.span_context();
            if out.get::<u32>() != Some(&9) { return Err("extraction lost the base context".into()); }
            if !ok { return if out.has_active_span() { Err(format!("an ill-formed header was accepted: {got:?}")) } else { Ok(()) }; }
            if !out.has_active_span() { return Err("a well-formed header was ignored".into()); }
            let st = ts.as_deref().and_then(|t| TraceState::from_str(t).ok()).unwrap_or_default();
            let want = SpanContext::new(TraceId::from_hex(f[1]).unwrap(), SpanId::from_hex(f[2]).unwrap(), TraceFlags::new(u8::from_str_radix(f[3], 16).unwrap() & 1), true, st);
            if got != &want { return Err(format!("extracted {got:?}, expected {want:?}")); }
            Ok(())
        });
    }
    c.case("extract without headers".into(), true, || {
        let out = p.extract_with_context(&Context::new().with_value(9u32), &HashMap::<String, String>::new());
        if out.has_active_span() || out.get::<u32>() != Some(&9) { return Err("context changed".into()); }
        Ok(())
    });
}

use crate::common::{Ctx, Rng};
use opentelemetry::baggage::{Baggage, BaggageExt, BaggageMetadata, KeyValueMetadata};
use opentelemetry::propagation::{Extractor, Injector, TextMapPropagator};
use opentelemetry::{Context, Key, KeyValue, StringValue, Value};
use opentelemetry_sdk::propagation::BaggagePropagator;
use std::collections::{BTreeMap, HashMap};

type M = BTreeMap<String, (String, String)>;

fn key_ok(k: &str) -> bool {
    !k.is_empty() && k.bytes().all(|b| (33..=126).contains(&b) && !b"(),/:;<=>?@[\\]{}\"".contains(&b))
}
fn total(m: &M) -> usize { m.iter().map(|(k, v)| k.len() + v.0.len() + v.1.len()).sum() }
fn ins(m: &mut M, k: &str, v: &str, md: &str) -> Option<(String, String)> {
    let md = md.trim();
    if let Some(old) = m.get(k).cloned() {
        let t = total(m) - k.len() - old.0.len() - old.1.len() + k.len() + v.len() + md.len();
        if t > 8192 { return None; }
        m.insert(k.into(), (v.into(), md.into()));
        Some(old)
    } else {
        if !key_ok(k) || m.len() >= 64 || total(m) + k.len() + v.len() + md.len() > 8192 { return None; }
        m.insert(k.into(), (v.into(), md.into()));
        None
    }
}
fn show(b: &Baggage) -> M { b.iter().map(|(k, v)| (k.to_string(), (v.0.to_string(), v.1.to_string()))).collect() }

fn encode(v: &str) -> String { v.bytes().map(|b| if b.is_ascii_alphanumeric() || b"-._~".contains(&b) { (b as char).to_string() } else { format!("%{b:02X}") }).collect() }

#[derive(Debug, Clone)]
enum Op { Ins(String, String), InsM(String, String, String), Rem(String), Rebuild, Clear, Attach }

fn gen_key(r: &mut Rng) -> String {
    match r.below(12) {
        0 => String::new(),
        1 => "k".repeat(1 + r.usize(300)),
        2 => { let c = char::from_u32(r.below(300) as u32).unwrap_or('x'); format!("k{c}") }
        3 => "ключ".into(),
        _ => format!("k{}", r.below(90)),
    }
}
fn gen_val(r: &mut Rng) -> String {
    let n = match r.below(10) { 0 => 0, 1 => 8192, 2 => 8190 + r.usize(6), 3 => 1000 + r.usize(4000), 4..=6 => 90 + r.usize(80), _ => r.usize(12) };
    match r.below(4) { 0 => "é".repeat(n / 2), _ => "v".repeat(n) }
}

/// C02: histories against a plain map with the two limits
pub fn c02(c: &mut Ctx) {
    c.rule = "a history of insert / insert_with_metadata / remove / rebuild / clear through Context; model: ordered map with the 64-entry, 8192-byte and key-token limits; non-trivial: a limit or a removal is exercised".into();
    let mut hs: Vec<Vec<Op>> = vec![];
    // every single-character key
    for b in 0u32..256 { if let Some(ch) = char::from_u32(b) { hs.push(vec![Op::Ins(ch.to_string(), "v".into()), Op::Ins(format!("a{ch}"), "v".into()), Op::Ins(format!("{ch}a"), "v".into())]); } }
    // exact boundary of both limits, with churn
    for n in [63usize, 64, 65] {
        let mut h: Vec<Op> = (0..n).map(|i| Op::Ins(format!("k{i}"), "v".into())).collect();
        h.push(Op::Rem("k3".into())); h.push(Op::Ins("fresh".into(), "1".into())); h.push(Op::Ins("fresh2".into(), "1".into())); h.push(Op::Ins("k5".into(), "again".into()));
        hs.push(h);
    }
    for len in 8186..8196usize {
        for m in [0usize, 1, 5] {
            hs.push(vec![Op::InsM("k".into(), "v".repeat(len - 1 - m), "m".repeat(m)), Op::Ins("z".into(), "".into()), Op::Rem("k".into()), Op::InsM("k".into(), "v".repeat(8191), "".into()), Op::InsM("k".into(), "v".repeat(8191), "m".into()),
                Op::Rem("k".into()), Op::Ins("y".into(), "v".repeat(8190)), Op::Ins("y".into(), "v".repeat(8192))]);
        }
    }
    for _ in 0..c.n(600) {
        let len = 1 + c.rng.usize(120);
        let churn = c.rng.below(4);
        let small = c.rng.bool();
        let h = (0..len).map(|_| {
            let r = &mut c.rng;
            match r.below(12) {
                0..=1 if churn > 0 => Op::Rem(gen_key(r)),
                2 => Op::InsM(gen_key(r), gen_val(r), ["", " p ", "a=b;c", "x"][r.usize(4)].into()),
                3 if r.chance(1, 4) => Op::Rebuild,
                4 if r.chance(1, 12) => Op::Clear,
                5 => Op::Attach,
                _ => Op::Ins(gen_key(r), if small { format!("{}", r.below(1000)) } else { gen_val(r) }),
            }
        }).collect();
        hs.push(h);
    }
    for b in 0u32..0x250 { if let Some(ch) = char::from_u32(b) { hs.push(vec![Op::Ins("k".into(), format!("{ch}")), Op::InsM("m".into(), format!("a{ch}{ch}z"), "p=1".into()), Op::InsM("n".into(), "v".into(), format!(" {ch}\t"))]); } }
    for h in hs {
        let d: Vec<String> = h.iter().map(|o| match o {
            Op::Ins(k, v) => format!("ins({}, {})", short(k), short(v)),
            Op::InsM(k, v, m) => format!("insm({}, {}, {})", short(k), short(v), short(m)),
            o => format!("{o:?}"),
        }).collect();
        let nontrivial = h.iter().any(|o| matches!(o, Op::Rem(_))) || h.len() > 60 || d.iter().any(|s| s.contains('x'));
        c.case(d.join("; "), nontrivial, move || history(&h));
    }
}
fn short(s: &str) -> String { if s.len() <= 24 { format!("{s:?}") } else { format!("{:?}x{}", s.chars().next().unwrap(), s.chars().count()) } }

fn history(h: &[Op]) -> Result<(), String> {
    let mut b = Baggage::new();
    let mut m = M::new();
    for (i, o) in h.iter().enumerate() {
        let (got, want): (Option<(String, String)>, Option<(String, String)>) = match o {
            Op::Ins(k, v) => (b.insert(k.clone(), v.clone()).map(|x| (x.to_string(), String::new())), ins(&mut m, k, v, "").map(|x| (x.0, String::new()))),
            Op::InsM(k, v, md) => (b.insert_with_metadata(k.clone(), v.clone(), md.as_str()).map(|x| (x.0.to_string(), x.1.to_string())), ins(&mut m, k, v, md)),
            Op::Rem(k) => (b.remove(k).map(|x| (x.0.to_string(), x.1.to_string())), m.remove(k)),
            Op::Rebuild => {
                let items: Vec<(Key, (StringValue, BaggageMetadata))> = b.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                b = items.into_iter().collect();
                (None, None)
            }
            Op::Clear => {
                let cx = Context::new().with_baggage(std::mem::take(&mut b));
                if show(cx.baggage()) != m { return Err(format!("step {i}: baggage stored in a context reads back {:?}, expected {:?}", show(cx.baggage()), m)); }
                let cl = cx.with_cleared_baggage();
                if !cl.baggage().is_empty() { return Err(format!("step {i}: cleared baggage still has {:?}", show(cl.baggage()))); }
                if show(cx.baggage()) != m { return Err(format!("step {i}: clearing a derived context changed the original")); }
                m.clear();
                (None, None)
            }
            Op::Attach => {
                let kvs: Vec<KeyValueMetadata> = b.iter().map(|(k, v)| KeyValueMetadata::new(k.clone(), v.0.clone(), v.1.clone())).collect();
                let _g = Context::current_with_baggage(kvs).attach();
                let seen = show(Context::current().baggage());
                if seen != m { return Err(format!("step {i}: current baggage {seen:?}, expected {m:?}")); }
                (None, None)
            }
        };
        if got != want { return Err(format!("step {i}: returned {got:?}, expected {want:?}")); }
        let s = show(&b);
        if !matches!(o, Op::Clear) && s != m { return Err(format!("step {i}: contents differ: {} entries / {} bytes, expected {} / {}", s.len(), total(&s), m.len(), total(&m))); }
        if s.len() > 64 || total(&s) > 8192 { return Err(format!("step {i}: limits exceeded: {} entries, {} bytes", s.len(), total(&s))); }
        // the printed form lists every entry, values percent-encoded
        let printed = b.iter().map(|(k, (v, md))| { let (k, v, md) = (k.as_str(), encode(v.as_str()), md.as_str()); if md.is_empty() { format!("{k}={v}") } else { format!("{k}={v};{md}") } }).collect::<Vec<_>>().join(",");
        if b.to_string() != printed { return Err(format!("step {i}: printed as {}, expected {}", short(&b.to_string()), short(&printed))); }
        if b.len() != m.len() || b.is_empty() != m.is_empty() { return Err(format!("step {i}: len() {} expected {}", b.len(), m.len())); }
        for (k, v) in &m {
            if b.get(k).map(|x| x.as_str()) != Some(v.0.as_str()) { return Err(format!("step {i}: get({k:?}) = {:?}", b.get(k))); }
            if b.get_with_metadata(k).map(|x| x.1.as_str()) != Some(v.1.as_str()) { return Err(format!("step {i}: metadata of {k:?}")); }
        }
    }
    Ok(())
}

#[derive(Debug, PartialEq)]
struct Mark(u8);
struct H(HashMap<String, String>);
impl Injector for H { fn set(&mut self, k: &str, v: String) { self.0.insert(k.to_lowercase(), v); } }
impl Extractor for H {
    fn get(&self, k: &str) -> Option<&str> { self.0.get(&k.to_lowercase()).map(|s| s.as_str()) }
    fn keys(&self) -> Vec<&str> { self.0.keys().map(|s| s.as_str()).collect() }
}

/// C03: inject then extract
pub fn c03(c: &mut Ctx) {
    c.rule = "baggage built from arbitrary token keys and text values is injected and the header extracted again; non-trivial: a value or key holds a reserved, escape or non-ASCII character; plus header texts read member by member".into();
    let mut cases: Vec<Vec<(String, String, String)>> = vec![];
    for b in 0u32..0x180 { if let Some(ch) = char::from_u32(b) {
        cases.push(vec![("k".into(), format!("a{ch}b"), "".into())]);
        cases.push(vec![("k".into(), format!("{ch}"), "p=1".into()), ("z".into(), format!("%{ch}41"), "".into())]);
        cases.push(vec![("k".into(), "v".into(), format!("p{ch}q;%41{ch};100%25")), ("z".into(), "w".into(), format!("%{ch}41"))]);
        if key_ok(&format!("k{ch}")) { cases.push(vec![(format!("k{ch}x"), "v".into(), "".into()), (format!("{ch}"), "%".into(), "".into())]); }
    } }
    let alphabet: Vec<char> = "abcXYZ019%=,;\" \\+-_.~!#$&'*^`|/:?@[]{}()<>\t\n\u{7f}é漢😀".chars().collect();
    let keyal: Vec<char> = (33u8..=126).map(|b| b as char).filter(|c| key_ok(&c.to_string())).collect();
    for _ in 0..c.n(2500) {
        let n = 1 + c.rng.usize(5);
        let mut v = vec![];
        for _ in 0..n {
            let kl = 1 + c.rng.usize(6); let vl = c.rng.usize(12);
            let k: String = (0..kl).map(|_| *c.rng.pick(&keyal)).collect();
            let val: String = (0..vl).map(|_| *c.rng.pick(&alphabet)).collect();
            let ml = c.rng.usize(8);
            let md = if c.rng.bool() { ["", "", "p", "a=b", "a=b;c", "a%2Cb", "%;%3b", "p=%C3%A9"][c.rng.usize(8)].to_string() } else { (0..ml).map(|_| *c.rng.pick(&alphabet)).collect() };
            v.push((k, val, md));
        }
        cases.push(v);
    }
    for v in cases {
        let nontrivial = v.iter().any(|(k, x, _)| (k.clone() + x).chars().any(|ch| !ch.is_ascii_alphanumeric()));
        c.case(format!("inject+extract {v:?}"), nontrivial, move || roundtrip(&v));
    }
    // reading headers
    let heads: Vec<(&str, Vec<(&str, &str, &str)>)> = vec![
        ("", vec![]), ("k", vec![]), ("k=v", vec![("k", "v", "")]), ("k=a=b", vec![("k", "a=b", "")]), ("k==", vec![("k", "=", "")]),
        ("a=1,b=2", vec![("a", "1", ""), ("b", "2", "")]), (" a = 1 , b = 2 ", vec![("a", "1", ""), ("b", "2", "")]),
        ("a=1;p;q=2,b=%2C", vec![("a", "1", "p;q=2"), ("b", ",", "")]), ("a=%FF,b=2", vec![("b", "2", "")]), (",,a=1,,", vec![("a", "1", "")]),
        ("a=1,a=2", vec![("a", "2", "")]), ("bad key=1,c=3", vec![("c", "3", "")]), ("=v,c=3", vec![("c", "3", "")]), ("k=", vec![("k", "", "")]),
        ("k=%", vec![("k", "%", "")]), ("k=%4", vec![("k", "%4", "")]), ("k=%zz", vec![("k", "%zz", "")]), ("k=a%20b;m%3Dx", vec![("k", "a b", "m=x")]),
        ("a=b=c;p=q=r, d=e", vec![("a", "b=c", "p=q=r"), ("d", "e", "")]), (";;;", vec![]), ("k=v;", vec![("k", "v", "")]),
    ];
    for (h, want) in heads {
        c.case(format!("extract {h:?}"), true, move || {
            let mut m = HashMap::new();
            m.insert("baggage".to_string(), h.to_string());
            let cx = BaggagePropagator::new().extract_with_context(&Context::new(), &H(m));
            let want: M = want.into_iter().map(|(k, v, p)| (k.to_string(), (v.to_string(), p.to_string()))).collect();
            let mut got = show(cx.baggage());
            for v in got.values_mut() { v.1 = v.1.trim_end_matches(';').into(); }
            if got != want { return Err(format!("extracted {got:?}, expected {want:?}")); }
            Ok(())
        });
    }
    for _ in 0..c.n(2000) {
        let n = c.rng.usize(60);
        let s: String = (0..n).map(|_| *c.rng.pick(&alphabet)).collect();
        c.case(format!("extract random {s:?}"), s.contains('='), move || {
            let mut m = HashMap::new();
            m.insert("baggage".to_string(), s.clone());
            let base = Context::new().with_baggage(vec![KeyValue::new("old", "x")]);
            // whatever is current: the baggage read is put into the given context, in place of the one it has
            let _g = Context::new().with_value(Mark(2)).with_baggage(vec![KeyValue::new("current", "x")]).attach();
            let base = base.with_value(Mark(1));
            let cx = BaggagePropagator::new().extract_with_context(&base, &H(m));
            if cx.get::<Mark>() != Some(&Mark(1)) { return Err(format!("the given context's value is {:?} after extraction", cx.get::<Mark>())); }
            if show(base.baggage()).len() != 1 { return Err("extraction changed the given context".into()); }
            let got = show(cx.baggage());
            if got.len() > 64 || total(&got) > 8192 || got.keys().any(|k| !key_ok(k)) { return Err(format!("{got:?}")); }
            let none = BaggagePropagator::new().extract_with_context(&base, &H(HashMap::new()));
            if show(none.baggage()).get("old").map(|v| v.0.as_str()) != Some("x") { return Err("no header must keep the context".into()); }
            Ok(())
        });
    }
    c.case("empty baggage injects nothing; fields lists the header".into(), true, || {
        let mut h = H(HashMap::new());
        let p = BaggagePropagator::new();
        p.inject_context(&Context::new().with_baggage(Baggage::new()), &mut h);
        if !h.0.is_empty() { return Err(format!("{:?}", h.0)); }
        if p.fields().collect::<Vec<_>>() != ["baggage"] { return Err("fields".into()); }
        let _ = Value::from("x");
        Ok(())
    });
}

fn roundtrip(v: &[(String, String, String)]) -> Result<(), String> {
    let b: Baggage = v.iter().map(|(k, x, m)| KeyValueMetadata::new(k.clone(), x.clone(), m.as_str())).collect();
    let want: M = show(&b).into_iter().map(|(k, (v, m))| (k, (v.trim().to_string(), m.trim().split(';').map(|p| p.trim()).collect::<Vec<_>>().join(";")))).collect();
    let mut h = H(HashMap::new());
    let p = BaggagePropagator::new();
    p.inject_context(&Context::new().with_baggage(b), &mut h);
    let hv = h.0.get("baggage").cloned().unwrap_or_default();
    if hv.chars().any(|c| !(' '..='~').contains(&c)) { return Err(format!("header is not printable ASCII: {hv:?}")); }
    let got = show(p.extract_with_context(&Context::new(), &h).baggage());
    if got != want { return Err(format!("header {hv:?} reads back as {got:?}, expected {want:?}")); }
    Ok(())
}

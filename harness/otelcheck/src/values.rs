// C27: keys, values and scopes: equality by content, hashing consistent with it, text forms.
use crate::common::{Ctx, Rng};
use opentelemetry::{Array, InstrumentationScope, Key, KeyValue, StringValue, Value};
use std::borrow::Cow;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

fn h<T: Hash>(t: &T) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() }
fn leak(s: &str) -> &'static str { Box::leak(s.to_string().into_boxed_str()) }
fn key(s: &str, rep: u64) -> Key {
    match rep % 6 { 0 => Key::from(leak(s)), 1 => Key::from(s.to_string()), 2 => Key::from(Arc::<str>::from(s)), 3 => Key::from(Cow::<'static, str>::Owned(s.to_string())), 4 => Key::from(Cow::Borrowed(leak(s))), _ => Key::from_static_str(leak(s)) }
}
fn sv(s: &str, rep: u64) -> StringValue {
    match rep % 5 { 0 => StringValue::from(leak(s)), 1 => StringValue::from(s.to_string()), 2 => StringValue::from(Arc::<str>::from(s)), 3 => StringValue::from(Cow::<'static, str>::Owned(s.to_string())), _ => StringValue::from(Cow::Borrowed(leak(s))) }
}
#[derive(Clone, Debug)]
enum V { B(bool), I(i64), F(f64), S(String), Ab(Vec<bool>), Ai(Vec<i64>), Af(Vec<f64>), As(Vec<String>) }
fn value(v: &V, rep: u64) -> Value {
    match v {
        V::B(b) => Value::from(*b), V::I(i) => Value::from(*i), V::F(f) => Value::from(*f),
        V::S(s) => match rep % 5 { 0 => Value::from(leak(s)), 1 => Value::from(s.clone()), 2 => Value::from(Arc::<str>::from(s.as_str())), 3 => Value::from(Cow::<'static, str>::Owned(s.clone())), _ => Value::from(sv(s, rep)) },
        V::Ab(a) => Value::Array(Array::from(a.clone())), V::Ai(a) => Value::Array(Array::from(a.clone())), V::Af(a) => Value::Array(Array::from(a.clone())),
        V::As(a) => Value::Array(Array::from(a.iter().enumerate().map(|(i, s)| sv(s, rep + i as u64)).collect::<Vec<_>>())),
    }
}
fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::B(x), V::B(y)) => x == y, (V::I(x), V::I(y)) => x == y, (V::F(x), V::F(y)) => x == y, (V::S(x), V::S(y)) => x == y,
        (V::Ab(x), V::Ab(y)) => x == y, (V::Ai(x), V::Ai(y)) => x == y, (V::Af(x), V::Af(y)) => x == y, (V::As(x), V::As(y)) => x == y, _ => false,
    }
}
fn shown(v: &V) -> String {
    fn join<T>(a: &[T], f: impl Fn(&T) -> String) -> String { format!("[{}]", a.iter().map(f).collect::<Vec<_>>().join(",")) }
    match v {
        V::B(b) => b.to_string(), V::I(i) => i.to_string(), V::F(f) => f.to_string(), V::S(s) => s.clone(), V::Ab(a) => join(a, |x| x.to_string()), V::Ai(a) => join(a, |x| x.to_string()),
        V::Af(a) => join(a, |x| x.to_string()), V::As(a) => join(a, |x| format!("\"{x}\"")),
    }
}
const TEXTS: &[&str] = &["", "a", "b", "ab", "k", "é", "1", "true"];
fn f(r: &mut Rng) -> f64 { *r.pick(&[0.0, -0.0, 1.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 5e-324, -5e-324, 1e300]) }
fn s(r: &mut Rng) -> String { r.pick(TEXTS).to_string() }
fn v(r: &mut Rng) -> V {
    let n = r.usize(3);
    match r.below(9) { 0 => V::B(r.bool()), 1 => V::I(r.below(3) as i64 - 1), 2 | 3 => V::F(f(r)), 4 => V::S(s(r)), 5 => V::Ab((0..n).map(|_| r.bool()).collect()), 6 => V::Ai((0..n).map(|_| r.below(2) as i64).collect()), 7 => V::Af((0..n).map(|_| f(r)).collect()), _ => V::As((0..n).map(|_| s(r)).collect()) }
}
fn ok(c: bool, m: impl FnOnce() -> String) -> Result<(), String> { if c { Ok(()) } else { Err(m()) } }

pub fn c27(cx: &mut Ctx) {
    cx.rule = "content decides equality and the hash agrees".into();
    for _ in 0..cx.n(1500) {
        let (ka, kb) = (s(&mut cx.rng), s(&mut cx.rng));
        let kb = if cx.rng.chance(2, 3) { ka.clone() } else { kb };
        let va = v(&mut cx.rng);
        let vb = if cx.rng.chance(1, 2) { let mut w = va.clone(); if let V::F(x) = &mut w { if *x == 0.0 { *x = -*x } } if let V::Af(x) = &mut w { for y in x.iter_mut() { if *y == 0.0 { *y = -*y } } } w } else { v(&mut cx.rng) };
        let (ra, rb) = (cx.rng.below(60), cx.rng.below(60));
        cx.case(format!("{ka:?}: {va:?} in representation {ra} against {kb:?}: {vb:?} in {rb}"), ka == kb, || {
            let (a, b) = (KeyValue::new(key(&ka, ra), value(&va, ra)), KeyValue::new(key(&kb, rb), value(&vb, rb)));
            let want = ka == kb && same(&va, &vb);
            ok((a == b) == want && (b == a) == want, || format!("{a:?} == {b:?} is {}", a == b))?;
            ok(!want || h(&a) == h(&b), || format!("{a:?} and {b:?} are equal but hash differently"))?;
            ok((a.key == b.key) == (ka == kb) && a.key.cmp(&b.key) == ka.cmp(&kb) && a.key.partial_cmp(&b.key) == Some(ka.cmp(&kb)), || format!("keys {ka:?} and {kb:?} compare wrongly"))?;
            ok(ka != kb || h(&a.key) == h(&b.key), || format!("keys {ka:?} hash differently"))?;
            ok(h(&a.key) == h(&ka.as_str()), || format!("key {ka:?} does not hash like the str it borrows as"))?;
            ok(a.key.as_str() == ka && a.key.to_string() == ka && String::from(a.key.clone()) == ka, || format!("key {ka:?} reads as {:?}", a.key))?;
            ok(a.value.as_str() == shown(&va) && a.value.to_string() == shown(&va) && StringValue::from(a.value.clone()).as_str() == shown(&va), || format!("{va:?} reads as {:?} and {:?}", a.value.as_str(), a.value.to_string()))?;
            ok(a.clone() == a || format!("{va:?}").contains("NaN"), || "a clone is not equal".to_string())
        });
    }
    for _ in 0..cx.n(600) {
        let n = if cx.rng.chance(1, 8) { 25 } else { cx.rng.usize(5) };
        let attrs: Vec<(String, V)> = (0..n).map(|i| (format!("{i}:{}", s(&mut cx.rng)), loop { let x = v(&mut cx.rng); if !format!("{x:?}").contains("NaN") { break x; } })).collect();
        let mut perm: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() { let j = cx.rng.usize(i + 1); perm.swap(i, j); }
        let (name, version, url) = (s(&mut cx.rng), if cx.rng.bool() { Some(s(&mut cx.rng)) } else { None }, if cx.rng.bool() { Some(s(&mut cx.rng)) } else { None });
        let change = cx.rng.below(11);
        let rep = cx.rng.below(60);
        cx.case(format!("scope {name:?} {version:?} {url:?} {attrs:?}, permuted by {perm:?}, change {change}"), n > 1, || {
            let build = |name: &str, version: &Option<String>, url: &Option<String>, kvs: Vec<KeyValue>, none: bool| {
                let mut b = InstrumentationScope::builder(name.to_string());
                if let Some(v) = version { b = b.with_version(v.clone()); }
                if let Some(u) = url { b = b.with_schema_url(u.clone()); }
                if !none { b = b.with_attributes(kvs); }
                b.build()
            };
            let kv = |i: usize, rep: u64| KeyValue::new(key(&attrs[i].0, rep + i as u64), value(&attrs[i].1, rep));
            let a = build(&name, &version, &url, (0..n).map(|i| kv(i, 0)).collect(), false);
            let b = build(&name, &version, &url, perm.iter().map(|i| kv(*i, rep)).collect(), n == 0);
            ok(a == b && b == a, || "the permuted scope is not equal".to_string())?;
            ok(h(&a) == h(&b), || "the permuted scope hashes differently".to_string())?;
            ok(a.name() == name && a.version() == version.as_deref() && a.schema_url() == url.as_deref() && a.attributes().cloned().collect::<Vec<_>>() == (0..n).map(|i| kv(i, 0)).collect::<Vec<_>>(), || "the scope does not hold what it was built with".to_string())?;
            let mut set = HashSet::new();
            set.insert(a.clone());
            ok(set.contains(&b), || "a set does not find the permuted scope".to_string())?;
            let other = match change {
                0 => build(&format!("{name}x"), &version, &url, (0..n).map(|i| kv(i, 0)).collect(), false),
                1 => build(&name, &Some(version.clone().map(|v| v + "x").unwrap_or_default()), &url, (0..n).map(|i| kv(i, 0)).collect(), false),
                2 => build(&name, &version, &Some(url.clone().map(|v| v + "x").unwrap_or_default()), (0..n).map(|i| kv(i, 0)).collect(), false),
                3 if version.is_some() => build(&name, &None, &url, (0..n).map(|i| kv(i, 0)).collect(), false),
                4 if url.is_some() => build(&name, &version, &None, (0..n).map(|i| kv(i, 0)).collect(), false),
                5 if n > 0 => build(&name, &version, &url, (1..n).map(|i| kv(i, 0)).collect(), false),
                6 if n > 0 => build(&name, &version, &url, (0..n).map(|i| if i == n / 2 { KeyValue::new(attrs[i].0.clone(), "another value") } else { kv(i, 0) }).collect(), false),
                7 if n > 0 => build(&name, &version, &url, (0..n).map(|i| if i == n / 2 { KeyValue::new(format!("{}x", attrs[i].0), value(&attrs[i].1, 0)) } else { kv(i, 0) }).collect(), false),
                8 if n > 1 && !same(&attrs[0].1, &attrs[1].1) => build(&name, &version, &url, (0..n).map(|i| if i < 2 { KeyValue::new(attrs[i].0.clone(), value(&attrs[1 - i].1, 0)) } else { kv(i, 0) }).collect(), false),
                _ => build(&name, &version, &url, (0..n).map(|i| kv(i, 0)).chain([KeyValue::new("more", 1i64)]).collect(), false),
            };
            ok(a != other && other != a, || format!("differs from {other:?} but is equal to it"))
        });
    }
}

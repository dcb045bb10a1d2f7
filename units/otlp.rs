// Unit: conversion to OTLP messages (opentelemetry-proto/src/transform/{common,trace,logs,metrics}.rs).
use vstd::prelude::*;
verus! {
// ---- text, numbers, time, ids ----
#[verifier::external_body] #[derive(Clone, Copy)] struct Text { _p: u8 }
uninterp spec fn chars(t: Text) -> Seq<char>;
impl Text {
    spec fn c(&self) -> Seq<char> { chars(*self) }
    #[verifier::external_body] fn empty() -> (r: Text) ensures r.c() == Seq::<char>::empty() { unimplemented!() }
    fn to_string(&self) -> (r: Text) ensures r.c() == self.c() { *self }
    fn to_owned(&self) -> (r: Text) ensures r.c() == self.c() { *self }
    fn into_owned(self) -> (r: Text) ensures r.c() == self.c() { self }
}
spec fn opt_text(o: Option<Text>) -> Seq<char> { match o { Some(t) => t.c(), None => Seq::empty() } }
trait OrEmpty { spec fn t(&self) -> Option<Text>; fn or_empty(self) -> (r: Text) ensures r.c() == opt_text(self.t()); fn same(self) -> (r: Option<Text>) ensures r == self.t(); }
impl OrEmpty for Option<Text> { spec fn t(&self) -> Option<Text> { *self } fn or_empty(self) -> (r: Text) { match self { Some(t) => t, None => Text::empty() } } fn same(self) -> (r: Option<Text>) { self } }
#[verifier::external_body] #[derive(Clone, Copy)] struct F { _p: u8 }
uninterp spec fn f_of_u64(x: u64) -> F;
uninterp spec fn f_of_i64(x: i64) -> F;
impl F {
    #[verifier::external_body] fn of_u64(x: u64) -> (r: F) ensures r == f_of_u64(x) { unimplemented!() }
    #[verifier::external_body] fn of_i64(x: i64) -> (r: F) ensures r == f_of_i64(x) { unimplemented!() }
}
#[verifier::external_body] fn copy_f(v: &Vec<F>) -> (r: Vec<F>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] fn copy_u64(v: &Vec<u64>) -> (r: Vec<u64>) ensures r@ == v@ { unimplemented!() }
#[derive(Clone, Copy)] struct SystemTime { ns: Ghost<int> }
#[derive(Clone, Copy)] struct Duration { ns: Ghost<int> }
struct TimeErr { _p: u8 }
impl SystemTime { #[verifier::external_body] fn since_epoch(self) -> (r: Result<Duration, TimeErr>) ensures r is Ok == (self.ns@ >= 0), r is Ok ==> r->Ok_0.ns == self.ns { unimplemented!() } }
impl Duration {
    #[verifier::external_body] fn from_secs(s: u64) -> (r: Duration) ensures r.ns@ == s * 1_000_000_000 { unimplemented!() }
    #[verifier::external_body] fn as_nanos(&self) -> (r: u128) requires self.ns@ >= 0 ensures self.ns@ < 0x1_0000_0000_0000_0000_0000 ==> r == self.ns@ { unimplemented!() }
}
trait OrThat { spec fn r(&self) -> Result<Duration, TimeErr>; fn or_that(self, d: Duration) -> (r: Duration) ensures r == (match self.r() { Ok(x) => x, Err(_) => d }); }
impl OrThat for Result<Duration, TimeErr> { spec fn r(&self) -> Result<Duration, TimeErr> { *self } fn or_that(self, d: Duration) -> (r: Duration) { match self { Ok(x) => x, Err(_) => d } } }
/// nanoseconds since the epoch; 0 for a time before it
spec fn time_is(t: SystemTime, n: u64) -> bool { (t.ns@ < 0 ==> n == 0) && (0 <= t.ns@ <= u64::MAX ==> n == t.ns@) }
spec fn opt_time_is(t: Option<SystemTime>, n: u64) -> bool { match t { Some(t) => time_is(t, n), None => n == 0 } }
trait NanosOr { spec fn ot(&self) -> Option<SystemTime>; fn nanos_or_0(self) -> (r: u64) ensures opt_time_is(self.ot(), r); }
impl NanosOr for Option<SystemTime> { spec fn ot(&self) -> Option<SystemTime> { *self } fn nanos_or_0(self) -> (r: u64) { match self { Some(t) => to_nanos(t), None => 0 } } }
//@gsubst .duration_since(UNIX_EPOCH) ~> .since_epoch()
//@gsubst .unwrap_or_else(|_| $$e) ~> .or_that($$e)
//@gsubst .map(to_nanos).unwrap_or_default() ~> .nanos_or_0()
//@gsubst unreachable!($$m) ~> vstd::pervasive::unreached()
//@fn opentelemetry-proto/src/transform/common.rs fn to_nanos
//@ret r
//@contract
    ensures time_is(time, r)
//@endfn
#[verifier::external_body] #[derive(Clone, Copy)] struct TraceId { _p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct SpanId { _p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct TraceFlags { _p: u8 }
uninterp spec fn tid(t: TraceId) -> Seq<u8>;
uninterp spec fn sid(t: SpanId) -> Seq<u8>;
uninterp spec fn flags(t: TraceFlags) -> u8;
struct Bytes { b: Vec<u8> }
impl Bytes { fn to_vec(self) -> (r: Vec<u8>) ensures r@ == self.b@ { self.b } }
impl TraceId { #[verifier::external_body] fn to_bytes(self) -> (r: Bytes) ensures r.b@ == tid(self) { unimplemented!() } }
impl SpanId {
    #[verifier::external_body] fn to_bytes(self) -> (r: Bytes) ensures r.b@ == sid(self) { unimplemented!() }
    #[verifier::external_body] fn is_invalid(&self) -> (r: bool) ensures r == (sid(*self) == seq![0u8, 0, 0, 0, 0, 0, 0, 0]) { unimplemented!() }
}
impl TraceFlags { #[verifier::external_body] fn to_u8(self) -> (r: u8) ensures r == flags(self) { unimplemented!() } }
#[verifier::external_body] #[derive(Clone, Copy)] struct TraceState { _p: u8 }
uninterp spec fn state_header(t: TraceState) -> Seq<char>;
impl TraceState { #[verifier::external_body] fn header(&self) -> (r: Text) ensures r.c() == state_header(*self) { unimplemented!() } }
#[derive(Clone, Copy)] struct SpanContext { trace_id: TraceId, span_id: SpanId, trace_flags: TraceFlags, trace_state: TraceState }
impl SpanContext {
    fn trace_id(&self) -> (r: TraceId) ensures r == self.trace_id { self.trace_id }
    fn span_id(&self) -> (r: SpanId) ensures r == self.span_id { self.span_id }
    fn trace_flags(&self) -> (r: TraceFlags) ensures r == self.trace_flags { self.trace_flags }
    fn trace_state(&self) -> (r: &TraceState) ensures *r == self.trace_state { &self.trace_state }
}
//@gsubst $a.parent_span_id != SpanId::INVALID ~> !$a.parent_span_id.is_invalid()
//@gsubst $a.parent_span_id == SpanId::INVALID ~> $a.parent_span_id.is_invalid()

// ---- conversions, element by element ----
trait From<T>: Sized { spec fn conv(t: T, r: Self) -> bool; fn from_(t: T) -> (r: Self) ensures Self::conv(t, r); }
trait Into<U>: Sized { spec fn into_conv(self, u: U) -> bool; fn into_(self) -> (r: U) ensures self.into_conv(r); }
impl<T, U: From<T>> Into<U> for T { spec fn into_conv(self, u: U) -> bool { U::conv(self, u) } fn into_(self) -> (r: U) { U::from_(self) } }
impl From<Text> for Text { spec fn conv(t: Text, r: Text) -> bool { r.c() == t.c() } fn from_(t: Text) -> Text { t } }
impl From<[u8; 8]> for Vec<u8> { spec fn conv(t: [u8; 8], r: Vec<u8>) -> bool { r@ == t@ } #[verifier::external_body] fn from_(t: [u8; 8]) -> Vec<u8> { unimplemented!() } }
impl From<[u8; 16]> for Vec<u8> { spec fn conv(t: [u8; 16], r: Vec<u8>) -> bool { r@ == t@ } #[verifier::external_body] fn from_(t: [u8; 16]) -> Vec<u8> { unimplemented!() } }
impl From<i8> for i32 { spec fn conv(t: i8, r: i32) -> bool { r == t } fn from_(t: i8) -> i32 { t as i32 } }
fn one<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x], r@.len() == 1, r@[0] == x { let mut v = Vec::new(); v.push(x); assert(v@ =~= seq![x]); v }
/// v.into_iter().map(f).collect(), v.iter().map(f).collect(), and with Into::into for f
trait Mapped<T>: Sized {
    spec fn items(self) -> Seq<T>;
    fn mapped<U, G: Fn(T) -> U>(self, f: G) -> (r: Vec<U>) requires forall|x: T| #[trigger] f.requires((x,)) ensures r@.len() == self.items().len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((self.items()[i],), #[trigger] r@[i]);
    fn mapped_into<U: From<T>>(self) -> (r: Vec<U>) ensures r@.len() == self.items().len(), forall|i: int| 0 <= i < r@.len() ==> U::conv(self.items()[i], #[trigger] r@[i]);
}
impl<T> Mapped<T> for Vec<T> {
    spec fn items(self) -> Seq<T> { self@ }
    fn mapped<U, G: Fn(T) -> U>(self, f: G) -> (r: Vec<U>) {
        let mut out: Vec<U> = Vec::new();
        let ghost s = self@;
        for x in it: self invariant it.seq() == s, forall|x: T| #[trigger] f.requires((x,)), out@.len() == it.index@, forall|i: int| 0 <= i < out@.len() ==> f.ensures((s[i],), #[trigger] out@[i]) { out.push(f(x)); }
        out
    }
    fn mapped_into<U: From<T>>(self) -> (r: Vec<U>) {
        let mut out: Vec<U> = Vec::new();
        let ghost s = self@;
        for x in it: self invariant it.seq() == s, out@.len() == it.index@, forall|i: int| 0 <= i < out@.len() ==> U::conv(s[i], #[trigger] out@[i]) { out.push(U::from_(x)); }
        out
    }
}
trait MappedRef<T>: Sized {
    spec fn refs(&self) -> Seq<T>;
    fn mapped_ref<'a, U, G: Fn(&'a T) -> U>(&'a self, f: G) -> (r: Vec<U>) where T: 'a requires forall|x: &'a T| #[trigger] f.requires((x,)) ensures r@.len() == self.refs().len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((&self.refs()[i],), #[trigger] r@[i]);
    fn mapped_refs_into<'a, U: From<&'a T>>(&'a self) -> (r: Vec<U>) where T: 'a ensures r@.len() == self.refs().len(), forall|i: int| 0 <= i < r@.len() ==> U::conv(&self.refs()[i], #[trigger] r@[i]);
}
impl<T> MappedRef<T> for Vec<T> {
    spec fn refs(&self) -> Seq<T> { self@ }
    fn mapped_ref<'a, U, G: Fn(&'a T) -> U>(&'a self, f: G) -> (r: Vec<U>) where T: 'a {
        let mut out: Vec<U> = Vec::new();
        for k in 0..self.len() invariant forall|x: &'a T| #[trigger] f.requires((x,)), out@.len() == k, forall|i: int| 0 <= i < out@.len() ==> f.ensures((&self@[i],), #[trigger] out@[i]) { out.push(f(&self[k])); }
        out
    }
    fn mapped_refs_into<'a, U: From<&'a T>>(&'a self) -> (r: Vec<U>) {
        let mut out: Vec<U> = Vec::new();
        for k in 0..self.len() invariant out@.len() == k, forall|i: int| 0 <= i < out@.len() ==> U::conv(&self@[i], #[trigger] out@[i]) { out.push(U::from_(&self[k])); }
        out
    }
}
//@gsubst .into_iter().map(Into::into).collect() ~> .mapped_into()
//@gsubst resource.iter().map(Into::into).collect() ~> resource.attrs.mapped_ref(|kv: &(Key, Value)| -> (r: KeyValue) ensures r.key.c() == kv.0.c(), r.value is Some, any_is(kv.1, r.value->0) { (&kv.0, &kv.1).into_() })
//@gsubst .iter().map(Into::into).collect() ~> .mapped_refs_into()
//@gsubst .map(ToOwned::to_owned).unwrap_or_default() ~> .or_empty()
//@gsubst .map(Into::into).unwrap_or_default() ~> .or_empty()
//@gsubst .map(ToString::to_string) ~> .same()
//@gsubst .clone().unwrap_or_default() ~> .or_empty()
//@gsubst .unwrap_or_default().into() ~> .or_empty()
//@gsubst .into() ~> .into_()
//@gsubst $x::from($$e) ~> $x::from_($$e)
//@gsubst $x::from($$e) ~> $x::from_($$e)
//@gsubst String::new() ~> Text::empty()
//@gsubst vec![] ~> Vec::new()
//@gsubst vec![$$x] ~> one($$x)
//@gsubst vec![$$x] ~> one($$x)
//@gsubst vec![$$x] ~> one($$x)
//@gsubst ::std::vec::Vec<crate::proto::tonic::common::v1::KeyValue> ~> Vec<KeyValue>
//@gsubst time::SystemTime ~> SystemTime
//@gsubst ::prost::alloc::string::String ~> Text
//@gsubst ::prost::alloc::vec::Vec ~> Vec
//@gsubst ::core::option::Option ~> Option
//@gsubst super::super::super::common::v1::$x ~> $x
//@gsubst super::super::common::v1::$x ~> $x
//@gsubst super::super::resource::v1::$x ~> $x
//@gsubst super::ArrayValue ~> ArrayValue
//@gsubst super::KeyValueList ~> KeyValueList
//@gsubst any_value::Value ~> PbValue
//@gsubst opentelemetry::KeyValue ~> ApiKv
//@gsubst opentelemetry::InstrumentationScope ~> ApiScope
//@gsubst opentelemetry_sdk::Resource ~> SdkResource
//@gsubst opentelemetry_sdk::trace::SpanData ~> SpanData
//@gsubst opentelemetry_sdk::logs::SdkLogRecord ~> SdkLogRecord
//@gsubst Cow<'static, str> ~> Text
//@gsubst &'static str ~> Text
//@gsubst f64 ~> F

// ---- attributes ----
#[verifier::external_body] #[derive(Clone, Copy)] struct Key { _p: u8 }
uninterp spec fn key_chars(k: Key) -> Seq<char>;
impl Key {
    spec fn c(&self) -> Seq<char> { key_chars(*self) }
    #[verifier::external_body] fn as_str(&self) -> (r: Text) ensures r.c() == self.c() { unimplemented!() }
    #[verifier::external_body] fn to_string(&self) -> (r: Text) ensures r.c() == self.c() { unimplemented!() }
}
impl From<Key> for Text { spec fn conv(t: Key, r: Text) -> bool { r.c() == t.c() } #[verifier::external_body] fn from_(t: Key) -> Text { unimplemented!() } }
#[verifier::external_body] #[derive(Clone, Copy)] struct StringValue { _p: u8 }
uninterp spec fn sv_chars(k: StringValue) -> Seq<char>;
impl StringValue { spec fn c(&self) -> Seq<char> { sv_chars(*self) } #[verifier::external_body] fn to_string(&self) -> (r: Text) ensures r.c() == self.c() { unimplemented!() } }
impl From<StringValue> for Text { spec fn conv(t: StringValue, r: Text) -> bool { r.c() == t.c() } #[verifier::external_body] fn from_(t: StringValue) -> Text { unimplemented!() } }
//@item opentelemetry/src/common.rs enum Array
//@item opentelemetry/src/common.rs enum Value
//@item opentelemetry/src/common.rs struct KeyValue
//@ subst struct KeyValue ~> struct ApiKv
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.common.v1.rs struct AnyValue
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.common.v1.rs mod any_value :: enum Value
//@ subst enum Value ~> enum PbValue
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.common.v1.rs struct ArrayValue
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.common.v1.rs struct KeyValueList
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.common.v1.rs struct KeyValue
impl Value { #[verifier::external_body] fn clone(&self) -> (r: Value) ensures r == *self { unimplemented!() } }
#[verifier::external_body] fn copy_kvs(v: &Vec<KeyValue>) -> (r: Vec<KeyValue>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] fn copy_api_kvs(v: &Vec<ApiKv>) -> (r: Vec<ApiKv>) ensures r@ == v@ { unimplemented!() }
//@gsubst $r.attributes.0.clone() ~> copy_kvs(&$r.attributes.0)
// (the conversions made by a macro in opentelemetry/src/common.rs)
impl From<bool> for Value { spec fn conv(t: bool, r: Value) -> bool { r == Value::Bool(t) } fn from_(t: bool) -> Value { Value::Bool(t) } }
impl From<i64> for Value { spec fn conv(t: i64, r: Value) -> bool { r == Value::I64(t) } fn from_(t: i64) -> Value { Value::I64(t) } }
impl From<F> for Value { spec fn conv(t: F, r: Value) -> bool { r == Value::F64(t) } fn from_(t: F) -> Value { Value::F64(t) } }
impl From<StringValue> for Value { spec fn conv(t: StringValue, r: Value) -> bool { r == Value::String(t) } fn from_(t: StringValue) -> Value { Value::String(t) } }
spec fn text_value(s: StringValue, a: AnyValue) -> bool { match a.value { Some(PbValue::StringValue(t)) => t.c() == s.c(), _ => false } }
spec fn arr_is(arr: Array, p: ArrayValue) -> bool {
    match arr {
        Array::Bool(v) => v@.len() == p.values@.len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] p.values@[i]).value == Some(PbValue::BoolValue(v@[i])),
        Array::I64(v) => v@.len() == p.values@.len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] p.values@[i]).value == Some(PbValue::IntValue(v@[i])),
        Array::F64(v) => v@.len() == p.values@.len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] p.values@[i]).value == Some(PbValue::DoubleValue(v@[i])),
        Array::String(v) => v@.len() == p.values@.len() && forall|i: int| 0 <= i < v@.len() ==> text_value(v@[i], #[trigger] p.values@[i]),
    }
}
/// the message value holds exactly this value
spec fn any_is(v: Value, a: AnyValue) -> bool {
    match v {
        Value::Bool(x) => a.value == Some(PbValue::BoolValue(x)),
        Value::I64(x) => a.value == Some(PbValue::IntValue(x)),
        Value::F64(x) => a.value == Some(PbValue::DoubleValue(x)),
        Value::String(s) => text_value(s, a),
        Value::Array(arr) => match a.value { Some(PbValue::ArrayValue(p)) => arr_is(arr, p), _ => false },
    }
}
spec fn kv_is(a: ApiKv, b: KeyValue) -> bool { b.key.c() == a.key.c() && b.value is Some && any_is(a.value, b.value->0) }
spec fn attrs_are(a: Seq<ApiKv>, b: Seq<KeyValue>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> kv_is(a[i], #[trigger] b[i]) }
spec fn pairs_are(a: Seq<(Key, Value)>, b: Seq<KeyValue>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]).key.c() == a[i].0.c() && b[i].value is Some && any_is(a[i].1, b[i].value->0) }
//@fn opentelemetry-proto/src/transform/common.rs mod tonic :: impl From<Value> for AnyValue :: fn from
//@sig #[verifier::exec_allows_no_decreases_clause] fn any_value(value: Value) -> AnyValue
//@ret r
//@contract
    ensures any_is(value, r)
//@endfn
impl From<Value> for AnyValue { spec fn conv(v: Value, r: AnyValue) -> bool { any_is(v, r) } fn from_(v: Value) -> AnyValue { any_value(v) } }
spec fn made_of<T>(t: T, a: AnyValue) -> bool where Value: From<T> { exists|v: Value| <Value as From<T>>::conv(t, v) && #[trigger] any_is(v, a) }
//@fn opentelemetry-proto/src/transform/common.rs mod tonic :: fn array_into_proto
//@sig #[verifier::exec_allows_no_decreases_clause] fn array_into_proto<T>(vals: Vec<T>) -> ArrayValue where Value: From<T>
//@subst .into_iter().map(|val| $$e).collect() ~> .mapped(|val: T| -> (r: AnyValue) ensures made_of(val, r) { $$e })
//@subst AnyValue::from_($$e) ~> any_value($$e)
//@ret r
//@contract
    ensures r.values@.len() == vals@.len(), forall|i: int| 0 <= i < vals@.len() ==> made_of(vals@[i], #[trigger] r.values@[i])
//@endfn
//@item opentelemetry-proto/src/transform/common.rs mod tonic :: struct Attributes
impl From<Vec<ApiKv>> for Attributes {
    spec fn conv(kvs: Vec<ApiKv>, r: Attributes) -> bool { attrs_are(kvs@, r.0@) }
//@fn opentelemetry-proto/src/transform/common.rs mod tonic :: impl From<I> for Attributes :: fn from
//@sig fn from_(kvs: Vec<ApiKv>) -> Self
//@subst .into_iter().map(|api_kv| $$e).collect() ~> .mapped(|api_kv: ApiKv| -> (r: KeyValue) ensures kv_is(api_kv, r) { $$e })
//@endfn
}
impl<'a> From<(&'a Key, &'a Value)> for KeyValue {
    spec fn conv(kv: (&'a Key, &'a Value), r: KeyValue) -> bool { r.key.c() == kv.0.c() && r.value is Some && any_is(*kv.1, r.value->0) }
//@fn opentelemetry-proto/src/transform/metrics.rs mod tonic :: impl From<(&Key, &Value)> for KeyValue :: fn from
//@sig fn from_(kv: (&'a Key, &'a Value)) -> Self
//@endfn
}
impl<'a> From<&'a ApiKv> for KeyValue {
    spec fn conv(kv: &'a ApiKv, r: KeyValue) -> bool { kv_is(*kv, r) }
//@fn opentelemetry-proto/src/transform/metrics.rs mod tonic :: impl From<&opentelemetry::KeyValue> for KeyValue :: fn from
//@sig fn from_(kv: &'a ApiKv) -> Self
//@endfn
}

// ---- resources and scopes ----
struct SdkResource { attrs: Vec<(Key, Value)>, url: Option<Text> }
impl SdkResource { fn schema_url(&self) -> (r: Option<Text>) ensures r == self.url { self.url } }
struct ApiScope { name: Text, version: Option<Text>, schema_url: Option<Text>, attributes: Vec<ApiKv> }
impl ApiScope {
    fn name(&self) -> (r: Text) ensures r == self.name { self.name }
    fn version(&self) -> (r: Option<Text>) ensures r == self.version { self.version }
    fn schema_url(&self) -> (r: Option<Text>) ensures r == self.schema_url { self.schema_url }
}
//@item opentelemetry-proto/src/transform/common.rs mod tonic :: struct ResourceAttributesWithSchema
//@ subst Option<String> ~> Option<Text>
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.resource.v1.rs struct Resource
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.common.v1.rs struct InstrumentationScope
#[verifier::external_body] fn scope_default() -> (r: InstrumentationScope) ensures r.name.c() == Seq::<char>::empty(), r.version.c() == Seq::<char>::empty(), r.attributes@.len() == 0, r.dropped_attributes_count == 0 { unimplemented!() }
/// a target stands in for the scope
spec fn scope_is(s: ApiScope, target: Option<Text>, r: InstrumentationScope) -> bool {
    r.dropped_attributes_count == 0 && match target {
        Some(t) => r.name.c() == t.c() && r.version.c() == Seq::<char>::empty() && r.attributes@.len() == 0,
        None => r.name.c() == s.name.c() && r.version.c() == opt_text(s.version) && attrs_are(s.attributes@, r.attributes@),
    }
}
impl From<(ApiScope, Option<Text>)> for InstrumentationScope {
    spec fn conv(d: (ApiScope, Option<Text>), r: InstrumentationScope) -> bool { scope_is(d.0, d.1, r) }
//@fn opentelemetry-proto/src/transform/common.rs mod tonic :: impl From<(opentelemetry::InstrumentationScope,Option<Cow<'static, str>>,)> for InstrumentationScope :: fn from
//@sig fn from_(data: (ApiScope, Option<Text>)) -> Self
//@subst ..Default::default() ~> ..scope_default()
//@subst library.attributes().cloned() ~> copy_api_kvs(&library.attributes)
//@endfn
}
impl<'a> From<(&'a ApiScope, Option<Text>)> for InstrumentationScope {
    spec fn conv(d: (&'a ApiScope, Option<Text>), r: InstrumentationScope) -> bool { scope_is(*d.0, d.1, r) }
//@fn opentelemetry-proto/src/transform/common.rs mod tonic :: impl From<(&opentelemetry::InstrumentationScope,Option<Cow<'static, str>>,)> for InstrumentationScope :: fn from
//@sig fn from_(data: (&'a ApiScope, Option<Text>)) -> Self
//@subst ..Default::default() ~> ..scope_default()
//@subst library.attributes().cloned() ~> copy_api_kvs(&library.attributes)
//@endfn
}
//@fn opentelemetry-proto/src/transform/common.rs mod tonic :: fn resource_attributes
//@sig fn resource_attributes(resource: &SdkResource) -> Attributes
//@subst resource.iter().map(|(k, v)| $$e).collect::<Vec<_>>().into_() ~> Attributes::from_(resource.attrs.mapped_ref(|kv: &(Key, Value)| -> (r: ApiKv) ensures r.key == kv.0, r.value == kv.1 { let (k, v) = (&kv.0, &kv.1); $$e }))
//@subst ApiKv::new($$k, $$v) ~> ApiKv { key: $$k, value: $$v }
//@ret r
//@contract
    ensures pairs_are(resource.attrs@, r.0@)
//@endfn
impl<'a> From<&'a SdkResource> for ResourceAttributesWithSchema {
    spec fn conv(x: &'a SdkResource, r: ResourceAttributesWithSchema) -> bool { pairs_are(x.attrs@, r.attributes.0@) && r.schema_url == x.url }
//@fn opentelemetry-proto/src/transform/common.rs mod tonic :: impl From<&opentelemetry_sdk::Resource> for ResourceAttributesWithSchema :: fn from
//@sig fn from_(resource: &'a SdkResource) -> Self
//@endfn
}
impl<'a> From<&'a SdkResource> for Resource {
    spec fn conv(x: &'a SdkResource, r: Resource) -> bool { pairs_are(x.attrs@, r.attributes@) && r.dropped_attributes_count == 0 }
//@fn opentelemetry-proto/src/transform/metrics.rs mod tonic :: impl From<&SdkResource> for TonicResource :: fn from
//@sig fn from_(resource: &'a SdkResource) -> Self
//@subst TonicResource { ~> Resource {
//@endfn
}
spec fn resource_is(x: ResourceAttributesWithSchema, r: Option<Resource>, url: Text) -> bool { r is Some && r->0.attributes@ == x.attributes.0@ && r->0.dropped_attributes_count == 0 && url.c() == opt_text(x.schema_url) }
// ---- traces ----
//@item opentelemetry/src/trace/span.rs enum SpanKind
//@item opentelemetry/src/trace/span.rs enum Status
//@ subst enum Status ~> enum ApiStatus
//@item opentelemetry/src/trace/mod.rs struct Event
//@ subst KeyValue ~> ApiKv
//@item opentelemetry/src/trace/mod.rs struct Link
//@ subst KeyValue ~> ApiKv
//@item opentelemetry-sdk/src/trace/events.rs struct SpanEvents
//@item opentelemetry-sdk/src/trace/links.rs struct SpanLinks
//@item opentelemetry-sdk/src/trace/export.rs struct SpanData
//@ subst KeyValue ~> ApiKv
//@ subst crate::trace::SpanEvents ~> SpanEvents
//@ subst crate::trace::SpanLinks ~> SpanLinks
//@ subst status: Status ~> status: ApiStatus
//@ subst InstrumentationScope ~> ApiScope
impl SpanData { #[verifier::external_body] fn clone(&self) -> (r: SpanData) ensures r == *self { unimplemented!() } }
impl SpanEvents { fn into_iter(self) -> (r: Vec<Event>) ensures r == self.events { self.events } }
impl SpanLinks { fn into_iter(self) -> (r: Vec<Link>) ensures r == self.links { self.links } }
//@gsubst span::SpanKind ~> PbSpanKind
//@gsubst span::Link ~> SpanLink
//@gsubst span::Event ~> SpanEvent
//@gsubst status::StatusCode ~> StatusCode
//@gsubst trace::Status ~> ApiStatus
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.trace.v1.rs mod span :: enum SpanKind
//@ subst enum SpanKind ~> #[derive(Clone, Copy)] enum PbSpanKind
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.trace.v1.rs mod span :: struct Link
//@ subst struct Link ~> struct SpanLink
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.trace.v1.rs mod span :: struct Event
//@ subst struct Event ~> struct SpanEvent
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.trace.v1.rs mod status :: enum StatusCode
//@ subst enum StatusCode ~> #[derive(Clone, Copy)] enum StatusCode
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.trace.v1.rs struct Status
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.trace.v1.rs struct Span
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.trace.v1.rs struct ScopeSpans
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.trace.v1.rs struct ResourceSpans
/// the numbers of the protocol
spec fn kind_number(k: SpanKind) -> i32 { match k { SpanKind::Internal => 1, SpanKind::Server => 2, SpanKind::Client => 3, SpanKind::Producer => 4, SpanKind::Consumer => 5 } }
spec fn status_number(s: ApiStatus) -> i32 { match s { ApiStatus::Unset => 0, ApiStatus::Ok => 1, ApiStatus::Error { .. } => 2 } }
spec fn status_is(s: ApiStatus, r: Option<Status>) -> bool { r is Some && r->0.code == status_number(s) && r->0.message.c() == (match s { ApiStatus::Error { description } => description.c(), _ => Seq::empty() }) }
spec fn event_is(e: Event, r: SpanEvent) -> bool { time_is(e.timestamp, r.time_unix_nano) && r.name.c() == e.name.c() && attrs_are(e.attributes@, r.attributes@) && r.dropped_attributes_count == e.dropped_attributes_count }
spec fn link_is(l: Link, r: SpanLink) -> bool {
    r.trace_id@ == tid(l.span_context.trace_id) && r.span_id@ == sid(l.span_context.span_id) && r.trace_state.c() == state_header(l.span_context.trace_state) && attrs_are(l.attributes@, r.attributes@)
        && r.dropped_attributes_count == l.dropped_attributes_count && r.flags == flags(l.span_context.trace_flags)
}
spec fn events_are(a: Seq<Event>, b: Seq<SpanEvent>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> event_is(a[i], #[trigger] b[i]) }
spec fn links_are(a: Seq<Link>, b: Seq<SpanLink>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> link_is(a[i], #[trigger] b[i]) }
spec fn parent_is(p: SpanId, b: Seq<u8>) -> bool { if sid(p) == seq![0u8, 0, 0, 0, 0, 0, 0, 0] { b.len() == 0 } else { b == sid(p) } }
spec fn span_is(s: SpanData, r: Span) -> bool {
    &&& r.trace_id@ == tid(s.span_context.trace_id) && r.span_id@ == sid(s.span_context.span_id) && r.trace_state.c() == state_header(s.span_context.trace_state) && r.flags == flags(s.span_context.trace_flags)
    &&& parent_is(s.parent_span_id, r.parent_span_id@) && r.name.c() == s.name.c() && r.kind == kind_number(s.span_kind)
    &&& time_is(s.start_time, r.start_time_unix_nano) && time_is(s.end_time, r.end_time_unix_nano)
    &&& attrs_are(s.attributes@, r.attributes@) && r.dropped_attributes_count == s.dropped_attributes_count
    &&& events_are(s.events.events@, r.events@) && r.dropped_events_count == s.events.dropped_count
    &&& links_are(s.links.links@, r.links@) && r.dropped_links_count == s.links.dropped_count
    &&& status_is(s.status, r.status)
}
// (prost's numbering)
impl From<StatusCode> for i32 { spec fn conv(t: StatusCode, r: i32) -> bool { r == t as i32 } fn from_(t: StatusCode) -> i32 { t as i32 } }
impl From<SpanKind> for PbSpanKind {
    spec fn conv(t: SpanKind, r: PbSpanKind) -> bool { r as i32 == kind_number(t) }
//@fn opentelemetry-proto/src/transform/trace.rs mod tonic :: impl From<SpanKind> for span::SpanKind :: fn from
//@sig fn from_(span_kind: SpanKind) -> Self
//@endfn
}
impl<'a> From<&'a ApiStatus> for StatusCode {
    spec fn conv(t: &'a ApiStatus, r: StatusCode) -> bool { r as i32 == status_number(*t) }
//@fn opentelemetry-proto/src/transform/trace.rs mod tonic :: impl From<&trace::Status> for status::StatusCode :: fn from
//@sig fn from_(status: &'a ApiStatus) -> Self
//@endfn
}
impl From<Link> for SpanLink {
    spec fn conv(t: Link, r: SpanLink) -> bool { link_is(t, r) }
//@fn opentelemetry-proto/src/transform/trace.rs mod tonic :: impl From<Link> for span::Link :: fn from
//@name from_
//@endfn
}
impl From<SpanData> for Span {
    spec fn conv(t: SpanData, r: Span) -> bool { span_is(t, r) }
//@fn opentelemetry-proto/src/transform/trace.rs mod tonic :: impl From<opentelemetry_sdk::trace::SpanData> for Span :: fn from
//@name from_
//@subst .into_iter().map(|event| $$e).collect() ~> .into_iter().mapped(|event: Event| -> (r: SpanEvent) ensures event_is(event, r) { $$e })
//@subst source_span.links.mapped_into() ~> source_span.links.into_iter().mapped_into()
//@subst Default::default() ~> Text::empty()
//@endfn
}
// ---- tracez: the spans of a zPage ----
//@gsubst super::super::trace::v1::SpanEvent ~> SpanEvent
//@gsubst super::super::trace::v1::SpanLink ~> SpanLink
//@gsubst super::super::trace::v1::Status ~> Status
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.tracez.v1.rs struct LatencyData
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.tracez.v1.rs struct ErrorData
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.tracez.v1.rs struct RunningData
impl From<Event> for SpanEvent {
    spec fn conv(t: Event, r: SpanEvent) -> bool { event_is(t, r) }
//@fn opentelemetry-proto/src/transform/tracez.rs mod tonic :: impl From<Event> for SpanEvent :: fn from
//@name from_
//@endfn
}
//@gsubst span_data.events.iter().cloned().map(Into::into).collect() ~> span_data.events.into_iter().mapped_into()
//@gsubst span_data.links.iter().cloned().map(Into::into).collect() ~> span_data.links.into_iter().mapped_into()
impl From<SpanData> for LatencyData {
    spec fn conv(t: SpanData, r: LatencyData) -> bool {
        r.traceid@ == tid(t.span_context.trace_id) && r.spanid@ == sid(t.span_context.span_id) && r.parentid@ == sid(t.parent_span_id) && time_is(t.start_time, r.starttime) && time_is(t.end_time, r.endtime)
            && attrs_are(t.attributes@, r.attributes@) && events_are(t.events.events@, r.events@) && links_are(t.links.links@, r.links@)
    }
//@fn opentelemetry-proto/src/transform/tracez.rs mod tonic :: impl From<SpanData> for LatencyData :: fn from
//@name from_
//@endfn
}
impl From<SpanData> for ErrorData {
    spec fn conv(t: SpanData, r: ErrorData) -> bool {
        r.traceid@ == tid(t.span_context.trace_id) && r.spanid@ == sid(t.span_context.span_id) && r.parentid@ == sid(t.parent_span_id) && time_is(t.start_time, r.starttime)
            && attrs_are(t.attributes@, r.attributes@) && events_are(t.events.events@, r.events@) && links_are(t.links.links@, r.links@)
            && (match t.status { ApiStatus::Error { description } => r.status is Some && r.status->0.code == 2 && r.status->0.message.c() == description.c(), _ => r.status is None })
    }
//@fn opentelemetry-proto/src/transform/tracez.rs mod tonic :: impl From<SpanData> for ErrorData :: fn from
//@name from_
//@subst Status::Error ~> ApiStatus::Error
//@subst SpanStatus { ~> Status {
//@endfn
}
impl From<SpanData> for RunningData {
    spec fn conv(t: SpanData, r: RunningData) -> bool {
        r.traceid@ == tid(t.span_context.trace_id) && r.spanid@ == sid(t.span_context.span_id) && r.parentid@ == sid(t.parent_span_id) && time_is(t.start_time, r.starttime)
            && attrs_are(t.attributes@, r.attributes@) && events_are(t.events.events@, r.events@) && links_are(t.links.links@, r.links@)
    }
//@fn opentelemetry-proto/src/transform/tracez.rs mod tonic :: impl From<SpanData> for RunningData :: fn from
//@name from_
//@endfn
}
impl ResourceSpans {
//@fn opentelemetry-proto/src/transform/trace.rs mod tonic :: impl ResourceSpans :: fn new
//@subst .into_iter().map(|event| $$e).collect() ~> .into_iter().mapped(|event: Event| -> (r: SpanEvent) ensures event_is(event, r) { $$e })
//@subst source_span.links.mapped_into() ~> source_span.links.into_iter().mapped_into()
//@subst Default::default() ~> Text::empty()
//@ret r
//@contract
    ensures resource_is(*resource, r.resource, r.schema_url), r.scope_spans@.len() == 1,
        r.scope_spans@[0].scope is Some, scope_is(source_span.instrumentation_scope, None, r.scope_spans@[0].scope->0), r.scope_spans@[0].schema_url.c() == opt_text(source_span.instrumentation_scope.schema_url),
        r.scope_spans@[0].spans@.len() == 1, span_is(source_span, r.scope_spans@[0].spans@[0])
//@endfn
}
// ---- grouping ----
trait Class { spec fn class(&self) -> int; }
/// two scopes are of one class if they are equal (C27)
uninterp spec fn scope_class(s: ApiScope) -> int;
impl<'a> Class for &'a ApiScope { spec fn class(&self) -> int { scope_class(**self) } }
uninterp spec fn both(t: Option<Seq<char>>, s: int) -> int;
spec fn opt_c(o: Option<Text>) -> Option<Seq<char>> { match o { Some(t) => Some(t.c()), None => None } }
axiom fn both_apart(t: Option<Seq<char>>, s: int, t2: Option<Seq<char>>, s2: int) ensures both(t, s) == both(t2, s2) ==> t == t2 && s == s2;
impl<'a> Class for (Option<&'a Text>, &'a ApiScope) { spec fn class(&self) -> int { both(match self.0 { Some(t) => Some(t.c()), None => None }, scope_class(*self.1)) } }
/// a HashMap of Vecs
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(T)] struct Groups<'a, K, T> { p: core::marker::PhantomData<&'a (K, T)> }
spec fn pushed<T>(m: Map<int, Seq<T>>, k: int, t: T) -> Map<int, Seq<T>> { m.insert(k, if m.contains_key(k) { m[k].push(t) } else { seq![t] }) }
spec fn listed<K: Class, T>(s: Seq<(K, Vec<&T>)>, m: Map<int, Seq<T>>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.class() != (#[trigger] s[j]).0.class()
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0.class()) && s[i].1@.len() == m[s[i].0.class()].len() && forall|j: int| 0 <= j < s[i].1@.len() ==> *(#[trigger] s[i].1@[j]) == m[s[i].0.class()][j]
    &&& forall|k: int| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.class() == k
}
impl<'a, K: Class, T> Groups<'a, K, T> {
    uninterp spec fn m(&self) -> Map<int, Seq<T>>;
    #[verifier::external_body] fn new() -> (r: Groups<'a, K, T>) ensures r.m() == Map::<int, Seq<T>>::empty() { unimplemented!() }
    #[verifier::external_body] fn push_to(&mut self, k: K, t: &'a T) ensures final(self).m() == pushed(old(self).m(), k.class(), *t) { unimplemented!() }
    #[verifier::external_body] fn into_iter(self) -> (r: Vec<(K, Vec<&'a T>)>) ensures listed(r@, self.m()) { unimplemented!() }
}
//@gsubst .entry($$k).or_default().push($$v) ~> .push_to($$k, $$v)
/// the elements of one class, in their order
spec fn of_class<T>(s: Seq<T>, c: spec_fn(T) -> int, k: int) -> Seq<T> decreases s.len() { if s.len() == 0 { seq![] } else if c(s.last()) == k { of_class(s.drop_last(), c, k).push(s.last()) } else { of_class(s.drop_last(), c, k) } }
proof fn class_has<T>(s: Seq<T>, c: spec_fn(T) -> int, j: int) requires 0 <= j < s.len() ensures of_class(s, c, c(s[j])).len() > 0 decreases s.len() { if j < s.len() - 1 { class_has(s.drop_last(), c, j); assert(s.drop_last()[j] == s[j]); } }
spec fn class_map<T>(m: Map<int, Seq<T>>, s: Seq<T>, c: spec_fn(T) -> int) -> bool { forall|k: int| (#[trigger] m.contains_key(k) <==> of_class(s, c, k).len() > 0) && (m.contains_key(k) ==> m[k] == of_class(s, c, k)) }
proof fn class_push<T>(m: Map<int, Seq<T>>, s: Seq<T>, c: spec_fn(T) -> int, n: int) requires 0 <= n < s.len(), class_map(m, s.take(n), c) ensures class_map(pushed(m, c(s[n]), s[n]), s.take(n + 1), c) {
    assert(s.take(n + 1).drop_last() =~= s.take(n));
    assert(s.take(n + 1).last() == s[n]);
    let k0 = c(s[n]);
    let m2 = pushed(m, k0, s[n]);
    assert(m.contains_key(k0) || !m.contains_key(k0));
    assert forall|k: int| (#[trigger] m2.contains_key(k) <==> of_class(s.take(n + 1), c, k).len() > 0) && (m2.contains_key(k) ==> m2[k] == of_class(s.take(n + 1), c, k)) by {
        assert(m.contains_key(k) || !m.contains_key(k));
        if k == k0 && !m.contains_key(k0) { assert(of_class(s.take(n), c, k0) =~= seq![]); assert(of_class(s.take(n + 1), c, k) =~= seq![s[n]]); }
    }
}
spec fn span_class() -> spec_fn(SpanData) -> int { |s: SpanData| scope_class(s.instrumentation_scope) }
/// one ScopeSpans for the spans of one scope, in their order
spec fn group_is(k: ApiScope, spans: Seq<SpanData>, r: ScopeSpans) -> bool {
    let mine = of_class(spans, span_class(), scope_class(k));
    mine.len() > 0 && r.scope is Some && scope_is(k, None, r.scope->0) && r.schema_url.c() == opt_text(k.schema_url) && r.spans@.len() == mine.len() && forall|i: int| 0 <= i < mine.len() ==> span_is(mine[i], #[trigger] r.spans@[i])
}
spec fn grouped(keys: Seq<ApiScope>, spans: Seq<SpanData>, r: Seq<ScopeSpans>) -> bool {
    &&& keys.len() == r.len() && forall|i: int| 0 <= i < r.len() ==> group_is(keys[i], spans, #[trigger] r[i])
    &&& forall|i: int, j: int| 0 <= i < j < keys.len() ==> scope_class(#[trigger] keys[i]) != scope_class(#[trigger] keys[j])
    &&& forall|j: int| 0 <= j < spans.len() ==> exists|i: int| 0 <= i < keys.len() && scope_class(#[trigger] keys[i]) == scope_class((#[trigger] spans[j]).instrumentation_scope)
}
spec fn one_scope(k: ApiScope, mine: Seq<&SpanData>, r: ScopeSpans) -> bool { r.scope is Some && scope_is(k, None, r.scope->0) && r.schema_url.c() == opt_text(k.schema_url) && r.spans@.len() == mine.len() && forall|i: int| 0 <= i < mine.len() ==> span_is(*mine[i], #[trigger] r.spans@[i]) }
spec fn by_scope(spans: Seq<SpanData>, r: Seq<ScopeSpans>) -> bool { exists|keys: Seq<ApiScope>| grouped(keys, spans, r) }
proof fn grouped_all(gs: Seq<(&ApiScope, Vec<&SpanData>)>, spans: Seq<SpanData>, r: Seq<ScopeSpans>)
    requires exists|m: Map<int, Seq<SpanData>>| listed(gs, m) && #[trigger] class_map(m, spans, span_class()), gs.len() == r.len(), forall|i: int| 0 <= i < r.len() ==> one_scope(*gs[i].0, gs[i].1@, #[trigger] r[i])
    ensures by_scope(spans, r)
{
    let m = choose|m: Map<int, Seq<SpanData>>| listed(gs, m) && #[trigger] class_map(m, spans, span_class());
    let keys = Seq::new(gs.len(), |i: int| *gs[i].0);
    assert forall|i: int| 0 <= i < r.len() implies group_is(keys[i], spans, #[trigger] r[i]) by {
        assert(m.contains_key(gs[i].0.class()));
        assert forall|j: int| 0 <= j < of_class(spans, span_class(), scope_class(keys[i])).len() implies span_is(of_class(spans, span_class(), scope_class(keys[i]))[j], #[trigger] r[i].spans@[j]) by { assert(*gs[i].1@[j] == m[gs[i].0.class()][j]); }
    }
    assert forall|j: int| 0 <= j < spans.len() implies exists|i: int| 0 <= i < keys.len() && scope_class(#[trigger] keys[i]) == scope_class((#[trigger] spans[j]).instrumentation_scope) by {
        let c = scope_class(spans[j].instrumentation_scope);
        class_has(spans, span_class(), j);
        assert(m.contains_key(c));
        let i = choose|i: int| 0 <= i < gs.len() && (#[trigger] gs[i]).0.class() == c;
        assert(scope_class(keys[i]) == c);
    }
    assert forall|i: int, j: int| 0 <= i < j < keys.len() implies scope_class(#[trigger] keys[i]) != scope_class(#[trigger] keys[j]) by { assert(gs[i].0.class() != gs[j].0.class()); }
    assert(grouped(keys, spans, r));
}
//@fn opentelemetry-proto/src/transform/trace.rs mod tonic :: fn group_spans_by_resource_and_scope
//@sig #[verifier::loop_isolation(false)] fn group_spans_by_resource_and_scope(spans: Vec<SpanData>, resource: &ResourceAttributesWithSchema) -> Vec<ResourceSpans>
//@subst spans.iter().fold(HashMap::new(), |$$p| { $$b scope_map } $$z) ~> { let mut scope_map: Groups<&ApiScope, SpanData> = Groups::new(); for k in 0..spans.len() { let span = &spans[k]; $$b } scope_map }
//@subst scope_map.into_iter().map(|(instrumentation, span_records)| $$e).collect() ~> { let groups = scope_map.into_iter(); let ghost gs = groups@; let rs = groups.mapped(|g: (&ApiScope, Vec<&SpanData>)| -> (r: ScopeSpans) ensures one_scope(*g.0, g.1@, r) { let (instrumentation, span_records) = g; $$e }); proof { grouped_all(gs, spans@, rs@); } rs }
//@subst .into_iter().map(|span_data| $$e).collect() ~> .mapped(|span_data: &SpanData| -> (r: Span) ensures span_is(*span_data, r) { $$e })
//@ret r
//@contract
    ensures r@.len() == 1, resource_is(*resource, r@[0].resource, r@[0].schema_url), by_scope(spans@, r@[0].scope_spans@)
//@loop 0
        invariant class_map(scope_map.m(), spans@.take(k as int), span_class())
//@inloop 0
        let ghost m0 = scope_map.m();
//@endinloop 0
        proof { class_push(m0, spans@, span_class(), k as int); assert(scope_map.m() == pushed(m0, scope_class(spans@[k as int].instrumentation_scope), spans@[k as int])); }
//@afterloop 0
        proof { assert(spans@.take(spans@.len() as int) =~= spans@); }
//@endfn
// ---- logs ----
//@gsubst opentelemetry::logs::AnyValue ~> LogsAnyValue
//@gsubst Box<HashMap<Key, $v>> ~> Box<Vec<(Key, $v)>>
//@item opentelemetry/src/logs/record.rs enum AnyValue
//@ subst AnyValue ~> LogsAnyValue
//@item opentelemetry/src/logs/record.rs enum Severity
//@ subst enum Severity ~> #[derive(Clone, Copy)] enum Severity
//@item opentelemetry-sdk/src/logs/record.rs struct TraceContext
//@item opentelemetry-sdk/src/logs/record.rs struct SdkLogRecord
//@ subst Option<AnyValue> ~> Option<LogsAnyValue>
//@ subst LogRecordAttributes ~> Vec<Option<(Key, LogsAnyValue)>>
//@item opentelemetry-sdk/src/logs/export.rs enum LogBatchData
//@ subst InstrumentationScope ~> ApiScope
//@item opentelemetry-sdk/src/logs/export.rs struct LogBatch
//@item opentelemetry-sdk/src/logs/export.rs struct LogBatchDataIter
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.logs.v1.rs enum SeverityNumber
//@ subst enum SeverityNumber ~> #[derive(Clone, Copy)] enum SeverityNumber
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.logs.v1.rs struct LogRecord
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.logs.v1.rs struct ScopeLogs
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.logs.v1.rs struct ResourceLogs
impl LogsAnyValue { #[verifier::external_body] fn clone(&self) -> (r: LogsAnyValue) ensures r == *self { unimplemented!() } }
trait Zero: Sized { spec fn zero_is(r: Self) -> bool; fn zero() -> (r: Self) ensures Self::zero_is(r); }
impl Zero for u32 { spec fn zero_is(r: u32) -> bool { r == 0 } fn zero() -> u32 { 0 } }
impl Zero for Vec<u8> { spec fn zero_is(r: Vec<u8>) -> bool { r@.len() == 0 } fn zero() -> Vec<u8> { Vec::new() } }
trait Dup { spec fn dt(&self) -> Option<Text>; fn dup(self) -> (r: Option<Text>) ensures r == self.dt(); }
impl<'a> Dup for Option<&'a Text> { spec fn dt(&self) -> Option<Text> { match *self { Some(t) => Some(*t), None => None } } fn dup(self) -> (r: Option<Text>) { match self { Some(t) => Some(*t), None => None } } }
impl SdkLogRecord {
//@fn opentelemetry-sdk/src/logs/record.rs impl SdkLogRecord :: fn event_name
//@ret r
//@contract
    ensures r == self.event_name
//@endfn
//@fn opentelemetry-sdk/src/logs/record.rs impl SdkLogRecord :: fn target
//@sig fn target(&self) -> Option<&Text>
//@ret r
//@contract
    ensures r == (match self.target { Some(t) => Some(&t), None => None::<&Text> })
//@endfn
//@fn opentelemetry-sdk/src/logs/record.rs impl SdkLogRecord :: fn timestamp
//@ret r
//@contract
    ensures r == self.timestamp
//@endfn
//@fn opentelemetry-sdk/src/logs/record.rs impl SdkLogRecord :: fn observed_timestamp
//@ret r
//@contract
    ensures r == self.observed_timestamp
//@endfn
//@fn opentelemetry-sdk/src/logs/record.rs impl SdkLogRecord :: fn trace_context
//@ret r
//@contract
    ensures r == (match self.trace_context { Some(t) => Some(&t), None => None::<&TraceContext> })
//@endfn
//@fn opentelemetry-sdk/src/logs/record.rs impl SdkLogRecord :: fn severity_text
//@ret r
//@contract
    ensures r == self.severity_text
//@endfn
//@fn opentelemetry-sdk/src/logs/record.rs impl SdkLogRecord :: fn severity_number
//@ret r
//@contract
    ensures r == self.severity_number
//@endfn
//@fn opentelemetry-sdk/src/logs/record.rs impl SdkLogRecord :: fn body
//@sig fn body(&self) -> Option<&LogsAnyValue>
//@ret r
//@contract
    ensures r == (match self.body { Some(t) => Some(&t), None => None::<&LogsAnyValue> })
//@endfn
//@fn opentelemetry-sdk/src/logs/record.rs impl SdkLogRecord :: fn attributes_iter
//@sig fn attributes_iter<'a>(&'a self) -> Vec<&'a (Key, LogsAnyValue)>
//@subst self.attributes.iter().filter_map(|opt| opt.as_ref()) ~> present(&self.attributes)
//@ret r
//@contract
    ensures all_present(self.attributes@, r@)
//@endfn
}
spec fn somes(s: Seq<Option<(Key, LogsAnyValue)>>) -> Seq<(Key, LogsAnyValue)> decreases s.len() { if s.len() == 0 { seq![] } else { match s.last() { Some(x) => somes(s.drop_last()).push(x), None => somes(s.drop_last()) } } }
spec fn all_present(s: Seq<Option<(Key, LogsAnyValue)>>, r: Seq<&(Key, LogsAnyValue)>) -> bool { r.len() == somes(s).len() && forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]) == somes(s)[i] }
fn present<'a>(v: &'a Vec<Option<(Key, LogsAnyValue)>>) -> (r: Vec<&'a (Key, LogsAnyValue)>) ensures all_present(v@, r@) {
    let mut out: Vec<&'a (Key, LogsAnyValue)> = Vec::new();
    for k in 0..v.len() invariant all_present(v@.take(k as int), out@) {
        proof { assert(v@.take(k + 1).drop_last() =~= v@.take(k as int)); }
        if let Some(x) = &v[k] { out.push(x); }
    }
    proof { assert(v@.take(v@.len() as int) =~= v@); }
    out
}
/// the message value holds exactly this value, at any depth
spec fn log_is(v: LogsAnyValue, p: PbValue) -> bool decreases v {
    match v {
        LogsAnyValue::Int(x) => p == PbValue::IntValue(x),
        LogsAnyValue::Double(x) => p == PbValue::DoubleValue(x),
        LogsAnyValue::Boolean(x) => p == PbValue::BoolValue(x),
        LogsAnyValue::String(x) => match p { PbValue::StringValue(t) => t.c() == x.c(), _ => false },
        LogsAnyValue::Bytes(x) => match p { PbValue::BytesValue(y) => y@ == x@, _ => false },
        LogsAnyValue::ListAny(l) => match p { PbValue::ArrayValue(a) => a.values@.len() == l@.len() && forall|i: int| 0 <= i < l@.len() ==> (#[trigger] a.values@[i]).value is Some && log_is(l@[i], a.values@[i].value->0), _ => false },
        LogsAnyValue::Map(l) => match p { PbValue::KvlistValue(a) => a.values@.len() == l@.len() && forall|i: int| 0 <= i < l@.len() ==> (#[trigger] a.values@[i]).key.c() == l@[i].0.c() && a.values@[i].value is Some && a.values@[i].value->0.value is Some && log_is(l@[i].1, a.values@[i].value->0.value->0), _ => false },
    }
}
spec fn log_kv_is(kv: (Key, LogsAnyValue), r: KeyValue) -> bool { r.key.c() == kv.0.c() && r.value is Some && r.value->0.value is Some && log_is(kv.1, r.value->0.value->0) }
//@fn opentelemetry-proto/src/transform/logs.rs mod tonic :: impl From<LogsAnyValue> for Value :: fn from
//@sig #[verifier::exec_allows_no_decreases_clause] fn log_value(value: LogsAnyValue) -> PbValue
//@subst Value:: ~> PbValue::
//@subst v.into_iter().map(|v| $$e).collect() ~> (*v).mapped(|v: LogsAnyValue| -> (r: AnyValue) ensures r.value is Some, log_is(v, r.value->0) { $$e })
//@subst m.into_iter().map(|(key, value)| $$e).collect() ~> (*m).mapped(|kv: (Key, LogsAnyValue)| -> (r: KeyValue) ensures log_kv_is(kv, r) { let (key, value) = kv; $$e })
//@subst v.into_() ~> log_value(v)
//@subst value.into_() ~> log_value(value)
//@ret r
//@contract
    ensures log_is(value, r)
//@endfn
impl From<LogsAnyValue> for PbValue { spec fn conv(v: LogsAnyValue, r: PbValue) -> bool { log_is(v, r) } fn from_(v: LogsAnyValue) -> PbValue { log_value(v) } }
impl From<LogsAnyValue> for AnyValue {
    spec fn conv(v: LogsAnyValue, r: AnyValue) -> bool { r.value is Some && log_is(v, r.value->0) }
//@fn opentelemetry-proto/src/transform/logs.rs mod tonic :: impl From<LogsAnyValue> for AnyValue :: fn from
//@name from_
//@endfn
}
impl From<SeverityNumber> for i32 { spec fn conv(t: SeverityNumber, r: i32) -> bool { r == t as i32 } fn from_(t: SeverityNumber) -> i32 { t as i32 } }
/// the severity numbers of the protocol and of the data model
spec fn severity_number(s: Option<Severity>) -> i32 { match s { None => 0, Some(s) => s as i32 } }
proof fn severities() ensures Severity::Trace as i32 == 1, Severity::Trace4 as i32 == 4, Severity::Debug as i32 == 5, Severity::Info as i32 == 9, Severity::Warn as i32 == 13, Severity::Error as i32 == 17, Severity::Fatal as i32 == 21, Severity::Fatal4 as i32 == 24 {}
spec fn context_is(c: Option<TraceContext>, r: LogRecord) -> bool {
    match c {
        Some(c) => r.trace_id@ == tid(c.trace_id) && r.span_id@ == sid(c.span_id) && r.flags == (match c.trace_flags { Some(f) => flags(f), None => 0 }),
        None => r.trace_id@.len() == 0 && r.span_id@.len() == 0 && r.flags == 0,
    }
}
spec fn log_record_is(l: SdkLogRecord, r: LogRecord) -> bool {
    &&& opt_time_is(l.timestamp, r.time_unix_nano) && opt_time_is(l.observed_timestamp, r.observed_time_unix_nano)
    &&& r.severity_number == severity_number(l.severity_number) && r.severity_text.c() == opt_text(l.severity_text) && r.event_name.c() == opt_text(l.event_name)
    &&& match l.body { Some(b) => r.body is Some && r.body->0.value is Some && log_is(b, r.body->0.value->0), None => r.body is None }
    &&& r.attributes@.len() == somes(l.attributes@).len() && forall|i: int| 0 <= i < r.attributes@.len() ==> log_kv_is(somes(l.attributes@)[i], #[trigger] r.attributes@[i])
    &&& r.dropped_attributes_count == 0 && context_is(l.trace_context, r)
}
impl<'a> From<&'a SdkLogRecord> for LogRecord {
    spec fn conv(l: &'a SdkLogRecord, r: LogRecord) -> bool { log_record_is(*l, r) }
//@fn opentelemetry-proto/src/transform/logs.rs mod tonic :: impl From<&opentelemetry_sdk::logs::SdkLogRecord> for LogRecord :: fn from
//@sig fn from_(log_record: &'a SdkLogRecord) -> Self
//@subst .attributes_iter().map(|kv| $$e).collect() ~> .attributes_iter().mapped(|kv: &(Key, LogsAnyValue)| -> (r: KeyValue) ensures log_kv_is(*kv, r) { $$e })
//@subst log_record.body().cloned().map(Into::into) ~> (match log_record.body() { Some(b) => Some(b.clone().into_()), None => None })
//@subst ctx.trace_flags.map(|flags| $$e).unwrap_or_default() ~> (match ctx.trace_flags { Some(flags) => $$e, None => Zero::zero() })
//@subst trace_context.map(|ctx| $$e).unwrap_or_default() ~> (match trace_context { Some(ctx) => $$e, None => Zero::zero() })
//@endfn
}
impl<'a> From<((&'a SdkLogRecord, &'a ApiScope), &'a ResourceAttributesWithSchema)> for ResourceLogs {
    spec fn conv(d: ((&'a SdkLogRecord, &'a ApiScope), &'a ResourceAttributesWithSchema), r: ResourceLogs) -> bool {
        &&& resource_is(*d.1, r.resource, r.schema_url) && r.scope_logs@.len() == 1 && r.scope_logs@[0].log_records@.len() == 1 && log_record_is(*d.0.0, r.scope_logs@[0].log_records@[0])
        &&& r.scope_logs@[0].scope is Some && scope_is(*d.0.1, d.0.0.target, r.scope_logs@[0].scope->0) && r.scope_logs@[0].schema_url.c() == opt_text(d.0.1.schema_url)
    }
//@fn opentelemetry-proto/src/transform/logs.rs mod tonic :: impl From<((&opentelemetry_sdk::logs::SdkLogRecord,&opentelemetry::InstrumentationScope,),&ResourceAttributesWithSchema,)> for ResourceLogs :: fn from
//@sig fn from_(data: ((&'a SdkLogRecord, &'a ApiScope), &'a ResourceAttributesWithSchema)) -> Self
//@subst .target().cloned() ~> .target().dup()
//@endfn
}
spec fn batch(d: LogBatchData) -> Seq<(SdkLogRecord, ApiScope)> {
    match d { LogBatchData::SliceOfOwnedData(s) => Seq::new(s@.len(), |i: int| *s@[i]), LogBatchData::SliceOfBorrowedData(s) => Seq::new(s@.len(), |i: int| (*s@[i].0, *s@[i].1)) }
}
impl<'a> LogBatch<'a> {
//@fn opentelemetry-sdk/src/logs/export.rs impl LogBatch<'_> :: fn iter
//@sig fn iter(&'a self) -> LogBatchDataIter<'a>
//@ret r
//@contract
    ensures *r.data == self.data, r.index == 0
//@endfn
}
impl<'a> LogBatchDataIter<'a> {
//@fn opentelemetry-sdk/src/logs/export.rs impl Iterator for LogBatchDataIter<'a> :: fn next
//@sig fn next(&mut self) -> Option<(&'a SdkLogRecord, &'a ApiScope)>
//@ret r
//@contract
    requires old(self).index <= batch(*old(self).data).len()
    ensures final(self).data == old(self).data,
        old(self).index < batch(*old(self).data).len() ==> r is Some && (*(r->0).0, *(r->0).1) == batch(*old(self).data)[old(self).index as int] && final(self).index == old(self).index + 1,
        old(self).index >= batch(*old(self).data).len() ==> r is None && final(self).index == old(self).index
//@endfn
}
spec fn log_key(x: (SdkLogRecord, ApiScope)) -> int { both(opt_c(x.0.target), scope_class(x.1)) }
spec fn log_class() -> spec_fn((SdkLogRecord, ApiScope)) -> int { |x: (SdkLogRecord, ApiScope)| log_key(x) }
spec fn firsts(s: Seq<(SdkLogRecord, ApiScope)>) -> Seq<SdkLogRecord> { Seq::new(s.len(), |i: int| s[i].0) }
type LogKey = (Option<Text>, ApiScope);
spec fn key_class(k: LogKey) -> int { both(opt_c(k.0), scope_class(k.1)) }
/// one ScopeLogs for the records of one target and scope, in their order
spec fn one_log_scope(k: LogKey, mine: Seq<SdkLogRecord>, r: ScopeLogs) -> bool {
    r.scope is Some && scope_is(k.1, k.0, r.scope->0) && r.schema_url.c() == opt_text(k.1.schema_url) && r.log_records@.len() == mine.len() && forall|i: int| 0 <= i < mine.len() ==> log_record_is(mine[i], #[trigger] r.log_records@[i])
}
spec fn logs_grouped(keys: Seq<LogKey>, logs: Seq<(SdkLogRecord, ApiScope)>, r: Seq<ScopeLogs>) -> bool {
    &&& keys.len() == r.len() && forall|i: int| 0 <= i < r.len() ==> of_class(logs, log_class(), key_class(keys[i])).len() > 0 && one_log_scope(keys[i], firsts(of_class(logs, log_class(), key_class(keys[i]))), #[trigger] r[i])
    &&& forall|i: int, j: int| 0 <= i < j < keys.len() ==> key_class(#[trigger] keys[i]) != key_class(#[trigger] keys[j])
    &&& forall|j: int| 0 <= j < logs.len() ==> exists|i: int| 0 <= i < keys.len() && key_class(#[trigger] keys[i]) == log_key(#[trigger] logs[j])
}
spec fn logs_by_scope(logs: Seq<(SdkLogRecord, ApiScope)>, r: Seq<ScopeLogs>) -> bool { exists|keys: Seq<LogKey>| logs_grouped(keys, logs, r) }
spec fn log_map(m: Map<int, Seq<SdkLogRecord>>, s: Seq<(SdkLogRecord, ApiScope)>) -> bool { forall|k: int| (#[trigger] m.contains_key(k) <==> of_class(s, log_class(), k).len() > 0) && (m.contains_key(k) ==> m[k] == firsts(of_class(s, log_class(), k))) }
proof fn log_push(m: Map<int, Seq<SdkLogRecord>>, s: Seq<(SdkLogRecord, ApiScope)>, n: int) requires 0 <= n < s.len(), log_map(m, s.take(n)) ensures log_map(pushed(m, log_key(s[n]), s[n].0), s.take(n + 1)) {
    assert(s.take(n + 1).drop_last() =~= s.take(n));
    assert(s.take(n + 1).last() == s[n]);
    let k0 = log_key(s[n]);
    let m2 = pushed(m, k0, s[n].0);
    assert(m.contains_key(k0) || !m.contains_key(k0));
    assert forall|k: int| (#[trigger] m2.contains_key(k) <==> of_class(s.take(n + 1), log_class(), k).len() > 0) && (m2.contains_key(k) ==> m2[k] == firsts(of_class(s.take(n + 1), log_class(), k))) by {
        assert(m.contains_key(k) || !m.contains_key(k));
        assert(firsts(of_class(s.take(n), log_class(), k).push(s[n])) =~= firsts(of_class(s.take(n), log_class(), k)).push(s[n].0));
        if k == k0 && !m.contains_key(k0) { assert(of_class(s.take(n), log_class(), k0) =~= seq![]); assert(firsts(of_class(s.take(n + 1), log_class(), k)) =~= seq![s[n].0]); }
    }
}
proof fn logs_grouped_all(gs: Seq<((Option<&Text>, &ApiScope), Vec<&SdkLogRecord>)>, logs: Seq<(SdkLogRecord, ApiScope)>, r: Seq<ScopeLogs>)
    requires exists|m: Map<int, Seq<SdkLogRecord>>| listed(gs, m) && #[trigger] log_map(m, logs), gs.len() == r.len(), forall|i: int| 0 <= i < r.len() ==> one_log_scope(own(gs[i].0), derefs(gs[i].1@), #[trigger] r[i])
    ensures logs_by_scope(logs, r)
{
    let m = choose|m: Map<int, Seq<SdkLogRecord>>| listed(gs, m) && #[trigger] log_map(m, logs);
    let keys = Seq::new(gs.len(), |i: int| own(gs[i].0));
    assert forall|i: int| 0 <= i < r.len() implies of_class(logs, log_class(), key_class(keys[i])).len() > 0 && one_log_scope(keys[i], firsts(of_class(logs, log_class(), key_class(keys[i]))), #[trigger] r[i]) by {
        assert(gs[i].0.class() == key_class(keys[i]));
        assert(m.contains_key(gs[i].0.class()));
        assert(derefs(gs[i].1@) =~= m[gs[i].0.class()]);
    }
    assert forall|j: int| 0 <= j < logs.len() implies exists|i: int| 0 <= i < keys.len() && key_class(#[trigger] keys[i]) == log_key(#[trigger] logs[j]) by {
        let c = log_key(logs[j]);
        class_has(logs, log_class(), j);
        assert(m.contains_key(c));
        let i = choose|i: int| 0 <= i < gs.len() && (#[trigger] gs[i]).0.class() == c;
        assert(key_class(keys[i]) == c);
    }
    assert forall|i: int, j: int| 0 <= i < j < keys.len() implies key_class(#[trigger] keys[i]) != key_class(#[trigger] keys[j]) by { assert(gs[i].0.class() != gs[j].0.class()); }
    assert(logs_grouped(keys, logs, r));
}
spec fn own(k: (Option<&Text>, &ApiScope)) -> LogKey { (match k.0 { Some(t) => Some(*t), None => None }, *k.1) }
spec fn derefs<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
//@fn opentelemetry-proto/src/transform/logs.rs mod tonic :: fn group_logs_by_resource_and_scope
//@sig #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::exec_allows_no_decreases_clause] fn group_logs_by_resource_and_scope(logs: LogBatch<'_>, resource: &ResourceAttributesWithSchema) -> Vec<ResourceLogs>
//@subst logs.iter().fold(HashMap::new(), |$$p| { $$b scope_map } $$z) ~> { let mut it = logs.iter(); let mut scope_map: Groups<(Option<&Text>, &ApiScope), SdkLogRecord> = Groups::new(); loop { match it.next() { None => { break; } Some((log_record, instrumentation)) => { $$b } } } scope_map }
//@subst scope_map.into_iter().map(|$$q| $$e).collect() ~> { let groups = scope_map.into_iter(); let ghost gs = groups@; let rs = groups.mapped(|g: ((Option<&Text>, &ApiScope), Vec<&SdkLogRecord>)| -> (r: ScopeLogs) ensures one_log_scope(own(g.0), derefs(g.1@), r) { let $$q = g; $$e }); proof { logs_grouped_all(gs, batch(logs.data), rs@); } rs }
//@subst target.cloned() ~> target.dup()
//@subst log_records.mapped_into() ~> log_records.mapped_into()
//@ret r
//@contract
    ensures r@.len() == 1, resource_is(*resource, r@[0].resource, r@[0].schema_url), logs_by_scope(batch(logs.data), r@[0].scope_logs@)
//@loop 0
        invariant it.index <= batch(logs.data).len(), *it.data == logs.data, log_map(scope_map.m(), batch(logs.data).take(it.index as int))
        ensures log_map(scope_map.m(), batch(logs.data))
//@inloop 0
        let ghost m0 = scope_map.m();
        let ghost n0 = it.index as int;
        proof { assert(batch(logs.data).take(batch(logs.data).len() as int) =~= batch(logs.data)); }
//@endinloop 0
        proof { log_push(m0, batch(logs.data), n0); assert(scope_map.m() == pushed(m0, log_key(batch(logs.data)[n0]), batch(logs.data)[n0].0)); }
//@endfn
// ---- metrics ----
//@gsubst exemplar::Value ~> TonicExemplarValue
//@gsubst number_data_point::Value ~> TonicDataPointValue
//@gsubst metric::Data ~> TonicMetricData
//@gsubst exponential_histogram_data_point::Buckets ~> TonicBuckets
//@gsubst TonicTemporality ~> AggregationTemporality
//@gsubst TonicDataPointFlags::default() ~> DataPointFlags::DoNotUse
//@gsubst i64::try_from($$e).unwrap_or_default() ~> i64_or($$e, 0)
//@gsubst i64::try_from($$e).unwrap_or($$d) ~> i64_or($$e, $$d)
//@gsubst i64::try_from($$e) ~> i64_of($$e)
//@gsubst .map(Numeric::into_f64) ~> .opt_f64()
//@gsubst otel_debug!($$m); ~>
//@gsubst super::super::super::metrics::v1::ResourceMetrics ~> TonicResourceMetrics
//@gsubst Cow<'static, str> ~> Text
struct TryErr { _p: u8 }
fn i64_of(x: u64) -> (r: Result<i64, TryErr>) ensures r is Ok == (x <= i64::MAX), r is Ok ==> r->Ok_0 == x { if x <= i64::MAX as u64 { Ok(x as i64) } else { Err(TryErr { _p: 0 }) } }
//@item opentelemetry-sdk/src/metrics/mod.rs enum Temporality
//@ subst enum Temporality ~> #[derive(Clone, Copy)] enum Temporality
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct Exemplar
//@ subst struct Exemplar ~> struct SdkExemplar
//@ subst KeyValue ~> ApiKv
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct GaugeDataPoint
//@ subst KeyValue ~> ApiKv
//@ subst Exemplar<T> ~> SdkExemplar<T>
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct SumDataPoint
//@ subst KeyValue ~> ApiKv
//@ subst Exemplar<T> ~> SdkExemplar<T>
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct HistogramDataPoint
//@ subst KeyValue ~> ApiKv
//@ subst Exemplar<T> ~> SdkExemplar<T>
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct ExponentialBucket
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct ExponentialHistogramDataPoint
//@ subst KeyValue ~> ApiKv
//@ subst Exemplar<T> ~> SdkExemplar<T>
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct Gauge
//@ subst struct Gauge ~> struct SdkGauge
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct Sum
//@ subst struct Sum ~> struct SdkSum
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct Histogram
//@ subst struct Histogram ~> struct SdkHistogram
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct ExponentialHistogram
//@ subst struct ExponentialHistogram ~> struct SdkExponentialHistogram
//@item opentelemetry-sdk/src/metrics/data/mod.rs enum MetricData
//@ subst Gauge(Gauge<T>) ~> Gauge(SdkGauge<T>)
//@ subst Sum(Sum<T>) ~> Sum(SdkSum<T>)
//@ subst Histogram(Histogram<T>) ~> Histogram(SdkHistogram<T>)
//@ subst ExponentialHistogram(ExponentialHistogram<T>) ~> ExponentialHistogram(SdkExponentialHistogram<T>)
//@item opentelemetry-sdk/src/metrics/data/mod.rs enum AggregatedMetrics
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct Metric
//@ subst struct Metric ~> struct SdkMetric
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct ScopeMetrics
//@ subst struct ScopeMetrics ~> struct SdkScopeMetrics
//@ subst InstrumentationScope ~> ApiScope
//@ subst Vec<Metric> ~> Vec<SdkMetric>
//@item opentelemetry-sdk/src/metrics/data/mod.rs struct ResourceMetrics
//@ subst resource: Resource ~> resource: SdkResource
//@ subst Vec<ScopeMetrics> ~> Vec<SdkScopeMetrics>
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.metrics.v1.rs mod exemplar :: enum Value
//@ subst enum Value ~> enum TonicExemplarValue
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.metrics.v1.rs mod number_data_point :: enum Value
//@ subst enum Value ~> enum TonicDataPointValue
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.metrics.v1.rs struct Exemplar
//@ subst struct Exemplar ~> struct TonicExemplar
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.metrics.v1.rs struct NumberDataPoint
//@ subst struct NumberDataPoint ~> struct TonicNumberDataPoint
//@ subst Vec<Exemplar> ~> Vec<TonicExemplar>
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.metrics.v1.rs struct HistogramDataPoint
//@ subst struct HistogramDataPoint ~> struct TonicHistogramDataPoint
//@ subst Vec<Exemplar> ~> Vec<TonicExemplar>
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.metrics.v1.rs mod exponential_histogram_data_point :: struct Buckets
//@ subst struct Buckets ~> struct TonicBuckets
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.metrics.v1.rs struct ExponentialHistogramDataPoint
//@ subst struct ExponentialHistogramDataPoint ~> struct TonicExponentialHistogramDataPoint
//@ subst Vec<Exemplar> ~> Vec<TonicExemplar>
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.metrics.v1.rs struct Gauge
//@ subst struct Gauge ~> struct TonicGauge
//@ subst Vec<NumberDataPoint> ~> Vec<TonicNumberDataPoint>
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.metrics.v1.rs struct Sum
//@ subst struct Sum ~> struct TonicSum
//@ subst Vec<NumberDataPoint> ~> Vec<TonicNumberDataPoint>
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.metrics.v1.rs struct Histogram
//@ subst struct Histogram ~> struct TonicHistogram
//@ subst Vec<HistogramDataPoint> ~> Vec<TonicHistogramDataPoint>
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.metrics.v1.rs struct ExponentialHistogram
//@ subst struct ExponentialHistogram ~> struct TonicExponentialHistogram
//@ subst Vec<ExponentialHistogramDataPoint> ~> Vec<TonicExponentialHistogramDataPoint>
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.metrics.v1.rs struct Summary
//@ subst Vec<SummaryDataPoint> ~> Vec<u8>
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.metrics.v1.rs mod metric :: enum Data
//@ subst enum Data ~> enum TonicMetricData
//@ subst super::Gauge ~> TonicGauge
//@ subst super::Sum ~> TonicSum
//@ subst super::Histogram ~> TonicHistogram
//@ subst super::ExponentialHistogram ~> TonicExponentialHistogram
//@ subst super::Summary ~> Summary
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.metrics.v1.rs struct Metric
//@ subst struct Metric ~> struct TonicMetric
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.metrics.v1.rs struct ScopeMetrics
//@ subst struct ScopeMetrics ~> struct TonicScopeMetrics
//@ subst Vec<Metric> ~> Vec<TonicMetric>
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.metrics.v1.rs struct ResourceMetrics
//@ subst struct ResourceMetrics ~> struct TonicResourceMetrics
//@ subst Vec<ScopeMetrics> ~> Vec<TonicScopeMetrics>
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.metrics.v1.rs enum AggregationTemporality
//@ subst enum AggregationTemporality ~> #[derive(Clone, Copy)] enum AggregationTemporality
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.metrics.v1.rs enum DataPointFlags
//@ subst enum DataPointFlags ~> #[derive(Clone, Copy)] enum DataPointFlags
//@item opentelemetry-proto/src/proto/tonic/opentelemetry.proto.collector.metrics.v1.rs struct ExportMetricsServiceRequest
/// an unsigned number too large for the protocol is reported as the largest there is
spec fn saturated(x: u64) -> i64 { if x <= i64::MAX { x as i64 } else { i64::MAX } }
fn i64_or(x: u64, d: i64) -> (r: i64) ensures r == (if x <= i64::MAX { x as i64 } else { d }) { if x <= i64::MAX as u64 { x as i64 } else { d } }
impl From<u64> for TonicExemplarValue {
    spec fn conv(t: u64, r: TonicExemplarValue) -> bool { r == TonicExemplarValue::AsInt(saturated(t)) }
//@fn opentelemetry-proto/src/transform/metrics.rs mod tonic :: impl From<u64> for exemplar::Value :: fn from
//@name from_
//@endfn
}
impl From<i64> for TonicExemplarValue {
    spec fn conv(t: i64, r: TonicExemplarValue) -> bool { r == TonicExemplarValue::AsInt(t) }
//@fn opentelemetry-proto/src/transform/metrics.rs mod tonic :: impl From<i64> for exemplar::Value :: fn from
//@name from_
//@endfn
}
impl From<F> for TonicExemplarValue {
    spec fn conv(t: F, r: TonicExemplarValue) -> bool { r == TonicExemplarValue::AsDouble(t) }
//@fn opentelemetry-proto/src/transform/metrics.rs mod tonic :: impl From<f64> for exemplar::Value :: fn from
//@name from_
//@endfn
}
impl From<u64> for TonicDataPointValue {
    spec fn conv(t: u64, r: TonicDataPointValue) -> bool { r == TonicDataPointValue::AsInt(saturated(t)) }
//@fn opentelemetry-proto/src/transform/metrics.rs mod tonic :: impl From<u64> for number_data_point::Value :: fn from
//@name from_
//@endfn
}
impl From<i64> for TonicDataPointValue {
    spec fn conv(t: i64, r: TonicDataPointValue) -> bool { r == TonicDataPointValue::AsInt(t) }
//@fn opentelemetry-proto/src/transform/metrics.rs mod tonic :: impl From<i64> for number_data_point::Value :: fn from
//@name from_
//@endfn
}
impl From<F> for TonicDataPointValue {
    spec fn conv(t: F, r: TonicDataPointValue) -> bool { r == TonicDataPointValue::AsDouble(t) }
//@fn opentelemetry-proto/src/transform/metrics.rs mod tonic :: impl From<f64> for number_data_point::Value :: fn from
//@name from_
//@endfn
}
impl From<AggregationTemporality> for i32 { spec fn conv(t: AggregationTemporality, r: i32) -> bool { r == t as i32 } fn from_(t: AggregationTemporality) -> i32 { t as i32 } }
spec fn temporality_number(t: Temporality) -> i32 { match t { Temporality::Delta => 1, _ => 2 } }
impl From<Temporality> for AggregationTemporality {
    spec fn conv(t: Temporality, r: AggregationTemporality) -> bool { r as i32 == temporality_number(t) }
//@fn opentelemetry-proto/src/transform/metrics.rs mod tonic :: impl From<Temporality> for AggregationTemporality :: fn from
//@name from_
//@endfn
}
trait Numeric: Copy + Into<TonicExemplarValue> + Into<TonicDataPointValue> { spec fn f(self) -> F; fn into_f64(self) -> (r: F) ensures r == self.f(); }
impl Numeric for u64 { spec fn f(self) -> F { f_of_u64(self) }
//@fn opentelemetry-proto/src/transform/metrics.rs mod tonic :: impl Numeric for u64 :: fn into_f64
//@subst self as F ~> F::of_u64(self)
//@endfn
}
impl Numeric for i64 { spec fn f(self) -> F { f_of_i64(self) }
//@fn opentelemetry-proto/src/transform/metrics.rs mod tonic :: impl Numeric for i64 :: fn into_f64
//@subst self as F ~> F::of_i64(self)
//@endfn
}
impl Numeric for F { spec fn f(self) -> F { self }
//@fn opentelemetry-proto/src/transform/metrics.rs mod tonic :: impl Numeric for f64 :: fn into_f64
//@endfn
}
trait OptF: Sized { spec fn of(self) -> Option<F>; fn opt_f64(self) -> (r: Option<F>) ensures r == self.of(); }
impl<T: Numeric> OptF for Option<T> { spec fn of(self) -> Option<F> { match self { Some(x) => Some(x.f()), None => None } } fn opt_f64(self) -> (r: Option<F>) { match self { Some(x) => Some(x.into_f64()), None => None } } }
spec fn exemplar_is<T: Into<TonicExemplarValue>>(e: SdkExemplar<T>, r: TonicExemplar) -> bool {
    attrs_are(e.filtered_attributes@, r.filtered_attributes@) && time_is(e.time, r.time_unix_nano) && r.span_id@ == e.span_id@ && r.trace_id@ == e.trace_id@ && r.value is Some && e.value.into_conv(r.value->0)
}
spec fn exemplars_are<T: Into<TonicExemplarValue>>(e: Seq<SdkExemplar<T>>, r: Seq<TonicExemplar>) -> bool { e.len() == r.len() && forall|i: int| 0 <= i < e.len() ==> exemplar_is(e[i], #[trigger] r[i]) }
impl<'a, T: Into<TonicExemplarValue> + Copy> From<&'a SdkExemplar<T>> for TonicExemplar {
    spec fn conv(e: &'a SdkExemplar<T>, r: TonicExemplar) -> bool { exemplar_is(*e, r) }
//@fn opentelemetry-proto/src/transform/metrics.rs mod tonic :: impl From<&SdkExemplar<T>> for TonicExemplar :: fn from
//@sig fn from_(ex: &'a SdkExemplar<T>) -> Self
//@subst .filtered_attributes.iter().map(|kv| $$e).collect() ~> .filtered_attributes.mapped_ref(|kv: &ApiKv| -> (r: KeyValue) ensures kv_is(*kv, r) { $$e })
//@endfn
}
spec fn number_is<T: Into<TonicExemplarValue> + Into<TonicDataPointValue>>(attributes: Seq<ApiKv>, value: T, exemplars: Seq<SdkExemplar<T>>, r: TonicNumberDataPoint) -> bool {
    attrs_are(attributes, r.attributes@) && r.value is Some && <T as Into<TonicDataPointValue>>::into_conv(value, r.value->0) && exemplars_are(exemplars, r.exemplars@) && r.flags == 0
}
spec fn gauge_is<T: Into<TonicExemplarValue> + Into<TonicDataPointValue>>(g: SdkGauge<T>, r: TonicGauge) -> bool {
    g.data_points@.len() == r.data_points@.len() && forall|i: int| 0 <= i < r.data_points@.len() ==> number_is(g.data_points@[i].attributes@, g.data_points@[i].value, g.data_points@[i].exemplars@, #[trigger] r.data_points@[i]) && opt_time_is(g.start_time, r.data_points@[i].start_time_unix_nano) && time_is(g.time, r.data_points@[i].time_unix_nano)
}
impl<'a, T: Into<TonicExemplarValue> + Into<TonicDataPointValue> + Copy> From<&'a SdkGauge<T>> for TonicGauge {
    spec fn conv(g: &'a SdkGauge<T>, r: TonicGauge) -> bool { gauge_is(*g, r) }
//@fn opentelemetry-proto/src/transform/metrics.rs mod tonic :: impl From<&SdkGauge<T>> for TonicGauge :: fn from
//@sig fn from_(gauge: &'a SdkGauge<T>) -> Self
//@subst .data_points.iter().map(|dp| $$e).collect() ~> .data_points.mapped_ref(|dp: &GaugeDataPoint<T>| -> (r: TonicNumberDataPoint) ensures number_is(dp.attributes@, dp.value, dp.exemplars@, r), opt_time_is(gauge.start_time, r.start_time_unix_nano), time_is(gauge.time, r.time_unix_nano) { $$e })
//@endfn
}
spec fn sum_is<T: Into<TonicExemplarValue> + Into<TonicDataPointValue>>(g: SdkSum<T>, r: TonicSum) -> bool {
    r.aggregation_temporality == temporality_number(g.temporality) && r.is_monotonic == g.is_monotonic && g.data_points@.len() == r.data_points@.len() && forall|i: int| 0 <= i < r.data_points@.len() ==> number_is(g.data_points@[i].attributes@, g.data_points@[i].value, g.data_points@[i].exemplars@, #[trigger] r.data_points@[i]) && time_is(g.start_time, r.data_points@[i].start_time_unix_nano) && time_is(g.time, r.data_points@[i].time_unix_nano)
}
impl<'a, T: Into<TonicExemplarValue> + Into<TonicDataPointValue> + Copy> From<&'a SdkSum<T>> for TonicSum {
    spec fn conv(g: &'a SdkSum<T>, r: TonicSum) -> bool { sum_is(*g, r) }
//@fn opentelemetry-proto/src/transform/metrics.rs mod tonic :: impl From<&SdkSum<T>> for TonicSum :: fn from
//@sig fn from_(sum: &'a SdkSum<T>) -> Self
//@subst .data_points.iter().map(|dp| $$e).collect() ~> .data_points.mapped_ref(|dp: &SumDataPoint<T>| -> (r: TonicNumberDataPoint) ensures number_is(dp.attributes@, dp.value, dp.exemplars@, r), time_is(sum.start_time, r.start_time_unix_nano), time_is(sum.time, r.time_unix_nano) { $$e })
//@endfn
}
spec fn hist_point_is<T: Numeric>(d: HistogramDataPoint<T>, r: TonicHistogramDataPoint) -> bool {
    attrs_are(d.attributes@, r.attributes@) && r.count == d.count && r.sum == Some(d.sum.f()) && r.min == d.min.of() && r.max == d.max.of() && r.bucket_counts@ == d.bucket_counts@ && r.explicit_bounds@ == d.bounds@ && exemplars_are(d.exemplars@, r.exemplars@) && r.flags == 0
}
spec fn hist_is<T: Numeric>(g: SdkHistogram<T>, r: TonicHistogram) -> bool {
    r.aggregation_temporality == temporality_number(g.temporality) && g.data_points@.len() == r.data_points@.len() && forall|i: int| 0 <= i < r.data_points@.len() ==> hist_point_is(g.data_points@[i], #[trigger] r.data_points@[i]) && time_is(g.start_time, r.data_points@[i].start_time_unix_nano) && time_is(g.time, r.data_points@[i].time_unix_nano)
}
impl<'a, T: Numeric> From<&'a SdkHistogram<T>> for TonicHistogram {
    spec fn conv(g: &'a SdkHistogram<T>, r: TonicHistogram) -> bool { hist_is(*g, r) }
//@fn opentelemetry-proto/src/transform/metrics.rs mod tonic :: impl From<&SdkHistogram<T>> for TonicHistogram :: fn from
//@sig fn from_(hist: &'a SdkHistogram<T>) -> Self
//@subst dp.bucket_counts.clone() ~> copy_u64(&dp.bucket_counts)
//@subst dp.bounds.clone() ~> copy_f(&dp.bounds)
//@subst .data_points.iter().map(|dp| $$e).collect() ~> .data_points.mapped_ref(|dp: &HistogramDataPoint<T>| -> (r: TonicHistogramDataPoint) ensures hist_point_is(*dp, r), time_is(hist.start_time, r.start_time_unix_nano), time_is(hist.time, r.time_unix_nano) { $$e })
//@endfn
}
spec fn buckets_are(b: ExponentialBucket, r: Option<TonicBuckets>) -> bool { r is Some && r->0.offset == b.offset && r->0.bucket_counts@ == b.counts@ }
spec fn expo_point_is<T: Numeric>(d: ExponentialHistogramDataPoint<T>, r: TonicExponentialHistogramDataPoint) -> bool {
    attrs_are(d.attributes@, r.attributes@) && r.count == d.count && r.sum == Some(d.sum.f()) && r.min == d.min.of() && r.max == d.max.of() && r.scale == d.scale && r.zero_count == d.zero_count && r.zero_threshold == d.zero_threshold && buckets_are(d.positive_bucket, r.positive) && buckets_are(d.negative_bucket, r.negative) && exemplars_are(d.exemplars@, r.exemplars@) && r.flags == 0
}
spec fn expo_is<T: Numeric>(g: SdkExponentialHistogram<T>, r: TonicExponentialHistogram) -> bool {
    r.aggregation_temporality == temporality_number(g.temporality) && g.data_points@.len() == r.data_points@.len() && forall|i: int| 0 <= i < r.data_points@.len() ==> expo_point_is(g.data_points@[i], #[trigger] r.data_points@[i]) && time_is(g.start_time, r.data_points@[i].start_time_unix_nano) && time_is(g.time, r.data_points@[i].time_unix_nano)
}
impl<'a, T: Numeric> From<&'a SdkExponentialHistogram<T>> for TonicExponentialHistogram {
    spec fn conv(g: &'a SdkExponentialHistogram<T>, r: TonicExponentialHistogram) -> bool { expo_is(*g, r) }
//@fn opentelemetry-proto/src/transform/metrics.rs mod tonic :: impl From<&SdkExponentialHistogram<T>> for TonicExponentialHistogram :: fn from
//@sig fn from_(hist: &'a SdkExponentialHistogram<T>) -> Self
//@subst dp.positive_bucket.counts.clone() ~> copy_u64(&dp.positive_bucket.counts)
//@subst dp.negative_bucket.counts.clone() ~> copy_u64(&dp.negative_bucket.counts)
//@subst .data_points.iter().map(|dp| $$e).collect() ~> .data_points.mapped_ref(|dp: &ExponentialHistogramDataPoint<T>| -> (r: TonicExponentialHistogramDataPoint) ensures expo_point_is(*dp, r), time_is(hist.start_time, r.start_time_unix_nano), time_is(hist.time, r.time_unix_nano) { $$e })
//@endfn
}
spec fn data_is<T: Numeric>(d: MetricData<T>, r: TonicMetricData) -> bool {
    match d {
        MetricData::Gauge(g) => match r { TonicMetricData::Gauge(x) => gauge_is(g, x), _ => false },
        MetricData::Sum(g) => match r { TonicMetricData::Sum(x) => sum_is(g, x), _ => false },
        MetricData::Histogram(g) => match r { TonicMetricData::Histogram(x) => hist_is(g, x), _ => false },
        MetricData::ExponentialHistogram(g) => match r { TonicMetricData::ExponentialHistogram(x) => expo_is(g, x), _ => false },
    }
}
impl<'a, T: Numeric> From<&'a MetricData<T>> for TonicMetricData {
    spec fn conv(d: &'a MetricData<T>, r: TonicMetricData) -> bool { data_is(*d, r) }
//@fn opentelemetry-proto/src/transform/metrics.rs mod tonic :: impl From<&MetricData<T>> for TonicMetricData :: fn from
//@sig fn from_(data: &'a MetricData<T>) -> Self
//@endfn
}
spec fn metric_is(m: SdkMetric, r: TonicMetric) -> bool {
    r.name.c() == m.name.c() && r.description.c() == m.description.c() && r.unit.c() == m.unit.c() && r.metadata@.len() == 0 && r.data is Some
        && match m.data { AggregatedMetrics::F64(d) => data_is(d, r.data->0), AggregatedMetrics::U64(d) => data_is(d, r.data->0), AggregatedMetrics::I64(d) => data_is(d, r.data->0) }
}
impl<'a> From<&'a SdkMetric> for TonicMetric {
    spec fn conv(m: &'a SdkMetric, r: TonicMetric) -> bool { metric_is(*m, r) }
//@fn opentelemetry-proto/src/transform/metrics.rs mod tonic :: impl From<&SdkMetric> for TonicMetric :: fn from
//@sig fn from_(metric: &'a SdkMetric) -> Self
//@endfn
}
spec fn scope_metrics_is(s: SdkScopeMetrics, r: TonicScopeMetrics) -> bool {
    r.scope is Some && scope_is(s.scope, None, r.scope->0) && r.schema_url.c() == opt_text(s.scope.schema_url) && s.metrics@.len() == r.metrics@.len() && forall|i: int| 0 <= i < r.metrics@.len() ==> metric_is(s.metrics@[i], #[trigger] r.metrics@[i])
}
impl<'a> From<&'a SdkScopeMetrics> for TonicScopeMetrics {
    spec fn conv(s: &'a SdkScopeMetrics, r: TonicScopeMetrics) -> bool { scope_metrics_is(*s, r) }
//@fn opentelemetry-proto/src/transform/metrics.rs mod tonic :: impl From<&SdkScopeMetrics> for TonicScopeMetrics :: fn from
//@sig fn from_(sm: &'a SdkScopeMetrics) -> Self
//@endfn
}
spec fn metrics_request(m: ResourceMetrics, r: TonicResourceMetrics) -> bool {
    r.resource is Some && pairs_are(m.resource.attrs@, r.resource->0.attributes@) && r.schema_url.c() == opt_text(m.resource.url) && m.scope_metrics@.len() == r.scope_metrics@.len() && forall|i: int| 0 <= i < r.scope_metrics@.len() ==> scope_metrics_is(m.scope_metrics@[i], #[trigger] r.scope_metrics@[i])
}
impl<'a> From<&'a ResourceMetrics> for ExportMetricsServiceRequest {
    spec fn conv(m: &'a ResourceMetrics, r: ExportMetricsServiceRequest) -> bool { r.resource_metrics@.len() == 1 && metrics_request(*m, r.resource_metrics@[0]) }
//@fn opentelemetry-proto/src/transform/metrics.rs mod tonic :: impl From<&ResourceMetrics> for ExportMetricsServiceRequest :: fn from
//@sig fn from_(rm: &'a ResourceMetrics) -> Self
//@endfn
}

}
fn main() {}

// Unit: the log and tracing bridges (opentelemetry-appender-log/src/lib.rs, opentelemetry-appender-tracing/src/layer.rs).
use vstd::prelude::*;
use vstd::string::*;
verus! {

broadcast axiom fn str_ext(a: &str, b: &str) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;

// ---- what a record is made of ---------------------------------------------------------------------------------
pub enum AV { Int(i64), Double(f64), Text(Seq<char>), Bool(bool), Bytes(Seq<u8>), List(Seq<AV>), Dict(Map<Seq<char>, AV>) }
/// trusted: opentelemetry's AnyValue, by its variants (its From impls are checked by the harness)
#[verifier::external_body]
struct AnyValue { _p: u8 }
#[verifier::external_body]
fn av_clone(a: &AnyValue) -> (r: AnyValue) ensures r.av() == a.av() { unimplemented!() }
impl AnyValue { uninterp spec fn av(&self) -> AV; }
spec fn avs(s: Seq<AnyValue>) -> Seq<AV> { s.map_values(|a: AnyValue| a.av()) }
#[verifier::external_body] fn av_int(v: i64) -> (r: AnyValue) ensures r.av() == AV::Int(v) { unimplemented!() }
#[verifier::external_body] fn av_double(v: f64) -> (r: AnyValue) ensures r.av() == AV::Double(v) { unimplemented!() }
#[verifier::external_body] fn av_text(v: String) -> (r: AnyValue) ensures r.av() == AV::Text(v@) { unimplemented!() }
#[verifier::external_body] fn av_bool(v: bool) -> (r: AnyValue) ensures r.av() == AV::Bool(v) { unimplemented!() }
#[verifier::external_body] fn av_bytes(v: &[u8]) -> (r: AnyValue) ensures r.av() == AV::Bytes(v@) { unimplemented!() }
#[verifier::external_body] fn av_list(v: Vec<AnyValue>) -> (r: AnyValue) ensures r.av() == AV::List(avs(v@)) { unimplemented!() }
#[verifier::external_body] fn av_map(v: KMap) -> (r: AnyValue) ensures r.av() == AV::Dict(v.m()) { unimplemented!() }
trait IntoAny: Sized { spec fn any(self) -> AV; fn conv(self) -> (r: AnyValue) ensures r.av() == self.any(); }
impl IntoAny for i64 { spec fn any(self) -> AV { AV::Int(self) } fn conv(self) -> (r: AnyValue) { av_int(self) } }
impl IntoAny for u32 { spec fn any(self) -> AV { AV::Int(self as i64) } fn conv(self) -> (r: AnyValue) { av_int(self as i64) } }
impl IntoAny for f64 { spec fn any(self) -> AV { AV::Double(self) } fn conv(self) -> (r: AnyValue) { av_double(self) } }
impl IntoAny for bool { spec fn any(self) -> AV { AV::Bool(self) } fn conv(self) -> (r: AnyValue) { av_bool(self) } }
impl IntoAny for String { spec fn any(self) -> AV { AV::Text(self@) } fn conv(self) -> (r: AnyValue) { av_text(self) } }
impl<'a> IntoAny for &'a [u8] { spec fn any(self) -> AV { AV::Bytes(self@) } fn conv(self) -> (r: AnyValue) { av_bytes(self) } }
impl IntoAny for AnyValue { spec fn any(self) -> AV { self.av() } fn conv(self) -> (r: AnyValue) { self } }
fn any<T: IntoAny>(t: T) -> (r: AnyValue) ensures r.av() == t.any() { t.conv() }
#[verifier::external_body]
struct Key { _p: u8 }
impl Key { uninterp spec fn k(&self) -> Seq<char>; }
#[verifier::external_body] fn key_of(s: &str) -> (r: Key) ensures r.k() == s@ { unimplemented!() }
#[verifier::external_body] fn key_of_string(s: String) -> (r: Key) ensures r.k() == s@ { unimplemented!() }
#[verifier::external_body] fn owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
/// the decimal digits of an integer
uninterp spec fn dec(n: int) -> Seq<char>;
spec fn fits(n: int) -> bool { -0x8000_0000_0000_0000 <= n <= 0x7fff_ffff_ffff_ffff }
/// an integer: as it is where it fits, else as text
spec fn int_av(n: int) -> AV { if fits(n) { AV::Int(n as i64) } else { AV::Text(dec(n)) } }
trait Wide: Sized { spec fn n(self) -> int; fn narrow(self) -> (r: Result<i64, ()>) ensures r.is_ok() == fits(self.n()), r.is_ok() ==> r->Ok_0 == self.n(); fn text(self) -> (r: String) ensures r@ == dec(self.n()); }
impl Wide for u64 { spec fn n(self) -> int { self as int }
    fn narrow(self) -> (r: Result<i64, ()>) { if self <= 0x7fff_ffff_ffff_ffff { Ok(self as i64) } else { Err(()) } }
    #[verifier::external_body] fn text(self) -> (r: String) { self.to_string() } }
impl Wide for i128 { spec fn n(self) -> int { self as int }
    fn narrow(self) -> (r: Result<i64, ()>) { if -0x8000_0000_0000_0000 <= self && self <= 0x7fff_ffff_ffff_ffff { Ok(self as i64) } else { Err(()) } }
    #[verifier::external_body] fn text(self) -> (r: String) { self.to_string() } }
impl Wide for u128 { spec fn n(self) -> int { self as int }
    fn narrow(self) -> (r: Result<i64, ()>) { if self <= 0x7fff_ffff_ffff_ffff { Ok(self as i64) } else { Err(()) } }
    #[verifier::external_body] fn text(self) -> (r: String) { self.to_string() } }

//@item opentelemetry/src/logs/record.rs enum Severity
impl Clone for Severity { fn clone(&self) -> (r: Severity) ensures r == *self { *self } }
impl Copy for Severity {}
#[derive(Clone, Copy)]
struct TraceId(u128);
#[derive(Clone, Copy)]
struct SpanId(u64);
#[derive(Clone, Copy)]
struct TraceFlags(u8);
ghost struct RecV {
    number: Option<Severity>, text: Option<Seq<char>>, body: Option<AV>, attrs: Seq<(Seq<char>, AV)>, target: Option<Seq<char>>, name: Option<Seq<char>>,
    trace: Option<(TraceId, SpanId, Option<TraceFlags>)>,
}
spec fn blank() -> RecV { RecV { number: None, text: None, body: None, attrs: seq![], target: None, name: None, trace: None } }
/// trusted here, proved of the SDK's record in logger.rs (C20)
#[verifier::external_body]
struct Rec { _p: u8 }
impl Rec {
    uninterp spec fn v(&self) -> RecV;
    #[verifier::external_body] fn set_event_name(&mut self, n: &'static str) ensures final(self).v() == (RecV { name: Some(n@), ..old(self).v() }) { unimplemented!() }
    #[verifier::external_body] fn set_target<S: Text>(&mut self, t: S) ensures final(self).v() == (RecV { target: Some(t.t()), ..old(self).v() }) { unimplemented!() }
    #[verifier::external_body] fn set_severity_text(&mut self, t: &'static str) ensures final(self).v() == (RecV { text: Some(t@), ..old(self).v() }) { unimplemented!() }
    #[verifier::external_body] fn set_severity_number(&mut self, n: Severity) ensures final(self).v() == (RecV { number: Some(n), ..old(self).v() }) { unimplemented!() }
    #[verifier::external_body] fn set_body(&mut self, b: AnyValue) ensures final(self).v() == (RecV { body: Some(b.av()), ..old(self).v() }) { unimplemented!() }
    #[verifier::external_body] fn add_attribute(&mut self, k: Key, a: AnyValue) ensures final(self).v() == (RecV { attrs: old(self).v().attrs.push((k.k(), a.av())), ..old(self).v() }) { unimplemented!() }
    #[verifier::external_body] fn add_attributes(&mut self, a: Vec<(Key, AnyValue)>) ensures final(self).v() == (RecV { attrs: old(self).v().attrs + pairs(a@), ..old(self).v() }) { unimplemented!() }
    #[verifier::external_body] fn set_trace_context(&mut self, t: TraceId, s: SpanId, f: Option<TraceFlags>) ensures final(self).v() == (RecV { trace: Some((t, s, f)), ..old(self).v() }) { unimplemented!() }
}
trait Text { spec fn t(&self) -> Seq<char>; }
impl Text for String { spec fn t(&self) -> Seq<char> { self@ } }
impl<'a> Text for &'a str { spec fn t(&self) -> Seq<char> { self@ } }
spec fn pairs(s: Seq<(Key, AnyValue)>) -> Seq<(Seq<char>, AV)> { s.map_values(|p: (Key, AnyValue)| (p.0.k(), p.1.av())) }
/// a logger: what it was given to emit, in order
#[verifier::external_body]
struct Logger { _p: u8 }
impl Logger {
    uninterp spec fn out(&self) -> Seq<RecV>;
    uninterp spec fn wants(&self, s: Severity, target: Seq<char>, name: Option<Seq<char>>) -> bool;
    #[verifier::external_body] fn event_enabled(&self, s: Severity, target: &str, name: Option<&str>) -> (r: bool) ensures r == self.wants(s, target@, match name { Some(n) => Some(n@), None => None }) { unimplemented!() }
    #[verifier::external_body] fn create_log_record(&self) -> (r: Rec) ensures r.v() == blank() { unimplemented!() }
    #[verifier::external_body] fn emit(&mut self, r: Rec) ensures final(self).out() == old(self).out().push(r.v()) { unimplemented!() }
}
/// a map of attributes
#[verifier::external_body]
struct KMap { _p: u8 }
impl KMap {
    uninterp spec fn m(&self) -> Map<Seq<char>, AV>;
    #[verifier::external_body] fn new() -> (r: KMap) ensures r.m() == Map::<Seq<char>, AV>::empty() { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, k: Key, a: AnyValue) -> (r: Option<AnyValue>) ensures final(self).m() == old(self).m().insert(k.k(), a.av()) { unimplemented!() }
}

//@gsubst AnyValue::from($$a) ~> any($$a)
//@gsubst AnyValue::Int($$a) ~> av_int($$a)
//@gsubst AnyValue::Double($$a) ~> av_double($$a)
//@gsubst AnyValue::Boolean($$a) ~> av_bool($$a)
//@gsubst AnyValue::String(StringValue::from($$a)) ~> av_text($$a)
//@gsubst AnyValue::Bytes(Box::new($$a.to_owned())) ~> av_bytes($$a)
//@gsubst AnyValue::ListAny(Box::new($$a)) ~> av_list($$a)
//@gsubst AnyValue::Map(Box::new($$a)) ~> av_map($$a)
//@gsubst Box::<HashMap<Key, AnyValue>>::default() ~> KMap::new()
//@gsubst HashMap<Key, AnyValue> ~> KMap
//@gsubst HashMap::new() ~> KMap::new()

// ================================================================================================ log
mod log_bridge {
use super::*;
#[derive(Clone, Copy)]
enum Level { Error, Warn, Info, Debug, Trace }
impl Level {
    #[verifier::external_body] fn as_str(&self) -> (r: &'static str) ensures r@ == level_text(*self) { unimplemented!() }
}
spec fn level_text(l: Level) -> Seq<char> { match l { Level::Error => "ERROR"@, Level::Warn => "WARN"@, Level::Info => "INFO"@, Level::Debug => "DEBUG"@, Level::Trace => "TRACE"@ } }
spec fn severity(l: Level) -> Severity { match l { Level::Error => Severity::Error, Level::Warn => Severity::Warn, Level::Info => Severity::Info, Level::Debug => Severity::Debug, Level::Trace => Severity::Trace } }
//@fn opentelemetry-appender-log/src/lib.rs fn severity_of_level
//@sig fn severity_of_level(level: Level) -> Severity
//@ret r
//@contract
    ensures r == severity(level),
//@endfn
// trusted: the log crate's records
struct Metadata { level: Level, target: &'static str }
impl Metadata {
    fn level(&self) -> (r: Level) ensures r == self.level { self.level }
    fn target(&self) -> (r: &'static str) ensures r == self.target { self.target }
}
#[verifier::external_body]
struct Args { _p: u8 }
impl Args { uninterp spec fn shown(&self) -> Seq<char>; #[verifier::external_body] fn to_text(&self) -> (r: String) ensures r@ == self.shown() { unimplemented!() } }
struct Record { metadata: Metadata, args: Args, file: Option<&'static str>, line: Option<u32>, module_path: Option<&'static str>, kvs: Kvs }
impl Record {
    fn metadata(&self) -> (r: &Metadata) ensures *r == self.metadata { &self.metadata }
    fn level(&self) -> (r: Level) ensures r == self.metadata.level { self.metadata.level }
    fn args(&self) -> (r: &Args) ensures *r == self.args { &self.args }
    fn file(&self) -> (r: Option<&'static str>) ensures r == self.file { self.file }
    fn line(&self) -> (r: Option<u32>) ensures r == self.line { self.line }
    fn module_path(&self) -> (r: Option<&'static str>) ensures r == self.module_path { self.module_path }
    fn key_values(&self) -> (r: &Kvs) ensures *r == self.kvs { &self.kvs }
}
/// a captured value by the visitor method the log crate calls for it
enum KvValue { Any(String), Bool(bool), Str(String), I64(i64), U64(u64), I128(i128), U128(u128), F64(f64) }
impl KvValue {
    spec fn av(&self) -> AV {
        match *self {
            KvValue::Any(t) => AV::Text(t@), KvValue::Bool(b) => AV::Bool(b), KvValue::Str(t) => AV::Text(t@), KvValue::I64(n) => AV::Int(n), KvValue::U64(n) => int_av(n as int),
            KvValue::I128(n) => int_av(n as int), KvValue::U128(n) => int_av(n as int), KvValue::F64(x) => AV::Double(x),
        }
    }
    fn shown(&self) -> (r: String) requires *self is Any ensures r@ == (*self)->Any_0@ { match self { KvValue::Any(t) => owned(t.as_str()), _ => { proof { assert(false); } owned("") } } }
    fn from_int<T: Wide>(v: T) -> (r: KvValue) ensures r is Any, r->Any_0@ == dec(v.n()) { KvValue::Any(v.text()) }
    fn visit(&self, v: &mut ValueVisitor) -> (r: Result<(), KvError>) ensures r.is_ok(), final(v).0.is_some(), final(v).0->0.av() == self.av()
    {
        match self {
            KvValue::Any(t) => v.visit_any(KvValue::Any(owned(t.as_str()))), KvValue::Bool(b) => v.visit_bool(*b), KvValue::Str(t) => v.visit_str(t.as_str()), KvValue::I64(n) => v.visit_i64(*n),
            KvValue::U64(n) => v.visit_u64(*n), KvValue::I128(n) => v.visit_i128(*n), KvValue::U128(n) => v.visit_u128(*n), KvValue::F64(x) => v.visit_f64(*x),
        }
    }
}
#[verifier::external_body]
struct KvError { _p: u8 }
struct Kvs { pairs: Vec<(String, KvValue)> }
spec fn kv_attrs(s: Seq<(String, KvValue)>) -> Seq<(Seq<char>, AV)> { s.map_values(|p: (String, KvValue)| (p.0@, p.1.av())) }
impl Kvs {
    /// log::kv::Source::visit: each pair in order, until the visitor refuses
    fn visit(&self, v: &mut AttributeVisitor) -> (r: Result<(), KvError>)
        ensures r.is_ok(), pairs(final(v).0@) == pairs(old(v).0@) + kv_attrs(self.pairs@)
    {
        let mut i = 0;
        while i < self.pairs.len()
            invariant i <= self.pairs@.len(), pairs(v.0@) =~= pairs(old(v).0@) + kv_attrs(self.pairs@.take(i as int)),
            decreases self.pairs@.len() - i
        {
            proof { assert(self.pairs@.take(i as int + 1) =~= self.pairs@.take(i as int).push(self.pairs@[i as int])); }
            match v.visit_pair(&self.pairs[i].0, &self.pairs[i].1) { Ok(_) => {} Err(e) => { return Err(e); } }
            i += 1;
        }
        proof { assert(self.pairs@.take(i as int) =~= self.pairs@); }
        Ok(())
    }
}
//@gsubst log::kv::Value::from($$a) ~> KvValue::from_int($$a)
//@gsubst log::kv::Error ~> KvError
//@gsubst log::kv::Value ~> KvValue
//@gsubst value.try_into() ~> value.narrow()
//@gsubst value.to_owned() ~> owned(value)
//@gsubst value.to_string() ~> value.shown()
struct ValueVisitor(Option<AnyValue>);
impl ValueVisitor {
//@fn opentelemetry-appender-log/src/lib.rs mod any_value @off :: fn serialize :: impl log::kv::VisitValue for ValueVisitor :: fn visit_any
//@ret r
//@contract
    requires value is Any
    ensures r.is_ok(), final(self).0.is_some(), final(self).0->0.av() == value.av(),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value @off :: fn serialize :: impl log::kv::VisitValue for ValueVisitor :: fn visit_bool
//@ret r
//@contract
    ensures r.is_ok(), final(self).0.is_some(), final(self).0->0.av() == AV::Bool(value),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value @off :: fn serialize :: impl log::kv::VisitValue for ValueVisitor :: fn visit_str
//@ret r
//@contract
    ensures r.is_ok(), final(self).0.is_some(), final(self).0->0.av() == AV::Text(value@),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value @off :: fn serialize :: impl log::kv::VisitValue for ValueVisitor :: fn visit_i64
//@ret r
//@contract
    ensures r.is_ok(), final(self).0.is_some(), final(self).0->0.av() == AV::Int(value),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value @off :: fn serialize :: impl log::kv::VisitValue for ValueVisitor :: fn visit_u64
//@ret r
//@contract
    ensures r.is_ok(), final(self).0.is_some(), final(self).0->0.av() == int_av(value as int),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value @off :: fn serialize :: impl log::kv::VisitValue for ValueVisitor :: fn visit_i128
//@ret r
//@contract
    ensures r.is_ok(), final(self).0.is_some(), final(self).0->0.av() == int_av(value as int),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value @off :: fn serialize :: impl log::kv::VisitValue for ValueVisitor :: fn visit_u128
//@ret r
//@contract
    ensures r.is_ok(), final(self).0.is_some(), final(self).0->0.av() == int_av(value as int),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value @off :: fn serialize :: impl log::kv::VisitValue for ValueVisitor :: fn visit_f64
//@ret r
//@contract
    ensures r.is_ok(), final(self).0.is_some(), final(self).0->0.av() == AV::Double(value),
//@endfn
}
//@gsubst any_value::serialize ~> any_value_serialize
//@fn opentelemetry-appender-log/src/lib.rs mod any_value @off :: fn serialize
//@sig fn any_value_serialize(value: &KvValue) -> Option<AnyValue>
//@ret r
//@subst value.visit(&mut visitor).unwrap(); ~> let _ok = value.visit(&mut visitor);
//@subst struct ValueVisitor $$a impl log::kv::VisitValue<'_> for ValueVisitor $$b let mut ~> let mut
//@contract
    ensures r.is_some(), r->0.av() == value.av(),
//@endfn
struct AttributeVisitor(Vec<(Key, AnyValue)>);
impl AttributeVisitor {
//@fn opentelemetry-appender-log/src/lib.rs fn log_attributes :: impl log::kv::VisitSource for AttributeVisitor :: fn visit_pair
//@sig fn visit_pair(&mut self, key: &String, value: &KvValue) -> Result<(), KvError>
//@ret r
//@subst Key::from(String::from(key.as_str())) ~> key_of(key.as_str())
//@contract
    ensures r.is_ok(), pairs(final(self).0@) =~= pairs(old(self).0@).push((key@, value.av())),
//@endfn
}
//@fn opentelemetry-appender-log/src/lib.rs fn log_attributes
//@sig fn log_attributes(kvs: &Kvs) -> Vec<(Key, AnyValue)>
//@ret r
//@subst struct AttributeVisitor $$a impl<'kvs> log::kv::VisitSource<'kvs> for AttributeVisitor $$b let mut ~> let mut
//@contract
    ensures pairs(r@) =~= kv_attrs(kvs.pairs@),
//@endfn
//@gsubst Key::new(CODE_FILE_PATH) ~> key_of("code.file.path")
//@gsubst Key::new(CODE_LINE_NUMBER) ~> key_of("code.line.number")
//@gsubst Key::new(CODE_FUNCTION_NAME) ~> key_of("code.function.name")
spec fn code_attrs(r: Record) -> Seq<(Seq<char>, AV)> {
    let a = match r.file { Some(f) => seq![("code.file.path"@, AV::Text(f@))], None => seq![] };
    let b = match r.line { Some(l) => a.push(("code.line.number"@, AV::Int(l as i64))), None => a };
    match r.module_path { Some(m) => b.push(("code.function.name"@, AV::Text(m@))), None => b }
}
struct OpenTelemetryLogBridge { logger: Logger }
impl OpenTelemetryLogBridge {
//@fn opentelemetry-appender-log/src/lib.rs impl log::Log for OpenTelemetryLogBridge :: fn enabled
//@ret r
//@contract
    ensures r == self.logger.wants(severity(_metadata.level), _metadata.target@, None),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs impl log::Log for OpenTelemetryLogBridge :: fn log
//@sig fn log(&mut self, record: &Record)
//@subst record.args().to_string() ~> record.args().to_text()
//@subst? filepath.to_string() ~> owned(filepath)
//@subst? module.to_string() ~> owned(module)
//@subst? record.metadata().target().to_string() ~> owned(record.metadata().target())
//@contract
    ensures ({
        let l = record.metadata.level;
        // one record, with everything the log crate's record holds; none when the logger does not want it
        let rec = RecV { number: Some(severity(l)), text: Some(level_text(l)), body: Some(AV::Text(record.args.shown())),
            attrs: code_attrs(*record) + kv_attrs(record.kvs.pairs@), target: Some(record.metadata.target@), ..blank() };
        final(self).logger.out() == (if old(self).logger.wants(severity(l), record.metadata.target@, None) { old(self).logger.out().push(rec) } else { old(self).logger.out() })
    }),
//@before self.logger.emit(log_record);
    proof { assert(log_record.v().attrs =~= code_attrs(*record) + kv_attrs(record.kvs.pairs@)); }
//@endfn
}
} // mod log_bridge

// ================================================================================================ log, captured with serde
mod log_serde {
use super::*;
//@gsubst T: serde::Serialize + ?Sized ~> T: Serialize
//@gsubst Self::Ok ~> Option<AnyValue>
//@gsubst Self::Error ~> ValueError
//@gsubst self.collect_str(&v) ~> self.collect_str(v)
//@gsubst v.try_into() ~> v.narrow()
//@gsubst v.to_owned() ~> owned(v)
struct ValueError(String);
/// what a value serialises to: a value, nothing at all, or a failure
type Out = Result<Option<AV>, ()>;
spec fn out(r: Result<Option<AnyValue>, ValueError>) -> Out { match r { Ok(Some(a)) => Ok(Some(a.av())), Ok(None) => Ok(None), Err(_) => Err(()) } }
trait Serialize { spec fn ser(&self) -> Out; fn serialize(&self, s: ValueSerializer) -> (r: Result<Option<AnyValue>, ValueError>) ensures out(r) == self.ser(); }
impl<'a> Serialize for &'a str { spec fn ser(&self) -> Out { Ok(Some(AV::Text(self@))) } fn serialize(&self, s: ValueSerializer) -> (r: Result<Option<AnyValue>, ValueError>) { s.serialize_str(*self) } }
#[verifier::external_body] fn char_text(c: char) -> (r: String) ensures r@ == seq![c] { c.to_string() }
trait Shown: Sized { spec fn shown(self) -> Seq<char>; fn show(self) -> (r: String) ensures r@ == self.shown(); }
impl Shown for char { spec fn shown(self) -> Seq<char> { seq![self] } fn show(self) -> (r: String) { char_text(self) } }
impl Shown for i128 { spec fn shown(self) -> Seq<char> { dec(self as int) } fn show(self) -> (r: String) { self.text() } }
impl Shown for u64 { spec fn shown(self) -> Seq<char> { dec(self as int) } fn show(self) -> (r: String) { self.text() } }
impl Shown for u128 { spec fn shown(self) -> Seq<char> { dec(self as int) } fn show(self) -> (r: String) { self.text() } }
#[verifier::external_body] fn widen(v: f32) -> (r: f64) ensures r == as_f64(v) { v as f64 }
uninterp spec fn as_f64(v: f32) -> f64;
struct ValueSerializer;
impl ValueSerializer {
    /// serde's provided method: the text the value is shown as
    fn collect_str<T: Shown>(self, v: T) -> (r: Result<Option<AnyValue>, ValueError>) ensures out(r) == Ok::<Option<AV>, ()>(Some(AV::Text(v.shown()))) { let s = v.show(); self.serialize_str(s.as_str()) }
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_bool
//@ret r
//@contract
    ensures out(r) == Ok::<Option<AV>, ()>(Some(AV::Bool(v))),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_i8
//@ret r
//@contract
    ensures out(r) == Ok::<Option<AV>, ()>(Some(AV::Int(v as i64))),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_i16
//@ret r
//@contract
    ensures out(r) == Ok::<Option<AV>, ()>(Some(AV::Int(v as i64))),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_i32
//@ret r
//@contract
    ensures out(r) == Ok::<Option<AV>, ()>(Some(AV::Int(v as i64))),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_u8
//@ret r
//@contract
    ensures out(r) == Ok::<Option<AV>, ()>(Some(AV::Int(v as i64))),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_u16
//@ret r
//@contract
    ensures out(r) == Ok::<Option<AV>, ()>(Some(AV::Int(v as i64))),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_u32
//@ret r
//@contract
    ensures out(r) == Ok::<Option<AV>, ()>(Some(AV::Int(v as i64))),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_i64
//@ret r
//@contract
    ensures out(r) == Ok::<Option<AV>, ()>(Some(AV::Int(v))),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_i128
//@ret r
//@contract
    ensures out(r) == Ok::<Option<AV>, ()>(Some(int_av(v as int))),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_u64
//@ret r
//@contract
    ensures out(r) == Ok::<Option<AV>, ()>(Some(int_av(v as int))),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_u128
//@ret r
//@contract
    ensures out(r) == Ok::<Option<AV>, ()>(Some(int_av(v as int))),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_f32
//@ret r
//@subst v as f64 ~> widen(v)
//@contract
    ensures out(r) == Ok::<Option<AV>, ()>(Some(AV::Double(as_f64(v)))),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_f64
//@ret r
//@contract
    ensures out(r) == Ok::<Option<AV>, ()>(Some(AV::Double(v))),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_char
//@ret r
//@contract
    ensures out(r) == Ok::<Option<AV>, ()>(Some(AV::Text(seq![v]))),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_str
//@ret r
//@contract
    ensures out(r) == Ok::<Option<AV>, ()>(Some(AV::Text(v@))),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_bytes
//@ret r
//@contract
    ensures out(r) == Ok::<Option<AV>, ()>(Some(AV::Bytes(v@))),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_none
//@ret r
//@contract
    ensures out(r) == Ok::<Option<AV>, ()>(None),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_unit
//@ret r
//@contract
    ensures out(r) == Ok::<Option<AV>, ()>(None),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_some
//@ret r
//@contract
    ensures out(r) == value.ser(),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_unit_struct
//@ret r
//@contract
    ensures out(r) == Ok::<Option<AV>, ()>(Some(AV::Text(name@))),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_unit_variant
//@sig fn serialize_unit_variant(self, _name: &'static str, _i: u32, variant: &'static str) -> Result<Option<AnyValue>, ValueError>
//@ret r
//@contract
    ensures out(r) == Ok::<Option<AV>, ()>(Some(AV::Text(variant@))),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_newtype_struct
//@sig fn serialize_newtype_struct<T: Serialize>(self, _name: &'static str, value: &T) -> Result<Option<AnyValue>, ValueError>
//@ret r
//@contract
    ensures out(r) == value.ser(),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_newtype_variant
//@sig fn serialize_newtype_variant<T: Serialize>(self, _name: &'static str, _i: u32, variant: &'static str, value: &T) -> Result<Option<AnyValue>, ValueError>
//@ret r
//@subst map.serialize_entry(variant, value)?; ~> map.serialize_entry(&variant, value)?;
//@contract
    ensures out(r) == entry(variant@, value.ser()),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_seq
//@sig fn serialize_seq(self, _l: Option<usize>) -> Result<ValueSerializeSeq, ValueError>
//@ret r
//@contract
    ensures r.is_ok(), r->Ok_0.value@.len() == 0,
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_tuple
//@sig fn serialize_tuple(self, _l: usize) -> Result<ValueSerializeTuple, ValueError>
//@ret r
//@contract
    ensures r.is_ok(), r->Ok_0.value@.len() == 0,
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_tuple_struct
//@sig fn serialize_tuple_struct(self, _n: &'static str, _l: usize) -> Result<ValueSerializeTupleStruct, ValueError>
//@ret r
//@contract
    ensures r.is_ok(), r->Ok_0.value@.len() == 0,
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_tuple_variant
//@sig fn serialize_tuple_variant(self, _n: &'static str, _i: u32, variant: &'static str, _l: usize) -> Result<ValueSerializeTupleVariant, ValueError>
//@ret r
//@contract
    ensures r.is_ok(), r->Ok_0.value@.len() == 0, r->Ok_0.variant == variant,
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_map
//@sig fn serialize_map(self, _l: Option<usize>) -> Result<ValueSerializeMap, ValueError>
//@ret r
//@contract
    ensures r.is_ok(), r->Ok_0.key.is_none(), r->Ok_0.value.m() == Map::<Seq<char>, AV>::empty(),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_struct
//@sig fn serialize_struct(self, _n: &'static str, _l: usize) -> Result<ValueSerializeStruct, ValueError>
//@ret r
//@contract
    ensures r.is_ok(), r->Ok_0.value.m() == Map::<Seq<char>, AV>::empty(),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl Serializer for ValueSerializer :: fn serialize_struct_variant
//@sig fn serialize_struct_variant(self, _n: &'static str, _i: u32, variant: &'static str, _l: usize) -> Result<ValueSerializeStructVariant, ValueError>
//@ret r
//@contract
    ensures r.is_ok(), r->Ok_0.value.m() == Map::<Seq<char>, AV>::empty(), r->Ok_0.variant == variant,
//@endfn
}
/// a single entry: left out when its value is nothing
spec fn entry(k: Seq<char>, v: Out) -> Out { match v { Err(_) => Err(()), Ok(None) => Ok(Some(AV::Dict(Map::empty()))), Ok(Some(a)) => Ok(Some(AV::Dict(Map::<Seq<char>, AV>::empty().insert(k, a)))) } }
/// adding an element: appended unless it is nothing; a failure is passed on
spec fn added(before: Seq<AnyValue>, after: Seq<AnyValue>, v: Out, r: Result<(), ValueError>) -> bool {
    match v { Err(_) => r.is_err(), Ok(None) => r.is_ok() && after == before, Ok(Some(a)) => r.is_ok() && avs(after) =~= avs(before).push(a) }
}
spec fn put(before: Map<Seq<char>, AV>, after: Map<Seq<char>, AV>, k: Seq<char>, v: Out, r: Result<(), ValueError>) -> bool {
    match v { Err(_) => r.is_err(), Ok(None) => r.is_ok() && after == before, Ok(Some(a)) => r.is_ok() && after == before.insert(k, a) }
}
spec fn just(r: Result<Option<AnyValue>, ValueError>, a: AV) -> bool { out(r) == Ok::<Option<AV>, ()>(Some(a)) }
uninterp spec fn debug_of(o: Option<AV>) -> Seq<char>;
spec fn key_of_av(o: Option<AV>) -> Seq<char> { match o { Some(AV::Text(t)) => t, _ => debug_of(o) } }
/// the text of a string value, or the value
#[verifier::external_body]
fn as_string(a: Option<AnyValue>) -> (r: Result<String, Option<AnyValue>>)
    ensures match (match a { Some(x) => Some(x.av()), None => None }) { Some(AV::Text(t)) => r.is_ok() && r->Ok_0@ == t, o => r.is_err() && (match r->Err_0 { Some(x) => Some(x.av()), None => None }) == o } { unimplemented!() }
#[verifier::external_body]
fn debug_text(a: &Option<AnyValue>) -> (r: String) ensures r@ == debug_of(match *a { Some(x) => Some(x.av()), None => None }) { unimplemented!() }
#[verifier::external_body]
fn missing_key() -> (r: ValueError) { unimplemented!() }

//@item opentelemetry-appender-log/src/lib.rs mod any_value :: struct ValueSerializeSeq
//@item opentelemetry-appender-log/src/lib.rs mod any_value :: struct ValueSerializeTuple
//@item opentelemetry-appender-log/src/lib.rs mod any_value :: struct ValueSerializeTupleStruct
//@item opentelemetry-appender-log/src/lib.rs mod any_value :: struct ValueSerializeMap
//@item opentelemetry-appender-log/src/lib.rs mod any_value :: struct ValueSerializeStruct
//@item opentelemetry-appender-log/src/lib.rs mod any_value :: struct ValueSerializeTupleVariant
//@item opentelemetry-appender-log/src/lib.rs mod any_value :: struct ValueSerializeStructVariant
impl ValueSerializeSeq {
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl SerializeSeq for ValueSerializeSeq :: fn serialize_element
//@ret r
//@contract
    ensures added(old(self).value@, final(self).value@, value.ser(), r),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl SerializeSeq for ValueSerializeSeq :: fn end
//@ret r
//@contract
    ensures just(r, AV::List(avs(self.value@))),
//@endfn
}
impl ValueSerializeTuple {
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl SerializeTuple for ValueSerializeTuple :: fn serialize_element
//@ret r
//@contract
    ensures added(old(self).value@, final(self).value@, value.ser(), r),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl SerializeTuple for ValueSerializeTuple :: fn end
//@ret r
//@contract
    ensures just(r, AV::List(avs(self.value@))),
//@endfn
}
impl ValueSerializeTupleStruct {
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl SerializeTupleStruct for ValueSerializeTupleStruct :: fn serialize_field
//@ret r
//@contract
    ensures added(old(self).value@, final(self).value@, value.ser(), r),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl SerializeTupleStruct for ValueSerializeTupleStruct :: fn end
//@ret r
//@contract
    ensures just(r, AV::List(avs(self.value@))),
//@endfn
}
impl ValueSerializeTupleVariant {
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl SerializeTupleVariant for ValueSerializeTupleVariant :: fn serialize_field
//@ret r
//@contract
    ensures added(old(self).value@, final(self).value@, value.ser(), r), final(self).variant == old(self).variant,
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl SerializeTupleVariant for ValueSerializeTupleVariant :: fn end
//@ret r
//@subst AnyValue::Map({ let mut variant = $$m; variant.insert($$a); variant }) ~> { let mut variant = $$m; let _o = variant.insert($$a); av_map(variant) }
//@subst Key::from(self.variant) ~> key_of(self.variant)
//@contract
    ensures just(r, AV::Dict(Map::<Seq<char>, AV>::empty().insert(self.variant@, AV::List(avs(self.value@))))),
//@endfn
}
impl ValueSerializeMap {
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl SerializeMap for ValueSerializeMap :: fn serialize_key
//@ret r
//@subst match key.serialize(ValueSerializer)? { Some(AnyValue::String(key)) => Key::from(String::from(key)), key => Key::from(format!("{:?}", key)), } ~> match as_string(key.serialize(ValueSerializer)?) { Ok(key) => key_of_string(key), Err(key) => key_of_string(debug_text(&key)), }
//@contract
    ensures match key.ser() { Err(_) => r.is_err() && final(self).value == old(self).value, Ok(o) => r.is_ok() && final(self).key.is_some() && final(self).key->0.k() == key_of_av(o) && final(self).value == old(self).value },
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl SerializeMap for ValueSerializeMap :: fn serialize_value
//@ret r
//@subst self.key.take().ok_or_else(|| ValueError::custom("missing key"))? ~> match self.key.take() { Some(k) => k, None => { return Err(missing_key()); } }
//@subst self.value.insert($$a); ~> { let _o = self.value.insert($$a); }
//@contract
    ensures final(self).key.is_none(), match old(self).key { None => r.is_err(), Some(k) => put(old(self).value.m(), final(self).value.m(), k.k(), value.ser(), r) },
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl SerializeMap for ValueSerializeMap :: fn end
//@ret r
//@contract
    ensures just(r, AV::Dict(self.value.m())),
//@endfn
    /// serde's provided method: the key, then the value
    fn serialize_entry<K: Serialize, T: Serialize>(&mut self, key: &K, value: &T) -> (r: Result<(), ValueError>)
        ensures key.ser().is_ok() ==> put(old(self).value.m(), final(self).value.m(), key_of_av(key.ser()->Ok_0), value.ser(), r)
    { match self.serialize_key(key) { Ok(_) => {} Err(e) => { return Err(e); } } self.serialize_value(value) }
}
impl ValueSerializeStruct {
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl SerializeStruct for ValueSerializeStruct :: fn serialize_field
//@ret r
//@subst Key::from(key) ~> key_of(key)
//@subst self.value.insert($$a); ~> { let _o = self.value.insert($$a); }
//@contract
    ensures put(old(self).value.m(), final(self).value.m(), key@, value.ser(), r),
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl SerializeStruct for ValueSerializeStruct :: fn end
//@ret r
//@contract
    ensures just(r, AV::Dict(self.value.m())),
//@endfn
}
impl ValueSerializeStructVariant {
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl SerializeStructVariant for ValueSerializeStructVariant :: fn serialize_field
//@ret r
//@subst Key::from(key) ~> key_of(key)
//@subst self.value.insert($$a); ~> { let _o = self.value.insert($$a); }
//@contract
    ensures put(old(self).value.m(), final(self).value.m(), key@, value.ser(), r), final(self).variant == old(self).variant,
//@endfn
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: impl SerializeStructVariant for ValueSerializeStructVariant :: fn end
//@ret r
//@subst AnyValue::Map({ let mut variant = $$m; variant.insert($$a); variant }) ~> { let mut variant = $$m; let _o = variant.insert($$a); av_map(variant) }
//@subst Key::from(self.variant) ~> key_of(self.variant)
//@contract
    ensures just(r, AV::Dict(Map::<Seq<char>, AV>::empty().insert(self.variant@, AV::Dict(self.value.m())))),
//@endfn
}
//@fn opentelemetry-appender-log/src/lib.rs mod any_value :: fn serialize
//@sig fn serialize<T: Serialize>(value: T) -> Option<AnyValue>
//@ret r
//@subst value.serialize(ValueSerializer).ok()? ~> match value.serialize(ValueSerializer) { Ok(v) => v, Err(_) => None }
//@contract
    // a value that fails to serialise is left out
    ensures match value.ser() { Ok(Some(a)) => r.is_some() && r->0.av() == a, _ => r.is_none() },
//@endfn
} // mod log_serde
// ================================================================================================ tracing
mod tracing_bridge {
use super::*;
//@gsubst Level::TRACE ~> Level::Trace
//@gsubst Level::DEBUG ~> Level::Debug
//@gsubst Level::INFO ~> Level::Info
//@gsubst Level::WARN ~> Level::Warn
//@gsubst Level::ERROR ~> Level::Error
//@gsubst LR: LogRecord ~>
//@gsubst &tracing::field::Field ~> &Field
//@gsubst &tracing_core::Field ~> &Field
//@gsubst Key::new($$a) ~> key_of($$a)
//@gsubst i64::try_from(value) ~> value.narrow()
//@gsubst format!("{value:?}") ~> value.text()
#[derive(Clone, Copy)]
enum Level { Error, Warn, Info, Debug, Trace }
impl Level {
    #[verifier::external_body] fn as_str(&self) -> (r: &'static str) ensures r@ == level_text(*self) { unimplemented!() }
}
spec fn level_text(l: Level) -> Seq<char> { match l { Level::Error => "ERROR"@, Level::Warn => "WARN"@, Level::Info => "INFO"@, Level::Debug => "DEBUG"@, Level::Trace => "TRACE"@ } }
spec fn severity(l: Level) -> Severity { match l { Level::Error => Severity::Error, Level::Warn => Severity::Warn, Level::Info => Severity::Info, Level::Debug => Severity::Debug, Level::Trace => Severity::Trace } }
//@fn opentelemetry-appender-tracing/src/layer.rs fn severity_of_level
//@sig fn severity_of_level(level: &Level) -> Severity
//@ret r
//@contract
    ensures r == severity(*level),
//@endfn
// trusted: std texts
#[verifier::external_body]
fn strip_prefix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures r.is_some() == (s@.len() >= p@.len() && s@.take(p@.len() as int) == p@), r.is_some() ==> r->0@ == s@.skip(p@.len() as int) { s.strip_prefix(p) }
spec fn holds_char(s: Seq<char>, c: char) -> bool { exists|i: int| 0 <= i < s.len() && s[i] == c }
/// what is after the last c
spec fn after(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else if s.last() == c { seq![] } else { after(s.drop_last(), c).push(s.last()) } }
#[verifier::external_body]
fn rsplit_once<'a>(s: &'a str, c: char) -> (r: Option<(&'a str, &'a str)>)
    ensures r.is_some() == holds_char(s@, c), r.is_some() ==> (r->0).1@ == after(s@, c) && (r->0).0@ == s@.take(s@.len() - (r->0).1@.len() - 1) { s.rsplit_once(c) }
/// the names the log crate's events carry their metadata under
spec fn dup(n: Seq<char>) -> bool { n == "log.file"@ || n == "log.line"@ || n == "log.module_path"@ || n == "log.target"@ }
//@fn opentelemetry-appender-tracing/src/layer.rs fn is_duplicated_metadata
//@ret r
//@subst field.strip_prefix($$p) ~> strip_prefix(field, $$p)
//@subst $$s.map(|remainder| matches!(remainder, $$p)).unwrap_or(false) ~> match $$s { Some(remainder) => match remainder { $$p => true, _ => false }, None => false }
//@contract
    ensures r == dup(field@),
//@start
    broadcast use str_ext;
    proof {
        reveal_strlit("log."); reveal_strlit("file"); reveal_strlit("line"); reveal_strlit("module_path"); reveal_strlit("target");
        reveal_strlit("log.file"); reveal_strlit("log.line"); reveal_strlit("log.module_path"); reveal_strlit("log.target");
        let f = field@;
        assert("log."@ + "file"@ =~= "log.file"@); assert("log."@ + "line"@ =~= "log.line"@); assert("log."@ + "module_path"@ =~= "log.module_path"@); assert("log."@ + "target"@ =~= "log.target"@);
        if f.len() >= 4 { assert(f.take(4) + f.skip(4) =~= f); }
        assert("log.file"@.take(4) =~= "log."@); assert("log.line"@.take(4) =~= "log."@); assert("log.module_path"@.take(4) =~= "log."@); assert("log.target"@.take(4) =~= "log."@);
        assert("log.file"@.skip(4) =~= "file"@); assert("log.line"@.skip(4) =~= "line"@); assert("log.module_path"@.skip(4) =~= "module_path"@); assert("log.target"@.skip(4) =~= "target"@);
    }
//@endfn
spec fn filename(s: Seq<char>) -> Seq<char> { if holds_char(s, '/') { after(s, '/') } else if holds_char(s, '\\') { after(s, '\\') } else { s } }
//@fn opentelemetry-appender-tracing/src/layer.rs fn get_filename
//@ret r
//@subst? filepath.rsplit_once($$c) ~> rsplit_once(filepath, $$c)
//@contract
    ensures r@ == filename(filepath@),
//@endfn
// trusted: tracing's metadata, fields and events
struct Metadata { level: Level, target: &'static str, name: &'static str, file: Option<&'static str>, line: Option<u32>, module_path: Option<&'static str> }
impl Metadata {
    fn level(&self) -> (r: &Level) ensures *r == self.level { &self.level }
    fn target(&self) -> (r: &'static str) ensures r == self.target { self.target }
    fn name(&self) -> (r: &'static str) ensures r == self.name { self.name }
    fn file(&self) -> (r: Option<&'static str>) ensures r == self.file { self.file }
    fn line(&self) -> (r: Option<u32>) ensures r == self.line { self.line }
    fn module_path(&self) -> (r: Option<&'static str>) ensures r == self.module_path { self.module_path }
}
struct Field { name: &'static str }
impl Field { fn name(&self) -> (r: &'static str) ensures r == self.name { self.name } }
/// a value shown with Debug or Display
#[verifier::external_body]
struct Shown { _p: u8 }
impl Shown { uninterp spec fn t(&self) -> Seq<char>; #[verifier::external_body] fn text(&self) -> (r: String) ensures r@ == self.t() { unimplemented!() } }
/// a field's value by the visitor method tracing calls for it
enum FieldValue { Debug(Shown), Error(Shown), Bytes(Vec<u8>), Str(String), Bool(bool), F64(f64), I64(i64), U64(u64), I128(i128), U128(u128) }
struct EventVisitor<'a> { log_record: &'a mut Rec }
spec fn attr(r: RecV, k: Seq<char>, a: AV) -> RecV { RecV { attrs: r.attrs.push((k, a)), ..r } }
/// what one field adds: the message is the body, an error is exception.message, metadata the bridge already took is left
/// out, everything else is an attribute of the field's own type
spec fn with_field(r: RecV, n: Seq<char>, v: FieldValue) -> RecV {
    match v {
        FieldValue::Debug(t) => if dup(n) { r } else if n == "message"@ { RecV { body: Some(AV::Text(t.t())), ..r } } else { attr(r, n, AV::Text(t.t())) },
        FieldValue::Str(t) => if dup(n) { r } else if n == "message"@ { RecV { body: Some(AV::Text(t@)), ..r } } else { attr(r, n, AV::Text(t@)) },
        FieldValue::Error(t) => attr(r, "exception.message"@, AV::Text(t.t())),
        FieldValue::Bytes(b) => attr(r, n, AV::Bytes(b@)),
        FieldValue::Bool(b) => attr(r, n, AV::Bool(b)),
        FieldValue::F64(x) => attr(r, n, AV::Double(x)),
        FieldValue::I64(x) => if dup(n) { r } else { attr(r, n, AV::Int(x)) },
        FieldValue::U64(x) => if dup(n) { r } else { attr(r, n, int_av(x as int)) },
        FieldValue::I128(x) => if dup(n) { r } else { attr(r, n, int_av(x as int)) },
        FieldValue::U128(x) => if dup(n) { r } else { attr(r, n, int_av(x as int)) },
    }
}
spec fn with_fields(r: RecV, s: Seq<(Field, FieldValue)>) -> RecV decreases s.len() {
    if s.len() == 0 { r } else { with_field(with_fields(r, s.drop_last()), s.last().0.name@, s.last().1) }
}
spec fn code_attrs(m: Metadata) -> Seq<(Seq<char>, AV)> {
    let a = match m.module_path { Some(p) => seq![("code.namespace"@, AV::Text(p@))], None => seq![] };
    let b = match m.file { Some(f) => a.push(("code.filepath"@, AV::Text(f@))).push(("code.filename"@, AV::Text(filename(f@)))), None => a };
    match m.line { Some(l) => b.push(("code.lineno"@, AV::Int(l as i64))), None => b }
}
spec fn with_code(m: Metadata, r: RecV) -> RecV { RecV { attrs: r.attrs + code_attrs(m), ..r } }
impl<'a> EventVisitor<'a> {
//@fn opentelemetry-appender-tracing/src/layer.rs impl ! EventVisitor :: fn new
//@sig fn new(log_record: &'a mut Rec) -> EventVisitor<'a>
//@ret r
//@contract
    ensures *r.log_record == *old(log_record), *final(log_record) == *final(r.log_record),
//@endfn
//@fn opentelemetry-appender-tracing/src/layer.rs impl ! EventVisitor :: fn visit_experimental_metadata
//@subst? module_path.to_owned() ~> owned(module_path)
//@subst? filepath.to_owned() ~> owned(filepath)
//@subst? get_filename(filepath).to_owned() ~> owned(get_filename(filepath))
//@contract
    ensures *final(final(self).log_record) == *final(old(self).log_record), final(self).log_record.v() == with_code(*meta, old(self).log_record.v()),
//@end
    proof { assert(self.log_record.v().attrs =~= with_code(*meta, old(self).log_record.v()).attrs); }
//@endfn
//@fn opentelemetry-appender-tracing/src/layer.rs impl tracing::field::Visit for EventVisitor :: fn record_debug
//@sig fn record_debug(&mut self, field: &Field, value: &Shown)
//@subst? format!("{:?}", value).into() ~> any(value.text())
//@contract
    ensures *final(final(self).log_record) == *final(old(self).log_record), 
        final(self).log_record.v() == with_field(old(self).log_record.v(), field.name@, FieldValue::Debug(*value)),
//@start
    broadcast use str_ext;
//@endfn
//@fn opentelemetry-appender-tracing/src/layer.rs impl tracing::field::Visit for EventVisitor :: fn record_error
//@sig fn record_error(&mut self, _field: &Field, value: &Shown)
//@subst? value.to_string() ~> value.text()
//@subst? value.shown() ~> value.text()
//@contract
    ensures *final(final(self).log_record) == *final(old(self).log_record), 
        final(self).log_record.v() == with_field(old(self).log_record.v(), _field.name@, FieldValue::Error(*value)),
//@start
    broadcast use str_ext;
//@endfn
//@fn opentelemetry-appender-tracing/src/layer.rs impl tracing::field::Visit for EventVisitor :: fn record_bytes
//@sig fn record_bytes(&mut self, field: &Field, value: &[u8])
//@contract
    ensures *final(final(self).log_record) == *final(old(self).log_record), 
        final(self).log_record.v() == attr(old(self).log_record.v(), field.name@, AV::Bytes(value@)),
//@start
    broadcast use str_ext;
//@endfn
//@fn opentelemetry-appender-tracing/src/layer.rs impl tracing::field::Visit for EventVisitor :: fn record_str
//@sig fn record_str(&mut self, field: &Field, value: &str)
//@subst? value.to_owned() ~> owned(value)
//@contract
    ensures *final(final(self).log_record) == *final(old(self).log_record), 
        final(self).log_record.v() == (if dup(field.name@) { old(self).log_record.v() } else if field.name@ == "message"@ { RecV { body: Some(AV::Text(value@)), ..old(self).log_record.v() } } else { attr(old(self).log_record.v(), field.name@, AV::Text(value@)) }),
//@start
    broadcast use str_ext;
//@endfn
//@fn opentelemetry-appender-tracing/src/layer.rs impl tracing::field::Visit for EventVisitor :: fn record_bool
//@sig fn record_bool(&mut self, field: &Field, value: bool)
//@contract
    ensures *final(final(self).log_record) == *final(old(self).log_record), 
        final(self).log_record.v() == with_field(old(self).log_record.v(), field.name@, FieldValue::Bool(value)),
//@start
    broadcast use str_ext;
//@endfn
//@fn opentelemetry-appender-tracing/src/layer.rs impl tracing::field::Visit for EventVisitor :: fn record_f64
//@sig fn record_f64(&mut self, field: &Field, value: f64)
//@contract
    ensures *final(final(self).log_record) == *final(old(self).log_record), 
        final(self).log_record.v() == with_field(old(self).log_record.v(), field.name@, FieldValue::F64(value)),
//@start
    broadcast use str_ext;
//@endfn
//@fn opentelemetry-appender-tracing/src/layer.rs impl tracing::field::Visit for EventVisitor :: fn record_i64
//@sig fn record_i64(&mut self, field: &Field, value: i64)
//@contract
    ensures *final(final(self).log_record) == *final(old(self).log_record), 
        final(self).log_record.v() == with_field(old(self).log_record.v(), field.name@, FieldValue::I64(value)),
//@start
    broadcast use str_ext;
//@endfn
//@fn opentelemetry-appender-tracing/src/layer.rs impl tracing::field::Visit for EventVisitor :: fn record_u64
//@sig fn record_u64(&mut self, field: &Field, value: u64)
//@contract
    ensures *final(final(self).log_record) == *final(old(self).log_record), 
        final(self).log_record.v() == with_field(old(self).log_record.v(), field.name@, FieldValue::U64(value)),
//@start
    broadcast use str_ext;
//@endfn
//@fn opentelemetry-appender-tracing/src/layer.rs impl tracing::field::Visit for EventVisitor :: fn record_i128
//@sig fn record_i128(&mut self, field: &Field, value: i128)
//@contract
    ensures *final(final(self).log_record) == *final(old(self).log_record), 
        final(self).log_record.v() == with_field(old(self).log_record.v(), field.name@, FieldValue::I128(value)),
//@start
    broadcast use str_ext;
//@endfn
//@fn opentelemetry-appender-tracing/src/layer.rs impl tracing::field::Visit for EventVisitor :: fn record_u128
//@sig fn record_u128(&mut self, field: &Field, value: u128)
//@contract
    ensures *final(final(self).log_record) == *final(old(self).log_record), 
        final(self).log_record.v() == with_field(old(self).log_record.v(), field.name@, FieldValue::U128(value)),
//@start
    broadcast use str_ext;
//@endfn
}
struct Event { metadata: Metadata, normalized: Option<Metadata>, fields: Vec<(Field, FieldValue)> }
impl Event {
    fn metadata(&self) -> (r: &Metadata) ensures *r == self.metadata { &self.metadata }
    /// the metadata of the log record this event was made from, if it was
    fn normalized_metadata(&self) -> (r: &Option<Metadata>) ensures *r == self.normalized { &self.normalized }
    /// tracing calls the visitor for each field, in order
    fn record(&self, v: &mut EventVisitor<'_>)
        ensures *final(final(v).log_record) == *final(old(v).log_record), final(v).log_record.v() == with_fields(old(v).log_record.v(), self.fields@)
    {
        let mut i = 0;
        while i < self.fields.len()
            invariant i <= self.fields@.len(), *final(v.log_record) == *final(old(v).log_record), v.log_record.v() == with_fields(old(v).log_record.v(), self.fields@.take(i as int)),
            decreases self.fields@.len() - i
        {
            proof { assert(self.fields@.take(i as int + 1).drop_last() =~= self.fields@.take(i as int)); }
            let f = &self.fields[i].0;
            match &self.fields[i].1 {
                FieldValue::Debug(t) => v.record_debug(f, t), FieldValue::Error(t) => v.record_error(f, t), FieldValue::Bytes(b) => v.record_bytes(f, b.as_slice()),
                FieldValue::Str(t) => v.record_str(f, t.as_str()), FieldValue::Bool(b) => v.record_bool(f, *b), FieldValue::F64(x) => v.record_f64(f, *x), FieldValue::I64(x) => v.record_i64(f, *x),
                FieldValue::U64(x) => v.record_u64(f, *x), FieldValue::I128(x) => v.record_i128(f, *x), FieldValue::U128(x) => v.record_u128(f, *x),
            }
            i += 1;
        }
        proof { assert(self.fields@.take(i as int) =~= self.fields@); }
    }
}
/// trusted: what tracing-opentelemetry keeps for the span the event is in
struct SpanRef { span_id: Option<SpanId>, root_trace_id: Option<TraceId> }
struct Ctx { span: Option<SpanRef> }
impl Ctx { fn event_span(&self, e: &Event) -> (r: &Option<SpanRef>) ensures *r == self.span { &self.span } }
fn zip(a: Option<TraceId>, b: Option<SpanId>) -> (r: Option<(TraceId, SpanId)>)
    ensures r == (match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None }) { match a { Some(x) => match b { Some(y) => Some((x, y)), None => None }, None => None } }
spec fn with_trace(r: RecV, c: Ctx) -> RecV {
    match c.span { Some(s) => match (s.root_trace_id, s.span_id) { (Some(t), Some(i)) => RecV { trace: Some((t, i, None)), ..r }, _ => r }, None => r }
}
spec fn record_of(e: Event, c: Ctx) -> RecV {
    let r = RecV { target: Some(e.metadata.target@), name: Some(e.metadata.name@), number: Some(severity(e.metadata.level)), text: Some(level_text(e.metadata.level)), ..blank() };
    with_trace(with_fields(with_code(match e.normalized { Some(m) => m, None => e.metadata }, r), e.fields@), c)
}
struct OpenTelemetryTracingBridge { logger: Logger }
impl OpenTelemetryTracingBridge {
//@fn opentelemetry-appender-tracing/src/layer.rs impl Layer for OpenTelemetryTracingBridge :: fn on_event
//@sig fn on_event(&mut self, event: &Event, _ctx: Ctx)
//@subst normalized_meta.as_ref().unwrap_or_else(|| event.metadata()) ~> match normalized_meta { Some(m) => m, None => event.metadata() }
//@subst use tracing_opentelemetry::OtelData; ~>
//@subst span.extensions().get::<OtelData>().and_then(|otd| otd.builder.span_id) ~> span.span_id
//@subst span.scope().last().and_then(|root_span| { root_span.extensions().get::<OtelData>().and_then(|otd| otd.builder.trace_id) }) ~> span.root_trace_id
//@subst opt_trace_id.zip(opt_span_id) ~> zip(opt_trace_id, opt_span_id)
//@contract
    ensures ({
        let m = event.metadata;
        let wanted = old(self).logger.wants(severity(m.level), m.target@, Some(m.name@));
        // nothing when the logger does not want it; otherwise exactly one record
        &&& !wanted ==> final(self).logger.out() == old(self).logger.out()
        &&& wanted ==> final(self).logger.out() == old(self).logger.out().push(record_of(*event, _ctx))
    }),
//@endfn
}
} // mod tracing_bridge
} // verus!
fn main() {}

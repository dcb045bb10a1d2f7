// Unit: the JSON form of OTLP messages (opentelemetry-proto/src/proto.rs, mod serializers).
use vstd::prelude::*;
use vstd::string::*;
verus! {
#[verifier::external_body] struct SerErr { _p: u8 }
#[verifier::external_body] struct DeErr { _p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct F { _p: u8 }
#[verifier::external_body] struct ArrayValue { _p: u8 }
#[verifier::external_body] struct KeyValueList { _p: u8 }
#[derive(Clone, Copy, PartialEq, Eq)] enum Sort { Finite, Nan, PosInf, NegInf }
uninterp spec fn sort(f: F) -> Sort;
/// the one value of a sort that is no number to JSON, and its name in proto3
spec fn name_of(s: Sort) -> Seq<char> { match s { Sort::Nan => "NaN"@, Sort::PosInf => "Infinity"@, _ => "-Infinity"@ } }
impl F {
    #[verifier::external_body] fn is_finite(&self) -> (r: bool) ensures r == (sort(*self) == Sort::Finite) { unimplemented!() }
    #[verifier::external_body] fn is_nan(&self) -> (r: bool) ensures r == (sort(*self) == Sort::Nan) { unimplemented!() }
    #[verifier::external_body] fn positive(&self) -> (r: bool) ensures sort(*self) == Sort::PosInf ==> r, sort(*self) == Sort::NegInf ==> !r { unimplemented!() }
}
enum Value { StringValue(String), BoolValue(bool), IntValue(i64), DoubleValue(F), ArrayValue(ArrayValue), KvlistValue(KeyValueList), BytesValue(Vec<u8>) }
mod any_value { pub(crate) use super::Value; }
/// a JSON value, as far as is looked at here
enum Js { Str(Seq<char>), Bool(bool), Int(i64), Num(F), Null, Arr(ArrayValue), Kv(KeyValueList), Other(int) }
type Entries = Seq<(Seq<char>, Js)>;
enum Out { Map(Entries), Nothing, Str(Seq<char>) }

// ---- numbers and bytes as texts ----
uninterp spec fn dec(i: int) -> Seq<char>;
uninterp spec fn hex(b: Seq<u8>) -> Seq<char>;
uninterp spec fn b64(b: Seq<u8>) -> Seq<char>;
uninterp spec fn undec(s: Seq<char>) -> Option<int>;
uninterp spec fn unhex(s: Seq<char>) -> Option<Seq<u8>>;
uninterp spec fn unb64(s: Seq<char>) -> Option<Seq<u8>>;
uninterp spec fn undouble(s: Seq<char>) -> Option<F>;
// what std, hex and base64 promise: what they write they read
#[verifier::external_body] proof fn dec_back(i: int) ensures undec(dec(i)) == Some(i) {}
#[verifier::external_body] proof fn hex_back(b: Seq<u8>) ensures unhex(hex(b)) == Some(b) {}
#[verifier::external_body] proof fn b64_back(b: Seq<u8>) ensures unb64(b64(b)) == Some(b) {}
#[verifier::external_body] proof fn names_back(s: Sort) requires s != Sort::Finite ensures undouble(name_of(s)) is Some, sort(undouble(name_of(s))->0) == s {}
#[verifier::external_body] fn dec_i64(i: &i64) -> (r: String) ensures r@ == dec(*i as int) { unimplemented!() }
#[verifier::external_body] fn dec_u64(i: &u64) -> (r: String) ensures r@ == dec(*i as int) { unimplemented!() }
#[verifier::external_body] fn hex_encode(b: &[u8]) -> (r: String) ensures r@ == hex(b@) { unimplemented!() }
#[verifier::external_body] fn b64_encode(b: &Vec<u8>) -> (r: String) ensures r@ == b64(b@) { unimplemented!() }
#[verifier::external_body] fn hex_decode(s: &str) -> (r: Result<Vec<u8>, DeErr>) ensures match r { Ok(b) => unhex(s@) == Some(b@), Err(_) => unhex(s@) is None } { unimplemented!() }
#[verifier::external_body] fn b64_decode(s: &String) -> (r: Result<Vec<u8>, DeErr>) ensures match r { Ok(b) => unb64(s@) == Some(b@), Err(_) => unb64(s@) is None } { unimplemented!() }
spec fn in_i64(x: Option<int>) -> Option<i64> { match x { Some(k) => if i64::MIN <= k <= i64::MAX { Some(k as i64) } else { None }, None => None } }
spec fn in_u64(x: Option<int>) -> Option<u64> { match x { Some(k) => if 0 <= k <= u64::MAX { Some(k as u64) } else { None }, None => None } }
#[verifier::external_body] fn parse_i64(s: &String) -> (r: Result<i64, DeErr>) ensures match r { Ok(k) => in_i64(undec(s@)) == Some(k), Err(_) => in_i64(undec(s@)) is None } { unimplemented!() }
#[verifier::external_body] fn parse_u64(s: &String) -> (r: Result<u64, DeErr>) ensures match r { Ok(k) => in_u64(undec(s@)) == Some(k), Err(_) => in_u64(undec(s@)) is None } { unimplemented!() }
#[verifier::external_body] fn parse_double(s: &String) -> (r: Result<F, DeErr>) ensures match r { Ok(k) => undouble(s@) == Some(k), Err(_) => undouble(s@) is None } { unimplemented!() }

// ---- serde's two sides ----
struct Written { o: Ghost<Out> }
struct Serializer { _p: u8 }
struct MapSer { es: Ghost<Entries> }
impl Serializer {
    #[verifier::external_body] fn serialize_str(self, s: &String) -> (r: Result<Written, SerErr>) ensures r is Ok ==> (r->Ok_0).o@ == Out::Str(s@) { unimplemented!() }
    #[verifier::external_body] fn serialize_none(self) -> (r: Result<Written, SerErr>) ensures r is Ok ==> (r->Ok_0).o@ == Out::Nothing { unimplemented!() }
    #[verifier::external_body] fn serialize_map(self, n: Option<usize>) -> (r: Result<MapSer, SerErr>) ensures r is Ok ==> (r->Ok_0).es@ == Seq::<(Seq<char>, Js)>::empty() { unimplemented!() }
}
impl MapSer {
    /// after an error nothing is known of what was written
    #[verifier::external_body] fn serialize_entry(&mut self, k: &str, v: &str) -> (r: Result<(), SerErr>) ensures r is Ok ==> final(self).es@ == old(self).es@.push((k@, Js::Str(v@))) { unimplemented!() }
    #[verifier::external_body] fn end(self) -> (r: Result<Written, SerErr>) ensures r is Ok ==> (r->Ok_0).o@ == Out::Map(self.es@) { unimplemented!() }
}
/// what the derived Serialize of Value writes: the variant's name in camelCase, and its content
spec fn derived(v: Value) -> Entries {
    seq![match v {
        Value::StringValue(s) => ("stringValue"@, Js::Str(s@)), Value::BoolValue(b) => ("boolValue"@, Js::Bool(b)), Value::IntValue(i) => ("intValue"@, Js::Int(i)),
        Value::DoubleValue(d) => ("doubleValue"@, if sort(d) == Sort::Finite { Js::Num(d) } else { Js::Null }),
        Value::ArrayValue(a) => ("arrayValue"@, Js::Arr(a)), Value::KvlistValue(l) => ("kvlistValue"@, Js::Kv(l)), Value::BytesValue(b) => ("bytesValue"@, Js::Other(0)),
    }]
}
impl Value { #[verifier::external_body] fn serialize(&self, s: Serializer) -> (r: Result<Written, SerErr>) ensures r is Ok ==> (r->Ok_0).o@ == Out::Map(derived(*self)) { unimplemented!() } }
/// what OTLP says is written
spec fn written(v: Option<Value>) -> Out {
    match v {
        None => Out::Nothing,
        Some(v) => Out::Map(match v {
            Value::IntValue(i) => seq![("intValue"@, Js::Str(dec(i as int)))],
            Value::BytesValue(b) => seq![("bytesValue"@, Js::Str(b64(b@)))],
            Value::DoubleValue(d) => if sort(d) == Sort::Finite { seq![("doubleValue"@, Js::Num(d))] } else { seq![("doubleValue"@, Js::Str(name_of(sort(d))))] },
            o => derived(o),
        }),
    }
}
//@gsubst i.to_string() ~> dec_i64(i).as_str()
//@gsubst &dec_i64(i).as_str() ~> dec_i64(i).as_str()
//@gsubst &base64::encode(b) ~> b64_encode(b).as_str()
//@gsubst *d > 0.0 ~> d.positive()
//@gsubst match &value ~> match value
//@fn opentelemetry-proto/src/proto.rs mod serializers :: fn serialize_to_value
//@sig fn serialize_to_value(value: &Option<Value>, serializer: Serializer) -> (r: Result<Written, SerErr>)
//@contract
    // all of it, or an error
    ensures r is Ok ==> (r->Ok_0).o@ == written(*value),
//@endfn
//@fn opentelemetry-proto/src/proto.rs mod serializers :: fn serialize_to_hex_string
//@sig fn serialize_to_hex_string(bytes: &[u8], serializer: Serializer) -> (r: Result<Written, SerErr>)
//@subst hex::encode ~> hex_encode
//@contract
    ensures r is Ok ==> (r->Ok_0).o@ == Out::Str(hex(bytes@)),
//@endfn
//@fn opentelemetry-proto/src/proto.rs mod serializers :: fn serialize_u64_to_string
//@sig fn serialize_u64_to_string(value: &u64, serializer: Serializer) -> (r: Result<Written, SerErr>)
//@subst value.to_string() ~> dec_u64(value)
//@contract
    ensures r is Ok ==> (r->Ok_0).o@ == Out::Str(dec(*value as int)),
//@endfn
//@fn opentelemetry-proto/src/proto.rs mod serializers :: fn serialize_i64_to_string
//@sig fn serialize_i64_to_string(value: &i64, serializer: Serializer) -> (r: Result<Written, SerErr>)
//@subst value.to_string() ~> dec_i64(value)
//@contract
    ensures r is Ok ==> (r->Ok_0).o@ == Out::Str(dec(*value as int)),
//@endfn
// ---- reading ----
/// a text handed to a visitor, or given as a String
struct Deserializer { j: Ghost<Js>, es: Ghost<Entries>, fine: Ghost<bool> }
enum StringOrInt { Int(i64), String(String) }
enum StringOrDouble { Double(F), String(String) }
trait FromJs: Sized { spec fn readable(j: Js) -> bool; spec fn reads(j: Js, v: Self) -> bool; }
impl FromJs for String { spec fn readable(j: Js) -> bool { j is Str } spec fn reads(j: Js, v: Self) -> bool { v@ == j->Str_0 } }
impl FromJs for bool { spec fn readable(j: Js) -> bool { j is Bool } spec fn reads(j: Js, v: Self) -> bool { v == j->Bool_0 } }
// nested values: what was written reads back, by induction on the nesting
impl FromJs for ArrayValue { spec fn readable(j: Js) -> bool { j is Arr } spec fn reads(j: Js, v: Self) -> bool { v == j->Arr_0 } }
impl FromJs for KeyValueList { spec fn readable(j: Js) -> bool { j is Kv } spec fn reads(j: Js, v: Self) -> bool { v == j->Kv_0 } }
uninterp spec fn of_int(i: i64) -> F;
impl FromJs for F { spec fn readable(j: Js) -> bool { j is Num || j is Int } spec fn reads(j: Js, v: Self) -> bool { v == (match j { Js::Int(i) => of_int(i), o => o->Num_0 }) } }
// the derived Deserialize of an untagged enum: the first variant that fits
impl FromJs for StringOrInt { spec fn readable(j: Js) -> bool { j is Int || j is Str } spec fn reads(j: Js, v: Self) -> bool { match j { Js::Int(i) => v == StringOrInt::Int(i), _ => v is String && (v->String_0)@ == j->Str_0 } } }
impl FromJs for StringOrDouble { spec fn readable(j: Js) -> bool { j is Num || j is Int || j is Str } spec fn reads(j: Js, v: Self) -> bool { match j { Js::Str(s) => v is String && (v->String_0)@ == s, o => v is Double && F::reads(o, v->Double_0) } } }
/// the members of an object, one after the other; nothing fails while the text is well-formed
struct MapAccess { es: Ghost<Entries>, i: Ghost<int>, fine: Ghost<bool> }
impl MapAccess {
    spec fn ok(&self) -> bool { 0 <= self.i@ <= self.es@.len() }
    #[verifier::external_body] fn next_key(&mut self) -> (r: Result<Option<String>, DeErr>)
        requires old(self).ok()
        ensures final(self).es == old(self).es, final(self).fine == old(self).fine, match r {
            Ok(Some(k)) => old(self).i@ < old(self).es@.len() && k@ == old(self).es@[old(self).i@].0 && final(self).i@ == old(self).i@ + 1,
            Ok(None) => old(self).i@ == old(self).es@.len() && final(self).i == old(self).i,
            Err(_) => !old(self).fine@,
        } { unimplemented!() }
    /// the value of the key last read
    #[verifier::external_body] fn next_value<T: FromJs>(&mut self) -> (r: Result<T, DeErr>)
        requires old(self).ok(), old(self).i@ > 0
        ensures *final(self) == *old(self), match r {
            Ok(v) => T::readable(old(self).es@[old(self).i@ - 1].1) && T::reads(old(self).es@[old(self).i@ - 1].1, v),
            Err(_) => !old(self).fine@ || !T::readable(old(self).es@[old(self).i@ - 1].1),
        } { unimplemented!() }
}
impl StringOrInt {
//@fn opentelemetry-proto/src/proto.rs mod serializers :: fn deserialize_from_value :: impl StringOrInt :: fn get_int
//@sig fn get_int(&self) -> (r: Result<i64, DeErr>)
//@subst val.parse::<i64>().map_err(de::Error::custom)? ~> parse_i64(val)?
//@contract
    ensures match *self { StringOrInt::Int(i) => r == Ok::<i64, DeErr>(i), StringOrInt::String(s) => match r { Ok(k) => in_i64(undec(s@)) == Some(k), Err(_) => in_i64(undec(s@)) is None } },
//@endfn
}
impl StringOrDouble {
//@fn opentelemetry-proto/src/proto.rs mod serializers :: fn deserialize_from_value :: impl StringOrDouble :: fn get_double
//@sig fn get_double(&self) -> (r: Result<F, DeErr>)
//@subst val.parse::<f64>().map_err(de::Error::custom)? ~> parse_double(val)?
//@contract
    ensures match *self { StringOrDouble::Double(d) => r == Ok::<F, DeErr>(d), StringOrDouble::String(s) => match r { Ok(k) => undouble(s@) == Some(k), Err(_) => undouble(s@) is None } },
//@endfn
}
#[derive(Clone, Copy, PartialEq, Eq)] enum Key { S, B, I, D, A, L, Y, Unknown }
spec fn key(s: Seq<char>) -> Key {
    if s == "stringValue"@ { Key::S } else if s == "boolValue"@ { Key::B } else if s == "intValue"@ { Key::I } else if s == "doubleValue"@ { Key::D }
    else if s == "arrayValue"@ { Key::A } else if s == "kvlistValue"@ { Key::L } else if s == "bytesValue"@ { Key::Y } else { Key::Unknown }
}
proof fn keys_apart() ensures key("stringValue"@) == Key::S, key("boolValue"@) == Key::B, key("intValue"@) == Key::I, key("doubleValue"@) == Key::D, key("arrayValue"@) == Key::A, key("kvlistValue"@) == Key::L, key("bytesValue"@) == Key::Y {
    reveal_strlit("stringValue"); reveal_strlit("boolValue"); reveal_strlit("intValue"); reveal_strlit("doubleValue"); reveal_strlit("arrayValue"); reveal_strlit("kvlistValue"); reveal_strlit("bytesValue");
    assert("stringValue"@.len() == 11); assert("boolValue"@.len() == 9); assert("intValue"@.len() == 8); assert("doubleValue"@.len() == 11); assert("arrayValue"@.len() == 10); assert("kvlistValue"@.len() == 11); assert("bytesValue"@.len() == 10);
    assert("stringValue"@[0] == 's'); assert("doubleValue"@[0] == 'd'); assert("kvlistValue"@[0] == 'k'); assert("arrayValue"@[0] == 'a'); assert("bytesValue"@[0] == 'b');
}
spec fn known(e: (Seq<char>, Js)) -> bool { key(e.0) != Key::Unknown }
/// a known member whose value is one of its kind
spec fn good(e: (Seq<char>, Js)) -> bool {
    match key(e.0) {
        Key::S => e.1 is Str, Key::B => e.1 is Bool, Key::A => e.1 is Arr, Key::L => e.1 is Kv,
        Key::I => match e.1 { Js::Int(_) => true, Js::Str(s) => in_i64(undec(s)) is Some, _ => false },
        Key::D => match e.1 { Js::Num(_) => true, Js::Int(_) => true, Js::Str(s) => undouble(s) is Some, _ => false },
        Key::Y => match e.1 { Js::Str(s) => unb64(s) is Some, _ => false },
        Key::Unknown => false,
    }
}
/// and the value it stands for
spec fn means(e: (Seq<char>, Js), v: Value) -> bool {
    match (key(e.0), v) {
        (Key::S, Value::StringValue(s)) => e.1 == Js::Str(s@), (Key::B, Value::BoolValue(b)) => e.1 == Js::Bool(b), (Key::A, Value::ArrayValue(a)) => e.1 == Js::Arr(a), (Key::L, Value::KvlistValue(l)) => e.1 == Js::Kv(l),
        (Key::I, Value::IntValue(i)) => match e.1 { Js::Int(k) => k == i, Js::Str(s) => in_i64(undec(s)) == Some(i), _ => false },
        (Key::D, Value::DoubleValue(d)) => match e.1 { Js::Num(f) => f == d, Js::Int(k) => d == of_int(k), Js::Str(s) => undouble(s) == Some(d), _ => false },
        (Key::Y, Value::BytesValue(b)) => match e.1 { Js::Str(s) => unb64(s) == Some(b@), _ => false },
        _ => false,
    }
}
/// the last known member of the first n
spec fn last_known(es: Entries, n: int, l: int) -> bool { 0 <= l < n && known(es[l]) && forall|k: int| l < k < n ==> !known(#[trigger] es[k]) }
spec fn so_far(es: Entries, n: int, v: Option<Value>, unknown: bool) -> bool {
    &&& forall|k: int| 0 <= k < n && known(es[k]) ==> good(#[trigger] es[k])
    &&& match v { Some(v) => exists|l: int| last_known(es, n, l) && #[trigger] means(es[l], v), None => forall|k: int| 0 <= k < n ==> !known(#[trigger] es[k]) }
    &&& unknown == (exists|k: int| 0 <= k < n && !known(#[trigger] es[k]))
    &&& v is None && !unknown ==> n == 0
}
broadcast proof fn one_more(es: Entries, n: int, n1: int, v0: Option<Value>, v1: Option<Value>, u0: bool, u1: bool)
    requires 0 <= n < es.len(), n1 == n + 1, #[trigger] so_far(es, n, v0, u0), known(es[n]) ==> good(es[n]) && u1 == u0 && v1 is Some && means(es[n], v1->0), !known(es[n]) ==> u1 && v1 == v0,
    ensures #[trigger] so_far(es, n1, v1, u1)
{
    if known(es[n]) {
        assert(last_known(es, n + 1, n) && means(es[n], v1->0));
        if u1 { let k = choose|k: int| 0 <= k < n && !known(#[trigger] es[k]); assert(!known(es[k])); }
    } else {
        if v1 is Some { let l = choose|l: int| last_known(es, n, l) && #[trigger] means(es[l], v0->0); assert(last_known(es, n + 1, l) && means(es[l], v1->0)); }
    }
}
/// a member was taken in
proof fn arm(es: Entries, n: int, v0: Option<Value>, v1: Option<Value>, u0: bool, u1: bool)
    requires 0 <= n < es.len(), so_far(es, n, v0, u0), known(es[n]), good(es[n]), u1 == u0, v1 is Some, means(es[n], v1->0),
    ensures so_far(es, n + 1, v1, u1)
{ one_more(es, n, n + 1, v0, v1, u0, u1); }
struct ValueVisitor;
impl ValueVisitor {
//@fn opentelemetry-proto/src/proto.rs mod serializers :: fn deserialize_from_value :: impl de::Visitor<'de> for ValueVisitor :: fn visit_map
//@sig #[verifier::exec_allows_no_decreases_clause] fn visit_map(self, map0: MapAccess) -> (r: Result<Option<Value>, DeErr>)
//@subst map.next_key::<String>() ~> map.next_key()
//@subst .get_int::<V>() ~> .get_int()
//@subst .get_double::<V>() ~> .get_double()
//@subst base64::decode(base64.as_bytes()).map_err($$e)? ~> b64_decode(&base64)?
//@subst Err(de::Error::custom($$e)) ~> Err(malformed())
//@subst? value = Some(any_value::Value::$k($v)); ~> value = Some(any_value::Value::$k($v)); proof { arm(map0.es@, n, v0, value, u0, unknown_key); }
//@subst $k => { let ~> _ if is(key_str, $k) => { let
//@contract
    requires map0.i@ == 0,
    ensures match r {
        // the last known member counts, each of them is of its kind, unknown ones are passed over unless there are only such
        Ok(v) => (exists|u: bool| so_far(map0.es@, map0.es@.len() as int, v, u)) && (v is None ==> map0.es@.len() == 0),
        Err(_) => !map0.fine@ || (exists|k: int| 0 <= k < map0.es@.len() && known(map0.es@[k]) && !good(#[trigger] map0.es@[k])) || (map0.es@.len() > 0 && forall|k: int| 0 <= k < map0.es@.len() ==> !known(#[trigger] map0.es@[k])),
    },
//@start
    broadcast use one_more;
    let mut map = map0;
    proof { keys_apart(); }
//@loop 0
    invariant map.es == map0.es, map.fine == map0.fine, map.ok(), so_far(map.es@, map.i@, value, unknown_key),
    ensures map.i@ == map.es@.len(),
//@inloop 0
    let ghost n = map.i@ - 1;
    let ghost v0 = value;
    let ghost u0 = unknown_key;
    proof { keys_apart(); assert(so_far(map0.es@, n, v0, u0)); }
//@endfn
}
#[verifier::external_body] fn is(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] fn malformed() -> DeErr { unimplemented!() }
impl Deserializer {
    fn deserialize_map(self, v: ValueVisitor) -> (r: Result<Option<Value>, DeErr>)
        ensures read_from(self, r)
    { let m = self.members(); let r = v.visit_map(m); r }
    #[verifier::external_body] fn members(&self) -> (r: MapAccess) ensures r.es == self.es, r.i@ == 0, r.fine == self.fine { unimplemented!() }
    fn deserialize_str(self, v: BytesVisitor) -> (r: Result<Vec<u8>, DeErr>)
        ensures match r { Ok(b) => self.j@ is Str && unhex(self.j@->Str_0) == Some(b@), Err(_) => !self.fine@ || !(self.j@ is Str) || unhex(self.j@->Str_0) is None }
    { let s = self.text()?; v.visit_str(s.as_str()) }
    #[verifier::external_body] fn text(&self) -> (r: Result<String, DeErr>) ensures match r { Ok(s) => self.j@ == Js::Str(s@), Err(_) => !self.fine@ || !(self.j@ is Str) } { unimplemented!() }
}
spec fn read_from(d: Deserializer, r: Result<Option<Value>, DeErr>) -> bool {
    match r {
        Ok(v) => (exists|u: bool| so_far(d.es@, d.es@.len() as int, v, u)) && (v is None ==> d.es@.len() == 0),
        Err(_) => !d.fine@ || (exists|k: int| 0 <= k < d.es@.len() && known(d.es@[k]) && !good(#[trigger] d.es@[k])) || (d.es@.len() > 0 && forall|k: int| 0 <= k < d.es@.len() ==> !known(#[trigger] d.es@[k])),
    }
}
//@fn opentelemetry-proto/src/proto.rs mod serializers :: fn deserialize_from_value
//@sig fn deserialize_from_value(deserializer: Deserializer) -> (r: Result<Option<Value>, DeErr>)
//@subst struct ValueVisitor; $$x let value = deserializer ~> let value = deserializer
//@contract
    ensures read_from(deserializer, r),
//@endfn
struct BytesVisitor;
impl BytesVisitor {
//@fn opentelemetry-proto/src/proto.rs mod serializers :: fn deserialize_from_hex_string :: impl Visitor<'de> for BytesVisitor :: fn visit_str
//@sig fn visit_str(self, value: &str) -> (r: Result<Vec<u8>, DeErr>)
//@subst hex::decode(value).map_err(E::custom) ~> hex_decode(value)
//@contract
    ensures match r { Ok(b) => unhex(value@) == Some(b@), Err(_) => unhex(value@) is None },
//@endfn
}
//@fn opentelemetry-proto/src/proto.rs mod serializers :: fn deserialize_from_hex_string
//@sig fn deserialize_from_hex_string(deserializer: Deserializer) -> (r: Result<Vec<u8>, DeErr>)
//@subst struct BytesVisitor; $$x deserializer. ~> deserializer.
//@contract
    ensures match r { Ok(b) => deserializer.j@ is Str && unhex(deserializer.j@->Str_0) == Some(b@), Err(_) => !deserializer.fine@ || !(deserializer.j@ is Str) || unhex(deserializer.j@->Str_0) is None },
//@endfn
//@fn opentelemetry-proto/src/proto.rs mod serializers :: fn deserialize_string_to_u64
//@sig fn deserialize_string_to_u64(deserializer: Deserializer) -> (r: Result<u64, DeErr>)
//@subst Deserialize::deserialize(deserializer)? ~> deserializer.text()?
//@subst s.parse::<u64>().map_err(de::Error::custom) ~> parse_u64(&s)
//@contract
    ensures match r { Ok(k) => deserializer.j@ is Str && in_u64(undec(deserializer.j@->Str_0)) == Some(k), Err(_) => !deserializer.fine@ || !(deserializer.j@ is Str) || in_u64(undec(deserializer.j@->Str_0)) is None },
//@endfn
//@fn opentelemetry-proto/src/proto.rs mod serializers :: fn deserialize_string_to_i64
//@sig fn deserialize_string_to_i64(deserializer: Deserializer) -> (r: Result<i64, DeErr>)
//@subst Deserialize::deserialize(deserializer)? ~> deserializer.text()?
//@subst s.parse::<i64>().map_err(de::Error::custom) ~> parse_i64(&s)
//@contract
    ensures match r { Ok(k) => deserializer.j@ is Str && in_i64(undec(deserializer.j@->Str_0)) == Some(k), Err(_) => !deserializer.fine@ || !(deserializer.j@ is Str) || in_i64(undec(deserializer.j@->Str_0)) is None },
//@endfn
// ---- what was written reads back ----
spec fn same(a: Option<Value>, b: Option<Value>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(Value::StringValue(x)), Some(Value::StringValue(y))) => x@ == y@,
        (Some(Value::BytesValue(x)), Some(Value::BytesValue(y))) => x@ == y@,
        (Some(Value::DoubleValue(x)), Some(Value::DoubleValue(y))) => x == y || (sort(x) == sort(y) && sort(x) != Sort::Finite),
        (Some(x), Some(y)) => x == y,
        _ => false,
    }
}
proof fn value_reads_back(v: Option<Value>, d: Deserializer, r: Result<Option<Value>, DeErr>)
    requires d.fine@, read_from(d, r), match written(v) { Out::Map(es) => d.es@ == es, Out::Nothing => d.es@.len() == 0, _ => false },
    ensures r is Ok, same(v, r->Ok_0)
{
    keys_apart();
    if v is Some {
        let e = d.es@[0];
        match v->0 {
            Value::IntValue(i) => dec_back(i as int),
            Value::BytesValue(b) => b64_back(b@),
            Value::DoubleValue(x) => { if sort(x) != Sort::Finite { names_back(sort(x)); } },
            _ => {}
        }
        assert(d.es@.len() == 1 && known(e) && good(e));
        assert(r is Ok);
        let u = choose|u: bool| so_far(d.es@, 1, r->Ok_0, u);
        assert(so_far(d.es@, 1, r->Ok_0, u));
        let l = choose|l: int| last_known(d.es@, 1, l) && #[trigger] means(d.es@[l], (r->Ok_0)->0);
        assert(means(e, (r->Ok_0)->0));
    }
}
proof fn id_reads_back(b: Seq<u8>) ensures unhex(hex(b)) == Some(b) { hex_back(b); }
proof fn u64_reads_back(k: u64) ensures in_u64(undec(dec(k as int))) == Some(k) { dec_back(k as int); }
proof fn i64_reads_back(k: i64) ensures in_i64(undec(dec(k as int))) == Some(k) { dec_back(k as int); }
} // verus!
fn main() {}

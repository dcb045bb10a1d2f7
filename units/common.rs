// Unit: keys, values and scopes (opentelemetry/src/common.rs): comparison by content, hashing consistent with it, text forms.
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
// ---- text, floats ----
#[verifier::external_body] #[derive(Clone, Copy)] struct Text { _p: u8 }
uninterp spec fn chars(t: Text) -> Seq<char>;
uninterp spec fn ord(a: Seq<char>, b: Seq<char>) -> Ordering;
axiom fn ord_total(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures (ord(a, b) is Equal) == (a == b), (ord(a, b) is Less) == (ord(b, a) is Greater),
        !(ord(a, b) is Greater) && !(ord(b, c) is Greater) ==> !(ord(a, c) is Greater);
impl Text {
    spec fn c(&self) -> Seq<char> { chars(*self) }
    #[verifier::external_body] fn as_ref(&self) -> (r: &Text) ensures r.c() == self.c() { unimplemented!() }
    #[verifier::external_body] fn to_string(&self) -> (r: Text) ensures r.c() == self.c() { unimplemented!() }
    #[verifier::external_body] fn into_boxed_str(self) -> (r: Text) ensures r.c() == self.c() { unimplemented!() }
    #[verifier::external_body] fn cmp(&self, o: &Text) -> (r: Ordering) ensures r == ord(self.c(), o.c()) { unimplemented!() }
    #[verifier::external_body] fn eq(&self, o: &Text) -> (r: bool) ensures r == (self.c() == o.c()) { unimplemented!() }
}
trait Same { spec fn same_as(&self, o: &Self) -> bool; fn same(&self, o: &Self) -> (r: bool) ensures r == self.same_as(o); }
impl Same for Text { spec fn same_as(&self, o: &Text) -> bool { self.c() == o.c() } fn same(&self, o: &Text) -> (r: bool) { self.eq(o) } }
spec fn opt_c(o: Option<Text>) -> Option<Seq<char>> { match o { Some(t) => Some(t.c()), None => None } }
impl Same for Option<Text> { spec fn same_as(&self, o: &Option<Text>) -> bool { opt_c(*self) == opt_c(*o) } #[verifier::external_body] fn same(&self, o: &Option<Text>) -> (r: bool) { unimplemented!() } }
/// a 64-bit float
#[verifier::external_body] #[derive(Clone, Copy)] struct F { _p: u8 }
uninterp spec fn bits(f: F) -> u64;
uninterp spec fn nan(f: F) -> bool;
spec fn zero(f: F) -> bool { bits(f) == 0 || bits(f) == 0x8000_0000_0000_0000 }
/// IEEE equality
spec fn feq(a: F, b: F) -> bool { !nan(a) && !nan(b) && (bits(a) == bits(b) || zero(a) && zero(b)) }
impl F {
    #[verifier::external_body] fn to_bits(self) -> (r: u64) ensures r == bits(self) { unimplemented!() }
    #[verifier::external_body] fn zero() -> (r: F) ensures bits(r) == 0, !nan(r) { unimplemented!() }
    #[verifier::external_body] fn minus_zero() -> (r: F) ensures bits(r) == 0x8000_0000_0000_0000, !nan(r) { unimplemented!() }
    #[verifier::external_body] fn is_zero(self) -> (r: bool) ensures r == zero(self) { unimplemented!() }
    #[verifier::external_body] fn is_nan(self) -> (r: bool) ensures r == nan(self) { unimplemented!() }
}

// ---- what a hasher is fed ----
enum Tok { Str(Seq<char>), Bool(bool), I64(i64), U64(u64), Len(nat), Nothing, Something }
struct Hasher { fed: Ghost<Seq<Tok>> }
trait Feed { spec fn toks(&self) -> Seq<Tok>; fn hash(&self, h: &mut Hasher) ensures final(h).fed@ == old(h).fed@ + self.toks(); }
impl Feed for Text { spec fn toks(&self) -> Seq<Tok> { seq![Tok::Str(self.c())] } #[verifier::external_body] fn hash(&self, h: &mut Hasher) { unimplemented!() } }
impl Feed for u64 { spec fn toks(&self) -> Seq<Tok> { seq![Tok::U64(*self)] } #[verifier::external_body] fn hash(&self, h: &mut Hasher) { unimplemented!() } }
impl Feed for bool { spec fn toks(&self) -> Seq<Tok> { seq![Tok::Bool(*self)] } #[verifier::external_body] fn hash(&self, h: &mut Hasher) { unimplemented!() } }
impl Feed for i64 { spec fn toks(&self) -> Seq<Tok> { seq![Tok::I64(*self)] } #[verifier::external_body] fn hash(&self, h: &mut Hasher) { unimplemented!() } }
impl Feed for Option<Text> { spec fn toks(&self) -> Seq<Tok> { match self { Some(t) => seq![Tok::Something, Tok::Str(t.c())], None => seq![Tok::Nothing] } } #[verifier::external_body] fn hash(&self, h: &mut Hasher) { unimplemented!() } }
impl Feed for Vec<bool> { spec fn toks(&self) -> Seq<Tok> { seq![Tok::Len(self@.len())] + self@.map_values(|b: bool| Tok::Bool(b)) } #[verifier::external_body] fn hash(&self, h: &mut Hasher) { unimplemented!() } }
impl Feed for Vec<i64> { spec fn toks(&self) -> Seq<Tok> { seq![Tok::Len(self@.len())] + self@.map_values(|b: i64| Tok::I64(b)) } #[verifier::external_body] fn hash(&self, h: &mut Hasher) { unimplemented!() } }
impl Feed for Vec<StringValue> { spec fn toks(&self) -> Seq<Tok> { seq![Tok::Len(self@.len())] + self@.map_values(|b: StringValue| Tok::Str(b.c())) } #[verifier::external_body] fn hash(&self, h: &mut Hasher) { unimplemented!() } }

// ---- text forms ----
struct FmtErr { _p: u8 }
struct Formatter { out: Ghost<Seq<char>> }
impl Formatter {
    #[verifier::external_body] fn write_str(&mut self, t: &Text) -> (r: Result<(), FmtErr>) ensures r is Ok ==> final(self).out@ == old(self).out@ + t.c() { unimplemented!() }
    #[verifier::external_body] fn write_char(&mut self, c: char) -> (r: Result<(), FmtErr>) ensures r is Ok ==> final(self).out@ == old(self).out@.push(c) { unimplemented!() }
}
trait Show { spec fn shown(&self) -> Seq<char>; fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtErr>) ensures r is Ok ==> final(f).out@ == old(f).out@ + self.shown(); }
uninterp spec fn show_b(b: bool) -> Seq<char>;
uninterp spec fn show_i(b: i64) -> Seq<char>;
uninterp spec fn show_f(b: F) -> Seq<char>;
impl Show for bool { spec fn shown(&self) -> Seq<char> { show_b(*self) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtErr>) { unimplemented!() } }
impl Show for i64 { spec fn shown(&self) -> Seq<char> { show_i(*self) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtErr>) { unimplemented!() } }
impl Show for F { spec fn shown(&self) -> Seq<char> { show_f(*self) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtErr>) { unimplemented!() } }
impl Show for Text { spec fn shown(&self) -> Seq<char> { self.c() } #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtErr>) { unimplemented!() } }
/// format!("{}", t)
#[verifier::external_body] fn formatted<T: Show>(t: &T) -> (r: Text) ensures r.c() == t.shown() { unimplemented!() }
spec fn joined(s: Seq<Seq<char>>) -> Seq<char> decreases s.len() { if s.len() == 0 { seq![] } else if s.len() == 1 { s[0] } else { joined(s.drop_last()) + seq![','] + s.last() } }
spec fn quoted(s: Seq<char>) -> Seq<char> { seq!['"'] + s + seq!['"'] }
proof fn joined_step(s: Seq<Seq<char>>, k: int) requires 0 <= k < s.len()
    ensures joined(s.take(k + 1)) == (if k == 0 { s[0] } else { joined(s.take(k)) + seq![','] + s[k] }) { assert(s.take(k + 1).drop_last() =~= s.take(k)); }
//@gsubst write!(fmt, "[") ~> fmt.write_char('[')
//@gsubst write!(fmt, "]") ~> fmt.write_char(']')
//@gsubst write!(fmt, ",") ~> fmt.write_char(',')
//@gsubst write!(fmt, "{}", $t) ~> $t.fmt(fmt)
//@gsubst write!(fmt, "\"{}\"", $t) ~> quote($t, fmt)
//@gsubst for (i, t) in $s.iter().enumerate() { ~> for i in 0..$s.len() { let t = &$s[i];
//@gsubst format!("{}", $v) ~> formatted($v)
//@gsubst Box<str> ~> Text
//@gsubst &'static str ~> Text
//@gsubst Arc<str> ~> Text
//@gsubst Cow<'static, str> ~> Text
//@gsubst &str ~> &Text
//@gsubst f64 ~> F
/// write!(f, "\"{}\"", t)
#[verifier::external_body] fn quote(t: &StringValue, f: &mut Formatter) -> (r: Result<(), FmtErr>) ensures r is Ok ==> final(f).out@ == old(f).out@ + quoted(t.c()) { unimplemented!() }

// ---- OtelString: the three representations of one text ----
//@item opentelemetry/src/common.rs enum OtelString
impl OtelString {
    spec fn c(&self) -> Seq<char> { match self { OtelString::Owned(s) => s.c(), OtelString::Static(s) => s.c(), OtelString::RefCounted(s) => s.c() } }
//@fn opentelemetry/src/common.rs impl OtelString :: fn as_str
//@ret r
//@contract
    ensures r.c() == self.c()
//@endfn
//@fn opentelemetry/src/common.rs impl PartialOrd for OtelString :: fn partial_cmp
//@sig fn partial_cmp(&self, other: &Self) -> Option<Ordering>
//@ret r
//@contract
    ensures r == Some(ord(self.c(), other.c()))
//@endfn
//@fn opentelemetry/src/common.rs impl Ord for OtelString :: fn cmp
//@sig fn cmp(&self, other: &Self) -> Ordering
//@ret r
//@contract
    ensures r == ord(self.c(), other.c())
//@endfn
//@fn opentelemetry/src/common.rs impl PartialEq for OtelString :: fn eq
//@ret r
//@contract
    ensures r == (self.c() == other.c())
//@endfn
//@fn opentelemetry/src/common.rs impl hash::Hash for OtelString :: fn hash
//@sig fn hash(&self, state: &mut Hasher)
//@contract
    ensures final(state).fed@ =~= old(state).fed@.push(Tok::Str(self.c()))
//@endfn
}
// derived comparisons go through the only field
//@derives opentelemetry/src/common.rs struct Key : PartialEq, Eq, Hash, PartialOrd, Ord
//@item opentelemetry/src/common.rs struct Key
//@derives opentelemetry/src/common.rs struct StringValue : PartialEq, Eq, Hash
//@item opentelemetry/src/common.rs struct StringValue
impl Key {
    spec fn c(&self) -> Seq<char> { self.0.c() }
    fn hash(&self, h: &mut Hasher) ensures final(h).fed@ == old(h).fed@.push(Tok::Str(self.c())) { self.0.hash(h) }
    fn cmp(&self, o: &Key) -> (r: Ordering) ensures r == ord(self.c(), o.c()) { self.0.cmp(&o.0) }
//@fn opentelemetry/src/common.rs impl Key :: fn from_static_str
//@ret r
//@subst const ~> 
//@contract
    ensures r.c() == value.c()
//@endfn
//@fn opentelemetry/src/common.rs impl Key :: fn as_str
//@ret r
//@contract
    ensures r.c() == self.c()
//@endfn
//@fn opentelemetry/src/common.rs impl Borrow<str> for Key :: fn borrow
//@ret r
//@contract
    ensures r.c() == self.c()
//@endfn
//@fn opentelemetry/src/common.rs impl fmt::Display for Key :: fn fmt
//@sig fn fmt(&self, fmt: &mut Formatter) -> Result<(), FmtErr>
//@ret r
//@contract
    ensures r is Ok ==> final(fmt).out@ == old(fmt).out@ + self.c()
//@endfn
}
mod key_from {
    use super::*;
//@fn opentelemetry/src/common.rs impl From<&'static str> for Key :: fn from
//@name from_str
//@sig fn from_str(key_str: Text) -> Key
//@ret r
//@contract
    ensures r.c() == key_str.c()
//@endfn
//@fn opentelemetry/src/common.rs impl From<String> for Key :: fn from
//@name from_string
//@sig fn from_string(string: Text) -> Key
//@ret r
//@contract
    ensures r.c() == string.c()
//@endfn
//@fn opentelemetry/src/common.rs impl From<Arc<str>> for Key :: fn from
//@name from_arc
//@sig fn from_arc(string: Text) -> Key
//@ret r
//@contract
    ensures r.c() == string.c()
//@endfn
//@fn opentelemetry/src/common.rs impl From<Cow<'static, str>> for Key :: fn from
//@name from_cow
//@sig fn from_cow(string: Cow) -> Key
//@ret r
//@contract
    ensures r.c() == string.c()
//@endfn
//@fn opentelemetry/src/common.rs impl From<Key> for String :: fn from
//@name into_string
//@sig fn into_string(key: Key) -> Text
//@ret r
//@contract
    ensures r.c() == key.c()
//@endfn
}
enum Cow { Borrowed(Text), Owned(Text) }
impl Cow { spec fn c(&self) -> Seq<char> { match self { Cow::Borrowed(t) => t.c(), Cow::Owned(t) => t.c() } } }
impl StringValue {
    spec fn c(&self) -> Seq<char> { self.0.c() }
    fn hash(&self, h: &mut Hasher) ensures final(h).fed@ == old(h).fed@.push(Tok::Str(self.c())) { self.0.hash(h) }
//@fn opentelemetry/src/common.rs impl StringValue :: fn as_str
//@ret r
//@contract
    ensures r.c() == self.c()
//@endfn
//@fn opentelemetry/src/common.rs impl fmt::Display for StringValue :: fn fmt
//@sig fn fmt(&self, f: &mut Formatter) -> Result<(), FmtErr>
//@ret r
//@contract
    ensures r is Ok ==> final(f).out@ == old(f).out@ + self.c()
//@endfn
}
fn string_from(s: Text) -> (r: StringValue) ensures r.c() == s.c() { StringValue(OtelString::Owned(s)) }
mod string_from_impls {
    use super::*;
//@fn opentelemetry/src/common.rs impl From<&'static str> for StringValue :: fn from
//@name from_str
//@sig fn from_str(s: Text) -> StringValue
//@ret r
//@contract
    ensures r.c() == s.c()
//@endfn
//@fn opentelemetry/src/common.rs impl From<String> for StringValue :: fn from
//@name from_string
//@sig fn from_string(s: Text) -> StringValue
//@ret r
//@contract
    ensures r.c() == s.c()
//@endfn
//@fn opentelemetry/src/common.rs impl From<Arc<str>> for StringValue :: fn from
//@name from_arc
//@sig fn from_arc(s: Text) -> StringValue
//@ret r
//@contract
    ensures r.c() == s.c()
//@endfn
//@fn opentelemetry/src/common.rs impl From<Cow<'static, str>> for StringValue :: fn from
//@name from_cow
//@sig fn from_cow(s: Cow) -> StringValue
//@ret r
//@contract
    ensures r.c() == s.c()
//@endfn
//@fn opentelemetry/src/common.rs impl From<StringValue> for String :: fn from
//@name into_string
//@sig fn into_string(s: StringValue) -> Text
//@ret r
//@contract
    ensures r.c() == s.c()
//@endfn
}

// ---- values ----
//@derives opentelemetry/src/common.rs enum Array : PartialEq
//@item opentelemetry/src/common.rs enum Array
//@derives opentelemetry/src/common.rs enum Value : PartialEq
//@item opentelemetry/src/common.rs enum Value
/// the derived equalities
spec fn arr_eq(a: Array, b: Array) -> bool {
    match (a, b) {
        (Array::Bool(x), Array::Bool(y)) => x@ == y@,
        (Array::I64(x), Array::I64(y)) => x@ == y@,
        (Array::F64(x), Array::F64(y)) => x@.len() == y@.len() && forall|i: int| 0 <= i < x@.len() ==> #[trigger] feq(x@[i], y@[i]),
        (Array::String(x), Array::String(y)) => x@.len() == y@.len() && forall|i: int| 0 <= i < x@.len() ==> (#[trigger] x@[i]).c() == y@[i].c(),
        _ => false,
    }
}
spec fn val_eq(a: Value, b: Value) -> bool {
    match (a, b) {
        (Value::Bool(x), Value::Bool(y)) => x == y,
        (Value::I64(x), Value::I64(y)) => x == y,
        (Value::F64(x), Value::F64(y)) => feq(x, y),
        (Value::String(x), Value::String(y)) => x.c() == y.c(),
        (Value::Array(x), Value::Array(y)) => arr_eq(x, y),
        _ => false,
    }
}
spec fn kv_eq(a: KeyValue, b: KeyValue) -> bool { a.key.c() == b.key.c() && val_eq(a.value, b.value) }
spec fn arr_shown(a: Array) -> Seq<char> {
    seq!['['] + joined(match a {
        Array::Bool(v) => v@.map_values(|b: bool| show_b(b)), Array::I64(v) => v@.map_values(|b: i64| show_i(b)),
        Array::F64(v) => v@.map_values(|b: F| show_f(b)), Array::String(v) => v@.map_values(|b: StringValue| quoted(b.c())),
    }) + seq![']']
}
spec fn val_shown(v: Value) -> Seq<char> { match v { Value::Bool(b) => show_b(b), Value::I64(i) => show_i(i), Value::F64(f) => show_f(f), Value::String(s) => s.c(), Value::Array(a) => arr_shown(a) } }
//@fn opentelemetry/src/common.rs fn display_array_str
//@sig fn display_array_str<T: Show>(slice: &[T], fmt: &mut Formatter) -> Result<(), FmtErr>
//@ret r
//@contract
    ensures r is Ok ==> final(fmt).out@ == old(fmt).out@ + seq!['['] + joined(slice@.map_values(|t: T| t.shown())) + seq![']']
//@start
    let ghost all = slice@.map_values(|t: T| t.shown());
    let ghost before = fmt.out@;
//@loop 0
        invariant all == slice@.map_values(|t: T| t.shown()), fmt.out@ == before + seq!['['] + joined(all.take(i as int))
//@beforeloop 0
    proof { assert(fmt.out@ =~= before + seq!['['] + joined(all.take(0))); }
//@inloop 0
        proof { joined_step(all, i as int); }
//@endinloop 0
        proof { assert(fmt.out@ =~= before + seq!['['] + joined(all.take(i as int + 1))); }
//@afterloop 0
    proof { assert(all.take(all.len() as int) =~= all); assert(fmt.out@.push(']') =~= before + seq!['['] + joined(all) + seq![']']); }
//@endfn
impl Array {
//@fn opentelemetry/src/common.rs impl fmt::Display for Array :: fn fmt
//@sig #[verifier::loop_isolation(false)] fn fmt(&self, fmt: &mut Formatter) -> Result<(), FmtErr>
//@ret r
//@contract
    ensures r is Ok ==> final(fmt).out@ == old(fmt).out@ + arr_shown(*self)
//@start
    let ghost all = match self { Array::String(v) => v@.map_values(|b: StringValue| quoted(b.c())), _ => seq![] };
    let ghost before = fmt.out@;
    proof {
        match self {
            Array::Bool(v) => { assert(v@.map_values(|t: bool| t.shown()) =~= v@.map_values(|b: bool| show_b(b))); }
            Array::I64(v) => { assert(v@.map_values(|t: i64| t.shown()) =~= v@.map_values(|b: i64| show_i(b))); }
            Array::F64(v) => { assert(v@.map_values(|t: F| t.shown()) =~= v@.map_values(|b: F| show_f(b))); }
            _ => {}
        }
        assert forall|s: Seq<char>| #[trigger] (before + seq!['['] + s + seq![']']) == before + (seq!['['] + s + seq![']']) by { assert(before + seq!['['] + s + seq![']'] =~= before + (seq!['['] + s + seq![']'])); }
    }
//@loop 0
        invariant fmt.out@ == before + seq!['['] + joined(all.take(i as int))
//@beforeloop 0
    proof { assert(fmt.out@ =~= before + seq!['['] + joined(all.take(0))); }
//@inloop 0
        proof { joined_step(all, i as int); }
//@endinloop 0
        proof { assert(fmt.out@ =~= before + seq!['['] + joined(all.take(i as int + 1))); }
//@afterloop 0
    proof { assert(all.take(all.len() as int) =~= all); assert(fmt.out@.push(']') =~= before + seq!['['] + joined(all) + seq![']']); }
//@endfn
}
impl Show for Array { spec fn shown(&self) -> Seq<char> { arr_shown(*self) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtErr>) { unimplemented!() } }
impl Value {
//@fn opentelemetry/src/common.rs impl Value :: fn as_str
//@sig fn as_str(&self) -> Text
//@subst .into() ~> 
//@subst Cow::Borrowed($$e) ~> *$$e
//@ret r
//@contract
    ensures r.c() == val_shown(*self)
//@endfn
//@fn opentelemetry/src/common.rs impl fmt::Display for Value :: fn fmt
//@sig fn fmt(&self, fmt: &mut Formatter) -> Result<(), FmtErr>
//@ret r
//@contract
    ensures r is Ok ==> final(fmt).out@ == old(fmt).out@ + val_shown(*self)
//@endfn
}
//@fn opentelemetry/src/common.rs impl From<Value> for StringValue :: fn from
//@name value_to_string
//@sig fn value_to_string(s: Value) -> StringValue
//@subst formatted($v).into() ~> string_from(formatted(&$v))
//@ret r
//@contract
    ensures r.c() == val_shown(s)
//@endfn

// ---- key-values ----
//@derives opentelemetry/src/common.rs struct KeyValue : PartialEq
//@item opentelemetry/src/common.rs struct KeyValue
//@item opentelemetry/src/common.rs struct F64Hashable
/// what a float feeds: something that depends only on its value
spec fn f_toks(f: F) -> Seq<Tok> { seq![Tok::U64(if zero(f) { 0 } else { bits(f) })] }
spec fn f_all(s: Seq<F>) -> Seq<Tok> { s.map_values(|f: F| Tok::U64(if zero(f) { 0 } else { bits(f) })) }
spec fn val_toks(v: Value) -> Seq<Tok> {
    match v {
        Value::Bool(b) => seq![Tok::Bool(b)], Value::I64(i) => seq![Tok::I64(i)], Value::F64(f) => f_toks(f), Value::String(s) => seq![Tok::Str(s.c())],
        Value::Array(Array::Bool(b)) => b.toks(), Value::Array(Array::I64(b)) => b.toks(), Value::Array(Array::F64(b)) => f_all(b@), Value::Array(Array::String(b)) => b.toks(),
    }
}
spec fn kv_toks(kv: KeyValue) -> Seq<Tok> { seq![Tok::Str(kv.key.c())] + val_toks(kv.value) }
impl F64Hashable {
//@fn opentelemetry/src/common.rs impl PartialEq for F64Hashable :: fn eq
//@ret r
//@contract
    ensures r ==> f_toks(self.0) == f_toks(other.0), bits(self.0) == bits(other.0) ==> r
//@endfn
//@fn opentelemetry/src/common.rs impl Hash for F64Hashable :: fn hash
//@sig fn hash(&self, state: &mut Hasher)
//@subst? $a == 0.0 ~> $a.is_zero()
//@subst? $a == -0.0 ~> $a.is_zero()
//@subst? 0.0 ~> F::zero()
//@contract
    ensures final(state).fed@ == old(state).fed@ + f_toks(self.0)
//@endfn
}
impl KeyValue {
//@fn opentelemetry/src/common.rs impl KeyValue :: fn new
//@sig fn new<K: AsKey, V: AsValue>(key: K, value: V) -> Self
//@ret r
//@contract
    ensures r.key == key.spec_key(), r.value == value.spec_value()
//@endfn
//@fn opentelemetry/src/common.rs impl Hash for KeyValue :: fn hash
//@sig #[verifier::loop_isolation(false)] fn hash(&self, state: &mut Hasher)
//@subst $v.iter().for_each(|$x| $$body) ~> { for $x in $v.iter() { $$body; } }
//@contract
    ensures final(state).fed@ == old(state).fed@ + kv_toks(*self)
//@start
    let ghost before = state.fed@;
    let ghost fs = match self.value { Value::Array(Array::F64(ref v)) => v@, _ => seq![] };
//@loop 0 it
        invariant it.seq().len() == fs.len(), forall|i: int| 0 <= i < fs.len() ==> *(#[trigger] it.seq()[i]) == fs[i],
            state.fed@ == before.push(Tok::Str(self.key.c())) + f_all(fs.take(it.index@))
//@endinloop 0
        proof { assert(state.fed@ =~= before.push(Tok::Str(self.key.c())) + f_all(fs.take(it.index@ + 1))); }
//@afterloop 0
    proof { assert(fs.take(fs.len() as int) =~= fs); }
//@end
    proof { assert(state.fed@ =~= before + kv_toks(*self)); }
//@endfn
}
trait AsKey: Sized { spec fn spec_key(&self) -> Key; fn into(self) -> (r: Key) ensures r == self.spec_key(); }
trait AsValue: Sized { spec fn spec_value(&self) -> Value; fn into(self) -> (r: Value) ensures r == self.spec_value(); }

/// equal key-values feed a hasher the same
proof fn equal_values_hash_alike(a: KeyValue, b: KeyValue) requires kv_eq(a, b) ensures kv_toks(a) == kv_toks(b) {
    match (a.value, b.value) {
        (Value::Array(Array::F64(x)), Value::Array(Array::F64(y))) => { assert forall|i: int| 0 <= i < x@.len() implies #[trigger] f_all(x@)[i] == f_all(y@)[i] by { assert(feq(x@[i], y@[i])); } assert(f_all(x@) =~= f_all(y@)); }
        (Value::Array(Array::String(x)), Value::Array(Array::String(y))) => { assert(x.toks() =~= y.toks()); }
        _ => {}
    }
}

// ---- scopes ----
//@item opentelemetry/src/common.rs struct InstrumentationScope
/// the references sorted by key: what sort_unstable_by makes of a sequence depends on that sequence alone
uninterp spec fn canon(s: Seq<KeyValue>) -> Seq<KeyValue>;
spec fn le(a: KeyValue, b: KeyValue) -> bool { !(ord(a.key.c(), b.key.c()) is Greater) }
axiom fn canon_sorts(s: Seq<KeyValue>)
    ensures canon(s).to_multiset() == s.to_multiset(), canon(s).len() == s.len(), forall|i: int, j: int| 0 <= i < j < s.len() ==> le(#[trigger] canon(s)[i], #[trigger] canon(s)[j]);
spec fn refs_to(r: Seq<&KeyValue>, s: Seq<KeyValue>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]) == s[i] }
#[verifier::external_body] fn refs<'a>(v: &'a Vec<KeyValue>) -> (r: Vec<&'a KeyValue>) ensures refs_to(r@, v@) { unimplemented!() }
#[verifier::external_body] fn sort_by_key(v: &mut Vec<&KeyValue>) ensures forall|s: Seq<KeyValue>| #[trigger] refs_to(old(v)@, s) ==> refs_to(final(v)@, canon(s)) { unimplemented!() }
spec fn all_eq(a: Seq<KeyValue>, b: Seq<KeyValue>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> kv_eq(#[trigger] a[i], b[i]) }
/// Vec<&KeyValue> == Vec<&KeyValue>
#[verifier::external_body] fn equal_refs(a: &Vec<&KeyValue>, b: &Vec<&KeyValue>) -> (r: bool) ensures forall|s: Seq<KeyValue>, t: Seq<KeyValue>| #[trigger] refs_to(a@, s) && #[trigger] refs_to(b@, t) ==> r == all_eq(s, t) { unimplemented!() }
spec fn all_toks(s: Seq<KeyValue>) -> Seq<Tok> decreases s.len() { if s.len() == 0 { seq![] } else { all_toks(s.drop_last()) + kv_toks(s.last()) } }
proof fn toks_step(s: Seq<KeyValue>, k: int) requires 0 <= k < s.len() ensures all_toks(s.take(k + 1)) == all_toks(s.take(k)) + kv_toks(s[k]) { assert(s.take(k + 1).drop_last() =~= s.take(k)); }
spec fn scope_toks(s: InstrumentationScope) -> Seq<Tok> { s.name.toks() + s.version.toks() + s.schema_url.toks() + all_toks(canon(s.attributes@)) }
spec fn scope_eq(a: InstrumentationScope, b: InstrumentationScope) -> bool {
    a.name.c() == b.name.c() && opt_c(a.version) == opt_c(b.version) && opt_c(a.schema_url) == opt_c(b.schema_url) && all_eq(canon(a.attributes@), canon(b.attributes@))
}
//@gsubst self.$f == other.$f ~> self.$f.same(&other.$f)
//@gsubst Vec::from_iter(&$s.attributes) ~> refs(&$s.attributes)
//@gsubst $v.sort_unstable_by(|a, b| a.key.cmp(&b.key)) ~> sort_by_key(&mut $v)
//@gsubst $v.sort_by(|a, b| a.key.cmp(&b.key)) ~> sort_by_key(&mut $v)
//@gsubst self_attrs == other_attrs ~> equal_refs(&self_attrs, &other_attrs)
impl InstrumentationScope {
//@fn opentelemetry/src/common.rs impl PartialEq for InstrumentationScope :: fn eq
//@ret r
//@contract
    ensures r == scope_eq(*self, *other)
//@start
    proof { canon_sorts(self.attributes@); canon_sorts(other.attributes@); }
//@endfn
//@fn opentelemetry/src/common.rs impl hash::Hash for InstrumentationScope :: fn hash
//@sig #[verifier::loop_isolation(false)] fn hash(&self, state: &mut Hasher)
//@contract
    ensures final(state).fed@ == old(state).fed@ + scope_toks(*self)
//@start
    let ghost before = state.fed@;
    let ghost attrs = canon(self.attributes@);
    let ghost head = self.name.toks() + self.version.toks() + self.schema_url.toks();
//@loop 0 it
        invariant it.seq().len() == attrs.len(), forall|i: int| 0 <= i < attrs.len() ==> *(#[trigger] it.seq()[i]) == attrs[i],
            state.fed@ == before + head + all_toks(attrs.take(it.index@))
//@inloop 0
        proof { toks_step(attrs, it.index@); }
//@endinloop 0
        proof { assert(state.fed@ =~= before + head + all_toks(attrs.take(it.index@ + 1))); }
//@beforeloop 0
    proof { assert(state.fed@ =~= before + head); assert(refs_to(sorted_attrs@, attrs)); assert(all_toks(attrs.take(0)) =~= seq![]); }
//@afterloop 0
    proof { assert(attrs.take(attrs.len() as int) =~= attrs); assert(state.fed@ =~= before + scope_toks(*self)); }
//@endfn
//@fn opentelemetry/src/common.rs impl InstrumentationScope :: fn builder
//@sig fn builder(name: Text) -> InstrumentationScopeBuilder
//@subst name.into() ~> name
//@ret r
//@contract
    ensures r.name == name, r.version is None, r.schema_url is None, r.attributes is None
//@endfn
//@fn opentelemetry/src/common.rs impl InstrumentationScope :: fn name
//@ret r
//@contract
    ensures *r == self.name
//@endfn
//@fn opentelemetry/src/common.rs impl InstrumentationScope :: fn version
//@sig fn version(&self) -> Option<Text>
//@subst self.version.as_deref() ~> self.version
//@ret r
//@contract
    ensures r == self.version
//@endfn
//@fn opentelemetry/src/common.rs impl InstrumentationScope :: fn schema_url
//@sig fn schema_url(&self) -> Option<Text>
//@subst self.schema_url.as_deref() ~> self.schema_url
//@ret r
//@contract
    ensures r == self.schema_url
//@endfn
}
/// equal scopes feed a hasher the same
proof fn equal_scopes_hash_alike(a: InstrumentationScope, b: InstrumentationScope) requires scope_eq(a, b) ensures scope_toks(a) == scope_toks(b) {
    alike(canon(a.attributes@), canon(b.attributes@));
}
proof fn alike(a: Seq<KeyValue>, b: Seq<KeyValue>) requires all_eq(a, b) ensures all_toks(a) == all_toks(b) decreases a.len() {
    if a.len() > 0 { alike(a.drop_last(), b.drop_last()); assert(kv_eq(a[a.len() - 1], b[b.len() - 1])); equal_values_hash_alike(a.last(), b.last()); }
}
spec fn reflexive(v: KeyValue) -> bool { kv_eq(v, v) }
spec fn distinct_keys(s: Seq<KeyValue>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).key.c() != (#[trigger] s[j]).key.c() }
/// the order in which attributes (of distinct keys, with values that equal themselves) are given makes no difference
proof fn order_makes_no_difference(a: InstrumentationScope, b: InstrumentationScope)
    requires a.name.c() == b.name.c(), opt_c(a.version) == opt_c(b.version), opt_c(a.schema_url) == opt_c(b.schema_url),
        a.attributes@.to_multiset() == b.attributes@.to_multiset(), distinct_keys(a.attributes@), forall|i: int| 0 <= i < a.attributes@.len() ==> reflexive(#[trigger] a.attributes@[i])
    ensures scope_eq(a, b)
{
    let (x, y) = (canon(a.attributes@), canon(b.attributes@));
    canon_sorts(a.attributes@); canon_sorts(b.attributes@);
    permuted_distinct(a.attributes@, x); permuted_distinct(a.attributes@, y);
    sorted_is_unique(x, y);
    assert forall|i: int| 0 <= i < x.len() implies kv_eq(#[trigger] x[i], y[i]) by {
        x.to_multiset_ensures(); a.attributes@.to_multiset_ensures();
        assert(x.contains(x[i])); assert(a.attributes@.to_multiset().count(x[i]) > 0);
        assert(a.attributes@.contains(x[i]));
        let j = choose|j: int| 0 <= j < a.attributes@.len() && a.attributes@[j] == x[i];
        assert(reflexive(a.attributes@[j]));
    }
}
/// distinct keys stay distinct under permutation
proof fn permuted_distinct(a: Seq<KeyValue>, x: Seq<KeyValue>) requires a.to_multiset() == x.to_multiset(), distinct_keys(a) ensures distinct_keys(x), x.len() == a.len() {
    a.to_multiset_ensures(); x.to_multiset_ensures();
    assert forall|i: int, j: int| 0 <= i < j < x.len() implies (#[trigger] x[i]).key.c() != (#[trigger] x[j]).key.c() by {
        if x[i].key.c() == x[j].key.c() {
            assert(x.contains(x[i])); assert(x.contains(x[j])); assert(a.to_multiset().count(x[i]) > 0); assert(a.to_multiset().count(x[j]) > 0);
            assert(a.contains(x[i]) && a.contains(x[j]));
            let k = choose|k: int| 0 <= k < a.len() && a[k] == x[i];
            let l = choose|l: int| 0 <= l < a.len() && a[l] == x[j];
            if k < l { assert(a[k].key.c() != a[l].key.c()); } else if l < k { assert(a[l].key.c() != a[k].key.c()); }
            assert(k == l);
            // then x holds the same element twice, and a only once
            let (p, q) = (x[i], a.remove(k));
            x.remove(i).to_multiset_ensures(); q.to_multiset_ensures(); 
            assert(x.remove(i).to_multiset() == x.to_multiset().remove(p));
            assert(q.to_multiset() == a.to_multiset().remove(p));
            assert(x.remove(i)[j - 1] == p); assert(x.remove(i).contains(p));
            assert(q.to_multiset().count(p) > 0); assert(q.contains(p));
            let m = choose|m: int| 0 <= m < q.len() && q[m] == p;
            if m < k { assert(a[m].key.c() != a[k].key.c()); } else { assert(a[k].key.c() != a[m + 1].key.c()); }
        }
    }
}
proof fn sorted_is_unique(x: Seq<KeyValue>, y: Seq<KeyValue>)
    requires x.to_multiset() == y.to_multiset(), distinct_keys(x), distinct_keys(y),
        forall|i: int, j: int| 0 <= i < j < x.len() ==> le(#[trigger] x[i], #[trigger] x[j]), forall|i: int, j: int| 0 <= i < j < y.len() ==> le(#[trigger] y[i], #[trigger] y[j])
    ensures x == y
    decreases x.len()
{
    x.to_multiset_ensures(); y.to_multiset_ensures();
    assert(x.len() == y.len());
    if x.len() == 0 { assert(x =~= y); } else {
        assert(x.contains(x[0])); assert(y.contains(y[0])); assert(y.to_multiset().count(x[0]) > 0); assert(x.to_multiset().count(y[0]) > 0);
        assert(y.contains(x[0]) && x.contains(y[0]));
        let j = choose|j: int| 0 <= j < y.len() && y[j] == x[0];
        let k = choose|k: int| 0 <= k < x.len() && x[k] == y[0];
        ord_total(x[0].key.c(), y[0].key.c(), x[0].key.c());
        if j > 0 {
            assert(le(y[0], y[j]));
            if k > 0 { assert(le(x[0], x[k])); assert(x[0].key.c() == y[0].key.c()); assert(y[0].key.c() != y[j].key.c()); } else { assert(y[0] == x[0]); assert(y[0].key.c() != y[j].key.c()); }
        }
        assert(j == 0);
        let (x2, y2) = (x.remove(0), y.remove(0));
        x2.to_multiset_ensures(); y2.to_multiset_ensures();
        assert(x2.to_multiset() == x.to_multiset().remove(x[0])); assert(y2.to_multiset() == y.to_multiset().remove(y[0]));
        assert forall|i: int, l: int| 0 <= i < l < x2.len() implies le(#[trigger] x2[i], #[trigger] x2[l]) by { assert(le(x[i + 1], x[l + 1])); }
        assert forall|i: int, l: int| 0 <= i < l < y2.len() implies le(#[trigger] y2[i], #[trigger] y2[l]) by { assert(le(y[i + 1], y[l + 1])); }
        assert forall|i: int, l: int| 0 <= i < l < x2.len() implies (#[trigger] x2[i]).key.c() != (#[trigger] x2[l]).key.c() by { assert(x[i + 1].key.c() != x[l + 1].key.c()); }
        assert forall|i: int, l: int| 0 <= i < l < y2.len() implies (#[trigger] y2[i]).key.c() != (#[trigger] y2[l]).key.c() by { assert(y[i + 1].key.c() != y[l + 1].key.c()); }
        sorted_is_unique(x2, y2);
        assert(x =~= seq![x[0]] + x2); assert(y =~= seq![y[0]] + y2);
    }
}
//@item opentelemetry/src/common.rs struct InstrumentationScopeBuilder
#[verifier::external_body] fn or_default(o: Option<Vec<KeyValue>>) -> (r: Vec<KeyValue>) ensures r@ == (match o { Some(v) => v@, None => seq![] }) { unimplemented!() }
impl InstrumentationScopeBuilder {
//@fn opentelemetry/src/common.rs impl InstrumentationScopeBuilder :: fn with_version
//@sig fn with_version(self0: Self, version: Text) -> Self
//@subst self ~> slf
//@subst .into() ~> 
//@ret r
//@contract
    ensures r == (InstrumentationScopeBuilder { version: Some(version), ..self0 })
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry/src/common.rs impl InstrumentationScopeBuilder :: fn with_schema_url
//@sig fn with_schema_url(self0: Self, schema_url: Text) -> Self
//@subst self ~> slf
//@subst .into() ~> 
//@ret r
//@contract
    ensures r == (InstrumentationScopeBuilder { schema_url: Some(schema_url), ..self0 })
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry/src/common.rs impl InstrumentationScopeBuilder :: fn with_attributes
//@sig fn with_attributes(self0: Self, attributes: Vec<KeyValue>) -> Self
//@subst self ~> slf
//@subst attributes.into_iter().collect() ~> attributes
//@ret r
//@contract
    ensures r == (InstrumentationScopeBuilder { attributes: Some(attributes), ..self0 })
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry/src/common.rs impl InstrumentationScopeBuilder :: fn build
//@subst self.attributes.unwrap_or_default() ~> or_default(self.attributes)
//@ret r
//@contract
    ensures r.name == self.name, r.version == self.version, r.schema_url == self.schema_url, r.attributes@ == (match self.attributes { Some(v) => v@, None => seq![] })
//@endfn
}
}
fn main() {}

// Unit: the Prometheus exporter (opentelemetry-prometheus/src/{lib,utils,resource_selector,config}.rs): names, labels,
// values and the type and help kept for a name.
use vstd::prelude::*;
verus! {
// ---- text ----
broadcast axiom fn str_ext(a: &str, b: &str) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
trait Show { spec fn tx(&self) -> Seq<char>; fn show(&self) -> (r: String) ensures r@ == self.tx(); }
impl Show for String { spec fn tx(&self) -> Seq<char> { self@ } fn show(&self) -> (r: String) { self.clone() } }
impl Show for str { spec fn tx(&self) -> Seq<char> { self@ } #[verifier::external_body] fn show(&self) -> (r: String) { unimplemented!() } }
impl<'a, T: Show + ?Sized> Show for &'a T { spec fn tx(&self) -> Seq<char> { (**self).tx() } fn show(&self) -> (r: String) { (**self).show() } }
fn shown<T: Show>(t: &T) -> (r: String) ensures r@ == t.tx() { t.show() }
fn lit_text(s: &str) -> (r: String) ensures r@ == s@ { s.show() }
#[verifier::external_body] fn cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
trait Chr { spec fn ch(&self) -> char; fn ascii_digit(&self) -> (r: bool) ensures r == digit(self.ch()); fn ascii_alphanumeric(&self) -> (r: bool) ensures r == alnum(self.ch()); fn any_alphanumeric(&self) -> (r: bool) ensures alnum(self.ch()) ==> r; }
impl Chr for char {
    spec fn ch(&self) -> char { *self }
    fn ascii_digit(&self) -> (r: bool) { '0' <= *self && *self <= '9' }
    fn ascii_alphanumeric(&self) -> (r: bool) { ('0' <= *self && *self <= '9') || ('a' <= *self && *self <= 'z') || ('A' <= *self && *self <= 'Z') }
    #[verifier::external_body] fn any_alphanumeric(&self) -> (r: bool) { unimplemented!() }
}
spec fn digit(c: char) -> bool { '0' <= c <= '9' }
spec fn alnum(c: char) -> bool { digit(c) || 'a' <= c <= 'z' || 'A' <= c <= 'Z' }
uninterp spec fn byte_off(s: Seq<char>, k: int) -> int;
broadcast axiom fn byte_off_inj(s: Seq<char>, a: int, b: int) requires 0 <= a <= s.len(), 0 <= b <= s.len() ensures #[trigger] byte_off(s, a) == #[trigger] byte_off(s, b) ==> a == b;
axiom fn byte_off_zero(s: Seq<char>) ensures byte_off(s, 0) == 0;
#[verifier::external_body] fn split_at<'a>(s: &'a str, i: usize) -> (r: (&'a str, &'a str)) requires exists|k: int| 0 <= k <= s@.len() && #[trigger] byte_off(s@, k) == i
    ensures forall|k: int| 0 <= k <= s@.len() && #[trigger] byte_off(s@, k) == i ==> r.0@ == s@.subrange(0, k) && r.1@ == s@.subrange(k, s@.len() as int) { unimplemented!() }
#[verifier::external_body] fn char_indices(s: &str) -> (r: Vec<(usize, char)>) ensures r@.len() == s@.len(), forall|k: int| 0 <= k < s@.len() ==> #[trigger] r@[k] == (byte_off(s@, k) as usize, s@[k]) && byte_off(s@, k) == r@[k].0 { unimplemented!() }
#[verifier::external_body] fn chars_of(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] fn text_of(v: Vec<char>) -> (r: String) ensures r@ == v@ { unimplemented!() }
trait AsStr { spec fn sv(&self) -> Seq<char>; fn st(&self) -> (r: &str) ensures r@ == self.sv(); }
impl AsStr for String { spec fn sv(&self) -> Seq<char> { self@ } fn st(&self) -> (r: &str) { self.as_str() } }
impl AsStr for str { spec fn sv(&self) -> Seq<char> { self@ } fn st(&self) -> (r: &str) { self } }
spec fn cut(s: Seq<char>, c: char) -> Option<(Seq<char>, Seq<char>)> { if s.contains(c) { let i = s.index_of_first(c)->Some_0; Some((s.subrange(0, i), s.subrange(i + 1, s.len() as int))) } else { None } }
#[verifier::external_body] fn split_once(s: &str, c: char) -> (r: Option<(&str, &str)>)
    ensures match r { Some((a, b)) => cut(s@, c) == Some((a@, b@)), None => cut(s@, c).is_none() } { unimplemented!() }
#[verifier::external_body] fn blank(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body] fn same_text(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
spec fn vw(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
spec fn svw(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
/// <[&str; N]>::contains
fn has_text(v: &[&'static str; 8], x: &str) -> (r: bool) ensures r == vw(v@).contains(x@) {
    let mut i: usize = 0;
    while i < 8 invariant i <= 8, v@.len() == 8, forall|j: int| 0 <= j < i ==> v@[j]@ != x@ decreases 8 - i {
        if same_text(v[i], x) { proof { assert(vw(v@)[i as int] == x@); } return true; }
        i += 1;
    }
    proof { assert forall|j: int| 0 <= j < 8 implies vw(v@)[j] != x@ by {} }
    false
}
//@formats cat
//@gsubst Cow::Owned($$x,) ~> ($$x)
//@gsubst Cow::Owned($$x) ~> ($$x)
//@gsubst Cow::Borrowed($$x) ~> lit_text($$x)
//@gsubst Cow<'static, str> ~> String
//@gsubst .is_ascii_digit() ~> .ascii_digit()
//@gsubst .is_ascii_alphanumeric() ~> .ascii_alphanumeric()
//@gsubst .is_alphanumeric() ~> .any_alphanumeric()
//@gsubst metrics.resource.is_empty() ~> is_blank(&metrics.resource)
//@gsubst $u.is_empty() ~> is_blank($u)
trait Blank { spec fn bl(&self) -> bool; fn blank(&self) -> (r: bool) ensures r == self.bl(); }
impl Blank for str { spec fn bl(&self) -> bool { self@.len() == 0 } fn blank(&self) -> (r: bool) { blank(self) } }
impl<T> Blank for Vec<T> { spec fn bl(&self) -> bool { self@.len() == 0 } fn blank(&self) -> (r: bool) { self.len() == 0 } }
impl<T> Blank for [T] { spec fn bl(&self) -> bool { self@.len() == 0 } fn blank(&self) -> (r: bool) { self.len() == 0 } }
fn is_blank<T: Blank + ?Sized>(t: &T) -> (r: bool) ensures r == t.bl() { t.blank() }

// ---- names (utils.rs) ----
spec fn name_char(c: char) -> bool { alnum(c) || c == '_' || c == ':' }
spec fn fix(c: char) -> char { if name_char(c) { c } else { '_' } }
spec fn fixed(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| fix(s[i])) }
/// the Prometheus form of an instrument's name
spec fn clean(s: Seq<char>) -> Seq<char> { (if s.len() > 0 && digit(s[0]) { seq!['_'] } else { Seq::empty() }) + fixed(s) }
spec fn bad_at(i: int, c: char) -> bool { (i == 0 && digit(c)) || !name_char(c) }
//@fn opentelemetry-prometheus/src/utils.rs fn sanitize_name
//@closure |(i, c)|
//@sig fn find_bad_at(i: &usize, c: &char, prefix: &mut &'static str) -> bool
//@ret r
//@subst prefix = "_" ~> *prefix = "_"
//@contract
    ensures r == bad_at(*i as int, *c), (*i == 0 && digit(*c)) ==> final(prefix)@ == "_"@, !(*i == 0 && digit(*c)) ==> *final(prefix) == *old(prefix)
//@endfn
/// str::char_indices().find(closure)
fn find_bad(s: &str, prefix: &mut &'static str) -> (r: Option<(usize, char)>) requires old(prefix)@ == ""@
    ensures match r { Some((i, c)) => exists|k: int| 0 <= k < s@.len() && #[trigger] byte_off(s@, k) == i && (forall|j: int| 0 <= j < k ==> name_char(s@[j]) && !(j == 0 && digit(s@[j]))) && (k == 0 && digit(s@[0]) ==> final(prefix)@ == "_"@) && (!(k == 0 && digit(s@[0])) ==> final(prefix)@ == ""@),
        None => (forall|j: int| 0 <= j < s@.len() ==> name_char(#[trigger] s@[j])) && !(s@.len() > 0 && digit(s@[0])) }
{
    let v = char_indices(s);
    let mut k: usize = 0;
    while k < v.len() invariant k <= v@.len(), v@.len() == s@.len(), forall|k: int| 0 <= k < s@.len() ==> #[trigger] v@[k] == (byte_off(s@, k) as usize, s@[k]) && byte_off(s@, k) == v@[k].0,
        prefix@ == ""@, forall|j: int| 0 <= j < k ==> name_char(#[trigger] s@[j]) && !(j == 0 && digit(s@[j])) decreases v@.len() - k {
        let (i, c) = v[k];
        proof { byte_off_zero(s@); assert(v@[k as int].0 == i); assert(byte_off(s@, k as int) == i); if i == 0 { byte_off_inj(s@, 0, k as int); } }
        if find_bad_at(&i, &c, prefix) { return Some((i, c)); }
        k += 1;
    }
    None
}
//@fn opentelemetry-prometheus/src/utils.rs fn sanitize_name
//@closure |c|
//@sig fn fix_char(c: char) -> char
//@ret r
//@contract
    ensures r == fix(c)
//@endfn
/// prefix.chars().chain(valid.chars()).chain(rest.chars().map(closure)).collect()
fn chained(a: &str, b: &str, c: &str) -> (r: String) ensures r@ == a@ + b@ + fixed(c@) {
    let x = chars_of(c);
    let mut y: Vec<char> = Vec::new();
    let mut i: usize = 0;
    while i < x.len() invariant i <= x@.len(), x@ == c@, y@ == fixed(c@).subrange(0, i as int) decreases x@.len() - i {
        y.push(fix_char(x[i]));
        i += 1;
        proof { assert(y@ =~= fixed(c@).subrange(0, i as int)); }
    }
    proof { assert(y@ =~= fixed(c@)); }
    cat(cat(lit_text(a), lit_text(b)), text_of(y))
}
//@fn opentelemetry-prometheus/src/utils.rs fn sanitize_name
//@ret r
//@subst s.char_indices().find($$c) ~> find_bad(s.st(), &mut prefix)
//@subst s.split_at($$i) ~> split_at(s.st(), $$i)
//@subst $a.chars().chain($b.chars()).chain($c.chars().map($$f)).collect() ~> chained($a, $b, $c)
//@contract
    ensures r@ == clean(s@)
//@start
    proof { reveal_strlit(""); reveal_strlit("_"); broadcast use byte_off_inj; byte_off_zero(s@); assert("_"@ =~= seq!['_']); assert(""@ =~= Seq::<char>::empty()); assert(Seq::<char>::empty() + fixed(s@) =~= fixed(s@)); 
        assert((forall|j: int| 0 <= j < s@.len() ==> name_char(s@[j])) ==> fixed(s@) =~= s@);
        assert forall|k: int| 0 <= k <= s@.len() && (forall|j: int| 0 <= j < k ==> name_char(s@[j])) implies #[trigger] s@.subrange(0, k) + fixed(s@.subrange(k, s@.len() as int)) == fixed(s@) by { assert(s@.subrange(0, k) + fixed(s@.subrange(k, s@.len() as int)) =~= fixed(s@)); }
        assert forall|k: int, a: Seq<char>| 0 <= k <= s@.len() && (forall|j: int| 0 <= j < k ==> name_char(s@[j])) implies #[trigger] (a + s@.subrange(0, k) + fixed(s@.subrange(k, s@.len() as int))) == a + fixed(s@) by { assert(a + s@.subrange(0, k) + fixed(s@.subrange(k, s@.len() as int)) =~= a + (s@.subrange(0, k) + fixed(s@.subrange(k, s@.len() as int)))); }
    }
//@endfn
spec fn label_char(c: char) -> char { if alnum(c) { c } else { '_' } }
/// a label name: never empty, no digit first, nothing but letters, digits and _
spec fn label(s: Seq<char>) -> Seq<char> {
    (if s.len() == 0 || digit(s[0]) { seq!['_'] } else { Seq::empty() }) + Seq::new(s.len(), |i: int| label_char(s[i]))
}
proof fn label_is_valid(s: Seq<char>)
    ensures label(s).len() > 0, !digit(label(s)[0]), forall|i: int| 0 <= i < label(s).len() ==> alnum(#[trigger] label(s)[i]) || label(s)[i] == '_'
{
    let t = Seq::new(s.len(), |i: int| label_char(s[i]));
    if s.len() > 0 && !digit(s[0]) { assert(label(s) =~= t); }
}
//@fn opentelemetry-prometheus/src/utils.rs fn sanitize_prom_kv
//@closure |c|
//@sig fn fix_label(c: char) -> char
//@ret r
//@contract
    ensures r == label_char(c)
//@endfn
/// prefix.chars().chain(s.chars().map(closure)).collect()
fn label_text(p: &str, s: &str) -> (r: String) ensures r@ == p@ + Seq::new(s@.len(), |i: int| label_char(s@[i])) {
    let x = chars_of(s);
    let mut y: Vec<char> = Vec::new();
    let mut i: usize = 0;
    let ghost t = Seq::new(s@.len(), |i: int| label_char(s@[i]));
    while i < x.len() invariant i <= x@.len(), x@ == s@, t == Seq::new(s@.len(), |i: int| label_char(s@[i])), y@ == t.subrange(0, i as int) decreases x@.len() - i {
        y.push(fix_label(x[i]));
        i += 1;
        proof { assert(y@ =~= t.subrange(0, i as int)); }
    }
    proof { assert(y@ =~= t); }
    cat(lit_text(p), text_of(y))
}
#[verifier::external_body] fn first_is_digit(s: &str) -> (r: bool) ensures r == (s@.len() > 0 && digit(s@[0])) { unimplemented!() }
//@fn opentelemetry-prometheus/src/utils.rs fn sanitize_prom_kv
//@ret r
//@subst? s.starts_with(|c: char| c.ascii_digit()) ~> first_is_digit(s)
//@subst prefix.chars().chain(s.chars().map($$f)).collect() ~> label_text(prefix, s)
//@contract
    ensures r@ == label(s@)
//@start
    proof { reveal_strlit(""); reveal_strlit("_"); assert("_"@ =~= seq!['_']); assert(""@ =~= Seq::<char>::empty()); }
//@endfn

// ---- units (utils.rs) ----
spec fn unit_name(u: Seq<char>) -> Option<Seq<char>> {
    if u == "d"@ { Some("days"@) } else if u == "h"@ { Some("hours"@) } else if u == "min"@ { Some("minutes"@) } else if u == "s"@ { Some("seconds"@) }
    else if u == "ms"@ { Some("milliseconds"@) } else if u == "us"@ { Some("microseconds"@) } else if u == "ns"@ { Some("nanoseconds"@) }
    else if u == "By"@ { Some("bytes"@) } else if u == "KiBy"@ { Some("kibibytes"@) } else if u == "MiBy"@ { Some("mebibytes"@) } else if u == "GiBy"@ { Some("gibibytes"@) } else if u == "TiBy"@ { Some("tibibytes"@) }
    else if u == "KBy"@ { Some("kilobytes"@) } else if u == "MBy"@ { Some("megabytes"@) } else if u == "GBy"@ { Some("gigabytes"@) } else if u == "TBy"@ { Some("terabytes"@) }
    else if u == "B"@ { Some("bytes"@) } else if u == "KB"@ { Some("kilobytes"@) } else if u == "MB"@ { Some("megabytes"@) } else if u == "GB"@ { Some("gigabytes"@) } else if u == "TB"@ { Some("terabytes"@) }
    else if u == "m"@ { Some("meters"@) } else if u == "V"@ { Some("volts"@) } else if u == "A"@ { Some("amperes"@) } else if u == "J"@ { Some("joules"@) } else if u == "W"@ { Some("watts"@) } else if u == "g"@ { Some("grams"@) }
    else if u == "Cel"@ { Some("celsius"@) } else if u == "Hz"@ { Some("hertz"@) } else if u == "1"@ { Some("ratio"@) } else if u == "%"@ { Some("percent"@) }
    else { None }
}
spec fn per_name(u: Seq<char>) -> Option<Seq<char>> {
    if u == "s"@ { Some("second"@) } else if u == "m"@ { Some("minute"@) } else if u == "h"@ { Some("hour"@) } else if u == "d"@ { Some("day"@) }
    else if u == "w"@ { Some("week"@) } else if u == "mo"@ { Some("month"@) } else if u == "y"@ { Some("year"@) } else { None }
}
spec fn countless(u: Seq<char>) -> bool { u == "1"@ || u == "d"@ || u == "h"@ || u == "min"@ || u == "s"@ || u == "ms"@ || u == "us"@ || u == "ns"@ }
spec fn listed() -> Seq<Seq<char>> { seq!["1"@, "d"@, "h"@, "min"@, "s"@, "ms"@, "us"@, "ns"@] }
proof fn listed_is(x: Seq<char>) ensures listed().contains(x) == countless(x) {
    let l = listed();
    assert(l[0] == "1"@ && l[1] == "d"@ && l[2] == "h"@ && l[3] == "min"@ && l[4] == "s"@ && l[5] == "ms"@ && l[6] == "us"@ && l[7] == "ns"@);
}
spec fn ov(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
spec fn osv(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
spec fn suffix(u: Seq<char>) -> Option<Seq<char>> {
    if u.len() == 0 { None } else if unit_name(u) is Some { unit_name(u) } else { match cut(u, '/') {
        None => None,
        Some((a, b)) => match per_name(b) {
            None => None,
            Some(p) => if countless(a) || unit_name(a) is None { Some("per_"@ + p) } else { Some(unit_name(a)->Some_0 + "_per_"@ + p) } } } }
}
//@fn opentelemetry-prometheus/src/utils.rs const NON_APPLICABLE_ON_PER_UNIT
//@sig fn non_applicable() -> (r: [&'static str; 8])
//@contract
    ensures vw(r@) =~= listed()
//@endfn
//@fn opentelemetry-prometheus/src/utils.rs fn get_prom_units
//@ret r
//@contract
    ensures ov(r) == unit_name(unit@)
//@start
    broadcast use str_ext;
//@endfn
//@fn opentelemetry-prometheus/src/utils.rs fn get_prom_per_unit
//@ret r
//@contract
    ensures ov(r) == per_name(unit@)
//@start
    broadcast use str_ext;
//@endfn
//@fn opentelemetry-prometheus/src/utils.rs fn get_unit_suffixes
//@ret r
//@subst $u.split_once($$c) ~> split_once($u, $$c)
//@subst NON_APPLICABLE_ON_PER_UNIT.contains(&$x) ~> has_text(&non_applicable(), $x)
//@contract
    ensures osv(r) == suffix(unit@)
//@start
    proof { if let Some((a, b)) = cut(unit@, '/') { listed_is(a); } }
//@endfn

// ---- the parts of opentelemetry_sdk 0.29 and of the prometheus crate that are used ----
#[verifier::external_body] #[derive(Clone, Copy)] struct F { _p: u8 }
uninterp spec fn f_of_u64(x: u64) -> F;
uninterp spec fn f_of_i64(x: i64) -> F;
uninterp spec fn f_one() -> F;
impl F {
    #[verifier::external_body] fn of_u64(x: u64) -> (r: F) ensures r == f_of_u64(x) { unimplemented!() }
    #[verifier::external_body] fn of_i64(x: i64) -> (r: F) ensures r == f_of_i64(x) { unimplemented!() }
    #[verifier::external_body] fn one() -> (r: F) ensures r == f_one() { unimplemented!() }
}
struct Key { s: String }
impl Key { fn as_str(&self) -> (r: &str) ensures r@ == self.s@ { self.s.as_str() } #[verifier::external_body] fn copy(&self) -> (r: Key) ensures r == *self { unimplemented!() } }
#[verifier::external_body] struct Value { _p: u8 }
uninterp spec fn value_text(v: Value) -> Seq<char>;
impl Value { #[verifier::external_body] fn copy(&self) -> (r: Value) ensures r == *self { unimplemented!() } }
impl Show for Value { spec fn tx(&self) -> Seq<char> { value_text(*self) } #[verifier::external_body] fn show(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body] struct InstrumentationScope { _p: u8 }
uninterp spec fn scope_name(s: InstrumentationScope) -> Seq<char>;
uninterp spec fn scope_version(s: InstrumentationScope) -> Option<Seq<char>>;
uninterp spec fn scope_attributes(s: InstrumentationScope) -> nat;
impl InstrumentationScope {
    #[verifier::external_body] fn name(&self) -> (r: &str) ensures r@ == scope_name(*self) { unimplemented!() }
    #[verifier::external_body] fn version(&self) -> (r: Option<&str>) ensures ov(r) == scope_version(*self) { unimplemented!() }
    #[verifier::external_body] fn attribute_count(&self) -> (r: usize) ensures r == scope_attributes(*self) { unimplemented!() }
    #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body] struct Resource { _p: u8 }
uninterp spec fn entries(r: Resource) -> Seq<(Key, Value)>;
impl Resource {
    #[verifier::external_body] fn empty() -> Resource { unimplemented!() }
    #[verifier::external_body] fn list(&self) -> (r: Vec<(Key, Value)>) ensures r@ == entries(*self) { unimplemented!() }
}
impl Blank for Resource { spec fn bl(&self) -> bool { entries(*self).len() == 0 } #[verifier::external_body] fn blank(&self) -> (r: bool) { unimplemented!() } }
type Kvs = Vec<(Key, Value)>;
struct GaugeDataPoint<T> { attributes: Kvs, value: T }
struct Gauge<T> { data_points: Vec<GaugeDataPoint<T>> }
struct SumDataPoint<T> { attributes: Kvs, value: T }
struct Sum<T> { data_points: Vec<SumDataPoint<T>>, is_monotonic: bool }
struct HistogramDataPoint<T> { attributes: Kvs, count: u64, bounds: Vec<F>, bucket_counts: Vec<u64>, sum: T }
struct Histogram<T> { data_points: Vec<HistogramDataPoint<T>> }
/// Box<dyn Aggregation>
enum Data { HI(Histogram<i64>), HU(Histogram<u64>), HF(Histogram<F>), SI(Sum<i64>), SU(Sum<u64>), SF(Sum<F>), GI(Gauge<i64>), GU(Gauge<u64>), GF(Gauge<F>), Other }
#[derive(PartialEq, Eq, Structural, Clone, Copy)] enum TypeId { HI, HU, HF, SI, SU, SF, GI, GU, GF, Other }
impl Data {
    spec fn ty(&self) -> TypeId { match self { Data::HI(_) => TypeId::HI, Data::HU(_) => TypeId::HU, Data::HF(_) => TypeId::HF, Data::SI(_) => TypeId::SI, Data::SU(_) => TypeId::SU, Data::SF(_) => TypeId::SF, Data::GI(_) => TypeId::GI, Data::GU(_) => TypeId::GU, Data::GF(_) => TypeId::GF, Data::Other => TypeId::Other } }
    fn as_any(&self) -> (r: &Data) ensures r == self { self }
    fn type_id(&self) -> (r: TypeId) ensures r == self.ty() { match self { Data::HI(_) => TypeId::HI, Data::HU(_) => TypeId::HU, Data::HF(_) => TypeId::HF, Data::SI(_) => TypeId::SI, Data::SU(_) => TypeId::SU, Data::SF(_) => TypeId::SF, Data::GI(_) => TypeId::GI, Data::GU(_) => TypeId::GU, Data::GF(_) => TypeId::GF, Data::Other => TypeId::Other } }
}
trait Typed: Sized { spec fn id() -> TypeId; spec fn within(d: Data) -> Option<Self>; fn ty() -> (r: TypeId) ensures r == Self::id(); fn of(d: &Data) -> (r: Option<&Self>) ensures match r { Some(x) => Self::within(*d) == Some(*x), None => Self::within(*d) is None }; }
impl Typed for Histogram<i64> { spec fn id() -> TypeId { TypeId::HI } spec fn within(d: Data) -> Option<Self> { match d { Data::HI(x) => Some(x), _ => None } } fn ty() -> (r: TypeId) { TypeId::HI } fn of(d: &Data) -> (r: Option<&Self>) { match d { Data::HI(x) => Some(x), _ => None } } }
impl Typed for Histogram<u64> { spec fn id() -> TypeId { TypeId::HU } spec fn within(d: Data) -> Option<Self> { match d { Data::HU(x) => Some(x), _ => None } } fn ty() -> (r: TypeId) { TypeId::HU } fn of(d: &Data) -> (r: Option<&Self>) { match d { Data::HU(x) => Some(x), _ => None } } }
impl Typed for Histogram<F> { spec fn id() -> TypeId { TypeId::HF } spec fn within(d: Data) -> Option<Self> { match d { Data::HF(x) => Some(x), _ => None } } fn ty() -> (r: TypeId) { TypeId::HF } fn of(d: &Data) -> (r: Option<&Self>) { match d { Data::HF(x) => Some(x), _ => None } } }
impl Typed for Sum<i64> { spec fn id() -> TypeId { TypeId::SI } spec fn within(d: Data) -> Option<Self> { match d { Data::SI(x) => Some(x), _ => None } } fn ty() -> (r: TypeId) { TypeId::SI } fn of(d: &Data) -> (r: Option<&Self>) { match d { Data::SI(x) => Some(x), _ => None } } }
impl Typed for Sum<u64> { spec fn id() -> TypeId { TypeId::SU } spec fn within(d: Data) -> Option<Self> { match d { Data::SU(x) => Some(x), _ => None } } fn ty() -> (r: TypeId) { TypeId::SU } fn of(d: &Data) -> (r: Option<&Self>) { match d { Data::SU(x) => Some(x), _ => None } } }
impl Typed for Sum<F> { spec fn id() -> TypeId { TypeId::SF } spec fn within(d: Data) -> Option<Self> { match d { Data::SF(x) => Some(x), _ => None } } fn ty() -> (r: TypeId) { TypeId::SF } fn of(d: &Data) -> (r: Option<&Self>) { match d { Data::SF(x) => Some(x), _ => None } } }
impl Typed for Gauge<i64> { spec fn id() -> TypeId { TypeId::GI } spec fn within(d: Data) -> Option<Self> { match d { Data::GI(x) => Some(x), _ => None } } fn ty() -> (r: TypeId) { TypeId::GI } fn of(d: &Data) -> (r: Option<&Self>) { match d { Data::GI(x) => Some(x), _ => None } } }
impl Typed for Gauge<u64> { spec fn id() -> TypeId { TypeId::GU } spec fn within(d: Data) -> Option<Self> { match d { Data::GU(x) => Some(x), _ => None } } fn ty() -> (r: TypeId) { TypeId::GU } fn of(d: &Data) -> (r: Option<&Self>) { match d { Data::GU(x) => Some(x), _ => None } } }
impl Typed for Gauge<F> { spec fn id() -> TypeId { TypeId::GF } spec fn within(d: Data) -> Option<Self> { match d { Data::GF(x) => Some(x), _ => None } } fn ty() -> (r: TypeId) { TypeId::GF } fn of(d: &Data) -> (r: Option<&Self>) { match d { Data::GF(x) => Some(x), _ => None } } }
struct Metric { name: String, description: String, unit: String, data: Data }
struct ScopeMetrics { scope: InstrumentationScope, metrics: Vec<Metric> }
struct ResourceMetrics { resource: Resource, scope_metrics: Vec<ScopeMetrics> }

struct LabelPair { name: String, value: String }
impl LabelPair {
    #[verifier::external_body] fn new() -> (r: Self) ensures r.name@.len() == 0, r.value@.len() == 0 { unimplemented!() }
    fn set_name(&mut self, s: String) ensures *final(self) == (LabelPair { name: s, ..*old(self) }) { self.name = s; }
    fn set_value(&mut self, s: String) ensures *final(self) == (LabelPair { value: s, ..*old(self) }) { self.value = s; }
    fn copy(&self) -> (r: Self) ensures lpv(r) == lpv(*self) { LabelPair { name: self.name.clone(), value: self.value.clone() } }
}
type L = (Seq<char>, Seq<char>);
spec fn lpv(l: LabelPair) -> L { (l.name@, l.value@) }
spec fn lps(v: Seq<LabelPair>) -> Seq<L> { Seq::new(v.len(), |i: int| lpv(v[i])) }
fn extend_labels(v: &mut Vec<LabelPair>, x: &[LabelPair]) ensures lps(final(v)@) == lps(old(v)@) + lps(x@) {
    let mut i: usize = 0;
    proof { assert(lps(v@) =~= lps(v@) + lps(x@).subrange(0, 0)); }
    while i < x.len() invariant i <= x@.len(), lps(v@) == lps(old(v)@) + lps(x@).subrange(0, i as int) decreases x@.len() - i {
        let ghost before = v@;
        v.push(x[i].copy());
        proof { assert(lps(v@) =~= lps(before).push(lpv(x@[i as int]))); assert(lps(x@).subrange(0, i + 1) =~= lps(x@).subrange(0, i as int).push(lpv(x@[i as int]))); assert(lps(v@) =~= lps(old(v)@) + lps(x@).subrange(0, i + 1)); }
        i += 1;
    }
    proof { assert(lps(x@).subrange(0, x@.len() as int) =~= lps(x@)); }
}
fn copy_labels(x: &Vec<LabelPair>) -> (r: Vec<LabelPair>) ensures lps(r@) == lps(x@) { let mut r: Vec<LabelPair> = Vec::new(); extend_labels(&mut r, x.as_slice()); proof { assert(lps(r@) =~= lps(x@)); } r }
fn no_labels() -> (r: Vec<LabelPair>) ensures lps(r@) == Seq::<L>::empty() { let r: Vec<LabelPair> = Vec::new(); proof { assert(lps(r@) =~= Seq::<L>::empty()); } r }
#[derive(PartialEq, Eq, Structural, Clone, Copy)] enum MetricType { COUNTER, GAUGE, HISTOGRAM }
struct PGauge { value: F }
struct PCounter { value: F }
struct PBucket { upper: F, cum: u64 }
struct PHistogram { sum: F, count: u64, bucket: Vec<PBucket> }
struct PMetric { label: Vec<LabelPair>, gauge: Option<PGauge>, counter: Option<PCounter>, histogram: Option<PHistogram> }
struct MetricFamily { name: String, help: String, ty: MetricType, metric: Vec<PMetric> }
impl PGauge { #[verifier::external_body] fn default() -> Self { unimplemented!() } fn set_value(&mut self, v: F) ensures final(self).value == v { self.value = v; } }
impl PCounter { #[verifier::external_body] fn default() -> Self { unimplemented!() } fn set_value(&mut self, v: F) ensures final(self).value == v { self.value = v; } }
impl PBucket { #[verifier::external_body] fn default() -> Self { unimplemented!() }
    fn set_upper_bound(&mut self, v: F) ensures *final(self) == (PBucket { upper: v, ..*old(self) }) { self.upper = v; }
    fn set_cumulative_count(&mut self, v: u64) ensures *final(self) == (PBucket { cum: v, ..*old(self) }) { self.cum = v; } }
impl PHistogram { #[verifier::external_body] fn default() -> Self { unimplemented!() }
    fn set_sample_sum(&mut self, v: F) ensures *final(self) == (PHistogram { sum: v, ..*old(self) }) { self.sum = v; }
    fn set_sample_count(&mut self, v: u64) ensures *final(self) == (PHistogram { count: v, ..*old(self) }) { self.count = v; }
    fn set_bucket(&mut self, v: Vec<PBucket>) ensures *final(self) == (PHistogram { bucket: v, ..*old(self) }) { self.bucket = v; } }
impl PMetric { fn default() -> (r: Self) ensures r.gauge is None && r.counter is None && r.histogram is None && r.label@.len() == 0 { PMetric { label: Vec::new(), gauge: None, counter: None, histogram: None } }
    fn set_label(&mut self, v: Vec<LabelPair>) ensures *final(self) == (PMetric { label: v, ..*old(self) }) { self.label = v; }
    fn set_gauge(&mut self, v: PGauge) ensures *final(self) == (PMetric { gauge: Some(v), ..*old(self) }) { self.gauge = Some(v); }
    fn set_counter(&mut self, v: PCounter) ensures *final(self) == (PMetric { counter: Some(v), ..*old(self) }) { self.counter = Some(v); }
    fn set_histogram(&mut self, v: PHistogram) ensures *final(self) == (PMetric { histogram: Some(v), ..*old(self) }) { self.histogram = Some(v); } }
impl MetricFamily { fn default() -> (r: Self) ensures r.metric@.len() == 0, r.ty == MetricType::COUNTER { MetricFamily { name: lit_text(""), help: lit_text(""), ty: MetricType::COUNTER, metric: Vec::new() } }
    fn set_name(&mut self, v: String) ensures *final(self) == (MetricFamily { name: v, ..*old(self) }) { self.name = v; }
    fn set_help(&mut self, v: String) ensures *final(self) == (MetricFamily { help: v, ..*old(self) }) { self.help = v; }
    fn set_field_type(&mut self, v: MetricType) ensures *final(self) == (MetricFamily { ty: v, ..*old(self) }) { self.ty = v; }
    fn set_metric(&mut self, v: Vec<PMetric>) ensures *final(self) == (MetricFamily { metric: v, ..*old(self) }) { self.metric = v; }
    fn get_field_type(&self) -> (r: MetricType) ensures r == self.ty { self.ty }
    fn help(&self) -> (r: &str) ensures r@ == self.help@ { self.help.as_str() }
    #[verifier::external_body] fn clone(&self) -> (r: Self) ensures g(r) == g(*self) { unimplemented!() } }
/// what a family with one metric says
enum V { Gauge(F), Counter(F), Hist(F, u64, Seq<(F, int)>), Other }
struct G { name: Seq<char>, help: Seq<char>, ty: MetricType, labels: Seq<L>, v: V }
spec fn buckets(b: Seq<PBucket>) -> Seq<(F, int)> { Seq::new(b.len(), |i: int| (b[i].upper, b[i].cum as int)) }
spec fn val(m: PMetric) -> V { match (m.gauge, m.counter, m.histogram) { (Some(x), None, None) => V::Gauge(x.value), (None, Some(x), None) => V::Counter(x.value), (None, None, Some(h)) => V::Hist(h.sum, h.count, buckets(h.bucket@)), _ => V::Other } }
spec fn g(m: MetricFamily) -> G { G { name: m.name@, help: m.help@, ty: m.ty, labels: if m.metric@.len() == 1 { lps(m.metric@[0].label@) } else { Seq::empty() }, v: if m.metric@.len() == 1 { val(m.metric@[0]) } else { V::Other } } }
spec fn gs(v: Seq<MetricFamily>) -> Seq<G> { Seq::new(v.len(), |i: int| g(v[i])) }
proof fn gs_push(v: Seq<MetricFamily>, m: MetricFamily) ensures gs(v.push(m)) == gs(v).push(g(m)) { assert(gs(v.push(m)) =~= gs(v).push(g(m))); }

// ---- labels ----
#[verifier::external_body] struct Multi { m: Ghost<Map<Seq<char>, Seq<Seq<char>>>> }
impl View for Multi { type V = Map<Seq<char>, Seq<Seq<char>>>; uninterp spec fn view(&self) -> Map<Seq<char>, Seq<Seq<char>>>; }
uninterp spec fn in_order(m: Map<Seq<char>, Seq<Seq<char>>>) -> Seq<Seq<char>>;
uninterp spec fn sorted_texts(v: Seq<Seq<char>>) -> Seq<Seq<char>>;
spec fn joined(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { joined(v.drop_last(), sep) + sep + v.last() } }
impl Multi {
    #[verifier::external_body] fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, Seq<Seq<char>>>::empty() { unimplemented!() }
    #[verifier::external_body] fn modify_or(&mut self, k: String, add: String, fresh: Vec<String>) ensures final(self)@ == old(self)@.insert(k@, if old(self)@.contains_key(k@) { old(self)@[k@].push(add@) } else { svw(fresh@) }) { unimplemented!() }
    #[verifier::external_body] fn pairs(self) -> (r: Vec<(String, Vec<String>)>) ensures r@.len() == in_order(self@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == in_order(self@)[i] && svw(r@[i].1@) == self@[in_order(self@)[i]] { unimplemented!() }
}
#[verifier::external_body] fn own_pair(v: &Vec<(String, Vec<String>)>, i: usize) -> (r: (String, Vec<String>)) requires i < v@.len() ensures r.0@ == v@[i as int].0@, svw(r.1@) == svw(v@[i as int].1@) { unimplemented!() }
#[verifier::external_body] fn sort_texts(v: &mut Vec<String>) ensures svw(final(v)@) == sorted_texts(svw(old(v)@)) { unimplemented!() }
#[verifier::external_body] fn join_texts(v: &Vec<String>, s: &str) -> (r: String) ensures r@ == joined(svw(v@), s@) { unimplemented!() }
fn one_text(s: String) -> (r: Vec<String>) ensures svw(r@) == seq![s@] { let mut v: Vec<String> = Vec::new(); v.push(s); proof { assert(svw(v@) =~= seq![s@]); } v }
/// values by cleaned key, in the order given
spec fn grouped(kvs: Seq<(Key, Value)>, n: int) -> Map<Seq<char>, Seq<Seq<char>>> decreases n {
    if n <= 0 { Map::empty() } else { let m = grouped(kvs, n - 1); let k = label(kvs[n - 1].0.s@); let v = value_text(kvs[n - 1].1); m.insert(k, if m.contains_key(k) { m[k].push(v) } else { seq![v] }) }
}
spec fn attr_labels(kvs: Seq<(Key, Value)>) -> Seq<L> { let m = grouped(kvs, kvs.len() as int); let ks = in_order(m); Seq::new(ks.len(), |i: int| (ks[i], joined(sorted_texts(m[ks[i]]), ";"@))) }
//@gsubst utils::$x ~> $x
//@gsubst data::$x ~> $x
//@gsubst get_unit_suffixes(&$$u) ~> get_unit_suffixes($$u.as_str())
//@gsubst BTreeMap::<String, Vec<String>>::new() ~> Multi::new()
//@gsubst $m.entry($k).and_modify(|$v| $v.push($$a)).or_insert_with(|| vec![$$b]) ~> $m.modify_or($k, $$a, one_text($$b))
//@gsubst for (key, value) in kvs { $$b } ~> let mut ki: usize = 0; while ki < kvs.len() { let key = &kvs[ki].0; let value = &kvs[ki].1; ki += 1; $$b }
//@gsubst for (key, mut values) in keys_map.into_iter() { $$b } ~> let ps = keys_map.pairs(); let mut pi: usize = 0; while pi < ps.len() { let (key, mut values) = own_pair(&ps, pi); pi += 1; $$b }
//@gsubst for (key, values) in keys_map.into_iter() { $$b } ~> let ps = keys_map.pairs(); let mut pi: usize = 0; while pi < ps.len() { let (key, values) = own_pair(&ps, pi); pi += 1; $$b }
//@gsubst $v.sort_unstable() ~> sort_texts(&mut $v)
//@gsubst $v.sort() ~> sort_texts(&mut $v)
//@gsubst $v.join($$s) ~> join_texts(&$v, $$s)
//@gsubst $r.extend(&mut $e.iter().cloned()) ~> extend_labels(&mut $r, $e)
//@gsubst $r.extend($e.iter().cloned()) ~> extend_labels(&mut $r, $e.as_slice())
//@gsubst Vec::with_capacity($$n) ~> Vec::new()
//@gsubst .to_string() ~> .show()
//@gsubst &[] ~> no_labels().as_slice()
//@gsubst &mut resource.iter().filter($$f) ~> &kept(&resource.list(), keys)
//@gsubst &mut resource.iter() ~> &resource.list()
//@gsubst &mut dp.attributes.iter().map(|$k| (&$k.key, &$k.value)) ~> &dp.attributes
//@gsubst prometheus::proto::MetricFamily ~> MetricFamily
//@gsubst prometheus::proto::MetricType ~> MetricType
//@gsubst prometheus::proto::$x ~> P$x
//@gsubst f64 ~> F
//@gsubst 1.0 ~> F::one()
//@gsubst SCOPE_INFO_KEYS[$i].into() ~> scope_info_keys()[$i].show()
//@gsubst metrics.description.into() ~> metrics.description.show()
//@gsubst cat($$x).into() ~> cat($$x)
//@gsubst description.clone() ~> description.show()
//@gsubst $x.into() ~> $x.show()
//@gsubst : &str = ~> : &'static str =
//@gsubst &scope.version() ~> scope.version()
//@gsubst &scope_metrics.scope.version() ~> scope_metrics.scope.version()
//@gsubst .attributes().count() ~> .attribute_count()
//@gsubst vec![pm] ~> one_metric(pm)
//@gsubst vec![m] ~> one_metric(m)
fn one_metric(m: PMetric) -> (r: Vec<PMetric>) ensures r@ == seq![m] { let mut v: Vec<PMetric> = Vec::new(); v.push(m); v }
//@fn opentelemetry-prometheus/src/lib.rs fn get_attrs
//@sig fn get_attrs(kvs: &Kvs, extra: &[LabelPair]) -> Vec<LabelPair>
//@ret r
//@contract
    ensures lps(r@) == attr_labels(kvs@) + lps(extra@)
//@loop 0
    invariant ki <= kvs@.len(), keys_map@ == grouped(kvs@, ki as int)
    decreases kvs@.len() - ki
//@beforeloop 1
    let ghost gm = keys_map@; let ghost ks = in_order(gm);
//@loop 1
    invariant pi <= ps@.len(), ps@.len() == ks.len(), forall|i: int| 0 <= i < ps@.len() ==> (#[trigger] ps@[i]).0@ == ks[i] && svw(ps@[i].1@) == gm[ks[i]],
        lps(res@) == Seq::new(pi as nat, |i: int| (ks[i], joined(sorted_texts(gm[ks[i]]), ";"@)))
    decreases ps@.len() - pi
//@inloop 1
    let ghost res0 = res@;
//@endinloop 1
    proof { assert(lps(res@) =~= lps(res0).push(lpv(res@.last()))); assert(lps(res@) =~= Seq::new(pi as nat, |i: int| (ks[i], joined(sorted_texts(gm[ks[i]]), ";"@)))); }
//@afterloop 1
    proof { assert(lps(res@) =~= attr_labels(kvs@)); assert(attr_labels(kvs@) + Seq::<L>::empty() =~= attr_labels(kvs@)); assert(extra@.len() == 0 ==> lps(extra@) =~= Seq::<L>::empty()); }
//@endfn
#[verifier::external_body] struct KeySet { _p: u8 }
uninterp spec fn has_key(s: KeySet, k: Key) -> bool;
impl KeySet { #[verifier::external_body] fn contains(&self, k: &Key) -> (r: bool) ensures r == has_key(*self, *k) { unimplemented!() } }
//@gsubst HashSet<Key> ~> KeySet
//@item opentelemetry-prometheus/src/resource_selector.rs enum ResourceSelector
//@fn opentelemetry-prometheus/src/resource_selector.rs impl ResourceSelector :: fn select
//@closure |(k, _)|
//@sig fn allow(k: &&Key, keys: &KeySet) -> bool
//@ret r
//@contract
    ensures r == has_key(*keys, **k)
//@endfn
spec fn allowed(e: Seq<(Key, Value)>, keys: KeySet, n: int) -> Seq<(Key, Value)> decreases n { if n <= 0 { Seq::empty() } else if has_key(keys, e[n - 1].0) { allowed(e, keys, n - 1).push(e[n - 1]) } else { allowed(e, keys, n - 1) } }
/// Iterator::filter(closure)
fn kept(e: &Kvs, keys: &KeySet) -> (r: Kvs) ensures r@ == allowed(e@, *keys, e@.len() as int) {
    let mut r: Kvs = Vec::new();
    let mut i: usize = 0;
    while i < e.len() invariant i <= e@.len(), r@ == allowed(e@, *keys, i as int) decreases e@.len() - i {
        let k = &e[i].0;
        if allow(&k, keys) { r.push((e[i].0.copy(), e[i].1.copy())); }
        i += 1;
    }
    r
}
spec fn selected(s: ResourceSelector, r: Resource) -> Seq<L> { match s { ResourceSelector::All => attr_labels(entries(r)), ResourceSelector::None => Seq::empty(), ResourceSelector::KeyAllowList(k) => attr_labels(allowed(entries(r), k, entries(r).len() as int)) } }
impl ResourceSelector {
//@fn opentelemetry-prometheus/src/resource_selector.rs impl ResourceSelector :: fn select
//@ret r
//@contract
    ensures lps(r@) == selected(*self, *resource)
//@start
    proof { assert forall|x: Seq<L>| #[trigger] (x + Seq::<L>::empty()) == x by { assert(x + Seq::<L>::empty() =~= x); } assert forall|v: Seq<LabelPair>| v.len() == 0 implies #[trigger] lps(v) == Seq::<L>::empty() by { assert(lps(v) =~= Seq::<L>::empty()); } }
//@endfn
}

// ---- values ----
trait Numeric { spec fn num(&self) -> F; fn as_f64(&self) -> (r: F) ensures r == self.num(); }
impl Numeric for u64 {
spec fn num(&self) -> F { f_of_u64(*self) }
//@fn opentelemetry-prometheus/src/lib.rs impl Numeric for u64 :: fn as_f64
//@ret r
//@subst *self as F ~> F::of_u64(*self)
//@endfn
}
impl Numeric for i64 {
spec fn num(&self) -> F { f_of_i64(*self) }
//@fn opentelemetry-prometheus/src/lib.rs impl Numeric for i64 :: fn as_f64
//@ret r
//@subst *self as F ~> F::of_i64(*self)
//@endfn
}
impl Numeric for F {
spec fn num(&self) -> F { *self }
//@fn opentelemetry-prometheus/src/lib.rs impl Numeric for f64 :: fn as_f64
//@ret r
//@endfn
}
spec fn cum(c: Seq<u64>, k: int) -> int decreases k { if k <= 0 { 0 } else { cum(c, k - 1) + c[k - 1] } }
proof fn cum_mono(c: Seq<u64>, a: int, b: int) requires a <= b ensures cum(c, a) <= cum(c, b) decreases b - a { if a < b { cum_mono(c, a, b - 1); } }
proof fn cum_pos(c: Seq<u64>, a: int) ensures cum(c, a) >= 0 decreases a { if a > 0 { cum_pos(c, a - 1); } }
/// as the SDK collects them: a count for each bound and the one above, their sum within u64
spec fn dp_ok<T>(d: HistogramDataPoint<T>) -> bool { d.bounds@.len() <= d.bucket_counts@.len() && cum(d.bucket_counts@, d.bounds@.len() as int) <= u64::MAX }
spec fn hist_ok<T>(h: Histogram<T>) -> bool { forall|i: int| 0 <= i < h.data_points@.len() ==> dp_ok(#[trigger] h.data_points@[i]) }
spec fn cumulative<T>(d: HistogramDataPoint<T>, n: int) -> Seq<(F, int)> { Seq::new(n as nat, |i: int| (d.bounds@[i], cum(d.bucket_counts@, i + 1))) }
spec fn hist_g<T: Numeric>(d: HistogramDataPoint<T>, help: Seq<char>, extra: Seq<L>, name: Seq<char>) -> G { G { name, help, ty: MetricType::HISTOGRAM, labels: attr_labels(d.attributes@) + extra, v: V::Hist(d.sum.num(), d.count, cumulative(d, d.bounds@.len() as int)) } }
spec fn sum_g<T: Numeric>(d: SumDataPoint<T>, mono: bool, help: Seq<char>, extra: Seq<L>, name: Seq<char>) -> G { G { name, help, ty: if mono { MetricType::COUNTER } else { MetricType::GAUGE }, labels: attr_labels(d.attributes@) + extra, v: if mono { V::Counter(d.value.num()) } else { V::Gauge(d.value.num()) } } }
spec fn gauge_g<T: Numeric>(d: GaugeDataPoint<T>, help: Seq<char>, extra: Seq<L>, name: Seq<char>) -> G { G { name, help, ty: MetricType::GAUGE, labels: attr_labels(d.attributes@) + extra, v: V::Gauge(d.value.num()) } }
spec fn hist_gs<T: Numeric>(h: Histogram<T>, help: Seq<char>, extra: Seq<L>, name: Seq<char>, n: int) -> Seq<G> { Seq::new(n as nat, |i: int| hist_g(h.data_points@[i], help, extra, name)) }
spec fn sum_gs<T: Numeric>(h: Sum<T>, help: Seq<char>, extra: Seq<L>, name: Seq<char>, n: int) -> Seq<G> { Seq::new(n as nat, |i: int| sum_g(h.data_points@[i], h.is_monotonic, help, extra, name)) }
spec fn gauge_gs<T: Numeric>(h: Gauge<T>, help: Seq<char>, extra: Seq<L>, name: Seq<char>, n: int) -> Seq<G> { Seq::new(n as nat, |i: int| gauge_g(h.data_points@[i], help, extra, name)) }
//@gsubst for dp in &$a.data_points { $$b } ~> let mut di: usize = 0; while di < $a.data_points.len() { let dp = &$a.data_points[di]; di += 1; $$b }
//@fn opentelemetry-prometheus/src/lib.rs fn add_histogram_metric
//@closure |(mut acc, mut count), (i, bound)|
//@sig fn bucket_step<T>(acc0: Vec<PBucket>, count0: u64, i: usize, bound: &F, dp: &HistogramDataPoint<T>) -> (Vec<PBucket>, u64)
//@ret r
//@start
    let mut acc = acc0; let mut count = count0;
//@contract
    requires i < dp.bounds@.len(), dp_ok(*dp), *bound == dp.bounds@[i as int], count0 == cum(dp.bucket_counts@, i as int), buckets(acc0@) == cumulative(*dp, i as int)
    ensures r.1 == cum(dp.bucket_counts@, i + 1), buckets(r.0@) =~= cumulative(*dp, i + 1)
//@start
    proof { cum_mono(dp.bucket_counts@, i + 1, dp.bounds@.len() as int); let ghost a = acc@; let ghost bs = buckets(a); let ghost cs = cumulative(*dp, i as int); assert(bs == cs); assert(bs.len() == a.len()); assert(cs.len() == i); assert(a.len() == i);
        assert forall|j: int| 0 <= j < i implies (#[trigger] acc@[j]).upper == dp.bounds@[j] && acc@[j].cum == cum(dp.bucket_counts@, j + 1) by { assert(bs[j] == cs[j]); } }
//@endfn
/// dp.bounds.iter().enumerate().fold(init, closure)
fn fold_buckets<T>(dp: &HistogramDataPoint<T>, init: (Vec<PBucket>, u64)) -> (r: (Vec<PBucket>, u64)) requires dp_ok(*dp), init.0@.len() == 0, init.1 == 0 ensures buckets(r.0@) == cumulative(*dp, dp.bounds@.len() as int) {
    let (mut a, mut c) = init;
    let mut i: usize = 0;
    proof { assert(buckets(a@) =~= cumulative(*dp, 0)); }
    while i < dp.bounds.len() invariant i <= dp.bounds@.len(), dp_ok(*dp), c == cum(dp.bucket_counts@, i as int), buckets(a@) == cumulative(*dp, i as int) decreases dp.bounds@.len() - i {
        let (x, y) = bucket_step(a, c, i, &dp.bounds[i], dp);
        a = x; c = y; i += 1;
    }
    (a, c)
}
//@fn opentelemetry-prometheus/src/lib.rs fn add_histogram_metric
//@subst dp.bounds.iter().enumerate().fold($$i, |(mut acc, mut count), (i, bound)| $$b,) ~> fold_buckets(dp, $$i)
//@contract
    requires hist_ok(*histogram)
    ensures gs(final(res)@) == gs(old(res)@) + hist_gs(*histogram, description@, lps(extra@), name@, histogram.data_points@.len() as int)
//@start
    proof { assert(gs(res@) =~= gs(res@) + hist_gs(*histogram, description@, lps(extra@), name@, 0)); }
//@loop 0
    invariant di <= histogram.data_points@.len(), hist_ok(*histogram), gs(res@) == gs(old(res)@) + hist_gs(*histogram, description@, lps(extra@), name@, di as int)
    decreases histogram.data_points@.len() - di
//@inloop 0
    let ghost r0 = res@;
//@endinloop 0
    proof { gs_push(r0, res@.last()); assert(res@ == r0.push(res@.last())); assert(gs(res@) =~= gs(old(res)@) + hist_gs(*histogram, description@, lps(extra@), name@, di as int)); }
//@endfn
//@fn opentelemetry-prometheus/src/lib.rs fn add_sum_metric
//@contract
    ensures gs(final(res)@) == gs(old(res)@) + sum_gs(*sum, description@, lps(extra@), name@, sum.data_points@.len() as int)
//@start
    proof { assert(gs(res@) =~= gs(res@) + sum_gs(*sum, description@, lps(extra@), name@, 0)); }
//@loop 0
    invariant di <= sum.data_points@.len(), metric_type == (if sum.is_monotonic { MetricType::COUNTER } else { MetricType::GAUGE }), gs(res@) == gs(old(res)@) + sum_gs(*sum, description@, lps(extra@), name@, di as int)
    decreases sum.data_points@.len() - di
//@inloop 0
    let ghost r0 = res@;
//@endinloop 0
    proof { gs_push(r0, res@.last()); assert(res@ == r0.push(res@.last())); assert(gs(res@) =~= gs(old(res)@) + sum_gs(*sum, description@, lps(extra@), name@, di as int)); }
//@endfn
//@fn opentelemetry-prometheus/src/lib.rs fn add_gauge_metric
//@contract
    ensures gs(final(res)@) == gs(old(res)@) + gauge_gs(*gauge, description@, lps(extra@), name@, gauge.data_points@.len() as int)
//@start
    proof { assert(gs(res@) =~= gs(res@) + gauge_gs(*gauge, description@, lps(extra@), name@, 0)); }
//@loop 0
    invariant di <= gauge.data_points@.len(), gs(res@) == gs(old(res)@) + gauge_gs(*gauge, description@, lps(extra@), name@, di as int)
    decreases gauge.data_points@.len() - di
//@inloop 0
    let ghost r0 = res@;
//@endinloop 0
    proof { gs_push(r0, res@.last()); assert(res@ == r0.push(res@.last())); assert(gs(res@) =~= gs(old(res)@) + gauge_gs(*gauge, description@, lps(extra@), name@, di as int)); }
//@endfn
//@item opentelemetry-prometheus/src/lib.rs const TARGET_INFO_NAME
//@item opentelemetry-prometheus/src/lib.rs const TARGET_INFO_DESCRIPTION
//@item opentelemetry-prometheus/src/lib.rs const SCOPE_INFO_METRIC_NAME
//@item opentelemetry-prometheus/src/lib.rs const SCOPE_INFO_DESCRIPTION
//@item opentelemetry-prometheus/src/lib.rs const COUNTER_SUFFIX
//@fn opentelemetry-prometheus/src/lib.rs const SCOPE_INFO_KEYS
//@sig fn scope_info_keys() -> (r: [&'static str; 2])
//@contract
    ensures r@.len() == 2, r@[0]@ == "otel_scope_name"@, r@[1]@ == "otel_scope_version"@
//@endfn
spec fn info_g(name: Seq<char>, help: Seq<char>, labels: Seq<L>) -> G { G { name, help, ty: MetricType::GAUGE, labels, v: V::Gauge(f_one()) } }
spec fn target_g(r: Resource) -> G { info_g("target_info"@, "Target metadata"@, attr_labels(entries(r))) }
spec fn who(s: InstrumentationScope) -> Seq<L> { seq![("otel_scope_name"@, scope_name(s))] + (match scope_version(s) { Some(v) => seq![("otel_scope_version"@, v)], None => Seq::empty() }) }
spec fn scope_g(s: InstrumentationScope) -> G { info_g("otel_scope_info"@, "Instrumentation Scope metadata"@, who(s)) }
//@fn opentelemetry-prometheus/src/lib.rs fn create_info_metric
//@ret r
//@contract
    ensures g(r) == info_g(target_info_name@, target_info_description@, attr_labels(entries(*resource)))
//@start
    proof { assert forall|x: Seq<L>| #[trigger] (x + Seq::<L>::empty()) == x by { assert(x + Seq::<L>::empty() =~= x); } }
//@endfn
//@fn opentelemetry-prometheus/src/lib.rs fn create_scope_info_metric
//@ret r
//@contract
    ensures g(r) == scope_g(*scope)
//@before let mut m = PMetric::default();
    proof { assert(lps(labels@) =~= who(*scope)); }
//@endfn

// ---- the collector ----
#[verifier::external_body] struct MErr { _p: u8 }
#[verifier::external_body] struct Reader { _p: u8 }
uninterp spec fn reader_resource(r: Reader) -> Resource;
spec fn rm_ok(m: ResourceMetrics) -> bool { forall|i: int, j: int| 0 <= i < m.scope_metrics@.len() && 0 <= j < m.scope_metrics@[i].metrics@.len() ==> data_ok((#[trigger] m.scope_metrics@[i].metrics@[j]).data) }
spec fn data_ok(d: Data) -> bool { match d { Data::HI(h) => hist_ok(h), Data::HU(h) => hist_ok(h), Data::HF(h) => hist_ok(h), _ => true } }
impl Reader {
    /// what a scrape sees is up to the SDK; its resource is fixed once registered
    #[verifier::external_body] fn collect(&self, m: &mut ResourceMetrics, seen: &mut Ghost<(nat, Option<Seq<ScopeMetrics>>)>) -> (r: Result<(), MErr>) ensures r is Ok ==> final(m).resource == reader_resource(*self) && rm_ok(*final(m)), final(seen)@ == (old(seen)@.0 + 1, if r is Ok { Some(final(m).scope_metrics@) } else { None }) { unimplemented!() }
}
struct Once<T> { v: Option<T> }
impl<T> Once<T> {
    fn new() -> (r: Self) ensures r.v is None { Once { v: None } }
    fn has(&self) -> (r: bool) ensures r == (self.v is Some) { self.v.is_some() }
    fn put(&mut self, x: T) ensures final(self).v == Some(x) { self.v = Some(x); }
    fn get(&self) -> (r: &T) requires self.v is Some ensures Some(*r) == self.v { self.v.as_ref().unwrap() }
}
#[verifier::external_body] struct Lock { _p: u8 }
struct FamMap { _p: u8, m: Ghost<Map<Seq<char>, MetricFamily>> }
impl FamMap {
    #[verifier::external_body] fn get(&self, k: &str) -> (r: Option<&MetricFamily>) ensures match r { Some(f) => self.m@.contains_key(k@) && self.m@[k@] == *f, None => !self.m@.contains_key(k@) } { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, k: String, f: MetricFamily) ensures final(self).m@ == old(self).m@.insert(k@, f) { unimplemented!() }
}
struct ScopeMap { _p: u8, m: Ghost<Map<InstrumentationScope, MetricFamily>> }
impl ScopeMap {
    spec fn fine(&self) -> bool { forall|s: InstrumentationScope| #[trigger] self.m@.contains_key(s) ==> g(self.m@[s]) == scope_g(s) }
    #[verifier::external_body] fn get(&self, k: &InstrumentationScope) -> (r: Option<&MetricFamily>) ensures match r { Some(f) => self.m@.contains_key(*k) && self.m@[*k] == *f, None => !self.m@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, k: InstrumentationScope, f: &MetricFamily) ensures final(self).m@.dom() == old(self).m@.dom().insert(k), g(final(self).m@[k]) == g(*f), forall|s: InstrumentationScope| s != k && #[trigger] old(self).m@.contains_key(s) ==> final(self).m@[s] == old(self).m@[s] { unimplemented!() }
}
/// HashMap::entry(k).or_insert_with_key(create_scope_info_metric), cloned
fn scope_entry(m: &mut ScopeMap, k: InstrumentationScope) -> (r: MetricFamily) requires old(m).fine() ensures final(m).fine(), g(r) == scope_g(k) {
    if let Some(f) = m.get(&k) { return f.clone(); }
    let f = create_scope_info_metric(&k);
    m.insert(k, &f);
    f
}
//@gsubst HashMap<InstrumentationScope, MetricFamily> ~> ScopeMap
//@gsubst HashMap<String, MetricFamily> ~> FamMap
//@gsubst Arc<ManualReader> ~> Reader
//@gsubst OnceCell<$$t> ~> Once<$$t>
//@gsubst Mutex<CollectorInner> ~> Lock
//@gsubst Lazy::new(|| { $$b }) ~> { $$b }
//@gsubst TypeId::of::<$$t>() ~> <$$t as Typed>::ty()
//@gsubst $d.downcast_ref::<$$t>() ~> <$$t as Typed>::of($d)
//@gsubst HISTOGRAM_TYPES.contains($$x) ~> has_type(&histogram_types(), $$x)
//@gsubst SUM_TYPES.contains($$x) ~> has_type(&sum_types(), $$x)
//@gsubst GAUGE_TYPES.contains($$x) ~> has_type(&gauge_types(), $$x)
//@gsubst $h.unwrap_or_else(|| $$d) ~> match $h { Some(h) => h, None => $$d }
//@gsubst validate_metrics(&$a, &$$b, $c, mfs) ~> validate_metrics($a.as_str(), $$b.as_str(), $c, &mut inner.metric_families)
//@gsubst let mfs = &mut inner.metric_families; ~>
//@gsubst &scope_labels ~> scope_labels.as_slice()
//@item opentelemetry-prometheus/src/lib.rs struct Collector
//@item opentelemetry-prometheus/src/lib.rs struct CollectorInner
//@fn opentelemetry-prometheus/src/lib.rs static HISTOGRAM_TYPES
//@sig fn histogram_types() -> (r: [TypeId; 3])
//@contract
    ensures r@ =~= seq![TypeId::HI, TypeId::HU, TypeId::HF]
//@endfn
//@fn opentelemetry-prometheus/src/lib.rs static SUM_TYPES
//@sig fn sum_types() -> (r: [TypeId; 3])
//@contract
    ensures r@ =~= seq![TypeId::SI, TypeId::SU, TypeId::SF]
//@endfn
//@fn opentelemetry-prometheus/src/lib.rs static GAUGE_TYPES
//@sig fn gauge_types() -> (r: [TypeId; 3])
//@contract
    ensures r@ =~= seq![TypeId::GI, TypeId::GU, TypeId::GF]
//@endfn
/// <[TypeId]>::contains
fn has_type(v: &[TypeId; 3], t: &TypeId) -> (r: bool) ensures r == (v@[0] == *t || v@[1] == *t || v@[2] == *t) { v[0] == *t || v[1] == *t || v[2] == *t }
spec fn prefix(c: Collector) -> Seq<char> { match c.namespace { Some(n) => n@, None => Seq::empty() } }
/// namespace, cleaned name, unit
spec fn base_name(c: Collector, m: Metric) -> Seq<char> {
    prefix(c) + clean(m.name@) + (if c.without_units { Seq::empty() } else { match suffix(m.unit@) { Some(u) => "_"@ + u, None => Seq::empty() } })
}
spec fn monotonic(d: Data) -> bool { match d { Data::SI(s) => s.is_monotonic, Data::SU(s) => s.is_monotonic, Data::SF(s) => s.is_monotonic, _ => false } }
spec fn named(c: Collector, m: Metric) -> Option<(MetricType, Seq<char>)> {
    match m.data {
        Data::HI(_) | Data::HU(_) | Data::HF(_) => Some((MetricType::HISTOGRAM, base_name(c, m))),
        Data::GI(_) | Data::GU(_) | Data::GF(_) => Some((MetricType::GAUGE, base_name(c, m))),
        Data::SI(_) | Data::SU(_) | Data::SF(_) => if monotonic(m.data) { Some((MetricType::COUNTER, if c.without_counter_suffixes { base_name(c, m) } else { base_name(c, m) + "_total"@ })) } else { Some((MetricType::GAUGE, base_name(c, m))) },
        Data::Other => None,
    }
}
impl Collector {
//@fn opentelemetry-prometheus/src/lib.rs impl ! Collector :: fn get_name
//@ret r
//@contract
    ensures r@ == base_name(*self, *m)
//@start
    proof {
        let p = prefix(*self); let n = clean(m.name@); let e = Seq::<char>::empty();
        assert(e + n =~= n); assert(n + e =~= n); assert(p + n + e =~= p + n);
        if let Some(u) = suffix(m.unit@) { assert(p + n + ("_"@ + u) =~= p + n + "_"@ + u); assert(n + ("_"@ + u) =~= n + "_"@ + u); assert(e + n + ("_"@ + u) =~= n + "_"@ + u); }
    }
//@endfn
//@fn opentelemetry-prometheus/src/lib.rs impl ! Collector :: fn metric_type_and_name
//@ret r
//@contract
    ensures match r { Some((t, n)) => named(*self, *m) == Some((t, n@)), None => named(*self, *m) is None }
//@endfn
}
spec fn kept_for(m: Map<Seq<char>, MetricFamily>) -> Map<Seq<char>, (MetricType, Seq<char>)> { m.map_values(|f: MetricFamily| (f.ty, f.help@)) }
//@fn opentelemetry-prometheus/src/lib.rs fn validate_metrics
//@sig fn validate_metrics(name: &str, description: &str, metric_type: MetricType, mfs: &mut FamMap) -> (bool, Option<String>)
//@ret r
//@subst $a.help() != $b ~> !same_text($a.help(), $b)
//@contract
    ensures kept_for(final(mfs).m@) == after(kept_for(old(mfs).m@), metric_type, name@, description@),
        r.0 == !fits(kept_for(old(mfs).m@), metric_type, name@),
        !r.0 ==> (match r.1 { Some(h) => h@, None => description@ }) == kept_for(final(mfs).m@)[name@].1
//@after mfs.insert(
    proof { assert(kept_for(mfs.m@) =~= kept_for(old(mfs).m@).insert(name@, (metric_type, description@))); }
//@endfn
/// the type and help of a name are those of its first metric; a metric of another type is left out
type Names = Map<Seq<char>, (MetricType, Seq<char>)>;
spec fn fits(k: Names, t: MetricType, name: Seq<char>) -> bool { k.contains_key(name) ==> k[name].0 == t }
spec fn after(k: Names, t: MetricType, name: Seq<char>, help: Seq<char>) -> Names { if k.contains_key(name) { k } else { k.insert(name, (t, help)) } }
spec fn points(d: Data, help: Seq<char>, l: Seq<L>, name: Seq<char>) -> Seq<G> {
    match d {
        Data::HI(h) => hist_gs(h, help, l, name, h.data_points@.len() as int), Data::HU(h) => hist_gs(h, help, l, name, h.data_points@.len() as int), Data::HF(h) => hist_gs(h, help, l, name, h.data_points@.len() as int),
        Data::SI(h) => sum_gs(h, help, l, name, h.data_points@.len() as int), Data::SU(h) => sum_gs(h, help, l, name, h.data_points@.len() as int), Data::SF(h) => sum_gs(h, help, l, name, h.data_points@.len() as int),
        Data::GI(h) => gauge_gs(h, help, l, name, h.data_points@.len() as int), Data::GU(h) => gauge_gs(h, help, l, name, h.data_points@.len() as int), Data::GF(h) => gauge_gs(h, help, l, name, h.data_points@.len() as int),
        Data::Other => Seq::empty(),
    }
}
spec fn metric_step(c: Collector, k: Names, m: Metric, l: Seq<L>) -> (Names, Seq<G>) {
    match named(c, m) { None => (k, Seq::empty()), Some((t, n)) => { let k2 = after(k, t, n, m.description@); (k2, if fits(k, t, n) { points(m.data, k2[n].1, l, n) } else { Seq::empty() }) } }
}
spec fn metrics_run(c: Collector, k: Names, ms: Seq<Metric>, l: Seq<L>, n: int) -> (Names, Seq<G>) decreases n {
    if n <= 0 { (k, Seq::empty()) } else { let a = metrics_run(c, k, ms, l, n - 1); let b = metric_step(c, a.0, ms[n - 1], l); (b.0, a.1 + b.1) }
}
spec fn scope_labels_of(c: Collector, s: InstrumentationScope, rl: Seq<L>) -> Seq<L> { (if c.disable_scope_info { Seq::empty() } else { who(s) }) + rl }
spec fn scope_head(c: Collector, s: InstrumentationScope) -> Seq<G> { if !c.disable_scope_info && scope_attributes(s) > 0 { seq![scope_g(s)] } else { Seq::empty() } }
spec fn scopes_run(c: Collector, k: Names, ss: Seq<ScopeMetrics>, rl: Seq<L>, n: int) -> (Names, Seq<G>) decreases n {
    if n <= 0 { (k, Seq::empty()) } else {
        let a = scopes_run(c, k, ss, rl, n - 1);
        let s = ss[n - 1];
        let b = metrics_run(c, a.0, s.metrics@, scope_labels_of(c, s.scope, rl), s.metrics@.len() as int);
        (b.0, a.1 + scope_head(c, s.scope) + b.1) }
}
spec fn target_head(c: Collector, r: Resource) -> Seq<G> { if !c.disable_target_info && entries(r).len() > 0 { seq![target_g(r)] } else { Seq::empty() } }
/// a scrape: every family with its name, help, type, labels and value
spec fn scrape(c: Collector, k: Names, ss: Seq<ScopeMetrics>) -> (Names, Seq<G>) {
    let r = reader_resource(c.reader);
    let a = scopes_run(c, k, ss, selected(c.resource_selector, r), ss.len() as int);
    (a.0, target_head(c, r) + a.1)
}
impl Collector {
spec fn caches(&self, inner: CollectorInner, o1: Once<MetricFamily>, o2: Once<Vec<LabelPair>>) -> bool {
    &&& inner.scope_infos.fine()
    &&& match o1.v { Some(f) => g(f) == target_g(reader_resource(self.reader)), None => true }
    &&& match o2.v { Some(v) => lps(v@) == selected(self.resource_selector, reader_resource(self.reader)), None => true }
}
//@fn opentelemetry-prometheus/src/lib.rs impl prometheus::core::Collector for Collector :: fn collect
//@sig #[verifier::loop_isolation(false)] fn collect(&self, inner: &mut CollectorInner, o1: &mut Once<MetricFamily>, o2: &mut Once<Vec<LabelPair>>, seen: &mut Ghost<(nat, Option<Seq<ScopeMetrics>>)>, poisoned: bool) -> Vec<MetricFamily>
//@ret r
//@subst let mut inner = match self.inner.lock() { Ok(guard) => guard, Err(err) => { $$x } }; ~> if poisoned { $$x }
//@subst Resource::builder_empty().build() ~> Resource::empty()
//@subst vec![] ~> Vec::new()
//@subst self.reader.collect(&mut metrics) ~> self.reader.collect(&mut metrics, seen)
//@subst self.create_target_info_once.get_or_init(|| { $$b }); ~> { if !o1.has() { o1.put({ $$b }); } o1.get() };
//@subst self.resource_labels_once.get_or_init(|| $$b); ~> { if !o2.has() { o2.put($$b); } o2.get() };
//@subst inner.scope_infos.entry($$k).or_insert_with_key(create_scope_info_metric); ~> scope_entry(&mut inner.scope_infos, $$k);
//@subst scope_info.clone() ~> scope_info
//@subst extend_labels(&mut labels, resource_labels.as_slice()) ~> extend_labels(&mut labels, resource_labels.as_slice())
//@subst resource_labels.clone() ~> copy_labels(resource_labels)
//@subst for metrics in scope_metrics.metrics { $$b } ~> let mut mi: usize = 0; while mi < scope_metrics.metrics.len() { let metrics = &scope_metrics.metrics[mi]; mi += 1; $$b }
//@subst for scope_metrics in metrics.scope_metrics { $$b } ~> let all = metrics.scope_metrics; let mut si: usize = 0; while si < all.len() { let scope_metrics = &all[si]; si += 1; $$b }
//@subst self.metric_type_and_name(&metrics) ~> self.metric_type_and_name(metrics)
//@contract
    requires self.caches(*old(inner), *old(o1), *old(o2))
    ensures self.caches(*final(inner), *final(o1), *final(o2)),
        poisoned ==> r@.len() == 0 && *final(inner) == *old(inner),
        !poisoned ==> final(seen)@.0 == old(seen)@.0 + 1 && match final(seen)@.1 {
            None => r@.len() == 0 && kept_for(final(inner).metric_families.m@) == kept_for(old(inner).metric_families.m@),
            Some(ss) => scrape(*self, kept_for(old(inner).metric_families.m@), ss) == (kept_for(final(inner).metric_families.m@), gs(r@)) }
//@start
    proof { assert forall|v: Seq<MetricFamily>| v.len() == 0 implies #[trigger] gs(v) == Seq::<G>::empty() by { assert(gs(v) =~= Seq::<G>::empty()); } }
    let ghost k0 = kept_for(inner.metric_families.m@);
//@beforeloop 0
    let ghost rl = selected(self.resource_selector, reader_resource(self.reader));
    let ghost ss = all@;
    let ghost head = target_head(*self, reader_resource(self.reader));
    proof { assert(gs(res@) =~= head); assert(head + Seq::<G>::empty() =~= head); }
//@loop 0
    invariant si <= all@.len(), all@ == ss, seen@ == (old(seen)@.0 + 1, Some(ss)), inner.scope_infos.fine(), lps(resource_labels@) == rl, rm_ok0(ss),
        (kept_for(inner.metric_families.m@), gs(res@)) == (scopes_run(*self, k0, ss, rl, si as int).0, head + scopes_run(*self, k0, ss, rl, si as int).1)
    decreases all@.len() - si
//@inloop 0
    let ghost rs = gs(res@); let ghost ks = kept_for(inner.metric_families.m@); let ghost res00 = res@;
//@beforeloop 1
    let ghost sl = lps(scope_labels@);
    let ghost sh = scope_head(*self, scope_metrics.scope);
    proof {
        assert(sl =~= scope_labels_of(*self, scope_metrics.scope, rl));
        assert(gs(res@) =~= rs + sh); assert(gs(res@) =~= rs + sh + Seq::<G>::empty());
    }
//@loop 1
    invariant mi <= scope_metrics.metrics@.len(), inner.scope_infos.fine(),
        (kept_for(inner.metric_families.m@), gs(res@)) == (metrics_run(*self, ks, scope_metrics.metrics@, sl, mi as int).0, rs + sh + metrics_run(*self, ks, scope_metrics.metrics@, sl, mi as int).1)
    decreases scope_metrics.metrics@.len() - mi
//@inloop 1
    let ghost before = gs(res@);
    proof { assert(ss[si - 1] == *scope_metrics); assert(data_ok(ss[si - 1].metrics@[mi as int].data));
        let a = metrics_run(*self, ks, scope_metrics.metrics@, sl, mi as int);
        assert(a.1 + Seq::<G>::empty() =~= a.1); assert(before + Seq::<G>::empty() =~= before);
        assert forall|x: Seq<G>| #[trigger] (rs + sh + a.1 + x) == rs + sh + (a.1 + x) by { assert(rs + sh + a.1 + x =~= rs + sh + (a.1 + x)); }
    }
//@afterloop 1
    proof {
        let a = scopes_run(*self, k0, ss, rl, si - 1);
        let b = metrics_run(*self, ks, scope_metrics.metrics@, sl, scope_metrics.metrics@.len() as int);
        assert(head + (a.1 + sh + b.1) =~= head + a.1 + sh + b.1);
    }
//@endfn
}
spec fn rm_ok0(ss: Seq<ScopeMetrics>) -> bool { forall|i: int, j: int| 0 <= i < ss.len() && 0 <= j < ss[i].metrics@.len() ==> data_ok((#[trigger] ss[i].metrics@[j]).data) }

// ---- what the names and types come to ----
spec fn name_ok(n: Seq<char>) -> bool { forall|i: int| 0 <= i < n.len() ==> name_char(#[trigger] n[i]) }
proof fn clean_ok(s: Seq<char>) ensures name_ok(clean(s)), s.len() > 0 ==> clean(s).len() > 0 && !digit(clean(s)[0]) { assert(clean(s).len() >= s.len()); if s.len() > 0 && !digit(s[0]) { assert(clean(s)[0] == fix(s[0])); } }
/// what is kept for a name never changes
proof fn kept_step(c: Collector, k: Names, m: Metric, l: Seq<L>, n: Seq<char>) requires k.contains_key(n) ensures metric_step(c, k, m, l).0.contains_key(n) && metric_step(c, k, m, l).0[n] == k[n] {}
proof fn kept_metrics(c: Collector, k: Names, ms: Seq<Metric>, l: Seq<L>, i: int, n: Seq<char>) requires k.contains_key(n) ensures metrics_run(c, k, ms, l, i).0.contains_key(n) && metrics_run(c, k, ms, l, i).0[n] == k[n] decreases i {
    if i > 0 { kept_metrics(c, k, ms, l, i - 1, n); kept_step(c, metrics_run(c, k, ms, l, i - 1).0, ms[i - 1], l, n); }
}
proof fn kept_scopes(c: Collector, k: Names, ss: Seq<ScopeMetrics>, rl: Seq<L>, i: int, n: Seq<char>) requires k.contains_key(n) ensures scopes_run(c, k, ss, rl, i).0.contains_key(n) && scopes_run(c, k, ss, rl, i).0[n] == k[n] decreases i {
    if i > 0 { kept_scopes(c, k, ss, rl, i - 1, n); let s = ss[i - 1]; kept_metrics(c, scopes_run(c, k, ss, rl, i - 1).0, s.metrics@, scope_labels_of(c, s.scope, rl), s.metrics@.len() as int, n); }
}
/// everything exported under a name has the type and help kept for it
spec fn agrees(k: Names, x: G) -> bool { k.contains_key(x.name) && k[x.name] == (x.ty, x.help) }
proof fn step_agrees(c: Collector, k: Names, m: Metric, l: Seq<L>, i: int) requires 0 <= i < metric_step(c, k, m, l).1.len() ensures agrees(metric_step(c, k, m, l).0, metric_step(c, k, m, l).1[i]) {}
proof fn metrics_agree(c: Collector, k: Names, ms: Seq<Metric>, l: Seq<L>, n: int, i: int) requires 0 <= i < metrics_run(c, k, ms, l, n).1.len() ensures agrees(metrics_run(c, k, ms, l, n).0, metrics_run(c, k, ms, l, n).1[i]) decreases n {
    if n > 0 {
        let a = metrics_run(c, k, ms, l, n - 1); let b = metric_step(c, a.0, ms[n - 1], l);
        if i < a.1.len() { metrics_agree(c, k, ms, l, n - 1, i); kept_step(c, a.0, ms[n - 1], l, a.1[i].name); } else { step_agrees(c, a.0, ms[n - 1], l, i - a.1.len()); }
    }
}

// ---- the builder (config.rs) ----
#[verifier::external_body] struct ManualReaderBuilder { _p: u8 }
uninterp spec fn built_reader(b: ManualReaderBuilder) -> Reader;
impl ManualReaderBuilder { #[verifier::external_body] fn build(self) -> (r: Reader) ensures r == built_reader(self) { unimplemented!() } }
uninterp spec fn reader_copy(r: Reader) -> Reader;
/// Arc::clone: the same reader
#[verifier::external_body] fn arc_clone(r: &Reader) -> (x: Reader) ensures x == *r { unimplemented!() }
#[verifier::external_body] struct Registry { _p: u8 }
#[verifier::external_body] fn or_default(r: Option<Registry>) -> (x: Registry) ensures r matches Some(y) ==> x == y { unimplemented!() }
impl Registry {
    #[verifier::external_body] fn register(&self, c: Collector, log: &mut Ghost<Seq<(Registry, Collector)>>) -> (r: Result<(), MErr>) ensures r is Ok ==> final(log)@ == old(log)@.push((*self, c)), r is Err ==> final(log)@ == old(log)@ { unimplemented!() }
}
#[verifier::external_body] fn new_lock() -> Lock { unimplemented!() }
fn ends_with(s: &String, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == c) { let v = chars_of(s.as_str()); v.len() > 0 && v[v.len() - 1] == c }
#[verifier::external_body] fn push_char(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
//@gsubst prometheus::Registry ~> Registry
//@gsubst MetricResult<$$t> ~> Result<$$t, MErr>
//@item opentelemetry-prometheus/src/config.rs struct ExporterBuilder
//@item opentelemetry-prometheus/src/lib.rs struct PrometheusExporter
spec fn spaced(n: Seq<char>) -> Seq<char> { if n.len() > 0 && n.last() == '_' { n } else { n.push('_') } }
impl ExporterBuilder {
//@fn opentelemetry-prometheus/src/config.rs impl ExporterBuilder :: fn without_units
//@sig fn without_units(self0: Self) -> Self
//@ret r
//@subst self ~> slf
//@start
    let mut slf = self0;
//@contract
    ensures r == (ExporterBuilder { without_units: true, ..self0 })
//@endfn
//@fn opentelemetry-prometheus/src/config.rs impl ExporterBuilder :: fn without_counter_suffixes
//@sig fn without_counter_suffixes(self0: Self) -> Self
//@ret r
//@subst self ~> slf
//@start
    let mut slf = self0;
//@contract
    ensures r == (ExporterBuilder { without_counter_suffixes: true, ..self0 })
//@endfn
//@fn opentelemetry-prometheus/src/config.rs impl ExporterBuilder :: fn without_target_info
//@sig fn without_target_info(self0: Self) -> Self
//@ret r
//@subst self ~> slf
//@start
    let mut slf = self0;
//@contract
    ensures r == (ExporterBuilder { disable_target_info: true, ..self0 })
//@endfn
//@fn opentelemetry-prometheus/src/config.rs impl ExporterBuilder :: fn without_scope_info
//@sig fn without_scope_info(self0: Self) -> Self
//@ret r
//@subst self ~> slf
//@start
    let mut slf = self0;
//@contract
    ensures r == (ExporterBuilder { disable_scope_info: true, ..self0 })
//@endfn
//@fn opentelemetry-prometheus/src/config.rs impl ExporterBuilder :: fn with_namespace
//@sig fn with_namespace(self0: Self, namespace: &str) -> Self
//@ret r
//@subst self ~> slf
//@subst let mut namespace = namespace.show(); ~> let mut ns = namespace.show();
//@subst namespace.ends_with($$c) ~> ends_with(&ns, $$c)
//@subst namespace.push($$c) ~> push_char(&mut ns, $$c)
//@subst Some(namespace) ~> Some(ns)
//@start
    let mut slf = self0;
//@contract
    ensures r.namespace is Some, r.namespace->Some_0@ == spaced(namespace@), r == (ExporterBuilder { namespace: r.namespace, ..self0 })
//@endfn
//@fn opentelemetry-prometheus/src/config.rs impl ExporterBuilder :: fn with_registry
//@sig fn with_registry(self0: Self, registry: Registry) -> Self
//@ret r
//@subst self ~> slf
//@start
    let mut slf = self0;
//@contract
    ensures r == (ExporterBuilder { registry: Some(registry), ..self0 })
//@endfn
//@fn opentelemetry-prometheus/src/config.rs impl ExporterBuilder :: fn with_resource_selector
//@sig fn with_resource_selector(self0: Self, resource_selector: ResourceSelector) -> Self
//@ret r
//@subst self ~> slf
//@subst resource_selector.show() ~> resource_selector
//@start
    let mut slf = self0;
//@contract
    ensures r == (ExporterBuilder { resource_selector, ..self0 })
//@endfn
//@fn opentelemetry-prometheus/src/config.rs impl ExporterBuilder :: fn build
//@sig fn build(self, log: &mut Ghost<Seq<(Registry, Collector)>>) -> Result<PrometheusExporter, MErr>
//@ret r
//@subst Arc::new($$x) ~> $$x
//@subst Arc::clone(&$r) ~> arc_clone(&$r)
//@subst OnceCell::new() ~> Once::new()
//@subst Mutex::new(Default::default()) ~> new_lock()
//@subst self.registry.unwrap_or_default() ~> or_default(self.registry)
//@subst registry.register(Box::new(collector)).map_err(|e| $$f)? ~> match registry.register(collector, log) { Ok(_) => {} Err(e) => { return Err(e); } }
//@contract
    ensures match r {
        Err(_) => final(log)@ == old(log)@,
        Ok(x) => final(log)@.len() == old(log)@.len() + 1 && final(log)@.drop_last() == old(log)@ && x.reader == built_reader(self.reader) && registered(self, final(log)@.last()) }
//@start
    proof { assert forall|s: Seq<(Registry, Collector)>, x: (Registry, Collector)| #[trigger] s.push(x).drop_last() == s by { assert(s.push(x).drop_last() =~= s); } }
//@endfn
}
/// the collector reads the exporter's reader, under the builder's settings
spec fn registered(b: ExporterBuilder, x: (Registry, Collector)) -> bool {
    let c = x.1;
    &&& b.registry matches Some(r) ==> x.0 == r
    &&& c.reader == built_reader(b.reader)
    &&& c.disable_target_info == b.disable_target_info && c.without_units == b.without_units && c.without_counter_suffixes == b.without_counter_suffixes && c.disable_scope_info == b.disable_scope_info
    &&& c.namespace == b.namespace && c.resource_selector == b.resource_selector
    &&& c.create_target_info_once.v is None && c.resource_labels_once.v is None
}

#[verifier::external_body] struct InstrumentKind { _p: u8 }
enum Temporality { Cumulative, Delta, LowMemory }
impl PrometheusExporter {
//@fn opentelemetry-prometheus/src/lib.rs impl MetricReader for PrometheusExporter :: fn temporality
//@ret r
//@contract
    ensures r is Cumulative
//@endfn
}
}
fn main() {}

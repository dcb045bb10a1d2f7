// Unit: resources (opentelemetry-sdk/src/resource/{mod,env,telemetry}.rs): merging, schema URLs, detectors, the builder.
use vstd::prelude::*;
verus! {
#[verifier::external_body] #[derive(Clone, Copy)] struct Text { _p: u8 }
#[verifier::external_body] struct Key { _p: u8 }
#[verifier::external_body] struct Value { _p: u8 }
uninterp spec fn key_of(t: Text) -> Key;
uninterp spec fn val_of(t: Text) -> Value;
uninterp spec fn lit_of(s: &str) -> Text;
#[verifier::external_body] fn lit(s: &str) -> (r: Text) ensures r == lit_of(s) { unimplemented!() }
impl Key {
    #[verifier::external_body] fn clone(&self) -> (r: Key) ensures r == *self { unimplemented!() }
    #[verifier::external_body] fn new(t: Text) -> (r: Key) ensures r == key_of(t) { unimplemented!() }
}
fn same_key(k: Key) -> (r: Key) ensures r == k { k }
impl Value {
    #[verifier::external_body] fn clone(&self) -> (r: Value) ensures r == *self { unimplemented!() }
    #[verifier::external_body] fn from(t: Text) -> (r: Value) ensures r == val_of(t) { unimplemented!() }
    fn into(self) -> (r: Value) ensures r == self { self }
}
struct KeyValue { key: Key, value: Value }
trait AsKey { spec fn k(&self) -> Key; fn key(self) -> (r: Key) ensures r == self.k(); }
impl AsKey for Text { spec fn k(&self) -> Key { key_of(*self) } fn key(self) -> (r: Key) { Key::new(self) } }
trait AsVal { spec fn v(&self) -> Value; fn val(self) -> (r: Value) ensures r == self.v(); }
impl AsVal for Text { spec fn v(&self) -> Value { val_of(*self) } fn val(self) -> (r: Value) { Value::from(self) } }
impl AsVal for Value { spec fn v(&self) -> Value { *self } fn val(self) -> (r: Value) { self } }
impl KeyValue { fn new<K: AsKey, V: AsVal>(k: K, v: V) -> (r: KeyValue) ensures r.key == k.k(), r.value == v.v() { KeyValue { key: k.key(), value: v.val() } } }

// ---- maps ----
struct Attrs { m: Ghost<Map<Key, Value>> }
spec fn lists(s: Seq<(Key, Value)>, m: Map<Key, Value>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] m.contains_key(s[i].0) && m[s[i].0] == s[i].1
    &&& forall|k: Key| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && s[i].0 == k
}
impl Attrs {
    #[verifier::external_body] fn new() -> (r: Attrs) ensures r.m@ == Map::<Key, Value>::empty() { unimplemented!() }
    #[verifier::external_body] fn clone(&self) -> (r: Attrs) ensures r.m@ == self.m@ { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, k: Key, v: Value) ensures final(self).m@ == old(self).m@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] fn pairs(&self) -> (r: Vec<(Key, Value)>) ensures lists(r@, self.m@) { unimplemented!() }
    #[verifier::external_body] fn len(&self) -> (r: usize) ensures r == self.m@.len() { unimplemented!() }
    #[verifier::external_body] fn is_empty(&self) -> (r: bool) ensures r == (self.m@ == Map::<Key, Value>::empty()) { unimplemented!() }
    #[verifier::external_body] fn get(&self, k: &Key) -> (r: Option<Value>) ensures r == (if self.m@.contains_key(*k) { Some(self.m@[*k]) } else { None }) { unimplemented!() }
}
//@gsubst HashMap::new() ~> Attrs::new()
//@gsubst Arc::new($$e) ~> $$e
//@gsubst .attrs.iter() ~> .attrs.pairs()
//@gsubst detected_res.into_iter() ~> detected_res.inner.attrs.pairs()
//@gsubst Arc::make_mut($$e) ~> $$e
spec fn put_all(m: Map<Key, Value>, s: Seq<KeyValue>) -> Map<Key, Value> decreases s.len() { if s.len() == 0 { m } else { put_all(m, s.drop_last()).insert(s.last().key, s.last().value) } }
proof fn put_step(m: Map<Key, Value>, s: Seq<KeyValue>, k: int) requires 0 <= k < s.len()
    ensures put_all(m, s.take(k + 1)) == put_all(m, s.take(k)).insert(s[k].key, s[k].value) { assert(s.take(k + 1).drop_last() =~= s.take(k)); }
/// the union in which b wins
spec fn over(a: Map<Key, Value>, b: Map<Key, Value>) -> Map<Key, Value> { a.union_prefer_right(b) }
/// what was inserted from the first k of the pairs
spec fn put_pairs(m: Map<Key, Value>, s: Seq<(Key, Value)>, k: int) -> Map<Key, Value> decreases k { if k <= 0 { m } else { put_pairs(m, s, k - 1).insert(s[k - 1].0, s[k - 1].1) } }
proof fn pairs_are(m: Map<Key, Value>, s: Seq<(Key, Value)>, b: Map<Key, Value>, k: int)
    requires lists(s, b), 0 <= k <= s.len()
    ensures forall|x: Key| #[trigger] put_pairs(m, s, k).contains_key(x) <==> m.contains_key(x) || exists|i: int| 0 <= i < k && s[i].0 == x,
        forall|x: Key| #[trigger] put_pairs(m, s, k).contains_key(x) ==> put_pairs(m, s, k)[x] == (if exists|i: int| 0 <= i < k && s[i].0 == x { b[x] } else { m[x] })
    decreases k
{
    if k > 0 {
        pairs_are(m, s, b, k - 1);
        let p = put_pairs(m, s, k - 1);
        assert forall|x: Key| #[trigger] put_pairs(m, s, k).contains_key(x) <==> m.contains_key(x) || exists|i: int| 0 <= i < k && s[i].0 == x by {
            if x == s[k - 1].0 {} else { assert(put_pairs(m, s, k).contains_key(x) == p.contains_key(x)); }
        }
        assert forall|x: Key| #[trigger] put_pairs(m, s, k).contains_key(x) implies put_pairs(m, s, k)[x] == (if exists|i: int| 0 <= i < k && s[i].0 == x { b[x] } else { m[x] }) by {
            assert(b.contains_key(s[k - 1].0));
            if x == s[k - 1].0 {} else {
                assert(p.contains_key(x));
                if exists|i: int| 0 <= i < k && s[i].0 == x { let i = choose|i: int| 0 <= i < k && s[i].0 == x; assert(i < k - 1); }
            }
        }
    }
}
proof fn pairs_all(m: Map<Key, Value>, s: Seq<(Key, Value)>, b: Map<Key, Value>) requires lists(s, b) ensures put_pairs(m, s, s.len() as int) =~= over(m, b) { 
    pairs_are(m, s, b, s.len() as int);
    assert forall|x: Key| #[trigger] over(m, b).contains_key(x) <==> put_pairs(m, s, s.len() as int).contains_key(x) by { if b.contains_key(x) { let i = choose|i: int| 0 <= i < s.len() && s[i].0 == x; assert(s[i].0 == x); } if exists|i: int| 0 <= i < s.len() && s[i].0 == x { let i = choose|i: int| 0 <= i < s.len() && s[i].0 == x; assert(b.contains_key(s[i].0)); } }
    assert forall|x: Key| #[trigger] over(m, b).contains_key(x) implies over(m, b)[x] == put_pairs(m, s, s.len() as int)[x] by { if b.contains_key(x) { let i = choose|i: int| 0 <= i < s.len() && s[i].0 == x; assert(s[i].0 == x); } else { if exists|i: int| 0 <= i < s.len() && s[i].0 == x { let i = choose|i: int| 0 <= i < s.len() && s[i].0 == x; assert(b.contains_key(s[i].0)); } } }
}

// ---- resources ----
#[verifier::external_body] struct Url { _p: u8 }
uninterp spec fn blank(u: Url) -> bool;
impl Url {
    #[verifier::external_body] fn clone(&self) -> (r: Url) ensures r == *self { unimplemented!() }
    #[verifier::external_body] fn is_empty(&self) -> (r: bool) ensures r == blank(*self) { unimplemented!() }
    fn into(self) -> (r: Url) ensures r == self { self }
}
#[verifier::external_body] fn same_url(a: &Url, b: &Url) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
struct ResourceInner { attrs: Attrs, schema_url: Option<Url> }
struct Resource { inner: ResourceInner }
/// the schema URL of two resources together
spec fn url(a: Option<Url>, b: Option<Url>) -> Option<Url> {
    match (a, b) { (Some(x), Some(y)) => if x == y { a } else { None }, (Some(x), None) => a, (None, _) => b }
}
ghost struct Res { m: Map<Key, Value>, u: Option<Url> }
spec fn merged(a: Res, b: Res) -> Res { Res { m: over(a.m, b.m), u: url(a.u, b.u) } }
spec fn nothing() -> Res { Res { m: Map::empty(), u: None } }
spec fn of_kvs(s: Seq<KeyValue>) -> Res { Res { m: put_all(Map::empty(), s), u: None } }
impl Resource {
    spec fn r(&self) -> Res { Res { m: self.inner.attrs.m@, u: self.inner.schema_url } }
    #[verifier::external_body] fn clone(&self) -> (r: Resource) ensures r.r() == self.r() { unimplemented!() }
    fn schema_url(&self) -> (r: Option<&Url>) ensures r is None == self.inner.schema_url is None { self.inner.schema_url.as_ref() }
//@fn opentelemetry-sdk/src/resource/mod.rs impl Resource :: fn empty
//@ret r
//@contract
    ensures r.r() == nothing(),
//@endfn
//@fn opentelemetry-sdk/src/resource/mod.rs impl Resource :: fn new
//@sig fn new(kvs: Vec<KeyValue>) -> Self
//@ret r
//@contract
    ensures r.r() == of_kvs(kvs@),      // of equal keys the last one counts
//@loop 0 it
        invariant it.seq() == kvs@, attrs.m@ == put_all(Map::empty(), kvs@.take(it.index@ as int)),
//@inloop 0
            proof { put_step(Map::empty(), kvs@, it.index@ as int); }
//@afterloop 0
        proof { assert(kvs@.take(kvs@.len() as int) =~= kvs@); }
//@endfn
//@fn opentelemetry-sdk/src/resource/mod.rs impl Resource :: fn from_schema_url
//@sig fn from_schema_url(kvs: Vec<KeyValue>, schema_url: Url) -> Self
//@ret r
//@contract
    ensures r.r() == (Res { u: if blank(schema_url) { None } else { Some(schema_url) }, ..of_kvs(kvs@) }),
//@loop 0 it
        invariant it.seq() == kvs@, attrs.m@ == put_all(Map::empty(), kvs@.take(it.index@ as int)),
//@inloop 0
            proof { put_step(Map::empty(), kvs@, it.index@ as int); }
//@afterloop 0
        proof { assert(kvs@.take(kvs@.len() as int) =~= kvs@); }
//@endfn
//@fn opentelemetry-sdk/src/resource/mod.rs impl Resource :: fn merge
//@sig fn merge(&self, other: &Resource) -> Self
//@subst url1 == url2 ~> same_url(url1, url2)
//@subst other.inner.attrs.pairs() ~> it0
//@subst k.clone(), v.clone() ~> k, v
//@start
        let ghost a0 = self.inner.attrs.m@; let ghost b0 = other.inner.attrs.m@;
        let it0 = other.inner.attrs.pairs();
        let ghost ps = it0@;
//@ret r
//@contract
    ensures
        // the union, the other's attributes winning, and the schema URL by the rules, for empty resources too
        r.r() == merged(self.r(), other.r()),
//@before if self.is_empty()
        proof { assert(over(Map::<Key, Value>::empty(), b0) =~= b0); assert(over(a0, Map::<Key, Value>::empty()) =~= a0); }
//@loop 0 it
        invariant it.seq() == ps, combined_attrs.m@ == put_pairs(a0, ps, it.index@ as int),
//@afterloop 0
        proof { pairs_all(a0, ps, b0); }
//@endfn
//@fn opentelemetry-sdk/src/resource/mod.rs impl Resource :: fn len
//@ret r
//@contract
    ensures r == self.inner.attrs.m@.len(),
//@endfn
//@fn opentelemetry-sdk/src/resource/mod.rs impl Resource :: fn is_empty
//@ret r
//@contract
    ensures r == (self.inner.attrs.m@ == Map::<Key, Value>::empty()),
//@endfn
//@fn opentelemetry-sdk/src/resource/mod.rs impl Resource :: fn get
//@subst .get(key).cloned() ~> .get(key)
//@ret r
//@contract
    ensures r == (if self.inner.attrs.m@.contains_key(*key) { Some(self.inner.attrs.m@[*key]) } else { None }),
//@endfn
//@fn opentelemetry-sdk/src/resource/mod.rs impl Resource :: fn from_detectors
//@sig fn from_detectors(detectors: &[Detector]) -> Self
//@ret r
//@contract
    ensures r.r() == all_of(detectors@),
//@loop 0 it
        invariant
            it.seq().len() == detectors@.len(), forall|i: int| 0 <= i < detectors@.len() ==> *(#[trigger] it.seq()[i]) == detectors@[i],
            resource.r() == all_of(detectors@.take(it.index@ as int)),
//@inloop 0
            proof { assert(detectors@.take(it.index@ + 1).drop_last() =~= detectors@.take(it.index@ as int)); }
//@afterloop 0
        proof { assert(detectors@.take(detectors@.len() as int) =~= detectors@); }
//@endfn
//@fn opentelemetry-sdk/src/resource/mod.rs impl Resource :: fn builder
//@subst? Box::new(SdkProvidedResourceDetector) ~> Detector::Sdk(SdkProvidedResourceDetector)
//@subst? Box::new(TelemetryResourceDetector) ~> Detector::Telemetry(TelemetryResourceDetector)
//@subst? Box::new(EnvResourceDetector::new()) ~> Detector::Env(EnvResourceDetector { p: 0 })
//@ret r
//@contract
    ensures
        // the environment's attributes, over the SDK's own description; the service name by its rule
        r.resource.r().u is None,
        forall|k: Key| #[trigger] r.resource.r().m.contains_key(k) <==> telemetry().m.contains_key(k) || env_res().m.contains_key(k) || k == service_key(),
        r.resource.r().m[service_key()] == service_name(),
        forall|k: Key| k != service_key() && #[trigger] env_res().m.contains_key(k) ==> r.resource.r().m[k] == env_res().m[k],
        forall|k: Key| k != service_key() && !env_res().m.contains_key(k) && #[trigger] telemetry().m.contains_key(k) ==> r.resource.r().m[k] == telemetry().m[k],
//@start
        proof { reveal_with_fuel(all_of, 5); let a = seq![Detector::Telemetry(TelemetryResourceDetector), Detector::Env(EnvResourceDetector { p: 0 }), Detector::Sdk(SdkProvidedResourceDetector)];
            assert(a.drop_last() =~= seq![a[0], a[1]]); assert(a.drop_last().drop_last() =~= seq![a[0]]); assert(a.drop_last().drop_last().drop_last() =~= seq![]);
            reveal_with_fuel(put_all, 5); kvs1(KeyValue { key: service_key(), value: service_name() }); telemetry_kvs(); }
//@endfn
//@fn opentelemetry-sdk/src/resource/mod.rs impl Resource :: fn builder_empty
//@ret r
//@contract
    ensures r.resource.r() == nothing(),
//@endfn
}
proof fn kvs1(kv: KeyValue) ensures put_all(Map::empty(), seq![kv]) =~= Map::<Key, Value>::empty().insert(kv.key, kv.value) { reveal_with_fuel(put_all, 3); assert(seq![kv].drop_last() =~= seq![]); }
proof fn telemetry_kvs() ensures telemetry().u is None {}

// ---- detectors ----
struct SdkProvidedResourceDetector;
struct TelemetryResourceDetector;
struct EnvResourceDetector { p: u8 }
struct Custom { id: Ghost<int> }
enum Detector { Sdk(SdkProvidedResourceDetector), Telemetry(TelemetryResourceDetector), Env(EnvResourceDetector), Other(Custom) }
/// what an application's own detector finds
uninterp spec fn found(id: int) -> Res;
uninterp spec fn env_text(name: Text) -> Option<Text>;
uninterp spec fn text_empty(t: Text) -> bool;
uninterp spec fn entries(t: Text) -> Seq<Text>;                 // split_terminator(',')
uninterp spec fn at_eq(t: Text) -> Option<(Text, Text)>;        // split_once('=')
uninterp spec fn trimmed(t: Text) -> Text;
impl Text {
    #[verifier::external_body] fn is_empty(&self) -> (r: bool) ensures r == text_empty(*self) { unimplemented!() }
    #[verifier::external_body] fn split_once(&self, c: char) -> (r: Option<(Text, Text)>) ensures c == '=' ==> r == at_eq(*self) { unimplemented!() }
    #[verifier::external_body] fn trim(&self) -> (r: Text) ensures r == trimmed(*self) { unimplemented!() }
    fn to_owned(&self) -> (r: Text) ensures r == *self { *self }
    #[verifier::external_body] fn split_terminator(&self, c: char) -> (r: Vec<Text>) ensures c == ',' ==> r@ == entries(*self) { unimplemented!() }
}
struct VarError;
#[verifier::external_body] fn env_var(name: Text) -> (r: Result<Text, VarError>) ensures match env_text(name) { Some(t) => r == Result::<Text, VarError>::Ok(t), None => r is Err } { unimplemented!() }
spec fn attrs_var() -> Text { lit_of("OTEL_RESOURCE_ATTRIBUTES") }
spec fn name_var() -> Text { lit_of("OTEL_SERVICE_NAME") }
spec fn service_key() -> Key { key_of(lit_of("service.name")) }
//@gsubst super::SERVICE_NAME ~> lit("service.name")
//@gsubst super::TELEMETRY_SDK_NAME ~> lit("telemetry.sdk.name")
//@gsubst super::TELEMETRY_SDK_LANGUAGE ~> lit("telemetry.sdk.language")
//@gsubst super::TELEMETRY_SDK_VERSION ~> lit("telemetry.sdk.version")
/// one entry of OTEL_RESOURCE_ATTRIBUTES: key=value, both trimmed; anything else is skipped
spec fn entry_of(e: Text) -> Option<KeyValue> { match at_eq(e) { Some(p) => Some(KeyValue { key: key_of(trimmed(p.0)), value: val_of(trimmed(p.1)) }), None => None } }
spec fn kept(s: Seq<Text>) -> Seq<KeyValue> decreases s.len() { if s.len() == 0 { seq![] } else { match entry_of(s.last()) { Some(kv) => kept(s.drop_last()).push(kv), None => kept(s.drop_last()) } } }
spec fn parsed(t: Text) -> Res { merged(nothing(), of_kvs(kept(entries(t)))) }
spec fn env_res() -> Res { match env_text(attrs_var()) { Some(t) => if text_empty(t) { nothing() } else { parsed(t) }, None => nothing() } }
/// OTEL_SERVICE_NAME, else the service.name of OTEL_RESOURCE_ATTRIBUTES, else unknown_service
spec fn service_name() -> Value {
    match env_text(name_var()) {
        Some(t) => if !text_empty(t) { val_of(t) } else { service_else() },
        None => service_else(),
    }
}
spec fn service_else() -> Value { if env_res().m.contains_key(service_key()) { env_res().m[service_key()] } else { val_of(lit_of("unknown_service")) } }
uninterp spec fn own_version() -> Text;
#[verifier::external_body] fn pkg_version() -> (r: Text) ensures r == own_version() { unimplemented!() }
//@gsubst env!($$e) ~> pkg_version()
spec fn telemetry() -> Res { merged(nothing(), of_kvs(seq![
    KeyValue { key: key_of(lit_of("telemetry.sdk.name")), value: val_of(lit_of("opentelemetry")) },
    KeyValue { key: key_of(lit_of("telemetry.sdk.language")), value: val_of(lit_of("rust")) },
    KeyValue { key: key_of(lit_of("telemetry.sdk.version")), value: val_of(own_version()) }])) }
spec fn what(d: Detector) -> Res { match d { Detector::Sdk(_) => merged(nothing(), of_kvs(seq![KeyValue { key: service_key(), value: service_name() }])), Detector::Telemetry(_) => telemetry(), Detector::Env(_) => env_res(), Detector::Other(c) => found(c.id@) } }
spec fn all_of(ds: Seq<Detector>) -> Res decreases ds.len() { if ds.len() == 0 { nothing() } else { merged(all_of(ds.drop_last()), what(ds.last())) } }
impl Custom { #[verifier::external_body] fn detect(&self) -> (r: Resource) ensures r.r() == found(self.id@) { unimplemented!() } }
impl Detector {
    fn detect(&self) -> (r: Resource) ensures r.r() == what(*self) { match self { Detector::Sdk(d) => d.detect(), Detector::Telemetry(d) => d.detect(), Detector::Env(d) => d.detect(), Detector::Other(d) => d.detect() } }
}
/// one entry of the variable
//@fn opentelemetry-sdk/src/resource/env.rs fn construct_otel_resources
//@closure |entry|
//@sig fn one_entry(entry: Text) -> Option<KeyValue>
//@ret r
//@contract
    ensures r == entry_of(entry),
//@endfn
fn keep(v: Vec<Text>) -> (r: Vec<KeyValue>) ensures r@ == kept(v@) {
    let mut out: Vec<KeyValue> = Vec::new();
    let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), out@ == kept(v@.take(i as int)) decreases v@.len() - i {
        proof { assert(v@.take(i + 1).drop_last() =~= v@.take(i as int)); }
        if let Some(kv) = one_entry(v[i]) { out.push(kv); }
        i = i + 1;
    }
    proof { assert(v@.take(i as int) =~= v@); }
    out
}
//@fn opentelemetry-sdk/src/resource/env.rs fn construct_otel_resources
//@sig fn construct_otel_resources(s: Text) -> Resource
//@subst s.split_terminator(',').filter_map(|entry| { $$b }) ~> keep(s.split_terminator(','))
//@ret r
//@contract
    ensures r.r() == parsed(s),
//@endfn
impl EnvResourceDetector {
    fn new() -> EnvResourceDetector { EnvResourceDetector { p: 0 } }
//@fn opentelemetry-sdk/src/resource/env.rs impl ResourceDetector for EnvResourceDetector :: fn detect
//@subst env::var(OTEL_RESOURCE_ATTRIBUTES) ~> env_var(otel_resource_attributes())
//@ret r
//@contract
    ensures r.r() == env_res(),
//@endfn
}
//@fn opentelemetry-sdk/src/resource/env.rs const OTEL_RESOURCE_ATTRIBUTES
//@sig fn otel_resource_attributes0() -> &'static str
//@ret r
//@contract
    ensures r@ == "OTEL_RESOURCE_ATTRIBUTES"@,
//@endfn
//@fn opentelemetry-sdk/src/resource/env.rs const OTEL_SERVICE_NAME
//@sig fn otel_service_name0() -> &'static str
//@ret r
//@contract
    ensures r@ == "OTEL_SERVICE_NAME"@,
//@endfn
fn otel_resource_attributes() -> (r: Text) ensures r == attrs_var() { lit("OTEL_RESOURCE_ATTRIBUTES") }
fn otel_service_name() -> (r: Text) ensures r == name_var() { lit("OTEL_SERVICE_NAME") }
impl SdkProvidedResourceDetector {
//@fn opentelemetry-sdk/src/resource/env.rs impl ResourceDetector for SdkProvidedResourceDetector :: fn detect
//@subst? env::var(OTEL_SERVICE_NAME).ok().filter(|s| !s.is_empty()).map(Value::from).or_else(|| { $$e }).unwrap_or_else(|| $d.into()) ~> match env_var(otel_service_name()) { Ok(s) if !s.is_empty() => Value::from(s), _ => match { $$e } { Some(v) => v, None => Value::from(lit($d)) } }
//@subst? with_attributes([$$e]) ~> with_attributes(vec1($$e))
//@ret r
//@contract
    ensures r.r() == what(Detector::Sdk(*self)),
//@endfn
}
#[verifier::external_body] fn vec1(k: KeyValue) -> (r: Vec<KeyValue>) ensures r@ == seq![k] { unimplemented!() }
#[verifier::external_body] fn vec3(a: KeyValue, b: KeyValue, c: KeyValue) -> (r: Vec<KeyValue>) ensures r@ == seq![a, b, c] { unimplemented!() }
impl TelemetryResourceDetector {
//@fn opentelemetry-sdk/src/resource/telemetry.rs impl ResourceDetector for TelemetryResourceDetector :: fn detect
//@subst? "opentelemetry" ~> lit("opentelemetry")
//@subst? "rust" ~> lit("rust")
//@subst? with_attributes([$$e]) ~> with_attributes(vec3($$e))
//@ret r
//@contract
    ensures r.r() == telemetry(),
//@endfn
}
struct ResourceBuilder { resource: Resource }
#[verifier::external_body] fn vecd(d: Detector) -> (r: Vec<Detector>) ensures r@ == seq![d] { unimplemented!() }
impl ResourceBuilder {
//@fn opentelemetry-sdk/src/resource/mod.rs impl ResourceBuilder :: fn with_detector
//@sig fn with_detector(self, detector: Detector) -> Self
//@ret r
//@contract
    ensures r.resource.r() == merged(self.resource.r(), merged(nothing(), what(detector))),
//@start
        proof { reveal_with_fuel(all_of, 3); assert(seq![detector].drop_last() =~= seq![]); }
//@endfn
//@fn opentelemetry-sdk/src/resource/mod.rs impl ResourceBuilder :: fn with_detectors
//@sig fn with_detectors(self, detectors: &[Detector]) -> Self
//@subst self.resource ~> slf.resource
//@subst ; self ~> ; slf
//@start
        let mut slf = self;
//@ret r
//@contract
    ensures r.resource.r() == merged(self.resource.r(), all_of(detectors@)),
//@endfn
//@fn opentelemetry-sdk/src/resource/mod.rs impl ResourceBuilder :: fn with_attribute
//@subst? with_attributes([$$e]) ~> with_attributes(vec1($$e))
//@ret r
//@contract
    ensures r.resource.r() == merged(self.resource.r(), of_kvs(seq![kv])),
//@endfn
//@fn opentelemetry-sdk/src/resource/mod.rs impl ResourceBuilder :: fn with_attributes
//@sig fn with_attributes(self, kvs: Vec<KeyValue>) -> Self
//@subst self.resource ~> slf.resource
//@subst ; self ~> ; slf
//@start
        let mut slf = self;
//@ret r
//@contract
    ensures r.resource.r() == merged(self.resource.r(), of_kvs(kvs@)),
//@endfn
//@fn opentelemetry-sdk/src/resource/mod.rs impl ResourceBuilder :: fn with_service_name
//@sig fn with_service_name(self, name: Value) -> Self
//@subst? SERVICE_NAME ~> lit("service.name")
//@ret r
//@contract
    ensures r.resource.r() == merged(self.resource.r(), of_kvs(seq![KeyValue { key: service_key(), value: name }])),
//@endfn
//@fn opentelemetry-sdk/src/resource/mod.rs impl ResourceBuilder :: fn with_schema_url
//@sig fn with_schema_url(self, attributes: Vec<KeyValue>, schema_url: Url) -> Self
//@subst self.resource ~> slf.resource
//@subst ; self ~> ; slf
//@start
        let mut slf = self;
//@ret r
//@contract
    ensures r.resource.r() == merged(Res { u: if blank(schema_url) { None } else { Some(schema_url) }, ..of_kvs(attributes@) }, self.resource.r()),
//@endfn
//@fn opentelemetry-sdk/src/resource/mod.rs impl ResourceBuilder :: fn build
//@ret r
//@contract
    ensures r == self.resource,
//@endfn
}
fn main() {}
}

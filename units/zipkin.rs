// Unit: spans in the Zipkin format and their upload (opentelemetry-zipkin/src/exporter/{mod,uploader}.rs, exporter/model/*.rs).
use vstd::prelude::*;
verus! {
// ---- text, time, ids ----
#[verifier::external_body] #[derive(Clone, Copy)] struct Text { _p: u8 }
uninterp spec fn chars(t: Text) -> Seq<char>;
impl Text {
    spec fn c(&self) -> Seq<char> { chars(*self) }
    #[verifier::external_body] fn of(s: &str) -> (r: Text) ensures r.c() == s@ { unimplemented!() }
    fn to_owned(&self) -> (r: Text) ensures r.c() == self.c() { *self }
    fn into_owned(self) -> (r: Text) ensures r.c() == self.c() { self }
}
trait AsText { spec fn tc(&self) -> Seq<char>; fn text(self) -> (r: Text) ensures r.c() == self.tc(); }
impl AsText for &'static str { spec fn tc(&self) -> Seq<char> { self@ } fn text(self) -> (r: Text) { Text::of(self) } }
impl AsText for Text { spec fn tc(&self) -> Seq<char> { self.c() } fn text(self) -> (r: Text) { self } }
trait OwnedOpt { spec fn ov(&self) -> Option<Text>; fn same(self) -> (r: Option<Text>) ensures r == self.ov(); }
impl OwnedOpt for Option<Text> { spec fn ov(&self) -> Option<Text> { *self } fn same(self) -> (r: Option<Text>) { self } }
#[derive(Clone, Copy)] struct SystemTime { ns: Ghost<int> }
#[derive(Clone, Copy)] struct Duration { ns: Ghost<int> }
struct TimeErr { _p: u8 }
#[verifier::external_body] fn epoch() -> (r: SystemTime) ensures r.ns@ == 0 { unimplemented!() }
impl SystemTime { #[verifier::external_body] fn duration_since(self, o: SystemTime) -> (r: Result<Duration, TimeErr>) ensures r is Ok == (self.ns@ >= o.ns@), r is Ok ==> r->Ok_0.ns@ == self.ns@ - o.ns@ { unimplemented!() } }
impl Duration {
    #[verifier::external_body] fn from_secs(s: u64) -> (r: Duration) ensures r.ns@ == s * 1_000_000_000 { unimplemented!() }
    #[verifier::external_body] fn as_micros(&self) -> (r: u128) requires self.ns@ >= 0 ensures self.ns@ < 0x1_0000_0000_0000_0000_0000 ==> r == self.ns@ / 1000 { unimplemented!() }
}
trait OrThat { spec fn r(&self) -> Result<Duration, TimeErr>; fn or_that(self, d: Duration) -> (r: Duration) ensures r == (match self.r() { Ok(x) => x, Err(_) => d }); }
impl OrThat for Result<Duration, TimeErr> { spec fn r(&self) -> Result<Duration, TimeErr> { *self } fn or_that(self, d: Duration) -> (r: Duration) { match self { Ok(x) => x, Err(_) => d } } }
//@gsubst SystemTime::UNIX_EPOCH ~> epoch()
//@gsubst .unwrap_or_else(|_| $$e) ~> .or_that($$e)
/// whole microseconds from a to b; 0 if b is before a (for what fits into 64 bits)
spec fn micros(a: int, b: int, r: u64) -> bool { (b < a ==> r == 0) && (0 <= b - a <= u64::MAX ==> r == (b - a) / 1000) }
#[verifier::external_body] #[derive(Clone, Copy)] struct TraceId { _p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct SpanId { _p: u8 }
uninterp spec fn trace_hex(t: TraceId) -> Seq<char>;
uninterp spec fn span_hex(t: SpanId) -> Seq<char>;
uninterp spec fn is_zero(t: SpanId) -> bool;
impl TraceId { #[verifier::external_body] fn to_string(&self) -> (r: Text) ensures r.c() == trace_hex(*self) { unimplemented!() } }
impl SpanId {
    #[verifier::external_body] fn to_string(&self) -> (r: Text) ensures r.c() == span_hex(*self) { unimplemented!() }
    #[verifier::external_body] fn is_invalid(&self) -> (r: bool) ensures r == is_zero(*self) { unimplemented!() }
}
//@gsubst $a == SpanId::INVALID ~> $a.is_invalid()
//@gsubst $a != SpanId::INVALID ~> !$a.is_invalid()
#[derive(Clone, Copy)] struct SpanContext { trace_id: TraceId, span_id: SpanId }
impl SpanContext {
    fn trace_id(&self) -> (r: TraceId) ensures r == self.trace_id { self.trace_id }
    fn span_id(&self) -> (r: SpanId) ensures r == self.span_id { self.span_id }
}
// ---- attributes ----
#[derive(Clone, Copy)] struct Key { t: Text }
impl Key { #[verifier::external_body] fn as_str(&self) -> (r: &'static str) ensures r@ == self.t.c() { unimplemented!() } fn into_(self) -> (r: Text) ensures r.c() == self.t.c() { self.t } }
#[verifier::external_body] struct Value { _p: u8 }
uninterp spec fn shown(v: Value) -> Seq<char>;
impl Value { #[verifier::external_body] fn to_string(&self) -> (r: Text) ensures r.c() == shown(*self) { unimplemented!() } }
struct KeyValue { key: Key, value: Value }
impl KeyValue { #[verifier::external_body] fn new(k: &'static str, v: Text) -> (r: KeyValue) ensures r.key.t.c() == k@, shown(r.value) == v.c() { unimplemented!() } }
broadcast axiom fn str_ext(a: &str, b: &str) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
#[verifier::external_body] fn eq_str(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
//@gsubst $a.key == Key::new($$x) ~> eq_str($a.key.as_str(), $$x)
//@gsubst $a.key.as_str() != $x ~> !eq_str($a.key.as_str(), $x)
//@gsubst $a.key.as_str() == $x ~> eq_str($a.key.as_str(), $x)
#[verifier::external_body] struct Tags { _p: u8 }
impl View2 for Tags { uninterp spec fn m(&self) -> Map<Seq<char>, Seq<char>>; }
trait View2 { spec fn m(&self) -> Map<Seq<char>, Seq<char>>; }
impl Tags {
    #[verifier::external_body] fn new() -> (r: Tags) ensures r.m() == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, k: Text, v: Text) -> (r: Option<Text>) ensures final(self).m() == old(self).m().insert(k.c(), v.c()) { unimplemented!() }
}
// ---- the recorded span ----
//@item opentelemetry/src/trace/span.rs enum SpanKind
//@item opentelemetry/src/trace/span.rs enum Status
//@ subst Cow<'static, str> ~> Text
struct Event { name: Text, timestamp: SystemTime }
struct SpanEvents { events: Vec<Event>, dropped_count: u32 }
struct ApiScope { name: Text, version: Option<Text> }
impl ApiScope {
    fn name(&self) -> (r: Text) ensures r == self.name { self.name }
    fn version(&self) -> (r: Option<Text>) ensures r == self.version { self.version }
}
struct SpanData { span_context: SpanContext, parent_span_id: SpanId, span_kind: SpanKind, name: Text, start_time: SystemTime, end_time: SystemTime, attributes: Vec<KeyValue>, events: SpanEvents, status: Status, instrumentation_scope: ApiScope }
// ---- the Zipkin model (the setters are what typed-builder generates) ----
//@item opentelemetry-zipkin/src/exporter/model/span.rs enum Kind
#[verifier::external_body] #[derive(Clone, Copy)] struct Ipv4Addr { _p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct Ipv6Addr { _p: u8 }
#[derive(Clone, Copy)] struct SocketAddrV4 { a: Ipv4Addr, p: u16 }
#[derive(Clone, Copy)] struct SocketAddrV6 { a: Ipv6Addr, p: u16 }
enum SocketAddr { V4(SocketAddrV4), V6(SocketAddrV6) }
impl SocketAddrV4 { fn ip(&self) -> (r: &Ipv4Addr) ensures *r == self.a { &self.a } fn port(&self) -> (r: u16) ensures r == self.p { self.p } }
impl SocketAddrV6 { fn ip(&self) -> (r: &Ipv6Addr) ensures *r == self.a { &self.a } fn port(&self) -> (r: u16) ensures r == self.p { self.p } }
#[derive(Clone, Copy)]
//@item opentelemetry-zipkin/src/exporter/model/endpoint.rs struct Endpoint
impl Endpoint {
    fn builder() -> (r: Endpoint) ensures r == (Endpoint { ipv4: None, ipv6: None, port: None }) { Endpoint { ipv4: None, ipv6: None, port: None } }
    fn ipv4(self, a: Ipv4Addr) -> (r: Endpoint) ensures r == (Endpoint { ipv4: Some(a), ..self }) { Endpoint { ipv4: Some(a), ..self } }
    fn ipv6(self, a: Ipv6Addr) -> (r: Endpoint) ensures r == (Endpoint { ipv6: Some(a), ..self }) { Endpoint { ipv6: Some(a), ..self } }
    fn port(self, a: u16) -> (r: Endpoint) ensures r == (Endpoint { port: Some(a), ..self }) { Endpoint { port: Some(a), ..self } }
    fn build(self) -> (r: Endpoint) ensures r == self { self }
//@fn opentelemetry-zipkin/src/exporter/model/endpoint.rs impl Endpoint :: fn new
//@ret r
//@contract
    ensures r == (match socket_addr { None => Endpoint { ipv4: None, ipv6: None, port: None }, Some(SocketAddr::V4(a)) => Endpoint { ipv4: Some(a.a), ipv6: None, port: Some(a.p) }, Some(SocketAddr::V6(a)) => Endpoint { ipv4: None, ipv6: Some(a.a), port: Some(a.p) } })
//@endfn
}
//@item opentelemetry-zipkin/src/exporter/model/annotation.rs struct Annotation
//@ subst String ~> Text
impl Annotation {
    fn builder() -> (r: Annotation) ensures r == (Annotation { timestamp: None, value: None }) { Annotation { timestamp: None, value: None } }
    fn timestamp(self, a: u64) -> (r: Annotation) ensures r == (Annotation { timestamp: Some(a), ..self }) { Annotation { timestamp: Some(a), ..self } }
    fn value(self, a: Text) -> (r: Annotation) ensures r == (Annotation { value: Some(a), ..self }) { Annotation { value: Some(a), ..self } }
    fn build(self) -> (r: Annotation) ensures r == self { self }
    spec fn is(self, e: Event) -> bool { self.timestamp is Some && micros(0, e.timestamp.ns@, self.timestamp->0) && self.value is Some && self.value->0.c() == e.name.c() }
//@fn opentelemetry-zipkin/src/exporter/model/annotation.rs impl From<Event> for Annotation :: fn from
//@sig fn from_(event: Event) -> Annotation
//@subst event.name.into() ~> event.name.into_owned()
//@ret r
//@contract
    ensures r.is(event)
//@endfn
}
fn annotations_of(v: Vec<Event>) -> (r: Vec<Annotation>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> (#[trigger] r@[i]).is(v@[i]) {
    let mut out: Vec<Annotation> = Vec::new();
    let ghost s = v@;
    for x in it: v invariant it.seq() == s, out@.len() == it.index@, forall|i: int| 0 <= i < out@.len() ==> (#[trigger] out@[i]).is(s[i]) { out.push(Annotation::from_(x)); }
    out
}
//@gsubst .events.into_iter().map(Into::into).collect() ~> .events.events.converted()
trait Converted { spec fn ev(&self) -> Seq<Event>; fn converted(self) -> (r: Vec<Annotation>) ensures r@.len() == self.ev().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).is(self.ev()[i]); }
impl Converted for Vec<Event> { spec fn ev(&self) -> Seq<Event> { self@ } fn converted(self) -> (r: Vec<Annotation>) { annotations_of(self) } }
//@item opentelemetry-zipkin/src/exporter/model/span.rs struct Span
//@ subst HashMap<String, String> ~> Tags
//@ subst String ~> Text
impl Span {
    fn builder() -> (r: Span) ensures r == (Span { trace_id: None, parent_id: None, id: None, kind: None, name: None, timestamp: None, duration: None, local_endpoint: None, remote_endpoint: None, annotations: None, tags: None, debug: false, shared: false }) {
        Span { trace_id: None, parent_id: None, id: None, kind: None, name: None, timestamp: None, duration: None, local_endpoint: None, remote_endpoint: None, annotations: None, tags: None, debug: false, shared: false }
    }
    fn trace_id(self, x: Text) -> (r: Span) ensures r == (Span { trace_id: Some(x), ..self }) { Span { trace_id: Some(x), ..self } }
    fn parent_id(self, x: Text) -> (r: Span) ensures r == (Span { parent_id: Some(x), ..self }) { Span { parent_id: Some(x), ..self } }
    fn id(self, x: Text) -> (r: Span) ensures r == (Span { id: Some(x), ..self }) { Span { id: Some(x), ..self } }
    fn kind(self, x: Option<Kind>) -> (r: Span) ensures r == (Span { kind: x, ..self }) { Span { kind: x, ..self } }
    fn name(self, x: Text) -> (r: Span) ensures r == (Span { name: Some(x), ..self }) { Span { name: Some(x), ..self } }
    fn timestamp(self, x: u64) -> (r: Span) ensures r == (Span { timestamp: Some(x), ..self }) { Span { timestamp: Some(x), ..self } }
    fn duration(self, x: u64) -> (r: Span) ensures r == (Span { duration: Some(x), ..self }) { Span { duration: Some(x), ..self } }
    fn local_endpoint(self, x: Endpoint) -> (r: Span) ensures r == (Span { local_endpoint: Some(x), ..self }) { Span { local_endpoint: Some(x), ..self } }
    fn remote_endpoint(self, x: Endpoint) -> (r: Span) ensures r == (Span { remote_endpoint: Some(x), ..self }) { Span { remote_endpoint: Some(x), ..self } }
    fn annotations(self, x: Vec<Annotation>) -> (r: Span) ensures r == (Span { annotations: Some(x), ..self }) { Span { annotations: Some(x), ..self } }
    fn tags(self, x: Tags) -> (r: Span) ensures r == (Span { tags: Some(x), ..self }) { Span { tags: Some(x), ..self } }
    fn debug(self, x: bool) -> (r: Span) ensures r == (Span { debug: x, ..self }) { Span { debug: x, ..self } }
    fn shared(self, x: bool) -> (r: Span) ensures r == (Span { shared: x, ..self }) { Span { shared: x, ..self } }
    fn build(self) -> (r: Span) ensures r == self { self }
}
//@gsubst span::Span::builder ~> Span::builder
//@gsubst span::Span ~> Span
//@gsubst span::Kind ~> Kind
//@gsubst &str ~> &'static str
// ---- the conversion ----
//@fn opentelemetry-zipkin/src/exporter/model/mod.rs const INSTRUMENTATION_LIBRARY_NAME
//@sig fn library_name_key() -> &'static str
//@ret r
//@contract
    ensures r@ == "otel.library.name"@
//@endfn
//@fn opentelemetry-zipkin/src/exporter/model/mod.rs const INSTRUMENTATION_LIBRARY_VERSION
//@sig fn library_version_key() -> &'static str
//@ret r
//@contract
    ensures r@ == "otel.library.version"@
//@endfn
//@fn opentelemetry-zipkin/src/exporter/model/mod.rs const OTEL_ERROR_DESCRIPTION
//@sig fn error_key() -> &'static str
//@ret r
//@contract
    ensures r@ == "error"@
//@endfn
//@fn opentelemetry-zipkin/src/exporter/model/mod.rs const OTEL_STATUS_CODE
//@sig fn status_key() -> &'static str
//@ret r
//@contract
    ensures r@ == "otel.status_code"@
//@endfn
spec fn kind_of(k: SpanKind) -> Option<Kind> {
    match k { SpanKind::Client => Some(Kind::Client), SpanKind::Server => Some(Kind::Server), SpanKind::Producer => Some(Kind::Producer), SpanKind::Consumer => Some(Kind::Consumer), SpanKind::Internal => None }
}
//@fn opentelemetry-zipkin/src/exporter/model/mod.rs fn into_zipkin_span_kind
//@ret r
//@contract
    ensures r == kind_of(kind)
//@endfn
/// each key with its last value
spec fn last_wins(kvs: Seq<KeyValue>) -> Map<Seq<char>, Seq<char>> decreases kvs.len() {
    if kvs.len() == 0 { Map::empty() } else { last_wins(kvs.drop_last()).insert(kvs.last().key.t.c(), shown(kvs.last().value)) }
}
spec fn is_kind(kv: KeyValue) -> bool { kv.key.t.c() == "span.kind"@ }
spec fn is_error(kv: KeyValue) -> bool { kv.key.t.c() == "error"@ }
spec fn kept(kvs: Seq<KeyValue>) -> Map<Seq<char>, Seq<char>> decreases kvs.len() {
    if kvs.len() == 0 { Map::empty() } else if is_error(kvs.last()) { kept(kvs.drop_last()) } else { kept(kvs.drop_last()).insert(kvs.last().key.t.c(), shown(kvs.last().value)) }
}
spec fn with_scope(m: Map<Seq<char>, Seq<char>>, s: ApiScope) -> Map<Seq<char>, Seq<char>> {
    let n = m.insert("otel.library.name"@, s.name.c());
    match s.version { Some(v) => n.insert("otel.library.version"@, v.c()), None => n }
}
spec fn with_status(m: Map<Seq<char>, Seq<char>>, s: Status) -> Map<Seq<char>, Seq<char>> {
    match s { Status::Unset => m, Status::Ok => m.insert("otel.status_code"@, "OK"@), Status::Error { description } => m.insert("otel.status_code"@, "ERROR"@).insert("error"@, description.c()) }
}
spec fn some_kind(kvs: Seq<KeyValue>) -> bool { exists|i: int| 0 <= i < kvs.len() && is_kind(#[trigger] kvs[i]) }
spec fn zipkin_of(d: SpanData, e: Endpoint, r: Span) -> bool {
    &&& r.trace_id is Some && r.trace_id->0.c() == trace_hex(d.span_context.trace_id)
    &&& r.id is Some && r.id->0.c() == span_hex(d.span_context.span_id)
    &&& is_zero(d.parent_span_id) ==> r.parent_id is None
    &&& !is_zero(d.parent_span_id) ==> r.parent_id is Some && r.parent_id->0.c() == span_hex(d.parent_span_id)
    &&& r.name is Some && r.name->0.c() == d.name.c()
    &&& r.kind == (if some_kind(d.attributes@) { None } else { kind_of(d.span_kind) })
    &&& r.timestamp is Some && micros(0, d.start_time.ns@, r.timestamp->0)
    &&& r.duration is Some && micros(d.start_time.ns@, d.end_time.ns@, r.duration->0)
    &&& r.local_endpoint == Some(e) && r.remote_endpoint is None && !r.debug && !r.shared
    &&& r.annotations is Some && r.annotations->0@.len() == d.events.events@.len() && forall|i: int| 0 <= i < d.events.events@.len() ==> (#[trigger] r.annotations->0@[i]).is(d.events.events@[i])
    &&& r.tags is Some && r.tags->0.m() == with_status(with_scope(kept(d.attributes@), d.instrumentation_scope), d.status)
}
//@fn opentelemetry-zipkin/src/exporter/model/mod.rs fn map_from_kvs
//@sig fn map_from_kvs(kvs: Vec<KeyValue>) -> Tags
//@subst HashMap<String, String> ~> Tags
//@subst HashMap::new() ~> Tags::new()
//@subst .key.into() ~> .key.into_()
//@start
    let ghost all = kvs@;
//@loop 0 it
    invariant it.seq() == all, map.m() == last_wins(all.take(it.index@)),
//@endinloop 0
    proof { assert(all.take(it.index@ + 1).drop_last() =~= all.take(it.index@)); }
//@beforeloop 0
    proof { assert(all.take(0) =~= Seq::empty()); }
//@afterloop 0
    proof { assert(all.take(all.len() as int) =~= all); }
//@ret r
//@contract
    ensures r.m() == last_wins(kvs@)
//@endfn
proof fn push_lemma(a: Seq<KeyValue>, kv: KeyValue) ensures last_wins(a.push(kv)) == last_wins(a).insert(kv.key.t.c(), shown(kv.value)) { assert(a.push(kv).drop_last() =~= a); }
proof fn kept_lemma(a: Seq<KeyValue>, n: int) requires 0 <= n < a.len() ensures kept(a.take(n + 1)) == (if is_error(a[n]) { kept(a.take(n)) } else { kept(a.take(n)).insert(a[n].key.t.c(), shown(a[n].value)) }) { assert(a.take(n + 1).drop_last() =~= a.take(n)); assert(a.take(n + 1).last() == a[n]); }
fn two<T>(a: T, b: T) -> (r: Vec<T>) ensures r@ == seq![a, b] { let mut v = Vec::new(); v.push(a); v.push(b); assert(v@ =~= seq![a, b]); v }
proof fn some_kind_push(a: Seq<KeyValue>, kv: KeyValue) ensures some_kind(a.push(kv)) == (some_kind(a) || is_kind(kv)) {
    if some_kind(a) { let i = choose|i: int| 0 <= i < a.len() && is_kind(#[trigger] a[i]); assert(is_kind(a.push(kv)[i])); }
    if is_kind(kv) { assert(is_kind(a.push(kv)[a.len() as int])); }
    if some_kind(a.push(kv)) { let i = choose|i: int| 0 <= i < a.push(kv).len() && is_kind(#[trigger] a.push(kv)[i]); if i < a.len() { assert(is_kind(a[i])); } }
}
spec fn added(m: Map<Seq<char>, Seq<char>>, p: Seq<(&'static str, Option<Text>)>, n: int) -> Map<Seq<char>, Seq<char>> decreases n {
    if n <= 0 { m } else { let q = added(m, p, n - 1); match p[n - 1].1 { Some(v) => q.insert(p[n - 1].0@, v.c()), None => q } }
}
// The lazy adaptors of the chain (inspect, chain, filter_map, filter) become loops that fill a vector in the same order.
//@fn opentelemetry-zipkin/src/exporter/model/mod.rs fn into_zipkin_span
//@subst map_from_kvs(span_data.attributes.into_iter().inspect(|kv| { $$a }).chain([($$k1, Some($$n1),), ($$k2, $$n2,),].into_iter().filter_map(|(key, val)| $$c),).filter(|kv| $$d),); ~> map_from_kvs({ let mut kvs: Vec<KeyValue> = Vec::new(); for kv in span_data.attributes { let ghost before = kvs@; { let kv = &kv; $$a } if { let kv = &kv; $$d } { kvs.push(kv); proof { push_lemma(before, kvs@.last()); } } } let n1: Option<Text> = Some($$n1); let n2: Option<Text> = $$n2; let pairs = two(($$k1, n1), ($$k2, n2)); let ghost pairs_spec = pairs@; for pair in pairs { let ghost before = kvs@; let (key, val) = pair; if let Some(kv) = $$c { if { let kv = &kv; $$d } { kvs.push(kv); proof { push_lemma(before, kvs@.last()); } } } } kvs });
//@subst val.map(|val| $$e) ~> (match val { Some(val) => Some($$e), None => None })
//@subst .map(ToOwned::to_owned) ~> .same()
//@subst Error { description: message, } ~> Error { description: message }
//@subst OTEL_STATUS_CODE.into() ~> status_key().text()
//@subst OTEL_ERROR_DESCRIPTION.into() ~> error_key().text()
//@subst "OK".into() ~> "OK".text()
//@subst "ERROR".into() ~> "ERROR".text()
//@subst INSTRUMENTATION_LIBRARY_NAME ~> library_name_key()
//@subst INSTRUMENTATION_LIBRARY_VERSION ~> library_version_key()
//@start
    let ghost attrs = span_data.attributes@;
    let ghost d = span_data;
    proof { reveal_strlit("span.kind"); reveal_strlit("error"); reveal_strlit("otel.library.name"); reveal_strlit("otel.library.version"); }
//@loop 0 it
    invariant it.seq() == attrs, last_wins(kvs@) == kept(attrs.take(it.index@)), user_defined_span_kind == some_kind(attrs.take(it.index@)),
//@beforeloop 0
    proof { assert(attrs.take(0) =~= Seq::empty()); assert(!some_kind(attrs.take(0))); }
//@inloop 0
    proof { kept_lemma(attrs, it.index@ as int); assert(attrs.take(it.index@ + 1) =~= attrs.take(it.index@ as int).push(attrs[it.index@ as int])); some_kind_push(attrs.take(it.index@ as int), attrs[it.index@ as int]); }
//@beforeloop 1
    proof { assert(attrs.take(attrs.len() as int) =~= attrs); assert("error"@.len() == 5 && "otel.library.name"@.len() == 17 && "otel.library.version"@.len() == 20); }
//@loop 1 jt
    invariant jt.seq() == pairs_spec, pairs_spec.len() == 2, pairs_spec[0].0@ == "otel.library.name"@, pairs_spec[1].0@ == "otel.library.version"@, pairs_spec[0].1 is Some,
        "error"@.len() == 5, "otel.library.name"@.len() == 17, "otel.library.version"@.len() == 20,
        last_wins(kvs@) == added(kept(attrs), pairs_spec, jt.index@ as int),
//@afterloop 1
    proof { assert(added(kept(attrs), pairs_spec, 0) == kept(attrs)); assert(added(kept(attrs), pairs_spec, 1) == kept(attrs).insert("otel.library.name"@, pairs_spec[0].1->0.c())); assert(added(kept(attrs), pairs_spec, 2) == with_scope(kept(attrs), span_data.instrumentation_scope)); }
//@ret r
//@contract
    ensures zipkin_of(span_data, local_endpoint, r)
//@endfn
// ---- the upload; `w` is the network: the log of requests and their answers ----
//@gsubst .await ~>
//@gsubst format!($$x) ~> msg()
//@gsubst .map_err(|e| OTelSdkError::InternalFailure($$m)) ~> .failed()
//@gsubst .map_err(|e| { OTelSdkError::InternalFailure($$m) }) ~> .failed()
//@gsubst Arc<dyn HttpClient> ~> HttpClient
//@item opentelemetry-sdk/src/error.rs enum OTelSdkError
//@ subst Duration ~> u64
type OTelSdkResult = Result<(), OTelSdkError>;
#[verifier::external_body] fn msg() -> String { unimplemented!() }
trait Failed<T>: Sized { spec fn val(self) -> Option<T>; fn failed(self) -> (r: Result<T, OTelSdkError>) ensures match self.val() { Some(v) => r == Ok::<T, OTelSdkError>(v), None => r matches Err(e) && e is InternalFailure }; }
impl<T, X> Failed<T> for Result<T, X> { spec fn val(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn failed(self) -> (r: Result<T, OTelSdkError>) { match self { Ok(v) => Ok(v), Err(_) => Err(OTelSdkError::InternalFailure(msg())) } } }
uninterp spec fn json(s: Seq<Span>) -> Option<Seq<u8>>;
#[verifier::external_body] struct SerdeError { _p: u8 }
#[verifier::external_body] fn to_json(s: &Vec<Span>) -> (r: Result<Vec<u8>, SerdeError>) ensures match r { Ok(b) => json(s@) == Some(b@), Err(_) => json(s@).is_none() } { unimplemented!() }
//@gsubst serde_json::to_vec($$x) ~> to_json($$x)
#[verifier::external_body] struct Uri { _p: u8 }
impl Clone for Uri { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] struct HttpError { _p: u8 }
impl HttpError { #[verifier::external_body] fn of(s: String) -> HttpError { unimplemented!() } }
enum Method { POST, GET, PUT }
struct Request { method: Method, uri: Uri, content_type: Ghost<Seq<char>>, body: Vec<u8> }
struct RequestBuilder { method: Method, uri: Option<Uri>, content_type: Ghost<Seq<char>> }
impl Request { fn builder() -> (r: RequestBuilder) ensures r == (RequestBuilder { method: Method::GET, uri: None, content_type: Ghost(Seq::empty()) }) { RequestBuilder { method: Method::GET, uri: None, content_type: Ghost(Seq::empty()) } } }
impl RequestBuilder {
    fn method(self, m: Method) -> (r: Self) ensures r == (RequestBuilder { method: m, ..self }) { RequestBuilder { method: m, ..self } }
    fn uri(self, u: Uri) -> (r: Self) ensures r == (RequestBuilder { uri: Some(u), ..self }) { RequestBuilder { uri: Some(u), ..self } }
    fn content_type(self, v: &str) -> (r: Self) ensures r == (RequestBuilder { content_type: Ghost(v@), ..self }) { RequestBuilder { content_type: Ghost(v@), ..self } }
    /// http: a request of a parsed URI and valid headers is built
    #[verifier::external_body] fn body(self, b: Vec<u8>) -> (r: Result<Request, HttpError>) requires self.uri.is_some()
        ensures r == Ok::<Request, HttpError>(Request { method: self.method, uri: self.uri->0, content_type: self.content_type, body: b }) { unimplemented!() }
}
//@gsubst .header(CONTENT_TYPE, $$v) ~> .content_type($$v)
//@gsubst .body(body.into()) ~> .body(body)
#[verifier::external_body] #[derive(Clone, Copy)] struct StatusCode { _p: u8 }
uninterp spec fn success(s: StatusCode) -> bool;
impl StatusCode { #[verifier::external_body] fn is_success(&self) -> (r: bool) ensures r == success(*self) { unimplemented!() } }
struct Response { s: StatusCode }
impl Response {
    fn status(&self) -> (r: StatusCode) ensures r == self.s { self.s }
//@fn opentelemetry-http/src/lib.rs impl ResponseExt for Response<T> :: fn error_for_status
//@subst msg().into() ~> HttpError::of(msg())
//@ret r
//@contract
    ensures match r { Ok(x) => success(self.s) && x == self, Err(_) => !success(self.s) }
//@endfn
}
struct NetEvent { client: HttpClient, request: Request, answer: Option<StatusCode> }
struct Net { log: Ghost<Seq<NetEvent>> }
#[verifier::external_body] struct HttpClient { _p: u8 }
impl Clone for HttpClient { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl HttpClient {
    #[verifier::external_body] fn send_bytes(&self, w: &mut Net, request: Request) -> (r: Result<Response, HttpError>)
        ensures final(w).log@ == old(w).log@.push(NetEvent { client: *self, request, answer: match r { Ok(x) => Some(x.s), Err(_) => None } }) { unimplemented!() }
}
//@item opentelemetry-zipkin/src/exporter/uploader.rs enum Uploader
//@item opentelemetry-zipkin/src/exporter/uploader.rs struct JsonV2Client
impl Clone for JsonV2Client { fn clone(&self) -> (r: Self) ensures r == *self { JsonV2Client { client: self.client.clone(), collector_endpoint: self.collector_endpoint.clone() } } }
impl Clone for Uploader { fn clone(&self) -> (r: Self) ensures r == *self { match self { Uploader::Http(c) => Uploader::Http(c.clone()) } } }
/// one POST of exactly these spans to the collector, whose answer is the result; nothing and an error if they cannot be serialized
spec fn uploaded(c: JsonV2Client, s: Seq<Span>, before: Seq<NetEvent>, after: Seq<NetEvent>, r: OTelSdkResult) -> bool {
    match json(s) {
        None => after == before && r.is_err(),
        Some(b) => {
            &&& after.len() == before.len() + 1 && after == before.push(after.last())
            &&& after.last().client == c.client && after.last().request.method is POST && after.last().request.uri == c.collector_endpoint && after.last().request.content_type@ == "application/json"@ && after.last().request.body@ == b
            &&& r.is_ok() <==> (after.last().answer matches Some(s) && success(s))
        },
    }
}
impl JsonV2Client {
//@fn opentelemetry-zipkin/src/exporter/uploader.rs impl JsonV2Client :: fn upload
//@sig fn upload(&self, w: &mut Net, spans: Vec<Span>) -> OTelSdkResult
//@subst .send_bytes($$q) ~> .send_bytes(w, $$q)
//@ret r
//@contract
    ensures uploaded(*self, spans@, old(w).log@, final(w).log@, r)
//@endfn
}
impl Uploader {
//@fn opentelemetry-zipkin/src/exporter/uploader.rs impl Uploader :: fn new
//@ret r
//@contract
    ensures r == Uploader::Http(JsonV2Client { client, collector_endpoint })
//@endfn
//@fn opentelemetry-zipkin/src/exporter/uploader.rs impl Uploader :: fn upload
//@sig fn upload(&self, w: &mut Net, spans: Vec<Span>) -> OTelSdkResult
//@subst client.upload($$q) ~> client.upload(w, $$q)
//@ret r
//@contract
    ensures uploaded(self->Http_0, spans@, old(w).log@, final(w).log@, r)
//@endfn
}
//@gsubst trace::SpanData ~> SpanData
//@gsubst uploader::Uploader ~> Uploader
spec fn all_zipkin(b: Seq<SpanData>, e: Endpoint, s: Seq<Span>) -> bool { s.len() == b.len() && forall|i: int| 0 <= i < b.len() ==> zipkin_of(b[i], e, #[trigger] s[i]) }
fn converted_batch<G: Fn(SpanData) -> Span>(batch: Vec<SpanData>, e: Ghost<Endpoint>, f: G) -> (r: Vec<Span>)
    requires forall|x: SpanData| #[trigger] f.requires((x,)), forall|x: SpanData, y: Span| #[trigger] f.ensures((x,), y) ==> zipkin_of(x, e@, y)
    ensures all_zipkin(batch@, e@, r@)
{
    let mut out: Vec<Span> = Vec::new();
    let ghost s = batch@;
    for x in it: batch invariant it.seq() == s, out@.len() == it.index@, forall|x: SpanData| #[trigger] f.requires((x,)), forall|x: SpanData, y: Span| #[trigger] f.ensures((x,), y) ==> zipkin_of(x, e@, y), forall|i: int| 0 <= i < out@.len() ==> zipkin_of(s[i], e@, #[trigger] out@[i]) { out.push(f(x)); }
    out
}
spec fn exported(x: ZipkinExporter, batch: Seq<SpanData>, before: Seq<NetEvent>, after: Seq<NetEvent>, r: OTelSdkResult) -> bool { exists|s: Seq<Span>| all_zipkin(batch, x.local_endpoint, s) && #[trigger] uploaded(x.uploader->Http_0, s, before, after, r) }
//@fn opentelemetry-zipkin/src/exporter/mod.rs fn zipkin_export
//@sig fn zipkin_export(w: &mut Net, batch: Vec<SpanData>, uploader: Uploader, local_endpoint: Endpoint) -> OTelSdkResult
//@subst batch.into_iter().map(|span| $$e).collect() ~> converted_batch(batch, Ghost(local_endpoint), |span: SpanData| -> (o: Span) ensures zipkin_of(span, local_endpoint, o) { $$e })
//@subst model::into_zipkin_span ~> into_zipkin_span
//@subst uploader.upload($$q) ~> { let ghost zs = zipkin_spans@; let ghost before = w.log@; let r = uploader.upload(w, $$q); proof { assert(all_zipkin(batch@, local_endpoint, zs)); assert(uploaded(uploader->Http_0, zs, before, w.log@, r)); let x = ZipkinExporter { local_endpoint, uploader }; assert(uploaded(x.uploader->Http_0, zs, before, w.log@, r)); } r }
//@ret r
//@contract
    ensures exported(ZipkinExporter { local_endpoint, uploader }, batch@, old(w).log@, final(w).log@, r)
//@endfn
//@item opentelemetry-zipkin/src/exporter/mod.rs struct ZipkinExporter
impl ZipkinExporter {
//@fn opentelemetry-zipkin/src/exporter/mod.rs impl ZipkinExporter :: fn new
//@ret r
//@contract
    ensures r.local_endpoint == local_endpoint, r.uploader == Uploader::Http(JsonV2Client { client, collector_endpoint })
//@endfn
//@fn opentelemetry-zipkin/src/exporter/mod.rs impl trace::SpanExporter for ZipkinExporter :: fn export
//@sig fn export(&self, w: &mut Net, batch: Vec<SpanData>) -> OTelSdkResult
//@subst zipkin_export($$q) ~> zipkin_export(w, $$q)
//@ret r
//@contract
    ensures exported(*self, batch@, old(w).log@, final(w).log@, r)
//@endfn
}
// ---- the builder ----
#[verifier::external_body] struct InvalidUri { _p: u8 }
#[verifier::external_body] struct AddrParseError { _p: u8 }
uninterp spec fn uri_of(s: Seq<char>) -> Option<Uri>;
#[verifier::external_body] fn parse_uri(s: Text) -> (r: Result<Uri, InvalidUri>) ensures match r { Ok(u) => uri_of(s.c()) == Some(u), Err(_) => uri_of(s.c()).is_none() } { unimplemented!() }
//@gsubst self.collector_endpoint.parse().map_err(ExporterBuildError::InvalidUri)? ~> (match parse_uri(self.collector_endpoint) { Ok(u) => u, Err(e) => { return Err(ExporterBuildError::InvalidUri(e)); } })
//@item opentelemetry-zipkin/src/exporter/mod.rs enum ExporterBuildError
//@ subst http::uri::InvalidUri ~> InvalidUri
//@item opentelemetry-zipkin/src/exporter/mod.rs struct ZipkinExporterBuilder
//@ subst String ~> Text
impl ZipkinExporterBuilder {
//@fn opentelemetry-zipkin/src/exporter/mod.rs impl ZipkinExporterBuilder :: fn build
//@ret r
//@contract
    ensures match r {
        Ok(x) => self.client is Some && uri_of(self.collector_endpoint.c()) is Some && x.uploader == Uploader::Http(JsonV2Client { client: self.client->0, collector_endpoint: uri_of(self.collector_endpoint.c())->0 })
            && x.local_endpoint == (match self.service_addr { None => Endpoint { ipv4: None, ipv6: None, port: None }, Some(SocketAddr::V4(a)) => Endpoint { ipv4: Some(a.a), ipv6: None, port: Some(a.p) }, Some(SocketAddr::V6(a)) => Endpoint { ipv4: None, ipv6: Some(a.a), port: Some(a.p) } }),
        Err(_) => self.client is None || uri_of(self.collector_endpoint.c()) is None,
    }
//@endfn
//@fn opentelemetry-zipkin/src/exporter/mod.rs impl ZipkinExporterBuilder :: fn with_http_client
//@sig fn with_http_client(self0: Self, client: HttpClient) -> Self
//@subst self ~> slf
//@subst Arc::new(client) ~> client
//@start
    let mut slf = self0;
//@ret r
//@contract
    ensures r == (ZipkinExporterBuilder { client: Some(client), ..self0 })
//@endfn
//@fn opentelemetry-zipkin/src/exporter/mod.rs impl ZipkinExporterBuilder :: fn with_service_address
//@sig fn with_service_address(self0: Self, addr: SocketAddr) -> Self
//@subst self ~> slf
//@start
    let mut slf = self0;
//@ret r
//@contract
    ensures r == (ZipkinExporterBuilder { service_addr: Some(addr), ..self0 })
//@endfn
//@fn opentelemetry-zipkin/src/exporter/mod.rs impl ZipkinExporterBuilder :: fn with_collector_endpoint
//@sig fn with_collector_endpoint(self0: Self, endpoint: Text) -> Self
//@subst self ~> slf
//@subst endpoint.into() ~> endpoint
//@start
    let mut slf = self0;
//@ret r
//@contract
    ensures r == (ZipkinExporterBuilder { collector_endpoint: endpoint, ..self0 })
//@endfn
}
} // verus!
fn main() {}

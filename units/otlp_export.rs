// Unit: the OTLP exporters (opentelemetry-otlp/src/{span,logs,metric}.rs, src/exporter/{http,tonic}/*.rs): what is sent
// for a batch, what is reported, and what shutdown does. `w` is the network: the log of requests and their answers.
use vstd::prelude::*;
verus! {
//@gsubst .await ~>
//@gsubst otel_debug!($$x); ~>
//@gsubst format!($$x) ~> msg()
//@gsubst "Failed to serialize metrics".to_string() ~> msg()
//@gsubst "exporter is already shut down".into() ~> msg()
//@gsubst e.to_string() ~> msg()
//@gsubst .map_err(|e| OTelSdkError::InternalFailure($$m)) ~> .failed()
//@gsubst .map_err(|e| { OTelSdkError::InternalFailure($$m) }) ~> .failed()
//@gsubst .map_err(OTelSdkError::InternalFailure) ~> .failed()
//@gsubst .ok_or_else(|| { OTelSdkError::InternalFailure($$m) }) ~> .or_failed()
//@gsubst Arc::clone(client) ~> client.clone_()
//@gsubst http::Request::builder() ~> RequestBuilder::new()
//@gsubst .header(CONTENT_TYPE, content_type) ~> .header(content_type)
//@gsubst body.into() ~> body
//@gsubst for (k, v) in &self.headers { $$b } ~> let hs = self.headers.entries(); for e in hs { let (k, v) = e; $$b }
//@gsubst request.headers_mut().insert(k.clone(), v.clone()) ~> request.insert_header(k, v)
//@gsubst request.uri().to_string() ~> msg()
//@gsubst client.send_bytes(request) ~> client.send_bytes(w, request)
//@gsubst OTelSdkResult ~> Result<(), OTelSdkError>
//@gsubst .into_bytes() ~> .into_body()
//@gsubst json.into() ~> json.into_body()
//@gsubst resource.into() ~> resource_of(resource)

//@item opentelemetry-sdk/src/error.rs enum OTelSdkError
//@ subst Duration ~> u64
pub assume_specification<T, E, U, F> [std::result::Result::<T, E>::and_then] (x: std::result::Result<T, E>, f: F) -> (r: std::result::Result<U, E>)
    where F: std::ops::FnOnce(T,) -> std::result::Result<U, E> 
    requires x matches Ok(v) ==> f.requires((v,)),
    ensures match x { Ok(v) => f.ensures((v,), r), Err(e) => r == Err::<U, E>(e) };
type OTelSdkResult = Result<(), OTelSdkError>;
#[verifier::external_body] fn msg() -> String { unimplemented!() }
trait Failed<T>: Sized { spec fn val(self) -> Option<T>; fn failed(self) -> (r: Result<T, OTelSdkError>) ensures match self.val() { Some(v) => r == Ok::<T, OTelSdkError>(v), None => r matches Err(e) && e is InternalFailure }; }
impl<T, X> Failed<T> for Result<T, X> { spec fn val(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn failed(self) -> (r: Result<T, OTelSdkError>) { match self { Ok(v) => Ok(v), Err(_) => Err(OTelSdkError::InternalFailure(msg())) } } }
trait OrFailed<T>: Sized { spec fn oval(self) -> Option<T>; fn or_failed(self) -> (r: Result<T, OTelSdkError>) ensures match self.oval() { Some(v) => r == Ok::<T, OTelSdkError>(v), None => r matches Err(e) && e is InternalFailure }; }
impl<T> OrFailed<T> for Option<T> { spec fn oval(self) -> Option<T> { self }
    fn or_failed(self) -> (r: Result<T, OTelSdkError>) { match self { Some(v) => Ok(v), None => Err(OTelSdkError::InternalFailure(msg())) } } }

// ---- telemetry and its OTLP form (C23) ----
#[verifier::external_body] struct SpanData { _p: u8 }
#[verifier::external_body] struct LogBatch<'a> { _p: &'a u8 }
#[verifier::external_body] struct ResourceMetrics { _p: u8 }
#[verifier::external_body] struct Resource { _p: u8 }
#[verifier::external_body] struct ResourceAttributesWithSchema { _p: u8 }
#[verifier::external_body] struct Spans { _p: u8 }
#[verifier::external_body] struct Logs { _p: u8 }
#[verifier::external_body] struct Metrics { _p: u8 }
#[verifier::external_body] struct Temporality { _p: u8 }
impl Clone for Temporality { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Temporality {}
uninterp spec fn grouped_spans(b: Seq<SpanData>, r: ResourceAttributesWithSchema) -> Spans;
uninterp spec fn grouped_logs(b: LogBatch, r: ResourceAttributesWithSchema) -> Logs;
uninterp spec fn of_metrics(m: ResourceMetrics) -> Metrics;
uninterp spec fn attributes(r: Resource) -> ResourceAttributesWithSchema;
#[verifier::external_body] fn resource_of(r: &Resource) -> (o: ResourceAttributesWithSchema) ensures o == attributes(*r) { unimplemented!() }
#[verifier::external_body] fn group_spans_by_resource_and_scope(b: Vec<SpanData>, r: &ResourceAttributesWithSchema) -> (o: Spans) ensures o == grouped_spans(b@, *r) { unimplemented!() }
#[verifier::external_body] fn group_logs_by_resource_and_scope(b: LogBatch<'_>, r: &ResourceAttributesWithSchema) -> (o: Logs) ensures o == grouped_logs(b, *r) { unimplemented!() }
#[verifier::external_body] fn metrics_of(m: &ResourceMetrics) -> (o: Metrics) ensures o == of_metrics(*m) { unimplemented!() }
struct ExportTraceServiceRequest { resource_spans: Spans }
struct ExportLogsServiceRequest { resource_logs: Logs }
struct ExportMetricsServiceRequest { resource_metrics: Metrics }
enum Message { Spans(Spans), Logs(Logs), Metrics(Metrics) }
#[verifier::external_body] struct SerdeError { _p: u8 }
impl SerdeError { #[verifier::external_body] fn to_string(&self) -> String { unimplemented!() } }
uninterp spec fn proto(m: Message) -> Seq<u8>;
uninterp spec fn json(m: Message) -> Option<Seq<u8>>;
struct Json { b: Vec<u8> }
impl Json { fn into_body(self) -> (r: Vec<u8>) ensures r == self.b { self.b } }
trait Payload { spec fn message(&self) -> Message; 
    fn encode_to_vec(&self) -> (r: Vec<u8>) ensures r@ == proto(self.message());
    fn to_json(&self) -> (r: Result<Json, SerdeError>) ensures match r { Ok(j) => json(self.message()) == Some(j.b@), Err(_) => json(self.message()).is_none() }; }
impl Payload for ExportTraceServiceRequest { spec fn message(&self) -> Message { Message::Spans(self.resource_spans) }
    #[verifier::external_body] fn encode_to_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body] fn to_json(&self) -> (r: Result<Json, SerdeError>) { unimplemented!() } }
impl Payload for ExportLogsServiceRequest { spec fn message(&self) -> Message { Message::Logs(self.resource_logs) }
    #[verifier::external_body] fn encode_to_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body] fn to_json(&self) -> (r: Result<Json, SerdeError>) { unimplemented!() } }
impl Payload for ExportMetricsServiceRequest { spec fn message(&self) -> Message { Message::Metrics(self.resource_metrics) }
    #[verifier::external_body] fn encode_to_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body] fn to_json(&self) -> (r: Result<Json, SerdeError>) { unimplemented!() } }
//@gsubst serde_json::to_string_pretty(&req) ~> req.to_json()
//@gsubst let req: ExportMetricsServiceRequest = (&*metrics).into() ~> let req = ExportMetricsServiceRequest { resource_metrics: metrics_of(metrics) }
//@gsubst ExportMetricsServiceRequest::from(&*metrics) ~> ExportMetricsServiceRequest { resource_metrics: metrics_of(metrics) }
/// body and content type of a message under a protocol
spec fn encoded(p: Protocol, m: Message) -> Option<(Seq<u8>, Seq<char>)> {
    match p { Protocol::HttpJson => match json(m) { Some(b) => Some((b, "application/json"@)), None => None }, _ => Some((proto(m), "application/x-protobuf"@)) }
}

// ---- HTTP ----
//@item opentelemetry-otlp/src/lib.rs enum Protocol
#[verifier::external_body] struct Uri { _p: u8 }
#[verifier::external_body] struct HeaderName { _p: u8 }
#[verifier::external_body] struct HeaderValue { _p: u8 }
#[verifier::external_body] struct HttpError { _p: u8 }
uninterp spec fn content_type_name() -> HeaderName;
uninterp spec fn value_of(s: Seq<char>) -> HeaderValue;
struct Headers { m: Ghost<Map<HeaderName, HeaderValue>> }
spec fn lists(s: Seq<(HeaderName, HeaderValue)>, m: Map<HeaderName, HeaderValue>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|k: HeaderName| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
}
impl Headers { #[verifier::external_body] fn entries(&self) -> (r: Vec<(HeaderName, HeaderValue)>) ensures lists(r@, self.m@) { unimplemented!() } }
enum Method { POST, GET, PUT }
struct Request { method: Method, uri: Ghost<Uri>, headers: Ghost<Map<HeaderName, HeaderValue>>, body: Vec<u8> }
struct RequestBuilder { method: Method, uri: Ghost<Option<Uri>>, headers: Ghost<Map<HeaderName, HeaderValue>> }
impl RequestBuilder {
    fn new() -> (r: Self) ensures r.method is GET, r.uri@.is_none(), r.headers@ == Map::<HeaderName, HeaderValue>::empty() { RequestBuilder { method: Method::GET, uri: Ghost(None), headers: Ghost(Map::empty()) } }
    fn method(self, m: Method) -> (r: Self) ensures r == (RequestBuilder { method: m, ..self }) { RequestBuilder { method: m, ..self } }
    #[verifier::external_body] fn uri(self, u: &Uri) -> (r: Self) ensures r == (RequestBuilder { uri: Ghost(Some(*u)), ..self }) { unimplemented!() }
    #[verifier::external_body] fn header(self, v: &str) -> (r: Self) ensures r == (RequestBuilder { headers: Ghost(self.headers@.insert(content_type_name(), value_of(v@))), ..self }) { unimplemented!() }
    /// http: a request of a parsed URI and valid headers is built
    #[verifier::external_body] fn body(self, b: Vec<u8>) -> (r: Result<Request, HttpError>) requires self.uri@.is_some()
        ensures r == Ok::<Request, HttpError>(Request { method: self.method, uri: Ghost(self.uri@->0), headers: self.headers, body: b }) { unimplemented!() }
}
impl HttpError { #[verifier::external_body] fn to_string(&self) -> String { unimplemented!() } }
impl Request {
    fn insert_header(&mut self, k: HeaderName, v: HeaderValue) ensures *final(self) == (Request { headers: Ghost(old(self).headers@.insert(k, v)), ..*old(self) }) { self.headers = Ghost(self.headers@.insert(k, v)); }
}
#[verifier::external_body] struct Status { _p: u8 }
uninterp spec fn success(s: Status) -> bool;
impl Status { #[verifier::external_body] fn is_success(&self) -> (r: bool) ensures r == success(*self) { unimplemented!() } #[verifier::external_body] fn as_u16(&self) -> u16 { unimplemented!() } }
struct Response { s: Status }
impl Response { fn status(&self) -> (r: &Status) ensures *r == self.s { &self.s } }
#[allow(inconsistent_fields)]
enum Event { Http { client: HttpClient, request: Request, answer: Option<Status> }, Intercepted { by: nat, answer: Option<(Meta, Ext)> }, Rpc { client: RpcClient, meta: Meta, ext: Ext, message: Message, ok: bool } }
struct Net { log: Ghost<Seq<Event>> }
#[verifier::external_body] struct HttpClient { _p: u8 }
impl HttpClient {
    #[verifier::external_body] fn clone_(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] fn send_bytes(&self, w: &mut Net, request: Request) -> (r: Result<Response, HttpError>)
        ensures final(w).log@ == old(w).log@.push(Event::Http { client: *self, request, answer: match r { Ok(x) => Some(x.s), Err(_) => None } }) { unimplemented!() }
}
impl Clone for HttpClient { fn clone(&self) -> (r: Self) ensures r == *self { self.clone_() } }
// a mutex at the moment it is locked: poisoned, or its contents
struct Mutex<T> { v: T, poisoned: bool }
#[verifier::external_body] struct PoisonError { _p: u8 }
struct Guard<'a, T> { v: &'a T }
struct GuardMut<'a, T> { v: &'a mut T }
impl<T> Mutex<T> {
    fn new(v: T) -> (r: Self) ensures r == (Mutex { v, poisoned: false }) { Mutex { v, poisoned: false } }
    #[verifier::external_body] fn lock<'a>(&'a self) -> (r: Result<Guard<'a, T>, PoisonError>) ensures match r { Ok(g) => !self.poisoned && *g.v == self.v, Err(_) => self.poisoned } { unimplemented!() }
}
impl<'a> Guard<'a, Option<HttpClient>> { fn clone(&self) -> (r: Option<HttpClient>) ensures r == *self.v { match self.v { Some(c) => Some(c.clone_()), None => None } } }
impl<T> Mutex<Option<T>> {
    fn take_locked(&mut self) -> (r: Result<Option<T>, OTelSdkError>)
        ensures match r { Ok(o) => !old(self).poisoned && o == old(self).v && *final(self) == (Mutex { v: None::<T>, poisoned: false }), Err(e) => old(self).poisoned && *final(self) == *old(self) && e is InternalFailure } {
        if self.poisoned { Err(OTelSdkError::InternalFailure(msg())) } else { Ok(self.v.take()) }
    }
}
//@item opentelemetry-otlp/src/exporter/http/mod.rs struct OtlpHttpClient
//@ subst Mutex<Option<Arc<dyn HttpClient>>> ~> Mutex<Option<HttpClient>>
//@ subst HashMap<HeaderName, HeaderValue> ~> Headers
//@ subst opentelemetry_proto::transform::common::tonic::ResourceAttributesWithSchema ~> ResourceAttributesWithSchema
//@ subst Duration ~> u64
spec fn headers_sent(ct: Seq<char>, m: Map<HeaderName, HeaderValue>, sent: Map<HeaderName, HeaderValue>) -> bool {
    &&& forall|k: HeaderName| #[trigger] sent.contains_key(k) <==> k == content_type_name() || m.contains_key(k)
    &&& forall|k: HeaderName| #[trigger] sent.contains_key(k) ==> sent[k] == (if m.contains_key(k) { m[k] } else { value_of(ct) })
}
/// the one request a message makes
spec fn posts(c: OtlpHttpClient, m: Message, r: Request) -> bool {
    encoded(c.protocol, m) matches Some((b, ct)) && r.method is POST && r.uri@ == c.collector_endpoint && r.body@ == b && headers_sent(ct, c.headers.m@, r.headers@)
}
/// what one export of a message does: nothing and an error, or one request, whose success is the result
spec fn http_exported(c: OtlpHttpClient, m: Message, before: Seq<Event>, after: Seq<Event>, r: Result<(), OTelSdkError>) -> bool {
    if c.client.poisoned || c.client.v.is_none() || encoded(c.protocol, m).is_none() {
        after == before && (r matches Err(e) && (!c.client.poisoned && c.client.v.is_none() ==> e is AlreadyShutdown))
    } else {
        &&& after.len() == before.len() + 1 && after == before.push(after.last())
        &&& (after.last() matches Event::Http { client, request, answer } && Some(client) == c.client.v && posts(c, m, request) && (r.is_ok() <==> (answer matches Some(s) && success(s))))
    }
}
spec fn with_entries(m: Map<HeaderName, HeaderValue>, s: Seq<(HeaderName, HeaderValue)>) -> Map<HeaderName, HeaderValue> decreases s.len() {
    if s.len() == 0 { m } else { with_entries(m, s.drop_last()).insert(s.last().0, s.last().1) }
}
proof fn with_entries_is(m: Map<HeaderName, HeaderValue>, s: Seq<(HeaderName, HeaderValue)>)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    ensures forall|k: HeaderName| #[trigger] with_entries(m, s).contains_key(k) <==> m.contains_key(k) || exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k,
        forall|i: int| 0 <= i < s.len() ==> with_entries(m, s)[(#[trigger] s[i]).0] == s[i].1,
        forall|k: HeaderName| (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 != k) ==> #[trigger] with_entries(m, s)[k] == m[k],
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        with_entries_is(m, d);
        assert(forall|i: int| 0 <= i < d.len() ==> d[i] == s[i]);
        assert(s[s.len() - 1] == s.last());
        assert forall|k: HeaderName| #[trigger] with_entries(m, s).contains_key(k) implies m.contains_key(k) || exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k by {
            if k == s.last().0 { assert(s[s.len() - 1].0 == k); } else { assert(with_entries(m, d).contains_key(k)); if !m.contains_key(k) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == k; assert(s[i].0 == k); } }
        }
        assert forall|k: HeaderName| (m.contains_key(k) || exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k) implies #[trigger] with_entries(m, s).contains_key(k) by {
            if k != s.last().0 { if !m.contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(d[i].0 == k); } assert(with_entries(m, d).contains_key(k)); }
        }
        assert forall|k: HeaderName| (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 != k) implies #[trigger] with_entries(m, s)[k] == m[k] by {
            assert(s[s.len() - 1].0 != k); assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).0 != k by { assert(s[i].0 != k); } assert(with_entries(m, d)[k] == m[k]);
        }
    }
}
proof fn sent_are(ct: Seq<char>, m: Map<HeaderName, HeaderValue>, s: Seq<(HeaderName, HeaderValue)>)
    requires lists(s, m)
    ensures headers_sent(ct, m, with_entries(Map::empty().insert(content_type_name(), value_of(ct)), s))
{
    let m0 = Map::<HeaderName, HeaderValue>::empty().insert(content_type_name(), value_of(ct));
    with_entries_is(m0, s);
    let r = with_entries(m0, s);
    assert forall|k: HeaderName| #[trigger] r.contains_key(k) implies (k == content_type_name() || m.contains_key(k)) && r[k] == (if m.contains_key(k) { m[k] } else { value_of(ct) }) by {
        if m.contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(s[i].0 == k); }
        else { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0 != k by {} assert(r[k] == m0[k]); }
    }
    assert forall|k: HeaderName| (k == content_type_name() || m.contains_key(k)) implies #[trigger] r.contains_key(k) by {
        if m.contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(s[i].0 == k); }
    }
}
impl OtlpHttpClient {
//@fn opentelemetry-otlp/src/exporter/http/mod.rs impl OtlpHttpClient :: fn new
//@subst? Arc<dyn HttpClient> ~> HttpClient
//@subst? HashMap<HeaderName, HeaderValue> ~> Headers
//@subst? Duration ~> u64
//@subst? ResourceAttributesWithSchema::default() ~> no_resource()
//@ret r
//@contract
    ensures r.client == (Mutex { v: Some(client), poisoned: false }), r.collector_endpoint == collector_endpoint, r.headers == headers, r.protocol == protocol, r._timeout == timeout,
//@endfn
//@fn opentelemetry-otlp/src/exporter/http/mod.rs impl OtlpHttpClient :: fn build_trace_export_body
//@subst? use $$x; ~>
//@ret r
//@contract
    ensures match r { Ok((b, ct)) => encoded(self.protocol, Message::Spans(grouped_spans(spans@, self.resource))) == Some((b@, ct@)), Err(_) => encoded(self.protocol, Message::Spans(grouped_spans(spans@, self.resource))).is_none() },
//@endfn
//@fn opentelemetry-otlp/src/exporter/http/mod.rs impl OtlpHttpClient :: fn build_logs_export_body
//@subst? use $$x; ~>
//@ret r
//@contract
    ensures match r { Ok((b, ct)) => encoded(self.protocol, Message::Logs(grouped_logs(logs, self.resource))) == Some((b@, ct@)), Err(_) => encoded(self.protocol, Message::Logs(grouped_logs(logs, self.resource))).is_none() },
//@endfn
//@fn opentelemetry-otlp/src/exporter/http/mod.rs impl OtlpHttpClient :: fn build_metrics_export_body
//@subst? use $$x; ~>
//@ret r
//@contract
    ensures *final(metrics) == *old(metrics), match r { Some((b, ct)) => encoded(self.protocol, Message::Metrics(of_metrics(*old(metrics)))) == Some((b@, ct@)), None => encoded(self.protocol, Message::Metrics(of_metrics(*old(metrics)))).is_none() },
//@endfn
//@fn opentelemetry-otlp/src/exporter/http/trace.rs impl SpanExporter for OtlpHttpClient :: fn export
//@sig fn export_spans(&self, w: &mut Net, batch: Vec<SpanData>) -> OTelSdkResult
//@subst? .and_then(|g| match &*g { $$b }) ~> .and_then(|g: Guard<Option<HttpClient>>| -> (o: Result<HttpClient, OTelSdkError>) ensures (match *g.v { Some(c) => o == Ok::<HttpClient, OTelSdkError>(c), None => o matches Err(e) && e is AlreadyShutdown }) { match g.v { $$b } })
//@ret r
//@contract
    ensures http_exported(*self, Message::Spans(grouped_spans(batch@, self.resource)), old(w).log@, final(w).log@, r),
//@loop 0 it
    invariant it.seq() == hs@, lists(hs@, self.headers.m@), request == (Request { headers: Ghost(with_entries(Map::empty().insert(content_type_name(), value_of(content_type@)), hs@.take(it.index@))), ..request }),
        request.method is POST, request.uri@ == self.collector_endpoint, request.body@ == body@,
//@inloop 0
    proof { assert(hs@.take(it.index@ + 1).drop_last() =~= hs@.take(it.index@)); }
//@afterloop 0
    proof { assert(hs@.take(hs@.len() as int) =~= hs@); sent_are(content_type@, self.headers.m@, hs@); }
//@endfn
//@fn opentelemetry-otlp/src/exporter/http/logs.rs impl LogExporter for OtlpHttpClient :: fn export
//@sig fn export_logs(&self, w: &mut Net, batch: LogBatch<'_>) -> OTelSdkResult
//@ret r
//@contract
    ensures http_exported(*self, Message::Logs(grouped_logs(batch, self.resource)), old(w).log@, final(w).log@, r),
//@loop 0 it
    invariant it.seq() == hs@, lists(hs@, self.headers.m@), request == (Request { headers: Ghost(with_entries(Map::empty().insert(content_type_name(), value_of(content_type@)), hs@.take(it.index@))), ..request }),
        request.method is POST, request.uri@ == self.collector_endpoint, request.body@ == body@,
//@inloop 0
    proof { assert(hs@.take(it.index@ + 1).drop_last() =~= hs@.take(it.index@)); }
//@afterloop 0
    proof { assert(hs@.take(hs@.len() as int) =~= hs@); sent_are(content_type@, self.headers.m@, hs@); }
//@endfn
//@fn opentelemetry-otlp/src/exporter/http/metrics.rs impl MetricsClient for OtlpHttpClient :: fn export
//@sig fn export_metrics(&self, w: &mut Net, metrics: &mut ResourceMetrics) -> OTelSdkResult
//@subst? .and_then(|g| match &*g { $$b }) ~> .and_then(|g: Guard<Option<HttpClient>>| -> (o: Result<HttpClient, OTelSdkError>) ensures (match *g.v { Some(c) => o == Ok::<HttpClient, OTelSdkError>(c), None => o matches Err(e) && e is AlreadyShutdown }) { match g.v { $$b } })
//@ret r
//@contract
    ensures http_exported(*self, Message::Metrics(of_metrics(*old(metrics))), old(w).log@, final(w).log@, r), *final(metrics) == *old(metrics),
//@loop 0 it
    invariant it.seq() == hs@, lists(hs@, self.headers.m@), request == (Request { headers: Ghost(with_entries(Map::empty().insert(content_type_name(), value_of(content_type@)), hs@.take(it.index@))), ..request }),
        request.method is POST, request.uri@ == self.collector_endpoint, request.body@ == body@,
//@inloop 0
    proof { assert(hs@.take(it.index@ + 1).drop_last() =~= hs@.take(it.index@)); }
//@afterloop 0
    proof { assert(hs@.take(hs@.len() as int) =~= hs@); sent_are(content_type@, self.headers.m@, hs@); }
//@endfn
//@fn opentelemetry-otlp/src/exporter/http/trace.rs impl SpanExporter for OtlpHttpClient :: fn shutdown
//@sig fn shutdown_spans(&mut self) -> OTelSdkResult
//@subst? let mut client_guard = self.client.lock().failed()?; ~>
//@subst? client_guard.take() ~> self.client.take_locked()?
//@ret r
//@contract
    ensures http_closed(*old(self), *final(self), r),
//@endfn
//@fn opentelemetry-otlp/src/exporter/http/logs.rs impl LogExporter for OtlpHttpClient :: fn shutdown
//@sig fn shutdown_logs(&mut self) -> OTelSdkResult
//@subst? let mut client_guard = self.client.lock().failed()?; ~>
//@subst? client_guard.take() ~> self.client.take_locked()?
//@ret r
//@contract
    ensures http_closed(*old(self), *final(self), r),
//@endfn
//@fn opentelemetry-otlp/src/exporter/http/metrics.rs impl MetricsClient for OtlpHttpClient :: fn shutdown
//@sig fn shutdown_metrics(&mut self) -> OTelSdkResult
//@subst? self.client.lock().failed()?.take() ~> self.client.take_locked()?
//@ret r
//@contract
    ensures r.is_ok() <==> !old(self).client.poisoned, closed(*old(self), *final(self)),
//@endfn
//@fn opentelemetry-otlp/src/exporter/http/trace.rs impl SpanExporter for OtlpHttpClient :: fn set_resource
//@sig fn set_resource_spans(&mut self, resource: &Resource)
//@contract
    ensures *final(self) == (OtlpHttpClient { resource: attributes(*resource), ..*old(self) }),
//@endfn
//@fn opentelemetry-otlp/src/exporter/http/logs.rs impl LogExporter for OtlpHttpClient :: fn set_resource
//@sig fn set_resource_logs(&mut self, resource: &Resource)
//@contract
    ensures *final(self) == (OtlpHttpClient { resource: attributes(*resource), ..*old(self) }),
//@endfn
}
/// the client is given up; nothing else changes
spec fn closed(c: OtlpHttpClient, d: OtlpHttpClient) -> bool {
    d == (OtlpHttpClient { client: d.client, ..c }) && (if c.client.poisoned { d.client == c.client } else { d.client.v.is_none() && !d.client.poisoned })
}
spec fn http_closed(c: OtlpHttpClient, d: OtlpHttpClient, r: Result<(), OTelSdkError>) -> bool {
    closed(c, d) && (r.is_ok() <==> !c.client.poisoned && c.client.v.is_some()) && (!c.client.poisoned && c.client.v.is_none() ==> r.is_err() && r->Err_0 is AlreadyShutdown)
}
/// an exporter that was shut down sends nothing more
proof fn nothing_after_shutdown(c: OtlpHttpClient, d: OtlpHttpClient, m: Message, b: Seq<Event>, a: Seq<Event>, r: Result<(), OTelSdkError>)
    requires closed(c, d), !c.client.poisoned, http_exported(d, m, b, a, r) ensures a == b, r matches Err(e) && e is AlreadyShutdown {}

// ---- gRPC ----
#[derive(Clone, Copy, PartialEq, Eq)]
enum CompressionEncoding { Gzip, Zstd }
#[verifier::external_body] struct Channel { _p: u8 }
#[verifier::external_body] struct Meta { _p: u8 }
#[verifier::external_body] struct Ext { _p: u8 }
#[verifier::external_body] struct RpcStatus { _p: u8 }
impl RpcStatus { #[verifier::external_body] fn to_string(&self) -> String { unimplemented!() } }
/// the generated clients: the channel and the compression of what is sent and accepted
struct RpcClient { channel: Channel, send: Option<CompressionEncoding>, accept: Option<CompressionEncoding> }
impl Clone for Channel { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for RpcClient { fn clone(&self) -> (r: Self) ensures r == *self { RpcClient { channel: self.channel.clone(), send: self.send, accept: self.accept } } }
impl RpcClient {
    fn new(channel: Channel) -> (r: Self) ensures r == (RpcClient { channel, send: None, accept: None }) { RpcClient { channel, send: None, accept: None } }
    fn send_compressed(self, e: CompressionEncoding) -> (r: Self) ensures r == (RpcClient { send: Some(e), ..self }) { RpcClient { send: Some(e), ..self } }
    fn accept_compressed(self, e: CompressionEncoding) -> (r: Self) ensures r == (RpcClient { accept: Some(e), ..self }) { RpcClient { accept: Some(e), ..self } }
    #[verifier::external_body] fn export<P: Payload>(&mut self, w: &mut Net, q: RpcRequest<P>) -> (r: Result<Answer, RpcStatus>)
        ensures *final(self) == *old(self), final(w).log@ == old(w).log@.push(Event::Rpc { client: *old(self), meta: q.meta, ext: q.ext, message: q.p.message(), ok: r.is_ok() }) { unimplemented!() }
}
#[verifier::external_body] struct Answer { _p: u8 }
struct RpcRequest<P> { meta: Meta, ext: Ext, p: P }
struct Empty { meta: Meta, ext: Ext, fresh: Ghost<bool> }
uninterp spec fn no_meta() -> Meta;
impl Empty { fn into_parts(self) -> (r: (Meta, Ext, ())) ensures r.0 == self.meta, r.1 == self.ext { (self.meta, self.ext, ()) } }
#[verifier::external_body] fn blank_request() -> (r: Empty) ensures r.fresh@ { unimplemented!() }
fn request_of<P>(meta: Meta, ext: Ext, p: P) -> (r: RpcRequest<P>) ensures r == (RpcRequest { meta, ext, p }) { RpcRequest { meta, ext, p } }
/// the interceptor: what it makes of the request is its own, and is recorded
struct BoxInterceptor { id: nat }
impl BoxInterceptor {
    #[verifier::external_body] fn call(&self, w: &mut Net, q: Empty) -> (r: Result<Empty, RpcStatus>) requires q.fresh@
        ensures final(w).log@ == old(w).log@.push(Event::Intercepted { by: self.id, answer: match r { Ok(e) => Some((e.meta, e.ext)), Err(_) => None } }) { unimplemented!() }
}
struct ClientInner { client: RpcClient, interceptor: BoxInterceptor }
//@gsubst Request::from_parts($$x) ~> request_of($$x)
//@gsubst Request::new(()) ~> blank_request()
spec fn compressed(c: RpcClient, channel: Channel, z: Option<CompressionEncoding>) -> bool { c == (RpcClient { channel, send: z, accept: z }) }
/// a gRPC export: nothing when shut down; otherwise the interceptor is asked once, and if it agrees one call is made with what it gave
spec fn rpc_exported(inner: Option<ClientInner>, m: Message, before: Seq<Event>, after: Seq<Event>, r: Result<(), OTelSdkError>) -> bool {
    match inner {
        None => after == before && r.is_err(),
        Some(i) => {
            &&& after.len() > before.len()
            &&& (after[before.len() as int] matches Event::Intercepted { by, answer } && by == i.interceptor.id && match answer {
                None => after == before.push(after[before.len() as int]) && r.is_err(),
                Some((meta, ext)) => after.len() == before.len() + 2 && after == before.push(after[before.len() as int]).push(after.last())
                    && (after.last() matches Event::Rpc { client, meta: m2, ext: e2, message, ok } && client == i.client && m2 == meta && e2 == ext && message == m && (r.is_ok() <==> ok)) })
        }
    }
}
//@gsubst TraceServiceClient::new ~> RpcClient::new
//@gsubst LogsServiceClient::new ~> RpcClient::new
//@gsubst MetricsServiceClient::new ~> RpcClient::new
struct TonicTracesClient { inner: Option<ClientInner>, resource: ResourceAttributesWithSchema }
struct TonicLogsClient { inner: Option<ClientInner>, resource: ResourceAttributesWithSchema }
struct TonicMetricsClient { inner: Mutex<Option<ClientInner>> }
impl TonicTracesClient {
//@fn opentelemetry-otlp/src/exporter/tonic/trace.rs impl TonicTracesClient :: fn new
//@subst? Mutex::new(interceptor) ~> interceptor
//@subst? Default::default() ~> no_resource()
//@ret r
//@contract
    ensures r.inner matches Some(i) && compressed(i.client, channel, compression) && i.interceptor == interceptor,
//@endfn
//@fn opentelemetry-otlp/src/exporter/tonic/trace.rs impl SpanExporter for TonicTracesClient :: fn export
//@sig fn export_spans(&self, w: &mut Net, batch: Vec<SpanData>) -> OTelSdkResult
//@subst? .lock().call( ~> .call(w,
//@subst? inner.interceptor.lock().call($$q) ~> inner.interceptor.call(w, $$q)
//@subst? client.export($$q) ~> client.export(w, $$q)
//@ret r
//@contract
    ensures rpc_exported(self.inner, Message::Spans(grouped_spans(batch@, self.resource)), old(w).log@, final(w).log@, r), self.inner.is_none() ==> r->Err_0 is AlreadyShutdown,
//@endfn
//@fn opentelemetry-otlp/src/exporter/tonic/trace.rs impl SpanExporter for TonicTracesClient :: fn shutdown
//@sig fn shutdown_spans(&mut self) -> OTelSdkResult
//@ret r
//@contract
    ensures *final(self) == (TonicTracesClient { inner: None, ..*old(self) }), r.is_ok() <==> old(self).inner.is_some(), r.is_err() ==> r->Err_0 is AlreadyShutdown,
//@endfn
//@fn opentelemetry-otlp/src/exporter/tonic/trace.rs impl SpanExporter for TonicTracesClient :: fn set_resource
//@sig fn set_resource_spans(&mut self, resource: &Resource)
//@contract
    ensures *final(self) == (TonicTracesClient { resource: attributes(*resource), ..*old(self) }),
//@endfn
}
impl TonicLogsClient {
//@fn opentelemetry-otlp/src/exporter/tonic/logs.rs impl TonicLogsClient :: fn new
//@subst? Mutex::new($$x) ~> $$x
//@subst? Default::default() ~> no_resource()
//@ret r
//@contract
    ensures r.inner matches Some(i) && compressed(i.client, channel, compression) && i.interceptor == interceptor,
//@endfn
//@fn opentelemetry-otlp/src/exporter/tonic/logs.rs impl LogExporter for TonicLogsClient :: fn export
//@sig fn export_logs(&self, w: &mut Net, batch: LogBatch<'_>) -> OTelSdkResult
//@subst? self.inner.lock().as_mut() ~> &self.inner
//@subst? inner.interceptor.call($$q) ~> inner.interceptor.call(w, $$q)
//@subst? client.export($$q) ~> client.export(w, $$q)
//@ret r
//@contract
    ensures rpc_exported(self.inner, Message::Logs(grouped_logs(batch, self.resource)), old(w).log@, final(w).log@, r), self.inner.is_none() ==> r->Err_0 is AlreadyShutdown,
//@endfn
//@fn opentelemetry-otlp/src/exporter/tonic/logs.rs impl LogExporter for TonicLogsClient :: fn set_resource
//@sig fn set_resource_logs(&mut self, resource: &Resource)
//@contract
    ensures *final(self) == (TonicLogsClient { resource: attributes(*resource), ..*old(self) }),
//@endfn
}
impl TonicMetricsClient {
//@fn opentelemetry-otlp/src/exporter/tonic/metrics.rs impl TonicMetricsClient :: fn new
//@ret r
//@contract
    ensures !r.inner.poisoned, r.inner.v matches Some(i) && compressed(i.client, channel, compression) && i.interceptor == interceptor,
//@endfn
//@fn opentelemetry-otlp/src/exporter/tonic/metrics.rs impl MetricsClient for TonicMetricsClient :: fn export
//@sig fn export_metrics(&self, w: &mut Net, metrics: &mut ResourceMetrics) -> OTelSdkResult
//@subst? let (mut client, metadata, extensions) = self.inner.lock().failed().and_then(|mut inner| match &mut *inner { $$b })?; ~> let g = self.inner.lock().failed()?; let (mut client, metadata, extensions) = (match g.v { $$b })?;
//@subst? inner.interceptor.call($$q) ~> inner.interceptor.call(w, $$q)
//@subst? client.export($$q) ~> client.export(w, $$q)
//@ret r
//@contract
    ensures *final(metrics) == *old(metrics), self.inner.poisoned ==> r.is_err() && final(w).log@ == old(w).log@,
        !self.inner.poisoned ==> rpc_exported(self.inner.v, Message::Metrics(of_metrics(*old(metrics))), old(w).log@, final(w).log@, r),
//@endfn
//@fn opentelemetry-otlp/src/exporter/tonic/metrics.rs impl MetricsClient for TonicMetricsClient :: fn shutdown
//@sig fn shutdown_metrics(&mut self) -> OTelSdkResult
//@subst? self.inner.lock().failed()?.take() ~> self.inner.take_locked()?
//@ret r
//@contract
    ensures r.is_ok() <==> !old(self).inner.poisoned, !old(self).inner.poisoned ==> final(self).inner.v.is_none() && !final(self).inner.poisoned,
//@endfn
}
#[verifier::external_body] fn no_resource() -> ResourceAttributesWithSchema { unimplemented!() }
// ---- the exporters: each call goes to the transport that was built ----
//@gsubst crate::exporter::tonic::trace::TonicTracesClient ~> TonicTracesClient
//@gsubst crate::exporter::tonic::logs::TonicLogsClient ~> TonicLogsClient
//@gsubst crate::exporter::tonic::metrics::TonicMetricsClient ~> TonicMetricsClient
//@gsubst crate::exporter::http::OtlpHttpClient ~> OtlpHttpClient
//@item opentelemetry-otlp/src/span.rs enum SupportedTransportClient
//@ subst SupportedTransportClient ~> SpanTransport
//@item opentelemetry-otlp/src/span.rs struct SpanExporter
//@ subst SupportedTransportClient ~> SpanTransport
//@item opentelemetry-otlp/src/logs.rs enum SupportedTransportClient
//@ subst SupportedTransportClient ~> LogTransport
//@item opentelemetry-otlp/src/logs.rs struct LogExporter
//@ subst SupportedTransportClient ~> LogTransport
//@item opentelemetry-otlp/src/metric.rs enum SupportedTransportClient
//@ subst SupportedTransportClient ~> MetricTransport
//@item opentelemetry-otlp/src/metric.rs struct MetricExporter
//@ subst SupportedTransportClient ~> MetricTransport
impl SpanExporter {
//@fn opentelemetry-otlp/src/span.rs impl SpanExporter :: fn from_http
//@subst? SupportedTransportClient ~> SpanTransport
//@ret r
//@contract
    ensures r.client == SpanTransport::Http(client),
//@endfn
//@fn opentelemetry-otlp/src/span.rs impl SpanExporter :: fn from_tonic
//@subst? SupportedTransportClient ~> SpanTransport
//@ret r
//@contract
    ensures r.client == SpanTransport::Tonic(client),
//@endfn
//@fn opentelemetry-otlp/src/span.rs impl opentelemetry_sdk::trace::SpanExporter for SpanExporter :: fn export
//@sig fn export(&self, w: &mut Net, batch: Vec<SpanData>) -> OTelSdkResult
//@subst? SupportedTransportClient ~> SpanTransport
//@subst? client.export(batch) ~> client.export_spans(w, batch)
//@ret r
//@contract
    ensures match self.client {
        SpanTransport::Http(c) => http_exported(c, Message::Spans(grouped_spans(batch@, c.resource)), old(w).log@, final(w).log@, r),
        SpanTransport::Tonic(c) => rpc_exported(c.inner, Message::Spans(grouped_spans(batch@, c.resource)), old(w).log@, final(w).log@, r) },
//@endfn
//@fn opentelemetry-otlp/src/span.rs impl opentelemetry_sdk::trace::SpanExporter for SpanExporter :: fn shutdown
//@sig fn shutdown(&mut self) -> OTelSdkResult
//@subst? SupportedTransportClient ~> SpanTransport
//@subst? client.shutdown() ~> client.shutdown_spans()
//@ret r
//@contract
    ensures match (old(self).client, final(self).client) { (SpanTransport::Http(c), SpanTransport::Http(d)) => http_closed(c, d, r), (SpanTransport::Tonic(c), SpanTransport::Tonic(d)) => d == (TonicTracesClient { inner: None, ..c }) && (r.is_ok() <==> c.inner.is_some()), _ => false },
//@endfn
//@fn opentelemetry-otlp/src/span.rs impl opentelemetry_sdk::trace::SpanExporter for SpanExporter :: fn set_resource
//@sig fn set_resource(&mut self, resource: &Resource)
//@subst? SupportedTransportClient ~> SpanTransport
//@subst? client.set_resource(resource) ~> client.set_resource_spans(resource)
//@contract
    ensures match (old(self).client, final(self).client) { (SpanTransport::Http(c), SpanTransport::Http(d)) => d == (OtlpHttpClient { resource: attributes(*resource), ..c }), (SpanTransport::Tonic(c), SpanTransport::Tonic(d)) => d == (TonicTracesClient { resource: attributes(*resource), ..c }), _ => false },
//@endfn
}
impl LogExporter {
//@fn opentelemetry-otlp/src/logs.rs impl LogExporter :: fn from_http
//@subst? SupportedTransportClient ~> LogTransport
//@ret r
//@contract
    ensures r.client == LogTransport::Http(client),
//@endfn
//@fn opentelemetry-otlp/src/logs.rs impl LogExporter :: fn from_tonic
//@subst? SupportedTransportClient ~> LogTransport
//@ret r
//@contract
    ensures r.client == LogTransport::Tonic(client),
//@endfn
//@fn opentelemetry-otlp/src/logs.rs impl opentelemetry_sdk::logs::LogExporter for LogExporter :: fn export
//@sig fn export(&self, w: &mut Net, batch: LogBatch<'_>) -> OTelSdkResult
//@subst? SupportedTransportClient ~> LogTransport
//@subst? client.export(batch) ~> client.export_logs(w, batch)
//@ret r
//@contract
    ensures match self.client {
        LogTransport::Http(c) => http_exported(c, Message::Logs(grouped_logs(batch, c.resource)), old(w).log@, final(w).log@, r),
        LogTransport::Tonic(c) => rpc_exported(c.inner, Message::Logs(grouped_logs(batch, c.resource)), old(w).log@, final(w).log@, r) },
//@endfn
//@fn opentelemetry-otlp/src/logs.rs impl opentelemetry_sdk::logs::LogExporter for LogExporter :: fn shutdown
//@sig fn shutdown(&mut self) -> OTelSdkResult
//@subst? match &self.client ~> match &mut self.client
//@subst? SupportedTransportClient ~> LogTransport
//@subst? client.shutdown() ~> client.shutdown_logs()
//@ret r
//@contract
    ensures match (old(self).client, final(self).client) { (LogTransport::Http(c), LogTransport::Http(d)) => http_closed(c, d, r), (LogTransport::Tonic(_), LogTransport::Tonic(_)) => true, _ => false },
//@endfn
//@fn opentelemetry-otlp/src/logs.rs impl opentelemetry_sdk::logs::LogExporter for LogExporter :: fn set_resource
//@sig fn set_resource(&mut self, resource: &Resource)
//@subst? SupportedTransportClient ~> LogTransport
//@subst? client.set_resource(resource) ~> client.set_resource_logs(resource)
//@contract
    ensures match (old(self).client, final(self).client) { (LogTransport::Http(c), LogTransport::Http(d)) => d == (OtlpHttpClient { resource: attributes(*resource), ..c }), (LogTransport::Tonic(c), LogTransport::Tonic(d)) => d == (TonicLogsClient { resource: attributes(*resource), ..c }), _ => false },
//@endfn
}
impl TonicLogsClient { #[verifier::external_body] fn shutdown_logs(&mut self) -> OTelSdkResult { unimplemented!() } }
impl MetricExporter {
//@fn opentelemetry-otlp/src/metric.rs impl MetricExporter :: fn from_http
//@subst? SupportedTransportClient ~> MetricTransport
//@ret r
//@contract
    ensures r.client == MetricTransport::Http(client), r.temporality == temporality,
//@endfn
//@fn opentelemetry-otlp/src/metric.rs impl MetricExporter :: fn from_tonic
//@subst? SupportedTransportClient ~> MetricTransport
//@ret r
//@contract
    ensures r.client == MetricTransport::Tonic(client), r.temporality == temporality,
//@endfn
//@fn opentelemetry-otlp/src/metric.rs impl PushMetricExporter for MetricExporter :: fn temporality
//@ret r
//@contract
    ensures r == self.temporality,
//@endfn
//@fn opentelemetry-otlp/src/metric.rs impl PushMetricExporter for MetricExporter :: fn export
//@sig fn export(&self, w: &mut Net, metrics: &mut ResourceMetrics) -> OTelSdkResult
//@subst? SupportedTransportClient ~> MetricTransport
//@subst? client.export(metrics) ~> client.export_metrics(w, metrics)
//@ret r
//@contract
    ensures *final(metrics) == *old(metrics), match self.client {
        MetricTransport::Http(c) => http_exported(c, Message::Metrics(of_metrics(*old(metrics))), old(w).log@, final(w).log@, r),
        MetricTransport::Tonic(c) => if c.inner.poisoned { r.is_err() && final(w).log@ == old(w).log@ } else { rpc_exported(c.inner.v, Message::Metrics(of_metrics(*old(metrics))), old(w).log@, final(w).log@, r) } },
//@endfn
//@fn opentelemetry-otlp/src/metric.rs impl PushMetricExporter for MetricExporter :: fn shutdown_with_timeout
//@sig fn shutdown_with_timeout(&mut self, _timeout: u64) -> OTelSdkResult
//@subst? match &self.client ~> match &mut self.client
//@subst? SupportedTransportClient ~> MetricTransport
//@subst? client.shutdown() ~> client.shutdown_metrics()
//@ret r
//@contract
    ensures metrics_closed(*old(self), *final(self), r),
//@endfn
//@fn opentelemetry-otlp/src/metric.rs impl PushMetricExporter for MetricExporter :: fn shutdown
//@sig fn shutdown(&mut self) -> OTelSdkResult
//@subst? Duration::from_secs($$n) ~> $$n
//@ret r
//@contract
    ensures metrics_closed(*old(self), *final(self), r),
//@endfn
}
spec fn metrics_closed(b: MetricExporter, a: MetricExporter, r: Result<(), OTelSdkError>) -> bool {
    a.temporality == b.temporality && match (b.client, a.client) {
        (MetricTransport::Http(c), MetricTransport::Http(d)) => closed(c, d) && (r.is_ok() <==> !c.client.poisoned),
        (MetricTransport::Tonic(c), MetricTransport::Tonic(d)) => (r.is_ok() <==> !c.inner.poisoned) && (!c.inner.poisoned ==> d.inner.v.is_none() && !d.inner.poisoned), _ => false }
}
} // verus!
fn main() {}

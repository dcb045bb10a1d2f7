// Unit: the HTTP clients (opentelemetry-http/src/lib.rs): hyper, reqwest and blocking reqwest. async fns are read as fns.
use vstd::prelude::*;
verus! {
#[verifier::external_body] struct Line { _p: u8 }
#[verifier::external_body] struct Headers { _p: u8 }
#[verifier::external_body] struct HeaderValue { _p: u8 }
#[verifier::external_body] #[verifier::ext_equal] struct Bytes { _p: u8 }
#[verifier::external_body] struct HttpError { _p: u8 }
uninterp spec fn no_headers() -> Headers;
/// the headers with all values of a name replaced
uninterp spec fn replaced(h: Headers, name: Seq<char>, v: HeaderValue) -> Headers;
impl Headers { #[verifier::external_body] fn insert(&mut self, name: HeaderName, v: HeaderValue) ensures *final(self) == replaced(*old(self), name.n@, v) { unimplemented!() } }
struct HeaderName { n: &'static str }
fn authorization_name() -> (r: HeaderName) ensures r.n@ == "authorization"@ { HeaderName { n: "authorization" } }
impl HeaderValue { #[verifier::external_body] fn clone(&self) -> (r: HeaderValue) ensures r == *self { unimplemented!() } }
#[verifier::external_body] fn take_headers(h: &mut Headers) -> (r: Headers) ensures r == *old(h), *final(h) == no_headers() { unimplemented!() }
/// method, target and version
struct Parts { line: Line, headers: Headers }
struct Request { parts: Parts, body: Bytes }
struct Body(Bytes);
mod full { use super::*; }
struct Full { _p: u8 }
impl Full { fn from_(b: Bytes) -> (r: Bytes) ensures r == b { b } }
struct Outgoing { parts: Parts, body: Body }
impl Request {
    fn into_parts(self) -> (r: (Parts, Bytes)) ensures r == (self.parts, self.body) { (self.parts, self.body) }
    fn from_parts(p: Parts, b: Body) -> (r: Outgoing) ensures r.parts == p, r.body == b { Outgoing { parts: p, body: b } }
    /// reqwest's own form of it
    #[verifier::external_body] fn try_into(self) -> (r: Result<Outgoing, HttpError>) ensures r is Ok ==> (r->Ok_0).parts == self.parts && (r->Ok_0).body.0 == self.body { unimplemented!() }
}
impl Outgoing { #[verifier::external_body] fn headers_mut(&mut self) -> (r: &mut Headers) ensures *r == old(self).parts.headers, *final(self) == (Outgoing { parts: Parts { headers: *final(r), ..old(self).parts }, ..*old(self) }) { unimplemented!() } }
#[derive(Clone, Copy)] struct StatusCode { c: u16 }
impl StatusCode {
    fn is_success(&self) -> (r: bool) ensures r == (200 <= self.c < 300) { 200 <= self.c && self.c < 300 }
}
/// an answer whose body is still to be read
struct Incoming { status: StatusCode, headers: Headers, rest: Ghost<Bytes> }
struct IncomingBody { rest: Ghost<Bytes> }
struct Collected { all: Bytes }
impl Collected { fn to_bytes(self) -> (r: Bytes) ensures r == self.all { self.all } }
struct Duration { ms: u64 }
enum Ev { Sent(Outgoing), Answered(Incoming), Failed, Read(Bytes), Cut, Limit(Duration) }
struct Net { evs: Ghost<Seq<Ev>> }
impl Incoming {
    fn status(&self) -> (r: StatusCode) ensures r == self.status { self.status }
    #[verifier::external_body] fn headers_mut(&mut self) -> (r: &mut Headers) ensures *r == old(self).headers, *final(self) == (Incoming { headers: *final(r), ..*old(self) }) { unimplemented!() }
    fn into_body(self) -> (r: IncomingBody) ensures r.rest == self.rest { IncomingBody { rest: self.rest } }
    #[verifier::external_body] fn bytes(self, n: &mut Net) -> (r: Result<Bytes, HttpError>) ensures match r { Ok(b) => b == self.rest@ && final(n).evs@ == old(n).evs@.push(Ev::Read(b)), Err(_) => final(n).evs@ == old(n).evs@.push(Ev::Cut) } { unimplemented!() }
    /// reqwest's: an error for a client or server error
    #[verifier::external_body] fn error_for_status(self) -> (r: Result<Incoming, HttpError>) ensures match r { Ok(x) => x == self && !(400 <= self.status.c < 600), Err(_) => 400 <= self.status.c < 600 } { unimplemented!() }
}
impl IncomingBody {
    #[verifier::external_body] fn collect(self, n: &mut Net) -> (r: Result<Collected, HttpError>) ensures match r { Ok(b) => b.all == self.rest@ && final(n).evs@ == old(n).evs@.push(Ev::Read(b.all)), Err(_) => final(n).evs@ == old(n).evs@.push(Ev::Cut) } { unimplemented!() }
}
#[verifier::external_body] struct Wire { _p: u8 }
impl Wire {
    #[verifier::external_body] fn request(&self, r: Outgoing, n: &mut Net) -> (a: Result<Incoming, HttpError>)
        ensures final(n).evs@ == old(n).evs@.push(Ev::Sent(r)).push(match a { Ok(x) => Ev::Answered(x), Err(_) => Ev::Failed }) { unimplemented!() }
}
/// gives up when what came before took longer than the limit
#[verifier::external_body] fn limited_<T>(d: Duration, x: T, n: &mut Net) -> (r: Result<T, HttpError>) ensures final(n).evs@ == old(n).evs@.push(Ev::Limit(d)), r is Ok ==> r->Ok_0 == x { unimplemented!() }
fn limited<T>(d: Duration, x: T, n: &mut Net) -> (r: Result<T, HttpError>) ensures final(n).evs@.len() > 0, final(n).evs@.last() == Ev::Limit(d), final(n).evs@.drop_last() == old(n).evs@, r is Ok ==> r->Ok_0 == x
{ let ghost e = n.evs@; let r = limited_(d, x, n); proof { assert(n.evs@.drop_last() =~= e); } r }
struct Response { status: StatusCode, headers: Headers, body: Bytes }
struct Building { status: StatusCode }
impl Response {
    #[verifier::external_body] fn builder() -> (r: Building) ensures r.status.c == 200 { unimplemented!() }
    fn status(&self) -> (r: StatusCode) ensures r == self.status { self.status }
    #[verifier::external_body] fn headers_mut(&mut self) -> (r: &mut Headers) ensures *r == old(self).headers, *final(self) == (Response { headers: *final(r), ..*old(self) }) { unimplemented!() }
}
impl Building {
    fn status(self, s: StatusCode) -> (r: Building) ensures r.status == s { Building { status: s } }
    #[verifier::external_body] fn body(self, b: Bytes) -> (r: Result<Response, HttpError>) ensures r is Ok ==> (r->Ok_0).status == self.status && (r->Ok_0).body == b && (r->Ok_0).headers == no_headers() { unimplemented!() }
}
#[verifier::external_body] fn status_error() -> HttpError { unimplemented!() }
//@gsubst .await ~> 
//@gsubst std::mem::take ~> take_headers
//@gsubst Full::from ~> Full::from_
//@gsubst http::header::AUTHORIZATION ~> authorization_name()
//@gsubst format!($$a).into() ~> status_error()
//@gsubst time::timeout($$a) ~> limited($$a, n)
//@gsubst self.inner.request($$a) ~> self.inner.request($$a, n)
//@gsubst self.exchange($$a) ~> self.exchange($$a, n)
//@gsubst .collect() ~> .collect(n)
//@gsubst .bytes() ~> .bytes(n)
//@gsubst self.execute($$a) ~> self.wire.request($$a, n)

/// what an answer is given on as
spec fn given(r: Response, a: Incoming) -> bool { r.status == a.status && r.headers == a.headers && r.body == a.rest@ }
spec fn ok_status(c: u16) -> bool { 200 <= c < 300 }
/// one request, and what came of it: the whole answer, or an error
spec fn exchanged(e0: Seq<Ev>, e1: Seq<Ev>, out: Outgoing, r: Result<Response, HttpError>) -> bool {
    let k = e0.len() as int;
    e1.len() >= k + 2 && e1.take(k) =~= e0 && e1[k] == Ev::Sent(out) && match e1[k + 1] {
        Ev::Answered(a) => e1.len() == k + 3 && (match e1[k + 2] { Ev::Read(b) => b == a.rest@ && (r is Ok ==> given(r->Ok_0, a)), Ev::Cut => r is Err, _ => false }),
        Ev::Failed => e1.len() == k + 2 && r is Err,
        _ => false,
    }
}
impl Response {
//@fn opentelemetry-http/src/lib.rs impl ResponseExt for Response<T> :: fn error_for_status
//@sig fn error_for_status(self) -> (r: Result<Response, HttpError>)
//@contract
    // an error exactly for a status that is no success
    ensures match r { Ok(x) => x == self && ok_status(self.status.c), Err(_) => !ok_status(self.status.c) },
//@endfn
}
struct HyperClient { inner: Wire, timeout: Duration, authorization: Option<HeaderValue> }
#[verifier::external_body] struct Connector { _p: u8 }
#[verifier::external_body] fn wire_(c: Connector) -> Wire { unimplemented!() }
#[verifier::external_body] fn plain_connector() -> Connector { unimplemented!() }
impl Clone for Duration { fn clone(&self) -> (r: Duration) ensures r == *self { Duration { ms: self.ms } } }
impl Copy for Duration {}
spec fn authorized(h: Headers, a: Option<HeaderValue>) -> Headers { match a { Some(v) => replaced(h, "authorization"@, v), None => h } }
impl HyperClient {
//@fn opentelemetry-http/src/lib.rs mod hyper :: impl HyperClient<C> :: fn new
//@sig fn new(connector: Connector, timeout: Duration, authorization: Option<HeaderValue>) -> (r: Self)
//@subst Client::builder($$a).build(connector) ~> wire_(connector)
//@contract
    ensures r.timeout == timeout, r.authorization == authorization,
//@endfn
//@fn opentelemetry-http/src/lib.rs mod hyper :: impl HyperClient<HttpConnector> :: fn with_default_connector
//@subst HttpConnector::new() ~> plain_connector()
//@ret r
//@contract
    ensures r.timeout == timeout, r.authorization == authorization,
//@endfn
//@fn opentelemetry-http/src/lib.rs mod hyper :: impl HyperClient :: fn exchange
//@sig fn exchange(&self, request: Outgoing, n: &mut Net) -> (r: Result<Response, HttpError>)
//@contract
    ensures exchanged(old(n).evs@, final(n).evs@, request, r),
//@endfn
//@fn opentelemetry-http/src/lib.rs mod hyper :: impl HttpClient for HyperClient :: fn send_bytes
//@sig fn send_bytes(&self, request: Request, n: &mut Net) -> (r: Result<Response, HttpError>)
//@contract
    // the request as given, with the configured authorization; all of the exchange comes under the time limit; only a success is given on
    ensures final(n).evs@.len() > 0, final(n).evs@.last() == Ev::Limit(self.timeout),
        exists|out: Outgoing, x: Result<Response, HttpError>| #[trigger] exchanged(old(n).evs@, final(n).evs@.drop_last(), out, x)
            && out.parts.line == request.parts.line && out.parts.headers == authorized(request.parts.headers, self.authorization) && out.body.0 == request.body
            && (r is Ok ==> r == x && ok_status((r->Ok_0).status.c)),
//@endfn
}
/// both of reqwest's clients
struct Reqwest { wire: Wire }
spec fn fetched(e0: Seq<Ev>, e1: Seq<Ev>, q: Request, r: Result<Response, HttpError>) -> bool {
    let k = e0.len() as int;
    e1.len() >= k && e1.take(k) =~= e0 && if e1.len() == k { r is Err } else {
        e1.len() >= k + 2 && e1[k] is Sent && e1[k]->Sent_0.parts == q.parts && e1[k]->Sent_0.body.0 == q.body && match e1[k + 1] {
            Ev::Answered(a) => if 400 <= a.status.c < 600 { e1.len() == k + 2 && r is Err } else { e1.len() == k + 3 && (match e1[k + 2] { Ev::Read(b) => b == a.rest@ && (r is Ok ==> given(r->Ok_0, a)), Ev::Cut => r is Err, _ => false }) },
            Ev::Failed => e1.len() == k + 2 && r is Err,
            _ => false,
        }
    }
}
impl Reqwest {
//@fn opentelemetry-http/src/lib.rs mod reqwest :: impl HttpClient for reqwest::Client :: fn send_bytes
//@sig fn send_bytes(&self, request: Request, n: &mut Net) -> (r: Result<Response, HttpError>)
//@contract
    ensures fetched(old(n).evs@, final(n).evs@, request, r),
//@endfn
}
struct BlockingReqwest { wire: Wire }
impl BlockingReqwest {
//@fn opentelemetry-http/src/lib.rs mod reqwest :: impl HttpClient for reqwest::blocking::Client :: fn send_bytes
//@sig fn send_bytes(&self, request: Request, n: &mut Net) -> (r: Result<Response, HttpError>)
//@contract
    ensures fetched(old(n).evs@, final(n).evs@, request, r),
//@endfn
}
/// a request whose body is a vector, sent as one whose body is bytes
#[verifier::external_body] struct VecBody { _p: u8 }
uninterp spec fn bytes_of(v: VecBody) -> Bytes;
struct VecRequest { parts: Parts, body: VecBody }
impl VecRequest { #[verifier::external_body] fn map_bytes(self) -> (r: Request) ensures r.parts == self.parts, r.body == bytes_of(self.body) { unimplemented!() } }
#[verifier::external_body] struct Answered { _p: u8 }
trait HttpClient {
    spec fn sends(&self, q: Request, r: Answered) -> bool;
    fn send_bytes(&self, q: Request) -> (r: Answered) ensures self.sends(q, r);
//@fn opentelemetry-http/src/lib.rs trait HttpClient :: fn send
//@sig fn send(&self, request: VecRequest) -> (r: Answered)
//@subst request.map($$a) ~> request.map_bytes()
//@contract
    ensures self.sends(Request { parts: request.parts, body: bytes_of(request.body) }, r),
//@endfn
}
} // verus!
fn main() {}

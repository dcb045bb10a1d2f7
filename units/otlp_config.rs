// Unit: the OTLP exporters' settings (opentelemetry-otlp/src/exporter/{mod,http/mod,tonic/mod}.rs): endpoint, timeout,
// headers and compression from the builder, the signal's variable, the general variable, the default.
use vstd::prelude::*;
verus! {
// ---- the environment, std's and http's parsers ----
uninterp spec fn env_of(name: Seq<char>) -> Option<Seq<char>>;
uninterp spec fn dec_u64(s: Seq<char>) -> Option<u64>;
uninterp spec fn uri_of(s: Seq<char>) -> Option<Uri>;
uninterp spec fn hname(s: Seq<char>) -> Option<HeaderName>;
uninterp spec fn hvalue(s: Seq<char>) -> Option<HeaderValue>;
uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
uninterp spec fn utf8(b: Seq<u8>) -> Option<Seq<char>>;
broadcast axiom fn str_ext(a: &str, b: &str) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
struct E;
#[verifier::external_body] struct Uri { _p: u8 }
#[verifier::external_body] struct HeaderName { _p: u8 }
#[verifier::external_body] struct HeaderValue { _p: u8 }
#[verifier::external_body] struct InvalidUri { _p: u8 }
impl InvalidUri { #[verifier::external_body] fn to_string(&self) -> String { unimplemented!() } }
spec fn as_opt<T, X>(r: Result<T, X>) -> Option<T> { match r { Ok(v) => Some(v), Err(_) => None } }
#[verifier::external_body] fn env_raw(n: &str) -> (r: Result<String, E>)
    ensures match r { Ok(v) => env_of(n@) == Some(v@), Err(_) => env_of(n@).is_none() } { unimplemented!() }
#[verifier::external_body] fn parse_u64(s: &str) -> (r: Result<u64, E>) ensures as_opt(r) == dec_u64(s@) { unimplemented!() }
#[verifier::external_body] fn parse_uri(s: &str) -> (r: Result<Uri, InvalidUri>) ensures as_opt(r) == uri_of(s@) { unimplemented!() }
#[verifier::external_body] fn own(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] fn joined(a: &str, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] fn trim(s: &str) -> (r: &str) ensures r@ == trimmed(s@) { unimplemented!() }
#[verifier::external_body] fn blank(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body] fn utf8_of(b: &Vec<u8>) -> (r: Result<String, E>) ensures match r { Ok(v) => utf8(b@) == Some(v@), Err(_) => utf8(b@).is_none() } { unimplemented!() }
#[verifier::external_body] fn push_char(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
#[verifier::external_body] fn push_text(s: &mut String, t: String) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
#[verifier::external_body] fn with_room(n: usize) -> (r: String) ensures r@.len() == 0 { unimplemented!() }
trait Text { spec fn tv(&self) -> Seq<char>; fn starts(&self, c: char) -> (r: bool) ensures r == (self.tv().len() > 0 && self.tv()[0] == c); fn ends(&self, c: char) -> (r: bool) ensures r == (self.tv().len() > 0 && self.tv().last() == c); }
impl Text for str { spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn starts(&self, c: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn ends(&self, c: char) -> (r: bool) { unimplemented!() } }
#[verifier::external_body] fn strip(s: &str, c: char) -> (r: Option<&str>)
    ensures match r { Some(t) => s@.len() > 0 && s@[0] == c && t@ == s@.subrange(1, s@.len() as int), None => !(s@.len() > 0 && s@[0] == c) } { unimplemented!() }
/// std::time::Duration, in nanoseconds
#[derive(Clone, Copy)]
struct Duration { ns: u128 }
impl Duration {
    fn from_millis(ms: u64) -> (r: Duration) ensures r.ns == ms * 1_000_000 { proof { assert(ms as int * 1_000_000 <= 0xffff_ffff_ffff_ffff * 1_000_000) by (nonlinear_arith); } Duration { ns: ms as u128 * 1_000_000 } }
}
//@gsubst : &str = ~> : &'static str =
//@gsubst crate::logs::$c ~> $c
//@gsubst crate::span::$c ~> $c
//@gsubst crate::metric::$c ~> $c
//@gsubst crate::SpanExporter ~> SpanExporter
//@gsubst crate::LogExporter ~> LogExporter
//@gsubst crate::MetricExporter ~> MetricExporter
//@gsubst env::var($$n) ~> env_raw($$n)
//@gsubst std::env_raw ~> env_raw
//@gsubst .and_then(|$s| $s.parse().ok()) ~> .and_then(|$s: String| -> (r: Option<u64>) ensures r == dec_u64($s@) { parse_u64(&$s).ok() })
//@gsubst OTEL_EXPORTER_OTLP_TIMEOUT_DEFAULT ~> timeout_default()
//@gsubst HashMap<HeaderName, HeaderValue> ~> Headers

//@item opentelemetry-otlp/src/exporter/mod.rs const OTEL_EXPORTER_OTLP_ENDPOINT
//@item opentelemetry-otlp/src/exporter/mod.rs const OTEL_EXPORTER_OTLP_HEADERS
//@item opentelemetry-otlp/src/exporter/mod.rs const OTEL_EXPORTER_OTLP_COMPRESSION
//@item opentelemetry-otlp/src/exporter/mod.rs const OTEL_EXPORTER_OTLP_TIMEOUT
//@item opentelemetry-otlp/src/exporter/mod.rs const OTEL_EXPORTER_OTLP_HTTP_ENDPOINT_DEFAULT
//@item opentelemetry-otlp/src/exporter/mod.rs const OTEL_EXPORTER_OTLP_GRPC_ENDPOINT_DEFAULT
//@item opentelemetry-otlp/src/span.rs const OTEL_EXPORTER_OTLP_TRACES_ENDPOINT
//@item opentelemetry-otlp/src/span.rs const OTEL_EXPORTER_OTLP_TRACES_TIMEOUT
//@item opentelemetry-otlp/src/span.rs const OTEL_EXPORTER_OTLP_TRACES_COMPRESSION
//@item opentelemetry-otlp/src/span.rs const OTEL_EXPORTER_OTLP_TRACES_HEADERS
//@item opentelemetry-otlp/src/logs.rs const OTEL_EXPORTER_OTLP_LOGS_ENDPOINT
//@item opentelemetry-otlp/src/logs.rs const OTEL_EXPORTER_OTLP_LOGS_TIMEOUT
//@item opentelemetry-otlp/src/logs.rs const OTEL_EXPORTER_OTLP_LOGS_COMPRESSION
//@item opentelemetry-otlp/src/logs.rs const OTEL_EXPORTER_OTLP_LOGS_HEADERS
//@item opentelemetry-otlp/src/metric.rs const OTEL_EXPORTER_OTLP_METRICS_ENDPOINT
//@item opentelemetry-otlp/src/metric.rs const OTEL_EXPORTER_OTLP_METRICS_TIMEOUT
//@item opentelemetry-otlp/src/metric.rs const OTEL_EXPORTER_OTLP_METRICS_COMPRESSION
//@item opentelemetry-otlp/src/metric.rs const OTEL_EXPORTER_OTLP_METRICS_HEADERS
//@fn opentelemetry-otlp/src/exporter/mod.rs const OTEL_EXPORTER_OTLP_TIMEOUT_DEFAULT
//@sig fn timeout_default() -> Duration
//@ret r
//@contract
    ensures r.ns == 10_000_000_000,
//@endfn
//@item opentelemetry-otlp/src/exporter/mod.rs enum ExporterBuildError
//@item opentelemetry-otlp/src/exporter/mod.rs enum Compression
impl Clone for Compression { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Compression {}
//@item opentelemetry-otlp/src/lib.rs enum Protocol
impl Clone for Protocol { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Protocol {}

/// an empty value counts as not set
spec fn set_of(name: Seq<char>) -> Option<Seq<char>> { match env_of(name) { Some(s) => if s.len() > 0 { Some(s) } else { None }, None => None } }
spec fn as_view(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
//@fn opentelemetry-otlp/src/exporter/mod.rs fn env_var
//@subst? env_raw($$n).ok().filter(|$v| $$f) ~> match env_raw($$n) { Ok(x) => { let $v = &x; if $$f { Some(x) } else { None } } Err(_) => None }
//@subst? $v.is_empty() ~> blank($v)
//@ret r
//@contract
    ensures as_view(r) == set_of(name@),
//@endfn

// ---- the timeout ----
spec fn ms_var(name: Seq<char>) -> Option<u64> { match env_of(name) { Some(s) => dec_u64(s), None => None } }
spec fn timeout_of(var: Seq<char>, given: Option<Duration>) -> nat {
    match given { Some(d) => d.ns as nat, None => match ms_var(var) { Some(v) => v as nat * 1_000_000, None =>
        match ms_var("OTEL_EXPORTER_OTLP_TIMEOUT"@) { Some(v) => v as nat * 1_000_000, None => 10_000_000_000 } } }
}
//@fn opentelemetry-otlp/src/exporter/mod.rs fn resolve_timeout
//@ret r
//@contract
    ensures r.ns == timeout_of(signal_timeout_var@, match provided_timeout { Some(d) => Some(*d), None => None }),
//@endfn

// ---- header lists ----
spec fn hex(c: char) -> Option<u8> {
    if '0' <= c && c <= '9' { Some((c as u32 - 48) as u8) } else if 'a' <= c && c <= 'f' { Some((c as u32 - 87) as u8) } else if 'A' <= c && c <= 'F' { Some((c as u32 - 55) as u8) } else { None }
}
trait Digit { spec fn dv(self) -> Option<u8>; fn digit16(self) -> (r: Option<u32>) ensures match r { Some(d) => self.dv() == Some(d as u8) && d < 16, None => self.dv().is_none() }; }
impl Digit for char { spec fn dv(self) -> Option<u8> { hex(self) }
    #[verifier::external_body] fn digit16(self) -> (r: Option<u32>) { unimplemented!() } }
struct Chars { rest: Ghost<Seq<char>> }
impl Chars { #[verifier::external_body] fn next(&mut self) -> (r: Option<char>)
    ensures match r { Some(c) => old(self).rest@.len() > 0 && c == old(self).rest@[0] && final(self).rest@ == old(self).rest@.subrange(1, old(self).rest@.len() as int), None => old(self).rest@.len() == 0 && final(self).rest@ == old(self).rest@ } { unimplemented!() } }
#[verifier::external_body] fn chars_of(s: &str) -> (r: Chars) ensures r.rest@ == s@ { unimplemented!() }
spec fn pre(a: Seq<char>, o: Option<Seq<char>>) -> Option<Seq<char>> { match o { Some(b) => Some(a + b), None => None } }
spec fn flushed(p: Seq<u8>) -> Option<Seq<char>> { if p.len() == 0 { Some(Seq::empty()) } else { utf8(p) } }
/// percent-decoding: runs of %XX are the bytes of UTF-8 text, everything else stands for itself
spec fn decoded(s: Seq<char>, p: Seq<u8>) -> Option<Seq<char>> decreases s.len() {
    if s.len() == 0 { flushed(p) }
    else if s[0] == '%' {
        if s.len() < 3 { None } else { match (hex(s[1]), hex(s[2])) { (Some(h), Some(l)) => decoded(s.subrange(3, s.len() as int), p.push((h * 16 + l) as u8)), _ => None } }
    } else { match flushed(p) { None => None, Some(f) => pre(f.push(s[0]), decoded(s.subrange(1, s.len() as int), Seq::empty())) } }
}
proof fn one_step(s: Seq<char>, p: Seq<u8>, res: Seq<char>)
    ensures s.len() >= 3 ==> s.subrange(1, s.len() as int).subrange(1, s.len() - 1).subrange(1, s.len() - 2) == s.subrange(3, s.len() as int),
        s.len() > 0 && s[0] != '%' ==> match flushed(p) { None => true, Some(f) => pre(res, decoded(s, p)) == pre((res + f).push(s[0]), decoded(s.subrange(1, s.len() as int), Seq::empty())) },
        p.len() == 0 ==> res + flushed(p)->0 == res && p == Seq::<u8>::empty(),
        s.len() == 0 ==> pre(res, decoded(s, p)) == (match flushed(p) { None => None, Some(f) => Some(res + f) }),
{
    if s.len() >= 3 { assert(s.subrange(1, s.len() as int).subrange(1, s.len() - 1).subrange(1, s.len() - 2) =~= s.subrange(3, s.len() as int)); }
    if p.len() == 0 { assert(res + flushed(p)->0 =~= res); assert(p =~= Seq::<u8>::empty()); }
    if s.len() > 0 && s[0] != '%' {
        match flushed(p) { None => {}, Some(f) => { match decoded(s.subrange(1, s.len() as int), Seq::empty()) { None => {}, Some(x) => { assert(res + (f.push(s[0]) + x) =~= (res + f).push(s[0]) + x); } } } }
    }
}
//@fn opentelemetry-otlp/src/exporter/mod.rs fn url_decode
//@subst? String::with_capacity($$n) ~> with_room($$n)
//@subst? Vec::<u8>::new() ~> Vec::new()
//@subst? value.chars() ~> chars_of(value)
//@subst? value.len() ~> 0usize
//@subst? .to_digit(16) ~> .digit16()
//@subst? result.push_str(std::str::from_utf8(&chars_to_decode).ok()?) ~> push_text(&mut result, utf8_of(&chars_to_decode).ok()?)
//@subst? result.push(c) ~> push_char(&mut result, c)
//@subst? chars_to_decode.is_empty() ~> (chars_to_decode.len() == 0)
//@ret r
//@contract
    ensures match r { Some(t) => decoded(value@, Seq::empty()) == Some(t@), None => decoded(value@, Seq::empty()).is_none() },
//@loop 0
    invariant decoded(value@, Seq::empty()) == pre(result@, decoded(all_chars.rest@, chars_to_decode@)),
    decreases all_chars.rest@.len(),
//@inloop 0
    proof { one_step(all_chars.rest@, chars_to_decode@, result@); }
//@endfn

/// the text before and after the first c
spec fn cut(s: Seq<char>, c: char) -> Option<(Seq<char>, Seq<char>)> decreases s.len() {
    if s.len() == 0 { None } else if s[0] == c { Some((Seq::empty(), s.subrange(1, s.len() as int))) }
    else { match cut(s.subrange(1, s.len() as int), c) { Some((a, b)) => Some((seq![s[0]] + a, b)), None => None } }
}
proof fn cut_shorter(s: Seq<char>, c: char) ensures cut(s, c) matches Some((a, b)) ==> b.len() < s.len() decreases s.len() { if s.len() > 0 && s[0] != c { cut_shorter(s.subrange(1, s.len() as int), c); } }
spec fn fields(s: Seq<char>, n: nat) -> Seq<Seq<char>> decreases n {
    if s.len() == 0 || n == 0 { Seq::empty() } else { match cut(s, ',') { Some((a, b)) => seq![a] + fields(b, (n - 1) as nat), None => seq![s] } }
}
spec fn entry(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    match cut(s, '=') { None => None, Some((k, v)) => {
        let d = match decoded(trimmed(v), Seq::empty()) { Some(t) => t, None => trimmed(v) };
        if trimmed(k).len() > 0 && d.len() > 0 { Some((trimmed(k), d)) } else { None } } }
}
spec fn kept(f: Seq<Seq<char>>) -> Seq<(Seq<char>, Seq<char>)> decreases f.len() {
    if f.len() == 0 { Seq::empty() } else { match entry(f.last()) { Some(e) => kept(f.drop_last()).push(e), None => kept(f.drop_last()) } }
}
spec fn trims(f: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(f.len(), |i: int| trimmed(f[i])) }
spec fn entries(s: Seq<char>) -> Seq<(Seq<char>, Seq<char>)> { kept(trims(fields(s, s.len()))) }
#[verifier::external_body] fn split_once(s: &str, c: char) -> (r: Option<(&str, &str)>)
    ensures match r { Some((a, b)) => cut(s@, c) == Some((a@, b@)), None => cut(s@, c).is_none() } { unimplemented!() }
spec fn views(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
spec fn pviews(v: Seq<(&str, String)>) -> Seq<(Seq<char>, Seq<char>)> { Seq::new(v.len(), |i: int| (v[i].0@, v[i].1@)) }
#[verifier::external_body] fn split_terminator(s: &str) -> (r: Vec<&str>) ensures views(r@) == fields(s@, s@.len()) { unimplemented!() }
fn trim_all<'a>(v: Vec<&'a str>) -> (r: Vec<&'a str>) ensures views(r@) == trims(views(v@)) {
    let mut r: Vec<&'a str> = Vec::new();
    for i in 0..v.len() invariant r@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] r@[j]@ == trimmed(v@[j]@) { r.push(trim(v[i])); }
    proof { assert(views(r@) =~= trims(views(v@))); }
    r
}
fn keep_entries<'a>(v: Vec<&'a str>) -> (r: Vec<(&'a str, String)>) ensures pviews(r@) == kept(views(v@)) {
    let mut r: Vec<(&'a str, String)> = Vec::new();
    for i in 0..v.len() invariant pviews(r@) == kept(views(v@).take(i as int)) {
        proof { assert(views(v@).take(i + 1).drop_last() =~= views(v@).take(i as int)); }
        match parse_header_key_value_string(v[i]) {
            Some(e) => { let ghost o = r@; r.push(e); proof { assert(pviews(r@) =~= pviews(o).push((e.0@, e.1@))); } }
            None => {}
        }
    }
    proof { assert(views(v@).take(v@.len() as int) =~= views(v@)); }
    r
}
//@fn opentelemetry-otlp/src/exporter/mod.rs fn parse_header_key_value_string
//@subst? key_value_string.split_once('=').map(|(key, value)| { $$b }).filter(|(key, value)| $$f) ~> match split_once(key_value_string, '=') { Some((key, value)) => { let kv = { $$b }; let (key, value) = (kv.0, &kv.1); if $$f { Some(kv) } else { None } } None => None }
//@subst? $x.is_empty() ~> blank($x)
//@subst? $x.trim() ~> trim($x)
//@subst? $x.to_string() ~> own($x)
//@ret r
//@contract
    ensures match r { Some((k, v)) => entry(key_value_string@) == Some((k@, v@)), None => entry(key_value_string@).is_none() },
//@endfn
//@fn opentelemetry-otlp/src/exporter/mod.rs fn parse_header_string
//@sig fn parse_header_string<'a>(value: &'a str) -> Vec<(&'a str, String)>
//@subst? value.split_terminator(',').map(str::trim).filter_map(parse_header_key_value_string) ~> keep_entries(trim_all(split_terminator(value)))
//@ret r
//@contract
    ensures pviews(r@) == entries(value@),
//@endfn

// ---- the header maps ----
struct Headers { m: Ghost<Map<HeaderName, HeaderValue>> }
spec fn hdr(e: (Seq<char>, Seq<char>)) -> Option<(HeaderName, HeaderValue)> { match (hname(e.0), hvalue(e.1)) { (Some(k), Some(v)) => Some((k, v)), _ => None } }
/// m with the valid ones of the entries, the later one winning
spec fn with_all(m: Map<HeaderName, HeaderValue>, es: Seq<(Seq<char>, Seq<char>)>) -> Map<HeaderName, HeaderValue> decreases es.len() {
    if es.len() == 0 { m } else { match hdr(es.last()) { Some((k, v)) => with_all(m, es.drop_last()).insert(k, v), None => with_all(m, es.drop_last()) } }
}
impl Headers {
    #[verifier::external_body] fn new() -> (r: Headers) ensures r.m@ == Map::<HeaderName, HeaderValue>::empty() { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, k: HeaderName, v: HeaderValue) ensures final(self).m@ == old(self).m@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] fn is_empty(&self) -> (r: bool) ensures r == (self.m@ == Map::<HeaderName, HeaderValue>::empty()) { unimplemented!() }
}
#[verifier::external_body] fn header_name(s: &str) -> (r: Result<HeaderName, E>) ensures as_opt(r) == hname(s@) { unimplemented!() }
#[verifier::external_body] fn header_value(s: &str) -> (r: Result<HeaderValue, E>) ensures as_opt(r) == hvalue(s@) { unimplemented!() }
//@gsubst HeaderName::from_str($$k) ~> header_name($$k)
//@gsubst HeaderValue::from_str($$v) ~> header_value($$v)
//@fn opentelemetry-otlp/src/exporter/http/mod.rs fn add_header_from_string
//@closure |(key, value)|
//@sig fn listed_header(key: &str, value: String) -> Option<(HeaderName, HeaderValue)>
//@ret r
//@contract
    ensures r == hdr((key@, value@)),
//@endfn
//@fn opentelemetry-otlp/src/exporter/http/mod.rs impl HttpExporterBuilder :: fn build_client
//@closure |(k, v)|
//@sig fn given_header(k: String, v: String) -> Option<(HeaderName, HeaderValue)>
//@ret r
//@contract
    ensures r == hdr((k@, v@)),
//@endfn
fn put_listed<'a>(headers: &mut Headers, es: Vec<(&'a str, String)>) ensures final(headers).m@ == with_all(old(headers).m@, pviews(es@)) {
    let ghost m = headers.m@;
    let ghost all = pviews(es@);
    let ghost n = es@.len();
    let mut i: usize = 0;
    for e in it: es invariant it.seq() == es@, all == pviews(es@), headers.m@ == with_all(m, all.take(it.index@)) {
        proof { assert(all.take(it.index@ + 1).drop_last() =~= all.take(it.index@)); assert(all.take(it.index@ + 1).last() == (e.0@, e.1@)); }
        if let Some((k, v)) = listed_header(e.0, e.1) { headers.insert(k, v); }
    }
    proof { assert(all.take(n as int) =~= all); }
}
//@fn opentelemetry-otlp/src/exporter/http/mod.rs fn add_header_from_string
//@subst? headers.extend(parse_header_string(input).filter_map(|(key, value)| $$b)) ~> put_listed(headers, parse_header_string(input))
//@contract
    ensures final(headers).m@ == with_all(old(headers).m@, entries(input@)),
//@endfn
/// the headers given to the builder: names and values as text
struct Given { m: Ghost<Map<Seq<char>, Seq<char>>> }
spec fn lists(s: Seq<(Seq<char>, Seq<char>)>, m: Map<Seq<char>, Seq<char>>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] m.contains_key(s[i].0) && m[s[i].0] == s[i].1
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && s[i].0 == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i].0 != s[j].0
}
spec fn sviews(v: Seq<(String, String)>) -> Seq<(Seq<char>, Seq<char>)> { Seq::new(v.len(), |i: int| (v[i].0@, v[i].1@)) }
impl Given {
    #[verifier::external_body] fn new() -> (r: Given) ensures r.m@ == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] fn pairs(self) -> (r: Vec<(String, String)>) ensures lists(sviews(r@), self.m@) { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, k: String, v: String) ensures final(self).m@ == old(self).m@.insert(k@, v@) { unimplemented!() }
}
/// h are the valid ones of the given headers (of two spellings of one name, either)
spec fn valid_of(h: Map<HeaderName, HeaderValue>, g: Map<Seq<char>, Seq<char>>) -> bool { exists|s: Seq<(Seq<char>, Seq<char>)>| #[trigger] lists(s, g) && h == with_all(Map::empty(), s) }
fn collect_given(g: Given) -> (r: Headers) ensures valid_of(r.m@, g.m@) {
    let mut h = Headers::new();
    let es = g.pairs();
    let ghost all = sviews(es@);
    let ghost n = es@.len();
    for e in it: es invariant it.seq() == es@, all == sviews(es@), h.m@ == with_all(Map::empty(), all.take(it.index@)) {
        proof { assert(all.take(it.index@ + 1).drop_last() =~= all.take(it.index@)); assert(all.take(it.index@ + 1).last() == (e.0@, e.1@)); }
        if let Some((k, v)) = given_header(e.0, e.1) { h.insert(k, v); }
    }
    proof { assert(all.take(n as int) =~= all); }
    h
}
/// the header variable that counts
spec fn header_var(var: Seq<char>) -> Option<Seq<char>> { match set_of(var) { Some(s) => Some(s), None => set_of("OTEL_EXPORTER_OTLP_HEADERS"@) } }
spec fn env_entries(var: Seq<char>) -> Seq<(Seq<char>, Seq<char>)> { match header_var(var) { Some(s) => entries(s), None => Seq::empty() } }
fn or_var(r: Option<String>, n: &str) -> (o: Option<String>)
    ensures match r { Some(v) => o == r, None => as_view(o) == set_of(n@) } { match r { Some(v) => Some(v), None => env_var(n) } }
//@gsubst env_var($$a).or_else(|| env_var($$b)) ~> or_var(env_var($$a), $$b)

// ---- endpoints ----
spec fn under(e: Seq<char>, p: Seq<char>) -> Seq<char> { if e.len() > 0 && e.last() == '/' && p.len() > 0 && p[0] == '/' { e + p.subrange(1, p.len() as int) } else { e + p } }
//@fn opentelemetry-otlp/src/exporter/http/mod.rs fn build_endpoint_uri
//@subst? $x.ends_with('/') ~> $x.ends('/')
//@subst? $x.starts_with('/') ~> $x.starts('/')
//@subst? $x.strip_prefix('/') ~> strip($x, '/')
//@subst? format!("{endpoint}{path}") ~> joined(endpoint, path)
//@subst? endpoint.parse().map_err(|er: http::uri::InvalidUri| { $$b }) ~> match parse_uri(&endpoint) { Ok(u) => Ok(u), Err(er) => Err({ $$b }) }
//@ret r
//@contract
    ensures as_opt(r) == uri_of(under(endpoint@, path@)), r.is_err() ==> r->Err_0 is InvalidUri,
//@endfn
spec fn uri_var(name: Seq<char>) -> Option<Uri> { match set_of(name) { Some(s) => uri_of(s), None => None } }
spec fn base_var(path: Seq<char>) -> Option<Uri> { match set_of("OTEL_EXPORTER_OTLP_ENDPOINT"@) { Some(s) => uri_of(under(s, path)), None => None } }
spec fn http_endpoint(var: Seq<char>, path: Seq<char>, given: Option<Seq<char>>) -> Option<Uri> {
    match given { Some(g) => uri_of(g), None => match uri_var(var) { Some(u) => Some(u), None => match base_var(path) { Some(u) => Some(u), None => uri_of(under("http://localhost:4318"@, path)) } } }
}
spec fn text_of(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
spec fn string_of(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
//@fn opentelemetry-otlp/src/exporter/http/mod.rs fn resolve_http_endpoint
//@subst? provider_endpoint.parse().map_err(|er: http::uri::InvalidUri| { $$b }) ~> match parse_uri(provider_endpoint) { Ok(u) => Ok(u), Err(er) => Err({ $$b }) }
//@subst? provider_endpoint.to_string() ~> own(provider_endpoint)
//@subst? .and_then(|s: String| -> (r: Option<u64>) ensures r == dec_u64(s@) { $$b }) ~> .and_then(|s: String| -> (r: Option<Uri>) ensures r == uri_of(s@) { parse_uri(&s).ok() })
//@subst? .and_then(|s| build_endpoint_uri(&s, signal_endpoint_path).ok()) ~> .and_then(|s: String| -> (r: Option<Uri>) ensures r == uri_of(under(s@, signal_endpoint_path@)) { build_endpoint_uri(&s, signal_endpoint_path).ok() })
//@ret r
//@contract
    ensures as_opt(r) == http_endpoint(signal_endpoint_var@, signal_endpoint_path@, text_of(provided_endpoint)), r.is_err() ==> r->Err_0 is InvalidUri,
//@endfn

// ---- the HTTP builder ----
#[verifier::external_body] struct HttpClient { _p: u8 }
struct ResourceAttributesWithSchema;
//@item opentelemetry-otlp/src/exporter/mod.rs struct ExportConfig
//@item opentelemetry-otlp/src/exporter/http/mod.rs struct HttpConfig
//@ subst Arc<dyn HttpClient> ~> HttpClient
//@ subst HashMap<String, String> ~> Given
//@item opentelemetry-otlp/src/exporter/http/mod.rs struct HttpExporterBuilder
struct OtlpHttpClient { client: HttpClient, collector_endpoint: Uri, headers: Headers, protocol: Protocol, _timeout: Duration }
impl OtlpHttpClient {
    fn new(client: HttpClient, collector_endpoint: Uri, headers: Headers, protocol: Protocol, timeout: Duration) -> (r: OtlpHttpClient)
        ensures r == (OtlpHttpClient { client, collector_endpoint, headers, protocol, _timeout: timeout }) { OtlpHttpClient { client, collector_endpoint, headers, protocol, _timeout: timeout } }
}
#[verifier::external_body] fn as_text(o: &Option<String>) -> (r: Option<&str>) ensures text_of(r) == string_of(*o) { unimplemented!() }
fn taken<T>(o: &mut Option<T>) -> (r: Option<T>) ensures r == *old(o), *final(o) == None::<T> { o.take() }
fn or_empty(o: Option<Given>) -> (r: Given) ensures r.m@ == given_map(o) { match o { Some(g) => g, None => Given::new() } }
spec fn given_map(o: Option<Given>) -> Map<Seq<char>, Seq<char>> { match o { Some(g) => g.m@, None => Map::empty() } }
/// the client for one signal
spec fn resolved(b: HttpExporterBuilder, ev: Seq<char>, path: Seq<char>, tv: Seq<char>, hv: Seq<char>, c: OtlpHttpClient) -> bool {
    &&& Some(c.collector_endpoint) == http_endpoint(ev, path, string_of(b.exporter_config.endpoint))
    &&& c._timeout.ns == timeout_of(tv, b.exporter_config.timeout)
    &&& Some(c.client) == b.http_config.client
    &&& c.protocol == b.exporter_config.protocol
    &&& exists|h: Map<HeaderName, HeaderValue>| #[trigger] valid_of(h, given_map(b.http_config.headers)) && c.headers.m@ == with_all(h, env_entries(hv))
}
spec fn may_fail(b: HttpExporterBuilder, ev: Seq<char>, path: Seq<char>) -> bool { b.http_config.client.is_none() || http_endpoint(ev, path, string_of(b.exporter_config.endpoint)).is_none() }
spec fn outcome(b: HttpExporterBuilder, ev: Seq<char>, path: Seq<char>, tv: Seq<char>, hv: Seq<char>, r: Result<OtlpHttpClient, ExporterBuildError>) -> bool {
    match r { Ok(c) => resolved(b, ev, path, tv, hv, c), Err(_) => may_fail(b, ev, path) }
}
impl HttpExporterBuilder {
//@fn opentelemetry-otlp/src/exporter/http/mod.rs impl HttpExporterBuilder :: fn build_client
//@subst? self.exporter_config.endpoint.as_deref() ~> as_text(&self.exporter_config.endpoint)
//@subst? self.http_config.client.take() ~> taken(&mut self.http_config.client)
//@subst? self.http_config.headers.take().unwrap_or_default().into_iter().filter_map(|(k, v)| { $$b }).collect() ~> collect_given(or_empty(taken(&mut self.http_config.headers)))
//@ret r
//@contract
    ensures outcome(*old(self), signal_endpoint_var@, signal_endpoint_path@, signal_timeout_var@, signal_http_headers_var@, r),
//@endfn
//@fn opentelemetry-otlp/src/exporter/http/mod.rs impl HttpExporterBuilder :: fn build_span_exporter
//@sig fn build_span_exporter(self0: Self) -> Result<SpanExporter, ExporterBuildError>
//@subst self ~> slf
//@subst? use $$x; ~>
//@subst? crate::SpanExporter ~> SpanExporter
//@ret r
//@contract
    ensures outcome(self0, "OTEL_EXPORTER_OTLP_TRACES_ENDPOINT"@, "/v1/traces"@, "OTEL_EXPORTER_OTLP_TRACES_TIMEOUT"@, "OTEL_EXPORTER_OTLP_TRACES_HEADERS"@, match r { Ok(e) => Ok(e.client), Err(x) => Err(x) }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-otlp/src/exporter/http/mod.rs impl HttpExporterBuilder :: fn build_log_exporter
//@sig fn build_log_exporter(self0: Self) -> Result<LogExporter, ExporterBuildError>
//@subst self ~> slf
//@subst? use $$x; ~>
//@subst? crate::LogExporter ~> LogExporter
//@ret r
//@contract
    ensures outcome(self0, "OTEL_EXPORTER_OTLP_LOGS_ENDPOINT"@, "/v1/logs"@, "OTEL_EXPORTER_OTLP_LOGS_TIMEOUT"@, "OTEL_EXPORTER_OTLP_LOGS_HEADERS"@, match r { Ok(e) => Ok(e.client), Err(x) => Err(x) }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-otlp/src/exporter/http/mod.rs impl HttpExporterBuilder :: fn build_metrics_exporter
//@sig fn build_metrics_exporter(self0: Self, temporality: Temporality) -> Result<MetricExporter, ExporterBuildError>
//@subst self ~> slf
//@subst? use $$x; ~>
//@subst? crate::MetricExporter ~> MetricExporter
//@ret r
//@contract
    ensures outcome(self0, "OTEL_EXPORTER_OTLP_METRICS_ENDPOINT"@, "/v1/metrics"@, "OTEL_EXPORTER_OTLP_METRICS_TIMEOUT"@, "OTEL_EXPORTER_OTLP_METRICS_HEADERS"@, match r { Ok(e) => Ok(e.client), Err(x) => Err(x) }),
        r matches Ok(e) ==> e.temporality == temporality,
//@start
    let mut slf = self0;
//@endfn
}
#[verifier::external_body] struct Temporality { _p: u8 }
struct SpanExporter { client: OtlpHttpClient }
struct LogExporter { client: OtlpHttpClient }
struct MetricExporter { client: OtlpHttpClient, temporality: Temporality }
impl SpanExporter { fn from_http(client: OtlpHttpClient) -> (r: Self) ensures r.client == client { SpanExporter { client } } }
impl LogExporter { fn from_http(client: OtlpHttpClient) -> (r: Self) ensures r.client == client { LogExporter { client } } }
impl MetricExporter { fn from_http(client: OtlpHttpClient, temporality: Temporality) -> (r: Self) ensures r.client == client, r.temporality == temporality { MetricExporter { client, temporality } } }

// ---- what the builders are given ----
impl HttpConfig { fn default() -> (r: Self) ensures r.client.is_none(), r.headers.is_none() { HttpConfig { client: None, headers: None } } }
uninterp spec fn agent() -> Map<Seq<char>, Seq<char>>;
#[verifier::external_body] fn default_headers() -> (r: Given) ensures r.m@ == agent() { unimplemented!() }
#[verifier::external_body] fn default_protocol() -> Protocol { unimplemented!() }
impl ExportConfig {
//@fn opentelemetry-otlp/src/exporter/mod.rs impl Default for ExportConfig :: fn default
//@ret r
//@contract
    ensures r.endpoint.is_none(), r.timeout.is_none(),
//@endfn
}
impl HttpExporterBuilder {
//@fn opentelemetry-otlp/src/exporter/http/mod.rs impl Default for HttpExporterBuilder :: fn default
//@ret r
//@contract
    ensures r.exporter_config.endpoint.is_none(), r.exporter_config.timeout.is_none(), r.http_config.client.is_none(), given_map(r.http_config.headers) == agent(),
//@endfn
}
impl ExportConfig {
//@fn opentelemetry-otlp/src/exporter/mod.rs impl WithExportConfig for B :: fn with_endpoint
//@sig fn with_endpoint(self0: Self, endpoint: String) -> Self
//@subst self.export_config() ~> slf
//@subst? self ~> slf
//@subst? endpoint.into() ~> endpoint
//@ret r
//@contract
    ensures r == (ExportConfig { endpoint: Some(endpoint), ..self0 }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-otlp/src/exporter/mod.rs impl WithExportConfig for B :: fn with_protocol
//@sig fn with_protocol(self0: Self, protocol: Protocol) -> Self
//@subst self.export_config() ~> slf
//@subst? self ~> slf
//@ret r
//@contract
    ensures r == (ExportConfig { protocol, ..self0 }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-otlp/src/exporter/mod.rs impl WithExportConfig for B :: fn with_timeout
//@sig fn with_timeout(self0: Self, timeout: Duration) -> Self
//@subst self.export_config() ~> slf
//@subst? self ~> slf
//@ret r
//@contract
    ensures r == (ExportConfig { timeout: Some(timeout), ..self0 }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-otlp/src/exporter/mod.rs impl WithExportConfig for B :: fn with_export_config
//@sig fn with_export_config(self0: Self, exporter_config: ExportConfig) -> Self
//@subst self.export_config() ~> slf
//@subst? self ~> slf
//@ret r
//@contract
    ensures r == exporter_config,
//@start
    let mut slf = self0;
//@endfn
}
/// what with_headers makes of one header's value: decoded if it is percent-encoding, itself otherwise
spec fn plain(v: Seq<char>) -> Seq<char> { match decoded(v, Seq::empty()) { Some(t) => t, None => v } }
spec fn adding(m: Map<Seq<char>, Seq<char>>, s: Seq<(Seq<char>, Seq<char>)>) -> Map<Seq<char>, Seq<char>> decreases s.len() {
    if s.len() == 0 { m } else { adding(m, s.drop_last()).insert(s.last().0, plain(s.last().1)) }
}
/// the map after: the added headers win, the others stay
spec fn added(m: Map<Seq<char>, Seq<char>>, g: Map<Seq<char>, Seq<char>>, r: Map<Seq<char>, Seq<char>>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] r.contains_key(k) <==> m.contains_key(k) || g.contains_key(k)
    &&& forall|k: Seq<char>| #[trigger] r.contains_key(k) ==> r[k] == (if g.contains_key(k) { plain(g[k]) } else { m[k] })
}
proof fn adding_is(m: Map<Seq<char>, Seq<char>>, s: Seq<(Seq<char>, Seq<char>)>)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    ensures forall|k: Seq<char>| #[trigger] adding(m, s).contains_key(k) <==> m.contains_key(k) || exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k,
        forall|i: int| 0 <= i < s.len() ==> adding(m, s)[(#[trigger] s[i]).0] == plain(s[i].1),
        forall|k: Seq<char>| (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 != k) ==> #[trigger] adding(m, s)[k] == m[k],
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        adding_is(m, d);
        assert(forall|i: int| 0 <= i < d.len() ==> d[i] == s[i]);
        assert(s[s.len() - 1] == s.last());
        assert forall|k: Seq<char>| #[trigger] adding(m, s).contains_key(k) implies m.contains_key(k) || exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k by {
            if k == s.last().0 { assert(s[s.len() - 1].0 == k); } else { assert(adding(m, d).contains_key(k)); if !m.contains_key(k) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == k; assert(s[i].0 == k); } }
        }
        assert forall|k: Seq<char>| (m.contains_key(k) || exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k) implies #[trigger] adding(m, s).contains_key(k) by {
            if k != s.last().0 { if !m.contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(d[i].0 == k); } assert(adding(m, d).contains_key(k)); }
        }
        assert forall|k: Seq<char>| (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 != k) implies #[trigger] adding(m, s)[k] == m[k] by {
            assert(s[s.len() - 1].0 != k); assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).0 != k by { assert(s[i].0 != k); } assert(adding(m, d)[k] == m[k]);
        }
    }
}
fn or_value(o: Option<String>, v: String) -> (r: String) ensures match o { Some(t) => r@ == t@, None => r@ == v@ } { match o { Some(t) => t, None => v } }
impl HttpExporterBuilder {
//@fn opentelemetry-otlp/src/exporter/http/mod.rs impl WithHttpConfig for B :: fn with_headers
//@sig fn with_headers(self0: Self, headers: Given) -> Self
//@subst self.http_client_config().headers.get_or_insert(HashMap::new()) ~> or_empty(taken(&mut slf.http_config.headers))
//@subst? let http_client_headers ~> let mut http_client_headers
//@subst? self ~> { slf.http_config.headers = Some(http_client_headers); slf }
//@subst? headers.into_iter().for_each(|(key, value)| { $$b }); ~> let ps = headers.pairs(); for e in ps { let (key, value) = e; $$b }
//@subst? super::url_decode ~> url_decode
//@subst? url_decode(&value).unwrap_or(value) ~> or_value(url_decode(&value), value)
//@ret r
//@contract
    ensures r.http_config.client == self0.http_config.client, r.exporter_config == self0.exporter_config,
        added(given_map(self0.http_config.headers), headers.m@, given_map(r.http_config.headers)),
//@start
    let mut slf = self0;
    let ghost m0 = given_map(self0.http_config.headers);
//@loop 0 it
    invariant it.seq() == ps@, http_client_headers.m@ == adding(m0, sviews(ps@).take(it.index@)),
//@inloop 0
    proof { assert(sviews(ps@).take(it.index@ + 1).drop_last() =~= sviews(ps@).take(it.index@)); }
//@afterloop 0
    proof { assert(sviews(ps@).take(ps@.len() as int) =~= sviews(ps@)); adding_is(m0, sviews(ps@)); }
//@endfn
}

// ---- the gRPC builder ----
#[derive(Clone, Copy, PartialEq, Eq)]
enum CompressionEncoding { Gzip, Zstd }
//@gsubst tonic::codec::CompressionEncoding ~> CompressionEncoding
trait IntoEncoding: Sized { fn try_from_(value: Compression) -> (r: Result<Self, ExporterBuildError>); }
spec fn encoding(c: Compression) -> CompressionEncoding { match c { Compression::Gzip => CompressionEncoding::Gzip, Compression::Zstd => CompressionEncoding::Zstd } }
impl CompressionEncoding {
//@fn opentelemetry-otlp/src/exporter/tonic/mod.rs impl TryFrom<Compression> for tonic::codec::CompressionEncoding :: fn try_from
//@name try_from_compression
//@ret r
//@contract
    ensures r == Ok::<CompressionEncoding, ExporterBuildError>(encoding(value)),
//@endfn
}
spec fn algorithm(s: Seq<char>) -> Option<Compression> { if s == "gzip"@ { Some(Compression::Gzip) } else if s == "zstd"@ { Some(Compression::Zstd) } else { None } }
impl Compression {
//@fn opentelemetry-otlp/src/exporter/mod.rs impl FromStr for Compression :: fn from_str
//@sig fn from_str(s: &str) -> Result<Compression, ExporterBuildError>
//@subst? $x.to_string() ~> own($x)
//@ret r
//@contract
    ensures as_opt(r) == algorithm(s@), r.is_err() ==> r->Err_0 is UnsupportedCompressionAlgorithm,
//@start
    broadcast use str_ext;
    proof { reveal_strlit("gzip"); reveal_strlit("zstd"); assert("gzip"@.len() == 4 && "gzip"@[0] == 'g' && "zstd"@[0] == 'z'); }
//@endfn
}
/// the names and values of http's HeaderMap: a name can have several values
struct HeaderMap { m: Ghost<Map<HeaderName, Seq<HeaderValue>>> }
struct MetadataMap { m: Ghost<Map<HeaderName, Seq<HeaderValue>>> }
spec fn over(a: Map<HeaderName, Seq<HeaderValue>>, b: Map<HeaderName, Seq<HeaderValue>>) -> Map<HeaderName, Seq<HeaderValue>> { a.union_prefer_right(b) }
impl HeaderMap {
    #[verifier::external_body] fn is_empty(&self) -> (r: bool) ensures r == (self.m@ == Map::<HeaderName, Seq<HeaderValue>>::empty()) { unimplemented!() }
    /// http: extending by another map replaces the values of the names it has
    #[verifier::external_body] fn extend(&mut self, o: HeaderMap) ensures final(self).m@ == over(old(self).m@, o.m@) { unimplemented!() }
    #[verifier::external_body] fn new() -> (r: HeaderMap) ensures r.m@ == Map::<HeaderName, Seq<HeaderValue>>::empty() { unimplemented!() }
    #[verifier::external_body] fn append(&mut self, k: HeaderName, v: HeaderValue) ensures final(self).m@ == old(self).m@.insert(k, vals(old(self).m@, k).push(v)) { unimplemented!() }
}
spec fn vals(m: Map<HeaderName, Seq<HeaderValue>>, k: HeaderName) -> Seq<HeaderValue> { if m.contains_key(k) { m[k] } else { Seq::empty() } }
impl MetadataMap {
    #[verifier::external_body] fn into_headers(self) -> (r: HeaderMap) ensures r.m@ == self.m@ { unimplemented!() }
    #[verifier::external_body] fn from_headers(h: HeaderMap) -> (r: MetadataMap) ensures r.m@ == h.m@ { unimplemented!() }
    #[verifier::external_body] fn new() -> (r: MetadataMap) ensures r.m@ == Map::<HeaderName, Seq<HeaderValue>>::empty() { unimplemented!() }
}
spec fn appended(es: Seq<(Seq<char>, Seq<char>)>) -> Map<HeaderName, Seq<HeaderValue>> decreases es.len() {
    if es.len() == 0 { Map::empty() } else { let m = appended(es.drop_last()); match hdr(es.last()) { Some((k, v)) => m.insert(k, vals(m, k).push(v)), None => m } }
}
//@fn opentelemetry-otlp/src/exporter/tonic/mod.rs fn parse_headers_from_env
//@closure |(key, value)|
//@sig fn env_header(headers: &mut Vec<(String, String)>, key: &str, value: String) -> Option<(HeaderName, HeaderValue)>
//@subst? key.to_owned() ~> own(key)
//@ret r
//@contract
    ensures r == hdr((key@, value@)),
//@endfn
fn collect_env<'a>(log: &mut Vec<(String, String)>, es: Vec<(&'a str, String)>) -> (r: HeaderMap) ensures r.m@ == appended(pviews(es@)) {
    let mut h = HeaderMap::new();
    let ghost all = pviews(es@);
    let ghost n = es@.len();
    for e in it: es invariant it.seq() == es@, all == pviews(es@), h.m@ == appended(all.take(it.index@)) {
        proof { assert(all.take(it.index@ + 1).drop_last() =~= all.take(it.index@)); assert(all.take(it.index@ + 1).last() == (e.0@, e.1@)); }
        if let Some((k, v)) = env_header(log, e.0, e.1) { h.append(k, v); }
    }
    proof { assert(all.take(n as int) =~= all); }
    h
}
//@fn opentelemetry-otlp/src/exporter/tonic/mod.rs fn parse_headers_from_env
//@subst let mut headers = Vec::new(); ~> let mut headers: Vec<(String, String)> = Vec::new();
//@subst? .map(|input| { parse_header_string(&input).filter_map(|(key, value)| $$b).collect::<HeaderMap>() }).unwrap_or_default() ~> ; let h = match h { Some(input) => collect_env(&mut headers, parse_header_string(&input)), None => HeaderMap::new() }
//@subst? ( or_var($$a, $$b) ; $$z, headers, ) ~> let h = or_var($$a, $$b); $$z; (h, headers)
//@ret r
//@contract
    ensures r.0.m@ == appended(env_entries(signal_headers_var@)),
//@endfn
//@fn opentelemetry-otlp/src/exporter/tonic/mod.rs fn merge_metadata_with_headers_from_env
//@ret r
//@contract
    ensures r.m@ == over(metadata.m@, headers_from_env.m@),
//@start
    proof { assert(over(metadata.m@, Map::empty()) =~= metadata.m@); }
//@endfn

// what a request carries, and what interceptors do to it
#[verifier::external_body] struct MetaKey { _p: u8 }
#[verifier::external_body] struct Status { _p: u8 }
struct Request { m: Ghost<Map<HeaderName, Seq<HeaderValue>>> }
/// a user's interceptor: any function of the request
#[verifier::external_body] struct UserInterceptor { _p: u8 }
enum KeyAndValueRef { Ascii(HeaderName, HeaderValue), Binary(HeaderName, HeaderValue) }
spec fn pair(e: KeyAndValueRef) -> (HeaderName, HeaderValue) { match e { KeyAndValueRef::Ascii(k, v) => (k, v), KeyAndValueRef::Binary(k, v) => (k, v) } }
spec fn of_name(es: Seq<KeyAndValueRef>, k: HeaderName) -> Seq<HeaderValue> decreases es.len() {
    if es.len() == 0 { Seq::empty() } else if pair(es.last()).0 == k { of_name(es.drop_last(), k).push(pair(es.last()).1) } else { of_name(es.drop_last(), k) }
}
impl MetadataMap {
    #[verifier::external_body] fn iter(&self) -> (r: Vec<KeyAndValueRef>) ensures forall|k: HeaderName| #[trigger] of_name(r@, k) == vals(self.m@, k) { unimplemented!() }
}
impl Request {
    #[verifier::external_body] fn append(&mut self, k: HeaderName, v: HeaderValue) -> bool ensures final(self).m@ == old(self).m@.insert(k, vals(old(self).m@, k).push(v)) { unimplemented!() }
    #[verifier::external_body] fn append_bin(&mut self, k: HeaderName, v: HeaderValue) -> bool ensures final(self).m@ == old(self).m@.insert(k, vals(old(self).m@, k).push(v)) { unimplemented!() }
}
//@fn opentelemetry-otlp/src/exporter/tonic/mod.rs impl TonicExporterBuilder :: fn build_channel
//@closure |mut req: tonic::Request<()>|
//@sig fn add_metadata(metadata: &MetadataMap, req0: Request) -> Result<Request, Status>
//@subst? .metadata_mut() ~>
//@subst? value.to_owned() ~> value
//@subst? metadata.iter() ~> es
//@ret r
//@contract
    ensures r matches Ok(q) && forall|k: HeaderName| #[trigger] vals(q.m@, k) == vals(req0.m@, k) + vals(metadata.m@, k),
//@start
    let mut req = req0;
    let es = metadata.iter();
    let ghost all = es@;
    proof { assert forall|k: HeaderName| vals(req.m@, k) == #[trigger] vals(req0.m@, k) + of_name(all.take(0), k) by { assert(vals(req.m@, k) =~= vals(req0.m@, k) + of_name(all.take(0), k)); } }
//@loop 0 it
    invariant it.seq() == all, forall|k: HeaderName| #[trigger] vals(req.m@, k) == vals(req0.m@, k) + of_name(all.take(it.index@), k),
//@inloop 0
    let ghost was = req.m@;
    proof { assert(all.take(it.index@ + 1).drop_last() =~= all.take(it.index@)); assert(all.take(it.index@ + 1).last() == key_and_value); }
//@endinloop 0
    proof {
        let kv = pair(key_and_value);
        assert(req.m@ == was.insert(kv.0, vals(was, kv.0).push(kv.1)));
        assert forall|k: HeaderName| #[trigger] vals(req.m@, k) == vals(req0.m@, k) + of_name(all.take(it.index@ + 1), k) by {
            assert(vals(was, k) == vals(req0.m@, k) + of_name(all.take(it.index@), k));
            assert(vals(req.m@, k) =~= vals(req0.m@, k) + of_name(all.take(it.index@ + 1), k));
        }
    }
//@afterloop 0
    proof { assert(all.take(all.len() as int) =~= all); }
//@endfn
/// tonic appends every key and value of the metadata to the request's
struct AddMetadata { metadata: MetadataMap }
struct BoxInterceptor { first: AddMetadata, then: Option<UserInterceptor> }
impl BoxInterceptor {
    fn of(first: AddMetadata) -> (r: Self) ensures r == (BoxInterceptor { first, then: None }) { BoxInterceptor { first, then: None } }
    fn chain(then: UserInterceptor, first: AddMetadata) -> (r: Self) ensures r == (BoxInterceptor { first, then: Some(then) }) { BoxInterceptor { first, then: Some(then) } }
}
#[verifier::external_body] struct ClientTlsConfig { _p: u8 }
/// a channel is where it connects to, how long a call may take, and TLS
enum Channel { Given { id: u64 }, To { uri: Ghost<Seq<char>>, timeout: Duration, tls: Option<ClientTlsConfig> } }
struct Endpoint { uri: Ghost<Seq<char>>, timeout: Option<Duration>, tls: Option<ClientTlsConfig> }
uninterp spec fn good_uri(s: Seq<char>) -> bool;
uninterp spec fn good_tls(t: ClientTlsConfig) -> bool;
#[verifier::external_body] struct TlsError { _p: u8 }
impl TlsError { #[verifier::external_body] fn to_string(&self) -> String { unimplemented!() } }
impl Channel {
    #[verifier::external_body] fn from_shared(s: String) -> (r: Result<Endpoint, InvalidUri>) ensures match r { Ok(e) => good_uri(s@) && e.uri@ == s@ && e.timeout.is_none() && e.tls.is_none(), Err(_) => !good_uri(s@) } { unimplemented!() }
}
impl Endpoint {
    fn timeout(self, d: Duration) -> (r: Endpoint) ensures r == (Endpoint { timeout: Some(d), ..self }) { Endpoint { timeout: Some(d), ..self } }
    #[verifier::external_body] fn tls_config(self, t: ClientTlsConfig) -> (r: Result<Endpoint, TlsError>) ensures match r { Ok(e) => good_tls(t) && e == (Endpoint { tls: Some(t), ..self }), Err(_) => !good_tls(t) } { unimplemented!() }
    fn connect_lazy(self) -> (r: Channel) requires self.timeout.is_some() ensures r == (Channel::To { uri: self.uri, timeout: self.timeout->0, tls: self.tls }) { Channel::To { uri: self.uri, timeout: self.timeout.unwrap(), tls: self.tls } }
}
//@item opentelemetry-otlp/src/exporter/tonic/mod.rs struct TonicConfig
//@ subst Option<tonic::transport::Channel> ~> Option<Channel>
//@ subst Option<BoxInterceptor> ~> Option<UserInterceptor>
//@item opentelemetry-otlp/src/exporter/tonic/mod.rs struct TonicExporterBuilder
spec fn grpc_endpoint(var: Seq<char>, given: Option<Seq<char>>) -> Seq<char> {
    match given { Some(g) => g, None => match set_of(var) { Some(s) => s, None => match set_of("OTEL_EXPORTER_OTLP_ENDPOINT"@) { Some(s) => s, None => "http://localhost:4317"@ } } }
}
/// the compression: None = an unknown name
spec fn compression_of(var: Seq<char>, given: Option<Compression>) -> Option<Option<CompressionEncoding>> {
    match given { Some(c) => Some(Some(encoding(c))), None => {
        let named = match set_of(var) { Some(s) => Some(s), None => set_of("OTEL_EXPORTER_OTLP_COMPRESSION"@) };
        match named { None => Some(None), Some(s) => match algorithm(s) { Some(c) => Some(Some(encoding(c))), None => None } } } }
}
spec fn meta_of(o: Option<MetadataMap>) -> Map<HeaderName, Seq<HeaderValue>> { match o { Some(m) => m.m@, None => Map::empty() } }
fn or_no_metadata(o: Option<MetadataMap>) -> (r: MetadataMap) ensures r.m@ == meta_of(o) { match o { Some(m) => m, None => MetadataMap::new() } }
spec fn channel_for(b: TonicExporterBuilder, ev: Seq<char>, tv: Seq<char>, c: Channel) -> bool {
    match b.tonic_config.channel { Some(g) => c == g, None => c matches Channel::To { uri, timeout, tls } && uri@ == grpc_endpoint(ev, string_of(b.exporter_config.endpoint))
        && timeout.ns == timeout_of(tv, b.exporter_config.timeout) && tls == b.tonic_config.tls_config }
}
spec fn grpc_fails(b: TonicExporterBuilder, ev: Seq<char>, cv: Seq<char>) -> bool {
    compression_of(cv, b.tonic_config.compression).is_none() || (b.tonic_config.channel.is_none() && (!good_uri(grpc_endpoint(ev, string_of(b.exporter_config.endpoint))) || (b.tonic_config.tls_config matches Some(t) && !good_tls(t))))
}
spec fn grpc_outcome(b: TonicExporterBuilder, ev: Seq<char>, tv: Seq<char>, cv: Seq<char>, hv: Seq<char>, r: Result<(Channel, BoxInterceptor, Option<CompressionEncoding>), ExporterBuildError>) -> bool {
    match r {
        Ok(p) => channel_for(b, ev, tv, p.0) && p.1.then == b.tonic_config.interceptor && p.1.first.metadata.m@ == over(meta_of(b.tonic_config.metadata), appended(env_entries(hv))) && Some(p.2) == compression_of(cv, b.tonic_config.compression),
        Err(_) => grpc_fails(b, ev, cv),
    }
}
#[verifier::external_body] fn copy_of(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
impl TonicExporterBuilder {
//@fn opentelemetry-otlp/src/exporter/tonic/mod.rs impl TonicExporterBuilder :: fn resolve_endpoint
//@subst? $x.to_string() ~> own($x)
//@ret r
//@contract
    ensures r@ == grpc_endpoint(default_endpoint_var@, string_of(provided_endpoint)),
//@endfn
//@fn opentelemetry-otlp/src/exporter/tonic/mod.rs impl TonicExporterBuilder :: fn resolve_compression
//@subst? compression.parse::<Compression>()?.try_into() ~> CompressionEncoding::try_from_compression(Compression::from_str(&compression)?)
//@subst? compression.try_into() ~> CompressionEncoding::try_from_compression(compression)
//@ret r
//@contract
    ensures as_opt(r) == compression_of(env_override@, self.tonic_config.compression),
//@endfn
//@fn opentelemetry-otlp/src/exporter/tonic/mod.rs impl TonicExporterBuilder :: fn build_channel
//@subst? self.tonic_config.metadata.unwrap_or_default() ~> or_no_metadata(self.tonic_config.metadata)
//@subst? let add_metadata = move |mut req: tonic::Request<()>| { $$b }; ~> let add_metadata = AddMetadata { metadata };
//@subst? BoxInterceptor(Box::new(move |req| interceptor.call(add_metadata(req)?))) ~> BoxInterceptor::chain(interceptor, add_metadata)
//@subst? Some(mut interceptor) ~> Some(interceptor)
//@subst? BoxInterceptor(Box::new(add_metadata)) ~> BoxInterceptor::of(add_metadata)
//@subst? endpoint.clone() ~> copy_of(&endpoint)
//@subst? endpoint_clone.clone() ~> copy_of(&endpoint_clone)
//@subst? $x.map_err(|op| $$e)? ~> (match $x { Ok(v) => v, Err(op) => return Err($$e) })
//@subst? endpoint.tls_config(tls_config).map_err(|er| $$e)? ~> (match endpoint.tls_config(tls_config) { Ok(v) => v, Err(er) => return Err($$e) })
//@subst? Channel::from_shared(endpoint).map_err(|op| $$e)? ~> (match Channel::from_shared(endpoint) { Ok(v) => v, Err(op) => return Err($$e) })
//@ret r
//@contract
    ensures grpc_outcome(self, signal_endpoint_var@, signal_timeout_var@, signal_compression_var@, signal_headers_var@, r),
//@endfn
//@fn opentelemetry-otlp/src/exporter/tonic/mod.rs impl TonicExporterBuilder :: fn build_log_exporter
//@sig fn build_log_exporter(self) -> Result<TonicLogExporter, ExporterBuildError>
//@subst? use $$x; ~>
//@subst? LogExporter ~> TonicLogExporter
//@ret r
//@contract
    ensures exists_outcome(self, "OTEL_EXPORTER_OTLP_LOGS_ENDPOINT"@, "OTEL_EXPORTER_OTLP_LOGS_TIMEOUT"@, "OTEL_EXPORTER_OTLP_LOGS_COMPRESSION"@, "OTEL_EXPORTER_OTLP_LOGS_HEADERS"@, match r { Ok(e) => Ok(e.client.parts()), Err(x) => Err(x) }),
//@endfn
//@fn opentelemetry-otlp/src/exporter/tonic/mod.rs impl TonicExporterBuilder :: fn build_span_exporter
//@sig fn build_span_exporter(self) -> Result<TonicSpanExporter, ExporterBuildError>
//@subst? use $$x; ~>
//@subst? SpanExporter ~> TonicSpanExporter
//@ret r
//@contract
    ensures exists_outcome(self, "OTEL_EXPORTER_OTLP_TRACES_ENDPOINT"@, "OTEL_EXPORTER_OTLP_TRACES_TIMEOUT"@, "OTEL_EXPORTER_OTLP_TRACES_COMPRESSION"@, "OTEL_EXPORTER_OTLP_TRACES_HEADERS"@, match r { Ok(e) => Ok(e.client.parts()), Err(x) => Err(x) }),
//@endfn
//@fn opentelemetry-otlp/src/exporter/tonic/mod.rs impl TonicExporterBuilder :: fn build_metrics_exporter
//@sig fn build_metrics_exporter(self, temporality: Temporality) -> Result<TonicMetricExporter, ExporterBuildError>
//@subst? use $$x; ~>
//@subst? MetricExporter ~> TonicMetricExporter
//@ret r
//@contract
    ensures exists_outcome(self, "OTEL_EXPORTER_OTLP_METRICS_ENDPOINT"@, "OTEL_EXPORTER_OTLP_METRICS_TIMEOUT"@, "OTEL_EXPORTER_OTLP_METRICS_COMPRESSION"@, "OTEL_EXPORTER_OTLP_METRICS_HEADERS"@, match r { Ok(e) => Ok(e.client.parts()), Err(x) => Err(x) }),
        r matches Ok(e) ==> e.temporality == temporality,
//@endfn
}
spec fn exists_outcome(b: TonicExporterBuilder, ev: Seq<char>, tv: Seq<char>, cv: Seq<char>, hv: Seq<char>, r: Result<(Channel, BoxInterceptor, Option<CompressionEncoding>), ExporterBuildError>) -> bool { grpc_outcome(b, ev, tv, cv, hv, r) }
/// the signal's gRPC client holds the channel, the interceptor and the compression it is made with
struct GrpcClient { channel: Channel, interceptor: BoxInterceptor, compression: Option<CompressionEncoding> }
impl GrpcClient {
    spec fn parts(self) -> (Channel, BoxInterceptor, Option<CompressionEncoding>) { (self.channel, self.interceptor, self.compression) }
    fn new(channel: Channel, interceptor: BoxInterceptor, compression: Option<CompressionEncoding>) -> (r: Self) ensures r == (GrpcClient { channel, interceptor, compression }) { GrpcClient { channel, interceptor, compression } }
}
type TonicLogsClient = GrpcClient;
type TonicTracesClient = GrpcClient;
type TonicMetricsClient = GrpcClient;
struct TonicSpanExporter { client: GrpcClient }
struct TonicLogExporter { client: GrpcClient }
struct TonicMetricExporter { client: GrpcClient, temporality: Temporality }
impl TonicSpanExporter { fn from_tonic(client: GrpcClient) -> (r: Self) ensures r.client == client { TonicSpanExporter { client } } }
impl TonicLogExporter { fn from_tonic(client: GrpcClient) -> (r: Self) ensures r.client == client { TonicLogExporter { client } } }
impl TonicMetricExporter { fn from_tonic(client: GrpcClient, temporality: Temporality) -> (r: Self) ensures r.client == client, r.temporality == temporality { TonicMetricExporter { client, temporality } } }
impl TonicConfig {
//@fn opentelemetry-otlp/src/exporter/tonic/mod.rs impl WithTonicConfig for B :: fn with_metadata
//@sig fn with_metadata(self0: Self, metadata: MetadataMap) -> Self
//@subst? self.tonic_config().metadata.clone().unwrap_or_default() ~> or_no_metadata(slf.metadata)
//@subst self.tonic_config() ~> slf
//@subst? self ~> slf
//@ret r
//@contract
    ensures r == (TonicConfig { metadata: r.metadata, ..self0 }), meta_of(r.metadata) == over(meta_of(self0.metadata), metadata.m@),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-otlp/src/exporter/tonic/mod.rs impl WithTonicConfig for B :: fn with_compression
//@sig fn with_compression(self0: Self, compression: Compression) -> Self
//@subst self.tonic_config() ~> slf
//@subst? self ~> slf
//@ret r
//@contract
    ensures r == (TonicConfig { compression: Some(compression), ..self0 }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-otlp/src/exporter/tonic/mod.rs impl WithTonicConfig for B :: fn with_channel
//@sig fn with_channel(self0: Self, channel: Channel) -> Self
//@subst self.tonic_config() ~> slf
//@subst? self ~> slf
//@ret r
//@contract
    ensures r == (TonicConfig { channel: Some(channel), ..self0 }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-otlp/src/exporter/tonic/mod.rs impl WithTonicConfig for B :: fn with_tls_config
//@sig fn with_tls_config(self0: Self, tls_config: ClientTlsConfig) -> Self
//@subst self.tonic_config() ~> slf
//@subst? self ~> slf
//@ret r
//@contract
    ensures r == (TonicConfig { tls_config: Some(tls_config), ..self0 }),
//@start
    let mut slf = self0;
//@endfn
//@fn opentelemetry-otlp/src/exporter/tonic/mod.rs impl WithTonicConfig for B :: fn with_interceptor
//@sig fn with_interceptor(self0: Self, interceptor: UserInterceptor) -> Self
//@subst self.tonic_config() ~> slf
//@subst? self ~> slf
//@subst? BoxInterceptor(Box::new(interceptor)) ~> interceptor
//@ret r
//@contract
    ensures r == (TonicConfig { interceptor: Some(interceptor), ..self0 }),
//@start
    let mut slf = self0;
//@endfn
}
} // verus!
fn main() {}

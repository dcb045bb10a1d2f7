// Unit: the B3 and Jaeger header formats (opentelemetry-zipkin/src/propagator/mod.rs, opentelemetry-jaeger-propagator/src/propagator.rs).
use vstd::prelude::*;
use vstd::string::*;
verus! {

spec fn sb(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
spec fn dval(c: u8) -> int { if 48 <= c <= 57 { c - 48 } else if 97 <= c <= 102 { c - 87 } else if 65 <= c <= 70 { c - 55 } else { 0 } }
spec fn lower_hex(c: u8) -> bool { 48 <= c <= 57 || 97 <= c <= 102 }
spec fn any_hex(c: u8) -> bool { lower_hex(c) || 65 <= c <= 70 }
spec fn all_hex(s: Seq<u8>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> any_hex(#[trigger] s[i]) }
spec fn all_lower_hex(s: Seq<u8>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> lower_hex(#[trigger] s[i]) }
spec fn hexval(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { hexval(s.drop_last()) * 16 + dval(s.last()) } }
spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 48u8) }
proof fn leading_zeros(n: nat, s: Seq<u8>)
    ensures hexval(zeros(n) + s) == hexval(s), s.len() > 0 ==> (all_hex(zeros(n) + s) == all_hex(s))
    decreases n + s.len()
{
    let t = zeros(n) + s;
    if s.len() > 0 {
        assert(t.drop_last() =~= zeros(n) + s.drop_last());
        assert(t.last() == s.last());
        leading_zeros(n, s.drop_last());
        assert forall|i: int| 0 <= i < s.len() implies s[i] == #[trigger] t[n + i] by {}
        if all_hex(t) { assert forall|i: int| 0 <= i < s.len() implies any_hex(#[trigger] s[i]) by { assert(any_hex(t[n + i])); } }
        if all_hex(s) { assert forall|i: int| 0 <= i < t.len() implies any_hex(#[trigger] t[i]) by { if i >= n { assert(any_hex(s[i - n])); } } }
    } else if n > 0 {
        assert(t.drop_last() =~= zeros((n - 1) as nat) + s);
        leading_zeros((n - 1) as nat, s);
        assert(t =~= zeros(n));
        assert(t.last() == 48u8);
    } else { assert(t =~= s); }
}

// ---- trusted string library
/// split_terminator(c): the pieces between the separators, without an empty last one
uninterp spec fn split_term(s: Seq<u8>, c: u8) -> Seq<Seq<u8>>;
spec fn str_bytes(v: Seq<&str>) -> Seq<Seq<u8>> { v.map_values(|s: &str| s.spec_bytes()) }
#[verifier::external_body]
fn split_terminator_dash<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures str_bytes(r@) == split_term(s.spec_bytes(), 0x2d) { s.split_terminator('-').collect() }
#[verifier::external_body]
fn split_terminator_colon<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures str_bytes(r@) == split_term(s.spec_bytes(), 0x3a) { s.split_terminator(':').collect() }
#[verifier::external_body]
fn blen(s: &str) -> (r: usize) ensures r == s.spec_bytes().len() { s.len() }
#[verifier::external_body]
fn starts_with_plus(s: &str) -> (r: bool) ensures r == (s.spec_bytes().len() > 0 && s.spec_bytes()[0] == 0x2b) { s.starts_with('+') }
/// str::to_lowercase changes a text with an upper case ASCII letter and leaves lower case ASCII texts alone
#[verifier::external_body]
fn differs_from_lowercase(s: &str) -> (r: bool)
    ensures all_lower_hex(s.spec_bytes()) ==> !r, (exists|i: int| 0 <= i < s.spec_bytes().len() && 65 <= #[trigger] s.spec_bytes()[i] <= 90) ==> r { s.to_lowercase() != s }
/// from_str_radix(_, 16) of the unsigned integers: hex digits in either case, at least one; a leading plus sign is left open
spec fn radix_ok(s: Seq<u8>, max: int, r: Result<int, ()>) -> bool {
    &&& all_hex(s) && s.len() <= max ==> r == Ok::<int, ()>(hexval(s))
    &&& !all_hex(s) && !(s.len() > 0 && s[0] == 0x2b) ==> r.is_err()
}
#[verifier::external_body]
fn parse_u64(s: &str) -> (r: Result<u64, ()>) ensures radix_ok(s.spec_bytes(), 16, match r { Ok(v) => Ok(v as int), Err(_) => Err(()) }) { u64::from_str_radix(s, 16).map_err(|_| ()) }
#[verifier::external_body]
fn parse_u128(s: &str) -> (r: Result<u128, ()>) ensures radix_ok(s.spec_bytes(), 32, match r { Ok(v) => Ok(v as int), Err(_) => Err(()) }) { u128::from_str_radix(s, 16).map_err(|_| ()) }
/// u8::from_str: decimal
uninterp spec fn dec_u8(s: Seq<u8>) -> Option<u8>;
#[verifier::external_body]
fn parse_dec_u8(s: &str) -> (r: Result<u8, ()>) ensures match r { Ok(v) => dec_u8(s.spec_bytes()) == Some(v), Err(_) => dec_u8(s.spec_bytes()).is_none() } { unimplemented!() }
broadcast axiom fn dec_digit(s: Seq<u8>) ensures s.len() == 1 && 48 <= s[0] <= 57 ==> #[trigger] dec_u8(s) == Some((s[0] - 48) as u8);
#[verifier::external_body]
fn pad16(s: &str) -> (r: String) requires s.spec_bytes().len() <= 16 ensures sb(r@) == zeros((16 - s.spec_bytes().len()) as nat) + s.spec_bytes() { format!("{s:0>16}") }
/// the header texts the formats name
enum Tok { Zero, One, True, False, D, Other }
spec fn tok(s: Seq<u8>) -> Tok {
    if s == seq![48u8] { Tok::Zero } else if s == seq![49u8] { Tok::One } else if s == seq![100u8] { Tok::D }
    else if s == seq![116u8, 114u8, 117u8, 101u8] { Tok::True } else if s == seq![102u8, 97u8, 108u8, 115u8, 101u8] { Tok::False } else { Tok::Other }
}
#[verifier::external_body]
fn text(s: &str) -> (r: Tok) ensures r == tok(s.spec_bytes()) { match s { "0" => Tok::Zero, "1" => Tok::One, "true" => Tok::True, "false" => Tok::False, "d" => Tok::D, _ => Tok::Other } }

#[verifier::external_body] struct TraceState { _p: u8 }
uninterp spec fn ts_default() -> TraceState;
impl TraceState { #[verifier::external_body] fn default() -> (r: TraceState) ensures r == ts_default() { unimplemented!() } }
//@item opentelemetry/src/trace_context.rs struct TraceFlags
impl Copy for TraceFlags {}
impl Clone for TraceFlags { fn clone(&self) -> (r: TraceFlags) ensures r == *self { *self } }
impl TraceFlags {
//@item opentelemetry/src/trace_context.rs impl TraceFlags :: const SAMPLED
//@fn opentelemetry/src/trace_context.rs impl TraceFlags :: fn new
//@ret r
//@contract
    ensures r.0 == flags,
//@endfn
//@fn opentelemetry/src/trace_context.rs impl TraceFlags :: fn is_sampled
//@ret r
//@subst (*self & TraceFlags::SAMPLED) == TraceFlags::SAMPLED ~> flags_and(*self, TraceFlags::SAMPLED).0 == TraceFlags::SAMPLED.0
//@contract
    ensures r == (self.0 & 1 == 1),
//@endfn
    fn default() -> (r: TraceFlags) ensures r.0 == 0 { TraceFlags(0) }
}
//@fn opentelemetry/src/trace_context.rs impl BitAnd for TraceFlags :: fn bitand
//@ret r
//@subst fn bitand(self, rhs: Self) -> Self::Output ~> fn flags_and(this: TraceFlags, rhs: TraceFlags) -> TraceFlags
//@subst Self(self.0 & rhs.0) ~> TraceFlags(this.0 & rhs.0)
//@contract
    ensures r.0 == this.0 & rhs.0,
//@endfn
//@fn opentelemetry/src/trace_context.rs impl BitOr for TraceFlags :: fn bitor
//@ret r
//@subst fn bitor(self, rhs: Self) -> Self::Output ~> fn flags_or(this: TraceFlags, rhs: TraceFlags) -> TraceFlags
//@subst Self(self.0 | rhs.0) ~> TraceFlags(this.0 | rhs.0)
//@contract
    ensures r.0 == this.0 | rhs.0,
//@endfn
//@item opentelemetry/src/trace_context.rs struct TraceId
//@item opentelemetry/src/trace_context.rs struct SpanId
impl Copy for TraceId {}
impl Clone for TraceId { fn clone(&self) -> (r: TraceId) ensures r == *self { *self } }
impl Copy for SpanId {}
impl Clone for SpanId { fn clone(&self) -> (r: SpanId) ensures r == *self { *self } }
impl TraceId {
//@item opentelemetry/src/trace_context.rs impl TraceId :: const INVALID
//@fn opentelemetry/src/trace_context.rs impl TraceId :: fn from_hex
//@sig fn from_hex(hex: &str) -> Result<TraceId, ()>
//@ret r
//@subst u128::from_str_radix(hex, 16).map(TraceId) ~> match parse_u128(hex) { Ok(v) => Ok(TraceId(v)), Err(e) => Err(e) }
//@contract
    ensures radix_ok(hex.spec_bytes(), 32, match r { Ok(v) => Ok(v.0 as int), Err(_) => Err(()) }),
//@endfn
}
impl SpanId {
//@item opentelemetry/src/trace_context.rs impl SpanId :: const INVALID
//@fn opentelemetry/src/trace_context.rs impl SpanId :: fn from_hex
//@sig fn from_hex(hex: &str) -> Result<SpanId, ()>
//@ret r
//@subst u64::from_str_radix(hex, 16).map(SpanId) ~> match parse_u64(hex) { Ok(v) => Ok(SpanId(v)), Err(e) => Err(e) }
//@contract
    ensures radix_ok(hex.spec_bytes(), 16, match r { Ok(v) => Ok(v.0 as int), Err(_) => Err(()) }),
//@endfn
}
//@item opentelemetry/src/trace/span_context.rs struct SpanContext
impl SpanContext {
    spec fn valid(&self) -> bool { self.trace_id.0 != 0 && self.span_id.0 != 0 }
//@fn opentelemetry/src/trace/span_context.rs impl SpanContext :: fn new
//@ret r
//@contract
    ensures r == (SpanContext { trace_id, span_id, trace_flags, is_remote, trace_state }),
//@endfn
//@fn opentelemetry/src/trace/span_context.rs impl SpanContext :: fn is_valid
//@ret r
//@subst $$a != TraceId::INVALID ~> $$a.0 != TraceId::INVALID.0
//@subst $$a != SpanId::INVALID ~> $$a.0 != SpanId::INVALID.0
//@contract
    ensures r == self.valid(),
//@endfn
//@fn opentelemetry/src/trace/span_context.rs impl SpanContext :: fn trace_id
//@ret r
//@contract
    ensures r == self.trace_id,
//@endfn
//@fn opentelemetry/src/trace/span_context.rs impl SpanContext :: fn span_id
//@ret r
//@contract
    ensures r == self.span_id,
//@endfn
//@fn opentelemetry/src/trace/span_context.rs impl SpanContext :: fn trace_flags
//@ret r
//@contract
    ensures r == self.trace_flags,
//@endfn
//@fn opentelemetry/src/trace/span_context.rs impl SpanContext :: fn is_sampled
//@ret r
//@contract
    ensures r == (self.trace_flags.0 & 1 == 1),
//@endfn
}
struct Headers { _p: u8 }
impl Headers {
    uninterp spec fn at(&self, key: Seq<char>) -> Option<Seq<u8>>;
    #[verifier::external_body]
    fn get(&self, key: &str) -> (r: Option<&str>)
        ensures match r { Some(v) => self.at(key@) == Some(v.spec_bytes()), None => self.at(key@).is_none() } { unimplemented!() }
}
struct Injected { g: Ghost<Map<Seq<char>, Seq<u8>>> }
impl Injected {
    #[verifier::external_body]
    fn set(&mut self, key: &str, value: String) ensures final(self).g@ == old(self).g@.insert(key@, sb(value@)) { unimplemented!() }
}
struct Span { sc: SpanContext }
impl Span { fn span_context(&self) -> (r: &SpanContext) ensures *r == self.sc { &self.sc } }
struct Context { id: Ghost<int>, remote: Option<SpanContext>, span: Span }
impl Context {
    fn span(&self) -> (r: &Span) ensures *r == self.span { &self.span }
    #[verifier::external_body]
    fn with_remote_span_context(&self, sc: SpanContext) -> (r: Context) ensures r.id == self.id, r.remote == Some(sc) { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Context) ensures r == *self { unimplemented!() }
}
/// how an identifier is printed (Display: 32 and 16 digits, proved in traceparent.rs)
uninterp spec fn tid(t: TraceId) -> Seq<u8>;
uninterp spec fn sid(t: SpanId) -> Seq<u8>;

proof fn small(s: Seq<u8>) requires all_hex(s) ensures hexval(s) >= 0, s.len() <= 16 ==> hexval(s) < 0x1_0000_0000_0000_0000, s.len() <= 32 ==> hexval(s) < 0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000
{ bounded(s); widths(); pow_mono(s.len(), 16); pow_mono(s.len(), 32); }
spec fn pow16(w: nat) -> int decreases w { if w == 0 { 1 } else { 16 * pow16((w - 1) as nat) } }
proof fn pow_mono(a: nat, b: nat) ensures a <= b ==> pow16(a) <= pow16(b), pow16(a) >= 1 decreases a, b { if a > 0 && b > 0 { pow_mono((a - 1) as nat, (b - 1) as nat); } else if a > 0 { pow_mono((a - 1) as nat, 0); } else if b > 0 { pow_mono(0, (b - 1) as nat); } }
proof fn bounded(s: Seq<u8>) requires forall|i: int| 0 <= i < s.len() ==> any_hex(#[trigger] s[i]) ensures 0 <= hexval(s) < pow16(s.len()) decreases s.len()
{ if s.len() > 0 { assert(any_hex(s.last())); assert forall|i: int| 0 <= i < s.len() - 1 implies any_hex(#[trigger] s.drop_last()[i]) by { assert(any_hex(s[i])); } bounded(s.drop_last()); } }
proof fn widths() ensures pow16(16) == 0x1_0000_0000_0000_0000, pow16(32) == 0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000
{ reveal_with_fuel(pow16, 40); assert(0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000 == pow16(32)) by (compute); }
proof fn lower_is_hex(s: Seq<u8>)
    ensures all_lower_hex(s) ==> all_hex(s) && s[0] != 0x2b,
        all_hex(s) && !(exists|i: int| 0 <= i < s.len() && 65 <= #[trigger] s[i] <= 90) ==> all_lower_hex(s)
{
    if all_lower_hex(s) { assert forall|i: int| 0 <= i < s.len() implies any_hex(#[trigger] s[i]) by { assert(lower_hex(s[i])); } assert(lower_hex(s[0])); }
    if all_hex(s) && !(exists|i: int| 0 <= i < s.len() && 65 <= #[trigger] s[i] <= 90) { assert forall|i: int| 0 <= i < s.len() implies lower_hex(#[trigger] s[i]) by { assert(any_hex(s[i])); } }
}
proof fn empty_text() ensures "".spec_bytes() == Seq::<u8>::empty() { reveal_strlit(""); is_ascii_spec_bytes(""); assert("".spec_bytes() =~= Seq::<u8>::empty()); }
spec fn header(h: &Headers, k: Seq<char>) -> Seq<u8> { match h.at(k) { Some(v) => v, None => Seq::empty() } }

mod b3 {
use super::*;
//@item opentelemetry-zipkin/src/propagator/mod.rs enum B3Encoding
impl B3Encoding {
    spec fn bits(&self) -> int { match self { B3Encoding::UnSpecified => 0, B3Encoding::MultipleHeader => 1, B3Encoding::SingleHeader => 2, B3Encoding::SingleAndMultiHeader => 3 } }
    spec fn single(&self) -> bool { self.bits() >= 2 }
    /// multiple headers are what an unspecified encoding means
    spec fn multi(&self) -> bool { self.bits() != 2 }
    #[verifier::external_body]
    fn bits_u8(&self) -> (r: u8) ensures r == self.bits() { unimplemented!() }
//@fn opentelemetry-zipkin/src/propagator/mod.rs impl B3Encoding :: fn support
//@ret r
//@subst? $$a.clone() as u8 ~> $$a.bits_u8()
//@contract
    ensures r == (match *other { B3Encoding::UnSpecified => true, B3Encoding::SingleHeader => self.bits() >= 2, B3Encoding::MultipleHeader => self.bits() == 1 || self.bits() == 3, B3Encoding::SingleAndMultiHeader => self.bits() == 3 }),
//@start
    proof {
        assert(forall|a: u8, b: u8| a <= 3 && b <= 3 ==> #[trigger] (a & b) == (if a == 0 || b == 0 { 0u8 } else if a == 3 { b } else if b == 3 { a } else if a == b { a } else { 0u8 })) by (bit_vector);
    }
//@endfn
}
spec fn debug_bit() -> u8 { 4 }
spec fn deferred_bit() -> u8 { 2 }
//@fn opentelemetry-zipkin/src/propagator/mod.rs const TRACE_FLAG_DEFERRED
//@sig fn trace_flag_deferred() -> TraceFlags
//@ret r
//@contract
    ensures r.0 == deferred_bit(),
//@endfn
//@fn opentelemetry-zipkin/src/propagator/mod.rs const TRACE_FLAG_DEBUG
//@sig fn trace_flag_debug() -> TraceFlags
//@ret r
//@contract
    ensures r.0 == debug_bit(),
//@endfn
//@fn opentelemetry-zipkin/src/propagator/mod.rs const B3_SINGLE_HEADER
//@sig fn b3_single_header() -> &'static str
//@ret r
//@contract
    ensures r@ == "b3"@,
//@endfn
//@fn opentelemetry-zipkin/src/propagator/mod.rs const B3_DEBUG_FLAG_HEADER
//@sig fn b3_debug_flag_header() -> &'static str
//@ret r
//@contract
    ensures r@ == "x-b3-flags"@,
//@endfn
//@fn opentelemetry-zipkin/src/propagator/mod.rs const B3_TRACE_ID_HEADER
//@sig fn b3_trace_id_header() -> &'static str
//@ret r
//@contract
    ensures r@ == "x-b3-traceid"@,
//@endfn
//@fn opentelemetry-zipkin/src/propagator/mod.rs const B3_SPAN_ID_HEADER
//@sig fn b3_span_id_header() -> &'static str
//@ret r
//@contract
    ensures r@ == "x-b3-spanid"@,
//@endfn
//@fn opentelemetry-zipkin/src/propagator/mod.rs const B3_SAMPLED_HEADER
//@sig fn b3_sampled_header() -> &'static str
//@ret r
//@contract
    ensures r@ == "x-b3-sampled"@,
//@endfn
//@fn opentelemetry-zipkin/src/propagator/mod.rs const B3_PARENT_SPAN_ID_HEADER
//@sig fn b3_parent_span_id_header() -> &'static str
//@ret r
//@contract
    ensures r@ == "x-b3-parentspanid"@,
//@endfn
//@gsubst TRACE_FLAG_DEFERRED ~> trace_flag_deferred()
//@gsubst TRACE_FLAG_DEBUG ~> trace_flag_debug()
//@gsubst B3_SINGLE_HEADER ~> b3_single_header()
//@gsubst B3_DEBUG_FLAG_HEADER ~> b3_debug_flag_header()
//@gsubst B3_TRACE_ID_HEADER ~> b3_trace_id_header()
//@gsubst B3_SPAN_ID_HEADER ~> b3_span_id_header()
//@gsubst B3_SAMPLED_HEADER ~> b3_sampled_header()
//@gsubst B3_PARENT_SPAN_ID_HEADER ~> b3_parent_span_id_header()

spec fn lower_id(s: Seq<u8>, w: int) -> bool { s.len() == w && all_lower_hex(s) }
spec fn tid_ok(s: Seq<u8>) -> bool { lower_id(s, 16) || lower_id(s, 32) }
spec fn sampled_of(s: Seq<u8>, e: B3Encoding) -> Option<TraceFlags> {
    match tok(s) {
        Tok::Zero | Tok::False => Some(TraceFlags(0)), Tok::One => Some(TraceFlags(1)),
        Tok::True => if e.single() { None } else { Some(TraceFlags(1)) },
        Tok::D => if e.single() { Some(TraceFlags(4)) } else { None },
        Tok::Other => None,
    }
}
spec fn single_ok(p: Seq<Seq<u8>>, e: B3Encoding) -> bool {
    2 <= p.len() <= 4 && tid_ok(p[0]) && hexval(p[0]) != 0 && lower_id(p[1], 16) && hexval(p[1]) != 0
    && (p.len() > 2 ==> sampled_of(p[2], e).is_some()) && (p.len() == 4 ==> lower_id(p[3], 16))
}
spec fn single_ctx(p: Seq<Seq<u8>>, e: B3Encoding) -> SpanContext {
    SpanContext { trace_id: TraceId(hexval(p[0]) as u128), span_id: SpanId(hexval(p[1]) as u64),
        trace_flags: if p.len() > 2 { sampled_of(p[2], e)->0 } else { TraceFlags(2) }, is_remote: true, trace_state: ts_default() }
}
/// the decision the separate headers carry; debug wins and implies sampled
spec fn multi_flags(h: &Headers, e: B3Encoding) -> Option<TraceFlags> {
    if tok(header(h, "x-b3-flags"@)) is One { Some(TraceFlags(5)) }
    else { match h.at("x-b3-sampled"@) { Some(s) => sampled_of(s, e), None => Some(TraceFlags(2)) } }
}
spec fn multi_ok(h: &Headers, e: B3Encoding) -> bool {
    let t = header(h, "x-b3-traceid"@); let s = header(h, "x-b3-spanid"@);
    tid_ok(t) && hexval(t) != 0 && lower_id(s, 16) && hexval(s) != 0 && multi_flags(h, e).is_some()
}
spec fn multi_ctx(h: &Headers, e: B3Encoding) -> SpanContext {
    SpanContext { trace_id: TraceId(hexval(header(h, "x-b3-traceid"@)) as u128), span_id: SpanId(hexval(header(h, "x-b3-spanid"@)) as u64),
        trace_flags: multi_flags(h, e)->0, is_remote: true, trace_state: ts_default() }
}
proof fn header_names()
    ensures "b3"@ != "x-b3-flags"@, "b3"@ != "x-b3-traceid"@, "b3"@ != "x-b3-spanid"@, "b3"@ != "x-b3-sampled"@,
        "x-b3-flags"@ != "x-b3-traceid"@, "x-b3-flags"@ != "x-b3-spanid"@, "x-b3-flags"@ != "x-b3-sampled"@,
        "x-b3-traceid"@ != "x-b3-spanid"@, "x-b3-traceid"@ != "x-b3-sampled"@, "x-b3-spanid"@ != "x-b3-sampled"@,
{
    reveal_strlit("b3"); reveal_strlit("x-b3-flags"); reveal_strlit("x-b3-traceid"); reveal_strlit("x-b3-spanid"); reveal_strlit("x-b3-sampled");
    assert("b3"@.len() == 2 && "x-b3-flags"@.len() == 10 && "x-b3-traceid"@.len() == 12 && "x-b3-spanid"@.len() == 11 && "x-b3-sampled"@.len() == 12);
    assert("x-b3-traceid"@[5] == 't' && "x-b3-sampled"@[5] == 's');
}

struct Propagator { inject_encoding: B3Encoding }
impl Propagator {
//@fn opentelemetry-zipkin/src/propagator/mod.rs impl Propagator :: fn extract_trace_id
//@ret r
//@subst trace_id.to_lowercase() != trace_id ~> differs_from_lowercase(trace_id)
//@subst trace_id.starts_with('+') ~> starts_with_plus(trace_id)
//@subst trace_id.len() ~> blen(trace_id)
//@subst $$a.map_err(|_| ()) ~> $$a
//@contract
    ensures r.is_ok() == tid_ok(trace_id.spec_bytes()), r.is_ok() ==> r->Ok_0 == TraceId(hexval(trace_id.spec_bytes()) as u128),
//@start
    proof { lower_is_hex(trace_id.spec_bytes()); if all_hex(trace_id.spec_bytes()) { small(trace_id.spec_bytes()); } }
//@endfn
//@fn opentelemetry-zipkin/src/propagator/mod.rs impl Propagator :: fn extract_span_id
//@ret r
//@subst span_id.to_lowercase() != span_id ~> differs_from_lowercase(span_id)
//@subst span_id.starts_with('+') ~> starts_with_plus(span_id)
//@subst span_id.len() ~> blen(span_id)
//@subst $$a.map_err(|_| ()) ~> $$a
//@contract
    ensures r.is_ok() == lower_id(span_id.spec_bytes(), 16), r.is_ok() ==> r->Ok_0 == SpanId(hexval(span_id.spec_bytes()) as u64),
//@start
    proof { lower_is_hex(span_id.spec_bytes()); if all_hex(span_id.spec_bytes()) { small(span_id.spec_bytes()); } }
//@endfn
//@fn opentelemetry-zipkin/src/propagator/mod.rs impl Propagator :: fn extract_sampled_state
//@ret r
//@subst match sampled ~> match text(sampled)
//@subst "0" ~> Tok::Zero
//@subst "1" ~> Tok::One
//@subst "true" ~> Tok::True
//@subst "false" ~> Tok::False
//@subst "d" ~> Tok::D
//@contract
    ensures match r { Ok(f) => sampled_of(sampled.spec_bytes(), self.inject_encoding) == Some(f), Err(_) => sampled_of(sampled.spec_bytes(), self.inject_encoding).is_none() },
//@endfn
//@fn opentelemetry-zipkin/src/propagator/mod.rs impl Propagator :: fn extract_debug_flag
//@ret r
//@subst match debug ~> match text(debug)
//@subst "0" ~> Tok::Zero
//@subst "1" ~> Tok::One
//@subst trace_flag_debug() | TraceFlags::SAMPLED ~> flags_or(trace_flag_debug(), TraceFlags::SAMPLED)
//@contract
    ensures match r { Ok(f) => (tok(debug.spec_bytes()) is One && f.0 == 5) || (tok(debug.spec_bytes()) is Zero && f.0 == 0), Err(_) => !(tok(debug.spec_bytes()) is One || tok(debug.spec_bytes()) is Zero) },
//@start
    proof { assert(4u8 | 1u8 == 5u8) by (bit_vector); }
//@endfn
//@fn opentelemetry-zipkin/src/propagator/mod.rs impl Propagator :: fn extract_single_header
//@sig fn extract_single_header(&self, extractor: &Headers) -> Result<SpanContext, ()>
//@ret r
//@subst $x.split_terminator('-').collect::<Vec<&str>>() ~> split_terminator_dash($x)
//@contract
    ensures ({
        let p = split_term(header(extractor, "b3"@), 0x2d);
        &&& r.is_ok() == single_ok(p, self.inject_encoding)
        &&& r.is_ok() ==> r->Ok_0 == single_ctx(p, self.inject_encoding)
    }),
//@start
    proof {
        empty_text();
        let p = split_term(header(extractor, "b3"@), 0x2d);
        if p.len() > 0 { lower_is_hex(p[0]); if all_hex(p[0]) { small(p[0]); } }
        if p.len() > 1 { lower_is_hex(p[1]); if all_hex(p[1]) { small(p[1]); } }
    }
//@after let parts
    proof { assert(forall|i: int| 0 <= i < parts@.len() ==> #[trigger] parts@[i].spec_bytes() == str_bytes(parts@)[i]); assert(str_bytes(parts@).len() == parts@.len()); }
//@endfn
//@fn opentelemetry-zipkin/src/propagator/mod.rs impl Propagator :: fn extract_multi_header
//@sig fn extract_multi_header(&self, extractor: &Headers) -> Result<SpanContext, ()>
//@ret r
//@subst $$a.map_err(|_| ())? ~> $$a?
//@subst $$a.map_err(|_| ()); ~> $$a;
//@subst $x.ok().filter(|flag| flag.is_sampled()) ~> match $x { Ok(flag) => if flag.is_sampled() { Some(flag) } else { None }, Err(_) => None }
//@contract
    ensures r.is_ok() == multi_ok(extractor, self.inject_encoding), r.is_ok() ==> r->Ok_0 == multi_ctx(extractor, self.inject_encoding),
//@start
    proof {
        empty_text();
        assert(5u8 & 1 == 1 && 0u8 & 1 == 0) by (bit_vector);
        let (t, s) = (header(extractor, "x-b3-traceid"@), header(extractor, "x-b3-spanid"@));
        lower_is_hex(t); lower_is_hex(s);
        if all_hex(t) { small(t); }
        if all_hex(s) { small(s); }
    }
//@endfn
//@fn opentelemetry-zipkin/src/propagator/mod.rs impl TextMapPropagator for Propagator :: fn extract_with_context
//@sig fn extract_with_context(&self, cx: &Context, extractor: &Headers) -> Context
//@ret r
//@subst self.extract_single_header(extractor).or_else(|_| { $$b }) ~> match self.extract_single_header(extractor) { Ok(sc) => Ok(sc), Err(_) => { $$b } }
//@subst extract_result.ok().filter(|cx| cx.is_valid()) ~> match extract_result { Ok(cx) => if cx.is_valid() { Some(cx) } else { None }, Err(_) => None }
//@contract
    ensures ({
        let p = split_term(header(extractor, "b3"@), 0x2d);
        let e = self.inject_encoding;
        &&& single_ok(p, e) ==> r.id == cx.id && r.remote == Some(single_ctx(p, e))
        &&& !single_ok(p, e) && multi_ok(extractor, e) ==> r.id == cx.id && r.remote == Some(multi_ctx(extractor, e))
        &&& !single_ok(p, e) && !multi_ok(extractor, e) ==> r == *cx
    }),
//@start
    proof {
        let p = split_term(header(extractor, "b3"@), 0x2d);
        if p.len() > 0 { lower_is_hex(p[0]); if all_hex(p[0]) { small(p[0]); } }
        if p.len() > 1 { lower_is_hex(p[1]); if all_hex(p[1]) { small(p[1]); } }
        let (t, s) = (header(extractor, "x-b3-traceid"@), header(extractor, "x-b3-spanid"@));
        lower_is_hex(t); lower_is_hex(s);
        if all_hex(t) { small(t); }
        if all_hex(s) { small(s); }
    }
//@endfn
//@fn opentelemetry-zipkin/src/propagator/mod.rs impl TextMapPropagator for Propagator :: fn inject_context
//@sig fn inject_context(&self, context: &Context, injector: &mut Injected)
//@subst span_context.trace_flags() & trace_flag_deferred() == trace_flag_deferred() ~> flags_and(span_context.trace_flags(), trace_flag_deferred()).0 == trace_flag_deferred().0
//@subst span_context.trace_flags() & trace_flag_debug() == trace_flag_debug() ~> flags_and(span_context.trace_flags(), trace_flag_debug()).0 == trace_flag_debug().0
//@subst? matches!(self.inject_encoding, B3Encoding::UnSpecified) ~> (match self.inject_encoding { B3Encoding::UnSpecified => true, _ => false })
//@subst format!("{}-{}", $$a, $$b) ~> ids($$a, $$b)
//@subst format!("{}-{:01}", $$a, $$b) ~> with_flag($$a, $$b)
//@subst $x.trace_id().to_string() ~> tid_text($x.trace_id())
//@subst $x.span_id().to_string() ~> sid_text($x.span_id())
//@subst "1".to_string() ~> owned("1")
//@subst sampled.to_string() ~> owned(sampled)
//@subst flag.to_string() ~> owned(flag)
//@before injector.set(b3_single_header(), value);
    proof {
        let sc = span_context; let f = sc.trace_flags.0;
        assert(is_debug == (f & 4 == 4)); assert(is_deferred == (f & 2 == 2 && f & 4 != 4 && f & 1 != 1));
    }
//@contract
    ensures final(injector).g@ =~= injected(context.span.sc, self.inject_encoding, old(injector).g@),
//@start
    proof {
        header_names();
        reveal_strlit("0"); reveal_strlit("1"); reveal_strlit("d");
        is_ascii_spec_bytes("0"); is_ascii_spec_bytes("1"); is_ascii_spec_bytes("d");
        assert(sb("0"@) =~= seq![48u8]); assert(sb("1"@) =~= seq![49u8]); assert(sb("d"@) =~= seq![100u8]);
        assert("0".spec_bytes() =~= seq![48u8]); assert("1".spec_bytes() =~= seq![49u8]); assert("d".spec_bytes() =~= seq![100u8]);
        let f = context.span.sc.trace_flags.0;
    }
//@endfn
}
/// what has to be in the headers: the identity, and the debug decision, else the sampling decision, else (deferred) nothing
spec fn injected(sc: SpanContext, e: B3Encoding, m: Map<Seq<char>, Seq<u8>>) -> Map<Seq<char>, Seq<u8>> {
    let f = sc.trace_flags.0;
    let debug = f & 4 == 4; let sampled = f & 1 == 1; let deferred = f & 2 == 2 && !debug && !sampled;
    let bit = if sampled { seq![49u8] } else { seq![48u8] };
    if sc.valid() {
        let both = tid(sc.trace_id) + seq![0x2du8] + sid(sc.span_id);
        let one = if deferred { both } else { both + seq![0x2du8] + (if debug { seq![100u8] } else { bit }) };
        let m1 = if e.single() { m.insert("b3"@, one) } else { m };
        if e.multi() {
            let m2 = m1.insert("x-b3-traceid"@, tid(sc.trace_id)).insert("x-b3-spanid"@, sid(sc.span_id));
            if debug { m2.insert("x-b3-flags"@, seq![49u8]) } else if deferred { m2 } else { m2.insert("x-b3-sampled"@, bit) }
        } else { m1 }
    } else {
        let m1 = if e.single() { m.insert("b3"@, bit) } else { m };
        if e.multi() { m1.insert("x-b3-sampled"@, bit) } else { m1 }
    }
}
// core::fmt: pieces in order
#[verifier::external_body]
fn ids(t: TraceId, s: SpanId) -> (r: String) ensures sb(r@) == tid(t) + seq![0x2du8] + sid(s) { unimplemented!() }
#[verifier::external_body]
fn with_flag(v: String, f: &str) -> (r: String) requires f.spec_bytes().len() >= 1 ensures sb(r@) == sb(v@) + seq![0x2du8] + f.spec_bytes() { unimplemented!() }
#[verifier::external_body]
fn tid_text(t: TraceId) -> (r: String) ensures sb(r@) == tid(t) { unimplemented!() }
#[verifier::external_body]
fn sid_text(t: SpanId) -> (r: String) ensures sb(r@) == sid(t) { unimplemented!() }
#[verifier::external_body]
fn owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
} // mod b3

mod jaeger {
use super::*;
//@gsubst DEPRECATED_PARENT_SPAN ~> deprecated_parent_span()
//@fn opentelemetry-jaeger-propagator/src/propagator.rs const TRACE_FLAG_DEBUG
//@sig fn trace_flag_debug() -> TraceFlags
//@ret r
//@contract
    ensures r.0 == 4,
//@endfn
/// the state entries: keys of the carrier that start with the prefix (trace_state.rs decides what TraceState accepts)
uninterp spec fn state_of(h: &Headers) -> Option<TraceState>;
uninterp spec fn unescaped(s: Seq<u8>) -> Seq<u8>;
spec fn has_colon(s: Seq<u8>) -> bool { exists|i: int| 0 <= i < s.len() && s[i] == 0x3a }
/// the header value, URL-decoded when it has no colon
#[verifier::external_body]
fn header_text(e: &Headers, name: &str) -> (r: String)
    ensures ({ let h = header(e, name@); sb(r@) == (if has_colon(h) { h } else { unescaped(h) }) }) { unimplemented!() }
#[verifier::external_body]
fn as_text(s: &String) -> (r: &str) ensures r.spec_bytes() == sb(s@), r@ == s@ { s.as_str() }
spec fn id_ok(s: Seq<u8>, w: int) -> bool { 1 <= s.len() <= w && all_hex(s) }
/// flags: one or two decimal digits; bit 0 sampled, bit 1 debug, which counts only when sampled
spec fn flags_of(s: Seq<u8>) -> Option<TraceFlags> {
    if s.len() > 2 { None } else { match dec_u8(s) { None => None, Some(f) => Some(TraceFlags(if f & 1 == 1 { if f & 2 == 2 { 5 } else { 1 } } else { 0u8 })) } }
}
spec fn ok(p: Seq<Seq<u8>>, h: &Headers) -> bool {
    p.len() == 4 && id_ok(p[0], 32) && p[1].len() <= 16 && (p[1].len() == 0 || all_hex(p[1])) && flags_of(p[3]).is_some() && state_of(h).is_some()
}
spec fn ctx_of(p: Seq<Seq<u8>>, h: &Headers) -> SpanContext {
    SpanContext { trace_id: TraceId(hexval(p[0]) as u128), span_id: SpanId(hexval(p[1]) as u64), trace_flags: flags_of(p[3])->0, is_remote: true, trace_state: state_of(h)->0 }
}
spec fn parts_of(h: &Headers, name: Seq<char>) -> Seq<Seq<u8>> {
    let t = header(h, name); split_term(if has_colon(t) { t } else { unescaped(t) }, 0x3a)
}
struct Propagator { baggage_prefix: &'static str, header_name: &'static str }
impl Propagator {
//@fn opentelemetry-jaeger-propagator/src/propagator.rs impl Propagator :: fn extract_trace_id
//@ret r
//@subst trace_id.starts_with('+') ~> starts_with_plus(trace_id)
//@subst trace_id.len() ~> blen(trace_id)
//@subst $$a.map_err(|_| ()) ~> $$a
//@contract
    ensures r.is_ok() == id_ok(trace_id.spec_bytes(), 32), r.is_ok() ==> r->Ok_0 == TraceId(hexval(trace_id.spec_bytes()) as u128),
//@start
    proof { if all_hex(trace_id.spec_bytes()) { small(trace_id.spec_bytes()); } }
//@endfn
//@fn opentelemetry-jaeger-propagator/src/propagator.rs impl Propagator :: fn extract_span_id
//@ret r
//@subst span_id.starts_with('+') ~> starts_with_plus(span_id)
//@subst span_id.len() ~> blen(span_id)
//@subst format!("{span_id:0>16}") ~> pad16(span_id)
//@subst SpanId::from_hex(&padded) ~> SpanId::from_hex(as_text(&padded))
//@subst $$a.map_err(|_| ()) ~> $$a
//@contract
    ensures ({ let s = span_id.spec_bytes();
        &&& r.is_ok() == (s.len() <= 16 && (s.len() == 0 || all_hex(s)))
        &&& r.is_ok() ==> r->Ok_0 == SpanId(hexval(s) as u64) }),
//@start
    proof {
        let s = span_id.spec_bytes();
        if all_hex(s) { small(s); }
        if s.len() <= 16 {
            let n = (16 - s.len()) as nat;
            leading_zeros(n, s);
            let t = zeros(n) + s;
            if s.len() == 0 { assert(t =~= zeros(16)); assert(all_hex(t)) by { assert forall|i: int| 0 <= i < t.len() implies any_hex(#[trigger] t[i]) by {} } }
            assert(n > 0 ==> t[0] == 48u8); assert(n == 0 ==> t =~= s);
        }
    }
//@endfn
//@fn opentelemetry-jaeger-propagator/src/propagator.rs impl Propagator :: fn extract_trace_flags
//@ret r
//@subst flag.len() ~> blen(flag)
//@subst u8::from_str(flag).map_err(|_| ())? ~> parse_dec_u8(flag)?
//@subst TraceFlags::SAMPLED | trace_flag_debug() ~> flags_or(TraceFlags::SAMPLED, trace_flag_debug())
//@contract
    ensures match r { Ok(f) => flags_of(flag.spec_bytes()) == Some(f), Err(_) => flags_of(flag.spec_bytes()).is_none() },
//@start
    proof { assert(1u8 | 4u8 == 5u8) by (bit_vector); }
//@endfn
#[verifier::external_body]
fn extract_trace_state(&self, extractor: &Headers) -> (r: Result<TraceState, ()>) ensures match r { Ok(t) => state_of(extractor) == Some(t), Err(_) => state_of(extractor).is_none() } { unimplemented!() }
//@fn opentelemetry-jaeger-propagator/src/propagator.rs impl Propagator :: fn extract_span_context
//@sig fn extract_span_context(&self, extractor: &Headers) -> Option<SpanContext>
//@ret r
//@subst let mut header_value = Cow::from(extractor.get(self.header_name).unwrap_or("")); if !header_value.contains(':') { header_value = Cow::from(header_value.replace("%3A", ":")); } ~> let header_value = header_text(extractor, self.header_name);
//@subst header_value.split_terminator(':').collect::<Vec<&str>>() ~> split_terminator_colon(as_text(&header_value))
//@contract
    ensures ({
        let p = parts_of(extractor, self.header_name@);
        &&& r.is_some() == ok(p, extractor)
        &&& r.is_some() ==> r->0 == ctx_of(p, extractor)
    }),
//@after let parts
    proof { assert(forall|i: int| 0 <= i < parts@.len() ==> #[trigger] parts@[i].spec_bytes() == str_bytes(parts@)[i]); assert(str_bytes(parts@).len() == parts@.len()); }
//@endfn
//@fn opentelemetry-jaeger-propagator/src/propagator.rs impl TextMapPropagator for Propagator :: fn extract_with_context
//@sig fn extract_with_context(&self, cx: &Context, extractor: &Headers) -> Context
//@ret r
//@subst self.extract_span_context(extractor).filter(|sc| $$f).map(|sc| $$a).unwrap_or_else(|| $$b) ~> match (match self.extract_span_context(extractor) { Some(sc) => if $$f { Some(sc) } else { None }, None => None }) { Some(sc) => $$a, None => $$b }
//@contract
    ensures ({
        let p = parts_of(extractor, self.header_name@);
        let good = ok(p, extractor) && hexval(p[0]) != 0 && hexval(p[1]) != 0;
        &&& good ==> r.id == cx.id && r.remote == Some(ctx_of(p, extractor))
        &&& !good ==> r == *cx
    }),
//@start
    proof { let p = parts_of(extractor, self.header_name@); if ok(p, extractor) { small(p[0]); if all_hex(p[1]) { small(p[1]); } } }
//@endfn
//@fn opentelemetry-jaeger-propagator/src/propagator.rs impl TextMapPropagator for Propagator :: fn inject_context
//@sig fn inject_context(&self, cx: &Context, injector: &mut Injected)
//@subst span_context.trace_flags() & trace_flag_debug() == trace_flag_debug() ~> flags_and(span_context.trace_flags(), trace_flag_debug()).0 == trace_flag_debug().0
//@subst format!("{}:{}:{:01}:{:01x}", $$a, $$b, $$c, $$d,) ~> header4($$a, $$b, $$c, $$d)
//@after let header_value
    proof { assert(sb(header_value@) =~= line(cx.span.sc)); }
//@contract
    ensures
        !cx.span.sc.valid() ==> final(injector).g@ == old(injector).g@,
        cx.span.sc.valid() ==> final(injector).g@ == old(injector).g@.insert(self.header_name@, line(cx.span.sc)),
//@start
    proof { reveal_strlit("0"); is_ascii_spec_bytes("0"); assert("0".spec_bytes() =~= seq![48u8]); }
//@endfn
}
//@fn opentelemetry-jaeger-propagator/src/propagator.rs const DEPRECATED_PARENT_SPAN
//@sig fn deprecated_parent_span() -> &'static str
//@ret r
//@contract
    ensures r@ == "0"@,
//@endfn
spec fn flag_digit(f: u8) -> u8 { if f & 1 == 1 { if f & 4 == 4 { 51 } else { 49 } } else { 48u8 } }
spec fn line(sc: SpanContext) -> Seq<u8> {
    tid(sc.trace_id) + seq![0x3au8] + sid(sc.span_id) + seq![0x3au8, 48u8, 0x3au8] + seq![flag_digit(sc.trace_flags.0)]
}
// core::fmt: pieces in order; flag is below 16, one hex digit
#[verifier::external_body]
fn header4(t: TraceId, s: SpanId, p: &str, f: u8) -> (r: String)
    requires p.spec_bytes().len() == 1
    ensures f < 10 ==> sb(r@) == tid(t) + seq![0x3au8] + sid(s) + seq![0x3au8] + p.spec_bytes() + seq![0x3au8] + seq![(48 + f) as u8] { unimplemented!() }
/// what the flag digit says is what was injected, debug counting only when sampled
proof fn jaeger_flags_round_trip(f: u8)
    ensures flags_of(seq![flag_digit(f)]) == Some(TraceFlags(if f & 1 == 1 { f & 5 } else { 0 }))
{
    broadcast use dec_digit;
    assert(3u8 & 1 == 1 && 3u8 & 2 == 2 && 1u8 & 1 == 1 && 1u8 & 2 == 0 && 0u8 & 1 == 0) by (bit_vector);
    assert(f & 1 == 1 && f & 4 == 4 ==> f & 5 == 5) by (bit_vector);
    assert(f & 1 == 1 && f & 4 != 4 ==> f & 5 == 1) by (bit_vector);
}
} // mod jaeger
} // verus!
fn main() {}

// Unit: the W3C traceparent header (opentelemetry-sdk/src/propagation/trace_context.rs, opentelemetry/src/trace_context.rs).
use vstd::prelude::*;
use vstd::string::*;
verus! {

spec fn sb(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
spec fn digit(n: int) -> u8 { if n < 10 { (48 + n) as u8 } else { (87 + n) as u8 } }
spec fn dval(c: u8) -> int { if 48 <= c <= 57 { c - 48 } else if 97 <= c <= 102 { c - 87 } else { 0 } }
spec fn is_hex(c: u8) -> bool { 48 <= c <= 57 || 97 <= c <= 102 }
/// n written with w lowercase hex digits
spec fn hexs(n: int, w: nat) -> Seq<u8> decreases w { if w == 0 { Seq::empty() } else { hexs(n / 16, (w - 1) as nat).push(digit(n % 16)) } }
spec fn hexval(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { hexval(s.drop_last()) * 16 + dval(s.last()) } }
spec fn lhex(s: Seq<u8>, w: int) -> bool { s.len() == w && forall|i: int| 0 <= i < s.len() ==> is_hex(#[trigger] s[i]) }
spec fn pow16(w: nat) -> int decreases w { if w == 0 { 1 } else { 16 * pow16((w - 1) as nat) } }

proof fn hex_round_trip(n: int, w: nat)
    requires 0 <= n < pow16(w)
    ensures hexval(hexs(n, w)) == n, lhex(hexs(n, w), w as int)
    decreases w
{
    if w > 0 {
        let m = (w - 1) as nat;
        assert(n / 16 < pow16(m)) by (nonlinear_arith) requires n < 16 * pow16(m), n >= 0;
        hex_round_trip(n / 16, m);
        let s = hexs(n, w);
        assert(s.drop_last() =~= hexs(n / 16, m));
        assert(s.last() == digit(n % 16));
    }
}
proof fn widths() ensures pow16(2) == 0x100, pow16(16) == 0x1_0000_0000_0000_0000, pow16(32) == 0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000
{ reveal_with_fuel(pow16, 40); assert(0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000 == pow16(32)) by (compute); }

// ---- trusted string library
spec fn idx(s: Seq<u8>, c: u8) -> int decreases s.len() { if s.len() == 0 || s[0] == c { 0 } else { 1 + idx(s.drop_first(), c) } }
spec fn pieces(s: Seq<u8>, c: u8) -> Seq<Seq<u8>> decreases s.len() via pieces_dec {
    if idx(s, c) >= s.len() { seq![s] } else { seq![s.take(idx(s, c))] + pieces(s.skip(idx(s, c) + 1), c) }
}
#[via_fn]
proof fn pieces_dec(s: Seq<u8>, c: u8) { idx_props(s, c); }
proof fn idx_props(s: Seq<u8>, c: u8)
    ensures 0 <= idx(s, c) <= s.len(), idx(s, c) < s.len() ==> s[idx(s, c)] == c, forall|i: int| 0 <= i < idx(s, c) ==> s[i] != c
    decreases s.len()
{
    if s.len() > 0 && s[0] != c {
        let t = s.drop_first();
        idx_props(t, c);
        assert forall|i: int| 0 <= i < idx(s, c) implies s[i] != c by { if i > 0 { assert(s[i] == t[i - 1]); } }
    }
}
proof fn idx_at(s: Seq<u8>, c: u8, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> s[i] != c, n < s.len() ==> s[n] == c
    ensures idx(s, c) == n
{ idx_props(s, c); if idx(s, c) < n { assert(s[idx(s, c)] == c); } }
/// split_terminator: the pieces, without an empty last one
spec fn split_term(s: Seq<u8>) -> Seq<Seq<u8>> { let p = pieces(s, 0x2d); if p.last().len() == 0 { p.drop_last() } else { p } }
spec fn str_bytes(v: Seq<&str>) -> Seq<Seq<u8>> { v.map_values(|s: &str| s.spec_bytes()) }
pub uninterp spec fn trim_of(s: Seq<u8>) -> Seq<u8>;
pub assume_specification [str::trim] (s: &str) -> (r: &str) ensures r.spec_bytes() == trim_of(s.spec_bytes());
broadcast axiom fn trim_none(s: Seq<u8>) ensures s.len() > 0 && 0x21 <= s[0] <= 0x7e && 0x21 <= s.last() <= 0x7e ==> #[trigger] trim_of(s) == s;
#[verifier::external_body]
fn split_terminator_dash<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures str_bytes(r@) == split_term(s.spec_bytes()) { s.split_terminator('-').collect() }
#[verifier::external_body]
fn blen(s: &str) -> (r: usize) ensures r == s.spec_bytes().len() { unimplemented!() }
#[verifier::external_body]
fn all_bytes<F: Fn(u8) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < s.spec_bytes().len() ==> f.requires((#[trigger] s.spec_bytes()[i],))
    ensures r ==> forall|i: int| 0 <= i < s.spec_bytes().len() ==> f.ensures((#[trigger] s.spec_bytes()[i],), true),
        !r ==> exists|i: int| 0 <= i < s.spec_bytes().len() && f.ensures((#[trigger] s.spec_bytes()[i],), false),
{ unimplemented!() }
// from_str_radix(_, 16): reads hex digits; what it does with other texts is left open
#[verifier::external_body]
fn parse_u8(s: &str) -> (r: Result<u8, ()>) ensures lhex(s.spec_bytes(), 2) ==> r == Ok::<u8, ()>(hexval(s.spec_bytes()) as u8) { u8::from_str_radix(s, 16).map_err(|_| ()) }
#[verifier::external_body]
fn parse_u64(s: &str) -> (r: Result<u64, ()>) ensures lhex(s.spec_bytes(), 16) ==> r == Ok::<u64, ()>(hexval(s.spec_bytes()) as u64) { u64::from_str_radix(s, 16).map_err(|_| ()) }
#[verifier::external_body]
fn parse_u128(s: &str) -> (r: Result<u128, ()>) ensures lhex(s.spec_bytes(), 32) ==> r == Ok::<u128, ()>(hexval(s.spec_bytes()) as u128) { u128::from_str_radix(s, 16).map_err(|_| ()) }
// core::fmt: `{:0Wx}` writes at least W lowercase hex digits
struct Out { t: Ghost<Seq<u8>> }
impl Out {
    #[verifier::external_body]
    fn put(&mut self, s: &str) ensures final(self).t@ == old(self).t@ + s.spec_bytes() { unimplemented!() }
    #[verifier::external_body]
    fn hex128(&mut self, n: u128, w: usize) ensures n < pow16(w as nat) ==> final(self).t@ == old(self).t@ + hexs(n as int, w as nat) { unimplemented!() }
}
struct FmtError;
spec fn wrote(o: &Out, f: &Out, t: Seq<u8>) -> bool { f.t@ == o.t@ + t }

#[verifier::external_body] struct TraceState { _p: u8 }
uninterp spec fn ts_parse(s: Seq<u8>) -> Option<TraceState>;
uninterp spec fn ts_header(t: TraceState) -> Seq<u8>;
uninterp spec fn ts_default() -> TraceState;
impl TraceState {
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: Result<TraceState, ()>) ensures match r { Ok(t) => ts_parse(s.spec_bytes()) == Some(t), Err(_) => ts_parse(s.spec_bytes()).is_none() } { unimplemented!() }
    #[verifier::external_body]
    fn default() -> (r: TraceState) ensures r == ts_default() { unimplemented!() }
    #[verifier::external_body]
    fn header(&self) -> (r: String) ensures sb(r@) == ts_header(*self) { unimplemented!() }
}
//@item opentelemetry/src/trace_context.rs struct TraceFlags
impl Copy for TraceFlags {}
impl Clone for TraceFlags { fn clone(&self) -> (r: TraceFlags) ensures r == *self { *self } }
impl TraceFlags {
//@item opentelemetry/src/trace_context.rs impl TraceFlags :: const SAMPLED
//@fn opentelemetry/src/trace_context.rs impl TraceFlags :: fn new
//@ret r
//@contract
    ensures r.0 == flags,
//@endfn
}
//@fn opentelemetry/src/trace_context.rs impl BitAnd for TraceFlags :: fn bitand
//@ret r
//@subst fn bitand(self, rhs: Self) -> Self::Output ~> fn flags_and(this: TraceFlags, rhs: TraceFlags) -> TraceFlags
//@subst Self(self.0 & rhs.0) ~> TraceFlags(this.0 & rhs.0)
//@contract
    ensures r.0 == this.0 & rhs.0,
//@endfn
//@item opentelemetry/src/trace_context.rs struct TraceId
//@item opentelemetry/src/trace_context.rs struct SpanId
impl Copy for TraceId {}
impl Clone for TraceId { fn clone(&self) -> (r: TraceId) ensures r == *self { *self } }
impl Copy for SpanId {}
impl Clone for SpanId { fn clone(&self) -> (r: SpanId) ensures r == *self { *self } }
impl TraceId {
//@item opentelemetry/src/trace_context.rs impl TraceId :: const INVALID
//@fn opentelemetry/src/trace_context.rs impl TraceId :: fn from_hex
//@sig fn from_hex(hex: &str) -> Result<TraceId, ()>
//@ret r
//@subst u128::from_str_radix(hex, 16).map(TraceId) ~> match parse_u128(hex) { Ok(v) => Ok(TraceId(v)), Err(e) => Err(e) }
//@contract
    ensures lhex(hex.spec_bytes(), 32) ==> r == Ok::<TraceId, ()>(TraceId(hexval(hex.spec_bytes()) as u128)),
//@endfn
//@fn opentelemetry/src/trace_context.rs impl fmt::Display for TraceId :: fn fmt
//@sig fn fmt(&self, f: &mut Out) -> Result<(), FmtError>
//@subst f.write_fmt(format_args!("{:032x}", $$x)) ~> { f.hex128($$x, 32); Ok(()) }
//@contract
    ensures wrote(old(f), final(f), hexs(self.0 as int, 32)),
//@start
    proof { widths(); }
//@endfn
}
impl SpanId {
//@item opentelemetry/src/trace_context.rs impl SpanId :: const INVALID
//@fn opentelemetry/src/trace_context.rs impl SpanId :: fn from_hex
//@sig fn from_hex(hex: &str) -> Result<SpanId, ()>
//@ret r
//@subst u64::from_str_radix(hex, 16).map(SpanId) ~> match parse_u64(hex) { Ok(v) => Ok(SpanId(v)), Err(e) => Err(e) }
//@contract
    ensures lhex(hex.spec_bytes(), 16) ==> r == Ok::<SpanId, ()>(SpanId(hexval(hex.spec_bytes()) as u64)),
//@endfn
//@fn opentelemetry/src/trace_context.rs impl fmt::Display for SpanId :: fn fmt
//@sig fn fmt(&self, f: &mut Out) -> Result<(), FmtError>
//@subst f.write_fmt(format_args!("{:016x}", $$x)) ~> { f.hex128($$x as u128, 16); Ok(()) }
//@contract
    ensures wrote(old(f), final(f), hexs(self.0 as int, 16)),
//@start
    proof { widths(); }
//@endfn
}
//@item opentelemetry/src/trace/span_context.rs struct SpanContext
impl SpanContext {
    spec fn valid(&self) -> bool { self.trace_id.0 != 0 && self.span_id.0 != 0 }
//@fn opentelemetry/src/trace/span_context.rs impl SpanContext :: fn new
//@ret r
//@contract
    ensures r == (SpanContext { trace_id, span_id, trace_flags, is_remote, trace_state }),
//@endfn
//@fn opentelemetry/src/trace/span_context.rs impl SpanContext :: fn is_valid
//@ret r
//@subst $$a != TraceId::INVALID ~> $$a.0 != TraceId::INVALID.0
//@subst $$a != SpanId::INVALID ~> $$a.0 != SpanId::INVALID.0
//@contract
    ensures r == self.valid(),
//@endfn
//@fn opentelemetry/src/trace/span_context.rs impl SpanContext :: fn trace_id
//@ret r
//@contract
    ensures r == self.trace_id,
//@endfn
//@fn opentelemetry/src/trace/span_context.rs impl SpanContext :: fn span_id
//@ret r
//@contract
    ensures r == self.span_id,
//@endfn
//@fn opentelemetry/src/trace/span_context.rs impl SpanContext :: fn trace_flags
//@ret r
//@contract
    ensures r == self.trace_flags,
//@endfn
//@fn opentelemetry/src/trace/span_context.rs impl SpanContext :: fn trace_state
//@ret r
//@contract
    ensures *r == self.trace_state,
//@endfn
}

// ---- carriers and contexts, as the propagator sees them
struct Headers { _p: u8 }
impl Headers {
    uninterp spec fn at(&self, key: Seq<char>) -> Option<Seq<u8>>;
    #[verifier::external_body]
    fn get(&self, key: &str) -> (r: Option<&str>)
        ensures match r { Some(v) => self.at(key@) == Some(v.spec_bytes()), None => self.at(key@).is_none() } { unimplemented!() }
}
struct Injected { g: Ghost<Map<Seq<char>, Seq<u8>>> }
impl Injected {
    #[verifier::external_body]
    fn set(&mut self, key: &str, value: String) ensures final(self).g@ == old(self).g@.insert(key@, sb(value@)) { unimplemented!() }
}
struct Span { sc: SpanContext }
impl Span { fn span_context(&self) -> (r: &SpanContext) ensures *r == self.sc { &self.sc } }
/// a context: which remote span context it was last given, over which base
struct Context { id: Ghost<int>, remote: Option<SpanContext>, span: Span }
impl Context {
    fn span(&self) -> (r: &Span) ensures *r == self.span { &self.span }
    #[verifier::external_body]
    fn with_remote_span_context(&self, sc: SpanContext) -> (r: Context) ensures r.id == self.id, r.remote == Some(sc) { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Context) ensures r == *self { unimplemented!() }
}

spec fn version_of(p: Seq<Seq<u8>>) -> int { hexval(p[0]) }
/// the headers this version of the format, and those that extend it, allow
spec fn well_formed(p: Seq<Seq<u8>>) -> bool {
    p.len() >= 4 && lhex(p[0], 2) && lhex(p[1], 32) && lhex(p[2], 16) && lhex(p[3], 2)
    && version_of(p) <= 254 && (version_of(p) == 0 ==> p.len() == 4 && hexval(p[3]) <= 3)
    && hexval(p[1]) != 0 && hexval(p[2]) != 0
}
spec fn state_of(h: Option<Seq<u8>>) -> TraceState { match h { None => ts_default(), Some(t) => match ts_parse(t) { Some(x) => x, None => ts_default() } } }
spec fn header_text(sc: SpanContext) -> Seq<u8> {
    seq![48u8, 48u8, 0x2du8] + hexs(sc.trace_id.0 as int, 32) + seq![0x2du8] + hexs(sc.span_id.0 as int, 16) + seq![0x2du8] + hexs((sc.trace_flags.0 & 1) as int, 2)
}
proof fn small_hex(s: Seq<u8>, w: nat)
    requires lhex(s, w as int)
    ensures 0 <= hexval(s) < pow16(w)
    decreases w
{ if w > 0 { assert(is_hex(s.last())); assert(lhex(s.drop_last(), w - 1)); small_hex(s.drop_last(), (w - 1) as nat); } }

//@item opentelemetry-sdk/src/propagation/trace_context.rs const SUPPORTED_VERSION
//@item opentelemetry-sdk/src/propagation/trace_context.rs const MAX_VERSION
spec fn tp() -> Seq<char> { "traceparent"@ }
spec fn tst() -> Seq<char> { "tracestate"@ }
//@fn opentelemetry-sdk/src/propagation/trace_context.rs const TRACEPARENT_HEADER
//@sig fn traceparent_header() -> &'static str
//@ret r
//@contract
    ensures r@ == tp(),
//@endfn
//@fn opentelemetry-sdk/src/propagation/trace_context.rs const TRACESTATE_HEADER
//@sig fn tracestate_header() -> &'static str
//@ret r
//@contract
    ensures r@ == tst(),
//@endfn

//@fn opentelemetry-sdk/src/propagation/trace_context.rs fn is_lower_hex
//@ret r
//@subst $x.len() ~> blen($x)
//@subst $x.bytes().all(|b| $$e) ~> all_bytes($x, |b: u8| -> (q: bool) ensures q == is_hex(b) { $$e })
//@contract
    ensures r == lhex(part.spec_bytes(), len as int),
//@endfn

struct TraceContextPropagator { _private: () }
impl TraceContextPropagator {
//@fn opentelemetry-sdk/src/propagation/trace_context.rs impl TraceContextPropagator :: fn extract_span_context
//@sig fn extract_span_context(&self, extractor: &Headers) -> Result<SpanContext, ()>
//@ret r
//@subst TRACEPARENT_HEADER ~> traceparent_header()
//@subst TRACESTATE_HEADER ~> tracestate_header()
//@subst $x.split_terminator('-').collect::<Vec<&str>>() ~> split_terminator_dash($x)
//@subst u8::from_str_radix($$x, 16).map_err(|_| ())? ~> parse_u8($$x)?
//@subst TraceId::from_hex($$x).map_err(|_| ())? ~> TraceId::from_hex($$x)?
//@subst SpanId::from_hex($$x).map_err(|_| ())? ~> SpanId::from_hex($$x)?
//@subst TraceFlags::new($$a) & TraceFlags::SAMPLED ~> flags_and(TraceFlags::new($$a), TraceFlags::SAMPLED)
//@subst TraceState::from_str($x).unwrap_or_else(|_| $$d) ~> match TraceState::from_str($x) { Ok(t) => t, Err(_) => $$d }
//@contract
    ensures ({
        let h = match extractor.at(tp()) { Some(t) => t, None => Seq::empty() };
        let p = split_term(trim_of(h));
        &&& r.is_ok() <==> well_formed(p)
        &&& r.is_ok() ==> r->Ok_0 == (SpanContext { trace_id: TraceId(hexval(p[1]) as u128), span_id: SpanId(hexval(p[2]) as u64),
                trace_flags: TraceFlags(hexval(p[3]) as u8 & 1), is_remote: true, trace_state: state_of(extractor.at(tst())) })
    }),
//@start
    proof {
        reveal_strlit(""); is_ascii_spec_bytes(""); assert("".spec_bytes() =~= Seq::<u8>::empty());
        widths();
        let h = match extractor.at(tp()) { Some(t) => t, None => Seq::empty() };
        let p = split_term(trim_of(h));
        if p.len() >= 4 && lhex(p[0], 2) && lhex(p[1], 32) && lhex(p[2], 16) && lhex(p[3], 2) {
            small_hex(p[0], 2); small_hex(p[1], 32); small_hex(p[2], 16); small_hex(p[3], 2);
        }
    }
//@after let parts
    proof { assert(forall|i: int| 0 <= i < parts@.len() ==> #[trigger] parts@[i].spec_bytes() == str_bytes(parts@)[i]); assert(str_bytes(parts@).len() == parts@.len()); }
//@endfn

//@fn opentelemetry-sdk/src/propagation/trace_context.rs impl TextMapPropagator for TraceContextPropagator :: fn extract_with_context
//@sig fn extract_with_context(&self, cx: &Context, extractor: &Headers) -> Context
//@ret r
//@subst self.extract_span_context(extractor).map(|sc| $$a).unwrap_or_else(|_| $$b) ~> match self.extract_span_context(extractor) { Ok(sc) => $$a, Err(_) => $$b }
//@contract
    ensures ({
        let h = match extractor.at(tp()) { Some(t) => t, None => Seq::empty() };
        let p = split_term(trim_of(h));
        &&& well_formed(p) ==> r.id == cx.id && r.remote.is_some()
        &&& !well_formed(p) ==> r == *cx
    }),
//@endfn

//@fn opentelemetry-sdk/src/propagation/trace_context.rs impl TextMapPropagator for TraceContextPropagator :: fn inject_context
//@sig fn inject_context(&self, cx: &Context, injector: &mut Injected)
//@subst TRACEPARENT_HEADER ~> traceparent_header()
//@subst TRACESTATE_HEADER ~> tracestate_header()
//@subst format!("{:02x}-{}-{}-{:02x}", $$a, $$b, $$c, $$d & TraceFlags::SAMPLED) ~> header4($$a, $$b, $$c, flags_and($$d, TraceFlags::SAMPLED))
//@contract
    ensures
        !cx.span.sc.valid() ==> final(injector).g@ == old(injector).g@,
        cx.span.sc.valid() ==> final(injector).g@ =~= old(injector).g@.insert(tp(), header_text(cx.span.sc)).insert(tst(), ts_header(cx.span.sc.trace_state)),
//@start
    proof { reveal_strlit("traceparent"); reveal_strlit("tracestate"); assert(tp().len() != tst().len()); let f = cx.span.sc.trace_flags.0; assert(f & 1 <= 1) by (bit_vector); }
//@after let header_value
    proof {
        assert(hexs(0, 2) =~= seq![48u8, 48u8]) by { reveal_with_fuel(hexs, 3); }
        assert(sb(header_value@) =~= header_text(cx.span.sc));
    }
//@endfn
}
/// format!("{:02x}-{}-{}-{:02x}", version, trace id, span id, flags): text pieces in this order (core::fmt), the ids
/// through their Display implementations, proved above to write 32 and 16 digits
#[verifier::external_body]
fn header4(v: u8, t: TraceId, s: SpanId, f: TraceFlags) -> (r: String)
    ensures sb(r@) == hexs(v as int, 2) + seq![0x2du8] + hexs(t.0 as int, 32) + seq![0x2du8] + hexs(s.0 as int, 16) + seq![0x2du8] + hexs(f.0 as int, 2)
{ unimplemented!() }

/// extracting what was injected gives the identity that was injected, for every valid span context
proof fn traceparent_round_trip(sc: SpanContext)
    requires sc.valid()
    ensures ({
        let p = split_term(trim_of(header_text(sc)));
        &&& well_formed(p)
        &&& hexval(p[1]) == sc.trace_id.0 && hexval(p[2]) == sc.span_id.0 && hexval(p[3]) == sc.trace_flags.0 & 1
    })
{
    broadcast use trim_none;
    widths();
    let fl = sc.trace_flags.0;
    assert(fl & 1 <= 1) by (bit_vector);
    let (a, b, c, d) = (seq![48u8, 48u8], hexs(sc.trace_id.0 as int, 32), hexs(sc.span_id.0 as int, 16), hexs((fl & 1) as int, 2));
    hex_round_trip(0, 2);
    assert(hexs(0, 2) =~= a) by { reveal_with_fuel(hexs, 3); }
    hex_round_trip(sc.trace_id.0 as int, 32); hex_round_trip(sc.span_id.0 as int, 16); hex_round_trip((fl & 1) as int, 2);
    let h = header_text(sc);
    let D = seq![0x2du8];
    let h1 = b + D + c + D + d; let h2 = c + D + d;
    assert(h =~= a + D + h1);
    assert(h1 =~= b + D + h2);
    assert(h.last() == d.last() && is_hex(d[1]));
    assert(h[0] == 48u8);
    assert(trim_of(h) == h);
    assert forall|i: int| 0 <= i < 32 implies h1[i] != 0x2d by { assert(h1[i] == b[i] && is_hex(b[i])); }
    assert forall|i: int| 0 <= i < 16 implies h2[i] != 0x2d by { assert(h2[i] == c[i] && is_hex(c[i])); }
    assert forall|i: int| 0 <= i < 2 implies d[i] != 0x2d by { assert(is_hex(d[i])); }
    assert forall|i: int| 0 <= i < 2 implies h[i] != 0x2d by { assert(h[i] == a[i]); }
    idx_at(h, 0x2d, 2); idx_at(h1, 0x2d, 32); idx_at(h2, 0x2d, 16); idx_at(d, 0x2d, 2);
    assert(h.take(2) =~= a && h.skip(3) =~= h1);
    assert(h1.take(32) =~= b && h1.skip(33) =~= h2);
    assert(h2.take(16) =~= c && h2.skip(17) =~= d);
    assert(pieces(d, 0x2d) =~= seq![d]);
    assert(pieces(h2, 0x2d) =~= seq![c, d]);
    assert(pieces(h1, 0x2d) =~= seq![b, c, d]);
    assert(pieces(h, 0x2d) =~= seq![a, b, c, d]);
    assert(pieces(h, 0x2d).last() == d);
    assert(split_term(h) =~= seq![a, b, c, d]);
}

} // verus!
fn main() {}

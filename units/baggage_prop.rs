// Unit: the W3C baggage header (opentelemetry-sdk/src/propagation/baggage.rs).
use vstd::prelude::*;
use vstd::string::*;
verus! {

// ---- trusted: percent_encoding. An AsciiSet is a set of ASCII bytes built with `add`; encoding writes the bytes
// outside the set that are ASCII as they are and every other byte as '%' and two hex digits; decoding undoes any
// '%XX' and keeps everything else.
#[verifier::external_body]
struct AsciiSet { _p: u8 }
impl AsciiSet {
    uninterp spec fn has(&self, b: u8) -> bool;
    #[verifier::external_body]
    const fn add(&self, byte: u8) -> (r: AsciiSet)
        ensures forall|b: u8| #[trigger] r.has(b) == (self.has(b) || b == byte)
    { unimplemented!() }
}
#[verifier::external_body]
fn controls() -> (r: &'static AsciiSet)
    ensures forall|b: u8| #[trigger] r.has(b) == (b < 32 || b == 127)
{ unimplemented!() }

spec fn hex(n: u8) -> u8 { if n < 10 { (48 + n) as u8 } else { (55 + n) as u8 } }
spec fn unhex(c: u8) -> int { if 48 <= c <= 57 { c - 48 } else if 65 <= c <= 70 { c - 55 } else if 97 <= c <= 102 { c - 87 } else { -1 } }
spec fn kept(set: spec_fn(u8) -> bool, b: u8) -> bool { b < 128 && !set(b) }
spec fn enc(set: spec_fn(u8) -> bool, s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if kept(set, s[0]) { seq![s[0]] + enc(set, s.drop_first()) }
    else { seq![0x25u8, hex(s[0] / 16), hex((s[0] % 16) as u8)] + enc(set, s.drop_first()) }
}
spec fn dec(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if s[0] == 0x25 && s.len() >= 3 && unhex(s[1]) >= 0 && unhex(s[2]) >= 0 { seq![(unhex(s[1]) * 16 + unhex(s[2])) as u8] + dec(s.subrange(3, s.len() as int)) }
    else { seq![s[0]] + dec(s.drop_first()) }
}

/// what a reserved set must contain for decoding to undo encoding
spec fn separates_escape(set: spec_fn(u8) -> bool) -> bool { set(0x25) }
/// what a reserved set must contain for a member to survive: the escape itself and the header's separators
spec fn separates(set: spec_fn(u8) -> bool) -> bool {
    set(0x25) && set(0x2c) && set(0x3b) && set(0x3d) && set(0x20) && set(0x22) && (forall|b: u8| b < 32 || b == 127 ==> #[trigger] set(b))
}

//@fn opentelemetry-sdk/src/propagation/baggage.rs const FRAGMENT
//@sig fn fragment() -> AsciiSet
//@ret r
//@subst &CONTROLS ~> controls()
//@contract
    ensures
        separates(|b: u8| r.has(b)),
        // and nothing that may stand in a header as it is gets escaped
        forall|b: u8| r.has(b) ==> b < 32 || b == 127 || b == 0x20 || b == 0x22 || b == 0x25 || b == 0x2c || b == 0x3b || b == 0x3d || b == 0x5c,
//@endfn

/// decoding undoes encoding, for every byte string
proof fn round_trip(set: spec_fn(u8) -> bool, s: Seq<u8>)
    requires separates_escape(set)
    ensures dec(enc(set, s)) == s
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_first();
        round_trip(set, t);
        let e = enc(set, s);
        if kept(set, s[0]) {
            assert(s[0] != 0x25);
            assert(e.drop_first() =~= enc(set, t));
        } else {
            let b = s[0];
            assert(e.subrange(3, e.len() as int) =~= enc(set, t));
            assert(unhex(hex(b / 16)) == b / 16 && unhex(hex((b % 16) as u8)) == b % 16);
            assert((b / 16) * 16 + b % 16 == b);
        }
        assert(dec(e) =~= seq![s[0]] + t);
        assert(seq![s[0]] + t =~= s);
    }
}

/// an encoded key or value holds no separator, quote, space or control byte
proof fn no_separator(set: spec_fn(u8) -> bool, s: Seq<u8>)
    requires separates(set)
    ensures forall|i: int| 0 <= i < enc(set, s).len() ==> {
        let c = #[trigger] enc(set, s)[i];
        c != 0x2c && c != 0x3b && c != 0x3d && c != 0x20 && c != 0x22 && 32 < c < 127 }
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_first();
        no_separator(set, t);
        let e = enc(set, s);
        let n: int = if kept(set, s[0]) { 1 } else { 3 };
        assert forall|i: int| 0 <= i < e.len() implies ({
            let c = #[trigger] e[i];
            c != 0x2c && c != 0x3b && c != 0x3d && c != 0x20 && c != 0x22 && 32 < c < 127 }) by {
            if i >= n { assert(e[i] == enc(set, t)[i - n]); }
        }
    }
}

// ---- splitting and joining byte strings
spec fn sb(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
spec fn idx(s: Seq<u8>, c: u8) -> int decreases s.len() { if s.len() == 0 || s[0] == c { 0 } else { 1 + idx(s.drop_first(), c) } }
/// the pieces between the occurrences of c
spec fn pieces(s: Seq<u8>, c: u8) -> Seq<Seq<u8>> decreases s.len() via pieces_dec {
    if idx(s, c) >= s.len() { seq![s] } else { seq![s.take(idx(s, c))] + pieces(s.skip(idx(s, c) + 1), c) }
}
#[via_fn]
proof fn pieces_dec(s: Seq<u8>, c: u8) { idx_props(s, c); }
proof fn idx_props(s: Seq<u8>, c: u8)
    ensures 0 <= idx(s, c) <= s.len(), idx(s, c) < s.len() ==> s[idx(s, c)] == c, forall|i: int| 0 <= i < idx(s, c) ==> s[i] != c
    decreases s.len()
{
    if s.len() > 0 && s[0] != c {
        let t = s.drop_first();
        idx_props(t, c);
        assert forall|i: int| 0 <= i < idx(s, c) implies s[i] != c by { if i > 0 { assert(s[i] == t[i - 1]); } }
    }
}
proof fn idx_at(s: Seq<u8>, c: u8, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> s[i] != c, n < s.len() ==> s[n] == c
    ensures idx(s, c) == n
{ idx_props(s, c); if idx(s, c) < n { assert(s[idx(s, c)] == c); } }
proof fn pieces_some(s: Seq<u8>, c: u8) ensures pieces(s, c).len() >= 1 {}
spec fn joined(parts: Seq<Seq<u8>>, d: Seq<u8>) -> Seq<u8> decreases parts.len() {
    if parts.len() == 0 { Seq::empty() } else if parts.len() == 1 { parts[0] } else { parts[0] + d + joined(parts.drop_first(), d) }
}
proof fn pieces_of_joined(parts: Seq<Seq<u8>>, c: u8)
    requires parts.len() >= 1, forall|i: int| 0 <= i < parts.len() ==> !has_byte(#[trigger] parts[i], c)
    ensures pieces(joined(parts, seq![c]), c) == parts
    decreases parts.len()
{
    let s = joined(parts, seq![c]);
    let h = parts[0];
    assert(!has_byte(parts[0], c));
    assert forall|i: int| 0 <= i < h.len() implies h[i] != c by { if h[i] == c { assert(has_byte(h, c)); } }
    if parts.len() > 1 {
        let rest = parts.drop_first();
        assert forall|i: int| 0 <= i < rest.len() implies !has_byte(#[trigger] rest[i], c) by { assert(rest[i] == parts[i + 1]); }
        pieces_of_joined(rest, c);
        assert(s =~= h + seq![c] + joined(rest, seq![c]));
        assert forall|i: int| 0 <= i < h.len() implies s[i] != c by { assert(s[i] == h[i]); }
        idx_at(s, c, h.len() as int);
        assert(s.take(h.len() as int) =~= h);
        assert(s.skip(h.len() as int + 1) =~= joined(rest, seq![c]));
        assert(pieces(s, c) =~= parts);
    } else {
        idx_at(s, c, h.len() as int);
        assert(pieces(s, c) =~= parts);
    }
}
spec fn has_byte(s: Seq<u8>, b: u8) -> bool { exists|i: int| 0 <= i < s.len() && s[i] == b }
spec fn str_bytes(v: Seq<&str>) -> Seq<Seq<u8>> { v.map_values(|s: &str| s.spec_bytes()) }
spec fn bytes_of(v: Seq<String>) -> Seq<Seq<u8>> { v.map_values(|s: String| sb(s@)) }
spec fn utf8_ok(s: Seq<u8>) -> bool { vstd::utf8::valid_utf8(s) }

// ---- trusted: str::trim (an uninterpreted function of the text), str::split at one ASCII character, split_once,
// split_first, join and to_owned as documented in std
pub uninterp spec fn trim_of(s: Seq<u8>) -> Seq<u8>;
pub assume_specification [str::trim] (s: &str) -> (r: &str) ensures r.spec_bytes() == trim_of(s.spec_bytes());
broadcast axiom fn trim_twice(s: Seq<u8>) ensures #[trigger] trim_of(trim_of(s)) == trim_of(s);
#[verifier::external_body]
fn text(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
fn split_comma<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures str_bytes(r@) == pieces(s.spec_bytes(), 0x2c) { s.split(',').collect() }
#[verifier::external_body]
fn split_semi<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures str_bytes(r@) == pieces(s.spec_bytes(), 0x3b) { s.split(';').collect() }
#[verifier::external_body]
fn split_first_of<'a>(v: Vec<&'a str>) -> (r: Option<(&'a str, Vec<&'a str>)>)
    ensures r.is_some() <==> v@.len() > 0, r.is_some() ==> (r->0).0 == v@[0] && (r->0).1@ == v@.skip(1)
{ unimplemented!() }
#[verifier::external_body]
fn split_once_eq(s: &str) -> (r: Option<(&str, &str)>)
    ensures
        r.is_some() <==> idx(s.spec_bytes(), 0x3d) < s.spec_bytes().len(),
        r.is_some() ==> (r->0).0.spec_bytes() == s.spec_bytes().take(idx(s.spec_bytes(), 0x3d)) && (r->0).1.spec_bytes() == s.spec_bytes().skip(idx(s.spec_bytes(), 0x3d) + 1),
{ unimplemented!() }
#[verifier::external_body]
fn join(parts: Vec<String>, d: &str) -> (r: String) ensures sb(r@) == joined(bytes_of(parts@), d.spec_bytes()) { parts.join(d) }
struct PercentDecode<'a> { s: &'a str }
fn percent_decode_str<'a>(s: &'a str) -> (r: PercentDecode<'a>) ensures r.s == s { PercentDecode { s } }
impl<'a> PercentDecode<'a> {
    #[verifier::external_body]
    fn decode_utf8(self) -> (r: Result<String, ()>)
        ensures r.is_ok() <==> utf8_ok(dec(self.s.spec_bytes())), r.is_ok() ==> sb(r->Ok_0@) == dec(self.s.spec_bytes())
    { unimplemented!() }
}

// ---- the entry a header member stands for
struct StringValue { s: String }
struct Key { s: String }
struct BaggageMetadata(String);
impl Key { fn as_str(&self) -> (r: &str) ensures r.spec_bytes() == sb(self.s@) { self.s.as_str() } }
impl StringValue { fn as_str(&self) -> (r: &str) ensures r.spec_bytes() == sb(self.s@) { self.s.as_str() } }
impl BaggageMetadata {
    fn as_str(&self) -> (r: &str) ensures r.spec_bytes() == sb(self.0@) { self.0.as_str() }
//@fn opentelemetry/src/baggage.rs impl From<&str> for BaggageMetadata :: fn from
//@sig fn metadata_from(s: &str) -> BaggageMetadata
//@ret r
//@subst s.trim().to_string() ~> text(s.trim())
//@contract
    ensures sb(r.0@) == trim_of(s.spec_bytes()),
//@endfn
}
fn key_into(s: String) -> (r: Key) ensures r.s == s { Key { s } }
fn value_into(s: String) -> (r: StringValue) ensures r.s == s { StringValue { s } }
struct KeyValueMetadata { key: Key, value: StringValue, metadata: BaggageMetadata }
struct Entry { k: Seq<u8>, v: Seq<u8>, m: Seq<u8> }
impl KeyValueMetadata {
    spec fn entry(&self) -> Entry { Entry { k: sb(self.key.s@), v: sb(self.value.s@), m: sb(self.metadata.0@) } }
//@fn opentelemetry/src/baggage.rs impl KeyValueMetadata :: fn new
//@sig fn new(key: String, value: String, metadata: &str) -> KeyValueMetadata
//@ret r
//@subst key.into() ~> key_into(key)
//@subst value.into() ~> value_into(value)
//@subst metadata.into() ~> BaggageMetadata::metadata_from(metadata)
//@contract
    ensures r.entry() == (Entry { k: sb(key@), v: sb(value@), m: trim_of(metadata.spec_bytes()) }),
//@endfn
}

// ---- reading, as the W3C format has it: member = name '=' value *( ';' property )
/// the properties that decode to text, decoded and trimmed
spec fn props_of(ps: Seq<Seq<u8>>) -> Seq<Seq<u8>> decreases ps.len() {
    if ps.len() == 0 { Seq::empty() } else {
        let l = ps.last();
        if utf8_ok(dec(l)) { props_of(ps.drop_last()).push(trim_of(dec(l))) } else { props_of(ps.drop_last()) }
    }
}
/// what a list member stands for; None for a member without '=' or whose name or value is no text
spec fn member(s: Seq<u8>) -> Option<Entry> {
    let ps = pieces(s, 0x3b);
    let i = idx(ps[0], 0x3d);
    if i >= ps[0].len() { None } else {
        let (n, v) = (dec(ps[0].take(i)), dec(ps[0].skip(i + 1)));
        if utf8_ok(n) && utf8_ok(v) { Some(Entry { k: trim_of(n), v: trim_of(v), m: trim_of(joined(props_of(ps.skip(1)), seq![0x3bu8])) }) } else { None }
    }
}
/// the entries of a list of members, in order, the malformed ones left out
spec fn entries_of(ms: Seq<Seq<u8>>) -> Seq<Entry> decreases ms.len() {
    if ms.len() == 0 { Seq::empty() } else {
        match member(ms.last()) { Some(e) => entries_of(ms.drop_last()).push(e), None => entries_of(ms.drop_last()) }
    }
}
spec fn kvms(v: Seq<KeyValueMetadata>) -> Seq<Entry> { v.map_values(|k: KeyValueMetadata| k.entry()) }

//@fn opentelemetry-sdk/src/propagation/baggage.rs impl TextMapPropagator for BaggagePropagator :: fn extract_with_context
//@closure |context_value|
//@sig fn read_member(context_value: &str) -> Option<KeyValueMetadata>
//@ret r
//@subst $x.split(';').collect::<Vec<&str>>().split_first() ~> split_first_of(split_semi($x))
//@subst $x.split_once('=') ~> split_once_eq($x)
//@subst props.iter().flat_map(|$a| $$f).map(|$b| $$g).collect::<Vec<String>>().join($d) ~> ({ let mut texts: Vec<String> = Vec::new(); let mut n: usize = 0; while n < props.len() { let $a = props[n]; n = n + 1; match $$f { Ok($b) => { let t = $$g; texts.push(t); } Err(_) => {} } } join(texts, $d) })
//@subst name.trim().to_owned() ~> text(name.trim())
//@subst value.trim().to_string() ~> text(value.trim())
//@subst prop.trim().to_string() ~> text(prop.trim())
//@subst decoded_props.as_str() ~> decoded_props.as_str()
//@contract
    ensures
        member(context_value.spec_bytes()) == (match r { Some(k) => Some(k.entry()), None => None }),
//@start
    proof {
        broadcast use trim_twice;
        reveal_strlit(";"); assert(";"@.len() == 1); is_ascii_spec_bytes(";"); assert(";".spec_bytes() =~= seq![0x3bu8]);
    }
//@loop 0
    invariant
        n <= props@.len(),
        str_bytes(props@) == pieces(context_value.spec_bytes(), 0x3b).skip(1),
        bytes_of(texts@) == props_of(str_bytes(props@).take(n as int)),
    decreases props@.len() - n,
//@inloop 0
    let ghost before = texts@;
    proof {
        assert(str_bytes(props@).take(n + 1).drop_last() =~= str_bytes(props@).take(n as int));
        assert(str_bytes(props@).take(n + 1).last() == props@[n as int].spec_bytes());
    }
//@endinloop 0
    proof {
        if texts@.len() > before.len() { assert(bytes_of(texts@) =~= bytes_of(before).push(sb(texts@.last()@))); }
    }
//@afterloop 0
    proof { assert(str_bytes(props@).take(props@.len() as int) =~= str_bytes(props@)); }
//@endfn

// ---- one list member, as inject_context writes it. `utf8_percent_encode(..).chain(iter::once(..)).collect()`: text
// pieces put one after the other (trusted: percent_encoding's iterator, std's Chain/Once and collect::<String>)
#[verifier::external_body]
struct Pieces { _p: u8 }
impl Pieces {
    uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn chain(self, o: Pieces) -> (r: Pieces) ensures r.bytes() == self.bytes() + o.bytes() { unimplemented!() }
    #[verifier::external_body]
    fn collect(self) -> (r: String) ensures sb(r@) == self.bytes() { unimplemented!() }
}
spec fn setof(a: AsciiSet) -> spec_fn(u8) -> bool { |b: u8| a.has(b) }
#[verifier::external_body]
fn utf8_percent_encode(s: &str, set: &AsciiSet) -> (r: Pieces) ensures r.bytes() == enc(setof(*set), s.spec_bytes()) { unimplemented!() }
#[verifier::external_body]
fn once(s: &str) -> (r: Pieces) ensures r.bytes() == s.spec_bytes() { unimplemented!() }

//@fn opentelemetry-sdk/src/propagation/baggage.rs const METADATA_FRAGMENT
//@sig fn metadata_fragment() -> AsciiSet
//@ret r
//@subst &CONTROLS ~> controls()
//@contract
    ensures
        // nothing that ends a member, starts an escape or may not stand in a header gets through
        r.has(0x25), r.has(0x2c), forall|b: u8| b < 32 || b == 127 ==> #[trigger] r.has(b),
        // and the delimiters of properties stay
        !r.has(0x3b), !r.has(0x3d),
//@endfn

spec fn member_text(set: spec_fn(u8) -> bool, mset: spec_fn(u8) -> bool, n: Seq<u8>, v: Seq<u8>, m: Seq<u8>) -> Seq<u8> {
    enc(set, n) + seq![0x3du8] + enc(set, v) + (if m.len() == 0 { Seq::empty() } else { seq![0x3bu8] + enc(mset, m) })
}

//@fn opentelemetry-sdk/src/propagation/baggage.rs impl TextMapPropagator for BaggagePropagator :: fn inject_context
//@closure |(name, (value, metadata))|
//@sig fn write_member(name: &Key, value: &StringValue, metadata: &BaggageMetadata, fragment: &AsciiSet, metadata_fragment: &AsciiSet) -> String
//@ret r
//@subst iter::once ~> once
//@subst METADATA_FRAGMENT ~> metadata_fragment
//@subst FRAGMENT ~> fragment
//@subst metadata_str.is_empty() ~> (metadata_str.as_bytes().len() == 0)
//@contract
    ensures sb(r@) == member_text(setof(*fragment), setof(*metadata_fragment), trim_of(sb(name.s@)), trim_of(sb(value.s@)), trim_of(sb(metadata.0@))),
//@start
    proof {
        reveal_strlit("="); reveal_strlit(";"); reveal_strlit("");
        assert("="@.len() == 1 && ";"@.len() == 1);
        is_ascii_spec_bytes("="); is_ascii_spec_bytes(";"); is_ascii_spec_bytes("");
        assert("=".spec_bytes() =~= seq![0x3du8]);
        assert(";".spec_bytes() =~= seq![0x3bu8]);
        assert("".spec_bytes() =~= Seq::<u8>::empty());
    }
//@endfn

// ---- the whole header
struct Headers { _p: u8 }
impl Headers {
    uninterp spec fn at(&self, key: Seq<char>) -> Option<Seq<u8>>;
    #[verifier::external_body]
    fn get(&self, key: &str) -> (r: Option<&str>)
        ensures match r { Some(v) => self.at(key@) == Some(v.spec_bytes()), None => self.at(key@).is_none() } { unimplemented!() }
}
struct Injected { g: Ghost<Map<Seq<char>, Seq<u8>>> }
impl Injected {
    #[verifier::external_body]
    fn set(&mut self, key: &str, value: String) ensures final(self).g@ == old(self).g@.insert(key@, sb(value@)) { unimplemented!() }
}
type Pair = (Key, (StringValue, BaggageMetadata));
/// a baggage: its entries in the order its iterator gives them
struct Baggage { list: Vec<Pair> }
impl Baggage {
    fn is_empty(&self) -> (r: bool) ensures r == (self.list@.len() == 0) { self.list.len() == 0 }
    fn iter(&self) -> (r: &Vec<Pair>) ensures *r == self.list { &self.list }
    spec fn entries(&self) -> Seq<Entry> { self.list@.map_values(|p: Pair| Entry { k: sb(p.0.s@), v: sb(p.1.0.s@), m: sb(p.1.1.0@) }) }
}
/// what a list of entries builds: unit baggage.rs
uninterp spec fn built(e: Seq<Entry>) -> Baggage;
/// a context: everything but its baggage, and its baggage
struct Context { id: Ghost<int>, bag: Baggage }
impl Context {
    fn baggage(&self) -> (r: &Baggage) ensures *r == self.bag { &self.bag }
    #[verifier::external_body]
    fn with_baggage(&self, members: Vec<KeyValueMetadata>) -> (r: Context) ensures r.id == self.id, r.bag == built(kvms(members@)) { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Context) ensures r == *self { unimplemented!() }
}
spec fn header_name() -> Seq<char> { "baggage"@ }
//@fn opentelemetry-sdk/src/propagation/baggage.rs static BAGGAGE_HEADER
//@sig fn baggage_header() -> &'static str
//@ret r
//@contract
    ensures r@ == header_name(),
//@endfn
struct BaggagePropagator { _private: () }

spec fn pair_text(set: spec_fn(u8) -> bool, mset: spec_fn(u8) -> bool, e: Entry) -> Seq<u8> { member_text(set, mset, trim_of(e.k), trim_of(e.v), trim_of(e.m)) }
spec fn header_text(set: spec_fn(u8) -> bool, mset: spec_fn(u8) -> bool, es: Seq<Entry>) -> Seq<u8> {
    joined(es.map_values(|e: Entry| pair_text(set, mset, e)), seq![0x2cu8])
}

impl BaggagePropagator {
// inject_context: the closure over the entries is lifted above; FRAGMENT and METADATA_FRAGMENT (constants) become parameters
//@fn opentelemetry-sdk/src/propagation/baggage.rs impl TextMapPropagator for BaggagePropagator :: fn inject_context
//@sig fn inject_context(&self, cx: &Context, injector: &mut Injected, fragment: &AsciiSet, metadata_fragment: &AsciiSet)
//@subst BAGGAGE_HEADER ~> baggage_header()
//@subst baggage.iter().map(|(name, (value, metadata))| $$c).collect::<Vec<String>>().join($d) ~> ({ let list = baggage.iter(); let mut texts: Vec<String> = Vec::new(); let mut n: usize = 0; while n < list.len() { let (name, (value, metadata)) = &list[n]; n = n + 1; let t = write_member(name, value, metadata, fragment, metadata_fragment); texts.push(t); } join(texts, $d) })
//@contract
    ensures
        // nothing is sent for an empty baggage; otherwise every entry, in order, in one header
        cx.bag.list@.len() == 0 ==> final(injector).g@ == old(injector).g@,
        cx.bag.list@.len() > 0 ==> final(injector).g@ == old(injector).g@.insert(header_name(), header_text(setof(*fragment), setof(*metadata_fragment), cx.bag.entries())),
//@start
    proof { reveal_strlit(","); assert(","@.len() == 1); is_ascii_spec_bytes(","); assert(",".spec_bytes() =~= seq![0x2cu8]); }
//@loop 0
    invariant
        n <= list@.len(), *list == cx.bag.list, texts@.len() == n,
        forall|i: int| 0 <= i < n ==> sb((#[trigger] texts@[i])@) == pair_text(setof(*fragment), setof(*metadata_fragment), cx.bag.entries()[i]),
    decreases list@.len() - n,
//@afterloop 0
    proof { assert(bytes_of(texts@) =~= cx.bag.entries().map_values(|e: Entry| pair_text(setof(*fragment), setof(*metadata_fragment), e))); }
//@endfn

//@fn opentelemetry-sdk/src/propagation/baggage.rs impl TextMapPropagator for BaggagePropagator :: fn extract_with_context
//@sig fn extract_with_context(&self, cx: &Context, extractor: &Headers) -> Context
//@ret r
//@subst BAGGAGE_HEADER ~> baggage_header()
//@subst header_value.split(',').filter_map(|context_value| $$c) ~> ({ let list = split_comma(header_value); let mut found: Vec<KeyValueMetadata> = Vec::new(); let mut n: usize = 0; while n < list.len() { let context_value = list[n]; n = n + 1; match read_member(context_value) { Some(k) => { found.push(k); } None => {} } } found })
//@contract
    ensures match extractor.at(header_name()) {
        // every well-formed member, in order, on top of the context that was given
        Some(h) => r.id == cx.id && r.bag == built(entries_of(pieces(h, 0x2c))),
        None => r == *cx,
    },
//@loop 0
    invariant
        n <= list@.len(), str_bytes(list@) == pieces(header_value.spec_bytes(), 0x2c),
        kvms(found@) == entries_of(str_bytes(list@).take(n as int)),
    decreases list@.len() - n,
//@inloop 0
    let ghost before = found@;
    proof {
        assert(str_bytes(list@).take(n + 1).drop_last() =~= str_bytes(list@).take(n as int));
        assert(str_bytes(list@).take(n + 1).last() == list@[n as int].spec_bytes());
    }
//@endinloop 0
    proof { if found@.len() > before.len() { assert(kvms(found@) =~= kvms(before).push(found@.last().entry())); } }
//@afterloop 0
    proof { assert(str_bytes(list@).take(list@.len() as int) =~= str_bytes(list@)); }
//@endfn
}

// ---- the two halves together
proof fn enc_concat(set: spec_fn(u8) -> bool, a: Seq<u8>, b: Seq<u8>)
    ensures enc(set, a + b) == enc(set, a) + enc(set, b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(enc(set, a) + enc(set, b) =~= enc(set, b)); } else {
        enc_concat(set, a.drop_first(), b);
        assert((a + b).drop_first() =~= a.drop_first() + b);
        assert((a + b)[0] == a[0]);
        let h = if kept(set, a[0]) { seq![a[0]] } else { seq![0x25u8, hex(a[0] / 16), hex((a[0] % 16) as u8)] };
        assert(enc(set, a + b) == h + (enc(set, a.drop_first()) + enc(set, b)));
        assert(enc(set, a) == h + enc(set, a.drop_first()));
        assert(h + (enc(set, a.drop_first()) + enc(set, b)) =~= h + enc(set, a.drop_first()) + enc(set, b));
    }
}
spec fn no_escape_part(b: u8) -> bool { b != 0x25 && !(48 <= b <= 57) && !(65 <= b <= 70) }
/// a byte that is no part of an escape occurs in the encoding only where it occurs, unescaped, in the text
proof fn absent(set: spec_fn(u8) -> bool, s: Seq<u8>, b: u8)
    requires no_escape_part(b), set(b) || !has_byte(s, b)
    ensures !has_byte(enc(set, s), b)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_first();
        if has_byte(t, b) { let i = choose|i: int| 0 <= i < t.len() && t[i] == b; assert(s[i + 1] == b); }
        absent(set, t, b);
        let e = enc(set, s);
        let n: int = if kept(set, s[0]) { 1 } else { 3 };
        assert forall|i: int| 0 <= i < e.len() implies #[trigger] e[i] != b by {
            if i >= n { assert(e[i] == enc(set, t)[i - n]); }
            else if n == 3 && i > 0 { assert(e[i] == hex(s[0] / 16) || e[i] == hex((s[0] % 16) as u8)); }
            else if n == 1 { assert(e[0] == s[0]); assert(has_byte(s, s[0])); }
        }
    }
}
spec fn each_enc(set: spec_fn(u8) -> bool, ps: Seq<Seq<u8>>) -> Seq<Seq<u8>> { ps.map_values(|p: Seq<u8>| enc(set, p)) }
/// a separator that is left as it is stays a separator: splitting and encoding commute
proof fn enc_pieces(set: spec_fn(u8) -> bool, s: Seq<u8>, c: u8)
    requires no_escape_part(c), !set(c), c < 128
    ensures pieces(enc(set, s), c) == each_enc(set, pieces(s, c))
    decreases s.len()
{
    idx_props(s, c);
    let i = idx(s, c);
    let e = enc(set, s);
    if i >= s.len() {
        assert(!has_byte(s, c));
        absent(set, s, c);
        assert forall|j: int| 0 <= j < e.len() implies e[j] != c by { if e[j] == c { assert(has_byte(e, c)); } }
        idx_at(e, c, e.len() as int);
        assert(pieces(e, c) =~= each_enc(set, pieces(s, c)));
    } else {
        let (a, b) = (s.take(i), s.skip(i + 1));
        assert(s =~= a + (seq![c] + b));
        enc_concat(set, a, seq![c] + b);
        enc_concat(set, seq![c], b);
        assert(enc(set, seq![c]) =~= seq![c]) by { assert(seq![c].drop_first() =~= Seq::<u8>::empty()); assert(seq![c][0] == c); assert(enc(set, Seq::<u8>::empty()) =~= Seq::<u8>::empty()); }
        assert(e == enc(set, a) + (seq![c] + enc(set, b)));
        assert(!has_byte(a, c));
        absent(set, a, c);
        let ea = enc(set, a);
        assert forall|j: int| 0 <= j < ea.len() implies e[j] != c by { if ea[j] == c { assert(has_byte(ea, c)); } assert(e[j] == ea[j]); }
        assert(e[ea.len() as int] == c);
        idx_at(e, c, ea.len() as int);
        assert(e.take(ea.len() as int) =~= ea);
        assert(e.skip(ea.len() as int + 1) =~= enc(set, b));
        enc_pieces(set, b, c);
        assert(pieces(e, c) =~= each_enc(set, pieces(s, c)));
    }
}
/// cutting UTF-8 text at an ASCII character gives UTF-8 texts
proof fn utf8_cut(s: Seq<u8>, i: int)
    requires utf8_ok(s), 0 <= i < s.len(), s[i] < 128
    ensures utf8_ok(s.take(i)), utf8_ok(s.skip(i + 1))
{
    vstd::utf8::is_char_boundary_iff_not_is_continuation_byte(s, i);
    vstd::utf8::valid_utf8_split(s, i);
    let t = s.subrange(i, s.len() as int);
    assert(s.take(i) =~= s.subrange(0, i));
    assert(t[0] == s[i]);
    assert(t.drop_first() =~= s.skip(i + 1));
    assert(vstd::utf8::pop_first_scalar(t) =~= t.drop_first());
}
proof fn utf8_pieces(s: Seq<u8>, c: u8)
    requires utf8_ok(s), c < 128
    ensures forall|i: int| 0 <= i < pieces(s, c).len() ==> utf8_ok(#[trigger] pieces(s, c)[i])
    decreases s.len()
{
    idx_props(s, c);
    let i = idx(s, c);
    if i < s.len() {
        utf8_cut(s, i);
        let rest = pieces(s.skip(i + 1), c);
        utf8_pieces(s.skip(i + 1), c);
        assert forall|k: int| 0 <= k < pieces(s, c).len() implies utf8_ok(#[trigger] pieces(s, c)[k]) by { if k > 0 { assert(pieces(s, c)[k] == rest[k - 1]); } }
    }
}
/// properties come back trimmed
proof fn props_back(set: spec_fn(u8) -> bool, ps: Seq<Seq<u8>>)
    requires separates_escape(set), forall|i: int| 0 <= i < ps.len() ==> utf8_ok(#[trigger] ps[i])
    ensures props_of(each_enc(set, ps)) == ps.map_values(|p: Seq<u8>| trim_of(p))
    decreases ps.len()
{
    if ps.len() > 0 {
        let e = each_enc(set, ps);
        assert(e.drop_last() =~= each_enc(set, ps.drop_last()));
        props_back(set, ps.drop_last());
        round_trip(set, ps.last());
        assert(utf8_ok(ps[ps.len() - 1]));
        assert(e.last() == enc(set, ps.last()));
        assert(props_of(e) =~= ps.map_values(|p: Seq<u8>| trim_of(p)));
    } else { assert(props_of(each_enc(set, ps)) =~= ps.map_values(|p: Seq<u8>| trim_of(p))); }
}
/// metadata as it comes back: its properties trimmed
spec fn normal(m: Seq<u8>) -> Seq<u8> { if m.len() == 0 { trim_of(Seq::empty()) } else { trim_of(joined(pieces(m, 0x3b).map_values(|p: Seq<u8>| trim_of(p)), seq![0x3bu8])) } }
/// what was written for an entry is what is read back for it, for every text; and no member contains the list separator
proof fn member_round_trip(set: spec_fn(u8) -> bool, mset: spec_fn(u8) -> bool, n: Seq<u8>, v: Seq<u8>, m: Seq<u8>)
    requires separates(set), separates_escape(mset), mset(0x2c), !mset(0x3b), utf8_ok(n), utf8_ok(v), utf8_ok(m)
    ensures
        member(member_text(set, mset, n, v, m)) == Some(Entry { k: trim_of(n), v: trim_of(v), m: normal(m) }),
        !has_byte(member_text(set, mset, n, v, m), 0x2c),
{
    let t = member_text(set, mset, n, v, m);
    let (en, ev, em) = (enc(set, n), enc(set, v), enc(mset, m));
    let h0 = en + seq![0x3du8] + ev;
    absent(set, n, 0x3b); absent(set, v, 0x3b); absent(set, n, 0x3d); absent(set, n, 0x2c); absent(set, v, 0x2c); absent(mset, m, 0x2c);
    round_trip(set, n); round_trip(set, v);
    assert forall|i: int| 0 <= i < h0.len() implies #[trigger] h0[i] != 0x3b && h0[i] != 0x2c by {
        if i < en.len() { assert(h0[i] == en[i]); } else if i > en.len() { assert(h0[i] == ev[i - en.len() - 1]); }
    }
    assert forall|i: int| 0 <= i < en.len() implies h0[i] != 0x3d by { assert(h0[i] == en[i]); }
    assert(h0[en.len() as int] == 0x3d);
    idx_at(h0, 0x3d, en.len() as int);
    assert(h0.take(en.len() as int) =~= en && h0.skip(en.len() as int + 1) =~= ev);
    if m.len() > 0 {
        assert(t =~= h0 + (seq![0x3bu8] + em));
        assert forall|i: int| 0 <= i < h0.len() implies t[i] != 0x3b by { assert(t[i] == h0[i]); }
        assert(t[h0.len() as int] == 0x3b);
        idx_at(t, 0x3b, h0.len() as int);
        assert(t.take(h0.len() as int) =~= h0 && t.skip(h0.len() as int + 1) =~= em);
        enc_pieces(mset, m, 0x3b);
        utf8_pieces(m, 0x3b);
        props_back(mset, pieces(m, 0x3b));
        assert(pieces(t, 0x3b).skip(1) =~= pieces(em, 0x3b));
    } else {
        assert(t =~= h0);
        idx_at(t, 0x3b, t.len() as int);
        assert(pieces(t, 0x3b) =~= seq![h0]);
        assert(pieces(t, 0x3b).skip(1) =~= Seq::empty());
        assert(props_of(Seq::empty()) =~= Seq::empty());
    }
    assert(pieces(t, 0x3b)[0] == h0);
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != 0x2c by {
        if i < h0.len() { assert(t[i] == h0[i]); } else if i > h0.len() { assert(t[i] == em[i - h0.len() - 1]); }
    }
}
proof fn joined_pieces(s: Seq<u8>, c: u8)
    ensures joined(pieces(s, c), seq![c]) == s
    decreases s.len()
{
    idx_props(s, c);
    let i = idx(s, c);
    if i < s.len() {
        joined_pieces(s.skip(i + 1), c);
        pieces_some(s.skip(i + 1), c);
        assert(pieces(s, c).drop_first() =~= pieces(s.skip(i + 1), c));
        assert(s.take(i) + seq![c] + s.skip(i + 1) =~= s);
    } else { assert(pieces(s, c) =~= seq![s]); }
}
/// metadata without blanks around its separators comes back as it is
proof fn metadata_round_trip(m: Seq<u8>)
    requires trim_of(m) == m, forall|i: int| 0 <= i < pieces(m, 0x3b).len() ==> trim_of(#[trigger] pieces(m, 0x3b)[i]) == pieces(m, 0x3b)[i]
    ensures normal(m) == m
{
    joined_pieces(m, 0x3b);
    assert(pieces(m, 0x3b).map_values(|p: Seq<u8>| trim_of(p)) =~= pieces(m, 0x3b));
    if m.len() == 0 { assert(m =~= Seq::empty()); }
}
spec fn back(es: Seq<Entry>) -> Seq<Entry> { es.map_values(|e: Entry| Entry { k: trim_of(e.k), v: trim_of(e.v), m: normal(trim_of(e.m)) }) }
spec fn texts_ok(e: Entry) -> bool { utf8_ok(trim_of(e.k)) && utf8_ok(trim_of(e.v)) && utf8_ok(trim_of(e.m)) }
proof fn entries_back(set: spec_fn(u8) -> bool, mset: spec_fn(u8) -> bool, es: Seq<Entry>)
    requires separates(set), separates_escape(mset), mset(0x2c), !mset(0x3b), forall|i: int| 0 <= i < es.len() ==> texts_ok(#[trigger] es[i])
    ensures
        entries_of(es.map_values(|e: Entry| pair_text(set, mset, e))) == back(es),
        forall|i: int| 0 <= i < es.len() ==> !has_byte(#[trigger] pair_text(set, mset, es[i]), 0x2c),
    decreases es.len()
{
    broadcast use trim_twice;
    let ms = es.map_values(|e: Entry| pair_text(set, mset, e));
    if es.len() > 0 {
        let e = es.last();
        assert(texts_ok(es[es.len() - 1]));
        entries_back(set, mset, es.drop_last());
        member_round_trip(set, mset, trim_of(e.k), trim_of(e.v), trim_of(e.m));
        assert(ms.drop_last() =~= es.drop_last().map_values(|e: Entry| pair_text(set, mset, e)));
        assert(ms.last() == pair_text(set, mset, e));
        assert(back(es) =~= back(es.drop_last()).push(Entry { k: trim_of(e.k), v: trim_of(e.v), m: normal(trim_of(e.m)) }));
        assert forall|i: int| 0 <= i < es.len() implies !has_byte(#[trigger] pair_text(set, mset, es[i]), 0x2c) by { if i < es.len() - 1 { assert(es[i] == es.drop_last()[i]); } }
    } else { assert(entries_of(ms) =~= back(es)); }
}
/// extracting what was injected gives every entry, in order, with its name, value and metadata
proof fn header_round_trip(set: spec_fn(u8) -> bool, mset: spec_fn(u8) -> bool, es: Seq<Entry>)
    requires separates(set), separates_escape(mset), mset(0x2c), !mset(0x3b), es.len() > 0, forall|i: int| 0 <= i < es.len() ==> texts_ok(#[trigger] es[i])
    ensures entries_of(pieces(header_text(set, mset, es), 0x2c)) == back(es)
{
    entries_back(set, mset, es);
    let ms = es.map_values(|e: Entry| pair_text(set, mset, e));
    assert forall|i: int| 0 <= i < ms.len() implies !has_byte(#[trigger] ms[i], 0x2c) by { assert(ms[i] == pair_text(set, mset, es[i])); }
    pieces_of_joined(ms, 0x2c);
}

} // verus!
fn main() {}

// Unit: the trace state list (opentelemetry/src/trace/span_context.rs TraceState).
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::string::*;
use std::collections::VecDeque;
verus! {

// ---- texts are seen as their bytes
spec fn sb(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
spec fn lcd(b: u8) -> bool { 97 <= b <= 122 || 48 <= b <= 57 }
spec fn key_byte(b: u8) -> bool { lcd(b) || b == 0x5f || b == 0x2d || b == 0x2a || b == 0x2f || b == 0x40 }
/// no key outside this set may ever be accepted (W3C trace context, both levels)
spec fn key_sane(k: Seq<u8>) -> bool { 1 <= k.len() <= 256 && lcd(k[0]) && forall|i: int| 0 <= i < k.len() ==> key_byte(#[trigger] k[i]) }
/// every simple key, and every tenant@system key with a system part of 1 to 14 bytes, must be accepted
spec fn key_simple(k: Seq<u8>) -> bool { key_sane(k) && forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] != 0x40 }
spec fn key_multi(k: Seq<u8>, at: int) -> bool {
    key_sane(k) && 0 < at < k.len() - 1 && k.len() - at <= 15 && k[at] == 0x40 && lcd(k[at + 1])
    && forall|i: int| 0 <= i < k.len() && i != at ==> #[trigger] k[i] != 0x40
}
spec fn key_good(k: Seq<u8>) -> bool { key_simple(k) || exists|at: int| key_multi(k, at) }
spec fn value_byte(b: u8) -> bool { 0x20 <= b <= 0x7e && b != 0x2c && b != 0x3d }
spec fn value_ok(v: Seq<u8>) -> bool { v.len() <= 256 && (forall|i: int| 0 <= i < v.len() ==> value_byte(#[trigger] v[i])) && (v.len() > 0 ==> v.last() != 0x20) }

pub assume_specification [u8::is_ascii_lowercase] (b: &u8) -> (r: bool) ensures r == (97 <= *b <= 122);
pub assume_specification [u8::is_ascii_digit] (b: &u8) -> (r: bool) ensures r == (48 <= *b <= 57);
#[verifier::external_body]
fn all_bytes<F: Fn(u8) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < s.spec_bytes().len() ==> f.requires((#[trigger] s.spec_bytes()[i],))
    ensures r ==> forall|i: int| 0 <= i < s.spec_bytes().len() ==> f.ensures((#[trigger] s.spec_bytes()[i],), true),
        !r ==> exists|i: int| 0 <= i < s.spec_bytes().len() && f.ensures((#[trigger] s.spec_bytes()[i],), false),
{ unimplemented!() }
#[verifier::external_body]
fn ends_with_space(s: &str) -> (r: bool) ensures r == (s.spec_bytes().len() > 0 && s.spec_bytes().last() == 0x20) { unimplemented!() }
#[verifier::external_body]
fn text(s: &str) -> (r: String) ensures sb(r@) == s.spec_bytes() { unimplemented!() }
#[verifier::external_body]
fn blen(s: &str) -> (r: usize) ensures r == s.spec_bytes().len() { unimplemented!() }
#[verifier::external_body]
fn text_eq(a: &String, b: &str) -> (r: bool) ensures r == (sb(a@) == b.spec_bytes()) { unimplemented!() }
broadcast proof fn as_str_bytes(s: &str) ensures #[trigger] s.spec_bytes() == sb(s@) { }

pub assume_specification<T, A: std::alloc::Allocator> [VecDeque::<T, A>::is_empty] (d: &VecDeque<T, A>) -> (r: bool) ensures r == (d@.len() == 0);

type Ent = (Seq<u8>, Seq<u8>);
spec fn ent(p: (String, String)) -> Ent { (sb(p.0@), sb(p.1@)) }
spec fn ents(d: Seq<(String, String)>) -> Seq<Ent> { d.map_values(|p: (String, String)| ent(p)) }
spec fn without(l: Seq<Ent>, k: Seq<u8>) -> Seq<Ent> { l.filter(|p: Ent| p.0 != k) }
spec fn entries_ok(l: Seq<Ent>) -> bool { forall|i: int| 0 <= i < l.len() ==> key_sane((#[trigger] l[i]).0) && value_ok(l[i].1) }

//@item opentelemetry/src/trace/span_context.rs struct TraceState
//@item opentelemetry/src/trace/span_context.rs enum TraceStateError
//@item opentelemetry/src/trace/span_context.rs type TraceStateResult

/// VecDeque::retain keeps, in order, the entries the predicate accepts
#[verifier::external_body]
fn retain_entries<F: Fn(&(String, String)) -> bool>(d: &mut VecDeque<(String, String)>, f: F, Ghost(keep): Ghost<spec_fn(Ent) -> bool>)
    requires forall|p: (String, String)| f.requires((&p,)), forall|p: (String, String), r: bool| f.ensures((&p,), r) ==> r == keep(ent(p))
    ensures ents(final(d)@) == ents(old(d)@).filter(keep)
{ unimplemented!() }
#[verifier::external_body]
fn clone_state(s: &TraceState) -> (r: TraceState) ensures r.v() == s.v(), r.0.is_some() == s.0.is_some() { unimplemented!() }

impl TraceState {
    /// the list of members, first one first
    spec fn v(&self) -> Seq<Ent> { match self.0 { None => Seq::empty(), Some(d) => ents(d@) } }

//@fn opentelemetry/src/trace/span_context.rs impl TraceState :: fn valid_key
//@ret r
//@subst key.len() > 256 ~> blen(key) > 256
//@subst? key.is_empty() ~> (blen(key) == 0)
//@subst |b: u8| ($$e) ~> |b: u8| -> (r: bool) ensures r == (b == 0x5f || b == 0x2d || b == 0x2a || b == 0x2f) { $$e }
//@subst for (i, &b) in key.as_bytes().iter().enumerate() { ~> let bytes = key.as_bytes(); for i in 0..bytes.len() { let b = bytes[i];
//@subst i + 15 < key.len() ~> i + 15 < bytes.len()
//@subst let mut vendor_start = None; ~> let mut vendor_start: Option<usize> = None;
//@contract
    ensures
        r ==> key_sane(key.spec_bytes()),
        key_good(key.spec_bytes()) ==> r,
//@loop 0
    invariant
        bytes@ == key.spec_bytes(), 1 <= bytes@.len() <= 256,
        forall|b: u8| #[trigger] allowed_special.requires((b,)),
        forall|b: u8, r: bool| #[trigger] allowed_special.ensures((b,), r) ==> r == (b == 0x5f || b == 0x2d || b == 0x2a || b == 0x2f),
        forall|j: int| 0 <= j < i ==> key_byte(#[trigger] bytes@[j]),
        i > 0 ==> lcd(bytes@[0]),
        match vendor_start { None => forall|j: int| 0 <= j < i ==> #[trigger] bytes@[j] != 0x40, Some(s) => 0 <= s < i && bytes@[s as int] == 0x40 },
//@endfn

//@fn opentelemetry/src/trace/span_context.rs impl TraceState :: fn valid_value
//@ret r
//@subst value.len() > 256 ~> blen(value) > 256
//@subst value.bytes().all(|b| $$e) ~> all_bytes(value, |b: u8| -> (r: bool) ensures r == value_byte(b) { $$e })
//@subst (0x20..=0x7e).contains(&b) ~> (0x20 <= b && b <= 0x7e)
//@subst value.ends_with(' ') ~> ends_with_space(value)
//@contract
    ensures r == value_ok(value.spec_bytes()),
//@endfn

//@fn opentelemetry/src/trace/span_context.rs impl TraceState :: fn from_key_value
//@closure |(key, value)|
//@sig fn check_pair(key: String, value: String) -> Result<(String, String), TraceStateError>
//@ret r
//@subst let (key, value) = (key.to_string(), value.to_string()); ~>
//@contract
    ensures
        r.is_ok() ==> ent(r->Ok_0) == (sb(key@), sb(value@)) && key_sane(sb(key@)) && value_ok(sb(value@)),
        key_good(sb(key@)) && value_ok(sb(value@)) ==> r.is_ok(),
//@start
    proof { broadcast use as_str_bytes; }
//@endfn

    /// what from_key_value and from_str accept for sure / at most
    spec fn pairs_good(l: Seq<Ent>) -> bool { forall|i: int| 0 <= i < l.len() ==> key_good((#[trigger] l[i]).0) && value_ok(l[i].1) }

    // `.into_iter().map(check).collect::<Result<VecDeque<_>, _>>()`: every pair checked, in order, or the first refusal
    #[verifier::external_body]
    fn collect_checked(l: Vec<(String, String)>) -> (r: Result<VecDeque<(String, String)>, TraceStateError>)
        ensures
            r.is_ok() ==> ents(r->Ok_0@) == ents(l@) && entries_ok(ents(l@)),
            Self::pairs_good(ents(l@)) ==> r.is_ok(),
    { l.into_iter().map(|(key, value)| TraceState::check_pair(key, value)).collect() }

//@fn opentelemetry/src/trace/span_context.rs impl TraceState :: fn from_key_value
//@sig fn from_key_value(trace_state: Vec<(String, String)>) -> TraceStateResult<TraceState>
//@ret r
//@subst trace_state.into_iter().map(|(key, value)| { $$b }).collect::<Result<VecDeque<_>, TraceStateError>>() ~> Self::collect_checked(trace_state)
//@contract
    ensures
        r.is_ok() ==> (r->Ok_0).v() == ents(trace_state@) && entries_ok(ents(trace_state@)),
        Self::pairs_good(ents(trace_state@)) ==> r.is_ok(),
//@endfn

//@fn opentelemetry/src/trace/span_context.rs impl TraceState :: fn delete_from_deque
//@ret r
//@subst self.clone() ~> clone_state(self)
//@subst kvs.retain(|x| $$p); ~> retain_entries(kvs, |x: &(String, String)| -> (r: bool) ensures r == (ent(*x).0 != key.spec_bytes()) { $$p }, Ghost(|p: Ent| p.0 != key.spec_bytes()));
//@subst x.0 != key ~> !text_eq(&x.0, key)
//@contract
    ensures r.v() == without(self.v(), key.spec_bytes()),
//@endfn

//@fn opentelemetry/src/trace/span_context.rs impl TraceState :: fn insert
//@sig fn insert(&self, key: String, value: String) -> TraceStateResult<TraceState>
//@ret r
//@subst (key.into(), value.into()) ~> (key, value)
//@subst let kvs = trace_state.0.get_or_insert($$d); ~> let kvs = get_or_insert(&mut trace_state.0, $$d);
//@contract
    ensures
        // in front, and nowhere else; everything else as before; the source is borrowed immutably
        r.is_ok() ==> key_sane(sb(key@)) && value_ok(sb(value@)) && (r->Ok_0).v() == seq![(sb(key@), sb(value@))] + without(self.v(), sb(key@)),
        key_good(sb(key@)) && value_ok(sb(value@)) ==> r.is_ok(),
//@start
    proof { broadcast use as_str_bytes; }
    let ghost (k0, v0) = (sb(key@), sb(value@));
//@before Ok(trace_state)
    proof { assert(trace_state.v() =~= seq![(k0, v0)] + without(self.v(), k0)); }
//@endfn

//@fn opentelemetry/src/trace/span_context.rs impl TraceState :: fn delete
//@sig fn delete(&self, key: String) -> TraceStateResult<TraceState>
//@ret r
//@subst key.into() ~> key
//@contract
    ensures
        r.is_ok() ==> (r->Ok_0).v() == without(self.v(), sb(key@)),
        key_good(sb(key@)) ==> r.is_ok(),
//@start
    proof { broadcast use as_str_bytes; }
//@endfn
}
#[verifier::external_body]
fn get_or_insert<'a>(o: &'a mut Option<VecDeque<(String, String)>>, v: VecDeque<(String, String)>) -> (r: &'a mut VecDeque<(String, String)>)
    ensures *final(o) == Some(*final(r)), *r == (match *old(o) { Some(d) => d, None => v }),
{ o.get_or_insert(v) }


// ---- reading and writing the header
spec fn joined(parts: Seq<Seq<u8>>, d: Seq<u8>) -> Seq<u8> decreases parts.len() {
    if parts.len() == 0 { Seq::empty() } else if parts.len() == 1 { parts[0] } else { parts[0] + d + joined(parts.drop_first(), d) }
}
spec fn bytes_of(v: Seq<String>) -> Seq<Seq<u8>> { v.map_values(|s: String| sb(s@)) }
spec fn str_bytes(v: Seq<&str>) -> Seq<Seq<u8>> { v.map_values(|s: &str| s.spec_bytes()) }
#[verifier::external_body]
fn join(parts: Vec<String>, d: &str) -> (r: String) ensures sb(r@) == joined(bytes_of(parts@), d.spec_bytes()) { parts.join(d) }
#[verifier::external_body]
fn cat3(a: &str, b: &str, c: &str) -> (r: String) ensures sb(r@) == a.spec_bytes() + b.spec_bytes() + c.spec_bytes() { format!("{}{}{}", a, b, c) }
fn empty_text() -> (r: String) ensures r@.len() == 0 { String::new() }
spec fn member(e: Ent, d: Seq<u8>) -> Seq<u8> { e.0 + d + e.1 }
spec fn members(l: Seq<Ent>, d: Seq<u8>) -> Seq<Seq<u8>> { l.map_values(|e: Ent| member(e, d)) }

impl TraceState {
//@fn opentelemetry/src/trace/span_context.rs impl TraceState :: fn get
//@ret r
//@subst self.0.as_ref().and_then(|kvs| { kvs.iter().find_map(|item| { $$b }) }) ~> match self.0.as_ref() { None => None, Some(kvs) => { for item in kvs.iter() { let found = { $$b }; if found.is_some() { return found; } } None } }
//@subst item.0.as_str() == key ~> text_eq(&item.0, key)
//@contract
    ensures
        match r {
            // the first entry of that name, if there is one
            Some(x) => exists|i: int| 0 <= i < self.v().len() && (#[trigger] self.v()[i]).0 == key.spec_bytes() && self.v()[i].1 == x.spec_bytes()
                && forall|j: int| 0 <= j < i ==> (#[trigger] self.v()[j]).0 != key.spec_bytes(),
            None => forall|j: int| 0 <= j < self.v().len() ==> (#[trigger] self.v()[j]).0 != key.spec_bytes(),
        },
//@start
    proof { broadcast use as_str_bytes; }
//@loop 0 it
    invariant
        self.0 == Some(*kvs), it.seq().len() == kvs@.len(), forall|j: int| 0 <= j < kvs@.len() ==> *it.seq()[j] == kvs@[j],
        forall|j: int| 0 <= j < it.index@ ==> (#[trigger] self.v()[j]).0 != key.spec_bytes(),
//@inloop 0
    proof { broadcast use as_str_bytes; assert(self.v()[it.index@] == ent(*item)); }
//@endfn

//@fn opentelemetry/src/trace/span_context.rs impl TraceState :: fn header_delimited
//@ret r
//@subst self.0.as_ref().map(|kvs| { $$b }).unwrap_or_default() ~> match self.0.as_ref() { Some(kvs) => { $$b }, None => empty_text() }
//@subst kvs.iter().map(|(key, value)| $$f).collect::<Vec<String>>().join(list_delimiter) ~> let mut parts: Vec<String> = Vec::new(); for item in kvs.iter() { let (key, value) = (&item.0, &item.1); let part = $$f; parts.push(part); } join(parts, list_delimiter)
//@subst format!("{}{}{}", $a, $b, $c) ~> cat3($a, $b, $c)
//@contract
    ensures sb(r@) == joined(members(self.v(), entry_delimiter.spec_bytes()), list_delimiter.spec_bytes()),
//@start
    proof { broadcast use as_str_bytes; vstd::utf8::encode_utf8_decode_utf8(seq![]); }
//@loop 0 it
    invariant
        self.0 == Some(*kvs), it.seq().len() == kvs@.len(), forall|j: int| 0 <= j < kvs@.len() ==> *it.seq()[j] == kvs@[j],
        parts@.len() == it.index@,
        forall|j: int| 0 <= j < it.index@ ==> sb((#[trigger] parts@[j])@) == member(self.v()[j], entry_delimiter.spec_bytes()),
//@inloop 0
    proof { broadcast use as_str_bytes; assert(self.v()[it.index@] == ent(*item)); }
//@before join
    proof { assert(bytes_of(parts@) =~= members(self.v(), entry_delimiter.spec_bytes())); }
//@endfn
}


spec fn idx(s: Seq<u8>, c: u8) -> int decreases s.len() { if s.len() == 0 || s[0] == c { 0 } else { 1 + idx(s.drop_first(), c) } }
spec fn pieces(s: Seq<u8>, c: u8) -> Seq<Seq<u8>> decreases s.len() via pieces_dec {
    if idx(s, c) >= s.len() { seq![s] } else { seq![s.take(idx(s, c))] + pieces(s.skip(idx(s, c) + 1), c) }
}
#[via_fn]
proof fn pieces_dec(s: Seq<u8>, c: u8) { idx_props(s, c); }
proof fn idx_props(s: Seq<u8>, c: u8)
    ensures 0 <= idx(s, c) <= s.len(), idx(s, c) < s.len() ==> s[idx(s, c)] == c, forall|i: int| 0 <= i < idx(s, c) ==> s[i] != c
    decreases s.len()
{
    if s.len() > 0 && s[0] != c {
        let t = s.drop_first();
        idx_props(t, c);
        assert forall|i: int| 0 <= i < idx(s, c) implies s[i] != c by { if i > 0 { assert(s[i] == t[i - 1]); } }
    }
}
spec fn blank(b: u8) -> bool { b == 0x20 || b == 0x09 }
spec fn ltrim(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() > 0 && blank(s[0]) { ltrim(s.drop_first()) } else { s } }
spec fn rtrim(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() > 0 && blank(s.last()) { rtrim(s.drop_last()) } else { s } }
spec fn trimb(s: Seq<u8>) -> Seq<u8> { rtrim(ltrim(s)) }
#[verifier::external_body]
fn split_comma<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures str_bytes(r@) == pieces(s.spec_bytes(), 0x2c) { s.split(',').collect() }
#[verifier::external_body]
fn trim_blank(s: &str) -> (r: &str) ensures r.spec_bytes() == trimb(s.spec_bytes()) { s.trim_matches(|c| c == ' ' || c == '\t') }
#[verifier::external_body]
fn split_once_eq(s: &str) -> (r: Option<(&str, &str)>)
    ensures ({ let b = s.spec_bytes(); let i = idx(b, 0x3d);
        match r { None => i >= b.len(), Some((k, v)) => i < b.len() && k.spec_bytes() == b.take(i) && v.spec_bytes() == b.skip(i + 1) } })
{ s.split_once('=') }

/// what the list members of a header say, members without '=' set aside
spec fn read(ms: Seq<Seq<u8>>) -> Seq<Ent> decreases ms.len() {
    if ms.len() == 0 { Seq::empty() } else {
        let m = trimb(ms.last()); let i = idx(m, 0x3d);
        if m.len() == 0 { read(ms.drop_last()) } else { read(ms.drop_last()).push((m.take(i), m.skip(i + 1))) }
    }
}
spec fn readable(ms: Seq<Seq<u8>>) -> bool { forall|j: int| 0 <= j < ms.len() ==> ({ let m = trimb(#[trigger] ms[j]); m.len() == 0 || idx(m, 0x3d) < m.len() }) }

//@fn opentelemetry/src/trace/span_context.rs impl FromStr for TraceState :: fn from_str
//@sig fn from_str(s: &str) -> Result<TraceState, TraceStateError>
//@ret r
//@subst for list_member in s.split(',') { ~> let list = split_comma(s); let mut n: usize = 0; while n < list.len() { let list_member = list[n]; n = n + 1;
//@subst $x.trim_matches(|c| c == ' ' || c == '\t') ~> trim_blank($x)
//@subst $x.is_empty() ~> (blen($x) == 0)
//@subst $x.split_once('=') ~> split_once_eq($x)
//@subst $x.to_string() ~> text($x)
//@contract
    ensures
        r.is_ok() ==> (r->Ok_0).v() == read(pieces(s.spec_bytes(), 0x2c)) && entries_ok((r->Ok_0).v()),
        // a header is refused only if a member has no '=' or holds an invalid key or value
        readable(pieces(s.spec_bytes(), 0x2c)) && TraceState::pairs_good(read(pieces(s.spec_bytes(), 0x2c))) ==> r.is_ok(),
//@loop 0
    invariant
        n <= list.len(),
        str_bytes(list@) == pieces(s.spec_bytes(), 0x2c),
        ents(key_value_pairs@) == read(str_bytes(list@).take(n as int)),
    decreases list.len() - n
//@inloop 0
    proof {
        let ms = str_bytes(list@);
        assert(ms.take(n + 1).drop_last() =~= ms.take(n as int));
        assert(ms.take(n + 1).last() == list@[n as int].spec_bytes());
        idx_props(trimb(list@[n as int].spec_bytes()), 0x3d);
        assert(ms.len() == list@.len());
    }
    let ghost before = key_value_pairs@;
//@endinloop 0
    proof { if key_value_pairs@.len() > before.len() { assert(ents(key_value_pairs@) =~= ents(before).push(ent(key_value_pairs@.last()))); } }
//@afterloop 0
    proof { let ms = str_bytes(list@); assert(ms.take(list@.len() as int) =~= ms); }
//@endfn

// ---- the header of a state reads back as the same state
proof fn idx_at(s: Seq<u8>, c: u8, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> s[i] != c, n < s.len() ==> s[n] == c
    ensures idx(s, c) == n
{ idx_props(s, c); if idx(s, c) < n { assert(s[idx(s, c)] == c); } }
proof fn pieces_of_joined(parts: Seq<Seq<u8>>, c: u8)
    requires parts.len() > 0, forall|i: int, j: int| 0 <= i < parts.len() && 0 <= j < parts[i].len() ==> #[trigger] parts[i][j] != c
    ensures pieces(joined(parts, seq![c]), c) == parts
    decreases parts.len()
{
    let s = joined(parts, seq![c]);
    let h = parts[0];
    if parts.len() == 1 { idx_at(s, c, h.len() as int); assert(pieces(s, c) =~= parts); }
    else {
        let rest = parts.drop_first();
        assert forall|i: int, j: int| 0 <= i < rest.len() && 0 <= j < rest[i].len() implies #[trigger] rest[i][j] != c by { assert(rest[i] == parts[i + 1]); assert(parts[i + 1][j] != c); }
        pieces_of_joined(rest, c);
        assert(s =~= h + seq![c] + joined(rest, seq![c]));
        assert forall|i: int| 0 <= i < h.len() implies s[i] != c by { assert(s[i] == parts[0][i]); }
        idx_at(s, c, h.len() as int);
        assert(s.skip(h.len() as int + 1) =~= joined(rest, seq![c]));
        assert(s.take(h.len() as int) =~= h);
        assert(pieces(s, c) =~= parts);
    }
}
proof fn member_reads_back(e: Ent)
    requires key_sane(e.0), value_ok(e.1)
    ensures ({ let m = member(e, seq![0x3du8]); trimb(m) == m && idx(m, 0x3d) == e.0.len() && m.take(e.0.len() as int) == e.0 && m.skip(e.0.len() as int + 1) == e.1
        && m.len() > 0 && forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] != 0x2c })
{
    let m = member(e, seq![0x3du8]);
    assert(m[0] == e.0[0]);
    assert(ltrim(m) == m);
    assert(!blank(m.last())) by {
        if e.1.len() > 0 { assert(m.last() == e.1.last()); assert(value_byte(e.1[e.1.len() - 1])); }
        else { assert(m.last() == 0x3d); }
    }
    assert forall|i: int| 0 <= i < e.0.len() implies m[i] != 0x3d by { assert(m[i] == e.0[i]); assert(key_byte(e.0[i])); }
    idx_at(m, 0x3d, e.0.len() as int);
    assert(m.take(e.0.len() as int) =~= e.0);
    assert(m.skip(e.0.len() as int + 1) =~= e.1);
    assert forall|i: int| 0 <= i < m.len() implies #[trigger] m[i] != 0x2c by {
        if i < e.0.len() { assert(m[i] == e.0[i]); assert(key_byte(e.0[i])); }
        else if i > e.0.len() { assert(m[i] == e.1[i - e.0.len() - 1]); assert(value_byte(e.1[i - e.0.len() - 1])); }
    }
}
proof fn read_of_members(l: Seq<Ent>)
    requires entries_ok(l)
    ensures read(members(l, seq![0x3du8])) == l, readable(members(l, seq![0x3du8]))
    decreases l.len()
{
    let ms = members(l, seq![0x3du8]);
    assert forall|j: int| 0 <= j < ms.len() implies ({ let m = trimb(#[trigger] ms[j]); m.len() == 0 || idx(m, 0x3d) < m.len() }) by { member_reads_back(l[j]); }
    if l.len() > 0 {
        member_reads_back(l.last());
        assert(ms.drop_last() =~= members(l.drop_last(), seq![0x3du8]));
        read_of_members(l.drop_last());
        assert(ms.last() == member(l.last(), seq![0x3du8]));
        assert(l =~= l.drop_last().push(l.last()));
    }
}
/// reading what was written gives the same list, for every list of entries a state can hold
proof fn header_round_trip(l: Seq<Ent>)
    requires entries_ok(l)
    ensures read(pieces(joined(members(l, seq![0x3du8]), seq![0x2cu8]), 0x2c)) == l, readable(pieces(joined(members(l, seq![0x3du8]), seq![0x2cu8]), 0x2c))
{
    let ms = members(l, seq![0x3du8]);
    read_of_members(l);
    if l.len() > 0 {
        assert forall|i: int, j: int| 0 <= i < ms.len() && 0 <= j < ms[i].len() implies #[trigger] ms[i][j] != 0x2c by { member_reads_back(l[i]); }
        pieces_of_joined(ms, 0x2c);
    } else {
        let s = joined(ms, seq![0x2cu8]);
        idx_at(s, 0x2c, 0);
        assert(s.len() == 0);
        assert(pieces(s, 0x2c) =~= seq![s]);
        let one = seq![s];
        assert(ltrim(s) == s && rtrim(s) == s);
        assert(one.last() == s && one.drop_last() =~= Seq::<Seq<u8>>::empty());
        assert(read(one.drop_last()) =~= Seq::<Ent>::empty());
        assert(l =~= Seq::<Ent>::empty());
    }
}

} // verus!
fn main() {}

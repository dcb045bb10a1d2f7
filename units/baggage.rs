// Unit: baggage as a bounded map (opentelemetry/src/baggage.rs).
use vstd::prelude::*;
use vstd::string::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::PartialEqSpec;
use vstd::std_specs::hash::*;
use std::collections::HashMap;
use std::collections::hash_map::Entry;
verus! {

// Key and the two string types are opaque: only their text matters here.
#[verifier::external_body]
#[derive(PartialEq, Eq, Hash)]
struct Key { _p: u8 }
#[verifier::external_body]
struct StringValue { _p: u8 }
//@item opentelemetry/src/baggage.rs struct BaggageMetadata
uninterp spec fn kbytes(k: Key) -> Seq<u8>;
uninterp spec fn vbytes(v: StringValue) -> Seq<u8>;
spec fn mbytes(m: BaggageMetadata) -> Seq<u8> { sb(m.0@) }
/// the bytes of a string
spec fn sb(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
impl Key {
    #[verifier::external_body] fn as_str(&self) -> (r: &str) ensures r.spec_bytes() == kbytes(*self) { unimplemented!() }
}
impl StringValue {
    #[verifier::external_body] fn as_str(&self) -> (r: &str) ensures r.spec_bytes() == vbytes(*self) { unimplemented!() }
}
impl BaggageMetadata {
//@fn opentelemetry/src/baggage.rs impl BaggageMetadata :: fn as_str
//@ret r
//@contract
    ensures r.spec_bytes() == mbytes(*self),
//@endfn
//@fn opentelemetry/src/baggage.rs impl From<&str> for BaggageMetadata :: fn from
//@sig fn from_str(s: &str) -> BaggageMetadata
//@ret r
//@subst s.trim().to_string() ~> text(s.trim())
//@contract
    ensures mbytes(r) == trim_of(s.spec_bytes()),
//@endfn
//@fn opentelemetry/src/baggage.rs impl From<String> for BaggageMetadata :: fn from
//@sig fn from_string(s: String) -> BaggageMetadata
//@ret r
//@subst s.trim().to_string() ~> text(s.as_str().trim())
//@contract
    ensures mbytes(r) == trim_of(sb(s@)),
//@endfn
    // #[derive(Default)]
    #[verifier::external_body] fn default() -> (r: BaggageMetadata) ensures r == no_metadata() { unimplemented!() }
}
/// the metadata #[derive(Default)] gives
uninterp spec fn no_metadata() -> BaggageMetadata;
axiom fn no_metadata_is_empty() ensures mbytes(no_metadata()).len() == 0;
// trusted: str::trim (an uninterpreted function of the text) and to_string
pub uninterp spec fn trim_of(s: Seq<u8>) -> Seq<u8>;
pub assume_specification [str::trim] (s: &str) -> (r: &str) ensures r.spec_bytes() == trim_of(s.spec_bytes());
#[verifier::external_body]
fn text(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
broadcast proof fn key_is_a_hash_key() ensures #[trigger] obeys_key_model::<Key>() { unimplemented!() }

pub assume_specification [u8::is_ascii_graphic] (b: &u8) -> (r: bool)
    ensures r == (33 <= *b <= 126);

pub assume_specification<T: std::cmp::PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
    ensures T::obeys_eq_spec() && (forall|a: T, b: T| #[trigger] a.eq_spec(&b) <==> a == b) ==> r == s@.contains(*x);

type Pairs = Map<Key, (StringValue, BaggageMetadata)>;

spec fn pair_len(k: Key, v: (StringValue, BaggageMetadata)) -> nat {
    kbytes(k).len() + vbytes(v.0).len() + mbytes(v.1).len()
}
/// bytes of all keys, values and metadata in the baggage
spec fn total(m: Pairs) -> nat decreases m.dom().len() {
    if m.dom().len() > 0 { let k = m.dom().choose(); pair_len(k, m[k]) + total(m.remove(k)) } else { 0 }
}
proof fn total_remove(m: Pairs, k: Key)
    requires m.dom().contains(k)
    ensures total(m) == pair_len(k, m[k]) + total(m.remove(k))
    decreases m.dom().len()
{
    let c = m.dom().choose();
    assert(m.dom().contains(c));
    if c != k {
        total_remove(m.remove(c), k);
        total_remove(m.remove(k), c);
        assert(m.remove(c).remove(k) =~= m.remove(k).remove(c));
    }
}
proof fn total_insert(m: Pairs, k: Key, v: (StringValue, BaggageMetadata))
    ensures
        !m.dom().contains(k) ==> total(m.insert(k, v)) == total(m) + pair_len(k, v),
        m.dom().contains(k) ==> total(m.insert(k, v)) == total(m) - pair_len(k, m[k]) + pair_len(k, v),
        m.dom().contains(k) ==> total(m) >= pair_len(k, m[k]),
{
    total_remove(m.insert(k, v), k);
    if m.dom().contains(k) {
        total_remove(m, k);
        assert(m.insert(k, v).remove(k) =~= m.remove(k));
    } else {
        assert(m.insert(k, v).remove(k) =~= m);
    }
}

/// RFC 7230 tchar, written out independently of the code's table
spec fn tchar(b: u8) -> bool {
    33 <= b <= 126 && !(b == 0x28 || b == 0x29 || b == 0x2c || b == 0x2f || b == 0x3a || b == 0x3b || b == 0x3c || b == 0x3d
        || b == 0x3e || b == 0x3f || b == 0x40 || b == 0x5b || b == 0x5c || b == 0x5d || b == 0x7b || b == 0x7d || b == 0x22)
}
spec fn key_ok(s: Seq<u8>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> tchar(#[trigger] s[i]) }

//@item opentelemetry/src/baggage.rs const MAX_KEY_VALUE_PAIRS
//@item opentelemetry/src/baggage.rs const MAX_LEN_OF_ALL_PAIRS
//@item opentelemetry/src/baggage.rs const INVALID_ASCII_KEY_CHARS
//@item opentelemetry/src/baggage.rs struct Baggage

spec fn wf_of(m: Pairs, kv_content_len: usize) -> bool {
    &&& m.dom().len() <= 64
    &&& total(m) <= 8192
    &&& kv_content_len == total(m)
    &&& forall|k: Key| m.dom().contains(k) ==> key_ok(#[trigger] kbytes(k))
}
proof fn table(b: u8)
    ensures 33 <= b <= 126 ==> (INVALID_ASCII_KEY_CHARS@.contains(b) <==> !tchar(b))
{
    let t = INVALID_ASCII_KEY_CHARS@;
    assert(t.len() == 17);
    if 33 <= b <= 126 && !tchar(b) {
        assert(t[0] == b || t[1] == b || t[2] == b || t[3] == b || t[4] == b || t[5] == b || t[6] == b || t[7] == b || t[8] == b || t[9] == b
            || t[10] == b || t[11] == b || t[12] == b || t[13] == b || t[14] == b || t[15] == b || t[16] == b);
    }
}

/// an insertion is accepted if the limits and the key rule still hold afterwards
spec fn accepted(m: Pairs, k: Key, v: (StringValue, BaggageMetadata)) -> bool {
    total(m.insert(k, v)) <= 8192 && (m.dom().contains(k) || key_ok(kbytes(k)) && m.dom().len() < 64)
}
spec fn put(m: Pairs, k: Key, v: (StringValue, BaggageMetadata)) -> Pairs { if accepted(m, k, v) { m.insert(k, v) } else { m } }
spec fn put_result(m: Pairs, k: Key, v: (StringValue, BaggageMetadata)) -> Option<(StringValue, BaggageMetadata)> {
    if accepted(m, k, v) && m.dom().contains(k) { Some(m[k]) } else { None }
}
/// the texts of one entry fit in memory together
spec fn small(k: Key, v: (StringValue, BaggageMetadata)) -> bool {
    kbytes(k).len() <= usize::MAX / 8 && vbytes(v.0).len() <= usize::MAX / 8 && mbytes(v.1).len() <= usize::MAX / 8
}
type Item = (Key, (StringValue, BaggageMetadata));
/// the entries put in one after the other
spec fn filled(items: Seq<Item>) -> Pairs decreases items.len() {
    if items.len() == 0 { Map::empty() } else { put(filled(items.drop_last()), items.last().0, items.last().1) }
}
proof fn filled_next(items: Seq<Item>, n: int)
    requires 0 <= n < items.len()
    ensures filled(items.take(n + 1)) == put(filled(items.take(n)), items[n].0, items[n].1)
{ assert(items.take(n + 1).drop_last() =~= items.take(n)); }

impl Baggage {
    spec fn pairs(&self) -> Pairs { self.inner@ }
    /// the data-structure invariant: both limits hold and the running length is exact
    spec fn wf(&self) -> bool { wf_of(self.pairs(), self.kv_content_len) }

//@fn opentelemetry/src/baggage.rs impl Baggage :: fn new
//@ret r
//@contract
    ensures r.wf(), r.pairs() == Map::<Key, (StringValue, BaggageMetadata)>::empty(),
//@endfn

//@fn opentelemetry/src/baggage.rs impl Baggage :: fn insert_with_metadata
//@ret r
//@subst <K, V, S> ~>
//@subst key: K, value: V, metadata: S, ~> key: Key, value: StringValue, metadata: BaggageMetadata,
//@subst where K: Into<Key>, V: Into<StringValue>, S: Into<BaggageMetadata>, ~>
//@subst let (key, value, metadata) = (key.into(), value.into(), metadata.into()); ~>
//@contract
    requires old(self).wf(), small(key, (value, metadata)),
    ensures
        // refused insertions leave every entry as it was; accepted ones set exactly that entry
        final(self).pairs() == put(old(self).pairs(), key, (value, metadata)),
        r == put_result(old(self).pairs(), key, (value, metadata)),
        // and the invariant holds of the new contents
        wf_of(put(old(self).pairs(), key, (value, metadata)), final(self).kv_content_len),
//@start
    broadcast use group_hash_axioms, key_is_a_hash_key;
    proof { total_insert(self.pairs(), key, (value, metadata)); }
//@endfn

//@fn opentelemetry/src/baggage.rs impl Baggage :: fn remove
//@ret r
//@subst <K: AsRef<str>> ~>
//@subst key: K ~> key: &Key
//@subst let key = key.as_ref(); ~>
//@subst key_value_metadata_bytes_size(key, ~> key_value_metadata_bytes_size(key.as_str(),
//@contract
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).pairs() == old(self).pairs().remove(*key),
        r == (if old(self).pairs().dom().contains(*key) { Some(old(self).pairs()[*key]) } else { None }),
//@start
    broadcast use group_hash_axioms, key_is_a_hash_key;
    proof { if self.pairs().dom().contains(*key) { total_remove(self.pairs(), *key); } else { assert(self.pairs().remove(*key) =~= self.pairs()); } }
//@endfn

//@fn opentelemetry/src/baggage.rs impl Baggage :: fn len
//@ret r
//@contract
    ensures r == self.pairs().dom().len(),
//@start
    broadcast use group_hash_axioms, key_is_a_hash_key;
//@endfn

//@fn opentelemetry/src/baggage.rs impl Baggage :: fn get
//@ret r
//@subst <K: AsRef<str>> ~>
//@subst key: K ~> key: &Key
//@subst self.inner.get($k.as_ref()).map(|(value, _metadata)| value) ~> match self.inner.get($k) { Some(pair) => Some(&pair.0), None => None }
//@contract
    ensures match r { Some(v) => self.pairs().dom().contains(*key) && *v == self.pairs()[*key].0, None => !self.pairs().dom().contains(*key) },
//@start
    broadcast use group_hash_axioms, key_is_a_hash_key;
//@endfn

//@fn opentelemetry/src/baggage.rs impl Baggage :: fn get_with_metadata
//@ret r
//@subst <K: AsRef<str>> ~>
//@subst key: K ~> key: &Key
//@subst self.inner.get($k.as_ref()) ~> self.inner.get($k)
//@contract
    ensures match r { Some(v) => self.pairs().dom().contains(*key) && *v == self.pairs()[*key], None => !self.pairs().dom().contains(*key) },
//@start
    broadcast use group_hash_axioms, key_is_a_hash_key;
//@endfn

//@fn opentelemetry/src/baggage.rs impl Baggage :: fn insert
//@ret r
//@subst <K, V> ~>
//@subst key: K, value: V ~> key: Key, value: StringValue
//@subst where K: Into<Key>, V: Into<StringValue>, ~>
//@subst self.insert_with_metadata($$a).map(|pair| pair.0) ~> match self.insert_with_metadata($$a) { Some(pair) => Some(pair.0), None => None }
//@contract
    requires old(self).wf(), small(key, (value, no_metadata())),
    ensures
        final(self).wf(),
        final(self).pairs() == put(old(self).pairs(), key, (value, no_metadata())),
        r == (match put_result(old(self).pairs(), key, (value, no_metadata())) { Some(p) => Some(p.0), None => None }),
//@endfn

//@fn opentelemetry/src/baggage.rs impl Baggage :: fn is_empty
//@ret r
//@contract
    ensures r == (self.pairs().dom().len() == 0),
//@start
    broadcast use group_hash_axioms, key_is_a_hash_key;
//@endfn

    // #[derive(Default)]: every field's default
    #[verifier::external_body]
    fn default() -> (r: Baggage) ensures r.wf(), r.pairs() == Map::<Key, (StringValue, BaggageMetadata)>::empty() { unimplemented!() }

// ---- from sequences of entries: each is put in, in order
//@fn opentelemetry/src/baggage.rs impl FromIterator<(Key, (StringValue, BaggageMetadata))> for Baggage :: fn from_iter
//@sig fn from_pairs(iter: Vec<Item>) -> Baggage
//@ret r
//@subst for (key, (value, metadata)) in iter.into_iter() { ~> let mut source = Source::of(iter); while let Some(item) = source.next() { let (key, (value, metadata)) = item;
//@contract
    requires forall|i: int| 0 <= i < iter@.len() ==> small((#[trigger] iter@[i]).0, iter@[i].1),
    ensures r.wf(), r.pairs() == filled(iter@),
//@beforeloop 0
    let ghost all = iter@;
//@loop 0
    invariant
        baggage.wf(), source.all@ == all, 0 <= source.n@ <= all.len(), baggage.pairs() == filled(all.take(source.n@)),
        forall|i: int| 0 <= i < all.len() ==> small((#[trigger] all[i]).0, all[i].1),
    ensures source.n@ == all.len(),
    decreases all.len() - source.n@,
//@inloop 0
    proof { filled_next(all, source.n@ - 1); }
//@afterloop 0
    proof { assert(all.take(all.len() as int) =~= all); }
//@endfn

//@fn opentelemetry/src/baggage.rs impl FromIterator<KeyValue> for Baggage :: fn from_iter
//@sig fn from_key_values(iter: Vec<KeyValue>) -> Baggage
//@ret r
//@subst for kv in iter.into_iter() { ~> let mut source = Source::of(iter); while let Some(kv) = source.next() {
//@subst baggage.insert(kv.key, kv.value) ~> baggage.insert(kv.key, kv.value.into_string())
//@contract
    requires forall|i: int| 0 <= i < iter@.len() ==> small((#[trigger] iter@[i]).key, (iter@[i].value.text(), no_metadata())),
    ensures r.wf(), r.pairs() == filled(plain(iter@)),
//@beforeloop 0
    let ghost all = iter@;
//@loop 0
    invariant
        baggage.wf(), source.all@ == all, 0 <= source.n@ <= all.len(), baggage.pairs() == filled(plain(all).take(source.n@)),
        forall|i: int| 0 <= i < all.len() ==> small((#[trigger] all[i]).key, (all[i].value.text(), no_metadata())),
    ensures source.n@ == all.len(),
    decreases all.len() - source.n@,
//@inloop 0
    proof { filled_next(plain(all), source.n@ - 1); assert(small(all[source.n@ - 1].key, (all[source.n@ - 1].value.text(), no_metadata()))); }
//@afterloop 0
    proof { assert(plain(all).take(all.len() as int) =~= plain(all)); }
//@endfn

//@fn opentelemetry/src/baggage.rs impl FromIterator<KeyValueMetadata> for Baggage :: fn from_iter
//@sig fn from_members(iter: Vec<KeyValueMetadata>) -> Baggage
//@ret r
//@subst for kvm in iter.into_iter() { ~> let mut source = Source::of(iter); while let Some(kvm) = source.next() {
//@contract
    requires forall|i: int| 0 <= i < iter@.len() ==> small((#[trigger] iter@[i]).key, (iter@[i].value, iter@[i].metadata)),
    ensures r.wf(), r.pairs() == filled(members(iter@)),
//@beforeloop 0
    let ghost all = iter@;
//@loop 0
    invariant
        baggage.wf(), source.all@ == all, 0 <= source.n@ <= all.len(), baggage.pairs() == filled(members(all).take(source.n@)),
        forall|i: int| 0 <= i < all.len() ==> small((#[trigger] all[i]).key, (all[i].value, all[i].metadata)),
    ensures source.n@ == all.len(),
    decreases all.len() - source.n@,
//@inloop 0
    proof { filled_next(members(all), source.n@ - 1); assert(small(all[source.n@ - 1].key, (all[source.n@ - 1].value, all[source.n@ - 1].metadata))); }
//@afterloop 0
    proof { assert(members(all).take(all.len() as int) =~= members(all)); }
//@endfn

// Baggage::from(list): every element through its conversion to KeyValueMetadata, then as above (instantiated for KeyValue)
//@fn opentelemetry/src/baggage.rs impl From<I> for Baggage :: fn from
//@sig fn from_list(value: Vec<KeyValue>) -> Baggage
//@ret r
//@subst value.into_iter().map(Into::into).collect() ~> { let mut list: Vec<KeyValueMetadata> = Vec::new(); let mut source = Source::of(value); while let Some(kv) = source.next() { list.push(KeyValueMetadata::from_kv(kv)); } Baggage::from_members(list) }
//@contract
    requires forall|i: int| 0 <= i < value@.len() ==> small((#[trigger] value@[i]).key, (value@[i].value.text(), no_metadata())),
    ensures r.wf(), r.pairs() == filled(plain(value@)),
//@beforeloop 0
    let ghost all = value@;
//@loop 0
    invariant
        source.all@ == all, 0 <= source.n@ <= all.len(), list@.len() == source.n@,
        forall|i: int| 0 <= i < source.n@ ==> (#[trigger] list@[i]).entry() == plain(all)[i],
    ensures source.n@ == all.len(),
    decreases all.len() - source.n@,
//@afterloop 0
    proof {
        assert(members(list@) =~= plain(all));
        assert forall|i: int| 0 <= i < list@.len() implies small((#[trigger] list@[i]).key, (list@[i].value, list@[i].metadata)) by { assert(list@[i].entry() == plain(all)[i]); assert(small(all[i].key, (all[i].value.text(), no_metadata()))); }
    }
//@endfn

//@fn opentelemetry/src/baggage.rs impl Baggage :: fn is_key_valid
//@ret r
//@subst $k.iter().all(|b| $$x) ~> { let mut it = $k.iter(); proof { assert(forall|i: int| 0 <= i < $k@.len() ==> #[trigger] $k@[i] == *it.remaining()[i]); } it.all(|b: &u8| -> (r: bool) ensures r == tchar(*b) { proof { table(*b); } $$x }) }
//@subst INVALID_ASCII_KEY_CHARS.contains ~> INVALID_ASCII_KEY_CHARS.as_slice().contains
//@contract
    ensures r == key_ok(key@),
//@endfn
}

//@fn opentelemetry/src/baggage.rs fn key_value_metadata_bytes_size
//@ret r
//@subst $x.len() ~> $x.as_bytes().len()
//@contract
    requires key.spec_bytes().len() + value.spec_bytes().len() + metadata.spec_bytes().len() <= usize::MAX,
    ensures r == key.spec_bytes().len() + value.spec_bytes().len() + metadata.spec_bytes().len(),
//@endfn

// ---- sources of entries
/// an iterator handing out its elements one by one (Iterator::next of whatever was passed, eagerly collected)
struct Source<T> { v: Vec<T>, all: Ghost<Seq<T>>, n: Ghost<int> }
impl<T> Source<T> {
    #[verifier::external_body]
    fn of(v: Vec<T>) -> (r: Source<T>) ensures r.all@ == v@, r.n@ == 0 { unimplemented!() }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>)
        requires 0 <= old(self).n@ <= old(self).all@.len()
        ensures
            final(self).all@ == old(self).all@,
            old(self).n@ < old(self).all@.len() ==> r == Some(old(self).all@[old(self).n@]) && final(self).n@ == old(self).n@ + 1,
            old(self).n@ >= old(self).all@.len() ==> r.is_none() && final(self).n@ == old(self).n@,
    { unimplemented!() }
}
// Value -> StringValue: the text of the value (unit common.rs)
#[verifier::external_body]
struct Value { _p: u8 }
impl Value {
    uninterp spec fn text(&self) -> StringValue;
    #[verifier::external_body]
    fn into_string(self) -> (r: StringValue) ensures r == self.text() { unimplemented!() }
}
struct KeyValue { key: Key, value: Value }
//@item opentelemetry/src/baggage.rs struct KeyValueMetadata
impl KeyValueMetadata {
    spec fn entry(&self) -> Item { (self.key, (self.value, self.metadata)) }
//@fn opentelemetry/src/baggage.rs impl From<KeyValue> for KeyValueMetadata :: fn from
//@sig fn from_kv(kv: KeyValue) -> KeyValueMetadata
//@ret r
//@subst kv.value.into() ~> kv.value.into_string()
//@contract
    ensures r.entry() == (kv.key, (kv.value.text(), no_metadata())),
//@endfn
//@fn opentelemetry/src/baggage.rs impl KeyValueMetadata :: fn new
//@sig fn new(key: Key, value: StringValue, metadata: BaggageMetadata) -> KeyValueMetadata
//@ret r
//@subst key.into() ~> key
//@subst value.into() ~> value
//@subst metadata.into() ~> metadata
//@contract
    ensures r.entry() == (key, (value, metadata)),
//@endfn
}
spec fn plain(v: Seq<KeyValue>) -> Seq<Item> { v.map_values(|kv: KeyValue| (kv.key, (kv.value.text(), no_metadata()))) }
spec fn members(v: Seq<KeyValueMetadata>) -> Seq<Item> { v.map_values(|k: KeyValueMetadata| k.entry()) }
/// a baggage made of entries never holds more than the limits allow, whatever the entries are
proof fn filled_is_bounded(items: Seq<Item>)
    ensures filled(items).dom().len() <= 64, total(filled(items)) <= 8192
    decreases items.len()
{
    if items.len() > 0 {
        filled_is_bounded(items.drop_last());
        total_insert(filled(items.drop_last()), items.last().0, items.last().1);
    } else { assert(filled(items).dom() =~= Set::empty()); }
}

// ---- the printed form
spec fn hex(n: u8) -> u8 { if n < 10 { (48 + n) as u8 } else { (55 + n) as u8 } }
/// RFC 3986 unreserved characters stay, everything else becomes %XX
spec fn unreserved(b: u8) -> bool { 48 <= b <= 57 || 65 <= b <= 90 || 97 <= b <= 122 || b == 0x2d || b == 0x2e || b == 0x5f || b == 0x7e }
spec fn esc(b: u8) -> Seq<u8> { if unreserved(b) { seq![b] } else { seq![0x25u8, hex(b / 16), hex((b % 16) as u8)] } }
spec fn escaped(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { escaped(s.drop_last()) + esc(s.last()) } }
// trusted: String building (push of an ASCII char, push_str) and core::fmt's {:02X}
struct Text { t: Ghost<Seq<u8>> }
impl Text {
    #[verifier::external_body]
    fn with_capacity(n: usize) -> (r: Text) ensures r.t@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn push_byte(&mut self, b: u8) ensures b < 128 ==> final(self).t@ == old(self).t@ + seq![b] { unimplemented!() }
    #[verifier::external_body]
    fn push_str(&mut self, s: &str) ensures final(self).t@ == old(self).t@ + s.spec_bytes() { unimplemented!() }
    #[verifier::external_body]
    fn push_hex(&mut self, b: u8) ensures final(self).t@ == old(self).t@ + seq![0x25u8, hex(b / 16), hex((b % 16) as u8)] { unimplemented!() }
}
//@fn opentelemetry/src/baggage.rs fn encode
//@sig fn encode(s: &str) -> Text
//@ret r
//@subst String::with_capacity($$n) ~> Text::with_capacity(0)
//@subst for byte in s.as_bytes() { ~> let bytes = s.as_bytes(); let mut n: usize = 0; while n < bytes.len() { let byte = &bytes[n]; n = n + 1;
//@subst $t.push($$b as char) ~> $t.push_byte($$b)
//@subst $t.push_str(&format!("%{:02X}", $b)) ~> $t.push_hex(*$b)
//@contract
    ensures r.t@ == escaped(s.spec_bytes()),
//@start
    proof { reveal_strlit("%20"); assert("%20"@.len() == 3); is_ascii_spec_bytes("%20"); assert("%20".spec_bytes() =~= seq![0x25u8, 0x32, 0x30]); }
//@loop 0
    invariant
        n <= bytes@.len(), bytes@ == s.spec_bytes(), encoded_string.t@ == escaped(bytes@.take(n as int)),
        "%20".spec_bytes() == seq![0x25u8, 0x32, 0x30],
    decreases bytes@.len() - n,
//@inloop 0
    proof { assert(bytes@.take(n + 1).drop_last() =~= bytes@.take(n as int)); assert(bytes@.take(n + 1).last() == bytes@[n as int]); }
//@afterloop 0
    proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
//@endfn

/// core::fmt::Formatter: text is appended until the sink fails, which ends the printing
struct Formatter { t: Ghost<Seq<u8>> }
impl Formatter {
    #[verifier::external_body]
    fn put(&mut self, s: Seq2) -> (r: Result<(), FmtError>) ensures r.is_ok() ==> final(self).t@ == old(self).t@ + s.b@ { unimplemented!() }
}
struct FmtError;
struct Seq2 { b: Ghost<Seq<u8>> }
#[verifier::external_body]
fn pair_piece(k: &Key, v: Text) -> (r: Seq2) ensures r.b@ == kbytes(*k) + seq![0x3du8] + v.t@ { unimplemented!() }
#[verifier::external_body]
fn meta_piece(m: &BaggageMetadata) -> (r: Seq2) ensures r.b@ == seq![0x3bu8] + mbytes(*m) { unimplemented!() }
#[verifier::external_body]
fn comma_piece() -> (r: Seq2) ensures r.b@ == seq![0x2cu8] { unimplemented!() }
#[verifier::external_body]
fn empty_text(s: &str) -> (r: bool) ensures r == (s.spec_bytes().len() == 0) { unimplemented!() }
/// the entries in the order the baggage's iterator gives them: each entry once
#[verifier::external_body]
fn listed(b: &Baggage) -> (r: Vec<(&Key, &(StringValue, BaggageMetadata))>)
    ensures r@.len() == b.pairs().dom().len(),
        forall|i: int| 0 <= i < r@.len() ==> b.pairs().dom().contains(*(#[trigger] r@[i]).0) && *r@[i].1 == b.pairs()[*r@[i].0],
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> *(#[trigger] r@[i]).0 != *(#[trigger] r@[j]).0,
{ unimplemented!() }
spec fn entry_text(e: (&Key, &(StringValue, BaggageMetadata))) -> Seq<u8> {
    kbytes(*e.0) + seq![0x3du8] + escaped(vbytes(e.1.0)) + (if mbytes(e.1.1).len() == 0 { Seq::empty() } else { seq![0x3bu8] + mbytes(e.1.1) })
}
spec fn list_text(l: Seq<(&Key, &(StringValue, BaggageMetadata))>) -> Seq<u8> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else if l.len() == 1 { entry_text(l[0]) } else { list_text(l.drop_last()) + seq![0x2cu8] + entry_text(l.last()) }
}
spec fn printed(b: &Baggage, t: Seq<u8>) -> bool {
    exists|l: Seq<(&Key, &(StringValue, BaggageMetadata))>| #[trigger] list_text(l) == t && l.len() == b.pairs().dom().len()
        && (forall|i: int| 0 <= i < l.len() ==> b.pairs().dom().contains(*(#[trigger] l[i]).0) && *l[i].1 == b.pairs()[*l[i].0])
        && (forall|i: int, j: int| 0 <= i < j < l.len() ==> *(#[trigger] l[i]).0 != *(#[trigger] l[j]).0)
}
impl Baggage {
//@fn opentelemetry/src/baggage.rs impl fmt::Display for Baggage :: fn fmt
//@sig fn fmt(&self, f: &mut Formatter) -> Result<(), FmtError>
//@ret r
//@subst for (i, (k, v)) in self.into_iter().enumerate() { ~> let list = listed(self); let mut n: usize = 0; while n < list.len() { let i = n; let (k, v) = list[n]; n = n + 1;
//@subst write!($f, "{}={}", $$a, $$b)? ~> $f.put(pair_piece($$a, $$b))?
//@subst write!($f, ";{}", $$a)? ~> $f.put(meta_piece(&$$a))?
//@subst write!($f, ",")? ~> $f.put(comma_piece())?
//@subst v.1.as_str().is_empty() ~> empty_text(v.1.as_str())
//@contract
    ensures r.is_ok() ==> exists|t: Seq<u8>| final(f).t@ == old(f).t@ + t && #[trigger] printed(self, t),
//@start
    broadcast use group_hash_axioms, key_is_a_hash_key;
    let ghost t0 = f.t@;
//@loop 0
    invariant
        n <= list@.len(), list@.len() == self.pairs().dom().len(), t0 == old(f).t@,
        forall|i: int| 0 <= i < list@.len() ==> self.pairs().dom().contains(*(#[trigger] list@[i]).0) && *list@[i].1 == self.pairs()[*list@[i].0],
        forall|i: int, j: int| 0 <= i < j < list@.len() ==> *(#[trigger] list@[i]).0 != *(#[trigger] list@[j]).0,
        f.t@ == t0 + list_text(list@.take(n as int)) + (if 0 < n < list@.len() { seq![0x2cu8] } else { Seq::empty() }),
    decreases list@.len() - n,
//@inloop 0
    broadcast use group_hash_axioms, key_is_a_hash_key;
    let ghost tb = f.t@;
    proof {
        assert(list@.take(n + 1).drop_last() =~= list@.take(n as int)); assert(list@.take(n + 1).last() == list@[n as int]);
    }
//@endinloop 0
    proof {
        let l = list@.take(n as int);
        let e = entry_text(list@[n - 1]);
        assert(l.last() == list@[n - 1]);
        if n == 1 { assert(l[0] == list@[0]); assert(list@.take(0) =~= Seq::empty()); assert(tb =~= t0); assert(list_text(l) == e); }
        else { assert(list_text(l) == list_text(l.drop_last()) + seq![0x2cu8] + e); }
        assert(f.t@ =~= t0 + list_text(l) + (if n < list@.len() { seq![0x2cu8] } else { Seq::empty() }));
    }
//@afterloop 0
    proof { assert(list@.take(list@.len() as int) =~= list@); assert(f.t@ =~= t0 + list_text(list@)); assert(printed(self, list_text(list@))); }
//@endfn
}

// ---- baggage in contexts: one typed entry of the context (unit context_values.rs: with_value and get by type)
struct BaggageContextValue(Baggage);
struct Context { rest: Ghost<int>, bag: Option<BaggageContextValue> }
impl Context {
    #[verifier::external_body]
    fn with_value(&self, v: BaggageContextValue) -> (r: Context) ensures r.rest == self.rest, r.bag == Some(v) { unimplemented!() }
    fn get(&self) -> (r: Option<&BaggageContextValue>) ensures match r { Some(b) => self.bag == Some(*b), None => self.bag.is_none() }
    { self.bag.as_ref() }
}
#[verifier::external_body]
fn get_default_baggage() -> (r: &'static Baggage) ensures r.wf(), r.pairs() == Map::<Key, (StringValue, BaggageMetadata)>::empty() { unimplemented!() }
impl Context {
//@fn opentelemetry/src/baggage.rs impl BaggageExt for Context :: fn with_baggage
//@sig fn with_baggage(&self, baggage: Vec<KeyValue>) -> Context
//@ret r
//@subst baggage.into() ~> Baggage::from_list(baggage)
//@contract
    requires forall|i: int| 0 <= i < baggage@.len() ==> small((#[trigger] baggage@[i]).key, (baggage@[i].value.text(), no_metadata())),
    ensures r.rest == self.rest, r.bag.is_some(), (r.bag->0).0.pairs() == filled(plain(baggage@)),
//@endfn
//@fn opentelemetry/src/baggage.rs impl BaggageExt for Context :: fn with_cleared_baggage
//@sig fn with_cleared_baggage(&self) -> Context
//@ret r
//@contract
    ensures r.rest == self.rest, r.bag.is_some(), (r.bag->0).0.pairs() == Map::<Key, (StringValue, BaggageMetadata)>::empty(),
//@endfn
//@fn opentelemetry/src/baggage.rs impl BaggageExt for Context :: fn baggage
//@sig fn baggage(&self) -> &Baggage
//@ret r
//@subst self.get::<BaggageContextValue>().map_or($$d, |b| $$e) ~> match self.get() { Some(b) => $$e, None => $$d }
//@contract
    ensures
        self.bag.is_some() ==> *r == (self.bag->0).0,
        self.bag.is_none() ==> r.pairs() == Map::<Key, (StringValue, BaggageMetadata)>::empty(),
//@endfn
}

} // verus!
fn main() {}

// Unit: exponential histograms (opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs): at every moment the buckets hold,
// for the current scale, exactly the measurements recorded, and never more than max_size of them.
use vstd::prelude::*;
verus! {

#[verifier::external_body] #[derive(Clone, Copy)] struct Num { _p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct F { _p: u8 }
uninterp spec fn plus(a: Num, b: Num) -> Num;
uninterp spec fn less(a: Num, b: Num) -> bool;
uninterp spec fn zero() -> Num;
uninterp spec fn max_num() -> Num;
uninterp spec fn min_num() -> Num;
uninterp spec fn float(a: Num) -> F;
uninterp spec fn fabs(a: F) -> F;
uninterp spec fn is_zero(a: F) -> bool;
uninterp spec fn is_half(a: F) -> bool;
uninterp spec fn frac_of(v: F) -> F;
uninterp spec fn exp_of(v: F) -> int;
/// (ln(frac) * log2(e) * 2^s) truncated, for 0.5 <= frac < 1
uninterp spec fn lnp(frac: F, s: int) -> int;
#[verifier::external_body] fn num_add(a: Num, b: Num) -> (r: Num) ensures r == plus(a, b) { unimplemented!() }
#[verifier::external_body] fn num_lt(a: &Num, b: &Num) -> (r: bool) ensures r == less(*a, *b) { unimplemented!() }
#[verifier::external_body] fn num_zero() -> (r: Num) ensures r == zero() { unimplemented!() }
#[verifier::external_body] fn num_max() -> (r: Num) ensures r == max_num() { unimplemented!() }
#[verifier::external_body] fn num_min() -> (r: Num) ensures r == min_num() { unimplemented!() }
impl Num { #[verifier::external_body] fn into_float(self) -> (r: F) ensures r == float(self) { unimplemented!() } }
impl F {
    #[verifier::external_body] fn abs(self) -> (r: F) ensures r == fabs(self) { unimplemented!() }
}
#[verifier::external_body] fn f_is_zero(a: F) -> (r: bool) ensures r == is_zero(a) { unimplemented!() }
#[verifier::external_body] fn f_is_half(a: F) -> (r: bool) ensures r == is_half(a) { unimplemented!() }
// frexp: checked bit by bit for every f64 by the Kani unit frexp.rs
#[verifier::external_body] fn frexp(v: F) -> (r: (F, i32)) ensures r.0 == frac_of(v), r.1 == exp_of(v), -1100 <= exp_of(v) <= 1100 { unimplemented!() }
struct Factor { k: u8 }
/// the factor for scale k is log2(e) * 2^k (table checked below); ln(frac) times it, truncated: multiplying by a power of
/// two is exact, so halving the scale halves the product
#[verifier::external_body] fn ln_scaled(frac: F, x: &Factor) -> (r: i32) ensures r == lnp(frac, x.k as int), -p2(x.k as nat) <= r <= 0 { unimplemented!() }
#[verifier::external_body] broadcast proof fn lnp_halves(frac: F, s: int) requires s >= 1 ensures #[trigger] lnp(frac, s - 1) == (lnp(frac, s) + 1) / 2 { }
#[verifier::external_body] broadcast proof fn lnp_base(frac: F) ensures #![trigger lnp(frac, 0)] lnp(frac, 0) == (if is_half(frac) { -1int } else { 0 }) { }
#[verifier::external_body] fn scale_factors() -> (r: &'static [Factor; 21]) ensures forall|i: int| 0 <= i < 21 ==> (#[trigger] r@[i]).k == i { unimplemented!() }
//@fn opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs fn scale_factors
//@closure ||
//@sig fn factor_table() -> (r: [Factor; 21])
//@subst LOG2_E * 2f64.powi($k) ~> Factor { k: $k }
//@contract
    ensures forall|i: int| 0 <= i < 21 ==> (#[trigger] r@[i]).k == i,
//@endfn

spec fn p2(n: nat) -> int decreases n { if n == 0 { 1 } else { 2 * p2((n - 1) as nat) } }
proof fn p2_pos(n: nat) ensures p2(n) >= 1, decreases n { if n > 0 { p2_pos((n - 1) as nat); } }
proof fn p2_mono(a: nat, b: nat) requires a <= b ensures p2(a) <= p2(b), decreases b { if a < b { p2_pos((b - 1) as nat); p2_mono(a, (b - 1) as nat); } }
proof fn p2_add(a: nat, b: nat) ensures p2(a + b) == p2(a) * p2(b), decreases a
{ if a > 0 { p2_add((a - 1) as nat, b); assert(p2(a + b) == 2 * p2((a - 1 + b) as nat)); assert(2 * (p2((a - 1) as nat) * p2(b)) == (2 * p2((a - 1) as nat)) * p2(b)) by (nonlinear_arith); } }
proof fn p2_vals() ensures p2(10) == 1024, p2(20) == 0x10_0000, p2(30) == 0x4000_0000, p2(31) == 0x8000_0000
{ reveal_with_fuel(p2, 11); assert(p2(10) == 1024); p2_add(10, 10); p2_add(20, 10); p2_add(30, 1); assert(p2(1) == 2); }
/// a >> d
spec fn sh(a: int, d: int) -> int { a / p2(d as nat) }
proof fn sh_sh(a: int, d: int, e: int) requires d >= 0, e >= 0, ensures sh(sh(a, d), e) == sh(a, d + e)
{ p2_pos(d as nat); p2_pos(e as nat); p2_add(d as nat, e as nat); 
    let m = p2(d as nat); let n = p2(e as nat); let k = a / m; let q = k / n; let r1 = a % m; let r2 = k % n;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, m);
    vstd::arithmetic::div_mod::lemma_mod_bound(a, m);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, n);
    vstd::arithmetic::div_mod::lemma_mod_bound(k, n);
    assert(a == q * (m * n) + (m * r2 + r1)) by (nonlinear_arith) requires a == m * k + r1, k == n * q + r2;
    assert(0 <= m * r2 + r1 < m * n) by (nonlinear_arith) requires 0 <= r2 < n, 0 <= r1 < m, m >= 1, n >= 1;
    assert(m * n >= 1) by (nonlinear_arith) requires m >= 1, n >= 1;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a, m * n, q, m * r2 + r1);
}
proof fn sh_0(a: int) ensures sh(a, 0) == a { assert(p2(0) == 1); assert(a / 1 == a); }
proof fn sh_mono(a: int, b: int, d: int) requires a <= b, d >= 0 ensures sh(a, d) <= sh(b, d) { p2_pos(d as nat); vstd::arithmetic::div_mod::lemma_div_is_ordered(a, b, p2(d as nat)); }
proof fn sh_range(a: int, d: int) requires d >= 0 ensures a >= 0 ==> 0 <= sh(a, d) <= a, a < 0 ==> a <= sh(a, d) < 0
{
    let m = p2(d as nat); p2_pos(d as nat);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, m);
    vstd::arithmetic::div_mod::lemma_mod_bound(a, m);
    let q = a / m;
    assert(a == m * q + a % m);
    if a >= 0 { assert(q >= 0) by (nonlinear_arith) requires m >= 1, m * q + a % m >= 0, a % m < m; assert(m * q >= q) by (nonlinear_arith) requires m >= 1, q >= 0; }
    else { assert(q < 0) by (nonlinear_arith) requires m >= 1, m * q + a % m < 0, a % m >= 0; assert(m * q <= q - (m - 1)) by (nonlinear_arith) requires m >= 1, q <= -1; }
}
#[verifier::external_body] fn shr(a: i32, d: u32) -> (r: i32) requires d < 32 ensures r == sh(a as int, d as int) { unimplemented!() }
#[verifier::external_body] fn shr8(a: i32, d: i8) -> (r: i32) requires 0 <= d < 32 ensures r == sh(a as int, d as int) { unimplemented!() }
#[verifier::external_body] fn shl8(a: i32, d: i8) -> (r: i32) requires 0 <= d < 32, i32::MIN <= a * p2(d as nat) <= i32::MAX ensures r == a * p2(d as nat) { unimplemented!() }
// 1 << d, and Rust's remainder (sign of the dividend)
#[verifier::external_body] fn one_shl(d: u32) -> (r: i32) requires d < 31 ensures r == p2(d as nat) { unimplemented!() }
spec fn trem(a: int, b: int) -> int { if a >= 0 { a % b } else { -((-a) % b) } }
#[verifier::external_body] fn rem(a: i32, b: i32) -> (r: i32) requires b > 0 ensures r == trem(a as int, b as int) { unimplemented!() }
#[verifier::external_body] fn tdiv(a: i32, b: i32) -> (r: i32) requires b > 0, a >= 0 ensures r == a as int / b as int { unimplemented!() }
proof fn rem_is_mod(a: int, b: int) requires b > 0, ensures trem(trem(a, b) + b, b) == a % b, 0 <= trem(a, b) + b
{
    if a >= 0 {
        vstd::arithmetic::div_mod::lemma_mod_bound(a, b);
        vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(a % b, b);
        vstd::arithmetic::div_mod::lemma_mod_twice(a, b);
        assert((b + a % b) % b == a % b);
    } else {
        let m = (-a) % b;
        vstd::arithmetic::div_mod::lemma_mod_bound(-a, b);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(-a, b);
        let q = (-a) / b;
        assert(a == (-q) * b - m) by (nonlinear_arith) requires -a == b * q + m;
        if m == 0 {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a, b, -q, 0);
            assert((b + 0) % b == 0) by { vstd::arithmetic::div_mod::lemma_mod_self_0(b); }
        } else {
            assert(a == (-q - 1) * b + (b - m)) by (nonlinear_arith) requires a == (-q) * b - m;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a, b, -q - 1, b - m);
            vstd::arithmetic::div_mod::lemma_small_mod((b - m) as nat, b as nat);
        }
    }
}

// ---- the bucket a value belongs to ----
spec fn bin_of(v: F, s: int) -> int {
    if s <= 0 { sh(exp_of(v) - (if is_half(frac_of(v)) { 2int } else { 1 }), -s) } else { exp_of(v) * p2(s as nat) + lnp(frac_of(v), s) - 1 }
}
/// buckets of a smaller scale are unions of buckets of a larger one
proof fn coarser(v: F, s: int, d: int)
    requires d >= 0,
    ensures bin_of(v, s - d) == sh(bin_of(v, s), d),
    decreases d
{
    if d == 0 { sh_0(bin_of(v, s)); }
    else {
        coarser(v, s, d - 1);
        let t = s - (d - 1);
        sh_sh(bin_of(v, s), d - 1, 1);
        assert(p2(1) == 2) by { reveal_with_fuel(p2, 2); }
        assert(bin_of(v, t - 1) == sh(bin_of(v, t), 1)) by {
            if t <= 0 { sh_sh(exp_of(v) - (if is_half(frac_of(v)) { 2int } else { 1 }), -t, 1); }
            else {
                broadcast use lnp_halves, lnp_base;
                let x = lnp(frac_of(v), t); let e = exp_of(v);
                assert(lnp(frac_of(v), t - 1) == (x + 1) / 2);
                let h = p2((t - 1) as nat);
                assert(p2(t as nat) == 2 * h);
                assert(e * (2 * h) == 2 * (e * h)) by (nonlinear_arith);
                let w = e * h;
                assert((2 * w + x - 1) / 2 == w + (x + 1) / 2 - 1);
                if t == 1 {
                    assert(h == 1);
                    assert(w == e) by (nonlinear_arith) requires w == e * h, h == 1;
                    assert(p2(0) == 1);
                }
            }
        }
    }
}
proof fn bin_range(v: F, s: int) requires -10 <= s <= 20, -1100 <= exp_of(v) <= 1100, lnp_ok(v, s) ensures -1200000000 <= bin_of(v, s) <= 1200000000
{
    p2_vals();
    if s <= 0 { sh_range(exp_of(v) - (if is_half(frac_of(v)) { 2int } else { 1 }), -s); }
    else { p2_mono(s as nat, 20); p2_pos(s as nat);
        let m = p2(s as nat); let e = exp_of(v);
        assert(-1100 * 0x10_0000 <= e * m <= 1100 * 0x10_0000) by (nonlinear_arith) requires 1 <= m <= 0x10_0000, -1100 <= e <= 1100; }
}
spec fn lnp_ok(v: F, s: int) -> bool { s > 0 ==> -p2(s as nat) <= lnp(frac_of(v), s) <= 0 }
// the same fact as ln_scaled's and frexp's postconditions
#[verifier::external_body] proof fn lnp_in_range(v: F, s: int) ensures lnp_ok(v, s), -1100 <= exp_of(v) <= 1100 { }

// ---- counting ----
spec fn cnt(b: Seq<int>, k: int) -> nat decreases b.len() { if b.len() == 0 { 0 } else { cnt(b.drop_last(), k) + (if b.last() == k { 1nat } else { 0 }) } }
proof fn cnt_push(b: Seq<int>, x: int, k: int) ensures cnt(b.push(x), k) == cnt(b, k) + (if x == k { 1nat } else { 0 }) { assert(b.push(x).drop_last() =~= b); }
proof fn cnt_le(b: Seq<int>, k: int) ensures cnt(b, k) <= b.len(), decreases b.len() { if b.len() > 0 { cnt_le(b.drop_last(), k); } }
spec fn shifted(b: Seq<int>, d: int) -> Seq<int> { b.map_values(|x: int| sh(x, d)) }

//@item opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs struct ExpoBuckets
impl ExpoBuckets {
    spec fn at(&self, k: int) -> int { if self.start_bin <= k < self.start_bin + self.counts@.len() { self.counts@[k - self.start_bin] as int } else { 0 } }
    /// holds exactly the bins `b`
    spec fn holds(&self, b: Seq<int>) -> bool { (forall|k: int| self.at(k) == #[trigger] cnt(b, k)) && (self.counts@.len() == 0 <==> b.len() == 0) }
    spec fn wf(&self) -> bool { -1200000000 <= self.start_bin && self.start_bin + self.counts@.len() <= 1200000001 && self.start_bin <= 1200000000 }
    spec fn lo(&self) -> int { self.start_bin as int }
    spec fn hi(&self) -> int { self.start_bin + self.counts@.len() - 1 }
}
#[verifier::external_body] fn zeros(n: usize) -> (r: Vec<u64>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == 0 { unimplemented!() }
#[verifier::external_body] fn copy_into(d: &mut Vec<u64>, at: usize, s: &Vec<u64>)
    requires at + s@.len() == old(d)@.len(),
    ensures final(d)@.len() == old(d)@.len(), forall|i: int| 0 <= i < final(d)@.len() ==> final(d)@[i] == (if i < at { old(d)@[i] } else { s@[i - at] }),
{ unimplemented!() }
#[verifier::external_body] fn cap_of(v: &Vec<u64>) -> (r: usize) ensures r >= v@.len() { unimplemented!() }
#[verifier::external_body] fn resize0(v: &mut Vec<u64>, n: usize)
    requires n >= old(v)@.len(),
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n ==> final(v)@[i] == (if i < old(v)@.len() { old(v)@[i] } else { 0 }),
{ unimplemented!() }
#[verifier::external_body] fn extend0(v: &mut Vec<u64>, n: usize)
    ensures final(v)@.len() == old(v)@.len() + n, forall|i: int| 0 <= i < final(v)@.len() ==> final(v)@[i] == (if i < old(v)@.len() { old(v)@[i] } else { 0 }),
{ unimplemented!() }
#[verifier::external_body] fn front(v: &Vec<u64>, n: usize) -> (r: Vec<u64>) requires n <= v@.len() ensures r@ == v@.take(n as int) { unimplemented!() }
spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
spec fn imax(a: int, b: int) -> int { if a > b { a } else { b } }
proof fn recorded_ok(o: ExpoBuckets, n: ExpoBuckets, bin: int)
    requires forall|k: int| #[trigger] n.at(k) == o.at(k) + (if k == bin { 1int } else { 0 }), n.counts@.len() > 0
    ensures forall|b: Seq<int>| #[trigger] o.holds(b) ==> n.holds(b.push(bin)),
{
    assert forall|b: Seq<int>| #[trigger] o.holds(b) implies n.holds(b.push(bin)) by {
        assert forall|k: int| n.at(k) == #[trigger] cnt(b.push(bin), k) by { cnt_push(b, bin, k); assert(o.at(k) == cnt(b, k)); }
    }
}
/// sum of the old slots that fall into new slot j
spec fn blk(c: Seq<u64>, off: int, st: int, n: int, j: int) -> int
    decreases n
{ if n <= 0 { 0 } else { blk(c, off, st, n - 1, j) + (if (n - 1 + off) / st == j { c[n - 1] as int } else { 0 }) } }
proof fn blk_none(c: Seq<u64>, off: int, st: int, n: int, j: int)
    requires 0 <= off < st, n <= c.len(), n <= 0 || j < 0 || j > (n - 1 + off) / st,
    ensures blk(c, off, st, n, j) == 0,
    decreases n
{
    if n > 0 {
        vstd::arithmetic::div_mod::lemma_div_is_ordered(0, n - 1 + off, st);
        assert(0int / st == 0) by { vstd::arithmetic::div_mod::lemma_div_basics(st); }
        vstd::arithmetic::div_mod::lemma_div_is_ordered(n - 2 + off, n - 1 + off, st); blk_none(c, off, st, n - 1, j);
    }
}
/// counting bins, by new slot
spec fn blc(b: Seq<int>, start: int, off: int, st: int, n: int, j: int) -> int
    decreases n
{ if n <= 0 { 0 } else { blc(b, start, off, st, n - 1, j) + (if (n - 1 + off) / st == j { cnt(b, start + n - 1) as int } else { 0 }) } }
proof fn blk_is_blc(c: Seq<u64>, b: Seq<int>, start: int, off: int, st: int, n: int, j: int)
    requires n <= c.len(), forall|t: int| 0 <= t < c.len() ==> c[t] == #[trigger] cnt(b, start + t),
    ensures blk(c, off, st, n, j) == blc(b, start, off, st, n, j),
    decreases n
{ if n > 0 { blk_is_blc(c, b, start, off, st, n - 1, j); assert(c[n - 1] == cnt(b, start + (n - 1))); assert(start + (n - 1) == start + n - 1); } }
proof fn blc_empty(start: int, off: int, st: int, n: int, j: int) ensures blc(Seq::empty(), start, off, st, n, j) == 0, decreases n { if n > 0 { blc_empty(start, off, st, n - 1, j); } }
proof fn blc_push(b: Seq<int>, x: int, start: int, off: int, st: int, n: int, j: int)
    requires n >= 0,
    ensures blc(b.push(x), start, off, st, n, j) == blc(b, start, off, st, n, j) + (if start <= x < start + n && (x - start + off) / st == j { 1int } else { 0 }),
    decreases n
{ if n > 0 { blc_push(b, x, start, off, st, n - 1, j); cnt_push(b, x, start + n - 1); } }
proof fn blc_is_shifted(b: Seq<int>, start: int, off: int, d: int, n: int, j: int)
    requires n >= 0, d >= 0, off == start % p2(d as nat), forall|i: int| 0 <= i < b.len() ==> start <= #[trigger] b[i] < start + n,
    ensures blc(b, start, off, p2(d as nat), n, j) == cnt(shifted(b, d), sh(start, d) + j),
    decreases b.len()
{
    let st = p2(d as nat); p2_pos(d as nat);
    if b.len() == 0 { assert(b =~= Seq::empty()); blc_empty(start, off, st, n, j); assert(shifted(b, d) =~= Seq::empty()); }
    else {
        let p = b.drop_last(); let x = b.last();
        assert(b =~= p.push(x));
        assert forall|i: int| 0 <= i < p.len() implies start <= #[trigger] p[i] < start + n by { assert(p[i] == b[i]); }
        blc_is_shifted(p, start, off, d, n, j);
        blc_push(p, x, start, off, st, n, j);
        assert(shifted(b, d) =~= shifted(p, d).push(sh(x, d)));
        cnt_push(shifted(p, d), sh(x, d), sh(start, d) + j);
        assert(start <= b[b.len() - 1] < start + n);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(start, st);
        assert(x == (x - start + off) + st * (start / st));
        vstd::arithmetic::div_mod::lemma_hoist_over_denominator(x - start + off, start / st, st as nat);
        assert(sh(x, d) == (x - start + off) / st + sh(start, d)) by { assert((x - start + off) + (start / st) * st == x) by (nonlinear_arith) requires x == (x - start + off) + st * (start / st); }
    }
}
proof fn blk_mono(c: Seq<u64>, off: int, st: int, m: int, n: int, j: int)
    requires m <= n <= c.len(),
    ensures blk(c, off, st, m, j) <= blk(c, off, st, n, j),
    decreases n - m
{ if m < n { blk_mono(c, off, st, m, n - 1, j); } }
proof fn blk_step(c: Seq<u64>, off: int, st: int, n: int)
    requires n >= 0,
    ensures forall|j: int| #[trigger] blk(c, off, st, n + 1, j) == blk(c, off, st, n, j) + (if (n + off) / st == j { c[n] as int } else { 0 }),
{ assert(n + 1 - 1 == n); assert forall|j: int| #[trigger] blk(c, off, st, n + 1, j) == blk(c, off, st, n, j) + (if (n + off) / st == j { c[n] as int } else { 0 }) by { } }
/// no slot can overflow: all together the old slots count at most b.len() measurements
proof fn blk_bounded(o: ExpoBuckets, b: Seq<int>, d: int, off: int, m: int, j: int)
    requires o.holds(b), 0 <= m <= o.counts@.len(), d >= 0, off == o.start_bin as int % p2(d as nat),
    ensures blk(o.counts@, off, p2(d as nat), m, j) <= b.len(),
{
    let s = o.start_bin as int; let len = o.counts@.len() as int; let st = p2(d as nat);
    assert forall|t: int| 0 <= t < o.counts@.len() implies o.counts@[t] == #[trigger] cnt(b, s + t) by { assert(o.at(s + t) == cnt(b, s + t)); }
    assert forall|i: int| 0 <= i < b.len() implies s <= #[trigger] b[i] < s + len by { bins_inside(o, b, i); }
    blk_mono(o.counts@, off, st, m, len, j);
    blc_is_shifted(b, s, off, d, len, j);
    blk_is_blc(o.counts@, b, s, off, st, len, j);
    cnt_le(shifted(b, d), sh(s, d) + j);
}
/// where index i + off stands relative to its predecessor
proof fn next_slot(i: int, off: int, st: int)
    requires i >= 1, 0 <= off < st,
    ensures (i + off) % st == 0 ==> (i + off) / st == (i - 1 + off) / st + 1, (i + off) % st != 0 ==> (i + off) / st == (i - 1 + off) / st, 0 <= (i + off) / st <= i,
{
    let x = i + off;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, st);
    vstd::arithmetic::div_mod::lemma_mod_bound(x, st);
    let q = x / st; let r = x % st;
    if r == 0 {
        assert(x - 1 == (q - 1) * st + (st - 1)) by (nonlinear_arith) requires x == st * q;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x - 1, st, q - 1, st - 1);
    } else {
        assert(x - 1 == q * st + (r - 1)) by (nonlinear_arith) requires x == st * q + r;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x - 1, st, q, r - 1);
    }
    assert(0 <= q <= i) by (nonlinear_arith) requires x == st * q + r, 0 <= r < st, x == i + off, 0 <= off < st, i >= 1;
}
proof fn bins_inside(e: ExpoBuckets, b: Seq<int>, i: int)
    requires e.holds(b), 0 <= i < b.len(),
    ensures e.lo() <= b[i] <= e.hi(),
{ cnt_has(b, i); assert(e.at(b[i]) == cnt(b, b[i])); }
proof fn cnt_has(b: Seq<int>, i: int) requires 0 <= i < b.len() ensures cnt(b, b[i]) >= 1, decreases b.len()
{ if i < b.len() - 1 { cnt_has(b.drop_last(), i); assert(b.drop_last()[i] == b[i]); } }
proof fn unmoved(o: ExpoBuckets, n: ExpoBuckets, d: int)
    requires d >= 0, o.counts@.len() <= 1 || d == 0, n.counts@ == o.counts@, n.start_bin == sh(o.start_bin as int, d),
    ensures forall|b: Seq<int>| #[trigger] o.holds(b) ==> n.holds(shifted(b, d)), o.counts@.len() > 0 ==> n.hi() == sh(o.hi(), d),
{
    p2_pos(d as nat);
    if d == 0 {
        assert(p2(0) == 1);
        assert forall|b: Seq<int>| #[trigger] o.holds(b) implies n.holds(shifted(b, d)) by { assert(shifted(b, d) =~= b); assert(n.start_bin == o.start_bin); assert forall|k: int| n.at(k) == #[trigger] cnt(b, k) by { assert(o.at(k) == cnt(b, k)); } }
    } else if o.counts@.len() == 0 {
        assert forall|b: Seq<int>| #[trigger] o.holds(b) implies n.holds(shifted(b, d)) by { assert(shifted(b, d) =~= Seq::empty()); }
    } else {
        let off = o.start_bin as int % p2(d as nat);
        vstd::arithmetic::div_mod::lemma_mod_bound(o.start_bin as int, p2(d as nat));
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(off, p2(d as nat), 0, off);
        reveal_with_fuel(blk, 2);
        downscaled(o, n, d, off);
    }
}
proof fn downscaled(o: ExpoBuckets, n: ExpoBuckets, d: int, off: int)
    requires d >= 0, n.start_bin == sh(o.start_bin as int, d), off == o.start_bin as int % p2(d as nat), o.counts@.len() > 0,
        n.counts@.len() == (o.counts@.len() - 1 + off) / p2(d as nat) + 1,
        forall|j: int| 0 <= j < n.counts@.len() ==> n.counts@[j] == #[trigger] blk(o.counts@, off, p2(d as nat), o.counts@.len() as int, j),
    ensures forall|b: Seq<int>| #[trigger] o.holds(b) ==> n.holds(shifted(b, d)), n.hi() == sh(o.hi(), d), n.counts@.len() <= o.counts@.len(),
{
    let st = p2(d as nat); p2_pos(d as nat); let len = o.counts@.len() as int; let s = o.start_bin as int;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s, st);
    vstd::arithmetic::div_mod::lemma_mod_bound(s, st);
    vstd::arithmetic::div_mod::lemma_hoist_over_denominator(len - 1 + off, s / st, st as nat);
    assert(o.hi() == (len - 1 + off) + (s / st) * st) by (nonlinear_arith) requires o.hi() == s + len - 1, s == st * (s / st) + off;
    // (len-1+off)/st <= len-1
    assert(len - 1 + off <= (len - 1) * st + (st - 1)) by (nonlinear_arith) requires len >= 1, st >= 1, off <= st - 1;
    vstd::arithmetic::div_mod::lemma_div_is_ordered(len - 1 + off, (len - 1) * st + (st - 1), st);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse((len - 1) * st + (st - 1), st, len - 1, st - 1);
    vstd::arithmetic::div_mod::lemma_div_is_ordered(0, len - 1 + off, st);
    assert(0int / st == 0) by { vstd::arithmetic::div_mod::lemma_div_basics(st); }
    assert forall|b: Seq<int>| #[trigger] o.holds(b) implies n.holds(shifted(b, d)) by {
        assert forall|t: int| 0 <= t < o.counts@.len() implies o.counts@[t] == #[trigger] cnt(b, s + t) by { assert(o.at(s + t) == cnt(b, s + t)); }
        assert forall|i: int| 0 <= i < b.len() implies s <= #[trigger] b[i] < s + len by { bins_inside(o, b, i); }
        assert forall|k: int| n.at(k) == #[trigger] cnt(shifted(b, d), k) by {
            let j = k - n.start_bin;
            blc_is_shifted(b, s, off, d, len, j);
            blk_is_blc(o.counts@, b, s, off, st, len, j);
            assert(sh(s, d) + j == k);
            if !(0 <= j < n.counts@.len()) { blk_none(o.counts@, off, st, len, j); }
        }
        assert(shifted(b, d).len() == b.len());
    }
}
impl ExpoBuckets {
//@fn opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs impl ! ExpoBuckets :: fn record
//@subst vec![0; $$n] ~> zeros($$n)
//@subst zeroes[shift..].copy_from_slice(&self.counts); ~> copy_into(&mut zeroes, shift, &self.counts);
//@subst self.counts.capacity() ~> cap_of(&self.counts)
//@subst self.counts.resize($$n, 0); ~> resize0(&mut self.counts, $$n);
//@subst self.counts.extend(std::iter::repeat(0).take($$n),); ~> let more = $$n; extend0(&mut self.counts, more);
//@subst self.counts[$$i] += 1; ~> let c = self.counts[$$i] + 1; self.counts.set($$i, c);
//@subst self.counts[0] = 1; ~> self.counts.set(0, 1);
//@subst return; ~> { proof { assert(forall|k: int| #[trigger] self.at(k) == old(self).at(k) + (if k == bin { 1int } else { 0 })); recorded_ok(*old(self), *self, bin as int); } return; }
//@subst self.counts[(bin - self.start_bin) as usize] = 1 ~> self.counts.set((bin - self.start_bin) as usize, 1)
//@contract
    requires
        -1200000000 <= bin <= 1200000000, old(self).wf(),
        exists|b: Seq<int>| old(self).holds(b) && b.len() < u64::MAX,
        old(self).counts@.len() > 0 ==> imax(old(self).hi(), bin as int) - imin(old(self).lo(), bin as int) < i32::MAX,
    ensures
        final(self).wf(),
        forall|b: Seq<int>| #[trigger] old(self).holds(b) ==> final(self).holds(b.push(bin as int)),
        old(self).counts@.len() == 0 ==> final(self).counts@.len() == 1 && final(self).start_bin == bin,
        old(self).counts@.len() > 0 ==> final(self).lo() == imin(old(self).lo(), bin as int) && final(self).hi() == imax(old(self).hi(), bin as int),
//@start
    let ghost b0 = choose|b: Seq<int>| old(self).holds(b) && b.len() < u64::MAX;
    proof { cnt_le(b0, bin as int); assert(self.at(bin as int) == cnt(b0, bin as int)); }
//@end
    proof { assert(forall|k: int| #[trigger] self.at(k) == old(self).at(k) + (if k == bin { 1int } else { 0 })); recorded_ok(*old(self), *self, bin as int); }
//@endfn

//@fn opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs impl ! ExpoBuckets :: fn downscale
//@subst { self.start_bin >>= delta; return; } ~> { self.start_bin = shr(self.start_bin, delta); proof { unmoved(*old(self), *self, delta as int); } return; }
//@subst self.start_bin >>= delta; ~> self.start_bin = shr(self.start_bin, delta); proof { downscaled(*old(self), *self, delta as int, offset as int); }
//@subst 1 << delta ~> one_shl(delta)
//@subst self.start_bin % steps ~> rem(self.start_bin, steps)
//@subst (offset + steps) % steps ~> rem(offset + steps, steps)
//@subst self.counts[..last_idx as usize + 1].to_vec() ~> front(&self.counts, last_idx as usize + 1)
//@subst (self.counts.len() as i32 - 1 + offset) / steps ~> tdiv(self.counts.len() as i32 - 1 + offset, steps)
//@subst for i in 1..self.counts.len() { $$b } ~> let mut n: usize = 1; let cl = self.counts.len(); while n < cl { let i = n; n = n + 1; $$b }
//@subst self.counts[$$a] = self.counts[$$c]; ~> { let x = self.counts[$$c]; self.counts.set($$a, x); }
//@subst self.counts[$$a] += self.counts[$$c]; ~> { let x = self.counts[$$a] + self.counts[$$c]; self.counts.set($$a, x); }
//@contract
    requires
        delta < 31, old(self).wf(), old(self).counts@.len() + p2(delta as nat) < i32::MAX,
        exists|b: Seq<int>| old(self).holds(b) && b.len() < u64::MAX,
    ensures
        final(self).wf(),
        final(self).lo() == sh(old(self).lo(), delta as int),
        final(self).counts@.len() <= old(self).counts@.len(),
        final(self).counts@.len() == 0 <==> old(self).counts@.len() == 0,
        old(self).counts@.len() > 0 ==> final(self).hi() == sh(old(self).hi(), delta as int),
        forall|b: Seq<int>| #[trigger] old(self).holds(b) ==> final(self).holds(shifted(b, delta as int)),
//@start
    let ghost b0 = choose|b: Seq<int>| old(self).holds(b) && b.len() < u64::MAX;
    proof { p2_pos(delta as nat); p2_vals(); p2_mono(delta as nat, 30); sh_range(old(self).start_bin as int, delta as int); }
//@beforeloop 0
    proof {
        rem_is_mod(self.start_bin as int, steps as int); vstd::arithmetic::div_mod::lemma_mod_bound(self.start_bin as int, steps as int);
        vstd::arithmetic::div_mod::lemma_small_mod(offset as nat, steps as nat);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(offset as int, steps as int, 0, offset as int);
        reveal_with_fuel(blk, 2);
    }
//@loop 0
    invariant
        delta < 31, old(self).wf(), old(self).counts@.len() + p2(delta as nat) < i32::MAX, steps == p2(delta as nat), steps >= 1, 0 <= offset < steps,
        offset == old(self).start_bin as int % p2(delta as nat), old(self).holds(b0), b0.len() < u64::MAX,
        cl == old(self).counts@.len(), self.counts@.len() == cl, self.start_bin == old(self).start_bin,
        1 <= n <= cl,
        0 <= (n - 1 + offset) / (steps as int) < n,
        forall|j: int| 0 <= j <= (n - 1 + offset) / (steps as int) ==> self.counts@[j] == #[trigger] blk(old(self).counts@, offset as int, steps as int, n as int, j),
        forall|j: int| n <= j < cl ==> self.counts@[j] == #[trigger] old(self).counts@[j],
    decreases cl - n
//@inloop 0
    proof {
        next_slot(n as int, offset as int, steps as int);
        let j = (n + offset) / (steps as int);
        blk_bounded(*old(self), b0, delta as int, offset as int, n + 1, j);
        if (n + offset) % (steps as int) == 0 { blk_none(old(self).counts@, offset as int, steps as int, n as int, j); }
        blk_step(old(self).counts@, offset as int, steps as int, n as int);
        assert(n + 1 - 1 + offset == n + offset);
        assert(self.counts@[n as int] == old(self).counts@[n as int]);
    }
//@endfn
}


//@item opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs const EXPO_MAX_SCALE
//@item opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs const EXPO_MIN_SCALE

proof fn width_shrinks(lo: int, hi: int, a: int, b: int)
    requires lo <= hi, 0 <= a <= b,
    ensures 0 <= sh(hi, b) - sh(lo, b) <= sh(hi, a) - sh(lo, a),
    decreases b - a
{
    sh_mono(lo, hi, a); sh_mono(lo, hi, b);
    if a < b {
        width_shrinks(lo, hi, a, b - 1);
        sh_sh(lo, b - 1, 1); sh_sh(hi, b - 1, 1);
        sh_mono(lo, hi, b - 1);
        assert(p2(1) == 2) by { reveal_with_fuel(p2, 2); }
    }
}
spec fn change_lo(bin: int, start: int) -> int { imin(bin, start) }
spec fn change_hi(bin: int, start: int, len: int) -> int { if start >= bin { start + len - 1 } else { bin } }
//@fn opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs fn scale_change
//@subst? i64::from($a) ~> ($a as i64)
//@subst low >>= 1; ~> low = shr(low, 1);
//@subst high >>= 1; ~> high = shr(high, 1);
//@ret r
//@contract
    requires length >= 0, start_bin + length <= i32::MAX,
    ensures
        length == 0 ==> r == 0,
        r <= 31,
        length > 0 && r <= 30 ==> sh(change_hi(bin as int, start_bin as int, length as int), r as int) - sh(change_lo(bin as int, start_bin as int), r as int) < max_size,
        // no smaller change does
        r > 0 ==> sh(change_hi(bin as int, start_bin as int, length as int), r - 1) - sh(change_lo(bin as int, start_bin as int), r - 1) >= max_size,
//@start
    proof { assert(p2(0) == 1); }
//@loop 0
    invariant
        length > 0, count <= 30,
        low == sh(change_lo(bin as int, start_bin as int), count as int), high == sh(change_hi(bin as int, start_bin as int, length as int), count as int),
        count > 0 ==> sh(change_hi(bin as int, start_bin as int, length as int), count - 1) - sh(change_lo(bin as int, start_bin as int), count - 1) >= max_size,
    decreases 31 - count
//@inloop 0
    proof {
        sh_sh(change_lo(bin as int, start_bin as int), count as int, 1); sh_sh(change_hi(bin as int, start_bin as int, length as int), count as int, 1);
    }
//@endfn

//@item opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs struct BucketConfig
//@item opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs struct ExpoHistogramDataPoint
//@ subst <T> ~>
//@ subst : T ~> : Num

// ---- what a data point has to report about a log of measurements ----
spec fn fold_sum(l: Seq<Num>) -> Num decreases l.len() { if l.len() == 0 { zero() } else { plus(fold_sum(l.drop_last()), l.last()) } }
spec fn fold_min(l: Seq<Num>) -> Num decreases l.len() { if l.len() == 0 { max_num() } else { let m = fold_min(l.drop_last()); if less(l.last(), m) { l.last() } else { m } } }
spec fn fold_max(l: Seq<Num>) -> Num decreases l.len() { if l.len() == 0 { min_num() } else { let m = fold_max(l.drop_last()); if less(m, l.last()) { l.last() } else { m } } }
spec fn is_zero_num(v: Num) -> bool { is_zero(fabs(float(v))) }
spec fn zeros_in(l: Seq<Num>) -> nat decreases l.len() { if l.len() == 0 { 0 } else { zeros_in(l.drop_last()) + (if is_zero_num(l.last()) { 1nat } else { 0 }) } }
/// the bins, at scale s, of the negative / positive measurements of the log
spec fn bins(l: Seq<Num>, neg: bool, s: int) -> Seq<int>
    decreases l.len()
{
    if l.len() == 0 { Seq::empty() } else {
        let r = bins(l.drop_last(), neg, s);
        if !is_zero_num(l.last()) && less(l.last(), zero()) == neg { r.push(bin_of(fabs(float(l.last())), s)) } else { r }
    }
}
proof fn bins_push(l: Seq<Num>, v: Num, neg: bool, s: int)
    ensures bins(l.push(v), neg, s) == (if !is_zero_num(v) && less(v, zero()) == neg { bins(l, neg, s).push(bin_of(fabs(float(v)), s)) } else { bins(l, neg, s) })
{ assert(l.push(v).drop_last() =~= l); }
proof fn bins_coarser(l: Seq<Num>, neg: bool, s: int, d: int)
    requires d >= 0,
    ensures bins(l, neg, s - d) == shifted(bins(l, neg, s), d),
    decreases l.len()
{
    if l.len() == 0 { assert(bins(l, neg, s - d) =~= shifted(bins(l, neg, s), d)); }
    else {
        bins_coarser(l.drop_last(), neg, s, d);
        coarser(fabs(float(l.last())), s, d);
        assert(bins(l, neg, s - d) =~= shifted(bins(l, neg, s), d));
    }
}
proof fn bins_len(l: Seq<Num>, neg: bool, s: int) ensures bins(l, neg, s).len() <= l.len() decreases l.len() { if l.len() > 0 { bins_len(l.drop_last(), neg, s); } }
proof fn zeros_len(l: Seq<Num>) ensures zeros_in(l) <= l.len() decreases l.len() { if l.len() > 0 { zeros_len(l.drop_last()); } }
proof fn both_coarser(o: ExpoHistogramDataPoint, n: ExpoHistogramDataPoint, d: int)
    requires d >= 0, n.scale == o.scale - d,
        forall|b: Seq<int>| #[trigger] o.pos_buckets.holds(b) ==> n.pos_buckets.holds(shifted(b, d)),
        forall|b: Seq<int>| #[trigger] o.neg_buckets.holds(b) ==> n.neg_buckets.holds(shifted(b, d)),
        n == (ExpoHistogramDataPoint { scale: n.scale, pos_buckets: n.pos_buckets, neg_buckets: n.neg_buckets, ..o }),
    ensures forall|l: Seq<Num>| #[trigger] o.faithful(l) ==> n.faithful(l),
{
    assert forall|l: Seq<Num>| #[trigger] o.faithful(l) implies n.faithful(l) by {
        bins_coarser(l, false, o.scale as int, d); bins_coarser(l, true, o.scale as int, d);
    }
}
/// after the change of scale the bucket of the value and the earlier ones fit
proof fn fits(e: ExpoBuckets, bin: int, m: int, d: int)
    requires d >= 0, e.counts@.len() > 0, e.counts@.len() <= imax(m, 1),
        d <= 30 ==> sh(change_hi(bin, e.lo(), e.counts@.len() as int), d) - sh(change_lo(bin, e.lo()), d) < m,
        d > 0 ==> sh(change_hi(bin, e.lo(), e.counts@.len() as int), d - 1) - sh(change_lo(bin, e.lo()), d - 1) >= m,
    ensures
        d <= 30 ==> imax(sh(e.hi(), d), sh(bin, d)) - imin(sh(e.lo(), d), sh(bin, d)) < m,
        forall|k: int| 0 <= k < d ==> #[trigger] sh(imax(e.hi(), bin), k) - sh(imin(e.lo(), bin), k) >= m,
{
    let h = change_hi(bin, e.lo(), e.counts@.len() as int); let w = change_lo(bin, e.lo());
    sh_mono(e.lo(), e.hi(), d);
    if bin <= e.lo() { sh_mono(bin, e.lo(), d); }
    else {
        sh_mono(e.lo(), bin, d);
        if bin <= e.hi() {
            sh_mono(bin, e.hi(), d);
            if d > 0 { width_shrinks(w, h, 0, d - 1); sh_0(w); sh_0(h); assert(false); }
            sh_0(e.hi()); sh_0(e.lo()); sh_0(bin);
        } else { sh_mono(e.hi(), bin, d); }
    }
    assert forall|k: int| 0 <= k < d implies #[trigger] sh(imax(e.hi(), bin), k) - sh(imin(e.lo(), bin), k) >= m by {
        width_shrinks(w, h, k, d - 1); sh_mono(h, imax(e.hi(), bin), k);
    }
}
proof fn log_push(l: Seq<Num>, v: Num)
    ensures fold_sum(l.push(v)) == plus(fold_sum(l), v), zeros_in(l.push(v)) == zeros_in(l) + (if is_zero_num(v) { 1nat } else { 0 }),
        fold_min(l.push(v)) == (if less(v, fold_min(l)) { v } else { fold_min(l) }), fold_max(l.push(v)) == (if less(fold_max(l), v) { v } else { fold_max(l) })
{ assert(l.push(v).drop_last() =~= l); }

impl ExpoHistogramDataPoint {
    spec fn summarizes(&self, l: Seq<Num>) -> bool { self.count == l.len() && self.sum == fold_sum(l) && self.min == fold_min(l) && self.max == fold_max(l) }
    /// the data point says exactly what was recorded
    spec fn faithful(&self, l: Seq<Num>) -> bool {
        self.summarizes(l) && self.zero_count == zeros_in(l) && self.pos_buckets.holds(bins(l, false, self.scale as int)) && self.neg_buckets.holds(bins(l, true, self.scale as int))
    }
    spec fn wf(&self) -> bool {
        -10 <= self.scale <= 20 && self.pos_buckets.wf() && self.neg_buckets.wf() && self.max_size < 0x2000_0000
        && (self.pos_buckets.counts@.len() > 0 ==> self.pos_buckets.counts@.len() <= imax(self.max_size as int, 1)) && (self.neg_buckets.counts@.len() > 0 ==> self.neg_buckets.counts@.len() <= imax(self.max_size as int, 1))
    }
    /// at the smallest scale, the buckets of the earlier measurements and of v fit into max_size
    spec fn can_hold(&self, v: Num) -> bool {
        let e = self.side(less(v, zero())); let b = bin_of(fabs(float(v)), self.scale as int);
        e.counts@.len() == 0 || sh(imax(e.hi(), b), self.scale + 10) - sh(imin(e.lo(), b), self.scale + 10) < self.max_size
    }
    spec fn side(&self, neg: bool) -> ExpoBuckets { if neg { self.neg_buckets } else { self.pos_buckets } }
//@fn opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs impl ExpoHistogramDataPoint<T> :: fn new
//@subst T::max() ~> num_max()
//@subst T::min() ~> num_min()
//@subst T::default() ~> num_zero()
//@subst ExpoBuckets::default() ~> no_buckets()
//@ret r
//@contract
    requires -10 <= config.max_scale <= 20, config.max_size < 0x2000_0000,
    ensures r.wf(), r.faithful(Seq::empty()), r.scale == config.max_scale, r.max_size == config.max_size,
//@start
    proof { assert(forall|k: int| #[trigger] cnt(Seq::empty(), k) == 0); }
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs impl ExpoHistogramDataPoint<T> :: fn summarize
//@sig fn summarize(&mut self, v: Num)
//@subst v < self.min ~> num_lt(&v, &self.min)
//@subst v > self.max ~> num_lt(&self.max, &v)
//@subst self.sum += v; ~> self.sum = num_add(self.sum, v);
//@contract
    requires old(self).count < usize::MAX,
    ensures
        forall|l: Seq<Num>| #[trigger] old(self).summarizes(l) ==> final(self).summarizes(l.push(v)),
        *final(self) == (ExpoHistogramDataPoint { count: final(self).count, min: final(self).min, max: final(self).max, sum: final(self).sum, ..*old(self) }),
//@end
    proof { assert forall|l: Seq<Num>| #[trigger] old(self).summarizes(l) implies self.summarizes(l.push(v)) by { log_push(l, v); } }
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs impl ExpoHistogramDataPoint<T> :: fn get_bin
//@sig fn get_bin(&self, v: F) -> (r: i32)
//@subst frac == 0.5 ~> f_is_half(frac)
//@subst (exp - correction) >> -self.scale ~> shr8(exp - correction, -self.scale)
//@subst exp << self.scale ~> shl8(exp, self.scale)
//@subst (frac.ln() * scale_factors()[self.scale as usize]) as i32 ~> ln_scaled(frac, &scale_factors()[self.scale as usize])
//@contract
    requires -10 <= self.scale <= 20,
    ensures r == bin_of(v, self.scale as int), -1200000000 <= r <= 1200000000,
//@start
    proof { lnp_in_range(v, self.scale as int); bin_range(v, self.scale as int); p2_vals();
        if self.scale > 0 { p2_mono(self.scale as nat, 20); p2_pos(self.scale as nat);
            let m = p2(self.scale as nat); let e = exp_of(v);
            assert(-1100 * 0x10_0000 <= e * m <= 1100 * 0x10_0000) by (nonlinear_arith) requires 1 <= m <= 0x10_0000, -1100 <= e <= 1100; } }
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs impl ExpoHistogramDataPoint<T> :: fn record
//@sig fn record(&mut self, v: Num)
//@subst abs_v == 0.0 ~> f_is_zero(abs_v)
//@subst v < T::default() ~> num_lt(&v, &num_zero())
//@subst? otel_debug!($$a); ~>
//@subst self.zero_count += 1; return; ~> self.zero_count += 1; proof { assert forall|l: Seq<Num>| #[trigger] old(self).faithful(l) implies self.faithful(l.push(v)) by { log_push(l, v); bins_push(l, v, false, self.scale as int); bins_push(l, v, true, self.scale as int); } } return;
//@subst let v_is_negative = $$a; ~> let v_is_negative = $$a; let ghost bin0 = bin as int; let ghost v0 = fabs(float(v));
//@subst if scale_delta > 0 { $$a } self.summarize(v); ~> proof { let e = self.side(v_is_negative); if e.counts@.len() > 0 { fits(e, bin0, self.max_size as int, scale_delta as int); } } if scale_delta > 0 { proof { if scale_delta <= 30 { p2_mono(scale_delta as nat, 30); } p2_vals(); bins_len(l0, false, self.scale as int); bins_len(l0, true, self.scale as int); coarser(v0, self.scale as int, scale_delta as int); } $$a } let ghost mid = *self; proof { if scale_delta > 0 { both_coarser(*old(self), mid, scale_delta as int); } else { sh_0(bin0); sh_0(self.side(v_is_negative).hi()); sh_0(self.side(v_is_negative).lo()); } bins_len(l0, false, self.scale as int); bins_len(l0, true, self.scale as int); assert(mid.faithful(l0)); } self.summarize(v); let ghost sm = *self;
//@contract
    requires old(self).wf(), exists|l: Seq<Num>| old(self).faithful(l) && l.len() < usize::MAX - 1,
    ensures
        final(self).wf(), final(self).max_size == old(self).max_size, final(self).scale <= old(self).scale,
        // recorded, or dropped because even the smallest scale has too many buckets between this value and the earlier ones
        (forall|l: Seq<Num>| #[trigger] old(self).faithful(l) ==> final(self).faithful(l.push(v)))
        || (*final(self) == *old(self) && !is_zero_num(v) && !old(self).can_hold(v)),
//@start
    let ghost l0 = choose|l: Seq<Num>| old(self).faithful(l) && l.len() < usize::MAX - 1;
    proof { zeros_len(l0); }
//@end
    proof {
        assert forall|l: Seq<Num>| #[trigger] old(self).faithful(l) implies self.faithful(l.push(v)) by {
            assert(mid.faithful(l)); assert(sm.summarizes(l.push(v)));
            log_push(l, v); bins_push(l, v, false, self.scale as int); bins_push(l, v, true, self.scale as int);
        }
    }
//@endfn
}
#[verifier::external_body] fn no_buckets() -> (r: ExpoBuckets) ensures r.start_bin == 0, r.counts@.len() == 0 { unimplemented!() }


//@gsubst ExpoHistogramDataPoint::<T> ~> ExpoHistogramDataPoint
//@fn opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs impl Aggregator for Mutex<ExpoHistogramDataPoint<T>> :: fn create
//@sig fn create(init: &BucketConfig) -> (r: ExpoHistogramDataPoint)
//@subst Mutex::new($$b) ~> $$b
//@contract
    requires -10 <= init.max_scale <= 20, init.max_size < 0x2000_0000,
    ensures r.wf(), r.faithful(Seq::empty()), r.scale == init.max_scale, r.max_size == init.max_size,
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs impl Aggregator for Mutex<ExpoHistogramDataPoint<T>> :: fn update
//@sig fn update(this: &mut ExpoHistogramDataPoint, value: Num)
//@subst let mut this = match self.lock() { $$m }; ~>
//@contract
    requires old(this).wf(), exists|l: Seq<Num>| old(this).faithful(l) && l.len() < usize::MAX - 1,
    ensures
        final(this).wf(), final(this).max_size == old(this).max_size,
        (forall|l: Seq<Num>| #[trigger] old(this).faithful(l) ==> final(this).faithful(l.push(value)))
        || (*final(this) == *old(this) && !is_zero_num(value) && !old(this).can_hold(value)),
//@endfn
//@fn opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs impl Aggregator for Mutex<ExpoHistogramDataPoint<T>> :: fn clone_and_reset
//@sig fn clone_and_reset(current: &mut ExpoHistogramDataPoint, init: &BucketConfig) -> (r: ExpoHistogramDataPoint)
//@subst let mut current = self.lock().unwrap_or_else($$e); ~>
//@subst replace(current.deref_mut(), $$b) ~> swap_point(current, $$b)
//@subst Mutex::new(cloned) ~> cloned
//@contract
    requires -10 <= init.max_scale <= 20, init.max_size < 0x2000_0000,
    ensures r == *old(current), final(current).wf(), final(current).faithful(Seq::empty()), final(current).scale == init.max_scale, final(current).max_size == init.max_size,
//@endfn
#[verifier::external_body] fn swap_point(c: &mut ExpoHistogramDataPoint, n: ExpoHistogramDataPoint) -> (r: ExpoHistogramDataPoint) ensures r == *old(c), *final(c) == n { unimplemented!() }

struct Temporality { _p: u8 }
struct AttributeSetFilter { _p: u8 }
struct Init { _p: u8 }
#[verifier::external_body] fn start_now() -> Init { unimplemented!() }
struct Vm { config: BucketConfig, limit: usize }
impl Vm { fn new(config: BucketConfig, limit: usize) -> (r: Vm) ensures r.config == config, r.limit == limit { Vm { config, limit } } }
struct ExpoHistogram { value_map: Vm, init_time: Init, temporality: Temporality, filter: AttributeSetFilter, record_sum: bool, record_min_max: bool }
impl ExpoHistogram {
//@fn opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs impl ! ExpoHistogram<T> :: fn new
//@subst ValueMap::new ~> Vm::new
//@subst AggregateTimeInitiator::default() ~> start_now()
//@ret r
//@contract
    requires max_size < 0x2000_0000, -10 <= max_scale <= 20,
    ensures r.value_map.config.max_size == max_size, r.value_map.config.max_scale == max_scale, r.value_map.limit == cardinality_limit,
        r.record_sum == record_sum, r.record_min_max == record_min_max, r.temporality == temporality, r.filter == filter,
//@endfn
}

} // verus!
fn main() {}

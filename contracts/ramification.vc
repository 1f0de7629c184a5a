# Curve: right hand sides and ramification types (C05)
@tu src/curve.cc
@use curve.vc
@prelude
// coefficients of the right hand side
pub open spec fn rhs_p(c: Curve) -> Seq<int> { Seq::new(c.poly_coeff_exponents@.len(), |i: int| pc(c.table@.fq_elements@[c.poly_coeff_exponents@[i] as int], 0)) }
pub open spec fn rhs_q(c: Curve) -> Seq<NmodPoly> { Seq::new(c.poly_coeff_exponents@.len(), |i: int| c.table@.fq_elements@[c.poly_coeff_exponents@[i] as int]) }
pub open spec fn facs(c: Curve) -> Seq<(int, int)> { if c.table@.prime_exponent == 1 { irr(c.table@.prime as int, rhs_p(c)) } else { irrq(c.table@.fq_ctx, rhs_q(c)) } }
pub open spec fn degrees(s: Seq<(int, int)>) -> Seq<u32> { Seq::new(s.len(), |i: int| s[i].0 as u32) }
// degrees of the points of the branch locus
pub open spec fn branch(c: Curve) -> Seq<u32> { (if deg(c) % 2 == 1 { seq![1u32] } else { Seq::<u32>::empty() }) + degrees(facs(c)) }
pub open spec fn cnt(s: Seq<u32>, d: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { cnt(s.drop_last(), d) + (if s.last() == d { 1int } else { 0int }) } }
pub open spec fn total(s: Seq<u32>) -> int decreases s.len() { if s.len() == 0 { 0 } else { total(s.drop_last()) + s.last() } }
// sum of d n(d) for d <= m, and for the divisors d <= m of k
pub open spec fn tsum(s: Seq<u32>, m: int) -> int decreases m { if m <= 0 { 0 } else { tsum(s, m - 1) + m * cnt(s, m) } }
pub open spec fn dsum(s: Seq<u32>, k: int, m: int) -> int decreases m { if m <= 0 { 0 } else { dsum(s, k, m - 1) + (if k % m == 0 { m * cnt(s, m) } else { 0 }) } }
pub open spec fn sorted(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] <= s[j] }
// a zero of the right hand side in the extension of degree k lies in a field of degree d | k
pub open spec fn zeros_counted(c: Curve) -> bool {
  forall|k: int| 1 <= k && #[trigger] counted(c, c.table@.prime_exponent as int * k) ==> c.nmb_points@[(c.table@.prime_exponent as int * k) as u32].1 == dsum(branch(c), k, k)
}
pub proof fn lemma_cnt_pos(s: Seq<u32>, d: int)
  ensures cnt(s, d) >= 0, (exists|i: int| 0 <= i < s.len() && s[i] == d) ==> cnt(s, d) >= 1
  decreases s.len()
{ if s.len() > 0 { lemma_cnt_pos(s.drop_last(), d); if exists|i: int| 0 <= i < s.len() && s[i] == d { let i = choose|i: int| 0 <= i < s.len() && s[i] == d; if i < s.len() - 1 { assert(s.drop_last()[i] == d); } } } }
pub proof fn lemma_cnt_push(s: Seq<u32>, x: u32, d: int)
  ensures cnt(s.push(x), d) == cnt(s, d) + (if x == d { 1int } else { 0int }), total(s.push(x)) == total(s) + x
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_cnt_multiset(s: Seq<u32>, d: u32)
  ensures cnt(s, d as int) == s.to_multiset().count(d)
  decreases s.len()
{
  s.to_multiset_ensures();
  if s.len() > 0 { let t = s.drop_last(); lemma_cnt_multiset(t, d); assert(s =~= t.push(s.last())); t.to_multiset_ensures(); }
}
pub proof fn lemma_cnt_range(s: Seq<u32>, d: int)
  requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != d
  ensures cnt(s, d) == 0
  decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies #[trigger] s.drop_last()[i] != d by { assert(s.drop_last()[i] == s[i]); } lemma_cnt_range(s.drop_last(), d); } }
pub proof fn lemma_tsum_push(s: Seq<u32>, x: u32, m: int)
  requires x >= 1, m >= 0
  ensures tsum(s.push(x), m) == tsum(s, m) + (if x <= m { x as int } else { 0int })
  decreases m
{
  if m > 0 {
    lemma_tsum_push(s, x, m - 1); lemma_cnt_push(s, x, m);
    assert(m * (cnt(s, m) + 1) == m * cnt(s, m) + m) by (nonlinear_arith);
  }
}
pub proof fn lemma_total(s: Seq<u32>, m: int)
  requires m >= 0, forall|i: int| 0 <= i < s.len() ==> 1 <= #[trigger] s[i] <= m
  ensures total(s) == tsum(s, m)
  decreases s.len()
{
  if s.len() > 0 {
    let t = s.drop_last(); assert(s =~= t.push(s.last()));
    assert forall|i: int| 0 <= i < t.len() implies 1 <= #[trigger] t[i] <= m by { assert(t[i] == s[i]); }
    lemma_total(t, m); assert(1 <= s[s.len() - 1] <= m); lemma_tsum_push(t, s.last(), m);
  } else { lemma_tsum_empty(s, m); }
}
pub proof fn lemma_tsum_empty(s: Seq<u32>, m: int)
  requires s.len() == 0
  ensures tsum(s, m) == 0
  decreases m
{ if m > 0 { lemma_tsum_empty(s, m - 1); assert(cnt(s, m) == 0); assert(m * 0 == 0); } }
pub proof fn lemma_tsum_le(s: Seq<u32>, a: int, b: int)
  requires 0 <= a <= b
  ensures 0 <= tsum(s, a) <= tsum(s, b)
  decreases b
{
  if b > 0 { lemma_cnt_pos(s, b); assert(b * cnt(s, b) >= 0) by (nonlinear_arith) requires b > 0, cnt(s, b) >= 0;
    if a < b { lemma_tsum_le(s, a, b - 1); } else { lemma_tsum_le(s, b - 1, b - 1); } }
}
pub proof fn lemma_tsum_term(s: Seq<u32>, a: int, d: int, b: int)
  requires 0 <= a < d <= b
  ensures tsum(s, b) - tsum(s, a) >= d * cnt(s, d)
{ lemma_tsum_le(s, a, d - 1); lemma_tsum_le(s, d, b); }
// two further degrees that occur, or one that occurs twice, already account for 2 fx
pub proof fn lemma_tsum_two(s: Seq<u32>, a: int, d: int, e: int, b: int)
  requires 0 <= a < d <= b, a < e <= b, cnt(s, d) >= 1, cnt(s, e) >= 1, d != e || cnt(s, d) >= 2
  ensures tsum(s, b) - tsum(s, a) >= d + e
  decreases (if d > e { 1int } else { 0int })
{
  if d == e { lemma_tsum_term(s, a, d, b); assert(d * cnt(s, d) >= 2 * d) by (nonlinear_arith) requires cnt(s, d) >= 2, d > 0; }
  else if d < e { lemma_tsum_term(s, a, d, e - 1); lemma_tsum_term(s, e - 1, e, b); assert(d * cnt(s, d) >= d) by (nonlinear_arith) requires cnt(s, d) >= 1, d > 0; assert(e * cnt(s, e) >= e) by (nonlinear_arith) requires cnt(s, e) >= 1, e > 0; }
  else { lemma_tsum_two(s, a, e, d, b); }
}
pub proof fn lemma_tsum_none(s: Seq<u32>, a: int, b: int)
  requires 0 <= a <= b, forall|d: int| a < d <= b ==> #[trigger] cnt(s, d) == 0
  ensures tsum(s, b) == tsum(s, a)
  decreases b - a
{ if a < b { lemma_tsum_none(s, a, b - 1); assert(cnt(s, b) == 0); assert(b * 0 == 0); } }
pub proof fn lemma_tsum_one(s: Seq<u32>, a: int, d: int, b: int)
  requires 0 <= a < d <= b, forall|e: int| a < e <= b && e != d ==> #[trigger] cnt(s, e) == 0
  ensures tsum(s, b) == tsum(s, a) + d * cnt(s, d)
{ lemma_tsum_none(s, a, d - 1); lemma_tsum_none(s, d, b); }
pub proof fn lemma_dsum_le(s: Seq<u32>, k: int, m: int)
  requires m >= 0
  ensures 0 <= dsum(s, k, m) <= tsum(s, m)
  decreases m
{ if m > 0 { lemma_dsum_le(s, k, m - 1); lemma_cnt_pos(s, m); assert(m * cnt(s, m) >= 0) by (nonlinear_arith) requires m > 0, cnt(s, m) >= 0; } }
pub proof fn lemma_fac_total(s: Seq<(int, int)>, d: int)
  requires facs_of(s, d), all_simple(s)
  ensures total(degrees(s)) == d, forall|i: int| 0 <= i < s.len() ==> 1 <= #[trigger] degrees(s)[i]
  decreases s.len()
{
  if s.len() > 0 {
    let t = s.drop_last();
    assert(facs_of(t, fac_sum(t))) by { assert forall|i: int| 0 <= i < t.len() implies 1 <= (#[trigger] t[i]).0 < 0x4000_0000 && 1 <= t[i].1 < 0x4000_0000 by { assert(t[i] == s[i]); } }
    assert(all_simple(t)) by { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).1 == 1 by { assert(t[i] == s[i]); } }
    lemma_fac_total(t, fac_sum(t));
    let l = s[s.len() - 1];
    assert(l.1 == 1 && l.0 >= 1);
    assert(degrees(s) =~= degrees(t).push(l.0 as u32));
    lemma_cnt_push(degrees(t), l.0 as u32, 0);
    assert(l.0 * l.1 == l.0) by (nonlinear_arith) requires l.1 == 1;
    assert forall|i: int| 0 <= i < s.len() implies 1 <= #[trigger] degrees(s)[i] by { assert(s[i].0 >= 1); }
  }
}
pub proof fn lemma_le_total(s: Seq<u32>, i: int)
  requires 0 <= i < s.len()
  ensures s[i] <= total(s), total(s) >= 0
  decreases s.len()
{ if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); lemma_le_total(s.drop_last(), i); } else { lemma_total_pos(s.drop_last()); } }
pub proof fn lemma_total_pos(s: Seq<u32>) ensures total(s) >= 0 decreases s.len() { if s.len() > 0 { lemma_total_pos(s.drop_last()); } }
pub proof fn lemma_branch(c: Curve)
  requires curve_ok(c), facs_of(facs(c), deg(c)), all_simple(facs(c)), deg(c) >= 1
  ensures total(branch(c)) == branch_sum(c), tsum(branch(c), branch_sum(c)) == branch_sum(c), forall|i: int| 0 <= i < branch(c).len() ==> 1 <= #[trigger] branch(c)[i] <= branch_sum(c)
{
  let f = facs(c); let D = degrees(f); lemma_fac_total(f, deg(c));
  let one = if deg(c) % 2 == 1 { seq![1u32] } else { Seq::<u32>::empty() };
  lemma_total_cat(one, D);
  if deg(c) % 2 == 1 { lemma_cnt_push(Seq::<u32>::empty(), 1u32, 0); assert(one =~= Seq::<u32>::empty().push(1u32)); } else { assert(total(one) == 0); }
  assert forall|i: int| 0 <= i < branch(c).len() implies 1 <= #[trigger] branch(c)[i] <= branch_sum(c) by {
    lemma_le_total(branch(c), i);
    if i >= one.len() { assert(branch(c)[i] == D[i - one.len()]); }
  }
  lemma_total(branch(c), branch_sum(c));
}
pub open spec fn branch_sum(c: Curve) -> int { if deg(c) % 2 == 0 { deg(c) } else { deg(c) + 1 } }
pub proof fn lemma_total_cat(a: Seq<u32>, b: Seq<u32>)
  ensures total(a + b) == total(a) + total(b)
  decreases b.len()
{ if b.len() > 0 { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_total_cat(a, b.drop_last()); } else { assert(a + b =~= a); } }
pub proof fn lemma_same(r: Seq<u32>, s: Seq<u32>, m: int)
  requires m >= 0, forall|i: int| 0 <= i < s.len() ==> 1 <= #[trigger] s[i] <= m, forall|d: int| #[trigger] cnt(r, d) == cnt(s, d)
  ensures total(r) == total(s)
{
  assert forall|i: int| 0 <= i < r.len() implies 1 <= #[trigger] r[i] <= m by {
    lemma_cnt_pos(r, r[i] as int); assert(cnt(s, r[i] as int) >= 1);
    if !(1 <= r[i] <= m) { lemma_cnt_range(s, r[i] as int); } }
  lemma_total(r, m); lemma_total(s, m); lemma_tsum_eq(r, s, m);
}
pub proof fn lemma_tsum_eq(r: Seq<u32>, s: Seq<u32>, m: int)
  requires forall|d: int| #[trigger] cnt(r, d) == cnt(s, d)
  ensures tsum(r, m) == tsum(s, m)
  decreases m
{ if m > 0 { lemma_tsum_eq(r, s, m - 1); assert(cnt(r, m) == cnt(s, m)); } }
// what the rest sum of the list means
pub proof fn lemma_rest(L: Seq<u32>, s: int, fx: int, r: int)
  requires 1 <= fx, s >= 0, tsum(L, s) == s, r == s - tsum(L, fx - 1), 0 <= r < 2 * fx, forall|i: int| 0 <= i < L.len() ==> 1 <= #[trigger] L[i] <= s
  ensures r == 0 ==> forall|d: int| d >= fx ==> #[trigger] cnt(L, d) == 0,
    r != 0 ==> r >= fx && forall|d: int| d >= fx ==> #[trigger] cnt(L, d) == (if d == r { 1int } else { 0int })
{
  assert forall|d: int| d > s implies #[trigger] cnt(L, d) == 0 by { lemma_cnt_range(L, d); }
  if fx - 1 >= s { lemma_tsum_le(L, s, fx - 1); lemma_tsum_none(L, s, fx - 1); assert(r == 0); }
  else if exists|d: int| fx <= d <= s && #[trigger] cnt(L, d) >= 1 {
    let d = choose|d: int| fx <= d <= s && #[trigger] cnt(L, d) >= 1;
    if cnt(L, d) >= 2 { lemma_tsum_two(L, fx - 1, d, d, s); }
    assert forall|e: int| fx - 1 < e <= s && e != d implies #[trigger] cnt(L, e) == 0 by { lemma_cnt_pos(L, e); if cnt(L, e) >= 1 { lemma_tsum_two(L, fx - 1, d, e, s); } }
    lemma_tsum_one(L, fx - 1, d, s);
    assert(cnt(L, d) == 1); assert(d * 1 == d);
    assert(r == d);
  } else {
    assert forall|d: int| fx - 1 < d <= s implies #[trigger] cnt(L, d) == 0 by { lemma_cnt_pos(L, d); }
    lemma_tsum_none(L, fx - 1, s);
  }
}
pub proof fn lemma_sorted_push(s: Seq<u32>, x: u32)
  requires sorted(s), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= x
  ensures sorted(s.push(x))
{ }
@end

@fn rhs_nmod = Curve::rhs_nmod_polynomial
@requires ok: curve_ok(this0) && elements_ok(this0.table@)
@requires prime: this0.table@.prime_exponent == 1
@ensures rhs: res.ret.modulus() == this0.table@.prime && res.ret.coeffs() =~= rhs_p(this0) && poly_ok(res.ret.modulus(), res.ret.coeffs())
@proof begin
let ghost T = this0.table@;
proof { vstd::arithmetic::power::lemma_pow1(T.prime as int); }
@end
@loop 1
@inv ix: 0 <= ix <= this0.poly_coeff_exponents@.len() && this == this0 && T == this0.table@ && T.prime_power == T.prime
@inv poly: poly.modulus() == T.prime && poly.coeffs() =~= rhs_p(this0).take(ix as int)
@decreases this0.poly_coeff_exponents@.len() - ix
@proof loop 1 begin
let ghost p0 = poly.coeffs();
proof { assert(this0.poly_coeff_exponents@[ix as int] < T.prime_power); }
@end
@proof loop 1 end
proof {
  let x = T.fq_elements@[this0.poly_coeff_exponents@[ix as int] as int];
  if x.coeffs().len() > 0 { assert(0 <= x.coeffs()[0] < T.prime); vstd::arithmetic::div_mod::lemma_small_mod(x.coeffs()[0] as nat, T.prime as nat); } else { vstd::arithmetic::div_mod::lemma_small_mod(0nat, T.prime as nat); }
  assert(poly.coeffs() =~= rhs_p(this0).take(ix + 1));
}
@end
@proof after loop 1
proof {
  let c = rhs_p(this0);
  assert(c.take(ix as int) =~= c);
  assert forall|i: int| 0 <= i < c.len() implies 0 <= #[trigger] c[i] < T.prime by { let x = T.fq_elements@[this0.poly_coeff_exponents@[i] as int]; if x.coeffs().len() > 0 { assert(0 <= x.coeffs()[0] < T.prime); } }
  let l = this0.poly_coeff_exponents@.last() as int;
  assert(this0.poly_coeff_exponents@[this0.poly_coeff_exponents@.len() - 1] < T.prime_power);
  assert(!pzero(T.fq_elements@[l]));
}
@end

@fn rhs_fq = Curve::rhs_polynomial
@requires ok: curve_ok(this0) && elements_ok(this0.table@)
@ensures rhs: res.ret@ =~= rhs_q(this0) && fqpoly_ok(this0.table@.fq_ctx, res.ret@)
@loop 1
@inv ix: 0 <= ix <= this0.poly_coeff_exponents@.len() && this == this0
@inv poly: poly@ =~= rhs_q(this0).take(ix as int)
@decreases this0.poly_coeff_exponents@.len() - ix
@proof loop 1 begin
proof { assert(this0.poly_coeff_exponents@[ix as int] < this0.table@.prime_power); }
@end
@proof loop 1 end
proof { assert(poly@ =~= rhs_q(this0).take(ix + 1)); }
@end
@proof after loop 1
proof {
  assert(rhs_q(this0).take(ix as int) =~= rhs_q(this0));
  assert(this0.poly_coeff_exponents@[this0.poly_coeff_exponents@.len() - 1] < this0.table@.prime_power);
  assert(!pzero(this0.table@.fq_elements@[this0.poly_coeff_exponents@.last() as int]));
}
@end

@fn squarefree = Curve::has_squarefree_rhs
@requires ok: curve_ok(this0) && elements_ok(this0.table@)
@ensures squarefree: res.ret == all_simple(facs(this0))
@ensures frame: res.this == this0

@fn ramification_type = Curve::ramification_type
@requires ok: curve_ok(this0) && elements_ok(this0.table@) && 3 <= deg(this0) <= 0x10_0000
@requires factors: facs_of(facs(this0), deg(this0))
@requires squarefree: all_simple(facs(this0))
@requires zeros: zeros_counted(this0)
@ensures sorted: sorted(res.ret@)
@ensures degrees: forall|d: int| #[trigger] cnt(res.ret@, d) == cnt(branch(this0), d)
@ensures sum: total(res.ret@) == branch_sum(this0)
@proof begin
let ghost L = branch(this0);
let ghost S = branch_sum(this0);
let ghost pe = this0.table@.prime_exponent as int;
proof { lemma_branch(this0); }
@end
@loop 1
@inv same: this == this0 && 1 <= fx <= deg(this0)
@inv zero: forall|g: u32| 1 <= g && g < fx ==> #[trigger] nmb_ramified_points_from_lower@[g] == 0
@inv dom: forall|g: u32| 1 <= g && g < fx ==> #[trigger] nmb_ramified_points_from_lower@.dom().contains(g)
@decreases deg(this0) - fx
@proof loop 1 begin
let ghost low1 = nmb_ramified_points_from_lower@;
@end
@proof loop 1 end
proof {
  assert(nmb_ramified_points_from_lower@ =~= low1.insert(fx, 0u32));
  assert forall|g: u32| 1 <= g <= fx implies #[trigger] nmb_ramified_points_from_lower@[g] == 0 by { if g < fx { assert(low1[g] == 0); } }
}
@end
@proof before loop 2
proof {
  assert forall|d: int| d < 1 implies #[trigger] cnt(ramifications@, d) == cnt(L, d) by { lemma_cnt_range(L, d); }
  assert forall|g: u32| 1 <= g < deg(this0) implies #[trigger] nmb_ramified_points_from_lower@[g] == dsum(L, g as int, 0) by { }
}
@end
@loop 2
@inv same: this == this0 && 1 <= fx <= deg(this0) && L == branch(this0) && S == branch_sum(this0) && pe == this0.table@.prime_exponent
@inv dom: forall|g: u32| 1 <= g && g < deg(this0) ==> #[trigger] nmb_ramified_points_from_lower@.dom().contains(g)
@inv lower: forall|g: u32| fx <= g && g < deg(this0) ==> #[trigger] nmb_ramified_points_from_lower@[g] == dsum(L, g as int, fx - 1)
@inv sum: ramification_sum == tsum(L, fx - 1)
@inv sorted: sorted(ramifications@) && forall|i: int| 0 <= i < ramifications@.len() ==> 1 <= #[trigger] ramifications@[i] < fx
@inv list: forall|d: int| d < fx ==> #[trigger] cnt(ramifications@, d) == cnt(L, d)
@decreases deg(this0) - fx
@proof loop 2 begin
let ghost R0 = ramifications@;
let ghost n = cnt(L, fx as int);
let ghost low0 = nmb_ramified_points_from_lower@;
proof {
  assert(fx as int * pe <= 0x10_0000 * 64) by (nonlinear_arith) requires 1 <= fx <= 0x10_0000, 1 <= pe <= 64;
  assert(fx as int * pe == pe * fx as int && pe * fx >= 1) by (nonlinear_arith) requires fx >= 1, pe >= 1;
  lemma_dsum_le(L, fx as int, fx as int); lemma_tsum_le(L, fx as int, S); lemma_tsum_le(L, fx - 1, fx as int); lemma_dsum_le(L, fx as int, fx - 1);
  assert(fx as int % fx as int == 0) by { vstd::arithmetic::div_mod::lemma_mod_self_0(fx as int); }
  lemma_cnt_pos(L, fx as int);
  lemma_cnt_range(R0, fx as int);
}
@end
@proof before loop 3
proof { assert(counted(this0, pe * fx as int)); assert(dsum(L, fx as int, fx as int) == dsum(L, fx as int, fx - 1) + fx * n); assert(low0[fx] == dsum(L, fx as int, fx - 1)); assert(this0.nmb_points@[(pe * fx) as u32].1 == dsum(L, fx as int, fx as int)); assert(nmb_ramified_points_new == fx * n); assert(0 * fx as int == 0) by (nonlinear_arith); assert(low0 =~= nmb_ramified_points_from_lower@); }
let ghost mut j: int = 0;
@end
@loop 3
@inv j: 0 <= j <= n && jx == j * fx && fx >= 1 && nmb_ramified_points_new == fx * n
@inv sorted: sorted(ramifications@) && forall|i: int| 0 <= i < ramifications@.len() ==> 1 <= #[trigger] ramifications@[i] <= fx
@inv list: forall|d: int| d <= fx ==> #[trigger] cnt(ramifications@, d) == (if d == fx { j } else { cnt(L, d) })
@decreases n - j
@proof loop 3 begin
let ghost R1 = ramifications@;
proof {
  if j >= n { assert(j * fx >= fx * n) by (nonlinear_arith) requires j >= n, fx >= 1; }
  assert((j + 1) * fx == j * fx + fx) by (nonlinear_arith);
}
@end
@proof loop 3 end
proof {
  assert(ramifications@ == R1.push(fx));
  assert forall|d: int| d <= fx implies #[trigger] cnt(ramifications@, d) == (if d == fx { j + 1 } else { cnt(L, d) }) by { lemma_cnt_push(R1, fx, d); }
  lemma_sorted_push(R1, fx);
  j = j + 1;
}
@end
@proof after loop 3
proof { if j < n { assert(j * fx < fx * n) by (nonlinear_arith) requires j < n, fx >= 1; } }
let ghost mut m: int = 1;
proof { assert(fx * 1 == fx); }
@end
@loop 4
@inv m: m >= 1 && gx == fx * m && gx <= 0x20_0000
@inv dom: forall|g: u32| 1 <= g && g < deg(this0) ==> #[trigger] nmb_ramified_points_from_lower@.dom().contains(g)
@inv done: forall|g: u32| fx <= g && g < deg(this0) ==> #[trigger] nmb_ramified_points_from_lower@[g] == (if g < gx { dsum(L, g as int, fx as int) } else { dsum(L, g as int, fx - 1) })
@decreases 0x40_0000 - gx
@proof loop 4 begin
let ghost low1 = nmb_ramified_points_from_lower@;
proof {
  assert(fx * (m + 1) == fx * m + fx) by (nonlinear_arith);
  vstd::arithmetic::div_mod::lemma_mod_multiples_basic(m, fx as int); assert(m * fx == fx * m) by (nonlinear_arith);
  lemma_dsum_le(L, gx as int, fx as int); lemma_tsum_le(L, fx as int, S);
  assert forall|g: u32| gx < g < fx * (m + 1) implies #[trigger] dsum(L, g as int, fx as int) == dsum(L, g as int, fx - 1) by {
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(g as int, fx as int); let q = g as int / fx as int;
    if g as int % fx as int == 0 { assert(q <= m || q >= m + 1); if q <= m { assert(fx * q <= fx * m) by (nonlinear_arith) requires q <= m, fx >= 1; } else { assert(fx * q >= fx * (m + 1)) by (nonlinear_arith) requires q >= m + 1, fx >= 1; } }
  }
}
@end
@proof loop 4 end
proof {
  m = m + 1;
}
@end
@proof loop 2 end
proof { }
@end
@proof after loop 2
proof { lemma_tsum_le(L, fx - 1, deg(this0)); lemma_tsum_le(L, deg(this0), S); }
let ghost R2 = ramifications@;
@end
@loop 5
@inv list: ix <= poly_factor@.len() && poly_factor@ == facs(this0) && ramifications@ =~= L.take(L.len() - poly_factor@.len() + ix)
@decreases poly_factor@.len() - ix
@proof loop 5 begin
proof { assert(facs(this0)[ix as int].1 == 1); assert(1 <= facs(this0)[ix as int].0 < 0x4000_0000); }
@end
@proof after loop 5
assert(ramifications@ =~= L);
@end
@loop 6
@inv list: jx <= 1 && ramifications@ =~= L.take(L.len() - poly_factor@.len() + ix + jx)
@decreases 1 - jx
@loop 7
@inv list: ix <= poly_factor@.len() && poly_factor@ == facs(this0) && ramifications@ =~= L.take(L.len() - poly_factor@.len() + ix)
@decreases poly_factor@.len() - ix
@proof loop 7 begin
proof { assert(facs(this0)[ix as int].1 == 1); assert(1 <= facs(this0)[ix as int].0 < 0x4000_0000); }
@end
@proof after loop 7
assert(ramifications@ =~= L);
@end
@loop 8
@inv list: jx <= 1 && ramifications@ =~= L.take(L.len() - poly_factor@.len() + ix + jx)
@decreases 1 - jx
@proof return
proof {
  let R = ramifications@;
  if ramification_difference < 2 * fx {
    let r = ramification_difference;
    lemma_rest(L, S, fx as int, r as int);
    if r != 0 { assert(R == R2.push(r)); lemma_sorted_push(R2, r); } else { assert(R == R2); }
    assert forall|d: int| #[trigger] cnt(R, d) == cnt(L, d) by {
      if d >= fx { lemma_cnt_range(R2, d); } else { assert(cnt(R2, d) == cnt(L, d)); }
      if r != 0 { lemma_cnt_push(R2, r, d); }
    }
  } else {
    assert forall|i: int, j: int| 0 <= i < j < R.len() implies R[i] <= R[j] by { axiom_val_le_u32(R[i], R[j]); assert(val_le(R[i], R[j])); }
    assert forall|d: int| #[trigger] cnt(R, d) == cnt(L, d) by {
      if 0 <= d <= 0xffff_ffff { lemma_cnt_multiset(R, d as u32); lemma_cnt_multiset(L, d as u32); } else { lemma_cnt_range(R, d); lemma_cnt_range(L, d); }
    }
  }
  lemma_same(R, L, S);
}
@end

# the single curve computation (C19)
@tu src/single_curve_fp.cc src/curve.cc src/fq_element_table.cc src/reduction_table.cc
@use tables.vc
@use naive.vc
@prelude
// constants of F_{p^d} are the numbers below p, and calculate as integers modulo p
pub proof fn lemma_const_add(p: int, d: int, a: int, b: int)
  requires p >= 2, d >= 1, 0 <= a < p, 0 <= b < p
  ensures dig_add(p, d, a, b) == (a + b) % p
{
  lemma_small_mod(a as nat, p as nat); lemma_small_mod(b as nat, p as nat); lemma_basic_div(a, p); lemma_basic_div(b, p);
  lemma_dig_nil(p, d - 1); assert(p * 0 == 0);
}
pub proof fn lemma_dig_nil(p: int, d: int)
  requires p >= 2
  ensures dig_add(p, d, 0, 0) == 0
  decreases d
{ if d > 0 { lemma_dig_nil(p, d - 1); lemma_small_mod(0nat, p as nat); lemma_basic_div(0, p); assert(p * 0 == 0); } }
pub open spec fn digits_field(F: Fld, p: int, d: int) -> bool { p >= 3 && d >= 1 && F.zero == 0 && F.one == 1 && F.q == pow(p, d as nat) && forall|a: int, b: int| #[trigger] fadd(F, a, b) == dig_add(p, d, a, b) }
pub open spec fn digital(p: int, d: int) -> bool { digits_field(std_field(p, d), p, d) }
pub proof fn lemma_const_mul(F: Fld, p: int, d: int, a: int, b: int)
  requires fl_laws(F), digits_field(F, p, d), 0 <= a < p, 0 <= b < p
  ensures fmul(F, a, b) == (a * b) % p
  decreases b
{
  lemma_one_lt(p, d); lw_unit(F, a);
  if b == 0 { assert(a * 0 == 0); lemma_small_mod(0nat, p as nat); }
  else {
    lemma_const_mul(F, p, d, a, b - 1);
    lemma_const_add(p, d, b - 1, 1); lemma_small_mod(b as nat, p as nat);
    reveal(fl_distr);
    assert(fadd(F, b - 1, 1) == b);
    assert(fmul(F, a, fadd(F, b - 1, 1)) == fadd(F, fmul(F, a, b - 1), fmul(F, a, 1)));
    lemma_mod_bound(a * (b - 1), p);
    lemma_const_add(p, d, (a * (b - 1)) % p, a);
    lemma_add_mod_noop_right(a, a * (b - 1), p);
    assert(a * (b - 1) + a == a * b) by (nonlinear_arith);
  }
}
pub proof fn lemma_digital(p: int, d: int)
  requires size_ok(p, d), p % 2 == 1, fq_ctx_of(p, d).prime() == p, fq_ctx_of(p, d).degree() == d
  ensures digital(p, d)
{ lemma_one_lt(p, d); assert(p >= 3); assert forall|a: int, b: int| #[trigger] fadd(std_field(p, d), a, b) == dig_add(p, d, a, b) by { } }
// powers of a constant are constants
pub open spec fn ipow(p: int, g: int, n: int) -> int
  decreases n
{ if n <= 0 { 1 } else { (ipow(p, g, n - 1) * g) % p } }
pub proof fn lemma_const_pow(F: Fld, p: int, d: int, g: int, n: int)
  requires fl_laws(F), digits_field(F, p, d), 0 <= g < p, n >= 0
  ensures fpow(F, g, n) == ipow(p, g, n), 0 <= ipow(p, g, n) < p
  decreases n
{
  if n > 0 {
    lemma_const_pow(F, p, d, g, n - 1);
    lemma_const_mul(F, p, d, ipow(p, g, n - 1), g);
    lemma_mod_bound(ipow(p, g, n - 1) * g, p);
  }
}
pub proof fn lemma_gen_pow(F: Fld, n: int)
  requires n >= 0
  ensures gpow(F, n) == fpow(F, F.gen, n)
  decreases n
{ if n > 0 { lemma_gen_pow(F, n - 1); } }
pub proof fn lemma_field_laws(F: Fld)
  requires is_field(F)
  ensures fl_laws(F)
{
  assert(F.zero != F.one) by { law_gen(F, 0, 0); assert(gpow(F, 0) == F.one); }
  assert(fl_inv(F)) by {
    reveal(fl_inv);
    assert forall|a: int| #[trigger] inn(F, a) && a != F.zero implies inv_exists(F, a) by {
      let i = law_log(F, a); let m = F.q - 1;
      lemma_gpow_add(F, i, m - i); law_fermat(F); lemma_gpow_in(F, m - i);
      assert(fmul(F, a, gpow(F, m - i)) == F.one);
    }
  }
}
pub proof fn lemma_prime_field(p: int)
  requires size_ok(p, 1), p % 2 == 1, chosen_field(p, 1)
  ensures is_field(std_field(p, 1)), std_field(p, 1).q == p, digital(p, 1)
{ lemma_pow1(p); fq_ctx_axiom(p, 1); lemma_digital(p, 1); }
pub proof fn lemma_hcode_one(x: NmodPoly, p: int)
  ensures hcode(x, p, 0, 1) == pc(x, 0)
{ assert(hcode(x, p, 1, 1) == 0); assert(p * 0 == 0); }
pub proof fn lemma_fit(p: int, k: int)
  requires is_prime(p), p % 2 == 1, 1 <= k <= 64, pow(p, k as nat) <= 0x3fff_ffff
  ensures size_ok(p, k), p >= 3
{ lemma_one_lt(p, k); }
// the degree of the polynomial modulo p
pub open spec fn is_deg(co: Seq<u32>, p: int, d: int) -> bool { 1 <= d < co.len() && co[d] as int % p != 0 && forall|i: int| d < i < co.len() ==> #[trigger] co[i] as int % p == 0 }
// the generators of F_p and of its extension are compatible (Conway polynomials)
pub open spec fn compatible(p: int, k: int) -> bool { is_field(std_field(p, k)) && gpow(std_field(p, k), (pow(p, k as nat) - 1) / (p - 1)) == std_field(p, 1).gen }
pub open spec fn log_map(F: Fld, m: Map<u32, u32>, n: int) -> bool {
  &&& m.dom().contains(0) && m[0] == F.q - 1
  &&& forall|x: u32| #[trigger] m.dom().contains(x) && x != 0 ==> 0 <= m[x] < n && gpow(F, m[x] as int) == x
  &&& forall|i: int| 0 <= i < n ==> #[trigger] m.dom().contains(gpow(F, i) as u32)
}
pub open spec fn log_all(F: Fld, m: Map<u32, u32>) -> bool { forall|x: u32| 0 <= x < F.q ==> #[trigger] m.dom().contains(x) && 0 <= m[x] < F.q && el(F, m[x] as int) == x }
pub proof fn lemma_log_all(F: Fld, m: Map<u32, u32>)
  requires is_field(F), F.zero == 0, F.q <= 0x3fff_ffff, log_map(F, m, F.q - 1)
  ensures log_all(F, m)
{
  assert forall|x: u32| 0 <= x < F.q implies #[trigger] m.dom().contains(x) && 0 <= m[x] < F.q && el(F, m[x] as int) == x by {
    if x != 0 { let i = law_log(F, x as int); assert(m.dom().contains(gpow(F, i) as u32)); }
  }
}
// the typed coefficients as constants of the extension
pub proof fn lemma_typed(p: int, k: int, x: int)
  requires size_ok(p, k), size_ok(p, 1), p % 2 == 1, is_field(std_field(p, 1)), compatible(p, k), 0 <= x < p - 1
  ensures gpow(std_field(p, k), x * ((pow(p, k as nat) - 1) / (p - 1))) == gpow(std_field(p, 1), x)
{
  let F = std_field(p, k); let G = std_field(p, 1); let K = (pow(p, k as nat) - 1) / (p - 1); let g = G.gen;
  fq_ctx_axiom(p, k); fq_ctx_axiom(p, 1); lemma_digital(p, k); lemma_digital(p, 1); lemma_field_laws(F); lemma_field_laws(G);
  lemma_pow_positive(p, k as nat); lemma_div_pos_is_pos(pow(p, k as nat) - 1, p - 1); lemma_pow1(p); law_consts(G);
  lemma_fpow_gpow(F, K, x); assert(K * x == x * K) by (nonlinear_arith);
  lemma_const_pow(F, p, k, g, x); lemma_const_pow(G, p, 1, g, x); lemma_gen_pow(G, x);
}
pub open spec fn method_field(how: int, p: int, k: int) -> Fld { if how == 3 { zech_field(p, k) } else { std_field(p, k) } }
pub open spec fn points_in(F: Fld, c: Seq<u32>) -> (u32, u32) { (nsquares(F, c) as u32, nzeros(F, c) as u32) }
pub open spec fn typed_curve(c: Curve, co: Seq<u32>, p: int) -> bool {
  &&& curve_ok(c) && c.table@.prime == p && c.table@.prime_exponent == 1 && is_deg(co, p, deg(c))
  &&& forall|i: int| 0 <= i < c.poly_coeff_exponents@.len() ==> el(std_field(p, 1), (#[trigger] c.poly_coeff_exponents@[i]) as int) == co[i] as int % p
}
pub open spec fn counts_from(c: Curve, how: int, p: int, n: int) -> bool {
  &&& forall|k: u32| #[trigger] c.nmb_points@.dom().contains(k) <==> n < k <= (deg(c) - 1) / 2
  &&& forall|k: u32| #[trigger] c.nmb_points@.dom().contains(k) ==> c.nmb_points@[k] == points_in(method_field(how, p, k as int), lifted_to(c, pow(p, k as nat) - 1))
}
pub open spec fn typed_at(c: Curve, co: Seq<u32>, p: int, k: int, i: int) -> bool { el(std_field(p, k), lifted_to(c, pow(p, k as nat) - 1)[i] as int) == co[i] as int % p }
pub open spec fn fits(co: Seq<u32>, p: int, how: int, d: int, k: int) -> bool { k <= 64 && pow(p, k as nat) <= 0x3fff_ffff && (how == 2 ==> has_conway(p, k)) }
pub proof fn lemma_typed_at(c: Curve, co: Seq<u32>, p: int, k: int, i: int)
  requires typed_curve(c, co, p), is_prime(p), p % 2 == 1, p <= 0x3fff_ffff, is_field(std_field(p, 1)), compatible(p, k), 1 <= k <= 64, pow(p, k as nat) <= 0x3fff_ffff, 0 <= i < c.poly_coeff_exponents@.len()
  ensures typed_at(c, co, p, k, i)
{
  lemma_fit(p, k); lemma_pow1(p); lemma_fit(p, 1);
  let x = c.poly_coeff_exponents@[i] as int; let M = pow(p, k as nat) - 1;
  assert(c.table@.prime_power == p && c.table@.prime_power_pred == p - 1);
  fq_ctx_axiom(p, k); fq_ctx_axiom(p, 1); lemma_digital(p, k); lemma_digital(p, 1);
  lemma_fundamental_div_mod(k, 1); lemma_lift_to(c, k);
  if x < p - 1 { lemma_typed(p, k, x); }
}
@end

@fn single = single_curve_fp
@requires size: is_prime(prime0 as int) && prime0 % 2 == 1 && prime0 <= 0x3fff_ffff && poly_coeffs0@.len() < 0x4000_0000
@requires method: implementation0 == 0 || implementation0 == 2 || implementation0 == 3
@requires degree: exists|d: int| is_deg(poly_coeffs0@, prime0 as int, d)
@requires fit: forall|d: int, k: int| is_deg(poly_coeffs0@, prime0 as int, d) && 1 <= k <= (d - 1) / 2 ==> #[trigger] fits(poly_coeffs0@, prime0 as int, implementation0 as int, d, k)
@ensures curve: !res.ret.is_null() && typed_curve(res.ret@, poly_coeffs0@, prime0 as int)
@ensures counts: counts_from(res.ret@, implementation0 as int, prime0 as int, 0)
@ensures typed: forall|k: int, i: int| 1 <= k <= (deg(res.ret@) - 1) / 2 && compatible(prime0 as int, k) && 0 <= i < res.ret@.poly_coeff_exponents@.len() ==> #[trigger] typed_at(res.ret@, poly_coeffs0@, prime0 as int, k, i)
@proof begin
let ghost p = prime0 as int;
let ghost co = poly_coeffs0@;
let ghost F = std_field(prime0 as int, 1);
let ghost m = p - 1;
proof { lemma_pow1(p); assert(p >= 3); fq_ctx_axiom(p, 1); lemma_digital(p, 1); }
@end
@proof before loop 1
proof {
  lemma_prime_field(p);
  assert(gpow(F, 0) == 1 && gpow(F, 1) == fmul(F, gpow(F, 0), F.gen)); lemma_field_laws(F); law_consts(F); lw_unit(F, F.gen);
  let ctx = fq_ctx_of(p, 1); let x = enumeration_table@.fq_elements@[1];
  assert(fq_elt(ctx, x) && fq_code(ctx, x) == el(F, 1));
  lemma_hcode_one(x, p);
}
@end
@loop 1
@inv same: prime == prime0 && poly_coeffs == poly_coeffs0 && implementation == implementation0 && ex <= m && gen == F.gen && a == gpow(F, ex as int) && 0 <= a < p
@inv logs: log_map(F, fp_conversion_map@, ex as int)
@decreases m - ex
@proof loop 1 begin
let ghost m1 = fp_conversion_map@;
let ghost a1 = a as int;
proof { lemma_field_laws(F); lemma_const_mul(F, p, 1, a as int, gen as int); lemma_gpow_nonzero(F, ex as int); lemma_mod_bound(a as int * gen as int, p);
  assert(gpow(F, ex + 1) == fmul(F, gpow(F, ex as int), F.gen));
  assert(0 <= a as int * gen as int <= 0x3fff_ffff * 0x3fff_ffff) by (nonlinear_arith) requires 0 <= a <= 0x3fff_ffff, 0 <= gen <= 0x3fff_ffff; }
@end
@proof loop 1 endinc
proof {
  let m2 = fp_conversion_map@;
  assert forall|i: int| 0 <= i < ex implies #[trigger] m2.dom().contains(gpow(F, i) as u32) by { if i < ex - 1 { assert(m1.dom().contains(gpow(F, i) as u32)); } else { assert(gpow(F, i) == a1); } }
  assert forall|x: u32| #[trigger] m2.dom().contains(x) && x != 0 implies 0 <= m2[x] < ex && gpow(F, m2[x] as int) == x by { if x != a1 { assert(m1.dom().contains(x)); } }
}
@end
@proof after loop 1
proof { lemma_log_all(F, fp_conversion_map@); }
@end
@loop 2
@inv same: prime == prime0 && poly_coeffs == poly_coeffs0 && implementation == implementation0 && log_all(F, fp_conversion_map@)
@inv exps: it2 <= co.len() && poly_coeff_exponents@.len() == it2 && forall|i: int| 0 <= i < it2 ==> (#[trigger] poly_coeff_exponents@[i]) < p && el(F, poly_coeff_exponents@[i] as int) == co[i] as int % p
@decreases co.len() - it2
@proof loop 2 begin
proof { lemma_mod_bound(co[it2 as int] as int, p); assert(fp_conversion_map@.dom().contains((co[it2 as int] as int % p) as u32)); }
@end
@proof after loop 2
let ghost exps = poly_coeff_exponents@;
proof {
  let d = choose|d: int| is_deg(co, p, d);
  assert(exps[d] != p - 1);
}
@end
@proof after ctor
let ghost c0 = $r.this;
proof {
  let n = c0.poly_coeff_exponents@.len() as int;
  let d = choose|d: int| is_deg(co, p, d);
  assert(exps[d] != p - 1);
  assert(c0.poly_coeff_exponents@[n - 1] == exps[n - 1]);
  lemma_gpow_nonzero(F, exps[n - 1] as int);
  if d >= n { assert(exps[d] == p - 1); }
  assert forall|i: int| n <= i < co.len() implies #[trigger] co[i] as int % p == 0 by { assert(exps[i] == p - 1); }
  assert(is_deg(co, p, n - 1));
  assert forall|i: int| 0 <= i < n implies (#[trigger] c0.poly_coeff_exponents@[i]) < p && el(F, c0.poly_coeff_exponents@[i] as int) == co[i] as int % p by { assert(c0.poly_coeff_exponents@[i] == exps[i]); }
  assert(typed_curve(c0, co, p));
}
@end
@loop 3
@inv same: prime == prime0 && poly_coeffs == poly_coeffs0 && implementation == implementation0 && (implementation == 2 || implementation == 3)
@inv curve: !curve.is_null() && curve@.table == c0.table && curve@.poly_coeff_exponents == c0.poly_coeff_exponents && fx <= (deg(c0) - 1) / 2 && counts_from(curve@, implementation0 as int, p, fx as int)
@decreases fx
@proof loop 3 begin
let ghost cu = curve@;
proof { assert(is_deg(co, p, deg(c0))); assert(fits(co, p, implementation0 as int, deg(c0), fx as int)); lemma_fit(p, fx as int); zech_axiom(p, fx as int); }
@end
@proof loop 3 end
proof { assert(lifted_to(curve@, pow(p, (fx + 1) as nat) - 1) == lifted_to(cu, pow(p, (fx + 1) as nat) - 1)); }
@end
@loop 4
@inv same: prime == prime0 && poly_coeffs == poly_coeffs0 && implementation == implementation0 && implementation == 0 && opencl.is_null()
@inv curve: !curve.is_null() && curve@.table == c0.table && curve@.poly_coeff_exponents == c0.poly_coeff_exponents && fx <= (deg(c0) - 1) / 2 && counts_from(curve@, implementation0 as int, p, fx as int)
@decreases fx
@proof loop 4 begin
let ghost cu = curve@;
proof { assert(is_deg(co, p, deg(c0))); assert(fits(co, p, implementation0 as int, deg(c0), fx as int)); lemma_fit(p, fx as int); }
@end
@proof return
proof {
  let c = curve@;
  assert forall|k: int, i: int| 1 <= k <= (deg(c) - 1) / 2 && compatible(p, k) && 0 <= i < c.poly_coeff_exponents@.len() implies #[trigger] typed_at(c, co, p, k, i) by { assert(fits(co, p, implementation0 as int, deg(c0), k)); lemma_typed_at(c, co, p, k, i); }
}
@end

# Curve: the reference counting methods (C03)
@tu src/curve.cc
@use curve.vc
@prelude
// Euler: a non-zero square is one to the power (q-1)/2
pub proof fn lemma_euler(F: Fld, i: int)
  requires is_field(F), 0 <= i < F.q - 1
  ensures fpow(F, el(F, i), (F.q - 1) / 2) == F.one <==> nz_square(F, el(F, i))
{
  lemma_q(F); lemma_square(F, i);
  let m = F.q - 1; let h = m / 2;
  lemma_fpow_gpow(F, i, h);
  assert(gpow(F, 0) == F.one);
  lemma_fundamental_div_mod(i, 2);
  let k = i / 2;
  lemma_small_mod(0nat, m as nat); lemma_small_mod(h as nat, m as nat);
  if i % 2 == 0 {
    assert(i * h == k * m) by (nonlinear_arith) requires i == 2 * k, m == 2 * h;
    assert(k * m >= 0) by (nonlinear_arith) requires k >= 0, m >= 2;
    lemma_gpow_period(F, 0, k);
  } else {
    assert(i * h == k * m + h) by (nonlinear_arith) requires i == 2 * k + 1, m == 2 * h;
    assert(k * m >= 0) by (nonlinear_arith) requires k >= 0, m >= 2;
    lemma_gpow_period(F, h, k);
    if gpow(F, i * h) == F.one { lemma_gpow_eq(F, h, 0); }
  }
}
pub proof fn lemma_euler_at(F: Fld, a: int)
  requires is_field(F), inn(F, a), a != F.zero
  ensures fpow(F, a, (F.q - 1) / 2) == F.one <==> nz_square(F, a)
{ let i = law_log(F, a); lemma_euler(F, i); }
// zero, g^0, ..., g^(n-1)
pub open spec fn tz(F: Fld, c: Seq<u32>, a: int) -> int { if evf(F, c, a) == F.zero { 1 } else { 0 } }
pub open spec fn ts(F: Fld, c: Seq<u32>, a: int) -> int { if nz_square(F, evf(F, c, a)) { 1 } else { 0 } }
pub open spec fn run_z(F: Fld, c: Seq<u32>, n: int) -> int { tz(F, c, F.zero) + if n <= 0 { 0 } else { tz(F, c, F.one) + zeros_to(F, c, n - 1).len() } }
pub open spec fn run_s(F: Fld, c: Seq<u32>, n: int) -> int { ts(F, c, F.zero) + if n <= 0 { 0 } else { ts(F, c, F.one) + squares_to(F, c, n - 1).len() } }
pub proof fn lemma_run_bound(F: Fld, c: Seq<u32>, n: int)
  requires is_field(F), 0 <= n <= F.q - 1
  ensures 0 <= run_z(F, c, n) <= F.q, 0 <= run_s(F, c, n) <= F.q
{ if n > 0 { lemma_to_bound(F, c, n - 1); } }
pub proof fn lemma_run_step(F: Fld, c: Seq<u32>, n: int)
  requires is_field(F), 0 <= n < F.q - 1
  ensures run_z(F, c, n + 1) == run_z(F, c, n) + tz(F, c, gpow(F, n)), run_s(F, c, n + 1) == run_s(F, c, n) + ts(F, c, gpow(F, n))
{ if n > 0 { lemma_to_step(F, c, n); } else { lemma_to_start(F, c); } }
pub proof fn lemma_run_all(F: Fld, c: Seq<u32>)
  requires is_field(F), logs_ok(F, c), c.len() >= 1
  ensures run_z(F, c, F.q - 1) == zeros(F, c).len(), run_s(F, c, F.q - 1) == squares(F, c).len()
{
  lemma_q(F); lemma_to_all(F, c); lemma_ev_zero(F, c, c.len() as int); lemma_square(F, c[0] as int); lemma_el_in(F, c[0] as int);
  law_fermat(F); lemma_to_step(F, c, F.q - 1);
}
pub proof fn lemma_lift_to(c: Curve, E: int)
  requires curve_ok(c), E >= 1, E % (c.table@.prime_exponent as int) == 0, pow(c.table@.prime as int, E as nat) <= 0x3fff_ffff
  ensures ({ let M = pow(c.table@.prime as int, E as nat) - 1; let m = c.table@.prime_power_pred as int; let k = M / m;
    &&& m >= 2 && M >= m && M == m * k && k >= 1
    &&& lifted_to(c, M).len() == c.poly_coeff_exponents@.len()
    &&& forall|i: int| 0 <= i < c.poly_coeff_exponents@.len() ==> 0 <= (#[trigger] c.poly_coeff_exponents@[i]) as int * k <= M && lifted_to(c, M)[i] <= M
    &&& forall|i: int| 0 <= i < c.poly_coeff_exponents@.len() ==> (if #[trigger] c.poly_coeff_exponents@[i] == m { lifted_to(c, M)[i] == M } else { lifted_to(c, M)[i] == c.poly_coeff_exponents@[i] as int * k && lifted_to(c, M)[i] < M })
    &&& lifted_to(c, M).last() < M })
{
  let e = c.table@.prime_exponent as int; let m = c.table@.prime_power_pred as int; let M = pow(c.table@.prime as int, E as nat) - 1;
  lemma_fundamental_div_mod(E, e);
  let n = E / e;
  assert(n >= 1) by (nonlinear_arith) requires E == e * n, E >= 1, e >= 1;
  assert(E >= e) by (nonlinear_arith) requires E == e * n, n >= 1, e >= 1;
  lemma_pow_divides(c.table@.prime as int, e as nat, n as nat);
  lemma_pow_mono(c.table@.prime as int, e, E);
  lemma_fundamental_div_mod(M, m);
  let k = M / m;
  assert(k >= 1) by (nonlinear_arith) requires M == m * k, M >= 1, m >= 1;
  assert forall|i: int| 0 <= i < c.poly_coeff_exponents@.len() implies 0 <= (#[trigger] c.poly_coeff_exponents@[i]) as int * k <= M && lifted_to(c, M)[i] <= M && (if c.poly_coeff_exponents@[i] == m { lifted_to(c, M)[i] == M } else { lifted_to(c, M)[i] == c.poly_coeff_exponents@[i] as int * k && lifted_to(c, M)[i] < M }) by {
    let x = c.poly_coeff_exponents@[i] as int;
    assert(x <= m);
    assert(x * k <= M && x * k >= 0) by (nonlinear_arith) requires 0 <= x <= m, k >= 1, M == m * k;
    if x != m { assert(x * k < M) by (nonlinear_arith) requires 0 <= x < m, k >= 1, M == m * k; }
  }
  let l = c.poly_coeff_exponents@.len() - 1;
  assert(c.poly_coeff_exponents@[l] != m);
}
// the coefficient that belongs to the generator of the subfield
pub proof fn lemma_coeff(F: Fld, k: int, e: int)
  requires is_field(F), k >= 0, e >= 0
  ensures fpow(F, F.gen, k) == gpow(F, k), fpow(F, gpow(F, k), e) == gpow(F, e * k), e * k >= 0
{
  lemma_q(F); lemma_zero(F, F.gen);
  assert(gpow(F, 0) == F.one); assert(gpow(F, 1) == fmul(F, gpow(F, 0), F.gen));
  lemma_fpow_gpow(F, 1, k); assert(1 * k == k);
  lemma_fpow_gpow(F, k, e); assert(k * e == e * k) by (nonlinear_arith);
}
@end

@fn naive_nmod = Curve::count_naive_nmod
@requires ok: curve_ok(this0) && this0.table@.prime % 2 == 1 && is_prime(this0.table@.prime as int)
@requires fit: prime_exponent0 >= 1 && prime_exponent0 as int % this0.table@.prime_exponent as int == 0 && pow(this0.table@.prime as int, prime_exponent0 as nat) <= 0x3fff_ffff && has_conway(this0.table@.prime as int, prime_exponent0 as int)
@ensures frame: res.this.table == this0.table && res.this.poly_coeff_exponents == this0.poly_coeff_exponents
@ensures again: this0.nmb_points@.dom().contains(prime_exponent0) ==> res.this == this0
@ensures counts: !this0.nmb_points@.dom().contains(prime_exponent0) ==> res.this.nmb_points@ == this0.nmb_points@.insert(prime_exponent0, (nsquares(std_field(this0.table@.prime as int, prime_exponent0 as int), lifted_to(this0, pow(this0.table@.prime as int, prime_exponent0 as nat) - 1)) as u32, nzeros(std_field(this0.table@.prime as int, prime_exponent0 as int), lifted_to(this0, pow(this0.table@.prime as int, prime_exponent0 as nat) - 1)) as u32))
@ensures points: points_ok(this0) ==> points_ok(res.this)
@proof begin
let ghost p = this0.table@.prime as int;
let ghost E = prime_exponent0 as int;
let ghost F = std_field(this0.table@.prime as int, prime_exponent0 as int);
let ghost M = pow(p, E as nat) - 1;
let ghost m0 = this0.table@.prime_power_pred as int;
let ghost c = lifted_to(this0, M);
let ghost kk = M / m0;
proof { lemma_lift_to(this0, E);  }
@end
@proof before loop 1
proof { lemma_conway(fq_ctx); assert(ctx_field(fq_ctx) == F); lemma_q(F); lemma_coeff(F, kk, 0); assert(logs_ok(F, c)); assert(fq_code(fq_ctx, sub_gen) == gpow(F, kk)); }
@end
@loop 1
@inv same: this == this0 && prime_exponent == prime_exponent0
@inv coefs: poly_coefficients@.len() == it1 && it1 <= this0.poly_coeff_exponents@.len() && forall|i: int| 0 <= i < it1 ==> fq_elt(fq_ctx, #[trigger] poly_coefficients@[i]) && fq_code(fq_ctx, poly_coefficients@[i]) == el(F, c[i] as int)
@proof loop 1 begin
proof { let x = this0.poly_coeff_exponents@[it1 as int]; lemma_coeff(F, kk, x as int); lemma_lift_to(this0, E); }
@end
@proof before loop 2
proof { assert(this.nmb_points@ =~= this0.nmb_points@.insert(prime_exponent0, (0u32, 0u32))); lemma_q(F); assert(fpow(F, F.zero, 0) == F.one); assert(ev(F, c, F.zero, 0) == F.zero); }
@end
@loop 2
@inv at: it2 <= c.len() && fq_elt(fq_ctx, xpw) && fq_elt(fq_ctx, rhs) && fq_code(fq_ctx, xpw) == fpow(F, F.zero, it2 as int) && fq_code(fq_ctx, rhs) == ev(F, c, F.zero, it2 as int)
@proof after loop 2
proof { lemma_q(F); lemma_ev_in(F, c, F.zero, c.len() as int); if fq_code(fq_ctx, rhs) != F.zero { lemma_euler_at(F, fq_code(fq_ctx, rhs)); } else { assert(!nz_square(F, fq_code(fq_ctx, rhs))); } assert(fq_code(fq_ctx, rhs) == evf(F, c, F.zero)); }
@end
@proof before loop 3
proof { assert(this.nmb_points@ =~= this0.nmb_points@.insert(prime_exponent0, ((2 * run_s(F, c, 0)) as u32, run_z(F, c, 0) as u32))); assert(gpow(F, 0) == F.one); }
@end
@loop 3
@inv same: this.table == this0.table && this.poly_coeff_exponents == this0.poly_coeff_exponents && prime_exponent == prime_exponent0
@inv x: 0 <= ix <= M && fq_elt(fq_ctx, x) && fq_code(fq_ctx, x) == gpow(F, ix as int)
@inv counts: this.nmb_points@ == this0.nmb_points@.insert(prime_exponent0, ((2 * run_s(F, c, ix as int)) as u32, run_z(F, c, ix as int) as u32))
@decreases M - ix
@proof before loop 4
proof { assert(fpow(F, fq_code(fq_ctx, x), 0) == F.one); assert(ev(F, c, fq_code(fq_ctx, x), 0) == F.zero); }
@end
@proof after loop 4
proof {
  lemma_gpow_in(F, ix as int); lemma_ev_in(F, c, fq_code(fq_ctx, x), c.len() as int); if fq_code(fq_ctx, rhs) != F.zero { lemma_euler_at(F, fq_code(fq_ctx, rhs)); } else { assert(!nz_square(F, fq_code(fq_ctx, rhs))); } assert(fq_code(fq_ctx, rhs) == evf(F, c, fq_code(fq_ctx, x)));
  lemma_run_step(F, c, ix as int); lemma_run_bound(F, c, ix as int); lemma_run_bound(F, c, ix + 1);
}
@end
@proof loop 3 end
proof { assert(this.nmb_points@ =~= this0.nmb_points@.insert(prime_exponent0, ((2 * run_s(F, c, ix + 1)) as u32, run_z(F, c, ix + 1) as u32))); }
@end
@loop 4
@inv same: this.table == this0.table && this.poly_coeff_exponents == this0.poly_coeff_exponents && prime_exponent == prime_exponent0 && 0 <= ix < M && fq_elt(fq_ctx, x) && fq_code(fq_ctx, x) == gpow(F, ix as int)
@inv counts: this.nmb_points@ == this0.nmb_points@.insert(prime_exponent0, ((2 * run_s(F, c, ix as int)) as u32, run_z(F, c, ix as int) as u32))
@inv at: it4 <= c.len() && fq_elt(fq_ctx, xpw) && fq_elt(fq_ctx, rhs) && fq_code(fq_ctx, xpw) == fpow(F, fq_code(fq_ctx, x), it4 as int) && fq_code(fq_ctx, rhs) == ev(F, c, fq_code(fq_ctx, x), it4 as int)
@proof after loop 3
proof { lemma_run_all(F, c); lemma_run_bound(F, c, M); lemma_euler(F, c.last() as int); lemma_el_in(F, c.last() as int); lemma_square(F, c.last() as int); }
@end
@proof return
proof { if !this0.nmb_points@.dom().contains(prime_exponent0) { assert(this.nmb_points@ =~= this0.nmb_points@.insert(prime_exponent0, (nsquares(F, c) as u32, nzeros(F, c) as u32))); if points_ok(this0) { lemma_points_ok(this0, this, F, prime_exponent0, c); } } }
@end

@fn naive_zech = Curve::count_naive_zech
@requires ok: curve_ok(this0) && this0.table@.prime % 2 == 1 && is_prime(this0.table@.prime as int)
@requires fit: prime_exponent0 >= 1 && prime_exponent0 as int % this0.table@.prime_exponent as int == 0 && pow(this0.table@.prime as int, prime_exponent0 as nat) <= 0x3fff_ffff
@ensures frame: res.this.table == this0.table && res.this.poly_coeff_exponents == this0.poly_coeff_exponents
@ensures again: this0.nmb_points@.dom().contains(prime_exponent0) ==> res.this == this0
@ensures counts: !this0.nmb_points@.dom().contains(prime_exponent0) ==> res.this.nmb_points@ == this0.nmb_points@.insert(prime_exponent0, (nsquares(zech_field(this0.table@.prime as int, prime_exponent0 as int), lifted_to(this0, pow(this0.table@.prime as int, prime_exponent0 as nat) - 1)) as u32, nzeros(zech_field(this0.table@.prime as int, prime_exponent0 as int), lifted_to(this0, pow(this0.table@.prime as int, prime_exponent0 as nat) - 1)) as u32))
@ensures points: points_ok(this0) ==> points_ok(res.this)
@ensures agree: has_conway(this0.table@.prime as int, prime_exponent0 as int) ==> zech_field(this0.table@.prime as int, prime_exponent0 as int) == std_field(this0.table@.prime as int, prime_exponent0 as int)
@proof begin
let ghost p = this0.table@.prime as int;
let ghost E = prime_exponent0 as int;
let ghost F = zech_field(this0.table@.prime as int, prime_exponent0 as int);
let ghost M = pow(p, E as nat) - 1;
let ghost m0 = this0.table@.prime_power_pred as int;
let ghost c = lifted_to(this0, M);
let ghost kk = M / m0;
proof { lemma_lift_to(this0, E); zech_axiom(p, E); }
@end
@proof before loop 1
proof { assert(zf(fq_ctx) == F); lemma_q(F); lemma_coeff(F, kk, 0); assert(logs_ok(F, c)); assert(sub_gen@ == gpow(F, kk)); }
@end
@loop 1
@inv same: this == this0 && prime_exponent == prime_exponent0
@inv coefs: poly_coefficients@.len() == it1 && it1 <= this0.poly_coeff_exponents@.len() && forall|i: int| 0 <= i < it1 ==> #[trigger] poly_coefficients@[i]@ == poly_coefficients@[i]@ && (poly_coefficients@[i])@ == el(F, c[i] as int)
@proof loop 1 begin
proof { let x = this0.poly_coeff_exponents@[it1 as int]; lemma_coeff(F, kk, x as int); lemma_lift_to(this0, E); }
@end
@proof before loop 2
proof { assert(this.nmb_points@ =~= this0.nmb_points@.insert(prime_exponent0, (0u32, 0u32))); lemma_q(F); assert(fpow(F, F.zero, 0) == F.one); assert(ev(F, c, F.zero, 0) == F.zero); }
@end
@loop 2
@inv at: it2 <= c.len() && true && true && xpw@ == fpow(F, F.zero, it2 as int) && rhs@ == ev(F, c, F.zero, it2 as int)
@proof after loop 2
proof { lemma_q(F); lemma_ev_in(F, c, F.zero, c.len() as int); if rhs@ != F.zero { lemma_euler_at(F, rhs@); } else { assert(!nz_square(F, rhs@)); } assert(rhs@ == evf(F, c, F.zero)); }
@end
@proof before loop 3
proof { assert(this.nmb_points@ =~= this0.nmb_points@.insert(prime_exponent0, ((2 * run_s(F, c, 0)) as u32, run_z(F, c, 0) as u32))); assert(gpow(F, 0) == F.one); }
@end
@loop 3
@inv same: this.table == this0.table && this.poly_coeff_exponents == this0.poly_coeff_exponents && prime_exponent == prime_exponent0
@inv x: 0 <= ix <= M && true && x@ == gpow(F, ix as int)
@inv counts: this.nmb_points@ == this0.nmb_points@.insert(prime_exponent0, ((2 * run_s(F, c, ix as int)) as u32, run_z(F, c, ix as int) as u32))
@decreases M - ix
@proof before loop 4
proof { assert(fpow(F, x@, 0) == F.one); assert(ev(F, c, x@, 0) == F.zero); }
@end
@proof after loop 4
proof {
  lemma_gpow_in(F, ix as int); lemma_ev_in(F, c, x@, c.len() as int); if rhs@ != F.zero { lemma_euler_at(F, rhs@); } else { assert(!nz_square(F, rhs@)); } assert(rhs@ == evf(F, c, x@));
  lemma_run_step(F, c, ix as int); lemma_run_bound(F, c, ix as int); lemma_run_bound(F, c, ix + 1);
}
@end
@proof loop 3 end
proof { assert(this.nmb_points@ =~= this0.nmb_points@.insert(prime_exponent0, ((2 * run_s(F, c, ix + 1)) as u32, run_z(F, c, ix + 1) as u32))); }
@end
@loop 4
@inv same: this.table == this0.table && this.poly_coeff_exponents == this0.poly_coeff_exponents && prime_exponent == prime_exponent0 && 0 <= ix < M && true && x@ == gpow(F, ix as int)
@inv counts: this.nmb_points@ == this0.nmb_points@.insert(prime_exponent0, ((2 * run_s(F, c, ix as int)) as u32, run_z(F, c, ix as int) as u32))
@inv at: it4 <= c.len() && true && true && xpw@ == fpow(F, x@, it4 as int) && rhs@ == ev(F, c, x@, it4 as int)
@proof after loop 3
proof { lemma_run_all(F, c); lemma_run_bound(F, c, M); lemma_euler(F, c.last() as int); lemma_el_in(F, c.last() as int); lemma_square(F, c.last() as int); }
@end
@proof return
proof { if !this0.nmb_points@.dom().contains(prime_exponent0) { assert(this.nmb_points@ =~= this0.nmb_points@.insert(prime_exponent0, (nsquares(F, c) as u32, nzeros(F, c) as u32))); if points_ok(this0) { lemma_points_ok(this0, this, F, prime_exponent0, c); } } }
@end

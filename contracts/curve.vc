# Curve: counting with the tables, lists of point counts and offsets (C01, C04)
@tu src/curve.cc
@use fq.vc
@use tabledef.vc
@prelude
pub open spec fn table_ok(t: ReductionTable) -> bool {
  &&& t.prime_power <= 0x3fff_ffff && t.prime >= 3 && t.prime_exponent >= 1 && t.prime_exponent <= 64 && t.prime_power == pow(t.prime as int, t.prime_exponent as nat)
  &&& tables_of(t, field_of(t))
}
pub open spec fn curve_ok(c: Curve) -> bool {
  &&& !c.table.is_null()
  &&& 2 <= c.poly_coeff_exponents@.len() < 0x4000_0000
  &&& c.table@.prime >= 3 && 1 <= c.table@.prime_exponent <= 64 && c.table@.prime_power == pow(c.table@.prime as int, c.table@.prime_exponent as nat)
  &&& c.table@.prime_power <= 0x3fff_ffff && c.table@.prime_power_pred == c.table@.prime_power - 1
  &&& (forall|i: int| 0 <= i < c.poly_coeff_exponents@.len() ==> #[trigger] c.poly_coeff_exponents@[i] < c.table@.prime_power)
  &&& c.poly_coeff_exponents@.last() != c.table@.prime_power_pred
}
pub open spec fn deg(c: Curve) -> int { c.poly_coeff_exponents@.len() - 1 }
// logarithms of the coefficients in the extension
pub open spec fn lift(x: u32, m: int, k: int) -> u32 { if x == m { (m * k) as u32 } else { (x * k) as u32 } }
pub open spec fn lifted_to(c: Curve, M: int) -> Seq<u32> {
  Seq::new(c.poly_coeff_exponents@.len(), |i: int| lift(c.poly_coeff_exponents@[i], c.table@.prime_power_pred as int, M / c.table@.prime_power_pred as int))
}
pub open spec fn lifted(c: Curve, t: ReductionTable) -> Seq<u32> { lifted_to(c, t.prime_power_pred as int) }
// twice the number of x on the projective line with f(x) a non-zero square, and the number of zeros
pub open spec fn nsquares(F: Fld, c: Seq<u32>) -> int { 2 * (squares(F, c).len() + (if (c.len() - 1) % 2 == 0 && c.last() % 2 == 0 { 1int } else { 0int })) }
pub open spec fn nzeros(F: Fld, c: Seq<u32>) -> int { zeros(F, c).len() + (if (c.len() - 1) % 2 == 1 { 1int } else { 0int }) }
pub proof fn lemma_pow_divides(p: int, e: nat, k: nat)
  requires p >= 3, e >= 1
  ensures pow(p, e) >= 3, (pow(p, e * k) - 1) % (pow(p, e) - 1) == 0, pow(p, e * k) >= 1
  decreases k
{
  let b = pow(p, e);
  assert(b >= 3) by { vstd::arithmetic::power::lemma_pow_increases(p as nat, 1, e); vstd::arithmetic::power::lemma_pow1(p); }
  if k == 0 { assert(e * 0 == 0); vstd::arithmetic::power::lemma_pow0(p); assert((b - 1) != 0); vstd::arithmetic::div_mod::lemma_small_mod(0, (b - 1) as nat); }
  else {
    lemma_pow_divides(p, e, (k - 1) as nat);
    assert(e * k == e * (k - 1) + e) by (nonlinear_arith);
    vstd::arithmetic::power::lemma_pow_adds(p, (e * (k - 1)) as nat, e);
    let a = pow(p, (e * (k - 1)) as nat);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a - 1, b - 1);
    let y = (a - 1) / (b - 1);
    assert(a * b - 1 == (b * y + 1) * (b - 1)) by (nonlinear_arith) requires a - 1 == (b - 1) * y;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(b * y + 1, b - 1);
    assert(a * b >= 1) by (nonlinear_arith) requires a >= 1, b >= 3;
  }
}
pub proof fn lemma_lift(c: Curve, t: ReductionTable)
  requires curve_ok(c), table_ok(t), c.table@.prime == t.prime, t.prime_exponent as int % c.table@.prime_exponent as int == 0
  ensures c.table@.prime_power_pred >= 2, t.prime_power_pred as int == c.table@.prime_power_pred as int * (t.prime_power_pred as int / c.table@.prime_power_pred as int),
    lifted(c, t).len() == c.poly_coeff_exponents@.len(),
    forall|i: int| 0 <= i < lifted(c, t).len() ==> #[trigger] lifted(c, t)[i] < t.prime_power,
    lifted(c, t).last() < t.prime_power_pred,
    forall|i: int| 0 <= i < lifted(c, t).len() ==> #[trigger] c.poly_coeff_exponents@[i] as int * (t.prime_power_pred as int / c.table@.prime_power_pred as int) <= t.prime_power_pred,
    c.table@.prime_exponent == t.prime_exponent ==> lifted(c, t) =~= c.poly_coeff_exponents@
{
  let e = c.table@.prime_exponent as int; let E = t.prime_exponent as int; let m = c.table@.prime_power_pred as int; let M = t.prime_power_pred as int;
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(E, e);
  let k = E / e;
  assert(k >= 0) by (nonlinear_arith) requires E >= 1, e >= 1, k == E / e;
  lemma_pow_divides(t.prime as int, e as nat, k as nat);
  let F = field_of(t);
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(M, m);
  let f = M / m;
  assert(M == m * f);
  assert(f >= 1) by (nonlinear_arith) requires M == m * f, M >= 1, m >= 1;
  assert forall|i: int| 0 <= i < lifted(c, t).len() implies #[trigger] lifted(c, t)[i] < t.prime_power && c.poly_coeff_exponents@[i] as int * f <= M && (c.poly_coeff_exponents@[i] != m ==> lifted(c, t)[i] < M) by {
    let x = c.poly_coeff_exponents@[i] as int;
    assert(x <= m);
    assert(x * f <= M && x * f >= 0) by (nonlinear_arith) requires 0 <= x <= m, f >= 1, M == m * f;
    if x != m { assert(x * f < M) by (nonlinear_arith) requires 0 <= x < m, f >= 1, M == m * f; }
  }
  assert forall|i: int| 0 <= i < lifted(c, t).len() implies #[trigger] c.poly_coeff_exponents@[i] as int * f <= M by { assert(lifted(c, t)[i] < t.prime_power); }
  if e == E {
    assert(m == M);
    vstd::arithmetic::div_mod::lemma_div_by_self(m);
    assert(f == 1);
    assert forall|i: int| 0 <= i < lifted(c, t).len() implies lifted(c, t)[i] == c.poly_coeff_exponents@[i] by {
      let x = c.poly_coeff_exponents@[i] as int; assert(x * 1 == x); assert(m * 1 == m); }
  }
}
// point counts are within the bounds that the number of points allows
pub open spec fn points_ok(c: Curve) -> bool {
  forall|k: u32| #[trigger] c.nmb_points@.dom().contains(k) ==> 1 <= k <= 64 && pow(c.table@.prime as int, k as nat) <= 0x3fff_ffff && c.nmb_points@[k].0 + c.nmb_points@[k].1 <= 2 * pow(c.table@.prime as int, k as nat) + 2
}
pub proof fn lemma_twice_pow(p: int, n: nat, b: int)
  requires pow(p, n) >= b, b >= 1
  ensures pow(p, 2 * n) >= b * b
{ vstd::arithmetic::power::lemma_pow_adds(p, n, n); let x = pow(p, n); assert(x * x >= b * b) by (nonlinear_arith) requires x >= b, b >= 1; }
pub proof fn lemma_degree_small(p: int, k: int)
  requires p >= 3, k >= 1, pow(p, k as nat) <= 0x3fff_ffff
  ensures k <= 64
{
  if k > 64 {
    vstd::arithmetic::power::lemma_pow1(p); lemma_twice_pow(p, 1, 3); lemma_twice_pow(p, 2, 9); lemma_twice_pow(p, 4, 81); lemma_twice_pow(p, 8, 6561); lemma_twice_pow(p, 16, 43046721);
    vstd::arithmetic::power::lemma_pow_increases(p as nat, 32, k as nat);
    assert(43046721int * 43046721 > 0x3fff_ffff) by (nonlinear_arith);
  }
}
// the counts of a curve are not larger than the field allows
pub proof fn lemma_points_bound(F: Fld, c: Seq<u32>)
  requires F.q >= 1
  ensures 0 <= nsquares(F, c), 0 <= nzeros(F, c), nsquares(F, c) + nzeros(F, c) <= 2 * F.q + 2
{
  let R = vstd::set_lib::set_int_range(0, F.q); vstd::set_lib::lemma_int_range(0, F.q);
  let S = squares(F, c); let Z = zeros(F, c);
  assert(S.subset_of(R) && Z.subset_of(R) && S.disjoint(Z));
  vstd::set_lib::lemma_len_subset(S, R); vstd::set_lib::lemma_len_subset(Z, R);
  vstd::set_lib::lemma_set_disjoint_lens(S, Z); vstd::set_lib::lemma_len_subset(S + Z, R);
}
pub proof fn lemma_points_ok(c0: Curve, c1: Curve, F: Fld, k: u32, co: Seq<u32>)
  requires points_ok(c0), c1.table == c0.table, c0.table@.prime >= 3, k >= 1, F.q == pow(c0.table@.prime as int, k as nat), F.q <= 0x3fff_ffff,
    c1.nmb_points@ == c0.nmb_points@.insert(k, (nsquares(F, co) as u32, nzeros(F, co) as u32))
  ensures points_ok(c1)
{ vstd::arithmetic::power::lemma_pow_positive(c0.table@.prime as int, k as nat); lemma_points_bound(F, co); lemma_degree_small(c0.table@.prime as int, k as int); }
pub open spec fn offset(c: Curve, k: int) -> int { pow(c.table@.prime as int, k as nat) + 1 - (c.nmb_points@[k as u32].0 + c.nmb_points@[k as u32].1) }
pub open spec fn counted(c: Curve, k: int) -> bool { 0 <= k <= 0xffff_ffff && c.nmb_points@.dom().contains(k as u32) }
// every degree up to n is counted
pub open spec fn counted_to(c: Curve, n: int) -> bool { forall|j: int| #![trigger counted(c, c.table@.prime_exponent as int * j)] j >= 1 && c.table@.prime_exponent as int * j <= n ==> counted(c, c.table@.prime_exponent as int * j) }
pub proof fn lemma_mul_le(p: int, a: int, b: int)
  requires p >= 1, a <= b
  ensures p * a <= p * b, a >= 0 ==> p * a >= a
{ assert(p * a <= p * b) by (nonlinear_arith) requires p >= 1, a <= b; if a >= 0 { assert(p * a >= a) by (nonlinear_arith) requires p >= 1, a >= 0; } }
pub proof fn lemma_div_count(p: int, n: int, k: int)
  requires p >= 1, n >= 0, k >= 1, p * k > n, k >= 1, p * (k - 1) <= n
  ensures k - 1 == n / p
{ assert(p * k == p * (k - 1) + p) by (nonlinear_arith); assert((k - 1) * p == p * (k - 1)) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n, p, k - 1, n - p * (k - 1)); }
@end

@fn ctor = Curve::Curve 2
@requires table: !table0.is_null()
@requires some: exists|i: int| 0 <= i < poly_coeff_exponents0@.len() && #[trigger] poly_coeff_exponents0@[i] != table0@.prime_power_pred
@ensures fields: res.this.table == table0 && res.this.nmb_points@ =~= Map::<u32, (u32, u32)>::empty()
@ensures leading: res.this.poly_coeff_exponents@.len() >= 1 && res.this.poly_coeff_exponents@.last() != table0@.prime_power_pred
@ensures coeffs: res.this.poly_coeff_exponents@.len() <= poly_coeff_exponents0@.len() && res.this.poly_coeff_exponents@ == poly_coeff_exponents0@.subrange(0, res.this.poly_coeff_exponents@.len() as int)
@ensures rest: forall|i: int| res.this.poly_coeff_exponents@.len() <= i < poly_coeff_exponents0@.len() ==> #[trigger] poly_coeff_exponents0@[i] == table0@.prime_power_pred
@loop 1
@inv table: this.table == table0 && this.nmb_points@ =~= Map::<u32, (u32, u32)>::empty()
@inv prefix: 1 <= this.poly_coeff_exponents@.len() <= poly_coeff_exponents0@.len() && this.poly_coeff_exponents@ =~= poly_coeff_exponents0@.subrange(0, this.poly_coeff_exponents@.len() as int)
@inv rest: forall|i: int| this.poly_coeff_exponents@.len() <= i < poly_coeff_exponents0@.len() ==> #[trigger] poly_coeff_exponents0@[i] == table0@.prime_power_pred
@decreases this.poly_coeff_exponents@.len()
@proof loop 1 begin
proof { if this.poly_coeff_exponents@.len() <= 1 { let i = choose|i: int| 0 <= i < poly_coeff_exponents0@.len() && #[trigger] poly_coeff_exponents0@[i] != table0@.prime_power_pred; assert(i >= 1); assert(this.poly_coeff_exponents@[0] == poly_coeff_exponents0@[0]); } }
@end

@fn degree = Curve::degree
@requires ok: curve_ok(this0)
@ensures degree: res.ret == deg(this0)

@fn genus = Curve::genus
@requires ok: curve_ok(this0)
@ensures genus: res.ret == (deg(this0) - 1) / 2 && 2 * res.ret + 2 == (if deg(this0) % 2 == 0 { deg(this0) } else { deg(this0) + 1 })

@fn rhs_support = Curve::rhs_support
@requires ok: curve_ok(this0)
@ensures increasing: forall|i: int, j: int| 0 <= i < j < res.ret@.len() ==> res.ret@[i] < res.ret@[j]
@ensures nonzero: forall|i: int| 0 <= i < res.ret@.len() ==> (#[trigger] res.ret@[i]) < this0.poly_coeff_exponents@.len() && this0.poly_coeff_exponents@[res.ret@[i] as int] != this0.table@.prime_power_pred
@ensures all: forall|k: u32| k < this0.poly_coeff_exponents@.len() && #[trigger] this0.poly_coeff_exponents@[k as int] != this0.table@.prime_power_pred ==> res.ret@.contains(k)
@ensures last: res.ret@.len() >= 1 && res.ret@.last() == deg(this0)
@loop 1
@inv ix: ix <= this.poly_coeff_exponents@.len()
@inv same: this == this0 && zero_index == this0.table@.prime_power_pred
@inv increasing: forall|i: int, j: int| 0 <= i < j < support@.len() ==> support@[i] < support@[j]
@inv nonzero: forall|i: int| 0 <= i < support@.len() ==> (#[trigger] support@[i]) < ix && this0.poly_coeff_exponents@[support@[i] as int] != this0.table@.prime_power_pred
@inv all: forall|k: u32| k < ix && #[trigger] this0.poly_coeff_exponents@[k as int] != this0.table@.prime_power_pred ==> support@.contains(k)
@inv last: ix >= 1 && this0.poly_coeff_exponents@[ix - 1] != zero_index ==> support@.len() >= 1 && support@.last() == ix - 1
@decreases this.poly_coeff_exponents@.len() - ix
@proof loop 1 begin
proof { let ghost s0 = support@; assert forall|k: u32, x: u32| s0.contains(k) implies #[trigger] s0.push(x).contains(k) by { let i = choose|i: int| 0 <= i < s0.len() && s0[i] == k; assert(s0.push(x)[i] == k); } assert forall|x: u32| #[trigger] s0.push(x).contains(x) by { assert(s0.push(x)[s0.len() as int] == x); } }
@end

@fn convert = Curve::convert_poly_coeff_exponents
@requires ok: curve_ok(this0) && table_ok(table0)
@requires fit: this0.table@.prime == table0.prime && table0.prime_exponent as int % this0.table@.prime_exponent as int == 0
@ensures this: res.this == this0
@ensures lifted: res.ret@ == lifted(this0, table0)
@proof begin
proof { lemma_lift(this0, table0); }
@end
@loop 1
@inv it: it1 <= this.poly_coeff_exponents@.len() && converted@.len() == it1
@inv same: this == this0 && table == table0 && prime_power_pred == this0.table@.prime_power_pred && exponent_factor == table0.prime_power_pred as int / this0.table@.prime_power_pred as int
@inv val: forall|i: int| 0 <= i < it1 ==> #[trigger] converted@[i] == lifted(this0, table0)[i]
@decreases this.poly_coeff_exponents@.len() - it1
@proof loop 1 begin
proof { assert(this0.poly_coeff_exponents@[it1 as int] as int * exponent_factor as int == exponent_factor as int * this0.poly_coeff_exponents@[it1 as int] as int) by (nonlinear_arith); }
@end
@proof after loop 1
assert(converted@ =~= lifted(this0, table0));
@end

@extern count_opencl = Curve::count_opencl
@requires cpu: false

@fn count_cpu = Curve::count_cpu
@requires table: table_ok(reduction_table0)
@requires logs: logs_ok(field_of(reduction_table0), poly_coeff_exponents0@) && 1 <= poly_coeff_exponents0@.len() < 0x4000_0000
@requires entry: this0.nmb_points@.dom().contains(reduction_table0.prime_exponent) && this0.nmb_points@[reduction_table0.prime_exponent] == (0u32, 0u32)
@ensures frame: res.this.table == this0.table && res.this.poly_coeff_exponents == this0.poly_coeff_exponents
@ensures counts: res.this.nmb_points@ == this0.nmb_points@.insert(reduction_table0.prime_exponent, ((2 * squares_to(field_of(reduction_table0), poly_coeff_exponents0@, reduction_table0.prime_power - 1).len()) as u32, zeros_to(field_of(reduction_table0), poly_coeff_exponents0@, reduction_table0.prime_power - 1).len() as u32))
@proof begin
let ghost F = field_of(reduction_table0);
let ghost c = poly_coeff_exponents0@;
proof { assert(tables_of(reduction_table0, F)); lemma_q(F); lemma_to_start(F, c); assert(this0.nmb_points@.insert(reduction_table0.prime_exponent, (0u32, 0u32)) =~= this0.nmb_points@); }
@end
@loop 1
@inv same: reduction_table == reduction_table0 && poly_coeff_exponents == poly_coeff_exponents0 && prime_exponent == reduction_table0.prime_exponent && prime_power_pred == F.q - 1 && poly_size == c.len() && this.table == this0.table && this.poly_coeff_exponents == this0.poly_coeff_exponents
@inv x: 1 <= x <= F.q
@inv counts: this.nmb_points@ == this0.nmb_points@.insert(reduction_table0.prime_exponent, ((2 * squares_to(F, c, x - 1).len()) as u32, zeros_to(F, c, x - 1).len() as u32))
@decreases F.q - x
@proof loop 1 begin
proof { lemma_fpow_gpow(F, x as int, 1); assert(x * 1 == x); lemma_gpow_in(F, x as int); lemma_ev_base(F, c, gpow(F, x as int)); }
@end
@proof loop 1 end
proof { lemma_to_step(F, c, x as int); lemma_to_bound(F, c, x as int); lemma_to_bound(F, c, x - 1); lemma_square(F, f as int); lemma_el_in(F, f as int); assert(el(F, f as int) == evf(F, c, gpow(F, x as int))); }
@end
@proof loop 1 endinc
proof { assert(this.nmb_points@ =~= this0.nmb_points@.insert(reduction_table0.prime_exponent, ((2 * squares_to(F, c, x - 1).len()) as u32, zeros_to(F, c, x - 1).len() as u32))); }
@end
@loop 2
@inv same: reduction_table == reduction_table0 && poly_coeff_exponents == poly_coeff_exponents0 && prime_exponent == reduction_table0.prime_exponent && prime_power_pred == F.q - 1 && poly_size == c.len() && this.table == this0.table && this.poly_coeff_exponents == this0.poly_coeff_exponents
@inv frame: 1 <= x < F.q && this.nmb_points@ == this0.nmb_points@.insert(reduction_table0.prime_exponent, ((2 * squares_to(F, c, x - 1).len()) as u32, zeros_to(F, c, x - 1).len() as u32))
@inv dx: 1 <= dx <= poly_size
@inv xpw: xpw < 2 * (F.q - 1) && gpow(F, xpw as int) == fpow(F, gpow(F, x as int), dx as int)
@inv f: f < F.q && el(F, f as int) == ev(F, c, gpow(F, x as int), dx as int)
@decreases poly_size - dx
@proof loop 2 begin
let ghost f1 = f as int;
let ghost e1 = xpw as int;
proof {
  let m = F.q - 1; let k = c[dx as int] as int;
  lemma_gpow_mod(F, e1); lemma_gpow_nonzero(F, e1);
  let r = e1 % m;
  if k != m { lemma_gpow_mod(F, k + r); lemma_el_mul(F, k, r); lemma_el_in(F, (k + r) % m); lemma_zero(F, el(F, (k + r) % m));
    let t = (k + r) % m;
    if f1 != m { if t <= f1 { lemma_el_sum(F, t, f1, reduction_table0.incrementation_table@@[f1 - t] as int); } else { lemma_el_sum(F, f1, t, reduction_table0.incrementation_table@@[t - f1] as int); } }
  } else { lemma_zero(F, gpow(F, e1)); lemma_el_in(F, f1); lemma_zero(F, el(F, f1)); }
}
@end
@proof loop 2 end
proof {
  lemma_gpow_add(F, xpw as int, x as int); lemma_fpow_gpow(F, x as int, dx as int); lemma_fpow_in(F, gpow(F, x as int), dx as int);
  assert(ev(F, c, gpow(F, x as int), dx + 1) == fadd(F, ev(F, c, gpow(F, x as int), dx as int), fmul(F, el(F, c[dx as int] as int), fpow(F, gpow(F, x as int), dx as int))));
  assert(el(F, f as int) == ev(F, c, gpow(F, x as int), dx + 1));
}
@end

@fn count = Curve::count 1 ~ ^Curve::count\(class ReductionTable
@requires ok: curve_ok(this0) && table_ok(reduction_table0) && reduction_table0.opencl.is_null()
@requires fit: this0.table@.prime == reduction_table0.prime && reduction_table0.prime_exponent as int % this0.table@.prime_exponent as int == 0
@ensures frame: res.this.table == this0.table && res.this.poly_coeff_exponents == this0.poly_coeff_exponents && res.reduction_table == reduction_table0
@ensures again: this0.nmb_points@.dom().contains(reduction_table0.prime_exponent) ==> res.this == this0
@ensures counts: !this0.nmb_points@.dom().contains(reduction_table0.prime_exponent) ==> res.this.nmb_points@ == this0.nmb_points@.insert(reduction_table0.prime_exponent, (nsquares(field_of(reduction_table0), lifted(this0, reduction_table0)) as u32, nzeros(field_of(reduction_table0), lifted(this0, reduction_table0)) as u32))
@ensures points: points_ok(this0) ==> points_ok(res.this)
@proof begin
let ghost F = field_of(reduction_table0);
let ghost c = lifted(this0, reduction_table0);
proof { lemma_lift(this0, reduction_table0); assert(tables_of(reduction_table0, F)); lemma_q(F); lemma_to_all(F, c); }
@end
@proof return
proof { if !this0.nmb_points@.dom().contains(reduction_table0.prime_exponent) { assert(this.nmb_points@ =~= this0.nmb_points@.insert(reduction_table0.prime_exponent, (nsquares(F, c) as u32, nzeros(F, c) as u32))); if points_ok(this0) { lemma_points_ok(this0, this, F, reduction_table0.prime_exponent, c); } } }
@end

@fn points_list = Curve::number_of_points 1
@requires ok: curve_ok(this0)
@requires counted: counted_to(this0, max_prime_exponent0 as int)
@ensures length: res.ret@.len() == max_prime_exponent0 as int / this0.table@.prime_exponent as int
@ensures entries: forall|i: int| 0 <= i < res.ret@.len() ==> #[trigger] res.ret@[i] == this0.nmb_points@[(this0.table@.prime_exponent * (i + 1)) as u32]
@loop 1
@inv same: this == this0 && max_prime_exponent == max_prime_exponent0 && prime_exponent == this0.table@.prime_exponent
@inv fx: fx == prime_exponent * (nmb_points@.len() + 1) && prime_exponent * nmb_points@.len() <= max_prime_exponent
@inv entries: forall|i: int| 0 <= i < nmb_points@.len() ==> #[trigger] nmb_points@[i] == this0.nmb_points@[(this0.table@.prime_exponent * (i + 1)) as u32]
@proof before loop 1
proof { assert(prime_exponent * 0 == 0); assert(prime_exponent * 1 == prime_exponent); }
@end
@proof loop 1 begin
proof { assert(counted(this0, prime_exponent as int * (nmb_points@.len() as int + 1))); assert(prime_exponent * (nmb_points@.len() + 2) == prime_exponent * (nmb_points@.len() + 1) + prime_exponent) by (nonlinear_arith); }
@end
@proof after loop 1
proof { lemma_div_count(prime_exponent as int, max_prime_exponent as int, nmb_points@.len() as int + 1); }
@end

@fn max_prime_exponent = Curve::max_prime_exponent
@requires ok: curve_ok(this0) && points_ok(this0)
@ensures multiple: res.ret as int % this0.table@.prime_exponent as int == 0
@ensures counted: counted_to(this0, res.ret as int)
@ensures end: !counted(this0, res.ret + this0.table@.prime_exponent)
@ensures small: res.ret <= 64
@proof before loop 1
let ghost mut k: int = 1;
let ghost pe = this0.table@.prime_exponent as int;
proof { assert(pe * 1 == pe); }
@end
@loop 1
@inv same: this == this0 && k >= 1 && pe == this0.table@.prime_exponent
@inv mult: max_prime_exponent == pe * k && max_prime_exponent <= 128
@inv gap: forall|j: int| #![trigger counted(this0, pe * j)] 1 <= j < k ==> counted(this0, pe * j) && pe * j <= 64
@inv prev: k > 1 ==> pe * (k - 1) <= 64
@decreases 200 - max_prime_exponent
@proof loop 1 begin
proof { assert(pe * (k + 1) == pe * k + pe) by (nonlinear_arith); assert(counted(this0, pe * k)); }
@end
@proof loop 1 end
proof { assert(this0.nmb_points@.dom().contains((pe * k) as u32)); assert(pe * k <= 64); assert(counted(this0, pe * k)); assert forall|j: int| #![trigger counted(this0, pe * j)] 1 <= j < k + 1 implies counted(this0, pe * j) && pe * j <= 64 by { if j < k { assert(counted(this0, pe * j) && pe * j <= 64); } else { assert(j == k); assert(pe * j == pe * k); } } k = k + 1; }
@end
@proof after loop 1
proof {
  assert(pe * k - pe == pe * (k - 1)) by (nonlinear_arith);
  assert(!counted(this0, pe * k));
  assert(counted_to(this0, pe * (k - 1))) by { assert forall|j: int| #![trigger counted(this0, pe * j)] j >= 1 && pe * j <= pe * (k - 1) implies counted(this0, pe * j) by { if j >= k { lemma_mul_le(pe, k, j); } } }
  vstd::arithmetic::div_mod::lemma_mod_multiples_basic(k - 1, pe);
  assert((k - 1) * pe == pe * (k - 1)) by (nonlinear_arith);
  if k == 1 { assert(pe * 0 == 0); }
}
@end

@fn offsets_map = Curve::hasse_weil_offsets 0
@requires ok: curve_ok(this0) && points_ok(this0)
@ensures dom: res.ret@.dom() =~= this0.nmb_points@.dom()
@ensures offsets: forall|k: u32| this0.nmb_points@.dom().contains(k) ==> #[trigger] res.ret@[k] == offset(this0, k as int)
@loop 1
@inv same: this == this0 && it1 <= keys1@.len()
@inv dom: forall|k: u32| #[trigger] offsets@.dom().contains(k) <==> (exists|i: int| 0 <= i < it1 && keys1@[i] == k)
@inv offsets: forall|k: u32| offsets@.dom().contains(k) ==> #[trigger] offsets@[k] == offset(this0, k as int)
@decreases keys1@.len() - it1
@proof loop 1 begin
let ghost k1 = keys1@[it1 as int];
let ghost o1 = offsets@;
proof { assert(this0.nmb_points@.dom().contains(k1)); let pw = pow(this0.table@.prime as int, k1 as nat); vstd::arithmetic::power::lemma_pow_positive(this0.table@.prime as int, k1 as nat); }
@end
@proof loop 1 end
proof {
  assert forall|k: u32| #[trigger] offsets@.dom().contains(k) <==> (exists|i: int| 0 <= i < it1 + 1 && keys1@[i] == k) by {
    if o1.dom().contains(k) { let i = choose|i: int| 0 <= i < it1 && keys1@[i] == k; assert(0 <= i < it1 + 1 && keys1@[i] == k); }
    if k == k1 { assert(0 <= it1 < it1 + 1 && keys1@[it1 as int] == k); }
  }
}
@end

@fn offsets_list = Curve::hasse_weil_offsets 1
@requires ok: curve_ok(this0) && points_ok(this0)
@requires counted: counted_to(this0, max_prime_exponent0 as int)
@ensures length: res.ret@.len() == max_prime_exponent0 as int / this0.table@.prime_exponent as int
@ensures entries: forall|i: int| 0 <= i < res.ret@.len() ==> #[trigger] res.ret@[i] == offset(this0, this0.table@.prime_exponent * (i + 1))
@loop 1
@inv same: this == this0 && max_prime_exponent == max_prime_exponent0 && prime_exponent == this0.table@.prime_exponent
@inv map: offset_map@.dom() =~= this0.nmb_points@.dom() && forall|k: u32| this0.nmb_points@.dom().contains(k) ==> #[trigger] offset_map@[k] == offset(this0, k as int)
@inv fx: fx == prime_exponent * (offsets@.len() + 1) && prime_exponent * offsets@.len() <= max_prime_exponent
@inv entries: forall|i: int| 0 <= i < offsets@.len() ==> #[trigger] offsets@[i] == offset(this0, this0.table@.prime_exponent * (i + 1))
@proof before loop 1
proof { assert(prime_exponent * 0 == 0); assert(prime_exponent * 1 == prime_exponent); }
@end
@proof loop 1 begin
proof { assert(counted(this0, prime_exponent as int * (offsets@.len() as int + 1))); assert(prime_exponent * (offsets@.len() + 2) == prime_exponent * (offsets@.len() + 1) + prime_exponent) by (nonlinear_arith); }
@end
@proof after loop 1
proof { lemma_div_count(prime_exponent as int, max_prime_exponent as int, offsets@.len() as int + 1); }
@end

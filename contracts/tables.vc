# Tables of a finite field (C02)
@tu src/fq_element_table.cc src/reduction_table.cc
@use fq.vc
@use tabledef.vc
@prelude
pub open spec fn size_ok(p: int, e: int) -> bool { is_prime(p) && 1 <= e <= 64 && 3 <= pow(p, e as nat) <= 0x3fff_ffff }
pub open spec fn chosen_field(p: int, e: int) -> bool { fl_laws(std_field(p, e)) && fl_gen(std_field(p, e)) && std_field(p, e).q == pow(p, e as nat) }
// all elements, by their logarithms
pub open spec fn listed(ctx: FqCtx, F: Fld, s: Seq<NmodPoly>, n: int) -> bool { forall|i: int| 0 <= i < n ==> fq_elt(ctx, #[trigger] s[i]) && fq_code(ctx, s[i]) == el(F, i) }
pub open spec fn lg_ok(F: Fld, m: Map<i32, i32>, n: int) -> bool {
  &&& m.dom().contains(0) && m[0] == F.q - 1
  &&& forall|c: i32| #[trigger] m.dom().contains(c) && c != 0 ==> 0 <= m[c] < n && gpow(F, m[c] as int) == c
  &&& forall|i: int| 0 <= i < n ==> #[trigger] m.dom().contains(gpow(F, i) as i32)
}
pub open spec fn lg_all(F: Fld, m: Map<i32, i32>) -> bool { forall|c: i32| 0 <= c < F.q ==> #[trigger] m.dom().contains(c) && 0 <= m[c] < F.q && el(F, m[c] as int) == c }
pub open spec fn succ_to(F: Fld, p: int, m: Map<i32, i32>, s: Seq<i32>, n: int) -> bool { forall|c: i32| 0 <= c < n ==> s[(#[trigger] m[c]) as int] == m[succ(p, c as int) as i32] }
pub open spec fn distinct_to(F: Fld, n: int) -> bool { (forall|i: int| 0 <= i < n ==> #[trigger] gpow(F, i) != F.zero) && forall|i: int| 0 < i < n ==> #[trigger] gpow(F, i) != F.one }
pub proof fn lemma_lg_add(F: Fld, m: Map<i32, i32>, n: int)
  requires fl_laws(F), F.zero == 0, F.one == 1, F.q <= 0x3fff_ffff, 0 <= n < F.q - 1, lg_ok(F, m, n), distinct_to(F, n), !m.dom().contains(gpow(F, n) as i32)
  ensures lg_ok(F, m.insert(gpow(F, n) as i32, n as i32), n + 1), distinct_to(F, n + 1)
{
  lw_gpow_in(F, n);
  let m2 = m.insert(gpow(F, n) as i32, n as i32);
  assert forall|i: int| 0 <= i < n + 1 implies #[trigger] m2.dom().contains(gpow(F, i) as i32) by { if i < n { assert(m.dom().contains(gpow(F, i) as i32)); } }
  if n > 0 { assert(m.dom().contains(gpow(F, 0) as i32)); assert(gpow(F, 0) == F.one); }
}
pub proof fn lemma_lg_bad(F: Fld, m: Map<i32, i32>, n: int)
  requires fl_laws(F), F.zero == 0, F.one == 1, F.q <= 0x3fff_ffff, 0 <= n < F.q - 1, lg_ok(F, m, n), m.dom().contains(gpow(F, n) as i32)
  ensures !prim(F)
{
  lw_gpow_in(F, n);
  if prim(F) {
    lw_gpow_nonzero(F, n);
    let j = m[gpow(F, n) as i32] as int;
    assert(0 <= j < n && gpow(F, j) == gpow(F, n));
    lw_return(F, j, n);
  }
}
pub proof fn lemma_lg_total(F: Fld, m: Map<i32, i32>)
  requires F.zero == 0, 3 <= F.q <= 0x3fff_ffff, lg_ok(F, m, F.q - 1), forall|a: int| inn(F, a) && a != F.zero ==> is_gpow(F, a)
  ensures lg_all(F, m)
{
  assert forall|c: i32| 0 <= c < F.q implies #[trigger] m.dom().contains(c) && 0 <= m[c] < F.q && el(F, m[c] as int) == c by {
    if c != 0 {
      assert(inn(F, c as int)); assert(is_gpow(F, c as int));
      let i = choose|i: int| 0 <= i < F.q - 1 && c == #[trigger] gpow(F, i);
      assert(m.dom().contains(gpow(F, i) as i32));
      assert(gpow(F, m[c] as int) == c);
    } else { assert(m.dom().contains(0)); assert(el(F, F.q - 1) == F.zero); }
  }
}
pub proof fn lemma_lg_done(F: Fld, m: Map<i32, i32>)
  requires fl_laws(F), F.zero == 0, F.one == 1, F.q <= 0x3fff_ffff, lg_ok(F, m, F.q - 1), distinct_to(F, F.q - 1)
  ensures prim(F), fl_gen(F), lg_all(F, m)
{
  lw_gpow_in(F, 0); lw_unit(F, F.gen);
  assert(gpow(F, 0) == F.one); assert(gpow(F, 1) == fmul(F, gpow(F, 0), F.gen));
  lemma_prim(F);
  reveal(fl_gen);
  lemma_lg_total(F, m);
}
pub proof fn lemma_succ_step(F: Fld, p: int, m: Map<i32, i32>, s: Seq<i32>, n: int)
  requires lg_all(F, m), F.q <= 0x3fff_ffff, 0 <= n < F.q, s.len() == F.q, succ_to(F, p, m, s, n)
  ensures m.dom().contains(n as i32), 0 <= m[n as i32] < F.q, succ_to(F, p, m, s.update(m[n as i32] as int, m[succ(p, n) as i32]), n + 1)
{
  assert(m.dom().contains(n as i32));
  let s2 = s.update(m[n as i32] as int, m[succ(p, n) as i32]);
  assert forall|c: i32| 0 <= c < n + 1 implies s2[(#[trigger] m[c]) as int] == m[succ(p, c as int) as i32] by { assert(m.dom().contains(c)); if c < n { assert(m[c] != m[n as i32]); } }
}
pub proof fn lemma_succ_done(ctx: FqCtx, F: Fld, m: Map<i32, i32>, s: Seq<i32>)
  requires ctx_ok(ctx), F == fq_fld(ctx, F.gen), fl_laws(F), fl_gen(F), lg_all(F, m), s.len() == F.q, F.q <= 0x3fff_ffff, succ_to(F, ctx.prime(), m, s, F.q)
  ensures successor_ok(F, s)
{
  reveal(fl_gen);
  assert forall|i: int| 0 <= i < F.q implies 0 <= #[trigger] s[i] < F.q && el(F, s[i] as int) == fadd(F, el(F, i), F.one) by {
    if i < F.q - 1 { lw_gpow_in(F, i); }
    let c = el(F, i);
    assert(m.dom().contains(c as i32));
    let j = m[c as i32] as int;
    assert(el(F, j) == c);
    assert(j == i) by { if i < F.q - 1 && j < F.q - 1 && j != i { if i < j { assert(gpow(F, i) != gpow(F, j)); } else { assert(gpow(F, j) != gpow(F, i)); } } }
    lemma_dig_one(ctx.prime(), ctx.degree(), c);
    let n = succ(ctx.prime(), c);
    assert(m.dom().contains(n as i32));
    assert(s[m[c as i32] as int] == m[n as i32]);
  }
}
pub proof fn lemma_block(p: int, x: int, q: int)
  requires p >= 2, 0 <= x < q, x % p == 0, q % p == 0
  ensures x + p <= q, (x + p) % p == 0
{
  lemma_fundamental_div_mod(x, p); lemma_fundamental_div_mod(q, p);
  let a = x / p; let b = q / p;
  assert(a + 1 <= b) by (nonlinear_arith) requires p * a < p * b, p >= 2;
  assert(p * a + p <= p * b) by (nonlinear_arith) requires a + 1 <= b, p >= 2;
  lemma_mod_add_multiples_vanish(x, p);
}
pub proof fn lemma_in_block(p: int, x: int, c: int)
  requires p >= 2, 0 <= x <= c < x + p, x % p == 0
  ensures c % p == c - x, succ(p, c) == (if c == x + p - 1 { x } else { c + 1 })
{
  lemma_fundamental_div_mod(x, p); let a = x / p;
  assert(c == a * p + (c - x)) by (nonlinear_arith) requires x == p * a + 0;
  lemma_fundamental_div_mod_converse(c, p, a, c - x);
}
// a is an n-th power times g^i
pub open spec fn in_coset(F: Fld, n: int, i: int, a: int) -> bool { exists|b: int| inn(F, b) && b != F.zero && a == fmul(F, gpow(F, i), #[trigger] fpow(F, b, n)) }
pub proof fn lemma_bezout(a: int, b: int) -> (r: (int, int))
  requires a >= 0, b >= 0, a + b > 0
  ensures gcd(a, b) == a * r.0 + b * r.1
  decreases b
{
  if b == 0 { (1, 0) } else {
    assert(0 <= a % b < b) by (nonlinear_arith) requires a >= 0, b > 0;
    let (x, y) = lemma_bezout(b, a % b);
    lemma_fundamental_div_mod(a, b);
    let k = a / b;
    assert(b * x + (a - b * k) * y == a * y + b * (x - k * y)) by (nonlinear_arith);
    (y, x - k * y)
  }
}
pub proof fn lemma_same_class(F: Fld, i: int, j: int, k: int)
  requires is_field(F), i >= 0, j >= 0, i - j == k * (F.q - 1)
  ensures gpow(F, i) == gpow(F, j)
{
  lemma_q(F);
  if k >= 0 { lemma_gpow_period(F, j, k); } else { assert(j == i + (-k) * (F.q - 1)) by (nonlinear_arith) requires i - j == k * (F.q - 1); lemma_gpow_period(F, i, -k); }
}
pub proof fn lemma_coset_some(F: Fld, n: int, j: int)
  requires is_field(F), n >= 1, 0 <= j < F.q - 1
  ensures 0 <= j % gcd(n, F.q - 1) < gcd(n, F.q - 1), in_coset(F, n, j % gcd(n, F.q - 1), gpow(F, j))
{
  lemma_q(F);
  let m = F.q - 1; let g = gcd(n, m); lemma_gcd(n, m);
  let (x, y) = lemma_bezout(n, m);
  let i = j % g; let t = j / g;
  lemma_fundamental_div_mod(j, g); lemma_mod_bound(j, g);
  let s = (x * t) % m; let w = (x * t) / m;
  lemma_fundamental_div_mod(x * t, m); lemma_mod_bound(x * t, m);
  let b = gpow(F, s);
  lemma_gpow_nonzero(F, s); lemma_fpow_gpow(F, s, n); lemma_gpow_add(F, i, s * n);
  assert((i + s * n) - j == (-(w * n) - y * t) * m) by (nonlinear_arith) requires j == g * t + i, g == n * x + m * y, x * t == m * w + s;
  lemma_same_class(F, i + s * n, j, -(w * n) - y * t);
  assert(inn(F, b) && b != F.zero && gpow(F, j) == fmul(F, gpow(F, i), fpow(F, b, n)));
}
pub proof fn lemma_coset_one(F: Fld, n: int, i: int, k: int, a: int)
  requires is_field(F), n >= 1, 0 <= i < gcd(n, F.q - 1), 0 <= k < gcd(n, F.q - 1), in_coset(F, n, i, a), in_coset(F, n, k, a)
  ensures i == k
{
  lemma_q(F);
  let m = F.q - 1; let g = gcd(n, m); lemma_gcd(n, m);
  let b = choose|b: int| inn(F, b) && b != F.zero && a == fmul(F, gpow(F, i), #[trigger] fpow(F, b, n));
  let c = choose|b: int| inn(F, b) && b != F.zero && a == fmul(F, gpow(F, k), #[trigger] fpow(F, b, n));
  let s = law_log(F, b); let t = law_log(F, c);
  lemma_fpow_gpow(F, s, n); lemma_fpow_gpow(F, t, n);
  lemma_gpow_add(F, i, s * n); lemma_gpow_add(F, k, t * n);
  lemma_gpow_eq(F, i + s * n, k + t * n);
  lemma_fundamental_div_mod(i + s * n, m); lemma_fundamental_div_mod(k + t * n, m);
  let u = (i + s * n) / m; let v = (k + t * n) / m;
  lemma_fundamental_div_mod(n, g); lemma_fundamental_div_mod(m, g);
  let nn = n / g; let mm = m / g;
  let z = mm * (u - v) - nn * (s - t);
  assert(i - k == g * z) by (nonlinear_arith) requires i + s * n - m * u == k + t * n - m * v, n == g * nn, m == g * mm, z == mm * (u - v) - nn * (s - t);
  assert(z == 0) by (nonlinear_arith) requires i - k == g * z, -g < i - k < g, g >= 1;
}
// the representatives meet every coset of the n-th powers exactly once
pub proof fn lemma_cosets(F: Fld, n: int, s: Seq<u32>)
  requires is_field(F), n >= 1, F.q <= 0x3fff_ffff, s == Seq::new(gcd(n, F.q - 1) as nat, |i: int| i as u32)
  ensures forall|a: int| inn(F, a) && a != F.zero ==> exists|i: int| 0 <= i < s.len() && #[trigger] in_coset(F, n, s[i] as int, a),
    forall|a: int, i: int, k: int| 0 <= i < s.len() && 0 <= k < s.len() && #[trigger] in_coset(F, n, s[i] as int, a) && #[trigger] in_coset(F, n, s[k] as int, a) ==> i == k
{
  lemma_gcd(n, F.q - 1); lemma_q(F);
  assert forall|a: int| inn(F, a) && a != F.zero implies exists|i: int| 0 <= i < s.len() && #[trigger] in_coset(F, n, s[i] as int, a) by {
    let j = law_log(F, a); lemma_coset_some(F, n, j); let i = j % gcd(n, F.q - 1); assert(s[i] as int == i); assert(in_coset(F, n, s[i] as int, a));
  }
  assert forall|a: int, i: int, k: int| 0 <= i < s.len() && 0 <= k < s.len() && #[trigger] in_coset(F, n, s[i] as int, a) && #[trigger] in_coset(F, n, s[k] as int, a) implies i == k by { assert(s[i] as int == i && s[k] as int == k); lemma_coset_one(F, n, i, k, a); }
}
pub open spec fn meets_once(F: Fld, n: int, s: Seq<u32>) -> bool {
  &&& forall|a: int| inn(F, a) && a != F.zero ==> exists|i: int| 0 <= i < s.len() && #[trigger] in_coset(F, n, s[i] as int, a)
  &&& forall|a: int, i: int, k: int| 0 <= i < s.len() && 0 <= k < s.len() && #[trigger] in_coset(F, n, s[i] as int, a) && #[trigger] in_coset(F, n, s[k] as int, a) ==> i == k
}
pub open spec fn has_code(ctx: FqCtx, s: Seq<NmodPoly>, n: int, a: int) -> bool { exists|i: int| 0 <= i < n && fq_code(ctx, #[trigger] s[i]) == a }
// the elements are listed once each
pub proof fn lemma_listed_once(ctx: FqCtx, F: Fld, s: Seq<NmodPoly>)
  requires fl_gen(F), F.q >= 3, listed(ctx, F, s, F.q)
  ensures forall|i: int, j: int| 0 <= i < j < F.q ==> fq_code(ctx, #[trigger] s[i]) != fq_code(ctx, #[trigger] s[j]),
    forall|a: int| 0 <= a < F.q ==> #[trigger] has_code(ctx, s, F.q, a)
{
  reveal(fl_gen);
  assert forall|i: int, j: int| 0 <= i < j < F.q implies fq_code(ctx, #[trigger] s[i]) != fq_code(ctx, #[trigger] s[j]) by { if j < F.q - 1 { assert(gpow(F, i) != gpow(F, j)); } else { assert(gpow(F, i) != F.zero); } }
  assert forall|a: int| 0 <= a < F.q implies #[trigger] has_code(ctx, s, F.q, a) by { assert(inn(F, a));
    if a == F.zero { assert(fq_code(ctx, s[F.q - 1]) == a); } else { assert(is_gpow(F, a)); let i = choose|i: int| 0 <= i < F.q - 1 && a == #[trigger] gpow(F, i); assert(el(F, i) == a); assert(fq_code(ctx, s[i]) == a); }
  }
}
pub proof fn lemma_chosen(p: int, e: int)
  requires size_ok(p, e), p % 2 == 1, chosen_field(p, e)
  ensures is_field(std_field(p, e))
{ lemma_pow_odd(p, e); }
@end
@fn reps = FqElementTable::power_coset_representatives
@requires size: this0.prime_power_pred >= 1 && n0 >= 1
@ensures cosets: forall|F: Fld| #[trigger] is_field(F) && F.q == this0.prime_power_pred + 1 && F.q <= 0x3fff_ffff ==> meets_once(F, n0 as int, res.ret@)
@ensures list: res.ret@ == Seq::new(gcd(n0 as int, this0.prime_power_pred as int) as nat, |i: int| i as u32)
@proof begin
proof { lemma_gcd(n0 as int, this0.prime_power_pred as int); }
@end
@loop 1
@inv this: this == this0
@inv list: n == gcd(n0 as int, this0.prime_power_pred as int) && i <= n && cosets@ == Seq::new(i as nat, |k: int| k as u32)
@decreases n - i
@proof return
proof { assert forall|F: Fld| #[trigger] is_field(F) && F.q == this0.prime_power_pred + 1 && F.q <= 0x3fff_ffff implies meets_once(F, n0 as int, cosets@) by { lemma_cosets(F, n0 as int, cosets@); } }
@end

@fn elements = FqElementTable::FqElementTable
@requires size: size_ok(prime0 as int, prime_exponent0 as int)
@ensures q: res.this.prime == prime0 && res.this.prime_exponent == prime_exponent0 && res.this.prime_power == pow(prime0 as int, prime_exponent0 as nat) && res.this.prime_power_pred == res.this.prime_power - 1
@ensures once: (forall|i: int, j: int| 0 <= i < j < res.this.prime_power ==> fq_code(res.this.fq_ctx, #[trigger] res.this.fq_elements@[i]) != fq_code(res.this.fq_ctx, #[trigger] res.this.fq_elements@[j])) && (forall|a: int| 0 <= a < res.this.prime_power ==> #[trigger] has_code(res.this.fq_ctx, res.this.fq_elements@, res.this.prime_power as int, a))
@ensures usable: elements_ok(res.this)
@ensures ctx: res.this.fq_ctx == fq_ctx_of(prime0 as int, prime_exponent0 as int)
@ensures field: chosen_field(prime0 as int, prime_exponent0 as int)
@ensures listed: res.this.fq_elements@.len() == res.this.prime_power && listed(res.this.fq_ctx, std_field(prime0 as int, prime_exponent0 as int), res.this.fq_elements@, res.this.prime_power as int)
@proof begin
let ghost p = prime0 as int;
let ghost d = prime_exponent0 as int;
let ghost ctx = fq_ctx_of(p, d);
let ghost q = pow(p, d as nat);
let ghost mut k: int = 0;
let ghost mut F: Fld = fq_fld(ctx, fq_code(ctx, fq_cand(ctx, 0)));
@end
@proof before loop 1
proof { assert(this.fq_ctx == ctx && ctx_ok(ctx)); }
@end
@loop 1
@inv same: this.prime == prime0 && this.prime_exponent == prime_exponent0 && this.prime_power == q && this.prime_power_pred == q - 1 && this.fq_ctx == ctx && ctx_ok(ctx) && ctx.prime() == p && ctx.degree() == d && q >= 3
@inv a: fq_elt(ctx, a) && (!is_gen ==> fq_code(ctx, a) == 1)
@inv k: k >= 0 && state@ == k && gen == fq_cand(ctx, k) && fq_elt(ctx, gen)
@inv search: (!is_gen ==> forall|j: int| 0 <= j < k ==> !prim(#[trigger] fq_fld(ctx, fq_code(ctx, fq_cand(ctx, j))))) && (is_gen ==> k >= 1 && first_gen(ctx, k - 1))
@inv listed: is_gen ==> F == fq_fld(ctx, fq_code(ctx, fq_cand(ctx, k - 1))) && fl_laws(F) && this.fq_elements@.len() == q - 1 && listed(ctx, F, this.fq_elements@, q - 1)
@proof loop 1 begin
proof {
  F = fq_fld(ctx, fq_code(ctx, gen));
  lemma_hcode(ctx, gen, 0); lemma_laws(ctx, fq_code(ctx, gen));
  assert(k >= 0);
  k = k + 1;
}
@end
@proof before loop 2
proof { assert(gpow(F, 0) == F.one); assert(gpow(F, 1) == fmul(F, gpow(F, 0), F.gen)); assert(el(F, 0) == gpow(F, 0)); }
@end
@proof after loop 1
proof { lemma_first(ctx, k - 1); lemma_prim(F); }
@end
@proof return
proof {
  lemma_listed_once(ctx, F, this.fq_elements@);
  reveal(fl_gen);
  assert forall|i: int| 0 <= i < q - 1 implies !pzero(#[trigger] this.fq_elements@[i]) by { if pzero(this.fq_elements@[i]) { lemma_hcode_zero(this.fq_elements@[i], p, 0, d); assert(gpow(F, i) != F.zero); } }
  assert forall|i: int, j: int| 0 <= i < q && 0 <= j < this.fq_elements@[i].coeffs().len() implies 0 <= #[trigger] this.fq_elements@[i].coeffs()[j] < p by { assert(fq_elt(ctx, this.fq_elements@[i])); }
  assert forall|i: int| 0 <= i < q implies (#[trigger] this.fq_elements@[i]).coeffs().len() <= d by { assert(fq_elt(ctx, this.fq_elements@[i])); }
}
@end
@loop 2
@inv same: this.prime == prime0 && this.prime_exponent == prime_exponent0 && this.prime_power == q && this.prime_power_pred == q - 1 && this.fq_ctx == ctx
@inv ix: is_gen && 1 <= ix <= q - 1 && this.fq_elements@.len() == ix && listed(ctx, F, this.fq_elements@, ix as int)
@inv a: fq_elt(ctx, a) && fq_code(ctx, a) == gpow(F, ix as int)
@inv order: forall|i: int| 0 < i < ix ==> #[trigger] gpow(F, i) != F.one
@decreases q - ix
@loop 3
@inv same: this.prime == prime0 && this.prime_exponent == prime_exponent0 && this.prime_power == q && this.prime_power_pred == q - 1 && this.fq_ctx == ctx && !is_gen && 1 <= ix < q - 1 && fq_elt(ctx, a) && fq_code(ctx, a) == gpow(F, ix as int)

@fn reductions = ReductionTable::compute_exponent_reduction_table
@requires q: 2 <= prime_power0 <= 0x3fff_ffff
@ensures this: res.this == this0
@ensures table: !res.ret.is_null() && reduction_ok(res.ret@@, prime_power0 - 1)
@loop 1
@inv this: this == this0 && prime_power == prime_power0 && !reductions.is_null()
@inv done: hx <= 2 && reductions@@.len() == hx * (prime_power0 - 1) && forall|i: int| 0 <= i < reductions@@.len() ==> #[trigger] reductions@@[i] == i % (prime_power0 - 1)
@proof loop 1 end
proof { let m = prime_power0 - 1; assert(hx * m + m == (hx + 1) * m) by (nonlinear_arith); }
@end
@proof after loop 1
proof { let m = prime_power0 - 1; assert(hx == 2); assert(2 * m == m + m); }
@end
@loop 2
@inv this: this == this0 && prime_power == prime_power0 && !reductions.is_null() && hx < 2
@inv done: ix <= prime_power0 - 1 && reductions@@.len() == hx * (prime_power0 - 1) + ix && forall|i: int| 0 <= i < reductions@@.len() ==> #[trigger] reductions@@[i] == i % (prime_power0 - 1)
@decreases prime_power0 - ix
@proof loop 2 begin
proof { let m = prime_power0 - 1; if hx == 0 { lemma_small_mod(ix as nat, m as nat); } else { lemma_mod_add_multiples_vanish(ix as int, m); lemma_small_mod(ix as nat, m as nat); } }
@end

@fn increments = ReductionTable::compute_incrementation_table
@requires size: size_ok(prime0 as int, prime_exponent0 as int) && prime_power0 == pow(prime0 as int, prime_exponent0 as nat)
@ensures this: res.this == this0
@ensures field: chosen_field(prime0 as int, prime_exponent0 as int)
@ensures table: !res.ret.is_null() && successor_ok(std_field(prime0 as int, prime_exponent0 as int), res.ret@@)
@proof begin
let ghost p = prime0 as int;
let ghost d = prime_exponent0 as int;
let ghost ctx0 = fq_ctx_of(p, d);
let ghost q = pow(p, d as nat);
let ghost mut k: int = 0;
let ghost mut F: Fld = fq_fld(ctx0, fq_code(ctx0, fq_cand(ctx0, 0)));
@end
@loop 1
@inv same: this == this0 && prime == prime0 && prime_exponent == prime_exponent0 && prime_power == q && ctx == ctx0 && ctx_ok(ctx) && ctx.prime() == p && ctx.degree() == d && q >= 3
@inv k: k >= 0 && state@ == k && gen == fq_cand(ctx, k) && fq_elt(ctx, gen)
@inv search: (!is_gen ==> forall|j: int| 0 <= j < k ==> !prim(#[trigger] fq_fld(ctx, fq_code(ctx, fq_cand(ctx, j))))) && (is_gen ==> k >= 1 && first_gen(ctx, k - 1))
@inv logs: is_gen ==> F == fq_fld(ctx, fq_code(ctx, fq_cand(ctx, k - 1))) && fl_laws(F) && fl_gen(F) && lg_all(F, gen_powers@)
@proof loop 1 begin
proof {
  F = fq_fld(ctx, fq_code(ctx, gen));
  lemma_hcode(ctx, gen, 0); lemma_laws(ctx, fq_code(ctx, gen));
  k = k + 1;
}
@end
@proof before loop 2
proof { assert(gpow(F, 0) == F.one); }
@end
@proof after loop 2
proof { if is_gen { lemma_lg_done(F, gen_powers@); assert(first_gen(ctx, k - 1)); } }
@end
@loop 2
@inv same: this == this0 && prime == prime0 && prime_exponent == prime_exponent0 && prime_power == q && ctx == ctx0 && state@ == k - 1 && gen == fq_cand(ctx, k - 1)
@inv ix: is_gen && 0 <= ix <= q - 1 && lg_ok(F, gen_powers@, ix as int) && distinct_to(F, ix as int)
@inv a: fq_elt(ctx, a) && fq_code(ctx, a) == gpow(F, ix as int)
@decreases q - ix
@proof after loop 3
proof { lw_gpow_in(F, ix as int); assert(coeff_sum == gpow(F, ix as int)); if gen_powers@.dom().contains(coeff_sum as i32) { lemma_lg_bad(F, gen_powers@, ix as int); } else { lemma_lg_add(F, gen_powers@, ix as int); } }
@end
@loop 3
@inv same: this == this0 && prime == prime0 && prime_exponent == prime_exponent0 && prime_power == q && ctx == ctx0
@inv dx: -1 <= dx < d && coeff_sum == hcode(a, p, dx + 1, d)
@decreases dx + 1
@proof loop 3 begin
proof { lemma_hcode_step(ctx, a, dx as int); }
@end
@proof before loop 4
proof { lemma_pow_next(p, d); let m = pow(p, (d - 1) as nat); lemma_mod_multiples_basic(m, p); assert(q == m * p) by (nonlinear_arith) requires q == p * m; lemma_small_mod(0nat, p as nat); lemma_first(ctx, k - 1); }
@end
@loop 4
@inv same: this == this0 && prime == prime0 && prime_power == q && !incrementations.is_null() && incrementations@@.len() == q
@inv pix: 0 <= pix <= q && pix as int % p == 0 && q % p == 0
@inv logs: lg_all(F, gen_powers@) && succ_to(F, p, gen_powers@, incrementations@@, pix as int)
@decreases q - pix
@proof loop 4 begin
proof { lemma_block(p, pix as int, q); }
@end
@loop 5
@inv same: this == this0 && prime == prime0 && prime_power == q && !incrementations.is_null() && incrementations@@.len() == q
@inv ix: pix <= ix <= pix + p - 1 && pix + p <= q && pix as int % p == 0
@inv logs: lg_all(F, gen_powers@) && succ_to(F, p, gen_powers@, incrementations@@, ix as int)
@decreases pix + p - ix
@proof loop 5 begin
proof { lemma_in_block(p, pix as int, ix as int); lemma_succ_step(F, p, gen_powers@, incrementations@@, ix as int); assert(gen_powers@.dom().contains(ix as i32)); assert(gen_powers@.dom().contains((ix + 1) as i32)); }
@end
@proof after loop 5
proof { lemma_in_block(p, pix as int, pix + p - 1); lemma_succ_step(F, p, gen_powers@, incrementations@@, pix + p - 1); assert(gen_powers@.dom().contains((pix + p - 1) as i32)); assert(gen_powers@.dom().contains(pix as i32)); }
@end
@proof after loop 4
proof { if pix == q - 1 { lemma_block(p, pix as int, q); } assert(pix == q); lemma_succ_done(ctx, F, gen_powers@, incrementations@@); }
@end

@fn tables = ReductionTable::compute_tables
@requires size: size_ok(this0.prime as int, this0.prime_exponent as int) && this0.prime % 2 == 1 && this0.prime_power == pow(this0.prime as int, this0.prime_exponent as nat) && this0.prime_power_pred == this0.prime_power - 1
@ensures frame: res.this.prime == this0.prime && res.this.prime_exponent == this0.prime_exponent && res.this.prime_power == this0.prime_power && res.this.prime_power_pred == this0.prime_power_pred && res.this.opencl == this0.opencl
@ensures tables: tables_of(res.this, std_field(this0.prime as int, this0.prime_exponent as int))
@proof return
proof { lemma_chosen(this0.prime as int, this0.prime_exponent as int); }
@end

@fn rt_ctor = ReductionTable::ReductionTable 3 ~ const
@requires size: size_ok(prime0 as int, prime_exponent0 as int) && prime0 % 2 == 1
@ensures fields: res.this.prime == prime0 && res.this.prime_exponent == prime_exponent0 && res.this.prime_power == pow(prime0 as int, prime_exponent0 as nat) && res.this.opencl == opencl0
@ensures tables: tables_of(res.this, std_field(prime0 as int, prime_exponent0 as int))

@fn rt_ctor_move = ReductionTable::ReductionTable 3 ~ &&
@requires size: size_ok(prime0 as int, prime_exponent0 as int) && prime0 % 2 == 1
@ensures fields: res.this.prime == prime0 && res.this.prime_exponent == prime_exponent0 && res.this.prime_power == pow(prime0 as int, prime_exponent0 as nat) && res.this.opencl == opencl0
@ensures tables: tables_of(res.this, std_field(prime0 as int, prime_exponent0 as int))

@fn rt_ctor2 = ReductionTable::ReductionTable 2
@requires size: size_ok(prime0 as int, prime_exponent0 as int) && prime0 % 2 == 1
@ensures fields: res.this.prime == prime0 && res.this.prime_exponent == prime_exponent0 && res.this.prime_power == pow(prime0 as int, prime_exponent0 as nat) && res.this.opencl.is_null()
@ensures tables: tables_of(res.this, std_field(prime0 as int, prime_exponent0 as int))

@fn zero_ix = FqElementTable::zero_index
@ensures zero: res.ret == this0.prime_power_pred
@fn nonzero_block = FqElementTable::block_non_zero
@requires size: this0.prime_power_pred <= 0x3fff_ffff
@ensures block: res.ret == (0u32, this0.prime_power_pred)
@fn full_block = FqElementTable::block_complete
@requires size: this0.prime_power <= 0x3fff_ffff
@ensures block: res.ret == (0u32, this0.prime_power)
@fn reduce_ix = FqElementTable::reduce_index
@requires size: this0.prime_power_pred >= 1
@ensures index: res.ret == ix0 as int % this0.prime_power_pred as int
@fn coeff0 = FqElementTable::at_nmod
@requires index: 0 <= ix0 < this0.fq_elements@.len()
@ensures coeff: res.ret == pc(this0.fq_elements@[ix0 as int], 0) % 0x1_0000_0000
@fn elt_at = FqElementTable::at
@requires index: ix0 < this0.fq_elements@.len()
@ensures elt: res.ret == this0.fq_elements@[ix0 as int]
@fn elt_ix = FqElementTable::operator[]
@requires index: ix0 < this0.fq_elements@.len()
@ensures elt: res.ret == this0.fq_elements@[ix0 as int]

# finite fields as FLINT represents them: elements are polynomials over F_p, numbered by their base p digits.
# The sum is computed digit by digit; that multiplication makes this a field is assumed (fq_axiom).
@trusted FLINT fq_nmod_*: contracts in contracts/fq.vc are assumed: multiplication modulo the polynomial FLINT chooses makes F_p^d a field, the random elements are a function of the number of draws, contexts are a function of characteristic and degree
@use flint.vc
@use finite_field.vc
@prelude
pub struct FlintRand { pub g: Ghost<int> }
impl Clone for FlintRand { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for FlintRand {}
impl FlintRand { pub open spec fn view(self) -> int { self.g@ } }
// the field FLINT constructs, and the sequence of its elements that a search for a generator sees
pub uninterp spec fn fq_ctx_of(p: int, d: int) -> FqCtx;
pub uninterp spec fn fq_cand(ctx: FqCtx, n: int) -> NmodPoly;
pub uninterp spec fn fq_mulc(ctx: FqCtx, a: int, b: int) -> int;
pub open spec fn ctx_ok(ctx: FqCtx) -> bool { is_prime(ctx.prime()) && ctx.degree() >= 1 }
// a reduced element, its digits from position k, and its number
pub open spec fn fq_elt(ctx: FqCtx, x: NmodPoly) -> bool { x.coeffs().len() <= ctx.degree() && (x.coeffs().len() > 0 ==> x.coeffs().last() != 0) && forall|i: int| 0 <= i < x.coeffs().len() ==> 0 <= #[trigger] x.coeffs()[i] < ctx.prime() }
pub open spec fn hcode(x: NmodPoly, p: int, k: int, d: int) -> int
  decreases d - k
{ if k >= d { 0 } else { pc(x, k) + p * hcode(x, p, k + 1, d) } }
pub open spec fn fq_code(ctx: FqCtx, x: NmodPoly) -> int { hcode(x, ctx.prime(), 0, ctx.degree()) }
// addition without carry
pub open spec fn dig_add(p: int, d: int, a: int, b: int) -> int
  decreases d
{ if d <= 0 { 0 } else { (a % p + b % p) % p + p * dig_add(p, d - 1, a / p, b / p) } }
pub open spec fn dig_neg(p: int, d: int, a: int) -> int
  decreases d
{ if d <= 0 { 0 } else { (p - a % p) % p + p * dig_neg(p, d - 1, a / p) } }
pub open spec fn fq_fld(ctx: FqCtx, g: int) -> Fld { Fld { q: pow(ctx.prime(), ctx.degree() as nat), zero: 0, one: 1, gen: g, add: |a: int, b: int| dig_add(ctx.prime(), ctx.degree(), a, b), mul: |a: int, b: int| fq_mulc(ctx, a, b) } }
pub open spec fn inv_exists(F: Fld, a: int) -> bool { exists|b: int| inn(F, b) && #[trigger] fmul(F, a, b) == F.one }
#[verifier::opaque]
pub open spec fn fl_inv(F: Fld) -> bool { forall|a: int| #[trigger] inn(F, a) && a != F.zero ==> inv_exists(F, a) }
pub open spec fn mul_in(F: Fld) -> bool { forall|a: int, b: int| inn(F, a) && inn(F, b) ==> inn(F, #[trigger] fmul(F, a, b)) }
pub open spec fn mul_comm(F: Fld) -> bool { forall|a: int, b: int| inn(F, a) && inn(F, b) ==> #[trigger] fmul(F, a, b) == fmul(F, b, a) }
pub open spec fn mul_units(F: Fld) -> bool { forall|a: int| #[trigger] inn(F, a) ==> fmul(F, a, F.one) == a && fmul(F, a, F.zero) == F.zero }
#[verifier::external_body]
pub proof fn fq_axiom(ctx: FqCtx, g: int)
  requires ctx_ok(ctx)
  ensures mul_in(fq_fld(ctx, g)), mul_comm(fq_fld(ctx, g)), mul_units(fq_fld(ctx, g)), fl_mul_assoc(fq_fld(ctx, g)), fl_distr(fq_fld(ctx, g)), fl_inv(fq_fld(ctx, g))
{ }
// the laws of a field, without a generator
pub open spec fn fl_laws(F: Fld) -> bool { F.q >= 3 && fl_closed(F) && fl_comm(F) && fl_add_assoc(F) && fl_mul_assoc(F) && fl_units(F) && fl_distr(F) && fl_inv(F) && F.zero != F.one }
pub proof fn lemma_divmod_lt(a: int, p: int, m: int)
  requires 0 <= a < p * m, p >= 2
  ensures 0 <= a / p < m, 0 <= a % p < p, a == a % p + p * (a / p)
{
  lemma_fundamental_div_mod(a, p); lemma_mod_bound(a, p); lemma_div_pos_is_pos(a, p);
  assert(a / p < m) by (nonlinear_arith) requires a < p * m, a == p * (a / p) + a % p, a % p >= 0, p >= 2;
}
pub proof fn lemma_cons(p: int, r: int, t: int, m: int)
  requires 0 <= r < p, 0 <= t < m, p >= 2
  ensures 0 <= r + p * t < p * m, (r + p * t) % p == r, (r + p * t) / p == t
{
  assert(r + p * t == t * p + r) by (nonlinear_arith);
  lemma_fundamental_div_mod_converse(r + p * t, p, t, r);
  assert(r + p * t < p * m) by (nonlinear_arith) requires 0 <= r < p, 0 <= t, t <= m - 1, p >= 2;
  assert(0 <= p * t) by (nonlinear_arith) requires 0 <= t, p >= 2;
}
pub proof fn lemma_pow_next(p: int, d: int)
  requires d >= 1, p >= 2
  ensures pow(p, d as nat) == p * pow(p, (d - 1) as nat), pow(p, (d - 1) as nat) >= 1
{ reveal(pow); lemma_pow_positive(p, (d - 1) as nat); }
pub proof fn lemma_dig_in(p: int, d: int, a: int, b: int)
  requires p >= 2, d >= 0, 0 <= a < pow(p, d as nat), 0 <= b < pow(p, d as nat)
  ensures 0 <= dig_add(p, d, a, b) < pow(p, d as nat), dig_add(p, d, a, b) == dig_add(p, d, b, a)
  decreases d
{
  if d == 0 { reveal(pow); } else {
    lemma_pow_next(p, d); let m = pow(p, (d - 1) as nat);
    lemma_divmod_lt(a, p, m); lemma_divmod_lt(b, p, m);
    lemma_dig_in(p, d - 1, a / p, b / p);
    lemma_mod_bound(a % p + b % p, p);
    lemma_cons(p, (a % p + b % p) % p, dig_add(p, d - 1, a / p, b / p), m);
  }
}
pub proof fn lemma_dig_assoc(p: int, d: int, a: int, b: int, c: int)
  requires p >= 2, d >= 0, 0 <= a < pow(p, d as nat), 0 <= b < pow(p, d as nat), 0 <= c < pow(p, d as nat)
  ensures dig_add(p, d, dig_add(p, d, a, b), c) == dig_add(p, d, a, dig_add(p, d, b, c))
  decreases d
{
  if d > 0 {
    lemma_pow_next(p, d); let m = pow(p, (d - 1) as nat);
    lemma_divmod_lt(a, p, m); lemma_divmod_lt(b, p, m); lemma_divmod_lt(c, p, m);
    lemma_dig_assoc(p, d - 1, a / p, b / p, c / p);
    lemma_dig_in(p, d - 1, a / p, b / p); lemma_dig_in(p, d - 1, b / p, c / p);
    let x = a % p; let y = b % p; let z = c % p;
    lemma_mod_bound(x + y, p); lemma_mod_bound(y + z, p);
    lemma_cons(p, (x + y) % p, dig_add(p, d - 1, a / p, b / p), m);
    lemma_cons(p, (y + z) % p, dig_add(p, d - 1, b / p, c / p), m);
    assert(((x + y) % p + z) % p == (x + (y + z) % p) % p) by { lemma_add_mod_noop_right(z, x + y, p); lemma_add_mod_noop_right(x, y + z, p); }
  }
}
pub proof fn lemma_dig_zero(p: int, d: int, a: int)
  requires p >= 2, d >= 0, 0 <= a < pow(p, d as nat)
  ensures dig_add(p, d, a, 0) == a
  decreases d
{
  if d == 0 { reveal(pow); } else {
    lemma_pow_next(p, d); lemma_divmod_lt(a, p, pow(p, (d - 1) as nat));
    lemma_dig_zero(p, d - 1, a / p);
    lemma_small_mod(0nat, p as nat); lemma_div_basics(p); lemma_small_mod((a % p) as nat, p as nat);
  }
}
pub proof fn lemma_dig_neg(p: int, d: int, a: int)
  requires p >= 2, d >= 0, 0 <= a < pow(p, d as nat)
  ensures dig_add(p, d, a, dig_neg(p, d, a)) == 0, 0 <= dig_neg(p, d, a) < pow(p, d as nat)
  decreases d
{
  if d == 0 { reveal(pow); } else {
    lemma_pow_next(p, d); let m = pow(p, (d - 1) as nat); lemma_divmod_lt(a, p, m);
    lemma_dig_neg(p, d - 1, a / p);
    let x = a % p;
    lemma_mod_bound(p - x, p);
    lemma_cons(p, (p - x) % p, dig_neg(p, d - 1, a / p), m);
    lemma_add_mod_noop_right(x, p - x, p);
    lemma_mod_self_0(p);
    assert((x + (p - x) % p) % p == 0);
    lemma_small_mod(((p - x) % p) as nat, p as nat);
    assert(p * 0 == 0);
  }
}
// adding one
pub open spec fn succ(p: int, a: int) -> int { if a % p == p - 1 { a - (p - 1) } else { a + 1 } }
pub proof fn lemma_dig_one(p: int, d: int, a: int)
  requires p >= 2, d >= 1, 0 <= a < pow(p, d as nat)
  ensures dig_add(p, d, a, 1) == succ(p, a), 0 <= succ(p, a) < pow(p, d as nat)
{
  lemma_pow_next(p, d); let m = pow(p, (d - 1) as nat); lemma_divmod_lt(a, p, m);
  assert(p * 0 == 0 && 0 * p == 0);
  lemma_small_mod(1nat, p as nat); lemma_fundamental_div_mod_converse(1, p, 0, 1);
  lemma_dig_zero(p, d - 1, a / p);
  if a % p == p - 1 { lemma_mod_self_0(p); } else { lemma_small_mod((a % p + 1) as nat, p as nat); }
  lemma_one_lt(p, d); lemma_dig_in(p, d, a, 1);
}
pub proof fn lemma_one_lt(p: int, d: int)
  requires p >= 2, d >= 1
  ensures 1 < pow(p, d as nat), p <= pow(p, d as nat)
{ lemma_pow_next(p, d); let m = pow(p, (d - 1) as nat); assert(p * m >= p) by (nonlinear_arith) requires m >= 1, p >= 2; }
pub proof fn lemma_law_closed(ctx: FqCtx, g: int)
  requires ctx_ok(ctx), 0 <= g < fq_fld(ctx, g).q
  ensures fl_closed(fq_fld(ctx, g))
{
  let F = fq_fld(ctx, g); let p = ctx.prime(); let d = ctx.degree();
  fq_axiom(ctx, g); lemma_one_lt(p, d);
  assert forall|a: int, b: int| inn(F, a) && inn(F, b) implies inn(F, #[trigger] fadd(F, a, b)) by { lemma_dig_in(p, d, a, b); }
  reveal(fl_closed);
}
pub proof fn lemma_law_comm(ctx: FqCtx, g: int)
  requires ctx_ok(ctx)
  ensures fl_comm(fq_fld(ctx, g))
{
  let F = fq_fld(ctx, g); let p = ctx.prime(); let d = ctx.degree();
  assert forall|a: int, b: int| inn(F, a) && inn(F, b) implies #[trigger] fadd(F, a, b) == fadd(F, b, a) by { lemma_dig_in(p, d, a, b); }
  fq_axiom(ctx, g);
  reveal(fl_comm);
}
pub proof fn lemma_law_assoc(ctx: FqCtx, g: int)
  requires ctx_ok(ctx)
  ensures fl_add_assoc(fq_fld(ctx, g))
{
  let F = fq_fld(ctx, g); let p = ctx.prime(); let d = ctx.degree();
  assert forall|a: int, b: int, c: int| inn(F, a) && inn(F, b) && inn(F, c) implies #[trigger] fadd(F, fadd(F, a, b), c) == fadd(F, a, fadd(F, b, c)) by { lemma_dig_assoc(p, d, a, b, c); }
  reveal(fl_add_assoc);
}
pub proof fn lemma_law_units(ctx: FqCtx, g: int)
  requires ctx_ok(ctx)
  ensures fl_units(fq_fld(ctx, g))
{
  let F = fq_fld(ctx, g); let p = ctx.prime(); let d = ctx.degree();
  assert forall|a: int| #[trigger] inn(F, a) implies fadd(F, a, F.zero) == a && fneg_exists(F, a) by { lemma_dig_zero(p, d, a); lemma_dig_neg(p, d, a); let b = dig_neg(p, d, a); assert(inn(F, b) && fadd(F, a, b) == F.zero); }
  fq_axiom(ctx, g);
  reveal(fl_units);
}
pub proof fn lemma_laws(ctx: FqCtx, g: int)
  requires ctx_ok(ctx), 0 <= g < fq_fld(ctx, g).q, fq_fld(ctx, g).q >= 3
  ensures fl_laws(fq_fld(ctx, g))
{ fq_axiom(ctx, g); lemma_law_closed(ctx, g); lemma_law_comm(ctx, g); lemma_law_assoc(ctx, g); lemma_law_units(ctx, g); }
pub proof fn lw_in(F: Fld, a: int, b: int) requires fl_laws(F), inn(F, a), inn(F, b) ensures inn(F, fmul(F, a, b)) { reveal(fl_closed); }
pub proof fn lw_gpow_in(F: Fld, n: int)
  requires fl_laws(F), n >= 0
  ensures inn(F, gpow(F, n)), inn(F, F.gen), inn(F, F.one), inn(F, F.zero)
  decreases n
{ reveal(fl_closed); if n > 0 { lw_gpow_in(F, n - 1); lw_in(F, gpow(F, n - 1), F.gen); } }
pub proof fn lw_unit(F: Fld, a: int)
  requires fl_laws(F), inn(F, a)
  ensures fmul(F, a, F.one) == a, fmul(F, F.one, a) == a, fmul(F, a, F.zero) == F.zero, fmul(F, F.zero, a) == F.zero
{ reveal(fl_units); reveal(fl_comm); lw_gpow_in(F, 0); assert(fmul(F, a, F.one) == fmul(F, F.one, a)); assert(fmul(F, a, F.zero) == fmul(F, F.zero, a)); }
pub proof fn lw_gpow_add(F: Fld, i: int, j: int)
  requires fl_laws(F), i >= 0, j >= 0
  ensures gpow(F, i + j) == fmul(F, gpow(F, i), gpow(F, j))
  decreases j
{
  lw_gpow_in(F, i);
  if j > 0 {
    lw_gpow_add(F, i, j - 1); lw_gpow_in(F, j - 1);
    reveal(fl_mul_assoc);
    assert(gpow(F, i + j) == fmul(F, gpow(F, i + j - 1), F.gen));
    assert(fmul(F, fmul(F, gpow(F, i), gpow(F, j - 1)), F.gen) == fmul(F, gpow(F, i), fmul(F, gpow(F, j - 1), F.gen)));
  } else { lw_unit(F, gpow(F, i)); }
}
pub proof fn lw_cancel(F: Fld, a: int, b: int, c: int)
  requires fl_laws(F), inn(F, a), inn(F, b), inn(F, c), a != F.zero, fmul(F, a, b) == fmul(F, a, c)
  ensures b == c
{
  reveal(fl_inv); reveal(fl_comm); reveal(fl_mul_assoc);
  assert(inv_exists(F, a));
  let v = choose|v: int| inn(F, v) && #[trigger] fmul(F, a, v) == F.one;
  assert(fmul(F, v, a) == fmul(F, a, v));
  assert(fmul(F, fmul(F, v, a), b) == fmul(F, v, fmul(F, a, b)));
  assert(fmul(F, fmul(F, v, a), c) == fmul(F, v, fmul(F, a, c)));
  lw_unit(F, b); lw_unit(F, c);
}
pub proof fn lw_nonzero(F: Fld, a: int, b: int)
  requires fl_laws(F), inn(F, a), inn(F, b), a != F.zero, b != F.zero
  ensures fmul(F, a, b) != F.zero
{ lw_gpow_in(F, 0); lw_unit(F, a); if fmul(F, a, b) == F.zero { lw_cancel(F, a, b, F.zero); } }
pub proof fn lw_gpow_nonzero(F: Fld, n: int)
  requires fl_laws(F), n >= 0, F.gen != F.zero
  ensures gpow(F, n) != F.zero
  decreases n
{ if n > 0 { lw_gpow_nonzero(F, n - 1); lw_gpow_in(F, n - 1); lw_nonzero(F, gpow(F, n - 1), F.gen); } }
// the generator has order q - 1
pub open spec fn prim(F: Fld) -> bool { F.gen != F.zero && forall|i: int| 0 < i < F.q - 1 ==> #[trigger] gpow(F, i) != F.one }
pub proof fn lw_return(F: Fld, i: int, j: int)
  requires fl_laws(F), 0 <= i < j, F.gen != F.zero, gpow(F, i) == gpow(F, j)
  ensures gpow(F, j - i) == F.one
{ lw_gpow_add(F, i, j - i); lw_gpow_in(F, i); lw_gpow_in(F, j - i); lw_unit(F, gpow(F, i)); lw_gpow_nonzero(F, i); lw_cancel(F, gpow(F, i), gpow(F, j - i), F.one); }
pub open spec fn pset(F: Fld, n: int) -> Set<int>
  decreases n
{ if n <= 0 { Set::<int>::empty() } else { pset(F, n - 1).insert(gpow(F, n - 1)) } }
pub proof fn lw_pset(F: Fld, n: int)
  requires fl_laws(F), prim(F), 0 <= n <= F.q - 1
  ensures pset(F, n).finite(), pset(F, n).len() == n, forall|a: int| #[trigger] pset(F, n).contains(a) ==> exists|i: int| 0 <= i < n && a == #[trigger] gpow(F, i), forall|i: int| 0 <= i < n ==> pset(F, n).contains(#[trigger] gpow(F, i))
  decreases n
{
  if n > 0 {
    lw_pset(F, n - 1);
    let g = gpow(F, n - 1);
    if pset(F, n - 1).contains(g) {
      let i = choose|i: int| 0 <= i < n - 1 && g == #[trigger] gpow(F, i);
      lw_return(F, i, n - 1);
    }
    assert forall|a: int| #[trigger] pset(F, n).contains(a) implies exists|i: int| 0 <= i < n && a == #[trigger] gpow(F, i) by {
      if a == g { assert(0 <= n - 1 < n && a == gpow(F, n - 1)); } else { let i = choose|i: int| 0 <= i < n - 1 && a == #[trigger] gpow(F, i); assert(0 <= i < n && a == gpow(F, i)); }
    }
  }
}
pub proof fn lemma_prim(F: Fld)
  requires fl_laws(F), prim(F)
  ensures fl_gen(F)
{
  let m = F.q - 1;
  lw_pset(F, m); lw_gpow_in(F, 0);
  let S = pset(F, m); let U = vstd::set_lib::set_int_range(0, F.q);
  vstd::set_lib::lemma_int_range(0, F.q);
  if S.contains(F.zero) { let i = choose|i: int| 0 <= i < m && F.zero == #[trigger] gpow(F, i); lw_gpow_nonzero(F, i); }
  assert(S.insert(F.zero).subset_of(U)) by {
    assert forall|a: int| S.insert(F.zero).contains(a) implies U.contains(a) by {
      if a != F.zero { let i = choose|i: int| 0 <= i < m && a == #[trigger] gpow(F, i); lw_gpow_in(F, i); }
    }
  }
  assert forall|a: int| inn(F, a) && a != F.zero implies S.contains(a) by {
    if !S.contains(a) {
      let W = S.insert(F.zero).insert(a);
      assert(W.subset_of(U));
      vstd::set_lib::lemma_len_subset(W, U);
    }
  }
  let last = gpow(F, m);
  lw_gpow_in(F, m); lw_gpow_nonzero(F, m);
  let j = choose|i: int| 0 <= i < m && last == #[trigger] gpow(F, i);
  lw_return(F, j, m);
  assert(j == 0);
  assert forall|i: int| 0 <= i < m implies #[trigger] gpow(F, i) != F.zero by { lw_gpow_nonzero(F, i); }
  assert forall|i: int, j: int| 0 <= i < j < m implies #[trigger] gpow(F, i) != #[trigger] gpow(F, j) by { if gpow(F, i) == gpow(F, j) { lw_return(F, i, j); } }
  assert forall|a: int| inn(F, a) && a != F.zero implies is_gpow(F, a) by { assert(S.contains(a)); let i = choose|i: int| 0 <= i < m && a == #[trigger] gpow(F, i); assert(0 <= i < m && a == gpow(F, i)); }
  reveal(fl_gen);
}
// digits
pub proof fn lemma_hcode(ctx: FqCtx, x: NmodPoly, k: int)
  requires ctx_ok(ctx), fq_elt(ctx, x), 0 <= k <= ctx.degree()
  ensures 0 <= hcode(x, ctx.prime(), k, ctx.degree()) < pow(ctx.prime(), (ctx.degree() - k) as nat)
  decreases ctx.degree() - k
{
  let p = ctx.prime(); let d = ctx.degree();
  if k < d {
    lemma_hcode(ctx, x, k + 1); lemma_pow_next(p, d - k);
    lemma_cons(p, pc(x, k), hcode(x, p, k + 1, d), pow(p, (d - k - 1) as nat));
  } else { reveal(pow); }
}
pub proof fn lemma_hcode_step(ctx: FqCtx, x: NmodPoly, k: int)
  requires ctx_ok(ctx), fq_elt(ctx, x), 0 <= k < ctx.degree(), pow(ctx.prime(), ctx.degree() as nat) < 0x4000_0000
  ensures 0 <= hcode(x, ctx.prime(), k + 1, ctx.degree()) * ctx.prime() < 0x4000_0000, 0 <= hcode(x, ctx.prime(), k + 1, ctx.degree()) * ctx.prime() + pc(x, k) < 0x4000_0000, 0 <= pc(x, k) < ctx.prime(),
    hcode(x, ctx.prime(), k, ctx.degree()) == hcode(x, ctx.prime(), k + 1, ctx.degree()) * ctx.prime() + pc(x, k)
{
  let p = ctx.prime(); let d = ctx.degree();
  lemma_hcode(ctx, x, k); lemma_hcode(ctx, x, k + 1); lemma_pow_next(p, d - k);
  lemma_pow_mono(p, d - k, d);
  let h = hcode(x, p, k + 1, d);
  assert(h * p == p * h && 0 <= p * h) by (nonlinear_arith) requires p >= 2, h >= 0;
}
pub proof fn lemma_pow_mono(p: int, a: int, b: int)
  requires p >= 2, 0 <= a <= b
  ensures pow(p, a as nat) <= pow(p, b as nat)
  decreases b
{ if a < b { lemma_pow_mono(p, a, b - 1); lemma_pow_next(p, b); let m = pow(p, (b - 1) as nat); assert(p * m >= m) by (nonlinear_arith) requires m >= 1, p >= 2; } }
pub proof fn lemma_hcode_zero(x: NmodPoly, p: int, k: int, d: int)
  requires pzero(x), 0 <= k <= d
  ensures hcode(x, p, k, d) == 0
  decreases d - k
{ if k < d { lemma_hcode_zero(x, p, k + 1, d); assert(pc(x, k) == 0); assert(p * 0 == 0); } }
pub open spec fn first_gen(ctx: FqCtx, k: int) -> bool { k >= 0 && prim(fq_fld(ctx, fq_code(ctx, fq_cand(ctx, k)))) && forall|j: int| 0 <= j < k ==> !prim(#[trigger] fq_fld(ctx, fq_code(ctx, fq_cand(ctx, j)))) }
// the field with the generator that the search finds
pub open spec fn ctx_field(ctx: FqCtx) -> Fld { fq_fld(ctx, fq_code(ctx, fq_cand(ctx, choose|k: int| first_gen(ctx, k)))) }
pub open spec fn std_field(p: int, d: int) -> Fld { ctx_field(fq_ctx_of(p, d)) }
pub proof fn lemma_first(ctx: FqCtx, k: int)
  requires first_gen(ctx, k)
  ensures ctx_field(ctx) == fq_fld(ctx, fq_code(ctx, fq_cand(ctx, k)))
{ let j = choose|k: int| first_gen(ctx, k); assert(first_gen(ctx, j)); if j < k { assert(!prim(fq_fld(ctx, fq_code(ctx, fq_cand(ctx, j))))); } else if k < j { assert(!prim(fq_fld(ctx, fq_code(ctx, fq_cand(ctx, k))))); } }
#[verifier::external_body]
pub proof fn fq_ctx_axiom(p: int, d: int)
  requires is_prime(p), d >= 1
  ensures fq_ctx_of(p, d).prime() == p, fq_ctx_of(p, d).degree() == d
{ }
// a Conway polynomial is tabulated; then the first candidate is a generator
pub uninterp spec fn has_conway(p: int, d: int) -> bool;
pub open spec fn conway_gen(ctx: FqCtx) -> bool { prim(fq_fld(ctx, fq_code(ctx, fq_cand(ctx, 0)))) }
pub proof fn lemma_conway(ctx: FqCtx)
  requires ctx_ok(ctx), ctx.prime() % 2 == 1, conway_gen(ctx), fq_elt(ctx, fq_cand(ctx, 0))
  ensures is_field(ctx_field(ctx)), ctx_field(ctx) == fq_fld(ctx, fq_code(ctx, fq_cand(ctx, 0)))
{
  assert(first_gen(ctx, 0)); lemma_first(ctx, 0);
  lemma_pow_odd(ctx.prime(), ctx.degree()); lemma_one_lt(ctx.prime(), ctx.degree());
  assert(ctx.prime() >= 3);
  lemma_hcode(ctx, fq_cand(ctx, 0), 0); lemma_laws(ctx, fq_code(ctx, fq_cand(ctx, 0)));
  lemma_prim(ctx_field(ctx));
}
pub proof fn lemma_pow_odd(p: int, d: int)
  requires p % 2 == 1, p >= 2, d >= 0
  ensures pow(p, d as nat) % 2 == 1
  decreases d
{ if d == 0 { reveal(pow); } else { lemma_pow_odd(p, d - 1); lemma_pow_next(p, d); let m = pow(p, (d - 1) as nat); let a = p / 2; let b = m / 2; assert(p * m == 2 * (a * m + b) + 1) by (nonlinear_arith) requires p == 2 * a + 1, m == 2 * b + 1; } }
#[verifier::external_body]
pub fn fmpz_set_si(f: Fmpz, x: i64) -> (r: Fmpz) ensures r@ == x { unimplemented!() }
#[verifier::external_body]
pub fn fq_nmod_ctx_init(c: FqCtx, p: Fmpz, d: i64, name: CVec<u8>) -> (r: FqCtx) requires is_prime(p@), d >= 1 ensures r == fq_ctx_of(p@, d as int), r.prime() == p@, r.degree() == d { unimplemented!() }
#[verifier::external_body]
pub fn fq_nmod_ctx_clear(c: FqCtx) -> (r: FqCtx) { unimplemented!() }
#[verifier::external_body]
pub fn flint_randinit(s: FlintRand) -> (r: FlintRand) ensures r@ == 0 { unimplemented!() }
#[verifier::external_body]
pub fn flint_randclear(s: FlintRand) -> (r: FlintRand) { unimplemented!() }
#[verifier::external_body]
pub fn fq_nmod_gen(x: NmodPoly, ctx: FqCtx) -> (r: NmodPoly) requires ctx_ok(ctx) ensures r == fq_cand(ctx, 0), fq_elt(ctx, r) { unimplemented!() }
#[verifier::external_body]
pub fn fq_nmod_randtest(x: NmodPoly, s: FlintRand, ctx: FqCtx) -> (r: (NmodPoly, FlintRand)) requires ctx_ok(ctx), s@ >= 0 ensures r.1@ == s@ + 1, r.0 == fq_cand(ctx, r.1@), fq_elt(ctx, r.0) { unimplemented!() }
#[verifier::external_body]
pub fn fq_nmod_one(x: NmodPoly, ctx: FqCtx) -> (r: NmodPoly) requires ctx_ok(ctx) ensures fq_elt(ctx, r), fq_code(ctx, r) == 1 { unimplemented!() }
#[verifier::external_body]
pub fn fq_nmod_zero(x: NmodPoly, ctx: FqCtx) -> (r: NmodPoly) requires ctx_ok(ctx) ensures fq_elt(ctx, r), fq_code(ctx, r) == 0 { unimplemented!() }
#[verifier::external_body]
pub fn fq_nmod_set(x: NmodPoly, y: NmodPoly, ctx: FqCtx) -> (r: NmodPoly) ensures r == y { unimplemented!() }
#[verifier::external_body]
pub fn fq_nmod_reduce(x: NmodPoly, ctx: FqCtx) -> (r: NmodPoly) requires ctx_ok(ctx), fq_elt(ctx, x) ensures fq_elt(ctx, r), fq_code(ctx, r) == fq_code(ctx, x) { unimplemented!() }
#[verifier::external_body]
pub fn fq_nmod_mul(x: NmodPoly, a: NmodPoly, b: NmodPoly, ctx: FqCtx) -> (r: NmodPoly) requires ctx_ok(ctx), fq_elt(ctx, a), fq_elt(ctx, b) ensures fq_elt(ctx, r), fq_code(ctx, r) == fq_mulc(ctx, fq_code(ctx, a), fq_code(ctx, b)) { unimplemented!() }
#[verifier::external_body]
pub fn fq_nmod_equal(a: NmodPoly, b: NmodPoly, ctx: FqCtx) -> (r: i32) requires ctx_ok(ctx), fq_elt(ctx, a), fq_elt(ctx, b) ensures r != 0 <==> fq_code(ctx, a) == fq_code(ctx, b) { unimplemented!() }
#[verifier::external_body]
pub fn fq_nmod_is_zero(a: NmodPoly, ctx: FqCtx) -> (r: i32) requires ctx_ok(ctx), fq_elt(ctx, a) ensures r != 0 <==> fq_code(ctx, a) == 0 { unimplemented!() }
#[verifier::external_body]
pub fn fq_nmod_is_one(a: NmodPoly, ctx: FqCtx) -> (r: i32) requires ctx_ok(ctx), fq_elt(ctx, a) ensures r != 0 <==> fq_code(ctx, a) == 1 { unimplemented!() }
#[verifier::external_body]
pub fn fq_nmod_ctx_init_conway(c: FqCtx, p: Fmpz, d: i64, name: CVec<u8>) -> (r: FqCtx) requires is_prime(p@), d >= 1, has_conway(p@, d as int) ensures r == fq_ctx_of(p@, d as int), r.prime() == p@, r.degree() == d, conway_gen(r) { unimplemented!() }
#[verifier::external_body]
pub fn fq_nmod_add(x: NmodPoly, a: NmodPoly, b: NmodPoly, ctx: FqCtx) -> (r: NmodPoly) requires ctx_ok(ctx), fq_elt(ctx, a), fq_elt(ctx, b) ensures fq_elt(ctx, r), fq_code(ctx, r) == dig_add(ctx.prime(), ctx.degree(), fq_code(ctx, a), fq_code(ctx, b)) { unimplemented!() }
#[verifier::external_body]
pub fn fq_nmod_pow_ui(x: NmodPoly, a: NmodPoly, e: u64, ctx: FqCtx) -> (r: NmodPoly) requires ctx_ok(ctx), fq_elt(ctx, a) ensures fq_elt(ctx, r), forall|g: int| fq_code(ctx, r) == #[trigger] fpow(fq_fld(ctx, g), fq_code(ctx, a), e as int) { unimplemented!() }
// Zech logarithms: elements are known by their number in a field with a generator
pub struct Fe { pub g: Ghost<int> }
impl Clone for Fe { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for Fe {}
impl Fe { pub open spec fn view(self) -> int { self.g@ } }
pub uninterp spec fn zech_field(p: int, d: int) -> Fld;
pub open spec fn zf(ctx: FqCtx) -> Fld { zech_field(ctx.prime(), ctx.degree()) }
pub open spec fn zok(ctx: FqCtx) -> bool { ctx_ok(ctx) }
#[verifier::external_body]
pub proof fn zech_axiom(p: int, d: int)
  requires is_prime(p), p % 2 == 1, d >= 1
  ensures is_field(zech_field(p, d)), zech_field(p, d).q == pow(p, d as nat), has_conway(p, d) ==> zech_field(p, d) == std_field(p, d)
{ }
#[verifier::external_body]
pub fn fq_zech_ctx_init(c: FqCtx, p: Fmpz, d: i64, name: CVec<u8>) -> (r: FqCtx) requires is_prime(p@), d >= 1 ensures r.prime() == p@, r.degree() == d { unimplemented!() }
#[verifier::external_body]
pub fn fq_zech_ctx_init_conway(c: FqCtx, p: Fmpz, d: i64, name: CVec<u8>) -> (r: FqCtx) requires is_prime(p@), d >= 1, has_conway(p@, d as int) ensures r.prime() == p@, r.degree() == d { unimplemented!() }
#[verifier::external_body]
pub fn fq_zech_ctx_clear(c: FqCtx) -> (r: FqCtx) { unimplemented!() }
#[verifier::external_body]
pub fn fq_zech_init(x: Fe, ctx: FqCtx) -> (r: Fe) requires zok(ctx) ensures r@ == zf(ctx).zero { unimplemented!() }
#[verifier::external_body]
pub fn fq_zech_clear(x: Fe, ctx: FqCtx) -> (r: Fe) { unimplemented!() }
#[verifier::external_body]
pub fn fq_zech_gen(x: Fe, ctx: FqCtx) -> (r: Fe) requires zok(ctx) ensures r@ == zf(ctx).gen { unimplemented!() }
#[verifier::external_body]
pub fn fq_zech_one(x: Fe, ctx: FqCtx) -> (r: Fe) requires zok(ctx) ensures r@ == zf(ctx).one { unimplemented!() }
#[verifier::external_body]
pub fn fq_zech_zero(x: Fe, ctx: FqCtx) -> (r: Fe) requires zok(ctx) ensures r@ == zf(ctx).zero { unimplemented!() }
#[verifier::external_body]
pub fn fq_zech_set(x: Fe, y: Fe, ctx: FqCtx) -> (r: Fe) ensures r == y { unimplemented!() }
#[verifier::external_body]
pub fn fq_zech_mul(x: Fe, a: Fe, b: Fe, ctx: FqCtx) -> (r: Fe) requires zok(ctx) ensures r@ == fmul(zf(ctx), a@, b@) { unimplemented!() }
#[verifier::external_body]
pub fn fq_zech_add(x: Fe, a: Fe, b: Fe, ctx: FqCtx) -> (r: Fe) requires zok(ctx) ensures r@ == fadd(zf(ctx), a@, b@) { unimplemented!() }
#[verifier::external_body]
pub fn fq_zech_pow_ui(x: Fe, a: Fe, e: u64, ctx: FqCtx) -> (r: Fe) requires zok(ctx) ensures r@ == fpow(zf(ctx), a@, e as int) { unimplemented!() }
#[verifier::external_body]
pub fn fq_zech_equal(a: Fe, b: Fe, ctx: FqCtx) -> (r: i32) requires zok(ctx) ensures r != 0 <==> a@ == b@ { unimplemented!() }
#[verifier::external_body]
pub fn fq_zech_is_zero(a: Fe, ctx: FqCtx) -> (r: i32) requires zok(ctx) ensures r != 0 <==> a@ == zf(ctx).zero { unimplemented!() }
#[verifier::external_body]
pub fn fq_zech_is_one(a: Fe, ctx: FqCtx) -> (r: i32) requires zok(ctx) ensures r != 0 <==> a@ == zf(ctx).one { unimplemented!() }
@end

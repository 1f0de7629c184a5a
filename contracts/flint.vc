# trusted contracts of the FLINT functions the code uses
@trusted FLINT fmpz_*, n_gcd: contracts in contracts/flint.vc are assumed
@prelude
pub struct Fmpz { pub g: Ghost<int> }
impl Clone for Fmpz { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for Fmpz {}
impl Fmpz { pub open spec fn view(self) -> int { self.g@ } }
#[verifier::external_body]
pub fn fmpz_init(f: Fmpz) -> (r: Fmpz) ensures r@ == 0 { unimplemented!() }
#[verifier::external_body]
pub fn fmpz_clear(f: Fmpz) -> (r: Fmpz) { unimplemented!() }
#[verifier::external_body]
pub fn fmpz_set_ui(f: Fmpz, x: u64) -> (r: Fmpz) ensures r@ == x { unimplemented!() }
#[verifier::external_body]
pub fn fmpz_init_set_ui(f: Fmpz, x: u64) -> (r: Fmpz) ensures r@ == x { unimplemented!() }
#[verifier::external_body]
pub fn fmpz_set(f: Fmpz, x: Fmpz) -> (r: Fmpz) ensures r@ == x@ { unimplemented!() }
#[verifier::external_body]
pub fn fmpz_init_set(f: Fmpz, x: Fmpz) -> (r: Fmpz) ensures r@ == x@ { unimplemented!() }
#[verifier::external_body]
pub fn fmpz_add(f: Fmpz, a: Fmpz, b: Fmpz) -> (r: Fmpz) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn fmpz_add_ui(f: Fmpz, a: Fmpz, b: u64) -> (r: Fmpz) ensures r@ == a@ + b { unimplemented!() }
#[verifier::external_body]
pub fn fmpz_mul(f: Fmpz, a: Fmpz, b: Fmpz) -> (r: Fmpz) ensures r@ == a@ * b@ { unimplemented!() }
#[verifier::external_body]
pub fn fmpz_mul_ui(f: Fmpz, a: Fmpz, b: u64) -> (r: Fmpz) ensures r@ == a@ * b { unimplemented!() }
#[verifier::external_body]
pub fn fmpz_mul_2exp(f: Fmpz, a: Fmpz, e: u64) -> (r: Fmpz) ensures r@ == a@ * pow(2, e as nat) { unimplemented!() }
#[verifier::external_body]
pub fn fmpz_fdiv_q_2exp(f: Fmpz, a: Fmpz, e: u64) -> (r: Fmpz) ensures e == 0 ==> r@ == a@, e == 1 ==> r@ == a@ / 2, e == 2 ==> r@ == a@ / 4, e == 3 ==> r@ == a@ / 8 { unimplemented!() }
#[verifier::external_body]
pub fn fmpz_divexact_ui(f: Fmpz, a: Fmpz, b: u64) -> (r: Fmpz) requires b != 0, a@ % (b as int) == 0 ensures r@ == a@ / (b as int) { unimplemented!() }
pub open spec fn gcd(a: int, b: int) -> int
  decreases b
{ if b <= 0 || a < 0 { a } else { gcd(b, a % b) } }
#[verifier::external_body]
pub fn n_gcd(a: u64, b: u64) -> (r: u64) ensures r == gcd(a as int, b as int) { unimplemented!() }
pub proof fn lemma_gcd(a: int, b: int)
  requires a >= 0, b >= 0, a + b > 0
  ensures gcd(a, b) >= 1, a % gcd(a, b) == 0, b % gcd(a, b) == 0, a > 0 ==> gcd(a, b) <= a, b > 0 ==> gcd(a, b) <= b
  decreases b
{
  if b == 0 { vstd::arithmetic::div_mod::lemma_mod_self_0(a); vstd::arithmetic::div_mod::lemma_small_mod(0nat, a as nat); }
  else {
    assert(0 <= a % b < b) by (nonlinear_arith) requires a >= 0, b > 0;
    lemma_gcd(b, a % b);
    let g = gcd(b, a % b);
    let x = b / g; let y = (a % b) / g; let k = a / b;
    assert(b == g * x && a % b == g * y) by (nonlinear_arith) requires b % g == 0, (a % b) % g == 0, g >= 1, x == b / g, y == (a % b) / g;
    assert(a == g * (x * k + y)) by (nonlinear_arith) requires b == g * x, a % b == g * y, b > 0, k == a / b, a >= 0;
    let z = x * k + y;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(z, g);
    assert(a == z * g) by (nonlinear_arith) requires a == g * (x * k + y), z == x * k + y;
    if a > 0 { assert(g <= a) by (nonlinear_arith) requires a == g * (x * k + y), g >= 1, a > 0; }
  }
}
// polynomials over a prime field, elements of a finite field (represented by such polynomials), field contexts
pub struct NmodPoly { pub g: Ghost<(int, Seq<int>)> }
impl Clone for NmodPoly { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for NmodPoly {}
impl NmodPoly { pub open spec fn modulus(self) -> int { self.g@.0 } pub open spec fn coeffs(self) -> Seq<int> { self.g@.1 } }
pub struct FqCtx { pub g: Ghost<(int, int, int)> }
impl Clone for FqCtx { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for FqCtx {}
impl FqCtx { pub open spec fn prime(self) -> int { self.g@.0 } pub open spec fn degree(self) -> int { self.g@.1 } }
pub open spec fn is_prime(p: int) -> bool { p >= 2 && forall|d: int| 1 < d < p ==> #[trigger] (p % d) != 0 }
// the i-th coefficient
pub open spec fn pc(x: NmodPoly, i: int) -> int { if 0 <= i < x.coeffs().len() { x.coeffs()[i] } else { 0 } }
pub open spec fn pzero(x: NmodPoly) -> bool { forall|i: int| 0 <= i < x.coeffs().len() ==> #[trigger] x.coeffs()[i] == 0 }
pub open spec fn seq_put<T>(s: Seq<T>, i: int, x: T, z: T) -> Seq<T> { if i < s.len() { s.update(i, x) } else { Seq::new((i + 1) as nat, |k: int| if k < s.len() { s[k] } else if k == i { x } else { z }) } }
#[verifier::external_body]
pub fn nmod_poly_init2(p: NmodPoly, n: u64, alloc: i64) -> (r: NmodPoly) requires n > 0 ensures r.modulus() == n, r.coeffs() == Seq::<int>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn nmod_poly_clear(p: NmodPoly) -> (r: NmodPoly) { unimplemented!() }
#[verifier::external_body]
pub fn nmod_poly_set_coeff_ui(p: NmodPoly, i: i64, x: u64) -> (r: NmodPoly) requires i >= 0, p.modulus() > 0 ensures r.modulus() == p.modulus(), r.coeffs() == seq_put(p.coeffs(), i as int, x as int % p.modulus(), 0) { unimplemented!() }
#[verifier::external_body]
pub fn nmod_poly_get_coeff_ui(p: NmodPoly, i: i64) -> (r: u64) requires i >= 0 ensures r == pc(p, i as int) { unimplemented!() }
// degrees and multiplicities of the irreducible factors of a polynomial over F_p, given by its coefficients
pub uninterp spec fn irr(p: int, c: Seq<int>) -> Seq<(int, int)>;
pub open spec fn fac_sum(s: Seq<(int, int)>) -> int decreases s.len() { if s.len() == 0 { 0 } else { fac_sum(s.drop_last()) + s.last().0 * s.last().1 } }
pub open spec fn facs_of(s: Seq<(int, int)>, d: int) -> bool {
  &&& s.len() < 0x4000_0000
  &&& forall|i: int| 0 <= i < s.len() ==> 1 <= (#[trigger] s[i]).0 < 0x4000_0000 && 1 <= s[i].1 < 0x4000_0000
  &&& fac_sum(s) == d
}
pub open spec fn all_simple(s: Seq<(int, int)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 == 1 }
pub open spec fn poly_ok(p: int, c: Seq<int>) -> bool { is_prime(p) && 1 <= c.len() < 0x4000_0000 && c.last() != 0 && forall|i: int| 0 <= i < c.len() ==> 0 <= #[trigger] c[i] < p }
#[verifier::external_body]
pub fn nmod_poly_is_squarefree(p: NmodPoly) -> (r: i32) requires poly_ok(p.modulus(), p.coeffs()) ensures r != 0 <==> all_simple(irr(p.modulus(), p.coeffs())) { unimplemented!() }
#[verifier::external_body]
pub fn nmod_poly_degree(p: NmodPoly) -> (r: i64) requires p.coeffs().len() == 0 || p.coeffs().last() != 0 ensures r == p.coeffs().len() - 1 { unimplemented!() }
pub struct PolyFactor { pub g: Ghost<Seq<(int, int)>> }
impl Clone for PolyFactor { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for PolyFactor {}
impl PolyFactor { pub open spec fn view(self) -> Seq<(int, int)> { self.g@ } }
#[verifier::external_body]
pub fn nmod_poly_factor_init(f: PolyFactor) -> (r: PolyFactor) ensures r@ == Seq::<(int, int)>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn nmod_poly_factor_clear(f: PolyFactor) -> (r: PolyFactor) { unimplemented!() }
#[verifier::external_body]
pub fn nmod_poly_factor(f: PolyFactor, p: NmodPoly) -> (r: (u64, PolyFactor)) requires poly_ok(p.modulus(), p.coeffs()), f@.len() == 0 ensures r.1@ == irr(p.modulus(), p.coeffs()), facs_of(r.1@, p.coeffs().len() - 1) { unimplemented!() }
#[verifier::external_body]
pub fn pf_num(f: PolyFactor) -> (r: i64) ensures r == f@.len() { unimplemented!() }
#[verifier::external_body]
pub fn pf_exp(f: PolyFactor) -> (r: CVec<i64>) ensures r@.len() == f@.len(), forall|i: int| 0 <= i < f@.len() ==> #[trigger] r@[i] == f@[i].1 { unimplemented!() }
#[verifier::external_body]
pub fn pf_polys(f: PolyFactor) -> (r: CVec<NmodPoly>) ensures r@.len() == f@.len(), forall|i: int| 0 <= i < f@.len() ==> (#[trigger] r@[i]).coeffs().len() == f@[i].0 + 1 && r@[i].coeffs().last() != 0 { unimplemented!() }
// polynomials over an extension field
pub struct FqPoly { pub g: Ghost<Seq<NmodPoly>> }
impl Clone for FqPoly { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for FqPoly {}
impl FqPoly { pub open spec fn view(self) -> Seq<NmodPoly> { self.g@ } }
pub open spec fn fqpoly_ok(ctx: FqCtx, c: Seq<NmodPoly>) -> bool { 1 <= c.len() < 0x4000_0000 && !pzero(c.last()) }
pub uninterp spec fn irrq(ctx: FqCtx, c: Seq<NmodPoly>) -> Seq<(int, int)>;
pub uninterp spec fn fq_zero_elt(ctx: FqCtx) -> NmodPoly;
#[verifier::external_body]
pub fn fq_nmod_init(p: NmodPoly, ctx: FqCtx) -> (r: NmodPoly) ensures r == fq_zero_elt(ctx), pzero(r) { unimplemented!() }
#[verifier::external_body]
pub fn fq_nmod_clear(p: NmodPoly, ctx: FqCtx) -> (r: NmodPoly) { unimplemented!() }
#[verifier::external_body]
pub fn fq_nmod_poly_init2(p: FqPoly, alloc: i64, ctx: FqCtx) -> (r: FqPoly) ensures r@ == Seq::<NmodPoly>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn fq_nmod_poly_clear(p: FqPoly, ctx: FqCtx) -> (r: FqPoly) { unimplemented!() }
#[verifier::external_body]
pub fn fq_nmod_poly_set_coeff(p: FqPoly, i: i64, x: NmodPoly, ctx: FqCtx) -> (r: FqPoly) requires i >= 0 ensures r@ == seq_put(p@, i as int, x, fq_zero_elt(ctx)) { unimplemented!() }
#[verifier::external_body]
pub fn fq_nmod_poly_is_squarefree(p: FqPoly, ctx: FqCtx) -> (r: i32) requires fqpoly_ok(ctx, p@) ensures r != 0 <==> all_simple(irrq(ctx, p@)) { unimplemented!() }
#[verifier::external_body]
pub fn fq_nmod_poly_degree(p: FqPoly, ctx: FqCtx) -> (r: i64) requires p@.len() == 0 || !pzero(p@.last()) ensures r == p@.len() - 1 { unimplemented!() }
pub struct FqPolyFactor { pub g: Ghost<Seq<(int, int)>> }
impl Clone for FqPolyFactor { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for FqPolyFactor {}
impl FqPolyFactor { pub open spec fn view(self) -> Seq<(int, int)> { self.g@ } }
#[verifier::external_body]
pub fn fq_nmod_poly_factor_init(f: FqPolyFactor, ctx: FqCtx) -> (r: FqPolyFactor) ensures r@ == Seq::<(int, int)>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn fq_nmod_poly_factor_clear(f: FqPolyFactor, ctx: FqCtx) -> (r: FqPolyFactor) { unimplemented!() }
#[verifier::external_body]
pub fn fq_nmod_poly_factor(f: FqPolyFactor, lead: NmodPoly, p: FqPoly, ctx: FqCtx) -> (r: (FqPolyFactor, NmodPoly)) requires fqpoly_ok(ctx, p@), f@.len() == 0 ensures r.0@ == irrq(ctx, p@), facs_of(r.0@, p@.len() - 1) { unimplemented!() }
#[verifier::external_body]
pub fn fpf_num(f: FqPolyFactor) -> (r: i64) ensures r == f@.len() { unimplemented!() }
#[verifier::external_body]
pub fn fpf_exp(f: FqPolyFactor) -> (r: CVec<i64>) ensures r@.len() == f@.len(), forall|i: int| 0 <= i < f@.len() ==> #[trigger] r@[i] == f@[i].1 { unimplemented!() }
#[verifier::external_body]
pub fn fpf_polys(f: FqPolyFactor) -> (r: CVec<FqPoly>) ensures r@.len() == f@.len(), forall|i: int| 0 <= i < f@.len() ==> (#[trigger] r@[i])@.len() == f@[i].0 + 1 && !pzero(r@[i]@.last()) { unimplemented!() }
@end

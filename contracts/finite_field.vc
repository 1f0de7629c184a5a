# finite fields of odd order with a primitive element, polynomials over them and the counting of values
# (definitions and lemmas only; nothing is assumed)
@prelude
#[verifier::ext_equal]
pub struct Fld { pub q: int, pub zero: int, pub one: int, pub gen: int, pub add: spec_fn(int, int) -> int, pub mul: spec_fn(int, int) -> int }
pub open spec fn inn(F: Fld, a: int) -> bool { 0 <= a < F.q }
pub open spec fn fadd(F: Fld, a: int, b: int) -> int { (F.add)(a, b) }
pub open spec fn fmul(F: Fld, a: int, b: int) -> int { (F.mul)(a, b) }
pub open spec fn gpow(F: Fld, n: int) -> int
  decreases n
{ if n <= 0 { F.one } else { fmul(F, gpow(F, n - 1), F.gen) } }
pub open spec fn fpow(F: Fld, a: int, n: int) -> int
  decreases n
{ if n <= 0 { F.one } else { fmul(F, fpow(F, a, n - 1), a) } }
#[verifier::opaque]
pub open spec fn fl_closed(F: Fld) -> bool { inn(F, F.zero) && inn(F, F.one) && inn(F, F.gen) && (forall|a: int, b: int| inn(F, a) && inn(F, b) ==> inn(F, #[trigger] fadd(F, a, b))) && (forall|a: int, b: int| inn(F, a) && inn(F, b) ==> inn(F, #[trigger] fmul(F, a, b))) }
#[verifier::opaque]
pub open spec fn fl_comm(F: Fld) -> bool { (forall|a: int, b: int| inn(F, a) && inn(F, b) ==> #[trigger] fadd(F, a, b) == fadd(F, b, a)) && (forall|a: int, b: int| inn(F, a) && inn(F, b) ==> #[trigger] fmul(F, a, b) == fmul(F, b, a)) }
#[verifier::opaque]
pub open spec fn fl_add_assoc(F: Fld) -> bool { forall|a: int, b: int, c: int| inn(F, a) && inn(F, b) && inn(F, c) ==> #[trigger] fadd(F, fadd(F, a, b), c) == fadd(F, a, fadd(F, b, c)) }
#[verifier::opaque]
pub open spec fn fl_mul_assoc(F: Fld) -> bool { forall|a: int, b: int, c: int| inn(F, a) && inn(F, b) && inn(F, c) ==> #[trigger] fmul(F, fmul(F, a, b), c) == fmul(F, a, fmul(F, b, c)) }
#[verifier::opaque]
pub open spec fn fl_units(F: Fld) -> bool { forall|a: int| #[trigger] inn(F, a) ==> fadd(F, a, F.zero) == a && fmul(F, a, F.one) == a && fmul(F, a, F.zero) == F.zero && fneg_exists(F, a) }
pub open spec fn fneg_exists(F: Fld, a: int) -> bool { exists|b: int| inn(F, b) && #[trigger] fadd(F, a, b) == F.zero }
#[verifier::opaque]
pub open spec fn fl_distr(F: Fld) -> bool { forall|a: int, b: int, c: int| inn(F, a) && inn(F, b) && inn(F, c) ==> #[trigger] fmul(F, a, fadd(F, b, c)) == fadd(F, fmul(F, a, b), fmul(F, a, c)) }
// the powers of the generator below q - 1 are pairwise distinct and exhaust the non-zero elements
#[verifier::opaque]
pub open spec fn fl_gen(F: Fld) -> bool {
  &&& gpow(F, F.q - 1) == F.one
  &&& (forall|i: int| 0 <= i < F.q - 1 ==> #[trigger] gpow(F, i) != F.zero)
  &&& (forall|i: int, j: int| 0 <= i < j < F.q - 1 ==> #[trigger] gpow(F, i) != #[trigger] gpow(F, j))
  &&& (forall|a: int| inn(F, a) && a != F.zero ==> is_gpow(F, a))
}
pub open spec fn is_gpow(F: Fld, a: int) -> bool { exists|i: int| 0 <= i < F.q - 1 && a == #[trigger] gpow(F, i) }
pub open spec fn is_field(F: Fld) -> bool { F.q >= 3 && F.q % 2 == 1 && fl_closed(F) && fl_comm(F) && fl_add_assoc(F) && fl_mul_assoc(F) && fl_units(F) && fl_distr(F) && fl_gen(F) }
pub proof fn law_in(F: Fld, a: int, b: int) requires is_field(F), inn(F, a), inn(F, b) ensures inn(F, fadd(F, a, b)), inn(F, fmul(F, a, b)) { reveal(fl_closed); }
pub proof fn law_consts(F: Fld) requires is_field(F) ensures inn(F, F.zero), inn(F, F.one), inn(F, F.gen) { reveal(fl_closed); }
pub proof fn law_comm(F: Fld, a: int, b: int) requires is_field(F), inn(F, a), inn(F, b) ensures fadd(F, a, b) == fadd(F, b, a), fmul(F, a, b) == fmul(F, b, a) { reveal(fl_comm); }
pub proof fn law_assoc(F: Fld, a: int, b: int, c: int) requires is_field(F), inn(F, a), inn(F, b), inn(F, c) ensures fmul(F, fmul(F, a, b), c) == fmul(F, a, fmul(F, b, c)) { reveal(fl_mul_assoc); }
pub proof fn law_add_assoc(F: Fld, a: int, b: int, c: int) requires is_field(F), inn(F, a), inn(F, b), inn(F, c) ensures fadd(F, fadd(F, a, b), c) == fadd(F, a, fadd(F, b, c)) { reveal(fl_add_assoc); }
pub proof fn law_distr(F: Fld, a: int, b: int, c: int) requires is_field(F), inn(F, a), inn(F, b), inn(F, c) ensures fmul(F, a, fadd(F, b, c)) == fadd(F, fmul(F, a, b), fmul(F, a, c)) { reveal(fl_distr); }
pub proof fn law_units(F: Fld, a: int) requires is_field(F), inn(F, a) ensures fadd(F, a, F.zero) == a, fmul(F, a, F.one) == a, fmul(F, a, F.zero) == F.zero { reveal(fl_units); }
pub proof fn law_fermat(F: Fld) requires is_field(F) ensures gpow(F, F.q - 1) == F.one { reveal(fl_gen); }
pub proof fn law_gen(F: Fld, i: int, j: int) requires is_field(F), 0 <= i < F.q - 1, 0 <= j < F.q - 1 ensures gpow(F, i) != F.zero, i != j ==> gpow(F, i) != gpow(F, j) { reveal(fl_gen); if i < j { assert(gpow(F, i) != gpow(F, j)); } if j < i { assert(gpow(F, j) != gpow(F, i)); } }
pub proof fn law_log(F: Fld, a: int) -> (i: int) requires is_field(F), inn(F, a), a != F.zero ensures 0 <= i < F.q - 1, a == gpow(F, i) { reveal(fl_gen); assert(is_gpow(F, a)); choose|i: int| 0 <= i < F.q - 1 && a == #[trigger] gpow(F, i) }
// the element with logarithm i; q - 1 stands for zero
pub open spec fn el(F: Fld, i: int) -> int { if i == F.q - 1 { F.zero } else { gpow(F, i) } }
pub proof fn lemma_gpow_in(F: Fld, n: int)
  requires is_field(F), n >= 0
  ensures inn(F, gpow(F, n))
  decreases n
{ law_consts(F); if n > 0 { lemma_gpow_in(F, n - 1); law_in(F, gpow(F, n - 1), F.gen); } }
pub proof fn lemma_gpow_add(F: Fld, i: int, j: int)
  requires is_field(F), i >= 0, j >= 0
  ensures gpow(F, i + j) == fmul(F, gpow(F, i), gpow(F, j))
  decreases j
{
  law_consts(F); lemma_gpow_in(F, i);
  if j > 0 {
    lemma_gpow_add(F, i, j - 1); lemma_gpow_in(F, j - 1);
    law_assoc(F, gpow(F, i), gpow(F, j - 1), F.gen);
    assert(gpow(F, i + j) == fmul(F, gpow(F, i + j - 1), F.gen));
  } else { law_units(F, gpow(F, i)); }
}
pub proof fn lemma_gpow_period(F: Fld, i: int, k: int)
  requires is_field(F), i >= 0, k >= 0
  ensures gpow(F, i + k * (F.q - 1)) == gpow(F, i)
  decreases k
{
  lemma_gpow_in(F, i); law_fermat(F); law_units(F, gpow(F, i));
  if k > 0 {
    lemma_gpow_period(F, i, k - 1);
    assert((k - 1) * (F.q - 1) + (F.q - 1) == k * (F.q - 1)) by (nonlinear_arith);
    assert((k - 1) * (F.q - 1) >= 0) by (nonlinear_arith) requires k >= 1, F.q >= 3;
    lemma_gpow_add(F, i + (k - 1) * (F.q - 1), F.q - 1);
  } else { assert(0 * (F.q - 1) == 0); }
}
pub proof fn lemma_gpow_mod(F: Fld, i: int)
  requires is_field(F), i >= 0
  ensures gpow(F, i % (F.q - 1)) == gpow(F, i), 0 <= i % (F.q - 1) < F.q - 1
{
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, F.q - 1);
  vstd::arithmetic::div_mod::lemma_mod_bound(i, F.q - 1);
  vstd::arithmetic::div_mod::lemma_div_pos_is_pos(i, F.q - 1);
  assert((F.q - 1) * (i / (F.q - 1)) == (i / (F.q - 1)) * (F.q - 1)) by (nonlinear_arith);
  lemma_gpow_period(F, i % (F.q - 1), i / (F.q - 1));
}
pub proof fn lemma_gpow_nonzero(F: Fld, i: int)
  requires is_field(F), i >= 0
  ensures gpow(F, i) != F.zero, inn(F, gpow(F, i))
{ lemma_gpow_mod(F, i); lemma_gpow_in(F, i); law_gen(F, i % (F.q - 1), 0); }
pub proof fn lemma_gpow_eq(F: Fld, i: int, j: int)
  requires is_field(F), i >= 0, j >= 0, gpow(F, i) == gpow(F, j)
  ensures i % (F.q - 1) == j % (F.q - 1)
{ lemma_gpow_mod(F, i); lemma_gpow_mod(F, j); law_gen(F, i % (F.q - 1), j % (F.q - 1)); }
pub proof fn lemma_fpow_gpow(F: Fld, x: int, n: int)
  requires is_field(F), x >= 0, n >= 0
  ensures fpow(F, gpow(F, x), n) == gpow(F, x * n), inn(F, gpow(F, x * n)), x * n >= 0
  decreases n
{
  assert(x * n >= 0) by (nonlinear_arith) requires x >= 0, n >= 0;
  lemma_gpow_in(F, x * n);
  if n > 0 {
    lemma_fpow_gpow(F, x, n - 1);
    assert(x * (n - 1) + x == x * n) by (nonlinear_arith);
    lemma_gpow_add(F, x * (n - 1), x);
  } else { assert(x * 0 == 0); }
}
pub proof fn lemma_fpow_in(F: Fld, a: int, n: int)
  requires is_field(F), inn(F, a), n >= 0
  ensures inn(F, fpow(F, a, n))
  decreases n
{ law_consts(F); if n > 0 { lemma_fpow_in(F, a, n - 1); law_in(F, fpow(F, a, n - 1), a); } }
// products of elements given by logarithms, and sums by the successor table
pub proof fn lemma_el_mul(F: Fld, i: int, j: int)
  requires is_field(F), 0 <= i < F.q - 1, j >= 0
  ensures el(F, (i + j) % (F.q - 1)) == fmul(F, el(F, i), gpow(F, j)), 0 <= (i + j) % (F.q - 1) < F.q - 1
{ lemma_gpow_mod(F, i + j); lemma_gpow_add(F, i, j); }
pub proof fn lemma_el_sum(F: Fld, i: int, j: int, s: int)
  requires is_field(F), 0 <= i <= j < F.q - 1, 0 <= s < F.q, el(F, s) == fadd(F, el(F, j - i), F.one)
  ensures fadd(F, el(F, i), el(F, j)) == (if s == F.q - 1 { F.zero } else { el(F, (i + s) % (F.q - 1)) }),
    fadd(F, el(F, j), el(F, i)) == fadd(F, el(F, i), el(F, j))
{
  law_consts(F);
  lemma_gpow_in(F, i); lemma_gpow_in(F, j); lemma_gpow_in(F, j - i);
  lemma_gpow_add(F, i, j - i);
  let a = gpow(F, i); let d = gpow(F, j - i);
  law_distr(F, a, d, F.one); law_comm(F, gpow(F, j), a); law_units(F, a);
  if s != F.q - 1 { lemma_el_mul(F, i, s); }
}
pub proof fn lemma_el_in(F: Fld, i: int)
  requires is_field(F), 0 <= i < F.q
  ensures inn(F, el(F, i)), i != F.q - 1 ==> el(F, i) != F.zero
{ law_consts(F); lemma_gpow_in(F, i); if i != F.q - 1 { law_gen(F, i, i); } }
pub proof fn lemma_q(F: Fld)
  requires is_field(F)
  ensures F.q >= 3, F.q % 2 == 1, inn(F, F.zero), inn(F, F.one), inn(F, F.gen)
{ law_consts(F); }
pub proof fn lemma_zero(F: Fld, a: int)
  requires is_field(F), inn(F, a)
  ensures fadd(F, a, F.zero) == a, fadd(F, F.zero, a) == a, fmul(F, a, F.zero) == F.zero, fmul(F, F.zero, a) == F.zero, fmul(F, a, F.one) == a, fmul(F, F.one, a) == a
{
  law_consts(F); law_units(F, a); law_comm(F, F.zero, a); law_comm(F, F.one, a);
}
// non-zero squares are the even powers of the generator
pub open spec fn nz_square(F: Fld, a: int) -> bool { a != F.zero && exists|b: int| inn(F, b) && a == #[trigger] fmul(F, b, b) }
pub proof fn lemma_square(F: Fld, i: int)
  requires is_field(F), 0 <= i < F.q
  ensures nz_square(F, el(F, i)) <==> (i != F.q - 1 && i % 2 == 0)
{
  lemma_q(F); lemma_el_in(F, i);
  let a = el(F, i);
  if i != F.q - 1 && i % 2 == 0 {
    let b = gpow(F, i / 2); lemma_gpow_in(F, i / 2); lemma_gpow_add(F, i / 2, i / 2);
    assert(a == fmul(F, b, b));
  }
  if nz_square(F, a) {
    let b = choose|b: int| inn(F, b) && a == #[trigger] fmul(F, b, b);
    lemma_zero(F, b);
    assert(b != F.zero);
    let j = law_log(F, b);
    lemma_gpow_add(F, j, j);
    lemma_gpow_eq(F, i, j + j);
    vstd::arithmetic::div_mod::lemma_small_mod(i as nat, (F.q - 1) as nat);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(j + j, F.q - 1);
    let h = (F.q - 1) / 2; let k = (j + j) / (F.q - 1);
    assert((F.q - 1) * k == 2 * (h * k)) by (nonlinear_arith) requires F.q - 1 == 2 * h;
    assert(i % 2 == 0);
  }
}
// value of the polynomial with coefficients el(c[0]), ..., el(c[n-1]) at a
pub open spec fn ev(F: Fld, c: Seq<u32>, a: int, n: int) -> int
  decreases n
{ if n <= 0 { F.zero } else { fadd(F, ev(F, c, a, n - 1), fmul(F, el(F, c[n - 1] as int), fpow(F, a, n - 1))) } }
pub open spec fn logs_ok(F: Fld, c: Seq<u32>) -> bool { forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] < F.q }
pub proof fn lemma_ev_in(F: Fld, c: Seq<u32>, a: int, n: int)
  requires is_field(F), logs_ok(F, c), inn(F, a), n <= c.len()
  ensures inn(F, ev(F, c, a, n))
  decreases n
{
  lemma_q(F);
  if n > 0 { lemma_ev_in(F, c, a, n - 1); lemma_el_in(F, c[n - 1] as int); lemma_fpow_in(F, a, n - 1); law_in(F, el(F, c[n - 1] as int), fpow(F, a, n - 1)); law_in(F, ev(F, c, a, n - 1), fmul(F, el(F, c[n - 1] as int), fpow(F, a, n - 1))); }
}
pub proof fn lemma_ev_zero(F: Fld, c: Seq<u32>, n: int)
  requires is_field(F), logs_ok(F, c), 1 <= n <= c.len()
  ensures ev(F, c, F.zero, n) == el(F, c[0] as int)
  decreases n
{
  lemma_q(F); lemma_el_in(F, c[n - 1] as int); lemma_el_in(F, c[0] as int);
  if n == 1 { lemma_zero(F, el(F, c[0] as int)); assert(ev(F, c, F.zero, 0) == F.zero); assert(fpow(F, F.zero, 0) == F.one); }
  else {
    lemma_ev_zero(F, c, n - 1);
    lemma_fpow_in(F, F.zero, n - 2); lemma_zero(F, fpow(F, F.zero, n - 2));
    lemma_zero(F, el(F, c[n - 1] as int)); lemma_zero(F, el(F, c[0] as int));
  }
}
pub proof fn lemma_ev_base(F: Fld, c: Seq<u32>, a: int)
  requires is_field(F), logs_ok(F, c), c.len() >= 1
  ensures ev(F, c, a, 1) == el(F, c[0] as int)
{ lemma_q(F); lemma_el_in(F, c[0] as int); lemma_zero(F, el(F, c[0] as int)); assert(ev(F, c, a, 0) == F.zero); assert(fpow(F, a, 0) == F.one); }
pub open spec fn evf(F: Fld, c: Seq<u32>, a: int) -> int { ev(F, c, a, c.len() as int) }
// the elements with value zero, and those with a non-zero square as value
pub open spec fn zeros(F: Fld, c: Seq<u32>) -> Set<int> { vstd::set_lib::set_int_range(0, F.q).filter(|a: int| evf(F, c, a) == F.zero) }
pub open spec fn squares(F: Fld, c: Seq<u32>) -> Set<int> { vstd::set_lib::set_int_range(0, F.q).filter(|a: int| nz_square(F, evf(F, c, a))) }
// those among them that are g, ..., g^n
pub open spec fn below(F: Fld, n: int, a: int) -> bool { exists|i: int| 1 <= i <= n && a == #[trigger] gpow(F, i) }
pub open spec fn zeros_to(F: Fld, c: Seq<u32>, n: int) -> Set<int> { zeros(F, c).filter(|a: int| below(F, n, a)) }
pub open spec fn squares_to(F: Fld, c: Seq<u32>, n: int) -> Set<int> { squares(F, c).filter(|a: int| below(F, n, a)) }
pub proof fn lemma_to_start(F: Fld, c: Seq<u32>)
  requires is_field(F)
  ensures zeros_to(F, c, 0).len() == 0, squares_to(F, c, 0).len() == 0
{ assert(zeros_to(F, c, 0) =~= Set::<int>::empty()); assert(squares_to(F, c, 0) =~= Set::<int>::empty()); }
pub proof fn lemma_to_step(F: Fld, c: Seq<u32>, n: int)
  requires is_field(F), 1 <= n <= F.q - 1
  ensures zeros_to(F, c, n).len() == zeros_to(F, c, n - 1).len() + (if evf(F, c, gpow(F, n)) == F.zero { 1int } else { 0int }),
    squares_to(F, c, n).len() == squares_to(F, c, n - 1).len() + (if nz_square(F, evf(F, c, gpow(F, n))) { 1int } else { 0int })
{
  let g = gpow(F, n); lemma_gpow_in(F, n); lemma_q(F);
  assert(below(F, n, g));
  assert(!below(F, n - 1, g)) by {
    if below(F, n - 1, g) {
      let i = choose|i: int| 1 <= i <= n - 1 && g == #[trigger] gpow(F, i);
      lemma_gpow_eq(F, i, n);
      vstd::arithmetic::div_mod::lemma_small_mod(i as nat, (F.q - 1) as nat);
      if n < F.q - 1 { vstd::arithmetic::div_mod::lemma_small_mod(n as nat, (F.q - 1) as nat); } else { vstd::arithmetic::div_mod::lemma_mod_self_0(F.q - 1); }
    }
  }
  assert forall|a: int| below(F, n, a) implies (a == g || below(F, n - 1, a)) by {
    let i = choose|i: int| 1 <= i <= n && a == #[trigger] gpow(F, i);
    if i < n { assert(1 <= i <= n - 1 && a == gpow(F, i)); }
  }
  assert forall|a: int| below(F, n - 1, a) implies below(F, n, a) by { let i = choose|i: int| 1 <= i <= n - 1 && a == #[trigger] gpow(F, i); assert(1 <= i <= n && a == gpow(F, i)); }
  if evf(F, c, g) == F.zero { assert(zeros_to(F, c, n) =~= zeros_to(F, c, n - 1).insert(g)); assert(!zeros_to(F, c, n - 1).contains(g)); }
  else { assert(zeros_to(F, c, n) =~= zeros_to(F, c, n - 1)); }
  if nz_square(F, evf(F, c, g)) { assert(squares_to(F, c, n) =~= squares_to(F, c, n - 1).insert(g)); assert(!squares_to(F, c, n - 1).contains(g)); }
  else { assert(squares_to(F, c, n) =~= squares_to(F, c, n - 1)); }
}
pub proof fn lemma_to_all(F: Fld, c: Seq<u32>)
  requires is_field(F), logs_ok(F, c), c.len() >= 1
  ensures zeros(F, c).len() == zeros_to(F, c, F.q - 1).len() + (if c[0] == F.q - 1 { 1int } else { 0int }),
    squares(F, c).len() == squares_to(F, c, F.q - 1).len() + (if c[0] != F.q - 1 && c[0] % 2 == 0 { 1int } else { 0int }),
    zeros_to(F, c, F.q - 1).len() + squares_to(F, c, F.q - 1).len() <= F.q - 1
{
  lemma_q(F); lemma_ev_zero(F, c, c.len() as int); lemma_square(F, c[0] as int); lemma_el_in(F, c[0] as int);
  let n = F.q - 1;
  let z = F.zero;
  assert(!below(F, n, z)) by { if below(F, n, z) { let i = choose|i: int| 1 <= i <= n && z == #[trigger] gpow(F, i); lemma_gpow_nonzero(F, i); } }
  assert forall|a: int| 0 <= a < F.q && a != z implies #[trigger] below(F, n, a) by {
    assert(inn(F, a));
    let i = law_log(F, a);
    if i == 0 { lemma_gpow_period(F, 0, 1); assert(1 <= n <= n && a == gpow(F, n)); } else { assert(1 <= i <= n && a == gpow(F, i)); }
  }
  assert(vstd::set_lib::set_int_range(0, F.q).contains(z));
  if evf(F, c, z) == z { assert(zeros(F, c) =~= zeros_to(F, c, n).insert(z)); assert(!zeros_to(F, c, n).contains(z)); } else { assert(zeros(F, c) =~= zeros_to(F, c, n)); }
  if nz_square(F, evf(F, c, z)) { assert(squares(F, c) =~= squares_to(F, c, n).insert(z)); assert(!squares_to(F, c, n).contains(z)); } else { assert(squares(F, c) =~= squares_to(F, c, n)); }
  lemma_to_bound(F, c, n);
}
pub proof fn lemma_to_bound(F: Fld, c: Seq<u32>, n: int)
  requires is_field(F), 0 <= n <= F.q - 1
  ensures zeros_to(F, c, n).len() + squares_to(F, c, n).len() <= n
  decreases n
{ if n == 0 { lemma_to_start(F, c); } else { lemma_to_step(F, c, n); lemma_to_bound(F, c, n - 1); } }
@end

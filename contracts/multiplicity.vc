# CurveIterator::multiplicity (C09)
@tu src/curve_iterator.cc
@use flint.vc
@prelude
// substitutions and scalings that a normal form stands for, by the exponents of its top coefficients:
// scalings by a square up to sign choices of the twist (q-1, halved), translations (q), dilations of the
// next coefficient that is fixed up to a coset
pub open spec fn top(s: Seq<u32>, k: int) -> int { if k < s.len() { s[s.len() - 1 - k] as int } else { -1 } }
pub open spec fn translations(p: int, q: int, s: Seq<u32>) -> int {
  if top(s, 0) % p != 0 { q } else if top(s, 1) == top(s, 0) - 1 { q } else { 1 }
}
// number of dilations, as a fraction a / b with b dividing a
pub open spec fn dil_num(p: int, q: int, s: Seq<u32>) -> int {
  if p > top(s, 0) { if s.len() >= 3 { q - 1 } else { 1 } }
  else if top(s, 0) % p == 0 && top(s, 1) == top(s, 0) - 1 { if top(s, 2) == top(s, 0) - 3 { q - 1 } else { 1 } }
  else { if top(s, 1) == top(s, 0) - 2 { q - 1 } else { 1 } }
}
pub open spec fn dil_den(p: int, q: int, s: Seq<u32>) -> int {
  if p > top(s, 0) { if s.len() >= 3 { gcd(q - 1, top(s, 1) - top(s, 2)) } else { 1 } }
  else if top(s, 0) % p == 0 && top(s, 1) == top(s, 0) - 1 { if top(s, 2) == top(s, 0) - 3 { gcd(q - 1, 3) } else { 1 } }
  else { if top(s, 1) == top(s, 0) - 2 { 2 } else { 1 } }
}
pub open spec fn class_size(p: int, q: int, s: Seq<u32>) -> int { cs(q, translations(p, q, s), dil_num(p, q, s), dil_den(p, q, s)) }
pub open spec fn support_ok(s: Seq<u32>) -> bool { s.len() >= 1 && (forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j]) && s[s.len() - 1] >= 3 && s[s.len() - 1] < 0x7fff_ffff }
pub proof fn lemma_top(s: Seq<u32>)
  requires support_ok(s)
  ensures s.len() >= 2 ==> s[s.len() - 2] < s[s.len() - 1], s.len() >= 3 ==> s[s.len() - 3] < s[s.len() - 2],
    s.len() < 2 ==> top(s, 1) == -1, s.len() < 3 ==> top(s, 2) == -1
{ }
pub open spec fn cs(q: int, t: int, n: int, d: int) -> int { ((q - 1) / 2) * t * (n / d) }
pub proof fn lemma_exact(q: int, g: int)
  requires q >= 3, q % 2 == 1, g >= 1, (q - 1) % g == 0
  ensures cs(q, q, 1, 1) == (q * (q - 1)) / 2, cs(q, 1, 1, 1) == (q - 1) / 2,
    (((q * (q - 1)) / 2) * (q - 1)) % g == 0, cs(q, q, q - 1, g) == (((q * (q - 1)) / 2) * (q - 1)) / g,
    cs(q, 1, q - 1, 2) == ((q - 1) * (q - 1)) / 4, cs(q, q, q - 1, 2) == (q * (q - 1) * (q - 1)) / 4
{
  let h = (q - 1) / 2; let k = (q - 1) / g;
  assert(q - 1 == 2 * h);
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q - 1, g);
  assert(q - 1 == g * k);
  assert((q * (q - 1)) == 2 * (h * q)) by (nonlinear_arith) requires q - 1 == 2 * h;
  assert((q * (q - 1)) / 2 == h * q);
  assert(h * q * (1int / 1int) == h * q) by (nonlinear_arith);
  assert(h * 1 * (1int / 1int) == h) by (nonlinear_arith);
  let x = h * q * k;
  assert(h * q * (q - 1) == x * g) by (nonlinear_arith) requires q - 1 == g * k, x == h * q * k;
  vstd::arithmetic::div_mod::lemma_mod_multiples_basic(x, g);
  vstd::arithmetic::div_mod::lemma_div_multiples_vanish(x, g);
  assert(g * x == x * g) by (nonlinear_arith);
  assert((q - 1) * (q - 1) == 4 * (h * h)) by (nonlinear_arith) requires q - 1 == 2 * h;
  assert(q * (q - 1) * (q - 1) == 4 * (h * q * h)) by (nonlinear_arith) requires q - 1 == 2 * h;
  assert(h * 1 * h == h * h) by (nonlinear_arith);
}
// C09: the class size is positive and does not depend on exponents below the third
pub proof fn lemma_positive(p: int, q: int, s: Seq<u32>)
  requires q >= 3, q % 2 == 1, p >= 3, support_ok(s)
  ensures class_size(p, q, s) >= 1
{
  lemma_top(s);
  if dil_den(p, q, s) != 1 && dil_den(p, q, s) != 2 { if p > top(s, 0) { lemma_gcd(q - 1, top(s, 1) - top(s, 2)); } else { lemma_gcd(q - 1, 3); } }
  let a = dil_num(p, q, s); let b = dil_den(p, q, s);
  if p > top(s, 0) && s.len() >= 3 { lemma_gcd(q - 1, top(s, 1) - top(s, 2)); }
  assert(1 <= b <= a);
  assert(a / b >= 1) by (nonlinear_arith) requires 1 <= b <= a;
  let h = (q - 1) / 2; let t = translations(p, q, s); let d = a / b;
  assert(h * t * d >= 1) by (nonlinear_arith) requires h >= 1, t >= 1, d >= 1;
}
pub proof fn lemma_top_only(p: int, q: int, s: Seq<u32>, t: Seq<u32>)
  requires support_ok(s), support_ok(t), s.len() >= 3, t.len() >= 3, s[s.len() - 1] == t[t.len() - 1], s[s.len() - 2] == t[t.len() - 2], s[s.len() - 3] == t[t.len() - 3]
  ensures class_size(p, q, s) == class_size(p, q, t)
{

}
@end

@fn ci_multiplicity = CurveIterator::multiplicity 4
@requires in: support_ok(coeff_support0@) && prime0 >= 3 && prime_power0 >= 3 && prime_power0 % 2 == 1
@ensures size: res.mult@ == class_size(prime0 as int, prime_power0 as int, coeff_support0@)
@proof begin
  let ghost s = coeff_support0@; let ghost q = prime_power0 as int;
  proof {
    if (prime0 as int) > top(s, 0) { vstd::arithmetic::div_mod::lemma_small_mod(top(s, 0) as nat, prime0 as nat); }
    lemma_top(s); lemma_exact(q, 1); lemma_exact(q, 2); lemma_gcd(q - 1, 3); lemma_exact(q, gcd(q - 1, 3));
    if s.len() >= 3 { lemma_gcd(q - 1, top(s, 1) - top(s, 2)); lemma_exact(q, gcd(q - 1, top(s, 1) - top(s, 2))); }
  }
@end

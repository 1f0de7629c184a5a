# the single curve program: it counts the curve that was typed (C19)
@tu src/executables/single.cc src/single_curve_fp.cc src/curve.cc src/fq_element_table.cc src/reduction_table.cc
@use single.vc
@use popt.vc
@trusted FLINT n_is_prime decides primality
@prelude
#[verifier::external_body]
pub fn n_is_prime(n: u64) -> (r: i32) ensures (r != 0) == is_prime(n as int) { unimplemented!() }
// the output of the program: its numbers, the curves it shows, and whether two numbers run into each other
pub struct OutS { pub nums: Seq<int>, pub shown: Seq<Curve>, pub open: bool, pub glued: bool }
pub struct COut { pub g: Ghost<OutS> }
impl Clone for COut { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for COut {}
impl COut { pub open spec fn view(self) -> OutS { self.g@ } }
pub open spec fn digit(c: u8) -> bool { 48 <= c <= 57 }
#[verifier::external_body]
pub fn out_num(o: COut, x: i128) -> (r: COut) ensures r@ == (OutS { nums: o@.nums.push(x as int), open: true, glued: o@.glued || o@.open, ..o@ }) { unimplemented!() }
#[verifier::external_body]
pub fn out_char(o: COut, c: u8) -> (r: COut) ensures r@ == (OutS { open: digit(c), glued: o@.glued || (o@.open && digit(c)), ..o@ }) { unimplemented!() }
#[verifier::external_body]
pub fn out_text(o: COut, t: CVec<u8>) -> (r: COut) ensures t@.len() == 0 ==> r == o, t@.len() > 0 ==> r@ == (OutS { open: digit(t@.last()), glued: o@.glued || (o@.open && digit(t@[0])), ..o@ }) { unimplemented!() }
#[verifier::external_body]
pub fn out_curve(o: COut, c: Curve) -> (r: COut) ensures r@ == (OutS { shown: o@.shown.push(c), open: true, glued: o@.glued || o@.open, ..o@ }) { unimplemented!() }
pub open spec fn nothing(o: OutS) -> bool { o.nums.len() == 0 && o.shown.len() == 0 && !o.open && !o.glued }
pub open spec fn k_size() -> Seq<u8> { seq![102u8, 105u8, 101u8, 108u8, 100u8, 95u8, 115u8, 105u8, 122u8, 101u8] }
pub open spec fn k_coefficients() -> Seq<u8> { seq![99u8, 111u8, 101u8, 102u8, 102u8, 105u8, 99u8, 105u8, 101u8, 110u8, 116u8, 115u8] }
pub open spec fn k_nmod() -> Seq<u8> { seq![110u8, 97u8, 105u8, 118u8, 101u8, 110u8, 109u8, 111u8, 100u8] }
pub open spec fn k_zech() -> Seq<u8> { seq![110u8, 97u8, 105u8, 118u8, 101u8, 122u8, 101u8, 99u8, 104u8] }
// what was typed
pub open spec fn typed_prime() -> int { opt_u32(k_size()) as int }
pub open spec fn typed_list() -> Seq<u32> { opt_list(k_coefficients()) }
pub open spec fn typed_method() -> int { if opt_has(k_nmod()) { 2 } else if opt_has(k_zech()) { 3 } else { 0 } }
pub open spec fn sensible() -> bool { opt_has(k_size()) && opt_has(k_coefficients()) && typed_list().len() >= 2 && is_prime(typed_prime()) && !(opt_has(k_nmod()) && opt_has(k_zech())) }
pub open spec fn ints(s: Seq<u32>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
pub open spec fn pairs(s: Seq<(u32, u32)>) -> Seq<int> { Seq::new(2 * s.len(), |i: int| if i % 2 == 0 { s[i / 2].0 as int } else { s[i / 2].1 as int }) }
pub open spec fn genus_of(c: Curve) -> int { (deg(c) - 1) / 2 }
// the counts over the extensions of degree 1, ..., genus, and the distances from q^k + 1
pub open spec fn counts_of(c: Curve) -> Seq<(u32, u32)> { Seq::new(genus_of(c) as nat, |i: int| c.nmb_points@[(i + 1) as u32]) }
pub open spec fn offsets_of(c: Curve) -> Seq<int> { Seq::new(genus_of(c) as nat, |i: int| offset(c, i + 1)) }
pub open spec fn prints(o: OutS, c: Curve, p: int) -> bool {
  exists|rest: Seq<int>| o.nums == #[trigger] (ints(lifted_to(c, p - 1)) + pairs(counts_of(c)) + offsets_of(c) + rest)
}
pub open spec fn answer(o: OutS, c: Curve, co: Seq<u32>, how: int, p: int) -> bool {
  typed_curve(c, co, p) && counts_from(c, how, p, 0) && o.shown == seq![c] && prints(o, c, p) && !o.glued
}
pub open spec fn answered(o: OutS) -> bool { exists|c: Curve| #[trigger] answer(o, c, typed_list(), typed_method(), typed_prime()) }
@end
@extern ramification = Curve::ramification_type
@fn main1 = main
@requires fresh: nothing(out0@)
@requires size: sensible() ==> typed_prime() % 2 == 1 && typed_prime() <= 0x3fff_ffff && typed_list().len() < 0x4000_0000
@requires degree: sensible() ==> exists|d: int| is_deg(typed_list(), typed_prime(), d)
@requires fit: sensible() ==> forall|d: int, k: int| is_deg(typed_list(), typed_prime(), d) && 1 <= k <= (d - 1) / 2 ==> #[trigger] fits(typed_list(), typed_prime(), typed_method(), d, k)
@ensures refused: opt_has(k_help()) || !sensible() ==> nothing(res.out@) && (res.ret == 0) == opt_has(k_help())
@ensures answer: sensible() && !opt_has(k_help()) ==> res.ret == 0 && answered(res.out@)
@proof begin
  proof {
    assert(Seq::<u8>::empty().push(104u8).push(101u8).push(108u8).push(112u8) =~= k_help());
    assert(Seq::<u8>::empty().push(102u8).push(105u8).push(101u8).push(108u8).push(100u8).push(95u8).push(115u8).push(105u8).push(122u8).push(101u8) =~= k_size());
    assert(Seq::<u8>::empty().push(99u8).push(111u8).push(101u8).push(102u8).push(102u8).push(105u8).push(99u8).push(105u8).push(101u8).push(110u8).push(116u8).push(115u8) =~= k_coefficients());
    assert(Seq::<u8>::empty().push(110u8).push(97u8).push(105u8).push(118u8).push(101u8).push(110u8).push(109u8).push(111u8).push(100u8) =~= k_nmod());
    assert(Seq::<u8>::empty().push(110u8).push(97u8).push(105u8).push(118u8).push(101u8).push(122u8).push(101u8).push(99u8).push(104u8) =~= k_zech());
  }
@end
@proof before single
  proof { assert(sensible()); assert forall|m: int, d: int, k: int| m == typed_method() && is_deg(typed_list(), typed_prime(), d) && 1 <= k <= (d - 1) / 2 implies #[trigger] fits(typed_list(), typed_prime(), m, d, k) by { } }
@end
@proof after single
  let ghost c = $r.ret@; let ghost p = typed_prime(); let ghost how = typed_method(); let ghost L = ints(lifted_to(c, p - 1)); let ghost P = pairs(counts_of(c)); let ghost O = offsets_of(c);
  proof {
    vstd::arithmetic::power::lemma_pow1(p); lemma_fit(p, 1);
    assert forall|k: u32| #[trigger] c.nmb_points@.dom().contains(k) implies 1 <= k <= 64 && pow(p, k as nat) <= 0x3fff_ffff && c.nmb_points@[k].0 + c.nmb_points@[k].1 <= 2 * pow(p, k as nat) + 2 by {
      assert(fits(typed_list(), p, how, deg(c), k as int)); lemma_fit(p, k as int);
      let F = method_field(how, p, k as int);
      fq_ctx_axiom(p, k as int); if how == 3 { zech_axiom(p, k as int); }
      assert(F.q == pow(p, k as nat));
      lemma_points_bound(F, lifted_to(c, pow(p, k as nat) - 1));
    }
    assert(points_ok(c));
    assert forall|j: int| j >= 1 && 1 * j <= genus_of(c) implies #[trigger] counted(c, 1 * j) by { assert(c.nmb_points@.dom().contains(j as u32)); }
    assert(counted_to(c, genus_of(c)));
  }
@end
@proof after convert
  proof { assert(ints($r.ret@) =~= L); }
@end
@loop 1
@inv exps: it1 <= coeff_exponents@.len() && ints(coeff_exponents@) == L && curve@ == c && !curve.is_null()
@inv out: out@.nums =~= L.take(it1 as int) && out@.shown =~= seq![c] && !out@.glued && !out@.open
@decreases coeff_exponents@.len() - it1
@proof after points_list
  let ghost pts = $r.ret@;
  proof { assert(pts =~= counts_of(c)) by { assert forall|i: int| 0 <= i < pts.len() implies pts[i] == counts_of(c)[i] by { assert(1 * (i + 1) == i + 1); } } }
@end
@loop 2
@inv counts: it2 <= pts.len()
@inv out: out@.nums =~= L + P.take(2 * it2 as int) && out@.shown =~= seq![c] && !out@.glued && !out@.open
@decreases pts.len() - it2
@proof after offsets_list
  let ghost offs = $r.ret@; let ghost mut rest = Seq::<int>::empty();
  proof { assert(offs.len() == genus_of(c)); assert forall|i: int| 0 <= i < offs.len() implies (#[trigger] offs[i]) as int == O[i] by { assert(1 * (i + 1) == i + 1); } }
@end
@loop 3
@inv offsets: it3 <= offs.len()
@inv out: out@.nums =~= L + P + O.take(it3 as int) && out@.shown =~= seq![c] && !out@.glued && !out@.open
@decreases offs.len() - it3
@proof before loop 4
  let ghost N = out@.nums;
  proof { assert(N =~= L + P + O); }
@end
@loop 4
@inv out: out@.nums =~= N + rest && out@.shown =~= seq![c] && !out@.glued && !out@.open
@proof loop 4 endinc
  proof { rest = out@.nums.skip(N.len() as int); }
@end
@proof return 5
  proof {
    assert(out@.nums =~= L + P + O + rest);
    assert(prints(out@, c, p)); assert(answer(out@, c, typed_list(), how, p));

    assert(answered(out@));
  }
@end

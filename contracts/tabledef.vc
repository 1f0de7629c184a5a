# what the tables of a field contain
@use fq.vc
@prelude
// the tables of a field (C02)
pub open spec fn reduction_ok(s: Seq<i32>, m: int) -> bool { s.len() == 2 * m && forall|i: int| 0 <= i < 2 * m ==> #[trigger] s[i] == i % m }
pub open spec fn successor_ok(F: Fld, s: Seq<i32>) -> bool { s.len() == F.q && forall|i: int| 0 <= i < F.q ==> 0 <= #[trigger] s[i] < F.q && el(F, s[i] as int) == fadd(F, el(F, i), F.one) }
pub open spec fn tables_of(t: ReductionTable, F: Fld) -> bool {
  &&& is_field(F) && F.q == t.prime_power && t.prime_power_pred == t.prime_power - 1
  &&& !t.exponent_reduction_table.is_null() && reduction_ok(t.exponent_reduction_table@@, F.q - 1)
  &&& !t.incrementation_table.is_null() && successor_ok(F, t.incrementation_table@@)
}
// the field of the tables is the one that FLINT constructs, with the first generator that the search meets
pub open spec fn field_of(t: ReductionTable) -> Fld { std_field(t.prime as int, t.prime_exponent as int) }
// the table lists the non-zero elements, then zero
pub open spec fn elements_ok(t: FqElementTable) -> bool {
  &&& is_prime(t.prime as int)
  &&& t.fq_elements@.len() == t.prime_power
  &&& forall|i: int| 0 <= i < t.prime_power - 1 ==> !pzero(#[trigger] t.fq_elements@[i])
  &&& forall|i: int, j: int| 0 <= i < t.prime_power && 0 <= j < t.fq_elements@[i].coeffs().len() ==> 0 <= #[trigger] t.fq_elements@[i].coeffs()[j] < t.prime
  &&& forall|i: int| 0 <= i < t.prime_power ==> (#[trigger] t.fq_elements@[i]).coeffs().len() <= t.prime_exponent
}
@end

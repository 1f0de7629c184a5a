# Result lines (C12)
@tu src/store/store.cc src/store/curve_data.cc src/store/store_data.cc
@use stream.vc
@use flint.vc
@trusted FLINT fmpz_get_str, fmpz_set_str: decimal numerals, contracts in contracts/text.vc are assumed
@prelude
#[verifier::external_body]
pub fn fmpz_get_str(base: i32, x: Fmpz) -> (r: CVec<u8>) requires base == 10 ensures r@ == deci(x@) { unimplemented!() }
#[verifier::external_body]
pub fn fmpz_set_str(f: Fmpz, s: CVec<u8>, base: i32) -> (r: (i32, Fmpz)) requires base == 10 ensures forall|n: int| s@ == #[trigger] deci(n) ==> r.1@ == n { unimplemented!() }
pub open spec fn list_text(s: Seq<int>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::<u8>::empty() } else if s.len() == 1 { deci(s[0]) } else { deci(s[0]) + seq![44u8] + list_text(s.skip(1)) } }
pub open spec fn key_text(v: ExplicitRamificationHasseWeil_ValueType) -> Seq<u8> { list_text(ints_u32(v.ramification_type@)) + seq![59u8] + list_text(ints_i32(v.hasse_weil_offsets@)) }
// keys of curves: ramification points and offsets are listed, degrees below 2^31
pub open spec fn key_ok(v: ExplicitRamificationHasseWeil_ValueType) -> bool { v.ramification_type@.len() > 0 && v.hasse_weil_offsets@.len() > 0 && forall|i: int| 0 <= i < v.ramification_type@.len() ==> #[trigger] v.ramification_type@[i] < 0x8000_0000 }
pub struct Line { pub key: ExplicitRamificationHasseWeil_ValueType, pub count: int }
pub open spec fn line_text(l: Line) -> Seq<u8> { key_text(l.key) + seq![58u8] + deci(l.count) }
pub open spec fn lines_text(ls: Seq<Line>) -> Seq<u8> decreases ls.len() { if ls.len() == 0 { Seq::<u8>::empty() } else { line_text(ls[0]) + seq![10u8] + lines_text(ls.skip(1)) } }
pub open spec fn lines_ok(ls: Seq<Line>) -> bool { forall|i: int| 0 <= i < ls.len() ==> key_ok((#[trigger] ls[i]).key) }
// what lines say about key k
pub open spec fn sum_of(ls: Seq<Line>, k: ExplicitRamificationHasseWeil_ValueType) -> int decreases ls.len() { if ls.len() == 0 { 0 } else { sum_of(ls.drop_last(), k) + if ls.last().key == k { ls.last().count } else { 0 } } }
pub open spec fn mentions(ls: Seq<Line>, k: ExplicitRamificationHasseWeil_ValueType) -> bool { exists|i: int| 0 <= i < ls.len() && (#[trigger] ls[i]).key == k }
pub open spec fn count_at(m: Map<ExplicitRamificationHasseWeil_ValueType, Count_ValueType>, k: ExplicitRamificationHasseWeil_ValueType) -> int { if m.dom().contains(k) { m[k].counter@ } else { 0 } }
pub open spec fn lines_of(ks: Seq<ExplicitRamificationHasseWeil_ValueType>, m: Map<ExplicitRamificationHasseWeil_ValueType, Count_ValueType>) -> Seq<Line> { Seq::new(ks.len(), |i: int| Line { key: ks[i], count: m[ks[i]].counter@ }) }
pub open spec fn no_repeat<K>(s: Seq<K>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> s[i] != s[j] }
// the text lists every entry of the store exactly once
pub open spec fn is_store_text(t: Seq<u8>, m: Map<ExplicitRamificationHasseWeil_ValueType, Count_ValueType>) -> bool { exists|ks: Seq<ExplicitRamificationHasseWeil_ValueType>| no_repeat(ks) && (forall|k: ExplicitRamificationHasseWeil_ValueType| #[trigger] m.dom().contains(k) <==> ks.contains(k)) && t == lines_text(lines_of(ks, m)) }

pub proof fn lemma_list_push(s: Seq<int>, x: int)
  requires s.len() > 0
  ensures list_text(s.push(x)) == list_text(s) + seq![44u8] + deci(x)
  decreases s.len()
{
  assert(s.push(x).skip(1) =~= s.skip(1).push(x)); assert(s.push(x)[0] == s[0]);
  if s.len() == 1 { assert(s.push(x).skip(1) =~= seq![x]); assert(list_text(seq![x]) == deci(x)); assert(list_text(s.push(x)) =~= list_text(s) + seq![44u8] + deci(x)); }
  else { lemma_list_push(s.skip(1), x); assert(list_text(s.push(x)) =~= list_text(s) + seq![44u8] + deci(x)); }
}
// digits, minus signs and commas
pub open spec fn listc(c: u8) -> bool { isd(c) || c == 45 || c == 44 }
pub proof fn lemma_list_chars(s: Seq<int>)
  ensures forall|i: int| 0 <= i < list_text(s).len() ==> listc(#[trigger] list_text(s)[i]), s.len() > 0 ==> list_text(s).len() > 0
  decreases s.len()
{
  if s.len() > 0 {
    lemma_deci(s[0]); let a = deci(s[0]);
    if s.len() > 1 {
      lemma_list_chars(s.skip(1)); let b = list_text(s.skip(1)); let t = list_text(s);
      assert forall|i: int| 0 <= i < t.len() implies listc(#[trigger] t[i]) by { if i < a.len() { assert(t[i] == a[i]); } else if i > a.len() { assert(t[i] == b[i - a.len() - 1]); } }
    } else { assert forall|i: int| 0 <= i < list_text(s).len() implies listc(#[trigger] list_text(s)[i]) by { assert(list_text(s)[i] == a[i]); } }
  }
}
// reading the first number of a list that is followed by rest
pub proof fn lemma_list_head(d: Seq<u8>, p: int, s: Seq<int>, rest: Seq<u8>)
  requires 0 <= p <= d.len(), s.len() > 0, d.skip(p) == list_text(s) + rest, rest.len() > 0 ==> !isd(rest[0]) && rest[0] != 44
  ensures ws_end(d, p) == p < d.len(), is_num(d, p), num_at(d, p) == s[0],
    ({ let e = num_end(d, p); p < e <= d.len() && if s.len() > 1 { e < d.len() && d[e] == 44 && d.skip(e + 1) == list_text(s.skip(1)) + rest } else { d.skip(e) == rest && (rest.len() > 0 ==> e < d.len() && d[e] == rest[0]) && (rest.len() == 0 ==> e == d.len()) } })
{
  let a = deci(s[0]); lemma_deci(s[0]); let t = d.skip(p); let e = p + a.len(); let l = list_text(s);
  assert(t.len() == l.len() + rest.len()); assert(d.len() == p + t.len());
  assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == d[p + i] by { }
  assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] == t[i] by { }
  assert forall|i: int| 0 <= i < rest.len() implies #[trigger] rest[i] == t[l.len() + i] by { }
  if s.len() > 1 {
    let b = list_text(s.skip(1));
    assert(l.len() == a.len() + 1 + b.len());
    assert(d[e] == 44) by { assert(l[a.len() as int] == 44u8); assert(t[a.len() as int] == d[p + a.len()]); }
    assert(d.skip(e + 1) =~= b + rest) by { assert forall|i: int| 0 <= i < b.len() + rest.len() implies d.skip(e + 1)[i] == (b + rest)[i] by { assert(t[a.len() + 1 + i] == d[p + (a.len() + 1 + i)]); if i < b.len() { assert(l[a.len() + 1 + i] == b[i]); } else { assert(rest[i - b.len()] == t[l.len() + (i - b.len())]); } } }
  } else {
    assert(l =~= a);
    assert(d.skip(e) =~= rest) by { assert forall|i: int| 0 <= i < rest.len() implies d.skip(e)[i] == rest[i] by { assert(t[l.len() + i] == d[p + (l.len() + i)]); } }
    if rest.len() > 0 { assert(d[e] == rest[0]) by { assert(d.skip(e)[0] == d[e]); } }
  }
  assert(d.subrange(p, e) =~= a) by { assert forall|i: int| 0 <= i < a.len() implies d.subrange(p, e)[i] == a[i] by { assert(t[i] == d[p + i]); assert(l[i] == a[i]); } }
  lemma_num(d, p, s[0]);
}
pub proof fn lemma_list_injective(a: Seq<int>, ra: Seq<u8>, b: Seq<int>, rb: Seq<u8>)
  requires list_text(a) + ra == list_text(b) + rb, a.len() > 0, b.len() > 0, ra.len() > 0 ==> !isd(ra[0]) && ra[0] != 44, rb.len() > 0 ==> !isd(rb[0]) && rb[0] != 44
  ensures a == b, ra == rb
  decreases a.len()
{
  let d = list_text(a) + ra; assert(d.skip(0) =~= d);
  lemma_list_head(d, 0, a, ra); lemma_list_head(d, 0, b, rb);
  let e = num_end(d, 0);
  if a.len() == 1 || b.len() == 1 { if a.len() > 1 { assert(rb.len() > 0); } if b.len() > 1 { assert(ra.len() > 0); } assert(a =~= b); }
  else { lemma_list_injective(a.skip(1), ra, b.skip(1), rb); assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); }
}
pub proof fn lemma_key_injective(a: ExplicitRamificationHasseWeil_ValueType, b: ExplicitRamificationHasseWeil_ValueType)
  requires key_ok(a), key_ok(b), key_text(a) == key_text(b)
  ensures a == b
{
  let ra = ints_u32(a.ramification_type@); let rb = ints_u32(b.ramification_type@); let oa = ints_i32(a.hasse_weil_offsets@); let ob = ints_i32(b.hasse_weil_offsets@);
  let ta = seq![59u8] + list_text(oa); let tb = seq![59u8] + list_text(ob);
  assert(key_text(a) =~= list_text(ra) + ta); assert(key_text(b) =~= list_text(rb) + tb);
  lemma_list_injective(ra, ta, rb, tb);
  assert(ta.skip(1) =~= list_text(oa)); assert(tb.skip(1) =~= list_text(ob));
  assert(list_text(oa) + Seq::<u8>::empty() =~= list_text(oa)); assert(list_text(ob) + Seq::<u8>::empty() =~= list_text(ob));
  lemma_list_injective(oa, Seq::<u8>::empty(), ob, Seq::<u8>::empty());
  lemma_key_eq(a, b);
}
pub proof fn lemma_key_eq(a: ExplicitRamificationHasseWeil_ValueType, b: ExplicitRamificationHasseWeil_ValueType)
  requires ints_u32(a.ramification_type@) == ints_u32(b.ramification_type@), ints_i32(a.hasse_weil_offsets@) == ints_i32(b.hasse_weil_offsets@)
  ensures a == b
{
  let x = a.ramification_type@; let y = b.ramification_type@; let u = a.hasse_weil_offsets@; let v = b.hasse_weil_offsets@;
  assert(x =~= y) by { assert(ints_u32(x).len() == ints_u32(y).len()); assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { assert(ints_u32(x)[i] == ints_u32(y)[i]); } }
  assert(u =~= v) by { assert(ints_i32(u).len() == ints_i32(v).len()); assert forall|i: int| 0 <= i < u.len() implies u[i] == v[i] by { assert(ints_i32(u)[i] == ints_i32(v)[i]); } }
  assert(a.ramification_type.g == b.ramification_type.g); assert(a.hasse_weil_offsets.g == b.hasse_weil_offsets.g);
}
pub open spec fn keyc(c: u8) -> bool { listc(c) || c == 59 }
pub proof fn lemma_key_chars(v: ExplicitRamificationHasseWeil_ValueType)
  ensures forall|i: int| 0 <= i < key_text(v).len() ==> keyc(#[trigger] key_text(v)[i])
{
  let a = list_text(ints_u32(v.ramification_type@)); let b = list_text(ints_i32(v.hasse_weil_offsets@)); let t = key_text(v);
  lemma_list_chars(ints_u32(v.ramification_type@)); lemma_list_chars(ints_i32(v.hasse_weil_offsets@));
  assert forall|i: int| 0 <= i < t.len() implies keyc(#[trigger] t[i]) by { if i < a.len() { assert(t[i] == a[i]); } else if i > a.len() { assert(t[i] == b[i - a.len() - 1]); } }
}
// splitting a line at the colon
pub proof fn lemma_line(l: Line)
  ensures ({ let t = line_text(l); let e = find(t, 0, 58); e < t.len() && t.subrange(0, e) == key_text(l.key) && find(t, e + 1, 10) == t.len() && t.subrange(e + 1, t.len() as int) == deci(l.count) && forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != 10 })
{
  let t = line_text(l); let a = key_text(l.key); let b = deci(l.count); lemma_key_chars(l.key); lemma_deci(l.count);
  assert(t.len() == a.len() + 1 + b.len());
  assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != 10 && (i < a.len() ==> t[i] != 58) by { if i < a.len() { assert(t[i] == a[i]); } else if i > a.len() { assert(t[i] == b[i - a.len() - 1]); } }
  lemma_find(t, 0, a.len() as int, 58);
  assert(t.subrange(0, a.len() as int) =~= a);
  lemma_find(t, a.len() as int + 1, t.len() as int, 10);
  assert(t.subrange(a.len() as int + 1, t.len() as int) =~= b);
}
pub proof fn lemma_lines_head(d: Seq<u8>, p: int, ls: Seq<Line>)
  requires 0 <= p <= d.len(), d.skip(p) == lines_text(ls), ls.len() > 0
  ensures ({ let e = find(d, p, 10); p < e < d.len() && d.subrange(p, e) == line_text(ls[0]) && d.skip(e + 1) == lines_text(ls.skip(1)) })
{
  let t = line_text(ls[0]); lemma_line(ls[0]); let e = p + t.len(); let r = lines_text(ls);
  assert(r.len() == t.len() + 1 + lines_text(ls.skip(1)).len());
  assert forall|i: int| p <= i < e implies #[trigger] d[i] != 10 by { assert(d.skip(p)[i - p] == d[i]); assert(r[i - p] == t[i - p]); }
  assert(d[e] == 10) by { assert(d.skip(p)[t.len() as int] == d[e]); }
  lemma_find(d, p, e, 10);
  assert(d.subrange(p, e) =~= t) by { assert forall|i: int| 0 <= i < t.len() implies d.subrange(p, e)[i] == t[i] by { assert(d.skip(p)[i] == d[p + i]); } }
  assert(d.skip(e + 1) =~= lines_text(ls.skip(1))) by { assert forall|i: int| 0 <= i < lines_text(ls.skip(1)).len() implies d.skip(e + 1)[i] == lines_text(ls.skip(1))[i] by { assert(d.skip(p)[t.len() + 1 + i] == d[e + 1 + i]); } }
}
pub proof fn lemma_lines_push(b: Seq<Line>, x: Line)
  ensures lines_text(b.push(x)) == lines_text(b) + line_text(x) + seq![10u8]
  decreases b.len()
{
  if b.len() == 0 { assert(b.push(x).skip(1) =~= Seq::<Line>::empty()); assert(lines_text(b.push(x).skip(1)) == Seq::<u8>::empty()); assert(b.push(x)[0] == x); assert(lines_text(b.push(x)) =~= line_text(x) + seq![10u8]); assert(lines_text(b) + line_text(x) + seq![10u8] =~= line_text(x) + seq![10u8]); }
  else { assert(b.push(x).skip(1) =~= b.skip(1).push(x)); assert(b.push(x)[0] == b[0]); lemma_lines_push(b.skip(1), x); assert(lines_text(b.push(x)) =~= lines_text(b) + line_text(x) + seq![10u8]); }
}
pub proof fn lemma_deci_injective(a: int, b: int)
  requires deci(a) == deci(b)
  ensures a == b
{ let d = deci(a); assert(d.subrange(0, d.len() as int) =~= d); lemma_num(d, 0, a); lemma_num(d, 0, b); }
pub proof fn lemma_lines_injective(a: Seq<Line>, b: Seq<Line>)
  requires lines_text(a) == lines_text(b), lines_ok(a), lines_ok(b)
  ensures a == b
  decreases a.len()
{
  if a.len() > 0 { assert(lines_text(a).len() > 0); }
  if b.len() > 0 { assert(lines_text(b).len() > 0); }
  if a.len() == 0 || b.len() == 0 { assert(a =~= b); }
  else {
    let d = lines_text(a); assert(d.skip(0) =~= d);
    lemma_lines_head(d, 0, a); lemma_lines_head(d, 0, b); lemma_line(a[0]); lemma_line(b[0]);
    lemma_key_injective(a[0].key, b[0].key); lemma_deci_injective(a[0].count, b[0].count);
    assert forall|i: int| 0 <= i < a.skip(1).len() implies key_ok((#[trigger] a.skip(1)[i]).key) by { assert(a.skip(1)[i] == a[i + 1]); }
    assert forall|i: int| 0 <= i < b.skip(1).len() implies key_ok((#[trigger] b.skip(1)[i]).key) by { assert(b.skip(1)[i] == b[i + 1]); }
    lemma_lines_injective(a.skip(1), b.skip(1));
    assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1));
  }
}
// the text of a store gives the store back: every key of it with its count, and no other key
pub proof fn lemma_round_trip(m: Map<ExplicitRamificationHasseWeil_ValueType, Count_ValueType>, ks: Seq<ExplicitRamificationHasseWeil_ValueType>, k: ExplicitRamificationHasseWeil_ValueType)
  requires no_repeat(ks), forall|k: ExplicitRamificationHasseWeil_ValueType| #[trigger] m.dom().contains(k) <==> ks.contains(k), forall|k: ExplicitRamificationHasseWeil_ValueType| #[trigger] m.dom().contains(k) ==> key_ok(k)
  ensures lines_ok(lines_of(ks, m)), sum_of(lines_of(ks, m), k) == count_at(m, k), mentions(lines_of(ks, m), k) <==> m.dom().contains(k)
{
  let L = lines_of(ks, m);
  assert forall|i: int| 0 <= i < L.len() implies key_ok((#[trigger] L[i]).key) by { assert(L[i].key == ks[i]); assert(ks.contains(ks[i])); assert(m.dom().contains(ks[i])); }
  lemma_sum_of(m, ks, k);
  if m.dom().contains(k) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(L[i].key == k); }
  if mentions(L, k) { let i = choose|i: int| 0 <= i < L.len() && (#[trigger] L[i]).key == k; assert(ks[i] == k); }
}
pub proof fn lemma_sum_of(m: Map<ExplicitRamificationHasseWeil_ValueType, Count_ValueType>, ks: Seq<ExplicitRamificationHasseWeil_ValueType>, k: ExplicitRamificationHasseWeil_ValueType)
  requires no_repeat(ks)
  ensures sum_of(lines_of(ks, m), k) == if ks.contains(k) { m[k].counter@ } else { 0 }
  decreases ks.len()
{
  if ks.len() > 0 {
    let t = ks.drop_last(); lemma_sum_of(m, t, k); assert(lines_of(ks, m).drop_last() =~= lines_of(t, m));
    if ks.last() == k { assert(!t.contains(k)); assert(ks[ks.len() - 1] == k); } else { if ks.contains(k) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(t[i] == k); } if t.contains(k) { let i = choose|i: int| 0 <= i < t.len() && t[i] == k; assert(ks[i] == k); } }
  }
}
@end
@fn count_zero = HyCu::StoreData::Count::ValueType::ValueType 0
@ensures zero: res.this.counter@ == 0
@fn count_of_count = HyCu::StoreData::Count::ValueType::ValueType 1 ~Count::ValueType::ValueType.const class HyCu::StoreData::Count &
@ensures copy: res.this.counter@ == count0.value.counter@
@fn count_copy = HyCu::StoreData::Count::ValueType::ValueType 1 ~const struct HyCu::StoreData::Count::ValueType &
@ensures copy: res.this.counter@ == value0.counter@
@fn count_assign = HyCu::StoreData::Count::ValueType::operator=
@ensures copy: res.this.counter@ == rhs0.counter@
@fn add_value = HyCu::StoreData::operator+= 2 ~&,const struct
@ensures sum: res.lhs.counter@ == lhs0.counter@ + rhs0.counter@
@fn add_count = HyCu::StoreData::operator+= 2 ~&,const class
@ensures sum: res.lhs.counter@ == lhs0.counter@ + rhs0.value.counter@
@fn put_count = HyCu::StoreData::operator<< 2
@requires stream: ready(stream0@)
@ensures text: res.stream@ == put(stream0@, deci(value0.counter@))
@fn get_count = HyCu::StoreData::Count::ValueType::ValueType 1 ~string
@ensures value: forall|n: int| str0@ == #[trigger] deci(n) ==> res.this.counter@ == n
@fn put_key = HyCu::CurveData::operator<< 2
@requires stream: ready(stream0@)
@ensures text: res.stream@ == put(stream0@, key_text(value0))
@proof begin
let ghost R = ints_u32(value0.ramification_type@); let ghost O = ints_i32(value0.hasse_weil_offsets@);
proof { assert(Seq::<u8>::empty().push(44u8) =~= seq![44u8]); assert(Seq::<u8>::empty().push(59u8) =~= seq![59u8]); }
@end
@proof before loop 1
let ghost ix0_1 = ix;
proof { assert(list_text(R.take(0)) =~= Seq::<u8>::empty()); if R.len() > 0 { assert(R.take(1) =~= seq![R[0]]); assert(list_text(R.take(1)) == deci(R[0])); } assert(good(stream0@) ==> stream@.data =~= stream0@.data + list_text(R.take(ix as int))); }
@end
@loop 1
@inv same: value == value0 && ix0_1 <= ix <= R.len()
@inv text: stream@ == put(stream0@, list_text(R.take(ix as int)))
@decreases R.len() - ix
@proof loop 1 end
proof { let k = ix as int; assert(R.take(k + 1) =~= R.take(k).push(R[k])); if k > 0 { lemma_list_push(R.take(k), R[k]); } else { assert(R.take(1) =~= seq![R[0]]); } assert(good(stream0@) ==> stream@.data =~= stream0@.data + list_text(R.take(k + 1))); }
@end
@proof after loop 1
proof { assert(R.take(ix as int) =~= R); }
@end
@proof before loop 2
let ghost ix0_2 = ix;
proof { assert(list_text(O.take(0)) =~= Seq::<u8>::empty()); if O.len() > 0 { assert(O.take(1) =~= seq![O[0]]); assert(list_text(O.take(1)) == deci(O[0])); } assert(good(stream0@) ==> stream@.data =~= stream0@.data + (list_text(R) + seq![59u8] + list_text(O.take(ix as int)))); }
@end
@loop 2
@inv same: value == value0 && ix0_2 <= ix <= O.len()
@inv text: stream@ == put(stream0@, list_text(R) + seq![59u8] + list_text(O.take(ix as int)))
@decreases O.len() - ix
@proof loop 2 end
proof { let k = ix as int; assert(O.take(k + 1) =~= O.take(k).push(O[k])); if k > 0 { lemma_list_push(O.take(k), O[k]); } else { assert(O.take(1) =~= seq![O[0]]); } assert(good(stream0@) ==> stream@.data =~= stream0@.data + (list_text(R) + seq![59u8] + list_text(O.take(k + 1)))); }
@end
@proof after loop 2
proof { assert(O.take(ix as int) =~= O); }
@end
@proof return
proof { assert(good(stream0@) ==> stream@.data =~= stream0@.data + key_text(value0)); }
@end

@fn get_key = HyCu::CurveData::ExplicitRamificationHasseWeil::ValueType::ValueType 1 ~string
@ensures value: forall|v: ExplicitRamificationHasseWeil_ValueType| key_ok(v) && str0@ == #[trigger] key_text(v) ==> res.this == v
@proof begin
let ghost valid = exists|v: ExplicitRamificationHasseWeil_ValueType| key_ok(v) && str0@ == #[trigger] key_text(v);
let ghost V = choose|v: ExplicitRamificationHasseWeil_ValueType| key_ok(v) && str0@ == #[trigger] key_text(v);
let ghost R = ints_u32(V.ramification_type@); let ghost O = ints_i32(V.hasse_weil_offsets@);
let ghost T = seq![59u8] + list_text(O);
proof {
  assert forall|v: ExplicitRamificationHasseWeil_ValueType| key_ok(v) && str0@ == #[trigger] key_text(v) implies v == V by { lemma_key_injective(v, V); }
  assert(str0@.skip(0) =~= str0@); assert(R.skip(0) =~= R);
  if valid { assert(str0@ =~= list_text(R) + T); }
}
@end
@loop 1
@invtop pos: 0 <= stream@.pos <= stream@.data.len() && this.hasse_weil_offsets@.len() == 0
@invtop read: valid ==> this.ramification_type@.len() < R.len() && ints_u32(this.ramification_type@) =~= R.take(this.ramification_type@.len() as int) && good(stream@) && stream@.data.skip(stream@.pos) == list_text(R.skip(this.ramification_type@.len() as int)) + T
@exit pos: 0 <= stream@.pos <= stream@.data.len() && this.hasse_weil_offsets@.len() == 0
@exit all: valid ==> ints_u32(this.ramification_type@) == R && good(stream@) && stream@.data.skip(stream@.pos) == list_text(O)
@proof loop 1 begin
let ghost n = this.ramification_type@.len() as int; let ghost d = stream@.data; let ghost p = stream@.pos; let ghost r1 = this.ramification_type@;
proof {
  if valid {
    assert(T[0] == 59u8); assert(R.skip(n)[0] == R[n]); assert(R[n] == V.ramification_type@[n]); lemma_list_head(d, p, R.skip(n), T); assert(R.skip(n).skip(1) =~= R.skip(n + 1)); assert(R.take(n + 1) =~= R.take(n).push(R[n]));
    assert(forall|s: Seq<u32>, x: u32| ints_u32(#[trigger] s.push(x)) =~= ints_u32(s).push(x as int));
    assert(T.skip(1) =~= list_text(O)); let e = num_end(d, p); if n + 1 == R.len() { assert(d.skip(e).skip(1) =~= d.skip(e + 1)); assert(R.take(n + 1) =~= R); }
  }
}
@end
@proof before loop 2
proof { if valid { assert(O.skip(0) =~= O); assert(ints_i32(this.hasse_weil_offsets@) =~= O.take(0)); assert(list_text(O) + Seq::<u8>::empty() =~= list_text(O)); } }
@end
@loop 2
@inv pos: 0 <= stream@.pos <= stream@.data.len()
@inv ram: valid ==> ints_u32(this.ramification_type@) == R
@inv read: valid ==> this.hasse_weil_offsets@.len() < O.len() && ints_i32(this.hasse_weil_offsets@) =~= O.take(this.hasse_weil_offsets@.len() as int) && good(stream@) && stream@.data.skip(stream@.pos) == list_text(O.skip(this.hasse_weil_offsets@.len() as int)) + Seq::<u8>::empty()
@proof loop 2 begin
let ghost n = this.hasse_weil_offsets@.len() as int; let ghost d = stream@.data; let ghost p = stream@.pos;
proof {
  if valid {
    assert(O.skip(n)[0] == O[n]); assert(O[n] == V.hasse_weil_offsets@[n]); lemma_list_head(d, p, O.skip(n), Seq::<u8>::empty()); assert(O.skip(n).skip(1) =~= O.skip(n + 1)); assert(O.take(n + 1) =~= O.take(n).push(O[n]));
    assert(forall|s: Seq<i32>, x: i32| ints_i32(#[trigger] s.push(x)) =~= ints_i32(s).push(x as int));
    if n + 1 == O.len() { assert(O.take(n + 1) =~= O); }
  }
}
@end
@proof return
proof { if valid && ints_i32(this.hasse_weil_offsets@) == O && ints_u32(this.ramification_type@) == R { lemma_key_eq(this, V); } }
@end

@fn put_store = Store::insert 2
@requires stream: ready(stream0@)
@ensures text: exists|t: Seq<u8>| #[trigger] is_store_text(t, store0@) && res.stream@ == put(stream0@, t)
@proof begin
proof { assert(Seq::<u8>::empty().push(58u8) =~= seq![58u8]); }
@end
@proof before loop 1
let ghost L = lines_of(keys1@, store0@);
proof { assert(L.take(0) =~= Seq::<Line>::empty()); assert(stream0@.data + lines_text(L.take(0)) =~= stream0@.data); }
@end
@loop 1
@inv it: 0 <= it1 <= keys1@.len() && store == store0
@inv text: stream@ == put(stream0@, lines_text(L.take(it1 as int)))
@decreases keys1@.len() - it1
@proof loop 1 end
proof { let k = it1 as int; assert(L.take(k + 1) =~= L.take(k).push(L[k])); lemma_lines_push(L.take(k), L[k]); assert(good(stream0@) ==> stream@.data =~= stream0@.data + lines_text(L.take(k + 1))); }
@end
@proof after loop 1
proof { assert(L.take(it1 as int) =~= L); assert(no_repeat(keys1@)); assert(is_store_text(lines_text(L), store0@)); }
@end

@fn get_store = Store::extract 2
@requires stream: good(stream0@) && 0 <= stream0@.pos <= stream0@.data.len()
@ensures counts: forall|ls: Seq<Line>| lines_ok(ls) && stream0@.data.skip(stream0@.pos) == #[trigger] lines_text(ls) ==> forall|k: ExplicitRamificationHasseWeil_ValueType| count_at(res.store@, k) == count_at(store0@, k) + #[trigger] sum_of(ls, k)
@ensures keys: forall|ls: Seq<Line>| lines_ok(ls) && stream0@.data.skip(stream0@.pos) == #[trigger] lines_text(ls) ==> forall|k: ExplicitRamificationHasseWeil_ValueType| #[trigger] res.store@.dom().contains(k) <==> store0@.dom().contains(k) || mentions(ls, k)
@proof begin
let ghost valid = exists|ls: Seq<Line>| lines_ok(ls) && stream0@.data.skip(stream0@.pos) == #[trigger] lines_text(ls);
let ghost L = choose|ls: Seq<Line>| lines_ok(ls) && stream0@.data.skip(stream0@.pos) == #[trigger] lines_text(ls);
let ghost mut n: int = 0;
proof {
  assert forall|ls: Seq<Line>| lines_ok(ls) && stream0@.data.skip(stream0@.pos) == #[trigger] lines_text(ls) implies ls == L by { lemma_lines_injective(ls, L); }
  assert(L.skip(0) =~= L); assert(L.take(0) =~= Seq::<Line>::empty());
}
@end
@loop 1
@inv pos: 0 <= stream@.pos <= stream@.data.len()
@inv read: valid ==> 0 <= n <= L.len() && stream@.data.skip(stream@.pos) == lines_text(L.skip(n)) && (good(stream@) || n == L.len())
@inv counts: valid ==> forall|k: ExplicitRamificationHasseWeil_ValueType| count_at(store@, k) == count_at(store0@, k) + #[trigger] sum_of(L.take(n), k)
@inv keys: valid ==> forall|k: ExplicitRamificationHasseWeil_ValueType| #[trigger] store@.dom().contains(k) <==> store0@.dom().contains(k) || mentions(L.take(n), k)
@proof loop 1 top
let ghost m1 = store@;
proof {
  if valid && n < L.len() { assert(L.skip(n)[0] == L[n]); assert(L.skip(n).skip(1) =~= L.skip(n + 1)); lemma_lines_head(stream@.data, stream@.pos, L.skip(n)); lemma_line(L[n]); assert(key_ok(L[n].key)); assert(line_text(L[n]).subrange(0, line_text(L[n]).len() as int) =~= line_text(L[n])); }
}
@end
@proof loop 1 end
proof {
  if valid {
    let x = L[n]; let T = L.take(n + 1);
    assert(T =~= L.take(n).push(x)); assert(T.drop_last() =~= L.take(n)); assert(T.last() == x);
    assert(curve_value == x.key); assert(store_value.counter@ == x.count);
    assert(store@.dom() =~= m1.dom().insert(x.key));
    assert(forall|k: ExplicitRamificationHasseWeil_ValueType| k != x.key && #[trigger] m1.dom().contains(k) ==> store@[k] == m1[k]);
    assert(store@[x.key].counter@ == count_at(m1, x.key) + x.count);
    assert forall|k: ExplicitRamificationHasseWeil_ValueType| count_at(store@, k) == count_at(store0@, k) + #[trigger] sum_of(T, k) by { assert(count_at(m1, k) == count_at(store0@, k) + sum_of(L.take(n), k)); assert(sum_of(T, k) == sum_of(T.drop_last(), k) + if x.key == k { x.count } else { 0 }); }
    assert forall|k: ExplicitRamificationHasseWeil_ValueType| #[trigger] store@.dom().contains(k) <==> store0@.dom().contains(k) || mentions(T, k) by {
      if mentions(L.take(n), k) { let i = choose|i: int| 0 <= i < L.take(n).len() && (#[trigger] L.take(n)[i]).key == k; assert(T[i] == L.take(n)[i]); }
      if k == x.key { assert(T[n].key == k); }
      if mentions(T, k) { let i = choose|i: int| 0 <= i < T.len() && (#[trigger] T[i]).key == k; if i < n { assert(L.take(n)[i].key == k); } }
    }
  }
  n = n + 1;
}
@end
@proof after loop 1
proof { if valid { assert(L.take(n) =~= L); } }
@end

# Store: registering curves, aggregation (C10, C11)
@tu src/store/store.cc src/store/curve_data.cc src/store/file_store.cc src/curve.cc src/curve_iterator.cc
@use ramification.vc
@use multiplicity.vc
@use text.vc
@use records.vc
@prelude
type Key = ExplicitRamificationHasseWeil_ValueType;
pub open spec fn twisted(o: Seq<i32>) -> Seq<i32> { Seq::new(o.len(), |i: int| if i % 2 == 0 { (-o[i]) as i32 } else { o[i] }) }
// the quadratic twist has the same ramification and the negated offsets in odd degree
pub open spec fn is_twist(a: Key, b: Key) -> bool { a.ramification_type@ == b.ramification_type@ && b.hasse_weil_offsets@ == twisted(a.hasse_weil_offsets@) }
pub open spec fn twist_of(a: Key) -> Key { ExplicitRamificationHasseWeil_ValueType { ramification_type: a.ramification_type, hasse_weil_offsets: mk(twisted(a.hasse_weil_offsets@)) } }
pub open spec fn negatable(a: Key) -> bool { forall|i: int| 0 <= i < a.hasse_weil_offsets@.len() ==> #[trigger] a.hasse_weil_offsets@[i] > -0x8000_0000 }
pub proof fn lemma_twist_twice(a: Key)
  requires negatable(a)
  ensures twist_of(twist_of(a)) == a, negatable(twist_of(a))
{
  let t = twisted(a.hasse_weil_offsets@); assert(twisted(t) =~= a.hasse_weil_offsets@);
  assert(mk(twisted(t)).g@ == a.hasse_weil_offsets.g@); assert(mk(twisted(t)).g == a.hasse_weil_offsets.g); assert(mk(twisted(t)) == a.hasse_weil_offsets);
}
// a store holds a key and its twist together
pub open spec fn closed(m: Map<Key, Count_ValueType>) -> bool { forall|k: Key| #[trigger] m.dom().contains(k) ==> negatable(k) && m.dom().contains(twist_of(k)) }
// the invariants of a curve: degrees of the branch points, offsets in degree 1, 2, .. over its field, as far as counted
pub open spec fn is_key(c: Curve, k: Key) -> bool {
  let pe = c.table@.prime_exponent as int; let n = k.hasse_weil_offsets@.len() as int;
  &&& sorted(k.ramification_type@) && forall|d: int| #[trigger] cnt(k.ramification_type@, d) == cnt(branch(c), d)
  &&& forall|i: int| 0 <= i < n ==> #[trigger] k.hasse_weil_offsets@[i] == offset(c, pe * (i + 1))
  &&& counted_to(c, pe * n) && !counted(c, pe * (n + 1))
}
// the set of coefficients that are not zero
pub open spec fn is_support(c: Curve, s: Seq<u32>) -> bool {
  &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j]
  &&& forall|k: u32| #[trigger] s.contains(k) <==> k < c.poly_coeff_exponents@.len() && c.poly_coeff_exponents@[k as int] != c.table@.prime_power_pred
}
pub open spec fn weight(c: Curve) -> int { class_size(c.table@.prime as int, c.table@.prime_power as int, choose|s: Seq<u32>| is_support(c, s)) }
pub proof fn lemma_support_unique(a: Seq<u32>, b: Seq<u32>)
  requires forall|i: int, j: int| 0 <= i < j < a.len() ==> a[i] < a[j], forall|i: int, j: int| 0 <= i < j < b.len() ==> b[i] < b[j], forall|k: u32| a.contains(k) <==> b.contains(k)
  ensures a == b
  decreases a.len()
{
  if a.len() == 0 { if b.len() > 0 { assert(b.contains(b[0])); } assert(a =~= b); }
  else {
    assert(a.contains(a.last())); assert(b.len() > 0);
    assert(b.contains(b.last())); assert(a.contains(b.last()));
    let i = choose|i: int| 0 <= i < b.len() && b[i] == a.last(); let j = choose|j: int| 0 <= j < a.len() && a[j] == b.last();
    assert(a.last() == b.last()) by { if i < b.len() - 1 { assert(b[i] < b[b.len() - 1]); } if j < a.len() - 1 { assert(a[j] < a[a.len() - 1]); } }
    assert forall|k: u32| a.drop_last().contains(k) <==> b.drop_last().contains(k) by {
      if a.drop_last().contains(k) { let x = choose|x: int| 0 <= x < a.len() - 1 && a.drop_last()[x] == k; assert(a[x] == k); assert(a[x] < a[a.len() - 1]); assert(a.contains(k)); assert(b.contains(k)); let y = choose|y: int| 0 <= y < b.len() && b[y] == k; assert(y < b.len() - 1); assert(b.drop_last()[y] == k); }
      if b.drop_last().contains(k) { let x = choose|x: int| 0 <= x < b.len() - 1 && b.drop_last()[x] == k; assert(b[x] == k); assert(b[x] < b[b.len() - 1]); assert(b.contains(k)); assert(a.contains(k)); let y = choose|y: int| 0 <= y < a.len() && a[y] == k; assert(y < a.len() - 1); assert(a.drop_last()[y] == k); }
    }
    lemma_support_unique(a.drop_last(), b.drop_last());
    assert(a =~= a.drop_last().push(a.last())); assert(b =~= b.drop_last().push(b.last()));
  }
}
// one registration
pub open spec fn registered(m: Map<Key, Count_ValueType>, n: Map<Key, Count_ValueType>, k: Key, w: int) -> bool {
  &&& n.dom() =~= m.dom().insert(k).insert(twist_of(k))
  &&& forall|x: Key| #[trigger] count_at(n, x) == count_at(m, x) + (if x == k { w } else { 0 }) + (if x == twist_of(k) { w } else { 0 })
}
// the order of the keys in a store
pub open spec fn key_lt(a: Key, b: Key) -> bool { seq_lt(ints_u32(a.ramification_type@), ints_u32(b.ramification_type@)) || (a.ramification_type@ == b.ramification_type@ && seq_lt(ints_i32(a.hasse_weil_offsets@), ints_i32(b.hasse_weil_offsets@))) }
pub proof fn lemma_seq_lt(a: Seq<int>, b: Seq<int>)
  ensures a == b ==> !seq_lt(a, b), seq_lt(a, b) ==> !seq_lt(b, a), a == b || seq_lt(a, b) || seq_lt(b, a)
  decreases a.len()
{
  if a.len() > 0 && b.len() > 0 { lemma_seq_lt(a.skip(1), b.skip(1)); if a[0] == b[0] && a.skip(1) == b.skip(1) { assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); } }
  else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub proof fn lemma_seq_lt_trans(a: Seq<int>, b: Seq<int>, c: Seq<int>)
  requires seq_lt(a, b), seq_lt(b, c)
  ensures seq_lt(a, c)
  decreases a.len()
{ if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { lemma_seq_lt_trans(a.skip(1), b.skip(1), c.skip(1)); } }
// a strict total order: different keys are different entries
pub proof fn lemma_order(a: Key, b: Key, c: Key)
  ensures a == b ==> !key_lt(a, b), key_lt(a, b) ==> !key_lt(b, a), a == b || key_lt(a, b) || key_lt(b, a), key_lt(a, b) && key_lt(b, c) ==> key_lt(a, c)
{
  let x = ints_u32(a.ramification_type@); let y = ints_u32(b.ramification_type@); let z = ints_u32(c.ramification_type@);
  let u = ints_i32(a.hasse_weil_offsets@); let v = ints_i32(b.hasse_weil_offsets@); let w = ints_i32(c.hasse_weil_offsets@);
  lemma_seq_lt(x, y); lemma_seq_lt(u, v);
  if seq_lt(x, y) && seq_lt(y, z) { lemma_seq_lt_trans(x, y, z); }
  if seq_lt(u, v) && seq_lt(v, w) { lemma_seq_lt_trans(u, v, w); }
  if x == y { lemma_ram_eq(a, b); }
  if x == y && u == v { lemma_key_eq(a, b); }
}
pub proof fn lemma_ram_eq(a: Key, b: Key)
  requires ints_u32(a.ramification_type@) == ints_u32(b.ramification_type@)
  ensures a.ramification_type@ == b.ramification_type@
{ let x = a.ramification_type@; let y = b.ramification_type@; assert(ints_u32(x).len() == ints_u32(y).len()); assert(x =~= y) by { assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { assert(ints_u32(x)[i] == ints_u32(y)[i]); } } }
@end
@fn less = std::less::operator()
@ensures order: res.ret == key_lt(lhs0, rhs0)
@fn twist = HyCu::CurveData::ExplicitRamificationHasseWeil::twist
@requires fit: negatable(this0.value)
@ensures twist: res.ret.value == twist_of(this0.value)
@ensures frame: res.this == this0
@loop 1
@inv it: 0 <= it1 <= this0.value.hasse_weil_offsets@.len() && this == this0 && odd == (it1 % 2 == 0)
@inv twisted: twisted_hasse_weil_offsets@ =~= twisted(this0.value.hasse_weil_offsets@).take(it1 as int)
@decreases this0.value.hasse_weil_offsets@.len() - it1
@proof loop 1 end
proof { let T = twisted(this0.value.hasse_weil_offsets@); assert(T.take(it1 + 1) =~= T.take(it1 as int).push(T[it1 as int])); }
@end
@proof after loop 1
proof { let T = twisted(this0.value.hasse_weil_offsets@); assert(T.take(it1 as int) =~= T); assert(twisted_hasse_weil_offsets@ == T); assert(twisted_hasse_weil_offsets.g == mk(T).g); }
@end
@fn register_curve = Store::register_curve
@requires curve: curve_ok(curve0) && elements_ok(curve0.table@) && points_ok(curve0) && 3 <= deg(curve0) <= 0x10_0000 && curve0.table@.prime_power % 2 == 1
@requires factors: facs_of(facs(curve0), deg(curve0)) && all_simple(facs(curve0))
@requires zeros: zeros_counted(curve0)
@requires closed: closed(this0.store@)
@proof before twist
proof {
  let pe = curve0.table@.prime_exponent as int; let o = hasse_weil_offsets_p_5@;
  assert forall|i: int| 0 <= i < o.len() implies #[trigger] o[i] > -0x8000_0000 by {
    assert(o[i] == offset(curve0, pe * (i + 1)));
    assert(pe * (i + 1) <= t_7) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t_7 as int, pe); assert(pe * (i + 1) <= pe * o.len()) by (nonlinear_arith) requires pe >= 1, i + 1 <= o.len(); }
    assert(pe * (i + 1) >= 1) by (nonlinear_arith) requires pe >= 1, i >= 0;
    assert(counted(curve0, pe * (i + 1)));
  }
}
@end
@proof before ci_multiplicity
proof {
  let pe = curve0.table@.prime_exponent; let p = curve0.table@.prime as int;
  vstd::arithmetic::power::lemma_pow_increases(p as nat, 1, pe as nat); vstd::arithmetic::power::lemma_pow1(p);
}
@end
@ensures registered: exists|k: Key| #[trigger] is_key(curve0, k) && registered(this0.store@, res.this.store@, k, weight(curve0))
@ensures closed: closed(res.this.store@)
@ensures frame: res.this == (Store { store: res.this.store, ..this0 })
@proof return
proof {
  let s = t_24@; let c = curve0;
  assert(is_support(c, s));
  assert(weight(c) == class_size(c.table@.prime as int, c.table@.prime_power as int, s)) by { let z = choose|s: Seq<u32>| is_support(c, s); assert(is_support(c, z)); assert forall|k: u32| s.contains(k) <==> z.contains(k) by { } lemma_support_unique(s, z); }
  lemma_twist_twice(key);
  assert(is_key(c, key)) by { let pe = c.table@.prime_exponent as int; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t_7 as int, pe); let n = key.hasse_weil_offsets@.len() as int; assert(pe * (n + 1) == pe * n + pe) by (nonlinear_arith); }
  let w = weight(c); assert(data.value.counter@ == w);
  assert forall|x: Key| #[trigger] count_at(this.store@, x) == count_at(this0.store@, x) + (if x == key { w } else { 0 }) + (if x == twist_of(key) { w } else { 0 }) by { }
  assert(registered(this0.store@, this.store@, key, weight(c)));
}
@end
@fn flush_to = Store::flush_to_static_store
@requires free: !this0.static_mutex.held()
@ensures sum: forall|k: Key| #[trigger] count_at(res.this.static_store@, k) == count_at(this0.static_store@, k) + count_at(this0.store@, k)
@ensures keys: res.this.static_store@.dom() =~= this0.static_store@.dom() + this0.store@.dom()
@ensures record: res.this.static_record@ =~= this0.static_record@.insert(block0)
@ensures cleared: res.this.store@ =~= Map::<Key, Count_ValueType>::empty()
@ensures atomic: !res.this.static_mutex.held() && res.this.static_mutex.times() == this0.static_mutex.times() + 1
@loop 1
@inv it: 0 <= it1 <= keys1@.len()
@inv frame: this == (Store { static_store: this.static_store, static_record: this.static_record, static_mutex: this.static_mutex, ..this0 }) && this.static_mutex.held() && this.static_mutex.times() == this0.static_mutex.times() + 1
@inv record: this.static_record@ == this0.static_record@.insert(block0)
@inv keys: forall|k: Key| #[trigger] this.static_store@.dom().contains(k) <==> this0.static_store@.dom().contains(k) || keys1@.take(it1 as int).contains(k)
@inv sum: forall|k: Key| #[trigger] count_at(this.static_store@, k) == count_at(this0.static_store@, k) + if keys1@.take(it1 as int).contains(k) { count_at(this0.store@, k) } else { 0 }
@decreases keys1@.len() - it1
@proof loop 1 begin
let ghost m1 = this.static_store@; let ghost x = keys1@[it1 as int];
proof { 
  assert forall|k: Key| keys1@.take(it1 + 1).contains(k) <==> keys1@.take(it1 as int).contains(k) || k == x by { let A = keys1@.take(it1 as int); let B = keys1@.take(it1 + 1); if A.contains(k) { let i = choose|i: int| 0 <= i < A.len() && A[i] == k; assert(B[i] == k); } if k == x { assert(B[it1 as int] == k); } if B.contains(k) { let i = choose|i: int| 0 <= i < B.len() && B[i] == k; if i < it1 { assert(A[i] == k); } } }
  assert(!keys1@.take(it1 as int).contains(x));
}
@end
@proof loop 1 end
proof {
  assert(this.static_store@.dom() =~= m1.dom().insert(x));
  assert(this.static_store@[x].counter@ == count_at(m1, x) + count_at(this0.store@, x));
  assert forall|k: Key| #[trigger] count_at(this.static_store@, k) == count_at(this0.static_store@, k) + if keys1@.take(it1 + 1).contains(k) { count_at(this0.store@, k) } else { 0 } by { assert(count_at(m1, k) == count_at(this0.static_store@, k) + if keys1@.take(it1 as int).contains(k) { count_at(this0.store@, k) } else { 0 }); if k != x { assert(count_at(this.static_store@, k) == count_at(m1, k)); } }
}
@end
@proof after loop 1
proof { assert(keys1@.take(it1 as int) =~= keys1@); }
@end
@fn flush = Store::flush_static_store
@requires free: !this0.static_mutex.held()
@ensures record: is_record(res.ret.0@, this0.static_record@)
@ensures store: is_store_text(res.ret.1@, this0.static_store@)
@ensures cleared: res.this.static_record@ =~= Set::<CVec<(u32, u32)>>::empty() && res.this.static_store@ =~= Map::<Key, Count_ValueType>::empty()
@ensures frame: res.this.store == this0.store
@ensures atomic: !res.this.static_mutex.held() && res.this.static_mutex.times() == this0.static_mutex.times() + 1
@proof return
proof { 
}
@end

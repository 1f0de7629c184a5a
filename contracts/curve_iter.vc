# CurveIterator: the enumeration of normal forms (C08)
@tu src/curve_iterator.cc src/block_iterator.cc src/fq_element_table.cc src/reduction_table.cc
@use tables.vc
@use block_iterator.vc
@use multiplicity.vc
@prelude
// A family of right hand sides of degree d: k = 0, the second highest exponent is ix and the third jx (-1: there is none),
// characteristic larger than d; k = 1, x^d; k = 2, 3, the characteristic divides d, with and without a term of degree d-1;
// k = 4, the characteristic is smaller than d and does not divide it.
pub struct Shp { pub d: int, pub k: int, pub ix: int, pub jx: int }
pub open spec fn shp_ok(p: int, s: Shp) -> bool {
  ||| s.k == 0 && p > s.d && 0 <= s.ix <= s.d - 2 && -1 <= s.jx < s.ix
  ||| s.k == 1 && p > s.d && s.ix == 0 && s.jx == 0
  ||| (s.k == 2 || s.k == 3) && p <= s.d && s.d % p == 0 && s.ix == 0 && s.jx == 0
  ||| s.k == 4 && p <= s.d && s.d % p != 0 && s.ix == 0 && s.jx == 0
}
// what the coefficient of x^i, given by its logarithm (q-1 for zero), may be
pub open spec fn allowed(q: int, s: Shp, i: int, x: int) -> bool {
  if s.k == 0 {
    if i == s.d { 0 <= x < q - 1 } else if i == s.ix { x == 0 } else if i == s.jx { 0 <= x < gcd(s.ix - s.jx, q - 1) } else if i > s.jx { x == q - 1 } else { 0 <= x < q }
  } else if s.k == 1 { if i == s.d { x == 0 } else { x == q - 1 } }
  else if s.k == 2 {
    if i == s.d { x == 0 } else if i == s.d - 1 { 0 <= x < q - 1 } else if i == s.d - 2 { x == q - 1 } else if i == s.d - 3 { 0 <= x < gcd(3, q - 1) || x == q - 1 } else { 0 <= x < q }
  } else {
    if i == s.d { x == 0 } else if i == s.d - 1 { x == q - 1 } else if i == s.d - 2 { 0 <= x < gcd(2, q - 1) || x == q - 1 } else { 0 <= x < q }
  }
}
pub open spec fn in_shp(q: int, s: Shp, v: Seq<u32>) -> bool { v.len() == s.d + 1 && forall|i: int| 0 <= i < v.len() ==> allowed(q, s, i, #[trigger] v[i] as int) }
// the members of the product that a BlockIterator describes
pub open spec fn coord_in(b: BlockIterator, v: Seq<u32>, px: u64) -> bool {
  if b.blocks@.dom().contains(px) { b.blocks@[px].0 <= v[px as int] < b.blocks@[px].1 }
  else if b.sets@.dom().contains(px) { b.sets@[px]@.contains(v[px as int]) }
  else if b.dependent_sets@.dom().contains(px) {
    let c = b.dependent_sets@[px].0;
    exists|k: int| 0 <= k < b.sets@[c]@.len() && b.sets@[c]@[k] == v[c as int] && (#[trigger] b.dependent_sets@[px].1@[k as u32])@.contains(v[px as int])
  } else { false }
}
pub open spec fn member(b: BlockIterator, v: Seq<u32>) -> bool { v.len() == b.length_ && forall|px: u64| px < b.length_ ==> #[trigger] coord_in(b, v, px) }
#[verifier::opaque]
pub open spec fn col(c: Seq<u32>, q: int, s: Shp, i: int) -> bool {
  0 < c.len() < 0xffff_ffff && c.no_duplicates() && forall|x: u32| #[trigger] c.contains(x) <==> allowed(q, s, i, x as int)
}
pub open spec fn upto(n: int) -> Seq<u32> { Seq::new(n as nat, |i: int| i as u32) }
pub proof fn lemma_upto(n: int)
  requires 0 <= n <= 0xffff_ffff
  ensures upto(n).len() == n, upto(n).no_duplicates(), forall|x: u32| #[trigger] upto(n).contains(x) <==> x < n
{ assert forall|x: u32| x < n implies #[trigger] upto(n).contains(x) by { assert(upto(n)[x as int] == x); } }
pub proof fn lemma_col_one(c: Seq<u32>, q: int, s: Shp, i: int, z: u32)
  requires c.len() == 1, c[0] == z, forall|x: u32| #[trigger] allowed(q, s, i, x as int) <==> x == z
  ensures col(c, q, s, i)
{ reveal(col); assert forall|x: u32| #[trigger] c.contains(x) <==> allowed(q, s, i, x as int) by { assert(c[0] == z); } }
pub proof fn lemma_col_upto(c: Seq<u32>, q: int, s: Shp, i: int, n: int)
  requires c == upto(n), 0 < n < 0xffff_ffff, forall|x: u32| #[trigger] allowed(q, s, i, x as int) <==> x < n
  ensures col(c, q, s, i)
{ reveal(col); lemma_upto(n); }
pub proof fn lemma_col_zero(c: Seq<u32>, q: int, s: Shp, i: int, n: int)
  requires c == upto(n).push((q - 1) as u32), 0 < n < 0x3fff_ffff, n <= q - 1 < 0x3fff_ffff, forall|x: u32| #[trigger] allowed(q, s, i, x as int) <==> x < n || x == q - 1
  ensures col(c, q, s, i)
{
  reveal(col); lemma_upto(n);
  assert forall|x: u32| #[trigger] c.contains(x) <==> allowed(q, s, i, x as int) by {
    if x < n { assert(upto(n).contains(x)); assert(c[x as int] == x); }
    if x == q - 1 { assert(c[n] == x); }
    if c.contains(x) { let k = choose|k: int| 0 <= k < c.len() && c[k] == x; }
  }
}
// one family and the iterator for it
pub open spec fn enum_ok(b: BlockIterator, q: int, s: Shp, package: int) -> bool {
  &&& bi_inv(b) && d_init(b, b.position@) && !b.has_reached_end && b.length_ == s.d + 1
  &&& simple(b)
  &&& steps_prod(b, b.update_order_blocks@.len()) <= package
  &&& forall|v: Seq<u32>| #[trigger] member(b, v) <==> in_shp(q, s, v)
}
// sets are given without repetitions and dependent sets are coupled to sets
pub open spec fn simple(b: BlockIterator) -> bool {
  &&& forall|px: u64| #[trigger] b.sets@.dom().contains(px) ==> b.sets@[px]@.no_duplicates()
  &&& forall|px: u64| px < b.length_ ==> #[trigger] b.blocks@.dom().contains(px) || b.sets@.dom().contains(px) || b.dependent_sets@.dom().contains(px)
  &&& forall|px: u64| #[trigger] b.dependent_sets@.dom().contains(px) ==> b.sets@.dom().contains(b.dependent_sets@[px].0)
      && forall|k: int| 0 <= k < b.sets@[b.dependent_sets@[px].0]@.len() ==> (#[trigger] b.dependent_sets@[px].1@[k as u32])@.no_duplicates()
  &&& forall|px: u64| #[trigger] b.blocks@.dom().contains(px) ==> b.blocks@[px].1 <= 0x3fff_ffff
  &&& forall|px: u64, j: int| b.sets@.dom().contains(px) && 0 <= j < b.sets@[px]@.len() ==> #[trigger] b.sets@[px]@[j] < 0x3fff_ffff
  &&& forall|px: u64, k: u32, j: int| b.dependent_sets@.dom().contains(px) && k < b.sets@[b.dependent_sets@[px].0]@.len() && 0 <= j < b.dependent_sets@[px].1@[k]@.len() ==> #[trigger] b.dependent_sets@[px].1@[k]@[j] < 0x3fff_ffff
}
// the order in which the families are set up
pub open spec fn before(s: Shp, d: int, k: int, ix: int, jx: int) -> bool { s.d < d || (s.d == d && (s.k < k || (s.k == k && (s.ix > ix || (s.ix == ix && s.jx > jx))))) }
pub open spec fn fams(es: Seq<BlockIterator>, ss: Seq<Shp>, q: int, package: int) -> bool { es.len() == ss.len() && forall|i: int| 0 <= i < es.len() ==> enum_ok(#[trigger] es[i], q, ss[i], package) }
pub open spec fn done(ss: Seq<Shp>, p: int, lo: int, d: int, k: int, ix: int, jx: int) -> bool {
  ss.no_duplicates() && forall|s: Shp| #[trigger] ss.contains(s) <==> shp_ok(p, s) && lo <= s.d && before(s, d, k, ix, jx)
}
pub proof fn lemma_done_add(ss: Seq<Shp>, p: int, lo: int, s: Shp)
  requires done(ss, p, lo, s.d, s.k, s.ix, s.jx), shp_ok(p, s), lo <= s.d
  ensures done(ss.push(s), p, lo, s.d, s.k, s.ix, s.jx - 1)
{
  let t = ss.push(s);
  assert forall|x: Shp| #[trigger] t.contains(x) <==> shp_ok(p, x) && lo <= x.d && before(x, s.d, s.k, s.ix, s.jx - 1) by {
    if ss.contains(x) { let i = choose|i: int| 0 <= i < ss.len() && ss[i] == x; assert(t[i] == x); }
    if x == s { assert(t[ss.len() as int] == x); }
    if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; if i < ss.len() { assert(ss[i] == x); assert(ss.contains(x)); } }
    if before(x, s.d, s.k, s.ix, s.jx - 1) && !before(x, s.d, s.k, s.ix, s.jx) { assert(x.jx == s.jx && x.ix == s.ix && x.k == s.k && x.d == s.d); assert(x == s); }
  }
  assert(!ss.contains(s));
  assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by {
    if i < ss.len() { assert(ss.contains(ss[i])); } if j < ss.len() { assert(ss.contains(ss[j])); }
  }
}
pub proof fn lemma_done_next(ss: Seq<Shp>, p: int, lo: int, d: int, k: int, ix: int, jx: int, d2: int, k2: int, ix2: int, jx2: int)
  requires done(ss, p, lo, d, k, ix, jx), forall|s: Shp| shp_ok(p, s) && lo <= s.d ==> (#[trigger] before(s, d, k, ix, jx) <==> before(s, d2, k2, ix2, jx2))
  ensures done(ss, p, lo, d2, k2, ix2, jx2)
{ assert forall|s: Shp| #[trigger] ss.contains(s) <==> shp_ok(p, s) && lo <= s.d && before(s, d2, k2, ix2, jx2) by { if shp_ok(p, s) && lo <= s.d { assert(before(s, d, k, ix, jx) <==> before(s, d2, k2, ix2, jx2)); } } }
// what the maps given to a BlockIterator must be for a family
pub open spec fn blk(t: (u32, u32), q: int, s: Shp, i: int) -> bool { t.0 == 0 && ((t.1 == q && forall|x: u32| #[trigger] allowed(q, s, i, x as int) <==> x < q) || (t.1 == q - 1 && forall|x: u32| #[trigger] allowed(q, s, i, x as int) <==> x < q - 1)) }
pub open spec fn dep(t: (u64, CMap<u32, CVec<u32>>), q: int, s: Shp, i: int) -> bool { s.k == 0 && i == s.jx && t.0 == s.ix && t.1@.dom().contains(0) && col(t.1@[0]@, q, s, i) }
pub open spec fn maps_ok(q: int, s: Shp, blocks: Map<u64, (u32, u32)>, sets: Map<u64, CVec<u32>>, deps: Map<u64, (u64, CMap<u32, CVec<u32>>)>) -> bool {
  &&& forall|px: u64| #[trigger] blocks.dom().contains(px) ==> px <= s.d && !sets.dom().contains(px) && !deps.dom().contains(px) && blk(blocks[px], q, s, px as int)
  &&& forall|px: u64| #[trigger] sets.dom().contains(px) ==> px <= s.d && !deps.dom().contains(px) && col(sets[px]@, q, s, px as int)
  &&& forall|px: u64| #[trigger] deps.dom().contains(px) ==> px <= s.d && dep(deps[px], q, s, px as int) && sets.dom().contains(s.ix as u64)
  &&& forall|px: u64| px <= s.d ==> #[trigger] blocks.dom().contains(px) || sets.dom().contains(px) || deps.dom().contains(px)
}
pub proof fn lemma_allowed_q(q: int, s: Shp, i: int, x: int)
  requires 3 <= q <= 0x3fff_ffff, allowed(q, s, i, x), s.k == 0 ==> s.jx < s.ix
  ensures 0 <= x < q
{ if s.k == 0 { if i == s.jx { lemma_gcd(s.ix - s.jx, q - 1); } } lemma_gcd(3, q - 1); lemma_gcd(2, q - 1); }
pub proof fn lemma_maps_in(p: int, q: int, s: Shp, blocks: Map<u64, (u32, u32)>, sets: Map<u64, CVec<u32>>, deps: Map<u64, (u64, CMap<u32, CVec<u32>>)>)
  requires maps_ok(q, s, blocks, sets, deps), 3 <= q <= 0x3fff_ffff, 2 <= s.d < 0x7fff_ffff, shp_ok(p, s)
  ensures in_ok((s.d + 1) as u64, blocks, sets, deps), exists|px: u64| blocks.dom().contains(px) || sets.dom().contains(px) || deps.dom().contains(px)
{
  reveal(col);
  assert(0u64 <= s.d);
  assert(blocks.dom().contains(0u64) || sets.dom().contains(0u64) || deps.dom().contains(0u64));
  assert forall|px: u64| #[trigger] deps.dom().contains(px) implies px < s.d + 1 && dep_in_ok(blocks, sets, deps[px]) by {
    let c = s.ix as u64;
    assert(sets.dom().contains(c)); assert(col(sets[c]@, q, s, s.ix));
    assert(sets[c]@.len() == 1) by { if sets[c]@.len() > 1 { assert(sets[c]@.contains(sets[c]@[0])); assert(sets[c]@.contains(sets[c]@[1])); assert(sets[c]@[0] != sets[c]@[1]); } }
    assert forall|k: u32| k < sets[c]@.len() implies #[trigger] nonempty_at(deps[px].1, k) by { }
  }
}
pub proof fn lemma_maps(b: BlockIterator, p: int, q: int, s: Shp, blocks: Map<u64, (u32, u32)>, sets: Map<u64, CVec<u32>>, deps: Map<u64, (u64, CMap<u32, CVec<u32>>)>)
  requires maps_ok(q, s, blocks, sets, deps), 3 <= q <= 0x3fff_ffff, 2 <= s.d < 0x7fff_ffff, shp_ok(p, s), describes(b, (s.d + 1) as u64, blocks, sets, deps)
  ensures simple(b), forall|v: Seq<u32>| #[trigger] member(b, v) <==> in_shp(q, s, v)
{
  reveal(col);
  let c = s.ix as u64;
  assert(s.k == 0 ==> c <= s.d);
  assert forall|px: u64| #[trigger] b.dependent_sets@.dom().contains(px) implies px == s.jx && px < s.ix && b.dependent_sets@[px].0 == c && b.sets@.dom().contains(c) && b.sets@[c]@.len() == 1 && b.sets@[c]@[0] == 0 && b.dependent_sets@[px].1@[0]@.no_duplicates() by {
    assert(deps.dom().contains(px));
    assert(dep(deps[px], q, s, px as int));
    assert(sets.dom().contains(c)); assert(col(sets[c]@, q, s, s.ix));
    assert(sets[c]@.contains(sets[c]@[0]));
    assert(sets[c]@.len() == 1) by { if sets[c]@.len() > 1 { assert(sets[c]@.contains(sets[c]@[1])); assert(sets[c]@[0] != sets[c]@[1]); } }
  }
  assert forall|px: u64| px < b.length_ implies #[trigger] b.blocks@.dom().contains(px) || b.sets@.dom().contains(px) || b.dependent_sets@.dom().contains(px) by { assert(blocks.dom().contains(px) || sets.dom().contains(px) || deps.dom().contains(px)); }
  assert forall|px: u64, j: int| b.sets@.dom().contains(px) && 0 <= j < b.sets@[px]@.len() implies #[trigger] b.sets@[px]@[j] < 0x3fff_ffff by {
    assert(sets.dom().contains(px)); assert(col(sets[px]@, q, s, px as int)); assert(sets[px]@.contains(sets[px]@[j])); lemma_allowed_q(q, s, px as int, sets[px]@[j] as int);
  }
  assert forall|px: u64, k: u32, j: int| b.dependent_sets@.dom().contains(px) && k < b.sets@[b.dependent_sets@[px].0]@.len() && 0 <= j < b.dependent_sets@[px].1@[k]@.len() implies #[trigger] b.dependent_sets@[px].1@[k]@[j] < 0x3fff_ffff by {
    assert(deps.dom().contains(px)); assert(k == 0); assert(deps[px].1@[0]@.contains(deps[px].1@[0]@[j])); lemma_allowed_q(q, s, px as int, deps[px].1@[0]@[j] as int);
  }
  assert(simple(b));
  assert forall|v: Seq<u32>| #[trigger] member(b, v) <==> in_shp(q, s, v) by {
    if member(b, v) {
      assert forall|i: int| 0 <= i < v.len() implies allowed(q, s, i, #[trigger] v[i] as int) by {
        let px = i as u64;
        assert(coord_in(b, v, px));
        assert(blocks.dom().contains(px) || sets.dom().contains(px) || deps.dom().contains(px));
      }
    }
    if in_shp(q, s, v) {
      assert forall|px: u64| px < b.length_ implies #[trigger] coord_in(b, v, px) by {
        assert(allowed(q, s, px as int, v[px as int] as int));
        assert(blocks.dom().contains(px) || sets.dom().contains(px) || deps.dom().contains(px));
        if deps.dom().contains(px) {
          assert(b.dependent_sets@.dom().contains(px));
          assert(allowed(q, s, c as int, v[c as int] as int));
          assert(b.dependent_sets@[px].1@[0int as u32]@.contains(v[px as int]));
        }
      }
    }
  }
}
// The normal forms: v lists the logarithms of the coefficients, from the constant one on, q-1 standing for zero.
pub open spec fn nz(q: int, v: Seq<u32>, n: int) -> int
  decreases n
{ if n <= 0 { -1 } else if v[n - 1] != q - 1 { n - 1 } else { nz(q, v, n - 1) } }
pub open spec fn normal(p: int, q: int, v: Seq<u32>) -> bool {
  let d = v.len() - 1;
  (forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] < q) && v[d] != q - 1 &&
  if p > d {
    let a = nz(q, v, d);
    v[d - 1] == q - 1 && if a < 0 { v[d] == 0 } else { v[a] == 0 && (nz(q, v, a) >= 0 ==> v[nz(q, v, a)] < gcd(a - nz(q, v, a), q - 1)) }
  } else if d % p == 0 {
    v[d] == 0 && if v[d - 1] != q - 1 { v[d - 2] == q - 1 && (v[d - 3] == q - 1 || v[d - 3] < gcd(3, q - 1)) } else { v[d - 2] == q - 1 || v[d - 2] < gcd(2, q - 1) }
  } else { v[d] == 0 && v[d - 1] == q - 1 && (v[d - 2] == q - 1 || v[d - 2] < gcd(2, q - 1)) }
}
pub proof fn lemma_nz(q: int, v: Seq<u32>, n: int)
  requires 0 <= n <= v.len()
  ensures -1 <= nz(q, v, n) < n || n == 0, nz(q, v, n) >= -1, nz(q, v, n) >= 0 ==> v[nz(q, v, n)] != q - 1, forall|i: int| nz(q, v, n) < i < n ==> #[trigger] v[i] == q - 1
  decreases n
{ if n > 0 && v[n - 1] == q - 1 { lemma_nz(q, v, n - 1); } }
pub proof fn lemma_shape(p: int, q: int, v: Seq<u32>) -> (s: Shp)
  requires normal(p, q, v), 4 <= v.len(), p >= 3, 3 <= q <= 0x3fff_ffff
  ensures shp_ok(p, s), in_shp(q, s, v), s.d == v.len() - 1
{
  let d = v.len() - 1;
  if p > d {
    let a = nz(q, v, d);
    lemma_nz(q, v, d);
    if a < 0 { let s = Shp { d: d, k: 1, ix: 0, jx: 0 }; assert(in_shp(q, s, v)); s }
    else { lemma_nz(q, v, a); let c = nz(q, v, a); let s = Shp { d: d, k: 0, ix: a, jx: c }; assert(in_shp(q, s, v)); s }
  } else if d % p == 0 {
    if v[d - 1] != q - 1 { let s = Shp { d: d, k: 2, ix: 0, jx: 0 }; assert(in_shp(q, s, v)); s } else { let s = Shp { d: d, k: 3, ix: 0, jx: 0 }; assert(in_shp(q, s, v)); s }
  } else { let s = Shp { d: d, k: 4, ix: 0, jx: 0 }; assert(in_shp(q, s, v)); s }
}
pub proof fn lemma_shape_is(p: int, q: int, v: Seq<u32>, s: Shp)
  requires shp_ok(p, s), in_shp(q, s, v), s.d >= 3, p >= 3, 3 <= q <= 0x3fff_ffff
  ensures normal(p, q, v), s == shape_of(p, q, v)
{
  let d = s.d;
  assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] < q by { assert(allowed(q, s, i, v[i] as int)); lemma_allowed_q(q, s, i, v[i] as int); }
  assert(allowed(q, s, d, v[d] as int)); assert(allowed(q, s, d - 1, v[d - 1] as int)); assert(allowed(q, s, d - 2, v[d - 2] as int)); assert(allowed(q, s, d - 3, v[d - 3] as int));
  lemma_gcd(2, q - 1); lemma_gcd(3, q - 1);
  lemma_nz(q, v, d);
  if s.k == 0 {
    assert(allowed(q, s, s.ix, v[s.ix] as int));
    let a = nz(q, v, d);
    assert(a == s.ix) by { if a > s.ix { assert(allowed(q, s, a, v[a] as int)); } }
    lemma_nz(q, v, a);
    let c = nz(q, v, a);
    if s.jx >= 0 { assert(allowed(q, s, s.jx, v[s.jx] as int)); lemma_gcd(s.ix - s.jx, q - 1); }
    assert(c == s.jx) by { if c > s.jx { assert(allowed(q, s, c, v[c] as int)); } }
  } else if s.k == 1 {
    let a = nz(q, v, d);
    if a >= 0 { assert(allowed(q, s, a, v[a] as int)); }
  }
}
pub open spec fn shape_of(p: int, q: int, v: Seq<u32>) -> Shp {
  let d = v.len() - 1;
  if p > d { if nz(q, v, d) < 0 { Shp { d: d, k: 1, ix: 0, jx: 0 } } else { Shp { d: d, k: 0, ix: nz(q, v, d), jx: nz(q, v, nz(q, v, d)) } } }
  else if d % p == 0 { if v[d - 1] != q - 1 { Shp { d: d, k: 2, ix: 0, jx: 0 } } else { Shp { d: d, k: 3, ix: 0, jx: 0 } } }
  else { Shp { d: d, k: 4, ix: 0, jx: 0 } }
}
// C08: the families cover the normal forms, each once
pub open spec fn in_one(es: Seq<BlockIterator>, v: Seq<u32>) -> bool { exists|e: int| 0 <= e < es.len() && #[trigger] member(es[e], v) }
pub open spec fn covers(es: Seq<BlockIterator>, p: int, q: int, lo: int, hi: int) -> bool { forall|v: Seq<u32>| #[trigger] in_one(es, v) <==> lo < v.len() <= hi && normal(p, q, v) }
pub open spec fn apart(es: Seq<BlockIterator>) -> bool { forall|v: Seq<u32>, e: int, f: int| 0 <= e < es.len() && 0 <= f < es.len() && e != f ==> !(#[trigger] member(es[e], v) && #[trigger] member(es[f], v)) }
pub proof fn lemma_fams(es: Seq<BlockIterator>, ss: Seq<Shp>, p: int, q: int, package: int, lo: int, hi: int)
  requires fams(es, ss, q, package), done(ss, p, lo, hi, 0, hi, hi), lo >= 3, p >= 3, 3 <= q <= 0x3fff_ffff
  ensures covers(es, p, q, lo, hi), apart(es)
{
  assert forall|v: Seq<u32>| #[trigger] in_one(es, v) <==> lo < v.len() <= hi && normal(p, q, v) by {
    if in_one(es, v) {
      let e = choose|e: int| 0 <= e < es.len() && #[trigger] member(es[e], v);
      assert(enum_ok(es[e], q, ss[e], package));
      assert(ss.contains(ss[e]));
      lemma_shape_is(p, q, v, ss[e]);
    }
    if lo < v.len() <= hi && normal(p, q, v) {
      let s = lemma_shape(p, q, v);
      assert(ss.contains(s));
      let e = choose|e: int| 0 <= e < ss.len() && ss[e] == s;
      assert(enum_ok(es[e], q, ss[e], package));
      assert(member(es[e], v));
    }
  }
  assert forall|v: Seq<u32>, e: int, f: int| 0 <= e < es.len() && 0 <= f < es.len() && e != f implies !(#[trigger] member(es[e], v) && #[trigger] member(es[f], v)) by {
    if member(es[e], v) && member(es[f], v) {
      assert(enum_ok(es[e], q, ss[e], package)); assert(enum_ok(es[f], q, ss[f], package));
      assert(ss.contains(ss[e])); assert(ss.contains(ss[f]));
      lemma_shape_is(p, q, v, ss[e]); lemma_shape_is(p, q, v, ss[f]);
    }
  }
}
pub proof fn lemma_fam_push(es: Seq<BlockIterator>, ss: Seq<Shp>, q: int, package: int, b: BlockIterator, s: Shp)
  requires fams(es, ss, q, package), enum_ok(b, q, s, package)
  ensures fams(es.push(b), ss.push(s), q, package)
{ }
pub proof fn lemma_short(c: Seq<u32>, n: int)
  requires c.no_duplicates(), forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] < n, n >= 0
  ensures c.len() <= n
{
  let t = c.map(|i: int, x: u32| x as int);
  assert(t.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { assert(c[i] != c[j]); } }
  t.unique_seq_to_set();
  vstd::set_lib::lemma_int_range(0, n);
  assert(t.to_set().subset_of(vstd::set_lib::set_int_range(0, n))) by {
    assert forall|x: int| t.to_set().contains(x) implies vstd::set_lib::set_int_range(0, n).contains(x) by { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(c[i] < n); }
  }
  vstd::set_lib::lemma_len_subset(t.to_set(), vstd::set_lib::set_int_range(0, n));
}
pub proof fn lemma_col_set(c: Seq<u32>, q: int, s: Shp, i: int, n: int)
  requires c.no_duplicates(), forall|x: u32| #[trigger] c.contains(x) <==> x < n, 0 < n < 0x7fff_ffff, forall|x: u32| #[trigger] allowed(q, s, i, x as int) <==> x < n
  ensures col(c, q, s, i)
{
  reveal(col);
  assert(c.contains(0u32));
  assert forall|j: int| 0 <= j < c.len() implies #[trigger] c[j] < n by { assert(c.contains(c[j])); }
  lemma_short(c, n);
}
pub proof fn lemma_coset1(q: int) requires q >= 3 ensures gcd(1, q - 1) == 1 { lemma_gcd(1, q - 1); }
pub open spec fn table_ok(t: FqElementTable) -> bool { t.prime >= 3 && t.prime % 2 == 1 && 3 <= t.prime_power <= 0x3fff_ffff && t.prime_power_pred == t.prime_power - 1 }
// a fresh iterator over a product without repetitions
pub open spec fn enum_start(b: BlockIterator, len: int, package: int) -> bool {
  bi_inv(b) && simple(b) && d_init(b, b.position@) && !b.has_reached_end && 1 <= b.length_ <= len && steps_prod(b, b.update_order_blocks@.len()) <= package
}
// positions and members: every member lies in the box of exactly one position
pub open spec fn in_cell(b: BlockIterator, p: Seq<u32>, v: Seq<u32>) -> bool { v.len() == b.length_ && forall|px: u64| px < b.length_ ==> bi_value(b, p, px) <= #[trigger] v[px as int] < bi_hi(b, p, px) }
pub open spec fn set_ix(c: Seq<u32>, x: u32) -> int { choose|k: int| 0 <= k < c.len() && c[k] == x }
pub open spec fn pos_of(b: BlockIterator, v: Seq<u32>, px: u64) -> int {
  if b.blocks@.dom().contains(px) { v[px as int] - (v[px as int] - b.blocks@[px].0) % (b.blocks@[px].2 as int) }
  else if b.sets@.dom().contains(px) { set_ix(b.sets@[px]@, v[px as int]) }
  else { let d = b.dependent_sets@[px]; set_ix(d.1@[set_ix(b.sets@[d.0]@, v[d.0 as int]) as u32]@, v[px as int]) }
}
pub proof fn lemma_set_ix(c: Seq<u32>, k: int)
  requires c.no_duplicates(), 0 <= k < c.len()
  ensures set_ix(c, c[k]) == k
{ }
pub open spec fn cell_of(b: BlockIterator, v: Seq<u32>) -> Seq<u32> { Seq::new(v.len(), |i: int| pos_of(b, v, i as u64) as u32) }
pub proof fn lemma_cell(b: BlockIterator, v: Seq<u32>)
  requires bi_shape(b), simple(b), member(b, v)
  ensures bi_valid(b, cell_of(b, v)), in_cell(b, cell_of(b, v), v)
{
  let p = cell_of(b, v);
  assert forall|px: u64| px < b.length_ implies #[trigger] d_ok(b, p, px) && bi_value(b, p, px) <= v[px as int] < bi_hi(b, p, px) by {
    assert(coord_in(b, v, px));
    let i = lemma_in_ord(b, px); lemma_ord_kind(b, i);
    if b.blocks@.dom().contains(px) {
      assert(blk_ok(b.blocks@[px]));
      lemma_tile(b.blocks@[px].0 as int, b.blocks@[px].1 as int, b.blocks@[px].2 as int, v[px as int] as int);
    } else if b.sets@.dom().contains(px) {
      let c = b.sets@[px]@;
      let k = choose|k: int| 0 <= k < c.len() && c[k] == v[px as int];
      lemma_set_ix(c, k);
    } else {
      let d = b.dependent_sets@[px]; let c = b.sets@[d.0]@;
      let k = choose|k: int| 0 <= k < c.len() && c[k] == v[d.0 as int] && (#[trigger] d.1@[k as u32])@.contains(v[px as int]);
      lemma_set_ix(c, k);
      let w = d.1@[k as u32]@;
      let j = choose|j: int| 0 <= j < w.len() && w[j] == v[px as int];
      lemma_set_ix(w, j);
      let ic = lemma_coupled(b, i); lemma_dim(b, ic); lemma_ord_kind(b, ic);
      assert(p[d.0 as int] == k);
      assert(dep_ok(b, d)); assert(nonempty_at(d.1, k as u32));
      assert(p[px as int] == j);
    }
  }
  assert forall|px: u64| px < b.length_ implies bi_value(b, p, px) <= #[trigger] v[px as int] < bi_hi(b, p, px) by { assert(d_ok(b, p, px)); }
}
pub proof fn lemma_cell_only(b: BlockIterator, p: Seq<u32>, v: Seq<u32>)
  requires bi_shape(b), simple(b), bi_valid(b, p), in_cell(b, p, v)
  ensures member(b, v), p == cell_of(b, v)
{
  assert forall|px: u64| px < b.length_ implies #[trigger] coord_in(b, v, px) && p[px as int] == pos_of(b, v, px) by {
    assert(d_ok(b, p, px)); assert(bi_value(b, p, px) <= v[px as int] < bi_hi(b, p, px));
    assert(b.blocks@.dom().contains(px) || b.sets@.dom().contains(px) || b.dependent_sets@.dom().contains(px));
    let i = lemma_in_ord(b, px); lemma_ord_kind(b, i);
    if b.blocks@.dom().contains(px) {
      assert(blk_ok(b.blocks@[px]));
      lemma_tile(b.blocks@[px].0 as int, b.blocks@[px].1 as int, b.blocks@[px].2 as int, v[px as int] as int);
    } else if b.sets@.dom().contains(px) {
      lemma_set_ix(b.sets@[px]@, p[px as int] as int);
    } else {
      let d = b.dependent_sets@[px]; let c = b.sets@[d.0]@;
      let ic = lemma_coupled(b, i); lemma_dim(b, ic); lemma_ord_kind(b, ic);
      assert(d_ok(b, p, d.0)); assert(bi_value(b, p, d.0) <= v[d.0 as int] < bi_hi(b, p, d.0));
      let k = p[d.0 as int] as int;
      lemma_set_ix(c, k);
      assert(dep_ok(b, d)); assert(nonempty_at(d.1, k as u32));
      assert(d.1@[k as u32]@.no_duplicates());
      lemma_set_ix(d.1@[k as u32]@, p[px as int] as int);
      assert(d.1@[k as u32]@.contains(v[px as int]));
    }
  }
  assert forall|i: int| 0 <= i < p.len() implies p[i] == cell_of(b, v)[i] by { assert(coord_in(b, v, i as u64)); }
  assert(p =~= cell_of(b, v));
}
pub proof fn lemma_value_small(b: BlockIterator, p: Seq<u32>)
  requires bi_shape(b), simple(b), bi_valid(b, p)
  ensures forall|px: u64| px < b.length_ ==> #[trigger] bi_value(b, p, px) < 0xffff_ffff
{
  assert forall|px: u64| px < b.length_ implies #[trigger] bi_value(b, p, px) < 0xffff_ffff by {
    assert(d_ok(b, p, px));
    assert(b.blocks@.dom().contains(px) || b.sets@.dom().contains(px) || b.dependent_sets@.dom().contains(px));
    let i = lemma_in_ord(b, px); lemma_ord_kind(b, i);
    if b.blocks@.dom().contains(px) { assert(blk_ok(b.blocks@[px])); }
    else if b.sets@.dom().contains(px) { assert(b.sets@[px]@[p[px as int] as int] < 0x3fff_ffff); }
    else { let c = lemma_coupled(b, i); lemma_ord_kind(b, c); let d = b.dependent_sets@[px]; assert(d_ok(b, p, d.0)); let k = p[d.0 as int]; assert(d.1@[k]@[p[px as int] as int] < 0x3fff_ffff); }
  }
}
// stepping through the families one after the other
pub open spec fn ci_next(es: Seq<BlockIterator>, e: int, p: Seq<u32>, f: int, r: Seq<u32>) -> bool {
  0 <= e < es.len() && if carry(es[e], p, 0) < bi_ord(es[e]).len() { f == e && next_of(es[e], p, r) } else { f == e + 1 && (f < es.len() ==> d_init(es[f], r)) }
}
pub open spec fn ci_hop(es: Seq<BlockIterator>, e: int, p: Seq<u32>, x: (int, Seq<u32>)) -> bool { ci_next(es, e, p, x.0, x.1) }
// (f, r) is reached from (e, p) by k steps
pub open spec fn ci_reach(es: Seq<BlockIterator>, e: int, p: Seq<u32>, f: int, r: Seq<u32>, k: nat) -> bool
  decreases k
{ if k == 0 { e == f && p == r } else { exists|x: (int, Seq<u32>)| #[trigger] ci_hop(es, e, p, x) && ci_reach(es, x.0, x.1, f, r, (k - 1) as nat) } }
pub open spec fn starts(es: Seq<BlockIterator>) -> bool { forall|e: int| 0 <= e < es.len() ==> bi_inv(#[trigger] es[e]) && d_init(es[e], es[e].position@) && !es[e].has_reached_end }
pub proof fn lemma_reach_in(es: Seq<BlockIterator>, e: int, p: Seq<u32>, r: Seq<u32>, k: nat)
  requires 0 <= e < es.len(), reach(es[e], p, r, k)
  ensures ci_reach(es, e, p, e, r, k)
  decreases k
{
  if k > 0 {
    let x = choose|x: Seq<u32>| #[trigger] next_of(es[e], p, x) && reach(es[e], x, r, (k - 1) as nat);
    lemma_reach_in(es, e, x, r, (k - 1) as nat);
    assert(ci_hop(es, e, p, (e, x)));
  }
}
pub proof fn lemma_reach_join(es: Seq<BlockIterator>, e: int, p: Seq<u32>, f: int, r: Seq<u32>, k: nat, g: int, t: Seq<u32>, l: nat)
  requires ci_reach(es, e, p, f, r, k), ci_reach(es, f, r, g, t, l)
  ensures ci_reach(es, e, p, g, t, k + l)
  decreases k
{
  if k > 0 {
    let x = choose|x: (int, Seq<u32>)| #[trigger] ci_hop(es, e, p, x) && ci_reach(es, x.0, x.1, f, r, (k - 1) as nat);
    lemma_reach_join(es, x.0, x.1, f, r, (k - 1) as nat, g, t, l);
    assert(((k + l) as nat - 1) as nat == (k - 1) as nat + l);
    assert(ci_hop(es, e, p, x));
  }
}
// a valid position from which the family ends is reached
pub proof fn lemma_to_last(b: BlockIterator, p: Seq<u32>) -> (x: (Seq<u32>, nat))
  requires bi_shape(b), bi_valid(b, p)
  ensures reach(b, p, x.0, x.1), bi_valid(b, x.0), carry(b, x.0, 0) == bi_ord(b).len()
  decreases pow(0x1_0000_0000, bi_ord(b).len()) - meas(b, p, bi_ord(b).len())
{
  lemma_carry(b, p, 0);
  lemma_meas_bound(b, p, bi_ord(b).len());
  if carry(b, p, 0) >= bi_ord(b).len() { assert(reach(b, p, p, 0)); (p, 0) }
  else {
    let r = step_result(b, p);
    lemma_step_exists(b, p);
    lemma_step(b, p, r);
    let i = choose|i: int| lex_at(b, p, r, i);
    lemma_meas_eq(b, p, r, bi_ord(b).len(), i);
    lemma_meas_bound(b, r, bi_ord(b).len());
    let x = lemma_to_last(b, r);
    assert(next_of(b, p, r));
    assert(reach(b, p, x.0, x.1 + 1)) by { assert(((x.1 + 1) as nat - 1) as nat == x.1); }
    (x.0, x.1 + 1)
  }
}
// C08: from the start every position of every family is visited ...
pub proof fn lemma_visits(es: Seq<BlockIterator>, e: int, p: Seq<u32>) -> (k: nat)
  requires starts(es), 0 <= e < es.len(), bi_valid(es[e], p)
  ensures ci_reach(es, 0, es[0].position@, e, p, k)
  decreases e
{
  let b = es[e];
  assert(bi_inv(b));
  lemma_init(b, b.position@);
  assert(!lex(b, p, b.position@));
  lemma_lex_total(b, b.position@, p, bi_ord(b).len() as int);
  let k = lemma_complete(b, b.position@, p);
  lemma_reach_in(es, e, b.position@, p, k);
  if e == 0 { k } else {
    assert(bi_inv(es[e - 1]));
    let x = lemma_to_last(es[e - 1], es[e - 1].position@);
    let m = lemma_visits(es, e - 1, x.0);
    assert(ci_hop(es, e - 1, x.0, (e, b.position@)));
    assert(ci_reach(es, e, b.position@, e, b.position@, 0));
    assert(ci_reach(es, e - 1, x.0, e, b.position@, 1));
    lemma_reach_join(es, 0, es[0].position@, e - 1, x.0, m, e, b.position@, 1);
    lemma_reach_join(es, 0, es[0].position@, e, b.position@, m + 1, e, p, k);
    m + 1 + k
  }
}
// ... and none twice
pub proof fn lemma_no_return(es: Seq<BlockIterator>, e: int, p: Seq<u32>, f: int, r: Seq<u32>, k: nat)
  requires starts(es), 0 <= e < es.len(), bi_valid(es[e], p), ci_reach(es, e, p, f, r, k), k > 0, f < es.len()
  ensures bi_valid(es[f], r), e < f || (e == f && meas(es[e], p, bi_ord(es[e]).len()) < meas(es[e], r, bi_ord(es[e]).len()))
  decreases k
{
  let x = choose|x: (int, Seq<u32>)| #[trigger] ci_hop(es, e, p, x) && ci_reach(es, x.0, x.1, f, r, (k - 1) as nat);
  assert(bi_inv(es[e]));
  lemma_carry(es[e], p, 0);
  if x.0 == e {
    lemma_step(es[e], p, x.1);
    let i = choose|i: int| lex_at(es[e], p, x.1, i);
    lemma_meas_eq(es[e], p, x.1, bi_ord(es[e]).len(), i);
    if k > 1 { lemma_no_return(es, e, x.1, f, r, (k - 1) as nat); }
  } else {
    if e + 1 < es.len() {
      assert(bi_inv(es[e + 1])); lemma_init(es[e + 1], x.1);
      if k > 1 { lemma_no_return(es, e + 1, x.1, f, r, (k - 1) as nat); }
    } else { if k > 1 { let y = choose|y: (int, Seq<u32>)| #[trigger] ci_hop(es, x.0, x.1, y) && ci_reach(es, y.0, y.1, f, r, (k - 2) as nat); assert(false); } }
  }
}
pub open spec fn ci_inv(c: CurveIterator) -> bool {
  let i = c.enumerator_it as int; let es = c.enumerators@;
  &&& i <= es.len()
  &&& forall|e: int| 0 <= e < es.len() ==> bi_inv(#[trigger] es[e]) && simple(es[e]) && es[e].length_ <= 0xffff_ffff
  &&& i < es.len() ==> !es[i].has_reached_end
  &&& forall|e: int| i < e < es.len() ==> d_init(#[trigger] es[e], es[e].position@) && !es[e].has_reached_end
}
pub proof fn lemma_simple_same(a: BlockIterator, b: BlockIterator)
  requires bi_same(a, b)
  ensures simple(a) == simple(b), forall|p: Seq<u32>| #[trigger] d_init(a, p) == d_init(b, p)
{
  if simple(a) { assert(simple(b)); } if simple(b) { assert(simple(a)); }
  assert forall|p: Seq<u32>| #[trigger] d_init(a, p) == d_init(b, p) by { assert(forall|px: u64| d_min(a, px) == d_min(b, px)); }
}
// ---- the multiplicities of the normal forms of one degree add up to (q-1)/2 * q^d
pub open spec fn support(q: int, v: Seq<u32>, n: int) -> Seq<u32>
  decreases n
{ if n <= 0 { Seq::empty() } else if v[n - 1] != q - 1 { support(q, v, n - 1).push((n - 1) as u32) } else { support(q, v, n - 1) } }
pub open spec fn wt(p: int, q: int, v: Seq<u32>) -> int { if normal(p, q, v) { class_size(p, q, support(q, v, v.len() as int)) } else { 0 } }
// the sum over all right hand sides whose highest coefficients are w and that have n more
pub open spec fn tot(p: int, q: int, n: nat, w: Seq<u32>) -> int
  decreases n, 1int, 0int
{ if n == 0 { wt(p, q, w) } else { part(p, q, n, w, q) } }
pub open spec fn part(p: int, q: int, n: nat, w: Seq<u32>, m: int) -> int
  decreases n, 0int, m
{ if n == 0 || m <= 0 { 0 } else { part(p, q, n, w, m - 1) + tot(p, q, (n - 1) as nat, seq![(m - 1) as u32] + w) } }
pub proof fn lemma_part(p: int, q: int, n: nat, w: Seq<u32>, l: int, m: int, c: int)
  requires n > 0, 0 <= l <= m <= 0x3fff_ffff, forall|x: u32| l <= x < m ==> tot(p, q, (n - 1) as nat, #[trigger] (seq![x] + w)) == c
  ensures part(p, q, n, w, m) == part(p, q, n, w, l) + (m - l) * c
  decreases m - l
{
  if l < m {
    lemma_part(p, q, n, w, l, m - 1, c);
    let x = (m - 1) as u32;
    assert(tot(p, q, (n - 1) as nat, seq![x] + w) == c);
    assert((m - l) * c == (m - 1 - l) * c + c) by (nonlinear_arith);
  } else { assert((m - l) * c == 0) by (nonlinear_arith) requires m == l; }
}
pub proof fn lemma_const(p: int, q: int, n: nat, w: Seq<u32>, c: int)
  requires 3 <= q <= 0x3fff_ffff, forall|u: Seq<u32>| u.len() == n && (forall|i: int| 0 <= i < n ==> #[trigger] u[i] < q) ==> wt(p, q, #[trigger] (u + w)) == c
  ensures tot(p, q, n, w) == c * pow(q, n)
  decreases n
{
  reveal(pow);
  if n == 0 { let e = Seq::<u32>::empty(); assert(wt(p, q, e + w) == c); assert(e + w =~= w); }
  else {
    let d = c * pow(q, (n - 1) as nat);
    assert forall|x: u32| 0 <= x < q implies tot(p, q, (n - 1) as nat, #[trigger] (seq![x] + w)) == d by {
      assert forall|u: Seq<u32>| u.len() == n - 1 && (forall|i: int| 0 <= i < n - 1 ==> #[trigger] u[i] < q) implies wt(p, q, #[trigger] (u + (seq![x] + w))) == c by {
        let t = u.push(x);
        assert(wt(p, q, t + w) == c);
        assert(t + w =~= u + (seq![x] + w));
      }
      lemma_const(p, q, (n - 1) as nat, seq![x] + w, c);
    }
    lemma_part(p, q, n, w, 0, q, d);
    assert(q * d == c * (q * pow(q, (n - 1) as nat))) by (nonlinear_arith) requires d == c * pow(q, (n - 1) as nat);
  }
}
pub proof fn lemma_support(q: int, v: Seq<u32>, n: int)
  requires 0 <= n <= v.len() <= 0xffff_ffff
  ensures top(support(q, v, n), 0) == nz(q, v, n), nz(q, v, n) >= 0 ==> support(q, v, n).len() > 0 && support(q, v, n).drop_last() == support(q, v, nz(q, v, n)), nz(q, v, n) < 0 ==> support(q, v, n).len() == 0
  decreases n
{
  if n > 0 {
    lemma_support(q, v, n - 1);
    if v[n - 1] != q - 1 { assert(support(q, v, n).drop_last() =~= support(q, v, n - 1)); }
  }
}
pub open spec fn cls(p: int, q: int, d: int, t1: int, t2: int) -> int {
  cs(q, if d % p != 0 { q } else if t1 == d - 1 { q } else { 1 },
    if p > d { if t2 >= 0 { q - 1 } else { 1 } } else if d % p == 0 && t1 == d - 1 { if t2 == d - 3 { q - 1 } else { 1 } } else { if t1 == d - 2 { q - 1 } else { 1 } },
    if p > d { if t2 >= 0 { gcd(q - 1, t1 - t2) } else { 1 } } else if d % p == 0 && t1 == d - 1 { if t2 == d - 3 { gcd(q - 1, 3) } else { 1 } } else { if t1 == d - 2 { 2 } else { 1 } })
}
pub proof fn lemma_wt(p: int, q: int, v: Seq<u32>)
  requires 4 <= v.len() < 0x7fff_ffff, v[v.len() - 1] != q - 1
  ensures wt(p, q, v) == if normal(p, q, v) { cls(p, q, v.len() - 1, nz(q, v, v.len() - 1), nz(q, v, nz(q, v, v.len() - 1))) } else { 0 }
{
  let d = v.len() - 1; let t1 = nz(q, v, d); let t2 = nz(q, v, t1);
  let s = support(q, v, d + 1); let r = support(q, v, d);
  assert(s == r.push(d as u32));
  lemma_support(q, v, d); lemma_nz(q, v, d);
  assert(top(s, 0) == d);
  assert(top(s, 1) == t1);
  if t1 >= 0 {
    lemma_support(q, v, t1); lemma_nz(q, v, t1);
    let e = support(q, v, t1);
    assert(r.len() == e.len() + 1);
    assert(top(s, 2) == t2) by { if t2 >= 0 { assert(r.drop_last()[e.len() - 1] == e[e.len() - 1]); assert(s[s.len() - 3] == r[r.len() - 2]); } }
    assert((s.len() >= 3) == (t2 >= 0));
  } else { assert(s.len() == 1); }
}
pub proof fn lemma_gcd_comm(a: int, b: int)
  requires a > 0, b > 0
  ensures gcd(a, b) == gcd(b, a)
{
  if a < b { vstd::arithmetic::div_mod::lemma_small_mod(a as nat, b as nat); assert(gcd(a, b) == gcd(b, a % b)); }
  else if b < a { vstd::arithmetic::div_mod::lemma_small_mod(b as nat, a as nat); assert(gcd(b, a) == gcd(a, b % a)); }
}
pub proof fn lemma_share(x: int, q: int, g: int, n: nat)
  requires q >= 3, g >= 1, (q - 1) % g == 0
  ensures g * (x * ((q - 1) / g) * pow(q, n)) == x * (q - 1) * pow(q, n)
{
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q - 1, g);
  let k = (q - 1) / g; let y = pow(q, n);
  assert(g * (x * k * y) == x * (q - 1) * y) by (nonlinear_arith) requires q - 1 == g * k;
}
// characteristic larger than the degree: second term at a, nothing between it and n
pub open spec fn form_b(q: int, d: int, a: int, n: int, w: Seq<u32>) -> bool {
  w.len() == d + 1 - n && 0 <= n <= a <= d - 2 && w[d - n] < q - 1 && w[d - 1 - n] == q - 1 && w[a - n] == 0 && forall|i: int| n <= i < d && i != a ==> #[trigger] w[i - n] == q - 1
}
pub proof fn lemma_b(p: int, q: int, d: int, a: int, n: nat, w: Seq<u32>)
  requires p > d, 3 <= d < 0x7fff_fff0, 3 <= q <= 0x3fff_ffff, q % 2 == 1, form_b(q, d, a, n as int, w)
  ensures tot(p, q, n, w) == ((q - 1) / 2) * q * pow(q, n)
  decreases n
{
  reveal(pow);
  let h = (q - 1) / 2; let c1 = h * q;
  vstd::arithmetic::div_mod::lemma_small_mod(d as nat, p as nat);
  if n == 0 {
    assert(w[d] < q - 1); assert(w[a] == 0);
    assert forall|i: int| 0 <= i < d && i != a implies #[trigger] w[i] == q - 1 by { assert(w[i - 0] == q - 1); }
    lemma_nz(q, w, d); lemma_nz(q, w, a);
    assert(nz(q, w, d) == a); assert(nz(q, w, a) == -1);
    lemma_wt(p, q, w);
    assert(wt(p, q, w) == c1) by { assert(h * q * (1int / 1int) == h * q) by (nonlinear_arith); }
  } else {
    let m = (n - 1) as nat; let c = m as int; let g = gcd(a - c, q - 1);
    lemma_gcd(a - c, q - 1); lemma_gcd_comm(a - c, q - 1);
    let cl = h * q * ((q - 1) / g);
    assert forall|x: u32, u: Seq<u32>| x < q - 1 && u.len() == m && (forall|i: int| 0 <= i < m ==> #[trigger] u[i] < q) implies wt(p, q, #[trigger] (u + (seq![x] + w))) == (if x < g { cl } else { 0 }) by {
      let v = u + (seq![x] + w);
      assert(v.len() == d + 1);
      assert forall|i: int| n <= i <= d implies #[trigger] v[i] == w[i - n] by { }
      assert(v[c] == x); assert(v[d] == w[d - n]); assert(v[a] == w[a - n]); assert(v[d - 1] == w[d - 1 - n]);
      assert forall|i: int| n <= i < d && i != a implies #[trigger] v[i] == q - 1 by { assert(v[i] == w[i - n]); }
      assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] < q by { if i < m { assert(v[i] == u[i]); } else if i == c { } else if i != a && i != d { assert(v[i] == q - 1); } }
      lemma_nz(q, v, d); lemma_nz(q, v, a);
      assert(nz(q, v, d) == a) by { if nz(q, v, d) > a { assert(v[nz(q, v, d)] == q - 1); } }
      assert(nz(q, v, a) == c) by { if nz(q, v, a) > c { assert(v[nz(q, v, a)] == q - 1); } }
      lemma_wt(p, q, v);
    }
    assert forall|x: u32| 0 <= x < g implies tot(p, q, m, #[trigger] (seq![x] + w)) == cl * pow(q, m) by { lemma_const(p, q, m, seq![x] + w, cl); }
    assert forall|x: u32| g <= x < q - 1 implies tot(p, q, m, #[trigger] (seq![x] + w)) == 0 by { lemma_const(p, q, m, seq![x] + w, 0); assert(0 * pow(q, m) == 0); }
    let z = (q - 1) as u32; let wz = seq![z] + w;
    assert(form_b(q, d, a, m as int, wz)) by {
      assert(forall|i: int| n <= i <= d ==> wz[i - m] == #[trigger] w[i - n]);
      assert(wz[d - m] == w[d - n]); assert(wz[a - m] == w[a - n]); assert(wz[d - 1 - m] == w[d - 1 - n]);
      assert forall|i: int| m <= i < d && i != a implies #[trigger] wz[i - m] == q - 1 by { if i > m { assert(wz[i - m] == w[i - n]); } }
    }
    lemma_b(p, q, d, a, m, wz);
    lemma_part(p, q, n, w, 0, g, cl * pow(q, m));
    lemma_part(p, q, n, w, g, q - 1, 0);
    assert(part(p, q, n, w, q) == part(p, q, n, w, q - 1) + tot(p, q, m, wz));
    lemma_share(c1, q, g, m);
    let y = pow(q, m);
    assert(c1 * (q - 1) * y + c1 * y == c1 * (q * y)) by (nonlinear_arith);
    assert((q - 1 - g) * 0 == 0);
  }
}
// ... nothing but the leading term so far
pub open spec fn form_a(q: int, d: int, n: int, w: Seq<u32>) -> bool {
  w.len() == d + 1 - n && 0 <= n <= d - 1 && w[d - n] < q - 1 && forall|i: int| n <= i < d ==> #[trigger] w[i - n] == q - 1
}
pub proof fn lemma_a(p: int, q: int, d: int, n: nat, w: Seq<u32>)
  requires p > d, 3 <= d < 0x7fff_fff0, 3 <= q <= 0x3fff_ffff, q % 2 == 1, form_a(q, d, n as int, w)
  ensures (q - 1) * tot(p, q, n, w) == (if w[d - n] == 0 { (q - 1) * (((q - 1) / 2) * q) } else { 0 }) + ((q - 1) / 2) * q * (pow(q, n) - 1)
  decreases n
{
  reveal(pow);
  let h = (q - 1) / 2; let c1 = h * q;
  vstd::arithmetic::div_mod::lemma_small_mod(d as nat, p as nat);
  if n == 0 {
    assert forall|i: int| 0 <= i < d implies #[trigger] w[i] == q - 1 by { assert(w[i - 0] == q - 1); }
    lemma_nz(q, w, d);
    assert(nz(q, w, d) == -1) by { if nz(q, w, d) >= 0 { assert(w[nz(q, w, d)] == q - 1); } }
    assert(w[d] < q - 1);
    lemma_wt(p, q, w);
    assert(h * q * (1int / 1int) == h * q) by (nonlinear_arith);
    assert(w[d - 0] == w[d]);
    assert(pow(q, 0) == 1);
    assert(c1 * 0 == 0);
    if w[d] == 0 { assert(wt(p, q, w) == c1); } else { assert((q - 1) * 0 == 0); }
  } else {
    let m = (n - 1) as nat; let z = (q - 1) as u32; let w0 = seq![0u32] + w; let wz = seq![z] + w;
    assert(forall|i: int| n <= i <= d ==> wz[i - m] == #[trigger] w[i - n]);
    assert(forall|i: int| n <= i <= d ==> w0[i - m] == #[trigger] w[i - n]);
    assert(wz[d - m] == w[d - n]); assert(w0[d - m] == w[d - n]); assert(w0[d - 1 - m] == w[d - 1 - n]); assert(wz[d - 1 - m] == w[d - 1 - n]);
    assert(form_a(q, d, m as int, wz)) by { assert forall|i: int| m <= i < d implies #[trigger] wz[i - m] == q - 1 by { if i > m { assert(wz[i - m] == w[i - n]); } } }
    assert(form_b(q, d, m as int, m as int, w0)) by { assert forall|i: int| m <= i < d && i != m implies #[trigger] w0[i - m] == q - 1 by { assert(w0[i - m] == w[i - n]); } }
    lemma_a(p, q, d, m, wz); lemma_b(p, q, d, m as int, m, w0);
    assert forall|x: u32| 1 <= x < q - 1 implies tot(p, q, m, #[trigger] (seq![x] + w)) == 0 by {
      assert forall|u: Seq<u32>| u.len() == m && (forall|i: int| 0 <= i < m ==> #[trigger] u[i] < q) implies wt(p, q, #[trigger] (u + (seq![x] + w))) == 0 by {
        let v = u + (seq![x] + w);
        assert forall|i: int| n <= i <= d implies #[trigger] v[i] == w[i - n] by { }
        assert(v[m as int] == x);
        lemma_nz(q, v, d);
        assert(nz(q, v, d) == m) by { if nz(q, v, d) > m { assert(v[nz(q, v, d)] == w[nz(q, v, d) - n]); } }
      }
      lemma_const(p, q, m, seq![x] + w, 0); assert(0 * pow(q, m) == 0);
    }
    assert(part(p, q, n, w, 0) == 0);
    assert(part(p, q, n, w, 1) == part(p, q, n, w, 0) + tot(p, q, m, w0));
    lemma_part(p, q, n, w, 1, q - 1, 0);
    assert((q - 2) * 0 == 0);
    assert(part(p, q, n, w, q) == part(p, q, n, w, q - 1) + tot(p, q, m, wz));
    let y = pow(q, m); let t = tot(p, q, m, wz);
    assert((q - 1) * (c1 * y + t) == (q - 1) * t + c1 * (q * y) - c1 * y) by (nonlinear_arith);
    assert(c1 * (y - 1) + c1 * (q * y) - c1 * y == c1 * (q * y - 1)) by (nonlinear_arith);
  }
}
pub proof fn lemma_two(q: int) requires q >= 3, q % 2 == 1 ensures gcd(2, q - 1) == 2
{ if q > 3 { lemma_gcd_comm(2, q - 1); assert(gcd(q - 1, 2) == gcd(2, (q - 1) % 2)); assert(gcd(2, 0) == 2); } else { assert(gcd(2, 2) == gcd(2, 2int % 2)); assert(gcd(2, 0) == 2); } }
// characteristic not larger than the degree, no term of degree d-1
pub proof fn lemma_low(p: int, q: int, d: int, c0: int)
  requires 3 <= p <= d < 0x7fff_fff0, 3 <= q <= 0x3fff_ffff, q % 2 == 1, c0 == (if d % p == 0 { (q - 1) / 2 } else { ((q - 1) / 2) * q })
  ensures tot(p, q, (d - 1) as nat, seq![(q - 1) as u32, 0u32]) == c0 * pow(q, (d - 1) as nat)
{
  reveal(pow);
  let h = (q - 1) / 2; let n = (d - 1) as nat; let m = (d - 2) as nat; let z = (q - 1) as u32; let w = seq![z, 0u32];
  lemma_two(q);
  assert(h * 1 * (1int / 1int) == h) by (nonlinear_arith); assert(h * q * (1int / 1int) == h * q) by (nonlinear_arith); assert(h * 1 * ((q - 1) / 2) == h * h) by (nonlinear_arith) requires h == (q - 1) / 2;
  assert(h * q * ((q - 1) / 2) == h * q * h);
  assert forall|x: u32, u: Seq<u32>| x < q && u.len() == m && (forall|i: int| 0 <= i < m ==> #[trigger] u[i] < q) implies wt(p, q, #[trigger] (u + (seq![x] + w))) == (if x == q - 1 { c0 } else if x < 2 { c0 * h } else { 0 }) by {
    let v = u + (seq![x] + w);
    assert(v.len() == d + 1 && v[d] == 0 && v[d - 1] == z && v[d - 2] == x);
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] < q by { if i < m { assert(v[i] == u[i]); } }
    lemma_nz(q, v, d);
    assert((nz(q, v, d) == d - 2) == (x != q - 1)); assert(nz(q, v, d) <= d - 2);
    lemma_wt(p, q, v);
  }
  let y = pow(q, m);
  assert forall|x: u32| 0 <= x < 2 implies tot(p, q, m, #[trigger] (seq![x] + w)) == c0 * h * y by { lemma_const(p, q, m, seq![x] + w, c0 * h); }
  assert forall|x: u32| 2 <= x < q - 1 implies tot(p, q, m, #[trigger] (seq![x] + w)) == 0 by { lemma_const(p, q, m, seq![x] + w, 0); assert(0 * y == 0); }
  lemma_const(p, q, m, seq![z] + w, c0);
  lemma_part(p, q, n, w, 0, 2, c0 * h * y);
  lemma_part(p, q, n, w, 2, q - 1, 0);
  assert(part(p, q, n, w, q) == part(p, q, n, w, q - 1) + tot(p, q, m, seq![z] + w));
  assert(2 * (c0 * h * y) + c0 * y == c0 * (q * y)) by (nonlinear_arith) requires q == 2 * h + 1;
  assert((q - 3) * 0 == 0);
}
// characteristic dividing the degree, with a term of degree d-1
pub proof fn lemma_next(p: int, q: int, d: int, y: u32)
  requires 3 <= p <= d < 0x7fff_fff0, d % p == 0, 3 <= q <= 0x3fff_ffff, q % 2 == 1, y < q - 1
  ensures tot(p, q, (d - 1) as nat, seq![y, 0u32]) == ((q - 1) / 2) * pow(q, (d - 1) as nat)
{
  reveal(pow);
  let h = (q - 1) / 2; let n = (d - 1) as nat; let m = (d - 2) as nat; let l = (d - 3) as nat; let z = (q - 1) as u32; let w = seq![y, 0u32];
  let g = gcd(3, q - 1); let c1 = h * q; let cl = h * q * ((q - 1) / g);
  lemma_gcd(3, q - 1); lemma_gcd_comm(3, q - 1);
  assert(h * q * (1int / 1int) == h * q) by (nonlinear_arith);
  assert forall|x: u32| 0 <= x < q - 1 implies tot(p, q, m, #[trigger] (seq![x] + w)) == 0 by {
    assert forall|u: Seq<u32>| u.len() == m && (forall|i: int| 0 <= i < m ==> #[trigger] u[i] < q) implies wt(p, q, #[trigger] (u + (seq![x] + w))) == 0 by {
      let v = u + (seq![x] + w);
      assert(v.len() == d + 1 && v[d] == 0 && v[d - 1] == y && v[d - 2] == x);
    }
    lemma_const(p, q, m, seq![x] + w, 0); assert(0 * pow(q, m) == 0);
  }
  lemma_part(p, q, n, w, 0, q - 1, 0);
  assert((q - 1) * 0 == 0);
  let w2 = seq![z] + w;
  assert forall|x: u32, u: Seq<u32>| x < q && u.len() == l && (forall|i: int| 0 <= i < l ==> #[trigger] u[i] < q) implies wt(p, q, #[trigger] (u + (seq![x] + w2))) == (if x == q - 1 { c1 } else if x < g { cl } else { 0 }) by {
    let v = u + (seq![x] + w2);
    assert(v.len() == d + 1 && v[d] == 0 && v[d - 1] == y && v[d - 2] == z && v[d - 3] == x);
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] < q by { if i < l { assert(v[i] == u[i]); } }
    lemma_nz(q, v, d); lemma_nz(q, v, d - 1);
    assert(nz(q, v, d) == d - 1);
    assert((nz(q, v, d - 1) == d - 3) == (x != q - 1)); assert(nz(q, v, d - 1) <= d - 3);
    lemma_wt(p, q, v);
  }
  let e = pow(q, l);
  assert forall|x: u32| 0 <= x < g implies tot(p, q, l, #[trigger] (seq![x] + w2)) == cl * e by { lemma_const(p, q, l, seq![x] + w2, cl); }
  assert forall|x: u32| g <= x < q - 1 implies tot(p, q, l, #[trigger] (seq![x] + w2)) == 0 by { lemma_const(p, q, l, seq![x] + w2, 0); assert(0 * e == 0); }
  lemma_const(p, q, l, seq![z] + w2, c1);
  lemma_part(p, q, m, w2, 0, g, cl * e);
  lemma_part(p, q, m, w2, g, q - 1, 0);
  assert((q - 1 - g) * 0 == 0);
  assert(part(p, q, m, w2, q) == part(p, q, m, w2, q - 1) + tot(p, q, l, seq![z] + w2));
  assert(part(p, q, n, w, q) == part(p, q, n, w, q - 1) + tot(p, q, m, w2));
  lemma_share(c1, q, g, l);
  assert(pow(q, m) == q * e); assert(pow(q, n) == q * pow(q, m));
  assert(c1 * (q - 1) * e + c1 * e == h * (q * (q * e))) by (nonlinear_arith) requires c1 == h * q;
}
// C08: the multiplicities of the normal forms of degree d, taken twice, add up to (q-1) q^d
pub proof fn lemma_total(p: int, q: int, d: int)
  requires 3 <= p, 3 <= d < 0x7fff_fff0, 3 <= q <= 0x3fff_ffff, q % 2 == 1
  ensures 2 * tot(p, q, (d + 1) as nat, Seq::empty()) == (q - 1) * pow(q, d as nat)
{
  reveal(pow);
  let h = (q - 1) / 2; let n = (d + 1) as nat; let w = Seq::<u32>::empty(); let z = (q - 1) as u32; let m = d as nat; let k = (d - 1) as nat;
  // no leading coefficient
  assert forall|u: Seq<u32>| u.len() == m && (forall|i: int| 0 <= i < m ==> #[trigger] u[i] < q) implies wt(p, q, #[trigger] (u + (seq![z] + w))) == 0 by { let v = u + (seq![z] + w); assert(v[d] == z); }
  lemma_const(p, q, m, seq![z] + w, 0); assert(0 * pow(q, m) == 0);
  assert(part(p, q, n, w, q) == part(p, q, n, w, q - 1) + tot(p, q, m, seq![z] + w));
  assert((q - 1) * 0 == 0); assert((q - 2) * 0 == 0);
  if p > d {
    let c1 = h * q; let y = pow(q, k);
    let a1 = part(p, q, m, seq![1u32] + w, q);
    assert forall|x: u32| 0 <= x < q - 1 implies (q - 1) * tot(p, q, m, #[trigger] (seq![x] + w)) == (if x == 0 { (q - 1) * c1 } else { 0 }) + c1 * (y - 1) by {
      let w1 = seq![x] + w;
      let w2 = seq![z] + w1;
      assert forall|t: u32| 0 <= t < q - 1 implies tot(p, q, k, #[trigger] (seq![t] + w1)) == 0 by {
        assert forall|u: Seq<u32>| u.len() == k && (forall|i: int| 0 <= i < k ==> #[trigger] u[i] < q) implies wt(p, q, #[trigger] (u + (seq![t] + w1))) == 0 by { let v = u + (seq![t] + w1); assert(v.len() == d + 1 && v[d] == x && v[d - 1] == t); }
        lemma_const(p, q, k, seq![t] + w1, 0); assert(0 * pow(q, k) == 0);
      }
      lemma_part(p, q, m, w1, 0, q - 1, 0);
      assert(part(p, q, m, w1, q) == part(p, q, m, w1, q - 1) + tot(p, q, k, w2));
      assert(form_a(q, d, k as int, w2)) by { assert(w2[1] == x && w2[0] == z); assert forall|i: int| k <= i < d implies #[trigger] w2[i - k] == q - 1 by { assert(i == k); } }
      lemma_a(p, q, d, k, w2);
      assert(w2[d - k] == x);
    }
    let t1 = tot(p, q, m, seq![1u32] + w); let t0 = tot(p, q, m, seq![0u32] + w);
    assert((q - 1) * t1 == c1 * (y - 1));
    assert forall|x: u32| 1 <= x < q - 1 implies tot(p, q, m, #[trigger] (seq![x] + w)) == t1 by {
      let t = tot(p, q, m, seq![x] + w);
      assert((q - 1) * t == c1 * (y - 1));
      assert(t == t1) by (nonlinear_arith) requires (q - 1) * t == (q - 1) * t1, q >= 3;
    }
    assert(part(p, q, n, w, 0) == 0);
    assert(part(p, q, n, w, 1) == part(p, q, n, w, 0) + t0);
    lemma_part(p, q, n, w, 1, q - 1, t1);
    assert(t0 == c1 + t1) by (nonlinear_arith) requires (q - 1) * t0 == (q - 1) * c1 + c1 * (y - 1), (q - 1) * t1 == c1 * (y - 1), q >= 3;
    assert(t0 + (q - 2) * t1 == c1 * y) by (nonlinear_arith) requires t0 == c1 + t1, (q - 1) * t1 == c1 * (y - 1);
    assert(2 * (c1 * y) == (q - 1) * (q * y)) by (nonlinear_arith) requires c1 == h * q, q - 1 == 2 * h;
  } else {
    let w1 = seq![0u32] + w;
    assert forall|x: u32| 1 <= x < q - 1 implies tot(p, q, m, #[trigger] (seq![x] + w)) == 0 by {
      assert forall|u: Seq<u32>| u.len() == m && (forall|i: int| 0 <= i < m ==> #[trigger] u[i] < q) implies wt(p, q, #[trigger] (u + (seq![x] + w))) == 0 by { let v = u + (seq![x] + w); assert(v.len() == d + 1 && v[d] == x); }
      lemma_const(p, q, m, seq![x] + w, 0); assert(0 * pow(q, m) == 0);
    }
    assert(part(p, q, n, w, 0) == 0);
    assert(part(p, q, n, w, 1) == part(p, q, n, w, 0) + tot(p, q, m, w1));
    lemma_part(p, q, n, w, 1, q - 1, 0);
    let y = pow(q, k);
    let c0 = if d % p == 0 { h } else { h * q };
    lemma_low(p, q, d, c0);
    assert(seq![z] + w1 =~= seq![z, 0u32]);
    assert(part(p, q, m, w1, q) == part(p, q, m, w1, q - 1) + tot(p, q, k, seq![z] + w1));
    if d % p == 0 {
      assert forall|x: u32| 0 <= x < q - 1 implies tot(p, q, k, #[trigger] (seq![x] + w1)) == h * y by { lemma_next(p, q, d, x); assert(seq![x] + w1 =~= seq![x, 0u32]); }
      lemma_part(p, q, m, w1, 0, q - 1, h * y);
      assert(2 * ((q - 1) * (h * y) + h * y) == (q - 1) * (q * y)) by (nonlinear_arith) requires q - 1 == 2 * h;
    } else {
      assert forall|x: u32| 0 <= x < q - 1 implies tot(p, q, k, #[trigger] (seq![x] + w1)) == 0 by {
        assert forall|u: Seq<u32>| u.len() == k && (forall|i: int| 0 <= i < k ==> #[trigger] u[i] < q) implies wt(p, q, #[trigger] (u + (seq![x] + w1))) == 0 by { let v = u + (seq![x] + w1); assert(v.len() == d + 1 && v[d] == 0 && v[d - 1] == x); }
        lemma_const(p, q, k, seq![x] + w1, 0); assert(0 * pow(q, k) == 0);
      }
      lemma_part(p, q, m, w1, 0, q - 1, 0);
      assert(2 * (h * q * y) == (q - 1) * (q * y)) by (nonlinear_arith) requires q - 1 == 2 * h;
    }
  }
}
@end
@fn ci_ctor = CurveIterator::CurveIterator 4
@requires in: table_ok(table0) && 1 <= genus0 <= 0x3fff_fff0 && package_size0 >= 1
@ensures prime: res.this.prime == table0.prime
@ensures start: res.this.enumerator_it == 0
@ensures covers: covers(res.this.enumerators@, table0.prime as int, table0.prime_power as int, 2 * genus0 + 1, 2 * genus0 + (if with_marked_point0 { 2int } else { 3int }))
@ensures apart: apart(res.this.enumerators@)
@ensures inv: ci_inv(res.this) && starts(res.this.enumerators@)
@ensures each: forall|e: int| 0 <= e < res.this.enumerators@.len() ==> enum_start(#[trigger] res.this.enumerators@[e], 2 * genus0 + 3, package_size0 as int)
@proof begin
  let ghost p = table0.prime as int; let ghost q = table0.prime_power as int; let ghost lo = 2 * genus0 + 1; let ghost hi = lo + (if with_marked_point0 { 1int } else { 2int }); let ghost pk = package_size0 as int;
  let ghost mut ss: Seq<Shp> = Seq::empty();
  proof { lemma_coset1(q); lemma_gcd(3, q - 1); lemma_gcd(2, q - 1); assert(done(ss, p, lo, lo, 0, lo, lo)); assert(upto(1).len() == 1 && upto(1)[0] == 0); }
@end
@loop 1
@inv degree: lo <= degree <= hi && this.prime == table0.prime
@inv families: fams(this.enumerators@, ss, q, pk) && done(ss, p, lo, degree as int, 0, degree as int, degree as int)
@proof loop 1 begin
  let ghost d = degree as int;
  proof {
    if p > d { lemma_done_next(ss, p, lo, d, 0, d, d, d, 0, d - 2, d - 2); }
    else if d % p == 0 { lemma_done_next(ss, p, lo, d, 0, d, d, d, 2, 0, 0); }
    else { lemma_done_next(ss, p, lo, d, 0, d, d, d, 4, 0, 0); }
  }
@end
@loop 2
@inv families: this.prime == table0.prime && fams(this.enumerators@, ss, q, pk) && -1 <= ix <= d - 2 && done(ss, p, lo, d, 0, ix as int, ix as int)
@proof loop 2 begin
  proof { lemma_done_next(ss, p, lo, d, 0, ix as int, ix as int, d, 0, ix as int, ix - 1); }
@end
@loop 3
@inv families: this.prime == table0.prime && fams(this.enumerators@, ss, q, pk) && -2 <= jx <= ix - 1 && done(ss, p, lo, d, 0, ix as int, jx as int)
@proof loop 3 begin
  let ghost s = Shp { d: d, k: 0, ix: ix as int, jx: jx as int };
  proof { if jx >= 0 { lemma_gcd(ix - jx, q - 1); } }
@end
@loop 4
@inv kx: ix <= kx <= d - 1
@inv dom: forall|px: u64| #[trigger] sets@.dom().contains(px) <==> kx < px < d
@inv cols: forall|px: u64| kx < px < d ==> col((#[trigger] sets@[px])@, q, s, px as int)
@proof loop 4 endinc
  proof { lemma_col_one(sets@[(kx + 1) as u64]@, q, s, kx + 1, (q - 1) as u32); }
@end
@proof before loop 5
  proof { lemma_col_one(sets@[ix as u64]@, q, s, ix as int, 0u32); }
@end
@loop 5
@inv kx: jx <= kx <= ix - 1
@inv dom: forall|px: u64| #[trigger] sets@.dom().contains(px) <==> kx < px < d
@inv cols: forall|px: u64| kx < px < d ==> col((#[trigger] sets@[px])@, q, s, px as int)
@inv same: sets@[ix as u64]@ == upto(1)
@proof loop 5 endinc
  proof { lemma_col_one(sets@[(kx + 1) as u64]@, q, s, kx + 1, (q - 1) as u32); }
@end
@proof before loop 6
  let ghost sets6 = sets; let ghost g = gcd(ix - jx, q - 1);
@end
@loop 6
@inv same: sets == sets6 && sx <= 1
@inv products: sx == 1 ==> coset_products@.dom().contains(0) && col(coset_products@[0]@, q, s, jx as int)
@proof loop 6 endinc
  proof {
    let c = coset_products@[0]@;
    assert forall|x: u32| #[trigger] c.contains(x) <==> x < g by { assert(coset_product@.contains(x) <==> c.contains(x)); }
    lemma_col_set(c, q, s, jx as int, g);
  }
@end
@loop 7
@inv same: sets == sets6 && it7 <= g && cosets@ == upto(g)
@inv product: forall|x: u32| #[trigger] coset_product@.contains(x) <==> x < it7
@proof loop 7 endinc
  proof { vstd::arithmetic::div_mod::lemma_small_mod((it7 - 1) as nat, (q - 1) as nat); }
@end
@loop 8
@inv kx: kx <= jx - 1 && kx >= -2 && (jx >= 0 ==> kx >= -1)
@inv dom: forall|px: u64| #[trigger] blocks@.dom().contains(px) <==> px == d || kx < px < jx
@inv cols: forall|px: u64| px == d || kx < px < jx ==> blk(#[trigger] blocks@[px], q, s, px as int)
@proof before bi_ctor5 1
  proof { assert(maps_ok(q, s, blocks@, sets@, dependent_sets@)); lemma_maps_in(p, q, s, blocks@, sets@, dependent_sets@); }
@end
@proof after bi_ctor5 1
  proof { lemma_maps($r.this, p, q, s, blocks@, sets@, dependent_sets@); lemma_fam_push(this.enumerators@, ss, q, pk, $r.this, s); lemma_done_add(ss, p, lo, s); ss = ss.push(s); }
@end
@proof loop 2 end
  proof { lemma_done_next(ss, p, lo, d, 0, ix as int, -2, d, 0, ix - 1, ix - 1); }
@end
@proof after loop 2
  let ghost s = Shp { d: d, k: 1, ix: 0, jx: 0 };
  proof { lemma_done_next(ss, p, lo, d, 0, -1, -1, d, 1, 0, 0); }
@end
@proof before loop 9
  proof { lemma_col_one(sets@[d as u64]@, q, s, d, 0u32); }
@end
@loop 9
@inv kx: -1 <= kx <= d - 1
@inv dom: forall|px: u64| #[trigger] sets@.dom().contains(px) <==> kx < px <= d
@inv cols: forall|px: u64| kx < px <= d ==> col((#[trigger] sets@[px])@, q, s, px as int)
@proof loop 9 endinc
  proof { lemma_col_one(sets@[(kx + 1) as u64]@, q, s, kx + 1, (q - 1) as u32); }
@end
@proof before bi_ctor5 2
  proof { lemma_maps_in(p, q, s, Map::empty(), sets@, Map::empty()); }
@end
@proof after bi_ctor5 2
  proof { lemma_maps($r.this, p, q, s, Map::empty(), sets@, Map::empty()); lemma_fam_push(this.enumerators@, ss, q, pk, $r.this, s); lemma_done_add(ss, p, lo, s); ss = ss.push(s); lemma_done_next(ss, p, lo, d, 1, 0, -1, d + 1, 0, d + 1, d + 1); }
@end
@proof before loop 10
  let ghost s = Shp { d: d, k: 2, ix: 0, jx: 0 };
  proof { lemma_col_one(sets@[d as u64]@, q, s, d, 0u32); lemma_col_one(sets@[(d - 2) as u64]@, q, s, d - 2, (q - 1) as u32); lemma_col_zero(sets@[(d - 3) as u64]@, q, s, d - 3, gcd(3, q - 1)); }
@end
@loop 10
@inv kx: -1 <= kx <= d - 4
@inv dom: forall|px: u64| #[trigger] blocks@.dom().contains(px) <==> px == d - 1 || kx < px <= d - 4
@inv cols: forall|px: u64| px == d - 1 || kx < px <= d - 4 ==> blk(#[trigger] blocks@[px], q, s, px as int)
@proof before bi_ctor5 3
  proof { lemma_maps_in(p, q, s, blocks@, sets@, Map::empty()); }
@end
@proof after bi_ctor5 3
  proof { lemma_maps($r.this, p, q, s, blocks@, sets@, Map::empty()); lemma_fam_push(this.enumerators@, ss, q, pk, $r.this, s); lemma_done_add(ss, p, lo, s); ss = ss.push(s); lemma_done_next(ss, p, lo, d, 2, 0, -1, d, 3, 0, 0); }
@end
@proof before loop 11
  let ghost s = Shp { d: d, k: 3, ix: 0, jx: 0 };
  proof { lemma_col_one(sets@[d as u64]@, q, s, d, 0u32); lemma_col_one(sets@[(d - 1) as u64]@, q, s, d - 1, (q - 1) as u32); lemma_col_zero(sets@[(d - 2) as u64]@, q, s, d - 2, gcd(2, q - 1)); }
@end
@loop 11
@inv kx: -1 <= kx <= d - 3
@inv dom: forall|px: u64| #[trigger] blocks@.dom().contains(px) <==> kx < px <= d - 3
@inv cols: forall|px: u64| kx < px <= d - 3 ==> blk(#[trigger] blocks@[px], q, s, px as int)
@proof before bi_ctor5 4
  proof { lemma_maps_in(p, q, s, blocks@, sets@, Map::empty()); }
@end
@proof after bi_ctor5 4
  proof { lemma_maps($r.this, p, q, s, blocks@, sets@, Map::empty()); lemma_fam_push(this.enumerators@, ss, q, pk, $r.this, s); lemma_done_add(ss, p, lo, s); ss = ss.push(s); lemma_done_next(ss, p, lo, d, 3, 0, -1, d + 1, 0, d + 1, d + 1); }
@end
@proof before loop 12
  let ghost s = Shp { d: d, k: 4, ix: 0, jx: 0 };
  proof { lemma_col_one(sets@[d as u64]@, q, s, d, 0u32); lemma_col_one(sets@[(d - 1) as u64]@, q, s, d - 1, (q - 1) as u32); lemma_col_zero(sets@[(d - 2) as u64]@, q, s, d - 2, gcd(2, q - 1)); }
@end
@loop 12
@inv kx: -1 <= kx <= d - 3
@inv dom: forall|px: u64| #[trigger] blocks@.dom().contains(px) <==> kx < px <= d - 3
@inv cols: forall|px: u64| kx < px <= d - 3 ==> blk(#[trigger] blocks@[px], q, s, px as int)
@proof before bi_ctor5 5
  proof { lemma_maps_in(p, q, s, blocks@, sets@, Map::empty()); }
@end
@proof after bi_ctor5 5
  proof { lemma_maps($r.this, p, q, s, blocks@, sets@, Map::empty()); lemma_fam_push(this.enumerators@, ss, q, pk, $r.this, s); lemma_done_add(ss, p, lo, s); ss = ss.push(s); lemma_done_next(ss, p, lo, d, 4, 0, -1, d + 1, 0, d + 1, d + 1); }
@end
@proof return
  proof {
    lemma_fams(this.enumerators@, ss, p, q, pk, lo, hi);
    assert forall|e: int| 0 <= e < this.enumerators@.len() implies enum_start(#[trigger] this.enumerators@[e], 2 * genus0 + 3, package_size0 as int) by { assert(enum_ok(this.enumerators@[e], q, ss[e], pk)); assert(ss.contains(ss[e])); }
  }
@end
@fn ci_step = CurveIterator::step 0
@requires inv: ci_inv(this0)
@ensures inv: ci_inv(res.this) && res.this.prime == this0.prime && res.this.enumerators@.len() == this0.enumerators@.len()
@ensures stays: this0.enumerator_it == this0.enumerators@.len() ==> res.this == this0
@ensures frame: forall|e: int| 0 <= e < this0.enumerators@.len() ==> bi_same(#[trigger] this0.enumerators@[e], res.this.enumerators@[e]) && (e != this0.enumerator_it ==> res.this.enumerators@[e] == this0.enumerators@[e])
@ensures next: this0.enumerator_it < this0.enumerators@.len() ==> ci_next(this0.enumerators@, this0.enumerator_it as int, this0.enumerators@[this0.enumerator_it as int].position@, res.this.enumerator_it as int, if res.this.enumerator_it < this0.enumerators@.len() { res.this.enumerators@[res.this.enumerator_it as int].position@ } else { Seq::empty() })
@proof begin
  proof { if (this0.enumerator_it as int) < this0.enumerators@.len() { let b = this0.enumerators@[this0.enumerator_it as int]; assert(bi_inv(b)); assert(!b.has_reached_end); lemma_carry(b, b.position@, 0); } }
@end
@proof after bi_step
  proof { let b = this0.enumerators@[this0.enumerator_it as int]; lemma_simple_same(b, $r.this); }
@end
@fn ci_is_end = CurveIterator::is_end 0
@ensures end: res.ret == (this0.enumerator_it == this0.enumerators@.len()) && this0.enumerators@.len() < 0x4000_0000_0000_0000
@fn ci_as_position = CurveIterator::as_position 0
@requires inv: ci_inv(this0) && this0.enumerator_it < this0.enumerators@.len()
@ensures frame: res.this == this0
@ensures value: ({ let b = this0.enumerators@[this0.enumerator_it as int]; res.ret@.len() == b.length_ && forall|px: u64| px < b.length_ ==> #[trigger] res.ret@[px as int] == bi_value(b, b.position@, px) })
@proof begin
  proof { assert(bi_inv(this0.enumerators@[this0.enumerator_it as int])); }
@end
@fn ci_as_block = CurveIterator::as_block 0
@requires inv: ci_inv(this0) && this0.enumerator_it < this0.enumerators@.len()
@ensures frame: res.this == this0
@ensures box: ({ let b = this0.enumerators@[this0.enumerator_it as int]; res.ret@.len() == b.length_ && forall|px: u64| px < b.length_ ==> (#[trigger] res.ret@[px as int]).0 == bi_value(b, b.position@, px) && res.ret@[px as int].1 == bi_hi(b, b.position@, px) })
@proof begin
  proof { let b = this0.enumerators@[this0.enumerator_it as int]; assert(bi_inv(b)); lemma_value_small(b, b.position@); }
@end
@fn ci_as_block_enumerator = CurveIterator::as_block_enumerator 0
@requires inv: ci_inv(this0) && this0.enumerator_it < this0.enumerators@.len()
@ensures frame: res.this == this0
@ensures inv: res.ret.length_ == this0.enumerators@[this0.enumerator_it as int].length_ && (bi_inv(res.ret) && d_init(res.ret, res.ret.position@) && !res.ret.has_reached_end) || this0.enumerators@[this0.enumerator_it as int].length_ == 0
@ensures ranges: ({ let b = this0.enumerators@[this0.enumerator_it as int]; forall|px: u64| b.blocks@.dom().contains(px) && bi_hi(b, b.position@, px) - b.position@[px as int] > 1 ==> #[trigger] res.ret.blocks@.dom().contains(px) && res.ret.blocks@[px].0 == b.position@[px as int] && res.ret.blocks@[px].1 == bi_hi(b, b.position@, px) && res.ret.blocks@[px].2 == 1 })
@ensures single: ({ let b = this0.enumerators@[this0.enumerator_it as int]; forall|px: u64| (b.blocks@.dom().contains(px) && bi_hi(b, b.position@, px) - b.position@[px as int] == 1) || b.sets@.dom().contains(px) || b.dependent_sets@.dom().contains(px) ==> #[trigger] res.ret.sets@.dom().contains(px) && res.ret.sets@[px]@ == seq![bi_value(b, b.position@, px)] })
@ensures nomore: ({ let b = this0.enumerators@[this0.enumerator_it as int]; res.ret.dependent_sets@.dom() =~= Set::<u64>::empty() && (forall|px: u64| #[trigger] res.ret.blocks@.dom().contains(px) ==> b.blocks@.dom().contains(px)) && forall|px: u64| #[trigger] res.ret.sets@.dom().contains(px) ==> b.blocks@.dom().contains(px) || b.sets@.dom().contains(px) || b.dependent_sets@.dom().contains(px) })
@proof begin
  proof { let b = this0.enumerators@[this0.enumerator_it as int]; assert(bi_inv(b)); assert(simple(b)); assert(bi_shape(b)); }
@end

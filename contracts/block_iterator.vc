# BlockIterator: enumeration of products of ranges, sets and dependent sets (C06, C07)
@tu src/block_iterator.cc
@prelude
pub open spec fn bi_ord(b: BlockIterator) -> Seq<u64> {
  b.update_order_dependend_sets@ + b.update_order_sets@ + b.update_order_blocks@
}
pub open spec fn bi_same(a: BlockIterator, b: BlockIterator) -> bool {
  a.length_ == b.length_ && a.update_order_blocks@ == b.update_order_blocks@ && a.update_order_sets@ == b.update_order_sets@
  && a.update_order_dependend_sets@ == b.update_order_dependend_sets@ && a.blocks@ == b.blocks@ && a.sets@ == b.sets@ && a.dependent_sets@ == b.dependent_sets@
}
pub open spec fn blk_ok(t: (u32, u32, u32)) -> bool { t.0 < t.1 && t.2 >= 1 && t.1 + t.2 <= 0x1_0000_0000 }
// the coupling of a dependent set: every value the coupled index can take selects a non-empty set
pub open spec fn nonempty_at(d: CMap<u32, CVec<u32>>, k: u32) -> bool { d@.dom().contains(k) && 0 < d@[k]@.len() < 0xffff_ffff }
pub open spec fn dep_ok(b: BlockIterator, d: (u64, CMap<u32, CVec<u32>>)) -> bool {
  if b.sets@.dom().contains(d.0) { forall|k: u32| k < b.sets@[d.0]@.len() ==> #[trigger] nonempty_at(d.1, k) }
  else { b.blocks@.dom().contains(d.0) && forall|k: u32| b.blocks@[d.0].0 <= k < b.blocks@[d.0].1 ==> #[trigger] nonempty_at(d.1, k) }
}
pub open spec fn bi_shape(b: BlockIterator) -> bool {
  &&& bi_ord(b).no_duplicates()
  &&& forall|i: int| 0 <= i < bi_ord(b).len() ==> #[trigger] bi_ord(b)[i] < b.length_
  &&& forall|px: u64| #[trigger] b.blocks@.dom().contains(px) <==> b.update_order_blocks@.contains(px)
  &&& forall|px: u64| #[trigger] b.sets@.dom().contains(px) <==> b.update_order_sets@.contains(px)
  &&& forall|px: u64| #[trigger] b.dependent_sets@.dom().contains(px) <==> b.update_order_dependend_sets@.contains(px)
  &&& forall|px: u64| b.blocks@.dom().contains(px) ==> blk_ok(#[trigger] b.blocks@[px])
  &&& forall|px: u64| b.sets@.dom().contains(px) ==> 0 < (#[trigger] b.sets@[px])@.len() < 0xffff_ffff
  &&& forall|px: u64| b.dependent_sets@.dom().contains(px) ==> dep_ok(b, #[trigger] b.dependent_sets@[px])
}
// where a coordinate may stand
pub open spec fn d_lim(b: BlockIterator, p: Seq<u32>, px: u64) -> int {
  if b.blocks@.dom().contains(px) { b.blocks@[px].1 as int }
  else if b.sets@.dom().contains(px) { b.sets@[px]@.len() as int }
  else if b.dependent_sets@.dom().contains(px) { b.dependent_sets@[px].1@[p[b.dependent_sets@[px].0 as int]]@.len() as int }
  else { 1 }
}
pub open spec fn d_min(b: BlockIterator, px: u64) -> int { if b.blocks@.dom().contains(px) { b.blocks@[px].0 as int } else { 0 } }
pub open spec fn d_step(b: BlockIterator, px: u64) -> int { if b.blocks@.dom().contains(px) { b.blocks@[px].2 as int } else { 1 } }
pub open spec fn d_ok(b: BlockIterator, p: Seq<u32>, px: u64) -> bool {
  d_min(b, px) <= p[px as int] < d_lim(b, p, px) && (p[px as int] - d_min(b, px)) % d_step(b, px) == 0
}
pub open spec fn bi_valid(b: BlockIterator, p: Seq<u32>) -> bool {
  p.len() == b.length_ && forall|px: u64| px < b.length_ ==> #[trigger] d_ok(b, p, px)
}
pub open spec fn bi_inv(b: BlockIterator) -> bool { bi_shape(b) && bi_valid(b, b.position@) && (!b.has_reached_end ==> bi_ord(b).len() > 0) }
pub open spec fn d_max(b: BlockIterator, p: Seq<u32>, px: u64) -> bool { p[px as int] + d_step(b, px) >= d_lim(b, p, px) }
// the first digit, counted from n, that can still be increased
pub open spec fn carry(b: BlockIterator, p: Seq<u32>, n: int) -> int
  decreases bi_ord(b).len() - n
{
  if n >= bi_ord(b).len() { bi_ord(b).len() as int }
  else if d_max(b, p, bi_ord(b)[n]) { carry(b, p, n + 1) }
  else { n }
}
// q is p after stepping the digits from n on
pub open spec fn stepped(b: BlockIterator, p: Seq<u32>, q: Seq<u32>, n: int) -> bool {
  let o = bi_ord(b); let m = carry(b, p, n);
  &&& q.len() == p.len()
  &&& forall|j: int| #![trigger o[j]] n <= j < m ==> q[o[j] as int] == d_min(b, o[j])
  &&& m < o.len() ==> q[o[m] as int] == p[o[m] as int] + d_step(b, o[m])
  &&& forall|px: int| #![trigger q[px]] 0 <= px < p.len() && (forall|j: int| n <= j <= m && j < o.len() ==> o[j] != px) ==> q[px] == p[px]
}
pub open spec fn d_init(b: BlockIterator, p: Seq<u32>) -> bool {
  p.len() == b.length_ && forall|px: u64| px < b.length_ ==> #[trigger] p[px as int] == d_min(b, px)
}
// the order of the enumeration
pub open spec fn lex_at(b: BlockIterator, p: Seq<u32>, q: Seq<u32>, i: int) -> bool {
  let o = bi_ord(b);
  0 <= i < o.len() && p[o[i] as int] < q[o[i] as int] && forall|j: int| #![trigger o[j]] i < j < o.len() ==> p[o[j] as int] == q[o[j] as int]
}
pub open spec fn lex(b: BlockIterator, p: Seq<u32>, q: Seq<u32>) -> bool { exists|i: int| lex_at(b, p, q, i) }

pub proof fn lemma_ord_kind(b: BlockIterator, i: int)
  requires bi_shape(b), 0 <= i < bi_ord(b).len()
  ensures ({ let nd = b.update_order_dependend_sets@.len() as int; let ns = b.update_order_sets@.len() as int; let px = bi_ord(b)[i];
    &&& i < nd ==> px == b.update_order_dependend_sets@[i]
    &&& nd <= i < nd + ns ==> px == b.update_order_sets@[i - nd]
    &&& i >= nd + ns ==> px == b.update_order_blocks@[i - nd - ns]
    &&& b.dependent_sets@.dom().contains(px) == (i < nd)
    &&& b.sets@.dom().contains(px) == (nd <= i < nd + ns)
    &&& b.blocks@.dom().contains(px) == (nd + ns <= i) })
{
  let o = bi_ord(b); let px = o[i];
  let nd = b.update_order_dependend_sets@.len() as int; let ns = b.update_order_sets@.len() as int;
  if i < nd { assert(b.update_order_dependend_sets@[i] == px); }
  else if i < nd + ns { assert(b.update_order_sets@[i - nd] == px); }
  else { assert(b.update_order_blocks@[i - nd - ns] == px); }
  if b.update_order_dependend_sets@.contains(px) { let k = choose|k: int| 0 <= k < nd && b.update_order_dependend_sets@[k] == px; assert(o[k] == px); }
  if b.update_order_sets@.contains(px) { let k = choose|k: int| 0 <= k < ns && b.update_order_sets@[k] == px; assert(o[nd + k] == px); }
  if b.update_order_blocks@.contains(px) { let k = choose|k: int| 0 <= k < b.update_order_blocks@.len() && b.update_order_blocks@[k] == px; assert(o[nd + ns + k] == px); }
}
// every coordinate with a range or a set occurs in the order
pub proof fn lemma_in_ord(b: BlockIterator, px: u64) -> (i: int)
  requires bi_shape(b), b.blocks@.dom().contains(px) || b.sets@.dom().contains(px) || b.dependent_sets@.dom().contains(px)
  ensures 0 <= i < bi_ord(b).len(), bi_ord(b)[i] == px
{
  let nd = b.update_order_dependend_sets@.len() as int; let ns = b.update_order_sets@.len() as int;
  if b.dependent_sets@.dom().contains(px) {
    let k = choose|k: int| 0 <= k < nd && b.update_order_dependend_sets@[k] == px; assert(bi_ord(b)[k] == px); k
  } else if b.sets@.dom().contains(px) {
    let k = choose|k: int| 0 <= k < ns && b.update_order_sets@[k] == px; assert(bi_ord(b)[nd + k] == px); nd + k
  } else {
    let k = choose|k: int| 0 <= k < b.update_order_blocks@.len() && b.update_order_blocks@[k] == px; assert(bi_ord(b)[nd + ns + k] == px); nd + ns + k
  }
}
// the coupled coordinate of a dependent set comes later in the order
pub proof fn lemma_coupled(b: BlockIterator, i: int) -> (c: int)
  requires bi_shape(b), 0 <= i < bi_ord(b).len(), b.dependent_sets@.dom().contains(bi_ord(b)[i])
  ensures i < c < bi_ord(b).len(), bi_ord(b)[c] == b.dependent_sets@[bi_ord(b)[i]].0,
    b.dependent_sets@[bi_ord(b)[i]].0 < b.length_, !b.dependent_sets@.dom().contains(b.dependent_sets@[bi_ord(b)[i]].0)
{
  let jx = b.dependent_sets@[bi_ord(b)[i]].0;
  assert(dep_ok(b, b.dependent_sets@[bi_ord(b)[i]]));
  lemma_ord_kind(b, i);
  let c = lemma_in_ord(b, jx);
  lemma_ord_kind(b, c);
  c
}
// limits only depend on later digits
pub proof fn lemma_lim(b: BlockIterator, p: Seq<u32>, q: Seq<u32>, i: int)
  requires bi_shape(b), p.len() == b.length_, q.len() == b.length_, 0 <= i < bi_ord(b).len(),
    forall|j: int| #![trigger bi_ord(b)[j]] i < j < bi_ord(b).len() ==> p[bi_ord(b)[j] as int] == q[bi_ord(b)[j] as int]
  ensures d_lim(b, p, bi_ord(b)[i]) == d_lim(b, q, bi_ord(b)[i])
{
  if b.dependent_sets@.dom().contains(bi_ord(b)[i]) { let c = lemma_coupled(b, i); }
}
pub proof fn lemma_carry_indep(b: BlockIterator, p: Seq<u32>, q: Seq<u32>, n: int)
  requires bi_shape(b), p.len() == b.length_, q.len() == b.length_, 0 <= n,
    forall|j: int| #![trigger bi_ord(b)[j]] n <= j < bi_ord(b).len() ==> p[bi_ord(b)[j] as int] == q[bi_ord(b)[j] as int]
  ensures carry(b, p, n) == carry(b, q, n)
  decreases bi_ord(b).len() - n
{
  if n < bi_ord(b).len() { lemma_lim(b, p, q, n); lemma_carry_indep(b, p, q, n + 1); }
}
pub proof fn lemma_carry(b: BlockIterator, p: Seq<u32>, n: int)
  requires 0 <= n
  ensures n <= carry(b, p, n) || n > bi_ord(b).len(), carry(b, p, n) <= bi_ord(b).len(),
    forall|j: int| n <= j < carry(b, p, n) ==> d_max(b, p, #[trigger] bi_ord(b)[j]),
    carry(b, p, n) < bi_ord(b).len() ==> !d_max(b, p, bi_ord(b)[carry(b, p, n)])
  decreases bi_ord(b).len() - n
{
  if n < bi_ord(b).len() && d_max(b, p, bi_ord(b)[n]) { lemma_carry(b, p, n + 1); }
}
pub proof fn lemma_dim(b: BlockIterator, i: int)
  requires bi_shape(b), 0 <= i < bi_ord(b).len()
  ensures bi_ord(b)[i] < b.length_, d_step(b, bi_ord(b)[i]) >= 1
{ let px = bi_ord(b)[i]; if b.blocks@.dom().contains(px) { assert(blk_ok(b.blocks@[px])); } }
// the initial position is valid, and nothing valid is smaller
pub proof fn lemma_init(b: BlockIterator, p: Seq<u32>)
  requires bi_shape(b), d_init(b, p)
  ensures bi_valid(b, p), forall|q: Seq<u32>| bi_valid(b, q) ==> !#[trigger] lex(b, q, p)
{
  assert forall|px: u64| px < b.length_ implies #[trigger] d_ok(b, p, px) by {
    assert(p[px as int] == d_min(b, px));
    if b.blocks@.dom().contains(px) { assert(blk_ok(b.blocks@[px])); assert(0int % (b.blocks@[px].2 as int) == 0) by (nonlinear_arith) requires b.blocks@[px].2 >= 1; }
    else if b.sets@.dom().contains(px) { assert(b.sets@[px]@.len() > 0); }
    else if b.dependent_sets@.dom().contains(px) {
      let i = lemma_in_ord(b, px);
      let c = lemma_coupled(b, i);
      let jx = b.dependent_sets@[px].0;
      assert(p[jx as int] == d_min(b, jx));
      assert(dep_ok(b, b.dependent_sets@[px]));
      if b.blocks@.dom().contains(jx) { assert(blk_ok(b.blocks@[jx])); }
      if b.sets@.dom().contains(jx) { assert(b.sets@[jx]@.len() > 0); lemma_ord_kind(b, c); }
      assert(nonempty_at(b.dependent_sets@[px].1, p[jx as int]));
    }
  }
  assert forall|q: Seq<u32>| bi_valid(b, q) implies !#[trigger] lex(b, q, p) by {
    if lex(b, q, p) {
      let i = choose|i: int| lex_at(b, q, p, i);
      lemma_dim(b, i);
      assert(d_ok(b, q, bi_ord(b)[i]));
      assert(p[bi_ord(b)[i] as int] == d_min(b, bi_ord(b)[i]));
    }
  }
}
// one step from a valid position: the result is valid and is the immediate successor, or the position was the last one
pub proof fn lemma_step(b: BlockIterator, p: Seq<u32>, q: Seq<u32>)
  requires bi_shape(b), bi_valid(b, p), stepped(b, p, q, 0)
  ensures
    carry(b, p, 0) < bi_ord(b).len() ==> bi_valid(b, q) && lex(b, p, q) && forall|r: Seq<u32>| bi_valid(b, r) && lex(b, p, r) ==> !#[trigger] lex(b, r, q),
    carry(b, p, 0) == bi_ord(b).len() ==> d_init(b, q) && forall|r: Seq<u32>| bi_valid(b, r) ==> !#[trigger] lex(b, p, r),
{
  let o = bi_ord(b); let m = carry(b, p, 0);
  lemma_carry(b, p, 0);
  assert forall|j: int| m < j < o.len() implies q[#[trigger] o[j] as int] == p[o[j] as int] by {
    lemma_dim(b, j);
    assert(forall|k: int| 0 <= k <= m && k < o.len() ==> o[k] != o[j]);
  }
  assert(forall|j: int| 0 <= j < o.len() ==> (#[trigger] o[j]) < p.len());
  // digits of p below m stand at their maximum, so whatever is greater than p differs at m or later
  assert forall|r: Seq<u32>, i: int| bi_valid(b, r) && #[trigger] lex_at(b, p, r, i) implies i >= m by {
    if i < m {
      lemma_dim(b, i);
      lemma_lim(b, p, r, i);
      assert(d_ok(b, r, o[i])); assert(d_ok(b, p, o[i]));
      assert(d_max(b, p, o[i]));
      lemma_grid(p[o[i] as int] - d_min(b, o[i]), r[o[i] as int] - d_min(b, o[i]), d_step(b, o[i]));
    }
  }
  if m < o.len() {
    lemma_dim(b, m);
    assert(d_ok(b, p, o[m]));
    assert(lex_at(b, p, q, m));
    assert forall|px: u64| px < b.length_ implies #[trigger] d_ok(b, q, px) by {
      assert(d_ok(b, p, px));
      if exists|j: int| 0 <= j < o.len() && o[j] == px {
        let j = choose|j: int| 0 <= j < o.len() && o[j] == px;
        lemma_dim(b, j);
        lemma_ord_kind(b, j);
        if j < m {
          if b.blocks@.dom().contains(px) { assert(blk_ok(b.blocks@[px])); }
          if b.dependent_sets@.dom().contains(px) { let c = lemma_coupled(b, j); lemma_ord_kind(b, c); let jx = b.dependent_sets@[px].0; assert(dep_ok(b, b.dependent_sets@[px]));
            assert(d_min(b, jx) <= q[jx as int] < d_lim(b, q, jx)) by {
              lemma_ord_kind(b, c);
              assert(d_ok(b, p, jx));
              if c < m { if b.blocks@.dom().contains(jx) { assert(blk_ok(b.blocks@[jx])); } }
              else if c == m { assert(!d_max(b, p, o[m])); }
            }
            assert(nonempty_at(b.dependent_sets@[px].1, q[jx as int])); }
          assert(0int % d_step(b, px) == 0) by (nonlinear_arith) requires d_step(b, px) >= 1;
        } else if j == m {
          lemma_lim(b, p, q, m);
          lemma_grid_step(p[px as int] - d_min(b, px), d_step(b, px));
        } else {
          lemma_lim(b, p, q, j);
        }
      } else {
        assert(q[px as int] == p[px as int]);
        if b.blocks@.dom().contains(px) || b.sets@.dom().contains(px) || b.dependent_sets@.dom().contains(px) { let j = lemma_in_ord(b, px); assert(false); }
      }
    }
    assert forall|r: Seq<u32>| bi_valid(b, r) && lex(b, p, r) implies !#[trigger] lex(b, r, q) by {
      if lex(b, r, q) {
        let i = choose|i: int| lex_at(b, p, r, i);
        let k = choose|k: int| lex_at(b, r, q, k);
        assert(i >= m);
        lemma_dim(b, k);
        assert(d_ok(b, r, o[k]));
        if k < m { assert(q[o[k] as int] == d_min(b, o[k])); assert(false); }
        if i > m {
          assert(q[o[i] as int] == p[o[i] as int]);
          if k == i { assert(false); } else if k < i { assert(r[o[i] as int] == q[o[i] as int]); assert(false); }
          else { assert(q[o[k] as int] == p[o[k] as int]); assert(false); }
        } else {
          assert(d_ok(b, r, o[m]));
          lemma_grid(p[o[m] as int] - d_min(b, o[m]), r[o[m] as int] - d_min(b, o[m]), d_step(b, o[m]));
          if k == m { assert(false); } else { assert(q[o[k] as int] == p[o[k] as int]); assert(false); }
        }
      }
    }
  } else {
    assert forall|px: u64| px < b.length_ implies #[trigger] q[px as int] == d_min(b, px) by {
      assert(d_ok(b, p, px));
      if exists|j: int| 0 <= j < o.len() && o[j] == px {
        let j = choose|j: int| 0 <= j < o.len() && o[j] == px;
        assert(q[o[j] as int] == d_min(b, o[j]));
      } else {
        assert(q[px as int] == p[px as int]);
        if b.blocks@.dom().contains(px) || b.sets@.dom().contains(px) || b.dependent_sets@.dom().contains(px) { let j = lemma_in_ord(b, px); assert(false); }
        assert(d_step(b, px) == 1);
      }
    }
    assert forall|r: Seq<u32>| bi_valid(b, r) implies !#[trigger] lex(b, p, r) by {
      if lex(b, p, r) { let i = choose|i: int| lex_at(b, p, r, i); }
    }
  }
}
// two points of a grid of width s that differ, differ by at least s
pub proof fn lemma_grid(x: int, y: int, s: int)
  requires s >= 1, x % s == 0, y % s == 0, x < y
  ensures x + s <= y
{
  lemma_fundamental_div_mod(x, s); lemma_fundamental_div_mod(y, s);
  assert(y / s > x / s) by (nonlinear_arith) requires s >= 1, x == s * (x / s), y == s * (y / s), x < y;
  assert(s * (y / s) >= s * (x / s) + s) by (nonlinear_arith) requires s >= 1, y / s >= x / s + 1;
}
pub proof fn lemma_grid_step(x: int, s: int)
  requires s >= 1, x % s == 0
  ensures (x + s) % s == 0
{ lemma_mod_add_multiples_vanish(x, s); }

// the enumeration as a whole: from a valid position every valid position that is not smaller is reached
pub open spec fn meas(b: BlockIterator, p: Seq<u32>, n: nat) -> int
  decreases n
{ if n == 0 { 0 } else { meas(b, p, (n - 1) as nat) + p[bi_ord(b)[n - 1] as int] * pow(0x1_0000_0000, (n - 1) as nat) } }
pub proof fn lemma_meas_bound(b: BlockIterator, p: Seq<u32>, n: nat)
  requires n <= bi_ord(b).len(), bi_shape(b), p.len() == b.length_
  ensures 0 <= meas(b, p, n) < pow(0x1_0000_0000, n)
  decreases n
{
  reveal(pow);
  if n > 0 {
    lemma_meas_bound(b, p, (n - 1) as nat);
    let w = pow(0x1_0000_0000, (n - 1) as nat); let d = p[bi_ord(b)[n - 1] as int] as int;
    assert(0 <= d * w && d * w + w <= 0x1_0000_0000 * w) by (nonlinear_arith) requires 0 <= d < 0x1_0000_0000, w > 0;
  }
}
pub proof fn lemma_meas_eq(b: BlockIterator, p: Seq<u32>, q: Seq<u32>, n: nat, i: int)
  requires bi_shape(b), p.len() == b.length_, q.len() == b.length_, lex_at(b, p, q, i), i < n <= bi_ord(b).len()
  ensures meas(b, p, n) < meas(b, q, n)
  decreases n
{
  reveal(pow);
  let w = pow(0x1_0000_0000, (n - 1) as nat);
  let x = p[bi_ord(b)[n - 1] as int] as int; let y = q[bi_ord(b)[n - 1] as int] as int;
  lemma_meas_bound(b, p, (n - 1) as nat); lemma_meas_bound(b, q, (n - 1) as nat);
  if n == i + 1 {
    assert(x * w + w <= y * w) by (nonlinear_arith) requires x + 1 <= y, w > 0;
  } else { lemma_meas_eq(b, p, q, (n - 1) as nat, i); }
}
pub open spec fn next_of(b: BlockIterator, p: Seq<u32>, q: Seq<u32>) -> bool { stepped(b, p, q, 0) && carry(b, p, 0) < bi_ord(b).len() }
// q is reached from p by k steps without reaching the end
pub open spec fn reach(b: BlockIterator, p: Seq<u32>, q: Seq<u32>, k: nat) -> bool
  decreases k
{ if k == 0 { p == q } else { exists|r: Seq<u32>| #[trigger] next_of(b, p, r) && reach(b, r, q, (k - 1) as nat) } }
pub open spec fn step_result(b: BlockIterator, p: Seq<u32>) -> Seq<u32> {
  let o = bi_ord(b); let m = carry(b, p, 0);
  Seq::new(p.len(), |px: int| if exists|j: int| 0 <= j < m && #[trigger] o[j] == px { d_min(b, px as u64) as u32 }
    else if m < o.len() && o[m] == px { (p[px] + d_step(b, px as u64)) as u32 } else { p[px] })
}
pub proof fn lemma_step_exists(b: BlockIterator, p: Seq<u32>)
  requires bi_shape(b), bi_valid(b, p)
  ensures stepped(b, p, step_result(b, p), 0)
{
  let o = bi_ord(b); let m = carry(b, p, 0); let q = step_result(b, p);
  lemma_carry(b, p, 0);
  assert forall|j: int| #![trigger o[j]] 0 <= j < m implies q[o[j] as int] == d_min(b, o[j]) by { lemma_dim(b, j); if b.blocks@.dom().contains(o[j]) { assert(blk_ok(b.blocks@[o[j]])); } }
  if m < o.len() { lemma_dim(b, m); assert(d_ok(b, p, o[m])); assert(!d_max(b, p, o[m]));
    lemma_ord_kind(b, m);
    if b.blocks@.dom().contains(o[m]) { assert(blk_ok(b.blocks@[o[m]])); }
    else if b.sets@.dom().contains(o[m]) { assert(b.sets@[o[m]]@.len() < 0xffff_ffff); }
    else { let c = lemma_coupled(b, m); let jx = b.dependent_sets@[o[m]].0; assert(dep_ok(b, b.dependent_sets@[o[m]])); lemma_ord_kind(b, c); assert(d_ok(b, p, jx)); assert(nonempty_at(b.dependent_sets@[o[m]].1, p[jx as int])); }
  }
}
pub proof fn lemma_lex_total(b: BlockIterator, p: Seq<u32>, q: Seq<u32>, n: int)
  requires bi_shape(b), bi_valid(b, p), bi_valid(b, q), 0 <= n <= bi_ord(b).len(),
    forall|j: int| #![trigger bi_ord(b)[j]] n <= j < bi_ord(b).len() ==> p[bi_ord(b)[j] as int] == q[bi_ord(b)[j] as int]
  ensures p == q || lex(b, p, q) || lex(b, q, p)
  decreases n
{
  let o = bi_ord(b);
  if n == 0 {
    assert forall|px: int| 0 <= px < p.len() implies p[px] == q[px] by {
      assert(d_ok(b, p, px as u64)); assert(d_ok(b, q, px as u64));
      if b.blocks@.dom().contains(px as u64) || b.sets@.dom().contains(px as u64) || b.dependent_sets@.dom().contains(px as u64) { let j = lemma_in_ord(b, px as u64); }
    }
    assert(p =~= q);
  } else {
    let a = p[o[n - 1] as int]; let c = q[o[n - 1] as int];
    if a < c { assert(lex_at(b, p, q, n - 1)); } else if c < a { assert(lex_at(b, q, p, n - 1)); } else { lemma_lex_total(b, p, q, n - 1); }
  }
}
// C06: every valid position that is not before p is visited from p; with p the initial position, all of them
pub proof fn lemma_complete(b: BlockIterator, p: Seq<u32>, q: Seq<u32>) -> (k: nat)
  requires bi_shape(b), bi_valid(b, p), bi_valid(b, q), p == q || lex(b, p, q)
  ensures reach(b, p, q, k)
  decreases meas(b, q, bi_ord(b).len()) - meas(b, p, bi_ord(b).len())
{
  let n = bi_ord(b).len();
  if p == q { 0 } else {
    let i = choose|i: int| lex_at(b, p, q, i);
    lemma_meas_eq(b, p, q, n, i);
    let r = step_result(b, p);
    lemma_step_exists(b, p);
    lemma_step(b, p, r);
    lemma_carry(b, p, 0);
    assert(next_of(b, p, r));
    assert(!lex(b, q, r));
    lemma_lex_total(b, r, q, n as int);
    let i2 = choose|i: int| lex_at(b, p, r, i);
    lemma_meas_eq(b, p, r, n, i2);
    if r != q { let i3 = choose|i: int| lex_at(b, r, q, i); lemma_meas_eq(b, r, q, n, i3); }
    let k = lemma_complete(b, r, q);
    assert(reach(b, r, q, ((k + 1) as nat - 1) as nat));
    (k + 1) as nat
  }
}
// ... and none of them twice
pub proof fn lemma_once(b: BlockIterator, p: Seq<u32>, q: Seq<u32>, k: nat)
  requires bi_shape(b), bi_valid(b, p), reach(b, p, q, k), k > 0
  ensures bi_valid(b, q), meas(b, p, bi_ord(b).len()) < meas(b, q, bi_ord(b).len())
  decreases k
{
  let r = choose|r: Seq<u32>| #[trigger] next_of(b, p, r) && reach(b, r, q, (k - 1) as nat);
  lemma_step(b, p, r);
  let i = choose|i: int| lex_at(b, p, r, i);
  lemma_meas_eq(b, p, r, bi_ord(b).len(), i);
  if k > 1 { lemma_once(b, r, q, (k - 1) as nat); }
}

// ---- values and boxes
pub open spec fn bi_value(b: BlockIterator, p: Seq<u32>, px: u64) -> u32 {
  if b.sets@.dom().contains(px) { b.sets@[px]@[p[px as int] as int] }
  else if b.dependent_sets@.dom().contains(px) { b.dependent_sets@[px].1@[p[b.dependent_sets@[px].0 as int]]@[p[px as int] as int] }
  else { p[px as int] }
}
pub open spec fn bi_hi(b: BlockIterator, p: Seq<u32>, px: u64) -> int {
  if b.blocks@.dom().contains(px) { if p[px as int] + b.blocks@[px].2 > b.blocks@[px].1 { b.blocks@[px].1 as int } else { p[px as int] + b.blocks@[px].2 } }
  else { bi_value(b, p, px) + 1 }
}
// C07: what the enumerator of a box ranges over
pub open spec fn ae_ranges(this0: BlockIterator, en: BlockIterator) -> bool { forall|px: u64| this0.blocks@.dom().contains(px) && bi_hi(this0, this0.position@, px) - this0.position@[px as int] > 1 ==> #[trigger] en.blocks@.dom().contains(px) && en.blocks@[px].0 == this0.position@[px as int] && en.blocks@[px].1 == bi_hi(this0, this0.position@, px) && en.blocks@[px].2 == 1 }
pub open spec fn ae_single(this0: BlockIterator, en: BlockIterator) -> bool { forall|px: u64| (this0.blocks@.dom().contains(px) && bi_hi(this0, this0.position@, px) - this0.position@[px as int] == 1) || this0.sets@.dom().contains(px) || this0.dependent_sets@.dom().contains(px) ==> #[trigger] en.sets@.dom().contains(px) && en.sets@[px]@ == seq![bi_value(this0, this0.position@, px)] }
// C07: exactly one grid point of a range has a given value in its box
pub proof fn lemma_tile(l: int, u: int, s: int, x: int)
  requires s >= 1, l <= x < u
  ensures ({ let g = x - (x - l) % s; l <= g < u && (g - l) % s == 0 && g <= x && x < (if g + s > u { u } else { g + s })
    && forall|h: int| #![trigger (h - l) % s] (h - l) % s == 0 && h <= x && x < (if h + s > u { u } else { h + s }) ==> h == g })
{
  let g = x - (x - l) % s;
  lemma_fundamental_div_mod(x - l, s);
  lemma_mod_bound(x - l, s);
  assert((g - l) == s * ((x - l) / s));
  lemma_mod_multiples_basic((x - l) / s, s);
  assert((g - l) % s == 0) by { lemma_mul_is_commutative((x - l) / s, s); }
  assert(l <= g) by { lemma_div_pos_is_pos(x - l, s); assert(s * ((x - l) / s) >= 0) by (nonlinear_arith) requires s >= 1, (x - l) / s >= 0; }
  assert(g <= x < g + s);
  assert forall|h: int| #![trigger (h - l) % s] (h - l) % s == 0 && h <= x && x < (if h + s > u { u } else { h + s }) implies h == g by {
    if h < g { lemma_grid(h - l, g - l, s); }
    if g < h { lemma_grid(g - l, h - l, s); }
  }
}
pub open spec fn sprod(o: Seq<u64>, m: Map<u64, (u32, u32, u32)>, n: nat) -> int
  decreases n
{ if n == 0 { 1 } else { sprod(o, m, (n - 1) as nat) * (m[o[n - 1]].2 as int) } }
pub open spec fn steps_prod(b: BlockIterator, n: nat) -> int { sprod(b.update_order_blocks@, b.blocks@, n) }
pub proof fn lemma_sprod_frame(o: Seq<u64>, m: Map<u64, (u32, u32, u32)>, o2: Seq<u64>, m2: Map<u64, (u32, u32, u32)>, n: nat)
  requires n <= o.len(), n <= o2.len(), forall|j: int| 0 <= j < n ==> #[trigger] o[j] == o2[j] && m[o[j]] == m2[o2[j]]
  ensures sprod(o, m, n) == sprod(o2, m2, n)
  decreases n
{ if n > 0 { lemma_sprod_frame(o, m, o2, m2, (n - 1) as nat); assert(m[o[n - 1]] == m2[o2[n - 1]]); } }
pub proof fn lemma_sprod_one(o: Seq<u64>, m: Map<u64, (u32, u32, u32)>, n: nat)
  requires n <= o.len(), forall|j: int| 0 <= j < n ==> (#[trigger] m[o[j]]).2 >= 1
  ensures sprod(o, m, n) >= 1, sprod(o, m, n) <= 1 ==> forall|j: int| 0 <= j < n ==> (#[trigger] m[o[j]]).2 == 1
  decreases n
{
  if n > 0 {
    lemma_sprod_one(o, m, (n - 1) as nat);
    let x = sprod(o, m, (n - 1) as nat); let w = m[o[n - 1]].2 as int;
    assert(x * w >= x && x * w >= w) by (nonlinear_arith) requires x >= 1, w >= 1;
  }
}
pub open spec fn box_size(b: BlockIterator, p: Seq<u32>, n: nat) -> int
  decreases n
{ if n == 0 { 1 } else { box_size(b, p, (n - 1) as nat) * (bi_hi(b, p, b.update_order_blocks@[n - 1]) - p[b.update_order_blocks@[n - 1] as int]) } }
// C07: a package is never empty and never larger than the product of the step sizes
pub proof fn lemma_box_size(b: BlockIterator, p: Seq<u32>, n: nat)
  requires bi_shape(b), bi_valid(b, p), n <= b.update_order_blocks@.len()
  ensures 1 <= box_size(b, p, n) <= steps_prod(b, n)
  decreases n
{
  if n > 0 {
    lemma_box_size(b, p, (n - 1) as nat);
    let k = b.update_order_dependend_sets@.len() + b.update_order_sets@.len() + n - 1;
    assert(bi_ord(b)[k] == b.update_order_blocks@[n - 1]);
    lemma_ord_kind(b, k); lemma_dim(b, k);
    let px = b.update_order_blocks@[n - 1];
    assert(d_ok(b, p, px));
    let w = bi_hi(b, p, px) - p[px as int]; let s = b.blocks@[px].2 as int;
    let x = box_size(b, p, (n - 1) as nat); let y = steps_prod(b, (n - 1) as nat);
    assert(1 <= x * w <= y * s) by (nonlinear_arith) requires 1 <= x <= y, 1 <= w <= s;
  }
}
// what a constructor must be given
pub open spec fn in_ok(length: u64, blocks: Map<u64, (u32, u32)>, sets: Map<u64, CVec<u32>>, deps: Map<u64, (u64, CMap<u32, CVec<u32>>)>) -> bool {
  &&& length <= 0xffff_ffff
  &&& forall|px: u64| #[trigger] blocks.dom().contains(px) ==> px < length && blocks[px].0 < blocks[px].1 && blocks[px].1 <= 0x8000_0000 && !sets.dom().contains(px) && !deps.dom().contains(px)
  &&& forall|px: u64| #[trigger] sets.dom().contains(px) ==> px < length && 0 < sets[px]@.len() < 0xffff_ffff && !deps.dom().contains(px)
  &&& forall|px: u64| #[trigger] deps.dom().contains(px) ==> px < length && dep_in_ok(blocks, sets, deps[px])
}
pub open spec fn dep_in_ok(blocks: Map<u64, (u32, u32)>, sets: Map<u64, CVec<u32>>, d: (u64, CMap<u32, CVec<u32>>)) -> bool {
  if sets.dom().contains(d.0) { forall|k: u32| k < sets[d.0]@.len() ==> #[trigger] nonempty_at(d.1, k) }
  else { blocks.dom().contains(d.0) && forall|k: u32| blocks[d.0].0 <= k < blocks[d.0].1 ==> #[trigger] nonempty_at(d.1, k) }
}
pub open spec fn describes_box(b: BlockIterator, bounds: Seq<(u32, u32)>) -> bool {
  &&& b.length_ == bounds.len()
  &&& b.sets@ =~= Map::<u64, CVec<u32>>::empty()
  &&& b.dependent_sets@ =~= Map::<u64, (u64, CMap<u32, CVec<u32>>)>::empty()
  &&& forall|px: u64| #[trigger] b.blocks@.dom().contains(px) <==> px < bounds.len()
  &&& forall|px: u64| px < bounds.len() ==> (#[trigger] b.blocks@[px]).0 == bounds[px as int].0 && b.blocks@[px].1 == bounds[px as int].1
}
// the object describes the given product
pub open spec fn describes(b: BlockIterator, length: u64, blocks: Map<u64, (u32, u32)>, sets: Map<u64, CVec<u32>>, deps: Map<u64, (u64, CMap<u32, CVec<u32>>)>) -> bool {
  &&& b.length_ == length
  &&& b.sets@ =~= sets
  &&& b.dependent_sets@ =~= deps
  &&& b.blocks@.dom() =~= blocks.dom()
  &&& forall|px: u64| #[trigger] blocks.dom().contains(px) ==> b.blocks@[px].0 == blocks[px].0 && b.blocks@[px].1 == blocks[px].1
}
pub open spec fn fresh_blocks(b: BlockIterator) -> bool { b.update_order_blocks@ == Seq::<u64>::empty() && b.blocks@ == Map::<u64, (u32, u32, u32)>::empty() }
pub open spec fn size_of(blocks: Map<u64, (u32, u32)>, k: u64) -> (u64, u32) { ((blocks[k].1 - blocks[k].0) as u64, k as u32) }
// the blocks in the order of their update, taken from a reordering of (size, index)
pub proof fn lemma_sorted(blocks: Map<u64, (u32, u32)>, keys: Seq<u64>, bs: Seq<(u64, u32)>, so: Seq<(u64, u32)>)
  requires is_enum_of(keys, blocks.dom()), bs.len() == keys.len(), forall|i: int| 0 <= i < bs.len() ==> #[trigger] bs[i] == size_of(blocks, keys[i]),
    forall|k: u64| blocks.dom().contains(k) ==> k <= 0xffff_ffff, so.to_multiset() == bs.to_multiset(), so.len() == bs.len()
  ensures forall|i: int| 0 <= i < so.len() ==> blocks.dom().contains(#[trigger] so[i].1 as u64) && so[i] == size_of(blocks, so[i].1 as u64),
    forall|i: int, j: int| 0 <= i < so.len() && 0 <= j < so.len() && i != j ==> so[i].1 != so[j].1,
    forall|k: u64| #[trigger] blocks.dom().contains(k) ==> exists|i: int| 0 <= i < so.len() && #[trigger] so[i].1 == k,
{
  bs.to_multiset_ensures(); so.to_multiset_ensures();
  assert forall|i: int| 0 <= i < so.len() implies blocks.dom().contains(#[trigger] so[i].1 as u64) && so[i] == size_of(blocks, so[i].1 as u64) by {
    assert(so.contains(so[i])); assert(so.to_multiset().count(so[i]) > 0); assert(bs.contains(so[i]));
    let j = choose|j: int| 0 <= j < bs.len() && bs[j] == so[i];
    assert(blocks.dom().contains(keys[j]));
  }
  assert(bs.no_duplicates()) by {
    assert forall|i: int, j: int| 0 <= i < bs.len() && 0 <= j < bs.len() && i != j implies bs[i] != bs[j] by { assert(keys[i] != keys[j]); assert(bs[i] == size_of(blocks, keys[i]) && bs[j] == size_of(blocks, keys[j])); assert(blocks.dom().contains(keys[i]) && blocks.dom().contains(keys[j])); }
  }
  bs.lemma_multiset_has_no_duplicates();
  so.lemma_multiset_has_no_duplicates_conv();
  assert forall|i: int, j: int| 0 <= i < so.len() && 0 <= j < so.len() && i != j implies so[i].1 != so[j].1 by { assert(so[i] != so[j]); assert(so[i] == size_of(blocks, so[i].1 as u64) && so[j] == size_of(blocks, so[j].1 as u64)); }
  assert forall|k: u64| #[trigger] blocks.dom().contains(k) implies exists|i: int| 0 <= i < so.len() && #[trigger] so[i].1 == k by {
    assert(keys.contains(k)); let j = choose|j: int| 0 <= j < keys.len() && keys[j] == k;
    assert(bs[j] == size_of(blocks, k)); assert(bs.contains(bs[j])); assert(so.to_multiset().count(bs[j]) > 0); assert(so.contains(bs[j]));
    let i = choose|i: int| 0 <= i < so.len() && so[i] == bs[j]; assert(so[i].1 == k);
  }
}
pub open spec fn dig(b: BlockIterator, t: i32, ix: u64) -> int {
  if t == 0 { ix as int } else if t == 1 { b.update_order_dependend_sets@.len() + ix as int } else { b.update_order_dependend_sets@.len() + b.update_order_sets@.len() + ix as int }
}
pub open spec fn valid_from(b: BlockIterator, p: Seq<u32>, n: int) -> bool {
  p.len() == b.length_ && forall|j: int| n <= j < bi_ord(b).len() ==> d_ok(b, p, #[trigger] bi_ord(b)[j])
}
pub proof fn lemma_same(a: BlockIterator, b: BlockIterator)
  requires bi_same(a, b)
  ensures bi_shape(a) == bi_shape(b), bi_ord(a) == bi_ord(b),
    forall|p: Seq<u32>, px: u64| #[trigger] d_ok(a, p, px) == d_ok(b, p, px),
    forall|p: Seq<u32>, n: int| #[trigger] carry(a, p, n) == carry(b, p, n),
    forall|p: Seq<u32>, n: int| #[trigger] valid_from(a, p, n) == valid_from(b, p, n),
    forall|p: Seq<u32>| #[trigger] bi_valid(a, p) == bi_valid(b, p),
    forall|p: Seq<u32>, q: Seq<u32>, n: int| #[trigger] stepped(a, p, q, n) == stepped(b, p, q, n),
{
  assert(bi_ord(a) == bi_ord(b));
  assert forall|px: u64| a.dependent_sets@.dom().contains(px) implies dep_ok(a, #[trigger] a.dependent_sets@[px]) == dep_ok(b, a.dependent_sets@[px]) by { }
  assert forall|p: Seq<u32>, n: int| #[trigger] carry(a, p, n) == carry(b, p, n) by { lemma_carry_same(a, b, p, n); }
  assert forall|p: Seq<u32>| #[trigger] bi_valid(a, p) == bi_valid(b, p) by {
    if p.len() == a.length_ {
      assert(forall|px: u64| px < a.length_ ==> d_ok(a, p, px) == d_ok(b, p, px));
      if bi_valid(a, p) { assert forall|px: u64| px < b.length_ implies #[trigger] d_ok(b, p, px) by { assert(d_ok(a, p, px)); } }
      if bi_valid(b, p) { assert forall|px: u64| px < a.length_ implies #[trigger] d_ok(a, p, px) by { assert(d_ok(b, p, px)); } }
    }
  }
}
pub proof fn lemma_carry_same(a: BlockIterator, b: BlockIterator, p: Seq<u32>, n: int)
  requires bi_same(a, b)
  ensures carry(a, p, n) == carry(b, p, n)
  decreases bi_ord(a).len() - n
{ if n < bi_ord(a).len() { lemma_carry_same(a, b, p, n + 1); } }
pub open spec fn seen(k: Seq<u64>, n: int, px: u64) -> bool { exists|j: int| 0 <= j < n && #[trigger] k[j] == px }
pub proof fn lemma_seen(k: Seq<u64>, n: int, px: u64)
  requires 0 < n <= k.len()
  ensures seen(k, n, px) == (seen(k, n - 1, px) || px == k[n - 1])
{ if seen(k, n, px) && px != k[n - 1] { let j = choose|j: int| 0 <= j < n && #[trigger] k[j] == px; assert(k[j] == px); } if px == k[n - 1] { assert(k[n - 1] == px); } }
pub open spec fn vec1(x: u32) -> Seq<u32> { Seq::<u32>::empty().push(x) }
// p1 is p with digit n put back to its start
pub proof fn lemma_reset(b: BlockIterator, p: Seq<u32>, p1: Seq<u32>, n: int)
  requires bi_shape(b), 0 <= n < bi_ord(b).len(), valid_from(b, p, n), d_max(b, p, bi_ord(b)[n]), p1.len() == p.len(),
    p1[bi_ord(b)[n] as int] == d_min(b, bi_ord(b)[n]),
    forall|j: int| 0 <= j < p.len() && j != bi_ord(b)[n] ==> p1[j] == p[j]
  ensures valid_from(b, p1, n + 1), carry(b, p, n) == carry(b, p1, n + 1),
    forall|q: Seq<u32>| #[trigger] stepped(b, p1, q, n + 1) ==> stepped(b, p, q, n),
    n + 1 == bi_ord(b).len() ==> stepped(b, p, p1, n),
{
  let o = bi_ord(b);
  lemma_dim(b, n);
  assert forall|j: int| #![trigger o[j]] n + 1 <= j < o.len() implies p[o[j] as int] == p1[o[j] as int] && d_ok(b, p1, o[j]) by {
    lemma_dim(b, j);
    assert(o[j] != o[n]);
    assert(d_ok(b, p, o[j]));
    if b.dependent_sets@.dom().contains(o[j]) { let c = lemma_coupled(b, j); assert(o[c] != o[n]); }
  }
  lemma_carry_indep(b, p, p1, n + 1);
  lemma_carry(b, p, n); lemma_carry(b, p1, n + 1);
  assert forall|q: Seq<u32>| #[trigger] stepped(b, p1, q, n + 1) implies stepped(b, p, q, n) by {
    let m = carry(b, p, n);
    assert forall|j: int| #![trigger o[j]] n <= j < m implies q[o[j] as int] == d_min(b, o[j]) by {
      if j == n { assert(forall|k: int| n + 1 <= k <= m && k < o.len() ==> o[k] != o[n]); assert(q[o[n] as int] == p1[o[n] as int]); }
    }
    assert forall|px: int| #![trigger q[px]] 0 <= px < p.len() && (forall|j: int| n <= j <= m && j < o.len() ==> o[j] != px) implies q[px] == p[px] by {
      assert(o[n] != px);
    }
  }
}
@end

@fn bi_step_ = BlockIterator::step_ 2
@requires shape: bi_shape(this0) && !this0.has_reached_end && valid_from(this0, this0.position@, dig(this0, step_type0, step_ix0))
@requires digit: 0 <= step_type0 <= 2 && (step_type0 == 0 ==> step_ix0 < this0.update_order_dependend_sets@.len()) && (step_type0 == 1 ==> step_ix0 < this0.update_order_sets@.len()) && (step_type0 == 2 ==> step_ix0 < this0.update_order_blocks@.len())
@ensures frame: bi_same(this0, res.this)
@ensures stepped: stepped(this0, this0.position@, res.this.position@, dig(this0, step_type0, step_ix0))
@ensures end: res.this.has_reached_end == (carry(this0, this0.position@, dig(this0, step_type0, step_ix0)) == bi_ord(this0).len())
@proof begin
  let ghost n = dig(this0, step_type0, step_ix0);
  let ghost nd = this0.update_order_dependend_sets@.len() as int;
  let ghost ns = this0.update_order_sets@.len() as int;
  let ghost opx = bi_ord(this0)[n];
  proof {
    lemma_ord_kind(this0, n); lemma_dim(this0, n);
    assert(d_ok(this0, this0.position@, opx));
    assert(bi_ord(this0).len() < 0x4000_0000_0000_0000int || true);
    if this0.blocks@.dom().contains(opx) { assert(blk_ok(this0.blocks@[opx])); }
    if this0.dependent_sets@.dom().contains(opx) {
      let c = lemma_coupled(this0, n); lemma_dim(this0, c); lemma_ord_kind(this0, c);
      assert(dep_ok(this0, this0.dependent_sets@[opx]));
      assert(d_ok(this0, this0.position@, bi_ord(this0)[c]));
      assert(nonempty_at(this0.dependent_sets@[opx].1, this0.position@[this0.dependent_sets@[opx].0 as int]));
      assert(bi_ord(this0)[c] != opx);
    }
    if this0.sets@.dom().contains(opx) { assert(this0.sets@[opx]@.len() < 0xffff_ffff); }
  }
@end
@proof before bi_step_
  let ghost mid = this;
  proof { assert(bi_same(this0, this)); lemma_same(this0, this); lemma_reset(this0, this0.position@, this.position@, n); }
@end
@proof after bi_step_
  proof { assert(stepped(mid, mid.position@, $r.this.position@, n + 1)); assert(stepped(this0, mid.position@, $r.this.position@, n + 1)); assert(carry(mid, mid.position@, n + 1) == carry(this0, mid.position@, n + 1)); }
@end
@proof return
  proof {
    if d_max(this0, this0.position@, opx) { if n + 1 == bi_ord(this0).len() { lemma_reset(this0, this0.position@, this.position@, n); } }
    else { }
  }
@end

@fn bi_step = BlockIterator::step 0
@requires inv: bi_inv(this0)
@ensures stays: this0.has_reached_end ==> res.this == this0
@ensures frame: bi_same(this0, res.this)
@ensures inv: bi_inv(res.this)
@ensures stepped: !this0.has_reached_end ==> stepped(this0, this0.position@, res.this.position@, 0) && res.this.has_reached_end == (carry(this0, this0.position@, 0) == bi_ord(this0).len())
@ensures successor: !this0.has_reached_end && !res.this.has_reached_end ==> bi_valid(this0, res.this.position@) && lex(this0, this0.position@, res.this.position@) && forall|r: Seq<u32>| bi_valid(this0, r) && lex(this0, this0.position@, r) ==> !#[trigger] lex(this0, r, res.this.position@)
@ensures last: !this0.has_reached_end && res.this.has_reached_end ==> forall|r: Seq<u32>| bi_valid(this0, r) ==> !#[trigger] lex(this0, this0.position@, r)
@proof begin
  proof {
    assert forall|j: int| 0 <= j < bi_ord(this0).len() implies d_ok(this0, this0.position@, #[trigger] bi_ord(this0)[j]) by { }
    lemma_carry(this0, this0.position@, 0);
    if this0.update_order_dependend_sets@.len() > 0 { assert(this0.dependent_sets@.dom().contains(this0.update_order_dependend_sets@[0])); }
    if this0.update_order_sets@.len() > 0 { assert(this0.sets@.dom().contains(this0.update_order_sets@[0])); }
  }
@end
@proof return
  proof { if !this0.has_reached_end {
    lemma_step(this0, this0.position@, this.position@);
    lemma_same(this0, this);
    if carry(this0, this0.position@, 0) == bi_ord(this0).len() { lemma_init(this0, this.position@); }
  } }
@end

@fn bi_set_initial_position = BlockIterator::set_initial_position 0
@requires shape: bi_shape(this0) && (this0.length_ > 0 ==> bi_ord(this0).len() > 0)
@ensures frame: bi_same(this0, res.this)
@ensures initial: d_init(this0, res.this.position@)
@ensures valid: bi_inv(res.this)
@ensures least: forall|q: Seq<u32>| bi_valid(this0, q) ==> !#[trigger] lex(this0, q, res.this.position@)
@ensures end: res.this.has_reached_end == (this0.length_ == 0)
@proof begin
  proof { assert forall|i: int| 0 <= i < bi_ord(this0).len() implies #[trigger] bi_ord(this0)[i] < this0.length_ by { } 
    let nd = this0.update_order_dependend_sets@.len() as int; let ns = this0.update_order_sets@.len() as int;
    assert forall|i: int| 0 <= i < this0.update_order_blocks@.len() implies #[trigger] this0.update_order_blocks@[i] < this0.length_ && this0.blocks@.dom().contains(this0.update_order_blocks@[i]) by { assert(bi_ord(this0)[nd + ns + i] == this0.update_order_blocks@[i]); }
    assert forall|i: int| 0 <= i < ns implies #[trigger] this0.update_order_sets@[i] < this0.length_ && d_min(this0, this0.update_order_sets@[i]) == 0 by { assert(bi_ord(this0)[nd + i] == this0.update_order_sets@[i]); lemma_ord_kind(this0, nd + i); }
    assert forall|i: int| 0 <= i < nd implies #[trigger] this0.update_order_dependend_sets@[i] < this0.length_ && d_min(this0, this0.update_order_dependend_sets@[i]) == 0 by { assert(bi_ord(this0)[i] == this0.update_order_dependend_sets@[i]); lemma_ord_kind(this0, i); }
  }
@end
@loop 1
@inv same: bi_same(this0, this) && this.position@.len() == this0.length_ && it1 <= this0.update_order_blocks@.len()
@inv done: forall|px: u64| px < this0.length_ ==> #[trigger] this.position@[px as int] == if exists|j: int| 0 <= j < it1 && this0.update_order_blocks@[j] == px { this0.blocks@[px].0 } else { 0 }
@proof loop 1 endinc
  proof { assert(this0.update_order_blocks@[it1 - 1] == ix); }
@end
@proof after loop 1
  proof { assert forall|px: u64| px < this0.length_ implies #[trigger] this.position@[px as int] == d_min(this0, px) by { if this0.blocks@.dom().contains(px) { assert(this0.update_order_blocks@.contains(px)); } } }
@end
@loop 2
@inv same: bi_same(this0, this) && this.position@.len() == this0.length_ && it2 <= this0.update_order_sets@.len()
@inv done: forall|px: u64| px < this0.length_ ==> #[trigger] this.position@[px as int] == d_min(this0, px)
@loop 3
@inv same: bi_same(this0, this) && this.position@.len() == this0.length_ && it3 <= this0.update_order_dependend_sets@.len()
@inv done: forall|px: u64| px < this0.length_ ==> #[trigger] this.position@[px as int] == d_min(this0, px)
@proof return
  proof { lemma_init(this0, this.position@); lemma_same(this0, this); }
@end

@fn bi_initialize_blocks = BlockIterator::initialize_blocks 2
@requires in: fresh_blocks(this0) && package_size0 >= 1 && forall|px: u64| #[trigger] blocks0@.dom().contains(px) ==> px <= 0xffff_ffff && blocks0@[px].0 < blocks0@[px].1 && blocks0@[px].1 <= 0x8000_0000
@ensures frame: res.this.length_ == this0.length_ && res.this.sets == this0.sets && res.this.dependent_sets == this0.dependent_sets && res.this.update_order_sets == this0.update_order_sets && res.this.update_order_dependend_sets == this0.update_order_dependend_sets
@ensures order: res.this.update_order_blocks@.no_duplicates() && forall|px: u64| blocks0@.dom().contains(px) <==> #[trigger] res.this.update_order_blocks@.contains(px)
@ensures dom: res.this.blocks@.dom() =~= blocks0@.dom()
@ensures bounds: forall|px: u64| #[trigger] blocks0@.dom().contains(px) ==> blk_ok(res.this.blocks@[px]) && res.this.blocks@[px].0 == blocks0@[px].0 && res.this.blocks@[px].1 == blocks0@[px].1
@ensures package: steps_prod(res.this, res.this.update_order_blocks@.len()) <= package_size0
@loop 1
@inv sizes: blocks == blocks0 && this == this0 && package_size == package_size0 && is_enum_of(keys1@, blocks0@.dom()) && it1 <= keys1@.len() && block_sizes@.len() == it1 && forall|i: int| 0 <= i < it1 ==> #[trigger] block_sizes@[i] == size_of(blocks0@, keys1@[i])
@proof after loop 1
  let ghost bs = block_sizes@;
  let ghost ks = keys1@;
@end
@proof before loop 2
  proof { lemma_sorted(blocks0@, ks, bs, block_sizes@); }
  let ghost so = block_sizes@;
@end
@loop 2
@inv frame: block_sizes@ == so && it2 <= so.len() && blocks == blocks0 && this.length_ == this0.length_ && this.sets == this0.sets && this.dependent_sets == this0.dependent_sets && this.update_order_sets == this0.update_order_sets && this.update_order_dependend_sets == this0.update_order_dependend_sets
@inv order: this.update_order_blocks@.len() == it2 && forall|i: int| 0 <= i < it2 ==> #[trigger] this.update_order_blocks@[i] == so[i].1
@inv dom: forall|px: u64| #[trigger] this.blocks@.dom().contains(px) <==> exists|i: int| 0 <= i < it2 && #[trigger] so[i].1 == px
@inv bounds: forall|i: int| 0 <= i < it2 ==> blk_ok(this.blocks@[#[trigger] so[i].1 as u64]) && this.blocks@[so[i].1 as u64].0 == blocks0@[so[i].1 as u64].0 && this.blocks@[so[i].1 as u64].1 == blocks0@[so[i].1 as u64].1
@inv package: package_size >= 1 && sprod(this.update_order_blocks@, this.blocks@, it2 as nat) * package_size <= package_size0
@proof loop 2 begin
  let ghost o1 = this.update_order_blocks@; let ghost m1 = this.blocks@; let ghost ps1 = package_size; let ghost n1 = it2;
  proof { assert(so[it2 as int] == size_of(blocks0@, so[it2 as int].1 as u64)); assert(blocks0@.dom().contains(so[it2 as int].1 as u64)); }
@end
@proof loop 2 endinc
  proof {
    assert(step_size >= 1);
    assert(so[n1 as int].1 == ix);
    lemma_sprod_frame(o1, m1, this.update_order_blocks@, this.blocks@, n1 as nat);
    let x = sprod(o1, m1, n1 as nat);
    assert(sprod(this.update_order_blocks@, this.blocks@, it2 as nat) == x * (step_size as int));
    lemma_fundamental_div_mod(ps1 as int, step_size as int);
    lemma_sprod_one(o1, m1, n1 as nat);
    assert((x * step_size) * package_size <= x * ps1) by (nonlinear_arith) requires x >= 1, step_size * package_size <= ps1;
    assert(package_size >= 1) by { if ps1 >= step_size { assert(ps1 / step_size >= 1) by (nonlinear_arith) requires step_size >= 1, ps1 >= step_size; } }
    assert forall|px: u64| #[trigger] this.blocks@.dom().contains(px) <==> exists|i: int| 0 <= i < it2 && #[trigger] so[i].1 == px by {
      if this.blocks@.dom().contains(px) { if px == ix { assert(so[n1 as int].1 == px); } else { assert(m1.dom().contains(px)); } }
    }
  }
@end
@proof after loop 2
  proof {
    assert forall|px: u64| blocks0@.dom().contains(px) <==> #[trigger] this.update_order_blocks@.contains(px) by {
      if this.update_order_blocks@.contains(px) { let i = choose|i: int| 0 <= i < this.update_order_blocks@.len() && this.update_order_blocks@[i] == px; assert(so[i].1 == px); }
      if blocks0@.dom().contains(px) { let i = choose|i: int| 0 <= i < so.len() && #[trigger] so[i].1 == px; assert(this.update_order_blocks@[i] == px); }
    }
    assert forall|px: u64| blocks0@.dom().contains(px) implies #[trigger] this.blocks@.dom().contains(px) by { let i = choose|i: int| 0 <= i < so.len() && #[trigger] so[i].1 == px; }
    assert forall|px: u64| #[trigger] blocks0@.dom().contains(px) implies blk_ok(this.blocks@[px]) && this.blocks@[px].0 == blocks0@[px].0 && this.blocks@[px].1 == blocks0@[px].1 by { let i = choose|i: int| 0 <= i < so.len() && #[trigger] so[i].1 == px; }
    lemma_sprod_one(this.update_order_blocks@, this.blocks@, this.update_order_blocks@.len());
    let x = sprod(this.update_order_blocks@, this.blocks@, this.update_order_blocks@.len());
    assert(x <= x * package_size) by (nonlinear_arith) requires x >= 1, package_size >= 1;
    assert forall|i: int, j: int| 0 <= i < this.update_order_blocks@.len() && 0 <= j < this.update_order_blocks@.len() && i != j implies this.update_order_blocks@[i] != this.update_order_blocks@[j] by { assert(this.update_order_blocks@[i] == so[i].1 && this.update_order_blocks@[j] == so[j].1); }
  }
@end

@fn bi_ctor5 = BlockIterator::BlockIterator 5
@requires in: in_ok(length0, blocks0@, sets0@, dependent_sets0@) && package_size0 >= 1 && (length0 > 0 ==> exists|px: u64| blocks0@.dom().contains(px) || sets0@.dom().contains(px) || dependent_sets0@.dom().contains(px))
@ensures describes: describes(res.this, length0, blocks0@, sets0@, dependent_sets0@)
@ensures inv: bi_inv(res.this)
@ensures initial: d_init(res.this, res.this.position@) && res.this.has_reached_end == (length0 == 0)
@ensures least: forall|q: Seq<u32>| bi_valid(res.this, q) ==> !#[trigger] lex(res.this, q, res.this.position@)
@ensures package: steps_prod(res.this, res.this.update_order_blocks@.len()) <= package_size0
@ensures steps: package_size0 == 1 ==> forall|px: u64| #[trigger] blocks0@.dom().contains(px) ==> res.this.blocks@[px].2 == 1
@loop 1
@inv frame: this.sets@ == sets0@ && is_enum_of(keys1@, sets0@.dom()) && it1 <= keys1@.len() && this.update_order_sets@ =~= keys1@.take(it1 as int) && this.length_ == length0 && dependent_sets == dependent_sets0 && this.update_order_dependend_sets@ == Seq::<u64>::empty()
@inv blocks: this.update_order_blocks == ub && this.blocks == mb
@proof before loop 1
  let ghost ub = this.update_order_blocks; let ghost mb = this.blocks;
@end
@loop 2
@inv frame: this.sets@ == sets0@ && this.dependent_sets@ == dependent_sets0@ && is_enum_of(keys2@, dependent_sets0@.dom()) && it2 <= keys2@.len() && this.update_order_dependend_sets@ =~= keys2@.take(it2 as int) && this.length_ == length0 && this.update_order_sets == us && is_enum_of(us@, sets0@.dom())
@inv blocks: this.update_order_blocks == ub && this.blocks == mb
@proof before loop 2
  let ghost us = this.update_order_sets;
  proof { assert(us@ =~= keys1@); }
@end
@proof before bi_set_initial_position
  proof {
    assert(this.update_order_dependend_sets@ =~= keys2@);
    let nd = this.update_order_dependend_sets@.len() as int; let ns = us@.len() as int;
    let o = bi_ord(this);
    assert forall|i: int| 0 <= i < o.len() implies #[trigger] o[i] < this.length_ && this.dependent_sets@.dom().contains(o[i]) == (i < nd) && this.sets@.dom().contains(o[i]) == (nd <= i < nd + ns) && this.blocks@.dom().contains(o[i]) == (nd + ns <= i) by {
      if i < nd { assert(keys2@[i] == o[i]); assert(dependent_sets0@.dom().contains(o[i])); } else if i < nd + ns { assert(us@[i - nd] == o[i]); assert(sets0@.dom().contains(o[i])); } else { assert(ub@[i - nd - ns] == o[i]); assert(ub@.contains(o[i])); assert(blocks0@.dom().contains(o[i])); }
    }
    assert forall|i: int, j: int| 0 <= i < o.len() && 0 <= j < o.len() && i != j implies o[i] != o[j] by {
      if i < nd && j < nd { assert(keys2@[i] != keys2@[j]); } else if nd <= i < nd + ns && nd <= j < nd + ns { assert(us@[i - nd] != us@[j - nd]); } else if nd + ns <= i && nd + ns <= j { assert(ub@[i - nd - ns] != ub@[j - nd - ns]); }
    }
    assert forall|px: u64| #[trigger] this.dependent_sets@.dom().contains(px) <==> this.update_order_dependend_sets@.contains(px) by { }
    assert forall|px: u64| #[trigger] this.sets@.dom().contains(px) <==> this.update_order_sets@.contains(px) by { }
    assert forall|px: u64| this.dependent_sets@.dom().contains(px) implies dep_ok(this, #[trigger] this.dependent_sets@[px]) by { assert(dependent_sets0@.dom().contains(px)); assert(dep_in_ok(blocks0@, sets0@, dependent_sets0@[px])); }
    assert forall|px: u64| this.sets@.dom().contains(px) implies 0 < (#[trigger] this.sets@[px])@.len() < 0xffff_ffff by { assert(sets0@.dom().contains(px)); }
    assert forall|px: u64| this.blocks@.dom().contains(px) implies blk_ok(#[trigger] this.blocks@[px]) by { assert(blocks0@.dom().contains(px)); }
    if length0 > 0 {
      let px = choose|px: u64| blocks0@.dom().contains(px) || sets0@.dom().contains(px) || dependent_sets0@.dom().contains(px);
      assert(this.blocks@.dom().contains(px) || this.sets@.dom().contains(px) || this.dependent_sets@.dom().contains(px));
      let i = lemma_in_ord(this, px);
    }
    assert forall|j: int| 0 <= j < ub@.len() implies (#[trigger] this.blocks@[ub@[j]]).2 >= 1 by { assert(ub@.contains(ub@[j])); assert(this.blocks@.dom().contains(ub@[j])); assert(blk_ok(this.blocks@[ub@[j]])); }
    lemma_sprod_one(this.update_order_blocks@, this.blocks@, this.update_order_blocks@.len());
    if package_size0 == 1 {
      assert forall|px: u64| #[trigger] blocks0@.dom().contains(px) implies this.blocks@[px].2 == 1 by { assert(ub@.contains(px)); let j = choose|j: int| 0 <= j < ub@.len() && ub@[j] == px; assert(this.blocks@[ub@[j]].2 == 1); }
    }
  }
  let ghost mid = this;
@end
@proof return
  proof { lemma_same(mid, this); assert forall|q: Seq<u32>| bi_valid(this, q) implies !#[trigger] lex(this, q, this.position@) by { if lex(this, q, this.position@) { let i = choose|i: int| lex_at(this, q, this.position@, i); assert(lex_at(mid, q, this.position@, i)); assert(lex(mid, q, this.position@)); } } 
    assert forall|px: u64| px < this.length_ implies #[trigger] this.position@[px as int] == d_min(this, px) by { assert(d_min(mid, px) == d_min(this, px)); } }
@end

@fn bi_ctor4 = BlockIterator::BlockIterator 4
@requires in: in_ok(length0, blocks0@, sets0@, dependent_sets0@) && (length0 > 0 ==> exists|px: u64| blocks0@.dom().contains(px) || sets0@.dom().contains(px) || dependent_sets0@.dom().contains(px))
@ensures describes: describes(res.this, length0, blocks0@, sets0@, dependent_sets0@)
@ensures inv: bi_inv(res.this)
@ensures initial: d_init(res.this, res.this.position@) && res.this.has_reached_end == (length0 == 0)
@ensures least: forall|q: Seq<u32>| bi_valid(res.this, q) ==> !#[trigger] lex(res.this, q, res.this.position@)
@ensures steps: forall|px: u64| #[trigger] blocks0@.dom().contains(px) ==> res.this.blocks@[px].2 == 1

@fn bi_ctor1 = BlockIterator::BlockIterator 1
@requires in: bounds0@.len() <= 0xffff_ffff && forall|i: int| 0 <= i < bounds0@.len() ==> (#[trigger] bounds0@[i]).0 < bounds0@[i].1 <= 0x8000_0000
@ensures describes: describes_box(res.this, bounds0@)
@ensures inv: bi_inv(res.this)
@ensures initial: d_init(res.this, res.this.position@) && res.this.has_reached_end == (bounds0@.len() == 0)
@ensures least: forall|q: Seq<u32>| bi_valid(res.this, q) ==> !#[trigger] lex(res.this, q, res.this.position@)
@ensures steps: forall|px: u64| px < bounds0@.len() ==> (#[trigger] res.this.blocks@[px]).2 == 1
@loop 1
@inv copied: bounds == bounds0 && ix <= bounds0@.len() && this.length_ == bounds0@.len() && fresh_blocks(this) && this.sets@ == Map::<u64, CVec<u32>>::empty() && this.dependent_sets@ == Map::<u64, (u64, CMap<u32, CVec<u32>>)>::empty() && this.update_order_sets@ == Seq::<u64>::empty() && this.update_order_dependend_sets@ == Seq::<u64>::empty()
@inv blocks: (forall|px: u64| #[trigger] blocks@.dom().contains(px) <==> px < ix) && forall|px: u64| px < ix ==> #[trigger] blocks@[px] == bounds0@[px as int]
@proof before bi_set_initial_position
  proof {
    let o = bi_ord(this);
    assert(o =~= this.update_order_blocks@);
    assert forall|i: int| 0 <= i < o.len() implies #[trigger] o[i] < this.length_ by { assert(this.update_order_blocks@.contains(o[i])); assert(blocks@.dom().contains(o[i])); }
    assert forall|px: u64| this.blocks@.dom().contains(px) implies blk_ok(#[trigger] this.blocks@[px]) by { assert(blocks@.dom().contains(px)); }
    if this.length_ > 0 { assert(blocks@.dom().contains(0)); assert(this.update_order_blocks@.contains(0)); }
    lemma_sprod_one(this.update_order_blocks@, this.blocks@, this.update_order_blocks@.len());
    assert forall|px: u64| px < bounds0@.len() implies (#[trigger] this.blocks@[px]).2 == 1 by { assert(blocks@.dom().contains(px)); assert(this.update_order_blocks@.contains(px)); let j = choose|j: int| 0 <= j < this.update_order_blocks@.len() && this.update_order_blocks@[j] == px; assert(this.blocks@[this.update_order_blocks@[j]].2 == 1); }
  }
  let ghost mid = this;
@end
@proof return
  proof { lemma_same(mid, this); assert forall|q: Seq<u32>| bi_valid(this, q) implies !#[trigger] lex(this, q, this.position@) by { if lex(this, q, this.position@) { let i = choose|i: int| lex_at(this, q, this.position@, i); assert(lex_at(mid, q, this.position@, i)); assert(lex(mid, q, this.position@)); } } 
    assert forall|px: u64| px < this.length_ implies #[trigger] this.position@[px as int] == d_min(this, px) by { assert(d_min(mid, px) == d_min(this, px)); }
    assert forall|px: u64| #[trigger] this.blocks@.dom().contains(px) <==> px < bounds0@.len() by { assert(blocks@.dom().contains(px) <==> px < bounds0@.len()); }
    assert forall|px: u64| px < bounds0@.len() implies (#[trigger] this.blocks@[px]).0 == bounds0@[px as int].0 && this.blocks@[px].1 == bounds0@[px as int].1 by { assert(blocks@.dom().contains(px)); assert(blocks@[px] == bounds0@[px as int]); } }
@end

@fn bi_as_position = BlockIterator::as_position 0
@requires inv: bi_inv(this0)
@ensures frame: res.this == this0
@ensures value: res.ret@.len() == this0.length_ && forall|px: u64| px < this0.length_ ==> #[trigger] res.ret@[px as int] == bi_value(this0, this0.position@, px)
@loop 1
@inv same: this == this0 && position@.len() == this0.length_ && is_enum_of(keys1@, this0.dependent_sets@.dom()) && it1 <= keys1@.len()
@inv value: forall|px: u64| px < this0.length_ ==> #[trigger] position@[px as int] == if exists|j: int| 0 <= j < it1 && #[trigger] keys1@[j] == px { bi_value(this0, this0.position@, px) } else { this0.position@[px as int] }
@proof loop 1 begin
  proof {
    let px = keys1@[it1 as int];
    assert(this0.dependent_sets@.dom().contains(px));
    let i = lemma_in_ord(this0, px); let c = lemma_coupled(this0, i); lemma_dim(this0, i); lemma_ord_kind(this0, i); lemma_ord_kind(this0, c);
    let jx = this0.dependent_sets@[px].0;
    assert(dep_ok(this0, this0.dependent_sets@[px]));
    assert(d_ok(this0, this0.position@, px)); assert(d_ok(this0, this0.position@, jx));
    assert(nonempty_at(this0.dependent_sets@[px].1, this0.position@[jx as int]));
    assert(position@[jx as int] == this0.position@[jx as int]);
    assert(position@[px as int] == this0.position@[px as int]);
  }
@end
@proof loop 1 endinc
  proof { assert(keys1@[it1 - 1] == ix); }
@end
@loop 2
@inv same: this == this0 && position@.len() == this0.length_ && is_enum_of(keys2@, this0.sets@.dom()) && it2 <= keys2@.len()
@inv value: forall|px: u64| px < this0.length_ ==> #[trigger] position@[px as int] == if this0.dependent_sets@.dom().contains(px) || (exists|j: int| 0 <= j < it2 && #[trigger] keys2@[j] == px) { bi_value(this0, this0.position@, px) } else { this0.position@[px as int] }
@proof before loop 2
  proof { assert forall|px: u64| px < this0.length_ implies #[trigger] position@[px as int] == if this0.dependent_sets@.dom().contains(px) { bi_value(this0, this0.position@, px) } else { this0.position@[px as int] } by { if this0.dependent_sets@.dom().contains(px) { assert(keys1@.contains(px)); } } }
@end
@proof loop 2 begin
  proof {
    let px = keys2@[it2 as int];
    assert(this0.sets@.dom().contains(px));
    let i = lemma_in_ord(this0, px); lemma_dim(this0, i); lemma_ord_kind(this0, i);
    assert(d_ok(this0, this0.position@, px));
    assert(position@[px as int] == this0.position@[px as int]);
  }
@end
@proof loop 2 endinc
  proof { assert(keys2@[it2 - 1] == ix); }
@end
@proof return
  proof { assert forall|px: u64| px < this0.length_ implies #[trigger] position@[px as int] == bi_value(this0, this0.position@, px) by { if this0.sets@.dom().contains(px) { assert(keys2@.contains(px)); } } }
@end

@fn bi_as_block = BlockIterator::as_block 0
@requires inv: bi_inv(this0) && forall|px: u64| px < this0.length_ ==> #[trigger] bi_value(this0, this0.position@, px) < 0xffff_ffff
@ensures frame: res.this == this0
@ensures box: res.ret@.len() == this0.length_ && forall|px: u64| px < this0.length_ ==> (#[trigger] res.ret@[px as int]).0 == bi_value(this0, this0.position@, px) && res.ret@[px as int].1 == bi_hi(this0, this0.position@, px)
@loop 1
@inv value: this == this0 && position@.len() == this0.length_ && it1 <= position@.len() && bounds@.len() == it1 && (forall|px: u64| px < this0.length_ ==> #[trigger] position@[px as int] == bi_value(this0, this0.position@, px)) && forall|i: int| 0 <= i < it1 ==> (#[trigger] bounds@[i]).0 == position@[i] && bounds@[i].1 == position@[i] + 1
@proof loop 1 begin
  proof { assert(position@[it1 as u64 as int] == bi_value(this0, this0.position@, it1)); }
@end
@loop 2
@inv same: this == this0 && bounds@.len() == this0.length_ && is_enum_of(keys2@, this0.blocks@.dom()) && it2 <= keys2@.len()
@inv box: forall|px: u64| px < this0.length_ ==> (#[trigger] bounds@[px as int]).0 == bi_value(this0, this0.position@, px) && bounds@[px as int].1 == if exists|j: int| 0 <= j < it2 && #[trigger] keys2@[j] == px { bi_hi(this0, this0.position@, px) } else { bi_value(this0, this0.position@, px) + 1 }
@proof loop 2 begin
  proof {
    let px = keys2@[it2 as int];
    assert(this0.blocks@.dom().contains(px));
    let i = lemma_in_ord(this0, px); lemma_dim(this0, i); lemma_ord_kind(this0, i);
    assert(d_ok(this0, this0.position@, px)); assert(blk_ok(this0.blocks@[px]));
    assert(bounds@[px as int].0 == bi_value(this0, this0.position@, px));
  }
@end
@proof loop 2 endinc
  proof { assert(keys2@[it2 - 1] == ix); }
@end
@proof return
  proof { assert forall|px: u64| px < this0.length_ implies (#[trigger] bounds@[px as int]).0 == bi_value(this0, this0.position@, px) && bounds@[px as int].1 == bi_hi(this0, this0.position@, px) by { if this0.blocks@.dom().contains(px) { assert(keys2@.contains(px)); } } }
@end

@fn bi_as_block_enumerator = BlockIterator::as_block_enumerator 0
@requires inv: bi_inv(this0) && this0.length_ <= 0xffff_ffff && (this0.length_ > 0 ==> bi_ord(this0).len() > 0) && forall|px: u64| #[trigger] this0.blocks@.dom().contains(px) ==> this0.blocks@[px].1 <= 0x8000_0000
@ensures frame: res.this == this0
@ensures inv: bi_inv(res.ret) && res.ret.length_ == this0.length_ && d_init(res.ret, res.ret.position@) && res.ret.has_reached_end == (this0.length_ == 0)
@ensures ranges: ae_ranges(this0, res.ret)
@ensures single: ae_single(this0, res.ret)
@ensures nomore: res.ret.dependent_sets@.dom() =~= Set::<u64>::empty() && (forall|px: u64| #[trigger] res.ret.blocks@.dom().contains(px) ==> this0.blocks@.dom().contains(px)) && forall|px: u64| #[trigger] res.ret.sets@.dom().contains(px) ==> this0.blocks@.dom().contains(px) || this0.sets@.dom().contains(px) || this0.dependent_sets@.dom().contains(px)
@loop 1
@inv same: this == this0 && position@.len() == this0.length_ && (forall|px: u64| px < this0.length_ ==> #[trigger] position@[px as int] == bi_value(this0, this0.position@, px)) && is_enum_of(keys1@, this0.blocks@.dom()) && it1 <= keys1@.len()
@inv blocks: forall|px: u64| #[trigger] blocks@.dom().contains(px) <==> seen(keys1@, it1 as int, px) && bi_hi(this0, this0.position@, px) - this0.position@[px as int] > 1
@inv blockv: forall|px: u64| #[trigger] blocks@.dom().contains(px) ==> blocks@[px].0 == this0.position@[px as int] && blocks@[px].1 == bi_hi(this0, this0.position@, px)
@inv sets: forall|px: u64| #[trigger] sets@.dom().contains(px) <==> seen(keys1@, it1 as int, px) && bi_hi(this0, this0.position@, px) - this0.position@[px as int] <= 1
@inv setv: forall|px: u64| #[trigger] sets@.dom().contains(px) ==> sets@[px]@ == seq![bi_value(this0, this0.position@, px)]
@proof loop 1 begin
  proof {
    let px = keys1@[it1 as int];
    assert(this0.blocks@.dom().contains(px));
    let i = lemma_in_ord(this0, px); lemma_dim(this0, i); lemma_ord_kind(this0, i);
    assert(d_ok(this0, this0.position@, px)); assert(blk_ok(this0.blocks@[px]));
    assert(position@[px as int] == bi_value(this0, this0.position@, px));
  }
@end
@proof loop 1 endinc
  proof {
    assert(seq![lbd] =~= vec1(lbd));
    assert forall|px: u64| seen(keys1@, it1 as int, px) == (seen(keys1@, it1 - 1, px) || px == key1) by { lemma_seen(keys1@, it1 as int, px); }
  }
@end
@proof before loop 2
  let ghost blocks1 = blocks@;
  proof { assert forall|px: u64| seen(keys1@, it1 as int, px) == this0.blocks@.dom().contains(px) by { if this0.blocks@.dom().contains(px) { assert(keys1@.contains(px)); } } }
@end
@loop 2
@inv same: this == this0 && blocks@ == blocks1 && position@.len() == this0.length_ && (forall|px: u64| px < this0.length_ ==> #[trigger] position@[px as int] == bi_value(this0, this0.position@, px)) && is_enum_of(keys2@, this0.sets@.dom()) && it2 <= keys2@.len()
@inv sets: forall|px: u64| #[trigger] sets@.dom().contains(px) <==> (this0.blocks@.dom().contains(px) && bi_hi(this0, this0.position@, px) - this0.position@[px as int] <= 1) || seen(keys2@, it2 as int, px)
@inv setv: forall|px: u64| #[trigger] sets@.dom().contains(px) ==> sets@[px]@ == seq![bi_value(this0, this0.position@, px)]
@proof loop 2 begin
  proof { let px = keys2@[it2 as int]; assert(this0.sets@.dom().contains(px)); let i = lemma_in_ord(this0, px); lemma_dim(this0, i); assert(position@[px as int] == bi_value(this0, this0.position@, px)); }
@end
@proof loop 2 endinc
  proof {
    assert(seq![position@[key2 as int]] =~= vec1(position@[key2 as int]));
    assert forall|px: u64| seen(keys2@, it2 as int, px) == (seen(keys2@, it2 - 1, px) || px == key2) by { lemma_seen(keys2@, it2 as int, px); }
  }
@end
@loop 3
@inv same: this == this0 && blocks@ == blocks1 && position@.len() == this0.length_ && (forall|px: u64| px < this0.length_ ==> #[trigger] position@[px as int] == bi_value(this0, this0.position@, px)) && is_enum_of(keys3@, this0.dependent_sets@.dom()) && it3 <= keys3@.len()
@inv sets: forall|px: u64| #[trigger] sets@.dom().contains(px) <==> (this0.blocks@.dom().contains(px) && bi_hi(this0, this0.position@, px) - this0.position@[px as int] <= 1) || this0.sets@.dom().contains(px) || seen(keys3@, it3 as int, px)
@inv setv: forall|px: u64| #[trigger] sets@.dom().contains(px) ==> sets@[px]@ == seq![bi_value(this0, this0.position@, px)]
@proof before loop 3
  proof { assert forall|px: u64| seen(keys2@, it2 as int, px) == this0.sets@.dom().contains(px) by { if this0.sets@.dom().contains(px) { assert(keys2@.contains(px)); } } }
@end
@proof loop 3 begin
  proof { let px = keys3@[it3 as int]; assert(this0.dependent_sets@.dom().contains(px)); let i = lemma_in_ord(this0, px); lemma_dim(this0, i); assert(position@[px as int] == bi_value(this0, this0.position@, px)); }
@end
@proof loop 3 endinc
  proof {
    assert(seq![position@[key3 as int]] =~= vec1(position@[key3 as int]));
    assert forall|px: u64| seen(keys3@, it3 as int, px) == (seen(keys3@, it3 - 1, px) || px == key3) by { lemma_seen(keys3@, it3 as int, px); }
  }
@end
@proof before bi_ctor4
  proof {
    assert forall|px: u64| seen(keys3@, it3 as int, px) == this0.dependent_sets@.dom().contains(px) by { if this0.dependent_sets@.dom().contains(px) { assert(keys3@.contains(px)); } }
    assert forall|px: u64| #[trigger] blocks@.dom().contains(px) implies px < this0.length_ && blocks@[px].0 < blocks@[px].1 && blocks@[px].1 <= 0x8000_0000 && !sets@.dom().contains(px) by {
      assert(this0.blocks@.dom().contains(px)); let i = lemma_in_ord(this0, px); lemma_dim(this0, i); lemma_ord_kind(this0, i);
    }
    assert forall|px: u64| #[trigger] sets@.dom().contains(px) implies px < this0.length_ && 0 < sets@[px]@.len() < 0xffff_ffff by { let i = lemma_in_ord(this0, px); lemma_dim(this0, i); }
    if this0.length_ > 0 { let px = bi_ord(this0)[0]; lemma_ord_kind(this0, 0); assert(blocks@.dom().contains(px) || sets@.dom().contains(px)); }
  }
@end
@proof return
  proof {
    assert forall|px: u64| this0.blocks@.dom().contains(px) && bi_hi(this0, this0.position@, px) - this0.position@[px as int] > 1 implies #[trigger] ret.blocks@.dom().contains(px) && ret.blocks@[px].0 == this0.position@[px as int] && ret.blocks@[px].1 == bi_hi(this0, this0.position@, px) && ret.blocks@[px].2 == 1 by { assert(blocks@.dom().contains(px)); }
    assert forall|px: u64| #[trigger] ret.blocks@.dom().contains(px) implies this0.blocks@.dom().contains(px) by { assert(blocks@.dom().contains(px)); }
    assert forall|px: u64| (this0.blocks@.dom().contains(px) && bi_hi(this0, this0.position@, px) - this0.position@[px as int] == 1) || this0.sets@.dom().contains(px) || this0.dependent_sets@.dom().contains(px) implies #[trigger] ret.sets@.dom().contains(px) && ret.sets@[px]@ == seq![bi_value(this0, this0.position@, px)] by { assert(sets@.dom().contains(px)); }
    assert forall|px: u64| #[trigger] ret.sets@.dom().contains(px) implies this0.blocks@.dom().contains(px) || this0.sets@.dom().contains(px) || this0.dependent_sets@.dom().contains(px) by { assert(sets@.dom().contains(px)); }
    assert(ae_ranges(this0, ret)); assert(ae_single(this0, ret));
  }
@end

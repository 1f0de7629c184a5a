# what a run of a program hands to its worker pool (C22)
@trusted yaml-cpp: reading a file gives a node, a node that is a sequence lists its parts in order, and reading a node as a configuration calls convert<ConfigNode>::decode (proved by C17) and fails by an exception if that does not accept it
@trusted boost::filesystem: a path is its text, joining puts a text in front
@use popt.vc
@use curve_iter.vc
@use tables.vc
@use config.vc
@prelude
pub struct WPool { } pub struct MpiEnv { } pub struct MpiWorld { }
#[verifier::external_body]
pub fn wpool_new() -> WPool { unimplemented!() }
#[verifier::external_body]
pub fn mpi_env() -> MpiEnv { unimplemented!() }
#[verifier::external_body]
pub fn mpi_world() -> MpiWorld { unimplemented!() }
pub uninterp spec fn the_rank() -> i32;
#[verifier::external_body]
pub fn mpi_rank() -> (r: i32) ensures r == the_rank() { unimplemented!() }
// files
pub uninterp spec fn file_there(p: Seq<u8>) -> bool;
#[verifier::external_body]
pub fn file_is(p: CVec<u8>) -> (r: bool) ensures r == file_there(p@) { unimplemented!() }
pub uninterp spec fn canon(p: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn path_canonical(p: CVec<u8>) -> (r: CVec<u8>) ensures r@ == canon(p@) { unimplemented!() }
pub uninterp spec fn join_prefix(d: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn path_join(d: CVec<u8>, b: CVec<u8>) -> (r: CVec<u8>) ensures r@ == join_prefix(d@) + b@ { unimplemented!() }
pub uninterp spec fn y_file(p: Seq<u8>) -> YV;
pub uninterp spec fn y_child(n: YV, k: Seq<u8>) -> YV;
pub uninterp spec fn y_items(n: YV) -> Seq<YV>;
#[verifier::external_body]
pub fn yaml_load(p: CVec<u8>) -> (r: YNode) ensures r@ == y_file(p@) { unimplemented!() }
#[verifier::external_body]
pub fn node_sub(n: YNode, k: CVec<u8>) -> (r: YNode) ensures r@ == y_child(n@, k@) { unimplemented!() }
#[verifier::external_body]
pub fn node_items(n: YNode) -> (r: CVec<YNode>) requires n@.defined ensures r@.len() == y_items(n@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == y_items(n@)[i] { unimplemented!() }
#[verifier::external_body]
pub fn node_at(n: YNode, i: u64) -> (r: YNode) requires n@.defined ensures i < y_items(n@).len() ==> r@ == y_items(n@)[i as int] { unimplemented!() }
#[verifier::external_body]
pub fn node_as_config(n: YNode) -> (r: ConfigNode) ensures complete(n@.entries), means(n@.entries, r) { unimplemented!() }
// what a run hands to its workers: the configurations, each with the blocks that follow it
pub type Box = Seq<(u32, u32)>;
pub struct RunSt { pub pools: nat, pub workers: nat, pub segs: Seq<(ConfigNode, Seq<Box>)> }
pub struct CRun { pub g: Ghost<RunSt> }
impl Clone for CRun { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for CRun {}
impl CRun { pub open spec fn view(self) -> RunSt { self.g@ } }
#[verifier::external_body]
pub fn run_pool(r: CRun) -> (x: CRun) ensures x@ == (RunSt { pools: r@.pools + 1, ..r@ }) { unimplemented!() }
#[verifier::external_body]
pub fn run_worker(r: CRun) -> (x: CRun) ensures x@ == (RunSt { workers: r@.workers + 1, ..r@ }) { unimplemented!() }
#[verifier::external_body]
pub fn run_config(r: CRun, c: ConfigNode) -> (x: CRun) ensures x@ == (RunSt { segs: r@.segs.push((c, Seq::<Box>::empty())), ..r@ }) { unimplemented!() }
#[verifier::external_body]
pub fn run_assign(r: CRun, b: CVec<(u32, u32)>) -> (x: CRun) requires r@.segs.len() > 0 ensures x@ == (RunSt { segs: r@.segs.drop_last().push((r@.segs.last().0, r@.segs.last().1.push(b@))), ..r@ }) { unimplemented!() }
pub open spec fn in_box(b: Box, v: Seq<u32>) -> bool { v.len() == b.len() && forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).0 <= v[i] < b[i].1 }
// every normal form of the degrees of a configuration lies in exactly one of the blocks, and nothing else lies in one
pub open spec fn in_range(c: ConfigNode, v: Seq<u32>) -> bool { 2 * c.genus + 1 < v.len() <= 2 * c.genus + (if c.with_marked_point { 2int } else { 3int }) }
pub open spec fn wanted(c: ConfigNode, v: Seq<u32>) -> bool { in_range(c, v) && normal(c.prime as int, pow(c.prime as int, c.prime_exponent as nat), v) }
pub open spec fn tiled(c: ConfigNode, bs: Seq<Box>) -> bool {
  &&& forall|v: Seq<u32>| #[trigger] wanted(c, v) ==> exists|i: int| 0 <= i < bs.len() && #[trigger] in_box(bs[i], v)
  &&& forall|v: Seq<u32>, i: int| 0 <= i < bs.len() && #[trigger] in_box(bs[i], v) ==> wanted(c, v)
  &&& forall|v: Seq<u32>, i: int, j: int| 0 <= i < bs.len() && 0 <= j < bs.len() && #[trigger] in_box(bs[i], v) && #[trigger] in_box(bs[j], v) ==> i == j
  &&& forall|i: int| 0 <= i < bs.len() ==> fine_box(#[trigger] bs[i])
  &&& bs.no_duplicates()
}
// what C15 and C16 assume of the blocks they are given
pub open spec fn fine_box(b: Box) -> bool { b.len() > 0 && forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).0 < b[i].1 <= 0x3fff_ffff }
// the families that a file configures
pub open spec fn k_Moduli() -> Seq<u8> { seq![77u8, 111u8, 100u8, 117u8, 108u8, 105u8] }
pub open spec fn k_StoreType() -> Seq<u8> { seq![83u8, 116u8, 111u8, 114u8, 101u8, 84u8, 121u8, 112u8, 101u8] }
pub open spec fn k_EC() -> Seq<u8> { seq![69u8, 67u8] }
pub open spec fn k_config() -> Seq<u8> { seq![99u8, 111u8, 110u8, 102u8, 105u8, 103u8, 45u8, 102u8, 105u8, 108u8, 101u8] }
pub open spec fn k_output() -> Seq<u8> { seq![111u8, 117u8, 116u8, 112u8, 117u8, 116u8, 45u8, 112u8, 97u8, 116u8, 104u8] }
pub open spec fn the_file() -> YV { y_file(opt_text(k_config())) }
pub open spec fn families() -> Seq<YV> { if y_child(the_file(), k_Moduli()).defined { y_items(y_child(the_file(), k_Moduli())) } else { seq![the_file()] } }
// the configuration of a node, with its results below the output path
pub open spec fn placed(n: YV, c: ConfigNode) -> bool { complete(n.entries) && c.result_path@ == join_prefix(canon(opt_text(k_output()))) + n.entries[k_ResultPath()] && means(n.entries.insert(k_ResultPath(), c.result_path@), c) }
pub open spec fn read_as(n: YV, c: ConfigNode) -> bool { complete(n.entries) && means(n.entries, c) }
pub open spec fn usable(c: ConfigNode) -> bool { c.prime != 0 && c.prime_exponent != 0 && c.genus != 0 && c.count_exponent != 0 && c.package_size != 0 && (dir_exists(c.result_path@) || dir_creatable(c.result_path@)) }
pub open spec fn store_type_ok() -> bool { let n = y_child(the_file(), k_StoreType()); !n.defined || n.text == k_EC() }
pub open spec fn startable() -> bool { opt_has(k_config()) && opt_has(k_output()) && (dir_exists(opt_text(k_output())) || dir_creatable(opt_text(k_output()))) && file_there(opt_text(k_config())) && store_type_ok() }
// ---- the walk of an enumeration and the blocks it hands out
pub open spec fn box_of(b: BlockIterator, p: Seq<u32>, x: Box) -> bool { x.len() == b.length_ && forall|px: u64| px < b.length_ ==> (#[trigger] x[px as int]).0 == bi_value(b, p, px) && x[px as int].1 == bi_hi(b, p, px) }
pub open spec fn walk(es: Seq<BlockIterator>, w: Seq<(int, Seq<u32>)>) -> bool {
  &&& w.len() > 0 && w[0].0 == 0 && (es.len() > 0 ==> w[0].1 == es[0].position@)
  &&& forall|i: int| 0 <= i < w.len() - 1 ==> #[trigger] ci_hop(es, w[i].0, w[i].1, w[i + 1])
}
pub open spec fn boxes(es: Seq<BlockIterator>, w: Seq<(int, Seq<u32>)>, bs: Seq<Box>) -> bool { bs.len() == w.len() - 1 && forall|i: int| 0 <= i < bs.len() ==> box_of(es[w[i].0], w[i].1, #[trigger] bs[i]) }
pub open spec fn same_families(a: Seq<BlockIterator>, b: Seq<BlockIterator>) -> bool { a.len() == b.len() && forall|e: int| 0 <= e < a.len() ==> bi_same(#[trigger] a[e], b[e]) }
pub open spec fn sound(es: Seq<BlockIterator>) -> bool { starts(es) && apart(es) && forall|e: int| 0 <= e < es.len() ==> simple(#[trigger] es[e]) }
pub proof fn lemma_next_same(a: Seq<BlockIterator>, b: Seq<BlockIterator>, e: int, p: Seq<u32>, f: int, r: Seq<u32>)
  requires same_families(a, b), ci_next(b, e, p, f, r)
  ensures ci_next(a, e, p, f, r)
{
  lemma_same(a[e], b[e]);
  if f == e + 1 && f < a.len() { assert(bi_same(a[f], b[f])); lemma_simple_same(a[f], b[f]); }
}
pub proof fn lemma_box_same(a: BlockIterator, b: BlockIterator, p: Seq<u32>, x: Box)
  requires bi_same(a, b), box_of(b, p, x)
  ensures box_of(a, p, x)
{ assert forall|px: u64| px < a.length_ implies (#[trigger] x[px as int]).0 == bi_value(a, p, px) && x[px as int].1 == bi_hi(a, p, px) by { assert(bi_value(a, p, px) == bi_value(b, p, px)); assert(bi_hi(a, p, px) == bi_hi(b, p, px)); } }
// a position is followed by one position only
pub proof fn lemma_hop_one(es: Seq<BlockIterator>, e: int, p: Seq<u32>, x: (int, Seq<u32>), y: (int, Seq<u32>))
  requires sound(es), 0 <= e < es.len(), bi_valid(es[e], p), ci_hop(es, e, p, x), ci_hop(es, e, p, y)
  ensures x.0 == y.0, x.0 < es.len() ==> x.1 == y.1
{
  let b = es[e]; let m = carry(b, p, 0); let o = bi_ord(b);
  assert(bi_inv(b));
  lemma_carry(b, p, 0);
  if m < o.len() {
    assert forall|i: int| 0 <= i < p.len() implies x.1[i] == y.1[i] by {
      if exists|j: int| 0 <= j <= m && o[j] == i { let j = choose|j: int| 0 <= j <= m && o[j] == i; assert(o[j] == i); }
    }
    assert(x.1 =~= y.1);
  } else if e + 1 < es.len() {
    let c = es[e + 1];
    assert forall|i: int| 0 <= i < c.length_ implies x.1[i] == y.1[i] by { let px = i as u64; assert(x.1[px as int] == d_min(c, px)); assert(y.1[px as int] == d_min(c, px)); }
    assert(x.1 =~= y.1);
  }
}
pub proof fn lemma_walk_valid(es: Seq<BlockIterator>, w: Seq<(int, Seq<u32>)>, i: int)
  requires sound(es), walk(es, w), 0 <= i < w.len(), w[i].0 < es.len()
  ensures 0 <= w[i].0, bi_valid(es[w[i].0], w[i].1)
  decreases i
{
  if i == 0 { assert(bi_inv(es[0])); }
  else {
    let e = w[i - 1].0; let p = w[i - 1].1;
    assert(ci_hop(es, w[i - 1].0, w[i - 1].1, w[i - 1 + 1]));
    lemma_walk_valid(es, w, i - 1);
    assert(bi_inv(es[e]));
    lemma_carry(es[e], p, 0);
    if w[i].0 == e { lemma_step(es[e], p, w[i].1); } else { assert(bi_inv(es[e + 1])); lemma_init(es[e + 1], w[i].1); }
  }
}
pub proof fn lemma_walk_reach(es: Seq<BlockIterator>, w: Seq<(int, Seq<u32>)>, i: int, j: int)
  requires walk(es, w), 0 <= i <= j < w.len()
  ensures ci_reach(es, w[i].0, w[i].1, w[j].0, w[j].1, (j - i) as nat)
  decreases j - i
{
  if i < j {
    lemma_walk_reach(es, w, i + 1, j);
    assert(ci_hop(es, w[i].0, w[i].1, w[i + 1]));
    assert(((j - i) as nat - 1) as nat == (j - (i + 1)) as nat);
  }
}
// what can be reached is on the walk
pub proof fn lemma_on_walk(es: Seq<BlockIterator>, w: Seq<(int, Seq<u32>)>, i: int, e: int, p: Seq<u32>, k: nat)
  requires sound(es), walk(es, w), w.last().0 == es.len(), 0 <= i < w.len(), ci_reach(es, w[i].0, w[i].1, e, p, k), 0 <= e < es.len()
  ensures i + k < w.len() - 1, w[i + k] == (e, p)
  decreases k
{
  if k > 0 {
    let x = choose|x: (int, Seq<u32>)| #[trigger] ci_hop(es, w[i].0, w[i].1, x) && ci_reach(es, x.0, x.1, e, p, (k - 1) as nat);
    assert(i != w.len() - 1);
    assert(ci_hop(es, w[i].0, w[i].1, w[i + 1]));
    lemma_walk_valid(es, w, i);
    lemma_hop_one(es, w[i].0, w[i].1, x, w[i + 1]);
    if x.0 >= es.len() {
      if k > 1 { let y = choose|y: (int, Seq<u32>)| #[trigger] ci_hop(es, x.0, x.1, y) && ci_reach(es, y.0, y.1, e, p, (k - 2) as nat); assert(false); }
      assert(false);
    }
    lemma_on_walk(es, w, i + 1, e, p, (k - 1) as nat);
  }
}
pub proof fn lemma_box_cell(b: BlockIterator, p: Seq<u32>, x: Box, v: Seq<u32>)
  requires box_of(b, p, x)
  ensures in_box(x, v) <==> in_cell(b, p, v)
{
  if in_box(x, v) { assert forall|px: u64| px < b.length_ implies bi_value(b, p, px) <= #[trigger] v[px as int] < bi_hi(b, p, px) by { assert(x[px as int].0 <= v[px as int] < x[px as int].1); } }
  if in_cell(b, p, v) { assert forall|i: int| 0 <= i < x.len() implies (#[trigger] x[i]).0 <= v[i] < x[i].1 by { let px = i as u64; assert(bi_value(b, p, px) <= v[px as int] < bi_hi(b, p, px)); assert(x[px as int].0 == bi_value(b, p, px)); } }
}
pub proof fn lemma_fine(b: BlockIterator, p: Seq<u32>, x: Box)
  requires bi_shape(b), simple(b), bi_valid(b, p), box_of(b, p, x), b.length_ > 0
  ensures fine_box(x), in_box(x, x.map(|i: int, t: (u32, u32)| t.0))
{
  assert forall|i: int| 0 <= i < x.len() implies (#[trigger] x[i]).0 < x[i].1 <= 0x3fff_ffff by {
    let px = i as u64;
    assert(x[px as int].0 == bi_value(b, p, px)); assert(d_ok(b, p, px));
    assert(b.blocks@.dom().contains(px) || b.sets@.dom().contains(px) || b.dependent_sets@.dom().contains(px));
    let k = lemma_in_ord(b, px); lemma_ord_kind(b, k);
    if b.blocks@.dom().contains(px) { assert(blk_ok(b.blocks@[px])); assert(b.blocks@[px].1 <= 0x3fff_ffff); }
    else if b.sets@.dom().contains(px) { assert(b.sets@[px]@[p[px as int] as int] < 0x3fff_ffff); }
    else { let c = lemma_coupled(b, k); lemma_ord_kind(b, c); let d = b.dependent_sets@[px]; assert(d_ok(b, p, d.0)); let l = p[d.0 as int]; assert(d.1@[l]@[p[px as int] as int] < 0x3fff_ffff); }
  }
}
pub proof fn lemma_tiled(c: ConfigNode, es: Seq<BlockIterator>, w: Seq<(int, Seq<u32>)>, bs: Seq<Box>)
  requires sound(es), walk(es, w), w.last().0 == es.len(), boxes(es, w, bs),
    covers(es, c.prime as int, pow(c.prime as int, c.prime_exponent as nat), 2 * c.genus + 1, 2 * c.genus + (if c.with_marked_point { 2int } else { 3int }))
  ensures tiled(c, bs)
{
  assert forall|v: Seq<u32>| #[trigger] wanted(c, v) implies exists|i: int| 0 <= i < bs.len() && #[trigger] in_box(bs[i], v) by {
    assert(in_one(es, v));
    let e = choose|e: int| 0 <= e < es.len() && #[trigger] member(es[e], v);
    assert(bi_inv(es[e]) && simple(es[e]));
    lemma_cell(es[e], v);
    let p = cell_of(es[e], v);
    let k = lemma_visits(es, e, p);
    lemma_on_walk(es, w, 0, e, p, k);
    lemma_box_cell(es[e], p, bs[k as int], v);
    assert(in_box(bs[k as int], v));
  }
  assert forall|v: Seq<u32>, i: int| 0 <= i < bs.len() && #[trigger] in_box(bs[i], v) implies wanted(c, v) && 0 <= w[i].0 < es.len() && member(es[w[i].0], v) && w[i].1 == cell_of(es[w[i].0], v) by {
    lemma_in(es, w, bs, i, v);
    assert(in_one(es, v));
  }
  assert forall|v: Seq<u32>, i: int, j: int| 0 <= i < bs.len() && 0 <= j < bs.len() && #[trigger] in_box(bs[i], v) && #[trigger] in_box(bs[j], v) implies i == j by {
    lemma_in(es, w, bs, i, v); lemma_in(es, w, bs, j, v);
    assert(w[i].0 == w[j].0); assert(w[i].1 == w[j].1);
    if i < j { lemma_walk_reach(es, w, i, j); lemma_walk_valid(es, w, i); lemma_no_return(es, w[i].0, w[i].1, w[j].0, w[j].1, (j - i) as nat); }
    if j < i { lemma_walk_reach(es, w, j, i); lemma_walk_valid(es, w, j); lemma_no_return(es, w[j].0, w[j].1, w[i].0, w[i].1, (i - j) as nat); }
  }
  assert forall|i: int| 0 <= i < bs.len() implies fine_box(#[trigger] bs[i]) && in_box(bs[i], bs[i].map(|i: int, t: (u32, u32)| t.0)) by {
    assert(ci_hop(es, w[i].0, w[i].1, w[i + 1]));
    lemma_walk_valid(es, w, i);
    assert(bi_inv(es[w[i].0])); assert(bi_ord(es[w[i].0]).len() > 0); assert(bi_ord(es[w[i].0])[0] < es[w[i].0].length_);
    lemma_fine(es[w[i].0], w[i].1, bs[i]);
  }
  assert forall|i: int, j: int| 0 <= i < bs.len() && 0 <= j < bs.len() && i != j implies bs[i] != bs[j] by {
    if bs[i] == bs[j] { let v = bs[i].map(|i: int, t: (u32, u32)| t.0); assert(in_box(bs[i], v)); assert(in_box(bs[j], v)); }
  }
}
pub proof fn lemma_in(es: Seq<BlockIterator>, w: Seq<(int, Seq<u32>)>, bs: Seq<Box>, i: int, v: Seq<u32>)
  requires sound(es), walk(es, w), boxes(es, w, bs), 0 <= i < bs.len(), in_box(bs[i], v)
  ensures 0 <= w[i].0 < es.len(), member(es[w[i].0], v), w[i].1 == cell_of(es[w[i].0], v)
{
  assert(ci_hop(es, w[i].0, w[i].1, w[i + 1]));
  lemma_walk_valid(es, w, i);
  let b = es[w[i].0];
  assert(box_of(b, w[i].1, bs[i]));
  lemma_box_cell(b, w[i].1, bs[i], v);
  assert(bi_inv(b) && simple(b));
  lemma_cell_only(b, w[i].1, v);
}
@end

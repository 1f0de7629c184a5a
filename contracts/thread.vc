# A worker thread (C15)
@tu src/threaded/thread.cc src/block_iterator.cc
@use block_iterator.vc
@prelude
type Block = CVec<(u32, u32)>;
pub struct TabH { pub g: Ghost<(u32, u32)> }
impl Clone for TabH { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for TabH {}
pub struct OclH { pub g: Ghost<int> }
impl Clone for OclH { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for OclH {}
pub struct RedH { pub g: Ghost<(u32, u32, OclH)> }
impl Clone for RedH { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for RedH {}
pub struct CFactory { pub g: Ghost<int> }
impl Clone for CFactory { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for CFactory {}
pub struct WPool { pub g: Ghost<int> }
impl Clone for WPool { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for WPool {}
pub struct PoolM { pub g: Ghost<int> }
impl Clone for PoolM { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for PoolM {}
pub struct CStdThread { pub g: Ghost<int> }
impl Clone for CStdThread { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for CStdThread {}
pub struct CCond { pub g: Ghost<int> }
impl Clone for CCond { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for CCond {}
// a curve: its field, its coefficients and what was counted
pub struct CurveH { pub g: Ghost<(TabH, Seq<u32>, Seq<RedH>)> }
impl Clone for CurveH { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for CurveH {}
pub uninterp spec fn squarefree(f: TabH, c: Seq<u32>) -> bool;
impl CurveH { pub open spec fn field(self) -> TabH { self.g@.0 } pub open spec fn coeffs(self) -> Seq<u32> { self.g@.1 } pub open spec fn counted(self) -> Seq<RedH> { self.g@.2 } }
#[verifier::external_body]
pub fn curve_new(f: TabH, c: CVec<u32>) -> (r: CurveH) ensures r.g@ == (f, c@, Seq::<RedH>::empty()) { unimplemented!() }
#[verifier::external_body]
pub fn curve_squarefree(c: CurveH) -> (r: bool) ensures r == squarefree(c.field(), c.coeffs()) { unimplemented!() }
#[verifier::external_body]
pub fn curve_count(c: CurveH, t: RedH) -> (r: CurveH) ensures r.g@ == (c.field(), c.coeffs(), c.counted().push(t)) { unimplemented!() }
pub struct StoreM { pub g: Ghost<Seq<CurveH>> }
impl Clone for StoreM { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for StoreM {}
impl StoreM { pub open spec fn view(self) -> Seq<CurveH> { self.g@ } }
#[verifier::external_body]
pub fn factory_create(f: CFactory) -> (r: SPtr<StoreM>) ensures !r.is_null(), r@@ == Seq::<CurveH>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn store_register(s: StoreM, c: CurveH) -> (r: StoreM) ensures r@ == s@.push(c) { unimplemented!() }
#[verifier::external_body]
pub fn tab_new(p: u32, n: u32) -> (r: TabH) ensures r.g@ == (p, n) { unimplemented!() }
#[verifier::external_body]
pub fn red_new(p: u32, n: u64, o: OclH) -> (r: RedH) ensures r.g@ == (p, n as u32, o) { unimplemented!() }
#[verifier::external_body]
pub fn no_opencl() -> (r: OclH) { unimplemented!() }
// a pool joins its threads before it goes
#[verifier::external_body]
pub fn wpool_lock(w: WPool) -> (r: SPtr<PoolM>) ensures !r.is_null() { unimplemented!() }
// what a worker is given, and what it has done
pub struct CJobs { pub g: Ghost<Seq<(Block, TabH, CVec<RedH>)>> }
impl Clone for CJobs { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for CJobs {}
impl CJobs { pub open spec fn view(self) -> Seq<(Block, TabH, CVec<RedH>)> { self.g@ } }
pub enum Event { Stored(Block, Seq<CurveH>), Finished(Block) }
pub struct CDone { pub g: Ghost<Seq<Event>> }
impl Clone for CDone { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for CDone {}
impl CDone { pub open spec fn view(self) -> Seq<Event> { self.g@ } }
// the state that the last wake-up call of the worker has announced
pub struct CWoken { pub g: Ghost<(Seq<(Block, TabH, CVec<RedH>)>, bool)> }
impl Clone for CWoken { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for CWoken {}
pub open spec fn announced(t: Thread) -> bool { t.woken.g@ == (t.blocks@, t.shutting_down) }
#[verifier::external_body]
pub fn thread_notify(t: Thread) -> (r: Thread) ensures r == (Thread { woken: r.woken, ..t }), r.woken.g@ == (t.blocks@, t.shutting_down) { unimplemented!() }
// the worker sleeps only when there is nothing to do; meanwhile others have the mutex
#[verifier::external_body]
pub fn thread_wait(t: Thread) -> (r: Thread)
  requires t.data_mutex.held(), t.blocks@.len() == 0, !t.shutting_down
  ensures worker_rely(t, r), r.data_mutex == t.data_mutex
{ unimplemented!() }
pub open spec fn box_ok(b: Block) -> bool { 0 < b@.len() <= 0xffff_ffff && forall|i: int| 0 <= i < b@.len() ==> (#[trigger] b@[i]).0 < b@[i].1 <= 0x8000_0000 }
pub open spec fn jobs_ok(s: Seq<(Block, TabH, CVec<RedH>)>) -> bool { forall|i: int| 0 <= i < s.len() ==> box_ok(#[trigger] s[i].0) }
// others only append jobs, and ask for the end
pub open spec fn worker_rely(t: Thread, r: Thread) -> bool {
  &&& r == (Thread { blocks: r.blocks, all: r.all, shutting_down: r.shutting_down, data_mutex: r.data_mutex, ..t })
  &&& t.blocks@.len() <= r.blocks@.len() && r.blocks@.take(t.blocks@.len() as int) =~= t.blocks@
  &&& r.all@ =~= t.all@ + r.blocks@.skip(t.blocks@.len() as int)
  &&& jobs_ok(r.blocks@.skip(t.blocks@.len() as int))
  &&& t.shutting_down ==> r.shutting_down
}
#[verifier::external_body]
pub fn worker_env(t: Thread) -> (r: Thread) ensures worker_rely(t, r), r.data_mutex == t.data_mutex { unimplemented!() }
// the worker only takes jobs from the front
pub open spec fn owner_rely(t: Thread, r: Thread) -> bool {
  &&& r == (Thread { blocks: r.blocks, done: r.done, data_mutex: r.data_mutex, ..t })
  &&& r.blocks@.len() <= t.blocks@.len() && r.blocks@ == t.blocks@.skip(t.blocks@.len() - r.blocks@.len())
}
#[verifier::external_body]
pub fn owner_env(t: Thread) -> (r: Thread) ensures owner_rely(t, r), r.data_mutex == t.data_mutex { unimplemented!() }
#[verifier::external_body]
pub fn std_thread(t: Thread, f: CFactory) -> (r: CStdThread) requires !t.shutting_down, f == t.store_factory { unimplemented!() }
// who waits for the worker to end has asked it to, and lets it have the mutex
#[verifier::external_body]
pub fn thread_join(t: Thread) requires t.shutting_down, !t.data_mutex.held(), announced(t) { unimplemented!() }
// the results are handed over with the block, without the mutex
#[verifier::external_body]
pub fn thread_flush(t: Thread, s: StoreM, b: Block) -> (r: Thread)
  requires !t.data_mutex.held()
  ensures r == (Thread { done: r.done, ..t }), r.done@ == t.done@.push(Event::Stored(b, s@))
{ unimplemented!() }
#[verifier::external_body]
pub fn thread_finished(t: Thread, p: SPtr<PoolM>, b: Block) -> (r: Thread)
  requires !t.data_mutex.held(), !p.is_null()
  ensures r == (Thread { done: r.done, ..t }), r.done@ == t.done@.push(Event::Finished(b))
{ unimplemented!() }
// what is registered before the current position of the iterator
pub open spec fn passed(b: BlockIterator, c: Seq<u32>) -> bool { b.has_reached_end || lex(b, c, b.position@) }
pub open spec fn sofar(s: Seq<CurveH>, j: (Block, TabH, CVec<RedH>), b: BlockIterator) -> bool {
  &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).field() == j.1 && s[i].counted() == j.2@
  &&& forall|i: int, k: int| 0 <= i < k < s.len() ==> s[i].coeffs() != s[k].coeffs()
  &&& forall|c: Seq<u32>| #[trigger] has_curve(s, c) <==> in_box(j.0@, c) && squarefree(j.1, c) && passed(b, c)
}
pub open spec fn iter_ok(b: BlockIterator, j: Block) -> bool { bi_inv(b) && describes_box(b, j@) && forall|px: u64| px < j@.len() ==> (#[trigger] b.blocks@[px]).2 == 1 }
pub proof fn lemma_box(b: BlockIterator, j: Block, c: Seq<u32>)
  requires iter_ok(b, j), box_ok(j)
  ensures bi_valid(b, c) <==> in_box(j@, c)
{
  if bi_valid(b, c) { assert forall|i: int| 0 <= i < j@.len() implies j@[i].0 <= #[trigger] c[i] < j@[i].1 by { assert(d_ok(b, c, i as u64)); assert(b.blocks@.dom().contains(i as u64)); } }
  if in_box(j@, c) { assert forall|px: u64| px < b.length_ implies #[trigger] d_ok(b, c, px) by { assert(b.blocks@.dom().contains(px)); assert(b.blocks@[px].2 == 1); assert(j@[px as int].0 <= c[px as int] < j@[px as int].1); assert((c[px as int] - d_min(b, px)) % 1 == 0); } }
}
pub proof fn lemma_lex_trans(b: BlockIterator, p: Seq<u32>, q: Seq<u32>, r: Seq<u32>)
  requires lex(b, p, q), lex(b, q, r)
  ensures lex(b, p, r)
{
  let i = choose|i: int| lex_at(b, p, q, i); let k = choose|i: int| lex_at(b, q, r, i);
  let m = if i < k { k } else { i };
  assert(lex_at(b, p, r, m));
}
pub proof fn lemma_start(b: BlockIterator, j: (Block, TabH, CVec<RedH>), s: Seq<CurveH>)
  requires iter_ok(b, j.0), box_ok(j.0), !b.has_reached_end, s.len() == 0, forall|q: Seq<u32>| bi_valid(b, q) ==> !#[trigger] lex(b, q, b.position@)
  ensures sofar(s, j, b)
{
  assert forall|c: Seq<u32>| #[trigger] has_curve(s, c) <==> in_box(j.0@, c) && squarefree(j.1, c) && passed(b, c) by { lemma_box(b, j.0, c); }
}
pub proof fn lemma_next(a: BlockIterator, b: BlockIterator, j: (Block, TabH, CVec<RedH>), s: Seq<CurveH>, t: Seq<CurveH>)
  requires iter_ok(a, j.0), box_ok(j.0), !a.has_reached_end, bi_same(a, b), bi_inv(b), sofar(s, j, a),
    !b.has_reached_end ==> bi_valid(a, b.position@) && lex(a, a.position@, b.position@) && forall|r: Seq<u32>| bi_valid(a, r) && lex(a, a.position@, r) ==> !#[trigger] lex(a, r, b.position@),
    b.has_reached_end ==> forall|r: Seq<u32>| bi_valid(a, r) ==> !#[trigger] lex(a, a.position@, r),
    if squarefree(j.1, a.position@) { t.len() == s.len() + 1 && t.drop_last() =~= s && t.last().field() == j.1 && t.last().coeffs() == a.position@ && t.last().counted() == j.2@ } else { t == s }
  ensures sofar(t, j, b), iter_ok(b, j.0)
{
  let p = a.position@;
  let n = s.len() as int;
  assert forall|px: u64| px < j.0@.len() implies (#[trigger] b.blocks@[px]).2 == 1 by { assert(a.blocks@[px].2 == 1); }
  lemma_same(a, b);
  lemma_box(a, j.0, p);
  assert forall|i: int, k: int| 0 <= i < k < t.len() implies t[i].coeffs() != t[k].coeffs() by {
    assert(t[i] == s[i]);
    if k < n { assert(t[k] == s[k]); }
    else if t[i].coeffs() == p { assert(has_curve(s, p)); assert(lex(a, p, p)); let z = choose|z: int| lex_at(a, p, p, z); assert(false); }
  }
  assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).field() == j.1 && t[i].counted() == j.2@ by { if i < n { assert(t[i] == s[i]); } }
  assert forall|c: Seq<u32>| #[trigger] has_curve(t, c) <==> in_box(j.0@, c) && squarefree(j.1, c) && passed(b, c) by {
    lemma_box(a, j.0, c);
    if has_curve(t, c) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).coeffs() == c; if i < n { assert(s[i] == t[i]); assert(has_curve(s, c)); } else { assert(c == p); } }
    if has_curve(s, c) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).coeffs() == c; assert(t[i] == s[i]); }
    if c == p && squarefree(j.1, p) { assert(t[n].coeffs() == c); }
    if bi_valid(a, c) {
      lemma_lex_total(a, c, p, 0int + bi_ord(a).len());
      if !b.has_reached_end {
        let q = b.position@;
        if lex(a, c, p) { lemma_lex_trans(a, c, p, q); }
        assert(lex(a, c, q) == lex(b, c, q)) by { if lex(a, c, q) { let z = choose|z: int| lex_at(a, c, q, z); assert(lex_at(b, c, q, z)); } if lex(b, c, q) { let z = choose|z: int| lex_at(b, c, q, z); assert(lex_at(a, c, q, z)); } }
      }
    }
  }
}
pub proof fn lemma_rely(t: Thread, r: Thread)
  requires state(t), worker_rely(t, r)
  ensures state(r)
{
  let n = t.done@.len() as int / 2;
  assert forall|i: int| 0 <= i < r.all@.len() implies box_ok(#[trigger] r.all@[i].0) by { if i < t.all@.len() { assert(r.all@[i] == t.all@[i]); } else { assert(r.all@[i] == r.blocks@.skip(t.blocks@.len() as int)[i - t.all@.len()]); } }
  assert forall|i: int| 0 <= i < n implies #[trigger] did(r.done@, i, r.all@[i]) by { assert(r.all@[i] == t.all@[i]); assert(did(t.done@, i, t.all@[i])); }
  assert(r.blocks@ =~= t.blocks@ + r.blocks@.skip(t.blocks@.len() as int));
}
pub proof fn lemma_finish(t: Thread, r: Thread, j: (Block, TabH, CVec<RedH>), s: Seq<CurveH>)
  requires jobs_ok(t.all@), t.done@.len() % 2 == 0, t.done@.len() < 2 * t.all@.len(), t.blocks@ =~= t.all@.skip(t.done@.len() as int / 2 + 1), t.all@[t.done@.len() as int / 2] == j,
    forall|i: int| 0 <= i < t.done@.len() as int / 2 ==> #[trigger] did(t.done@, i, t.all@[i]),
    r.all == t.all, r.blocks == t.blocks, r.done@ == t.done@.push(Event::Stored(j.0, s)).push(Event::Finished(j.0)), complete(s, j)
  ensures state(r)
{
  let n = t.done@.len() as int / 2;
  assert forall|i: int| 0 <= i < r.done@.len() as int / 2 implies #[trigger] did(r.done@, i, r.all@[i]) by {
    if i < n { assert(did(t.done@, i, t.all@[i])); let s = choose|s: Seq<CurveH>| t.done@[2 * i] == Event::Stored(t.all@[i].0, s) && #[trigger] complete(s, t.all@[i]) && t.done@[2 * i + 1] == Event::Finished(t.all@[i].0); assert(complete(s, r.all@[i])); }
    else { assert(complete(s, r.all@[i])); assert(r.done@[2 * i] == Event::Stored(j.0, s)); }
  }
}
pub open spec fn mul(a: int, b: int) -> int { a * b }
pub proof fn lemma_mul(k: int, e: int, c: int)
  requires e > 0, 0 <= k <= c
  ensures mul(k - 1, e) == mul(k, e) - e, mul(k, e) <= mul(c, e), mul(k, e) > 0 <==> k > 0, k > 0 ==> mul(k, e) >= e
{ assert((k - 1) * e == k * e - e) by (nonlinear_arith); assert(k * e <= c * e) by (nonlinear_arith) requires e > 0, k <= c; assert(k > 0 ==> k * e >= e) by (nonlinear_arith) requires e > 0; assert(k == 0 ==> k * e == 0) by (nonlinear_arith); }
pub open spec fn in_box(b: Seq<(u32, u32)>, c: Seq<u32>) -> bool { c.len() == b.len() && forall|i: int| 0 <= i < b.len() ==> b[i].0 <= #[trigger] c[i] < b[i].1 }
pub open spec fn has_curve(s: Seq<CurveH>, c: Seq<u32>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).coeffs() == c }
// each curve of the block with a squarefree right hand side, once, counted with all tables
pub open spec fn complete(s: Seq<CurveH>, j: (Block, TabH, CVec<RedH>)) -> bool {
  &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).field() == j.1 && s[i].counted() == j.2@
  &&& forall|i: int, k: int| 0 <= i < k < s.len() ==> s[i].coeffs() != s[k].coeffs()
  &&& forall|c: Seq<u32>| #[trigger] has_curve(s, c) <==> in_box(j.0@, c) && squarefree(j.1, c)
}
pub open spec fn did(d: Seq<Event>, i: int, j: (Block, TabH, CVec<RedH>)) -> bool { exists|s: Seq<CurveH>| d[2 * i] == Event::Stored(j.0, s) && #[trigger] complete(s, j) && d[2 * i + 1] == Event::Finished(j.0) }
// the first jobs are done, in order, and those in the queue are left
pub open spec fn state(t: Thread) -> bool {
  &&& t.done@.len() % 2 == 0 && t.done@.len() <= 2 * t.all@.len() && t.blocks@ =~= t.all@.skip(t.done@.len() as int / 2)
  &&& forall|i: int| 0 <= i < t.done@.len() as int / 2 ==> #[trigger] did(t.done@, i, t.all@[i])
  &&& jobs_ok(t.all@)
}
@end
@fn spark = Thread::spark
@ensures runs: !res.this.shutting_down
@ensures frame: res.this == (Thread { shutting_down: false, main_std_thread: res.this.main_std_thread, ..this0 })

@fn update_config = Thread::update_config
@requires small: config0.count_exponent * config0.prime_exponent < 0x1_0000_0000 && config0.prime_exponent > 0
@ensures table: res.this.fq_table.g@ == (config0.prime, config0.prime_exponent)
@ensures tables: res.this.reduction_tables@.len() == config0.count_exponent && forall|i: int| 0 <= i < config0.count_exponent ==> (#[trigger] res.this.reduction_tables@[i]).g@ == (config0.prime, ((config0.count_exponent - i) * config0.prime_exponent) as u32, this0.opencl)
@ensures frame: res.this == (Thread { fq_table: res.this.fq_table, reduction_tables: res.this.reduction_tables, ..this0 })
@loop 1
@inv made: this == (Thread { fq_table: this.fq_table, reduction_tables: this.reduction_tables, ..this0 }) && this.fq_table.g@ == (config0.prime, config0.prime_exponent) && config == config0
@inv degree: exists|k: int| fx == #[trigger] mul(k, config0.prime_exponent as int) && 0 <= k <= config0.count_exponent && this.reduction_tables@.len() == config0.count_exponent - k
@inv tables: forall|i: int| 0 <= i < this.reduction_tables@.len() ==> (#[trigger] this.reduction_tables@[i]).g@ == (config0.prime, mul(config0.count_exponent - i, config0.prime_exponent as int) as u32, this0.opencl)
@proof begin
  proof { assert(mul(config0.count_exponent as int, config0.prime_exponent as int) == config0.count_exponent * config0.prime_exponent); }
@end
@proof loop 1 begin
  let ghost k = choose|k: int| fx == #[trigger] mul(k, config0.prime_exponent as int) && 0 <= k <= config0.count_exponent && this.reduction_tables@.len() == config0.count_exponent - k;
  proof { lemma_mul(k, config0.prime_exponent as int, config0.count_exponent as int); }
@end
@proof loop 1 endinc
  proof { assert(fx == mul(k - 1, config0.prime_exponent as int)); }
@end
@proof after loop 1
  proof {
    let k = choose|k: int| fx == #[trigger] mul(k, config0.prime_exponent as int) && 0 <= k <= config0.count_exponent && this.reduction_tables@.len() == config0.count_exponent - k;
    lemma_mul(k, config0.prime_exponent as int, config0.count_exponent as int);
    assert forall|i: int| 0 <= i < config0.count_exponent implies (#[trigger] this.reduction_tables@[i]).g@ == (config0.prime, ((config0.count_exponent - i) * config0.prime_exponent) as u32, this0.opencl) by { assert(this.reduction_tables@[i].g@ == (config0.prime, mul(config0.count_exponent - i, config0.prime_exponent as int) as u32, this0.opencl)); }
  }
@end

@fn assign = Thread::assign
@requires free: !this0.data_mutex.held()
@requires box: box_ok(block0)
@ensures free: !res.this.data_mutex.held()
@ensures appended: res.this.blocks@.len() > 0 && res.this.blocks@.last() == (block0, this0.fq_table, this0.reduction_tables) && res.this.blocks@.len() <= this0.blocks@.len() + 1 && res.this.blocks@.drop_last() =~= this0.blocks@.skip(this0.blocks@.len() - res.this.blocks@.len() + 1)
@ensures woken: announced(res.this)
@ensures frame: res.this == (Thread { blocks: res.this.blocks, done: res.this.done, woken: res.this.woken, data_mutex: res.this.data_mutex, ..this0 })

@fn shutdown = Thread::shutdown
@requires free: !this0.data_mutex.held()
@ensures ends: res.this.shutting_down && !res.this.data_mutex.held()

@fn main_thread = Thread::main_thread
@requires fresh: !thread0.is_null() && !thread0@.data_mutex.held() && state(thread0@)
@loop 1
@inv state: !thread.is_null() && !thread@.data_mutex.held() && state(thread@)
@proof loop 1 begin
  let ghost t0 = thread@;
@end
@proof loop 1 end
  proof { lemma_finish(tp, thread@, job, regs); }
@end
@proof after lock
  proof { lemma_rely(Thread { data_mutex: thread@.data_mutex, ..t0 }, thread@); }
@end
@loop 2
@inv state: !thread.is_null() && thread@.data_mutex.held() && state(thread@)
@proof before wait
  let ghost w = thread@;
@end
@proof after wait
  proof { lemma_rely(w, thread@); }
@end
@loop 3
@inv same: !store.is_null() && thread == th3
@inv iter: iter_ok(iter, block)
@inv registered: sofar(store@@, job, iter)
@proof before loop 3
  let ghost tp = thread@; let ghost th3 = thread; let ghost job = (block, fq_table, reduction_tables);
  proof { lemma_start(iter, job, store@@); }
@end
@proof loop 3 begin
  let ghost s3 = store@@; let ghost i3 = iter;
@end
@proof after bi_as_position
  proof { assert($r.ret@ =~= i3.position@) by { assert forall|i: int| 0 <= i < i3.length_ implies #[trigger] $r.ret@[i] == i3.position@[i] by { assert($r.ret@[i as u64 as int] == bi_value(i3, i3.position@, i as u64)); } } }
@end
@proof before bi_step
  let ghost i4 = iter;
@end
@proof after bi_step
  proof { lemma_next(i4, $r.this, job, s3, store@@); }
@end
@proof after loop 3
  let ghost regs = store@@;
@end
@loop 4
@inv counted: i3 == iter && s3 == store@@ && curve.field() == fq_table && curve.coeffs() == c4.coeffs() && it4 <= reduction_tables@.len() && curve.counted() =~= reduction_tables@.take(it4 as int)
@proof before loop 4
  let ghost c4 = curve;
@end
@proof return
  assert(state(thread@) && thread@.shutting_down && !thread@.data_mutex.held()); // [main_thread.ended]
@end
@proof after loop 4
  proof { assert(curve.counted() =~= reduction_tables@); assert(curve.coeffs() == i3.position@); }
@end

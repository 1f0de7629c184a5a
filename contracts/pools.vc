# ThreadPool, worker pools (C16)
@tu src/threaded/thread_pool.cc src/worker_pool/standalone.cc
@prelude
type Block = CVec<(u32, u32)>;
pub struct THandle { pub g: Ghost<(int, bool)> }
impl Clone for THandle { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for THandle {}
impl THandle { pub open spec fn id(self) -> int { self.g@.0 } pub open spec fn opencl(self) -> bool { self.g@.1 } }
pub struct CFactory { pub g: Ghost<int> }
impl Clone for CFactory { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for CFactory {}
pub struct CTime { pub g: Ghost<int> }
impl Clone for CTime { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for CTime {}
pub struct CBorn { pub g: Ghost<int> }
impl Clone for CBorn { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for CBorn {}
#[verifier::external_body]
pub fn hardware_threads() -> (r: u32) ensures 0 < r < 0x100_0000 { unimplemented!() }
#[verifier::external_body]
pub fn mutex_new() -> (r: CMutex) ensures !r.held() { unimplemented!() }
// what the pool has told its threads, in order
pub enum Order { Spark(THandle), Stop(THandle), Config(THandle, ConfigNode), Start(THandle, Block) }
pub struct COrders { pub g: Ghost<Seq<Order>> }
impl Clone for COrders { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for COrders {}
impl COrders { pub open spec fn view(self) -> Seq<Order> { self.g@ } }
pub open spec fn start_of(a: Seq<Order>, t: THandle, x: Block) -> Seq<Order> { a.push(Order::Start(t, x)) }
pub open spec fn starts(a: Seq<Order>, b: Seq<Order>, x: Block) -> bool { exists|t: THandle| b == #[trigger] start_of(a, t, x) }
#[verifier::external_body]
pub fn order_spark(o: COrders, t: THandle) -> (r: COrders) ensures r@ == o@.push(Order::Spark(t)) { unimplemented!() }
#[verifier::external_body]
pub fn order_stop(o: COrders, t: THandle) -> (r: COrders) ensures r@ == o@.push(Order::Stop(t)) { unimplemented!() }
#[verifier::external_body]
pub fn order_config(o: COrders, t: THandle, c: ConfigNode) -> (r: COrders) ensures r@ == o@.push(Order::Config(t, c)) { unimplemented!() }
#[verifier::external_body]
pub fn order_start(o: COrders, t: THandle, b: Block) -> (r: COrders) ensures r@ == o@.push(Order::Start(t, b)) { unimplemented!() }
#[verifier::external_body]
pub fn thread_is_opencl(t: THandle) -> (r: bool) ensures r == t.opencl() { unimplemented!() }
#[verifier::external_body]
pub fn thread_new(born: CBorn, ocl: bool) -> (r: (THandle, CBorn)) ensures r.0.id() == born.g@, r.0.opencl() == ocl, r.1.g@ == born.g@ + 1 { unimplemented!() }
// a block is handed to a thread which the pool knows to work on it, and on nothing else
#[verifier::external_body]
pub fn thread_idle_check(p: ThreadPool, t: THandle, b: Block)
  requires !p.idle_threads@.contains(t), !p.ready_threads@.contains(t), p.busy_threads@.dom().contains(b) && p.busy_threads@[b] == t
{ unimplemented!() }
pub open spec fn distinct<T>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }
pub open spec fn is_busy(m: Map<Block, THandle>, t: THandle) -> bool { exists|b: Block| #[trigger] m.dom().contains(b) && m[b] == t }
// every thread is in exactly one place, every block in at most one
pub open spec fn places(p: ThreadPool) -> bool {
  &&& distinct(p.idle_threads@) && distinct(p.ready_threads@)
  &&& p.busy_threads@.dom().finite() && p.idle_threads@.len() + p.ready_threads@.len() + p.busy_threads@.dom().len() == p.threads@.len() && p.threads@.len() < 0x8000_0000
  &&& forall|t: THandle| #[trigger] p.idle_threads@.contains(t) ==> !p.ready_threads@.contains(t)
  &&& forall|b: Block| #[trigger] p.busy_threads@.dom().contains(b) ==> !p.idle_threads@.contains(p.busy_threads@[b]) && !p.ready_threads@.contains(p.busy_threads@[b])
  &&& forall|a: Block, b: Block| #![trigger p.busy_threads@.dom().contains(a), p.busy_threads@.dom().contains(b)] p.busy_threads@.dom().contains(a) && p.busy_threads@.dom().contains(b) && a != b ==> p.busy_threads@[a] != p.busy_threads@[b]
  &&& forall|t: THandle| #[trigger] p.threads@.contains(t) <==> p.idle_threads@.contains(t) || p.ready_threads@.contains(t) || is_busy(p.busy_threads@, t)
}
pub open spec fn blocks_ok(p: ThreadPool) -> bool {
  &&& distinct(p.finished_blocks@)
  &&& forall|b: Block| #[trigger] p.finished_blocks@.contains(b) ==> !p.busy_threads@.dom().contains(b)
  &&& forall|b: Block| #[trigger] p.busy_threads@.dom().contains(b) ==> p.unsaved@.contains(b)
}
// threads with a device come first
pub open spec fn split_at(s: Seq<THandle>, k: int) -> bool { 0 <= k <= s.len() && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).opencl() == (i < k)) }
pub open spec fn pool_ok(p: ThreadPool) -> bool { places(p) && blocks_ok(p) && !p.data_mutex.held() }
// blocks that are assigned and not yet reported
pub open spec fn outstanding(p: ThreadPool) -> Set<Block> { p.busy_threads@.dom() + p.finished_blocks@.to_set() }
pub proof fn lemma_push<T>(s: Seq<T>, t: T)
  ensures forall|x: T| #[trigger] s.push(t).contains(x) <==> s.contains(x) || x == t, distinct(s) && !s.contains(t) ==> distinct(s.push(t))
{
  let u = s.push(t); assert(u[s.len() as int] == t);
  assert forall|x: T| #[trigger] u.contains(x) implies s.contains(x) || x == t by { let i = choose|i: int| 0 <= i < u.len() && u[i] == x; if i < s.len() { assert(s[i] == x); } }
  assert forall|x: T| s.contains(x) implies #[trigger] u.contains(x) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(u[i] == x); }
  if !s.contains(t) { assert forall|i: int| 0 <= i < s.len() implies s[i] != t by { assert(s.contains(s[i])); } }
}
pub proof fn lemma_front<T>(s: Seq<T>, t: T)
  ensures forall|x: T| #[trigger] (seq![t] + s).contains(x) <==> s.contains(x) || x == t, distinct(s) && !s.contains(t) ==> distinct(seq![t] + s)
{
  let u = seq![t] + s; assert(u[0] == t);
  assert forall|x: T| #[trigger] u.contains(x) implies s.contains(x) || x == t by { let i = choose|i: int| 0 <= i < u.len() && u[i] == x; if i > 0 { assert(s[i - 1] == x); } }
  assert forall|x: T| s.contains(x) implies #[trigger] u.contains(x) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(u[i + 1] == x); }
  if !s.contains(t) { assert forall|i: int| 0 <= i < s.len() implies s[i] != t by { assert(s.contains(s[i])); } }
}
// what the threads of the pool may do at any time: finish a block that was assigned
pub open spec fn rely(p: ThreadPool, q: ThreadPool) -> bool {
  &&& q.threads == p.threads && q.idle_threads == p.idle_threads && q.orders == p.orders && q.unsaved == p.unsaved && q.flushed == p.flushed && q.born == p.born && q.store_factory == p.store_factory
  &&& outstanding(q) =~= outstanding(p)
  &&& q.busy_threads@.dom().subset_of(p.busy_threads@.dom())
  &&& places(q) && blocks_ok(q)
}
#[verifier::external_body]
pub fn pool_env(p: ThreadPool) -> (r: ThreadPool)
  requires places(p), blocks_ok(p)
  ensures rely(p, r), r.data_mutex == p.data_mutex
{ unimplemented!() }
// the files of a configuration
pub struct FsH { pub g: Ghost<ConfigNode> }
impl Clone for FsH { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for FsH {}
impl FsH { pub open spec fn config(self) -> ConfigNode { self.g@ } }
pub uninterp spec fn recorded(f: FsH, b: Block) -> bool;
#[verifier::external_body]
pub fn fs_new(c: ConfigNode) -> (r: FsH) ensures r.config() == c { unimplemented!() }
#[verifier::external_body]
pub fn fs_contains(f: FsH, b: Block) -> (r: bool) ensures r == recorded(f, b) { unimplemented!() }
pub struct CSaves { pub g: Ghost<Seq<(FsH, (CVec<u8>, CVec<u8>))>> }
impl Clone for CSaves { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for CSaves {}
impl CSaves { pub open spec fn view(self) -> Seq<(FsH, (CVec<u8>, CVec<u8>))> { self.g@ } }
#[verifier::external_body]
pub fn fs_save(s: CSaves, f: FsH, x: (CVec<u8>, CVec<u8>)) -> (r: CSaves) ensures r@ == s@.push((f, x)) { unimplemented!() }
// the results of everything that is finished are taken out of the store of the process
#[verifier::external_body]
pub fn pool_flush_store(p: ThreadPool) -> (r: ((CVec<u8>, CVec<u8>), ThreadPool))
  requires places(p), blocks_ok(p)
  ensures rely(ThreadPool { unsaved: r.1.unsaved, flushed: r.1.flushed, ..p }, r.1), r.1.data_mutex == p.data_mutex,
    r.1.unsaved@ =~= r.1.busy_threads@.dom(), r.1.flushed@ == p.flushed@.push(r.0)
{ unimplemented!() }
pub struct CFlushed { pub g: Ghost<Seq<(CVec<u8>, CVec<u8>)>> }
impl Clone for CFlushed { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for CFlushed {}
impl CFlushed { pub open spec fn view(self) -> Seq<(CVec<u8>, CVec<u8>)> { self.g@ } }
#[verifier::external_body]
pub fn flushed_new() -> (r: CFlushed) ensures r@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn saves_new() -> (r: CSaves) ensures r@.len() == 0 { unimplemented!() }
// the files of a configuration are left only when all results of its blocks are in them
#[verifier::external_body]
pub fn config_done(p: SPtr<ThreadPool>)
  requires outstanding(p@) =~= Set::<Block>::empty(), p@.unsaved@ =~= Set::<Block>::empty()
{ unimplemented!() }
pub open spec fn wp_base(w: StandaloneWorkerPool) -> bool {
  &&& !w.master_thread_pool.is_null() && pool_ok(w.master_thread_pool@)
  &&& w.assigned_blocks@ =~= outstanding(w.master_thread_pool@)
  &&& split_at(w.master_thread_pool@.idle_threads@, w.nmb_opencl_idle as int) && w.master_thread_pool@.idle_threads@.len() == w.nmb_opencl_idle + w.nmb_cpu_idle
  &&& w.file_store.is_null() ==> w.assigned_blocks@ =~= Set::<Block>::empty() && w.master_thread_pool@.unsaved@ =~= Set::<Block>::empty()
  &&& w.master_thread_pool@.threads@.len() > 0
}
pub proof fn lemma_take_more<T>(s: Seq<T>, k: int)
  requires 0 <= k < s.len(), distinct(s)
  ensures s.take(k + 1) == s.take(k).push(s[k]), !s.take(k).contains(s[k]), s.contains(s[k]), forall|x: T| #[trigger] s.take(k + 1).contains(x) <==> s.take(k).contains(x) || x == s[k]
{
  assert(s.take(k + 1) =~= s.take(k).push(s[k]));
  if s.take(k).contains(s[k]) { let i = choose|i: int| 0 <= i < s.take(k).len() && s.take(k)[i] == s[k]; assert(s[i] == s[k]); }
  lemma_push(s.take(k), s[k]);
}
// everything taken out of the store is saved once
pub open spec fn saved_all(w: StandaloneWorkerPool) -> bool {
  w.saves@.len() == w.master_thread_pool@.flushed@.len() && forall|i: int| 0 <= i < w.saves@.len() ==> (#[trigger] w.saves@[i]).1 == w.master_thread_pool@.flushed@[i]
}
pub open spec fn wp_ok(w: StandaloneWorkerPool) -> bool { wp_base(w) && saved_all(w) }
// the orders to the threads and the saves only grow
pub open spec fn same_orders(w: StandaloneWorkerPool, u: StandaloneWorkerPool) -> bool { u.master_thread_pool@.orders == w.master_thread_pool@.orders && u.master_thread_pool@.threads == w.master_thread_pool@.threads }
pub open spec fn saves_to(w: StandaloneWorkerPool, u: StandaloneWorkerPool) -> bool {
  &&& w.saves@.len() <= u.saves@.len() && u.saves@.take(w.saves@.len() as int) =~= w.saves@
  &&& forall|i: int| w.saves@.len() <= i < u.saves@.len() ==> (#[trigger] u.saves@[i]).0 == w.file_store@
}
@end
@fn finished_block = ThreadPool::finished_block
@requires pool: pool_ok(this0) && this0.busy_threads@.dom().contains(block0)
@ensures guarantee: rely(this0, res.this)
@ensures reported: res.this.finished_blocks@ == this0.finished_blocks@.push(block0)
@ensures free: res.this.busy_threads@ == this0.busy_threads@.remove(block0) && res.this.ready_threads@ == this0.ready_threads@.push(this0.busy_threads@[block0])
@ensures atomic: !res.this.data_mutex.held() && res.this.data_mutex.times() == this0.data_mutex.times() + 1
@proof return
proof {
  let t = this0.busy_threads@[block0]; let s = this0.ready_threads@; let u = this.ready_threads@; let m = this0.busy_threads@; let n = this.busy_threads@;
  lemma_push(s, t); lemma_push(this0.finished_blocks@, block0);
  assert forall|x: THandle| is_busy(n, x) implies #[trigger] is_busy(m, x) by { let b = choose|b: Block| #[trigger] n.dom().contains(b) && n[b] == x; assert(m.dom().contains(b)); }
  assert forall|x: THandle| #[trigger] is_busy(m, x) implies is_busy(n, x) || x == t by { let b = choose|b: Block| #[trigger] m.dom().contains(b) && m[b] == x; if b != block0 { assert(n.dom().contains(b)); } }
  assert(is_busy(m, t));
  assert(!s.contains(t)) by { assert(places(this0)); assert(m.dom().contains(block0)); }
}
@end
@fn assign = ThreadPool::assign
@requires pool: pool_ok(this0) && !outstanding(this0).contains(block0)
@requires thread: exists|k: int| split_at(this0.idle_threads@, k) && (if opencl0 { 0 < k } else { k < this0.idle_threads@.len() })
@ensures places: places(res.this)
@ensures blocks: blocks_ok(res.this)
@ensures taken: res.this.idle_threads@ == (if opencl0 { this0.idle_threads@.skip(1) } else { this0.idle_threads@.drop_last() })
@ensures started: exists|t: THandle| this0.idle_threads@.contains(t) && t.opencl() == opencl0 && res.this.orders@ == #[trigger] start_of(this0.orders@, t, block0)
@ensures outstanding: outstanding(res.this) =~= outstanding(this0).insert(block0)
@ensures unsaved: res.this.unsaved@ =~= this0.unsaved@.insert(block0)
@ensures frame: res.this.flushed == this0.flushed && res.this.threads == this0.threads && res.this.born == this0.born && res.this.store_factory == this0.store_factory
@ensures atomic: !res.this.data_mutex.held() && res.this.data_mutex.times() == this0.data_mutex.times() + 1
@proof after lock
let ghost mid = this;
proof {
  let s = this.idle_threads@; let t = if opencl { s[0] } else { s.last() };
  assert(s.contains(t)); assert(this.threads@.contains(t));
}
@end
@proof return
proof {
  let s = mid.idle_threads@; let t = if opencl { s[0] } else { s.last() }; let u = this.idle_threads@;
  assert(this.busy_threads@.dom().contains(block0)); assert(this.orders@ == start_of(mid.orders@, t, block0));
  assert forall|x: THandle| #[trigger] u.contains(x) implies s.contains(x) && x != t by { let i = choose|i: int| 0 <= i < u.len() && u[i] == x; if opencl { assert(s[i + 1] == x); } else { assert(s[i] == x); } }
  assert forall|x: THandle| s.contains(x) && x != t implies #[trigger] u.contains(x) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if opencl { assert(u[i - 1] == x); } else { assert(u[i] == x); } }
  assert forall|x: THandle| is_busy(mid.busy_threads@, x) implies #[trigger] is_busy(this.busy_threads@, x) by { let b = choose|b: Block| #[trigger] mid.busy_threads@.dom().contains(b) && mid.busy_threads@[b] == x; assert(this.busy_threads@.dom().contains(b)); }
  assert forall|x: THandle| #[trigger] is_busy(this.busy_threads@, x) implies is_busy(mid.busy_threads@, x) || x == t by { let b = choose|b: Block| #[trigger] this.busy_threads@.dom().contains(b) && this.busy_threads@[b] == x; if b != block0 { assert(mid.busy_threads@.dom().contains(b)); } }
}
@end
@fn flush_ready = ThreadPool::flush_ready_threads
@requires pool: pool_ok(this0)
@requires sorted: exists|k: int| split_at(this0.idle_threads@, k)
@ensures places: places(res.this)
@ensures blocks: blocks_ok(res.this)
@ensures counts: forall|k: int| split_at(this0.idle_threads@, k) ==> split_at(res.this.idle_threads@, k + res.ret.1)
@ensures number: res.this.idle_threads@.len() == this0.idle_threads@.len() + res.ret.0 + res.ret.1
@ensures outstanding: outstanding(res.this) =~= outstanding(this0)
@ensures frame: res.this.threads == this0.threads && res.this.orders == this0.orders && res.this.unsaved == this0.unsaved && res.this.flushed == this0.flushed && res.this.born == this0.born && res.this.store_factory == this0.store_factory
@ensures atomic: !res.this.data_mutex.held() && res.this.data_mutex.times() == this0.data_mutex.times() + 1
@proof after lock
let ghost mid = this;
@end
@loop 1
@inv it: 0 <= it1 <= mid.ready_threads@.len() && this == (ThreadPool { idle_threads: this.idle_threads, ..mid }) && mid.data_mutex.held()
@inv count: nmb_cpu_threads + nmb_opencl_threads == it1 && this.idle_threads@.len() == mid.idle_threads@.len() + it1
@inv split: forall|k: int| split_at(mid.idle_threads@, k) ==> split_at(this.idle_threads@, k + nmb_opencl_threads)
@inv distinct: distinct(this.idle_threads@)
@inv members: forall|t: THandle| #[trigger] this.idle_threads@.contains(t) <==> mid.idle_threads@.contains(t) || mid.ready_threads@.take(it1 as int).contains(t)
@decreases mid.ready_threads@.len() - it1
@proof loop 1 begin
let ghost before = this.idle_threads@;
@end
@proof loop 1 end
proof {
  let s = before; let u = this.idle_threads@; let R = mid.ready_threads@; let k = it1 as int; let t = R[k];
  assert(R.contains(t)); assert(!R.take(k).contains(t)) by { if R.take(k).contains(t) { let i = choose|i: int| 0 <= i < R.take(k).len() && R.take(k)[i] == t; assert(R[i] == t); } }
  assert(!mid.idle_threads@.contains(t));
  assert(!s.contains(t));
  assert(R.take(k + 1) =~= R.take(k).push(t));
  lemma_push(R.take(k), t); lemma_push(s, t); lemma_front(s, t);
  if t.opencl() { assert(u == seq![t] + s); assert forall|i: int| 1 <= i < u.len() implies u[i] == s[i - 1] by { } }
}
@end
@proof after loop 1
proof { assert(mid.ready_threads@.take(it1 as int) =~= mid.ready_threads@); }
@end
@fn flush_finished = ThreadPool::flush_finished_blocks
@requires pool: pool_ok(this0)
@ensures places: places(res.this)
@ensures blocks: blocks_ok(res.this)
@ensures once: distinct(res.ret@)
@ensures reported: forall|b: Block| #[trigger] res.ret@.contains(b) ==> outstanding(this0).contains(b)
@ensures outstanding: outstanding(res.this) =~= outstanding(this0).difference(res.ret@.to_set())
@ensures frame: res.this.threads == this0.threads && res.this.idle_threads == this0.idle_threads && res.this.orders == this0.orders && res.this.unsaved == this0.unsaved && res.this.flushed == this0.flushed && res.this.born == this0.born && res.this.store_factory == this0.store_factory
@ensures atomic: !res.this.data_mutex.held() && res.this.data_mutex.times() == this0.data_mutex.times() + 1
@fn pool_config = ThreadPool::update_config
@requires idle: this0.busy_threads@.dom() =~= Set::<Block>::empty()
@ensures every: res.this.orders@ == this0.orders@ + this0.threads@.map(|i: int, t: THandle| Order::Config(t, config0))
@ensures frame: res.this == (ThreadPool { orders: res.this.orders, ..this0 })
@loop 1
@inv it: 0 <= it1 <= this0.threads@.len() && this == (ThreadPool { orders: this.orders, ..this0 })
@inv orders: this.orders@ =~= this0.orders@ + this0.threads@.map(|i: int, t: THandle| Order::Config(t, config0)).take(it1 as int)
@decreases this0.threads@.len() - it1
@fn pool_shutdown = ThreadPool::shutdown_threads
@ensures every: res.this.orders@ =~= this0.orders@ + this0.threads@.map(|i: int, t: THandle| Order::Stop(t))
@ensures none: res.this.threads@.len() == 0
@ensures frame: res.this == (ThreadPool { orders: res.this.orders, threads: res.this.threads, ..this0 })
@loop 1
@inv it: 0 <= it1 <= this0.threads@.len() && this == (ThreadPool { orders: this.orders, ..this0 })
@inv orders: this.orders@ =~= this0.orders@ + this0.threads@.map(|i: int, t: THandle| Order::Stop(t)).take(it1 as int)
@decreases this0.threads@.len() - it1
@fn spark = ThreadPool::spark_threads
@requires fresh: this0.threads@.len() == 0 && this0.idle_threads@.len() == 0 && this0.ready_threads@.len() == 0 && this0.busy_threads@.dom() =~= Set::<Block>::empty() && this0.finished_blocks@.len() == 0 && !this0.data_mutex.held()
@ensures places: places(res.this)
@ensures blocks: blocks_ok(res.this)
@ensures ready: res.this.ready_threads@ == res.this.threads@ && res.this.idle_threads@.len() == 0
@ensures number: if nmb_working_threads0 >= 0 { res.this.threads@.len() == nmb_working_threads0 } else { res.this.threads@.len() > 0 }
@ensures unflushed: res.this.flushed == this0.flushed
@ensures cpu: forall|i: int| 0 <= i < res.this.threads@.len() ==> !(#[trigger] res.this.threads@[i]).opencl()
@ensures running: res.this.orders@ =~= this0.orders@ + res.this.threads@.map(|i: int, t: THandle| Order::Spark(t))
@ensures outstanding: outstanding(res.this) =~= Set::empty()
@ensures frame: res.this.unsaved == this0.unsaved && res.this.flushed == this0.flushed && res.this.data_mutex == this0.data_mutex
@loop 1
@inv it: ix == this.threads@.len() && this == (ThreadPool { threads: this.threads, born: this.born, ..this0 }) && (nmb_working_threads0 >= 0 ==> nmb_working_threads == nmb_working_threads0) && (nmb_working_threads0 < 0 ==> nmb_working_threads > 0) && 0 <= nmb_working_threads && ix <= nmb_working_threads
@inv born: forall|i: int| 0 <= i < this.threads@.len() ==> #[trigger] this.threads@[i].id() < this.born.g@
@inv distinct: distinct(this.threads@)
@inv cpu: forall|i: int| 0 <= i < this.threads@.len() ==> !(#[trigger] this.threads@[i]).opencl()
@decreases 0x1_0000_0000 - ix
@loop 2
@inv it: 0 <= it2 <= this.threads@.len() && this == (ThreadPool { threads: this.threads, born: this.born, ready_threads: this.ready_threads, orders: this.orders, ..this0 })
@inv orders: this.orders@ =~= this0.orders@ + this.threads@.take(it2 as int).map(|i: int, t: THandle| Order::Spark(t))
@inv ready: this.ready_threads@ =~= this.threads@.take(it2 as int)
@decreases this.threads@.len() - it2
@proof after loop 2
proof {
  assert(this.threads@.take(it2 as int) =~= this.threads@);
  assert(this.busy_threads@.dom() == Set::<Block>::empty()); assert(this.ready_threads@ == this.threads@);
  assert(places(this));
}
@end
@fn w_finished = StandaloneWorkerPool::finished_block
@requires assigned: this0.assigned_blocks@.contains(block0)
@ensures removed: res.this.assigned_blocks@ =~= this0.assigned_blocks@.remove(block0)
@ensures frame: res.this == (StandaloneWorkerPool { assigned_blocks: res.this.assigned_blocks, ..this0 })
@fn w_flush = StandaloneWorkerPool::flush_finished_blocks
@requires pool: wp_ok(this0)
@ensures pool: wp_ok(res.this)
@ensures fewer: res.this.assigned_blocks@.subset_of(this0.assigned_blocks@)
@ensures frame: res.this == (StandaloneWorkerPool { assigned_blocks: res.this.assigned_blocks, master_thread_pool: res.this.master_thread_pool, ..this0 }) && same_orders(this0, res.this) && res.this.master_thread_pool@.unsaved == this0.master_thread_pool@.unsaved
@proof before loop 1
let ghost mid = this;
@end
@loop 1
@inv it: 0 <= it1 <= blocks@.len() && this == (StandaloneWorkerPool { assigned_blocks: this.assigned_blocks, ..mid })
@inv left: forall|b: Block| #[trigger] this.assigned_blocks@.contains(b) <==> this0.assigned_blocks@.contains(b) && !blocks@.take(it1 as int).contains(b)
@decreases blocks@.len() - it1
@proof loop 1 begin
proof { lemma_take_more(blocks@, it1 as int); assert(outstanding(this0.master_thread_pool@).contains(blocks@[it1 as int])); }
@end
@proof after loop 1
proof { assert(blocks@.take(it1 as int) =~= blocks@); assert forall|b: Block| this.assigned_blocks@.contains(b) <==> #[trigger] outstanding(this.master_thread_pool@).contains(b) by { assert(this0.assigned_blocks@.contains(b) <==> outstanding(this0.master_thread_pool@).contains(b)); } }
@end
@fn w_fill = StandaloneWorkerPool::fill_idle_queues
@requires pool: wp_ok(this0)
@ensures pool: wp_ok(res.this)
@ensures ready: res.this.nmb_cpu_idle + res.this.nmb_opencl_idle > 0
@ensures fewer: res.this.assigned_blocks@.subset_of(this0.assigned_blocks@)
@ensures frame: res.this == (StandaloneWorkerPool { assigned_blocks: res.this.assigned_blocks, nmb_cpu_idle: res.this.nmb_cpu_idle, nmb_opencl_idle: res.this.nmb_opencl_idle, master_thread_pool: res.this.master_thread_pool, ..this0 }) && same_orders(this0, res.this) && res.this.master_thread_pool@.unsaved == this0.master_thread_pool@.unsaved
@loop 1
@invtop pool: wp_ok(this)
@invtop fewer: this.assigned_blocks@.subset_of(this0.assigned_blocks@)
@invtop frame: this == (StandaloneWorkerPool { assigned_blocks: this.assigned_blocks, nmb_cpu_idle: this.nmb_cpu_idle, nmb_opencl_idle: this.nmb_opencl_idle, master_thread_pool: this.master_thread_pool, ..this0 }) && same_orders(this0, this) && this.master_thread_pool@.unsaved == this0.master_thread_pool@.unsaved
@exit pool: wp_ok(this) && this.nmb_cpu_idle + this.nmb_opencl_idle > 0 && this.assigned_blocks@.subset_of(this0.assigned_blocks@) && this == (StandaloneWorkerPool { assigned_blocks: this.assigned_blocks, nmb_cpu_idle: this.nmb_cpu_idle, nmb_opencl_idle: this.nmb_opencl_idle, master_thread_pool: this.master_thread_pool, ..this0 }) && same_orders(this0, this) && this.master_thread_pool@.unsaved == this0.master_thread_pool@.unsaved
@fn w_save = StandaloneWorkerPool::save_global_stores_to_file
@requires pool: wp_ok(this0)
@ensures pool: wp_ok(res.this)
@ensures saved: !this0.file_store.is_null() ==> res.this.master_thread_pool@.unsaved@ =~= res.this.master_thread_pool@.busy_threads@.dom()
@ensures files: saves_to(this0, res.this)
@ensures frame: res.this == (StandaloneWorkerPool { next_save_time: res.this.next_save_time, saves: res.this.saves, master_thread_pool: res.this.master_thread_pool, ..this0 }) && same_orders(this0, res.this)
@fn w_wait = StandaloneWorkerPool::wait_for_assigned_blocks
@requires pool: wp_ok(this0)
@ensures pool: wp_ok(res.this)
@ensures done: res.this.assigned_blocks@ =~= Set::<Block>::empty()
@ensures frame: res.this == (StandaloneWorkerPool { assigned_blocks: res.this.assigned_blocks, master_thread_pool: res.this.master_thread_pool, ..this0 }) && same_orders(this0, res.this) && res.this.master_thread_pool@.unsaved == this0.master_thread_pool@.unsaved
@loop 1
@invtop pool: wp_ok(this)
@invtop frame: this == (StandaloneWorkerPool { assigned_blocks: this.assigned_blocks, master_thread_pool: this.master_thread_pool, ..this0 }) && same_orders(this0, this) && this.master_thread_pool@.unsaved == this0.master_thread_pool@.unsaved
@exit pool: wp_ok(this) && this.assigned_blocks@ =~= Set::<Block>::empty() && this == (StandaloneWorkerPool { assigned_blocks: this.assigned_blocks, master_thread_pool: this.master_thread_pool, ..this0 }) && same_orders(this0, this) && this.master_thread_pool@.unsaved == this0.master_thread_pool@.unsaved
@fn w_config = StandaloneWorkerPool::update_config
@requires pool: wp_ok(this0)
@ensures pool: wp_ok(res.this)
@ensures done: res.this.assigned_blocks@ =~= Set::<Block>::empty() && res.this.master_thread_pool@.unsaved@ =~= Set::<Block>::empty()
@ensures files: saves_to(this0, res.this)
@ensures config: !res.this.file_store.is_null() && res.this.file_store@.config() == config0
@ensures threads: res.this.master_thread_pool@.orders@ == this0.master_thread_pool@.orders@ + this0.master_thread_pool@.threads@.map(|i: int, t: THandle| Order::Config(t, config0))
@fn w_assign = StandaloneWorkerPool::assign
@requires pool: wp_ok(this0)
@requires config: !this0.file_store.is_null()
@requires new: !this0.assigned_blocks@.contains(block0)
@ensures pool: wp_ok(res.this)
@ensures skip: recorded(this0.file_store@, block0) ==> same_orders(this0, res.this) && res.this.assigned_blocks@ == this0.assigned_blocks@
@ensures once: !recorded(this0.file_store@, block0) ==> res.this.assigned_blocks@.contains(block0) && starts(this0.master_thread_pool@.orders@, res.this.master_thread_pool@.orders@, block0)
@ensures fewer: res.this.assigned_blocks@.subset_of(this0.assigned_blocks@.insert(block0))
@ensures files: saves_to(this0, res.this)
@ensures frame: res.this.file_store == this0.file_store
@fn w_destroy = StandaloneWorkerPool::~StandaloneWorkerPool
@requires pool: wp_ok(this0)
@ensures done: res.this.assigned_blocks@ =~= Set::<Block>::empty() && res.this.master_thread_pool@.unsaved@ =~= Set::<Block>::empty()
@ensures saved: saved_all(res.this)
@ensures files: saves_to(this0, res.this)
@ensures stopped: res.this.master_thread_pool@.orders@ =~= this0.master_thread_pool@.orders@ + this0.master_thread_pool@.threads@.map(|i: int, t: THandle| Order::Stop(t))
@fn w_new = StandaloneWorkerPool::StandaloneWorkerPool 3 ~ shared_ptr
@requires threads: nmb_working_threads0 != 0
@ensures pool: wp_ok(res.this)
@ensures nothing: res.this.assigned_blocks@ =~= Set::<Block>::empty() && res.this.file_store.is_null()

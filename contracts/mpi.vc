# MPI worker pool (C16)
@tu src/worker_pool/mpi.cc src/threaded/thread_pool.cc src/worker_pool/standalone.cc
@use pools.vc
@prelude
// what the master knows about the pool of another process
pub struct RP { pub out: Set<Block>, pub unsaved: Set<Block>, pub cpu: int, pub ocl: int, pub stopped: bool, pub configs: Seq<ConfigNode>, pub flushed: Seq<(CVec<u8>, CVec<u8>)>, pub started: Seq<Block> }
pub enum Tag { FlushReady, Finished, Save }
pub struct CommState { pub size: int, pub procs: Map<int, RP>, pub waiting: Option<(int, Tag)>, pub master: bool, pub me: RP, pub request: Option<Tag>, pub probed: int }
pub struct CComm { pub g: Ghost<CommState> }
impl Clone for CComm { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for CComm {}
impl CComm {
  pub open spec fn is_master(self) -> bool { self.g@.master }
  pub open spec fn me(self) -> RP { self.g@.me }
  pub open spec fn request(self) -> Option<Tag> { self.g@.request }
  pub open spec fn probed(self) -> int { self.g@.probed }
  pub open spec fn size(self) -> int { self.g@.size }
  pub open spec fn at(self, i: int) -> RP { self.g@.procs[i] }
  pub open spec fn waiting(self) -> Option<(int, Tag)> { self.g@.waiting }
  pub open spec fn ready(self, i: int) -> bool { self.waiting().is_none() && 1 <= i < self.size() && !self.at(i).stopped }
  pub open spec fn with(self, i: int, r: RP, c: CComm) -> bool { c.size() == self.size() && c.at(i) == r && forall|p: int| p != i ==> #[trigger] c.at(p) == self.at(p) }
}
#[verifier::external_body]
pub fn comm_size(c: CComm) -> (r: i32) ensures r == c.size(), r >= 1 { unimplemented!() }
pub open spec fn rp_assign(p: RP, b: Block, o: bool) -> RP { RP { out: p.out.insert(b), unsaved: p.unsaved.insert(b), cpu: p.cpu - (if o { 0int } else { 1 }), ocl: p.ocl - (if o { 1int } else { 0 }), started: p.started.push(b), ..p } }
#[verifier::external_body]
pub fn send_assign_cpu_block(c: CComm, to: i32, b: Block) -> (r: CComm)
  requires c.ready(to as int), c.at(to as int).cpu > 0, !c.at(to as int).out.contains(b)
  ensures c.with(to as int, rp_assign(c.at(to as int), b, false), r), r.waiting() == c.waiting()
{ unimplemented!() }
#[verifier::external_body]
pub fn send_assign_opencl_block(c: CComm, to: i32, b: Block) -> (r: CComm)
  requires c.ready(to as int), c.at(to as int).ocl > 0, !c.at(to as int).out.contains(b)
  ensures c.with(to as int, rp_assign(c.at(to as int), b, true), r), r.waiting() == c.waiting()
{ unimplemented!() }
#[verifier::external_body]
pub fn send_update_config(c: CComm, to: i32, n: ConfigNode) -> (r: CComm)
  requires c.ready(to as int), c.at(to as int).out =~= Set::<Block>::empty(), c.at(to as int).unsaved =~= Set::<Block>::empty()
  ensures c.with(to as int, RP { configs: c.at(to as int).configs.push(n), ..c.at(to as int) }, r), r.waiting() == c.waiting()
{ unimplemented!() }
#[verifier::external_body]
pub fn send_shutdown(c: CComm, to: i32, x: bool) -> (r: CComm)
  requires c.ready(to as int), c.at(to as int).out =~= Set::<Block>::empty(), c.at(to as int).unsaved =~= Set::<Block>::empty()
  ensures c.with(to as int, RP { stopped: true, ..c.at(to as int) }, r), r.waiting() == c.waiting()
{ unimplemented!() }
#[verifier::external_body]
pub fn send_flush_ready_threads(c: CComm, to: i32, x: bool) -> (r: CComm)
  requires c.ready(to as int)
  ensures r.waiting() == Some((to as int, Tag::FlushReady)), r.size() == c.size(), forall|p: int| #[trigger] r.at(p) == c.at(p)
{ unimplemented!() }
#[verifier::external_body]
pub fn send_finished_blocks(c: CComm, to: i32, x: bool) -> (r: CComm)
  requires c.ready(to as int)
  ensures r.waiting() == Some((to as int, Tag::Finished)), r.size() == c.size(), forall|p: int| #[trigger] r.at(p) == c.at(p)
{ unimplemented!() }
#[verifier::external_body]
pub fn send_save_global_stores_to_file(c: CComm, to: i32, x: bool) -> (r: CComm)
  requires c.ready(to as int)
  ensures r.waiting() == Some((to as int, Tag::Save)), r.size() == c.size(), forall|p: int| #[trigger] r.at(p) == c.at(p)
{ unimplemented!() }
#[verifier::external_body]
pub fn recv_flush_ready_threads(c: CComm, from: i32) -> (r: ((u32, u32), CComm))
  requires c.waiting() == Some((from as int, Tag::FlushReady))
  ensures c.with(from as int, RP { cpu: c.at(from as int).cpu + r.0.0, ocl: c.at(from as int).ocl + r.0.1, ..c.at(from as int) }, r.1), r.1.waiting().is_none()
{ unimplemented!() }
#[verifier::external_body]
pub fn recv_finished_blocks(c: CComm, from: i32) -> (r: (CVec<Block>, CComm))
  requires c.waiting() == Some((from as int, Tag::Finished))
  ensures c.with(from as int, RP { out: c.at(from as int).out.difference(r.0@.to_set()), ..c.at(from as int) }, r.1), r.1.waiting().is_none(),
    distinct(r.0@), forall|b: Block| #[trigger] r.0@.contains(b) ==> c.at(from as int).out.contains(b)
{ unimplemented!() }
#[verifier::external_body]
pub fn recv_save_global_stores_to_file(c: CComm, from: i32) -> (r: ((CVec<u8>, CVec<u8>), CComm))
  requires c.waiting() == Some((from as int, Tag::Save))
  ensures c.with(from as int, RP { unsaved: r.1.at(from as int).unsaved, flushed: c.at(from as int).flushed.push(r.0), ..c.at(from as int) }, r.1), r.1.waiting().is_none(),
    r.1.at(from as int).unsaved.subset_of(c.at(from as int).out)
{ unimplemented!() }
#[verifier::external_body]
pub fn bcast<T>(c: CComm, x: T) -> (r: T) ensures c.is_master() ==> r == x { unimplemented!() }
#[verifier::external_body]
pub fn factory_new(t: i32) -> (r: CFactory) ensures r.g@ == t { unimplemented!() }
// number of entries of a process in a queue
pub open spec fn cntq(s: Seq<u32>, p: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { cntq(s.drop_last(), p) + if s.last() == p { 1int } else { 0 } } }
pub open spec fn assigned_to(m: Map<u32, CSet<Block>>, p: int) -> Set<Block> { if 0 <= p < 0x1_0000_0000 && m.dom().contains(p as u32) { m[p as u32]@ } else { Set::empty() } }
pub open spec fn mp_comm(w: MPIWorkerPool) -> bool { !w.mpi_world.is_null() && w.mpi_world@.waiting().is_none() && 1 <= w.mpi_world@.size() <= 0x7fff_ffff && forall|i: int| 1 <= i < w.mpi_world@.size() ==> !(#[trigger] w.mpi_world@.at(i)).stopped }
// the queues list the idle threads of every process; of process x, dc and d are still to be entered
pub open spec fn mq(w: MPIWorkerPool, x: int, dc: int, d: int) -> bool {
  &&& forall|i: int| 0 <= i < w.cpu_idle_queue@.len() ==> (#[trigger] w.cpu_idle_queue@[i]) < w.mpi_world@.size()
  &&& forall|i: int| 0 <= i < w.opencl_idle_queue@.len() ==> (#[trigger] w.opencl_idle_queue@[i]) < w.mpi_world@.size()
  &&& forall|p: int| 1 <= p < w.mpi_world@.size() ==> (#[trigger] w.mpi_world@.at(p)).cpu == cntq(w.cpu_idle_queue@, p) + (if p == x { dc } else { 0 }) && w.mpi_world@.at(p).ocl == cntq(w.opencl_idle_queue@, p) + (if p == x { d } else { 0 })
  &&& split_at(w.master_thread_pool@.idle_threads@, cntq(w.opencl_idle_queue@, 0) + if x == 0 { d } else { 0 })
  &&& w.master_thread_pool@.idle_threads@.len() == cntq(w.opencl_idle_queue@, 0) + cntq(w.cpu_idle_queue@, 0) + if x == 0 { dc + d } else { 0 }
}
pub open spec fn mp_queues(w: MPIWorkerPool) -> bool { mq(w, -1, 0, 0) }
pub proof fn lemma_cntq_push(s: Seq<u32>, a: u32)
  ensures forall|p: int| #[trigger] cntq(s.push(a), p) == cntq(s, p) + if a == p { 1int } else { 0 }
{ assert(s.push(a).drop_last() =~= s); }
pub proof fn lemma_cntq_pop(s: Seq<u32>, p: int)
  requires s.len() > 0
  ensures cntq(s, p) == cntq(s.skip(1), p) + if s[0] == p { 1int } else { 0 }, cntq(s.skip(1), p) >= 0
  decreases s.len()
{
  if s.len() == 1 { assert(s.drop_last() =~= Seq::empty()); assert(s.skip(1) =~= Seq::empty()); assert(cntq(s.drop_last(), p) == 0); assert(cntq(s.skip(1), p) == 0); }
  else { lemma_cntq_pop(s.drop_last(), p); assert(s.drop_last().skip(1) =~= s.skip(1).drop_last()); assert(s.skip(1).last() == s.last()); assert(s.drop_last()[0] == s[0]); }
}
pub proof fn lemma_cntq_pops(s: Seq<u32>)
  requires s.len() > 0
  ensures forall|p: int| #[trigger] cntq(s.skip(1), p) == cntq(s, p) - (if s[0] == p { 1int } else { 0 }) && cntq(s.skip(1), p) >= 0
{ assert forall|p: int| #[trigger] cntq(s.skip(1), p) == cntq(s, p) - (if s[0] == p { 1int } else { 0 }) && cntq(s.skip(1), p) >= 0 by { lemma_cntq_pop(s, p); } }
pub open spec fn unassigned(w: MPIWorkerPool, b: Block) -> bool { !outstanding(w.master_thread_pool@).contains(b) && forall|p: int| 1 <= p < w.mpi_world@.size() ==> !(#[trigger] w.mpi_world@.at(p)).out.contains(b) }
pub proof fn lemma_cntq_pos(s: Seq<u32>, p: int)
  ensures cntq(s, p) >= 0
  decreases s.len()
{ if s.len() > 0 { lemma_cntq_pos(s.drop_last(), p); } }
pub proof fn lemma_pops()
  ensures forall|s: Seq<u32>, p: int| #[trigger] cntq(s, p) >= 0, forall|s: Seq<u32>, p: int| s.len() > 0 ==> #[trigger] cntq(s.skip(1), p) == cntq(s, p) - (if s[0] == p { 1int } else { 0 }) && cntq(s.skip(1), p) >= 0
{ assert forall|s: Seq<u32>, p: int| s.len() > 0 implies #[trigger] cntq(s.skip(1), p) == cntq(s, p) - (if s[0] == p { 1int } else { 0 }) && cntq(s.skip(1), p) >= 0 by { lemma_cntq_pop(s, p); } assert forall|s: Seq<u32>, p: int| #[trigger] cntq(s, p) >= 0 by { lemma_cntq_pos(s, p); } }
pub open spec fn out_of(w: MPIWorkerPool, p: int) -> Set<Block> { if p == 0 { outstanding(w.master_thread_pool@) } else { w.mpi_world@.at(p).out } }
// the blocks that are recorded as assigned to a process; of process x, those that it has just reported are removed up to k
pub open spec fn mb(w: MPIWorkerPool, x: int, blocks: Seq<Block>, k: int) -> bool {
  &&& forall|p: int, b: Block| 0 <= p < w.mpi_world@.size() && p != x ==> (#[trigger] assigned_to(w.assigned_blocks@, p).contains(b) <==> out_of(w, p).contains(b))
  &&& forall|b: Block| 0 <= x < w.mpi_world@.size() ==> (#[trigger] assigned_to(w.assigned_blocks@, x).contains(b) <==> out_of(w, x).contains(b) || (blocks.contains(b) && !blocks.take(k).contains(b)))
  &&& forall|p: u32| #[trigger] w.assigned_blocks@.dom().contains(p) ==> p < w.mpi_world@.size()
}
pub open spec fn mp_blocks(w: MPIWorkerPool) -> bool { mb(w, -1, Seq::empty(), 0) }
pub open spec fn mp_unsaved(w: MPIWorkerPool) -> bool {
  w.file_store.is_null() ==> w.master_thread_pool@.unsaved@ =~= Set::<Block>::empty() && outstanding(w.master_thread_pool@) =~= Set::<Block>::empty()
    && forall|p: int| 1 <= p < w.mpi_world@.size() ==> (#[trigger] w.mpi_world@.at(p)).unsaved =~= Set::<Block>::empty() && w.mpi_world@.at(p).out =~= Set::<Block>::empty()
}
pub open spec fn mp_base(w: MPIWorkerPool) -> bool { !w.master_thread_pool.is_null() && pool_ok(w.master_thread_pool@) && mp_comm(w) && mp_unsaved(w) }
pub open spec fn mp_ok(w: MPIWorkerPool) -> bool { mp_base(w) && !w.mpi_mutex.held() && mp_queues(w) && mp_blocks(w) }
// nothing is told to the threads or saved; finished blocks may have been reported
pub open spec fn calm(w: MPIWorkerPool, u: MPIWorkerPool) -> bool {
  let p = w.master_thread_pool@; let q = u.master_thread_pool@; let a = w.mpi_world@; let b = u.mpi_world@;
  &&& u.file_store == w.file_store && u.saves == w.saves && u.next_save_time == w.next_save_time
  &&& q.orders == p.orders && q.unsaved == p.unsaved && q.flushed == p.flushed && q.threads == p.threads && outstanding(q).subset_of(outstanding(p))
  &&& b.size() == a.size() && forall|i: int| 1 <= i < a.size() ==> (#[trigger] b.at(i)).configs == a.at(i).configs && b.at(i).started == a.at(i).started && b.at(i).unsaved == a.at(i).unsaved && b.at(i).flushed == a.at(i).flushed && b.at(i).stopped == a.at(i).stopped && b.at(i).out.subset_of(a.at(i).out)
}

pub open spec fn nothing_assigned(w: MPIWorkerPool) -> bool { outstanding(w.master_thread_pool@) =~= Set::<Block>::empty() && forall|p: int| 1 <= p < w.mpi_world@.size() ==> (#[trigger] w.mpi_world@.at(p)).out =~= Set::<Block>::empty() }
pub open spec fn nothing_unsaved(w: MPIWorkerPool) -> bool { w.master_thread_pool@.unsaved@ =~= Set::<Block>::empty() && forall|p: int| 1 <= p < w.mpi_world@.size() ==> (#[trigger] w.mpi_world@.at(p)).unsaved =~= Set::<Block>::empty() }
pub proof fn lemma_mb_step(w: MPIWorkerPool, u: MPIWorkerPool, x: int, blocks: Seq<Block>, k: int)
  requires mb(w, x, blocks, k), 0 <= k < blocks.len(), distinct(blocks), u == (MPIWorkerPool { assigned_blocks: u.assigned_blocks, ..w }), 0 <= x < w.mpi_world@.size(), w.mpi_world@.size() <= 0x7fff_ffff,
    !out_of(w, x).contains(blocks[k]),
    assigned_to(u.assigned_blocks@, x) =~= assigned_to(w.assigned_blocks@, x).remove(blocks[k]), forall|p: int| p != x ==> assigned_to(u.assigned_blocks@, p) == assigned_to(w.assigned_blocks@, p), forall|p: u32| u.assigned_blocks@.dom().contains(p) ==> p == x || w.assigned_blocks@.dom().contains(p)
  ensures mb(u, x, blocks, k + 1)
{
  lemma_take_more(blocks, k);
  assert forall|p: int, b: Block| 0 <= p < u.mpi_world@.size() && p != x implies (#[trigger] assigned_to(u.assigned_blocks@, p).contains(b) <==> out_of(u, p).contains(b)) by { assert(assigned_to(w.assigned_blocks@, p).contains(b) <==> out_of(w, p).contains(b)); }
  assert forall|b: Block| (#[trigger] assigned_to(u.assigned_blocks@, x).contains(b) <==> out_of(u, x).contains(b) || (blocks.contains(b) && !blocks.take(k + 1).contains(b))) by { assert(assigned_to(w.assigned_blocks@, x).contains(b) <==> out_of(w, x).contains(b) || (blocks.contains(b) && !blocks.take(k).contains(b))); }
}
// after the process x has reported blocks
pub proof fn lemma_mb_start(w: MPIWorkerPool, u: MPIWorkerPool, x: int, blocks: Seq<Block>)
  requires mp_blocks(w), u.assigned_blocks == w.assigned_blocks, u.mpi_world@.size() == w.mpi_world@.size(), 0 <= x < w.mpi_world@.size(),
    forall|p: int| 0 <= p < w.mpi_world@.size() && p != x ==> #[trigger] out_of(u, p) == out_of(w, p), out_of(u, x) =~= out_of(w, x).difference(blocks.to_set()), forall|b: Block| blocks.contains(b) ==> out_of(w, x).contains(b)
  ensures mb(u, x, blocks, 0)
{
  assert forall|p: int, b: Block| 0 <= p < u.mpi_world@.size() && p != x implies (#[trigger] assigned_to(u.assigned_blocks@, p).contains(b) <==> out_of(u, p).contains(b)) by { assert(assigned_to(w.assigned_blocks@, p).contains(b) <==> out_of(w, p).contains(b)); }
  assert forall|b: Block| (#[trigger] assigned_to(u.assigned_blocks@, x).contains(b) <==> out_of(u, x).contains(b) || (blocks.contains(b) && !blocks.take(0).contains(b))) by { assert(assigned_to(w.assigned_blocks@, x).contains(b) <==> out_of(w, x).contains(b)); }
}
pub proof fn lemma_same_out(w: MPIWorkerPool, u: MPIWorkerPool)
  requires mp_blocks(w), u.assigned_blocks == w.assigned_blocks, u.mpi_world@.size() == w.mpi_world@.size(), outstanding(u.master_thread_pool@) =~= outstanding(w.master_thread_pool@),
    forall|p: int| 1 <= p < w.mpi_world@.size() ==> (#[trigger] u.mpi_world@.at(p)).out =~= w.mpi_world@.at(p).out
  ensures mp_blocks(u)
{
  assert forall|p: int, b: Block| 0 <= p < u.mpi_world@.size() && p != -1 implies (#[trigger] assigned_to(u.assigned_blocks@, p).contains(b) <==> out_of(u, p).contains(b)) by { assert(assigned_to(w.assigned_blocks@, p).contains(b) <==> out_of(w, p).contains(b)); assert(p == 0 || u.mpi_world@.at(p).out =~= w.mpi_world@.at(p).out); }
}
pub proof fn lemma_mb_assign(w: MPIWorkerPool, u: MPIWorkerPool, x: u32, b: Block)
  requires mp_blocks(w), u.mpi_world@.size() == w.mpi_world@.size(), x < w.mpi_world@.size(),
    u.assigned_blocks@.dom() =~= w.assigned_blocks@.dom().insert(x), u.assigned_blocks@[x]@ =~= assigned_to(w.assigned_blocks@, x as int).insert(b), forall|p: u32| p != x && w.assigned_blocks@.dom().contains(p) ==> #[trigger] u.assigned_blocks@[p] == w.assigned_blocks@[p],
    out_of(u, x as int) =~= out_of(w, x as int).insert(b), x != 0 ==> outstanding(u.master_thread_pool@) =~= outstanding(w.master_thread_pool@), forall|p: int| 1 <= p < w.mpi_world@.size() && p != x ==> (#[trigger] u.mpi_world@.at(p)).out =~= w.mpi_world@.at(p).out
  ensures mp_blocks(u)
{
  assert forall|p: int, c: Block| 0 <= p < u.mpi_world@.size() && p != -1 implies (#[trigger] assigned_to(u.assigned_blocks@, p).contains(c) <==> out_of(u, p).contains(c)) by {
    assert(assigned_to(w.assigned_blocks@, p).contains(c) <==> out_of(w, p).contains(c)); assert(p == 0 || p == x || u.mpi_world@.at(p).out =~= w.mpi_world@.at(p).out);
    assert(p != x ==> assigned_to(u.assigned_blocks@, p) =~= assigned_to(w.assigned_blocks@, p)) by { if p != x && p < 0x1_0000_0000 && w.assigned_blocks@.dom().contains(p as u32) { assert(u.assigned_blocks@[p as u32] == w.assigned_blocks@[p as u32]); } }
  }
}
pub proof fn lemma_mb_done(w: MPIWorkerPool, x: int, blocks: Seq<Block>)
  requires mb(w, x, blocks, blocks.len() as int)
  ensures mp_blocks(w)
{ assert(blocks.take(blocks.len() as int) =~= blocks); }
// the same orders and blocks
pub open spec fn same_work(w: MPIWorkerPool, u: MPIWorkerPool) -> bool {
  let p = w.master_thread_pool@; let q = u.master_thread_pool@; let a = w.mpi_world@; let b = u.mpi_world@;
  &&& q.orders == p.orders && q.threads == p.threads && b.size() == a.size()
  &&& forall|i: int| 1 <= i < a.size() ==> (#[trigger] b.at(i)).configs == a.at(i).configs && b.at(i).started == a.at(i).started && b.at(i).stopped == a.at(i).stopped && b.at(i).out =~= a.at(i).out
}
// the stores of the first k processes have been emptied, and what was in them was saved to the files of the configuration
pub open spec fn just_saved(w: MPIWorkerPool, u: MPIWorkerPool, k: int) -> bool {
  let p = w.master_thread_pool@; let q = u.master_thread_pool@; let a = w.mpi_world@; let b = u.mpi_world@; let n = w.saves@.len() as int;
  &&& u.saves@.len() >= n + k
  &&& q.unsaved@ =~= q.busy_threads@.dom() && q.flushed@ == p.flushed@.push(u.saves@[n].1)
  &&& forall|i: int| 1 <= i < k ==> (#[trigger] b.at(i)).unsaved.subset_of(b.at(i).out) && b.at(i).flushed == a.at(i).flushed.push(u.saves@[n + i].1)
}
pub open spec fn saves_files(w: MPIWorkerPool, u: MPIWorkerPool) -> bool {
  &&& w.saves@.len() <= u.saves@.len() && u.saves@.take(w.saves@.len() as int) =~= w.saves@
  &&& forall|i: int| w.saves@.len() <= i < u.saves@.len() ==> (#[trigger] u.saves@[i]).0 == w.file_store@
}
// one thread of one process is told to do the block
pub open spec fn dispatched(w: MPIWorkerPool, u: MPIWorkerPool, b: Block) -> bool {
  let a = w.mpi_world@; let c = u.mpi_world@; let o = w.master_thread_pool@.orders@; let q = u.master_thread_pool@.orders@;
  ||| starts(o, q, b) && (forall|p: int| 1 <= p < a.size() ==> (#[trigger] c.at(p)).started == a.at(p).started)
  ||| o == q && exists|x: int| 1 <= x < a.size() && (#[trigger] c.at(x)).started == a.at(x).started.push(b) && forall|p: int| 1 <= p < a.size() && p != x ==> (#[trigger] c.at(p)).started == a.at(p).started
}
#[verifier::external_body]
pub fn config_done_mpi(w: MPIWorkerPool) requires nothing_assigned(w), nothing_unsaved(w) { unimplemented!() }
@end
@fn m_finished = MPIWorkerPool::finished_block
@requires assigned: assigned_to(this0.assigned_blocks@, process_id0 as int).contains(block0)
@ensures removed: assigned_to(res.this.assigned_blocks@, process_id0 as int) =~= assigned_to(this0.assigned_blocks@, process_id0 as int).remove(block0)
@ensures others: forall|p: int| p != process_id0 ==> assigned_to(res.this.assigned_blocks@, p) == assigned_to(this0.assigned_blocks@, p)
@ensures keys: forall|p: u32| res.this.assigned_blocks@.dom().contains(p) ==> p == process_id0 || this0.assigned_blocks@.dom().contains(p)
@ensures frame: res.this == (MPIWorkerPool { assigned_blocks: res.this.assigned_blocks, ..this0 })
@fn m_flush = MPIWorkerPool::flush_finished_blocks
@requires pool: mp_ok(this0)
@ensures pool: mp_ok(res.this)
@ensures calm: calm(this0, res.this)
@ensures frame: res.this.cpu_idle_queue == this0.cpu_idle_queue && res.this.opencl_idle_queue == this0.opencl_idle_queue
@proof before loop 1
let ghost mid = this;
proof { lemma_mb_start(this0, this, 0, blocks@); }
@end
@loop 1
@inv it: 0 <= it1 <= blocks@.len() && this == (MPIWorkerPool { assigned_blocks: this.assigned_blocks, ..mid })
@inv left: mb(this, 0, blocks@, it1 as int)
@decreases blocks@.len() - it1
@proof loop 1 begin
let ghost b4 = this;
proof { lemma_take_more(blocks@, it1 as int); assert(!out_of(this, 0).contains(blocks@[it1 as int])); assert(assigned_to(this.assigned_blocks@, 0).contains(blocks@[it1 as int])); }
@end
@proof loop 1 end
proof { lemma_mb_step(b4, this, 0, blocks@, it1 as int); }
@end
@proof before loop 2
proof { lemma_mb_done(this, 0, blocks@); }
@end
@loop 2
@inv it: 1 <= ix <= this.mpi_world@.size()
@inv pool: mp_base(this) && this.mpi_mutex.held() && mp_queues(this) && mp_blocks(this) && calm(this0, this)
@inv frame: this.cpu_idle_queue == this0.cpu_idle_queue && this.opencl_idle_queue == this0.opencl_idle_queue
@decreases this0.mpi_world@.size() - ix
@proof loop 2 begin
let ghost top = this;
@end
@proof before loop 3
let ghost mid3 = this;
proof { lemma_mb_start(top, this, ix as int, blocks@); }
@end
@loop 3
@inv it: 0 <= it3 <= blocks@.len() && this == (MPIWorkerPool { assigned_blocks: this.assigned_blocks, ..mid3 })
@inv left: mb(this, ix as int, blocks@, it3 as int)
@decreases blocks@.len() - it3
@proof loop 3 begin
let ghost b4 = this;
proof { lemma_take_more(blocks@, it3 as int); assert(!out_of(this, ix as int).contains(blocks@[it3 as int])); assert(assigned_to(this.assigned_blocks@, ix as int).contains(blocks@[it3 as int])); }
@end
@proof loop 3 end
proof { lemma_mb_step(b4, this, ix as int, blocks@, it3 as int); }
@end
@proof after loop 3
proof { lemma_mb_done(this, ix as int, blocks@); }
@end
@fn m_fill = MPIWorkerPool::fill_idle_queues
@requires pool: mp_ok(this0)
@ensures pool: mp_ok(res.this)
@ensures calm: calm(this0, res.this)
@ensures ready: res.this.cpu_idle_queue@.len() + res.this.opencl_idle_queue@.len() > 0
@loop 1
@invtop pool: mp_ok(this) && calm(this0, this)
@exit pool: mp_ok(this) && calm(this0, this) && this.cpu_idle_queue@.len() + this.opencl_idle_queue@.len() > 0
@proof before loop 2
let ghost m2 = this;
@end
@loop 2
@inv it: 0 <= jx <= nmb_cpu_opencl.0 && this == (MPIWorkerPool { cpu_idle_queue: this.cpu_idle_queue, ..m2 })
@inv queues: mq(this, 0, nmb_cpu_opencl.0 - jx, nmb_cpu_opencl.1 as int)
@decreases nmb_cpu_opencl.0 - jx
@proof loop 2 begin
proof { lemma_cntq_push(this.cpu_idle_queue@, 0); }
@end
@proof before loop 3
let ghost m3 = this;
@end
@loop 3
@inv it: 0 <= jx <= nmb_cpu_opencl.1 && this == (MPIWorkerPool { opencl_idle_queue: this.opencl_idle_queue, ..m3 })
@inv queues: mq(this, 0, 0, nmb_cpu_opencl.1 - jx)
@decreases nmb_cpu_opencl.1 - jx
@proof loop 3 begin
proof { lemma_cntq_push(this.opencl_idle_queue@, 0); }
@end
@loop 4
@inv it: 1 <= ix <= this.mpi_world@.size()
@inv pool: mp_base(this) && this.mpi_mutex.held() && mp_queues(this) && mp_blocks(this) && calm(this0, this)
@decreases this0.mpi_world@.size() - ix
@proof before loop 5
let ghost m5 = this;
@end
@loop 5
@inv it: 0 <= jx <= nmb_cpu_opencl.0 && this == (MPIWorkerPool { cpu_idle_queue: this.cpu_idle_queue, ..m5 })
@inv queues: mq(this, ix as int, nmb_cpu_opencl.0 - jx, nmb_cpu_opencl.1 as int)
@decreases nmb_cpu_opencl.0 - jx
@proof loop 5 begin
proof { lemma_cntq_push(this.cpu_idle_queue@, ix as u32); }
@end
@proof before loop 6
let ghost m6 = this;
@end
@loop 6
@inv it: 0 <= jx <= nmb_cpu_opencl.1 && this == (MPIWorkerPool { opencl_idle_queue: this.opencl_idle_queue, ..m6 })
@inv queues: mq(this, ix as int, 0, nmb_cpu_opencl.1 - jx)
@decreases nmb_cpu_opencl.1 - jx
@proof loop 6 begin
proof { lemma_cntq_push(this.opencl_idle_queue@, ix as u32); }
@end
@fn m_save = MPIWorkerPool::save_global_stores_to_file
@requires pool: mp_ok(this0)
@ensures pool: mp_ok(res.this)
@ensures frame: res.this.file_store == this0.file_store && same_work(this0, res.this) && res.this.assigned_blocks == this0.assigned_blocks && outstanding(res.this.master_thread_pool@) =~= outstanding(this0.master_thread_pool@)
@ensures none: this0.file_store.is_null() ==> res.this == this0
@ensures saved: !this0.file_store.is_null() ==> just_saved(this0, res.this, this0.mpi_world@.size())
@ensures files: !this0.file_store.is_null() ==> res.this.saves@.len() == this0.saves@.len() + this0.mpi_world@.size() && saves_files(this0, res.this)
@loop 1
@inv it: 1 <= ix <= this.mpi_world@.size() && this.mpi_world@.size() == this0.mpi_world@.size() && this.saves@.len() == this0.saves@.len() + ix
@inv pool: mp_base(this) && !this.mpi_mutex.held() && mp_queues(this) && mp_blocks(this) && this.file_store == this0.file_store && same_work(this0, this) && this.assigned_blocks == this0.assigned_blocks && outstanding(this.master_thread_pool@) =~= outstanding(this0.master_thread_pool@)
@inv saved: just_saved(this0, this, ix as int)
@inv files: saves_files(this0, this)
@inv rest: forall|p: int| ix <= p < this.mpi_world@.size() ==> #[trigger] this.mpi_world@.at(p) == this0.mpi_world@.at(p)
@decreases this0.mpi_world@.size() - ix
@fn m_wait = MPIWorkerPool::wait_for_assigned_blocks
@requires pool: mp_ok(this0)
@ensures pool: mp_ok(res.this)
@ensures calm: calm(this0, res.this)
@ensures done: nothing_assigned(res.this)
@loop 1
@inv pool: mp_ok(this) && calm(this0, this)
@inv done: !remaining_blocks ==> nothing_assigned(this)
@loop 2
@invtop none: !remaining_blocks && 0 <= it2 <= keys2@.len() && forall|i: int| 0 <= i < it2 ==> this.assigned_blocks@[#[trigger] keys2@[i]]@ =~= Set::<Block>::empty()
@exit none: remaining_blocks || forall|i: int| 0 <= i < keys2@.len() ==> this.assigned_blocks@[#[trigger] keys2@[i]]@ =~= Set::<Block>::empty()
@proof after loop 2
proof {
  if !remaining_blocks {
    assert forall|p: int, b: Block| 0 <= p < this.mpi_world@.size() implies !out_of(this, p).contains(b) by {
      assert(assigned_to(this.assigned_blocks@, p).contains(b) <==> out_of(this, p).contains(b));
      if this.assigned_blocks@.dom().contains(p as u32) { assert(keys2@.contains(p as u32)); let i = choose|i: int| 0 <= i < keys2@.len() && keys2@[i] == p as u32; assert(this.assigned_blocks@[keys2@[i]]@ =~= Set::<Block>::empty()); }
    }
    assert(outstanding(this.master_thread_pool@) =~= Set::<Block>::empty()) by { assert(out_of(this, 0) == outstanding(this.master_thread_pool@)); }
    assert forall|p: int| 1 <= p < this.mpi_world@.size() implies (#[trigger] this.mpi_world@.at(p)).out =~= Set::<Block>::empty() by { assert(out_of(this, p) == this.mpi_world@.at(p).out); }
  }
}
@end
@fn m_config = MPIWorkerPool::update_config
@requires pool: mp_ok(this0)
@ensures pool: mp_ok(res.this)
@ensures done: nothing_assigned(res.this) && nothing_unsaved(res.this)
@ensures files: !this0.file_store.is_null() ==> saves_files(this0, res.this)
@ensures config: !res.this.file_store.is_null() && res.this.file_store@.config() == config0
@ensures local: res.this.master_thread_pool@.orders@ == this0.master_thread_pool@.orders@ + this0.master_thread_pool@.threads@.map(|i: int, t: THandle| Order::Config(t, config0))
@ensures remote: res.this.mpi_world@.size() == this0.mpi_world@.size() && forall|p: int| 1 <= p < this0.mpi_world@.size() ==> (#[trigger] res.this.mpi_world@.at(p)).configs == this0.mpi_world@.at(p).configs.push(config0) && res.this.mpi_world@.at(p).started == this0.mpi_world@.at(p).started
@proof before loop 1
let ghost m = this;
@end
@loop 1
@inv it: 1 <= ix <= m.mpi_world@.size() && this == (MPIWorkerPool { mpi_world: this.mpi_world, ..m }) && !this.mpi_world.is_null() && this.mpi_world@.waiting().is_none() && this.mpi_world@.size() == m.mpi_world@.size()
@inv told: forall|p: int| 1 <= p < ix ==> #[trigger] this.mpi_world@.at(p) == (RP { configs: m.mpi_world@.at(p).configs.push(config0), ..m.mpi_world@.at(p) })
@inv rest: forall|p: int| ix <= p < m.mpi_world@.size() ==> #[trigger] this.mpi_world@.at(p) == m.mpi_world@.at(p)
@decreases m.mpi_world@.size() - ix
@proof return
proof { lemma_same_out(m, this); }
@end
@fn m_assign = MPIWorkerPool::assign
@requires pool: mp_ok(this0)
@requires config: !this0.file_store.is_null()
@requires new: forall|p: int| 0 <= p < this0.mpi_world@.size() ==> !assigned_to(this0.assigned_blocks@, p).contains(block0)
@ensures pool: mp_ok(res.this)
@proof begin
let ghost mut w0 = this;
proof {
  lemma_pops();
  assert(unassigned(this0, block0)) by {
    assert(assigned_to(this0.assigned_blocks@, 0).contains(block0) <==> out_of(this0, 0).contains(block0));
    assert forall|p: int| 1 <= p < this0.mpi_world@.size() implies !(#[trigger] this0.mpi_world@.at(p)).out.contains(block0) by { assert(assigned_to(this0.assigned_blocks@, p).contains(block0) <==> out_of(this0, p).contains(block0)); }
  }
}
@end
@proof after m_save
proof { w0 = this; assert(unassigned(this, block0)); }
@end
@proof after m_fill
proof { w0 = this; assert(unassigned(this, block0)); }
@end
@proof before assign 1
proof { assert(unassigned(this, block0)); assert(cntq(this.opencl_idle_queue@, 0) >= 0); }
@end
@proof before assign 2
proof { assert(unassigned(this, block0)); assert(cntq(this.cpu_idle_queue@, 0) >= 0); assert(cntq(this.opencl_idle_queue@, 0) == 0); }
@end
@proof before send
proof { assert(unassigned(this, block0)); assert(cntq(this.opencl_idle_queue@, process_id as int) >= 0); assert(cntq(this.cpu_idle_queue@, process_id as int) >= 0); assert(this.mpi_world@.at(process_id as int).cpu >= 0 || true); }
@end
@proof return 2
proof {
  assert(out_of(this, process_id as int) =~= out_of(w0, process_id as int).insert(block0));
  lemma_mb_assign(w0, this, process_id, block0);
}
@end
@ensures skip: recorded(this0.file_store@, block0) ==> same_work(this0, res.this)
@ensures once: !recorded(this0.file_store@, block0) ==> dispatched(this0, res.this, block0)
@ensures frame: res.this.file_store == this0.file_store
@fn m_destroy = MPIWorkerPool::~MPIWorkerPool
@requires pool: mp_ok(this0)
@ensures done: nothing_assigned(res.this) && nothing_unsaved(res.this)
@ensures files: !this0.file_store.is_null() ==> saves_files(this0, res.this)
@ensures local: res.this.master_thread_pool@.orders@ =~= this0.master_thread_pool@.orders@ + this0.master_thread_pool@.threads@.map(|i: int, t: THandle| Order::Stop(t))
@ensures remote: forall|p: int| 1 <= p < this0.mpi_world@.size() ==> (#[trigger] res.this.mpi_world@.at(p)).stopped
@proof before loop 1
let ghost m = this;
@end
@loop 1
@inv it: 1 <= ix <= m.mpi_world@.size() && this == (MPIWorkerPool { mpi_world: this.mpi_world, ..m }) && !this.mpi_world.is_null() && this.mpi_world@.waiting().is_none() && this.mpi_world@.size() == m.mpi_world@.size()
@inv told: forall|p: int| 1 <= p < ix ==> #[trigger] this.mpi_world@.at(p) == (RP { stopped: true, ..m.mpi_world@.at(p) })
@inv rest: forall|p: int| ix <= p < m.mpi_world@.size() ==> #[trigger] this.mpi_world@.at(p) == m.mpi_world@.at(p)
@decreases m.mpi_world@.size() - ix

# The message loop of a process that is not the master (C16): it does for every message what the master's contract says
@tu src/worker_pool/mpi_worker.cc src/worker_pool/mpi.cc src/threaded/thread_pool.cc src/worker_pool/standalone.cc
@use mpi.vc
@prelude
pub struct CStatus { pub g: Ghost<int> }
impl Clone for CStatus { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for CStatus {}
#[verifier::external_body]
pub fn status_tag(s: CStatus) -> (r: i32) ensures r == s.g@ { unimplemented!() }
// the master sends each tag but store_type, one request at a time, and nothing after the shutdown
#[verifier::external_body]
pub fn comm_probe(c: CComm) -> (r: (CStatus, CComm))
  requires c.request().is_none(), !c.me().stopped
  ensures 0 <= r.0.g@ <= 7, r.0.g@ != 6, r.1.probed() == r.0.g@, r.1.me() == c.me(), r.1.request() == c.request()
{ unimplemented!() }
// a received message is what the contract of the master promises when it sends
#[verifier::external_body]
pub fn get_assign_cpu_block(c: CComm, from: i32) -> (r: (Block, CComm))
  requires from == 0, c.probed() == 0
  ensures c.me().cpu > 0, !c.me().out.contains(r.0), r.1.me() == rp_assign(c.me(), r.0, false), r.1.request() == c.request()
{ unimplemented!() }
#[verifier::external_body]
pub fn get_assign_opencl_block(c: CComm, from: i32) -> (r: (Block, CComm))
  requires from == 0, c.probed() == 1
  ensures c.me().ocl > 0, !c.me().out.contains(r.0), r.1.me() == rp_assign(c.me(), r.0, true), r.1.request() == c.request()
{ unimplemented!() }
#[verifier::external_body]
pub fn get_finished_blocks(c: CComm, from: i32) -> (r: (bool, CComm))
  requires from == 0, c.probed() == 2
  ensures r.1.me() == c.me(), r.1.request() == Some(Tag::Finished)
{ unimplemented!() }
#[verifier::external_body]
pub fn get_flush_ready_threads(c: CComm, from: i32) -> (r: (bool, CComm))
  requires from == 0, c.probed() == 3
  ensures r.1.me() == c.me(), r.1.request() == Some(Tag::FlushReady)
{ unimplemented!() }
#[verifier::external_body]
pub fn get_save_global_stores_to_file(c: CComm, from: i32) -> (r: (bool, CComm))
  requires from == 0, c.probed() == 4
  ensures r.1.me() == c.me(), r.1.request() == Some(Tag::Save)
{ unimplemented!() }
#[verifier::external_body]
pub fn get_shutdown(c: CComm, from: i32) -> (r: (bool, CComm))
  requires from == 0, c.probed() == 5
  ensures c.me().out =~= Set::<Block>::empty(), c.me().unsaved =~= Set::<Block>::empty(), r.1.me() == (RP { stopped: true, ..c.me() }), r.1.request() == c.request()
{ unimplemented!() }
#[verifier::external_body]
pub fn get_update_config(c: CComm, from: i32) -> (r: (ConfigNode, CComm))
  requires from == 0, c.probed() == 7
  ensures c.me().out =~= Set::<Block>::empty(), c.me().unsaved =~= Set::<Block>::empty(), r.1.me() == (RP { configs: c.me().configs.push(r.0), ..c.me() }), r.1.request() == c.request()
{ unimplemented!() }
// a reply is what the contract of the master expects when it receives
#[verifier::external_body]
pub fn reply_flush_ready_threads(c: CComm, to: i32, x: (u32, u32), p: SPtr<ThreadPool>) -> (r: CComm)
  requires to == 0, c.request() == Some(Tag::FlushReady)
  ensures r.me() == (RP { cpu: c.me().cpu + x.0, ocl: c.me().ocl + x.1, ..c.me() }), r.request().is_none()
{ unimplemented!() }
#[verifier::external_body]
pub fn reply_finished_blocks(c: CComm, to: i32, x: CVec<Block>, p: SPtr<ThreadPool>) -> (r: CComm)
  requires to == 0, c.request() == Some(Tag::Finished), distinct(x@), forall|b: Block| #[trigger] x@.contains(b) ==> c.me().out.contains(b)
  ensures r.me() == (RP { out: c.me().out.difference(x@.to_set()), ..c.me() }), r.request().is_none()
{ unimplemented!() }
#[verifier::external_body]
pub fn reply_save_global_stores_to_file(c: CComm, to: i32, x: (CVec<u8>, CVec<u8>), p: SPtr<ThreadPool>) -> (r: CComm)
  requires to == 0, c.request() == Some(Tag::Save), p@.unsaved@.subset_of(c.me().out), p@.flushed@ == c.me().flushed.push(x)
  ensures r.me() == (RP { unsaved: c.me().out, flushed: p@.flushed@, ..c.me() }), r.request().is_none()
{ unimplemented!() }
// what the master believes about this process is so
pub open spec fn coupled(c: CComm, p: ThreadPool) -> bool {
  &&& pool_ok(p) && c.request().is_none()
  &&& c.me().out =~= outstanding(p) && p.unsaved@.subset_of(c.me().unsaved) && p.flushed@ == c.me().flushed
  &&& split_at(p.idle_threads@, c.me().ocl) && p.idle_threads@.len() == c.me().ocl + c.me().cpu
}
pub open spec fn last_config(o: Seq<Order>, t: Seq<THandle>, c: ConfigNode) -> bool { o.len() >= t.len() && o.skip(o.len() - t.len()) =~= t.map(|i: int, t: THandle| Order::Config(t, c)) }
@end
@fn main_worker = main_mpi_worker
@requires fresh: !mpi_world0.is_null() && mpi_world0@.request().is_none() && !mpi_world0@.me().stopped && mpi_world0@.me().cpu == 0 && mpi_world0@.me().ocl == 0 && mpi_world0@.me().out =~= Set::<Block>::empty() && mpi_world0@.me().unsaved =~= Set::<Block>::empty() && mpi_world0@.me().flushed =~= Seq::<(CVec<u8>, CVec<u8>)>::empty()
@ensures normal: res.ret == 0
@loop 1
@invtop coupled: !mpi_world.is_null() && !thread_pool.is_null() && coupled(mpi_world@, thread_pool@)
@invtop running: !mpi_world@.me().stopped
@exit stopped: mpi_world@.me().stopped && thread_pool@.threads@.len() == 0
@proof before loop 1
assert(mpi_world@.me().out =~= outstanding(thread_pool@)); assert(thread_pool@.unsaved@ =~= Set::<Block>::empty()); assert(thread_pool@.flushed@ == mpi_world@.me().flushed); assert(split_at(thread_pool@.idle_threads@, 0));
@end

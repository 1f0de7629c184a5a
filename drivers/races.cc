// C15, C16, C10: the same code with real threads under ThreadSanitizer: is shared data only touched under its lock
#include "harness.hh"
#include <boost/filesystem.hpp>
#include "threaded/thread_pool.hh"
#include "worker_pool/standalone.hh"
#include "curve_iterator.hh"
typedef unsigned u;
using namespace std;
static ConfigNode node(u p, u e, u cx, const string & dir) { ConfigNode n; n.prime = p; n.prime_exponent = e; n.genus = 1; n.with_marked_point = false; n.count_exponent = cx; n.result_path = dir; n.package_size = 2; return n; }
int main(int argc, char ** argv) {
  string prop = argc > 1 ? argv[1] : "C16"; H::init(argc - 1, argv + 1);
  auto sc = make_unique<H::Scratch>(); u rounds = 0;
  while (rounds < 2 || (H::more() && rounds < (H::thorough ? 60u : 6u))) {
    u n = 2 + H::below(5), p = H::below(2) ? 3 : 5; string dir = sc->path + "/" + to_string(rounds++); boost::filesystem::create_directories(dir + "/a"); boost::filesystem::create_directories(dir + "/b");
    H::input("races:threads=%u p=%u round=%u", n, p, rounds);
    {
      StandaloneWorkerPool pool(StoreType::EC, n, 0);
      for (string d : {"/a", "/b"}) {
        auto c = node(p, 1, 1 + H::below(2), dir + d); pool.update_config(c); FqElementTable t(p, 1); u k = 0;
        for (CurveIterator it(t, 1, false, 2); !it.is_end() && k < 60; it.step(), ++k) pool.assign(it.as_block());
      }
    }
    H::input("flushing:threads=%u round=%u", n, rounds);
    { // the pool is asked for finished blocks and idle threads, and the shared store is emptied, while the workers run
      auto f = create_store_factory(StoreType::EC); auto pool = make_shared<ThreadPool>(f); pool->spark_threads(n, 0); pool->update_config(node(p, 1, 2, dir)); u idle = 0, out = 0; FqElementTable t(p, 1); u k = 0;
      for (CurveIterator it(t, 1, false, 3); !it.is_end() && k < 80; it.step(), ++k) {
        for (u w = 0; !idle && w < 20000; ++w) { idle += get<0>(pool->flush_ready_threads()); out -= pool->flush_finished_blocks().size(); if (k % 3 == 0) pool->flush_global_store(); if (!idle) this_thread::sleep_for(chrono::microseconds(50)); }
        if (!idle) break; --idle; ++out; pool->assign(it.as_block(), false);
      }
      for (u w = 0; out && w < 20000; ++w) { out -= pool->flush_finished_blocks().size(); this_thread::sleep_for(chrono::milliseconds(1)); }
      pool->shutdown_threads();
    }
  }
  sc.reset();
  return H::finish();
}

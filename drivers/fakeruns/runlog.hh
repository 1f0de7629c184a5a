// what a program hands to its worker pool, written down
#ifndef VERIF_RUNLOG
#define VERIF_RUNLOG
#include "config/config_node.hh"
#include "block_iterator.hh"
#include "store/store_factory.hh"
#include "store/file_store.hh"
struct RunLog { struct Seg { ConfigNode c; std::vector<vuu_block> blocks; bool dir; }; int pools = 0, workers = 0, lost = 0; std::vector<Seg> segs; int rank = 0, worker_returns = 0; };
inline RunLog run_log;
struct RunPool {
  RunPool() { ++run_log.pools; }
  void update_config(const ConfigNode & n) { run_log.segs.push_back({n, {}, boost::filesystem::is_directory(n.result_path)}); }
  void assign(vuu_block b) { if (run_log.segs.empty()) ++run_log.lost; else run_log.segs.back().blocks.push_back(b); if (run_log.segs.size() && run_log.segs.back().blocks.size() > 3000000) { H::fail("the program does not stop assigning blocks"); throw std::runtime_error("too many blocks"); } }
  void fill_idle_queues() {} void flush_finished_blocks() {} void save_global_stores_to_file() {} void wait_for_assigned_blocks() {} void delayed_save_global_stores_to_file() {}
};
#endif

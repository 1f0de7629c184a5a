// C16: the contracts of the thread pool and of the worker pools, executed on the real code under simulated schedules
#include "threaded/thread_pool.hh"
#include "worker_pool/standalone.hh"
#include "worker_pool/mpi.hh"
#include "worker_pool/mpi_worker.hh"
#include "curve_iterator.hh"
#include <boost/filesystem.hpp>
#include "simwork.hh"
#include <dirent.h>
#include <boost/program_options.hpp>
#include <yaml-cpp/yaml.h>
#include "store/store_factory.hh"
namespace threaded_program {
#include "executables/threaded.cc"
}
namespace mpi_program {
#include "executables/mpi.cc"
}
const shared_ptr<StoreFactoryInterface> verif_store_factory(StoreType) { return make_shared<RecFactory>(); }
using H::below; using H::pick;
static map<int, Thread *> worker_of;      // simulated thread -> worker
static set<int> gpu_tasks;
static u gpus = 0, made = 0;
static void hook(Sim::Task * t, void * p) {
  if (!p) return;
  worker_of[t->id] = (Thread *)p;
  if (made++ < gpus) { set_gpu((Thread *)p, 0); }
  if (((Thread *)p)->is_opencl_thread()) gpu_tasks.insert(t->id);
}
static void fresh(u g) { policy(); worker_of.clear(); gpu_tasks.clear(); made = 0; gpus = can_gpu<Thread>(0) ? g : 0; Sim::on_thread = hook; }
static vuu_block block_for(u q, bool gpu, const set<vuu_block> & used) { for (u i = 0; i < 200; ++i) { auto b = gpu ? squareful_block(q) : some_block(q); if (!used.count(b)) return b; } return {}; }
// what was given to a pool
struct Work { vuu_block block; Cfg cfg; string dir; uint64_t given = ~0ull, taken = 0; bool kind_gpu = false, kind_known = false; };
static vector<Work> work; static size_t nflush;
static map<pair<vuu_block, string>, size_t> flushed_in; static string current_dir;
static map<int, size_t> last_of_task;
// every hand-over is the work of one worker on one block that was given
static void check_flushes() {
  for (; nflush < flushes.size(); ++nflush) {
    auto & f = flushes[nflush]; Work * w = 0;
    for (auto & x : work) if (x.block == f.block && !x.taken) { w = &x; break; }
    if (!w) { for (auto & x : work) if (x.block == f.block) return Sim::die("block " + bstr(f.block) + " is processed twice"); return Sim::die("block " + bstr(f.block) + " was not given to the pool"); }
    w->taken = f.step ? f.step : 1;
    if (f.curves != expected(w->cfg, w->block)) return Sim::die("block " + bstr(f.block) + " for q=" + to_string(w->cfg.q) + " up to exponent " + to_string(w->cfg.cx) + " gives " + lst(f.curves) + " instead of " + lst(expected(w->cfg, w->block)));
    if (!worker_of.count(f.task)) return Sim::die("block " + bstr(f.block) + " is not processed by a worker");
    if (w->kind_known && (gpu_tasks.count(f.task) != 0) != w->kind_gpu) return Sim::die("block " + bstr(f.block) + " is processed by a worker of the wrong kind");
    // the worker was idle when it was given the block
    auto l = last_of_task.find(f.task);
    if (l != last_of_task.end() && flushes[l->second].step > w->given) return Sim::die("block " + bstr(f.block) + " is given to a worker that has not finished block " + bstr(flushes[l->second].block));
    last_of_task[f.task] = nflush;
  }
}
static void start() { work.clear(); nflush = 0; last_of_task.clear(); Sim::at_step = check_flushes; }

// ------------------------------------------------------------------ the pool of threads
static void thread_pool() {
  u n = 1 + below(4), g = below(3) == 0 ? below(n + 1) : 0, ops = 3 + below(25); fresh(g); g = gpus; Cfg c = pick(cfgs); bool squareful = g > 0;
  H::input("pool:threads=%u gpu=%u ops=%u q=%u cx=%u seed=%llx", n, g, ops, c.q, c.cx, (unsigned long long)H::state);
  start(); work.reserve(200); set<vuu_block> out, reported; u cpu_idle = 0, gpu_idle = 0, cpu_total = 0, gpu_total = 0; size_t assigned_cpu = 0, assigned_gpu = 0;
  shared_ptr<ThreadPool> pool;
  Sim::spawn([&] {
    pool = make_shared<ThreadPool>(make_shared<RecFactory>());
    bool dflt = below(4) == 0; Sim::concurrency = n;
    pool->spark_threads(dflt ? -1 : (int)n, below(3));
    pool->update_config(node(c, "x"));
    if (made != n) return Sim::die(to_string(made) + " workers are started instead of " + to_string(n));
    auto ready = [&] { u a, b; tie(a, b) = pool->flush_ready_threads(); cpu_idle += a; gpu_idle += b; cpu_total += a; gpu_total += b; };
    auto fin = [&] {
      for (auto & b : pool->flush_finished_blocks()) {
        if (!out.count(b)) return Sim::die("block " + bstr(b) + " is reported finished " + (reported.count(b) ? "twice" : "without having been given to the pool"));
        bool f = false; for (auto & x : flushes) if (x.block == b) f = true;
        if (!f) return Sim::die("block " + bstr(b) + " is reported finished before its results are stored");
        out.erase(b); reported.insert(b);
      }
    };
    ready(); if (cpu_idle + gpu_idle != n || gpu_idle != g) return Sim::die("at the start " + to_string(cpu_idle) + "+" + to_string(gpu_idle) + " workers are ready instead of " + to_string(n - g) + "+" + to_string(g));
    for (u i = 0; i < ops && Sim::broken.empty(); ++i) {
      switch (below(5)) {
      case 0: case 1: {
        bool k = gpu_idle && (below(2) || !cpu_idle); if (!(k ? gpu_idle : cpu_idle)) { ready(); break; }
        auto b = block_for(c.q, squareful, {out.begin(), out.end()}); if (b.empty() || reported.count(b) || out.count(b)) break;
        expected(c, b); out.insert(b); Work w; w.block = b; w.cfg = c; w.kind_known = true; w.kind_gpu = k; work.push_back(w); size_t at = work.size() - 1;
        uint64_t s = Sim::steps; (void)s; pool->assign(b, k); work[at].given = Sim::steps; --(k ? gpu_idle : cpu_idle); ++(k ? assigned_gpu : assigned_cpu); break; }
      case 2: ready(); break;
      case 3: fin(); break;
      default:
        if (out.empty() && below(3) == 0) { c = pick(cfgs); pool->update_config(node(c, "x")); }
        else std::this_thread::sleep_for(std::chrono::milliseconds(below(40)));
      }
      if (cpu_total > n - g + assigned_cpu || gpu_total > g + assigned_gpu) return Sim::die("more workers become ready than there are");
    }
    for (u i = 0; !out.empty() && Sim::broken.empty(); ++i) { if (i > 3000) return Sim::die("block " + bstr(*out.begin()) + " is never reported finished"); fin(); std::this_thread::sleep_for(std::chrono::milliseconds(10)); }
    if (!Sim::broken.empty()) return;
    fin(); ready();
    if (cpu_total != n - g + assigned_cpu || gpu_total != g + assigned_gpu) return Sim::die("after all work " + to_string(cpu_total) + "+" + to_string(gpu_total) + " workers have become ready instead of " + to_string(n - g + assigned_cpu) + "+" + to_string(g + assigned_gpu));
    pool->shutdown_threads();
    pool.reset();
  }, 0);
  verdict(Sim::run()); Sim::reset();
}

// ------------------------------------------------------------------ directories
static unique_ptr<H::Scratch> scratch; static u dirs = 0;
static string new_dir() { string d = scratch->path + "/" + to_string(dirs++); boost::filesystem::create_directories(d); return d; }
struct Saved { multiset<vuu_block> record; multimap<string, vector<string>> results; string err; };
static Saved read_dir(const string & d) {
  Saved s; set<string> rec, st; static const string RE = ".hycu_record", SE = ".hycu_store";
  for (boost::filesystem::directory_iterator i(d), e; i != e; ++i) {
    string f = i->path().filename().string(); ifstream in(i->path().string()); string l;
    auto ends = [&](const string & x) { return f.size() > x.size() && f.substr(f.size() - x.size()) == x; };
    if (ends(RE)) { rec.insert(f.substr(0, f.size() - RE.size())); while (getline(in, l)) { stringstream ls(l); u a, b; vuu_block bl; while (ls >> a >> b) bl.push_back(make_tuple(a, b)); s.record.insert(bl); } }
    else if (ends(SE)) { st.insert(f.substr(0, f.size() - SE.size())); while (getline(in, l)) { size_t at = l.find('@'); vector<string> cs; string c; stringstream ls(l.substr(at == string::npos ? l.size() : at + 1)); while (getline(ls, c, '&')) cs.push_back(c); s.results.insert({l.substr(0, at), cs}); } }
    else if (f.find("tmp") == string::npos) s.err = "unexpected file " + f;
  }
  if (rec != st) s.err = "records and stores do not come in pairs";
  return s;
}
// `done`: blocks that must be in the directory, once each; `may`: blocks that may be
static string check_dir(const string & d, const vector<pair<Cfg, vuu_block>> & done, const vector<pair<Cfg, vuu_block>> & may) {
  Saved s = read_dir(d); if (!s.err.empty()) return s.err; string name = " in the directory of its configuration";
  for (auto & b : done) {
    if (s.record.count(b.second) != 1) return "block " + bstr(b.second) + " is recorded " + to_string(s.record.count(b.second)) + " times" + name;
    auto r = s.results.equal_range(bstr(b.second)); if (distance(r.first, r.second) != 1) return "block " + bstr(b.second) + " has " + to_string(distance(r.first, r.second)) + " results" + name;
    if (r.first->second != expected(b.first, b.second)) return "block " + bstr(b.second) + " has result " + lst(r.first->second) + " instead of " + lst(expected(b.first, b.second)) + name;
  }
  set<vuu_block> ok; for (auto & b : done) ok.insert(b.second); for (auto & b : may) ok.insert(b.second);
  for (auto & b : s.record) { if (!ok.count(b)) return "block " + bstr(b) + " is recorded in a directory of another configuration"; if (s.record.count(b) > 1) return "block " + bstr(b) + " is recorded twice"; }
  for (auto & r : s.results) if (s.results.count(r.first) > 1) return "block " + r.first + " has two results";
  if (s.record.size() != s.results.size()) return "results and records do not match";
  return "";
}

// ------------------------------------------------------------------ one process / several processes
template<class Pool> void drive(Pool & pool, u ops, bool squareful, vector<pair<Cfg, string>> & sessions, map<string, vector<pair<Cfg, vuu_block>>> & by_dir, bool end_wait) {
  map<string, vector<pair<Cfg, vuu_block>>> all; string dir; Cfg c; set<vuu_block> here; bool have = false;
  auto config = [&] {
    string old = dir; bool had = have;
    if (!sessions.empty() && below(4) == 0) { auto s = pick(sessions); c = s.first; dir = s.second; } else { c = pick(cfgs); dir = new_dir(); sessions.push_back({c, dir}); }
    have = true;
    pool.update_config(node(c, dir));
    here.clear();
    if (had) { string e = check_dir(old, by_dir[old], {}); if (!e.empty()) return Sim::die("when the configuration changes: " + e); }
    for (auto & w : work) if (!w.taken) return Sim::die("block " + bstr(w.block) + " is not finished when the configuration changes");
  };
  config();
  for (u i = 0; i < ops && Sim::broken.empty(); ++i) switch (below(12)) {
    case 0: if (below(2)) config(); break;
    case 1: pool.save_global_stores_to_file(); { vector<pair<Cfg, vuu_block>> done; string e = check_dir(dir, done, by_dir[dir]); if (!e.empty()) Sim::die("after saving: " + e); } break;
    case 2: pool.wait_for_assigned_blocks(); for (auto & w : work) if (!w.taken) Sim::die("block " + bstr(w.block) + " is not finished after waiting for all blocks"); break;
    case 3: std::this_thread::sleep_for(std::chrono::milliseconds(below(200))); break;
    case 4: pool.flush_finished_blocks(); break;
    case 5: if (below(2)) pool.delayed_save_global_stores_to_file(); break;
    default: {
      // now and then a block that an earlier session with this directory has recorded
      auto & old = by_dir[dir]; vuu_block b; bool skip = false;
      if (!old.empty() && below(4) == 0) { b = pick(old).second; if (here.count(b)) break; skip = true; }
      else { set<vuu_block> used; for (auto & w : work) used.insert(w.block); b = block_for(c.q, squareful, used); if (b.empty()) break; }
      expected(c, b);
      if (!skip) { Work w; w.block = b; w.cfg = c; w.dir = dir; work.push_back(w); old.push_back({c, b}); here.insert(b); size_t at = work.size() - 1; pool.assign(b); work[at].given = Sim::steps; }
      else pool.assign(b);
    } }
  if (end_wait && Sim::broken.empty()) { pool.wait_for_assigned_blocks(); for (auto & w : work) if (!w.taken) Sim::die("block " + bstr(w.block) + " is not finished after waiting for all blocks"); }
}
static void at_end(map<string, vector<pair<Cfg, vuu_block>>> & by_dir) {
  check_flushes(); if (!Sim::broken.empty()) return H::fail(Sim::broken);
  for (auto & w : work) if (!w.taken) return H::fail("block " + bstr(w.block) + " is never processed");
  for (auto & d : by_dir) { string e = check_dir(d.first, d.second, {}); if (!e.empty()) return H::fail("after the pool has shut down: " + e); }
}
static void cleanup(vector<pair<Cfg, string>> & sessions) { for (auto & s : sessions) if (s.second.rfind(scratch->path + "/", 0) == 0) boost::filesystem::remove_all(s.second); }
static void standalone() {
  u n = 1 + below(4), g = below(4) == 0 ? below(n + 1) : 0, ops = 2 + below(30); bool ew = below(2); fresh(g); bool squareful = gpus > 0;
  H::input("standalone:threads=%u gpu=%u ops=%u wait=%d seed=%llx", n, gpus, ops, ew, (unsigned long long)H::state);
  start(); work.reserve(400); vector<pair<Cfg, string>> sessions; map<string, vector<pair<Cfg, vuu_block>>> by_dir;
  Sim::spawn([&] { StandaloneWorkerPool pool(StoreType::EC, n, 0); drive(pool, ops, squareful, sessions, by_dir, ew); if (!Sim::broken.empty()) Sim::point(); }, 0);
  if (verdict(Sim::run())) at_end(by_dir);
  Sim::reset(); cleanup(sessions);
}
static void mpi_pool() {
  u procs = 1 + below(4), n = 1 + below(3), g = below(4) == 0 ? below(procs * n + 1) : 0, ops = 2 + below(25); bool ew = below(2); fresh(g); bool squareful = gpus > 0;
  boost::mpi::world = boost::mpi::World(); auto & W = boost::mpi::world; W.size = procs; W.box.resize(procs); W.bcast.resize(procs); W.synchronous = below(3) == 0;
  H::input("mpi:processes=%u threads=%u gpu=%u ops=%u synchronous=%d seed=%llx", procs, n, gpus, ops, (int)W.synchronous, (unsigned long long)H::state);
  start(); work.reserve(400); vector<pair<Cfg, string>> sessions; map<string, vector<pair<Cfg, vuu_block>>> by_dir;
  Sim::spawn([&] { auto w = make_shared<mpi::communicator>(); MPIWorkerPool pool(w, StoreType::EC, n, 0); drive(pool, ops, squareful, sessions, by_dir, ew); if (!Sim::broken.empty()) Sim::point(); }, 0);
  vector<int> rc(procs, -1);
  for (u i = 1; i < procs; ++i) Sim::spawn([&, i] { rc[i] = main_mpi_worker(make_shared<mpi::communicator>()); }, i);
  if (verdict(Sim::run())) { at_end(by_dir); for (u i = 1; i < procs; ++i) if (rc[i]) H::fail("worker process " + to_string(i) + " ends with " + to_string(rc[i])); for (auto & b : W.box) if (!b.empty()) { H::fail("a message is never received"); break; } }
  Sim::reset(); cleanup(sessions);
}

// ------------------------------------------------------------------ the programs, with interruption and restart
static void program(bool dist) {
  u procs = dist ? 1 + below(3) : 1, n = 1 + below(3); fresh(0);
  string root = new_dir(), yaml; vector<pair<Cfg, string>> plan; map<string, vector<pair<Cfg, vuu_block>>> want; string desc;
  u mods = 1 + below(3); bool list = mods > 1 || below(2); if (below(2)) yaml += "StoreType: EC\n"; if (list) yaml += "Moduli:\n"; 
  static const vector<Cfg> small = {{3, 1, 1, 3}, {3, 1, 2, 3}, {5, 1, 1, 5}, {7, 1, 1, 7}};
  for (u i = 0; i < mods; ++i) {
    Cfg c = pick(small); u genus = c.q == 3 ? 1 + below(2) : 1; bool mark = below(2); u pkg = c.q == 3 && genus == 1 ? 1 + below(8) : 3 + below(40); string dir = "r" + to_string(i) + (below(2) ? "/s" : ""); string in = list ? "    " : "";
    string ls = list ? "  - " : "";
    yaml += ls + "Prime: " + to_string(c.p) + "\n" + in + "PrimeExponent: " + to_string(c.e) + "\n" + in + "Genus: " + to_string(genus) + "\n" + in + "WithMarkedPoint: " + (mark ? "true" : "false") + "\n" + in + "CountExponent: " + to_string(c.cx) + "\n" + in + "ResultPath: " + dir + "\n" + in + "PackageSize: " + to_string(pkg) + "\n";
    desc += "(q=" + to_string(c.q) + " cx=" + to_string(c.cx) + " g=" + to_string(genus) + " mark=" + to_string(mark) + " pkg=" + to_string(pkg) + ")";
    string full = root + "/out/" + dir; FqElementTable t(c.p, c.e); for (CurveIterator it(t, genus, mark, pkg); !it.is_end(); it.step()) want[full].push_back({c, it.as_block()});
  }
  { ofstream(root + "/config.yaml") << yaml; }
  u runs = 1 + below(3); size_t total = 0; for (auto & w : want) total += w.second.size();
  for (u r = 0; r < runs; ++r) {
    bool cut = r + 1 < runs && below(3); u nn = n; fresh(0);
    H::input("program:%s %s processes=%u threads=%u run=%u cut=%d seed=%llx", dist ? "mpi" : "threaded", desc.c_str(), procs, n, r, cut, (unsigned long long)H::state);
    boost::mpi::world = boost::mpi::World(); auto & W = boost::mpi::world; W.size = procs; W.box.resize(procs); W.bcast.resize(procs); W.synchronous = below(3) == 0;
    start(); Sim::at_step = nullptr; map<string, multiset<vuu_block>> before; for (auto & w : want) if (boost::filesystem::is_directory(w.first)) before[w.first] = read_dir(w.first).record;
    int rc = -1; static vector<string> args; args = {"hycu", root + "/config.yaml", root + "/out", "-n", to_string(nn)};
    static vector<char *> av; av.clear(); for (auto & a : args) av.push_back((char *)a.c_str()); av.push_back(0);
    Sim::spawn([&, dist] { rc = dist ? mpi_program::main(args.size(), av.data()) : threaded_program::main(args.size(), av.data()); }, 0);
    for (u i = 1; i < procs; ++i) Sim::spawn([&] { mpi_program::main(args.size(), av.data()); }, i);
    Sim::limit = 3000000; if (cut) Sim::stop_at = 50 + below(total * 60 + 200);
    auto res = Sim::run(); Sim::limit = 300000;
    if (!verdict(res)) { bool stopped = res == Sim::STOPPED; Sim::reset(); if (!stopped) { boost::filesystem::remove_all(root); return; }
      for (auto & w : want) if (boost::filesystem::is_directory(w.first)) { string e = check_dir(w.first, {}, w.second); if (!e.empty() && e.find("pairs") == string::npos) { H::fail("after an interruption: " + e); break; } }
      // an unrecorded result of the interrupted run is not looked at again
      for (auto & w : want) if (boost::filesystem::is_directory(w.first)) for (boost::filesystem::directory_iterator i(w.first), e; i != e; ++i) { auto p = i->path(); if (p.extension() == ".hycu_store") { auto q = p; q.replace_extension(".hycu_record"); if (!boost::filesystem::exists(q)) boost::filesystem::remove(p); } }
      continue; }
    Sim::reset();
    if (rc) { H::fail("the program ends with status " + to_string(rc)); break; }
    size_t again = 0; for (auto & b : before) again += b.second.size();
    if (flushes.size() + again != total) { H::fail(to_string(flushes.size()) + " blocks are processed, " + to_string(again) + " of " + to_string(total) + " were recorded before"); break; }
    string e; for (auto & w : want) { e = check_dir(w.first, w.second, {}); if (!e.empty()) break; }
    if (!e.empty()) { H::fail("after the program has ended: " + e); break; }
  }
  boost::filesystem::remove_all(root);
}

int main(int argc, char ** argv) {
  H::init(argc - 1, argv + 1); scratch.reset(new H::Scratch); cerr.rdbuf(nullptr);
  u n = H::thorough ? 200000 : 3000;
  for (u i = 0; i < 20 || (H::more() && i < n); ++i) {
    if (H::want("pool")) for (u k = 0; k < 3; ++k) thread_pool();
    if (H::want("standalone")) for (u k = 0; k < 2; ++k) standalone();
    if (H::want("mpi")) mpi_pool();
    if (i % 4 == 0 && H::want("program")) { program(false); program(true); }
  }
  scratch.reset();
  return H::finish();
}

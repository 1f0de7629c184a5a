// C15: the contracts of one worker, executed on the real code under simulated schedules
#include "threaded/thread_pool.hh"
#include "simwork.hh"
struct Given { vuu_block block; Cfg cfg; bool finished = false; };
static vector<Given> given; static size_t nfin = 0, nflush = 0;
const shared_ptr<StoreFactoryInterface> verif_store_factory(StoreType) { return make_shared<RecFactory>(); }
void ThreadPool::finished_block(vuu_block b) {
  Sim::point();
  if (nfin >= given.size()) return Sim::die("more blocks are reported finished than were assigned: " + bstr(b));
  if (given[nfin].block != b) return Sim::die("block " + bstr(b) + " is reported finished, the next one assigned is " + bstr(given[nfin].block));
  if (flushes.size() != nfin + 1) return Sim::die("block " + bstr(b) + " is reported finished after " + to_string(flushes.size()) + " hand-overs to the shared store, it is block number " + to_string(nfin + 1));
  given[nfin++].finished = true; Sim::point();
}
static void check_flushes() {
  for (; nflush < flushes.size(); ++nflush) {
    if (nflush >= given.size()) return Sim::die("more results are handed over than blocks assigned");
    auto & f = flushes[nflush]; auto & g = given[nflush];
    if (f.block != g.block) return Sim::die("results are handed over for block " + bstr(f.block) + " instead of " + bstr(g.block));
    if (f.curves != expected(g.cfg, g.block)) return Sim::die("block " + bstr(g.block) + " for q=" + to_string(g.cfg.q) + " up to exponent " + to_string(g.cfg.cx) + " gives " + lst(f.curves) + " instead of " + lst(expected(g.cfg, g.block)));
  }
}
static void scenario() {
  policy(); given.clear(); nfin = nflush = 0;
  bool gpu = can_gpu<Thread>(0) && H::below(5) == 0, drain = H::below(4) != 0; u ops = 1 + H::below(H::below(4) ? 8 : 25);
  struct Op { int kind; Cfg c; vuu_block b; }; vector<Op> plan; Cfg c = H::pick(cfgs); plan.push_back({0, c, {}});
  for (u i = 0; i < ops; ++i) switch (H::below(6)) {
    case 0: c = H::pick(cfgs); plan.push_back({0, c, {}}); break;
    case 1: plan.push_back({2, c, {}}); break;
    case 2: plan.push_back({3, c, {}}); break;
    default: plan.push_back({1, c, gpu ? squareful_block(c.q) : some_block(c.q)}); if (H::below(8) == 0) plan.push_back(plan.back());
  }
  for (auto & o : plan) if (o.kind == 1) expected(o.c, o.b);
  string d = "worker:"; for (auto & o : plan) d += o.kind == 0 ? "config q=" + to_string(o.c.q) + " cx=" + to_string(o.c.cx) + "; " : o.kind == 1 ? "assign " + bstr(o.b) + "; " : o.kind == 2 ? "wait; " : "sleep; ";
  H::input("%s%s gpu=%d seed=%llx", d.c_str(), drain ? "drain" : "stop at once", gpu, (unsigned long long)H::state);
  auto pool = make_shared<ThreadPool>();
  bool joined = false;
  Sim::spawn([&] {
    auto t = make_shared<Thread>(pool, make_shared<RecFactory>()); if (gpu) set_gpu(t.get(), 0);
    auto wait = [&] { for (u i = 0; nfin < given.size(); ++i) { if (i > 3000) return Sim::die("an assigned block is never finished:" + Sim::blocked()); std::this_thread::sleep_for(std::chrono::milliseconds(10)); } };
    t->spark();
    for (auto & o : plan) switch (o.kind) {
      case 0: t->update_config(node(o.c, "x")); break;
      case 1: given.push_back({o.b, o.c}); t->assign(o.b); break;
      case 2: wait(); break;
      case 3: std::this_thread::sleep_for(std::chrono::milliseconds(H::below(30))); break;
    }
    if (drain) wait();
    if (!Sim::broken.empty()) return;
    t->shutdown(); joined = true;
    for (u i = 0; i < 5; ++i) Sim::point();
  }, 0);
  Sim::at_step = check_flushes;
  if (verdict(Sim::run())) { check_flushes(); if (!Sim::broken.empty()) H::fail(Sim::broken); else if (drain && nfin != given.size()) H::fail("not every block is finished"); else if (nflush != nfin && drain) H::fail("results without a report"); ++H::nontriv; }
  Sim::reset();
}
int main(int argc, char ** argv) {
  H::init(argc - 1, argv + 1);
  u n = H::thorough ? 400000 : 6000;
  for (u i = 0; i < 200 || (H::more() && i < n); ++i) scenario();
  printf("STAT steps %llu\n", (unsigned long long)Sim::switches);
  return H::finish();
}

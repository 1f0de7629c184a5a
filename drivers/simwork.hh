// what the simulations share: a recording store, blocks, configurations, expected results
#ifndef VERIF_SIMWORK
#define VERIF_SIMWORK
#include "curve.hh"
#include "threaded/thread.hh"
typedef unsigned u;
using namespace std;
static string bstr(const vuu_block & b) { string s; for (auto & x : b) s += to_string(get<0>(x)) + "-" + to_string(get<1>(x)) + " "; return s; }
static string cstr(Curve & c) { string s; for (u x : c.rhs_coeff_exponents()) s += to_string(x) + ","; s += "|"; for (auto & n : c.number_of_points()) s += to_string(n.first) + "=" + to_string(get<0>(n.second)) + "+" + to_string(get<1>(n.second)) + ";"; return s; }
struct Flush { int proc, task; vuu_block block; vector<string> curves; uint64_t step; };
static vector<Flush> flushes;
struct Shared { set<vuu_block> record; string text; };
static map<int, Shared> shared_store;            // one per simulated process
struct RecStore : StoreInterface {
  vector<string> curves;
  void register_curve(const Curve & c) override { Sim::point(); curves.push_back(cstr(const_cast<Curve &>(c))); Sim::point(); }
  void flush_to_static_store(const vuu_block & b) override {
    Sim::point(); sort(curves.begin(), curves.end());
    flushes.push_back({Sim::proc(), Sim::cur ? Sim::cur->id : -1, b, curves, Sim::steps});
    auto & s = shared_store[Sim::proc()]; s.record.insert(b); s.text += bstr(b) + "@"; for (auto & c : curves) s.text += c + "&"; s.text += "\n"; curves.clear();
    Sim::point();
  }
  tuple<string, string> flush_static_store() override {
    Sim::point(); auto & s = shared_store[Sim::proc()]; string r, t;
    for (auto & b : s.record) { for (auto & x : b) r += to_string(get<0>(x)) + " " + to_string(get<1>(x)) + " "; r += "\n"; }
    t = s.text; s.record.clear(); s.text.clear(); Sim::point(); return make_tuple(r, t);
  }
  void extract(istream &) override {} void extract(istream &&) override {} void insert(ostream &) const override {} void insert(ostream &&) const override {}
};
struct RecFactory : StoreFactoryInterface { shared_ptr<StoreInterface> create() const override { Sim::point(); return make_shared<RecStore>(); } };

struct Cfg { u p, e, cx, q; };
static bool operator<(const Cfg & a, const Cfg & b) { return tie(a.p, a.e, a.cx) < tie(b.p, b.e, b.cx); }
static vector<Cfg> cfgs = {{3, 1, 1, 3}, {3, 1, 2, 3}, {5, 1, 1, 5}, {5, 1, 2, 5}, {7, 1, 1, 7}, {3, 2, 1, 9}, {3, 1, 3, 3}, {3, 2, 2, 9}, {11, 1, 1, 11}};
static ConfigNode node(const Cfg & c, const string & dir) { ConfigNode n; n.prime = c.p; n.prime_exponent = c.e; n.genus = 1; n.with_marked_point = false; n.count_exponent = c.cx; n.result_path = dir; n.package_size = 10; return n; }
static vuu_block some_block(u q) {
  for (;;) {
    u d = 3 + H::below(3), size = 1; vuu_block b(d + 1);
    for (u i = 0; i <= d; ++i) { u m = i == d ? q - 1 : q, lo = H::below(m), w = H::below(3) == 0 ? 1 + H::below(min(3u, m - lo)) : 1; b[i] = make_tuple(lo, lo + w); size *= w; }
    if (size <= 9) return b;
  }
}
static vuu_block squareful_block(u q) {     // c X^d + .. with a double root at 0
  u d = 3 + H::below(4); vuu_block b(d + 1, make_tuple(q - 1, q)); u c = H::below(q - 1); b[d] = make_tuple(c, c + 1);
  for (u i = 2; i < d; ++i) if (H::below(2)) { u x = H::below(q); b[i] = make_tuple(x, x + 1); }
  return b;
}
static const vector<string> & expected(const Cfg & c, const vuu_block & b) {
  static map<pair<Cfg, vuu_block>, vector<string>> memo; static map<Cfg, pair<shared_ptr<FqElementTable>, vector<shared_ptr<ReductionTable>>>> tabs;
  auto k = make_pair(c, b); auto it = memo.find(k); if (it != memo.end()) return it->second;
  auto & t = tabs[c];
  if (!t.first) { t.first = make_shared<FqElementTable>(c.p, c.e); for (u i = c.cx; i; --i) t.second.push_back(make_shared<ReductionTable>(c.p, i * c.e)); }
  vector<string> r; vector<u> pos; for (auto & x : b) pos.push_back(get<0>(x));
  bool some = true; for (auto & x : b) if (get<0>(x) >= get<1>(x)) some = false;
  while (some) {
    Curve cu(t.first, pos); if (cu.has_squarefree_rhs()) { for (auto & rt : t.second) cu.count(rt); r.push_back(cstr(cu)); }
    u i = 0; for (; i < b.size(); ++i) { if (++pos[i] < get<1>(b[i])) break; pos[i] = get<0>(b[i]); }
    if (i == b.size()) break;
  }
  sort(r.begin(), r.end());
  return memo[k] = r;
}
static string lst(const vector<string> & v) { string s = to_string(v.size()) + " curves ["; for (auto & x : v) s += x + " "; return s.substr(0, 300) + "]"; }
template<class T> auto set_gpu(T * t, int) -> decltype((void)t->opencl) { t->opencl = make_shared<OpenCLInterface>(); }
template<class T> void set_gpu(T *, long) {}
template<class T> constexpr auto can_gpu(int) -> decltype((void)std::declval<T &>().opencl, true) { return true; }
template<class T> constexpr bool can_gpu(long) { return false; }
static void policy() { static const vector<u> ps = {100, 100, 60, 25, 8, 2}; Sim::p_switch = H::pick(ps); Sim::jumpy = H::below(2); Sim::now_ms = 0; flushes.clear(); shared_store.clear(); }
static bool verdict(Sim::Result r) {
  if (r == Sim::BROKEN) H::fail(Sim::broken);
  else if (r == Sim::STUCK) H::fail("deadlock:" + Sim::blocked());
  else if (r == Sim::TOOLONG) H::fail("does not come to an end:" + Sim::blocked());
  return r == Sim::FINISHED;
}
#endif

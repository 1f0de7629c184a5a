// C22: the programs threaded and mpi, run on configuration files with worker pools that write down what they are given
#include "harness.hh"
#include <boost/filesystem.hpp>
#include <boost/program_options.hpp>
#include <yaml-cpp/yaml.h>
#include "curve_iterator.hh"
#include "fq_element_table.hh"
#include "config/config_node.hh"
#include "store/store_factory.hh"
#include "worker_pool/standalone.hh"
#include "worker_pool/mpi.hh"
#include "worker_pool/mpi_worker.hh"
#include <flint/fmpz.h>
namespace threaded_program {
#include "executables/threaded.cc"
}
namespace mpi_program {
#include "executables/mpi.cc"
}
using namespace std;
namespace fs = boost::filesystem;
typedef unsigned int u;
using H::below; using H::pick;
static unique_ptr<H::Scratch> scratch; static u made;

struct Family { u p, e, g, cx, pkg; bool mark, give_mark, give_cx; string dir; u q() const { u r = 1; for (u i = 0; i < e; ++i) r *= p; return r; } bool ok() const { return p && e && g && cx && pkg; } };
static u gcdu(uint64_t a, uint64_t b) { while (b) { uint64_t t = a % b; a = b; b = t; } return a; }
// twice the number of polynomials that a normal form with this support stands for
static void twice(fmpz_t r, u p, u q, const vector<u> & s) {
  uint64_t m = q - 1; u n = s.back(); size_t k = s.size(); u b = k >= 2 ? s[k - 2] : UINT_MAX, c = k >= 3 ? s[k - 3] : UINT_MAX;
  fmpz_set_ui(r, m);
  if (p > n) { fmpz_mul_ui(r, r, q); if (k >= 3) { fmpz_mul_ui(r, r, m); fmpz_divexact_ui(r, r, gcdu(m, b - c)); } }
  else if (n % p == 0) {
    if (k >= 2 && b == n - 1) { fmpz_mul_ui(r, r, q); if (k >= 3 && c == n - 3) { fmpz_mul_ui(r, r, m); fmpz_divexact_ui(r, r, gcdu(m, 3)); } }
    else if (k >= 2 && b == n - 2) { fmpz_mul_ui(r, r, m); fmpz_divexact_ui(r, r, 2); }
  } else { fmpz_mul_ui(r, r, q); if (k >= 2 && b == n - 2) { fmpz_mul_ui(r, r, m); fmpz_divexact_ui(r, r, 2); } }
}
// every normal form of the family lies in exactly one of the blocks, and nothing else does
static string covers(const Family & f, const vector<vuu_block> & bs) {
  u q = f.q(); set<vector<u>> seen; fmpz_t tot[2], m, w; for (auto & t : tot) fmpz_init(t); fmpz_init(m); fmpz_init(w); string bad;
  for (auto & b : bs) {
    if (b.size() != 2 * f.g + 2 && (f.mark || b.size() != 2 * f.g + 3)) { bad = "block " + H::str(b) + " for another degree"; break; }
    uint64_t vol = 1; for (auto & x : b) { if (get<0>(x) >= get<1>(x) || get<1>(x) > q) { bad = "block " + H::str(b) + " is empty or outside the field"; break; } vol *= get<1>(x) - get<0>(x); }
    if (!bad.empty()) break;
    if (vol > 3000000) { bad = "block " + H::str(b) + " is too large"; break; }
    vector<u> v; for (auto & x : b) v.push_back(get<0>(x)); u d = v.size() - 1;
    for (uint64_t i = 0; i < vol && bad.empty(); ++i) {
      if (!seen.insert(v).second) { bad = "polynomial " + H::str(v) + " is given twice"; break; }
      vector<u> s; for (u j = 0; j <= d; ++j) if (v[j] != q - 1) s.push_back(j);
      if (v[d] == q - 1 || (d % f.p != 0 && v[d - 1] != q - 1) || (d % f.p == 0 && v[d - 1] != q - 1 && v[d - 2] != q - 1)) { bad = "polynomial " + H::str(v) + " is not in normal form"; break; }
      twice(m, f.p, q, s); fmpz_add(tot[d - 2 * f.g - 1], tot[d - 2 * f.g - 1], m);
      for (u j = 0; j <= d; ++j) { if (++v[j] < get<1>(b[j])) break; v[j] = get<0>(b[j]); }
    }
    if (!bad.empty()) break;
  }
  for (u k = 0; k < (f.mark ? 1u : 2u) && bad.empty(); ++k) { u d = 2 * f.g + 1 + k; fmpz_set_ui(w, q); fmpz_pow_ui(w, w, d); fmpz_mul_ui(w, w, q - 1); if (!fmpz_equal(w, tot[k])) bad = "the blocks do not cover the polynomials of degree " + H::str(d); }
  for (auto & t : tot) fmpz_clear(t); fmpz_clear(m); fmpz_clear(w); return bad;
}
static Family family(u i) {
  static const vector<pair<u,u>> fields{{3,1},{3,1},{5,1},{7,1},{3,2},{11,1},{5,2},{13,1},{3,3},{7,2},{3,4},{101,1},{5,3},{211,1},{3,1},{5,1}};
  Family f; auto x = pick(fields); f.p = x.first; f.e = x.second;
  do f.g = 1 + below(4); while (4 * pow((double)f.q(), 2 * f.g - 1) > (H::thorough ? 1e6 : 3e4) && f.g > 1);
  f.mark = below(2); f.give_mark = f.mark || below(2); f.give_cx = below(2); f.cx = f.give_cx ? 1 + below(12) : f.g; f.pkg = 1 + below(below(2) ? 20 : 3000); if (below(6) == 0) f.pkg = 1 + H::lit() % 5000;
  if (f.give_cx && below(10) == 0) f.cx = 1 + H::lit() % 1000;
  static const vector<string> dirs{"r", "res/a", "./x", "a b", "r.1"}; f.dir = pick(dirs) + (below(4) ? to_string(i) : ""); return f;
}
static string node(const Family & f, const string & in, const string & first, const string & dir) {
  vector<string> l{"Prime: " + to_string(f.p), "PrimeExponent: " + to_string(f.e), "Genus: " + to_string(f.g), "ResultPath: " + dir, "PackageSize: " + to_string(f.pkg)};
  if (f.give_mark) l.push_back(string("WithMarkedPoint: ") + (f.mark ? "true" : "false"));
  if (f.give_cx) l.push_back("CountExponent: " + to_string(f.cx));
  for (u i = l.size(); i > 1; --i) swap(l[i - 1], l[below(i)]);
  string s; for (u i = 0; i < l.size(); ++i) s += (i ? in : first) + l[i] + "\n"; return s;
}
static void run(bool dist) {
  string root = scratch->path + "/" + to_string(made++); fs::create_directories(root + "/w"); if (chdir((root + "/w").c_str())) return H::fail("no scratch directory");
  u n = 1 + below(below(3) ? 4 : 9); if (below(40) == 0) n = 10 + below(30); bool list = n > 1 || below(2); vector<Family> fam; string yaml, desc; bool fails = false, invalid = false; u stop = n;
  // the output path, relative or not, there or not
  u kind = below(5); string out = kind == 0 ? root + "/out" : kind == 1 ? "out" : kind == 2 ? "../deep/er/out" : kind == 3 ? root + "/w/../out" : "."; bool there = kind == 4 || below(2);
  if (kind == 2) fs::create_directories(root + "/deep");
  if (there) fs::create_directories(out);
  u st = below(8); if (st < 3) yaml += "StoreType: EC\n"; else if (st == 7 && below(3) == 0) { static const vector<string> no{"ec", "Other", "E", "ECC", "\"\""}; yaml += "StoreType: " + pick(no) + "\n"; fails = true; }
  if (list) yaml += "Moduli:\n";
  for (u i = 0; i < n; ++i) {
    Family f = family(i);
    if (below(12) == 0) { u * z[] = {&f.p, &f.e, &f.g, &f.cx, &f.pkg}; u k = below(5); *z[k] = 0; if (k == 3) f.give_cx = true; if (k == 2 && !f.give_cx) f.cx = 0; }
    string s = node(f, list ? "    " : "", list ? "  - " : "", f.dir);
    if (below(60) == 0) { s = (list ? "  - " : "") + string("Prime: 3\n"); f.p = 0; }        // an incomplete node
    yaml += s; fam.push_back(f); desc += "(" + to_string(f.p) + "^" + to_string(f.e) + " g=" + to_string(f.g) + " mark=" + to_string(f.mark) + " cx=" + to_string(f.cx) + " pkg=" + to_string(f.pkg) + " " + f.dir + ")";
    if (!f.ok() && stop == n) { stop = i; invalid = true; }
  }
  string cfg = below(2) ? root + "/c.yaml" : "conf"; { ofstream(cfg) << yaml; }
  vector<string> a{dist ? "mpi" : "threaded"}; bool help = below(25) == 0, noconf = below(25) == 0, noout = below(25) == 0; if (noconf || noout) fails = true; static const vector<string> helps{"--help", "-h"};
  if (help) a.push_back(pick(helps));
  if (below(3) == 0) { a.push_back("-n"); a.push_back(to_string(1 + below(4))); }
  if (below(4) == 0) a.push_back("--nmb-threads-per-gpu=" + to_string(1 + below(3)));
  string gone = below(30) == 0 ? (below(2) ? "nothere" : "w") : ""; if (!gone.empty()) { if (gone == "w") gone = root + "/w"; fails = true; }
  string given = gone.empty() ? cfg : gone; u how = below(3);
  if (noconf || noout) how = 1;
  if (how == 0) { a.push_back(given); a.push_back(out); }
  else { auto conf = [&] { if (!noconf) { if (below(2)) { a.push_back("-c"); a.push_back(given); } else a.push_back("--config-file=" + given); } }; auto o = [&] { if (!noout) { a.push_back("--output-path"); a.push_back(out); } }; if (below(2)) { conf(); o(); } else { o(); conf(); } }
  run_log = RunLog(); bool worker = dist && below(5) == 0; if (worker) { run_log.rank = 1 + below(3); run_log.worker_returns = below(3); }
  string args; for (auto & x : a) args += x + " "; 
  H::input("%s: rank=%d arguments={%s} families=%s output=%s%s", dist ? "mpi" : "threaded", run_log.rank, args.c_str(), desc.c_str(), out.c_str(), there ? "" : " (to be made)"); if (n > 1) ++H::nontriv;
  vector<char *> av; for (auto & x : a) av.push_back(&x[0]); av.push_back(0); int rc; string what;
  try { rc = dist ? mpi_program::main(a.size(), av.data()) : threaded_program::main(a.size(), av.data()); } catch (const exception & x) { rc = -1; what = x.what(); }
  auto & L = run_log; string got = " (status " + to_string(rc) + (what.empty() ? "" : ": " + what) + ")";
  auto done = [&] { if (chdir("/")) {} if (root.rfind(scratch->path + "/", 0) == 0) fs::remove_all(root); };
  if (worker) { if (L.workers != 1 || L.pools || !L.segs.empty()) H::fail("a process of another rank does not only work for the master" + got); else if (rc != L.worker_returns) H::fail("the status of the worker is lost" + got); return done(); }
  if (L.workers) { H::fail("the master acts as worker" + got); return done(); }
  if (L.lost) { H::fail("blocks are assigned before there is a configuration" + got); return done(); }
  if (help) { if (!L.segs.empty()) H::fail("asked for help, it starts to work" + got); return done(); }
  if (rc == 0 && (fails || invalid)) { H::fail("a run that cannot do its work reports success"); return done(); }
  if (fails) { if (!L.segs.empty()) H::fail("work is assigned although the run cannot be started" + got); return done(); }
  if (!invalid && rc) { H::fail("the run fails" + got); return done(); }
  if (L.segs.size() > n || (rc == 0 && L.segs.size() != n)) { H::fail(to_string(L.segs.size()) + " configurations are worked off instead of " + to_string(n) + got); return done(); }
  if (invalid && L.segs.size() > stop) { H::fail("an invalid configuration is worked off" + got); return done(); }
  string base = fs::canonical(out).string();
  for (u i = 0; i < L.segs.size(); ++i) {
    auto & s = L.segs[i]; auto & f = fam[i]; string at = "configuration " + to_string(i) + ": ";
    if (s.c.prime != f.p || s.c.prime_exponent != f.e || s.c.genus != f.g || s.c.with_marked_point != f.mark || s.c.count_exponent != f.cx || s.c.package_size != f.pkg) { H::fail(at + "the workers are given " + H::str(s.c) + got); return done(); }
    if (s.c.result_path.string() != base + "/" + f.dir) { H::fail(at + "results go to " + s.c.result_path.string() + " instead of " + base + "/" + f.dir); return done(); }
    if (!s.dir) { H::fail(at + "the directory of the results is not made"); return done(); }
    string bad = covers(f, s.blocks); if (!bad.empty()) { H::fail(at + bad + got); return done(); }
  }
  done();
}
int main(int argc, char ** argv) {
  H::init(argc - 1, argv + 1); scratch.reset(new H::Scratch); cerr.rdbuf(nullptr);
  for (u i = 0; i < 40 || H::more(); ++i) { if (H::want("threaded")) run(false); if (H::want("mpi")) run(true); }
  if (chdir("/")) {}
  scratch.reset();
  return H::finish();
}

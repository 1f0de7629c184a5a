// C10 .. C14: the store, its text formats, the record files and the merger
#include "harness.hh"
#include <sys/syscall.h>
#include <sys/uio.h>
#include <fcntl.h>
#include <dirent.h>
#include <gmp.h>
#include <flint/fmpz.h>
#include <boost/filesystem.hpp>
#include <boost/program_options.hpp>
#include "store/curve_data.hh"
#include "store/file_store.hh"
#include "store/store.hh"
#include "store/store_data.hh"
namespace merger_program {
#include "executables/merger.cc"
}
using namespace std;
namespace filesys = boost::filesystem;
typedef unsigned int u;
typedef HyCu::CurveData::ExplicitRamificationHasseWeil CD;
typedef HyCu::StoreData::Count SD;
typedef Store<CD, SD> St;
struct Z { mpz_t z; Z() { mpz_init(z); } Z(const Z & o) { mpz_init_set(z, o.z); } Z & operator=(const Z & o) { mpz_set(z, o.z); return *this; } ~Z() { mpz_clear(z); }
  bool operator==(const Z & o) const { return mpz_cmp(z, o.z) == 0; } bool operator!=(const Z & o) const { return !(*this == o); } };
static std::ostream & operator<<(std::ostream & s, const Z & z) { char * c = mpz_get_str(0, 10, z.z); s << c; free(c); return s; }
static Z zof(const fmpz_t f) { Z z; fmpz_get_mpz(z.z, f); return z; }
typedef std::pair<vector<u>, vector<int>> Key;
typedef map<Key, Z> Table;
static Table tab(const St & s) { Table t; for (auto & x : s.store) { Key k{x.first.ramification_type, x.first.hasse_weil_offsets}; if (t.count(k)) H::fail("the same key has two entries: " + H::str(k)); t[k] = zof(x.second.counter); } return t; }
static void add(Table & t, const Key & k, const Z & z) { Z & e = t[k]; mpz_add(e.z, e.z, z.z); }
static string show(const Key & k) { return H::str(k.first) + ";" + H::str(k.second); }
static string diff(const Table & want, const Table & got) {
  for (auto & x : want) { auto i = got.find(x.first); if (i == got.end()) return "entry " + show(x.first) + " is missing, should be " + H::str(x.second); if (i->second != x.second) return "entry " + show(x.first) + " is " + H::str(i->second) + " instead of " + H::str(x.second); }
  for (auto & x : got) if (!want.count(x.first)) return "unexpected entry " + show(x.first) + "=" + H::str(x.second);
  return "";
}
static u number() { switch (H::below(6)) { case 0: return H::below(10); case 1: return (u)(H::lit() & 0x7fffffff); case 2: return H::below(0x80000000u); case 3: return 1u << H::below(31); case 4: return 0x7fffffffu - H::below(3); default: return 1 + H::below(100); } }
static int snumber() { switch (H::below(6)) { case 0: return 0; case 1: return INT_MIN + (int)H::below(2); case 2: return INT_MAX - (int)H::below(2); default: int v = (int)number(); return H::below(2) ? v : -v; } }
static Z znumber(bool neg = false) { Z z; if (H::below(3) == 0) mpz_set_ui(z.z, H::below(20)); else { gmp_randstate_t st; gmp_randinit_default(st); gmp_randseed_ui(st, H::rnd()); u bits = H::below(4) ? 1 + H::below(130) : 1 + H::below(3000); mpz_urandomb(z.z, st, bits); if (!H::below(4)) { mpz_set_ui(z.z, 1); mpz_mul_2exp(z.z, z.z, 60 + H::below(8)); if (H::below(2)) mpz_sub_ui(z.z, z.z, 1); } gmp_randclear(st); } if (neg && !H::below(4)) mpz_neg(z.z, z.z); return z; }
static Key key(bool small) {
  Key k; u n = 1 + H::below(small ? 2 : H::below(10) ? 8 : 200), m = 1 + H::below(small ? 2 : H::below(10) ? 6 : 200);
  for (u i = 0; i < n; ++i) k.first.push_back(small ? 1 + H::below(2) : number());
  for (u i = 0; i < m; ++i) k.second.push_back(small ? (int)H::below(3) - 1 : snumber());
  return k;
}
static CD::ValueType kv(const Key & k) { return CD::ValueType(k.first, k.second); }
// own reading of the text format
static bool parse(const string & text, Table & t, string & err) {
  size_t p = 0;
  while (p < text.size()) {
    size_t e = text.find('\n', p); if (e == string::npos) { err = "last line is not ended"; return false; }
    string l = text.substr(p, e - p); p = e + 1; size_t i = 0; Key k;
    auto num = [&](bool sign) -> long { size_t b = i; if (sign && i < l.size() && l[i] == '-') ++i; while (i < l.size() && isdigit((unsigned char)l[i])) ++i; return i == b ? (err = "line '" + l + "'", 0) : atol(l.substr(b, i - b).c_str()); };
    for (;;) { k.first.push_back(num(false)); if (i < l.size() && l[i] == ',') { ++i; continue; } break; }
    if (i >= l.size() || l[i] != ';') { err = "line '" + l + "'"; return false; } ++i;
    for (;;) { k.second.push_back(num(true)); if (i < l.size() && l[i] == ',') { ++i; continue; } break; }
    if (i >= l.size() || l[i] != ':') { err = "line '" + l + "'"; return false; } ++i;
    Z z; if (mpz_set_str(z.z, l.substr(i).c_str(), 10)) { err = "line '" + l + "'"; return false; }
    if (!err.empty()) return false;
    if (t.count(k)) { err = "two lines for " + show(k); return false; }
    t[k] = z;
  }
  return true;
}
static string line(const Key & k, const Z & z) { string s; for (size_t i = 0; i < k.first.size(); ++i) s += (i ? "," : "") + to_string(k.first[i]); s += ";"; for (size_t i = 0; i < k.second.size(); ++i) s += (i ? "," : "") + to_string(k.second[i]); return s + ":" + H::str(z) + "\n"; }
static string text(const Table & t) { string s; vector<const Table::value_type*> v; for (auto & x : t) v.push_back(&x); for (size_t i = v.size(); i > 1; --i) swap(v[i - 1], v[H::below(i)]); for (auto x : v) s += line(x->first, x->second); return s; }

// ------------------------------------------------------------------ C10
struct Field { shared_ptr<FqElementTable> t; vector<shared_ptr<ReductionTable>> r; u p, e, q; };
static vector<Field> fields;
static void make_fields(u maxq) {
  for (u p : {3u, 5u, 7u, 11u, 13u}) for (u e = 1; e < 4; ++e) { u q = 1; for (u i = 0; i < e; ++i) q *= p; if (q > maxq) break;
    Field f; f.p = p; f.e = e; f.q = q; f.t = make_shared<FqElementTable>(p, e); uint64_t Q = q; for (u k = 1; Q < 800; ++k, Q *= q) f.r.push_back(make_shared<ReductionTable>(p, e * k)); fields.push_back(f); }
}
static bool find_curve(Field & f, vector<u> & pol, u & nf, unique_ptr<Curve> & c) {
  for (u tries = 0; tries < 50; ++tries) {
    u d = 3 + H::below(5); pol.assign(d + 1, f.q - 1); u dens = 1 + H::below(4);
    for (u i = 0; i < d; ++i) if (H::below(4) < dens) pol[i] = H::below(f.q); pol[d] = H::below(f.q - 1);
    c.reset(new Curve(f.t, pol));
    if (!c->has_squarefree_rhs()) continue;
    nf = 1 + H::below(f.r.size()); for (u k = 0; k < nf; ++k) c->count(f.r[k]);
    return true;
  }
  return false;
}
static Key key_of(Curve & c) { Key k; k.first = c.ramification_type(); k.second = c.hasse_weil_offsets(c.max_prime_exponent()); return k; }
static Z mult_of(Curve & c) { fmpz_t f; fmpz_init(f); CurveIterator::multiplicity(f, c.prime(), c.prime_power(), c.rhs_support()); Z z = zof(f); fmpz_clear(f); return z; }
static Key twist_of(Key k) { for (size_t i = 0; i < k.second.size(); i += 2) k.second[i] = -k.second[i]; return k; }
static void c10() {
  make_fields(25);
  while (H::more()) {
    Field & f = fields[H::below(fields.size())]; St s; Table want; string log = "field=" + H::str(f.q);
    u n = 1 + H::below(8); vector<vector<u>> old; vector<u> onf;
    if (H::below(3) == 0) { u m = 1 + H::below(3); Table t; for (u i = 0; i < m; ++i) { Key k = key(H::below(2)); t[k] = znumber(); } want = t; string tx = text(t); istringstream is(tx); s.extract(is); log += " preloaded=" + tx; for (auto & ch : log) if (ch == '\n') ch = ' '; }
    for (u i = 0; i < n; ++i) {
      vector<u> pol; u nf; unique_ptr<Curve> c;
      if (!old.empty() && !H::below(3)) { size_t j = H::below(old.size()); pol = old[j]; nf = onf[j]; if (H::below(2)) { for (auto & x : pol) if (x != f.q - 1) x = (x + 1) % (f.q - 1); } c.reset(new Curve(f.t, pol)); for (u k = 0; k < nf; ++k) c->count(f.r[k]); }
      else if (!find_curve(f, pol, nf, c)) continue;
      old.push_back(pol); onf.push_back(nf);
      log += " register" + H::str(pol) + "/" + H::str(nf);
      H::input("registration: " + log); if (i) ++H::nontriv;
      Key k = key_of(*c); Z m = mult_of(*c); add(want, k, m); add(want, twist_of(k), m);
      s.register_curve(*c);
      string d = diff(want, tab(s)); if (!d.empty()) { H::fail(d); break; }
    }
  }
}
static string file_name() { static u k = 0; string n = to_string(H::rnd() >> 1); switch (H::below(6)) { case 0: return "run." + to_string(H::below(100)) + "." + to_string(k++); case 1: return "node-" + to_string(k++) + "_" + n; case 2: return "results of " + to_string(k++); default: return n; } }
// ------------------------------------------------------------------ C11
static vuu_block block(bool small) { vuu_block b; u n = H::below(small ? 3 : H::below(8) ? 6 : 60); for (u i = 0; i < n; ++i) { u x = small ? H::below(3) : number(), y = small ? x + 1 : number(); b.push_back(make_tuple(x, y)); } return b; }
static string rec(const set<vuu_block> & r) { string s; for (auto & b : r) { for (auto & x : b) s += to_string(get<0>(x)) + " " + to_string(get<1>(x)) + " "; s += "\n"; } return s; }
static bool parse_rec(const string & t, set<vuu_block> & r, string & err) {
  size_t p = 0;
  while (p < t.size()) {
    size_t e = t.find('\n', p); if (e == string::npos) { err = "last line is not ended"; return false; }
    istringstream l(t.substr(p, e - p)); p = e + 1; vuu_block b; u x, y;
    while (l >> x) { if (!(l >> y)) { err = "odd number of bounds"; return false; } b.push_back(make_tuple(x, y)); }
    if (!l.eof()) { err = "not a number in a record line"; return false; }
    if (!r.insert(b).second) { err = "block " + H::str(b) + " is written twice"; return false; }
  }
  return true;
}
static void split(const Table & t, vector<Table> & parts) { for (auto & x : t) { Z rest = x.second; for (size_t i = 0; i + 1 < parts.size(); ++i) if (H::below(2)) { Z a; if (mpz_sgn(rest.z) > 0 && H::below(4)) { mpz_fdiv_q_2exp(a.z, rest.z, 1 + H::below(5)); if (H::below(4) == 0) a = znumber(); } add(parts[i], x.first, a); mpz_sub(rest.z, rest.z, a.z); } add(parts.back(), x.first, rest); } }
static void load(St & s, const Table & t) { for (auto & x : t) { SD::ValueType v; fmpz_set_mpz(v.counter, x.second.z); s.store[kv(x.first)] = v; } }
static void c11() {
  H::Scratch sc;
  { St s; (void)s.flush_static_store(); }
  for (u round = 0; H::more(); ++round) {
    bool small = H::below(2);
    if (round % 4 == 3) {   // registration of every order of the keys: the comparison of keys is a strict order
      H::input("order of keys: round " + H::str(round)); ++H::nontriv;
      vector<Key> ks; for (u i = 0; i < 6; ++i) ks.push_back(key(i & 1)); ks.push_back(ks[0]); ks.push_back(twist_of(ks[1])); { Key k = ks[2]; if (!k.second.empty()) k.second.pop_back(); ks.push_back(k); k = ks[3]; k.first.push_back(1); ks.push_back(k); }
      std::less<CD::ValueType> lt;
      for (auto & a : ks) for (auto & b : ks) {
        bool ab = lt(kv(a), kv(b)), ba = lt(kv(b), kv(a));
        if (ab && ba) { H::fail("both of " + show(a) + " and " + show(b) + " come before the other"); return; }
        if ((!ab && !ba) != (a == b)) { H::fail("keys " + show(a) + " and " + show(b) + " are " + (a == b ? "told apart" : "taken for the same")); return; }
        for (auto & c : ks) if (ab && lt(kv(b), kv(c)) && !lt(kv(a), kv(c))) { H::fail("order of keys " + show(a) + ", " + show(b) + ", " + show(c) + " is not transitive"); return; }
      }
    } else if (round % 4 != 2) {     // workers
      u nw = 1 + H::below(4), nk = H::below(small ? 6 : 12); bool par = !H::below(3);
      Table total; set<vuu_block> blocks;
      for (u i = 0; i < nk; ++i) add(total, key(small), znumber());
      vector<vector<Table>> work(nw); vector<vector<vuu_block>> wb(nw); vector<Table> flat; u jobs = 0;
      for (u w = 0; w < nw; ++w) { u n = 1 + H::below(3); work[w].resize(n); jobs += n; for (u j = 0; j < n; ++j) wb[w].push_back(block(small)); }
      flat.resize(jobs); split(total, flat);
      u q = 0; for (u w = 0; w < nw; ++w) for (auto & t : work[w]) t = flat[q++];
      H::input("flush: workers=" + H::str(nw) + " jobs=" + H::str(jobs) + " keys=" + H::str(nk) + " threads=" + H::str(par) + " results=" + [&] { string s; for (auto & t : flat) { string x = text(t); for (auto & c : x) if (c == '\n') c = ' '; s += "{" + x + "}"; } return s.substr(0, 2000); }());
      ++H::nontriv;
      vector<unique_ptr<St>> sts; for (u w = 0; w < nw; ++w) sts.emplace_back(new St);
      Table got; set<vuu_block> gotb; u mid = 0;
      auto take = [&](bool last) {
        tuple<string, string> r = sts[0]->flush_static_store(); Table t; set<vuu_block> b; string err;
        if (!parse(get<1>(r), t, err) || !parse_rec(get<0>(r), b, err)) { H::fail("what is handed out for saving is malformed: " + err); return; }
        for (auto & x : t) add(got, x.first, x.second);
        for (auto & x : b) gotb.insert(x);
        if (!par) {    // exactly the contributions of its blocks
          Table w; set<vuu_block> wbs; for (auto & p : blocks) wbs.insert(p); string d = diff(total, t); if (!d.empty()) H::fail("results handed out differ from those of the blocks handed out: " + d); if (b != wbs) H::fail("blocks " + H::str(b) + " handed out instead of " + H::str(wbs));
          total.clear(); blocks.clear();
        }
      };
      if (par) {
        vector<thread> th; for (u w = 0; w < nw; ++w) th.emplace_back([&, w] { for (size_t j = 0; j < work[w].size(); ++j) { load(*sts[w], work[w][j]); sts[w]->flush_to_static_store(wb[w][j]); } });
        for (auto & t : th) t.join();
        for (auto & v : wb) for (auto & b : v) blocks.insert(b);
        take(true);
        string d = diff(total, got); if (!d.empty()) H::fail(d); if (gotb != blocks) H::fail("blocks " + H::str(gotb) + " instead of " + H::str(blocks));
        got.clear(); gotb.clear();
      } else {
        total.clear(); vector<size_t> at(nw, 0);
        for (u left = jobs; left;) { u w = H::below(nw); if (at[w] >= work[w].size()) continue; size_t j = at[w]++; --left;
          load(*sts[w], work[w][j]); sts[w]->flush_to_static_store(wb[w][j]); if (!sts[w]->store.empty()) { H::fail("the store of the worker is not emptied"); break; }
          for (auto & x : work[w][j]) add(total, x.first, x.second); blocks.insert(wb[w][j]);
          if (!H::below(4)) take(false);
        }
        take(true);
      }
      tuple<string, string> r = sts[0]->flush_static_store();
      if (get<0>(r) != "" || get<1>(r) != "") H::fail("handing out does not empty the shared store: '" + get<0>(r) + "' '" + get<1>(r) + "'");
    } else {                  // several files: extract and the merger
      string dir = sc.path + "/m" + H::str(round); mkdir(dir.c_str(), 0700);
      u nf = H::below(5), nk = H::below(10); Table total; set<vuu_block> recs; for (u i = 0; i < nk; ++i) add(total, key(small), znumber());
      vector<Table> parts(nf + 1); split(total, parts); total.clear();
      string desc;
      St s; 
      for (u i = 0; i < nf; ++i) {
        string base = dir + "/" + file_name(); set<vuu_block> rs; u nb = H::below(4); for (u j = 0; j < nb; ++j) rs.insert(block(small));
        string tx = text(parts[i]); { ofstream(base + ".hycu_store") << tx; ofstream(base + ".hycu_record") << rec(rs); }
        for (auto & x : parts[i]) add(total, x.first, x.second); for (auto & b : rs) recs.insert(b);
        for (auto & c : tx) if (c == '\n') c = ' '; desc += "{" + tx + "}";
        istringstream is(text(parts[i])); s.extract(is);
      }
      if (H::below(3) == 0) { ofstream(dir + "/12345.hycu_store") << text(parts[nf]); ofstream(dir + "/note.txt") << "1;1:1\n"; if (H::below(2)) mkdir((dir + "/sub.hycu_record").c_str(), 0700); desc += " and a result file without record, not to be counted"; }
      H::input("merge: files=" + H::str(nf) + " " + desc.substr(0, 2500)); ++H::nontriv;
      string d = diff(total, tab(s)); if (!d.empty()) { H::fail("reading the files one after another: " + d); return; }
      ostringstream os; s.insert(os); Table t; string err; if (!parse(os.str(), t, err)) { H::fail("written store: " + err); return; } d = diff(total, t); if (!d.empty()) { H::fail("written store: " + d); return; }
      string out = sc.path + "/out" + H::str(round); vector<string> av{"merger", dir, out}; vector<char*> a; for (auto & x : av) a.push_back(&x[0]);
      int rc = merger_program::main(3, a.data()); if (rc) { H::fail("merger returns " + H::str(rc)); return; }
      auto slurp = [](const string & f) { ifstream i(f); stringstream s; s << i.rdbuf(); return s.str(); };
      Table m; if (!parse(slurp(out + ".hycu_store"), m, err)) { H::fail("merged file: " + err); return; } d = diff(total, m); if (!d.empty()) { H::fail("merged file: " + d); return; }
      set<vuu_block> r; if (!parse_rec(slurp(out + ".hycu_record"), r, err)) { H::fail("merged record: " + err); return; } if (r != recs) { H::fail("merged record " + H::str(r) + " instead of " + H::str(recs)); return; }
      filesys::remove_all(dir); filesys::remove(out + ".hycu_store"); filesys::remove(out + ".hycu_record");
    }
    if (H::fails) return;
  }
}
// ------------------------------------------------------------------ C12
static void c12() {
  while (H::more()) {
    u n = H::below(5) ? 1 + H::below(3) : H::below(30); Table t; for (u i = 0; i < n; ++i) t[key(!H::below(4))] = znumber(true);
    St s; load(s, t); string one = text(t); for (auto & c : one) if (c == '\n') c = ' ';
    H::input("lines: " + one.substr(0, 3000)); if (n > 1) ++H::nontriv;
    ostringstream os; s.insert(os); string w = os.str();
    Table p; string err; if (!parse(w, p, err)) { H::fail("is written as '" + w.substr(0, 2000) + "': " + err); return; }
    string d = diff(t, p); if (!d.empty()) { H::fail("is written as '" + w.substr(0, 2000) + "': " + d); return; }
    St b; istringstream is(w); b.extract(is); d = diff(t, tab(b)); if (!d.empty()) { H::fail("read back: " + d); return; }
    for (auto & x : t) { stringstream ks; ks << kv(x.first); CD::ValueType k(ks.str()); if (k.ramification_type != x.first.first || k.hasse_weil_offsets != x.first.second) { H::fail("key " + show(x.first) + " written as '" + ks.str() + "' is read as " + H::str(k.ramification_type) + ";" + H::str(k.hasse_weil_offsets)); return; }
      stringstream vs; SD::ValueType v; fmpz_set_mpz(v.counter, x.second.z); vs << v; SD::ValueType v2(vs.str()); if (zof(v2.counter) != x.second) { H::fail("count " + H::str(x.second) + " is written as '" + vs.str() + "'"); return; } }
  }
}
// ------------------------------------------------------------------ C13
static void c13() {
  H::Scratch sc;
  for (u round = 0; H::more(); ++round) {
    bool small = H::below(3) > 0; u nf = 1 + H::below(4); vector<set<vuu_block>> fs(nf); set<vuu_block> all; string desc;
    for (auto & r : fs) { u n = H::below(6); for (u i = 0; i < n; ++i) { auto b = block(small); if (!b.empty() || H::below(2)) r.insert(b); } for (auto & b : r) all.insert(b); desc += H::str(r); }
    H::input("records: " + desc.substr(0, 3000)); if (all.size() > 1) ++H::nontriv;
    string dir = sc.path + "/r" + H::str(round); mkdir(dir.c_str(), 0700);
    ConfigNode cn; cn.prime = 3; cn.prime_exponent = 1; cn.genus = 1; cn.package_size = 1; cn.result_path = dir; cn.with_marked_point = false;
    set<vuu_block> decoy; bool direct = H::below(2);
    for (auto & r : fs) {
      stringstream ss; FileStore::insert(ss, r); string t = ss.str();
      set<vuu_block> own; string err; if (!parse_rec(t, own, err) || own != r) { H::fail("blocks " + H::str(r) + " are written as '" + t + "' " + err); return; }
      set<vuu_block> back; istringstream is(t); FileStore::extract(is, back); if (back != r) { H::fail("blocks " + H::str(r) + " are read back as " + H::str(back)); return; }
      for (auto & b : r) { stringstream s1; FileStore::insert(s1, b); vuu_block c; FileStore::extract(s1, c); if (c != b) { H::fail("block " + H::str(b) + " is read back as " + H::str(c)); return; } }
      if (direct) { FileStore fst(cn); fst.save(make_tuple(t, string("1;0:1\n"))); }
      else ofstream(dir + "/" + file_name() + ".hycu_record") << t;
    }
    if (H::below(2)) { for (u i = 0; i < 2; ++i) decoy.insert(block(small)); ofstream(dir + "/7.hycu_store") << rec(decoy); ofstream(dir + "/8.hycu_record.tmp") << rec(decoy); ofstream(dir + "/9.txt") << rec(decoy); mkdir((dir + "/x.hycu_record").c_str(), 0700); }
    FileStore f(cn);
    set<vuu_block> probes = all; for (auto & b : decoy) probes.insert(b); for (u i = 0; i < 6; ++i) probes.insert(block(small)); for (auto b : all) { if (b.empty()) continue; auto c = b; get<1>(c[H::below(c.size())]) += 1; probes.insert(c); c = b; get<0>(c[H::below(c.size())]) ^= 1; probes.insert(c); c = b; c.pop_back(); probes.insert(c); c = b; c.push_back(b[0]); probes.insert(c); }
    for (auto & b : probes) if (f.contains(b) != (all.count(b) > 0)) { H::fail("block " + H::str(b) + " counts as " + (f.contains(b) ? "done although no record contains it" : "not done although a record contains it")); return; }
    filesys::remove_all(dir);
  }
}
// ------------------------------------------------------------------ C14
static string watched; static string w_rec, w_store; static bool watching = false; static map<string, string> w_old;
static long calls = 0, fail_at = -1; static int fail_kind = 0; static string broken_at; static bool inside = false;
static string slurp_raw(const string & f) { string s; int fd = syscall(SYS_openat, AT_FDCWD, f.c_str(), O_RDONLY, 0); if (fd < 0) return s; char b[65536]; long n; while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) s.append(b, n); syscall(SYS_close, fd); return s; }
static bool merging = false; static Table m_table; static set<vuu_block> m_rec;   // expected outcome of a merge
static bool whole_rec(const string & t) { if (!merging) return t == w_rec; set<vuu_block> b; string err; return parse_rec(t, b, err) && b == m_rec && (t.empty() || t.back() == '\n'); }
static bool whole_store(const string & t) { if (!merging) return t == w_store; Table x; string err; return parse(t, x, err) && diff(m_table, x).empty() && (t.empty() || t.back() == '\n'); }
static void inspect(const char * when) {
  if (!watching || inside || !broken_at.empty()) return;
  inside = true;
  DIR * d = opendir(watched.c_str()); if (!d) { inside = false; return; } vector<string> names; while (auto e = readdir(d)) names.push_back(e->d_name); closedir(d);
  set<string> seen(names.begin(), names.end());
  for (auto & x : w_old) if (!seen.count(x.first) || slurp_raw(watched + "/" + x.first) != x.second) { broken_at = string(when) + ": existing file " + x.first + " has changed"; }
  for (auto & n : names) {
    if (w_old.count(n)) continue;
    auto dot = n.rfind(".hycu_record"); if (dot == string::npos || dot + 12 != n.size()) continue;
    string st = n.substr(0, dot) + ".hycu_store";
    if (!whole_rec(slurp_raw(watched + "/" + n))) broken_at = string(when) + ": record file " + n + " is there but not complete";
    else if (!seen.count(st)) broken_at = string(when) + ": record file " + n + " is there without its result file";
    else if (!whole_store(slurp_raw(watched + "/" + st))) broken_at = string(when) + ": record file " + n + " is there but its result file is not complete";
  }
  inside = false;
}
static bool mine(int fd) { if (!watching || inside) return false; char l[64], p[4096]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); long n = readlink(l, p, sizeof p - 1); if (n <= 0) return false; p[n] = 0; return string(p).rfind(watched, 0) == 0; }
extern "C" ssize_t write(int fd, const void * b, size_t n) {
  if (!mine(fd)) return syscall(SYS_write, fd, b, n);
  inspect("before a write"); ssize_t r;
  if (calls++ == fail_at || (fail_kind & 4 && fail_at >= 0 && calls > fail_at)) { if (fail_kind & 1) { if (n > 1) syscall(SYS_write, fd, b, n / 2); } inspect("after a failed write"); errno = fail_kind & 2 ? EIO : ENOSPC; return -1; }
  r = syscall(SYS_write, fd, b, n); inspect("after a write"); return r;
}
extern "C" ssize_t writev(int fd, const struct iovec * v, int c) {
  if (!mine(fd)) return syscall(SYS_writev, fd, v, c);
  inspect("before a write"); ssize_t r;
  if (calls++ == fail_at || (fail_kind & 4 && fail_at >= 0 && calls > fail_at)) { if (fail_kind & 1 && c > 0) syscall(SYS_write, fd, v[0].iov_base, v[0].iov_len / 2); inspect("after a failed write"); errno = fail_kind & 2 ? EIO : ENOSPC; return -1; }
  r = syscall(SYS_writev, fd, v, c); inspect("after a write"); return r;
}
extern "C" int rename(const char * a, const char * b) { if (watching && !inside) { inspect("before a rename"); string x(a), y(b); if (calls++ == fail_at) { errno = EIO; return -1; } int r = syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b); inspect("after a rename"); return r; } return syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b); }
extern "C" int close(int fd) { bool m = mine(fd); if (m) inspect("before a close"); int r = syscall(SYS_close, fd); if (m) inspect("after a close"); return r; }
static uint64_t rnd_mode = 0, rnd_left = 0, rnd_val = 0; static bool scripted = false;
extern "C" unsigned verif_random(void) { if (!scripted) return H::rnd(); if (rnd_left) { --rnd_left; return rnd_val; } if (!H::below(2)) { rnd_left = H::below(6); } return rnd_val = H::below(3) * 0x10001; }
static void c14_merge(const string & dir, const string & in) {
  if (in != dir) mkdir(in.c_str(), 0700);
  u nf = H::below(4); merging = false; m_rec.clear(); m_table.clear(); watched = dir; w_old.clear(); broken_at.clear();
  for (u i = 0; i < nf; ++i) {
    set<vuu_block> rs; u nb = H::below(H::below(3) ? 4 : 500); for (u j = 0; j < nb; ++j) rs.insert(block(false)); Table t; u nk = H::below(H::below(3) ? 4 : 500); for (u j = 0; j < nk; ++j) t[key(false)] = znumber();
    string base = "p" + H::str(i), a = rec(rs), b = text(t); ofstream(in + "/" + base + ".hycu_record") << a; ofstream(in + "/" + base + ".hycu_store") << b;
    if (in == dir) { w_old[base + ".hycu_record"] = a; w_old[base + ".hycu_store"] = b; }
    for (auto & x : t) add(m_table, x.first, x.second); for (auto & x : rs) m_rec.insert(x);
  }
  calls = 0; fail_at = H::below(4) ? (long)H::below(6) : -1; fail_kind = H::below(8);
  H::input("merge into " + string(in == dir ? "the same" : "another") + " directory: " + H::str(nf) + " files, " + H::str(m_rec.size()) + " blocks, " + H::str(m_table.size()) + " keys, failing operation " + H::str(fail_at) + " kind " + H::str(fail_kind));
  if (fail_at >= 0) ++H::nontriv;
  vector<string> av{"merger", in, dir + "/merged"}; vector<char*> a; for (auto & x : av) a.push_back(&x[0]); int rc = 1;
  merging = watching = true;
  try { rc = merger_program::main(3, a.data()); } catch (const std::exception & e) { if (fail_at < 0) { watching = merging = false; H::fail(string("exception ") + e.what()); return; } }
  inspect("after a merge"); watching = false;
  if (broken_at.empty() && rc == 0 && !whole_rec(slurp_raw(dir + "/merged.hycu_record"))) broken_at = "the merger returns 0 without a complete record file";
  if (broken_at.empty() && rc != 0 && (fail_at < 0 || fail_at >= calls)) broken_at = "a merge in which nothing failed returns " + H::str(rc);
  merging = false;
  if (!broken_at.empty()) { H::fail(broken_at); return; }
  filesys::remove_all(dir); filesys::remove_all(in);
}
static void c14() {
  H::Scratch sc;
  for (u round = 0; H::more(); ++round) {
    string dir = sc.path + "/s" + H::str(round); mkdir(dir.c_str(), 0700);
    if (round % 3 == 2) { c14_merge(dir, H::below(2) ? dir : sc.path + "/i" + H::str(round)); if (H::fails) return; continue; }
    u nb = 1 + H::below(H::below(3) ? 4 : 900), nk = 1 + H::below(H::below(3) ? 4 : 900);
    set<vuu_block> rs; for (u i = 0; i < nb; ++i) rs.insert(block(false)); Table t; for (u i = 0; i < nk; ++i) t[key(false)] = znumber();
    if (H::below(12) == 0) { rs.clear(); t.clear(); }
    w_rec = rec(rs); w_store = text(t); watched = dir; w_old.clear(); broken_at.clear();
    ConfigNode cn; cn.prime = 3; cn.prime_exponent = 1; cn.genus = 1; cn.package_size = 1; cn.result_path = dir; cn.with_marked_point = false;
    scripted = H::below(2); u saves = 1 + H::below(4); FileStore f(cn);
    for (u k = 0; k < saves; ++k) {
      calls = 0; fail_at = H::below(4) ? (long)H::below(8) : -1; fail_kind = H::below(8);
      if (scripted && H::below(2)) {  // files of an interrupted run, alone or together, under names that are to be drawn next
        FileStore g(cn); string nm = get<0>(g.new_filenames()).stem().string(); u which = 1 + H::below(3);
        if (which & 1) { ofstream(dir + "/" + nm + ".hycu_store") << "1;0:5\n"; w_old[nm + ".hycu_store"] = "1;0:5\n"; } if (which & 2) { ofstream(dir + "/" + nm + ".hycu_record") << "1 2 \n"; w_old[nm + ".hycu_record"] = "1 2 \n"; }
        if (H::below(2)) rnd_left = 1 + H::below(4);
      }
      H::input("save: record of " + H::str(w_rec.size()) + " bytes, results of " + H::str(w_store.size()) + " bytes, save number " + H::str(k + 1) + ", failing operation " + H::str(fail_at) + " kind " + H::str(fail_kind) + ", names " + (scripted ? "colliding" : "random") + ", existing files " + H::str(w_old.size()));
      if (fail_at >= 0 || !w_old.empty()) ++H::nontriv;
      watching = true;
      try { f.save(make_tuple(w_rec, w_store)); } catch (const std::exception & e) { if (fail_at < 0) { watching = false; H::fail(string("exception ") + e.what()); return; } }
      inspect("after save"); watching = false;
      if (!broken_at.empty()) { H::fail(broken_at); return; }
      set<string> now; DIR * d = opendir(dir.c_str()); u recs = 0; while (auto e = readdir(d)) { string n = e->d_name; if (n == "." || n == "..") continue; now.insert(n); if (!w_old.count(n) && n.size() > 12 && n.substr(n.size() - 12) == ".hycu_record") ++recs; } closedir(d);
      if ((fail_at < 0 || fail_at >= calls) && recs != 1) { H::fail("a save in which nothing failed leaves " + H::str(recs) + " new record files"); return; }
      for (auto & n : now) w_old[n] = slurp_raw(dir + "/" + n);
      // a half-written file may be replaced by nobody but may stay
      for (auto i = w_old.begin(); i != w_old.end();) { if (i->first.size() > 4 && i->first.substr(i->first.size() - 4) == ".tmp") i = w_old.erase(i); else ++i; }
    }
    filesys::remove_all(dir);
  }
}
int main(int argc, char ** argv) {
  string prop = argc > 1 ? argv[1] : "C10";
  H::init(argc, argv);
  std::cerr.rdbuf(nullptr);
  if (prop == "C10") c10(); else if (prop == "C11") c11(); else if (prop == "C12") c12(); else if (prop == "C13") c13(); else c14();
  return H::finish();
}

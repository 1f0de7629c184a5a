#include "harness.hh"
#include "block_iterator.hh"
using namespace std;
typedef unsigned int u;
typedef map<size_t, tuple<u,u>> Blocks;
typedef map<size_t, vector<u>> Sets;
typedef map<size_t, tuple<size_t, map<u, vector<u>>>> Deps;
typedef vector<tuple<u,u>> Box;

struct Case { size_t n = 0; Blocks b; Sets s; Deps d; u pkg = 1; int ctor = 5; };
static string show(const Case & c) { return "length=" + H::str(c.n) + " blocks=" + H::str(c.b) + " package_size=" + H::str(c.pkg) + " sets=" + H::str(c.s) + " dependent_sets=" + H::str(c.d) + " constructor=" + H::str(c.ctor); }
static BlockIterator make(const Case & c) {
  if (c.ctor == 1) { Box bs; for (auto & x : c.b) bs.push_back(x.second); return BlockIterator(bs); }
  if (c.ctor == 4) return BlockIterator(c.n, c.b, c.s, c.d);
  return BlockIterator(c.n, c.b, c.pkg, c.s, c.d);
}
// every combination of the product, coupled sets last
static void combos(const Case & c, set<vector<u>> & out) {
  vector<size_t> free, dep;
  for (size_t i = 0; i < c.n; ++i) if (c.d.count(i)) dep.push_back(i); else if (c.b.count(i) || c.s.count(i)) free.push_back(i);
  vector<u> dig(c.n, 0);
  function<void(size_t)> rec = [&](size_t k) {
    if (k < free.size()) {
      size_t i = free[k];
      if (c.b.count(i)) for (u v = get<0>(c.b.at(i)); v < get<1>(c.b.at(i)); ++v) { dig[i] = v; rec(k + 1); }
      else for (u v = 0; v < c.s.at(i).size(); ++v) { dig[i] = v; rec(k + 1); }
    } else if (k < free.size() + dep.size()) {
      size_t i = dep[k - free.size()]; auto & m = get<1>(c.d.at(i)).at(dig[get<0>(c.d.at(i))]);
      for (u v = 0; v < m.size(); ++v) { dig[i] = v; rec(k + 1); }
    } else {
      vector<u> r = dig;
      for (size_t i : dep) r[i] = get<1>(c.d.at(i)).at(dig[get<0>(c.d.at(i))])[dig[i]];
      for (auto & x : c.s) r[x.first] = x.second[dig[x.first]];
      out.insert(r);
    }
  };
  if (c.n) rec(0);
}
static void enumerate(const Case & c) {
  H::input("enumerate: " + show(c));
  set<vector<u>> want, seen; combos(c, want);
  if (want.size() > 1) ++H::nontriv;
  BlockIterator it = make(c);
  if (it.length() != c.n) return H::fail("length is " + H::str(it.length()));
  size_t k = 0;
  while (!it.is_end()) {
    if (k > want.size()) return H::fail("does not end after " + H::str(want.size()) + " combinations");
    auto p = it.as_position();
    if (!want.count(p)) return H::fail("visits " + H::str(p) + ", which is not a combination of the product");
    if (!seen.insert(p).second) return H::fail("visits " + H::str(p) + " twice");
    ++k; it.step();
  }
  if (seen.size() != want.size()) return H::fail("visits " + H::str(seen.size()) + " of " + H::str(want.size()) + " combinations");
  for (int i = 0; i < 3; ++i) { it.step(); if (!it.is_end()) return H::fail("leaves its end again"); }
}
static uint64_t vol(const Box & b) { uint64_t r = 1; for (auto & x : b) r *= get<1>(x) - get<0>(x); return r; }
static void packages(const Case & c, bool inner) {
  H::input("packages: " + show(c));
  BlockIterator it = make(c);
  u pk = c.ctor == 5 ? c.pkg : 1;
  vector<Box> boxes; uint64_t total = 1, sum = 0;
  set<vector<u>> all, got; bool small = inner;
  if (small) combos(c, all);
  size_t nb = 0;
  while (!it.is_end()) {
    if (++nb > 200000) return H::fail("does not end");
    Box b = it.as_block();
    if (b.size() != c.n) return H::fail("package has " + H::str(b.size()) + " coordinates");
    uint64_t v = 1;
    for (size_t i = 0; i < c.n; ++i) {
      u lo, hi; tie(lo, hi) = b[i];
      if (lo >= hi) return H::fail("empty package " + H::str(b));
      if (c.b.count(i)) { if (lo < get<0>(c.b.at(i)) || hi > get<1>(c.b.at(i))) return H::fail("package " + H::str(b) + " leaves the bounds"); v *= hi - lo; }
      else if (hi != lo + 1) return H::fail("package " + H::str(b) + " is wide in a coordinate that is not a range");
      if (v > pk) return H::fail("package " + H::str(b) + " holds more than " + H::str(pk) + " combinations");
    }
    sum += v; boxes.push_back(b);
    if (small) {
      BlockIterator e = it.as_block_enumerator(); uint64_t k = 0;
      set<vector<u>> mine;
      while (!e.is_end()) {
        auto p = e.as_position();
        if (++k > v) return H::fail("the enumeration of package " + H::str(b) + " has more than its " + H::str(v) + " combinations");
        if (p.size() != c.n) return H::fail("combination " + H::str(p) + " of the wrong length");
        for (size_t i = 0; i < c.n; ++i) if (p[i] < get<0>(b[i]) || p[i] >= get<1>(b[i])) return H::fail("the enumeration of package " + H::str(b) + " visits " + H::str(p));
        if (!mine.insert(p).second) return H::fail("the enumeration of package " + H::str(b) + " visits " + H::str(p) + " twice");
        if (!got.insert(p).second) return H::fail("combination " + H::str(p) + " is in two packages");
        e.step();
      }
      if (k != v) return H::fail("the enumeration of package " + H::str(b) + " visits " + H::str(k) + " of " + H::str(v) + " combinations");
      auto pos = it.as_position(); for (size_t i = 0; i < c.n; ++i) if (get<0>(b[i]) != pos[i]) return H::fail("package and position disagree");
    }
    it.step();
  }
  if (boxes.size() > 1) ++H::nontriv;
  for (auto & x : c.b) total *= get<1>(x.second) - get<0>(x.second);
  for (auto & x : c.s) total *= x.second.size();
  if (small) { if (got != all) return H::fail("the packages hold " + H::str(got.size()) + " of " + H::str(all.size()) + " combinations"); }
  else {
    if (c.d.empty() && sum != total && c.n) return H::fail("the packages hold " + H::str(sum) + " of " + H::str(total) + " combinations");
    if (boxes.size() < 1500)
    for (size_t i = 0; i < boxes.size(); ++i) for (size_t j = 0; j < i; ++j) {
      bool dis = false;
      for (size_t k = 0; k < c.n; ++k) if (get<0>(boxes[i][k]) >= get<1>(boxes[j][k]) || get<0>(boxes[j][k]) >= get<1>(boxes[i][k])) { dis = true; break; }
      if (!dis && c.n) return H::fail("packages " + H::str(boxes[i]) + " and " + H::str(boxes[j]) + " overlap");
    }
  }
}
static vector<u> some_set(size_t n) { set<u> s; vector<u> v; while (v.size() < n) { u x = H::below(4) ? (u)H::below(20) : (u)(H::lit() % 1000); if (s.insert(x).second) v.push_back(x); if (s.size() > 15 && v.size() < n) { x = 100 + v.size(); v.push_back(x); s.insert(x); } } return v; }
static Case random_case(uint64_t limit, bool pkg) {
  Case c; c.n = H::below(6); uint64_t tot = 1;
  if (c.n == 0 && H::below(3)) c.n = 1 + H::below(5);
  vector<size_t> idx(c.n); iota(idx.begin(), idx.end(), 0);
  for (size_t i = 0; i < c.n; ++i) swap(idx[i], idx[i + H::below(c.n - i)]);
  bool deps = H::below(2);
  for (size_t k = 0; k < c.n; ++k) {
    size_t i = idx[k]; int kind = H::below(deps && k > 0 ? 3 : 2);
    uint64_t w = 1 + H::below(H::below(3) ? 4 : 9); if (!H::below(8)) w = 1 + H::lit() % 40;
    while (tot * w > limit && w > 1) --w;
    if (kind == 0) { u lo = H::below(3) ? H::below(4) : H::lit() % 100; c.b[i] = make_tuple(lo, lo + (u)w); tot *= w; }
    else if (kind == 1) { c.s[i] = some_set(w); tot *= w; }
    else {
      vector<size_t> cand; for (auto & x : c.b) cand.push_back(x.first); for (auto & x : c.s) cand.push_back(x.first);
      if (cand.empty()) { c.b[i] = make_tuple(0u, (u)w); tot *= w; continue; }
      size_t j = H::pick(cand); map<u, vector<u>> m;
      u lo = c.b.count(j) ? get<0>(c.b[j]) : 0, hi = c.b.count(j) ? get<1>(c.b[j]) : c.s[j].size();
      for (u v = lo; v < hi; ++v) m[v] = some_set(1 + H::below(w));
      c.d[i] = make_tuple(j, m); tot *= w;
    }
  }
  bool bdep = false; for (auto & x : c.d) if (c.b.count(get<0>(x.second))) bdep = true;
  c.ctor = H::below(3) == 0 ? 4 : 5;
  if (c.ctor == 5 && !bdep && pkg) { c.pkg = 1 + H::below(H::below(2) ? 12 : 200); if (!H::below(5)) c.pkg = max<uint64_t>(1, H::lit() % 4096); if (!H::below(20)) c.pkg = UINT_MAX; }
  if (c.s.empty() && c.d.empty() && c.b.size() == c.n && H::below(2)) { c.ctor = 1; c.pkg = 1; }
  return c;
}
int main(int argc, char ** argv) {
  string prop = argc > 1 ? argv[1] : "C06";
  H::init(argc, argv);
  // all products of up to three short ranges and sets
  for (int ctor : {1, 4, 5}) for (int n = 0; n <= 3; ++n) for (int m = 0; m < (n == 3 ? 27 : n == 2 ? 9 : n == 1 ? 3 : 1); ++m) for (int k = 0; k < (1 << n); ++k) {
    if (ctor == 1 && k) continue;
    Case c; c.n = n; c.ctor = ctor; int q = m;
    for (int i = 0; i < n; ++i, q /= 3) { u w = 1 + q % 3; if (k >> i & 1) c.s[i] = vector<u>{7, 3, 5}; else c.b[i] = make_tuple((u)i, (u)i + w); if (k >> i & 1) c.s[i].resize(w); }
    if (prop == "C06") enumerate(c); else for (u p = 1; p <= (ctor == 5 ? 12u : 1u); ++p) { c.pkg = p; packages(c, true); }
  }
  uint64_t it = 0;
  while (H::more()) {
    ++it;
    if (prop == "C06") { Case c = random_case(it % 16 ? 400 : 20000, false); c.pkg = 1; enumerate(c); }
    else if (it % 4 == 0) {
      // huge ranges
      Case c; c.n = 1 + H::below(4); uint64_t cap = 1;
      vector<u> w(c.n);
      for (size_t i = 0; i < c.n; ++i) { uint64_t r = H::below(3); w[i] = r == 0 ? 1 + H::below(6) : r == 1 ? 1 + H::below(5000) : (u)min<uint64_t>(0x7fffffff, 1 + H::below(1ull << H::below(31))); if (!H::below(6)) w[i] = 1 + H::lit() % 0x10000; u lo = H::below(2) ? 0 : H::below(100); if ((uint64_t)lo + w[i] > 0x80000000ull) lo = 0; c.b[i] = make_tuple(lo, lo + w[i]); cap = max<uint64_t>(cap, 1); }
      if (H::below(3) == 0) c.s[c.n] = some_set(1 + H::below(3)), ++c.n;
      // a package size giving a bounded number of packages
      c.ctor = 5; uint64_t p = 1ull << H::below(32); p = min<uint64_t>(UINT_MAX, p + H::below(p)); c.pkg = p;
      vector<u> ws = w; sort(ws.rbegin(), ws.rend()); uint64_t cnt = 1, rem = p; for (u x : ws) { uint64_t s = min<uint64_t>(rem, x); s = max<uint64_t>(s, 1); cnt *= (x + s - 1) / s; rem /= s; if (cnt > 3000) break; } 
      if (cnt > 3000) continue;
      packages(c, false);
    }
    else { Case c = random_case(it % 16 ? 300 : 6000, true); packages(c, true); }
  }
  return H::finish();
}

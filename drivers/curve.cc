// C01 .. C05, C19: tables, counting, invariants, single curves
#include "harness.hh"
#include "field.hh"
#include "curve.hh"
#include "single_curve_fp.hh"
#include <boost/program_options.hpp>
#include "flint/ulong_extras.h"
namespace single_program {
#include "executables/single.cc"
}
using namespace std;
typedef unsigned int u;
typedef std::pair<u, u> Cnt;
static bool isprime(u n) { if (n < 2) return false; for (u d = 2; (uint64_t)d * d <= n; ++d) if (n % d == 0) return false; return true; }
static uint64_t ipow(uint64_t a, u b) { uint64_t r = 1; while (b--) r *= a; return r; }
static std::map<std::pair<u, u>, std::unique_ptr<Fq>> fqs;
static Fq & fq(u p, u n) { auto & x = fqs[{p, n}]; if (!x) x.reset(new Fq(p, n)); return *x; }
static std::map<std::pair<u, u>, shared_ptr<FqElementTable>> tabs;
static shared_ptr<FqElementTable> tab(u p, u e) { auto & x = tabs[{p, e}]; if (!x) x = make_shared<FqElementTable>(p, e); return x; }
static std::map<std::pair<u, u>, shared_ptr<ReductionTable>> reds;
static shared_ptr<ReductionTable> red(u p, u e) { auto & x = reds[{p, e}]; if (!x) x = make_shared<ReductionTable>(p, e); return x; }
// the field elements of a table as coefficient vectors, and an embedding into the own field of p^n elements
static vector<u> elem(const FqElementTable & t, u i) { vector<u> c; for (u k = 0; k < t.prime_exponent; ++k) c.push_back(nmod_poly_get_coeff_ui(t.at(i), k)); return c; }
struct Emb { vector<Fq::E> img; };
static std::map<std::tuple<u, u, u>, Emb> embs;
static Emb & embedding(u p, u e, u n) {
  auto & m = embs[{p, e, n}]; if (!m.img.empty()) return m;
  auto t = tab(p, e); Fq & B = fq(p, n); u q = ipow(p, e); Fq::E root = 0;
  if (e > 1) {
    vector<Fq::E> mod; for (u k = 0; k <= e; ++k) mod.push_back(nmod_poly_get_coeff_ui(t->fq_ctx->modulus, k));
    Fq::E x = 0; for (; x < B.q; ++x) if (B.eval(mod, x) == 0) { root = x; break; }
    if (x == B.q) { H::fail("modulus has no root"); }
  }
  for (u i = 0; i < q; ++i) { auto c = elem(*t, i); Fq::E v = 0; for (u k = e; k-- > 0;) v = B.add(B.mul(v, root), c[k]); m.img.push_back(v); }
  return m;
}
static Cnt oracle(u p, u e, u n, vector<u> pol) {        // pol: exponents of the table of p^e
  Fq & B = fq(p, n); Emb & m = embedding(p, e, n); u q = ipow(p, e);
  while (!pol.empty() && pol.back() == q - 1) pol.pop_back();
  vector<Fq::E> f; for (u x : pol) f.push_back(m.img.at(x));
  u a = 0, b = 0;
  for (Fq::E x = 0; x < B.q; ++x) { Fq::E v = B.eval(f, x); if (!v) ++b; else if (B.square(v)) a += 2; }
  if ((f.size() - 1) % 2) ++b; else if (B.square(f.back())) a += 2;
  return {a, b};
}
struct Fld { u p, e; };
static vector<Fld> flds;
static void make(u maxq) { for (u p = 3; p <= maxq; ++p) if (isprime(p)) for (u e = 1; ipow(p, e) <= maxq; ++e) flds.push_back({p, e}); }
static vector<u> poly(u q, u mind, u maxd) { u d = mind + H::below(maxd - mind + 1), dens = 1 + H::below(5); vector<u> c(d + 1, q - 1); for (u i = 0; i <= d; ++i) if (H::below(5) < dens) c[i] = H::below(q); if (H::below(8)) c[d] = H::below(q - 1); bool z = true; for (u x : c) if (x != q - 1) z = false; if (z) c[0] = H::below(q - 1); return c; }
static map<u, Cnt> seen(Curve & c) { map<u, Cnt> m; for (auto & x : c.number_of_points()) m[x.first] = {get<0>(x.second), get<1>(x.second)}; return m; }
static string show(u p, u e, const vector<u> & pol) { return "field=" + H::str(p) + "^" + H::str(e) + " exponents=" + H::str(pol); }
static void points(const string & prop) {
  u base = H::thorough ? 30000 : 5000; make(180);
  vector<Fld> large{{3, 11}, {65537, 1}, {257, 2}, {41, 3}, {1009, 1}, {31, 2}, {3, 7}, {3, 10}, {5, 7}, {17, 4}, {32771, 1}, {4001, 1}, {311, 1}, {13, 4}};
  for (u it = 0; H::more(); ++it) {
    Fld f = H::pick(flds); if (H::below(3)) f = flds[H::below(12)]; bool far = it % 60 == 20; if (far && H::below(2)) f = H::pick(large); u q = ipow(f.p, f.e); auto t = tab(f.p, f.e); u lim = far ? max(200000u, base) : base;
    auto pol = poly(q, 1 + H::below(4), 3 + H::below(H::below(4) ? 6 : 20)); string log = show(f.p, f.e, pol) + " counts over degrees"; vector<u> ns; for (u k = 1; ipow(q, k) <= lim; ++k) ns.push_back(k); if (ns.empty()) ns.push_back(1);
    Curve c(t, pol); map<u, Cnt> want; u n = 1 + H::below(ns.size() + 2);
    for (u i = 0; i < n; ++i) {
      u k = H::pick(ns) * f.e; if (H::below(3) && ipow(f.p, k) > 400) k = f.e; u how = prop == "C01" ? (H::below(5) ? 0 : 1 + H::below(2)) : (H::below(5) ? 1 + H::below(2) : 0);
      if (how && ipow(f.p, k) > 400 && H::below(4)) k = f.e; if (far && i) k = f.e; else if (far) k = ns.back() * f.e; if (how && ipow(f.p, k) > 20000) how = 0;
      static const char * nm[] = {"", "(naive nmod)", "(naive zech)"}; log += " " + H::str(k) + nm[how];
      H::input(string(how ? "reference count: " : "table count: ") + log); if (want.count(k) || k > f.e) ++H::nontriv;
      if (!want.count(k)) want[k] = oracle(f.p, f.e, k, pol);
      if (how == 0) { if (H::below(2)) c.count(red(f.p, k)); else c.count(*red(f.p, k)); } else if (how == 1) c.count_naive_nmod(k); else c.count_naive_zech(k);
      auto got = seen(c); if (got != want) { H::fail("reports " + H::str(got) + " instead of " + H::str(want) + " (twice the squares, zeros)"); return; }
    }
  }
}
static void tables() {
  vector<Fld> fs; for (u p = 2; p < 4000; ++p) if (isprime(p)) for (u e = 1; ipow(p, e) <= 4100; ++e) if (e > 1 || p < 200 || H::below(8) == 0) fs.push_back({p, e});
  if (H::thorough) { for (u p = 4001; p < 60000; ++p) if (isprime(p) && H::below(150) == 0) fs.push_back({p, 1}); for (u p : {3u,5u,7u,11u,13u,17u,19u}) for (u e = 2; ipow(p, e) < 60000; ++e) if (ipow(p, e) > 4100) fs.push_back({p, e}); }
  for (size_t i = fs.size(); i > 1; --i) swap(fs[i - 1], fs[H::below(i)]);
  sort(fs.begin(), fs.end(), [](const Fld & a, const Fld & b) { return (ipow(a.p, a.e) > 300) < (ipow(b.p, b.e) > 300); });
  vector<Fld> large{{3, 11}, {65537, 1}, {257, 2}, {41, 3}, {5, 7}, {17, 4}, {7, 6}, {32771, 1}}; fs.insert(fs.begin() + min<size_t>(fs.size(), 40), large[H::seed % large.size()]);
  for (auto f : fs) {
    if (!H::more()) break;
    u p = f.p, e = f.e, q = ipow(p, e);
    H::input("tables: field=" + H::str(p) + "^" + H::str(e)); if (e > 1) ++H::nontriv;
    FqElementTable t(p, e); ReductionTable r(p, e);
    if (t.prime != p || t.prime_exponent != e || t.prime_power != q || t.prime_power_pred != q - 1 || t.zero_index() != q - 1 || t.is_prime_field() != (e == 1)) { H::fail("field parameters of the element table"); return; }
    if (r.prime != p || r.prime_exponent != e || r.prime_power != q || r.prime_power_pred != q - 1) { H::fail("field parameters of the reduction table"); return; }
    if (t.block_non_zero() != make_tuple(0u, q - 1) || t.block_complete() != make_tuple(0u, q)) { H::fail("index ranges"); return; }
    if (t.fq_elements.size() != q) { H::fail("table has " + H::str(t.fq_elements.size()) + " entries"); return; }
    auto mul = [&](const vector<u> & a, const vector<u> & b) { vector<uint64_t> c(2 * e, 0); for (u i = 0; i < e; ++i) for (u j = 0; j < e; ++j) c[i + j] = (c[i + j] + (uint64_t)a[i] * b[j]) % p; for (u i = 2 * e; i-- > e;) { uint64_t x = c[i]; if (!x) continue; for (u k = 0; k <= e; ++k) { uint64_t m = nmod_poly_get_coeff_ui(t.fq_ctx->modulus, k); c[i - e + k] = (c[i - e + k] + (p - m) % p * x) % p; } } vector<u> d; for (u i = 0; i < e; ++i) d.push_back(c[i]); return d; };
    map<vector<u>, u> at; vector<vector<u>> el;
    for (u i = 0; i < q; ++i) { el.push_back(elem(t, i)); if (!at.insert({el[i], i}).second) { H::fail("entries " + H::str(at[el[i]]) + " and " + H::str(i) + " are equal"); return; } 
      if (e == 1 && t.at_nmod(i) != el[i][0]) { H::fail("entry " + H::str(i) + " as residue"); return; } if (t[i] != t.at(i)) { H::fail("access to entry " + H::str(i)); return; } }
    vector<u> one(e, 0), zero(e, 0); one[0] = 1 % p;
    if (el[0] != one) { H::fail("entry 0 is not 1"); return; } if (el[q - 1] != zero) { H::fail("last entry is not 0"); return; }
    vector<u> g = q > 2 ? el[1] : one;
    for (u i = 0; i + 1 < q - 1; ++i) if (mul(el[i], g) != el[i + 1]) { H::fail("entry " + H::str(i + 1) + " is not the power of the generator"); return; }
    if (mul(el[q - 2], g) != one) { H::fail("generator has the wrong order"); return; }
    if (r.exponent_reduction_table->size() < 2 * (q - 1)) { H::fail("exponent table has size " + H::str(r.exponent_reduction_table->size())); return; }
    for (u i = 0; i < 2 * (q - 1); ++i) if ((u)r.exponent_reduction_table->at(i) != i % (q - 1)) { H::fail("exponent table at " + H::str(i) + " is " + H::str(r.exponent_reduction_table->at(i))); return; }
    if (r.incrementation_table->size() != q) { H::fail("successor table has size " + H::str(r.incrementation_table->size())); return; }
    for (u i = 0; i < q; ++i) { vector<u> s = el[i]; s[0] = (s[0] + 1) % p; if ((u)r.incrementation_table->at(i) != at[s]) { H::fail("successor table at " + H::str(i) + " is " + H::str(r.incrementation_table->at(i)) + " instead of " + H::str(at[s])); return; } }
    for (u n = 0; n < 40; ++n) { u m = n < 30 ? n : n < 35 ? H::below(3 * q) : (u)H::rnd(); uint64_t d = std::gcd((uint64_t)m, (uint64_t)(q - 1)); if (d > 100000) continue;
      auto cs = t.power_coset_representatives(m); set<u> s; for (u c : cs) { if (c >= q - 1) { H::fail("coset representative " + H::str(c) + " for n=" + H::str(m)); return; } s.insert(c % d); } if (cs.size() != d || s.size() != d) { H::fail("coset representatives of " + H::str(m) + "-th powers: " + H::str(cs).substr(0, 200)); return; } }
    for (u n = 0; n < 20; ++n) { u i = H::below(2) ? H::below(3 * q) : (u)H::rnd(); if (t.reduce_index(i) != i % (q - 1)) { H::fail("reduce_index " + H::str(i)); return; } }
  }
}
static void offsets() {
  vector<u> ps{3, 5, 7, 11, 13, 17, 101};
  while (H::more()) {
    u p = H::pick(ps), e = 1 + H::below(p < 8 ? 3 : p < 50 ? 2 : 1); u q = ipow(p, e); auto t = tab(p, e); auto pol = poly(q, 3, 8); pol.back() = H::below(q - 1);
    Curve c(t, pol); u kmax = 1; while (ipow(q, kmax + 1) < (1u << 30)) ++kmax; 
    map<u, Cnt> cnt; u full = H::below(kmax + 1); string log; bool real = H::below(4) == 0;
    if (real) { u k0 = 0; for (u k = 1; k <= full && ipow(q, k) < 900; ++k) k0 = k; full = k0; }
    for (u k = 1; k <= full; ++k) { uint64_t Q = ipow(q, k); u a = H::below(Q + 1) * 2, b = H::below(10); if (!H::below(4)) a = 0; if (!H::below(4)) { a = 2 * Q; b = 2; } cnt[k * e] = {a, b}; }
    if (H::below(2)) for (u j = 0; j < 2; ++j) { u k = full + 2 + H::below(3); if (k <= kmax && !real) cnt[k * e] = {2 * (u)H::below(1000), (u)H::below(4)}; }
    if (real) { cnt.clear(); vector<u> ks; for (u k = 1; k <= full; ++k) ks.push_back(k); for (size_t i = ks.size(); i > 1; --i) swap(ks[i - 1], ks[H::below(i)]); for (u k : ks) c.count(red(p, k * e)); cnt = seen(c); }
    else for (auto & x : cnt) c.nmb_points[x.first] = make_tuple(x.second.first, x.second.second);
    H::input("offsets: " + show(p, e, pol) + " counted=" + H::str(cnt)); if (cnt.size() > 1) ++H::nontriv;
    auto off = [&](u n) { return (int64_t)ipow(p, n) + 1 - cnt[n].first - cnt[n].second; };
    if (c.prime() != p || c.prime_exponent() != e || c.prime_power() != q || c.rhs_coeff_exponents() != pol || c.degree() != pol.size() - 1 || c.genus() != (pol.size() - 2) / 2) { H::fail("parameters of the curve"); return; }
    vector<u> sup; for (u i = 0; i < pol.size(); ++i) if (pol[i] != q - 1) sup.push_back(i); if (c.rhs_support() != sup) { H::fail("support " + H::str(c.rhs_support())); return; }
    if (c.max_prime_exponent() != full * e) { H::fail("largest usable degree " + H::str(c.max_prime_exponent()) + " instead of " + H::str(full * e)); return; }
    auto all = c.hasse_weil_offsets(); map<u, int> w; for (auto & x : cnt) w[x.first] = off(x.first); if (all != w) { H::fail("offsets " + H::str(all) + " instead of " + H::str(w)); return; }
    for (u k = 0; k <= kmax + 5; ++k) if (c.has_counted(k) != (cnt.count(k) > 0)) { H::fail("has_counted " + H::str(k)); return; }
    if (seen(c) != cnt) { H::fail("reported points have changed"); return; }
    for (u m = 0; m <= full * e; ++m) {
      vector<Cnt> got, want; vector<int> wo; for (u n = e; n <= m; n += e) { want.push_back(cnt[n]); wo.push_back(off(n)); } for (auto & x : c.number_of_points(m)) got.push_back({get<0>(x), get<1>(x)});
      if (got != want) { H::fail("points up to " + H::str(m) + " " + H::str(got)); return; } auto go = c.hasse_weil_offsets(m); if (go != wo) { H::fail("offsets up to " + H::str(m) + " are " + H::str(go) + " instead of " + H::str(wo)); return; }
    }
  }
}
// own polynomials over a field
typedef vector<Fq::E> P;
static void trim(P & a) { while (!a.empty() && !a.back()) a.pop_back(); }
static P rem(Fq & F, P a, const P & b) { trim(a); Fq::E inv = F.pw(b.back(), F.q - 2); while (a.size() >= b.size()) { Fq::E c = F.mul(a.back(), inv); Fq::E n = F.neg(c); size_t s = a.size() - b.size(); for (size_t i = 0; i < b.size(); ++i) a[s + i] = F.add(a[s + i], F.mul(n, b[i])); trim(a); } return a; }
static P quo(Fq & F, P a, const P & b) { trim(a); P q(a.size() >= b.size() ? a.size() - b.size() + 1 : 0, 0); Fq::E inv = F.pw(b.back(), F.q - 2); while (a.size() >= b.size()) { Fq::E c = F.mul(a.back(), inv); size_t s = a.size() - b.size(); q[s] = c; Fq::E n = F.neg(c); for (size_t i = 0; i < b.size(); ++i) a[s + i] = F.add(a[s + i], F.mul(n, b[i])); trim(a); } return q; }
static P gcdp(Fq & F, P a, P b) { trim(a); trim(b); while (!b.empty()) { P r = rem(F, a, b); a = b; b = r; } return a; }
static P mulp(Fq & F, const P & a, const P & b, const P & m) { P c(a.size() + b.size(), 0); for (size_t i = 0; i < a.size(); ++i) if (a[i]) for (size_t j = 0; j < b.size(); ++j) c[i + j] = F.add(c[i + j], F.mul(a[i], b[j])); return m.empty() ? c : rem(F, c, m); }
static bool squarefree(Fq & F, const P & f) { P d; for (size_t i = 1; i < f.size(); ++i) { Fq::E s = 0; for (u k = 0; k < i % F.p; ++k) s = F.add(s, f[i]); d.push_back(s); } trim(d); if (d.empty()) return f.size() <= 1; return gcdp(F, f, d).size() == 1; }
static vector<u> degrees(Fq & F, P f) {
  vector<u> r; P h{0, 1}; h = rem(F, h, f);
  for (u k = 1; f.size() > 1; ++k) {
    P b = h, x{1}; u n = F.q; while (n) { if (n & 1) x = mulp(F, x, b, f); b = mulp(F, b, b, f); n >>= 1; } h = x;
    P d = h; d.resize(max<size_t>(d.size(), 2), 0); d[1] = F.add(d[1], F.neg(1)); trim(d); P g = d.empty() ? f : gcdp(F, f, d);
    for (size_t i = 0; i + 1 < g.size(); i += k) r.push_back(k);
    f = quo(F, f, g); trim(f); if (f.size() > 1) h = rem(F, h, f);
  }
  return r;
}
static void ramification() {
  vector<Fld> fs; for (u p : {3u,5u,7u,11u,13u,17u,19u,23u}) for (u e = 1; ipow(p, e) < 130; ++e) fs.push_back({p, e});
  while (H::more()) {
    Fld f = H::pick(fs); u q = ipow(f.p, f.e); auto t = tab(f.p, f.e); Emb & m = embedding(f.p, f.e, f.e); Fq & F = fq(f.p, f.e);
    map<Fq::E, u> inv; for (u i = 0; i < q; ++i) inv[m.img[i]] = i;
    vector<u> pol; P g;
    if (H::below(2)) { pol = poly(q, 3, 9); pol.back() = H::below(q - 1); for (u x : pol) g.push_back(m.img[x]); }
    else { // a product of chosen factors
      g = P{1}; u d = 3 + H::below(8); while (g.size() - 1 < d) { u k = 1 + H::below(min<u>(4, d - (g.size() - 1))); P h; for (u i = 0; i < k; ++i) h.push_back(H::below(q)); h.push_back(1); g = mulp(F, g, h, P()); trim(g); } Fq::E c = 1 + H::below(q - 1); for (auto & x : g) x = F.mul(x, c); for (auto x : g) pol.push_back(inv[x]); }
    bool sf = squarefree(F, g);
    Curve c(t, pol); H::input("squarefree: " + show(f.p, f.e, pol)); if (c.has_squarefree_rhs() != sf) { H::fail(string("is reported to be ") + (sf ? "not " : "") + "squarefree"); return; }
    if (!sf) continue;
    vector<u> want = degrees(F, g); if (want.empty()) continue; if ((pol.size() - 1) % 2) want.push_back(1); sort(want.begin(), want.end());
    vector<u> ks; for (u k = 1; ipow(q, k) < (H::thorough ? 20000 : 3000); ++k) ks.push_back(k); for (size_t i = ks.size(); i > 1; --i) if (H::below(2)) swap(ks[i - 1], ks[H::below(i)]);
    string log; ks.insert(ks.begin(), 0);
    for (u k : ks) { if (k) { c.count(red(f.p, k * f.e)); log += H::str(k * f.e) + " "; }
      H::input("ramification type: " + show(f.p, f.e, pol) + " counted degrees: " + log); if (k) ++H::nontriv;
      auto got = c.ramification_type(); if (got != want) { H::fail("is " + H::str(got) + " instead of " + H::str(want)); return; }
      if (std::accumulate(got.begin(), got.end(), 0u) != 2 * c.genus() + 2) { H::fail("does not sum to 2g+2"); return; } }
    // the conversions to FLINT polynomials
    if (f.e == 1) { auto x = c.rhs_nmod_polynomial(); for (u i = 0; i < pol.size(); ++i) if (nmod_poly_get_coeff_ui(&x, i) != g[i]) { H::fail("polynomial coefficient " + H::str(i)); return; } nmod_poly_clear(&x); }
  }
}
static void single() {
  vector<u> ps; for (u p = 3; p < 320; ++p) if (isprime(p)) ps.push_back(p);
  while (H::more()) {
    bool far = H::below(25) == 0; u p = H::below(3) ? ps[H::below(far ? 20 : 8)] : H::pick(ps); u lim = far ? 200000 : 6000, gm = 1; while (ipow(p, gm + 1) <= lim && gm < 6) ++gm; u d = far ? 2 * gm + 1 + H::below(2) : 1 + H::below(2 * gm + 2); vector<u> co(d + 1, 0); for (auto & x : co) switch (H::below(6)) { case 0: x = 0; break; case 1: x = H::rnd(); break; case 2: x = 0xffffffffu - H::below(3); break; case 3: x = p * H::below(5); break; default: x = H::below(p); }
    if (H::below(4)) co[d] = 1 + H::below(p - 1); bool ok = false; for (u i = 1; i <= d; ++i) if (co[i] % p) ok = true; if (!ok) co[d] = 1;
    u deg = d; while (co[deg] % p == 0) --deg; u genus = deg % 2 ? (deg - 1) / 2 : (deg - 2) / 2; if (ipow(p, genus) > lim) continue;
    int how = H::below(3); SingleCurveCountImplementation im = how == 0 ? SingleCurveCountImplementationCPU : how == 1 ? SingleCurveCountImplementationNaiveNMod : SingleCurveCountImplementationNaiveZech; if (how && ipow(p, genus) > (H::below(4) ? 900 : 30000)) im = SingleCurveCountImplementationCPU, how = 0;
    H::input("single curve: prime=" + H::str(p) + " coefficients=" + H::str(co) + " method=" + H::str(how)); ++H::nontriv;
    map<u, Cnt> want; vector<u> pol; auto t = tab(p, 1); for (u i = 0; i <= deg; ++i) for (u k = 0; k < p; ++k) if (t->at_nmod(k) == co[i] % p) pol.push_back(k);
    for (u n = 1; n <= genus; ++n) want[n] = oracle(p, 1, n, pol);
    auto c = single_curve_fp(p, co, im);
    if (c->rhs_coeff_exponents() != pol || c->prime() != p || c->prime_exponent() != 1) { H::fail("works with exponents " + H::str(c->rhs_coeff_exponents()) + " instead of " + H::str(pol)); return; }
    auto got = seen(*c); if (got != want) { H::fail("reports " + H::str(got) + " instead of " + H::str(want)); return; }
    if (H::below(3) == 0) {
      vector<string> av{"single"}; static const char * opt[] = {"", "--naivenmod", "--naivezech"}; if (how) av.push_back(opt[how]); av.push_back(to_string(p)); for (u x : co) av.push_back(to_string(x)); vector<char*> a; for (auto & s : av) a.push_back(&s[0]);
      ostringstream o; auto old = cout.rdbuf(o.rdbuf()); int rc = single_program::main(a.size(), a.data()); cout.rdbuf(old);
      P g; Fq & F = fq(p, 1); for (u i = 0; i <= deg; ++i) g.push_back(co[i] % p);
      string pts = "number of points: ", of = "hasse-weil offsets: "; for (auto & x : want) { pts += to_string(x.second.first) + " " + to_string(x.second.second) + ";  "; of += to_string((int64_t)ipow(p, x.first) + 1 - x.second.first - x.second.second) + ";  "; }
      if (rc || o.str().find(pts + "\n") == string::npos || o.str().find(of + "\n") == string::npos) { H::fail("program returns " + H::str(rc) + " and prints '" + o.str() + "' instead of '" + pts + "' '" + of + "'"); return; }
      if (squarefree(F, g)) { auto r = degrees(F, g); if (deg % 2) r.push_back(1); sort(r.begin(), r.end()); string rt = "ramification type: "; for (u x : r) rt += to_string(x) + ","; if (o.str().find(rt + "\n") == string::npos) { H::fail("program prints '" + o.str() + "' instead of '" + rt + "'"); return; } }
    }
  }
}
// what the contracts assume about FLINT's fields, for every odd field of at most 2^30 - 1 elements whose degree is at least 2, and its subfields
static void conway() {
  for (ulong p = 3; p * p < (1ul << 30); p = n_nextprime(p, 1)) {
    vector<nmod_poly_struct> con(32); ulong q = p;
    H::input("FLINT: Conway polynomials of characteristic " + H::str(p));
    for (u k = 1; q < (1ul << 30); ++k, q *= p) {
      fmpz_t fp; fmpz_init(fp); fmpz_set_ui(fp, p);
      fq_nmod_ctx_t c, d; if (!_fq_nmod_ctx_init_conway(d, fp, k, "x")) { H::fail("no Conway polynomial of degree " + H::str(k)); return; }
      fq_nmod_ctx_init(c, fp, k, "x");
      if (!nmod_poly_equal(c->modulus, d->modulus)) { H::fail("the default context of degree " + H::str(k) + " has another modulus"); return; }
      fq_nmod_t g, h, r, t; fq_nmod_init(g, c); fq_nmod_init(h, c); fq_nmod_init(r, c); fq_nmod_init(t, c); fq_nmod_gen(g, c);
      n_factor_t f; n_factor_init(&f); n_factor(&f, q - 1, 1);
      bool prim = true; for (int i = 0; i < f.num; ++i) { fq_nmod_pow_ui(h, g, (q - 1) / f.p[i], c); if (fq_nmod_is_one(h, c)) prim = false; }
      fq_nmod_pow_ui(h, g, q - 1, c); if (!prim || !fq_nmod_is_one(h, c)) { H::fail("the generator of degree " + H::str(k) + " is not primitive"); return; }
      nmod_poly_init(&con[k], p); nmod_poly_set(&con[k], c->modulus); ulong qe = p;
      for (u e = 1; e < k; ++e, qe *= p) if (k % e == 0) {
        fq_nmod_pow_ui(h, g, (q - 1) / (qe - 1), c); fq_nmod_zero(r, c);
        for (slong i = con[e].length; i-- > 0;) { fq_nmod_mul(r, r, h, c); fq_nmod_set_ui(t, nmod_poly_get_coeff_ui(&con[e], i), c); fq_nmod_add(r, r, t, c); }
        if (!fq_nmod_is_zero(r, c)) { H::fail("the generators of degrees " + H::str(e) + " and " + H::str(k) + " do not belong together"); return; }
      }
      fq_nmod_clear(g, c); fq_nmod_clear(h, c); fq_nmod_clear(r, c); fq_nmod_clear(t, c); fq_nmod_ctx_clear(c); fq_nmod_ctx_clear(d); fmpz_clear(fp);
    }
    for (auto & x : con) if (x.coeffs) nmod_poly_clear(&x);
  }
}
int main(int argc, char ** argv) {
  string prop = argc > 1 ? argv[1] : "C01";
  H::init(argc, argv);
  std::cerr.rdbuf(nullptr);
  if (prop == "C01" || prop == "C03" || prop == "C19") conway();
  if (prop == "C01" || prop == "C03") points(prop); else if (prop == "C02") tables(); else if (prop == "C04") offsets(); else if (prop == "C05") ramification(); else single();
  return H::finish();
}

#include "harness.hh"
#include "field.hh"
#include "curve_iterator.hh"
#include <flint/fmpz.h>
using namespace std;
typedef unsigned int u;
typedef vector<u> P;

static u gcdu(uint64_t a, uint64_t b) { while (b) { uint64_t t = a % b; a = b; b = t; } return a; }
// twice the multiplicity: the number of substitutions and scalings modulo those that fix the normal form
static void expected(fmpz_t r, u p, u q, const vector<u> & s) {
  uint64_t m = q - 1; u n = s.back(); size_t k = s.size();
  u b = k >= 2 ? s[k - 2] : UINT_MAX, c = k >= 3 ? s[k - 3] : UINT_MAX;
  // scalings of f by a square class (q - 1 after doubling), translations q, dilations of the next determined coefficient
  fmpz_set_ui(r, m);
  if (p > n) { fmpz_mul_ui(r, r, q); if (k >= 3) { fmpz_mul_ui(r, r, m); fmpz_divexact_ui(r, r, gcdu(m, b - c)); } }
  else if (n % p == 0) {
    if (k >= 2 && b == n - 1) { fmpz_mul_ui(r, r, q); if (k >= 3 && c == n - 3) { fmpz_mul_ui(r, r, m); fmpz_divexact_ui(r, r, gcdu(m, 3)); } }
    else if (k >= 2 && b == n - 2) { fmpz_mul_ui(r, r, m); fmpz_divexact_ui(r, r, 2); }
  } else { fmpz_mul_ui(r, r, q); if (k >= 2 && b == n - 2) { fmpz_mul_ui(r, r, m); fmpz_divexact_ui(r, r, 2); } }
  fmpz_divexact_ui(r, r, 2);
}
static string big(const fmpz_t x) { char * c = fmpz_get_str(0, 10, x); string s = c; free(c); return s; }
static void mult(u p, u q, const vector<u> & s) {
  H::input("multiplicity: prime=" + H::str(p) + " prime_power=" + H::str(q) + " support=" + H::str(s));
  if (s.size() > 2) ++H::nontriv;
  fmpz_t w, g; fmpz_init(w); fmpz_init_set_ui(g, H::below(3) ? 0 : 12345);
  expected(w, p, q, s);
  CurveIterator::multiplicity(g, p, q, s);
  if (!fmpz_equal(w, g)) H::fail("gives " + big(g) + " instead of " + big(w));
  fmpz_clear(w); fmpz_clear(g);
}
static bool isprime(u n) { if (n < 2) return false; for (u d = 2; (uint64_t)d * d <= n; ++d) if (n % d == 0) return false; return true; }

static void space(u p, u e, u genus, bool marked, u pkg, bool cover) {
  H::input("enumeration: prime=" + H::str(p) + " exponent=" + H::str(e) + " genus=" + H::str(genus) + " with_marked_point=" + H::str(marked) + " package_size=" + H::str(pkg));
  ++H::nontriv;
  Fq F(p, e); u q = F.q; FqElementTable t(p, e);
  CurveIterator it(t, genus, marked, pkg);
  set<P> seen; map<u, vector<P>> by; fmpz_t m, tot[2], w; fmpz_init(m); fmpz_init(tot[0]); fmpz_init(tot[1]); fmpz_init(w);
  size_t guard = 0;
  for (; !it.is_end(); it.step()) {
    auto box = it.as_block(); auto pos = it.as_position();
    uint64_t vol = 1, cnt = 0; for (auto & x : box) vol *= get<1>(x) - get<0>(x);
    if (pos.size() != box.size()) { H::fail("position and block differ in length"); return; }
    BlockIterator en = it.as_block_enumerator();
    for (; !en.is_end(); en.step()) {
      P f = en.as_position(); ++cnt;
      if (++guard > 4000000) { H::fail("does not end"); return; }
      for (size_t i = 0; i < f.size(); ++i) if (f[i] > q - 1 || f[i] < get<0>(box[i]) || f[i] >= get<1>(box[i])) { H::fail("polynomial " + H::str(f) + " outside its block or field"); return; }
      u d = f.size() - 1;
      if (d != 2 * genus + 1 && (marked || d != 2 * genus + 2)) { H::fail("degree " + H::str(d)); return; }
      if (f[d] == q - 1) { H::fail("leading coefficient of " + H::str(f) + " is zero"); return; }
      if (!seen.insert(f).second) { H::fail("polynomial " + H::str(f) + " is enumerated twice"); return; }
      vector<u> s; for (u i = 0; i <= d; ++i) if (f[i] != q - 1) s.push_back(i);
      // normal form
      if (d % p != 0 && f[d - 1] != q - 1) { H::fail("polynomial " + H::str(f) + " is not in normal form"); return; }
      if (d % p == 0 && f[d - 1] != q - 1 && f[d - 2] != q - 1) { H::fail("polynomial " + H::str(f) + " is not in normal form"); return; }
      expected(m, p, q, s); fmpz_add(tot[d - 2 * genus - 1], tot[d - 2 * genus - 1], m);
      if (cover) by[d].push_back(f);
    }
    if (cnt != vol) { H::fail("block " + H::str(box) + " enumerates " + H::str(cnt) + " polynomials"); return; }
  }
  it.step(); if (!it.is_end()) H::fail("leaves its end");
  for (u k = 0; k < (marked ? 1u : 2u); ++k) {
    u d = 2 * genus + 1 + k; fmpz_set_ui(w, q); fmpz_pow_ui(w, w, d); fmpz_mul_ui(w, w, q - 1); fmpz_mul_ui(m, tot[k], 2);
    if (!fmpz_equal(w, m)) { H::fail("twice the multiplicities in degree " + H::str(d) + " add up to " + big(m) + " instead of " + big(w)); return; }
  }
  fmpz_clear(m); fmpz_clear(w); fmpz_clear(tot[0]); fmpz_clear(tot[1]);
  if (!cover) return;
  for (auto & x : by) {
    u d = x.first; uint64_t all = q - 1; for (u i = 0; i < d; ++i) all *= q;
    if (all * d > 6000000) continue;
    vector<bool> hit(all * 2 + 2 * q * (all / (q - 1)), false); uint64_t n = 0;
    for (auto & f : x.second) {
      vector<Fq::E> c(d + 1); for (u i = 0; i <= d; ++i) c[i] = f[i] == q - 1 ? 0 : F.ex[f[i]];
      for (u b = 0; b < q; ++b) {
        // Taylor shift by b
        vector<Fq::E> g = c; for (u i = 0; i < d; ++i) for (u j = d; j-- > i;) g[j] = F.add(g[j], F.mul(b, g[j + 1]));
        for (u a = 0; a < q - 1; ++a) for (u s = 0; s < q - 1; ++s) {
          uint64_t code = 0; for (u i = d + 1; i-- > 0;) { Fq::E v = g[i] ? F.ex[(F.lg[g[i]] + (uint64_t)a * i + s) % (q - 1)] : 0; code = code * q + v; }
          if (!hit[code]) { hit[code] = true; ++n; }
        }
      }
    }
    if (n != all) { H::fail("substitutions of the enumerated polynomials give " + H::str(n) + " of the " + H::str(all) + " polynomials of degree " + H::str(d)); return; }
  }
}
int main(int argc, char ** argv) {
  string prop = argc > 1 ? argv[1] : "C09";
  H::init(argc, argv);
  vector<pair<u,u>> fields;                                          // (p, e)
  for (u p = 3; p < 70; ++p) if (isprime(p)) { uint64_t q = p; for (u e = 1; q < 80; ++e, q *= p) fields.push_back({p, e}); }
  if (prop == "C09") {
    // every support of small degree for small fields
    for (u p : {3u, 5u, 7u, 11u, 13u}) for (u e = 1; e < 4; ++e) { u q = 1; for (u i = 0; i < e; ++i) q *= p;
      for (u d = 3; d <= 9; ++d) for (u m = 0; m < (1u << d); ++m) { vector<u> s; for (u i = 0; i < d; ++i) if (m >> i & 1) s.push_back(i); s.push_back(d); mult(p, q, s); } }
    vector<pair<u,u>> bigf{{3,20},{5,13},{7,11},{11,9},{13,8},{65521,2},{4294967291u,1},{2147483647u,1},{1000003,1},{65537,1},{65539,1},{46337,2}};
    while (H::more()) {
      u p, q; 
      if (H::below(2)) { auto x = H::pick(bigf); p = x.first; uint64_t k = 1; u e = 1 + H::below(x.second); for (u i = 0; i < e; ++i) k *= p; q = k; }
      else { do p = 3 + H::below(H::below(2) ? 40 : 3000); while (!isprime(p)); uint64_t k = p; while (H::below(2) && k * p < 4294967296ull) k *= p; q = k; }
      u d = 3 + H::below(H::below(3) ? 14 : 80); if (!H::below(6)) d = 3 + H::lit() % 60; if (!H::below(4) && p < 60) d = p * (1 + H::below(4)); if (d < 3) d = 3;
      vector<u> s; int den = 1 + H::below(4); for (u i = 0; i < d; ++i) if (H::below(4) < (u)den) s.push_back(i); s.push_back(d);
      if (s.size() > 1 && !H::below(4)) { s.clear(); u k = H::below(4); set<u> t; for (u i = 0; i < k; ++i) t.insert(H::below(d)); s.assign(t.begin(), t.end()); s.push_back(d); }
      mult(p, q, s);
    }
  } else {
    for (auto f : vector<pair<u,u>>{{3,1},{5,1},{7,1}}) for (u pk : {1u, 7u, 1000u}) for (bool mk : {false, true}) space(f.first, f.second, 1, mk, pk, pk == 7);
    space(3, 1, 2, false, 5, true); space(3, 1, 3, false, 50, true); space(3, 2, 1, false, 10, true); space(5, 1, 2, false, 100, true); space(11, 1, 1, false, 3, true);
    for (u pk : {1u, 2u, 13u}) { space(3, 1, 2, true, pk, false); space(7, 1, 1, true, pk, false); }
    while (H::more()) {
      auto f = H::pick(fields); u q = 1; for (u i = 0; i < f.second; ++i) q *= f.first;
      vector<u> gs; for (u g = 1; g < 12; ++g) { double c = pow((double)q, 2 * g - 1) * 4; if (c < 4e5) gs.push_back(g); }
      if (gs.empty()) continue;
      u pk = 1 + H::below(H::below(2) ? 30 : 5000); if (!H::below(5)) pk = max<uint64_t>(1, H::lit() % 100000);
      u g = H::pick(gs); if (q == 3 && H::below(2)) g = 1 + H::below(6);
      space(f.first, f.second, g, H::below(2), pk, H::below(8) == 0);
    }
  }
  return H::finish();
}

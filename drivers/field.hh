// A finite field of the harness's own (independent of FLINT and of the tables under test).
#ifndef VERIF_FIELD
#define VERIF_FIELD
#include <vector>
#include <cstdint>
struct Fq {
  typedef uint32_t E;                      // base-p digits, 0 is zero
  unsigned p, e; E q; std::vector<E> ex; std::vector<uint32_t> lg; std::vector<unsigned> mod;
  E add(E a, E b) const { if (e == 1) { uint64_t s = (uint64_t)a + b; return s >= p ? s - p : s; } E r = 0, m = 1; while (a || b) { unsigned d = a % p + b % p; if (d >= p) d -= p; r += d * m; m *= p; a /= p; b /= p; } return r; }
  E neg(E a) const { E r = 0, m = 1; while (a) { unsigned d = a % p; r += (d ? p - d : 0) * m; m *= p; a /= p; } return r; }
  E mul(E a, E b) const { if (!a || !b) return 0; return ex[((uint64_t)lg[a] + lg[b]) % (q - 1)]; }
  E pw(E a, uint64_t n) const { if (n == 0) return 1; if (!a) return 0; return ex[(lg[a] * (n % (q - 1))) % (q - 1)]; }
  bool square(E a) const { return a && lg[a] % 2 == 0; }
  E from_int(uint64_t n) const { return n % p; }
  // multiplication of the base-p vector a by x modulo x^e + mod
  E times_x(E a) const { E top = a; for (unsigned i = 0; i + 1 < e; ++i) top /= p; E sh = 1; for (unsigned i = 0; i + 1 < e; ++i) sh *= p; E r = (a - top * sh) * p; E m = 1, out = 0; for (unsigned i = 0; i < e; ++i) { unsigned d = (r % p + (uint64_t)(p - mod[i]) % p * top) % p; out += d * m; m *= p; r /= p; } return out; }
  Fq(unsigned p, unsigned e) : p(p), e(e) {
    q = 1; for (unsigned i = 0; i < e; ++i) q *= p;
    ex.resize(q - 1); lg.assign(q, 0);
    if (e == 1) {
      for (E g = 1; ; ++g) { uint64_t a = 1; uint32_t k = 0; bool ok = true; do { ex[k] = a; a = a * g % p; ++k; if (a == 1 && k < q - 1) { ok = false; break; } } while (k < q - 1); if (ok && a == 1) break; }
    } else {
      mod.resize(e);
      for (E c = 1; c < q; ++c) {
        E t = c; for (unsigned i = 0; i < e; ++i) { mod[i] = t % p; t /= p; }
        if (!mod[0]) continue;
        E a = 1; uint32_t k = 0; bool ok = true;
        do { ex[k] = a; a = times_x(a); ++k; if (a == 0 || (a == 1 && k < q - 1)) { ok = false; break; } } while (k < q - 1);
        if (ok && a == 1) break;
      }
    }
    for (uint32_t i = 0; i < q - 1; ++i) lg[ex[i]] = i;
  }
  E eval(const std::vector<E> & f, E x) const { E r = 0; for (size_t i = f.size(); i-- > 0;) r = add(mul(r, x), f[i]); return r; }
};
#endif

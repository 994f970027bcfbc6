// C16: random streams: model-based sequences of typed draws, bulk fills, pools over ranks, intervals, permutations.
#include "common.h"
#define IN_rng
#include "util/rng/rng_private.h"
#undef IN_rng
const char *pbt_check_name = "c16";
// reference: SFMT-11213 after its published recurrence (period exponent 11213), bytes consumed in order at natural alignment
struct Ref {
  uint32_t s[88 * 4]; uint32_t n;
  explicit Ref(int seed) { s[0] = (uint32_t)seed; for (int i = 1; i < 352; i++) s[i] = 1812433253u * (s[i - 1] ^ (s[i - 1] >> 30)) + i;
    static const uint32_t P[4] = {1, 0, 0xe8148000u, 0xd0c7afa3u}; uint32_t b = 0; for (int i = 0; i < 4; i++) b ^= s[i] & P[i]; for (int i = 16; i; i >>= 1) b ^= b >> i; if (!(b & 1)) s[0] ^= 1; n = sizeof s; }
  static void shl(const uint32_t *a, int by, uint32_t *o) { unsigned __int128 x = 0; for (int i = 3; i >= 0; i--) x = x << 32 | a[i]; x <<= 8 * by; for (int i = 0; i < 4; i++) o[i] = (uint32_t)(x >> (32 * i)); }
  static void shr(const uint32_t *a, int by, uint32_t *o) { unsigned __int128 x = 0; for (int i = 3; i >= 0; i--) x = x << 32 | a[i]; x >>= 8 * by; for (int i = 0; i < 4; i++) o[i] = (uint32_t)(x >> (32 * i)); }
  void step() { static const uint32_t M[4] = {0xeffff7fbu, 0xffffffefu, 0xdfdfbfffu, 0x7fffdbfdu};
    for (int i = 0; i < 88; i++) { uint32_t *a = s + 4 * i, *b = s + 4 * ((i + 68) % 88), *c = s + 4 * ((i + 86) % 88), *d = s + 4 * ((i + 87) % 88), x[4], y[4]; shl(a, 3, x); shr(c, 3, y); for (int k = 0; k < 4; k++) a[k] = a[k] ^ x[k] ^ ((b[k] >> 7) & M[k]) ^ y[k] ^ (d[k] << 14); } }
  uint64_t next(int bytes) { n = (n + bytes - 1) / bytes * bytes; if (n >= sizeof s) { step(); n = 0; } uint64_t v = 0; memcpy(&v, (char *)s + n, bytes); n += bytes; return v; }
};
enum { NK = 26 };
static const char *KN[NK] = {"c", "uc", "h", "uh", "i", "ui", "l", "ul", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f", "d", "f_c0", "d_c0", "f_c1", "d_c1", "f_c", "d_c", "fn", "dn"};
typedef long double LD;
struct Val { bool flt; uint64_t i; double f; };
#define INTS(X) X(0, c, char) X(1, uc, unsigned char) X(2, h, short) X(3, uh, unsigned short) X(4, i, int) X(5, ui, unsigned int) X(6, l, long) X(7, ul, unsigned long) X(8, i8, int8_t) X(9, u8, uint8_t) X(10, i16, int16_t) X(11, u16, uint16_t) X(12, i32, int32_t) X(13, u32, uint32_t) X(14, i64, int64_t) X(15, u64, uint64_t)
#define FLTS(X) X(16, frand, float) X(17, drand, double) X(18, frand_c0, float) X(19, drand_c0, double) X(20, frand_c1, float) X(21, drand_c1, double) X(22, frand_c, float) X(23, drand_c, double) X(24, frandn, float) X(25, drandn, double) X(26, frande, float) X(27, drande, double)
static Val one(rng_t *r, int k) {
  Val v; v.flt = k >= 16; v.i = 0; v.f = 0;
  switch (k) {
#define X(n, p, t) case n: v.i = (uint64_t)p##rand(r); break;
    INTS(X)
#undef X
#define X(n, p, t) case n: v.f = p(r); break;
    FLTS(X)
#undef X
  }
  return v;
}
// bulk fill of n elements with stride st into a guarded array; returns values, checks the gaps
template <class T, class F> static bool filled(F f, rng_t *r, int st, int n, std::vector<Val> &o, bool flt) {
  std::vector<T> a((size_t)st * n + 3); memset(&a[0], 0x5a, a.size() * sizeof(T)); T *ret = f(r, &a[1], st, n); if (ret != &a[1]) return false;
  for (size_t j = 0; j < a.size(); j++) { bool used = j >= 1 && (j - 1) % st == 0 && (int)((j - 1) / st) < n; if (used) { Val v; v.flt = flt; v.i = flt ? 0 : (uint64_t)a[j]; v.f = flt ? (double)a[j] : 0; o.push_back(v); } else { const char *b = (const char *)&a[j]; for (size_t k = 0; k < sizeof(T); k++) if (b[k] != 0x5a) return false; } }
  return true;
}
static bool fill(rng_t *r, int k, int st, int n, std::vector<Val> &o) {
  switch (k) {
#define X(n_, p, t) case n_: return filled<t>(p##rand_fill, r, st, n, o, false);
    INTS(X)
#undef X
#define X(n_, p, t) case n_: return filled<t>(p##_fill, r, st, n, o, true);
    FLTS(X)
#undef X
  }
  return false;
}
static int isize(int k) { static const int s[16] = {1, 1, 2, 2, 4, 4, 8, 8, 1, 1, 2, 2, 4, 4, 8, 8}; return k < 16 ? s[k] : (k & 1) ? 8 : 4; }
static bool issigned(int k) { return k < 16 && !(k & 1); }
static uint64_t imax(int k) { int b = 8 * isize(k) - (issigned(k) ? 1 : 0); return b == 64 ? ~0ull : (1ull << b) - 1; }
static std::string range_error(int k, const Val &v) {
  char b[120]; b[0] = 0;
  if (k < 16) { if (v.i > imax(k)) sprintf(b, "%srand gave %llu, above %llu", KN[k], (unsigned long long)v.i, (unsigned long long)imax(k)); }
  else if (k < 24) { bool o0 = k < 18 || k == 20 || k == 21, o1 = k < 20; if (!(o0 ? v.f > 0 : v.f >= 0) || !(o1 ? v.f < 1 : v.f <= 1)) sprintf(b, "%s uniform gave %.17g", KN[k], v.f);
    else { double q = (k & 1) ? 9007199254740992.0 : 16777216.0; if (k < 18) { double t = v.f * q / 2 - 0.5; if (t != floor(t)) sprintf(b, "%s uniform gave %.17g, not a midpoint of the lattice", KN[k], v.f); } else if (v.f * q != floor(v.f * q)) sprintf(b, "%s uniform gave %.17g, not on the lattice", KN[k], v.f); } }
  else if (k < 26) { if (!(fabs(v.f) < (k == 24 ? 8 : 40))) sprintf(b, "normal gave %g", v.f); } // |x| is at most r + 24 ln 2 / r (single), r + 53 ln 2 / r (double)
  else if (!(v.f >= 0 && v.f <= (k == 26 ? 17 : 37))) sprintf(b, "exponential gave %g", v.f);
  return b;
}
// the documented lattice roundings of the underlying random bits
static bool model_value(Ref &m, int k, Val &v) {
  v.flt = k >= 16; v.i = 0; v.f = 0;
  if (k < 16) { v.i = m.next(isize(k)) >> (issigned(k) ? 1 : 0); return true; }
  if (k >= 24) return false;
  uint64_t a = m.next(isize(k)); bool d = k & 1; double q = d ? 9007199254740992.0 : 16777216.0; int s = d ? 11 : 8;
  switch (k) { case 16: case 17: v.f = ((double)(a >> (s + 1)) + 0.5) * (2 / q); break; case 18: case 19: v.f = (double)(a >> s) / q; break; case 20: case 21: v.f = (double)((a >> s) + 1) / q; break; default: v.f = (double)((a >> s) + (a & 1)) / q; }
  return true;
}
static bool veq(const Val &a, const Val &b) { return a.flt ? a.f == b.f : a.i == b.i; }
static const char *kn(int k) { return k < NK ? KN[k] : k == 26 ? "fe" : "de"; }
void pbt_setup() {}
void pbt_teardown() {}
static void streams(pbt::Ctx &c) {
  int seed = (int)(c.flag() ? c.draw(1000) : c.draw(0xffffffffu)); rng_t *r = new_rng(seed), *t = new_rng(0); seed_rng(t, seed); Ref m(seed); int nop = 1 + (int)c.draw(30); bool in_model = true; std::string d; long total = 0;
  for (int o = 0; o < nop && !c.failed; o++) {
    int k = (int)c.draw(27), n = c.flag(0.3) ? 1 + (int)c.draw(3) : (int)c.draw(800), st = 1 + (int)c.draw(2), how = (int)c.draw(2); char b[60]; sprintf(b, "%s%s x%d/%d ", kn(k), how ? " fill" : "", n, st); d += b;
    std::vector<Val> a, e; if (how) { if (!fill(r, k, st, n, a)) c.fail("fill", "%s fill with stride %d wrote outside its elements or returned a wrong pointer", kn(k), st); } else for (int i = 0; i < n; i++) a.push_back(one(r, k));
    if (how == 2) { if (!fill(t, k, 1, n, e)) c.fail("fill", "%s fill wrote outside its elements", kn(k)); } else for (int i = 0; i < n; i++) e.push_back(one(t, k));
    if (a.size() != e.size()) { c.fail("fill", "wrong number of elements"); break; }
    for (size_t i = 0; i < a.size(); i++) {
      if (!veq(a[i], e[i])) { c.fail("same-sequence", "draw %d of %s: %.17g in one generator, %.17g in the other with the same seed", (int)i, kn(k), a[i].flt ? a[i].f : (double)a[i].i, e[i].flt ? e[i].f : (double)e[i].i); break; }
      std::string re = range_error(k, a[i]); if (!re.empty()) { c.fail("range", "%s", re.c_str()); break; }
      Val w; if (in_model) { if (k >= 24) { in_model = false; continue; } if (model_value(m, k, w) && !veq(a[i], w)) { c.fail("sequence", "seed %d, draw %d of %s: %.17g, the generator's definition gives %.17g", seed, (int)i, kn(k), a[i].flt ? a[i].f : (double)a[i].i, w.flt ? w.f : (double)w.i); break; } }
      total++;
    }
    if (c.flag(0.1)) { if (seed_rng(r, seed + 1) != r || seed_rng(t, seed + 1) != t) c.fail("seed", "seed_rng returned something else"); m = Ref(++seed); in_model = true; d += "reseed "; }
  }
  c.note("stream seed %d ops %d: %s", seed, nop, d.c_str()); delete_rng(r); delete_rng(t); if (total > 100) c.nontrivial(); c.label("streams");
}
static void extremes(pbt::Ctx &c) { // states that make the next bits all zero / all one / alternating
  int k = (int)c.draw(27); rng_t *r = new_rng((int)c.draw(1000)); int pat = (int)c.draw(4), at = (int)c.draw(11) * 8; c.note("extreme bits pattern %d, %s at byte %d", pat, kn(k), at);
  pbt::SplitMix g = c.bulk(); for (int i = 0; i < SFMT_NC; i++) r->state.u8[i] = pat == 0 ? 0 : pat == 1 ? 0xff : pat == 2 ? 0xaa : pat == 3 ? 0x55 : (g.flag() ? 0xff : 0); r->n = at;
  bool deg = k >= 24 && k < 26 && pat < 4; // rejection loops need fresh bits eventually: mix them in
  if (deg) for (int i = at + 24; i < SFMT_NC; i++) r->state.u8[i] = (uint8_t)g.next();
  for (int i = 0; i < 8; i++) { Val v = one(r, k); std::string e = range_error(k, v); if (!e.empty()) { c.fail("range", "bits pattern %d: %s", pat, e.c_str()); break; }
    if (!deg && pat == 0 && k < 24) { bool lo = k < 16 ? v.i == 0 : k < 18 ? v.f < 1e-7 : k == 20 || k == 21 ? v.f <= 1. / 16777216 : v.f == 0; if (!lo) c.fail("extreme", "all-zero bits do not give the lowest %s value but %.17g", kn(k), k < 16 ? (double)v.i : v.f); }
    if (!deg && pat == 1 && k < 24) { bool hi = k < 16 ? v.i == imax(k) : k < 20 ? v.f > 0.9999999 && v.f < 1 : v.f == 1; if (!hi) c.fail("extreme", "all-one bits do not give the highest %s value but %.17g", kn(k), k < 16 ? (double)v.i : v.f); } }
  delete_rng(r); c.label("extremes"); c.nontrivial();
}
static void perms(pbt::Ctx &c) {
  int seed = (int)c.draw(100000); rng_t *r = new_rng(seed), *t = new_rng(seed); int n = c.flag() ? (int)c.draw(12) : (int)c.draw(3000); bool sh = c.flag(0.6);
  if (!sh) {
    c.note("randperm n %d seed %d", n, seed); std::vector<int> x(n + 2, -7), y(n + 1); int *p = randperm(r, &x[1], n); randperm(t, &y[0], n); if (p != &x[1]) c.fail("perm", "wrong pointer returned"); if (x[0] != -7 || x[n + 1] != -7) c.fail("perm", "wrote outside the array");
    std::vector<char> seen(n); for (int i = 0; i < n; i++) { int v = x[1 + i]; if (v < 0 || v >= n || seen[v]) { c.fail("perm", "randperm(%d): element %d = %d out of range or repeated", n, i, v); break; } seen[v] = 1; if (v != y[i]) { c.fail("same-sequence", "randperm differs between equal seeds"); break; } }
    c.label("randperm");
  } else {
    int sz = c.flag(0.7) ? (int)(1u << c.draw(3)) : 1 + (int)c.draw(23), str = c.flag() ? sz * (1 + (int)c.draw(3)) : sz + (int)c.draw(9); c.note("shuffle n %d of %d bytes every %d bytes, seed %d", n, sz, str, seed); size_t need = (size_t)str * n + 64; std::vector<uint64_t> A(need / 8 + 2), B; uint8_t *x = (uint8_t *)&A[0] + 8; pbt::SplitMix g = c.bulk(); for (size_t i = 0; i < A.size() * 8; i++) ((uint8_t *)&A[0])[i] = (uint8_t)g.next();
    B = A; const uint8_t *y = (const uint8_t *)&B[0] + 8; void *p = shuffle(r, x, sz, str, n); if (p != x) c.fail("shuffle", "wrong pointer returned");
    std::vector<std::string> a, b; size_t last = n ? (size_t)str * (n - 1) + sz : 0; for (size_t i = 0; i < last; i++) if (i % str >= (size_t)sz && x[i] != y[i]) { c.fail("shuffle", "byte %d between elements changed", (int)i); break; }
    for (const uint8_t *q = (uint8_t *)&A[0]; q < x; q++) if (*q != ((uint8_t *)&B[0])[q - (uint8_t *)&A[0]]) c.fail("shuffle", "wrote before the array"); for (size_t i = last; i < A.size() * 8 - 8; i++) if (x[i] != y[i]) { c.fail("shuffle", "wrote behind the array"); break; }
    for (int i = 0; i < n; i++) { a.push_back(std::string((const char *)x + (size_t)i * str, sz)); b.push_back(std::string((const char *)y + (size_t)i * str, sz)); }
    if (sz >= 4 && n >= 20) { int moved = 0; for (int i = 0; i < n; i++) moved += a[i] != b[i]; if (moved < n / 4) c.fail("shuffle", "only %d of %d elements moved", moved, n); }
    std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) c.fail("shuffle", "the elements after the shuffle are not a permutation of those before");
    // same permutation whatever the element layout: the draws depend on n only
    std::vector<uint64_t> ids(n + 1); for (int i = 0; i < n; i++) ids[i] = i; shuffle(t, &ids[0], 8, 8, n); for (int i = 0; i < n && !c.failed; i++) if (memcmp(x + (size_t)i * str, y + (size_t)ids[i] * str, sz)) c.fail("same-sequence", "shuffle of %d-byte elements orders differently from 8-byte elements with an equal seed", sz);
    c.label(str % sz == 0 && (sz == 1 || sz == 2 || sz == 4 || sz == 8) ? "shuffle typed" : "shuffle bytes");
  }
  if (u64rand(r) != u64rand(t)) c.fail("same-sequence", "the generators are in different states afterwards"); delete_rng(r); delete_rng(t); if (n > 2) c.nontrivial();
}
static void pools(pbt::Ctx &c) {
  int n = 1 + (int)c.draw(5), seed = (int)c.draw(2000), seed2 = c.flag() ? seed + 1 + (int)c.draw(3) : seed; int skip = (int)c.draw(500); c.note("pools of %d generators, seeds %d and %d, %d ranks, after %d draws", n, seed, seed2, pbt::nranks(), skip);
  rng_pool_t *p[4] = {new_rng_pool(n, seed, 0), new_rng_pool(n, seed, 1), new_rng_pool(n, 0, 0), new_rng_pool(n, 7, 1)}; if (seed_rng_pool(p[2], seed2, 0) != p[2] || seed_rng_pool(p[3], seed2, 1) != p[3]) c.fail("pool", "seed_rng_pool returned something else");
  std::vector<uint64_t> v; for (int k = 0; k < 4; k++) { if (p[k]->n_rng != n) c.fail("pool", "pool has %d generators instead of %d", p[k]->n_rng, n); for (int i = 0; i < n; i++) { for (int j = 0; j < skip; j++) u32rand(p[k]->rng[i]); for (int j = 0; j < 2; j++) v.push_back(u64rand(p[k]->rng[i])); } }
  std::vector<uint64_t> all = pbt::allgatherv(v); int R = pbt::nranks(); std::map<std::pair<uint64_t, uint64_t>, std::string> seen;
  for (int r = 0; r < R; r++) for (int k = 0; k < 4; k++) for (int i = 0; i < n; i++) {
    size_t at = (size_t)r * v.size() + (k * n + i) * 2; std::pair<uint64_t, uint64_t> id(all[at], all[at + 1]); bool sync = k & 1; char b[80]; sprintf(b, "generator %d of the %s pool seed %d", i, sync ? "synchronised" : "local", k < 2 ? seed : seed2); std::string nm(b); if (!sync) { sprintf(b, " of rank %d", r); nm += b; }
    if (sync && (all[(k * n + i) * 2] != id.first || all[(k * n + i) * 2 + 1] != id.second)) c.fail("pool-sync", "%s differs on rank %d", nm.c_str(), r);
    std::map<std::pair<uint64_t, uint64_t>, std::string>::iterator it = seen.find(id); if (it == seen.end()) seen[id] = nm; else if (it->second != nm) { c.fail("pool-unique", "%s and %s give the same sequence", nm.c_str(), it->second.c_str()); break; } }
  for (int i = 0; i < n; i++) { if (seed2 == seed) { for (int j = 0; j < 4; j++) { size_t a = (size_t)i * 2 + (j & 1), b = a + 2 * n * 2; (void)b; } } }
  if (seed2 == seed) for (int k = 0; k < 2; k++) for (int i = 0; i < 2 * n; i++) if (v[k * 2 * n + i] != v[(k + 2) * 2 * n + i]) { c.fail("pool-seed", "a new pool and a reseeded pool with the same seed differ"); break; }
  for (int k = 0; k < 4; k++) delete_rng_pool(p[k]); c.label("pools"); c.nontrivial();
}
void pbt_case(pbt::Ctx &c) { switch (c.draw(pbt::nranks() > 1 ? 1 : 4)) { case 0: streams(c); break; case 1: pools(c); break; case 2: perms(c); break; case 3: extremes(c); break; default: streams(c); } }

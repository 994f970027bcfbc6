// C17: goodness of fit of every generator on generated seeds, sample sizes, strides and generator interleavings.
#include "common.h"
const char *pbt_check_name = "c17";
static const double PMIN = 1e-10; // a case fails below this p-value; about 1e4 tests per run
static double gammq(double a, double x) { // regularised upper incomplete gamma
  if (x <= 0) return 1; double gl = lgamma(a);
  if (x < a + 1) { double s = 1 / a, d = s; for (int n = 1; n < 100000; n++) { d *= x / (a + n); s += d; if (fabs(d) < fabs(s) * 1e-15) break; } return 1 - s * exp(-x + a * log(x) - gl); }
  double b = x + 1 - a, c = 1e300, d = 1 / b, h = d; for (int i = 1; i < 100000; i++) { double an = -i * (i - a); b += 2; d = an * d + b; if (fabs(d) < 1e-300) d = 1e-300; c = b + an / c; if (fabs(c) < 1e-300) c = 1e-300; d = 1 / d; double e = d * c; h *= e; if (fabs(e - 1) < 1e-15) break; } return exp(-x + a * log(x) - gl) * h;
}
static pbt::Ctx *C; static double thr_mult = 1;
static void chi2(const char *what, const std::vector<double> &o, const std::vector<double> &e, double dof) {
  double x = 0; size_t w = 0; double wx = 0; for (size_t i = 0; i < o.size(); i++) { double t = (o[i] - e[i]) * (o[i] - e[i]) / e[i]; x += t; if (t > wx) wx = t, w = i; } double p = gammq(dof / 2, x / 2), q = 1 - p;
  if (p < PMIN * thr_mult) C->fail("distribution", "%s: chi-square %.4g for %g degrees of freedom (p %.2g), worst cell %d: %g, expected %g", what, x, dof, p, (int)w, o[w], e[w]);
  if (q < PMIN * thr_mult && dof > 8) C->fail("too-even", "%s: chi-square %.4g for %g degrees of freedom is too small (p %.2g)", what, x, dof, q);
}
static void uni_chi2(const char *what, const std::vector<double> &o, double n) { std::vector<double> e(o.size(), n / o.size()); chi2(what, o, e, o.size() - 1.0); }
static void zcheck(const char *what, double z) { if (!(fabs(z) < 6.6)) C->fail("distribution", "%s: %.2f standard deviations off", what, z); }
#define INTS(X) X(0, c, char) X(1, uc, unsigned char) X(2, h, short) X(3, uh, unsigned short) X(4, i, int) X(5, ui, unsigned int) X(6, l, long) X(7, ul, unsigned long) X(8, i8, int8_t) X(9, u8, uint8_t) X(10, i16, int16_t) X(11, u16, uint16_t) X(12, i32, int32_t) X(13, u32, uint32_t) X(14, i64, int64_t) X(15, u64, uint64_t)
#define FLTS(X) X(0, frand, float) X(1, drand, double) X(2, frand_c0, float) X(3, drand_c0, double) X(4, frand_c1, float) X(5, drand_c1, double) X(6, frand_c, float) X(7, drand_c, double) X(8, frandn, float) X(9, drandn, double) X(10, frande, float) X(11, drande, double)
static const char *IN_[16] = {"crand", "ucrand", "hrand", "uhrand", "irand", "uirand", "lrand", "ulrand", "i8rand", "u8rand", "i16rand", "u16rand", "i32rand", "u32rand", "i64rand", "u64rand"};
static const char *FN_[12] = {"frand", "drand", "frand_c0", "drand_c0", "frand_c1", "drand_c1", "frand_c", "drand_c", "frandn", "drandn", "frande", "drande"};
static int ibits(int k) { static const int s[16] = {8, 8, 16, 16, 32, 32, 64, 64, 8, 8, 16, 16, 32, 32, 64, 64}; return s[k] - (k & 1 ? 0 : 1); }
static void get_ints(rng_t *r, int k, int n, std::vector<uint64_t> &v) {
  v.resize(n);
  switch (k) {
#define X(j, p, t) case j: for (int i = 0; i < n; i++) v[i] = (uint64_t)p##rand(r); break;
    INTS(X)
#undef X
  }
}
static void get_flts(rng_t *r, int k, int n, std::vector<double> &v) {
  v.resize(n);
  switch (k) {
#define X(j, p, t) case j: { std::vector<t> a(n); p##_fill(r, &a[0], 1, n); for (int i = 0; i < n; i++) v[i] = a[i]; } break;
    FLTS(X)
#undef X
  }
}
static double phi(double x) { return 0.5 * erfc(-x * M_SQRT1_2); }
// u in [0,1], continuous up to lattice h: cells, pairs, serial correlation, moments
static void uniform_tests(const char *w, const std::vector<double> &u) {
  int n = (int)u.size(); const int B = 256; std::vector<double> o(B, 0), p(1024, 0), q(1024, 0); double s = 0, s2 = 0, sc = 0, lc = 0; int lag = 1 + n % 7;
  for (int i = 0; i < n; i++) { int b = std::min(B - 1, (int)(u[i] * B)); o[b]++; s += u[i] - 0.5; s2 += (u[i] - 0.5) * (u[i] - 0.5) - 1 / 12.0; if (i) { sc += (u[i] - 0.5) * (u[i - 1] - 0.5); } if (i >= lag) lc += (u[i] - 0.5) * (u[i - lag] - 0.5); if (i & 1) p[std::min(31, (int)(u[i] * 32)) * 32 + std::min(31, (int)(u[i - 1] * 32))]++; }
  uni_chi2((std::string(w) + " cells").c_str(), o, n); if (n > 40000) uni_chi2((std::string(w) + " pairs").c_str(), p, n / 2);
  zcheck((std::string(w) + " mean").c_str(), s / sqrt(n / 12.0)); zcheck((std::string(w) + " variance").c_str(), s2 / sqrt(n / 180.0)); zcheck((std::string(w) + " correlation of successive draws").c_str(), sc * 12 / sqrt(n - 1.0)); zcheck((std::string(w) + " lagged correlation").c_str(), lc * 12 / sqrt((double)n - lag));
}
// long normal samples, in blocks: fine cells and both tails
static void long_normal(pbt::Ctx &c, rng_t *r, int seed) {
  int k = 8 + (int)c.draw(1); double mult = atof(pbt::opt["long"].c_str()); const int BLK = 1 << 20; int nb = (int)((30 + c.draw(20)) * mult); double N = (double)nb * BLK; c.note("%s: %g draws, seed %d", FN_[k], N, seed); c.label("long normal");
  const int W = 400, NB = 5 * W; std::vector<double> f(2 * NB, 0), x; const double T[3] = {2.2, 3.0, 3.6}; const int B = 24; std::vector<double> o[3]; for (int j = 0; j < 3; j++) o[j].assign(2 * B, 0); double pt[3]; for (int j = 0; j < 3; j++) pt[j] = erfc(T[j] * M_SQRT1_2) / 2;
  for (int b = 0; b < nb; b++) { get_flts(r, k, BLK, x); for (int i = 0; i < BLK; i++) { double a = fabs(x[i]); int s = x[i] < 0; f[s * NB + std::min(NB - 1, (int)(a * W))]++; if (a > T[0]) for (int j = 0; j < 3; j++) if (a > T[j]) o[j][std::min(B - 1, (int)(erfc(a * M_SQRT1_2) / 2 / pt[j] * B)) + s * B]++; } }
  char w[80]; for (int j = 0; j < 3; j++) { std::vector<double> e(2 * B, N * pt[j] / B); if (e[0] > 10) { sprintf(w, "%s cells beyond %g", FN_[k], T[j]); chi2(w, o[j], e, 2 * B); } }
  std::vector<double> oo, ee; double ao = 0, ae = 0; for (int b = 0; b < 2 * NB; b++) { int q = b % NB; double p = q < NB - 1 ? (erf((q + 1.) / W * M_SQRT1_2) - erf(q / (double)W * M_SQRT1_2)) / 2 : erfc((NB - 1.) / W * M_SQRT1_2) / 2; if (q > 2 * W) p = (erfc(q / (double)W * M_SQRT1_2) - (q < NB - 1 ? erfc((q + 1.) / W * M_SQRT1_2) : 0)) / 2; ao += f[b]; ae += N * p; if (ae > 50) { oo.push_back(ao); ee.push_back(ae); ao = ae = 0; } } if (!oo.empty()) { oo.back() += ao; ee.back() += ae; }
  sprintf(w, "%s fine cells", FN_[k]); chi2(w, oo, ee, oo.size() - 1.0); double z = 0; size_t at = 0; for (size_t i = 0; i < oo.size(); i++) { double t = fabs(oo[i] - ee[i]) / sqrt(ee[i]); if (ee[i] > 400 && t > z) z = t, at = i; } if (z > 7.5) c.fail("distribution", "%s: fine cell %d holds %.0f draws, expected %.1f (%.2f standard deviations)", FN_[k], (int)at, oo[at], ee[at], z);
  // neighbouring cells together: a misplaced table entry shifts a stretch of cells the same way
  for (int wd = 4; wd <= 32; wd *= 2) for (size_t i = 0; i + wd <= oo.size(); i += wd / 2) { double a = 0, b = 0; for (int j = 0; j < wd; j++) a += oo[i + j], b += ee[i + j]; if (fabs(a - b) > 7.5 * sqrt(b)) { c.fail("distribution", "%s: fine cells %d to %d hold %.0f draws, expected %.1f", FN_[k], (int)i, (int)i + wd - 1, a, b); return; } }
}
void pbt_setup() {}
void pbt_teardown() {}
void pbt_case(pbt::Ctx &c) {
  C = &c; int seed = (int)c.draw(1000000), kind = c.pickw(std::vector<int>{4, 4, 5, 3, 5, 2}); rng_pool_t *rp = new_rng_pool(3, seed, 0); rng_t *r = rp->rng[c.draw(2)]; { int k = (int)c.draw(20); for (int i = 0; i < k; i++) u16rand(r); }
  if (pbt::opt.count("long")) { c.nontrivial(); long_normal(c, r, seed); delete_rng_pool(rp); return; }
  int big = pbt::opt.count("big") ? 20 : 1; int N = (int)(20000 * pow(2., 5 * c.unit())) * big; c.nontrivial();
  if (kind == 0) {
    int k = (int)c.draw(15); N /= 4; c.note("%s: %d draws, seed %d", IN_[k], N, seed); c.label("integers"); std::vector<uint64_t> v; get_ints(r, k, N, v); int nb = ibits(k);
    std::vector<double> f(nb, 0), pr((size_t)nb * nb, 0), ac(nb, 0); for (int i = 0; i < N; i++) for (int b = 0; b < nb; b++) { f[b] += v[i] >> b & 1; if (i) ac[b] += (v[i] ^ v[i - 1]) >> b & 1; uint64_t x = v[i] ^ (v[i] >> b); if (b) { int m = nb - b; pr[b] += __builtin_popcountll(x & (m == 64 ? ~0ull : (1ull << m) - 1)); } }
    for (int b = 0; b < nb; b++) { char w[80]; sprintf(w, "%s bit %d", IN_[k], b); zcheck(w, (f[b] - N / 2.0) / sqrt(N / 4.0)); sprintf(w, "%s bit %d of successive draws", IN_[k], b); zcheck(w, (ac[b] - (N - 1) / 2.0) / sqrt((N - 1) / 4.0)); if (b) { double m = (double)N * (nb - b); sprintf(w, "%s bits %d apart", IN_[k], b); zcheck(w, (pr[b] - m / 2) / sqrt(m / 4)); } }
    int tb = std::min(nb, 8); std::vector<double> hi(1 << tb, 0), lo(1 << tb, 0); for (int i = 0; i < N; i++) { hi[v[i] >> (nb - tb)]++; lo[v[i] & ((1 << tb) - 1)]++; } uni_chi2((std::string(IN_[k]) + " high bits").c_str(), hi, N); uni_chi2((std::string(IN_[k]) + " low bits").c_str(), lo, N);
    std::vector<double> u(N); for (int i = 0; i < N; i++) u[i] = ((double)v[i] + 0.5) / pow(2., nb); 
    if (nb >= 15) uniform_tests(IN_[k], u);
  } else if (kind == 1) {
    int k = (int)c.draw(7); c.note("%s: %d draws, seed %d", FN_[k], N, seed); c.label("uniform"); std::vector<double> u; get_flts(r, k, N, u); std::vector<double> t = u; uniform_tests(FN_[k], t);
    double q = (k & 1) ? 9007199254740992.0 : 16777216.0; int nb = (k & 1) ? 53 : 24; if (k < 2) { q /= 2; nb--; } std::vector<double> f(nb, 0); // every bit of the lattice index
    for (int i = 0; i < N; i++) { uint64_t j = (uint64_t)floor(u[i] * q); for (int b = 0; b < nb; b++) f[b] += j >> b & 1; }
    for (int b = 0; b < nb; b++) { char w[60]; sprintf(w, "%s lattice bit %d", FN_[k], b); zcheck(w, (f[b] - N / 2.0) / sqrt(N / 4.0)); }
  } else if (kind == 2) {
    int k = 8 + (int)c.draw(1); N *= 2; c.note("%s: %d draws, seed %d", FN_[k], N, seed); c.label("normal"); std::vector<double> x, u; get_flts(r, k, N, x); u.resize(N); double m[5] = {0, 0, 0, 0, 0}; double tail[4] = {0, 0, 0, 0}; static const double T[4] = {2.5, 3, 3.7, 4.3}; 
    for (int i = 0; i < N; i++) { u[i] = phi(x[i]); double z = x[i]; m[1] += z; m[2] += z * z - 1; m[3] += z * z * z; m[4] += z * z * z * z - 3; for (int j = 0; j < 4; j++) tail[j] += fabs(z) > T[j]; }
    uniform_tests(FN_[k], u); char w[80]; static const double V[5] = {0, 1, 2, 15, 96}; for (int j = 1; j < 5; j++) { sprintf(w, "%s moment %d", FN_[k], j); zcheck(w, m[j] / sqrt(V[j] * N) / (j == 4 ? 1.5 : j == 3 ? 1.2 : 1)); }
    for (int j = 0; j < 4; j++) { double e = N * erfc(T[j] * M_SQRT1_2); if (e > 200) { sprintf(w, "%s beyond %g", FN_[k], T[j]); zcheck(w, (tail[j] - e) / sqrt(e)); } }
    // conditional distribution beyond 2.2, where both tail algorithms live, in 24 equally likely cells per side
    const int B = 24; double pt = erfc(2.2 * M_SQRT1_2) / 2; std::vector<double> o(2 * B, 0), e(2 * B, N * pt / B); for (int i = 0; i < N; i++) if (fabs(x[i]) > 2.2) { double t = erfc(fabs(x[i]) * M_SQRT1_2) / 2 / pt; o[std::min(B - 1, (int)(t * B)) + (x[i] < 0 ? B : 0)]++; } if (e[0] > 10) { sprintf(w, "%s tail cells", FN_[k]); chi2(w, o, e, 2 * B); }
    // fine cells: twice per ziggurat strip
    std::vector<double> f(600, 0), fe(600, 0); for (int i = 0; i < N; i++) f[std::min(599, (int)(fabs(x[i]) * 150))]++; double pe = 0; for (int b = 0; b < 600; b++) { fe[b] = N * (b < 599 ? erf((b + 1) / 150. * M_SQRT1_2) - erf(b / 150. * M_SQRT1_2) : erfc(599 / 150. * M_SQRT1_2)); } (void)pe;
    std::vector<double> fo2, fe2; double ao = 0, ae = 0; for (int b = 0; b < 600; b++) { ao += f[b]; ae += fe[b]; if (ae > 20) { fo2.push_back(ao); fe2.push_back(ae); ao = ae = 0; } } if (!fo2.empty()) { fo2.back() += ao; fe2.back() += ae; sprintf(w, "%s fine cells", FN_[k]); chi2(w, fo2, fe2, fo2.size() - 1.0); }
  } else if (kind == 3) {
    int k = 10 + (int)c.draw(1); c.note("%s: %d draws, seed %d", FN_[k], N, seed); c.label("exponential"); std::vector<double> x, u; get_flts(r, k, N, x); u.resize(N); double s = 0; for (int i = 0; i < N; i++) { u[i] = exp(-x[i]); s += x[i] - 1; } uniform_tests(FN_[k], u); zcheck("exponential mean", s / sqrt((double)N));
    const int B = 32; double pt = exp(-4.0); std::vector<double> o(B, 0), e(B, N * pt / B); for (int i = 0; i < N; i++) if (x[i] > 4) o[std::min(B - 1, (int)(exp(-x[i]) / pt * B))]++; if (e[0] > 10) chi2("exponential tail cells", o, e, B);
  } else if (kind == 4) {
    bool sh = c.flag(0.6); int n = 2 + (int)c.draw(4), sz = sh ? 1 + (int)c.draw(11) : 0, M = std::max(N / 8, 5000); if (c.flag(0.4)) n = 7 + (int)c.draw(60); int str = sz + (c.flag() ? sz * (int)c.draw(2) : (int)c.draw(3)); std::vector<int> x(n), id(n); std::vector<unsigned char> by((size_t)str * n + 8);
    c.note("%s of %d elements (%d bytes every %d), %d times, seed %d", sh ? "shuffle" : "randperm", n, sz, str, M, seed); c.label(sh ? "shuffle" : "randperm"); int nf = 1; for (int i = 2; i <= n && n < 7; i++) nf *= i; std::vector<double> ord(nf, 0), at((size_t)n * n, 0), succ((size_t)n * n, 0); if (n > 6) M = std::max(2000, M / 4);
    if (n < 7) M = std::max(M, nf * 20); else M = std::max(M, n * 12);
    for (int t = 0; t < M; t++) {
      if (!sh) randperm(r, &x[0], n); else { for (int i = 0; i < n; i++) for (int b = 0; b < sz; b++) by[(size_t)i * str + b] = (unsigned char)(b == 0 ? i : b * 7 + i); shuffle(r, &by[0], sz, str, n); for (int i = 0; i < n; i++) x[i] = by[(size_t)i * str]; }
      for (int i = 0; i < n; i++) at[(size_t)i * n + x[i]]++; for (int i = 0; i + 1 < n; i++) succ[(size_t)x[i] * n + x[i + 1]]++;
      if (n < 7) { int code = 0; for (int i = 0; i < n; i++) { int l = 0; for (int j = i + 1; j < n; j++) l += x[j] < x[i]; code = code * (n - i) + l; } ord[code]++; }
    }
    if (n < 7) uni_chi2("orderings", ord, M);
    if (n >= 7) { std::vector<double> e((size_t)n * n, (double)M / n); // positions: (n-1)^2 degrees of freedom; the statistic has mean (n-1)^2 * n/(n-1)
      double X = 0; for (size_t i = 0; i < at.size(); i++) X += (at[i] - e[i]) * (at[i] - e[i]) / e[i]; std::vector<double> dummy; double dof = (n - 1.0) * (n - 1.0), p = gammq(dof / 2, X * (n - 1) / n / 2); if (p < PMIN) c.fail("distribution", "element positions: chi-square %.4g for %g degrees of freedom (p %.2g)", X * (n - 1) / n, dof, p); if (1 - p < PMIN) c.fail("too-even", "element positions: chi-square %.4g for %g degrees of freedom", X * (n - 1) / n, dof);
      double es = M / (double)n, z = 0; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a != b) z = std::max(z, fabs(succ[(size_t)a * n + b] - es) / sqrt(es)); if (z > 7.5 && es > 40) c.fail("distribution", "successor pairs: %.2f standard deviations off", z); }
  } else {
    c.note("independence of the generators of a pool: %d draws each, seed %d", N, seed); c.label("pool"); N /= 2; std::vector<std::vector<double> > v(3); for (int k = 0; k < 3; k++) get_flts(rp->rng[k], 1, N, v[k]); int lag = (int)c.draw(10);
    for (int a = 0; a < 3; a++) for (int b = 0; b < a; b++) { double s = 0; std::vector<double> p(1024, 0); for (int i = 0; i + lag < N; i++) { s += (v[a][i] - 0.5) * (v[b][i + lag] - 0.5); p[(int)(v[a][i] * 32) * 32 + (int)(v[b][i + lag] * 32)]++; } zcheck("correlation between generators of a pool", s * 12 / sqrt((double)N - lag)); if (N > 20000) uni_chi2("pairs from two generators of a pool", p, N - lag); }
  }
  delete_rng_pool(rp);
}

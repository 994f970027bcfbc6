// C19: collision rates, scattering-angle distributions and thermal coupling against their analytic definition (goodness of fit, p = 1e-10 per test).
#include "colllib.h"
const char *pbt_check_name = "c19";
static pbt::Ctx *C;
static const double ZM = 6.8;
static double gammq(double a, double x) {
  if (x <= 0) return 1; double gl = lgamma(a);
  if (x < a + 1) { double s = 1 / a, d = s; for (int n = 1; n < 100000; n++) { d *= x / (a + n); s += d; if (fabs(d) < fabs(s) * 1e-15) break; } return 1 - s * exp(-x + a * log(x) - gl); }
  double b = x + 1 - a, c = 1e300, d = 1 / b, h = d; for (int i = 1; i < 100000; i++) { double an = -i * (i - a); b += 2; d = an * d + b; if (fabs(d) < 1e-300) d = 1e-300; c = b + an / c; if (fabs(c) < 1e-300) c = 1e-300; d = 1 / d; double e = d * c; h *= e; if (fabs(e - 1) < 1e-15) break; } return exp(-x + a * log(x) - gl) * h;
}
// observed count n against a sum of independent rare events with mean mu (Poisson tails bound it); sys: relative systematic slack
static void poisson(const char *key, const char *what, double n, double mu, double sys) {
  double hi = mu * (1 + sys), lo = mu * (1 - sys), p = 1;
  if (n > hi) p = 1 - gammq(n, hi); else if (n < lo) p = gammq(n + 1, lo); // P(X >= n), P(X <= n)
  if (p < 1e-11) C->fail(key, "%s: observed %g events, expected %.6g (p %.2g)", what, n, mu, p);
}
static void binom(const char *key, const char *what, double n, double N, double p, double sys) {
  if (p <= 0) { if (n > 0) C->fail(key, "%s: %g of %g at probability 0", what, n, N); return; } if (p >= 1) { if (n < N) C->fail(key, "%s: %g of %g at probability 1", what, n, N); return; }
  double slack = sys * p + (ZM * sqrt(N * p * (1 - p)) + 12) / N; if (fabs(n / N - p) > slack) C->fail(key, "%s: %g of %g = %.6g, expected probability %.6g (%.1f standard deviations)", what, n, N, n / N, p, (n - N * p) / sqrt(N * p * (1 - p) + 1e-9));
}
static void ks(const char *key, const char *what, std::vector<double> &u) { // against uniform [0,1]
  if (u.size() < 50) return; std::sort(u.begin(), u.end()); double D = 0, n = (double)u.size(); for (size_t i = 0; i < u.size(); i++) D = std::max(D, std::max(fabs(u[i] - i / n), fabs((i + 1) / n - u[i])));
  if (!(D * sqrt(n) < 3.5 + 3e-4 * sqrt(n))) C->fail(key, "%s: distribution differs from its definition (n %g, Kolmogorov distance %.4g)", what, n, D);
}
static double Phi(double x) { return 0.5 * erfc(-x * M_SQRT1_2); }
struct V3 { double x, y, z; V3(double a = 0, double b = 0, double c = 0) : x(a), y(b), z(c) {} };
static V3 operator+(V3 a, V3 b) { return V3(a.x + b.x, a.y + b.y, a.z + b.z); }
static V3 operator-(V3 a, V3 b) { return V3(a.x - b.x, a.y - b.y, a.z - b.z); }
static V3 operator*(double s, V3 b) { return V3(s * b.x, s * b.y, s * b.z); }
static double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V3 cross(V3 a, V3 b) { return V3(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
static V3 U(const particle_t &p) { return V3(p.ux, p.uy, p.uz); }
static void setu(particle_t &p, V3 u) { p.ux = (float)u.x; p.uy = (float)u.y; p.uz = (float)u.z; }
static bool same(V3 a, V3 b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
static V3 gen_dir(pbt::Ctx &c) { int k = (int)c.draw(9); double s = k & 1 ? -1 : 1; if (k < 6) return k / 2 == 0 ? V3(s, 0, 0) : k / 2 == 1 ? V3(0, s, 0) : V3(0, 0, s); if (k == 6) return M_SQRT1_2 * V3(1, 0, -1); pbt::SplitMix r = c.bulk(); V3 v(r.normal(), r.normal(), r.normal()); return 1 / sqrt(dot(v, v)) * v; }
// scattering angle cosine and azimuth of r1 around r0
static void angles(V3 r0, V3 r1, double &cs, double &phi) {
  double n0 = sqrt(dot(r0, r0)), n1 = sqrt(dot(r1, r1)); cs = dot(r0, r1) / (n0 * n1); V3 a = fabs(r0.x) < 0.6 * n0 ? V3(1, 0, 0) : V3(0, 1, 0); V3 e = cross(r0, a); e = 1 / sqrt(dot(e, e)) * e; V3 f = 1 / n0 * cross(r0, e); phi = atan2(dot(r1, f), dot(r1, e)) / (2 * M_PI) + 0.5;
}
static grid_t *G; static double gdt, gdV, gc, geps;
static void mk_grid(pbt::Ctx &c, int n0, int n1) { int n[3]; for (int a = 0; a < 3; a++) n[a] = n0 + (int)c.draw(n1 - n0); double L[3]; for (int a = 0; a < 3; a++) L[a] = n[a] * (c.flag() ? 1 : c.logreal(0.2, 5)); G = new_grid(); G->dt = c.flag() ? 0.5f : (float)c.logreal(0.01, 3); G->cvac = c.flag() ? 1 : (float)c.logreal(0.2, 50); G->eps0 = c.flag() ? 1 : (float)c.logreal(0.2, 5); partition_periodic_box(G, 0, 0, 0, L[0], L[1], L[2], n[0], n[1], n[2], 1, 1, 1); gdt = G->dt; gc = G->cvac; geps = G->eps0; gdV = L[0] * L[1] * L[2] / ((double)n[0] * n[1] * n[2]); c.note("grid %dx%dx%d dV %g dt %g c %g eps0 %g; ", n[0], n[1], n[2], gdV, gdt, gc, geps); }
static std::vector<int> interior() { std::vector<int> v; for (int z = 1; z <= G->nz; z++) for (int y = 1; y <= G->ny; y++) for (int x = 1; x <= G->nx; x++) v.push_back(vox(G, x, y, z)); return v; }
static species_t *mk_sp(species_t **l, const char *n, double q, double m, int np) { species_t *sp = append_species(species(n, (float)q, (float)m, np + 1, 16, 1, 0, G), l); sp->np = 0; return sp; }
static void add_p(species_t *sp, int cell, V3 u, double w, int tag) { particle_t &p = sp->p[sp->np++]; memset(&p, 0, sizeof p); p.i = cell; p.dy = (float)(tag * (1. / (1 << 20))); setu(p, u); p.w = (float)w; }
static int tag_of(const particle_t &p) { return (int)lrint((double)p.dy * (1 << 20)); }

// --- custom operator with a pair-dependent rate; nobody's momentum changes; updates are counted
struct Cust { double K0; int nk, nl; double *cnt; bool intra; long self; };
static Cust *CU;
static double kfac(int a, int b) { return 0.2 + 0.8 * (((a + 1) * (b + 1) * 2654435761u >> 7) % 1000) / 999.; }
float c19_rate(void *, const species_t *, const species_t *, const particle_t *pi, const particle_t *pj) { return (float)(CU->K0 * kfac(tag_of(*pi), tag_of(*pj))); }
void c19_coll(void *, const species_t *si, const species_t *, particle_t *pi, particle_t *pj, rng_t *, int type) {
  pthread_mutex_lock(&coll_mx); if (pi == pj) CU->self++; else { if (type & 1) CU->cnt[tag_of(*pi)]++; if (type & 2) CU->cnt[CU->intra ? tag_of(*pj) : CU->nk + tag_of(*pj)]++; } pthread_mutex_unlock(&coll_mx); }
static void t_pairs(pbt::Ctx &c, rng_pool_t *rp) {
  mk_grid(c, 1, 2); std::vector<int> in = interior(); species_t *l = NULL; bool intra = c.flag(); int nk = 1 + (int)c.draw(6), nl = intra ? nk : 1 + (int)c.draw(6); if (intra && nk < 2) nk = nl = 2;
  double m = c.logreal(0.2, 5); species_t *a = mk_sp(&l, "a", 1, 1, (int)in.size() * nk), *b = intra ? a : mk_sp(&l, "b", -1, m, (int)in.size() * nl);
  pbt::SplitMix r = c.bulk(); bool eq = c.flag(0.3); std::vector<double> w(nk + nl); for (size_t k = 0; k < w.size(); k++) w[k] = eq ? 1 : (float)pow(10., r.real(-1, 1)); double sample = c.flag(0.4) ? 1 : c.logreal(0.3, 5); int interval = 1 + (int)c.draw(3);
  int nc = (int)(0.5 + (intra ? 0.5 : 1) * sample * std::max(nk, nl)); if (nc < 1) { sample = intra ? 2. / nk : 1.; nc = 1; }
  double np = intra ? 0.5 * nk * (nk + 1) : nk * nl, wm = 0; for (int k = 0; k < nk + (intra ? 0 : nl); k++) wm = std::max(wm, w[k]);
  double K0 = 0.9 * gdV * nc / (wm * gdt * interval * np); // largest probability just below one
  for (size_t v = 0; v < in.size(); v++) { for (int k = 0; k < nk; k++) add_p(a, in[v], V3(0.1 * k, 0, 0), w[k], k); if (!intra) for (int k = 0; k < nl; k++) add_p(b, in[v], V3(0, 0.1 * k, 0), w[nk + k], k); }
  Cust cu; cu.K0 = K0; cu.nk = nk; cu.nl = nl; cu.intra = intra; cu.self = 0; std::vector<double> cnt(nk + nl, 0.); cu.cnt = &cnt[0]; CU = &cu;
  collision_op_t *cop = NULL; append_collision_op(binary_collision_model("b", (binary_rate_constant_func_t)c19_rate, (binary_collision_func_t)c19_coll, NULL, a, b, rp, sample, interval), &cop);
  int M = std::max(10, (int)(6000 / (in.size() * std::max(nk, nl)))); c.note("pair rates: %s %d,%d particles per cell, weights %s, sample %g (%d candidates), interval %d, %d applications; ", intra ? "one species" : "two species", nk, nl, eq ? "equal" : "mixed", sample, nc, interval, M);
  long app = 0; G->step = 0; for (int t = 0; t < M * interval; t++) { if (t % interval == 0) app++; apply_collision_op_list(cop); G->step++; }
  double tot = 0, te = 0;
  for (int k = 0; k < nk + (intra ? 0 : nl); k++) {
    double e = 0; if (k < nk) { for (int j = 0; j < nl; j++) if (!intra || j != k) e += w[intra ? j : nk + j] * (float)(K0 * kfac(k, j)); } else for (int j = 0; j < nk; j++) e += w[j] * (float)(K0 * kfac(j, k - nk));
    if (intra) e *= (nk + 1.) / nk; e *= gdt * interval / gdV * app * in.size(); char s[100]; sprintf(s, "scatterings of particle %d of %s (weight %g)", k < nk ? k : k - nk, k < nk ? "a" : "b", w[k]); poisson("pair-rate", s, cnt[k], e, 1e-3); tot += cnt[k]; te += e; }
  poisson("pair-rate", "all scatterings", tot / 2, te / 2, 2e-3); c.label(intra ? "pairs-one-species" : "pairs-two-species"); if (te > 100) c.nontrivial();
  delete_collision_op_list(cop); delete_species_list(l);
}
// --- single pairs: rate and angle of hard_sphere, large_angle_coulomb, takizuka_abe
static void t_angle(pbt::Ctx &c, rng_pool_t *rp) {
  mk_grid(c, 6, 11); std::vector<int> in = interior(); int kind = (int)c.draw(2); bool intra = c.flag(0.4); species_t *l = NULL;
  double mi = c.flag() ? 1 : (float)c.logreal(0.1, 10), mj = intra ? mi : c.flag(0.3) ? mi : (float)c.logreal(0.1, 10), qi = (float)((c.flag() ? 1 : -1) * c.logreal(0.3, 3)), qj = intra ? qi : (float)((c.flag() ? 1 : -1) * c.logreal(0.3, 3));
  species_t *a = mk_sp(&l, "a", qi, mi, 2 * (int)in.size()), *b = intra ? a : mk_sp(&l, "b", qj, mj, (int)in.size());
  double wi = (float)c.logreal(0.2, 5), wj = c.flag() ? wi : (float)c.logreal(0.2, 5), ur = c.logreal(1e-3, 1); V3 d = gen_dir(c), u0 = c.flag() ? V3() : c.logreal(0.01, 1) * ur * gen_dir(c);
  particle_t tp; setu(tp, u0 + ur * d); V3 ui = U(tp); setu(tp, u0); V3 uj = U(tp); ur = sqrt(dot(ui - uj, ui - uj));
  int interval = 1 + (int)c.draw(3); double wmax = std::max(wi, wj), mu = mi * mj / (mi + mj), dens = gdt * interval / gdV;
  for (size_t v = 0; v < in.size(); v++) { add_p(a, in[v], ui, wi, 0); add_p(b, in[v], uj, wj, 1); }
  collision_op_t *cop = NULL, *op; double p = 1, par = 0; double pt = c.real(0.1, 0.95), R = sqrt(pt / (wmax * dens * M_PI * gc * ur * (intra ? 3 : 1)));
  double sd = 0; R = (float)R;
  if (kind == 0) { double f = c.unit(); float ri = (float)(R * f), rj = (float)(R * (1 - f)); op = hard_sphere("hs", a, ri, b, rj, rp, 1, interval); double S = (double)ri + rj; if (intra) { S = (double)ri + rj; } p = wmax * dens * M_PI * S * S * gc * ur; }
  else if (kind == 1) { // choose the charges so that the angles are resolvable: Bmax between .3 and 3
    par = c.logreal(0.3, 3); double B = 4 * M_PI * geps * mu * gc * gc * ur * ur * R / fabs(qi * qj); double s = sqrt(B / par); a->q = (float)(qi * s); b->q = (float)((qj > 0 ? 1 : -1) * (intra ? fabs(qi) : fabs(qj)) * s); if (intra) a->q = b->q = (float)(qi * s); par = 4 * M_PI * geps * mu * gc * gc * ur * ur * R / fabs((double)a->q * b->q); op = large_angle_coulomb("lac", a, b, (float)R, rp, 1, interval); p = wmax * dens * M_PI * R * R * gc * ur; }
  else { sd = c.flag(0.2) ? 2 : c.real(0.05, 0.95); double n = intra ? wi + wj : std::min(wi, wj); double cvar0 = sd * sd * ur * ur * ur / (dens * n * qi * qi * qj * qj / (mu * mu)); op = takizuka_abe("ta", a, b, rp, cvar0, interval); if (sd > 1) sd = 1; }
  if (intra && kind < 2) p *= 1.5; // (n+1)/n with n = 2
  append_collision_op(op, &cop);
  int M = 3 + (int)(20000 / in.size()); c.note("%s %s: masses %g %g weights %g %g |ur| %g direction (%g %g %g) interval %d, expected probability %.4g, Bmax %g, tan sd %g; ", OPN[kind == 2 ? OP_TA : kind], intra ? "within one species" : "between species", mi, mj, wi, wj, ur, d.x, d.y, d.z, interval, p, par, sd);
  long N = 0, hit = 0, heavy = 0; std::vector<double> ang, az; bool iheavy = wi > wj; double wr = std::min(wi, wj) / wmax; double mul = iheavy ? mi / (mi + mj) : mj / (mi + mj); double sgn = iheavy ? -1 : 1;
  G->step = 0;
  for (int t = 0; t < M; t++) {
    apply_collision_op_list(cop);
    std::vector<int> fi(G->nv, -1), fj(G->nv, -1); for (int k = 0; k < a->np; k++) if (tag_of(a->p[k]) == 0) fi[a->p[k].i] = k; for (int k = 0; k < b->np; k++) if (tag_of(b->p[k]) == 1) fj[b->p[k].i] = k;
    for (size_t v = 0; v < in.size(); v++) {
      particle_t &x = a->p[fi[in[v]]], &y = b->p[fj[in[v]]]; N++; bool ci = !same(U(x), ui), cj = !same(U(y), uj); bool cl = iheavy ? cj : ci, ch = iheavy ? ci : cj; if (wi == wj) cl = ci || cj, ch = cl;
      if (cl) { hit++; V3 D = sgn / mul * (iheavy ? U(y) - uj : U(x) - ui); double cs, ph; angles(ui - uj, ui - uj + D, cs, ph);
        ang.push_back(kind == 0 ? 0.5 * (1 - cs) : kind == 1 ? (1 + cs) / std::max(1e-12, 1 - cs) / (par * par) : 2 * Phi(sqrt(std::max(0., (1 - cs) / std::max(1e-12, 1 + cs))) / sd) - 1); az.push_back(ph); }
      if (ch) heavy++;
      setu(x, ui); setu(y, uj);
    }
    G->step += interval;
  }
  binom("rate", "pairs that collided", (double)hit, (double)N, p, 2e-3); if (wi != wj) binom("detailed-balance", "scatterings in which the heavier partner was updated", (double)heavy, (double)hit, wr, 2e-3);
  ks("angle", kind == 0 ? "hard sphere scattering angle" : kind == 1 ? "Coulomb impact parameter" : "tangent of half the scattering angle", ang); if (kind < 2 || sd > 0.2) ks("azimuth", "azimuth of the scattering", az);
  c.label(OPN[kind == 2 ? OP_TA : kind]); if (hit > 500) c.nontrivial();
  delete_collision_op_list(cop); delete_species_list(l);
}
// --- takizuka_abe in general cells: everybody scattered once, and the right amount of diffusion
static void t_ta(pbt::Ctx &c, rng_pool_t *rp) {
  mk_grid(c, 5, 9); std::vector<int> in = interior(); bool intra = c.flag(); species_t *l = NULL; int nk = 1 + (int)c.draw(6), nl = 1 + (int)c.draw(6); bool strong = c.flag(0.4); double mi = (float)c.logreal(0.2, 5), mj = intra ? mi : (float)c.logreal(0.2, 5), mu = mi * mj / (mi + mj);
  if (intra) { if (!strong) nk = 2 + (int)c.draw(2); else if (nk < 2) nk = 2; nl = 0; } double w = (float)c.logreal(0.2, 5), R = c.logreal(0.01, 1); int interval = 1 + (int)c.draw(2);
  species_t *a = mk_sp(&l, "a", 1, mi, nk * (int)in.size()), *b = intra ? a : mk_sp(&l, "b", 1, mj, nl * (int)in.size());
  V3 T[4] = {V3(1, 1, 1), V3(1, -1, -1), V3(-1, 1, -1), V3(-1, -1, 1)}; std::vector<V3> ua(nk), ub(nl); pbt::SplitMix r = c.bulk();
  for (int k = 0; k < nk; k++) ua[k] = intra ? (strong ? R * V3(r.normal(), r.normal(), r.normal()) : R / sqrt(8.) * T[k]) : strong ? R * V3(r.normal(), r.normal(), r.normal()) : V3(); // weak: every pair has relative speed R
  for (int k = 0; k < nl; k++) { V3 v(r.normal(), r.normal(), r.normal()); ub[k] = strong ? R * v : R / sqrt(dot(v, v)) * v; }
  double sd = strong ? 0 : c.real(0.01, 0.03), dens = gdt * interval / gdV, n = intra ? nk * w : w * std::min(nk, nl); double cvar0 = strong ? 1e6 * R * R * R * gdV / (gdt * w) * mu * mu : sd * sd * R * R * R / (dens * n / (mu * mu));
  for (size_t v = 0; v < in.size(); v++) { for (int k = 0; k < nk; k++) add_p(a, in[v], ua[k], w, k); for (int k = 0; k < nl; k++) add_p(b, in[v], ub[k], w, k); }
  collision_op_t *cop = NULL; append_collision_op(takizuka_abe("ta", a, b, rp, cvar0, interval), &cop); G->step = 0; int M = strong ? 1 : 1 + (int)(20000 / (in.size() * nk)); c.note("takizuka_abe %s cells with %d,%d particles, masses %g %g interval %d %s, %d applications; ", intra ? "one species" : "two species", nk, nl, mi, mj, interval, strong ? "strong" : "weak", M);
  double S[2] = {0, 0}; long un = 0;
  for (int t = 0; t < M; t++) {
    apply_collision_op_list(cop);
    for (int s = 0; s < (intra ? 1 : 2); s++) { species_t *sp = s ? b : a; for (int k = 0; k < sp->np; k++) { V3 u = s ? ub[tag_of(sp->p[k])] : ua[tag_of(sp->p[k])]; setu(sp->p[k], V3(sp->p[k].ux, sp->p[k].uy, sp->p[k].uz)); particle_t q; setu(q, u); V3 D = U(sp->p[k]) - U(q); S[s] += dot(D, D); if (D.x == 0 && D.y == 0 && D.z == 0) un++; setu(sp->p[k], u); } }
    G->step += interval;
  }
  if (strong) { if (un >= 3) c.fail("coverage", "%ld of %d particles with partners were not scattered at all", un, a->np + (intra ? 0 : b->np)); c.label("ta-coverage"); c.nontrivial(); }
  else { // E|Delta|^2 = R^2 E[4 d^2/(1+d^2)] ~ 4 sd^2 R^2 per collision
    double per = 4 * sd * sd * (1 - 3 * sd * sd) * R * R, cells = (double)in.size() * M;
    for (int s = 0; s < (intra ? 1 : 2); s++) { double mm = s ? mi / (mi + mj) : mj / (mi + mj), nco = intra ? (nk == 3 ? 2 * 3 * 0.5 : nk) : std::max(nk, nl), e = cells * nco * mm * mm * per, indep = cells * std::min(nk, intra ? nk : std::min(nk, nl)); if (fabs(S[s] / e - 1) > 0.02 + 8 * sqrt(2 / indep)) c.fail("diffusion", "mean square momentum change of species %d is %.5g times its definition", s, S[s] / e); }
    c.label("ta-diffusion"); c.nontrivial(); }
  delete_collision_op_list(cop); delete_species_list(l);
}
// --- langevin
static void t_lang(pbt::Ctx &c, rng_pool_t *rp) {
  mk_grid(c, 1, 3); std::vector<int> in = interior(); species_t *l = NULL; int np = 5000 + (int)c.draw(40000); double m = (float)c.logreal(0.05, 100), kT = (float)c.logreal(1e-4, 1), nudt = c.logreal(1e-3, 30); int interval = 1 + (int)c.draw(4); double nu = (float)(nudt / (interval * gdt)); nudt = nu * interval * gdt;
  species_t *a = mk_sp(&l, "a", 1, m, np); double uth = sqrt(kT / (m * gc * gc)), drive = uth * sqrt(-expm1(-2 * nudt)), dec = exp(-nudt); double u0 = uth * c.real(0, 3);
  for (int k = 0; k < np; k++) add_p(a, in[k % in.size()], V3(u0, -u0, 0), 1, 0);
  collision_op_t *cop = NULL; append_collision_op(langevin((float)kT, (float)nu, a, rp, interval), &cop); c.note("langevin kT %g m %g nu dt interval %g (interval %d) u0/uth %g np %d; ", kT, m, nudt, interval, u0 / uth, np);
  int st = (int)c.draw(5); G->step = st; apply_collision_op_list(cop); bool act = st % interval == 0; if (!act) { for (int k = 0; k < np; k++) if (a->p[k].ux != (float)u0) { c.fail("interval", "step %d: langevin acted outside its interval %d", st, interval); break; } G->step = interval * 3; apply_collision_op_list(cop); }
  for (int k = 0; k < np; k++) if (a->p[k].ux == (float)u0 && a->p[k].uy == (float)-u0 && a->p[k].uz == 0) { c.fail("langevin-coverage", "particle %d of %d was not touched by the bath", k, np); break; }
  V3 f0((float)u0, (float)-u0, 0); double s1 = 0, s2 = 0, xy = 0; std::vector<double> P; for (int k = 0; k < np; k++) { V3 z = 1 / drive * (U(a->p[k]) - dec * f0); double v[3] = {z.x, z.y, z.z}; xy += v[0] * v[1] + v[1] * v[2] + v[2] * v[0]; for (int d = 0; d < 3; d++) { s1 += v[d]; s2 += v[d] * v[d]; P.push_back(Phi(v[d])); } }
  double n = 3. * np; if (fabs(s1 / sqrt(n)) > ZM + 1e-4 * sqrt(n)) c.fail("langevin-mean", "mean of the normalised kick %.4g (%.1f standard deviations)", s1 / n, s1 / sqrt(n)); if (fabs(s2 / n - 1) > ZM * sqrt(2 / n) + 1e-4) c.fail("langevin-variance", "variance of the kick is %.5g times its definition", s2 / n); if (fabs(xy / sqrt(n)) > ZM + 1e-4 * sqrt(n)) c.fail("langevin-correlation", "components of the kick are correlated (%.2g)", xy / n); ks("langevin-shape", "thermal kick", P); c.label("langevin"); c.nontrivial();
  delete_collision_op_list(cop); delete_species_list(l);
}
// --- fluid backgrounds and custom unary
float c19_urate(void *, const species_t *, const particle_t *p) { return (float)(CU->K0 * kfac(tag_of(*p), 3)); }
void c19_ucoll(void *, const species_t *, particle_t *p, rng_t *) { p->uz = 1; }
static float c19_sure(void *, const species_t *, const particle_t *) { return (float)CU->K0; }
static void c19_count(void *, const species_t *, particle_t *p, rng_t *) { p->uz += 1; }
static void t_cover(pbt::Ctx &c, rng_pool_t *rp) { // probability one: every particle of the species collides exactly once, at every interval, on any number of pipelines
  mk_grid(c, 1, 3); std::vector<int> in = interior(); species_t *l = NULL; int np = (int)c.draw(c.flag() ? 40 : 3000), interval = 1 + (int)c.draw(3); species_t *a = mk_sp(&l, "a", 1, 1, np); Cust cu; cu.K0 = 2 / (gdt * interval); CU = &cu;
  for (int k = 0; k < np; k++) add_p(a, in[k % in.size()], V3(), 1, 0);
  collision_op_t *cop = NULL; append_collision_op(unary_collision_model("u", c19_sure, c19_count, NULL, a, rp, interval), &cop); int n = 0; for (int st = 0; st < 7; st++) { G->step = st; apply_collision_op_list(cop); if (st % interval == 0) n++; }
  c.note("unary model with certain collisions: %d particles, interval %d; ", np, interval); c.label("unary coverage"); if (np > 1) c.nontrivial();
  for (int k = 0; k < np; k++) if (a->p[k].uz != n) { c.fail("unary-coverage", "particle %d of %d collided %g times in %d applications with probability one", k, np, a->p[k].uz, n); break; }
  delete_collision_op_list(cop); delete_species_list(l);
}
static void t_unary(pbt::Ctx &c, rng_pool_t *rp) {
  mk_grid(c, 1, 3); std::vector<int> in = interior(); species_t *l = NULL; int kind = (int)c.draw(2), np = 20000 + (int)c.draw(100000), interval = 1 + (int)c.draw(3); double m = (float)c.logreal(0.1, 10), m0 = (float)c.logreal(0.1, 10), q0 = 1; species_t *a = mk_sp(&l, "a", 1, m, np);
  double pt = c.real(0.05, 0.95), dens = gdt * interval; collision_op_t *cop = NULL, *op; Cust cu; double p = 0, par = 0; V3 u, ud; double ut = 0, ur = 0;
  if (kind == 2) { cu.K0 = pt / dens; CU = &cu; op = unary_collision_model("u", (unary_rate_constant_func_t)c19_urate, (unary_collision_func_t)c19_ucoll, NULL, a, rp, interval); for (int k = 0; k < np; k++) add_p(a, in[k % in.size()], V3(), 1, k % 5); }
  else {
    ur = c.logreal(1e-3, 0.5); double kT = 0; if (c.flag(0.6)) kT = m0 * gc * gc * ur * ur * pow(10., 2 * c.real(-1.5, 1)); kT = (float)kT; ut = sqrt(kT / (m0 * gc * gc)); ud = c.flag() ? V3() : c.logreal(0.01, 1) * ur * gen_dir(c); ud = V3((float)(ud.x * gc) / gc, (float)(ud.y * gc) / gc, (float)(ud.z * gc) / gc); particle_t tp; setu(tp, ud + ur * gen_dir(c)); u = U(tp); ur = sqrt(dot(u - ud, u - ud));
    double x = ur / (M_SQRT2 * ut); double f = ut > 0 ? (ur + ut * ut / ur) * erf(x) + ut * sqrt(2 / M_PI) * exp(-x * x) : ur; // exact mean relative speed
    double n0 = c.logreal(0.1, 10), R = sqrt(pt / (dens * n0 * M_PI * gc * f)); n0 = (float)n0; R = (float)R;
    if (kind == 0) { double h = c.unit(); float r0 = (float)(R * h), r1 = (float)(R * (1 - h)); double S = (double)r0 + r1; op = hard_sphere_fluid("hsf", (float)n0, (float)(ud.x * gc), (float)(ud.y * gc), (float)(ud.z * gc), (float)kT, (float)m0, r0, a, r1, rp, interval); p = dens * n0 * M_PI * S * S * gc * f; }
    else { double mu = m * m0 / (m + m0); par = c.logreal(0.3, 3); q0 = (float)((c.flag() ? 1 : -1) * 4 * M_PI * geps * mu * gc * gc * ur * ur * R / par); par = 4 * M_PI * geps * mu * gc * gc * ur * ur * R / fabs(q0); op = large_angle_coulomb_fluid("lacf", (float)n0, (float)(ud.x * gc), (float)(ud.y * gc), (float)(ud.z * gc), (float)kT, (float)q0, (float)m0, a, (float)R, rp, interval); p = dens * n0 * M_PI * R * R * gc * f; }
    for (int k = 0; k < np; k++) add_p(a, in[k % in.size()], u, 1, 0);
  }
  append_collision_op(op, &cop); c.note("%s m %g m0 %g interval %d probability %.4g |ur| %g ut/ur %g Bmax %g np %d; ", kind == 0 ? "hard_sphere_fluid" : kind == 1 ? "large_angle_coulomb_fluid" : "custom unary", m, m0, interval, kind == 2 ? pt : p, ur, ur ? ut / ur : 0, par, np);
  G->step = 2 * interval; apply_collision_op_list(cop);
  if (kind == 2) { double n[5] = {0}, h[5] = {0}; for (int k = 0; k < np; k++) { int t = tag_of(a->p[k]); n[t]++; if (a->p[k].uz) h[t]++; } for (int t = 0; t < 5; t++) binom("unary-rate", "particles that collided", h[t], n[t], pt * kfac(t, 3), 1e-3); }
  else {
    long hit = 0; std::vector<double> ang, az; V3 s1; double s2 = 0; double mui = m0 / (m + m0);
    for (int k = 0; k < np; k++) { V3 D = U(a->p[k]) - u; if (D.x == 0 && D.y == 0 && D.z == 0) continue; hit++; D = 1 / mui * D; s1 = s1 + D; s2 += dot(D, D); if (ut == 0) { double cs, ph; angles(u - ud, u - ud + D, cs, ph); ang.push_back(kind == 0 ? 0.5 * (1 - cs) : (1 + cs) / std::max(1e-12, 1 - cs) / (par * par)); az.push_back(ph); } }
    binom("fluid-rate", "particles that collided with the fluid", (double)hit, (double)np, p, 4e-3);
    if (ut == 0) { ks("fluid-angle", kind == 0 ? "hard sphere scattering angle" : "Coulomb impact parameter", ang); ks("fluid-azimuth", "azimuth of the scattering", az); }
    else if (kind == 0 && hit > 100) { // isotropic scattering off a Maxwellian partner: E D = -(u-ud), E D^2 = 2(|u-ud|^2 + 3 ut^2)
      double v2 = ur * ur + 3 * ut * ut, se = sqrt(2 * v2 / hit); V3 e = 1. / hit * s1 + (u - ud); if (fabs(e.x) > 7 * se || fabs(e.y) > 7 * se || fabs(e.z) > 7 * se) c.fail("fluid-drag", "mean momentum transfer differs from its definition by (%.3g %.3g %.3g), standard error %.3g", e.x, e.y, e.z, se);
      double rel = s2 / hit / (2 * v2) - 1; if (fabs(rel) > 7 * sqrt(3. / hit) + 1e-3) c.fail("fluid-heating", "mean square momentum transfer is %.5g times its definition", rel + 1); }
  }
  c.label(kind == 0 ? "hard_sphere_fluid" : kind == 1 ? "large_angle_coulomb_fluid" : "custom unary"); c.nontrivial(); delete_collision_op_list(cop); delete_species_list(l);
}
void pbt_setup() {}
void pbt_teardown() {}
void pbt_case(pbt::Ctx &c) {
  C = &c; size_t mark = reg_mark(); std::vector<int> w(5); w[0] = 3; w[1] = 4; w[2] = 3; w[3] = 2; w[4] = 3; int k = c.pickw(w); rng_pool_t *rp = new_rng_pool(n_pipelines(), (int)c.draw(1000000000), 0);
  if (k == 0) t_pairs(c, rp); else if (k == 1) t_angle(c, rp); else if (k == 2) t_ta(c, rp); else if (k == 3) t_lang(c, rp); else if (c.flag(0.3)) t_cover(c, rp); else t_unary(c, rp);
  delete_rng_pool(rp); delete_grid(G); reg_release(mark, true);
}

// Double-precision global reference of the Yee-mesh operations, with a running bound of the rounding scale.
#ifndef FIELDREF_H
#define FIELDREF_H
#include "common.h"

enum { C_E = 0, C_B = 3, C_T = 6, C_J = 9, C_RHOF = 12, C_RHOB = 13, C_DE = 14, C_DB = 15, NCOMP = 16 };
enum { MT_E = 0, MT_N = 3, MT_F = 4, MT_C = 7 };
struct MatDef { float eps[3], mu[3], sig[3]; };

static inline float &fcomp(field_t &f, int c) {
  switch (c) {
  case 0: return f.ex; case 1: return f.ey; case 2: return f.ez; case 3: return f.cbx; case 4: return f.cby; case 5: return f.cbz;
  case 6: return f.tcax; case 7: return f.tcay; case 8: return f.tcaz; case 9: return f.jfx; case 10: return f.jfy; case 11: return f.jfz;
  case 12: return f.rhof; case 13: return f.rhob; case 14: return f.div_e_err; default: return f.div_b_err; }
}
static inline material_id &fmatid(field_t &f, int c) {
  switch (c) { case 0: return f.ematx; case 1: return f.ematy; case 2: return f.ematz; case 3: return f.nmat; case 4: return f.fmatx; case 5: return f.fmaty; case 6: return f.fmatz; default: return f.cmat; }
}
static const char *comp_name[NCOMP] = {"ex", "ey", "ez", "cbx", "cby", "cbz", "tcax", "tcay", "tcaz", "jfx", "jfy", "jfz", "rhof", "rhob", "div_e_err", "div_b_err"};
// is component c half-way (cell-centred) along axis a?
static inline bool half_along(int c, int a) {
  if (c < 3) return c == a; if (c < 6) return c - 3 != a; if (c < 9) return c - 6 == a; if (c < 12) return c - 9 == a;
  return c == C_DB;
}
static inline uint64_t mix64(uint64_t z) { z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static inline uint64_t hpoint(uint64_t seed, int c, int x, int y, int z) { return mix64(mix64(seed + 0x9E3779B97F4A7C15ull * (c + 1)) + 0x9E3779B97F4A7C15ull * (uint64_t)(x + 1000 * (y + 1000 * z) + 77)); }
static inline double hunit(uint64_t seed, int c, int x, int y, int z) { return (double)(hpoint(seed, c, x, y, z) >> 11) / 4503599627370496.0 - 1.0; } // [-1,1)

struct RefField {
  Geo q; int n[3]; bool per[3]; double h[3]; std::vector<double> v[NCOMP], m[NCOMP]; std::vector<int> mat[8];
  std::vector<MatDef> mats; double damp;
  int S[3];
  int nops;
  void init(const Geo &g) {
    q = g; nops = 0; damp = 0;
    for (int a = 0; a < 3; a++) { n[a] = g.gn[a]; per[a] = g.fbc[a] == PERIODIC; h[a] = g.d(a); S[a] = n[a] + 2; }
    size_t N = (size_t)S[0] * S[1] * S[2];
    for (int c = 0; c < NCOMP; c++) { v[c].assign(N, 0); m[c].assign(N, 0); }
    for (int k = 0; k < 8; k++) mat[k].assign(N, 0);
  }
  int wrap(int a, int i) const { if (!per[a]) return i; if (i < 1) return i + n[a]; if (i > n[a]) return i - n[a]; return i; }
  size_t at(const int p[3]) const { return (size_t)wrap(0, p[0]) + (size_t)S[0] * (wrap(1, p[1]) + (size_t)S[1] * wrap(2, p[2])); }
  size_t at(int x, int y, int z) const { int p[3] = {x, y, z}; return at(p); }
  int hi(int c, int a) const { return half_along(c, a) || per[a] ? n[a] : n[a] + 1; }
  // 1/h, zero for a single-cell axis
  double rd(int a) const { return n[a] > 1 ? 1 / h[a] : 0; }
  template <class F> void loop(int c, F f) const { int p[3]; for (p[2] = 1; p[2] <= hi(c, 2); p[2]++) for (p[1] = 1; p[1] <= hi(c, 1); p[1]++) for (p[0] = 1; p[0] <= hi(c, 0); p[0]++) f(p); }
  // weight of a point in a volume integral over the domain (half at walls)
  double weight(int c, const int p[3]) const { double w = 1; for (int a = 0; a < 3; a++) if (!half_along(c, a) && !per[a] && (p[a] == 1 || p[a] == n[a] + 1)) w *= 0.5; return w; }
  int bcf(int a, int s) const { return q.fbc[a + 3 * s]; }

  // wall planes: apply f on all points of component c in the plane index idx of axis a
  template <class F> void plane(int c, int a, int idx, F f) const {
    int b = (a + 1) % 3, d = (a + 2) % 3, p[3]; p[a] = idx;
    for (p[d] = 1; p[d] <= hi(c, d); p[d]++) for (p[b] = 1; p[b] <= hi(c, b); p[b]++) f(p);
  }
  void adjust_tang_e(bool tca = true) {
    for (int a = 0; a < 3; a++) if (!per[a]) for (int s = 0; s < 2; s++) if (bcf(a, s) == pec_fields)
      for (int k = 1; k <= 2; k++) { int t = (a + k) % 3; plane(C_E + t, a, s ? n[a] + 1 : 1, [&](const int p[3]) { size_t i = at(p); v[C_E + t][i] = 0; m[C_E + t][i] = 0; if (tca) { v[C_T + t][i] = 0; m[C_T + t][i] = 0; } }); }
  }
  void adjust_norm_b() {
    for (int a = 0; a < 3; a++) if (!per[a]) for (int s = 0; s < 2; s++) if (bcf(a, s) == symmetric_fields)
      plane(C_B + a, a, s ? n[a] + 1 : 1, [&](const int p[3]) { size_t i = at(p); v[C_B + a][i] = 0; m[C_B + a][i] = 0; });
  }
  void ghost_tang_b() {
    double hig = (n[0] > 1 || n[1] > 1 || n[2] > 1) ? 1.03527618 : 1.;
    for (int pass = 0; pass < 2; pass++) for (int a = 0; a < 3; a++) if (!per[a]) {
      int s = pass; int kind = bcf(a, s), gi = s ? n[a] + 1 : 0, ii = s ? n[a] : 1, fi = s ? n[a] + 1 : 1, fin = s ? n[a] : 2;
      double cd = (double)q.cvac * q.dt / h[a];
      for (int k = 1; k <= 2; k++) {
        int t = (a + k) % 3, o = (a + 3 - k) % 3; // B component t, other transverse o
        // plane() restricts by hi(c,.) on transverse axes: B_t is node along t, half along o
        plane(C_B + t, a, gi, [&](const int pp[3]) {
          int p[3] = {pp[0], pp[1], pp[2]}; size_t G = at(p); p[a] = ii; size_t I = at(p);
          if (kind == pec_fields) { v[C_B + t][G] = v[C_B + t][I]; m[C_B + t][G] = m[C_B + t][I]; }
          else if (kind == symmetric_fields || kind == pmc_fields) { v[C_B + t][G] = -v[C_B + t][I]; m[C_B + t][G] = m[C_B + t][I]; }
          else {
            double drive = cd * hig, decay = (1 - drive) / (1 + drive); drive = 2 * drive / (1 + drive);
            int e1[3] = {p[0], p[1], p[2]}, e2[3] = {p[0], p[1], p[2]}, e3[3] = {p[0], p[1], p[2]}; e1[a] = fin; e2[a] = fi;
            int ce = C_E + o; // t1 uses the tangential E along the other axis
            double t1 = cd * (v[ce][at(e1)] - v[ce][at(e2)]), M1 = cd * (m[ce][at(e1)] + m[ce][at(e2)]);
            if (s) t1 = -t1;
            e3[a] = ii; int e4[3] = {e3[0], e3[1], e3[2]}; e4[o]++;
            double co = (double)q.cvac * q.dt / h[o];
            double t2 = co * (v[C_E + a][at(e4)] - v[C_E + a][at(e3)]), M2 = co * (m[C_E + a][at(e4)] + m[C_E + a][at(e3)]);
            double sg = k == 1 ? -1 : 1; // cbY: -t1+t2 ; cbZ: +t1-t2
            double nv = decay * v[C_B + t][G] + drive * v[C_B + t][I] + sg * (t1 - t2);
            m[C_B + t][G] = fabs(decay) * m[C_B + t][G] + drive * m[C_B + t][I] + M1 + M2; v[C_B + t][G] = nv;
          }
        });
      }
    }
  }
  double rmu(int a, size_t i) const { return 1.0 / mats[mat[MT_F + a][i]].mu[a]; }
  void advance_b(double frac) {
    nops++;
    for (int a = 0; a < 3; a++) {
      int b = (a + 1) % 3, c = (a + 2) % 3; double pb = frac * q.cvac * q.dt * rd(b), pc = frac * q.cvac * q.dt * rd(c);
      loop(C_B + a, [&](const int p[3]) {
        int pB[3] = {p[0], p[1], p[2]}, pC[3] = {p[0], p[1], p[2]}; pB[b]++; pC[c]++;
        size_t i = at(p), ib = at(pB), ic = at(pC);
        v[C_B + a][i] -= pb * (v[C_E + c][ib] - v[C_E + c][i]) - pc * (v[C_E + b][ic] - v[C_E + b][i]);
        m[C_B + a][i] += fabs(pb) * (m[C_E + c][ib] + m[C_E + c][i]) + fabs(pc) * (m[C_E + b][ic] + m[C_E + b][i]);
      });
    }
    adjust_norm_b();
  }
  double alpha(const MatDef &M, int a) const { return (double)M.sig[a] * q.dt / ((double)M.eps[a] * q.eps0); }
  void curl_b(bool advance) {
    nops++; ghost_tang_b();
    double dm = advance ? damp : 0;
    for (int a = 0; a < 3; a++) {
      int b = (a + 1) % 3, c = (a + 2) % 3; double pb = (1 + dm) * q.cvac * q.dt * rd(b), pc = (1 + dm) * q.cvac * q.dt * rd(c);
      loop(C_E + a, [&](const int p[3]) {
        int pB[3] = {p[0], p[1], p[2]}, pC[3] = {p[0], p[1], p[2]}; pB[b]--; pC[c]--;
        size_t i = at(p), ib = at(pB), ic = at(pC);
        double t = pb * (v[C_B + c][i] * rmu(c, i) - v[C_B + c][ib] * rmu(c, ib)) - pc * (v[C_B + b][i] * rmu(b, i) - v[C_B + b][ic] * rmu(b, ic));
        double M = pb * (m[C_B + c][i] * rmu(c, i) + m[C_B + c][ib] * rmu(c, ib)) + pc * (m[C_B + b][i] * rmu(b, i) + m[C_B + b][ic] * rmu(b, ic));
        v[C_T + a][i] = t - dm * v[C_T + a][i]; m[C_T + a][i] = M + dm * m[C_T + a][i];
        if (advance) {
          const MatDef &D = mats[mat[MT_E + a][i]];
          double al = alpha(D, a), decay = exp(-al), drive = al == 0 ? 1. / D.eps[a] : -expm1(-al) / (al * D.eps[a]);
          double cj = (double)q.dt / q.eps0;
          // the code drops the drive once exp(-alpha) underflows in single precision (perfect conductor)
          double unc = 0; if ((float)exp(-(float)al) == 0) { unc = drive; drive = 0; }
          double pe = v[C_E + a][i];
          v[C_E + a][i] = decay * pe + drive * (v[C_T + a][i] - cj * v[C_J + a][i]);
          m[C_E + a][i] = decay * (1 + al) * m[C_E + a][i] + drive * (m[C_T + a][i] + cj * m[C_J + a][i]) + 0 * unc;
        }
      });
    }
    adjust_tang_e();
  }
  void ghost_norm_e() {
    for (int pass = 0; pass < 2; pass++) for (int a = 0; a < 3; a++) if (!per[a]) {
      int s = pass, kind = bcf(a, s), gi = s ? n[a] + 1 : 0, ii = s ? n[a] : 1, i2 = s ? n[a] - 1 : 2;
      int b = (a + 1) % 3, d = (a + 2) % 3, p[3];
      for (p[d] = 1; p[d] <= (per[d] ? n[d] : n[d] + 1); p[d]++) for (p[b] = 1; p[b] <= (per[b] ? n[b] : n[b] + 1); p[b]++)
        for (int cc = C_E; cc <= C_T; cc += C_T - C_E) {
          if (cc == C_T) continue; // tca ghosts are not used by any operation
          p[a] = gi; size_t G = at(p); p[a] = ii; size_t I = at(p); p[a] = i2; size_t J = at(p);
          if (kind == pec_fields) { v[cc + a][G] = v[cc + a][I]; m[cc + a][G] = m[cc + a][I]; }
          else if (kind == absorb_fields) { v[cc + a][G] = 2 * v[cc + a][I] - v[cc + a][J]; m[cc + a][G] = 2 * m[cc + a][I] + m[cc + a][J]; }
          else { v[cc + a][G] = -v[cc + a][I]; m[cc + a][G] = m[cc + a][I]; }
        }
    }
  }
  bool conducting(const MatDef &M) const { return M.sig[0] != 0 || M.sig[1] != 0 || M.sig[2] != 0; }
  // out = nonconductive * ( div(epsr E) * se - rho * sr ), boundary nodes of pec/absorb walls zeroed if zero_abs
  void div_e(int out, double se, bool use_rhob, double sr) {
    nops++; ghost_norm_e();
    std::vector<double> nv = v[out], nm = m[out];
    loop(C_RHOF, [&](const int p[3]) {
      size_t i = at(p); double t = 0, M = 0;
      for (int a = 0; a < 3; a++) {
        int pm[3] = {p[0], p[1], p[2]}; pm[a]--; size_t j = at(pm);
        double e1 = mats[mat[MT_E + a][i]].eps[a], e0 = mats[mat[MT_E + a][j]].eps[a];
        t += se * rd(a) * (e1 * v[C_E + a][i] - e0 * v[C_E + a][j]); M += fabs(se) * rd(a) * (e1 * m[C_E + a][i] + e0 * m[C_E + a][j]);
      }
      double r = v[C_RHOF][i] + (use_rhob ? v[C_RHOB][i] : 0), R = m[C_RHOF][i] + (use_rhob ? m[C_RHOB][i] : 0);
      bool cond = conducting(mats[mat[MT_N][i]]);
      nv[i] = cond ? 0 : t - sr * r; nm[i] = cond ? 0 : M + fabs(sr) * R;
    });
    v[out] = nv; m[out] = nm;
    for (int a = 0; a < 3; a++) if (!per[a]) for (int s = 0; s < 2; s++) if (bcf(a, s) == pec_fields || (out == C_DE && bcf(a, s) == absorb_fields))
      plane(C_RHOF, a, s ? n[a] + 1 : 1, [&](const int p[3]) { v[out][at(p)] = 0; m[out][at(p)] = 0; });
  }
  void compute_div_e_err() { div_e(C_DE, 1, true, 1.0 / q.eps0); }
  void compute_rhob() { div_e(C_RHOB, q.eps0, false, 1); }
  void compute_div_b_err() {
    nops++;
    loop(C_DB, [&](const int p[3]) {
      size_t i = at(p); double t = 0, M = 0;
      for (int a = 0; a < 3; a++) { int pp[3] = {p[0], p[1], p[2]}; pp[a]++; size_t j = at(pp); t += rd(a) * (v[C_B + a][j] - v[C_B + a][i]); M += rd(a) * (m[C_B + a][j] + m[C_B + a][i]); }
      v[C_DB][i] = t; m[C_DB][i] = M;
    });
  }
  double rms(int c) const { double s = 0; loop(c, [&](const int p[3]) { double x = v[c][at(p)]; s += weight(c, p) * x * x; }); return q.eps0 * sqrt(s / ((double)n[0] * n[1] * n[2])); }
  double rms_tol(int c) const { double s = 0; loop(c, [&](const int p[3]) { double x = m[c][at(p)]; s += weight(c, p) * x * x; }); return q.eps0 * sqrt(s / ((double)n[0] * n[1] * n[2])); }
  double alphadt() const { double w = 0; for (int a = 0; a < 3; a++) w += rd(a) * rd(a); return w > 0 ? 0.3888889 / w : 0; }
  double drive(const MatDef &D, int a) const { double al = alpha(D, a); if ((float)exp(-(float)al) == 0) return 0; return al == 0 ? 1. / D.eps[a] : -expm1(-al) / (al * D.eps[a]); }
  void clean_div_e() {
    nops++;
    for (int a = 0; a < 3; a++) { double pa = alphadt() * rd(a);
      loop(C_E + a, [&](const int p[3]) { int pp[3] = {p[0], p[1], p[2]}; pp[a]++; size_t i = at(p), j = at(pp); double d = drive(mats[mat[MT_E + a][i]], a);
        v[C_E + a][i] += d * pa * (v[C_DE][j] - v[C_DE][i]); m[C_E + a][i] += d * pa * (m[C_DE][j] + m[C_DE][i]); }); }
    adjust_tang_e();
  }
  void clean_div_b() {
    nops++;
    for (int a = 0; a < 3; a++) { double pa = alphadt() * rd(a);
      loop(C_B + a, [&](const int p[3]) {
        size_t i = at(p); double hi_ = 0, lo_ = 0, mh, ml;
        int pm[3] = {p[0], p[1], p[2]}; pm[a]--;
        auto val = [&](const int x[3], double &M) -> double {
          if (!per[a] && (x[a] < 1 || x[a] > n[a])) { int in[3] = {x[0], x[1], x[2]}; in[a] = x[a] < 1 ? 1 : n[a]; int kind = bcf(a, x[a] < 1 ? 0 : 1); size_t k = at(in); if (kind == absorb_fields) { M = 0; return 0; } M = m[C_DB][k]; return kind == pec_fields ? v[C_DB][k] : -v[C_DB][k]; }
          size_t k = at(x); M = m[C_DB][k]; return v[C_DB][k]; };
        hi_ = val(p, mh); lo_ = val(pm, ml);
        v[C_B + a][i] += pa * (hi_ - lo_); m[C_B + a][i] += pa * (mh + ml); }); }
    adjust_norm_b();
  }
  double energy(int k) const { // k 0..5
    double s = 0; int c = k < 3 ? C_E + k : C_B + k - 3;
    loop(c, [&](const int p[3]) { size_t i = at(p); const MatDef &D = mats[k < 3 ? mat[MT_E + k][i] : mat[MT_F + k - 3][i]]; double x = v[c][i]; s += weight(c, p) * x * x * (k < 3 ? (double)D.eps[k] : 1.0 / D.mu[k - 3]); });
    return 0.5 * q.eps0 * s * h[0] * h[1] * h[2];
  }
};

// geometry suited for field operations: no axis split into single-cell domains (the code documents that as unsupported)
static inline void field_geo_fix(Geo &q) { for (int a = 0; a < 3; a++) if (q.gp[a] > 1 && q.gn[a] == q.gp[a]) { double h = q.d(a); q.gn[a] *= 2; q.hi[a] = q.lo[a] + h * q.gn[a]; } }

static inline std::vector<MatDef> gen_mats(pbt::Ctx &c, const Geo &q, int maxm, bool sigma) {
  int nm = 1 + (int)c.draw(maxm - 1); std::vector<MatDef> r; bool plain = c.flag(0.25);
  for (int i = 0; i < nm; i++) {
    MatDef d; int style = c.pickw({2, 2, 1});
    for (int a = 0; a < 3; a++) { d.eps[a] = style == 0 || plain ? 1 : (float)c.logreal(0.5, 6); d.mu[a] = style != 2 || plain ? 1 : (float)c.logreal(0.5, 4); d.sig[a] = 0; }
    if (sigma && i && c.flag(0.5)) { int w = c.irange(0, 4); for (int a = 0; a < 3; a++) { double al = w == 0 ? 1e-3 : w == 1 ? 0.3 : w == 2 ? 5 : w == 3 ? 300 : 2e-7; if (c.flag(0.2)) continue; d.sig[a] = (float)(al * d.eps[a] * q.eps0 / q.dt); } }
    if (i && c.flag(0.1)) { d = r[0]; }
    r.push_back(d);
  }
  if (sigma && nm == 1 && c.flag(0.3)) { for (int a = 0; a < 3; a++) r[0].sig[a] = (float)(c.logreal(1e-3, 3) * r[0].eps[a] * q.eps0 / q.dt); }
  return r;
}
static inline material_t *build_mats(const std::vector<MatDef> &m) {
  material_t *l = NULL; char nm[20];
  for (size_t i = 0; i < m.size(); i++) { sprintf(nm, "m%d", (int)i); append_material(material(nm, m[i].eps[0], m[i].eps[1], m[i].eps[2], m[i].mu[0], m[i].mu[1], m[i].mu[2], m[i].sig[0], m[i].sig[1], m[i].sig[2], 0, 0, 0), &l); }
  return l;
}

struct LocalMap {
  int off[3];
  LocalMap(const Geo &q) { int ix[3]; q.rank_index(pbt::rank(), ix); for (int a = 0; a < 3; a++) off[a] = ix[a] * q.ln(a); }
};

// fills the reference with random values (scale per component) and copies them into the local field array. Ghosts that
// belong to a neighbour get garbage, ghosts at a wall their global value.
struct FieldFill { double scale[NCOMP]; uint64_t seed; uint64_t mseed; int mstyle; bool zero_wall; FieldFill() { for (int c = 0; c < NCOMP; c++) scale[c] = 1; seed = 1; mseed = 2; mstyle = 0; zero_wall = false; } };
static inline int mat_of(const FieldFill &F, int nm, int kind, int x, int y, int z) {
  if (nm == 1) return 0;
  if (F.mstyle == 0) return (int)(hpoint(F.mseed, 100 + kind, x, y, z) % nm);
  if (F.mstyle == 1) return (int)(hpoint(F.mseed, 100, x / 2, y / 2, z / 2) % nm);
  return x <= 2 ? 1 % nm : 0;
}
static inline void fill_fields(RefField &R, field_array_t *fa, const FieldFill &F, bool single_material) {
  int p[3]; grid_t *g = fa->g;
  for (p[2] = 0; p[2] <= R.n[2] + 1; p[2]++) for (p[1] = 0; p[1] <= R.n[1] + 1; p[1]++) for (p[0] = 0; p[0] <= R.n[0] + 1; p[0]++) {
    bool ok = true; for (int a = 0; a < 3; a++) if (R.per[a] && (p[a] < 1 || p[a] > R.n[a])) ok = false;
    if (!ok) continue;
    size_t i = R.at(p);
    for (int c = 0; c < NCOMP; c++) { float x = (float)(F.scale[c] * hunit(F.seed, c, p[0], p[1], p[2])); R.v[c][i] = x; R.m[c][i] = fabs(x); }
    for (int k = 0; k < 8; k++) R.mat[k][i] = single_material ? 0 : mat_of(F, (int)R.mats.size(), k, p[0], p[1], p[2]);
  }
  LocalMap L(R.q);
  for (int z = 0; z <= g->nz + 1; z++) for (int y = 0; y <= g->ny + 1; y++) for (int x = 0; x <= g->nx + 1; x++) {
    field_t &f = fa->f[vox(g, x, y, z)]; int l[3] = {x, y, z}, ln[3] = {g->nx, g->ny, g->nz}, G[3] = {x + L.off[0], y + L.off[1], z + L.off[2]}; size_t i = R.at(G);
    for (int c = 0; c < NCOMP; c++) {
      bool ghost = false, wallg = true;
      for (int a = 0; a < 3; a++) { bool gh = l[a] == 0 || (half_along(c, a) && l[a] == ln[a] + 1); if (gh) { ghost = true; if (R.per[a] || (G[a] != 0 && G[a] != R.n[a] + 1)) wallg = false; } }
      fcomp(f, c) = ghost && !wallg ? (float)(F.scale[c] * 1.7 * hunit(F.seed + 99 + pbt::rank(), c, x, y, z)) : (float)R.v[c][i];
    }
    for (int k = 0; k < 8; k++) fmatid(f, k) = (material_id)R.mat[k][i];
  }
}
// compares component c of every owned point
static inline bool cmp_comp(pbt::Ctx &cx, const RefField &R, field_array_t *fa, int c, double eps, const char *what) {
  grid_t *g = fa->g; LocalMap L(R.q); int ln[3] = {g->nx, g->ny, g->nz}, p[3];
  for (p[2] = 1; p[2] <= ln[2] + !half_along(c, 2); p[2]++) for (p[1] = 1; p[1] <= ln[1] + !half_along(c, 1); p[1]++) for (p[0] = 1; p[0] <= ln[0] + !half_along(c, 0); p[0]++) {
    int G[3] = {p[0] + L.off[0], p[1] + L.off[1], p[2] + L.off[2]}; size_t i = R.at(G);
    float x = fcomp(fa->f[vox(g, p[0], p[1], p[2])], c);
    double tol = eps * R.m[c][i] + 1e-36;
    if (!(fabs(x - R.v[c][i]) <= tol)) { cx.fail(what, "%s: %s at local (%d,%d,%d) global (%d,%d,%d): %.9g, reference %.9g (tolerance %.3g)", what, comp_name[c], p[0], p[1], p[2], G[0], G[1], G[2], x, R.v[c][i], tol); return false; }
  }
  return true;
}
#endif

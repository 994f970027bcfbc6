// C11: shared mesh points agree after synchronisation; ghosts equal the neighbour's interior values.
#include "fieldref.h"
#define IN_sfa
#include "field_advance/standard/sfa_private.h"
const char *pbt_check_name = "C11";
void pbt_setup() {}
void pbt_teardown() {}

struct Copies { std::vector<double> sum, mn, mx, mag; std::vector<int> cnt; std::vector<char> perturbed; };
static Geo Q; static RefField *RR;
static uint64_t S1, S2; static double pert; static int pert_mode, pert_comp;

static void off_of(int r, int off[3]) { int ix[3]; Q.rank_index(r, ix); for (int a = 0; a < 3; a++) off[a] = ix[a] * Q.ln(a); }
// value of the copy held by rank r at local point p of component c
static float copy_val(int c, int r, const int p[3]) {
  int off[3]; off_of(r, off); int G[3], W[3]; for (int a = 0; a < 3; a++) { G[a] = p[a] + off[a]; W[a] = RR->wrap(a, G[a]); }
  float base = (float)hunit(S1, c, W[0], W[1], W[2]);
  if (pert_mode == 0) return base;                                              // all copies agree
  uint64_t h = hpoint(S2 + r * 131, c, p[0], p[1], p[2]);
  if (pert_mode == 1) return (float)(base + pert * ((double)(h >> 11) / 4503599627370496.0 - 1)); // every copy differs
  // sparse: few copies differ, maybe of one component only
  if (pert_comp >= 0 && c != pert_comp) return base;
  return h % 13 == 0 ? (float)(base + pert * (1 + (h >> 40) % 3)) : base;
}
enum Kind { AVG_E, AVG_B, SUM_J, SUM_RHOF, AVG_RHOB };
static double wallfac(int c, const int W[3], Kind k) {
  double f = 1;
  for (int a = 0; a < 3; a++) {
    if (Q.fbc[a] == PERIODIC || half_along(c, a)) continue;
    int s = W[a] == 1 ? 0 : W[a] == Q.gn[a] + 1 ? 1 : -1; if (s < 0) continue;
    int b = Q.fbc[a + 3 * s];
    if (k == AVG_E) { if (b == pec_fields) f = 0; }
    else if (k == AVG_B) { if (b == symmetric_fields) f = 0; }
    else if (k == AVG_RHOB) { if (b == pec_fields) f = 0; }
    else f *= b == pec_fields ? 0 : 2;
  }
  return f;
}
static void gather(int c, Kind k, Copies &C) {
  size_t N = RR->v[0].size(); C.sum.assign(N, 0); C.mag.assign(N, 0); C.cnt.assign(N, 0); C.mn.assign(N, 1e300); C.mx.assign(N, -1e300);
  int ln[3] = {Q.ln(0), Q.ln(1), Q.ln(2)}, p[3];
  for (int r = 0; r < pbt::nranks(); r++) { int off[3]; off_of(r, off);
    for (p[2] = 1; p[2] <= ln[2] + !half_along(c, 2); p[2]++) for (p[1] = 1; p[1] <= ln[1] + !half_along(c, 1); p[1]++) for (p[0] = 1; p[0] <= ln[0] + !half_along(c, 0); p[0]++) {
      int W[3]; for (int a = 0; a < 3; a++) W[a] = RR->wrap(a, p[a] + off[a]);
      size_t i = RR->at(W); double v = copy_val(c, r, p) * wallfac(c, W, k);
      C.sum[i] += v; C.mag[i] += fabs(v); C.cnt[i]++; C.mn[i] = std::min(C.mn[i], v); C.mx[i] = std::max(C.mx[i], v);
    } }
}
void pbt_case(pbt::Ctx &c) {
  GeoOpt o; o.maxn = c.flag(0.3) ? 8 : 4; o.allow_pmc = true;
  Q = gen_geo(c, o); RefField R; R.init(Q); RR = &R;
  S1 = c.draw(0xffffff); S2 = c.draw(0xffffff); pert_mode = c.pickw({1, 3, 2}); pert = c.logreal(1e-6, 2); 
  int op = (int)c.draw(4);
  std::vector<int> comps; Kind kind[NCOMP];
  if (op == 0) { for (int k = 0; k < 3; k++) { comps.push_back(C_E + k); kind[C_E + k] = AVG_E; comps.push_back(C_B + k); kind[C_B + k] = AVG_B; comps.push_back(C_T + k); kind[C_T + k] = AVG_E; } }
  else if (op == 1) for (int k = 0; k < 3; k++) { comps.push_back(C_J + k); kind[C_J + k] = SUM_J; }
  else if (op == 2) { comps.push_back(C_RHOF); kind[C_RHOF] = SUM_RHOF; comps.push_back(C_RHOB); kind[C_RHOB] = AVG_RHOB; }
  pert_comp = c.flag() && !comps.empty() ? comps[c.draw(comps.size() - 1)] : -1;
  grid_t *g = geo_grid(Q); std::vector<MatDef> md(1); for (int a = 0; a < 3; a++) md[0].eps[a] = md[0].mu[a] = 1, md[0].sig[a] = 0;
  material_t *ml = build_mats(md); field_array_t *fa = new_standard_field_array(g, ml, 0);
  for (int z = 0; z <= g->nz + 1; z++) for (int y = 0; y <= g->ny + 1; y++) for (int x = 0; x <= g->nx + 1; x++) { int p[3] = {x, y, z}; for (int k = 0; k < NCOMP; k++) fcomp(fa->f[vox(g, x, y, z)], k) = copy_val(k, pbt::rank(), p); }
  static const char *opn[] = {"synchronize_tang_e_norm_b", "synchronize_jf", "synchronize_rho", "ghosts", "ghosts"};
  c.note("%s %s copies %s (%.3g) component %d", Q.str().c_str(), opn[op], pert_mode == 0 ? "agree" : pert_mode == 1 ? "all differ" : "few differ", pert, pert_comp);
  c.label(opn[op]); if (pbt::nranks() > 1 || Q.fbc[0] == PERIODIC || Q.fbc[1] == PERIODIC || Q.fbc[2] == PERIODIC) c.nontrivial();
  std::vector<field_t> before(fa->f, fa->f + g->nv);
  int ln[3] = {g->nx, g->ny, g->nz}, off[3], p[3]; off_of(pbt::rank(), off);
  if (op <= 2) {
    for (int rep = 0; rep < 2; rep++) {
      std::vector<field_t> b4(fa->f, fa->f + g->nv);
      double err = 0;
      if (op == 0) err = fa->kernel->synchronize_tang_e_norm_b(fa); else if (op == 1) { if (rep) break; fa->kernel->synchronize_jf(fa); } else { if (rep) { for (int v = 0; v < g->nv; v++) fa->f[v].rhof = before[v].rhof; } fa->kernel->synchronize_rho(fa); }
      bool differ = false; // do copies of E or B differ after the wall adjustment?
      for (size_t q = 0; q < comps.size() && !c.failed; q++) {
        int cc = comps[q]; Copies C; gather(cc, kind[cc], C);
        for (p[2] = 1; p[2] <= ln[2] + !half_along(cc, 2); p[2]++) for (p[1] = 1; p[1] <= ln[1] + !half_along(cc, 1); p[1]++) for (p[0] = 1; p[0] <= ln[0] + !half_along(cc, 0); p[0]++) {
          int G[3] = {p[0] + off[0], p[1] + off[1], p[2] + off[2]}; size_t i = R.at(G);
          double exp = C.sum[i]; if (kind[cc] == AVG_E || kind[cc] == AVG_B || kind[cc] == AVG_RHOB) exp /= C.cnt[i];
          float x = fcomp(fa->f[vox(g, p[0], p[1], p[2])], cc); double tol = C.cnt[i] == 1 && rep == 0 && kind[cc] != SUM_J && kind[cc] != SUM_RHOF ? 0 : 6e-7 * C.mag[i];
          if (!(fabs(x - exp) <= tol)) { c.fail(rep ? "sync-again" : "sync", "%s%s: %s at local (%d,%d,%d): %.9g, the %s of its %d copies is %.9g (tolerance %.3g)", opn[op], rep ? " (repeated)" : "", comp_name[cc], p[0], p[1], p[2], x, kind[cc] == SUM_J || kind[cc] == SUM_RHOF ? "sum" : "average", C.cnt[i], exp, tol); }
        }
        if (cc < C_T) for (size_t i = 0; i < C.cnt.size(); i++) if (C.cnt[i] > 1 && C.mx[i] > C.mn[i]) differ = true;
      }
      if (op == 0) {
        if (rep == 0 && differ && !(err > 0)) c.fail("err-zero", "copies differ but the reported desynchronisation error is %g", err);
        if (rep == 0 && !differ && err != 0) c.fail("err-nonzero", "all copies agree but the reported desynchronisation error is %g", err);
        if (rep == 1 && !(err <= 1e-11)) c.fail("err-again", "desynchronisation error %g right after a synchronisation", err);
      }
      if (op == 0 && rep == 1) for (int v = 0; v < g->nv && !c.failed; v++) for (int cc = 0; cc < C_J; cc++) if (!(fabs(fcomp(fa->f[v], cc) - fcomp(b4[v], cc)) <= 6e-7 * fabs(fcomp(b4[v], cc)))) { c.fail("idempotent", "a second synchronisation changed %s of voxel %d from %g to %g", comp_name[cc], v, fcomp(b4[v], cc), fcomp(fa->f[v], cc)); break; }
      // components the operation does not own
      for (int v = 0; v < g->nv && !c.failed; v++) for (int cc = 0; cc < NCOMP; cc++) if (std::find(comps.begin(), comps.end(), cc) == comps.end() && fcomp(fa->f[v], cc) != fcomp(b4[v], cc)) { c.fail("side-effect", "%s changed %s of voxel %d", opn[op], comp_name[cc], v); break; }
      if (pbt::any_rank(c.failed)) break;
    }
    // bit-identical copies on the two sides of every shared plane follow from the value check up to rounding; desynchronisation of the
    // field copies is checked exactly by the second call above
  } else {
    begin_remote_ghost_tang_b(fa->f, g); end_remote_ghost_tang_b(fa->f, g);
    begin_remote_ghost_norm_e(fa->f, g); end_remote_ghost_norm_e(fa->f, g);
    begin_remote_ghost_div_b(fa->f, g); end_remote_ghost_div_b(fa->f, g);
    int me[3]; Q.rank_index(pbt::rank(), me);
    for (int a = 0; a < 3 && !c.failed; a++) for (int s = 0; s < 2; s++) {
      bool wall = Q.fbc[a] != PERIODIC && me[a] == (s ? Q.gp[a] - 1 : 0);
      int nb[3] = {me[0], me[1], me[2]}; nb[a] = (nb[a] + (s ? 1 : -1) + Q.gp[a]) % Q.gp[a]; int nr = nb[0] + Q.gp[0] * (nb[1] + Q.gp[1] * nb[2]);
      std::vector<int> cs; cs.push_back(C_B + (a + 1) % 3); cs.push_back(C_B + (a + 2) % 3); cs.push_back(C_E + a); cs.push_back(C_DB);
      for (size_t q = 0; q < cs.size(); q++) {
        int cc = cs[q], b = (a + 1) % 3, d = (a + 2) % 3; p[a] = s ? ln[a] + 1 : 0;
        for (p[d] = 1; p[d] <= ln[d] + !half_along(cc, d); p[d]++) for (p[b] = 1; p[b] <= ln[b] + !half_along(cc, b); p[b]++) {
          int pn[3] = {p[0], p[1], p[2]}; pn[a] = s ? 1 : ln[a]; float x = fcomp(fa->f[vox(g, p[0], p[1], p[2])], cc), e = wall ? fcomp(before[vox(g, p[0], p[1], p[2])], cc) : copy_val(cc, nr, pn);
          if (!(x == e)) c.fail("ghost", "%s ghost (%d,%d,%d) is %.9g, %s %.9g", comp_name[cc], p[0], p[1], p[2], x, wall ? "wall ghost was" : "the neighbour holds", e);
        }
      }
    }
    // nothing but ghosts changes
    for (int cc = 0; cc < NCOMP && !c.failed; cc++) for (p[2] = 1; p[2] <= ln[2] + !half_along(cc, 2); p[2]++) for (p[1] = 1; p[1] <= ln[1] + !half_along(cc, 1); p[1]++) for (p[0] = 1; p[0] <= ln[0] + !half_along(cc, 0); p[0]++) { int v = vox(g, p[0], p[1], p[2]); if (fcomp(fa->f[v], cc) != fcomp(before[v], cc)) { c.fail("ghost-side-effect", "ghost exchange changed %s at (%d,%d,%d)", comp_name[cc], p[0], p[1], p[2]); } }
  }
  delete_field_array(fa); delete_material_list(ml); delete_grid(g);
}

// C07: divergence errors, their RMS, the cleaning passes and the divergence behaviour of the field advance.
#include "fieldref.h"
const char *pbt_check_name = "C07";
void pbt_setup() {}
void pbt_teardown() {}

static bool rms_close(pbt::Ctx &c, const RefField &R, int comp, double got, double eps, const char *key) {
  double ref = R.rms(comp), tol = eps * R.rms_tol(comp) + 1e-36;
  if (!(fabs(got - ref) <= tol)) { c.fail(key, "reported RMS %.9g, reference %.9g (tolerance %.3g)", got, ref, tol); return false; }
  return true;
}
void pbt_case(pbt::Ctx &c) {
  GeoOpt o; o.maxn = c.flag(0.3) ? 9 : 5; o.allow_pmc = true;
  Geo q = gen_geo(c, o); field_geo_fix(q);
  RefField R; R.init(q); R.mats = gen_mats(c, q, 3, true); R.damp = c.flag(0.4) ? 0 : (float)c.real(0, 0.3);
  FieldFill F; F.seed = c.draw(0xffffff); F.mseed = c.draw(0xffffff); F.mstyle = (int)c.draw(2);
  double rs = c.flag(0.2) ? 0 : c.logreal(0.05, 5);
  F.scale[C_RHOF] = rs * q.eps0; F.scale[C_RHOB] = c.flag(0.3) ? 0 : rs * q.eps0;
  for (int k = 0; k < 3; k++) { F.scale[C_E + k] = c.flag(0.1) ? 0 : 1; F.scale[C_B + k] = c.flag(0.1) ? 0 : 1; F.scale[C_J + k] = 0.3 * q.eps0 / q.dt; }
  bool single = R.mats.size() == 1, general_of_single = single && c.flag();
  grid_t *g = geo_grid(q);
  std::vector<MatDef> md = R.mats; if (general_of_single) md.push_back(md[0]);
  material_t *ml = build_mats(md);
  field_array_t *fa = new_standard_field_array(g, ml, R.damp);
  fill_fields(R, fa, F, single);
  int ncell = q.gn[0] * q.gn[1] * q.gn[2]; bool zerod = q.gn[0] == 1 && q.gn[1] == 1 && q.gn[2] == 1;
  if (ncell > 3) c.nontrivial();
  int nop = 2 + (int)c.draw(6);
  c.note("%s%d materials%s rho scale %g pipelines %d ops", q.str().c_str(), (int)R.mats.size(), single ? (general_of_single ? " (general solver)" : " (uniform solver)") : "", rs, n_pipelines());
  bool have_de = false, have_db = false, cur_e = false, cur_b = false /* error array up to date */, wall = false; for (int f = 0; f < 6; f++) if (q.fbc[f] != PERIODIC) wall = true;
  bool uniform_iso = single && !wall && R.mats[0].eps[0] == R.mats[0].eps[1] && R.mats[0].eps[1] == R.mats[0].eps[2] && R.mats[0].eps[0] == 1 && R.mats[0].sig[0] == 0 && R.mats[0].sig[1] == 0 && R.mats[0].sig[2] == 0;
  for (int k = 0; k < nop && !c.failed; k++) {
    int op = c.pickw({3, 3, 3, 3, 1, 1, 1, 1}); const char *what = "";
    std::vector<field_t> before(fa->f, fa->f + g->nv);
    if (op == 2 && !have_de) op = 0;
    if (op == 3 && !have_db) op = 1;
    if (zerod && (op == 2 || op == 3)) c.label("single-cell-clean");
    // which components this operation may change at all
    unsigned own = 0; double eps = 1.2e-6 * (R.nops + 2);
    switch (op) {
    case 0: { what = "compute_div_e_err"; fa->kernel->compute_div_e_err(fa); R.compute_div_e_err(); own = 1u << C_DE | 7u << C_E | 7u << C_T; double r = fa->kernel->compute_rms_div_e_err(fa); have_de = cur_e = true; rms_close(c, R, C_DE, r, eps, "rms_div_e"); break; }
    case 1: { what = "compute_div_b_err"; fa->kernel->compute_div_b_err(fa); R.compute_div_b_err(); own = 1u << C_DB; double r = fa->kernel->compute_rms_div_b_err(fa); have_db = cur_b = true; rms_close(c, R, C_DB, r, eps, "rms_div_b"); break; }
    case 2: { what = "clean_div_e"; double r0 = R.rms(C_DE); fa->kernel->clean_div_e(fa); R.clean_div_e(); own = 7u << C_E | 7u << C_T;
      if (uniform_iso && cur_e && !zerod && r0 > 0) { RefField R2 = R; fa->kernel->compute_div_e_err(fa); double r1 = fa->kernel->compute_rms_div_e_err(fa); own |= 1u << C_DE; double tol = eps * R2.rms_tol(C_DE);
        R.compute_div_e_err(); if (!(r1 <= r0 + tol + eps * R.rms_tol(C_DE))) c.fail("clean_e-grows", "RMS divergence error of E grew from %.9g to %.9g in a cleaning pass", r0, r1); c.label("clean-reduces"); }
      break; }
    case 3: { what = "clean_div_b"; double r0 = R.rms(C_DB); fa->kernel->clean_div_b(fa); R.clean_div_b(); own = 7u << C_B | 1u << C_DB;
      if (!wall && cur_b && !zerod && r0 > 0) { double tol = eps * R.rms_tol(C_DB); fa->kernel->compute_div_b_err(fa); double r1 = fa->kernel->compute_rms_div_b_err(fa); R.compute_div_b_err(); if (!(r1 <= r0 + tol + eps * R.rms_tol(C_DB))) c.fail("clean_b-grows", "RMS divergence error of B grew from %.9g to %.9g in a cleaning pass", r0, r1); }
      break; }
    case 4: { what = "compute_rhob"; fa->kernel->compute_rhob(fa); R.compute_rhob(); own = 1u << C_RHOB | 7u << C_E | 7u << C_T; break; }
    case 5: { what = "clear_rhof"; fa->kernel->clear_rhof(fa); own = 1u << C_RHOF; for (size_t i = 0; i < R.v[C_RHOF].size(); i++) R.v[C_RHOF][i] = R.m[C_RHOF][i] = 0; for (int v = 0; v < g->nv; v++) if (fa->f[v].rhof != 0) { c.fail("clear_rhof", "voxel %d keeps rhof %g", v, fa->f[v].rhof); break; } break; }
    case 6: { // advance_b leaves div B unchanged
      what = "advance_b"; fa->kernel->compute_div_b_err(fa); R.compute_div_b_err(); have_db = true; std::vector<double> d0 = R.v[C_DB]; std::vector<float> g0(g->nv); for (int v = 0; v < g->nv; v++) g0[v] = fa->f[v].div_b_err;
      fa->kernel->advance_b(fa, 0.5f); R.advance_b(0.5); fa->kernel->compute_div_b_err(fa); R.compute_div_b_err(); own = 7u << C_B | 1u << C_DB;
      bool sym = false; for (int f = 0; f < 6; f++) if (q.fbc[f] == symmetric_fields) sym = true; // zeroing the normal component on a wall may change it
      if (!sym) { LocalMap L(q); for (int z = 1; z <= g->nz; z++) for (int y = 1; y <= g->ny; y++) for (int x = 1; x <= g->nx; x++) { int v = vox(g, x, y, z); double tol = 2 * eps * R.m[C_DB][R.at(x + L.off[0], y + L.off[1], z + L.off[2])] + 1e-36; if (!(fabs(fa->f[v].div_b_err - g0[v]) <= tol)) { c.fail("advance_b-div", "advance_b changed div B of cell (%d,%d,%d) from %.9g to %.9g (tolerance %.3g)", x, y, z, g0[v], fa->f[v].div_b_err, tol); } } }
      break; }
    default: { what = "advance_e"; fa->kernel->advance_e(fa, 1); R.curl_b(true); own = 7u << C_E | 7u << C_T | 7u << C_B; break; }
    }
    if (op != 0 && op != 1) { if (op != 3) cur_e = false; if (op == 3 || op == 6) cur_b = false; }
    c.note(" %s", what); c.label(what);
    for (int cc = 0; cc < NCOMP && !c.failed; cc++) if (cc != C_DE || have_de) if (cc != C_DB || have_db) cmp_comp(c, R, fa, cc, cc >= C_J && cc < C_RHOF ? 0 : 1.2e-6 * (R.nops + 2), what);
    for (int v = 0; v < g->nv && !c.failed; v++) {
      for (int cc = 0; cc < NCOMP; cc++) if (!(own >> cc & 1) && memcmp(&fcomp(fa->f[v], cc), &fcomp(before[v], cc), 4)) { int x, y, z; unvox(g, v, x, y, z); c.fail("side-effect", "%s changed %s of voxel (%d,%d,%d): %g -> %g", what, comp_name[cc], x, y, z, fcomp(before[v], cc), fcomp(fa->f[v], cc)); break; }
      for (int kk = 0; kk < 8; kk++) if (fmatid(fa->f[v], kk) != fmatid(before[v], kk)) { c.fail("side-effect", "%s changed a material id of voxel %d", what, v); break; }
    }
    if (pbt::any_rank(c.failed)) break;
  }
  delete_field_array(fa); delete_material_list(ml); delete_grid(g);
}

// C06: advance_b / advance_e / compute_curl_b equal a double-precision Yee reference with materials and walls.
#include "fieldref.h"
const char *pbt_check_name = "C06";
void pbt_setup() {}
void pbt_teardown() {}

void pbt_case(pbt::Ctx &c) {
  GeoOpt o; o.maxn = c.flag(0.3) ? 9 : 5; o.allow_pmc = true; o.courant_lo = 0.2; o.courant_hi = 0.99;
  Geo q = gen_geo(c, o); field_geo_fix(q);
  RefField R; R.init(q); R.mats = gen_mats(c, q, 4, true); R.damp = c.flag(0.4) ? 0 : (float)c.real(0, 0.4);
  FieldFill F; F.seed = c.draw(0xffffff); F.mseed = c.draw(0xffffff); F.mstyle = (int)c.draw(2);
  double jn = c.flag(0.3) ? 0 : c.logreal(1e-3, 10) * q.eps0 / q.dt;
  for (int k = 0; k < 3; k++) { F.scale[C_J + k] = jn; F.scale[C_E + k] = c.flag(0.1) ? 0 : 1; F.scale[C_B + k] = c.flag(0.1) ? 0 : 1; F.scale[C_T + k] = 0.3; }
  bool single = R.mats.size() == 1, general_of_single = single && c.flag();
  grid_t *g = geo_grid(q);
  // the general solver is selected by registering a second, unused material
  std::vector<MatDef> md = R.mats; if (general_of_single) md.push_back(md[0]);
  material_t *ml = build_mats(md);
  field_array_t *fa = new_standard_field_array(g, ml, R.damp);
  fill_fields(R, fa, F, single);
  std::string ops; int nop = 1 + (int)c.draw(5);
  c.note("%s%d materials%s damp %g jscale %.3g pipelines %d ops", q.str().c_str(), (int)R.mats.size(), single ? (general_of_single ? " (general solver)" : " (uniform solver)") : "", R.damp, jn, n_pipelines());
  c.label(single && !general_of_single ? "uniform-solver" : "general-solver");
  for (int a = 0; a < 3; a++) for (int s = 0; s < 2; s++) c.label(q.fbc[a + 3 * s] == PERIODIC ? "periodic" : q.fbc[a + 3 * s] == pec_fields ? "pec" : q.fbc[a + 3 * s] == pmc_fields ? "pmc" : q.fbc[a + 3 * s] == symmetric_fields ? "symmetric" : "absorbing");
  int ncell = q.gn[0] * q.gn[1] * q.gn[2]; if (ncell > 3) c.nontrivial();
  for (int k = 0; k < nop && !c.failed; k++) {
    int op = c.pickw({3, 4, 1}); const char *what;
    std::vector<field_t> before(fa->f, fa->f + g->nv);
    if (op == 0) { float fr = c.pick(std::vector<float>{0.5f, 1.f, 0.25f}); fa->kernel->advance_b(fa, fr); R.advance_b(fr); what = "advance_b"; }
    else if (op == 1) { fa->kernel->advance_e(fa, 1); R.curl_b(true); what = "advance_e"; }
    else { fa->kernel->compute_curl_b(fa); R.curl_b(false); what = "compute_curl_b"; }
    c.note(" %s", what);
    // E and curl values feed each other, so each step may add rounding to everything
    double eps = 8e-7 * (R.nops + 1);
    for (int cc = 0; cc < 9 && !c.failed; cc++) cmp_comp(c, R, fa, cc, eps, what);
    // untouched quantities
    for (int v = 0; v < g->nv && !c.failed; v++) {
      for (int cc = C_J; cc < NCOMP; cc++) if (memcmp(&fcomp(fa->f[v], cc), &fcomp(before[v], cc), 4)) { c.fail("side-effect", "%s changed %s of voxel %d", what, comp_name[cc], v); break; }
      for (int kk = 0; kk < 8; kk++) if (fmatid(fa->f[v], kk) != fmatid(before[v], kk)) { c.fail("side-effect", "%s changed a material id of voxel %d", what, v); break; }
    }
    if (pbt::any_rank(c.failed)) break;
  }
  delete_field_array(fa); delete_material_list(ml); delete_grid(g);
}

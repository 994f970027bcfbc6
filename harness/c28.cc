// C28: the six field energies equal a double-precision volume integral.
#include "fieldref.h"
const char *pbt_check_name = "C28";
void pbt_setup() {}
void pbt_teardown() {}
void pbt_case(pbt::Ctx &c) {
  GeoOpt o; o.maxn = c.flag(0.3) ? 10 : 5; o.allow_pmc = true;
  Geo q = gen_geo(c, o); 
  RefField R; R.init(q); R.mats = gen_mats(c, q, 4, true);
  FieldFill F; F.seed = c.draw(0xffffff); F.mseed = c.draw(0xffffff); F.mstyle = (int)c.draw(2);
  for (int k = 0; k < 6; k++) F.scale[k] = c.flag(0.1) ? 0 : c.logreal(1e-3, 1e3);
  bool single = R.mats.size() == 1, general_of_single = single && c.flag();
  grid_t *g = geo_grid(q);
  std::vector<MatDef> md = R.mats; if (general_of_single) md.push_back(md[0]);
  material_t *ml = build_mats(md);
  field_array_t *fa = new_standard_field_array(g, ml, 0);
  fill_fields(R, fa, F, single);
  c.note("%s%d materials%s scales %g %g %g %g %g %g pipelines %d", q.str().c_str(), (int)R.mats.size(), single ? (general_of_single ? " (general)" : " (uniform)") : "", F.scale[0], F.scale[1], F.scale[2], F.scale[3], F.scale[4], F.scale[5], n_pipelines());
  c.label(single && !general_of_single ? "uniform" : "general");
  if (q.gn[0] * q.gn[1] * q.gn[2] > 3) c.nontrivial();
  std::vector<field_t> before(fa->f, fa->f + g->nv);
  double en[6] = {-1, -1, -1, -1, -1, -1};
  fa->kernel->energy_f(en, fa);
  for (int k = 0; k < 6; k++) { double ref = R.energy(k); if (!(fabs(en[k] - ref) <= 2e-6 * ref + 1e-36)) { c.fail("energy", "%s energy %.9g, reference %.9g", comp_name[k], en[k], ref); break; } }
  if (memcmp(&before[0], fa->f, g->nv * sizeof(field_t))) c.fail("side-effect", "energy_f modified the fields");
  delete_field_array(fa); delete_material_list(ml); delete_grid(g);
}

// C08: interpolation of mesh fields to cells, current gathering over pipelines and unloading to the mesh.
#include "common.h"
const char *pbt_check_name = "C08";
static material_t *mats = NULL;
void pbt_setup() {}
void pbt_teardown() {}
static bool close(double a, double b, double s) { return fabs(a - b) <= 1e-6 * s + 1e-30; }

void pbt_case(pbt::Ctx &c) {
  GeoOpt o; o.maxn = 7;
  Geo q = gen_geo(c, o);
  int sparse = (int)c.draw(3);
  pbt::SplitMix r = c.bulk();
  grid_t *g = geo_grid(q);
  material_t *ml = NULL; simple_vacuum(&ml);
  field_array_t *fa = new_standard_field_array(g, ml, 0);
  interpolator_array_t *ia = new_interpolator_array(g);
  accumulator_array_t *aa = new_accumulator_array(g);
  c.note("%spipelines %d accumulators %d sparse %d", q.str().c_str(), n_pipelines(), aa->n_pipeline, sparse);
  if (g->nx * g->ny * g->nz > 3) c.nontrivial();
  double fs = pow(10., r.real(-3, 3));
  std::vector<field_t> f0(g->nv);
  for (int v = 0; v < g->nv; v++) {
    field_t &f = fa->f[v]; float *p = (float *)&f;
    for (int k = 0; k < 16; k++) p[k] = (float)(fs * r.normal() * (sparse == 1 && r.flag(0.8) ? 0 : 1));
    f0[v] = f;
  }
  load_interpolator_array(ia, fa);
  for (int z = 1; z <= g->nz && !c.failed; z++) for (int y = 1; y <= g->ny && !c.failed; y++) for (int x = 1; x <= g->nx && !c.failed; x++) {
    int v = vox(g, x, y, z); const interpolator_t &I = ia->i[v];
#define F(dx, dy, dz) f0[vox(g, x + dx, y + dy, z + dz)]
    double s = 8 * fs;
    for (int j = 0; j < 2; j++) for (int k = 0; k < 2; k++) {
      double p = 2 * j - 1, t = 2 * k - 1, e[3], b[3];
      interp_eb(I, 0, p, t, e, b);
      if (!close(e[0], F(0, j, k).ex, s)) c.fail("ex", "cell %d,%d,%d: Ex at y-edge %d z-edge %d interpolates to %.8g, mesh has %.8g", x, y, z, j, k, e[0], F(0, j, k).ex);
      interp_eb(I, t, 0, p, e, b);
      if (!close(e[1], F(k, 0, j).ey, s)) c.fail("ey", "cell %d,%d,%d: Ey at z-edge %d x-edge %d interpolates to %.8g, mesh has %.8g", x, y, z, j, k, e[1], F(k, 0, j).ey);
      interp_eb(I, p, t, 0, e, b);
      if (!close(e[2], F(j, k, 0).ez, s)) c.fail("ez", "cell %d,%d,%d: Ez at x-edge %d y-edge %d interpolates to %.8g, mesh has %.8g", x, y, z, j, k, e[2], F(j, k, 0).ez);
    }
    for (int j = 0; j < 2; j++) {
      double p = 2 * j - 1, e[3], b[3]; interp_eb(I, p, p, p, e, b);
      if (!close(b[0], F(j, 0, 0).cbx, s)) c.fail("bx", "cell %d,%d,%d: Bx at face %d is %.8g, mesh has %.8g", x, y, z, j, b[0], F(j, 0, 0).cbx);
      if (!close(b[1], F(0, j, 0).cby, s)) c.fail("by", "cell %d,%d,%d: By at face %d is %.8g, mesh has %.8g", x, y, z, j, b[1], F(0, j, 0).cby);
      if (!close(b[2], F(0, 0, j).cbz, s)) c.fail("bz", "cell %d,%d,%d: Bz at face %d is %.8g, mesh has %.8g", x, y, z, j, b[2], F(0, 0, j).cbz);
    }
  }
  for (int v = 0; v < g->nv; v++) if (memcmp(&fa->f[v], &f0[v], 64)) { c.fail("load-side-effect", "loading the interpolators changed the fields of voxel %d", v); break; }
  // accumulators
  int nsub = n_pipelines() + 1; // those a run can write into
  // (particles only ever deposit in interior cells)
  for (int a = 0; a < nsub; a++) for (int z = 1; z <= g->nz; z++) for (int y = 1; y <= g->ny; y++) for (int x = 1; x <= g->nx; x++) { float *p = (float *)&aa->a[a * aa->stride + vox(g, x, y, z)]; for (int j = 0; j < 12; j++) p[j] = 7.5f; }
  clear_accumulator_array(aa);
  for (int a = 0; a < nsub && !c.failed; a++) for (int v = 0; v < g->nv; v++) {
    const float *p = (float *)&aa->a[a * aa->stride + v];
    for (int j = 0; j < 12; j++) if (p[j] != 0) { c.fail("clear", "accumulator %d of %d voxel %d entry %d not cleared", a, nsub, v, j); v = g->nv; break; }
  }
  std::vector<double> sum(12 * g->nv, 0.), mag(12 * g->nv, 0.);
  double as = pow(10., r.real(-2, 2));
  int onlypipe = sparse == 2 ? r.irange(0, nsub - 1) : -1;
  for (int a = 0; a < nsub; a++) for (int z = 1; z <= g->nz; z++) for (int y = 1; y <= g->ny; y++) for (int x = 1; x <= g->nx; x++) {
    int v = vox(g, x, y, z); float *p = (float *)&aa->a[a * aa->stride + v];
    for (int j = 0; j < 12; j++) {
      float t = (float)(as * r.normal()); if (onlypipe >= 0 && a != onlypipe) t = 0; if (sparse == 3 && r.flag(0.9)) t = 0;
      p[j] = t; sum[12 * v + j] += t; mag[12 * v + j] += fabs(t);
    }
  }
  reduce_accumulator_array(aa);
  for (int v = 0; v < g->nv && !c.failed; v++) for (int j = 0; j < 12; j++) if (!close(((const float *)&aa->a[v])[j], sum[12 * v + j], mag[12 * v + j])) {
    c.fail("reduce", "voxel %d entry %d: merged %.8g, expected %.8g over %d buffers (nv %d)", v, j, ((const float *)&aa->a[v])[j], sum[12 * v + j], nsub, g->nv); break; }
  unload_accumulator_array(fa, aa);
  double cx = 0.25 / (q.d(1) * q.d(2) * q.dt), cy = 0.25 / (q.d(2) * q.d(0) * q.dt), cz = 0.25 / (q.d(0) * q.d(1) * q.dt);
#define A(dx, dy, dz, j) sum[12 * vox(g, x + dx, y + dy, z + dz) + j]
#define M(dx, dy, dz, j) mag[12 * vox(g, x + dx, y + dy, z + dz) + j]
  for (int z = 1; z <= g->nz + 1 && !c.failed; z++) for (int y = 1; y <= g->ny + 1 && !c.failed; y++) for (int x = 1; x <= g->nx + 1 && !c.failed; x++) {
    int v = vox(g, x, y, z);
    double jx = f0[v].jfx + cx * (A(0, 0, 0, 0) + A(0, -1, 0, 1) + A(0, 0, -1, 2) + A(0, -1, -1, 3));
    double jy = f0[v].jfy + cy * (A(0, 0, 0, 4) + A(0, 0, -1, 5) + A(-1, 0, 0, 6) + A(-1, 0, -1, 7));
    double jz = f0[v].jfz + cz * (A(0, 0, 0, 8) + A(-1, 0, 0, 9) + A(0, -1, 0, 10) + A(-1, -1, 0, 11));
    double mx = fabs(f0[v].jfx) + cx * (M(0, 0, 0, 0) + M(0, -1, 0, 1) + M(0, 0, -1, 2) + M(0, -1, -1, 3));
    double my = fabs(f0[v].jfy) + cy * (M(0, 0, 0, 4) + M(0, 0, -1, 5) + M(-1, 0, 0, 6) + M(-1, 0, -1, 7));
    double mz = fabs(f0[v].jfz) + cz * (M(0, 0, 0, 8) + M(-1, 0, 0, 9) + M(0, -1, 0, 10) + M(-1, -1, 0, 11));
    if (!close(fa->f[v].jfx, jx, 2 * mx)) c.fail("unload-x", "jx at %d,%d,%d is %.8g, expected %.8g", x, y, z, fa->f[v].jfx, jx);
    if (!close(fa->f[v].jfy, jy, 2 * my)) c.fail("unload-y", "jy at %d,%d,%d is %.8g, expected %.8g", x, y, z, fa->f[v].jfy, jy);
    if (!close(fa->f[v].jfz, jz, 2 * mz)) c.fail("unload-z", "jz at %d,%d,%d is %.8g, expected %.8g", x, y, z, fa->f[v].jfz, jz);
    const float *n = (const float *)&fa->f[v], *ol = (const float *)&f0[v];
    for (int k = 0; k < 16; k++) if ((k < 12 || k == 15) && n[k] != ol[k]) c.fail("unload-side-effect", "unloading changed component %d of voxel %d", k, v);
  }
  delete_accumulator_array(aa); delete_interpolator_array(ia); delete_field_array(fa); delete_material_list(ml); delete_grid(g);
}

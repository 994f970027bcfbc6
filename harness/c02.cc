// C02: one particle advance == double-precision Boris leapfrog, for any list length and vector build.
#include "common.h"
const char *pbt_check_name = "C02";
static material_t *mats; 
void pbt_setup() {}
void pbt_teardown() {}

void pbt_case(pbt::Ctx &c) {
  GeoOpt o; o.allow_walls = false; o.maxn = 5;
  Geo q = gen_geo(c, o);
  float qsp = (c.flag() ? -1 : 1) * (float)c.logreal(0.1, 10), m = (float)c.logreal(0.1, 10);
  if (c.flag(0.3)) { qsp = -1; m = 1; }
  // list length: all remainders modulo the vector widths, some longer
  int np = c.flag(0.25) ? (int)c.draw(300) : (int)c.draw(40);
  double rot = c.logreal(1e-3, 1.2);   // typical half rotation angle at rest: k*|cB|
  double kick = c.logreal(1e-3, 3);    // typical half kick
  double us = c.logreal(1e-3, 20);     // momentum scale
  bool eonly = c.flag(0.1), bonly = c.flag(0.1);
  pbt::SplitMix r = c.bulk();
  grid_t *g = geo_grid(q);
  double kap = (double)qsp * q.dt / (2.0 * m * q.cvac);
  interpolator_array_t *ia = new_interpolator_array(g);
  accumulator_array_t *aa = new_accumulator_array(g);
  clear_accumulator_array(aa);
  for (int v = 0; v < g->nv; v++) {
    float *f = (float *)&ia->i[v];
    for (int k = 0; k < 18; k++) {
      double s = k < 12 ? kick / fabs(kap) : rot / fabs(kap);
      if (k < 12 && bonly) s = 0;
      if (k >= 12 && eonly) s = 0;
      if (k < 12 && k % 4) s *= 0.5;
      if (k >= 12 && k % 2) s *= 0.5;
      f[k] = (float)(s * 0.5 * r.normal());
    }
  }
  int P = n_pipelines();
  species_t *sp = species("s", qsp, m, np + 40, 2 * (np + 16 * (P + 2)) + 64, 0, 0, g);
  struct Ref { double pos[3]; double u[3]; double ftol; };
  std::vector<Ref> ref(np);
  std::vector<particle_t> before(np);
  int fast = 0, wrapd = 0;
  for (int k = 0; k < np; k++) {
    particle_t &p = sp->p[k];
    int cx[3] = {1 + r.irange(0, g->nx - 1), 1 + r.irange(0, g->ny - 1), 1 + r.irange(0, g->nz - 1)};
    p.i = vox(g, cx[0], cx[1], cx[2]);
    float *of = &p.dx;
    for (int a = 0; a < 3; a++) of[a] = gen_off(r);
    p.ux = gen_u(r, us); p.uy = gen_u(r, us); p.uz = gen_u(r, us); p.w = (float)r.real(0.1, 2);
    before[k] = p;
    double e[3], b[3], u[3] = {p.ux, p.uy, p.uz};
    interp_eb(ia->i[p.i], p.dx, p.dy, p.dz, e, b);
    double sc = 0; for (int a = 0; a < 3; a++) sc += fabs(u[a]) + 2 * fabs(kap * e[a]);
    boris_push(u, e, b, kap);
    double gam = gamma_of(u);
    Ref &R = ref[k];
    // error scale: rounding of the fields (sum of magnitudes of the terms) enters the kick
    const interpolator_t &f = ia->i[p.i];
    double mag = fabs(f.ex) + fabs(f.dexdy) + fabs(f.dexdz) + fabs(f.d2exdydz) + fabs(f.ey) + fabs(f.deydz) + fabs(f.deydx) + fabs(f.d2eydzdx) + fabs(f.ez) + fabs(f.dezdx) + fabs(f.dezdy) + fabs(f.d2ezdxdy);
    double bm = fabs(f.cbx) + fabs(f.dcbxdx) + fabs(f.cby) + fabs(f.dcbydy) + fabs(f.cbz) + fabs(f.dcbzdz);
    double th = fabs(kap) * bm; 
    R.ftol = sc * (1 + 8 * th + 8 * th * th) + 2 * fabs(kap) * mag;
    for (int a = 0; a < 3; a++) {
      double disp = u[a] / gam * q.cvac * q.dt / q.d(a); // in cells
      if (fabs(disp) > 0.3) fast++;
      R.u[a] = u[a];
      R.pos[a] = cx[a] - 1 + 0.5 * (1 + (double)of[a]) + disp;
      if (R.pos[a] < 0 || R.pos[a] > q.gn[a]) wrapd++;
    }
  }
  sp->np = np;
  c.note("%sq %g m %g np %d rot %.3g kick %.3g uscale %.3g pipelines %d; ", q.str().c_str(), qsp, m, np, rot, kick, us, P);
  if (np) c.note("p0 cell %d off %g %g %g u %g %g %g", before[0].i, before[0].dx, before[0].dy, before[0].dz, before[0].ux, before[0].uy, before[0].uz);
  advance_p(sp, aa, ia);
  if (sp->np != np) c.fail("count", "particle count changed from %d to %d", np, sp->np);
  if (sp->nm != 0) c.fail("movers", "%d movers left in a periodic domain", sp->nm);
  if (np >= 5 && fast && rot > 0.01) c.nontrivial();
  c.label(std::string("np%16=") + (np % 16 == 0 ? "0" : np % 4 == 0 ? "mult4" : "odd"));
  if (wrapd) c.label("wrapped");
  if (sp->np == np) for (int k = 0; k < np && !c.failed; k++) {
    const particle_t &p = sp->p[k]; const Ref &R = ref[k];
    if (p.w != before[k].w) { c.fail("weight", "particle %d weight %g became %g", k, before[k].w, p.w); break; }
    int x, y, z; 
    if (p.i < 0 || p.i >= g->nv) { c.fail("cell", "particle %d of %d in invalid cell %d", k, np, p.i); break; }
    unvox(g, p.i, x, y, z);
    if (x < 1 || x > g->nx || y < 1 || y > g->ny || z < 1 || z > g->nz) { c.fail("cell", "particle %d of %d in ghost cell %d,%d,%d", k, np, x, y, z); break; }
    double utol = 6e-6 * R.ftol + 1e-9;
    const float u[3] = {p.ux, p.uy, p.uz}, of[3] = {p.dx, p.dy, p.dz}; int xx[3] = {x, y, z};
    double gam = gamma_of(R.u);
    for (int a = 0; a < 3; a++) {
      if (!(fabs(u[a] - R.u[a]) <= utol)) { c.fail("momentum", "particle %d of %d component %d: u %.9g expected %.9g (diff %.3g, tol %.3g)", k, np, a, u[a], R.u[a], u[a] - R.u[a], utol); break; }
      if (!(of[a] >= -1 && of[a] <= 1)) { c.fail("offset", "particle %d offset %.9g outside the cell", k, of[a]); break; }
      double pos = xx[a] - 1 + 0.5 * (1 + (double)of[a]), d = pos - R.pos[a];
      d -= q.gn[a] * floor(d / q.gn[a] + 0.5);
      double ptol = 3e-6 + 2 * utol / gam * q.cvac * q.dt / q.d(a);
      if (!(fabs(d) <= ptol)) { c.fail("position", "particle %d of %d axis %d: position %.9g expected %.9g cells (mod %d), diff %.3g tol %.3g", k, np, a, pos, R.pos[a], q.gn[a], d, ptol); break; }
    }
  }
  delete_species_list(sp);
  delete_accumulator_array(aa); delete_interpolator_array(ia); delete_grid(g);
}

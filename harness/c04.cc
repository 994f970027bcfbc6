// C04: center_p == half Boris step, uncenter_p undoes it, energy_p == sum of relativistic kinetic energies.
#include "common.h"
const char *pbt_check_name = "C04";
void pbt_setup() {}
void pbt_teardown() {}

void pbt_case(pbt::Ctx &c) {
  GeoOpt o; o.allow_walls = false; o.maxn = 4;
  Geo q = gen_geo(c, o);
  float qsp = (c.flag() ? -1 : 1) * (float)c.logreal(0.1, 10), m = (float)c.logreal(0.1, 10);
  int npmax = c.flag(0.3) ? 400 : 50;
  int same_np = (int)c.draw(npmax);
  double rot = c.logreal(1e-3, 1.2), kick = c.flag(0.15) ? 0 : c.logreal(1e-4, 3), us = c.logreal(1e-6, 300);
  bool prec = c.flag(0.3); // mono-energetic at very different scales
  pbt::SplitMix r0 = c.bulk(); pbt::SplitMix r(r0.next() + 7919 * pbt::rank());
  int np = pbt::rank() ? r.irange(0, npmax) : same_np;
  grid_t *g = geo_grid(q);
  double kap = (double)qsp * q.dt / (2.0 * m * q.cvac);
  interpolator_array_t *ia = new_interpolator_array(g);
  for (int v = 0; v < g->nv; v++) {
    float *f = (float *)&ia->i[v];
    for (int k = 0; k < 18; k++) {
      double s = (k < 12 ? kick * (prec ? us : 1) : rot * (prec && us > 1 ? 1 : 1)) / fabs(kap);
      if (k < 12 && k % 4) s *= 0.5;
      if (k >= 12 && k % 2) s *= 0.5;
      f[k] = (float)(s * 0.5 * r.normal());
    }
  }
  species_t *sp = species("s", qsp, m, np + 40, 16, 0, 0, g);
  std::vector<particle_t> before(np);
  std::vector<double> ru(3 * np), tol(np);
  double en = 0, entol = 0;
  for (int k = 0; k < np; k++) {
    particle_t &p = sp->p[k];
    p.i = vox(g, 1 + r.irange(0, g->nx - 1), 1 + r.irange(0, g->ny - 1), 1 + r.irange(0, g->nz - 1));
    p.dx = gen_off(r); p.dy = gen_off(r); p.dz = gen_off(r);
    p.ux = gen_u(r, us); p.uy = gen_u(r, us); p.uz = gen_u(r, us); p.w = (float)pow(10., r.real(-2, 2));
    before[k] = p;
    const interpolator_t &f = ia->i[p.i];
    double e[3], b[3], u[3] = {p.ux, p.uy, p.uz};
    interp_eb(f, p.dx, p.dy, p.dz, e, b);
    double mag = fabs(f.ex) + fabs(f.dexdy) + fabs(f.dexdz) + fabs(f.d2exdydz) + fabs(f.ey) + fabs(f.deydz) + fabs(f.deydx) + fabs(f.d2eydzdx) + fabs(f.ez) + fabs(f.dezdx) + fabs(f.dezdy) + fabs(f.d2ezdxdy);
    double bm = fabs(f.cbx) + fabs(f.dcbxdx) + fabs(f.cby) + fabs(f.dcbydy) + fabs(f.cbz) + fabs(f.dcbzdz), th = fabs(kap) * bm;
    double sc = 0; for (int a = 0; a < 3; a++) { sc += fabs(u[a]) + fabs(kap * e[a]); u[a] += kap * e[a]; }
    sc += fabs(kap) * mag;
    double u2 = u[0] * u[0] + u[1] * u[1] + u[2] * u[2];
    double ke = (double)m * q.cvac * q.cvac * p.w * u2 / (1 + sqrt(1 + u2));
    en += ke; entol += 4e-6 * ke + (double)m * q.cvac * q.cvac * p.w * 4e-7 * sc * std::min(sqrt(u2) + 1e-6 * sc, 1.0 + 1e-6 * sc) ;
    boris_rotate(u, b, 0.5 * kap / gamma_of(u));
    for (int a = 0; a < 3; a++) ru[3 * k + a] = u[a];
    tol[k] = 4e-6 * sc * (1 + 4 * th + 4 * th * th) + 1e-30;
  }
  sp->np = np;
  c.note("%sq %g m %g np(rank0) %d rot %.3g kick %.3g uscale %.3g pipelines %d", q.str().c_str(), qsp, m, np, rot, kick, us, n_pipelines());
  if (np >= 5 && rot > 0.01 && kick > 0) c.nontrivial();
  double ltot = energy_p(sp, ia);
  double gen = pbt::sum_rank(en), gt = pbt::sum_rank(entol);
  if (!(fabs(ltot - gen) <= gt + 1e-35)) c.fail("energy", "kinetic energy %.9g, expected %.9g (tolerance %.3g)", ltot, gen, gt);
  for (int k = 0; k < np; k++) if (memcmp(&sp->p[k], &before[k], sizeof(particle_t))) { c.fail("energy-side-effect", "energy diagnostic modified particle %d", k); break; }
  center_p(sp, ia);
  if (sp->np != np) c.fail("count", "particle count changed");
  std::vector<particle_t> mid(sp->p, sp->p + np);
  for (int k = 0; k < np && !c.failed; k++) {
    const particle_t &p = sp->p[k]; const float u[3] = {p.ux, p.uy, p.uz};
    if (p.dx != before[k].dx || p.dy != before[k].dy || p.dz != before[k].dz || p.i != before[k].i || p.w != before[k].w) c.fail("center-side-effect", "centering changed position, cell or weight of particle %d of %d", k, np);
    for (int a = 0; a < 3; a++) if (!(fabs(u[a] - ru[3 * k + a]) <= tol[k])) { c.fail("center", "particle %d of %d component %d: centered momentum %.9g expected %.9g tol %.3g", k, np, a, u[a], ru[3 * k + a], tol[k]); break; }
  }
  uncenter_p(sp, ia);
  for (int k = 0; k < np && !c.failed; k++) {
    const particle_t &p = sp->p[k]; const float u[3] = {p.ux, p.uy, p.uz}, ub[3] = {before[k].ux, before[k].uy, before[k].uz};
    if (p.dx != before[k].dx || p.dy != before[k].dy || p.dz != before[k].dz || p.i != before[k].i || p.w != before[k].w) c.fail("uncenter-side-effect", "uncentering changed position, cell or weight of particle %d of %d", k, np);
    for (int a = 0; a < 3; a++) if (!(fabs(u[a] - ub[a]) <= 2 * tol[k])) { c.fail("uncenter", "particle %d of %d component %d: %.9g after center+uncenter, was %.9g (tol %.3g)", k, np, a, u[a], ub[a], 2 * tol[k]); break; }
  }
  delete_species_list(sp); delete_interpolator_array(ia); delete_grid(g);
}

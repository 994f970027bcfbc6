// C05: charge density and hydro moments equal a double-precision trilinear deposition.
#include "fieldref.h"
const char *pbt_check_name = "C05";
void pbt_setup() {}
void pbt_teardown() {}
static const char *hname[14] = {"jx", "jy", "jz", "rho", "px", "py", "pz", "ke", "txx", "tyy", "tzz", "tyz", "tzx", "txy"};

void pbt_case(pbt::Ctx &c) {
  GeoOpt o; o.maxn = c.flag(0.3) ? 7 : 4; o.allow_pmc = true;
  Geo q = gen_geo(c, o);
  RefField R; R.init(q);
  int nsp = 1 + (int)c.draw(2);
  double rot = c.logreal(1e-3, 1.2), kick = c.flag(0.15) ? 0 : c.logreal(1e-4, 3), us = c.logreal(1e-4, 30);
  int cluster = (int)c.draw(2); uint64_t fs = c.draw(0xffffff);
  grid_t *g = geo_grid(q);
  std::vector<MatDef> md(1); for (int a = 0; a < 3; a++) md[0].eps[a] = md[0].mu[a] = 1, md[0].sig[a] = 0;
  material_t *ml = build_mats(md); field_array_t *fa = new_standard_field_array(g, ml, 0);
  hydro_array_t *ha = new_hydro_array(g); interpolator_array_t *ia = new_interpolator_array(g);
  // per global cell random interpolation coefficients, as functions of the cell so all ranks know them
  std::vector<float> qs(nsp), ms(nsp); std::vector<std::vector<GP> > gp(nsp); int total = 0;
  for (int s = 0; s < nsp; s++) { qs[s] = (c.flag() ? -1 : 1) * (float)c.logreal(0.1, 10); ms[s] = (float)c.logreal(0.1, 10); int np = (int)c.draw(c.flag(0.3) ? 700 : 60); pbt::SplitMix r = c.bulk(); gp[s] = gen_particles(r, q, np, us, cluster); total += np; }
  double kap0 = fabs((double)qs[0]) * q.dt / (2.0 * ms[0] * q.cvac);
  auto coef = [&](const int cell[3], interpolator_t &f) { float *p = (float *)&f; for (int k = 0; k < 18; k++) { double s = (k < 12 ? kick : rot) / kap0; if (k < 12 && k % 4) s *= 0.5; if (k >= 12 && k % 2) s *= 0.5; p[k] = (float)(s * 0.8 * hunit(fs, k, cell[0], cell[1], cell[2])); } };
  int me[3]; q.rank_index(pbt::rank(), me);
  for (int z = 1; z <= g->nz; z++) for (int y = 1; y <= g->ny; y++) for (int x = 1; x <= g->nx; x++) { int cell[3] = {x - 1 + me[0] * q.ln(0), y - 1 + me[1] * q.ln(1), z - 1 + me[2] * q.ln(2)}; coef(cell, ia->i[vox(g, x, y, z)]); }
  species_t *sl = NULL; std::vector<species_t *> sps; char nm[10];
  for (int s = 0; s < nsp; s++) {
    sprintf(nm, "s%d", s); int cnt = 0, l[3]; for (size_t k = 0; k < gp[s].size(); k++) cnt += own_cell(q, gp[s][k].c, l);
    species_t *sp = append_species(species(nm, qs[s], ms[s], cnt + 4, 16, 0, 0, g), &sl);
    for (size_t k = 0; k < gp[s].size(); k++) if (own_cell(q, gp[s][k].c, l)) sp->p[sp->np++] = local_particle(g, gp[s][k], l);
    sps.push_back(sp);
  }
  bool hydro_all = c.flag(0.3), pre = c.flag();
  int one = (int)c.draw(nsp - 1);
  c.note("%s%d species %d particles rot %.3g kick %.3g uscale %.3g spread %d pipelines %d hydro of %s", q.str().c_str(), nsp, total, rot, kick, us, cluster, n_pipelines(), hydro_all ? "all" : "one");
  if (total > 4) c.nontrivial();
  // reference deposition
  size_t N = R.v[0].size(); std::vector<double> H[14], HM[14], rho(N, 0), rhom(N, 0); for (int k = 0; k < 14; k++) { H[k].assign(N, 0); HM[k].assign(N, 0); }
  std::vector<int> cnt(N, 0); double V = q.d(0) * q.d(1) * q.d(2), qtot = 0, qabs = 0; double dqmax = 0;
  for (int s = 0; s < nsp; s++) for (size_t k = 0; k < gp[s].size(); k++) {
    const GP &p = gp[s][k]; qtot += (double)qs[s] * p.w; qabs += fabs((double)qs[s] * p.w);
    interpolator_t f; coef(p.c, f); double e[3], b[3], u[3] = {p.u[0], p.u[1], p.u[2]}; interp_eb(f, p.o[0], p.o[1], p.o[2], e, b);
    double kap = (double)qs[s] * q.dt / (2.0 * ms[s] * q.cvac), sc = 0, emag = 0, bmag = 0; const float *fp = (const float *)&f; for (int i = 0; i < 12; i++) emag += fabs(fp[i]); for (int i = 12; i < 18; i++) bmag += fabs(fp[i]);
    for (int a = 0; a < 3; a++) { sc += fabs(u[a]) + fabs(kap * e[a]); u[a] += kap * e[a]; }
    sc += fabs(kap) * emag; double th = fabs(kap) * bmag;
    double gam = gamma_of(u), ke = (u[0] * u[0] + u[1] * u[1] + u[2] * u[2]) / (gam + 1);
    boris_rotate(u, b, 0.5 * kap / gam);
    // rounding scale of the momentum relative to itself
    double amp = 1 + 4 * th + 4 * th * th, su = sc * amp; dqmax = std::max(dqmax, su);
    double m1 = (double)ms[s] * q.cvac, c1 = q.cvac;
    double val[14], mg[14]; double v[3], vm = std::min(1.0, su / std::max(1.0, gam)) * c1 + su / gam * c1; for (int a = 0; a < 3; a++) v[a] = u[a] / gam * c1;
    for (int a = 0; a < 3; a++) { val[a] = qs[s] * v[a]; mg[a] = fabs(qs[s]) * vm; val[4 + a] = m1 * u[a]; mg[4 + a] = m1 * su; }
    val[3] = qs[s]; mg[3] = fabs(qs[s]); val[7] = m1 * c1 * ke; mg[7] = m1 * c1 * (su * su / (gam + 1) + 0);
    static const int ti[6] = {0, 1, 2, 1, 2, 0}, tj[6] = {0, 1, 2, 2, 0, 1};
    for (int t = 0; t < 6; t++) { val[8 + t] = m1 * u[ti[t]] * v[tj[t]]; mg[8 + t] = m1 * su * vm; }
    for (int n8 = 0; n8 < 8; n8++) {
      int nd[3]; double w = p.w / V; for (int a = 0; a < 3; a++) { int h = (n8 >> a) & 1; nd[a] = p.c[a] + 1 + h; w *= 0.5 * (h ? 1 + (double)p.o[a] : 1 - (double)p.o[a]); }
      double wm = p.w / V; for (int a = 0; a < 3; a++) wm *= 0.5 * (1 + fabs((double)p.o[a])); wm = std::max(fabs(w), 0.1 * wm);
      double f2 = 1, fp2 = 1; for (int a = 0; a < 3; a++) if (!R.per[a] && (nd[a] == 1 || nd[a] == q.gn[a] + 1)) { f2 *= 2; fp2 *= q.fbc[a + 3 * (nd[a] != 1)] == pec_fields ? 0 : 2; }
      size_t i = R.at(nd); cnt[i]++;
      rho[i] += fp2 * w * qs[s]; rhom[i] += fp2 * wm * fabs(qs[s]);
      if (hydro_all || s == one) for (int k2 = 0; k2 < 14; k2++) { H[k2][i] += f2 * w * val[k2]; HM[k2][i] += f2 * wm * mg[k2]; }
    }
  }
  // charge density
  std::vector<field_t> fb(fa->f, fa->f + g->nv);
  fa->kernel->clear_rhof(fa);
  for (int s = 0; s < nsp; s++) accumulate_rho_p(fa, sps[s]);
  // the same particles deposited as bound charge must give the same density
  for (int s = 0; s < nsp; s++) for (int k = 0; k < sps[s]->np; k++) accumulate_rhob(fa->f, sps[s]->p + k, g, sps[s]->q);
  fa->kernel->synchronize_rho(fa);
  LocalMap L(q); double msum = 0;
  for (int z = 1; z <= g->nz + 1 && !c.failed; z++) for (int y = 1; y <= g->ny + 1; y++) for (int x = 1; x <= g->nx + 1; x++) {
    int G[3] = {x + L.off[0], y + L.off[1], z + L.off[2]}; size_t i = R.at(G); field_t &f = fa->f[vox(g, x, y, z)]; double tol = (3e-6 + 7e-8 * cnt[i]) * rhom[i] + 1e-37;
    if (!(fabs(f.rhof - rho[i]) <= tol)) c.fail("rhof", "free charge density at node (%d,%d,%d) is %.9g, expected %.9g (tolerance %.3g)", x, y, z, f.rhof, rho[i], tol);
    if (!(fabs(f.rhob - rho[i]) <= tol)) c.fail("rhob", "bound charge density at node (%d,%d,%d) is %.9g, expected %.9g (tolerance %.3g)", x, y, z, f.rhob, rho[i], tol);
    // integral: every domain counts its shared nodes with the partial cell volume it owns
    double w = V; int l[3] = {x, y, z}, ln[3] = {g->nx, g->ny, g->nz}; for (int a = 0; a < 3; a++) if (l[a] == 1 || l[a] == ln[a] + 1) w *= 0.5; msum += w * f.rhof;
  }
  bool pec = false; for (int k = 0; k < 6; k++) if (q.fbc[k] == pec_fields) pec = true;
  double gs = pbt::sum_rank(msum);
  if (!pec && !(fabs(gs - qtot) <= (1e-5 + 1e-7 * total) * qabs + 1e-35)) c.fail("charge", "the charge density integrates to %.9g, the particles carry %.9g", gs, qtot);
  // moments
  clear_hydro_array(ha);
  if (pre) { accumulate_hydro_p(ha, sps[one], ia); synchronize_hydro_array(ha); clear_hydro_array(ha); }
  for (int s = 0; s < nsp; s++) if (hydro_all || s == one) accumulate_hydro_p(ha, sps[s], ia);
  synchronize_hydro_array(ha);
  for (int z = 1; z <= g->nz + 1 && !c.failed; z++) for (int y = 1; y <= g->ny + 1; y++) for (int x = 1; x <= g->nx + 1; x++) {
    int G[3] = {x + L.off[0], y + L.off[1], z + L.off[2]}; size_t i = R.at(G); const float *h = (const float *)&ha->h[vox(g, x, y, z)];
    for (int k = 0; k < 14; k++) { double tol = (6e-6 + 7e-8 * cnt[i]) * HM[k][i] + 1e-37; if (!(fabs(h[k] - H[k][i]) <= tol)) { c.fail(std::string(k == 3 ? "hydro-rho" : "hydro").c_str(), "hydro %s at node (%d,%d,%d) is %.9g, expected %.9g (tolerance %.3g)", hname[k], x, y, z, h[k], H[k][i], tol); break; } }
  }
  // particles untouched
  for (int s = 0; s < nsp && !c.failed; s++) { int l[3], k2 = 0; for (size_t k = 0; k < gp[s].size(); k++) if (own_cell(q, gp[s][k].c, l)) { particle_t t = local_particle(g, gp[s][k], l); if (memcmp(&t, &sps[s]->p[k2], sizeof t)) { c.fail("side-effect", "a diagnostic modified particle %d", k2); break; } k2++; } }
  delete_hydro_array(ha); delete_interpolator_array(ia); delete_field_array(fa); delete_species_list(sl); delete_material_list(ml); delete_grid(g);
}

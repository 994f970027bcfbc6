// C01: discrete charge conservation of the deposited current, node by node, and its consequence for div E.
#include "pstep.h"
const char *pbt_check_name = "C01";
void pbt_setup() {}
void pbt_teardown() {}
struct Pt { int comp; long long at; float v; };

// global arrays of j, rhof+rhob from all ranks; copies of a shared point must agree to rounding
static void gather(pbt::Ctx &c, PWorld &W, RefField &R, std::vector<double> *J, std::vector<double> &rho) {
  std::vector<Pt> mine; LocalMap L(W.q); grid_t *g = W.g; int ln[3] = {g->nx, g->ny, g->nz};
  for (int z = 1; z <= ln[2] + 1; z++) for (int y = 1; y <= ln[1] + 1; y++) for (int x = 1; x <= ln[0] + 1; x++) {
    int l[3] = {x, y, z}, G[3] = {x + L.off[0], y + L.off[1], z + L.off[2]}; const field_t &f = W.fa->f[vox(g, x, y, z)];
    Pt p; p.at = (long long)R.at(G);
    if (J) for (int a = 0; a < 3; a++) if (l[a] <= ln[a]) { p.comp = a; p.v = (&f.jfx)[a]; mine.push_back(p); }
    p.comp = 3; p.v = f.rhof + f.rhob; p.v = (float)((double)f.rhof + f.rhob); mine.push_back(p);
  }
  std::vector<Pt> all = pbt::allgatherv(mine);
  for (size_t i = 0; i < all.size(); i++) (all[i].comp < 3 ? J[all[i].comp] : rho)[all[i].at] = all[i].v;
}
void pbt_case(pbt::Ctx &c) {
  bool selfc = c.flag(0.3); // also advance the fields
  GeoOpt o; o.maxn = c.flag(0.2) ? 6 : 4; o.allow_pmc = true; o.courant_hi = 0.99;
  Geo q = gen_geo(c, o); if (selfc) field_geo_fix(q);
  RefField R; R.init(q);
  PWorld W; std::vector<MatDef> md = selfc ? gen_mats(c, q, 3, false) : std::vector<MatDef>(1); if (!selfc) for (int a = 0; a < 3; a++) md[0].eps[a] = md[0].mu[a] = 1, md[0].sig[a] = 0;
  R.mats = md;
  float damp = selfc && c.flag() ? 0.1f : 0; W.init(q, md, damp);
  int nsp = 1 + (int)c.draw(2), nstep = 1 + (int)c.draw(selfc ? 7 : 2); double us = c.logreal(0.01, 20);
  int cluster = (int)c.draw(2); double kick = c.flag(0.4) ? 0 : c.logreal(1e-3, 1), rot = c.flag(0.4) ? 0 : c.logreal(1e-3, 1); W.fs = c.draw(0xffffff);
  std::vector<float> qs(nsp), ms(nsp); int total = 0; double wp = c.logreal(1e-3, 0.3), V = q.d(0) * q.d(1) * q.d(2);
  for (int s = 0; s < nsp; s++) {
    qs[s] = (c.flag() ? -1 : 1) * (float)c.logreal(0.1, 10); ms[s] = (float)c.logreal(0.1, 10);
    int np = (int)c.draw(c.flag(0.25) ? 900 : c.flag() ? 40 : 3); pbt::SplitMix r = c.bulk(); std::vector<GP> v = gen_particles(r, q, np, us, cluster);
    if (selfc) { // weights such that (omega_p dt)^2 ~ wp^2
      double w0 = wp * wp * q.eps0 * ms[s] * V / ((double)qs[s] * qs[s] * q.dt * q.dt) / std::max(1.0, (double)np / ((double)q.gn[0] * q.gn[1] * q.gn[2])); for (int k = 0; k < np; k++) v[k].w = (float)(v[k].w * 0.3 * w0); }
    W.add(qs[s], ms[s], v, false, 2 * (np + 16 * (n_pipelines() + 2)) + 64, 0); total += np;
  }
  double kap0 = 0; for (int s = 0; s < nsp; s++) kap0 = std::max(kap0, fabs((double)qs[s]) * q.dt / (2.0 * ms[s] * q.cvac)); W.fscale_e = kick / kap0; W.fscale_b = rot / kap0;
  c.note("%s%d species %d particles %d steps uscale %.3g kick %.3g rot %.3g spread %d pipelines %d%s", q.str().c_str(), nsp, total, nstep, us, kick, rot, cluster, n_pipelines(), selfc ? " self-consistent" : "");
  if (total > 2) c.nontrivial();
  bool allper = true, pec = false, absb = false; for (int f = 0; f < 6; f++) { if (q.fbc[f] != PERIODIC) allper = false; if (q.fbc[f] == pec_fields) pec = true; if (q.pbc[f] == absorb_particles) absb = true; }
  double emax = 0, rhomax = 0;
  if (selfc) {
    FieldFill F; F.seed = W.fs; F.mseed = c.draw(0xffffff); F.mstyle = (int)c.draw(2); for (int k = 6; k < NCOMP; k++) F.scale[k] = 0;
    double es = c.flag(0.3) ? 0 : kick / kap0; for (int k = 0; k < 3; k++) F.scale[C_E + k] = es, F.scale[C_B + k] = es * c.real(0, 1);
    fill_fields(R, W.fa, F, md.size() == 1);
    // materials beyond a wall mirror those inside, as the wall conditions assume
    for (int a = 0; a < 3; a++) if (!R.per[a]) for (int s = 0; s < 2; s++) {
      int ix[3], ln[3] = {W.g->nx, W.g->ny, W.g->nz}, x[3]; q.rank_index(pbt::rank(), ix); if (ix[a] != (s ? q.gp[a] - 1 : 0)) continue;
      int b = (a + 1) % 3, d = (a + 2) % 3; for (x[b] = 0; x[b] <= ln[b] + 1; x[b]++) for (x[d] = 0; x[d] <= ln[d] + 1; x[d]++) { x[a] = s ? ln[a] + 1 : 0; field_t &G = W.fa->f[vox(W.g, x[0], x[1], x[2])]; x[a] = s ? ln[a] : 1; field_t &I = W.fa->f[vox(W.g, x[0], x[1], x[2])];
        fmatid(G, MT_E + a) = fmatid(I, MT_E + a); fmatid(G, MT_F + b) = fmatid(I, MT_F + b); fmatid(G, MT_F + d) = fmatid(I, MT_F + d); if (!s) for (int k = 0; k < 3; k++) if (k != a) { fmatid(G, MT_E + k) = fmatid(I, MT_E + k); } }
    }
    W.fa->kernel->synchronize_tang_e_norm_b(W.fa); W.fa->kernel->compute_curl_b(W.fa);
    W.load_rho(); W.fa->kernel->compute_rhob(W.fa);
    load_interpolator_array(W.ia, W.fa);
  } else W.fill_interp();
  size_t N = R.v[0].size(); std::vector<double> J[3], rho0(N, 0), rho1(N, 0), mag(N, 0); for (int a = 0; a < 3; a++) J[a].assign(N, 0);
  W.load_rho(); gather(c, W, R, 0, rho0);
  double acc_tol = 0, epsmax = 1; for (size_t i = 0; i < md.size(); i++) for (int a = 0; a < 3; a++) epsmax = std::max(epsmax, (double)md[i].eps[a]);
  // per-node magnitude of deposited charge, from the particles near it
  auto magnitudes = [&](std::vector<double> &m) {
    std::vector<Pt> mine; LocalMap L(q);
    for (int s = 0; s < nsp; s++) for (int k = 0; k < W.sps[s]->np; k++) { const particle_t &p = W.sps[s]->p[k]; int x[3]; unvox(W.g, p.i, x[0], x[1], x[2]); for (int n = 0; n < 8; n++) { int G[3]; for (int a = 0; a < 3; a++) G[a] = x[a] + L.off[a] + ((n >> a) & 1); Pt t; t.comp = 0; t.at = (long long)R.at(G); t.v = (float)(fabs((double)qs[s]) * p.w / V); mine.push_back(t); } }
    std::vector<Pt> all = pbt::allgatherv(mine); for (size_t i = 0; i < all.size(); i++) m[all[i].at] += all[i].v; };
  std::fill(mag.begin(), mag.end(), 0.);
  for (int st = 0; st < nstep && !c.failed; st++) {
    std::vector<double> m0(N, 0), m1(N, 0); magnitudes(m0);
    double disp[3] = {0, 0, 0}, dabs = 0;
    bool chk_sum = !pec && !absb;
    if (chk_sum) for (int s = 0; s < nsp; s++) for (int k = 0; k < W.sps[s]->np; k++) {
      const particle_t &p = W.sps[s]->p[k]; interpolator_t &f = W.ia->i[p.i]; double e[3], b[3], u[3] = {p.ux, p.uy, p.uz}; interp_eb(f, p.dx, p.dy, p.dz, e, b);
      boris_push(u, e, b, (double)qs[s] * q.dt / (2.0 * ms[s] * q.cvac)); double g = gamma_of(u);
      for (int a = 0; a < 3; a++) disp[a] += (double)qs[s] * p.w * u[a] / g * q.cvac; dabs += fabs((double)qs[s] * p.w) * q.cvac; }
    W.step_particles(); 
    for (int s = 0; s < nsp; s++) if (W.sps[s]->nm) c.fail("movers", "unfinished movers after %d communication rounds", W.rounds);
    if (pbt::any_rank(c.failed)) break;
    W.load_current(); W.load_rho();
    gather(c, W, R, J, rho1); magnitudes(m1);
    if (pbt::rank() == 0) {
      int p[3], hi[3]; for (int a = 0; a < 3; a++) hi[a] = R.per[a] ? q.gn[a] : q.gn[a] + 1;
      for (p[2] = 1; p[2] <= hi[2] && !c.failed; p[2]++) for (p[1] = 1; p[1] <= hi[1] && !c.failed; p[1]++) for (p[0] = 1; p[0] <= hi[0] && !c.failed; p[0]++) {
        bool onpec = false; double wf = 1; for (int a = 0; a < 3; a++) if (!R.per[a] && (p[a] == 1 || p[a] == q.gn[a] + 1)) { wf *= 2; if (q.fbc[a + 3 * (p[a] != 1)] == pec_fields) onpec = true; }
        if (onpec) continue;
        size_t i = R.at(p); double div = 0, jm = 0;
        for (int a = 0; a < 3; a++) {
          int pm[3] = {p[0], p[1], p[2]}; pm[a]--; double jp, jn;
          if (!R.per[a] && p[a] == q.gn[a] + 1) jp = -J[a][R.at(pm)]; else jp = J[a][i];
          if (!R.per[a] && p[a] == 1) jn = -J[a][i]; else jn = J[a][R.at(pm)];
          div += (jp - jn) / q.d(a); jm += (fabs(jp) + fabs(jn)) / q.d(a);
        }
        // rounding: every particle deposits with relative error ~1e-6 of its charge into nodes of the cells it visits (neighbouring nodes too)
        double M = fabs(rho0[i]) + fabs(rho1[i]) + q.dt * jm; { int nb[3]; double mx = 0; for (nb[2] = p[2] - 1; nb[2] <= p[2] + 1; nb[2]++) for (nb[1] = p[1] - 1; nb[1] <= p[1] + 1; nb[1]++) for (nb[0] = p[0] - 1; nb[0] <= p[0] + 1; nb[0]++) { bool ok = true; for (int a = 0; a < 3; a++) if (!R.per[a] && (nb[a] < 1 || nb[a] > q.gn[a] + 1)) ok = false; if (ok) mx = std::max(mx, std::max(m0[R.at(nb)], m1[R.at(nb)])); } M += wf * mx; }
        double res = rho1[i] - rho0[i] + q.dt * div, tol = 3e-6 * M + 1e-36; mag[i] += M;
        if (!(fabs(res) <= tol)) c.fail("continuity", "step %d node (%d,%d,%d): change of charge density %.9g, -dt div j %.9g, residual %.3g (tolerance %.3g)", st, p[0], p[1], p[2], rho1[i] - rho0[i], -q.dt * div, res, tol);
        rhomax = std::max(rhomax, M);
      }
      if (chk_sum && !c.failed) for (int a = 0; a < 3; a++) if (R.per[a]) { double s = 0; R.loop(C_J + a, [&](const int p[3]) { s += R.weight(C_J + a, p) * J[a][R.at(p)]; }); disp[a] = disp[a]; J[a][0] = s * V; }
    }
    if (chk_sum) for (int a = 0; a < 3; a++) { double D = pbt::sum_rank(disp[a]), A = pbt::sum_rank(dabs); if (pbt::rank() == 0 && R.per[a] && !c.failed && !(fabs(J[a][0] - D) <= 1e-5 * A + 1e-36)) c.fail("total-current", "step %d: current along axis %d sums to %.9g, the particles' charge displacement per time is %.9g", st, a, J[a][0], D); }
    rho0 = rho1;
    if (pbt::any_rank(c.failed)) break;
    if (selfc) {
      const field_advance_kernels_t *k = W.fa->kernel; (void)k;
      W.fa->kernel->advance_b(W.fa, 0.5); W.fa->kernel->advance_e(W.fa, 1.0); W.fa->kernel->advance_b(W.fa, 0.5); load_interpolator_array(W.ia, W.fa);
      for (int z = 1; z <= W.g->nz + 1; z++) for (int y = 1; y <= W.g->ny + 1; y++) for (int x = 1; x <= W.g->nx + 1; x++) { const field_t &f = W.fa->f[vox(W.g, x, y, z)]; for (int a = 0; a < 3; a++) { emax = std::max(emax, (double)fabs((&f.ex)[a])); emax = std::max(emax, (double)fabs((&f.cbx)[a])); emax = std::max(emax, (double)fabs((&f.tcax)[a])); } }
    }
  }
  if (selfc && !pbt::any_rank(c.failed)) {
    W.fa->kernel->compute_div_e_err(W.fa); double em = pbt::max_rank(emax), hm = std::min(q.d(0), std::min(q.d(1), q.d(2))), rm = pbt::max_rank(rhomax);
    double tol = 4e-6 * (nstep + 2) * (epsmax * 4 * em / hm + rm / q.eps0) + 1e-36, worst = 0; int wv = 0;
    for (int z = 1; z <= W.g->nz + 1; z++) for (int y = 1; y <= W.g->ny + 1; y++) for (int x = 1; x <= W.g->nx + 1; x++) { int v = vox(W.g, x, y, z); double d = fabs(W.fa->f[v].div_e_err); if (!(d <= worst)) worst = d, wv = v; }
    int x, y, z; unvox(W.g, wv, x, y, z);
    c.label("self-consistent");
    if (!(worst <= tol)) c.fail("div-e", "after %d steps the divergence error of E at node (%d,%d,%d) is %.6g (rounding level %.3g)", nstep, x, y, z, worst, tol);
  }
  W.destroy();
}

// C03: particles cross cells, domains and walls exactly as the folded straight line says; none lost, duplicated, corrupted.
#include "pstep.h"
const char *pbt_check_name = "C03";
void pbt_setup() {}
void pbt_teardown() {}
struct Pred { int tag, sp; double X[3], u[3], tol[3], tolu; signed char amb[3]; signed char absorb; /* 0 no 1 maybe 2 yes */ float w; };
struct Act { int tag, sp, rank; double X[3]; float u[3]; float w; int cell[3]; float o[3]; };

void pbt_case(pbt::Ctx &c) {
  GeoOpt o; o.maxn = c.flag(0.2) ? 6 : 4; o.allow_pmc = true; o.courant_hi = 0.99;
  Geo q = gen_geo(c, o);
  PWorld W; std::vector<MatDef> md(1); for (int a = 0; a < 3; a++) md[0].eps[a] = md[0].mu[a] = 1, md[0].sig[a] = 0;
  W.init(q, md, 0);
  int nsp = 1 + (int)c.draw(2), nstep = 1 + (int)c.draw(5); bool rel = c.flag(0.6); double us = rel ? c.logreal(0.5, 30) : c.logreal(1e-3, 0.5);
  int cluster = (int)c.draw(2); bool tight = c.flag(0.7); double kick = c.flag(0.4) ? 0 : c.logreal(1e-3, 1), rot = c.flag(0.4) ? 0 : c.logreal(1e-3, 1); W.fs = c.draw(0xffffff);
  std::vector<float> qs(nsp), ms(nsp); int total = 0; bool aimed = c.flag(0.4); // most particles fly in the same direction
  double dir[3] = {(double)c.irange(-1, 1), (double)c.irange(-1, 1), (double)c.irange(-1, 1)};
  int ntag = 0;
  for (int s = 0; s < nsp; s++) {
    qs[s] = (c.flag() ? -1 : 1) * (float)c.logreal(0.1, 10); ms[s] = (float)c.logreal(0.1, 10);
    int np = (int)c.draw(c.flag(0.25) ? 900 : 40); pbt::SplitMix r = c.bulk(); std::vector<GP> v = gen_particles(r, q, np, us, cluster);
    for (int k = 0; k < np; k++) { v[k].tag = ntag++; v[k].w = (v[k].tag + 1) / 1024.f; if (aimed) for (int a = 0; a < 3; a++) if (dir[a]) v[k].u[a] = (float)(dir[a] * fabs(v[k].u[a])); }
    W.add(qs[s], ms[s], v, tight, 2 * (np + 16 * (n_pipelines() + 2)) + 64, s & 1); total += np;
  }
  double kap0 = 0; for (int s = 0; s < nsp; s++) kap0 = std::max(kap0, fabs((double)qs[s]) * q.dt / (2.0 * ms[s] * q.cvac)); W.fscale_e = kick / kap0; W.fscale_b = rot / kap0; W.fill_interp();
  bool sorts = c.flag(0.3);
  c.note("%s%d species %d particles %d steps uscale %.3g kick %.3g rot %.3g spread %d%s storage %s pipelines %d%s", q.str().c_str(), nsp, total, nstep, us, kick, rot, cluster, aimed ? " aimed" : "", tight ? "tight" : "roomy", n_pipelines(), sorts ? " sorted" : "");
  double gone_q = 0, gone_abs = 0; long crossings = 0;
  double V = q.d(0) * q.d(1) * q.d(2);
  std::vector<char> alive(ntag, 1);
  for (int st = 0; st < nstep && !c.failed; st++) {
    std::vector<Pred> pr; long cross = 0;
    for (int s = 0; s < nsp; s++) for (int k = 0; k < W.sps[s]->np; k++) {
      const particle_t &p = W.sps[s]->p[k]; Pred P; memset(&P, 0, sizeof P); P.tag = (int)lrint(p.w * 1024.0) - 1; P.sp = s; P.w = p.w;
      const interpolator_t &f = W.ia->i[p.i]; double e[3], b[3]; interp_eb(f, p.dx, p.dy, p.dz, e, b);
      double kap = (double)qs[s] * q.dt / (2.0 * ms[s] * q.cvac), sc = 0, emag = 0, bmag = 0; const float *fp = (const float *)&f; for (int i = 0; i < 12; i++) emag += fabs(fp[i]); for (int i = 12; i < 18; i++) bmag += fabs(fp[i]);
      for (int a = 0; a < 3; a++) { P.u[a] = (&p.ux)[a]; sc += fabs(P.u[a]); } sc += 2 * fabs(kap) * emag; double th = fabs(kap) * bmag;
      boris_push(P.u, e, b, kap); double g = gamma_of(P.u); P.tolu = 6e-6 * sc * (1 + 4 * th + 4 * th * th);
      for (int a = 0; a < 3; a++) {
        double x0 = W.gx(p, a), N2 = 2.0 * q.gn[a], cd = q.cvac * q.dt / q.d(a), X = x0 + 2 * cd * P.u[a] / g;
        P.tol[a] = 4e-6 + 2 * cd * std::min(2.0, P.tolu / g);
        if (floor(x0 / 2) != floor(X / 2)) cross++;
        if (q.periodic(a)) { if (X < 0) X += N2; else if (X >= N2) X -= N2; }
        else {
          double dlo = X, dhi = N2 - X, dm = std::min(dlo, dhi); int side = dlo < dhi ? 0 : 1; bool absb = q.pbc[a + 3 * side] == absorb_particles;
          if (fabs(dm) <= P.tol[a]) { if (absb) P.absorb = std::max<int>(P.absorb, 1); else { P.amb[a] = 1; X = side ? N2 - fabs(dm) : fabs(dm); P.tol[a] *= 2; } }
          else if (dm < 0) { if (absb) P.absorb = 2; else { X = side ? 2 * N2 - X : -X; P.u[a] = -P.u[a]; } }
        }
        P.X[a] = X;
      }
      pr.push_back(P);
    }
    if (sorts && st) for (int s = 0; s < nsp; s++) sort_p(W.sps[s]);
    W.step_particles();
    std::vector<Act> ac;
    for (int s = 0; s < nsp && !c.failed; s++) {
      species_t *sp = W.sps[s]; if (sp->nm) c.fail("movers-left", "step %d: species %d keeps %d unfinished movers", st, s, sp->nm);
      if (sp->np > sp->max_np || sp->nm > sp->max_nm) c.fail("capacity", "species %d holds %d particles with storage for %d", s, sp->np, sp->max_np);
      for (int k = 0; k < sp->np; k++) {
        const particle_t &p = sp->p[k]; Act A; memset(&A, 0, sizeof A); A.sp = s; A.rank = pbt::rank(); A.w = p.w; double t = p.w * 1024.0 - 1; A.tag = t > -1e9 && t < 1e9 ? (int)lrint(t) : -1;
        int x[3] = {0, 0, 0}; if (p.i >= 0 && p.i < W.g->nv) unvox(W.g, p.i, x[0], x[1], x[2]); int ln[3] = {W.g->nx, W.g->ny, W.g->nz}; bool in = true;
        for (int a = 0; a < 3; a++) { if (x[a] < 1 || x[a] > ln[a]) in = false; A.o[a] = (&p.dx)[a]; A.u[a] = (&p.ux)[a]; A.cell[a] = x[a]; if (in) A.X[a] = W.gx(p, a); }
        if (!in) c.fail("cell", "step %d: particle in voxel %d = (%d,%d,%d), not an interior cell", st, p.i, x[0], x[1], x[2]);
        for (int a = 0; a < 3; a++) if (!(fabs(A.o[a]) <= 1)) c.fail("offset", "step %d: in-cell offset %.9g outside [-1,1]", st, A.o[a]);
        ac.push_back(A);
      }
    }
    std::vector<Pred> gpv = pbt::allgatherv(pr); std::vector<Act> gac = pbt::allgatherv(ac);
    crossings += (long)pbt::sum_rank_i(cross);
    std::vector<int> count(ntag, 0), who(ntag, -1);
    for (size_t i = 0; i < gac.size() && !c.failed; i++) { const Act &A = gac[i]; if (A.tag < 0 || A.tag >= ntag || A.w != (A.tag + 1) / 1024.f) { c.fail("weight", "step %d: a particle has weight %.9g that no particle had", st, A.w); break; } count[A.tag]++; who[A.tag] = (int)i; }
    std::vector<int> expected(ntag, 0);
    for (size_t i = 0; i < gpv.size() && !c.failed; i++) {
      const Pred &P = gpv[i]; if (P.tag < 0 || P.tag >= ntag) { c.fail("weight", "unknown tag"); break; } expected[P.tag] = 1;
      int n = count[P.tag]; double qw = (double)qs[P.sp] * P.w;
      if (n > 1) { c.fail("duplicated", "step %d: particle %d exists %d times", st, P.tag, n); break; }
      if (P.absorb == 2 && n) { const Act &A = gac[who[P.tag]]; c.fail("not-absorbed", "step %d: particle %d passed an absorbing wall (expected position %.6g,%.6g,%.6g) but is at %.6g,%.6g,%.6g", st, P.tag, P.X[0], P.X[1], P.X[2], A.X[0], A.X[1], A.X[2]); break; }
      if (P.absorb == 0 && !n) { c.fail("lost", "step %d: particle %d (species %d) expected at half-cell coordinate (%.6g,%.6g,%.6g) is gone", st, P.tag, P.sp, P.X[0], P.X[1], P.X[2]); break; }
      if (!n) { gone_q += qw; gone_abs += fabs(qw); continue; }
      const Act &A = gac[who[P.tag]];
      if (A.sp != P.sp) { c.fail("species", "step %d: particle %d moved from species %d to %d", st, P.tag, P.sp, A.sp); break; }
      for (int a = 0; a < 3; a++) {
        double d = A.X[a] - P.X[a], N2 = 2.0 * q.gn[a]; if (q.periodic(a)) d -= N2 * floor(d / N2 + 0.5);
        if (!(fabs(d) <= P.tol[a])) { c.fail("position", "step %d: particle %d axis %d at half-cell coordinate %.9g, expected %.9g (tolerance %.3g)", st, P.tag, a, A.X[a], P.X[a], P.tol[a]); break; }
        double du = fabs(A.u[a] - P.u[a]); if (P.amb[a]) du = std::min(du, fabs(A.u[a] + P.u[a]));
        if (!(du <= P.tolu)) { c.fail("momentum", "step %d: particle %d axis %d has u %.9g, expected %.9g (tolerance %.3g)", st, P.tag, a, A.u[a], P.u[a], P.tolu); break; }
      }
    }
    for (int t = 0; t < ntag && !c.failed; t++) if (count[t] && !expected[t]) { c.fail("resurrected", "step %d: particle %d reappeared", st, t); break; }
    // absorbed charge appears as bound charge
    double s = 0; for (int z = 1; z <= W.g->nz + 1; z++) for (int y = 1; y <= W.g->ny + 1; y++) for (int x = 1; x <= W.g->nx + 1; x++) {
      double w = V; int l[3] = {x, y, z}, ln[3] = {W.g->nx, W.g->ny, W.g->nz}; for (int a = 0; a < 3; a++) if (l[a] == 1 || l[a] == ln[a] + 1) w *= 0.5; s += w * W.fa->f[vox(W.g, x, y, z)].rhob; }
    s = pbt::sum_rank(s);
    if (!c.failed && !(fabs(s - gone_q) <= 2e-5 * gone_abs + 1e-30)) c.fail("absorbed-charge", "step %d: bound charge integrates to %.9g, absorbed particles carried %.9g", st, s, gone_q);
    if (pbt::any_rank(c.failed)) break;
  }
  if (crossings > 4) c.nontrivial();
  if (gone_abs > 0) c.label("absorption"); if (crossings) c.label("crossings");
  W.destroy();
}

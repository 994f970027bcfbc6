// C21: absorbing tallies, refluxing walls and space-charge-limited emitters.
#include "charge.h"
#include "emitter/emitter.h"
const char *pbt_check_name = "C21";
void pbt_setup() {}
void pbt_teardown() {}
static pbt::Ctx *C;
static void ks(const char *key, const char *what, std::vector<double> u) {
  if (u.size() < 50) return; std::sort(u.begin(), u.end()); double D = 0, n = (double)u.size(); for (size_t i = 0; i < u.size(); i++) D = std::max(D, std::max(fabs(u[i] - i / n), fabs((i + 1) / n - u[i])));
  if (!(D * sqrt(n) < 3.6 + 3e-4 * sqrt(n))) C->fail(key, "%s: distribution differs from its definition (n %g, Kolmogorov distance %.4g)", what, n, D);
}
static double Phi(double x) { return 0.5 * erfc(-x * M_SQRT1_2); }
enum { W_ABSORB, W_REFLECT, W_REFLUX, W_TALLY };
struct Pred { int tag, sp; int fate; double X[3], u[3]; double tau; int face; bool sure; float w; }; // fate: 0 survives as predicted, 1 absorbed, 2 tallied, 3 refluxed
struct Act { int tag, sp; float w; double X[3], u[3]; };
static Act act_of(const PWorld &W, const particle_t &p, int sp) { Act A; memset(&A, 0, sizeof A); A.sp = sp; A.w = p.w; A.tag = (int)lrint(p.w * 1024.) - 1; for (int a = 0; a < 3; a++) { A.u[a] = (&p.ux)[a]; A.X[a] = W.gx(p, a); } return A; }

static void walls_case(pbt::Ctx &c) {
  GeoOpt o; o.maxn = 4; o.courant_hi = 0.99; Geo q = gen_geo(c, o); int kind[6]; bool haveT = false, haveR = false; int nwall = 0;
  for (int f = 0; f < 6; f++) { kind[f] = W_REFLECT; if (q.pbc[f] == PERIODIC) continue; nwall++; std::vector<int> w(4); w[0] = 1; w[1] = 1; w[2] = 4; w[3] = 3; kind[f] = c.pickw(w); q.pbc[f] = kind[f] == W_ABSORB ? absorb_particles : reflect_particles; haveT |= kind[f] == W_TALLY; haveR |= kind[f] == W_REFLUX; }
  bool order = c.flag(); PWorld W; std::vector<MatDef> md(1); for (int a = 0; a < 3; a++) md[0].eps[a] = md[0].mu[a] = 1, md[0].sig[a] = 0; W.init(q, md, 0); W.rounds = 40; RefField R; R.init(q);
  int nsp = 1 + (int)c.draw(2), nstep = 1 + (int)c.draw(3), ntag = 0; bool big = c.flag(0.06); double us = c.logreal(0.05, 10), V = q.d(0) * q.d(1) * q.d(2); float para[3], perp[3], qs[3]; double qwmax = 0;
  for (int s = 0; s < nsp; s++) {
    qs[s] = (c.flag() ? -1 : 1) * (float)c.logreal(0.1, 10); para[s] = (float)c.logreal(1e-3, 3); perp[s] = c.flag(0.2) ? 0 : (float)c.logreal(1e-3, 3); int np = big && s == 0 ? 3000 + (int)c.draw(3000) : (int)c.draw(c.flag(0.3) ? 300 : 30), aim = (int)c.draw(6); pbt::SplitMix r = c.bulk();
    std::vector<GP> v = gen_particles(r, q, np, us, 0);
    for (int k = 0; k < np; k++) { GP &p = v[k]; p.tag = ntag++; p.w = (p.tag + 1) / 1024.f; qwmax = std::max(qwmax, fabs((double)qs[s] * p.w)); for (int a = 0; a < 3; a++) p.o[a] = (float)r.real(-1, 1); if (aim < 6) { int a = aim % 3; p.c[a] = aim < 3 ? 0 : q.gn[a] - 1; p.u[a] = (float)((aim < 3 ? -1 : 1) * (fabs(p.u[a]) + 0.3 * us)); } }
    W.add(qs[s], 1, v, c.flag(), 2 * (np + 16 * (n_pipelines() + 2)) + 64, 0);
  }
  rng_pool_t *rp = new_rng_pool(n_pipelines(), (int)c.draw(1000000), 0); particle_bc_t *T = NULL, *X = NULL;
  for (int k = 0; k < 2; k++) { if ((k == 0) == order) { if (haveT) T = append_particle_bc(absorb_tally(W.sl, W.fa), &W.pbc); } else if (haveR) X = append_particle_bc(maxwellian_reflux(W.sl, rp), &W.pbc); }
  if (X) for (int s = 0; s < nsp; s++) set_reflux_temp(X, W.sps[s], para[s], perp[s]);
  int ix[3]; q.rank_index(pbt::rank(), ix); for (int f = 0; f < 6; f++) if (kind[f] >= W_REFLUX) { int a = f % 3; if (ix[a] == (f >= 3 ? q.gp[a] - 1 : 0)) set_pbc(W.g, FACE_BC[f], get_particle_bc_id(kind[f] == W_TALLY ? T : X)); }
  c.note("%swalls %d%d%d%d%d%d (0 absorb, 1 reflect, 2 reflux, 3 tally), %d species, %d particles, %d steps, u %.3g, ut_para %g ut_perp %g; ", q.str().c_str(), kind[0], kind[1], kind[2], kind[3], kind[4], kind[5], nsp, ntag, nstep, us, para[0], perp[0]);
  size_t N = R.v[0].size(); std::vector<long> tlo(nsp, 0), thi(nsp, 0); std::vector<double> dn, dt; long nreflux = 0, ntally = 0;
  for (int z = 1; z <= W.g->nz; z++) for (int y = 1; y <= W.g->ny; y++) for (int x = 1; x <= W.g->nx; x++) memset(&W.ia->i[vox(W.g, x, y, z)], 0, sizeof(interpolator_t));
  std::vector<double> J[3], rho0(N, 0), rho1(N, 0); for (int a = 0; a < 3; a++) J[a].assign(N, 0);
  W.load_rho(); ch_gather(q, W.fa, W.g, R, 0, rho0); double cd[3]; for (int a = 0; a < 3; a++) cd[a] = 2 * q.cvac * q.dt / q.d(a);
  for (int st = 0; st < nstep && !c.failed; st++) {
    std::vector<Pred> pr;
    for (int s = 0; s < nsp; s++) for (int k = 0; k < W.sps[s]->np; k++) {
      Act A = act_of(W, W.sps[s]->p[k], s); Pred P; memset(&P, 0, sizeof P); P.tag = A.tag; P.sp = s; P.w = A.w; P.sure = true; double g = gamma_of(A.u), s1 = 2, s2 = 2; P.face = -1; double tol = 1e-5;
      double E[3]; for (int a = 0; a < 3; a++) { double x0 = A.X[a], N2 = 2. * q.gn[a]; E[a] = x0 + cd[a] * A.u[a] / g; P.u[a] = A.u[a]; if (q.periodic(a)) continue;
        for (int sd = 0; sd < 2; sd++) { int f = a + 3 * sd; double out = sd ? E[a] - N2 : -E[a], d0 = sd ? N2 - x0 : x0; if (fabs(out) < tol || (d0 < tol && (sd ? A.u[a] > -1e-6 : A.u[a] < 1e-6))) P.sure = false; if (kind[f] == W_REFLECT || out <= 0) continue; double t = d0 / fabs(E[a] - x0); if (t < s1) { s2 = s1; s1 = t; P.face = f; } else if (t < s2) s2 = t; } }
      if (P.face >= 0 && s2 < 1.5 && s2 - s1 < 1e-4) P.sure = false;
      double sf = P.face >= 0 ? s1 : 1; P.tau = 1 - sf; P.fate = P.face < 0 ? 0 : kind[P.face] == W_ABSORB ? 1 : kind[P.face] == W_TALLY ? 2 : 3;
      for (int a = 0; a < 3; a++) { double N2 = 2. * q.gn[a], x = A.X[a] + sf * (E[a] - A.X[a]); if (q.periodic(a)) x -= N2 * floor(x / N2); else if (a != P.face % 3 || P.face < 0) { if (x < 0) x = -x, P.u[a] = -P.u[a]; else if (x > N2) x = 2 * N2 - x, P.u[a] = -P.u[a]; } else x = P.face >= 3 ? N2 : 0; P.X[a] = x;
        if (P.fate == 3 && !q.periodic(a) && a != P.face % 3) { if (x < cd[a] * P.tau * 1.0001 + tol || N2 - x < cd[a] * P.tau * 1.0001 + tol) P.sure = false; } }
      pr.push_back(P);
    }
    W.step_particles();
    std::vector<Act> ac; for (int s = 0; s < nsp; s++) { if (W.sps[s]->nm) c.fail("movers-left", "unfinished movers"); for (int k = 0; k < W.sps[s]->np && !c.failed; k++) { const particle_t &p = W.sps[s]->p[k]; int x[3] = {0, 0, 0}; if (p.i >= 0 && p.i < W.g->nv) unvox(W.g, p.i, x[0], x[1], x[2]); for (int a = 0; a < 3; a++) if (x[a] < 1 || x[a] > (&W.g->nx)[a] || !(fabsf((&p.dx)[a]) <= 1)) { c.fail("cell", "particle in voxel %d offset %g", p.i, (&p.dx)[a]); break; } if (!c.failed) ac.push_back(act_of(W, p, s)); } }
    if (pbt::any_rank(c.failed)) break;
    std::vector<Pred> gp = pbt::allgatherv(pr); std::vector<Act> ga = pbt::allgatherv(ac); std::vector<int> at(ntag, -1);
    for (size_t i = 0; i < ga.size() && !c.failed; i++) { int t = ga[i].tag; if (t < 0 || t >= ntag || ga[i].w != (t + 1) / 1024.f) { c.fail("weight", "a particle has weight %.9g that no particle had", ga[i].w); break; } if (at[t] >= 0) { c.fail("duplicated", "particle %d exists twice", t); break; } at[t] = (int)i; }
    std::vector<char> had(ntag, 0);
    for (size_t i = 0; i < gp.size() && !c.failed; i++) {
      const Pred &P = gp[i]; had[P.tag] = 1; const Act *A = at[P.tag] >= 0 ? &ga[at[P.tag]] : NULL; if (A && A->sp != P.sp) { c.fail("species", "particle %d changed species", P.tag); break; }
      if (!P.sure) { if (!A) thi[P.sp]++; continue; }
      if (P.fate == 1 || P.fate == 2) { if (A) { c.fail("not-absorbed", "step %d: particle %d hit face %d but still exists at (%g,%g,%g)", st, P.tag, P.face, A->X[0], A->X[1], A->X[2]); break; } if (P.fate == 2) { tlo[P.sp]++; thi[P.sp]++; ntally++; } continue; }
      if (!A) { c.fail("lost", "step %d: particle %d (%s) is gone", st, P.tag, P.fate == 3 ? "refluxed" : "not at a wall"); break; }
      double g = gamma_of(A->u);
      if (P.fate == 3) {
        nreflux++; int a = P.face % 3; double dir = P.face < 3 ? 1 : -1; if (!(A->u[a] * dir >= 0)) { c.fail("reflux-direction", "particle refluxed at face %d moves into the wall (u %g)", P.face, A->u[a]); break; }
        dn.push_back(-expm1(-A->u[a] * A->u[a] / (2. * para[P.sp] * para[P.sp]))); for (int b = 0; b < 3; b++) if (b != a) { if (perp[P.sp] == 0) { if (A->u[b] != 0) c.fail("reflux-perp", "transverse momentum %g with zero transverse temperature", A->u[b]); } else dt.push_back(Phi(A->u[b] / perp[P.sp])); }
      }
      for (int a = 0; a < 3 && !c.failed; a++) {
        double e = P.X[a] + (P.fate == 3 ? cd[a] * P.tau * A->u[a] / g : 0), N2 = 2. * q.gn[a], d = A->X[a] - e; if (q.periodic(a)) d -= N2 * floor(d / N2 + 0.5);
        if (!(fabs(d) <= 2e-5)) c.fail(P.fate == 3 ? "reflux-position" : "position", "step %d: particle %d on axis %d at half-cell coordinate %.9g, expected %.9g (face %d, remaining fraction %.6g of the step)", st, P.tag, a, A->X[a], e, P.face, P.tau);
        if (P.fate == 0 && !(fabs(A->u[a] - P.u[a]) <= 1e-6 * (fabs(P.u[a]) + us))) c.fail("momentum", "step %d: particle %d axis %d has u %.9g, expected %.9g", st, P.tag, a, A->u[a], P.u[a]);
      }
    }
    for (int t = 0; t < ntag && !c.failed; t++) if (at[t] >= 0 && !had[t]) c.fail("resurrected", "particle %d reappeared", t);
    if (pbt::any_rank(c.failed)) break;
    if (T) for (int s = 0; s < nsp; s++) { long n = pbt::sum_rank_i(get_absorb_tally(T)[W.sps[s]->id]); if (n < tlo[s] || n > thi[s]) c.fail("tally", "step %d: the tally of species %d counts %ld particles, %ld to %ld hit it", st, s, n, tlo[s], thi[s]); }
    W.load_current(); W.load_rho(); ch_gather(q, W.fa, W.g, R, J, rho1); ch_continuity(c, q, R, J, rho0, rho1, NULL, 8 * qwmax / V, 6e-6); rho0 = rho1;
    if (pbt::any_rank(c.failed)) break;
  }
  if (!c.failed) { ks("reflux-para", "normal momentum of refluxed particles", dn); ks("reflux-perp", "transverse momentum of refluxed particles", dt); }
  if (nreflux) c.label("reflux"); if (ntally) c.label("tally"); if (nreflux > 50) c.label("reflux statistics"); if (nreflux + ntally > 2) c.nontrivial(); W.destroy(); delete_rng_pool(rp);
}

struct Comp { int cell[3], a, dir; double w; };
static void emit_case(pbt::Ctx &c) {
  GeoOpt o; o.maxn = 4; o.courant_hi = 0.99; Geo q = gen_geo(c, o); int ea = c.flag() ? (int)c.draw(2) : -1; for (int f = 0; f < 6; f++) if (q.pbc[f] != PERIODIC && f % 3 != ea) q.pbc[f] = reflect_particles;
  PWorld W; std::vector<MatDef> md(1); for (int a = 0; a < 3; a++) md[0].eps[a] = md[0].mu[a] = 1, md[0].sig[a] = 0; W.init(q, md, 0); W.rounds = 6; RefField R; R.init(q); grid_t *g = W.g; LocalMap L(q);
  float qq = (c.flag() ? -1 : 1) * (float)c.logreal(0.1, 10), m = (float)c.logreal(0.1, 10), para = c.flag(0.15) ? 0 : (float)c.logreal(1e-2, 3), perp = c.flag(0.2) ? 0 : (float)c.logreal(1e-2, 3), norm = c.flag() ? (float)CHILD_LANGMUIR : (float)c.logreal(0.1, 3); int nper = 1 + (int)c.draw(c.flag(0.2) ? 60 : 4), rounds = 1 + (int)c.draw(1);
  double E0 = c.logreal(0.01, 100); float thresh = c.flag(0.4) ? 0 : (float)(E0 * c.real(0.5, 1.5)); uint64_t hs = c.draw(0xffffff); int dens = (int)c.draw(2); bool few = c.flag(0.15); bool boundary_only = c.flag(0.4);
  std::vector<Comp> exp; std::vector<int> comp; int ncell = q.gn[0] * q.gn[1] * q.gn[2]; double V = q.d(0) * q.d(1) * q.d(2);
  auto field = [&](const int G[3], int a) { double h = hunit(hs, 3 + a, G[0], G[1], G[2]); long id = (G[0] - 1) + (long)q.gn[0] * ((G[1] - 1) + (long)q.gn[1] * (G[2] - 1)); if (fabs(h) < 0.05) return 0.f; return (float)((h < 0 ? -1 : 1) * E0 * (1 + (id * 3 + a) * (0.5 / (3. * ncell)))); };
  for (int z = 1; z <= q.gn[2]; z++) for (int y = 1; y <= q.gn[1]; y++) for (int x = 1; x <= q.gn[0]; x++) {
    int G[3] = {x, y, z}, l[3], z0[3] = {x - 1, y - 1, z - 1}; bool mine = own_cell(q, z0, l); if (mine) { interpolator_t &f = W.ia->i[vox(g, l[0], l[1], l[2])]; memset(&f, 0, sizeof f); f.ex = field(G, 0); f.ey = field(G, 1); f.ez = field(G, 2); f.dexdy = (float)(E0 * 3); f.deydz = (float)(-E0 * 2); f.dezdx = (float)(E0); }
    for (int fc = 0; fc < 6; fc++) {
      int a = fc % 3, dir = fc < 3 ? 1 : -1; bool sel = hunit(hs, 20 + fc, x, y, z) < (dens == 0 ? -0.6 : dens == 1 ? 0 : 2); if (ea >= 0 && a != ea) sel = false; if (boundary_only && !(fc < 3 ? G[a] == 1 : G[a] == q.gn[a])) sel = false; if (!sel) continue;
      if (mine) comp.push_back(COMPONENT_ID(vox(g, l[0], l[1], l[2]), FACE_BC[fc]));
      double E = field(G, a); if ((qq < 0 ? -1 : 1) * dir * E > thresh) { Comp k; for (int b = 0; b < 3; b++) k.cell[b] = G[b] - 1; k.a = a; k.dir = dir; double area = V / q.d(a); k.w = norm * q.eps0 * q.dt / (sqrt(fabs((double)qq * m)) * nper) * area * sqrt(1 / q.d(a)) * pow(fabs(E), 1.5); exp.push_back(k); }
    }
    if (mine && hunit(hs, 30, x, y, z) > 0.7) comp.push_back(COMPONENT_ID(vox(g, l[0], l[1], l[2]), BOUNDARY(1, 1, 0))); // an edge: not a cell face
  }
  std::vector<GP> none; species_t *sp = append_species(species("bystander", 1, 1, 4, 4, 0, 0, g), &W.sl); int room = few ? (int)c.draw(6) + 1 : (int)comp.size() * nper + 1, rm = few && c.flag() ? (int)c.draw(6) + 1 : 2 * (int)comp.size() * nper + 64; (void)none;
  sp = append_species(species("a", qq, m, room, rm, 0, 0, g), &W.sl); rng_pool_t *rp = new_rng_pool(n_pipelines(), (int)c.draw(1000000), 0); emitter_t *el = NULL; emitter_t *e = append_emitter(child_langmuir(sp, W.ia, W.fa, W.aa, rp, nper, para, perp, thresh, norm), &el); if (append_emitter(e, &el) != e || num_emitter(el) != 1) c.fail("list", "appending an emitter twice listed it %d times", num_emitter(el));
  int *cb = size_emitter(e, (int)comp.size()); for (size_t i = 0; i < comp.size(); i++) cb[i] = comp[i];
  c.note("%semitter q %g m %g, %d components emitting %d each, ut_para %g ut_perp %g threshold %g norm %g E %g%s; ", q.str().c_str(), qq, m, (int)exp.size(), nper, para, perp, thresh, norm, E0, few ? " little storage" : "");
  size_t N = R.v[0].size(); std::vector<double> J[3], rho0(N, 0), rho1(N, 0), dn, dp, da, dx; for (int a = 0; a < 3; a++) J[a].assign(N, 0); double cd[3], wmax = 0; for (int a = 0; a < 3; a++) cd[a] = 2 * q.cvac * q.dt / q.d(a);
  std::vector<std::pair<double, int> > ew; for (size_t i = 0; i < exp.size(); i++) { ew.push_back(std::make_pair(exp[i].w, (int)i)); wmax = std::max(wmax, exp[i].w); } std::sort(ew.begin(), ew.end());
  for (int rd = 0; rd < rounds && !c.failed; rd++) {
    sp->np = sp->nm = 0; W.load_rho(); ch_gather(q, W.fa, g, R, 0, rho0); clear_accumulator_array(W.aa); apply_emitter_list(el);
    if (sp->np > sp->max_np || sp->nm > sp->max_nm) c.fail("storage", "%d of %d particles, %d of %d movers", sp->np, sp->max_np, sp->nm, sp->max_nm); if (W.sl->next && W.sl->next->np) c.fail("species", "another species received particles"); long made = sp->np;
    if (pbt::any_rank(c.failed)) break;
    reduce_accumulator_array(W.aa); for (int b = 0; b < W.rounds; b++) boundary_p(NULL, W.sl, W.fa, W.aa); if (sp->nm) c.fail("movers-left", "unfinished movers");
    std::vector<Act> mine; for (int k = 0; k < sp->np; k++) mine.push_back(act_of(W, sp->p[k], 0)); std::vector<Act> all = pbt::allgatherv(mine); long total = pbt::sum_rank_i(made); (void)total;
    bool gone_ok = false; if (ea >= 0) for (int sd = 0; sd < 2; sd++) if (q.pbc[ea + 3 * sd] == absorb_particles && para == 0) gone_ok = true; // stays on an absorbing wall
    if (!few && !gone_ok && all.size() != exp.size() * nper) { c.fail("count", "emitted %d particles, expected %d from %d faces", (int)all.size(), (int)exp.size() * nper, (int)exp.size()); break; }
    std::sort(all.begin(), all.end(), [](const Act &a, const Act &b) { return a.w < b.w; }); std::vector<int> cnt(exp.size(), 0);
    for (size_t i = 0; i < all.size() && !c.failed; i++) {
      const Act &A = all[i]; double tw = 3e-6 * A.w; size_t lo = std::lower_bound(ew.begin(), ew.end(), std::make_pair(A.w - tw, -1)) - ew.begin(), hi = std::upper_bound(ew.begin(), ew.end(), std::make_pair(A.w + tw, 1 << 30)) - ew.begin();
      if (lo == hi) { c.fail("weight", "an emitted particle has weight %.9g, which belongs to no emitting face", A.w); break; }
      if (!few && !gone_ok && (i / nper < lo || i / nper >= hi)) { c.fail("per-face", "a face emitted a number of particles other than %d", nper); break; }
      if (hi - lo > 1) continue;
      const Comp &k = exp[ew[lo].second]; cnt[ew[lo].second]++; int a = k.a; double gm = gamma_of(A.u), Xf = 2. * k.cell[a] + (k.dir > 0 ? 0 : 2), d = A.X[a] - Xf, N2 = 2. * q.gn[a]; if (q.periodic(a)) d -= k.dir > 0 ? N2 * floor((d + 2e-5) / N2) : N2 * ceil((d - 2e-5) / N2);
      if (!(A.u[a] * k.dir >= 0)) { c.fail("direction", "a particle emitted through face %d of cell (%d,%d,%d) has u %g", a, k.cell[0], k.cell[1], k.cell[2], A.u[a]); break; }
      if (para) dn.push_back(-expm1(-A.u[a] * A.u[a] / (2. * para * para))); else if (A.u[a] != 0) c.fail("para", "normal momentum %g with zero temperature", A.u[a]);
      double per = cd[a] * A.u[a] / gm, age = fabs(per) > 1e-9 ? d / per : 0, ta = fabs(per) > 1e-9 ? 1e-5 / fabs(per) : 1; if (!(fabs(d) <= fabs(per) + 1e-5) || !(age >= -ta && age <= 1 + ta)) { c.fail("age", "a particle moved %g half-cells off its face, which is outside [0, 1] steps of motion (%g)", d, per); break; }
      if (fabs(per) > 0.02 && rm > 64) da.push_back(age);
      for (int b = 0; b < 3; b++) if (b != a) {
        if (perp) dp.push_back(Phi(A.u[b] / perp)); else if (A.u[b] != 0) c.fail("perp", "transverse momentum %g with zero temperature", A.u[b]);
        if (fabs(per) <= 0.02 && A.u[b] != 0) continue; double M2 = 2. * q.gn[b], tb = 3e-5 + (fabs(per) > 0.02 ? 1e-5 / fabs(per) * cd[b] * fabs(A.u[b]) / gm : 0), s = A.X[b] - age * cd[b] * A.u[b] / gm;
        if (q.periodic(b)) { double mid = 2. * k.cell[b] + 1; s -= M2 * floor((s - mid) / M2 + 0.5); } else { double m1 = -s, m2 = 2 * M2 - s; auto in = [&](double v) { return v >= 2. * k.cell[b] - tb && v <= 2. * k.cell[b] + 2 + tb; }; if (!in(s)) { if (in(m1)) s = m1; else if (in(m2)) s = m2; } }
        double f = (s - 2. * k.cell[b]) / 2; if (!(f >= -tb && f <= 1 + tb)) { c.fail("origin", "a particle does not originate on its face: axis %d at %.6g of cell %d", b, f, k.cell[b]); break; } if (tb < 1e-3) dx.push_back(std::min(1., std::max(0., f)));
      }
    }
    if (pbt::any_rank(c.failed)) break;
    W.load_current(); W.load_rho(); ch_gather(q, W.fa, g, R, J, rho1); ch_continuity(c, q, R, J, rho0, rho1, NULL, 8 * fabs((double)qq) * wmax / V * (nper + 2) * 6, 4e-6);
    if (pbt::any_rank(c.failed)) break;
  }
  if (!c.failed && !few) { ks("emit-para", "normal momentum of emitted particles", dn); ks("emit-perp", "transverse momentum of emitted particles", dp); ks("emit-age", "age of emitted particles", da); ks("emit-origin", "origin of emitted particles on their face", dx); }
  c.label(few ? "emitter with little storage" : "emitter"); if (exp.size()) c.nontrivial(); delete_emitter_list(el); W.destroy(); delete_rng_pool(rp);
}
void pbt_case(pbt::Ctx &c) { C = &c; if (c.flag(0.4)) emit_case(c); else walls_case(c); }

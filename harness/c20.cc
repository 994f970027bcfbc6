// C20: particle injection: exactly once, at the requested place, with consistent charge bookkeeping, with and without ageing.
#include "simlib.h"
const char *pbt_check_name = "C20";
void pbt_setup() {}
void pbt_teardown() {}
struct Inj { int tag; double x[3], u[3], age; int upd, kind; }; // kind 0 inject_particle, 1 raw, 2 raw with displacement
struct Made { int tag, rank; int aged; };
struct Act { int tag, rank; float w, o[3], u[3]; double X[3]; };
struct Pt { int comp; long long at; double v; };
static Geo Q; static float SQ, SM; static int MAXNP, MAXNM; static bool oop;
static void c20_init(vpic_simulation *s, int, char **) {
  s->num_step = 1; s->verbose = 1; s->seed_entropy(1); s->define_units(Q.cvac, Q.eps0); s->define_timestep(Q.dt, 0, 0); geo_partition(Q, s->grid); s->px = Q.gp[0]; s->py = Q.gp[1]; s->pz = Q.gp[2];
  s->define_material("vacuum", 1); s->define_field_array(NULL, 0); s->define_species("other", 1, 1, 4, 4, 0, 0); s->define_species("a", SQ, SM, MAXNP, MAXNM, 0, oop);
}
static void gather(const Geo &q, field_array_t *fa, grid_t *g, RefField &R, std::vector<double> *J, std::vector<double> &rho) {
  std::vector<Pt> mine; LocalMap L(q); int ln[3] = {g->nx, g->ny, g->nz};
  for (int z = 1; z <= ln[2] + 1; z++) for (int y = 1; y <= ln[1] + 1; y++) for (int x = 1; x <= ln[0] + 1; x++) {
    int l[3] = {x, y, z}, G[3] = {x + L.off[0], y + L.off[1], z + L.off[2]}; const field_t &f = fa->f[vox(g, x, y, z)]; Pt p; p.at = (long long)R.at(G);
    if (J) for (int a = 0; a < 3; a++) if (l[a] <= ln[a]) { p.comp = a; p.v = (&f.jfx)[a]; mine.push_back(p); }
    p.comp = 3; p.v = (double)f.rhof + f.rhob; mine.push_back(p);
  }
  std::vector<Pt> all = pbt::allgatherv(mine); for (size_t i = 0; i < all.size(); i++) (all[i].comp < 3 ? J[all[i].comp] : rho)[all[i].at] = all[i].v;
}
static void load_rho(field_array_t *fa, species_t *sp) { fa->kernel->clear_rhof(fa); accumulate_rho_p(fa, sp); fa->kernel->synchronize_rho(fa); }
void pbt_case(pbt::Ctx &c) {
  GeoOpt o; o.maxn = 4; o.allow_pmc = true; o.courant_hi = 0.99; Geo q = gen_geo(c, o); Q = q; SQ = (c.flag() ? -1 : 1) * (float)c.logreal(0.1, 10); SM = (float)c.logreal(0.1, 10); oop = c.flag();
  int n = 1 + (int)c.draw(c.flag(0.4) ? 200 : 20), rounds = 1 + (int)c.draw(2); double us = c.logreal(0.01, 20); bool tightm = c.flag(0.2); bool fatal_free = true; (void)fatal_free;
  MAXNP = n + 1; MAXNM = tightm ? 1 + (int)c.draw(5) : 2 * n + 64; size_t mark = 0; (void)mark;
  sim_install(); sim_hooks.init = c20_init; simulation = new vpic_simulation(); simulation->initialize(0, NULL); vpic_simulation *S = simulation; grid_t *g = S->grid; species_t *sp = S->find_species("a"); field_array_t *fa = S->field_array;
  RefField R; R.init(q); size_t N = R.v[0].size(); double V = q.d(0) * q.d(1) * q.d(2); int ix[3]; q.rank_index(pbt::rank(), ix); LocalMap L(q); int ntag = 0; int nout = 0, naged = 0, nedge = 0; double emax[3];
  float flo[3], fhi[3]; for (int a = 0; a < 3; a++) { flo[a] = (float)q.lo[a]; fhi[a] = (float)q.hi[a]; emax[a] = std::max(fabs(q.lo[a]), fabs(q.hi[a])); }
  c.note("%sspecies q %g m %g, %d injections x %d rounds, u scale %.3g%s; ", q.str().c_str(), SQ, SM, n, rounds, us, tightm ? ", few movers" : "");
  for (int rd = 0; rd < rounds && !c.failed; rd++) {
    ensure_room(sp, n + 1); if (!tightm && sp->max_nm < sp->nm + n + 1) ensure_room(sp, n + 1);
    pbt::SplitMix r = c.bulk(); std::vector<Inj> in(n);
    int style = (int)c.draw(3);
    for (int k = 0; k < n; k++) {
      Inj &I = in[k]; I.tag = ntag + k; I.kind = r.irange(0, 9) == 0 ? 1 + r.irange(0, 1) : 0; I.upd = r.flag(); I.age = r.flag() ? 0 : r.flag(0.2) ? 1 : r.unit();
      for (int a = 0; a < 3; a++) {
        int e = style == 0 ? 0 : r.irange(0, 9); double h = q.d(a), x;
        if (e <= 4) x = q.lo[a] + (q.hi[a] - q.lo[a]) * r.unit();
        else if (e == 5) x = q.lo[a] + h * r.irange(0, q.gn[a]); // a cell face
        else if (e == 6) { int p = r.irange(0, q.gp[a]); double f = (double)p / q.gp[a]; x = (float)(q.lo[a] * (1 - f) + q.hi[a] * f); } // exactly a domain boundary
        else if (e == 7) { int p = r.irange(0, q.gp[a]); double f = (double)p / q.gp[a]; x = (float)(q.lo[a] * (1 - f) + q.hi[a] * f); x = nextafter(x, r.flag() ? 1e30 : -1e30); }
        else if (e == 8) { x = q.lo[a] + h * (r.irange(0, q.gn[a]) + 1e-7 * (r.unit() - 0.5)); }
        else if (style == 2) x = r.flag() ? q.lo[a] - h * (1e-6 + r.unit() * 2) : q.hi[a] + h * (1e-6 + 2 * r.unit());
        else x = q.lo[a] + (q.hi[a] - q.lo[a]) * r.unit();
        I.x[a] = x; I.u[a] = gen_u(r, us);
      }
    }
    std::vector<double> J[3], rho0(N, 0), rho1(N, 0), extra(N, 0), mag(N, 0); for (int a = 0; a < 3; a++) J[a].assign(N, 0);
    load_rho(fa, sp); gather(q, fa, g, R, 0, rho0);
    // everything that must not change while injecting
    int np0 = sp->np; std::vector<particle_t> old(sp->p, sp->p + np0); species_t *oth = S->find_species("other");
    clear_accumulator_array(S->accumulator_array);
    std::vector<Made> made;
    for (int k = 0; k < n && !c.failed; k++) {
      Inj &I = in[k]; int b = sp->np, bm = sp->nm, lc[3]; float w = (I.tag + 1) / 1024.f;
      if (I.kind == 0) S->inject_particle(sp, I.x[0], I.x[1], I.x[2], I.u[0], I.u[1], I.u[2], w, I.age, I.upd);
      else { // raw injection addresses a local cell and offset; choose the cell that holds the position
        int gc[3]; float of[3]; bool ok = true; for (int a = 0; a < 3; a++) { double X = (I.x[a] - q.lo[a]) / q.d(a); gc[a] = (int)floor(X); if (X < 0 || gc[a] >= q.gn[a]) ok = false; of[a] = (float)(2 * (X - gc[a]) - 1); if (of[a] > 1) of[a] = 1; if (of[a] < -1) of[a] = -1; }
        if (ok && own_cell(q, gc, lc)) {
          double gm = gamma_of(I.u); float d[3]; for (int a = 0; a < 3; a++) d[a] = (float)(I.u[a] / gm * I.age * q.cvac * q.dt / q.d(a)); int v = vox(g, lc[0], lc[1], lc[2]);
          if (I.kind == 2 && sp->nm < sp->max_nm) S->inject_particle_raw(sp, of[0], of[1], of[2], v, (float)I.u[0], (float)I.u[1], (float)I.u[2], w, d[0], d[1], d[2], I.upd); else S->inject_particle_raw(sp, of[0], of[1], of[2], v, (float)I.u[0], (float)I.u[1], (float)I.u[2], w);
        } }
      if (sp->np != b && sp->np != b + 1) c.fail("count", "one injection added %d particles", sp->np - b);
      if (sp->np == b + 1) { Made m; m.tag = I.tag; m.rank = pbt::rank(); m.aged = I.kind == 1 ? 0 : bm < sp->max_nm; made.push_back(m);
        const particle_t &p = sp->p[b]; int x, y, z; unvox(g, p.i & (sp->nm > bm ? 0 : -1), x, y, z); if (sp->nm == bm && (x < 1 || y < 1 || z < 1 || x > g->nx || y > g->ny || z > g->nz)) c.fail("cell", "particle injected in cell (%d,%d,%d)", x, y, z);
        for (int a = 0; a < 3; a++) if (!(fabsf((&p.dx)[a]) <= 1)) c.fail("offset", "injected offset %.9g", (&p.dx)[a]); }
      if (sp->nm > sp->max_nm) c.fail("movers", "%d movers in storage for %d", sp->nm, sp->max_nm);
    }
    if ((np0 && memcmp(&old[0], sp->p, np0 * sizeof(particle_t))) || oth->np || oth->nm) c.fail("bystander", "injection changed a particle injected before or another species");
    std::vector<Made> gm = pbt::allgatherv(made); std::vector<int> cnt(ntag + n, 0), aged(ntag + n, 0); for (size_t i = 0; i < gm.size(); i++) { if (gm[i].tag < ntag || gm[i].tag >= ntag + n) continue; cnt[gm[i].tag]++; aged[gm[i].tag] = gm[i].aged; }
    // the predicted set
    struct P { bool made, gone; double X[3], tol[3], u[3]; bool maybe, amb[3]; }; std::vector<P> pr(ntag + n);
    for (int k = 0; k < n && !c.failed; k++) {
      Inj &I = in[k]; P &p = pr[I.tag]; p.made = true; p.gone = p.maybe = false; bool amb = false, edge = false;
      for (int a = 0; a < 3; a++) {
        double lim = 4e-7 * (emax[a] + q.d(a)), x = I.x[a]; p.X[a] = 2 * (x - q.lo[a]) / q.d(a); p.tol[a] = 2e-6 + 4 * 6e-8 * emax[a] / q.d(a) * 2; p.u[a] = (float)I.u[a]; p.amb[a] = false;
        bool ein = q.periodic(a) ? (x >= flo[a] && x < fhi[a]) : (x >= flo[a] && x <= fhi[a]); (void)lim;
        if (I.kind) { double X = (x - q.lo[a]) / q.d(a); bool raw = !(X < 0) && (int)floor(X) < q.gn[a]; if (raw != ein) amb = true; ein = raw; }
        if (!ein) p.made = false; for (int f = 0; f <= q.gp[a]; f++) if (fabs(x - (q.lo[a] + (q.hi[a] - q.lo[a]) * f / q.gp[a])) < lim) edge = true;
      }
      (void)amb; if (edge) nedge++; if (!p.made) nout++;
      if (cnt[I.tag] != (p.made ? 1 : 0)) { c.fail(cnt[I.tag] > 1 ? "duplicated" : p.made ? "not-created" : "created-outside", "injection at (%.17g,%.17g,%.17g) [kind %d] created %d particles, expected %d", I.x[0], I.x[1], I.x[2], I.kind, cnt[I.tag], p.made ? 1 : 0); break; }
      if (!p.made) continue;
      double w = (I.tag + 1) / 1024., qw = (double)SQ * w;
      // trilinear weights at the initial position
      int g0[3]; double ff[3]; for (int a = 0; a < 3; a++) { double X = std::min(std::max(p.X[a] / 2, 0.), (double)q.gn[a]); g0[a] = std::min((int)X, q.gn[a] - 1); ff[a] = X - g0[a]; }
      for (int m = 0; m < 8; m++) { int G[3]; double t = qw / V; for (int a = 0; a < 3; a++) { int b = (m >> a) & 1; G[a] = g0[a] + 1 + b; t *= b ? ff[a] : 1 - ff[a]; if (!q.periodic(a) && (G[a] == 1 || G[a] == q.gn[a] + 1)) t *= 2; } size_t at = R.at(G); if (!I.upd || I.kind == 1 || (I.kind == 2 && !aged[I.tag])) extra[at] += t; mag[at] += fabs(qw / V) * 8; }
      if ((I.age != 0 || I.kind == 2) && aged[I.tag]) {
        naged++; double gam = gamma_of(I.u);
        for (int a = 0; a < 3; a++) {
          double N2 = 2. * q.gn[a], X = p.X[a] + 2 * q.cvac * q.dt / q.d(a) * I.age * I.u[a] / gam; p.tol[a] += 4e-6;
          if (q.periodic(a)) { X -= N2 * floor(X / N2); }
          else { double dlo = X, dhi = N2 - X, dm = std::min(dlo, dhi); int side = dlo < dhi ? 0 : 1; bool ab = q.pbc[a + 3 * side] == absorb_particles; bool onwall = std::min(p.X[a], N2 - p.X[a]) <= p.tol[a];
            if (fabs(dm) <= p.tol[a] || (onwall && I.u[a] * I.age == 0)) { if (ab) p.maybe = true; p.amb[a] = true; X = side ? N2 - fabs(dm) : fabs(dm); p.tol[a] *= 2; }
            else if (dm < 0) { if (ab) p.gone = true; else { X = side ? 2 * N2 - X : -X; p.u[a] = -p.u[a]; } }
          }
          p.X[a] = X;
        }
      }
    }
    if (pbt::any_rank(c.failed)) break;
    reduce_accumulator_array(S->accumulator_array); for (int b = 0; b < 3; b++) boundary_p(S->particle_bc_list, S->species_list, fa, S->accumulator_array); if (sp->nm) c.fail("movers-left", "%d unfinished movers after three exchanges", sp->nm);
    std::vector<Act> mine; for (int k = 0; k < sp->np; k++) { const particle_t &p = sp->p[k]; Act A; memset(&A, 0, sizeof A); A.rank = pbt::rank(); A.w = p.w; A.tag = (int)lrint(p.w * 1024.) - 1; int x[3]; if (p.i < 0 || p.i >= g->nv) { c.fail("cell", "particle in voxel %d", p.i); break; } unvox(g, p.i, x[0], x[1], x[2]); for (int a = 0; a < 3; a++) { A.o[a] = (&p.dx)[a]; A.u[a] = (&p.ux)[a]; A.X[a] = 2. * (x[a] - 1 + L.off[a]) + 1 + A.o[a]; if (x[a] < 1 || x[a] > (&g->nx)[a]) c.fail("cell", "particle in cell %d of axis %d", x[a], a); } mine.push_back(A); }
    std::vector<Act> all = pbt::allgatherv(mine); std::vector<int> seen(ntag + n, -1);
    for (size_t i = 0; i < all.size() && !c.failed; i++) { int t = all[i].tag; if (t < 0 || t >= ntag + n || all[i].w != (t + 1) / 1024.f) { c.fail("weight", "a particle has weight %.9g that was never requested", all[i].w); break; } if (seen[t] >= 0) { c.fail("duplicated", "particle %d exists twice", t); break; } seen[t] = (int)i; }
    for (int t = ntag; t < ntag + n && !c.failed; t++) {
      P &p = pr[t]; Inj &I = in[t - ntag]; if (!p.made) { if (seen[t] >= 0) c.fail("created-outside", "particle %d appeared", t); continue; }
      if (p.gone) { if (seen[t] >= 0) c.fail("not-absorbed", "particle %d aged past an absorbing wall but exists", t); continue; }
      if (seen[t] < 0) { if (!p.maybe) c.fail("lost", "injected particle %d (position %.9g %.9g %.9g, age %g) is gone", t, I.x[0], I.x[1], I.x[2], I.age); continue; }
      const Act &A = all[seen[t]];
      for (int a = 0; a < 3; a++) { double d = A.X[a] - p.X[a], N2 = 2. * q.gn[a]; if (q.periodic(a)) d -= N2 * floor(d / N2 + 0.5);
        if (!(fabs(d) <= p.tol[a])) { c.fail("position", "particle injected at %.9g (age %g, u %g) on axis %d is at half-cell coordinate %.9g, expected %.9g", I.x[a], I.age, I.u[a], a, A.X[a], p.X[a]); break; }
        if (A.u[a] != (float)p.u[a] && !(p.amb[a] && A.u[a] == -(float)p.u[a])) { c.fail("momentum", "injected momentum %.9g on axis %d, expected %.9g (requested %.9g at %.9g, age %g, now at %.9g)", A.u[a], a, p.u[a], I.u[a], I.x[a], I.age, A.X[a]); break; } }
    }
    if (pbt::any_rank(c.failed)) break;
    fa->kernel->clear_jf(fa); unload_accumulator_array(fa, S->accumulator_array); fa->kernel->synchronize_jf(fa); load_rho(fa, sp); gather(q, fa, g, R, J, rho1);
    if (pbt::rank() == 0) {
      int p[3], hi[3]; double scale = 0; for (int a = 0; a < 3; a++) hi[a] = R.per[a] ? q.gn[a] : q.gn[a] + 1; for (size_t i = 0; i < N; i++) scale = std::max(scale, mag[i] + fabs(rho0[i]) + fabs(rho1[i]));
      double ptol = 0; for (int a = 0; a < 3; a++) ptol = std::max(ptol, 4 * 6e-8 * emax[a] / q.d(a) * 2);
      for (p[2] = 1; p[2] <= hi[2] && !c.failed; p[2]++) for (p[1] = 1; p[1] <= hi[1] && !c.failed; p[1]++) for (p[0] = 1; p[0] <= hi[0] && !c.failed; p[0]++) {
        bool onpec = false; for (int a = 0; a < 3; a++) if (!R.per[a] && (p[a] == 1 || p[a] == q.gn[a] + 1) && q.fbc[a + 3 * (p[a] != 1)] == pec_fields) onpec = true; if (onpec) continue;
        size_t i = R.at(p); double div = 0, jm = 0;
        for (int a = 0; a < 3; a++) { int pm[3] = {p[0], p[1], p[2]}; pm[a]--; double jp = !R.per[a] && p[a] == q.gn[a] + 1 ? -J[a][R.at(pm)] : J[a][i], jn = !R.per[a] && p[a] == 1 ? -J[a][i] : J[a][R.at(pm)]; div += (jp - jn) / q.d(a); jm += (fabs(jp) + fabs(jn)) / q.d(a); }
        double res = rho1[i] - rho0[i] - extra[i] + q.dt * div, tol = (4e-6 + ptol) * scale + 3e-6 * q.dt * jm + 1e-30;
        if (!(fabs(res) <= tol)) c.fail("continuity", "node (%d,%d,%d): charge changed by %.9g, injected uncompensated %.9g, -dt div j %.9g (residual %.3g, tolerance %.3g)", p[0], p[1], p[2], rho1[i] - rho0[i], extra[i], -q.dt * div, res, tol);
      } }
    if (pbt::any_rank(c.failed)) break;
    ntag += n;
  }
  if (ntag > 2) c.nontrivial(); if (nout) c.label("some outside"); if (naged) c.label("aged"); if (nedge) c.label("on a domain boundary"); if (tightm) c.label("few movers");
  sim_end();
}

// Whole simulations: generated cases run through vpic_simulation itself, local (bitwise) and global (gathered) state.
#ifndef SIMLIB_H
#define SIMLIB_H
#include "fieldref.h"
#include "boundary/boundary.h"
#include "collision/collision.h"
#include "emitter/emitter.h"
#define IN_emitter
#include "emitter/emitter_private.h"
#undef IN_emitter
#include <malloc.h>
#include <unistd.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>

extern bool sim_quiet;

struct SpDef { float q, m; int np; double us; int cluster; int sort_interval, oop; bool tight; std::vector<GP> v; double w0; double size; };
enum { OP_LANGEVIN = 1, OP_TA = 2, OP_HS = 4, OP_LAC = 8, OP_HSF = 16, OP_LACF = 32 };
struct SimCase {
  Geo q; std::vector<MatDef> md; FieldFill F; float damp; std::vector<SpDef> sp;
  int num_step, ce, cb, re, rb, sync, status; int seed_base; uint64_t hs;
  bool ucur, ufld, uinj; double ucur_s, ufld_s; int ninj; bool same_seed_inj;
  int ops, op_interval; int wall_bc[6]; // 0 as in geometry, 1 reflux, 2 absorb tally
  bool emitter; int em_face, em_n; double em_thresh;
  bool vacuum_only; double escale, bscale, uthr;
  std::string str() const {
    char b[900]; std::string s = q.str();
    sprintf(b, "%d materials damp %g steps %d clean-e %d/%d clean-b %d/%d sync %d user(cur %d fld %d inj %d) ops %d@%d emitter %d walls %d%d%d%d%d%d; ", (int)md.size(), damp, num_step, ce, re, cb, rb, sync, ucur, ufld, uinj ? ninj : 0, ops, op_interval, emitter, wall_bc[0], wall_bc[1], wall_bc[2], wall_bc[3], wall_bc[4], wall_bc[5]);
    s += b; for (size_t i = 0; i < sp.size(); i++) { sprintf(b, "species q %g m %g np %d u %.3g spread %d sort %d%s; ", sp[i].q, sp[i].m, sp[i].np, sp[i].us, sp[i].cluster, sp[i].sort_interval, sp[i].oop ? " oop" : ""); s += b; }
    return s;
  }
};
struct SimOpt { bool cross, random_ops, walls_pmc; int maxn, maxnp, maxstep; bool materials; SimOpt() : cross(false), random_ops(false), walls_pmc(false), maxn(4), maxnp(250), maxstep(8), materials(true) {} };

// geometry drawn independently of the number of ranks
static inline Geo gen_geo_cross(pbt::Ctx &c, bool walls) {
  Geo g; int big = (int)c.draw(2);
  for (int a = 0; a < 3; a++) {
    g.gp[a] = 1;
    static const int small[] = {1, 2, 4, 4, 6}, large[] = {12, 8, 4, 12, 8}; 
    g.gn[a] = a == big ? large[c.draw(4)] : small[c.draw(4)];
    double h = c.flag(0.3) ? 1 : pow(2.0, -1 + 2 * c.unit()); g.lo[a] = c.flag() ? 0 : c.real(-5, 5); g.hi[a] = g.lo[a] + h * g.gn[a];
    bool per = !walls || c.flag(0.5) || g.gn[a] == 1;
    for (int s = 0; s < 2; s++) { int f = a + 3 * s; if (per) { g.fbc[f] = g.pbc[f] = PERIODIC; continue; } std::vector<int> fk; fk.push_back(pec_fields); fk.push_back(symmetric_fields); fk.push_back(absorb_fields); g.fbc[f] = c.pick(fk); g.pbc[f] = c.flag(0.4) ? absorb_particles : reflect_particles; }
  }
  g.cvac = c.flag(0.5) ? 1 : (float)c.logreal(0.5, 4); g.eps0 = c.flag(0.5) ? 1 : (float)c.logreal(0.25, 4);
  double w = 0; for (int a = 0; a < 3; a++) w += 1 / (g.d(a) * g.d(a));
  g.dt = (float)(c.real(0.3, 0.95) / sqrt(w) / g.cvac);
  return g;
}
static inline bool topo_for(Geo &g, int n, uint64_t t) {
  std::vector<int> o;
  for (int a = 1; a <= n; a++) if (n % a == 0) for (int b = 1; b <= n / a; b++) if ((n / a) % b == 0) { int p[3] = {a, b, n / a / b}; bool ok = true; for (int k = 0; k < 3; k++) if (g.gn[k] % p[k] || (p[k] > 1 && g.gn[k] / p[k] < 2)) ok = false; if (ok) o.push_back(a * 1000000 + b * 1000 + p[2]); }
  if (o.empty()) return false; int k = o[t % o.size()]; g.gp[0] = k / 1000000; g.gp[1] = (k / 1000) % 1000; g.gp[2] = k % 1000; return true;
}

static inline SimCase gen_sim(pbt::Ctx &c, const SimOpt &o) {
  SimCase s; bool walls = c.flag(0.7);
  if (o.cross) s.q = gen_geo_cross(c, walls);
  else { GeoOpt g; g.maxn = o.maxn; g.allow_walls = walls; g.allow_pmc = o.walls_pmc; g.courant_hi = 0.95; s.q = gen_geo(c, g); field_geo_fix(s.q); }
  Geo &q = s.q;
  s.md = gen_mats(c, q, o.materials ? 3 : 1, o.materials && c.flag(0.5)); if (!o.materials) for (int a = 0; a < 3; a++) s.md[0].eps[a] = s.md[0].mu[a] = 1, s.md[0].sig[a] = 0;
  s.damp = c.flag(0.5) ? 0 : (float)c.real(0, 0.2); s.vacuum_only = s.md.size() == 1;
  s.num_step = 1 + (int)c.draw(o.maxstep - 1);
  s.ce = c.flag(0.5) ? 1 + (int)c.draw(3) : 0; s.re = 1 + (int)c.draw(2); s.cb = c.flag(0.5) ? 1 + (int)c.draw(3) : 0; s.rb = 1 + (int)c.draw(2); s.sync = c.flag(0.5) ? 1 + (int)c.draw(3) : 0; s.status = c.flag(0.3) ? 2 : 0;
  s.hs = c.draw(0xffffff); s.seed_base = (int)c.draw(1000);
  int nsp = (int)c.draw(3); double kick = c.flag(0.2) ? 0 : c.logreal(1e-3, 0.3), rot = c.flag(0.3) ? 0 : c.logreal(1e-3, 0.5), kmax = 0, V = q.d(0) * q.d(1) * q.d(2), ncell = (double)q.gn[0] * q.gn[1] * q.gn[2];
  double wp = c.logreal(1e-3, 0.3);
  for (int k = 0; k < nsp; k++) {
    SpDef d; d.q = (c.flag() ? -1 : 1) * (float)c.logreal(0.3, 3); d.m = (float)c.logreal(0.3, 3); d.np = (int)c.draw(c.flag(0.4) ? o.maxnp : 30); d.us = c.logreal(0.01, 3); d.cluster = (int)c.draw(2);
    d.sort_interval = c.flag(0.6) ? 1 + (int)c.draw(3) : 0; d.oop = (int)c.draw(1); d.tight = c.flag(0.3); d.size = 1.0 / q.gn[0];
    pbt::SplitMix r = c.bulk(); d.v = gen_particles(r, q, d.np, d.us, d.cluster);
    double dens = d.cluster == 1 ? d.np : d.cluster == 2 ? d.np / 4. : d.np / ncell;
    d.w0 = (float)(0.5 * wp * wp * q.eps0 * d.m * V / ((double)d.q * d.q * q.dt * q.dt) / std::max(1.0, dens));
    for (int i = 0; i < d.np; i++) { GP &p = d.v[i]; p.tag = i; p.w = (float)(d.w0 * (1 + i / 4096.0)); for (int a = 0; a < 3; a++) p.o[a] = (float)r.real(-0.999, 0.999); }
    kmax = std::max(kmax, fabs((double)d.q) * q.dt / (2.0 * d.m * q.cvac)); s.sp.push_back(d);
  }
  if (kmax == 0) kmax = 1;
  s.escale = kick / kmax; s.bscale = rot / kmax; s.F.seed = s.hs + 1; s.F.mseed = s.hs + 2; s.F.mstyle = (int)c.draw(2);
  s.ucur = c.flag(0.3); s.ufld = c.flag(0.2); s.uinj = nsp && c.flag(0.4); s.ninj = 1 + (int)c.draw(20); s.ucur_s = q.eps0 / q.dt * 0.1 / kmax; s.ufld_s = 0.1 / kmax; s.same_seed_inj = true;
  s.ops = 0; s.op_interval = 1 + (int)c.draw(2); s.emitter = false; for (int f = 0; f < 6; f++) s.wall_bc[f] = 0; s.em_face = 0; s.em_n = 1; s.em_thresh = 0; s.uthr = 0.1;
  if (o.random_ops && nsp) {
    if (c.flag(0.6)) s.ops = (int)c.draw(63);
    for (int f = 0; f < 6; f++) if (q.pbc[f] != PERIODIC) s.wall_bc[f] = (int)c.draw(2);
    if (c.flag(0.3)) { s.emitter = true; s.em_face = (int)c.draw(5); s.em_n = 1 + (int)c.draw(3); s.em_thresh = c.flag() ? 0 : 0.3 * s.escale; }
  }
  return s;
}

static SimCase *cur_case = NULL; static particle_bc_t *cur_reflux = NULL, *cur_tally = NULL;
static void (*cur_diag)(vpic_simulation *) = NULL;

static double sim_perturb = 0; // relative perturbation of the initial state, to measure how strongly a case amplifies rounding
static inline void wrap_point(const Geo &q, int p[3]) { for (int a = 0; a < 3; a++) if (q.periodic(a)) { if (p[a] < 1) p[a] += q.gn[a]; if (p[a] > q.gn[a]) p[a] -= q.gn[a]; } }

static void sim_init_hook(vpic_simulation *sim, int, char **) {
  SimCase &S = *cur_case; const Geo &q = S.q; grid_t *g = sim->grid;
  cur_reflux = cur_tally = NULL; sim->verbose = 1; sim->num_step = S.num_step; sim->clean_div_e_interval = S.ce; sim->clean_div_b_interval = S.cb; sim->num_div_e_round = S.re; sim->num_div_b_round = S.rb; sim->sync_shared_interval = S.sync; sim->status_interval = S.status; sim->num_comm_round = 3;
  sim->seed_entropy(S.seed_base);
  sim->define_units(q.cvac, q.eps0); sim->define_timestep(q.dt, 0, 0);
  geo_partition(q, g); sim->px = q.gp[0]; sim->py = q.gp[1]; sim->pz = q.gp[2];
  for (size_t i = 0; i < S.md.size(); i++) { char nm[16]; sprintf(nm, "m%d", (int)i); const MatDef &d = S.md[i]; sim->define_material(nm, d.eps[0], d.eps[1], d.eps[2], d.mu[0], d.mu[1], d.mu[2], d.sig[0], d.sig[1], d.sig[2], 0, 0, 0); }
  sim->define_field_array(NULL, S.damp);
  for (size_t k = 0; k < S.sp.size(); k++) {
    SpDef &d = S.sp[k]; char nm[16]; sprintf(nm, "s%d", (int)k); int cnt = 0, l[3]; for (int i = 0; i < d.np; i++) cnt += own_cell(q, d.v[i].c, l);
    double room = S.uinj || S.emitter ? S.ninj * (S.num_step + 1) + (S.emitter ? S.em_n * g->nx * g->ny * g->nz * (S.num_step + 1) : 0) + 64 : 64;
    species_t *sp = sim->define_species(nm, d.q, d.m, (d.tight ? cnt : 2 * d.np) + room, 2 * (d.np + room + 16 * (n_pipelines() + 2)) + 64, d.sort_interval, d.oop);
    for (int i = 0; i < d.np; i++) if (own_cell(q, d.v[i].c, l)) { sp->p[sp->np++] = local_particle(g, d.v[i], l); if (sim_perturb) { particle_t &p = sp->p[sp->np - 1]; for (int a = 0; a < 3; a++) { (&p.ux)[a] *= (float)(1 + sim_perturb * hunit(S.hs, 80 + a, i, k, 0)); (&p.ux)[a] += (float)(0.1 * d.us * sim_perturb * hunit(S.hs, 90 + a, i, k, 0)); float o = (&p.dx)[a] + (float)(sim_perturb * hunit(S.hs, 84 + a, i, k, 0)); (&p.dx)[a] = std::max(-1.f, std::min(1.f, o)); } } }
  }
  LocalMap L(q); int ln[3] = {g->nx, g->ny, g->nz}, nm = (int)S.md.size();
  for (int z = 0; z <= g->nz + 1; z++) for (int y = 0; y <= g->ny + 1; y++) for (int x = 0; x <= g->nx + 1; x++) {
    field_t &f = sim->field_array->f[vox(g, x, y, z)]; int l[3] = {x, y, z}, G[3] = {x + L.off[0], y + L.off[1], z + L.off[2]}, M[3]; wrap_point(q, G);
    for (int k = 0; k < 8; k++) {
      for (int a = 0; a < 3; a++) { M[a] = G[a]; if (!q.periodic(a)) { if (M[a] < 1) M[a] = 1; bool node = k == MT_N || (k < 3 && k != a) || (k >= MT_F && k < MT_C && k - MT_F == a); int h = node ? q.gn[a] + 1 : q.gn[a]; if (M[a] > h) M[a] = h; } }
      fmatid(f, k) = (material_id)mat_of(S.F, nm, k, M[0], M[1], M[2]);
    }
    for (int k = 0; k < 6; k++) { bool in = true; for (int a = 0; a < 3; a++) if (l[a] < 1 || l[a] > ln[a] + (half_along(k, a) ? 0 : 1)) in = false; if (in) fcomp(f, k) = (float)((k < 3 ? S.escale : S.bscale) * hunit(S.F.seed, k, G[0], G[1], G[2]) * (1 + sim_perturb * hunit(S.hs, 88 + k, G[0], G[1], G[2]))); }
  }
  if (!S.sp.empty()) {
    species_t *s0 = sim->find_species("s0"), *s1 = S.sp.size() > 1 ? sim->find_species("s1") : s0; double ut = S.uthr;
    cur_reflux = cur_tally = NULL;
    bool wr = false, wt = false; for (int f = 0; f < 6; f++) { wr |= S.wall_bc[f] == 1; wt |= S.wall_bc[f] == 2; }
    if (wr) { cur_reflux = sim->define_particle_bc(maxwellian_reflux(sim->species_list, sim->entropy)); species_t *sp; LIST_FOR_EACH(sp, sim->species_list) set_reflux_temp(cur_reflux, sp, 0.1f, 0.2f); }
    if (wt) cur_tally = sim->define_particle_bc(absorb_tally(sim->species_list, sim->field_array));
    int ix[3]; q.rank_index(pbt::rank(), ix);
    for (int f = 0; f < 6; f++) if (S.wall_bc[f]) { int a = f % 3; if (ix[a] == (f >= 3 ? q.gp[a] - 1 : 0)) sim->set_domain_particle_bc(FACE_BC[f], get_particle_bc_id(S.wall_bc[f] == 1 ? cur_reflux : cur_tally)); }
    int iv = S.op_interval; double V = q.d(0) * q.d(1) * q.d(2), L0 = pow(V, 1. / 3.);
    if (S.ops & OP_LANGEVIN) sim->define_collision_op(langevin((float)(ut * ut * s0->m * q.cvac * q.cvac), (float)(0.1 / q.dt), s0, sim->entropy, iv));
    if (S.ops & OP_TA) { sim->define_collision_op(takizuka_abe("ta", s0, s1, sim->entropy, 1e-3, iv)); if (s1 != s0) sim->define_collision_op(takizuka_abe("ta1", s1, s1, sim->entropy, 1e-3, iv)); }
    double wmax = 0; for (size_t k = 0; k < S.sp.size(); k++) wmax = std::max(wmax, S.sp[k].w0 * 2); if (wmax == 0) wmax = 1; double rad = sqrt(0.05 * V / (wmax * q.cvac * q.dt));
    if (S.ops & OP_HS) sim->define_collision_op(hard_sphere("hs", s0, (float)rad, s1, (float)rad, sim->entropy, 1, iv));
    if (S.ops & OP_LAC) sim->define_collision_op(large_angle_coulomb("lac", s0, s1, (float)rad, sim->entropy, 1, iv));
    double n0 = 1 / V, rf = sqrt(0.1 * V / (q.cvac * q.dt));
    if (S.ops & OP_HSF) sim->define_collision_op(hard_sphere_fluid("hsf", (float)n0, 0.1f * q.cvac, 0, 0, (float)(ut * ut * s0->m * q.cvac * q.cvac), s0->m, (float)rf, s0, (float)rf, sim->entropy, iv));
    if (S.ops & OP_LACF) sim->define_collision_op(large_angle_coulomb_fluid("lacf", (float)n0, 0, 0.1f * q.cvac, 0, (float)(ut * ut * s1->m * q.cvac * q.cvac), s1->q, s1->m, s1, (float)rf, sim->entropy, iv));
    if (S.emitter) {
      emitter_t *e = child_langmuir(s0, sim->interpolator_array, sim->field_array, sim->accumulator_array, sim->entropy, S.em_n, (float)ut, (float)ut, (float)S.em_thresh, 1e-3f * (float)CHILD_LANGMUIR);
      int *cmp = size_emitter(e, g->nx * g->ny * g->nz), n = 0; for (int z = 1; z <= g->nz; z++) for (int y = 1; y <= g->ny; y++) for (int x = 1; x <= g->nx; x++) cmp[n++] = COMPONENT_ID(vox(g, x, y, z), FACE_BC[S.em_face]);
      sim->define_emitter(e);
    }
  }
}
static void sim_current_hook(vpic_simulation *sim) {
  SimCase &S = *cur_case; if (!S.ucur) return; grid_t *g = sim->grid; LocalMap L(S.q); int ln[3] = {g->nx, g->ny, g->nz};
  for (int z = 1; z <= g->nz + 1; z++) for (int y = 1; y <= g->ny + 1; y++) for (int x = 1; x <= g->nx + 1; x++) {
    int l[3] = {x, y, z}, G[3] = {x + L.off[0], y + L.off[1], z + L.off[2]}; wrap_point(S.q, G);
    for (int k = 0; k < 3; k++) { bool in = l[k] <= ln[k]; if (in) fcomp(sim->field_array->f[vox(g, x, y, z)], C_J + k) += (float)(S.ucur_s * hunit(S.hs + 17 * g->step, k + 40, G[0], G[1], G[2])); }
  }
}
static void sim_field_hook(vpic_simulation *sim) {
  SimCase &S = *cur_case; if (!S.ufld) return; grid_t *g = sim->grid; LocalMap L(S.q); int ln[3] = {g->nx, g->ny, g->nz};
  for (int z = 1; z <= g->nz + 1; z++) for (int y = 1; y <= g->ny + 1; y++) for (int x = 1; x <= g->nx + 1; x++) {
    int l[3] = {x, y, z}, G[3] = {x + L.off[0], y + L.off[1], z + L.off[2]}; bool wall = false; for (int a = 0; a < 3; a++) if (!S.q.periodic(a) && (G[a] == 1 || G[a] == S.q.gn[a] + 1)) wall = true; wrap_point(S.q, G);
    for (int k = 0; k < 3; k++) if (l[k] <= ln[k] && !wall) fcomp(sim->field_array->f[vox(g, x, y, z)], k) += (float)(S.ufld_s * hunit(S.hs + 31 * g->step, k + 50, G[0], G[1], G[2]));
  }
}
static inline void ensure_room(species_t *sp, int n) { // boundary_p shrinks storage, inject_particle does not grow it
  if (sp->np + n > sp->max_np) { particle_t *p; int m = sp->np + 2 * n; MALLOC_ALIGNED(p, m, 128); COPY(p, sp->p, sp->np); FREE_ALIGNED(sp->p); sp->p = p; sp->max_np = m; }
  if (sp->nm + n > sp->max_nm) { particle_mover_t *p; int m = sp->nm + 2 * n; MALLOC_ALIGNED(p, m, 128); COPY(p, sp->pm, sp->nm); FREE_ALIGNED(sp->pm); sp->pm = p; sp->max_nm = m; }
}
static void sim_particle_hook(vpic_simulation *sim) {
  SimCase &S = *cur_case; if (!S.uinj) return; const Geo &q = S.q; int64_t st = sim->grid->step; species_t *sp = sim->find_species("s0"); SpDef &d = S.sp[0]; ensure_room(sp, S.ninj);
  for (int i = 0; i < S.ninj; i++) {
    uint64_t h = S.hs + 1000 * st; double x[3], u[3]; for (int a = 0; a < 3; a++) { x[a] = q.lo[a] + q.d(a) * (floor(q.gn[a] * 0.5 * (1 + hunit(h, 60 + a, i, 0, 0))) + 0.5 + 0.49 * hunit(h, 64 + a, i, 0, 0)); u[a] = d.us * hunit(h, 68 + a, i, 0, 0); }
    int tag = (int)(d.np + st * S.ninj + i); double age = i & 1 ? 0.5 * (1 + hunit(h, 72, i, 0, 0)) : 0;
    sim->inject_particle(sp, x[0], x[1], x[2], u[0], u[1], u[2], d.w0 * (1 + tag / 4096.0), age, i & 2 ? 1 : 0);
  }
}
static void sim_diag_hook(vpic_simulation *sim) { if (cur_diag) cur_diag(sim); }
static void sim_nop(vpic_simulation *) {}
static inline void sim_install() { sim_quiet = true; sim_hooks.init = sim_init_hook; sim_hooks.current = sim_current_hook; sim_hooks.field = sim_field_hook; sim_hooks.particle = sim_particle_hook; sim_hooks.diag = sim_diag_hook; sim_hooks.coll = sim_nop; }
static inline vpic_simulation *sim_start(SimCase &S, bool reg = false) { cur_case = &S; sim_install(); simulation = new vpic_simulation(); simulation->initialize(0, NULL); if (reg) REGISTER_OBJECT(&simulation, checkpt_main, restore_main, NULL); return simulation; }
static inline void sim_end(bool reg = false) { if (reg) UNREGISTER_OBJECT(&simulation); delete simulation; simulation = NULL; }

// ---- local state, bit for bit
struct Snap {
  std::vector<std::pair<std::string, std::vector<char> > > v;
  void add(const std::string &n, const void *p, size_t k) { v.push_back(std::make_pair(n, std::vector<char>((const char *)p, (const char *)p + k))); }
  template <class T> void val(const std::string &n, const T &x) { add(n, &x, sizeof x); }
  void str(const std::string &n, const char *s) { add(n, s ? s : "(null)", s ? strlen(s) : 6); }
  uint64_t hash() const { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < v.size(); i++) { h = (h ^ v[i].second.size()) * 1099511628211ull; for (size_t j = 0; j < v[i].second.size(); j++) h = (h ^ (unsigned char)v[i].second[j]) * 1099511628211ull; } return h; }
  uint64_t hash(size_t i) const { uint64_t h = 1469598103934665603ull; for (size_t j = 0; j < v[i].second.size(); j++) h = (h ^ (unsigned char)v[i].second[j]) * 1099511628211ull; return h ^ (v[i].second.size() << 40); }
  // name of the first difference, "" if equal
  std::string diff(const Snap &o) const {
    if (v.size() != o.v.size()) return "number of parts";
    for (size_t i = 0; i < v.size(); i++) { if (v[i].first != o.v[i].first) return v[i].first + " vs " + o.v[i].first; if (v[i].second != o.v[i].second) { size_t j = 0; while (j < v[i].second.size() && j < o.v[i].second.size() && v[i].second[j] == o.v[i].second[j]) j++; char b[100]; sprintf(b, " (sizes %d/%d, first difference at byte %d)", (int)v[i].second.size(), (int)o.v[i].second.size(), (int)j); return v[i].first + b; } }
    return "";
  }
};
static inline Snap local_state(vpic_simulation *s, bool full) {
  Snap n; grid_t *g = s->grid;
  n.val("step", g->step);
  field_array_t *fa = s->field_array; n.add("fields", fa->f, g->nv * sizeof(field_t));
  species_t *sp; int k = 0;
  LIST_FOR_EACH(sp, s->species_list) { char b[40]; sprintf(b, "species[%d]", k++); std::string p(b); n.str(p + ".name", sp->name); n.val(p + ".np", sp->np); n.val(p + ".nm", sp->nm); n.val(p + ".last_sorted", sp->last_sorted); n.add(p + ".p", sp->p, sp->np * sizeof(particle_t)); n.val(p + ".q", sp->q); n.val(p + ".m", sp->m); n.val(p + ".id", sp->id);
    n.val(p + ".max_np", sp->max_np); n.val(p + ".max_nm", sp->max_nm); n.val(p + ".sort_interval", sp->sort_interval); n.val(p + ".sort_oop", sp->sort_out_of_place); if (full) { n.val(p + ".grid", sp->g == g); } }
  if (s->species_list) n.add("interpolators", s->interpolator_array->i, g->nv * sizeof(interpolator_t));
  if (cur_tally) n.add("tally", get_absorb_tally(cur_tally), num_species(s->species_list) * sizeof(int));
  n.add("intervals", &s->verbose, (char *)&s->entropy - (char *)&s->verbose);
  n.add("user_global", s->user_global, sizeof s->user_global);
  if (full) {
    n.add("grid.const", &g->dt, (char *)(g->bc + 27) - (char *)&g->dt);
    n.add("grid.neighbor", g->neighbor, 6 * (size_t)g->nv * sizeof(int64_t)); n.add("grid.range", g->range, (pbt::nranks() + 1) * sizeof(int64_t)); n.val("rangel", g->rangel); n.val("rangeh", g->rangeh); 
    material_t *m; LIST_FOR_EACH(m, s->material_list) { n.str("material", m->name); n.val("material.id", m->id); n.add("material.v", &m->epsx, (char *)&m->next - (char *)&m->epsx); }
    n.val("n_pbc", num_particle_bc(s->particle_bc_list)); n.val("n_cop", num_collision_op(s->collision_op_list)); n.val("n_em", num_emitter(s->emitter_list));
    emitter_t *e; LIST_FOR_EACH(e, s->emitter_list) n.add("emitter", e->component, e->n_component * sizeof(int));
    n.val("acc.n", s->accumulator_array->n_pipeline); n.val("acc.stride", s->accumulator_array->stride); n.add("accumulators", s->accumulator_array->a, (size_t)(s->accumulator_array->n_pipeline + 1) * s->accumulator_array->stride * sizeof(accumulator_t));
    n.val("n_rng", s->entropy->n_rng); n.val("n_rng_sync", s->sync_entropy->n_rng);
  }
  return n;
}
// consumes random numbers: only at the very end
static inline void add_rng(Snap &n, vpic_simulation *s) { for (int i = 0; i < s->entropy->n_rng; i++) for (int k = 0; k < 2; k++) { double d = drand(s->entropy->rng[i]); n.val("rng", d); } for (int i = 0; i < s->sync_entropy->n_rng; i++) { double d = drand(s->sync_entropy->rng[i]); n.val("sync_rng", d); } }

// ---- global state gathered on rank 0
struct PRec { int sp, tag; double X[3]; float u[3], w; };
struct FRec { int64_t at; int comp; float v; };
struct GState {
  std::vector<PRec> p; int nf; std::vector<float> f; std::vector<char> fset; std::vector<double> en; double close, cond; // closest approach of a particle to a cell face, any step
  GState() : nf(0), close(1), cond(0) {}
};
enum { GF_J = 6, GF_RHOB = 9, GF_TCA = 10, GF_H = 13 };
static double close_min = 1;
static inline void track_close(vpic_simulation *s) { species_t *sp; LIST_FOR_EACH(sp, s->species_list) for (int k = 0; k < sp->np; k++) for (int a = 0; a < 3; a++) close_min = std::min(close_min, 1.0 - fabs((&sp->p[k].dx)[a])); }
static inline GState global_state(vpic_simulation *s, const SimCase &S) {
  GState G; const Geo &q = S.q; grid_t *g = s->grid; LocalMap L(q); int ln[3] = {g->nx, g->ny, g->nz}, nsp = (int)S.sp.size();
  std::vector<PRec> mine; std::vector<species_t *> sps; for (int k = 0; k < nsp; k++) { char b[16]; sprintf(b, "s%d", k); sps.push_back(s->find_species(b)); }
  for (int k = 0; k < nsp; k++) for (int i = 0; i < sps[k]->np; i++) {
    const particle_t &p = sps[k]->p[i]; PRec r; memset(&r, 0, sizeof r); r.sp = k; r.tag = (int)lrint((p.w / S.sp[k].w0 - 1) * 4096); int x[3]; unvox(g, p.i, x[0], x[1], x[2]); for (int a = 0; a < 3; a++) { r.X[a] = 2.0 * (x[a] - 1 + L.off[a]) + 1 + (&p.dx)[a]; r.u[a] = (&p.ux)[a]; } r.w = p.w; mine.push_back(r); }
  G.p = pbt::allgatherv(mine); std::sort(G.p.begin(), G.p.end(), [](const PRec &a, const PRec &b) { return a.sp != b.sp ? a.sp < b.sp : a.tag < b.tag; });
  int SX[3]; for (int a = 0; a < 3; a++) SX[a] = q.gn[a] + 2; size_t N = (size_t)SX[0] * SX[1] * SX[2];
  G.nf = GF_H + 14 * nsp; G.f.assign(N * G.nf, 0); G.fset.assign(N * G.nf, 0);
  std::vector<FRec> fr;
  auto put = [&](int comp, int c, const int l[3], float v) { int x[3]; for (int a = 0; a < 3; a++) { x[a] = l[a] + L.off[a]; if (l[a] < 1 || l[a] > ln[a] + (half_along(c, a) ? 0 : 1)) return; } wrap_point(q, x); FRec r; r.at = (int64_t)x[0] + SX[0] * (x[1] + (int64_t)SX[1] * x[2]); r.comp = comp; r.v = v; fr.push_back(r); };
  for (int z = 1; z <= g->nz + 1; z++) for (int y = 1; y <= g->ny + 1; y++) for (int x = 1; x <= g->nx + 1; x++) { int l[3] = {x, y, z}; field_t &f = s->field_array->f[vox(g, x, y, z)];
    for (int k = 0; k < 6; k++) put(k, k, l, fcomp(f, k)); for (int k = 0; k < 3; k++) { put(GF_J + k, C_J + k, l, fcomp(f, C_J + k)); put(GF_TCA + k, C_T + k, l, fcomp(f, C_T + k)); } }
  { // bound charge is kept as local contributions between synchronisations; the physical value is the synchronised one
    std::vector<char> keep((char *)s->field_array->f, (char *)s->field_array->f + g->nv * sizeof(field_t)); s->field_array->kernel->synchronize_rho(s->field_array);
    for (int z = 1; z <= g->nz + 1; z++) for (int y = 1; y <= g->ny + 1; y++) for (int x = 1; x <= g->nx + 1; x++) { int l[3] = {x, y, z}; put(GF_RHOB, C_RHOB, l, s->field_array->f[vox(g, x, y, z)].rhob); }
    memcpy((char *)s->field_array->f, &keep[0], keep.size()); }
  for (int k = 0; k < nsp; k++) {
    clear_hydro_array(s->hydro_array); accumulate_hydro_p(s->hydro_array, sps[k], s->interpolator_array); synchronize_hydro_array(s->hydro_array);
    for (int z = 1; z <= g->nz + 1; z++) for (int y = 1; y <= g->ny + 1; y++) for (int x = 1; x <= g->nx + 1; x++) { int l[3] = {x, y, z}; const float *h = (const float *)&s->hydro_array->h[vox(g, x, y, z)]; for (int j = 0; j < 14; j++) put(GF_H + 14 * k + j, C_RHOF, l, h[j]); }
  }
  std::vector<FRec> all = pbt::allgatherv(fr); for (size_t i = 0; i < all.size(); i++) { size_t j = (size_t)all[i].comp * N + all[i].at; G.f[j] = all[i].v; G.fset[j] = 1; }
  double en[6]; s->field_array->kernel->energy_f(en, s->field_array); for (int k = 0; k < 6; k++) G.en.push_back(en[k]); for (int k = 0; k < nsp; k++) G.en.push_back(energy_p(sps[k], s->interpolator_array));
  G.close = -pbt::max_rank(-close_min);
  return G;
}
static inline const char *gf_name(int k) { static char b[40]; static const char *h[14] = {"jx", "jy", "jz", "rho", "px", "py", "pz", "ke", "txx", "tyy", "tzz", "tyz", "tzx", "txy"}; if (k < 6) return comp_name[k]; if (k < GF_RHOB) return comp_name[C_J + k - GF_J]; if (k == GF_RHOB) return "rhob"; if (k < GF_H) return comp_name[C_T + k - GF_TCA]; sprintf(b, "species %d %s", (k - GF_H) / 14, h[(k - GF_H) % 14]); return b; }
// compares b to reference a; tol relative to the largest magnitude in each group. ratio: worst deviation / scale
static inline bool cmp_state(pbt::Ctx &c, const GState &a, const GState &b, const SimCase &S, double tol, double *ratio = 0) {
  const Geo &q = S.q; double worst = 0; int nsp = (int)S.sp.size(); size_t N = a.f.size() / std::max(1, a.nf);
  if (a.nf != b.nf || a.f.size() != b.f.size() || a.en.size() != b.en.size()) { c.fail("shape", "states differ in shape"); return false; }
  double fs[2] = {0, 0}, js = 0, rs = 0; for (int k = 0; k < 6; k++) for (size_t i = 0; i < N; i++) { double x = fabs(a.f[k * N + i]); fs[0] = std::max(fs[0], x); } (void)fs[1];
  for (int k = GF_TCA; k < GF_H; k++) for (size_t i = 0; i < N; i++) fs[1] = std::max(fs[1], (double)fabs(a.f[k * N + i]));
  for (int k = GF_J; k < GF_RHOB; k++) for (size_t i = 0; i < N; i++) js = std::max(js, (double)fabs(a.f[k * N + i])); 
  double hm = std::min(q.d(0), std::min(q.d(1), q.d(2))), epsm = 1, mum = 1; for (size_t i = 0; i < S.md.size(); i++) for (int k = 0; k < 3; k++) epsm = std::max(epsm, (double)S.md[i].eps[k]), mum = std::max(mum, 1.0 / S.md[i].mu[k]);
  double chs = 0, V = q.d(0) * q.d(1) * q.d(2); for (int k = 0; k < nsp; k++) chs = std::max(chs, fabs((double)S.sp[k].q) * S.sp[k].w0 * 4 / V); for (int k = 0; k < nsp; k++) for (size_t i = 0; i < N; i++) chs = std::max(chs, (double)fabs(a.f[(GF_H + 14 * k + 3) * N + i]));
  rs = chs + q.eps0 * epsm * fs[0] / hm; js = std::max(js, chs * q.cvac); double es = fs[0] + js * q.dt / q.eps0 + chs * hm / q.eps0; fs[0] = es; fs[1] = std::max(fs[1], es * mum);
  for (int k = 0; k < a.nf; k++) {
    double sc = k < 6 ? fs[0] : k < GF_RHOB ? js : k == GF_RHOB ? rs : k < GF_H ? fs[1] : 0;
    if (k >= GF_H) { int j = (k - GF_H) % 14, base = k - j, lo = j < 3 ? 0 : j == 3 ? 3 : j < 7 ? 4 : j == 7 ? 7 : 8, hi = j < 3 ? 3 : j == 3 ? 4 : j < 7 ? 7 : j == 7 ? 8 : 14; for (int m = lo; m < hi; m++) for (size_t i = 0; i < N; i++) sc = std::max(sc, (double)fabs(a.f[(base + m) * N + i]));
      // signed moments may cancel: use the density times a typical momentum as a floor
      int sp = (k - GF_H) / 14; double us = std::max(S.sp[sp].us, 1e-3), rho = 0; for (size_t i = 0; i < N; i++) rho = std::max(rho, (double)fabs(a.f[(base + 3) * N + i])); double n = rho / fabs((double)S.sp[sp].q), mc = S.sp[sp].m * q.cvac;
      for (size_t i = 0; i < a.p.size(); i++) if (a.p[i].sp == sp) for (int x = 0; x < 3; x++) us = std::max(us, (double)fabs(a.p[i].u[x]));
      double fl = j < 3 ? rho * q.cvac * std::min(us, 1.0) : j == 3 ? rho : j < 7 ? n * mc * us : n * mc * q.cvac * std::min(us, 1.0) * us; sc = std::max(sc, fl); }
    for (size_t i = 0; i < N; i++) {
      if (a.fset[k * N + i] != b.fset[k * N + i]) { c.fail("coverage", "%s: a mesh point is held in one run and not in the other", gf_name(k)); return false; }
      double d = fabs((double)a.f[k * N + i] - b.f[k * N + i]); if (d > worst * sc) worst = d / (sc + 1e-300);
      if (!(d <= tol * sc + 1e-30)) { int SX = q.gn[0] + 2, SY = q.gn[1] + 2; c.fail("field", "%s at (%d,%d,%d): reference %.9g, here %.9g (scale %.3g)", gf_name(k), (int)(i % SX), (int)(i / SX % SY), (int)(i / SX / SY), a.f[k * N + i], b.f[k * N + i], sc); return false; }
    }
  }
  double ef = 0; for (int k = 0; k < 6; k++) ef += fabs(a.en[k]); for (size_t k = 0; k < a.en.size(); k++) { double sc = k < 6 ? ef + q.eps0 * es * es * V * 1e-3 : fabs(a.en[k]); double d = fabs(a.en[k] - b.en[k]); if (k >= 6) { double t = 0; for (size_t i = 0; i < a.p.size(); i++) if (a.p[i].sp == (int)k - 6) { double u2 = 0; for (int x = 0; x < 3; x++) u2 += a.p[i].u[x] * a.p[i].u[x]; u2 += 1e-4 * S.sp[k - 6].us; t += a.p[i].w * S.sp[k - 6].m * q.cvac * q.cvac * u2; } sc = std::max(sc, t); } worst = std::max(worst, d / (sc + 1e-300)); if (!(d <= 2 * tol * sc + 1e-30)) { c.fail("energy", "energy %d: reference %.9g, here %.9g", (int)k, a.en[k], b.en[k]); return false; } }
  // particles
  size_t i = 0, j = 0;
  while (i < a.p.size() || j < b.p.size()) {
    int o = i >= a.p.size() ? 1 : j >= b.p.size() ? -1 : a.p[i].sp != b.p[j].sp ? (a.p[i].sp < b.p[j].sp ? -1 : 1) : a.p[i].tag != b.p[j].tag ? (a.p[i].tag < b.p[j].tag ? -1 : 1) : 0;
    if (o) { const PRec &r = o < 0 ? a.p[i] : b.p[j]; c.fail("particle-set", "particle %d of species %d exists only in the %s run (at half-cell coordinate %.6g,%.6g,%.6g)", r.tag, r.sp, o < 0 ? "reference" : "present", r.X[0], r.X[1], r.X[2]); return false; }
    const PRec &x = a.p[i], &y = b.p[j]; double us = S.sp[x.sp].us, kap = fabs((double)S.sp[x.sp].q) * q.dt / (2.0 * S.sp[x.sp].m * q.cvac); for (int k = 0; k < 3; k++) us = std::max(us, (double)fabs(x.u[k])); us += 2 * kap * es;
    if (x.w != y.w) { c.fail("weight", "particle %d of species %d has weight %.9g, reference %.9g", x.tag, x.sp, y.w, x.w); return false; }
    for (int k = 0; k < 3; k++) {
      double d = fabs(x.X[k] - y.X[k]); if (q.periodic(k)) d = std::min(d, 2.0 * q.gn[k] - d); double dm = fabs((double)x.u[k] - y.u[k]); worst = std::max(worst, std::max(d, dm / us));
      if (!(d <= tol)) { c.fail("position", "particle %d of species %d axis %d: half-cell coordinate %.9g, reference %.9g", x.tag, x.sp, k, y.X[k], x.X[k]); return false; }
      if (!(dm <= tol * us)) { c.fail("momentum", "particle %d of species %d axis %d: u %.9g, reference %.9g (scale %.3g)", x.tag, x.sp, k, y.u[k], x.u[k], us); return false; }
    }
    i++; j++;
  }
  if (ratio) *ratio = worst;
  return true;
}

// ---- byte buffers and the helper process that runs the reference
struct Buf {
  std::vector<char> b; size_t pos; Buf() : pos(0) {}
  void put(const void *p, size_t n) { b.insert(b.end(), (const char *)p, (const char *)p + n); }
  template <class T> void v(const T &x) { put(&x, sizeof x); }
  template <class T> void vec(const std::vector<T> &x) { uint64_t n = x.size(); v(n); if (n) put(&x[0], n * sizeof(T)); }
  void get(void *p, size_t n) { if (pos + n > b.size()) { fprintf(stderr, "short buffer\n"); abort(); } memcpy(p, &b[pos], n); pos += n; }
  template <class T> T g() { T x; get(&x, sizeof x); return x; }
  template <class T> std::vector<T> gvec() { uint64_t n = g<uint64_t>(); std::vector<T> x(n); if (n) get(&x[0], n * sizeof(T)); return x; }
};
static inline void pack(Buf &B, const GState &G) { B.vec(G.p); B.v(G.nf); B.vec(G.f); B.vec(G.fset); B.vec(G.en); B.v(G.close); B.v(G.cond); }
static inline GState unpack(Buf &B) { GState G; G.p = B.gvec<PRec>(); G.nf = B.g<int>(); G.f = B.gvec<float>(); G.fset = B.gvec<char>(); G.en = B.gvec<double>(); G.close = B.g<double>(); G.cond = B.g<double>(); return G; }
static inline bool rd_all(int fd, void *p, size_t n) { char *c = (char *)p; while (n) { ssize_t k = read(fd, c, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; c += k; n -= k; } return true; }
static inline bool wr_all(int fd, const void *p, size_t n) { const char *c = (const char *)p; while (n) { ssize_t k = write(fd, c, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; c += k; n -= k; } return true; }
static inline bool rd_buf(int fd, std::vector<char> &b) { uint64_t n; if (!rd_all(fd, &n, 8)) return false; b.resize(n); return n == 0 || rd_all(fd, &b[0], n); }
static inline bool wr_buf(int fd, const std::vector<char> &b) { uint64_t n = b.size(); return wr_all(fd, &n, 8) && (n == 0 || wr_all(fd, &b[0], n)); }
struct Server {
  pid_t pid; int in, out; Server() : pid(0), in(-1), out(-1) {}
  // the environment without what ties this process to its MPI job
  static std::vector<std::string> clean_env() { std::vector<std::string> ev; for (char **e = environ; *e; e++) { std::string s(*e); if ((s.compare(0, 5, "OMPI_") == 0 && s.compare(0, 9, "OMPI_MCA_") != 0 && s.compare(0, 10, "OMPI_ALLOW") != 0) || s.compare(0, 4, "PMIX") == 0 || s.compare(0, 5, "PRTE_") == 0 || s.compare(0, 5, "ORTE_") == 0 || s.compare(0, 4, "PMI_") == 0 || s.compare(0, 14, "OMPI_MCA_orte_") == 0 || s.compare(0, 14, "OMPI_MCA_ess_b") == 0 || s == "OMPI_MCA_ess=env" || s.compare(0, 13, "OMPI_MCA_ess=") == 0 || s.compare(0, 13, "OMPI_MCA_pmix") == 0 || s.compare(0, 16, "OMPI_MCA_initial") == 0 || s.compare(0, 18, "OMPI_MCA_shmem_RUN") == 0) continue; ev.push_back(s); } return ev; }
  // cfg "" = this executable
  void start(const std::string &cfg, const std::vector<std::string> &args, const std::string &scratch) {
    char self[1024]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); self[n > 0 ? n : 0] = 0; std::string exe(self);
    if (!cfg.empty()) { size_t a = exe.rfind('/'), b = exe.rfind('/', a - 1); exe = exe.substr(0, b + 1) + cfg + exe.substr(a); }
    int pi[2], po[2]; if (pipe2(pi, O_CLOEXEC) || pipe2(po, O_CLOEXEC)) abort();
    std::vector<std::string> av; av.push_back(exe); for (size_t i = 0; i < args.size(); i++) av.push_back(args[i]);
    av.push_back("--pbt-opt"); av.push_back("server=1"); av.push_back("--pbt-scratch"); av.push_back(scratch);
    std::vector<std::string> ev = clean_env();
    std::vector<char *> avp, evp; for (size_t i = 0; i < av.size(); i++) avp.push_back((char *)av[i].c_str()); avp.push_back(0); for (size_t i = 0; i < ev.size(); i++) evp.push_back((char *)ev[i].c_str()); evp.push_back(0);
    pid = vfork();
    if (pid == 0) { dup2(pi[0], 198); dup2(po[1], 199); execve(avp[0], &avp[0], &evp[0]); _exit(127); }
    close(pi[0]); close(po[1]); in = pi[1]; out = po[0];
  }
  bool ask(const std::vector<char> &q, std::vector<char> &a) { return wr_buf(in, q) && rd_buf(out, a); }
  void stop() { if (!pid) return; close(in); close(out); kill(pid, SIGKILL); int st; waitpid(pid, &st, 0); pid = 0; }
};
// server side: fds 198 / 199
static inline bool server_mode() { return pbt::opt.count("server") != 0; }
#endif

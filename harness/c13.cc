// C13: checkpoint at any step, restore (in this process, or in a fresh process of the same build), continue: identical to the uninterrupted run.
#include "simlib.h"
#define IN_boundary
#include "boundary/boundary_private.h"
#undef IN_boundary
const char *pbt_check_name = "c13";
static Server srv; static bool have_srv = false; static long file_no = 0;
static void refind(vpic_simulation *sim, SimCase &S) { // the handlers were defined in a known order
  cur_reflux = cur_tally = NULL; bool wr = false, wt = false; for (int f = 0; f < 6; f++) { wr |= S.wall_bc[f] == 1; wt |= S.wall_bc[f] == 2; } if (S.sp.empty()) wr = wt = false;
  particle_bc_t *p; LIST_FOR_EACH(p, sim->particle_bc_list) { // list head is the newest
    if (wt && !cur_tally) cur_tally = p; else if (wr && !cur_reflux) cur_reflux = p; }
}
static void add_diag(Snap &n, vpic_simulation *s) {
  grid_t *g = s->grid; double en[6]; s->field_array->kernel->energy_f(en, s->field_array); n.add("field energy", en, sizeof en);
  species_t *sp; int k = 0; LIST_FOR_EACH(sp, s->species_list) { n.val("particle energy", energy_p(sp, s->interpolator_array));
    clear_hydro_array(s->hydro_array); accumulate_hydro_p(s->hydro_array, sp, s->interpolator_array); synchronize_hydro_array(s->hydro_array); char b[30]; sprintf(b, "moments[%d]", k++); std::vector<hydro_t> h; for (int z = 1; z <= g->nz + 1; z++) for (int y = 1; y <= g->ny + 1; y++) for (int x = 1; x <= g->nx + 1; x++) h.push_back(s->hydro_array->h[vox(g, x, y, z)]); n.add(b, &h[0], h.size() * sizeof(hydro_t)); }
  add_rng(n, s);
}
struct Track { std::vector<Snap> at; Snap end; };
static void clean_up(bool reg) { sim_end(reg); }
// runs from the current state; at[i] is the state after i more steps
static Track go_on(vpic_simulation *sim, int ck_at, const std::string &f) {
  Track t; int n = 0; t.at.push_back(local_state(sim, true));
  for (;;) {
    if (n == ck_at) { checkpt_objects(f.c_str()); Snap s = local_state(sim, true); std::string d = t.at.back().diff(s); if (!d.empty()) t.end.str("checkpoint changed the state", d.c_str()); }
    if (!sim->advance()) break;
    t.at.push_back(local_state(sim, true)); n++;
  }
  add_diag(t.end, sim); return t;
}
static vpic_simulation *do_restore(SimCase &S, const std::string &f) { cur_case = &S; sim_install(); simulation = NULL; restore_objects(f.c_str()); mp_barrier(); reanimate_objects(); mp_barrier(); refind(simulation, S); return simulation; }
static void put_track(Buf &B, const Track &t) { std::vector<uint64_t> h; for (size_t i = 0; i < t.at.size(); i++) h.push_back(t.at[i].hash()); B.vec(h); std::vector<uint64_t> e; for (size_t i = 0; i < t.at[0].v.size(); i++) e.push_back(t.at[0].hash(i)); B.vec(e); uint64_t x = t.end.hash(); B.v(x); }
struct Plan { int k, k2; bool again, cross; };
static SimCase make_case(pbt::Ctx &c, Plan &p) {
  SimOpt o; o.random_ops = true; o.maxn = 4; o.maxnp = 150; o.maxstep = 8; o.walls_pmc = true; SimCase S = gen_sim(c, o);
  p.k = (int)c.draw(S.num_step); p.again = c.flag(0.25); p.k2 = (int)c.draw(S.num_step - p.k); p.cross = c.flag(0.4); return S;
}
void pbt_setup() {
  mallopt(M_PERTURB, 0x5b);
  if (server_mode()) {
    std::vector<char> in; std::map<std::string, long> lab;
    while (rd_buf(198, in)) { Buf B; B.b = in; std::vector<uint64_t> ch = B.gvec<uint64_t>(); std::vector<char> f = B.gvec<char>(); pbt::Ctx c; c.labels = &lab; c.replay = &ch; Plan p; SimCase S = make_case(c, p); vpic_simulation *sim = do_restore(S, std::string(f.begin(), f.end())); Track t = go_on(sim, -1, ""); clean_up(true); Buf o; put_track(o, t); if (!wr_buf(199, o.b)) break; }
    _exit(0);
  }
  if (pbt::nranks() == 1) { std::vector<std::string> a; a.push_back("--tpp"); char b[20]; sprintf(b, "%d", N_PIPELINE > 0 ? N_PIPELINE : 1); a.push_back(b); srv.start("", a, "."); have_srv = true; }
}
void pbt_teardown() { if (have_srv) srv.stop(); }
void pbt_case(pbt::Ctx &c) {
  Plan p; SimCase S = make_case(c, p);
  c.note("%scheckpoint after step %d%s%s, pipelines %d", S.str().c_str(), p.k, p.again ? " and again in the restored run" : "", have_srv && p.cross ? ", restored in a new process" : "", n_pipelines());
  char b[600]; snprintf(b, sizeof b, "%s/ck%ld.%d", c.scratch.c_str(), file_no++, pbt::rank()); std::string f(b), f2 = f + "b";
  vpic_simulation *sim = sim_start(S, true); Track A = go_on(sim, p.k, f); clean_up(true);
  for (size_t i = 0; i < A.end.v.size(); i++) if (A.end.v[i].first == "checkpoint changed the state") c.fail("checkpoint-side-effect", "writing a checkpoint changed %s", &A.end.v[i].second[0]);
  pbt::barrier();
  if (have_srv && p.cross) {
    Buf q; q.vec(c.rec); q.vec(std::vector<char>(f.begin(), f.end())); std::vector<char> ans; if (!srv.ask(q.b, ans)) { fprintf(stderr, "restoring process died\n"); abort(); }
    Buf r; r.b = ans; std::vector<uint64_t> h = r.gvec<uint64_t>(), e = r.gvec<uint64_t>(); uint64_t x = r.g<uint64_t>();
    for (size_t i = 0; i < e.size(); i++) if (i >= A.at[p.k].v.size() || e[i] != A.at[p.k].hash(i)) { c.fail("restored-state", "new process: %s differs right after the restore", i < A.at[p.k].v.size() ? A.at[p.k].v[i].first.c_str() : "part count"); break; }
    if (h.size() + p.k != A.at.size()) c.fail("steps", "the restored run did %d steps, the uninterrupted one %d", (int)h.size() - 1, (int)A.at.size() - 1 - p.k);
    else for (size_t i = 0; i < h.size() && !c.failed; i++) if (h[i] != A.at[p.k + i].hash()) c.fail("continued-state", "new process: state differs %d steps after the restore", (int)i);
    if (x != A.end.hash()) c.fail("final-diagnostics", "new process: final diagnostics or random numbers differ");
    c.label("restored in a new process");
  } else {
    for (int gen = 0; gen < (p.again ? 2 : 1); gen++) {
      int base = p.k + (gen ? p.k2 : 0); sim = do_restore(S, gen ? f2 : f); Track B = go_on(sim, gen == 0 && p.again ? p.k2 : -1, f2); clean_up(true);
      std::string d = A.at[base].diff(B.at[0]); if (!d.empty()) c.fail("restored-state", "right after the restore (generation %d): %s", gen, d.c_str());
      if (B.at.size() + base != A.at.size()) c.fail("steps", "the restored run did %d steps, the uninterrupted one %d", (int)B.at.size() - 1, (int)A.at.size() - 1 - base);
      else for (size_t i = 0; i < B.at.size() && !c.failed; i++) { d = A.at[base + i].diff(B.at[i]); if (!d.empty()) c.fail("continued-state", "%d steps after the restore: %s", (int)i, d.c_str()); }
      d = A.end.diff(B.end); if (!d.empty()) c.fail("final-diagnostics", "%s", d.c_str());
      bool any = pbt::any_rank(c.failed); pbt::barrier(); if (any) break;
    }
    c.label(p.again ? "restored twice in this process" : "restored in this process");
  }
  unlink(f.c_str()); unlink(f2.c_str());
  if (S.ops) c.label("collisions"); if (S.emitter) c.label("emitter"); if (!S.sp.empty() && p.k < S.num_step) c.nontrivial();
}

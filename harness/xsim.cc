// C09/C10: the same global problem run on another decomposition / in another build agrees with the reference
// (scalar build, one rank, one pipeline, run in a helper process), and a repeated run is bit-for-bit identical.
#include "simlib.h"
const char *pbt_check_name = "xsim";
static Server srv; static bool have_srv = false;
static double worst_seen = 0, worst_rel = 0;
static SimCase make_case(pbt::Ctx &c, uint64_t &topo) { SimOpt o; o.cross = true; SimCase S = gen_sim(c, o); topo = c.draw(999); return S; }
static GState run_case(SimCase &S) {
  close_min = 1; cur_diag = track_close; vpic_simulation *sim = sim_start(S); while (sim->advance()) {} GState G = global_state(sim, S); sim_end(); cur_diag = NULL; return G;
}
void pbt_setup() {
  if (server_mode()) {
    std::vector<char> in; std::map<std::string, long> lab;
    while (rd_buf(198, in)) { Buf B; B.b = in; std::vector<uint64_t> ch = B.gvec<uint64_t>(); pbt::Ctx c; c.labels = &lab; c.replay = &ch; uint64_t t; SimCase S = make_case(c, t); GState G = run_case(S);
      sim_perturb = 1e-6; GState P = run_case(S); sim_perturb = 0; pbt::Ctx t2; t2.labels = &lab; double w = 0; G.cond = cmp_state(t2, G, P, S, 1e9, &w) ? w : 1e9; Buf o; pack(o, G); if (!wr_buf(199, o.b)) break; }
    _exit(0);
  }
  if (pbt::rank() == 0) { std::vector<std::string> a; a.push_back("--tpp"); a.push_back("1"); srv.start("ref", a, "."); have_srv = true; }
}
void pbt_teardown() { if (have_srv) srv.stop(); if (getenv("XSIM_WORST")) fprintf(stderr, "worst ratio %g, of tolerance %g\n", worst_seen, worst_rel); }
void pbt_case(pbt::Ctx &c) {
  uint64_t topo; SimCase S = make_case(c, topo);
  bool repeat = c.flag(0.25);
  if (!topo_for(S.q, pbt::nranks(), topo)) { c.note("mesh %dx%dx%d cannot be split over %d ranks", S.q.gn[0], S.q.gn[1], S.q.gn[2], pbt::nranks()); c.label("unsplittable"); return; }
  c.note("%spipelines %d", S.str().c_str(), n_pipelines());
  // the helper process computes the reference meanwhile
  if (pbt::rank() == 0) { Buf o; o.vec(c.rec); if (!wr_buf(srv.in, o.b)) { fprintf(stderr, "reference process is gone\n"); abort(); } }
  int np = 0; for (size_t k = 0; k < S.sp.size(); k++) np += S.sp[k].np;
  GState G;
  if (repeat) {
    Snap first; std::string d;
    for (int r = 0; r < 2; r++) {
      close_min = 1; cur_diag = track_close; vpic_simulation *sim = sim_start(S); while (sim->advance()) {} Snap s = local_state(sim, true); add_rng(s, sim); if (r == 0) { first = s; G = global_state(sim, S); } else d = first.diff(s); sim_end(); cur_diag = NULL; }
    if (!d.empty()) c.fail("repeat", "two runs of the same case in one process differ: %s", d.c_str());
    c.label("repeated");
  } else G = run_case(S);
  if (pbt::rank() == 0) {
    std::vector<char> ans; if (!rd_buf(srv.out, ans)) { fprintf(stderr, "reference process is gone\n"); abort(); }
    Buf B; B.b = ans; GState R = unpack(B);
    if (R.close < 1e-5) c.label("ambiguous (a particle ends a step within rounding of a cell face)");
    else if (R.cond > 1e-4) c.label("ill-conditioned (a 1e-6 perturbation of the start grows a hundredfold)");
    else {
      double ratio = 0; pbt::Ctx t; std::map<std::string, long> lab; t.labels = &lab;
      bool ok = cmp_state(t, R, G, S, 5e-6 + 5 * R.cond, &ratio);
      if (!ok) { if (!c.failed) c.fail(t.key.c_str(), "%s", t.msg.c_str()); }
      else worst_seen = std::max(worst_seen, ratio), c.label(R.cond < 3e-6 ? "amplification<3" : R.cond < 1e-5 ? "amplification<10" : "amplification>=10"), worst_rel = std::max(worst_rel, ratio / (5e-6 + 5 * R.cond)), c.label(ratio < 1e-6 ? "deviation<1e-6" : ratio < 1e-5 ? "deviation<1e-5" : ratio < 1e-4 ? "deviation<1e-4" : "deviation>=1e-4");
      if (np > 0 && S.num_step > 0) c.nontrivial();
    }
  }
}

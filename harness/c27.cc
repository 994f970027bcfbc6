// C27: run control. (a) advance() driven in this process with every field kernel and hook logged; (b) the real
// program of deck/main.cc run in processes of its own: options, restart, modification files, orderly end;
// (c) option stripping and modification files against reference parsers.
#include "simlib.h"
const char *pbt_check_name = "C27";
static std::string fmt(const char *f, ...) { char b[2000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
namespace deckmain {
#include "deck/main.cc"
}

// ---------- (c)
static std::string rword(pbt::SplitMix &r) { static const char *w[] = {"a", "-x", "--tp", "--tppp", "tpp", "-1", "3.5", "--", "-", "", "--restoree", "deck=1", "0x10", "--k", "x y", "7seven", "--modif", "restart"}; return w[r.irange(0, 17)]; }
static void strip_case(pbt::Ctx &c) {
  pbt::SplitMix r = c.bulk(); c.label("strip"); int n = (int)c.draw(9); std::vector<std::string> a; a.push_back("prog");
  static const char *keys[] = {"--tpp", "--k", "-v", "--restore", "x"}; static const char *vals[] = {"3", "-4", "0", "12abc", "1e3", "2.5", "abc", "--k", "", "2147483647", "-0.125"};
  for (int i = 0; i < n; i++) { int k = r.irange(0, 5); if (k < 2) { a.push_back(keys[r.irange(0, 4)]); if (r.flag(0.8)) a.push_back(vals[r.irange(0, 10)]); } else a.push_back(rword(r)); }
  std::vector<char *> p; for (size_t i = 0; i < a.size(); i++) p.push_back((char *)a[i].c_str()); p.push_back(0);
  char **pv = &p[0]; int pc = (int)a.size(); std::vector<char *> ref(p.begin(), p.end() - 1); std::string d; for (size_t i = 0; i < a.size(); i++) d += "\"" + a[i] + "\" "; c.note("argv %s", d.c_str());
  int rounds = 1 + r.irange(0, 3); if (n > 1) c.nontrivial();
  for (int q = 0; q < rounds; q++) {
    const char *key = keys[r.irange(0, 4)]; int kind = r.irange(0, 3); c.note("strip %s as %s; ", key, kind == 0 ? "flag" : kind == 1 ? "int" : kind == 2 ? "double" : "string");
    std::vector<char *> out; const char *got = 0; int hits = 0;
    for (size_t i = 0; i < ref.size(); i++) { if (strcmp(ref[i], key)) out.push_back(ref[i]); else { hits++; if (kind && i + 1 < ref.size()) got = ref[++i]; } }
    bool bad = false; char m[200] = "";
    if (kind == 0) { int v = strip_cmdline(&pc, &pv, key); if (v != hits) bad = true, sprintf(m, "count %d, expected %d", v, hits); }
    else if (kind == 1) { int v = strip_cmdline_int(&pc, &pv, key, -77), w = got ? atoi(got) : -77; if (v != w) bad = true, sprintf(m, "value %d, expected %d", v, w); }
    else if (kind == 2) { double v = strip_cmdline_double(&pc, &pv, key, -7.5), w = got ? atof(got) : -7.5; if (v != w) bad = true, sprintf(m, "value %g, expected %g", v, w); }
    else { const char *v = strip_cmdline_string(&pc, &pv, key, "dflt"); const char *w = got ? got : "dflt"; if (!v || strcmp(v, w)) bad = true, snprintf(m, sizeof m, "value %s, expected %s", v ? v : "(null)", w); }
    if (bad) { c.fail("strip-value", "%s: %s", key, m); return; }
    if (pc != (int)out.size() || pv[pc] != NULL) { c.fail("strip-argc", "%d arguments left after stripping %s, expected %d (NULL-terminated)", pc, key, (int)out.size()); return; }
    for (int i = 0; i < pc; i++) if (pv[i] != out[i]) { c.fail("strip-rest", "argument %d left after stripping %s is \"%s\", expected \"%s\"", i, key, pv[i], out[i]); return; }
    ref = out;
  }
}
// a modification file and its meaning
struct Mod { std::string text; bool set[6]; double quota; int v[6]; };
static const char *MKEY[6] = {"quota", "num_step", "checkpt_interval", "hydro_interval", "field_interval", "particle_interval"};
static Mod gen_mod(pbt::SplitMix &r, int force_steps) { // force_steps > 0: the last num_step line sets it
  Mod m; memset(m.set, 0, sizeof m.set); m.quota = 0; memset(m.v, 0, sizeof m.v); int n = r.irange(0, 7); int at = force_steps ? n : -1; if (force_steps) n++;
  for (int i = 0; i < n; i++) {
    std::string l; char b[80]; int k = r.irange(0, 8); bool keyed = k < 6; if (i == at) { k = 1; keyed = true; }
    if (keyed) {
      int v = i == at ? force_steps : r.flag(0.3) ? r.irange(-5, 5) : r.irange(-1, 100000);
      const char *sp = r.flag(0.6) ? " " : r.flag() ? "\t" : "    ";
      if (k == 0) { double d = r.flag() ? v : v * 0.001; sprintf(b, r.flag() ? "%.6f" : "%.9e", d); m.quota = atof(b); m.set[0] = true; l = std::string("quota") + sp + b; }
      else { sprintf(b, "%d", v); l = std::string(MKEY[k]) + sp + b; m.set[k] = true; m.v[k] = k >= 2 && v < 0 ? 0 : v; }
      if (r.flag(0.2)) l += " # trailing text"; else if (r.flag(0.2)) l += "   ";
    } else if (k == 6) l = r.flag() ? "" : "# a comment";
    else if (k == 7) { static const char *u[] = {"status_interval 7", "clean_div_e_interval 9", "num_steps_ 4", "checkpoint_interval 5", "verbose 0", "sync_shared_interval 3", "interval 2", "step 9"}; l = u[r.irange(0, 7)]; }
    else { l = MKEY[r.irange(0, 5)]; if (r.flag()) l += " none"; }
    m.text += l; if (i < n - 1 || r.flag(0.8)) m.text += r.flag(0.1) ? "\r\n" : "\n";
  }
  return m;
}
static void write_file(const std::string &f, const std::string &t) { FILE *h = fopen(f.c_str(), "w"); if (!h) abort(); fwrite(t.data(), 1, t.size(), h); fclose(h); }
static std::string check_mod(vpic_simulation *s, const vpic_simulation *before, const Mod &m) {
  char b[200]; int *v[6] = {0, &s->num_step, &s->checkpt_interval, &s->hydro_interval, &s->field_interval, &s->particle_interval};
  const int *o[6] = {0, &before->num_step, &before->checkpt_interval, &before->hydro_interval, &before->field_interval, &before->particle_interval};
  double wq = m.set[0] ? m.quota : before->quota; if (s->quota != wq) { sprintf(b, "quota is %g after the modification, expected %g", s->quota, wq); return b; }
  for (int k = 1; k < 6; k++) { int w = m.set[k] ? m.v[k] : *o[k]; if (*v[k] != w) { sprintf(b, "%s is %d after the modification, expected %d", MKEY[k], *v[k], w); return b; } }
#define SAME(x) if (s->x != before->x) { sprintf(b, #x " changed from %d to %d though the file does not name it", (int)before->x, (int)s->x); return b; }
  SAME(verbose) SAME(num_comm_round) SAME(status_interval) SAME(clean_div_e_interval) SAME(num_div_e_round) SAME(clean_div_b_interval) SAME(num_div_b_round) SAME(sync_shared_interval)
  return "";
}
static std::vector<char> raw_copy(vpic_simulation *s) { return std::vector<char>((char *)s, (char *)s + sizeof(vpic_simulation)); }
static void modify_in(pbt::Ctx &c, vpic_simulation *s, pbt::SplitMix &r, int force, const char *tag) {
  char f[600]; snprintf(f, sizeof f, "%s/mod%s.%d", c.scratch.c_str(), tag, pbt::rank()); Mod m = gen_mod(r, force); write_file(f, m.text);
  std::vector<char> b = raw_copy(s); s->modify(f); unlink(f);
  std::string e = check_mod(s, (const vpic_simulation *)&b[0], m); if (!e.empty()) { std::string t; for (size_t i = 0; i < m.text.size(); i++) { if (m.text[i] == '\n') t += "\\n"; else if (m.text[i] == '\r') t += "\\r"; else if (m.text[i] == '\t') t += "\\t"; else t += m.text[i]; } c.fail("modify", "%s; file: %s", e.c_str(), t.c_str()); }
  int keep = 0; for (int k = 0; k < 6; k++) keep += m.set[k]; c.label(keep ? "modified" : "modified nothing");
}

// ---------- (a)
enum Ev { E_COLL, E_INJ, E_CLRJ, E_SYNJ, E_CUR, E_B, E_E, E_FLD, E_DIAG, E_CLRRHO, E_SYNRHO, E_DIVE, E_RMSE, E_CLEANE, E_DIVB, E_RMSB, E_CLEANB, E_SYNC, E_STATUS };
static const char *evname[] = {"user collisions", "user injection", "clear j", "synchronize j", "user current", "advance b", "advance e", "user field", "user diagnostics", "clear rho", "synchronize rho", "compute div e err", "rms div e err", "clean div e", "compute div b err", "rms div b err", "clean div b", "synchronize shared", "status"};
struct Rec { int e; int64_t step; double x; };
static std::vector<Rec> ev; static field_advance_kernels_t K; static vpic_simulation *S0;
static void lg(int e, double x = 0) { Rec r = {e, S0->grid->step, x}; ev.push_back(r); }
static void k_b(field_array_t *f, float x) { lg(E_B, x); K.advance_b(f, x); }
static void k_e(field_array_t *f, float x) { lg(E_E, x); K.advance_e(f, x); }
static void k_cj(field_array_t *f) { lg(E_CLRJ); K.clear_jf(f); }
static void k_sj(field_array_t *f) { lg(E_SYNJ); K.synchronize_jf(f); }
static void k_cr(field_array_t *f) { lg(E_CLRRHO); K.clear_rhof(f); }
static void k_sr(field_array_t *f) { lg(E_SYNRHO); K.synchronize_rho(f); }
static double k_sy(field_array_t *f) { lg(E_SYNC); return K.synchronize_tang_e_norm_b(f); }
static void k_de(field_array_t *f) { lg(E_DIVE); K.compute_div_e_err(f); }
static double k_re(const field_array_t *f) { lg(E_RMSE); return K.compute_rms_div_e_err(f); }
static void k_ce(field_array_t *f) { lg(E_CLEANE); K.clean_div_e(f); }
static void k_db(field_array_t *f) { lg(E_DIVB); K.compute_div_b_err(f); }
static double k_rb(const field_array_t *f) { lg(E_RMSB); return K.compute_rms_div_b_err(f); }
static void k_cb(field_array_t *f) { lg(E_CLEANB); K.clean_div_b(f); }
static void log_seen(const char *t) { const char *p = strstr(t, "Completed step "); long a, b; if (p && S0) { if (sscanf(p, "Completed step %ld of %ld", &a, &b) == 2) lg(E_STATUS, a * 1e6 + b); else lg(E_STATUS, -1); } }
struct RunSpec { Geo q; int nsp; int sort[3], oop[3], np[3]; int wiped; };
static RunSpec *RS;
static std::vector<std::string> order_bad; static bool expect_sorted[3]; static std::vector<int> order_was[3];
static species_t *spn(vpic_simulation *s, int k) { char b[8]; sprintf(b, "s%d", k); return s->find_species(b); }
static void h_init(vpic_simulation *s, int, char **) {
  const Geo &q = RS->q; s->verbose = 1; s->define_units(q.cvac, q.eps0); s->define_timestep(q.dt, 0, 0); geo_partition(q, s->grid); s->px = q.gp[0]; s->py = q.gp[1]; s->pz = q.gp[2];
  s->define_material("vacuum", 1); s->define_field_array(NULL, 0); grid_t *g = s->grid;
  for (int k = 0; k < RS->nsp; k++) { char b[8]; sprintf(b, "s%d", k); species_t *sp = s->define_species(b, 1e-6f, 1, RS->np[k] + 4, 4096, RS->sort[k], RS->oop[k]);
    for (int i = 0; i < RS->np[k]; i++) { particle_t p; memset(&p, 0, sizeof p); uint64_t h = pbt::SplitMix(977 * i + k * 13 + 5).next(); p.i = vox(g, 1 + h % g->nx, 1 + (h >> 16) % g->ny, 1 + (h >> 32) % g->nz); p.w = (float)(i + 1); sp->p[sp->np++] = p; } }
}
static void h_coll(vpic_simulation *s) {
  lg(E_COLL);
  for (int k = 0; k < RS->nsp; k++) { species_t *sp = spn(s, k); char b[160]; std::vector<int> now; bool sorted = true; for (int i = 0; i < sp->np; i++) { now.push_back((int)sp->p[i].w); if (i && sp->p[i].i < sp->p[i - 1].i) sorted = false; }
    if (expect_sorted[k] && !sorted) { sprintf(b, "species %d is not sorted in step %d though its interval is %d", k, (int)s->step(), RS->sort[k]); order_bad.push_back(b); }
    if (!expect_sorted[k] && now != order_was[k]) { sprintf(b, "species %d was reordered before step %d though its interval is %d", k, (int)s->step(), RS->sort[k]); order_bad.push_back(b); } }
}
static void h_inj(vpic_simulation *) { lg(E_INJ); }
static void h_cur(vpic_simulation *) { lg(E_CUR); }
static void h_fld(vpic_simulation *) { lg(E_FLD); }
static void h_diag(vpic_simulation *) { lg(E_DIAG); }
static void scramble(vpic_simulation *s) { for (int k = 0; k < RS->nsp; k++) { species_t *sp = spn(s, k); order_was[k].clear(); std::sort(sp->p, sp->p + sp->np, [](const particle_t &a, const particle_t &b) { return a.i != b.i ? a.i > b.i : a.w < b.w; }); for (int i = 0; i < sp->np; i++) order_was[k].push_back((int)sp->p[i].w); } }
static int gint(pbt::Ctx &c) { int k = (int)c.draw(5); return k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 2 : k == 3 ? 3 : k == 4 ? 1 + (int)c.draw(12) : c.flag() ? 1000 : -(int)c.draw(3); }
static void run_case(pbt::Ctx &c) {
  c.label("advance"); RunSpec R; RS = &R; GeoOpt o; o.maxn = 3; R.q = gen_geo(c, o); field_geo_fix(R.q); R.nsp = (int)c.draw(2); for (int k = 0; k < R.nsp; k++) { R.sort[k] = gint(c); R.oop[k] = (int)c.draw(1); R.np[k] = (int)c.draw(12); }
  sim_quiet = true; sim_hooks.init = h_init; sim_hooks.coll = sim_hooks.particle = sim_hooks.current = sim_hooks.field = sim_hooks.diag = sim_nop;
  vpic_simulation *s = new vpic_simulation(); simulation = s; S0 = s; int64_t start = 0;
  s->initialize(0, NULL);
  pbt::SplitMix r = c.bulk(); 
  s->num_step = c.flag(0.15) ? -(int)c.draw(2) : 1 + (int)c.draw(11); s->status_interval = gint(c); s->clean_div_e_interval = gint(c); s->clean_div_b_interval = gint(c); s->sync_shared_interval = gint(c); s->num_div_e_round = (int)c.draw(4); s->num_div_b_round = (int)c.draw(4); s->num_comm_round = 1 + (int)c.draw(2);
  if (c.flag(0.2)) { start = c.flag() ? (int64_t)c.draw(5) : c.flag() ? 999990 + (int64_t)c.draw(20) : 2147483640ll + (int64_t)c.draw(20); s->grid->step = start; if (s->num_step > 0) { if (start > 2000000000ll) s->num_step = 0; else s->num_step += (int)start; } }
  c.note("%s%d species steps %d from %lld status %d clean-e %d/%d clean-b %d/%d sync %d", R.q.str().c_str(), R.nsp, s->num_step, (long long)start, s->status_interval, s->clean_div_e_interval, s->num_div_e_round, s->clean_div_b_interval, s->num_div_b_round, s->sync_shared_interval);
  sim_hooks.coll = h_coll; sim_hooks.particle = h_inj; sim_hooks.current = h_cur; sim_hooks.field = h_fld; sim_hooks.diag = h_diag;
  field_advance_kernels_t *k = s->field_array->kernel; K = *k; k->advance_b = k_b; k->advance_e = k_e; k->clear_jf = k_cj; k->synchronize_jf = k_sj; k->clear_rhof = k_cr; k->synchronize_rho = k_sr; k->synchronize_tang_e_norm_b = k_sy; k->compute_div_e_err = k_de; k->compute_rms_div_e_err = k_re; k->clean_div_e = k_ce; k->compute_div_b_err = k_db; k->compute_rms_div_b_err = k_rb; k->clean_div_b = k_cb;
  order_bad.clear(); sim_log_hook = log_seen; int limit = 14, performed = 0; bool mod = c.flag(0.4); int mod_at = (int)c.draw(6); bool due_any = false; if (s->num_step > 1) c.nontrivial();
  for (int n = 0; n < limit && !c.failed; n++) {
    if (mod && n == mod_at) { modify_in(c, s, r, start > 2000000000ll ? 0 : (int)start + 1 + r.irange(0, 9), "a"); if (start > 2000000000ll) s->num_step = 0; if (r.flag()) s->clean_div_e_interval = r.irange(0, 3); if (r.flag()) s->sync_shared_interval = r.irange(0, 3); }
    if (c.failed) break;
    int64_t st = s->step(); bool end = s->num_step > 0 && st >= s->num_step;
    for (int q = 0; q < R.nsp; q++) expect_sorted[q] = R.sort[q] > 0 && st % R.sort[q] == 0;
    scramble(s); ev.clear(); int ret = s->advance();
    if (end) {
      if (ret) { c.fail("overrun", "advance() went on at step %lld of %d", (long long)st, s->num_step); break; }
      if (!ev.empty() || s->step() != st) { c.fail("after-end", "advance() did work (%s) after the last step %lld", ev.empty() ? "counted a step" : evname[ev[0].e], (long long)st); break; }
      if (mod && n < mod_at) continue; break;
    }
    performed++;
    if (!ret) { c.fail("early-end", "advance() reported the end at step %lld of %d", (long long)st, s->num_step); break; }
    if (s->step() != st + 1) { c.fail("step-count", "the step counter went from %lld to %lld", (long long)st, (long long)s->step()); break; }
    if (!order_bad.empty()) { c.fail("sort", "%s", order_bad[0].c_str()); break; }
    // what must have happened, and how often
    int want[19]; memset(want, 0, sizeof want); bool ce = s->clean_div_e_interval > 0 && st % s->clean_div_e_interval == 0, cb = s->clean_div_b_interval > 0 && st % s->clean_div_b_interval == 0, sy = s->sync_shared_interval > 0 && st % s->sync_shared_interval == 0, stt = s->status_interval > 0 && (st + 1) % s->status_interval == 0;
    want[E_COLL] = want[E_INJ] = want[E_CLRJ] = want[E_SYNJ] = want[E_CUR] = want[E_E] = want[E_FLD] = want[E_DIAG] = 1; want[E_B] = 2; due_any |= ce || cb || sy || stt;
    if (ce) { want[E_CLRRHO] = want[E_SYNRHO] = 1; want[E_DIVE] = want[E_CLEANE] = s->num_div_e_round; want[E_RMSE] = std::min(2, s->num_div_e_round); }
    if (cb) { want[E_DIVB] = want[E_CLEANB] = s->num_div_b_round; want[E_RMSB] = std::min(2, s->num_div_b_round); }
    want[E_SYNC] = sy; want[E_STATUS] = stt && pbt::rank() == 0;
    int got[19]; memset(got, 0, sizeof got); for (size_t i = 0; i < ev.size(); i++) got[ev[i].e]++;
    got[E_RMSE] = want[E_RMSE] = got[E_RMSB] = want[E_RMSB] = 0; // how often the error is measured is not part of the promise
    for (int i = 0; i < 19 && !c.failed; i++) if (got[i] != want[i]) c.fail(std::string(std::string("count-") + evname[i]).c_str(), "step %lld: %s happened %d times, expected %d", (long long)st, evname[i], got[i], want[i]);
    if (c.failed) break;
    // order of the fixed part, and the step the hooks see
    static const int fix[] = {E_COLL, E_INJ, E_CLRJ, E_SYNJ, E_CUR, E_B, E_E, E_FLD, E_B, E_DIAG}; size_t f = 0; double frac = 0;
    for (size_t i = 0; i < ev.size(); i++) { int e = ev[i].e; if (e == E_B) { frac += ev[i].x; if (ev[i].x != 0.5) c.fail("half-step", "step %lld: B advanced by %g of a step, expected 0.5", (long long)st, ev[i].x); } if (e == E_E && ev[i].x != 1) c.fail("full-step", "step %lld: E advanced by %g of a step", (long long)st, ev[i].x);
      if (e <= E_DIAG) { if (fix[f] != e) { c.fail("order", "step %lld: %s came where %s was expected", (long long)st, evname[e], evname[fix[f]]); break; } f++; }
      int64_t seen = e == E_DIAG || e == E_STATUS ? st + 1 : st; if (ev[i].step != seen) { c.fail("seen-step", "%s saw step %lld, expected %lld", evname[e], (long long)ev[i].step, (long long)seen); break; }
      if (e == E_STATUS && s->num_step >= 0 && ev[i].x != (st + 1) * 1e6 + s->num_step && st + 1 < 2147483647ll) c.fail("status-text", "the status after step %lld reports %.0f", (long long)st, ev[i].x);
    }
    // cleaning: after the field advance, error computed before every pass, before the diagnostics
    size_t ie = 0; for (size_t i = 0; i < ev.size(); i++) if (ev[i].e == E_B) ie = i; int le = -1, lb = -1;
    for (size_t i = 0; i < ev.size() && !c.failed; i++) { int e = ev[i].e; if ((e >= E_CLRRHO && e <= E_SYNC) && i < ie) c.fail("order", "step %lld: %s before the fields were advanced", (long long)st, evname[e]);
      if (e == E_DIVE) le = 1; if (e == E_CLEANE) { if (le != 1) c.fail("order", "step %lld: E cleaned without a fresh error", (long long)st); le = 0; } if (e == E_DIVB) lb = 1; if (e == E_CLEANB) { if (lb != 1) c.fail("order", "step %lld: B cleaned without a fresh error", (long long)st); lb = 0; } }
  }
  sim_log_hook = 0; *k = K; c.label(due_any ? "interval due" : "nothing due"); (void)performed;
  sim_hooks.diag = sim_nop; s->finalize(); delete s; simulation = NULL; S0 = NULL;
}

// ---------- (b)
struct Spec { std::vector<uint64_t> ch; int ck; std::string base, out; };
static Spec P; static FILE *pout; static int p_argc_seen;
static SimCase spec_case(pbt::Ctx &c) { SimOpt o; o.random_ops = true; o.maxn = 3; o.maxnp = 60; o.maxstep = 6; return gen_sim(c, o); }
static void p_init(vpic_simulation *s, int ac, char **av) {
  sim_init_hook(s, ac, av); fprintf(pout, "init %d\n", ac); for (int i = 0; i < ac; i++) fprintf(pout, "arg %s\n", av[i]); if (av[ac]) fprintf(pout, "argv not NULL-terminated\n");
  for (size_t i = 0; i < sizeof s->user_global; i++) s->user_global[i] = (char)(i * 7 + 3); s->hydro_interval = 11; s->quota = 2.5; fflush(pout);
}
static void p_diag(vpic_simulation *s) {
  cur_tally = NULL; Snap sn = local_state(s, true); uint64_t hh = 7; for (size_t i = 0; i < sn.v.size(); i++) if (sn.v[i].first != "intervals") hh = hh * 1099511628211ull + sn.hash(i); // the intervals may have been modified
  int bad = 0; for (size_t i = 0; i < sizeof s->user_global; i++) bad += s->user_global[i] != (char)(i * 7 + 3);
  fprintf(pout, "diag %lld %016llx %d %.17g %d %d %d %d %d\n", (long long)s->step(), (unsigned long long)hh, s->num_step, s->quota, s->checkpt_interval, s->hydro_interval, s->field_interval, s->particle_interval, bad); fflush(pout);
  if (s->step() == P.ck) deckmain::checkpt(P.base.c_str(), (int)s->step());
}
int pbt_program(int ac, char **av) { // EXE SPEC ARGS...
  FILE *f = fopen(av[1], "r"); char b[2048]; if (!f) return 99; static std::map<std::string, long> lab; static SimCase S;
  while (fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; if (!strncmp(b, "ck ", 3)) P.ck = atoi(b + 3); else if (!strncmp(b, "base ", 5)) P.base = b + 5; else if (!strncmp(b, "out ", 4)) P.out = b + 4; else P.ch.push_back(strtoull(b, 0, 10)); }
  fclose(f); pbt::Ctx c; c.labels = &lab; c.replay = &P.ch; S = spec_case(c); cur_case = &S; pout = fopen(P.out.c_str(), "w"); if (!pout) return 98;
  mallopt(M_PERTURB, 0x5b);
  sim_quiet = true; sim_hooks.init = p_init; sim_hooks.current = sim_current_hook; sim_hooks.field = sim_field_hook; sim_hooks.particle = sim_particle_hook; sim_hooks.diag = p_diag; sim_hooks.coll = sim_nop;
  av[1] = av[0]; int r = deckmain::main(ac - 1, av + 1); fprintf(pout, "end\n"); fclose(pout); return r;
}
struct Out { int status; bool init, end; std::vector<std::string> args; struct D { long long step; unsigned long long h; int v[6]; double quota; int bad; }; std::vector<D> d; std::string odd, err; };
static Out run_program(const Spec &s, const std::vector<std::string> &args, const std::string &scratch, int limit) {
  Out o; o.init = o.end = false; std::string sf = scratch + "/spec", lf = scratch + "/log"; { std::string t; char b[32]; for (size_t i = 0; i < s.ch.size(); i++) { sprintf(b, "%llu\n", (unsigned long long)s.ch[i]); t += b; } sprintf(b, "ck %d\n", s.ck); t += b; t += "base " + s.base + "\nout " + s.out + "\n"; write_file(sf, t); } unlink(s.out.c_str());
  char self[1024]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); self[n > 0 ? n : 0] = 0; std::vector<std::string> av; av.push_back(self); av.push_back("--pbt-program"); av.push_back(sf); av.insert(av.end(), args.begin(), args.end());
  std::vector<std::string> ev = Server::clean_env(); std::vector<char *> avp, evp; for (size_t i = 0; i < av.size(); i++) avp.push_back((char *)av[i].c_str()); avp.push_back(0); for (size_t i = 0; i < ev.size(); i++) evp.push_back((char *)ev[i].c_str()); evp.push_back(0);
  int fd = open(lf.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644); pid_t pid = vfork(); if (pid == 0) { dup2(fd, 1); dup2(fd, 2); execve(avp[0], &avp[0], &evp[0]); _exit(127); } close(fd);
  int st = -1; for (int w = 0; ; w++) { pid_t r = waitpid(pid, &st, WNOHANG); if (r == pid) break; if (w > limit * 500) { kill(pid, SIGKILL); waitpid(pid, &st, 0); st = -2; break; } usleep(2000); }
  o.status = st; FILE *f = fopen(s.out.c_str(), "r"); char b[4096];
  if (f) { while (fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; Out::D d; if (!strncmp(b, "init ", 5)) o.init = true; else if (!strncmp(b, "arg ", 4)) o.args.push_back(b + 4); else if (!strcmp(b, "end")) o.end = true; else if (sscanf(b, "diag %lld %llx %d %lg %d %d %d %d %d", &d.step, &d.h, &d.v[1], &d.quota, &d.v[2], &d.v[3], &d.v[4], &d.v[5], &d.bad) == 9) o.d.push_back(d); else o.odd = b; } fclose(f); }
  f = fopen(lf.c_str(), "r"); if (f) { size_t k = fread(b, 1, sizeof b - 1, f); b[k] = 0; o.err = b; fclose(f); if (o.err.size() > 600) o.err = o.err.substr(o.err.size() - 600); }
  return o;
}
static bool judge(pbt::Ctx &c, const char *which, const Out &o, int first, int last) {
  if (o.status != 0) { c.fail(o.status == -2 ? "hang" : "exit", "%s run did not end normally (wait status %d): %s", which, o.status, o.err.c_str()); return false; }
  if (!o.end || !o.odd.empty()) { c.fail("exit", "%s run: incomplete or odd output %s", which, o.odd.c_str()); return false; }
  std::string got; for (size_t i = 0; i < o.d.size(); i++) { char b[30]; sprintf(b, "%lld ", o.d[i].step); got += b; }
  bool ok = (int)o.d.size() == std::max(0, last - first + 1); for (size_t i = 0; i < o.d.size() && ok; i++) ok = o.d[i].step == first + (long long)i;
  if (!ok) { c.fail("steps", "%s run: diagnostics were called at steps %s, expected %d..%d", which, got.c_str(), first, last); return false; }
  for (size_t i = 0; i < o.d.size(); i++) if (o.d[i].bad) { c.fail("globals", "%s run: %d bytes of the deck's globals changed at step %lld", which, o.d[i].bad, o.d[i].step); return false; }
  return true;
}
static bool judge_mod(pbt::Ctx &c, const char *which, const Out &o, size_t from, const Mod *m, int nstep) {
  for (size_t i = from; i < o.d.size(); i++) { int w[6] = {0, nstep, 0, 11, 0, 0}; double q = 2.5; if (m) { for (int k = 2; k < 6; k++) if (m->set[k]) w[k] = m->v[k]; if (m->set[0]) q = m->quota; }
    for (int k = 1; k < 6; k++) if (o.d[i].v[k] != w[k]) { c.fail("modify", "%s run, step %lld: %s is %d, expected %d", which, o.d[i].step, MKEY[k], o.d[i].v[k], w[k]); return false; }
    if (o.d[i].quota != q) { c.fail("modify", "%s run, step %lld: quota is %g, expected %g", which, o.d[i].step, o.d[i].quota, q); return false; } }
  return true;
}
static void program_case(pbt::Ctx &c) {
  c.label("program"); size_t p0 = c.rec.size(); SimCase S = spec_case(c); Spec s; s.ch.assign(c.rec.begin() + p0, c.rec.end()); s.ck = (int)c.draw(S.num_step); s.base = c.scratch + "/ck"; s.out = c.scratch + "/out";
  pbt::SplitMix r = c.bulk(); int tpp = 1 + (int)c.draw(3); bool m1 = c.flag(0.4), m2 = c.flag(0.6), old = c.flag(0.03); char b[64];
  std::vector<std::string> user; int nu = (int)c.draw(4); for (int i = 0; i < nu; i++) { std::string w = rword(r); if (w.empty() || w == "-") w = "plain"; user.push_back(w); }
  auto mix = [&](const std::vector<std::vector<std::string> > &opts, const std::vector<std::string> &u) { std::vector<std::string> a = u; std::vector<int> cut; std::vector<std::vector<std::string> > parts; for (size_t i = 0; i < u.size(); i++) parts.push_back(std::vector<std::string>(1, u[i])); for (size_t i = 0; i < opts.size(); i++) parts.insert(parts.begin() + r.irange(0, (int)parts.size()), opts[i]); a.clear(); for (size_t i = 0; i < parts.size(); i++) a.insert(a.end(), parts[i].begin(), parts[i].end()); return a; };
  std::vector<std::vector<std::string> > o1; sprintf(b, "%d", tpp); { std::vector<std::string> v; v.push_back("--tpp"); v.push_back(b); o1.push_back(v); }
  if (r.flag(0.3)) { std::vector<std::string> v; v.push_back("--dispatch_to_host"); v.push_back(r.flag() ? "1" : "0"); o1.push_back(v); }
  std::vector<std::string> expect = user; std::string mf1 = c.scratch + "/m1", mf2 = c.scratch + "/m2"; Mod M1, M2; int N1 = S.num_step, N2;
  if (m1) { N1 = 1 + r.irange(0, 7); M1 = gen_mod(r, N1); write_file(mf1, M1.text); }
  if (m2) { N2 = 1 + r.irange(0, 9); M2 = gen_mod(r, N2); write_file(mf2, M2.text); } else N2 = s.ck == 0 ? S.num_step : N1;
  std::string as; for (size_t i = 0; i < user.size(); i++) as += user[i] + " "; c.note("%sarguments: %s; --tpp %d%s%s; checkpoint at %d%s", S.str().c_str(), as.c_str(), tpp, m1 ? fmt(", modified to %d steps", N1).c_str() : "", old ? ", legacy flag" : "", s.ck, m2 ? fmt(", restart modified to %d steps", N2).c_str() : ", restarted");
  if (old) { static const char *bad[] = {"-tpp", "-tpp=2", "-restart", "-restore", "-restore=x"}; std::vector<std::string> u = user; u.insert(u.begin() + r.irange(0, (int)u.size()), bad[r.irange(0, 4)]); Out o = run_program(s, u, c.scratch, 60); c.label("legacy flag");
#if defined(VPIC_USE_PTHREADS)
    if (o.status == 0 || o.init) c.fail("legacy", "a legacy single-dash flag was accepted");
#endif
    return; }
  std::vector<std::string> a = mix(o1, user); if (m1) { std::vector<std::vector<std::string> > mo; std::vector<std::string> v; v.push_back("--modify"); v.push_back(mf1); mo.push_back(v); a = mix(mo, a); // may fall between an option and its value: put it at the end then
      for (size_t i = 0; i + 1 < a.size(); i++) if ((a[i] == "--tpp" || a[i] == "--dispatch_to_host") && a[i + 1] == "--modify") { a = mix(o1, user); a.push_back("--modify"); a.push_back(mf1); break; } }
  Out A = run_program(s, a, c.scratch, 240); c.nontrivial();
  { std::vector<std::string> want, got; for (size_t i = 1; i < a.size() + 1; i++) { const std::string &x = a[i - 1]; if (x == "--tpp" || x == "--dispatch_to_host") { i++; continue; } want.push_back(x); } got.assign(A.args.begin() + (A.args.empty() ? 0 : 1), A.args.end());
    if (judge(c, "first", A, 0, N1) && got != want) { std::string g; for (size_t i = 0; i < got.size(); i++) g += "\"" + got[i] + "\" "; c.fail("argv", "the deck saw the arguments %s", g.c_str()); } }
  if (!c.failed && !A.init) c.fail("init", "the deck was not initialised");
  if (!c.failed) judge_mod(c, "first", A, 1, m1 ? &M1 : 0, N1);
  if (!c.failed && s.ck <= N1) {
    sprintf(b, "%s.%d", "ck", s.ck); std::string img = c.scratch + "/" + b; std::vector<std::string> rv; rv.push_back("--restore"); rv.push_back(img); std::vector<std::vector<std::string> > o2; o2.push_back(o1[0]); o2.push_back(rv); if (m2) { std::vector<std::string> v; v.push_back("--modify"); v.push_back(mf2); o2.push_back(v); }
    Spec s2 = s; s2.ck = -1; s2.out = c.scratch + "/out2"; Out B = run_program(s2, mix(o2, user), c.scratch, 240);
    if (judge(c, "restarted", B, s.ck + 1, N2)) {
      if (B.init) c.fail("init", "the restarted run initialised the deck again");
      Mod both; memset(both.set, 0, sizeof both.set); if (s.ck > 0 && m1) both = M1; if (m2) for (int k = 0; k < 6; k++) if (M2.set[k]) { both.set[k] = true; both.v[k] = M2.v[k]; if (!k) both.quota = M2.quota; }
      if (!c.failed) { judge_mod(c, "restarted", B, 0, &both, N2); }
      for (size_t i = 0; i < B.d.size() && !c.failed; i++) { size_t j = s.ck + 1 + i; if (j < A.d.size() && A.d[j].h != B.d[i].h) c.fail("restart-state", "the restarted run differs from the first one at step %lld", B.d[i].step); }
    }
    unlink((img + ".0").c_str());
  }
}
void pbt_setup() {}
void pbt_teardown() {}
void pbt_case(pbt::Ctx &c) {
  if (pbt::opt.count("program")) { program_case(c); return; }
  int k = c.pickw({2, 5}); if (k == 0) strip_case(c); else run_case(c);
}

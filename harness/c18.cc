// C18: collision operators: conservation per cell, scope (cell, species, interval, momenta only), null operators, lighter partner.
#include "colllib.h"
const char *pbt_check_name = "c18";
struct Op { int kind, i, j, interval, sure; bool zero; double sample, str; }; // str: strength parameter
struct Rec { int k, l, type; bool bad; };
struct Par { int op; float K; };
static std::vector<Rec> tests, hits; static std::vector<int> utests, uhits; static std::vector<species_t *> SPS; static std::vector<Op> *OPS; static std::string cb_err;
static void err(const char *s) { if (cb_err.empty()) cb_err = s; }
float c18_rate(Par *p, const species_t *si, const species_t *sj, const particle_t *pi, const particle_t *pj) {
  pthread_mutex_lock(&coll_mx);
  if (!p || p->op < 0 || p->op >= (int)OPS->size()) err("rate constant called with the wrong parameter block");
  else { const Op &o = (*OPS)[p->op]; if (si != SPS[o.i] || sj != SPS[o.j]) err("rate constant called with the wrong species"); if (pi < si->p || pi >= si->p + si->np || pj < sj->p || pj >= sj->p + sj->np) err("rate constant called with a particle that is not of its species"); else if (pi->i != pj->i) err("particles of different cells were tested for collision"); Rec r; r.k = pi->i; r.l = 0; r.type = 0; tests.push_back(r); }
  pthread_mutex_unlock(&coll_mx); return p->K;
}
void c18_coll(Par *p, const species_t *si, const species_t *sj, particle_t *pi, particle_t *pj, rng_t *rng, int type) {
  pthread_mutex_lock(&coll_mx);
  if (pi->i != pj->i) err("particles of different cells collided");
  bool light_i = pi->w < pj->w, light_j = pj->w < pi->w;
  if (type < 1 || type > 3) err("collision with a type outside 1..3");
  if (light_i && !(type & 1)) err("the lighter particle (of species i) was not to be updated");
  if (light_j && !(type & 2)) err("the lighter particle (of species j) was not to be updated");
  if (!light_i && !light_j && type != 3) err("two particles of equal weight were not both to be updated");
  if (si != SPS[(*OPS)[p->op].i] || sj != SPS[(*OPS)[p->op].j]) err("collision called with the wrong species");
  Rec r; r.k = pi->i; r.l = 0; r.type = type; hits.push_back(r);
  pthread_mutex_unlock(&coll_mx);
}
float c18_urate(Par *p, const species_t *s, const particle_t *q) { pthread_mutex_lock(&coll_mx); if (s != SPS[(*OPS)[p->op].i]) err("unary rate constant called with the wrong species"); if (q < s->p || q >= s->p + s->np) err("unary rate constant called with a foreign particle"); else utests.push_back((int)(q - s->p)); pthread_mutex_unlock(&coll_mx); return p->K; }
void c18_ucoll(Par *p, const species_t *s, particle_t *q, rng_t *rng) { pthread_mutex_lock(&coll_mx); uhits.push_back((int)(q - s->p)); pthread_mutex_unlock(&coll_mx); }
void pbt_setup() {}
void pbt_teardown() {}
void pbt_case(pbt::Ctx &c) {
  GeoOpt go; go.allow_walls = false; go.maxn = 4; Geo q = gen_geo(c, go); grid_t *g = geo_grid(q);
  size_t mark = reg_mark();
  int ns = 1 + (int)c.draw(2), nops = 1 + (int)c.draw(2), wmode = (int)c.draw(2), occ = (int)c.draw(3); // wmode 0: all equal, 1: equal per species, 2: mixed
  bool dense = c.flag(0.004); pbt::SplitMix r = c.bulk(); if (dense) { occ = 4; nops = 1; ns = 1; }
  float w0 = (float)c.logreal(0.1, 10);
  std::vector<species_t *> list; SPS.clear(); species_t *splist = NULL; double uth = c.flag(0.2) ? c.logreal(1e-4, 1) : 0.1; bool cold = c.flag(0.1);
  c.note("%s%d species, weights %s, occupancy %d, uth %g%s; ", q.str().c_str(), ns, wmode == 0 ? "equal" : wmode == 1 ? "equal per species" : "mixed", occ, uth, cold ? " (cold)" : "");
  int lo = vox(g, 1, 1, 1), hi = vox(g, g->nx, g->ny, g->nz);
  std::vector<std::vector<int> > cells(ns);
  for (int s = 0; s < ns; s++) {
    for (int z = 1; z <= g->nz; z++) for (int y = 1; y <= g->ny; y++) for (int x = 1; x <= g->nx; x++) { int k = occ == 0 ? r.irange(0, 3) : occ == 1 ? (r.flag(0.7) ? 1 : 2) : occ == 2 ? (r.flag(0.3) ? r.irange(0, 20) : r.irange(0, 4)) : occ == 4 ? 0 : (r.flag(0.1) ? r.irange(20, 90) : 0); for (int j = 0; j < k; j++) cells[s].push_back(vox(g, x, y, z)); }
    if (occ == 4) cells[s].assign(r.irange(46000, 70000), lo);
    std::random_shuffle(cells[s].begin(), cells[s].end(), [&](int n) { return r.irange(0, n - 1); });
    char nm[10]; sprintf(nm, "s%d", s); double Q = c.flag(0.1) ? 0 : (c.flag() ? 1 : -1) * (c.flag() ? 1 : c.logreal(0.2, 5)), M = c.flag() ? 1 : c.logreal(0.05, 200);
    int np = (int)cells[s].size();
    species_t *sp = append_species(species(nm, (float)Q, (float)M, np + 1, 16, (int)c.draw(3), (int)c.draw(1), g), &splist); SPS.push_back(sp); sp->np = np;
    float ws = wmode == 0 ? w0 : (float)c.logreal(0.1, 10);
    for (int k = 0; k < np; k++) { particle_t &p = sp->p[k]; p.i = cells[s][k]; p.dx = (float)r.real(-1, 1); p.dz = (float)r.real(-1, 1); p.dy = (float)(k - np / 2) * (float)(1. / (1 << 17)); double f = cold ? 0 : uth / sqrt(M); p.ux = (float)((cold ? 0.3 : 0) + f * r.normal()); p.uy = (float)((cold ? -0.1 : 0) + f * r.normal()); p.uz = (float)(f * r.normal()); p.w = wmode == 2 ? (float)pow(10., r.real(-1, 1)) : ws; if (wmode == 2 && r.flag(0.3)) p.w = w0; }
    c.note("sp%d q %g m %g np %d; ", s, sp->q, sp->m, np);
  }
  std::vector<Op> ops; collision_op_t *cops = NULL; rng_pool_t *rp = new_rng_pool(n_pipelines(), (int)c.draw(1000000), 0); std::vector<Par *> pars; OPS = &ops; ops.reserve(8); pars.reserve(8);
  for (int k = 0; k < nops; k++) {
    Op o; o.kind = dense ? (c.flag() ? OP_BIN : OP_HS) : (int)c.draw(NOP - 1); o.i = (int)c.draw(ns - 1); o.j = op_binary(o.kind) ? (int)c.draw(ns - 1) : o.i; if (!SPS[o.i]->q || !SPS[o.j]->q) if (o.kind == OP_LAC || o.kind == OP_LACF) o.kind = OP_HS;
    o.interval = c.flag(0.6) ? 1 : (int)c.draw(4); o.zero = c.flag(0.15); o.sample = c.flag() ? 1 : c.logreal(0.05, 4); o.str = c.logreal(0.01, 100); o.sure = (int)c.draw(2);
    species_t *a = SPS[o.i], *b = SPS[o.j]; double n = g->dV; double K0 = 1 / (uth * q.cvac) * n / (q.dt * w0); double R = sqrt(o.str * K0 / 3); if (o.zero) R = 0;
    Par *P; MALLOC(P, 1); P->op = k; P->K = o.zero ? 0 : o.sure == 0 ? 1e30f : o.sure == 1 ? (float)(0.3 * o.str * g->dV / (q.dt * w0 * std::max(1, o.interval))) : 1e-3f; REGISTER_OBJECT(P, NULL, NULL, NULL); pars.push_back(P);
    collision_op_t *cop; ops.push_back(o);
    switch (o.kind) {
    case OP_HS: cop = hard_sphere("hs", a, (float)(R * 0.3), b, (float)(R * 0.7), rp, o.sample, o.interval); break;
    case OP_LAC: cop = large_angle_coulomb("lac", a, b, (float)R, rp, o.sample, o.interval); break;
    case OP_TA: cop = takizuka_abe("ta", a, b, rp, o.zero ? 0 : o.str * uth * uth * uth * g->dV / q.dt, o.interval); break;
    case OP_BIN: cop = binary_collision_model("bin", (binary_rate_constant_func_t)c18_rate, (binary_collision_func_t)c18_coll, P, a, b, rp, o.sample, o.interval); break;
    case OP_LANG: cop = langevin(0.1f, o.zero ? 0 : (float)(o.str * 0.01 / q.dt), a, rp, o.interval); break;
    case OP_HSF: cop = hard_sphere_fluid("hsf", o.zero ? 0 : 1.f, 0.1f, 0, 0, c.flag() ? 0.01f : 0, 1, (float)R, a, (float)R, rp, o.interval); break;
    case OP_LACF: cop = large_angle_coulomb_fluid("lacf", o.zero ? 0 : 1.f, 0.1f, 0, 0, c.flag() ? 0.01f : 0, 1.f, 2.f, a, (float)R, rp, o.interval); break;
    default: cop = unary_collision_model("un", (unary_rate_constant_func_t)c18_urate, (unary_collision_func_t)c18_ucoll, P, a, rp, o.interval);
    }
    append_collision_op(cop, &cops);
    c.note("%s(%d,%d) interval %d sample %.3g strength %.3g%s; ", OPN[o.kind], o.i, o.j, o.interval, o.sample, o.str, o.zero ? " zero rate" : o.kind == OP_BIN || o.kind == OP_UN ? (o.sure == 0 ? " sure" : o.sure == 1 ? " sometimes" : " rarely") : "");
    c.label(OPN[o.kind]);
  }
  if (num_collision_op(cops) != nops) c.fail("list", "operator list holds %d operators, %d were added", num_collision_op(cops), nops);
  int nst = 1 + (int)c.draw(4); g->step = (int)c.draw(5); bool acted = false;
  for (int t = 0; t < nst && !c.failed; t++) {
    std::vector<std::vector<particle_t> > before(ns); for (int s = 0; s < ns; s++) before[s].assign(SPS[s]->p, SPS[s]->p + SPS[s]->np);
    tests.clear(); hits.clear(); utests.clear(); uhits.clear(); cb_err.clear();
    apply_collision_op_list(cops);
    // which operators had to act
    std::vector<int> act; for (int k = 0; k < nops; k++) if (ops[k].interval >= 1 && g->step % ops[k].interval == 0) act.push_back(k);
    std::vector<char> touched(ns, 0), momenta(ns, 0), unary(ns, 0);
    for (size_t k = 0; k < act.size(); k++) { const Op &o = ops[act[k]]; touched[o.i] = touched[o.j] = 1; bool mom = !o.zero && o.kind != OP_BIN && o.kind != OP_UN; if (o.kind == OP_TA && (!SPS[o.i]->q || !SPS[o.j]->q)) mom = false; if (mom) { momenta[o.i] = momenta[o.j] = 1; if (!op_binary(o.kind)) unary[o.i] = 1; } }
    if (!cb_err.empty()) c.fail("callback", "step %d: %s", (int)g->step, cb_err.c_str());
    std::vector<std::vector<int> > to(ns); // old index -> new index
    for (int s = 0; s < ns && !c.failed; s++) {
      species_t *sp = SPS[s]; const std::vector<particle_t> &b = before[s]; int np = (int)b.size();
      if (sp->np != np) { c.fail("count", "species %d has %d particles, had %d", s, sp->np, np); break; }
      if (!touched[s] && !momenta[s]) { if (np && memcmp(&b[0], sp->p, np * sizeof(particle_t))) c.fail("scope", "step %d: species %d changed although no operator acts on it in this step", (int)g->step, s); }
      to[s].assign(np, -1);
      for (int k = 0; k < np; k++) {
        const particle_t &p = sp->p[k]; int id = (int)lrint((double)p.dy * (1 << 17)) + np / 2; // the y offset identifies the particle
        int j = -1; if (id >= 0 && id < np) j = id;
        if (j < 0 || to[s][j] >= 0) { c.fail("identity", "species %d: a particle position was altered", s); break; }
        to[s][j] = k;
      }
      // before[] may itself be permuted: map through the identifying offset
      std::vector<int> pos(np); for (int k = 0; k < np; k++) pos[(int)lrint((double)b[k].dy * (1 << 17)) + np / 2] = k;
      std::vector<int> t2(np); for (int j = 0; j < np && !c.failed; j++) t2[pos[j]] = to[s][j]; to[s] = t2;
      for (int k = 0; k < np && !c.failed; k++) {
        const particle_t &x = b[k], &y = sp->p[to[s][k]];
        if (x.dx != y.dx || x.dy != y.dy || x.dz != y.dz || x.i != y.i || memcmp(&x.w, &y.w, 4)) c.fail("not-momentum", "species %d: position, cell or weight of a particle changed", s);
        if (!momenta[s] && (x.ux != y.ux || x.uy != y.uy || x.uz != y.uz)) c.fail(touched[s] ? "null-operator" : "scope", "step %d: species %d: momentum (%.9g %.9g %.9g) became (%.9g %.9g %.9g) though every operator acting on it has zero rate or does not collide", (int)g->step, s, x.ux, x.uy, x.uz, y.ux, y.uy, y.uz);
        if (!std::isfinite(y.ux) || !std::isfinite(y.uy) || !std::isfinite(y.uz)) c.fail("not-finite", "species %d: momentum (%g %g %g) became (%g %g %g)", s, x.ux, x.uy, x.uz, y.ux, y.uy, y.uz);
      }
    }
    if (c.failed) break;
    // per cell populations before
    int nv = g->nv; std::vector<std::vector<int> > cnt(ns, std::vector<int>(nv, 0)); for (int s = 0; s < ns; s++) for (size_t k = 0; k < before[s].size(); k++) cnt[s][before[s][k].i]++;
    bool uni = wmode == 0 || (wmode == 1 && ns == 1);
    if (uni || (wmode == 1)) { // conservation per cell, over the species linked by binary operators
      std::vector<int> comp(ns); for (int s = 0; s < ns; s++) comp[s] = s;
      for (size_t k = 0; k < act.size(); k++) { const Op &o = ops[act[k]]; if (op_binary(o.kind)) { int a = comp[o.i], b = comp[o.j]; for (int s = 0; s < ns; s++) if (comp[s] == a) comp[s] = b; } }
      for (int m = 0; m < ns && !c.failed; m++) {
        bool any = false, un = false; float w = -1; bool same = true; for (int s = 0; s < ns; s++) if (comp[s] == m) { any = true; un |= unary[s]; if (before[s].size()) { if (w < 0) w = before[s][0].w; if (before[s][0].w != w) same = false; } }
        if (!any || un || !same) continue;
        std::vector<double> P0(nv * 3, 0.), P1(nv * 3, 0.), E0(nv, 0.), E1(nv, 0.), MM(nv, 0.); std::vector<double> nc(nv, 0.);
        for (int s = 0; s < ns; s++) if (comp[s] == m) { double ms = SPS[s]->m; for (size_t k = 0; k < before[s].size(); k++) { const particle_t &x = before[s][k], &y = SPS[s]->p[to[s][k]]; int v = x.i; MM[v] = std::max(MM[v], ms); const float *a = &x.ux, *b = &y.ux; for (int d = 0; d < 3; d++) { P0[v * 3 + d] += ms * a[d]; P1[v * 3 + d] += ms * b[d]; E0[v] += 0.5 * ms * a[d] * a[d]; E1[v] += 0.5 * ms * b[d] * b[d]; } } }
        for (size_t k = 0; k < act.size(); k++) { const Op &o = ops[act[k]]; if (op_binary(o.kind) && comp[o.i] == m) for (int v = 0; v < nv; v++) nc[v] += std::max(1., o.kind == OP_TA ? 1. : o.sample) * (2 + std::max(cnt[o.i][v], cnt[o.j][v])); }
        for (int v = 0; v < nv && !c.failed; v++) {
          double Pt = 1e-6 * (2 + nc[v]) * sqrt(2 * E0[v] * MM[v]) + 1e-37, Et = 2e-6 * (2 + nc[v]) * E0[v] + 1e-37;
          for (int d = 0; d < 3; d++) if (!(fabs(P1[v * 3 + d] - P0[v * 3 + d]) <= Pt)) c.fail("momentum", "step %d cell %d: momentum component %d went from %.12g to %.12g (tolerance %.2g)", (int)g->step, v, d, P0[v * 3 + d], P1[v * 3 + d], Pt);
          if (!(fabs(E1[v] - E0[v]) <= Et)) c.fail("energy", "step %d cell %d: kinetic energy went from %.12g to %.12g (tolerance %.2g)", (int)g->step, v, E0[v], E1[v], Et);
        }
      }
    }
    // cells without partners
    for (int s = 0; s < ns && !c.failed; s++) if (momenta[s] && !unary[s]) for (size_t k = 0; k < before[s].size(); k++) {
      const particle_t &x = before[s][k], &y = SPS[s]->p[to[s][k]]; bool may = false;
      for (size_t a = 0; a < act.size(); a++) { const Op &o = ops[act[a]]; if (o.kind > OP_TA || o.zero) continue; if (o.i == s && cnt[o.j][x.i] >= (o.i == o.j ? 2 : 1)) may = true; if (o.j == s && cnt[o.i][x.i] >= (o.i == o.j ? 2 : 1)) may = true; }
      if (!may && (x.ux != y.ux || x.uy != y.uy || x.uz != y.uz)) { c.fail("cell-scope", "step %d: a particle of species %d without any partner in its cell was scattered", (int)g->step, s); break; }
    }
    // a single pair in a cell: lighter partner first, relative speed preserved
    if (act.size() == 1 && ops[act[0]].kind <= OP_TA && !ops[act[0]].zero) {
      const Op &o = ops[act[0]]; bool intra = o.i == o.j; std::map<int, std::vector<std::pair<int, int> > > by;
      for (int s = 0; s < ns; s++) if (s == o.i || s == o.j) for (size_t k = 0; k < before[s].size(); k++) by[before[s][k].i].push_back(std::make_pair(s, (int)k));
      bool one = o.kind == OP_TA || (int)(0.5 + o.sample) == 1;
      if (one) for (std::map<int, std::vector<std::pair<int, int> > >::iterator it = by.begin(); it != by.end() && !c.failed; ++it) {
        std::vector<std::pair<int, int> > &L = it->second; if (L.size() != 2 || (!intra && L[0].first == L[1].first)) continue;
        double u0[2][3], u1[2][3], w[2], m[2], um = 0; bool ch[2]; for (int a = 0; a < 2; a++) { const particle_t &x = before[L[a].first][L[a].second], &y = SPS[L[a].first]->p[to[L[a].first][L[a].second]]; const float *e = &x.ux, *f = &y.ux; ch[a] = false; for (int d = 0; d < 3; d++) { u0[a][d] = e[d]; u1[a][d] = f[d]; um = std::max(um, fabs((double)e[d])); if (e[d] != f[d]) ch[a] = true; } w[a] = x.w; m[a] = SPS[L[a].first]->m; }
        if (!ch[0] && !ch[1]) continue;
        acted = true; c.label(w[0] == w[1] ? "pair-equal-weight" : ch[0] && ch[1] ? "pair-both" : "pair-lighter");
        int li = w[0] <= w[1] ? 0 : 1, he = 1 - li; double dh = 0; for (int d = 0; d < 3; d++) dh = std::max(dh, fabs(u1[he][d] - u0[he][d]));
        double mul = m[he] / (m[0] + m[1]);
        if (!ch[li] && dh * m[he] / m[li] > 1e-5 * um) { c.fail("lighter-partner", "cell %d: the heavier-weight particle (w %g) was scattered but the lighter one (w %g) was not", it->first, w[he], w[li]); break; }
        if (w[0] == w[1] && (ch[0] != ch[1])) { double da = 0; for (int a = 0; a < 2; a++) for (int d = 0; d < 3; d++) da = std::max(da, fabs(u1[a][d] - u0[a][d]) * m[a] / std::min(m[0], m[1])); if (da > 1e-4 * um) { c.fail("equal-weight", "cell %d: only one of two particles of equal weight was scattered", it->first); break; } }
        double r0 = 0, r1 = 0; for (int d = 0; d < 3; d++) { double ur = u0[li][d] - u0[he][d], dl = (u1[li][d] - u0[li][d]) / mul; r0 += ur * ur; r1 += (ur + dl) * (ur + dl); }
        if (fabs(sqrt(r1) - sqrt(r0)) > 2e-6 * (um / mul + sqrt(r0))) { c.fail("elastic", "cell %d: relative speed %.9g became %.9g", it->first, sqrt(r0), sqrt(r1)); break; }
        if (ch[0] && ch[1]) for (int d = 0; d < 3; d++) { double b = m[0] * u0[0][d] + m[1] * u0[1][d], e = m[0] * u1[0][d] + m[1] * u1[1][d]; if (fabs(b - e) > 2e-6 * um * (m[0] + m[1])) { c.fail("pair-momentum", "cell %d: both partners scattered, momentum of the physical pair %.9g became %.9g", it->first, b, e); break; } }
      }
    }
    // custom operators: number of tests and certainty
    int nbin = 0, nun = 0, kb = -1, ku = -1; for (size_t k = 0; k < act.size(); k++) { if (ops[act[k]].kind == OP_BIN) nbin++, kb = act[k]; if (ops[act[k]].kind == OP_UN) nun++, ku = act[k]; }
    if (nbin == 0 && (tests.size() || hits.size())) c.fail("interval", "step %d: a custom binary operator ran outside its interval", (int)g->step);
    if (nun == 0 && (utests.size() || uhits.size())) c.fail("interval", "step %d: a custom unary operator ran outside its interval", (int)g->step);
    if (nbin == 1 && !c.failed) {
      const Op &o = ops[kb]; std::vector<int> nt(nv, 0); for (size_t k = 0; k < tests.size(); k++) nt[tests[k].k]++;
      for (int v = 0; v < nv && !c.failed; v++) { int a = cnt[o.i][v], b = cnt[o.j][v]; double want = !a || !b ? 0 : (o.i == o.j ? 0.5 : 1) * o.sample * std::max(a, b); if (fabs(nt[v] - want) > (a && b ? 0.5 + 1e-6 * want : 0)) c.fail("candidates", "step %d cell %d with %d and %d particles: %d pairs were tested, expected %g", (int)g->step, v, a, b, nt[v], want); }
      if (o.sure == 0 && !o.zero && hits.size() != tests.size()) c.fail("certain", "%d of %d pairs with certain collision collided", (int)hits.size(), (int)tests.size());
      if (o.zero && hits.size()) c.fail("null-operator", "%d collisions at zero rate", (int)hits.size());
      if (tests.size() > 3) acted = true;
    }
    if (nun == 1 && !c.failed) {
      const Op &o = ops[ku]; std::vector<int> n(SPS[o.i]->np, 0); for (size_t k = 0; k < utests.size(); k++) n[utests[k]]++;
      for (size_t k = 0; k < n.size(); k++) if (n[k] != 1) { c.fail("unary-count", "particle %d of %d was tested %d times", (int)k, (int)n.size(), n[k]); break; }
      if (o.sure == 0 && !o.zero && uhits.size() != utests.size()) c.fail("certain", "%d of %d particles with certain collision collided", (int)uhits.size(), (int)utests.size());
      if (o.zero && uhits.size()) c.fail("null-operator", "%d collisions at zero rate", (int)uhits.size());
    }
    for (int s = 0; s < ns; s++) { bool diff = false; for (size_t k = 0; k < before[s].size() && !diff; k++) { const particle_t &x = before[s][k], &y = SPS[s]->p[to[s][k]]; diff = x.ux != y.ux; } if (diff) acted = true; }
    // move on: next step, some particles change cells
    g->step += 1 + (int)c.draw(2);
    if (c.flag()) for (int s = 0; s < ns; s++) for (int k = 0; k < SPS[s]->np; k++) if (r.flag(0.3)) SPS[s]->p[k].i = occ == 4 ? lo : vox(g, r.irange(1, g->nx), r.irange(1, g->ny), r.irange(1, g->nz));
  }
  (void)hi;
  if (acted) c.nontrivial(); c.label(occ == 0 ? "occ 0-3" : occ == 1 ? "occ 1-2" : occ == 2 ? "occ mixed" : occ == 4 ? "occ dense" : "occ clustered");
  for (size_t k = 0; k < pars.size(); k++) { UNREGISTER_OBJECT(pars[k]); FREE(pars[k]); }
  delete_collision_op_list(cops); delete_species_list(splist); delete_rng_pool(rp); delete_grid(g); reg_release(mark, true);
}

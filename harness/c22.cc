// C22: regions of the input deck language, named materials and species.
#include "simlib.h"
#include "deck/wrapper.h"
#undef global
const char *pbt_check_name = "C22";
void pbt_setup() {}
void pbt_teardown() {}

// A region is a set of points of the half-cell lattice (2*(x-lo)/d); off the lattice it is noise.
struct Rgn {
  int kind; uint64_t s; double p, b[6], cen[3], r; double lo[3], h[3]; int gn[3]; long off; bool wrap[3];
  bool lattice(const int L0[3]) const {
    int L[3]; for (int a = 0; a < 3; a++) { L[a] = L0[a]; if (wrap[a]) L[a] = ((L[a] % (2 * gn[a])) + 2 * gn[a]) % (2 * gn[a]); }
    if (kind == 0) return 0.5 * (hunit(s, 1, L[0] + 16, L[1] + 16, L[2] + 16) + 1) < p;
    if (kind == 1) { for (int a = 0; a < 3; a++) if (L[a] < b[a] || L[a] > b[a + 3]) return false; return true; }
    if (kind == 2) { double t = 0; for (int a = 0; a < 3; a++) t += (L[a] - cen[a]) * (L[a] - cen[a]); return t < r * r; }
    if (kind == 3) return true;
    int a = (int)r; return p < 0.5 ? L[a] < b[0] : L[a] > b[0]; // a half space
  }
  bool operator()(double x, double y, double z) {
    double X[3] = {x, y, z}; int L[3]; bool on = true; for (int a = 0; a < 3; a++) { double v = 2 * (X[a] - lo[a]) / h[a]; L[a] = (int)lrint(v); if (!(fabs(v - L[a]) < 0.02)) on = false; }
    if (on) return lattice(L); off++; uint64_t k = s; for (int a = 0; a < 3; a++) { uint64_t u; memcpy(&u, &X[a], 8); k = (k ^ u) * 1099511628211ull; } return (k >> 33) & 1;
  }
  std::string str() const { char t[200]; static const char *nm[] = {"points", "box", "sphere", "everywhere", "half space"}; sprintf(t, "%s", nm[kind]); return t; }
};
static Rgn gen_rgn(pbt::Ctx &c, const Geo &q) {
  Rgn R; memset((void *)&R, 0, sizeof R); std::vector<int> w(5); w[0] = 4; w[1] = 2; w[2] = 2; w[3] = 1; w[4] = 1; R.kind = c.pickw(w); R.s = c.draw(0xffffff); double ps[] = {0.1, 0.5, 0.9}; R.p = R.kind == 4 ? (c.flag() ? 0.2 : 0.8) : ps[c.draw(2)];
  for (int a = 0; a < 3; a++) { R.lo[a] = q.lo[a]; R.h[a] = q.d(a); R.gn[a] = q.gn[a]; int u = (int)c.draw(2 * q.gn[a]), v = (int)c.draw(2 * q.gn[a]); R.b[a] = std::min(u, v) - 0.5; R.b[a + 3] = std::max(u, v) + 0.5; R.cen[a] = c.real(-1, 2 * q.gn[a] + 1); }
  R.r = R.kind == 4 ? (double)c.draw(2) : c.real(0.5, 1.2 * std::max(q.gn[0], std::max(q.gn[1], q.gn[2]))); return R;
}
// linear field in lattice coordinates
struct Eqn { double c0, c[3]; bool zero; const Geo *q; double at(double x, double y, double z) const { if (zero) return 0; double X[3] = {x, y, z}, t = c0; for (int a = 0; a < 3; a++) t += c[a] * 2 * (X[a] - q->lo[a]) / q->d(a); return t; } double lat(const double L[3]) const { return zero ? 0 : c0 + c[0] * L[0] + c[1] * L[1] + c[2] * L[2]; } };

struct Deck : vpic_simulation {
  void prm(Rgn &r, material_t *m) { set_point_region_material(r(x, y, z), m); }
  void rm(Rgn &r, material_t *v, material_t *s) { set_region_material(r(x, y, z), v, s); }
  void prf(Rgn &r, Eqn *e) { set_point_region_field(r(x, y, z), e[0].at(x, y, z), e[1].at(x, y, z), e[2].at(x, y, z), e[3].at(x, y, z), e[4].at(x, y, z), e[5].at(x, y, z)); }
  void rf(Rgn &r, Eqn *e) { set_region_field(r(x, y, z), e[0].at(x, y, z), e[1].at(x, y, z), e[2].at(x, y, z), e[3].at(x, y, z), e[4].at(x, y, z), e[5].at(x, y, z)); }
  void prb(Rgn &r, void *i, void *e) { set_point_region_bc(r(x, y, z), i, e); }
  void rb(Rgn &r, void *v, void *i, void *e) { set_region_bc(r(x, y, z), v, i, e); }
  void ve(Rgn &r, emitter_t *em) { define_volume_emitter(em, r(x, y, z)); }
  void se(Rgn &r, emitter_t *em) { define_surface_emitter(em, r(x, y, z)); }
  void evm(material_t *m) { set_region_material(everywhere, m, m); }
};
// which half-cell offsets a material slot or field component lives at: 0 node, 1 centre
static void slot_pos(int k, int h[3]) { for (int a = 0; a < 3; a++) h[a] = 0; if (k < 3) h[k] = 1; else if (k == MT_N) ; else if (k == MT_C) h[0] = h[1] = h[2] = 1; else { int b = k - MT_F; for (int a = 0; a < 3; a++) h[a] = a != b; } }
static void comp_pos(int k, int h[3]) { for (int a = 0; a < 3; a++) h[a] = k < 3 ? a == k : a != k - 3; }
// all (any) of the cells that share a component are in the region
static void around(const Rgn &R, const int G[3], const int h[3], bool &all, bool &any) {
  all = true; any = false; for (int m = 0; m < 8; m++) { int L[3]; bool use = true; for (int a = 0; a < 3; a++) { int o = (m >> a) & 1; if (o && h[a]) use = false; L[a] = 2 * (G[a] - o) - 1; } if (!use) continue; bool in = R.lattice(L); all &= in; any |= in; }
}
static int64_t bc_pick(pbt::Ctx &c, particle_bc_t *a, particle_bc_t *b, void **p) { switch ((int)c.draw(4)) { case 0: *p = leave_unchanged; return 0; case 1: *p = (void *)(intptr_t)reflect_particles; return reflect_particles; case 2: *p = (void *)(intptr_t)absorb_particles; return absorb_particles; case 3: *p = a; return -3; default: *p = b; return -4; } }

static std::string rname(pbt::Ctx &c, const std::vector<std::string> &have) {
  if (!have.empty() && c.flag(0.4)) { std::string s = have[c.draw(have.size() - 1)]; switch ((int)c.draw(3)) { case 0: s += (char)('a' + c.draw(25)); break; case 1: if (s.size() > 1) s.resize(s.size() - 1); break; case 2: { char &k = s[c.draw(s.size() - 1)]; k = isalpha(k) ? k ^ 0x20 : 'q'; } break; default: s = " " + s; } return s; }
  std::string s; int n = 1 + (int)c.draw(c.flag(0.1) ? 200 : 8); for (int i = 0; i < n; i++) s += (char)(33 + c.draw(93)); return s;
}

void pbt_case(pbt::Ctx &c) {
  GeoOpt o; o.maxn = 5; Geo q = gen_geo(c, o); cur_case = NULL; std::string log; char tb[300];
  vpic_simulation *sim = new vpic_simulation(); Deck *D = static_cast<Deck *>(sim); grid_t *g = sim->grid; sim->define_units(q.cvac, q.eps0); sim->define_timestep(q.dt); geo_partition(q, g);
  LocalMap L(q); const int nv = g->nv;
  // materials and species, found again by name and number
  int nm = 1 + (int)c.draw(c.flag(0.1) ? 40 : 5), nsp = (int)c.draw(c.flag(0.1) ? 12 : 3); std::vector<std::string> mn, sn; std::vector<material_t *> mp; std::vector<species_t *> sp; std::vector<std::vector<double> > mv; std::vector<double> sq, sm; std::vector<int> sk;
  for (int i = 0; i < nm; i++) {
    std::string n = rname(c, mn); if (n.empty() || std::find(mn.begin(), mn.end(), n) != mn.end()) { if (mn.empty()) n = "v"; else continue; }
    std::vector<double> v(12); for (int k = 0; k < 12; k++) v[k] = (float)(k < 6 ? c.logreal(0.1, 10) : c.logreal(0.001, 10)); int how = (int)c.draw(4);
    if (how == 0) { v[0] = v[1] = v[2]; v[3] = v[4] = v[5] = 1; for (int k = 6; k < 12; k++) v[k] = 0; mp.push_back(sim->define_material(n.c_str(), v[0])); }
    else if (how == 1) { v[1] = v[2] = v[0]; v[4] = v[5] = v[3]; v[7] = v[8] = v[6]; for (int k = 9; k < 12; k++) v[k] = 0; mp.push_back(sim->define_material(n.c_str(), v[0], v[3], v[6])); }
    else if (how == 2) { for (int b = 0; b < 4; b++) v[3 * b + 1] = v[3 * b + 2] = v[3 * b]; mp.push_back(sim->define_material(n.c_str(), v[0], v[3], v[6], v[9])); }
    else { if (how == 3) v[9] = v[10] = v[11] = 0; if (how == 3) mp.push_back(sim->define_material(n.c_str(), v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8])); else mp.push_back(sim->define_material(n.c_str(), v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11])); }
    if (how == 0) v[1] = v[2] = v[0];
    mn.push_back(n); mv.push_back(v);
  }
  nm = (int)mn.size(); sim->define_field_array();
  for (int i = 0; i < nsp; i++) { std::string n = rname(c, sn); if (n.empty() || std::find(sn.begin(), sn.end(), n) != sn.end()) continue; double Q = (float)c.real(-3, 3), M = (float)c.logreal(0.1, 10); int np = (int)c.draw(2000), nmv = c.flag() ? -1 : (int)c.draw(500), so = (int)c.draw(20), oop = (int)c.draw(1); species_t *s = sim->define_species(n.c_str(), Q, M, np, nmv, so, oop); sn.push_back(n); sp.push_back(s); sq.push_back(Q); sm.push_back(M); if (s->sort_interval != so || s->sort_out_of_place != oop || s->max_np < std::max(1, np) || s->max_nm < nmv || (nmv < 0 && s->max_nm < 2 * np / 25) || s->np || s->nm || s->g != g) c.fail("species-def", "species \"%s\" sort %d/%d out of place %d/%d room %d (asked %d) movers %d (asked %d)", n.c_str(), s->sort_interval, so, s->sort_out_of_place, oop, s->max_np, np, s->max_nm, nmv); }
  for (int i = 0; i < nm && !c.failed; i++) {
    material_t *m = sim->lookup_material(mn[i].c_str()); if (m != mp[i] || strcmp(m->name, mn[i].c_str())) { c.fail("material-name", "material \"%s\" is not found under its name", mn[i].c_str()); break; } if (sim->lookup_material(m->id) != m || get_material_id(m) != m->id) c.fail("material-id", "material \"%s\" is not found under its id %d", mn[i].c_str(), (int)m->id); for (int j = 0; j < i; j++) if (mp[j]->id == m->id) c.fail("material-id", "two materials share id %d", (int)m->id);
    for (int k = 0; k < 12; k++) if ((&m->epsx)[k] != (float)mv[i][k]) { c.fail("material-value", "material \"%s\" property %d is %g, defined as %g", mn[i].c_str(), k, (&m->epsx)[k], mv[i][k]); break; }
  }
  for (size_t i = 0; i < sp.size() && !c.failed; i++) { if (sim->find_species(sn[i].c_str()) != sp[i] || sim->find_species(sp[i]->id) != sp[i] || strcmp(sp[i]->name, sn[i].c_str())) c.fail("species-name", "species \"%s\" is not found by name or id", sn[i].c_str()); for (size_t j = 0; j < i; j++) if (sp[j]->id == sp[i]->id) c.fail("species-id", "two species share id %d", sp[i]->id); if (sp[i]->q != (float)sq[i] || sp[i]->m != (float)sm[i]) c.fail("species-value", "species \"%s\" q %g m %g", sn[i].c_str(), sp[i]->q, sp[i]->m); }
  for (int k = 0; k < 3 && !c.failed; k++) { std::string n = rname(c, k & 1 ? sn : mn); if (std::find(mn.begin(), mn.end(), n) == mn.end() && sim->lookup_material(n.c_str())) c.fail("material-name", "material \"%s\" found but never defined", n.c_str()); if (std::find(sn.begin(), sn.end(), n) == sn.end() && sim->find_species(n.c_str())) c.fail("species-name", "species \"%s\" found but never defined", n.c_str()); }
  if (!c.failed && (sim->lookup_material((material_id)nm) || sim->find_species((int32_t)sp.size()) || sim->lookup_material((const char *)NULL) || sim->find_species((const char *)NULL))) c.fail("lookup", "a lookup found something never defined");
  // boundary handlers and an emitter
  species_t *mv_sp = NULL; { std::string n = "movers"; while (sim->find_species(n.c_str())) n += "_"; mv_sp = sim->define_species(n.c_str(), 1, 1, 4000, 4000, 0, 0); }
  particle_bc_t *b3 = sim->define_particle_bc(absorb_tally(sim->species_list, sim->field_array)), *b4 = sim->define_particle_bc(absorb_tally(sim->species_list, sim->field_array)); if (get_particle_bc_id(b3) != -3 || get_particle_bc_id(b4) != -4 || get_particle_bc_id(NULL) != 0) c.fail("bc-id", "particle boundary conditions have ids %d and %d", (int)get_particle_bc_id(b3), (int)get_particle_bc_id(b4));
  // model of the local state
  std::vector<field_t> F(sim->field_array->f, sim->field_array->f + nv), X; std::vector<double> val(nv * 6, 0); std::vector<char> set(nv * 6, 0); std::vector<int64_t> N(g->neighbor, g->neighbor + 6 * nv), N0 = N; std::vector<std::vector<int> > em; std::vector<emitter_t *> ep; long inside = 0;
  for (int v = 0; v < nv; v++) for (int k = 0; k < 6; k++) { float z = (float)hunit(77, k, v, 1, 2); fcomp(F[v], k) = z; fcomp(sim->field_array->f[v], k) = z; }
  for (int v = 0; v < nv; v++) for (int k = 0; k < 8; k++) if (fmatid(sim->field_array->f[v], k) != 0) c.fail("default", "unassigned components hold material %d", (int)fmatid(sim->field_array->f[v], k));
  int nop = 1 + (int)c.draw(4); bool bcd = false;
  for (int op = 0; op < nop && !c.failed; op++) {
    Rgn R = gen_rgn(c, q); int kind = (int)c.draw(7); material_t *m1 = c.flag(0.2) ? NULL : mp[c.draw(nm - 1)], *m2 = c.flag(0.2) ? NULL : mp[c.draw(nm - 1)]; Eqn E[6]; void *p1, *p2, *p3;
    for (int k = 0; k < 6; k++) { E[k].q = &q; E[k].zero = c.flag(0.1); E[k].c0 = c.real(-2, 2); for (int a = 0; a < 3; a++) E[k].c[a] = c.real(-1, 1); }
    int64_t v1 = bc_pick(c, b3, b4, &p1), v2 = bc_pick(c, b3, b4, &p2), v3 = bc_pick(c, b3, b4, &p3); emitter_t *e = NULL; if (kind >= 6) e = child_langmuir(mv_sp, sim->interpolator_array, sim->field_array, sim->accumulator_array, sim->entropy, 1, 1, 1, 0, 1);
    static const char *kn[] = {"point material", "material", "point field", "field", "point bc", "bc", "volume emitter", "surface emitter"}; sprintf(tb, "%s in %s (materials %d %d, bc %d %d %d); ", kn[kind], R.str().c_str(), m1 ? m1->id : -1, m2 ? m2->id : -1, (int)v1, (int)v2, (int)v3); log += tb;
    switch (kind) { case 0: D->prm(R, m1); break; case 1: D->rm(R, m1, m2); break; case 2: D->prf(R, E); break; case 3: D->rf(R, E); break; case 4: D->prb(R, p1, p2); bcd = true; break; case 5: D->rb(R, p1, p2, p3); bcd = true; break; case 6: D->ve(R, e); break; default: D->se(R, e); }
    std::vector<int> comp;
    for (int z = 0; z <= g->nz + 1; z++) for (int y = 0; y <= g->ny + 1; y++) for (int x = 0; x <= g->nx + 1; x++) {
      int v = vox(g, x, y, z), G[3] = {x + L.off[0], y + L.off[1], z + L.off[2]}, h[3], P[3]; bool all, any; bool real_cell = x >= 1 && x <= g->nx && y >= 1 && y <= g->ny && z >= 1 && z <= g->nz;
      if (kind < 2) for (int k = 0; k < 8; k++) { slot_pos(k, h); for (int a = 0; a < 3; a++) P[a] = 2 * G[a] - 2 + h[a]; if (kind == 0) { if (m1 && R.lattice(P)) fmatid(F[v], k) = m1->id, inside++; } else { around(R, G, h, all, any); if (m2 && any && k != MT_C) fmatid(F[v], k) = m2->id, inside++; if (m1 && all) fmatid(F[v], k) = m1->id, inside++; } }
      if (kind == 2 || kind == 3) for (int k = 0; k < 6; k++) { comp_pos(k, h); double PL[3]; for (int a = 0; a < 3; a++) PL[a] = P[a] = 2 * G[a] - 2 + h[a]; around(R, G, h, all, any); if (kind == 2 ? R.lattice(P) : any) { val[6 * v + k] = E[k].lat(PL) * (k < 3 ? 1 : q.cvac); set[6 * v + k] = 1; inside++; } }
      if (kind >= 4 && real_cell) {
        int cc[3] = {2 * G[0] - 1, 2 * G[1] - 1, 2 * G[2] - 1}; bool rc = R.lattice(cc); if (kind == 6 && rc) comp.push_back(COMPONENT_ID(v, BOUNDARY(0, 0, 0))), inside++;
        for (int f = 0; f < 6; f++) {
          int a = f % 3, n[3] = {cc[0], cc[1], cc[2]}; n[a] += f < 3 ? -2 : 2; bool rn = R.lattice(n);
          if (kind == 5) { int64_t b = rc && rn ? v1 : rc ? v2 : rn ? v3 : 0; if (b) N[6 * v + f] = b, inside++; }
          if (kind == 7 && !rc && rn) comp.push_back(COMPONENT_ID(v, FACE_BC[f])), inside++;
          if (kind == 4) { bool al = true, an = false; for (int m = 0; m < 8; m++) { int K[3]; for (int d = 0; d < 3; d++) K[d] = cc[d] + ((m >> d & 1) ? 1 : -1); if ((K[a] > cc[a]) != (f >= 3)) continue; bool in = R.lattice(K); al &= in; an |= in; } int64_t b = al && v1 ? v1 : an ? v2 : 0; if (b) N[6 * v + f] = b, inside++; }
        }
      }
    }
    if (kind >= 6) { std::sort(comp.begin(), comp.end()); em.push_back(comp); ep.push_back(e); }
  }
  c.note("%s%d materials, %d species; %s", q.str().c_str(), nm, (int)sp.size(), log.c_str());
  for (int v = 0; v < nv && !c.failed; v++) {
    int x, y, z; unvox(g, v, x, y, z);
    for (int k = 0; k < 8 && !c.failed; k++) if (fmatid(sim->field_array->f[v], k) != fmatid(F[v], k)) c.fail("material", "cell (%d,%d,%d) slot %d holds material %d, expected %d", x, y, z, k, (int)fmatid(sim->field_array->f[v], k), (int)fmatid(F[v], k));
    for (int k = 0; k < 6 && !c.failed; k++) { double s = fcomp(sim->field_array->f[v], k), e = set[6 * v + k] ? val[6 * v + k] : fcomp(F[v], k), t = set[6 * v + k] ? 1e-4 * (1 + q.cvac) * 4 : 0; if (!(fabs(s - e) <= t)) c.fail("field", "cell (%d,%d,%d) component %d is %.9g, expected %.9g", x, y, z, k, s, e); }
    for (int f = 0; f < 6 && !c.failed; f++) if (g->neighbor[6 * v + f] != N[6 * v + f]) c.fail("bc", "cell (%d,%d,%d) face %d leads to %ld, expected %ld", x, y, z, f, (long)g->neighbor[6 * v + f], (long)N[6 * v + f]);
  }
  for (size_t i = 0; i < em.size() && !c.failed; i++) { std::vector<int> v(ep[i]->component, ep[i]->component + ep[i]->n_component); std::sort(v.begin(), v.end()); if (v != em[i]) c.fail("emitter", "emitter %d covers %d components, expected %d (or other ones)", (int)i, (int)v.size(), (int)em[i].size()); }
  { int n = 0; emitter_t *e; LIST_FOR_EACH(e, sim->emitter_list) n++; if (n != (int)em.size()) c.fail("emitter", "%d emitters are listed, %d defined", n, (int)em.size()); }
  pbt::any_rank(c.failed);
  if (inside) c.nontrivial(); c.label("regions"); if (bcd) c.label("boundary regions");
  // particles meet the boundary conditions of a region
  if (!pbt::any_rank(c.failed) && c.flag(0.5)) {
    c.label("region walls in motion"); Rgn R = gen_rgn(c, q); int mode = (int)c.draw(2); void *rp = (void *)(intptr_t)reflect_particles, *ap = (void *)(intptr_t)absorb_particles; double us = c.logreal(0.1, 5); int np = 1 + (int)c.draw(200), nst = 1 + (int)c.draw(6);
    struct Fit { static bool in(const Rgn &R, const Geo &q, const int C[3]) { int Lc[3] = {2 * C[0] - 1, 2 * C[1] - 1, 2 * C[2] - 1}; return R.lattice(Lc); } };
    for (int v = 0; v < nv; v++) for (int f = 0; f < 6; f++) g->neighbor[6 * v + f] = N0[6 * v + f];
    for (int a = 0; a < 3; a++) R.wrap[a] = q.periodic(a);
    if (mode == 0) D->rb(R, NULL, rp, rp); else if (mode == 1) D->rb(R, NULL, rp, ap); else D->rb(R, rp, NULL, NULL);
    pbt::SplitMix r = c.bulk(); std::vector<GP> gp = gen_particles(r, q, np, us, 0); int mine = 0, l[3]; for (int i = 0; i < np; i++) { gp[i].w = (float)(i + 1); for (int a = 0; a < 3; a++) gp[i].o[a] = (float)r.real(-0.99, 0.99); if (own_cell(q, gp[i].c, l)) mv_sp->p[mv_sp->np++] = local_particle(g, gp[i], l), mine++; }
    std::vector<char> st(np), seen(np, 0); std::vector<int> c0(np); for (int i = 0; i < np; i++) { int C[3] = {gp[i].c[0] + 1, gp[i].c[1] + 1, gp[i].c[2] + 1}; st[i] = Fit::in(R, q, C); c0[i] = C[0] + 1000 * C[1] + 1000000 * C[2]; }
    for (int s = 0; s < nst; s++) { clear_accumulator_array(sim->accumulator_array); advance_p(mv_sp, sim->accumulator_array, sim->interpolator_array); for (int b = 0; b < 6; b++) boundary_p(sim->particle_bc_list, sim->species_list, sim->field_array, sim->accumulator_array); }
    if (mv_sp->nm) c.fail("movers-left", "unfinished movers");
    struct RP { int tag, C[3]; }; std::vector<RP> rv; for (int i = 0; i < mv_sp->np; i++) { const particle_t &p = mv_sp->p[i]; RP k; int x, y, z; unvox(g, p.i, x, y, z); k.tag = (int)p.w - 1; k.C[0] = x + L.off[0]; k.C[1] = y + L.off[1]; k.C[2] = z + L.off[2]; rv.push_back(k); }
    std::vector<RP> gv = pbt::allgatherv(rv); bool inr = false;
    for (size_t i = 0; i < gv.size() && !c.failed; i++) {
      int t = gv[i].tag; if (t < 0 || t >= np || seen[t]++) { c.fail("walls-copy", "particle %d appears twice or from nowhere", t); break; } bool in = Fit::in(R, q, gv[i].C); inr |= in;
      if (mode < 2 && in != (bool)st[t]) c.fail("walls-crossed", "particle %d started %s the region and ended %s it in cell (%d,%d,%d)", t, st[t] ? "inside" : "outside", in ? "inside" : "outside", gv[i].C[0], gv[i].C[1], gv[i].C[2]);
      if (mode == 2 && R.kind == 3) { int k = gv[i].C[0] + 1000 * gv[i].C[1] + 1000000 * gv[i].C[2]; if (k != c0[t]) c.fail("walls-vpbc", "particle %d left its cell although every face of the region reflects", t); }
    }
    bool absw = false; for (int f = 0; f < 6; f++) if (q.pbc[f] == absorb_particles) absw = true;
    if (mode != 1 && !absw) for (int t = 0; t < np; t++) if (!seen[t]) { c.fail("walls-lost", "particle %d is gone although nothing absorbs", t); break; }
    if (mode == 1 && !absw) for (int t = 0; t < np; t++) if (!seen[t] && st[t]) { c.fail("walls-lost", "particle %d was inside a region with reflecting inner walls and is gone", t); break; }
    pbt::any_rank(c.failed);
  }
  delete sim;
}

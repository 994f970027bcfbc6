// C23: grid topology of partitioned boxes and of joined custom domains.
#include "simlib.h"
const char *pbt_check_name = "C23";
void pbt_setup() {}
void pbt_teardown() {}
static int OPP(int f) { return (f + 3) % 6; }
struct Info { int n[3], nv, nx6; float x0[3], x1[3], d[3], rd[3], dV, r8V; int64_t rl, rh; };
static bool near_rel(double a, double b, double t) { return fabs(a - b) <= t * std::max(fabs(a), fabs(b)); }

// expected neighbour of a face given the rank owning the other side, or a boundary condition
struct Topo { std::vector<Info> all; int voxr(int r, int x, int y, int z) const { return x + (all[r].n[0] + 2) * (y + (all[r].n[1] + 2) * z); } };

static void check_common(pbt::Ctx &c, const grid_t *g, Topo &T) {
  Info I; memset(&I, 0, sizeof I); for (int a = 0; a < 3; a++) { I.n[a] = (&g->nx)[a]; I.d[a] = (&g->dx)[a]; I.rd[a] = (&g->rdx)[a]; I.x0[a] = (&g->x0)[a]; I.x1[a] = (&g->x1)[a]; } I.nv = g->nv; I.dV = g->dV; I.r8V = g->r8V; I.rl = g->rangel; I.rh = g->rangeh;
  std::vector<Info> one(1, I); T.all = pbt::allgatherv(one); int64_t s = 0; int P = pbt::nranks();
  for (int r = 0; r < P && !c.failed; r++) {
    Info &A = T.all[r]; if (g->range[r] != s) { c.fail("range", "range[%d] is %ld, expected %ld", r, (long)g->range[r], (long)s); break; } if (A.rl != s || A.rh != s + A.nv - 1) { c.fail("range", "rank %d says its voxels are %ld..%ld, expected %ld..%ld", r, (long)A.rl, (long)A.rh, (long)s, (long)(s + A.nv - 1)); break; }
    if (A.nv != (A.n[0] + 2) * (A.n[1] + 2) * (A.n[2] + 2)) c.fail("nv", "rank %d has %d voxels for %dx%dx%d cells", r, A.nv, A.n[0], A.n[1], A.n[2]); s += A.nv;
  }
  if (!c.failed && g->range[P] != s) c.fail("range", "range ends at %ld, expected %ld", (long)g->range[P], (long)s);
  if (!c.failed && (g->sx != 1 || g->sy != g->nx + 2 || g->sz != g->sy * (g->ny + 2))) c.fail("stride", "strides %d %d %d", g->sx, g->sy, g->sz);
  if (g->bc[BOUNDARY(0, 0, 0)] != pbt::rank()) c.fail("self", "bc of the domain itself is %d", g->bc[BOUNDARY(0, 0, 0)]);
}
// wall[f]: 0 the face is joined to rank nb[f], otherwise the particle boundary condition
static void check_neighbors(pbt::Ctx &c, const grid_t *g, const Topo &T, const int nb[6], const int64_t wall[6], const char *when) {
  int r = pbt::rank();
  for (int z = 0; z <= g->nz + 1 && !c.failed; z++) for (int y = 0; y <= g->ny + 1 && !c.failed; y++) for (int x = 0; x <= g->nx + 1 && !c.failed; x++) {
    int p[3] = {x, y, z}; bool ghost = false; for (int a = 0; a < 3; a++) if (p[a] < 1 || p[a] > (&g->nx)[a]) ghost = true;
    for (int f = 0; f < 6 && !c.failed; f++) {
      int a = f % 3, n = (&g->nx)[a]; int64_t e; bool edge = f < 3 ? p[a] == 1 : p[a] == n; int m[3] = {x, y, z};
      if (ghost) e = reflect_particles; else if (!edge) { m[a] += f < 3 ? -1 : 1; e = g->rangel + T.voxr(r, m[0], m[1], m[2]); } else if (wall[f]) e = wall[f]; else { int R = nb[f]; m[a] = f < 3 ? T.all[R].n[a] : 1; e = T.all[R].rl + T.voxr(R, m[0], m[1], m[2]); }
      int64_t got = g->neighbor[6 * vox(g, x, y, z) + f]; if (got != e) c.fail("neighbor", "%s: rank %d cell (%d,%d,%d) face %d leads to %ld, expected %ld", when, r, x, y, z, f, (long)got, (long)e);
    }
  }
}
static void check_symmetry(pbt::Ctx &c, const grid_t *g, const Topo &T) {
  std::vector<int64_t> mine(g->neighbor, g->neighbor + 6 * g->nv); std::vector<int64_t> all = pbt::allgatherv(mine); int64_t lo = g->rangel;
  for (int64_t v = 0; v < g->nv && !c.failed; v++) for (int f = 0; f < 6; f++) { int64_t n = mine[6 * v + f]; if (n < 0) continue; if (n >= (int64_t)(all.size() / 6)) { c.fail("symmetry", "neighbour %ld does not exist", (long)n); break; } int64_t b = all[6 * n + OPP(f)]; if (b != lo + v) { c.fail("symmetry", "voxel %ld reaches %ld through face %d, which comes back to %ld", (long)(lo + v), (long)n, f, (long)b); break; } }
}

void pbt_case(pbt::Ctx &c) {
  int P = pbt::nranks(), r = pbt::rank(); bool custom = c.flag(0.3); Topo T;
  vpic_simulation *sim = c.flag(0.5) ? new vpic_simulation() : NULL; grid_t *g = sim ? sim->grid : new_grid(); int ndo = c.flag(0.2) ? 2 : 1; int nb[6]; int64_t wall[6]; std::string log; char tb[400];
  for (int b = 0; b < 27 && !c.failed; b++) if (g->bc[b] != (b == 13 ? r : (int)anti_symmetric_fields)) c.fail("new-grid", "a new grid has boundary condition %d at %d", g->bc[b], b);
  int bcx[27];
  for (int k = 0; k < ndo && !c.failed; k++) {
    T.all.clear(); memset(nb, 0, sizeof nb); memset(wall, 0, sizeof wall);
    if (custom) { // a chain of domains of different lengths, joined by hand
      int a = (int)c.draw(2), n[3]; bool ring = c.flag(); bool self[3]; uint64_t hs = c.draw(0xffffff); for (int b = 0; b < 3; b++) { n[b] = 1 + (int)c.draw(5); self[b] = c.flag(); }
      std::vector<int> order(P), pos(P); for (int i = 0; i < P; i++) order[i] = i; for (int i = P - 1; i > 0; i--) std::swap(order[i], order[c.draw(i)]); for (int i = 0; i < P; i++) pos[order[i]] = i;
      n[a] = 1 + (int)((hunit(hs, 1, r, 2, 3) + 1) * 3.4); sprintf(tb, "chain of %d domains along axis %d%s, local %dx%dx%d; ", P, a, ring ? " (ring)" : "", n[0], n[1], n[2]); log += tb;
      if (sim) sim->size_domain(n[0], n[1], n[2]); else size_grid(g, n[0], n[1], n[2]);
      for (int b = 0; b < 27; b++) bcx[b] = b == 13 ? r : (int)pec_fields;
      for (int f = 0; f < 6; f++) { int b = f % 3, j = pos[r] + (f < 3 ? -1 : 1); wall[f] = reflect_particles; if (b == a) { if (j >= 0 && j < P) nb[f] = order[j], wall[f] = 0; else if (ring) nb[f] = order[(j + P) % P], wall[f] = 0; } else if (self[b]) nb[f] = r, wall[f] = 0; }
      for (int b = 0; b < 3; b++) { int lo = (int)c.draw(1); for (int s = 0; s < 2; s++) { int f = b + 3 * (s ^ lo); if (!wall[f]) { if (sim) sim->join_domain(FACE_BC[f], nb[f]); else join_grid(g, FACE_BC[f], nb[f]); bcx[FACE_BC[f]] = nb[f]; } } }
      check_common(c, g, T); for (int b = 0; b < 3; b++) if ((&g->nx)[b] != n[b]) c.fail("size", "axis %d has %d cells, asked %d", b, (&g->nx)[b], n[b]);
    } else {
      int gp[3], gn[3]; double lo[3], hi[3]; gen_topology(c, gp); for (int a = 0; a < 3; a++) { gn[a] = gp[a] * (1 + (int)c.draw(c.flag(0.1) ? 12 : 4)); lo[a] = c.flag(0.4) ? 0 : c.flag(0.2) ? c.real(-1000, 1000) : c.real(-5, 5); hi[a] = lo[a] + (c.flag(0.3) ? gn[a] : gn[a] * c.logreal(0.01, 100)); if (c.flag(0.02)) { double t = lo[a]; lo[a] = -hi[a]; hi[a] = -t; } }
      int kind = (int)c.draw(2); static const int pk[] = {reflect_particles, absorb_particles, -3, -7}; int pbc = pk[c.draw(3)];
      sprintf(tb, "%s box %dx%dx%d on %dx%dx%d ranks [%g,%g]x[%g,%g]x[%g,%g] pbc %d%s; ", kind == 0 ? "periodic" : kind == 1 ? "absorbing" : "metal", gn[0], gn[1], gn[2], gp[0], gp[1], gp[2], lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], pbc, sim ? " (simulation)" : ""); log += tb;
      if (sim) { if (kind == 0) sim->define_periodic_grid(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], gn[0], gn[1], gn[2], gp[0], gp[1], gp[2]); else if (kind == 1) sim->define_absorbing_grid(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], gn[0], gn[1], gn[2], gp[0], gp[1], gp[2], pbc); else sim->define_reflecting_grid(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], gn[0], gn[1], gn[2], gp[0], gp[1], gp[2]); if ((int)sim->px != gp[0] || (int)sim->py != gp[1] || (int)sim->pz != gp[2]) c.fail("topology", "the simulation records a %dx%dx%d topology", (int)sim->px, (int)sim->py, (int)sim->pz); }
      else if (kind == 0) partition_periodic_box(g, lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], gn[0], gn[1], gn[2], gp[0], gp[1], gp[2]); else if (kind == 1) partition_absorbing_box(g, lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], gn[0], gn[1], gn[2], gp[0], gp[1], gp[2], pbc); else partition_metal_box(g, lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], gn[0], gn[1], gn[2], gp[0], gp[1], gp[2]);
      check_common(c, g, T); int ix[3] = {r % gp[0], (r / gp[0]) % gp[1], r / gp[0] / gp[1]};
      for (int b = 0; b < 27; b++) bcx[b] = b == 13 ? r : (int)pec_fields;
      double dV = 1; for (int a = 0; a < 3; a++) { double d = (hi[a] - lo[a]) / gn[a]; dV *= d; if ((&g->nx)[a] * gp[a] != gn[a]) c.fail("size", "axis %d has %d cells on this rank, expected %d", a, (&g->nx)[a], gn[a] / gp[a]); if (!near_rel((&g->dx)[a], d, 1e-6) || !near_rel((&g->rdx)[a], 1 / d, 1e-6)) c.fail("cell-size", "axis %d cell size %.9g (reciprocal %.9g), expected %.9g", a, (&g->dx)[a], (&g->rdx)[a], d); }
      if (!near_rel(g->dV, dV, 1e-6) || !near_rel(g->r8V, 0.125 / dV, 1e-6)) c.fail("volume", "cell volume %.9g (r8V %.9g), expected %.9g (%.9g)", g->dV, g->r8V, dV, 0.125 / dV);
      for (int a = 0; a < 3 && !c.failed; a++) {
        double sc = std::max(fabs(lo[a]), fabs(hi[a])); for (int s = 0; s < 2; s++) { double e = lo[a] + (hi[a] - lo[a]) * (ix[a] + s) / gp[a], v = s ? (&g->x1)[a] : (&g->x0)[a]; bool outer = ix[a] + s == 0 || ix[a] + s == gp[a]; if (!(fabs(v - e) <= 1.3e-7 * sc) || (outer && (float)v != (float)(ix[a] + s ? hi[a] : lo[a]))) c.fail("corner", "axis %d %s corner of rank %d is %.9g, expected %.9g", a, s ? "upper" : "lower", r, v, e); }
        int j[3] = {ix[0], ix[1], ix[2]}; if (ix[a] + 1 < gp[a]) { j[a]++; int R = j[0] + gp[0] * (j[1] + gp[1] * j[2]); if (T.all[R].x0[a] != (&g->x1)[a]) c.fail("tiling", "axis %d: rank %d ends at %.9g, rank %d begins at %.9g", a, r, (&g->x1)[a], R, T.all[R].x0[a]); }
        if (!((&g->x1)[a] > (&g->x0)[a])) c.fail("tiling", "empty domain");
      }
      for (int i = 1; i < P && !c.failed; i++) if (memcmp(T.all[i].d, T.all[0].d, sizeof T.all[0].d) || T.all[i].dV != T.all[0].dV || T.all[i].r8V != T.all[0].r8V) c.fail("coherent", "ranks disagree about the cell size");
      for (int f = 0; f < 6; f++) { int a = f % 3, j[3] = {ix[0], ix[1], ix[2]}; j[a] += f < 3 ? -1 : 1; bool out = j[a] < 0 || j[a] >= gp[a]; j[a] = (j[a] + gp[a]) % gp[a]; nb[f] = j[0] + gp[0] * (j[1] + gp[1] * j[2]); wall[f] = 0; bcx[FACE_BC[f]] = nb[f]; if (out && kind && gn[a] > 1) { wall[f] = kind == 1 ? pbc : (int)reflect_particles; bcx[FACE_BC[f]] = kind == 1 ? (int)absorb_fields : (int)anti_symmetric_fields; } }
    }
    for (int f = 0; f < 6 && !c.failed; f++) if (g->bc[FACE_BC[f]] != bcx[FACE_BC[f]]) c.fail("bc", "rank %d face %d has boundary %d, expected %d", r, f, g->bc[FACE_BC[f]], bcx[FACE_BC[f]]);
    if (!c.failed) check_neighbors(c, g, T, nb, wall, "as built"); if (pbt::any_rank(c.failed)) break;
    if (!custom) check_symmetry(c, g, T); else { check_symmetry(c, g, T); }
    if (pbt::any_rank(c.failed)) break;
    // individual faces changed afterwards
    int nch = (int)c.draw(4); uint64_t hs = c.draw(0xffffff); std::vector<int> b0(g->bc, g->bc + 27);
    for (int i = 0; i < nch && !c.failed; i++) {
      int f = (int)((hunit(hs, i, r, 1, 1) + 1) * 2.9999); static const int fk[] = {anti_symmetric_fields, symmetric_fields, pmc_fields, absorb_fields}; static const int pk[] = {reflect_particles, absorb_particles, -3, -4, -100}; int v = (int)((hunit(hs, i, r, 2, 1) + 1) * 1.9999), w = (int)((hunit(hs, i, r, 3, 1) + 1) * 2.4999);
      int what = (int)c.draw(3); if (what != 1) { if (sim) sim->set_domain_field_bc(FACE_BC[f], fk[v]); else set_fbc(g, FACE_BC[f], fk[v]); b0[FACE_BC[f]] = fk[v]; } if (what != 0) { if (sim) sim->set_domain_particle_bc(FACE_BC[f], pk[w]); else set_pbc(g, FACE_BC[f], pk[w]); wall[f] = pk[w]; }
      if (what == 3) { int e = (int)c.draw(26), j = (int)c.draw(3); bool face = false; for (int k2 = 0; k2 < 6; k2++) face |= FACE_BC[k2] == e; if (e != 13 && !face) { set_fbc(g, e, fk[j]); set_pbc(g, e, pk[j]); b0[e] = fk[j]; } } // edges and corners carry no cell faces
      c.label("boundary changed");
    }
    for (int b = 0; b < 27 && !c.failed; b++) if (g->bc[b] != b0[b]) c.fail("set-fbc", "boundary %d holds %d, expected %d", b, g->bc[b], b0[b]);
    if (!c.failed) check_neighbors(c, g, T, nb, wall, "after changing boundary conditions");
    if (c.failed) break;
  }
  c.note("%s", log.c_str()); pbt::any_rank(c.failed); c.label(custom ? "joined domains" : "partitioned box"); if (P > 1 || g->nv > 27) c.nontrivial();
  if (sim) delete sim; else delete_grid(g);
}

// C12: sorting permutes the particles, orders them by cell and fills a delimiting cell index.
#include "common.h"
const char *pbt_check_name = "C12";
void pbt_setup() {}
void pbt_teardown() {}
static bool pless(const particle_t &a, const particle_t &b) { return memcmp(&a, &b, sizeof a) < 0; }

void pbt_case(pbt::Ctx &c) {
  GeoOpt o; o.allow_walls = false; o.maxn = 7;
  Geo q = gen_geo(c, o);
  int rounds = 1 + (int)c.draw(2);
  int oop = c.flag();
  int sz = (int)c.draw(3); // size class
  grid_t *g = geo_grid(q);
  int maxnp = sz == 0 ? 8 : sz == 1 ? 80 : sz == 2 ? 600 : 5000;
  species_t *sp = species("s", -1, 1, maxnp + 1, 16, 1, oop, g);
  c.note("%soop %d pipelines %d;", q.str().c_str(), oop, n_pipelines());
  // a second, differently sized grid/species shares the sort's static work space
  for (int rd = 0; rd < rounds && !c.failed; rd++) {
    int np = (int)c.draw(maxnp), dist = (int)c.draw(6);
    pbt::SplitMix r = c.bulk();
    int lo = vox(g, 1, 1, 1), hi = vox(g, g->nx, g->ny, g->nz);
    int v1 = vox(g, r.irange(1, g->nx), r.irange(1, g->ny), r.irange(1, g->nz));
    for (int k = 0; k < np; k++) {
      particle_t &p = sp->p[k]; int v;
      switch (dist) {
      case 0: v = v1; break;                 // all in one cell
      case 1: v = hi; break;                 // all in the last cell
      case 2: v = r.flag(0.9) ? lo : hi; break;
      case 3: v = r.flag(0.7) ? v1 : vox(g, r.irange(1, g->nx), r.irange(1, g->ny), r.irange(1, g->nz)); break;
      case 4: { int t = (int)((double)(np - 1 - k) / std::max(1, np) * g->nx * g->ny * g->nz); v = vox(g, 1 + t % g->nx, 1 + (t / g->nx) % g->ny, 1 + t / g->nx / g->ny % g->nz); break; } // reversed
      default: v = vox(g, r.irange(1, g->nx), r.irange(1, g->ny), r.irange(1, g->nz));
      }
      p.i = v; p.dx = gen_off(r); p.dy = gen_off(r); p.dz = gen_off(r); p.ux = (float)r.normal(); p.uy = (float)r.normal(); p.uz = (float)k; p.w = r.flag(0.1) ? -0.0f : (float)r.unit();
    }
    if (dist == 6) std::sort(sp->p, sp->p + np, pless); // byte order
    sp->np = np;
    g->step = 3 + rd;
    std::vector<particle_t> a(sp->p, sp->p + np);
    int mp0 = sp->max_np; 
    sort_p(sp);
    c.note(" round np %d dist %d;", np, dist);
    if (np > 4 && dist >= 2) c.nontrivial();
    c.label(dist == 0 ? "one-cell" : dist == 1 ? "last-cell" : dist == 4 ? "reversed" : "mixed");
    if (sp->np != np) { c.fail("count", "np %d became %d", np, sp->np); break; }
    if (sp->last_sorted != g->step) c.fail("last_sorted", "last_sorted %ld, step %ld", (long)sp->last_sorted, (long)g->step);
    std::vector<particle_t> b(sp->p, sp->p + np);
    for (int k = 1; k < np; k++) if (b[k].i < b[k - 1].i) { c.fail("order", "particle %d in cell %d follows one in cell %d (np %d)", k, b[k].i, b[k - 1].i, np); break; }
    std::vector<int> cnt(g->nv + 1, 0);
    for (int k = 0; k < np; k++) if (a[k].i >= 0 && a[k].i < g->nv) cnt[a[k].i]++;
    // each interior cell's particles are delimited by the index
    int acc = 0;
    for (int v = 0; v < g->nv && !c.failed; v++) {
      int x, y, z; unvox(g, v, x, y, z);
      bool in = x >= 1 && x <= g->nx && y >= 1 && y <= g->ny && z >= 1 && z <= g->nz;
      if (in) {
        if (sp->partition[v + 1] - sp->partition[v] != cnt[v] || (cnt[v] && sp->partition[v] != acc))
          c.fail(np ? "index" : "index-empty", "cell %d holds %d particles from %d but the index says [%d,%d) (np %d)", v, cnt[v], acc, sp->partition[v], sp->partition[v + 1], np);
      }
      acc += cnt[v];
    }
    std::sort(a.begin(), a.end(), pless); std::sort(b.begin(), b.end(), pless);
    if (np && memcmp(&a[0], &b[0], np * sizeof(particle_t))) c.fail("multiset", "the sorted list is not a permutation of the original (np %d, dist %d)", np, dist);
    (void)mp0;
  }
  delete_species_list(sp); delete_grid(g);
}

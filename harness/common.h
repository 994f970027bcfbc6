// Helpers shared by the property harnesses: generated grids, species, fields, double-precision geometry.
#ifndef COMMON_H
#define COMMON_H
#include "pbt.h"
#include <mpi.h>
#include <vector>
#include <string>
#include <sstream>
#include <iostream>
#include <fstream>
#include "simhooks.h"
#include "species_advance/species_advance.h"
#include "sf_interface/sf_interface.h"
#include "field_advance/field_advance.h"

static inline int n_pipelines() { return N_PIPELINE > 0 ? N_PIPELINE : 1; }

static const int FACE_BC[6] = {BOUNDARY(-1, 0, 0), BOUNDARY(0, -1, 0), BOUNDARY(0, 0, -1), BOUNDARY(1, 0, 0), BOUNDARY(0, 1, 0), BOUNDARY(0, 0, 1)};
static const int PERIODIC = 99;

// A global problem geometry, identical on all ranks.
struct Geo {
  int gn[3], gp[3];   // global cells, rank lattice
  double lo[3], hi[3];
  int fbc[6], pbc[6]; // per global face: PERIODIC or a wall kind
  float dt, cvac, eps0;
  double d(int a) const { return (hi[a] - lo[a]) / gn[a]; }
  bool periodic(int a) const { return pbc[a] == PERIODIC; }
  int ln(int a) const { return gn[a] / gp[a]; }
  void rank_index(int r, int ix[3]) const { ix[0] = r % gp[0]; ix[1] = (r / gp[0]) % gp[1]; ix[2] = r / gp[0] / gp[1]; }
  std::string str() const {
    char b[400]; sprintf(b, "grid %dx%dx%d ranks %dx%dx%d box [%g,%g]x[%g,%g]x[%g,%g] fbc %d %d %d %d %d %d pbc %d %d %d %d %d %d dt %g c %g eps0 %g; ",
      gn[0], gn[1], gn[2], gp[0], gp[1], gp[2], lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], fbc[0], fbc[1], fbc[2], fbc[3], fbc[4], fbc[5], pbc[0], pbc[1], pbc[2], pbc[3], pbc[4], pbc[5], dt, cvac, eps0);
    return b;
  }
};

// draws a topology for nranks() ranks
static inline void gen_topology(pbt::Ctx &c, int gp[3]) {
  int n = pbt::nranks(); std::vector<int> opts;
  for (int a = 1; a <= n; a++) if (n % a == 0) for (int b = 1; b <= n / a; b++) if ((n / a) % b == 0) opts.push_back(a * 1000000 + b * 1000 + n / a / b);
  int o = opts[c.draw(opts.size() - 1)];
  gp[0] = o / 1000000; gp[1] = (o / 1000) % 1000; gp[2] = o % 1000;
}

struct GeoOpt {
  int maxn; bool allow_walls, allow_absorb_f, allow_pmc; bool unit_cells; double courant_lo, courant_hi; bool singles;
  GeoOpt() : maxn(6), allow_walls(true), allow_absorb_f(true), allow_pmc(false), unit_cells(false), courant_lo(0.3), courant_hi(0.98), singles(true) {}
};

// fbc choices: PERIODIC both sides or independently chosen walls
static inline Geo gen_geo(pbt::Ctx &c, const GeoOpt &o) {
  Geo g; gen_topology(c, g.gp);
  for (int a = 0; a < 3; a++) {
    int ln = o.singles && c.flag(0.2) ? 1 : 2 + (int)c.draw(std::max(0, o.maxn - 2));
    g.gn[a] = ln * g.gp[a];
    double h = o.unit_cells ? 1.0 : pow(2.0, -2 + 4 * c.unit());
    if (!o.unit_cells && c.flag(0.3)) h = 1;
    g.lo[a] = o.unit_cells ? 0 : (c.flag() ? 0 : c.real(-5, 5));
    g.hi[a] = g.lo[a] + h * g.gn[a];
    bool per = !o.allow_walls || c.flag(0.5) || g.gn[a] == 1;
    for (int s = 0; s < 2; s++) {
      int f = a + 3 * s;
      if (per) { g.fbc[f] = g.pbc[f] = PERIODIC; continue; }
      std::vector<int> fk; fk.push_back(pec_fields); fk.push_back(symmetric_fields);
      if (o.allow_pmc) fk.push_back(pmc_fields);
      if (o.allow_absorb_f) fk.push_back(absorb_fields);
      g.fbc[f] = c.pick(fk);
      g.pbc[f] = c.flag(0.4) ? absorb_particles : reflect_particles;
    }
  }
  g.cvac = c.flag(0.5) ? 1 : (float)c.logreal(0.5, 4);
  g.eps0 = c.flag(0.5) ? 1 : (float)c.logreal(0.25, 4);
  double w = 0; for (int a = 0; a < 3; a++) w += 1 / (g.d(a) * g.d(a));
  g.dt = (float)(c.real(o.courant_lo, o.courant_hi) / sqrt(w) / g.cvac);
  return g;
}

static inline void geo_apply_walls(const Geo &q, grid_t *g) {
  int ix[3]; q.rank_index(pbt::rank(), ix);
  for (int a = 0; a < 3; a++) for (int s = 0; s < 2; s++) {
    int f = a + 3 * s;
    if (q.pbc[f] == PERIODIC) continue;
    if (ix[a] == (s ? q.gp[a] - 1 : 0)) { set_fbc(g, FACE_BC[f], q.fbc[f]); set_pbc(g, FACE_BC[f], q.pbc[f]); }
  }
}
static inline void geo_partition(const Geo &q, grid_t *g) {
  g->dt = q.dt; g->cvac = q.cvac; g->eps0 = q.eps0; g->step = 0; g->t0 = 0;
  partition_periodic_box(g, q.lo[0], q.lo[1], q.lo[2], q.hi[0], q.hi[1], q.hi[2], q.gn[0], q.gn[1], q.gn[2], q.gp[0], q.gp[1], q.gp[2]);
  geo_apply_walls(q, g);
}
static inline grid_t *geo_grid(const Geo &q) { grid_t *g = new_grid(); geo_partition(q, g); return g; }

static inline int vox(const grid_t *g, int x, int y, int z) { return VOXEL(x, y, z, g->nx, g->ny, g->nz); }
static inline void unvox(const grid_t *g, int v, int &x, int &y, int &z) { z = v / ((g->nx + 2) * (g->ny + 2)); v -= z * (g->nx + 2) * (g->ny + 2); y = v / (g->nx + 2); x = v - y * (g->nx + 2); }

// generate one particle in global cell coordinates
struct GP { int c[3]; float o[3]; float u[3]; float w; int tag; };

static inline double gamma_of(const double u[3]) { return sqrt(1 + u[0] * u[0] + u[1] * u[1] + u[2] * u[2]); }

// the double-precision interpolation the documentation of interpolator_t describes
static inline void interp_eb(const interpolator_t &f, double dx, double dy, double dz, double e[3], double b[3]) {
  e[0] = (double)f.ex + dy * f.dexdy + dz * ((double)f.dexdz + dy * f.d2exdydz);
  e[1] = (double)f.ey + dz * f.deydz + dx * ((double)f.deydx + dz * f.d2eydzdx);
  e[2] = (double)f.ez + dx * f.dezdx + dy * ((double)f.dezdy + dx * f.d2ezdxdy);
  b[0] = (double)f.cbx + dx * f.dcbxdx; b[1] = (double)f.cby + dy * f.dcbydy; b[2] = (double)f.cbz + dz * f.dcbzdz;
}
// rotation of u about b as documented: u' = u + s*(u x b), u += 2s/(1+s^2 b^2) * (u' x b), s = k*(1 + v/3*(1 + .4 v)), v = k^2 b^2
static inline void boris_rotate(double u[3], const double b[3], double k) {
  double b2 = b[0] * b[0] + b[1] * b[1] + b[2] * b[2], v = k * k * b2;
  double s = k * (1 + v * (1.0 / 3.0 + v * (2.0 / 15.0)));
  double t = 2 * s / (1 + b2 * s * s);
  double p[3] = {u[0] + s * (u[1] * b[2] - u[2] * b[1]), u[1] + s * (u[2] * b[0] - u[0] * b[2]), u[2] + s * (u[0] * b[1] - u[1] * b[0])};
  u[0] += t * (p[1] * b[2] - p[2] * b[1]); u[1] += t * (p[2] * b[0] - p[0] * b[2]); u[2] += t * (p[0] * b[1] - p[1] * b[0]);
}
// full push of momentum; kappa = q dt / 2 m c
static inline void boris_push(double u[3], const double e[3], const double b[3], double kappa) {
  for (int a = 0; a < 3; a++) u[a] += kappa * e[a];
  boris_rotate(u, b, kappa / gamma_of(u));
  for (int a = 0; a < 3; a++) u[a] += kappa * e[a];
}
static inline float gen_u(pbt::SplitMix &r, double scale) {
  int k = r.irange(0, 15); if (k == 0) return r.flag() ? 0.f : -0.f; if (k == 1) return (float)(scale * 1e-4 * r.normal());
  return (float)(scale * r.normal());
}
// in-cell offset: mostly interior, sometimes exactly on a face / centre / next to a face
static inline float gen_off(pbt::SplitMix &r) {
  int k = r.irange(0, 19);
  if (k == 0) return 1; if (k == 1) return -1; if (k == 2) return 0; if (k == 3) return nextafterf(1.f, 0.f); if (k == 4) return -nextafterf(1.f, 0.f);
  return (float)r.real(-1, 1);
}
static inline material_t *simple_vacuum(material_t **list) { return append_material(material((char *)"vacuum", 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0), list); }

// which rank owns global cell c (0-based) and where
static inline bool own_cell(const Geo &q, const int c[3], int l[3]) { int ix[3]; q.rank_index(pbt::rank(), ix); bool mine = true; for (int a = 0; a < 3; a++) { int ln = q.ln(a); l[a] = c[a] - ix[a] * ln + 1; if (l[a] < 1 || l[a] > ln) mine = false; } return mine; }
// generated particles in global cell coordinates, identical on every rank. cluster: how they are spread
static inline std::vector<GP> gen_particles(pbt::SplitMix &r, const Geo &q, int np, double us, int cluster) {
  std::vector<GP> v(np); int c0[3]; for (int a = 0; a < 3; a++) c0[a] = r.irange(0, q.gn[a] - 1);
  for (int k = 0; k < np; k++) {
    GP &p = v[k]; p.tag = k;
    for (int a = 0; a < 3; a++) {
      p.c[a] = cluster == 0 ? r.irange(0, q.gn[a] - 1) : cluster == 1 ? c0[a] : r.flag() ? (r.flag() ? 0 : q.gn[a] - 1) : r.irange(0, q.gn[a] - 1);
      p.o[a] = gen_off(r); p.u[a] = gen_u(r, us);
    }
    p.w = (float)pow(10., r.real(-1, 1));
  }
  return v;
}
static inline particle_t local_particle(const grid_t *g, const GP &p, const int l[3]) { particle_t t; memset(&t, 0, sizeof t); t.dx = p.o[0]; t.dy = p.o[1]; t.dz = p.o[2]; t.i = vox(g, l[0], l[1], l[2]); t.ux = p.u[0]; t.uy = p.u[1]; t.uz = p.u[2]; t.w = p.w; return t; }
#endif

// A distributed set of particles, their fields and current, stepped in the order vpic_simulation::advance uses.
#ifndef PSTEP_H
#define PSTEP_H
#include "fieldref.h"
#include "boundary/boundary.h"

struct PWorld {
  Geo q; grid_t *g; material_t *ml; field_array_t *fa; interpolator_array_t *ia; accumulator_array_t *aa; species_t *sl; particle_bc_t *pbc;
  std::vector<species_t *> sps; std::vector<std::vector<GP> > gp; int off[3]; int rounds; double fscale_e, fscale_b; uint64_t fs;
  PWorld() : g(0), ml(0), fa(0), ia(0), aa(0), sl(0), pbc(0), rounds(3), fscale_e(0), fscale_b(0), fs(1) {}
  void init(const Geo &geo, const std::vector<MatDef> &md, float damp) {
    q = geo; g = geo_grid(q); ml = build_mats(md); fa = new_standard_field_array(g, ml, damp); ia = new_interpolator_array(g); aa = new_accumulator_array(g);
    LocalMap L(q); for (int a = 0; a < 3; a++) off[a] = L.off[a];
  }
  // tight: particle storage exactly as large as the initial list
  species_t *add(float qq, float m, const std::vector<GP> &v, bool tight, int nm, int sort_oop) {
    char nme[16]; sprintf(nme, "s%d", (int)sps.size()); int cnt = 0, l[3]; for (size_t k = 0; k < v.size(); k++) cnt += own_cell(q, v[k].c, l);
    species_t *sp = append_species(species(nme, qq, m, tight ? std::max(cnt, 1) : cnt * 2 + 64, nm, 0, sort_oop, g), &sl);
    for (size_t k = 0; k < v.size(); k++) if (own_cell(q, v[k].c, l)) sp->p[sp->np++] = local_particle(g, v[k], l);
    sps.push_back(sp); gp.push_back(v); return sp;
  }
  // interpolation coefficients of a global cell
  void coef(const int cell[3], interpolator_t &f) const { float *p = (float *)&f; memset(p, 0, sizeof f); for (int k = 0; k < 18; k++) { double s = k < 12 ? fscale_e : fscale_b; if (k < 12 && k % 4) s *= 0.5; if (k >= 12 && k % 2) s *= 0.5; p[k] = (float)(s * hunit(fs, k, cell[0], cell[1], cell[2])); } }
  void fill_interp() { for (int z = 1; z <= g->nz; z++) for (int y = 1; y <= g->ny; y++) for (int x = 1; x <= g->nx; x++) { int c[3] = {x - 1 + off[0], y - 1 + off[1], z - 1 + off[2]}; coef(c, ia->i[vox(g, x, y, z)]); } }
  void step_particles() {
    clear_accumulator_array(aa);
    species_t *sp; LIST_FOR_EACH(sp, sl) advance_p(sp, aa, ia);
    reduce_accumulator_array(aa);
    for (int r = 0; r < rounds; r++) boundary_p(pbc, sl, fa, aa);
  }
  void load_current() { fa->kernel->clear_jf(fa); unload_accumulator_array(fa, aa); fa->kernel->synchronize_jf(fa); }
  void load_rho() { fa->kernel->clear_rhof(fa); species_t *sp; LIST_FOR_EACH(sp, sl) accumulate_rho_p(fa, sp); fa->kernel->synchronize_rho(fa); }
  void destroy() { delete_particle_bc_list(pbc); delete_accumulator_array(aa); delete_interpolator_array(ia); delete_field_array(fa); delete_species_list(sl); delete_material_list(ml); delete_grid(g); }
  // global half-cell coordinate along axis a of a local particle
  double gx(const particle_t &p, int a) const { int x[3]; unvox(g, p.i, x[0], x[1], x[2]); return 2.0 * (x[a] - 1 + off[a]) + 1 + (double)(&p.dx)[a]; }
};
#endif

// node-by-node charge continuity of a distributed field array
#ifndef CHARGE_H
#define CHARGE_H
#include "pstep.h"
struct ChPt { int comp; long long at; double v; };
static inline void ch_gather(const Geo &q, field_array_t *fa, grid_t *g, RefField &R, std::vector<double> *J, std::vector<double> &rho) {
  std::vector<ChPt> mine; LocalMap L(q); int ln[3] = {g->nx, g->ny, g->nz};
  for (int z = 1; z <= ln[2] + 1; z++) for (int y = 1; y <= ln[1] + 1; y++) for (int x = 1; x <= ln[0] + 1; x++) {
    int l[3] = {x, y, z}, G[3] = {x + L.off[0], y + L.off[1], z + L.off[2]}; const field_t &f = fa->f[vox(g, x, y, z)]; ChPt p; p.at = (long long)R.at(G);
    if (J) for (int a = 0; a < 3; a++) if (l[a] <= ln[a]) { p.comp = a; p.v = (&f.jfx)[a]; mine.push_back(p); }
    p.comp = 3; p.v = (double)f.rhof + f.rhob; mine.push_back(p);
  }
  std::vector<ChPt> all = pbt::allgatherv(mine); for (size_t i = 0; i < all.size(); i++) (all[i].comp < 3 ? J[all[i].comp] : rho)[all[i].at] = all[i].v;
}
// rho1 - rho0 - extra = -dt div J at every node off the conducting walls, up to tol_rel * scale
static inline void ch_continuity(pbt::Ctx &c, const Geo &q, RefField &R, std::vector<double> *J, const std::vector<double> &rho0, const std::vector<double> &rho1, const std::vector<double> *extra, double scale, double trel) {
  if (pbt::rank()) return; int p[3], hi[3]; for (int a = 0; a < 3; a++) hi[a] = R.per[a] ? q.gn[a] : q.gn[a] + 1; for (size_t i = 0; i < rho0.size(); i++) scale = std::max(scale, fabs(rho0[i]) + fabs(rho1[i]));
  for (p[2] = 1; p[2] <= hi[2] && !c.failed; p[2]++) for (p[1] = 1; p[1] <= hi[1] && !c.failed; p[1]++) for (p[0] = 1; p[0] <= hi[0] && !c.failed; p[0]++) {
    bool onpec = false; for (int a = 0; a < 3; a++) if (!R.per[a] && (p[a] == 1 || p[a] == q.gn[a] + 1) && q.fbc[a + 3 * (p[a] != 1)] == pec_fields) onpec = true; if (onpec) continue;
    size_t i = R.at(p); double div = 0, jm = 0;
    for (int a = 0; a < 3; a++) { int pm[3] = {p[0], p[1], p[2]}; pm[a]--; double jp = !R.per[a] && p[a] == q.gn[a] + 1 ? -J[a][R.at(pm)] : J[a][i], jn = !R.per[a] && p[a] == 1 ? -J[a][i] : J[a][R.at(pm)]; div += (jp - jn) / q.d(a); jm += (fabs(jp) + fabs(jn)) / q.d(a); }
    double ex = extra ? (*extra)[i] : 0, res = rho1[i] - rho0[i] - ex + q.dt * div, tol = trel * scale + 3e-6 * q.dt * jm + 1e-30;
    if (!(fabs(res) <= tol)) c.fail("continuity", "node (%d,%d,%d): charge changed by %.9g (%.9g of it without compensation), -dt div j %.9g (residual %.3g, tolerance %.3g)", p[0], p[1], p[2], rho1[i] - rho0[i], ex, -q.dt * div, res, tol);
  }
}
#endif

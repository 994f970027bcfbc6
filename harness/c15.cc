// C15: every dump, parsed back byte by byte, equals the state in memory; writing it changes nothing.
#include "simlib.h"
#include <sys/stat.h>
#include <dirent.h>
#include <limits.h>
const char *pbt_check_name = "c15";
static pbt::Ctx *C; static SimCase *S; static std::string dir; static int at_step; static bool ran; static long dir_no = 0;
struct Op { int kind, sp, ftag, fmt, st[3], user, append; uint32_t mask; bool given; };
static std::vector<Op> ops;
static int extra_np;
static bool slurp(const std::string &f, std::vector<char> &b) { FILE *h = fopen(f.c_str(), "rb"); if (!h) return false; b.clear(); char t[65536]; size_t n; while ((n = fread(t, 1, sizeof t, h)) > 0) b.insert(b.end(), t, t + n); fclose(h); return true; }
struct Rd {
  const std::vector<char> &b; size_t p; bool bad; std::string what; Rd(const std::vector<char> &x, const std::string &w) : b(x), p(0), bad(false), what(w) {}
  template <class T> T g() { T v; memset(&v, 0, sizeof v); if (p + sizeof v > b.size()) { bad = true; return v; } memcpy(&v, &b[p], sizeof v); p += sizeof v; return v; }
  template <class T> void is(const char *f, T want) { T v = g<T>(); if (memcmp(&v, &want, sizeof v)) C->fail("header", "%s: header field %s is %.9g, expected %.9g", what.c_str(), f, (double)v, (double)want); }
  void bytes(const char *f, const void *w, size_t n) { if (p + n > b.size()) { bad = true; return; } if (memcmp(&b[p], w, n)) { size_t j = 0; while (b[p + j] == ((const char *)w)[j]) j++; C->fail("payload", "%s: %s differs from memory at byte %d of %d", what.c_str(), f, (int)j, (int)n); } p += n; }
  void done() { if (bad) C->fail("length", "%s: file ends after %d bytes", what.c_str(), (int)b.size()); else if (p != b.size()) C->fail("length", "%s: file has %d bytes, expected %d", what.c_str(), (int)b.size(), (int)p); }
};
static void header(Rd &r, grid_t *g, int type, long step, const int st[3], int spid, float qm) {
  r.is<char>("CHAR_BIT", CHAR_BIT); r.is<char>("sizeof short", 2); r.is<char>("sizeof int", 4); r.is<char>("sizeof float", 4); r.is<char>("sizeof double", 8); r.is<short>("cafe", (short)0xcafe); r.is<int>("deadbeef", (int)0xdeadbeef); r.is<float>("1f", 1); r.is<double>("1d", 1);
  r.is<int>("version", 0); r.is<int>("type", type); r.is<int>("step", (int)step); r.is<int>("nx", g->nx / st[0]); r.is<int>("ny", g->ny / st[1]); r.is<int>("nz", g->nz / st[2]);
  r.is<float>("dt", g->dt); r.is<float>("dx", g->dx * st[0]); r.is<float>("dy", g->dy * st[1]); r.is<float>("dz", g->dz * st[2]); r.is<float>("x0", g->x0); r.is<float>("y0", g->y0); r.is<float>("z0", g->z0); r.is<float>("cvac", g->cvac); r.is<float>("eps0", g->eps0); r.is<float>("damp", 0);
  r.is<int>("rank", pbt::rank()); r.is<int>("nproc", pbt::nranks()); r.is<int>("species", spid); r.is<float>("q/m", qm);
}
static void arr(Rd &r, int el, int nd, int a, int b, int c, int d) { r.is<int>("element size", el); r.is<int>("number of dimensions", nd); int x[4] = {a, b, c, d}; for (int i = 0; i < nd; i++) r.is<int>("dimension", x[i]); }
static const int ONE[3] = {1, 1, 1};
static int off(int i, int n, int s) { return i == 0 ? 0 : i == n / s + 1 ? n + 1 : (i - 1) * s + 1; }
static std::string fvar(const field_t &f, int v) { // the 24 documented variables in order
  const float fl[16] = {f.ex, f.ey, f.ez, f.div_e_err, f.cbx, f.cby, f.cbz, f.div_b_err, f.tcax, f.tcay, f.tcaz, f.rhob, f.jfx, f.jfy, f.jfz, f.rhof}; const material_id id[8] = {f.ematx, f.ematy, f.ematz, f.nmat, f.fmatx, f.fmaty, f.fmatz, f.cmat};
  return v < 16 ? std::string((const char *)&fl[v], 4) : std::string((const char *)&id[v - 16], sizeof(material_id));
}
static std::string hvar(const hydro_t &h, int v) { const float fl[14] = {h.jx, h.jy, h.jz, h.rho, h.px, h.py, h.pz, h.ke, h.txx, h.tyy, h.tzz, h.tyz, h.tzx, h.txy}; return std::string((const char *)&fl[v], 4); }
static const char *FN[12] = {"Electric Field", "Electric Field Divergence Error", "Magnetic Field", "Magnetic Field Divergence Error", "TCA Field", "Bound Charge Density", "Free Current Field", "Charge Density", "Edge Material", "Node Material", "Face Material", "Cell Material"};
static const char *FD[12] = {"VECTOR 3 FLOATING_POINT 4", "SCALAR 1 FLOATING_POINT 4", "VECTOR 3 FLOATING_POINT 4", "SCALAR 1 FLOATING_POINT 4", "VECTOR 3 FLOATING_POINT 4", "SCALAR 1 FLOATING_POINT 4", "VECTOR 3 FLOATING_POINT 4", "SCALAR 1 FLOATING_POINT 4", "VECTOR 3 INTEGER 2", "SCALAR 1 INTEGER 2", "VECTOR 3 INTEGER 2", "SCALAR 1 INTEGER 2"};
static const int FI[13] = {0, 3, 4, 7, 8, 11, 12, 15, 16, 19, 20, 23, 24};
static const char *HN[5] = {"Current Density", "Charge Density", "Momentum Density", "Kinetic Energy Density", "Stress Tensor"};
static const char *HD[5] = {"VECTOR 3 FLOATING_POINT 4", "SCALAR 1 FLOATING_POINT 4", "VECTOR 3 FLOATING_POINT 4", "SCALAR 1 FLOATING_POINT 4", "TENSOR 6 FLOATING_POINT 4"};
static const int HI[6] = {0, 3, 4, 7, 8, 14};
static std::vector<hydro_t> moments(vpic_simulation *s, species_t *sp) { clear_hydro_array(s->hydro_array); accumulate_hydro_p(s->hydro_array, sp, s->interpolator_array); synchronize_hydro_array(s->hydro_array); return std::vector<hydro_t>(s->hydro_array->h, s->hydro_array->h + s->grid->nv); }
static void set_params(DumpParameters &d, const Op &o, const std::string &base) {
  d.output_vars = BitField(0); d.output_variables(o.mask); d.stride_x = o.st[0]; d.stride_y = o.st[1]; d.stride_z = o.st[2]; d.format = o.fmt ? band_interleave : band; snprintf(d.baseDir, sizeof d.baseDir, "%s", dir.c_str()); snprintf(d.baseFileName, sizeof d.baseFileName, "%s", base.c_str()); snprintf(d.name, sizeof d.name, "x");
}
static std::vector<std::string> lines(const std::vector<char> &b) { std::vector<std::string> o; std::string s; for (size_t i = 0; i < b.size(); i++) if (b[i] == '\n') { o.push_back(s); s.clear(); } else s += b[i]; if (!s.empty()) o.push_back(s + "<no newline>"); return o; }
static std::string fmt(const char *f, ...) { char b[2000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static void text_is(const std::string &what, const std::vector<std::string> &got, const std::vector<std::string> &want) {
  for (size_t i = 0; i < got.size() || i < want.size(); i++) if (i >= got.size() || i >= want.size() || got[i] != want[i]) { C->fail("text", "%s line %d: \"%s\", expected \"%s\"", what.c_str(), (int)i + 1, i < got.size() ? got[i].c_str() : "<end>", i < want.size() ? want[i].c_str() : "<end>"); return; }
}
static std::vector<std::string> en_file; // expected content of the energies file
static bool en_exists;
// keeps the tokens of a text file that is written for people: comment and empty lines dropped
static std::vector<std::string> data_lines(const std::vector<char> &b) { std::vector<std::string> a = lines(b), o; for (size_t i = 0; i < a.size(); i++) if (!a[i].empty() && a[i][0] != '#') o.push_back(a[i]); return o; }
static void same_state(vpic_simulation *s, const Snap &b, const char *what) { Snap a = local_state(s, true); std::string d = b.diff(a); if (!d.empty()) C->fail("side-effect", "%s changed %s", what, d.c_str()); }

static void do_op(vpic_simulation *s, const Op &o, int n) {
  grid_t *g = s->grid; species_t *sp = NULL; { int k = 0; species_t *t; LIST_FOR_EACH(t, s->species_list) if (k++ == o.sp) sp = t; }
  if (!sp && (o.kind == 2 || o.kind == 3 || o.kind == 5)) return;
  size_t keep[6] = {s->nxout, s->nyout, s->nzout, 0, 0, 0}; float keepf[3] = {s->dxout, s->dyout, s->dzout};
  std::string base = dir + fmt("/d%d", n), file; std::vector<char> b; const int me = pbt::rank(); long step = (long)g->step;
  // arrays handed over by the user
  std::vector<field_t> uf; std::vector<hydro_t> uh; if (o.given) { uf.assign(g->nv, field_t()); uh.assign(g->nv, hydro_t()); pbt::SplitMix r(o.mask * 77ull + me); for (int v = 0; v < g->nv; v++) { char *p = (char *)&uf[v]; for (size_t k = 0; k < sizeof(field_t); k++) p[k] = (char)r.next(); p = (char *)&uh[v]; for (size_t k = 0; k < sizeof(hydro_t); k++) p[k] = (char)r.next(); } }
  std::vector<hydro_t> H; if (sp && (o.kind == 2 || o.kind == 5)) H = moments(s, sp);
  Snap before = local_state(s, true);
  static const char *KN[] = {"dump_grid", "dump_fields", "dump_hydro", "dump_particles", "field_dump", "hydro_dump", "dump_energies", "dump_species", "dump_materials", "global_header", "create lists"};
  std::string what = fmt("%s #%d", KN[o.kind], n); C->label(KN[o.kind]);
  file = o.ftag ? fmt("%s.%ld.%d", base.c_str(), step, me) : fmt("%s.%d", base.c_str(), me);
  long ds = o.user ? 1000 + o.user : step; std::string bfile = fmt("%s/T.%ld/f%d.%ld.%d", dir.c_str(), ds, n, ds, me);
  const int nx = g->nx, ny = g->ny, nz = g->nz;
  if (o.kind == 0) {
    s->dump_grid(base.c_str()); file = fmt("%s.%d", base.c_str(), me); if (!slurp(file, b)) { C->fail("file", "%s: no file %s", what.c_str(), file.c_str()); return; } Rd r(b, what);
    header(r, g, 0, step, ONE, -1, 0); arr(r, 4, 3, 3, 3, 3, 0); r.bytes("boundary conditions", g->bc, 27 * sizeof(int)); arr(r, 8, 1, pbt::nranks() + 1, 0, 0, 0); r.bytes("range", g->range, (pbt::nranks() + 1) * sizeof(int64_t)); arr(r, 8, 4, 6, nx + 2, ny + 2, nz + 2); r.bytes("neighbors", g->neighbor, 6 * sizeof(int64_t) * g->nv); r.done();
  } else if (o.kind == 1) {
    s->dump_fields(base.c_str(), o.ftag, o.given ? &uf[0] : NULL); if (!slurp(file, b)) { C->fail("file", "%s: no file %s", what.c_str(), file.c_str()); return; } Rd r(b, what);
    header(r, g, 1, step, ONE, -1, 0); arr(r, sizeof(field_t), 3, nx + 2, ny + 2, nz + 2, 0); r.bytes("fields", o.given ? &uf[0] : s->field_array->f, g->nv * sizeof(field_t)); r.done();
  } else if (o.kind == 2) {
    s->dump_hydro(sp->name, base.c_str(), o.ftag, o.given ? &uh[0] : NULL); if (!slurp(file, b)) { C->fail("file", "%s: no file %s", what.c_str(), file.c_str()); return; } Rd r(b, what);
    header(r, g, 2, step, ONE, sp->id, sp->q / sp->m); arr(r, sizeof(hydro_t), 3, nx + 2, ny + 2, nz + 2, 0); r.bytes("moments", o.given ? &uh[0] : &H[0], g->nv * sizeof(hydro_t)); r.done();
  } else if (o.kind == 3) {
    s->dump_particles(sp->name, base.c_str(), o.ftag); if (!slurp(file, b)) { C->fail("file", "%s: no file %s", what.c_str(), file.c_str()); return; } Rd r(b, what);
    header(r, g, 3, step, ONE, sp->id, sp->q / sp->m); arr(r, sizeof(particle_t), 1, sp->np, 0, 0, 0); if (sp->np > 32768) C->label("more particles than the dump buffer");
    double kap = (double)sp->q * g->dt / (2.0 * sp->m * g->cvac);
    for (int i = 0; i < sp->np && !C->failed; i++) {
      particle_t d = r.g<particle_t>(); const particle_t &p = sp->p[i]; if (memcmp(&d, &p, 16) || memcmp(&d.w, &p.w, 4)) { C->fail("payload", "%s: particle %d of %d: position, cell or weight differ from memory", what.c_str(), i, sp->np); break; }
      double e[3], bb[3], u[3] = {p.ux, p.uy, p.uz}; const interpolator_t &f = s->interpolator_array->i[p.i]; interp_eb(f, p.dx, p.dy, p.dz, e, bb); double mg = fabs(f.ex) + fabs(f.dexdy) + fabs(f.dexdz) + fabs(f.d2exdydz) + fabs(f.ey) + fabs(f.deydz) + fabs(f.deydx) + fabs(f.d2eydzdx) + fabs(f.ez) + fabs(f.dezdx) + fabs(f.dezdy) + fabs(f.d2ezdxdy), bm = fabs(f.cbx) + fabs(f.dcbxdx) + fabs(f.cby) + fabs(f.dcbydy) + fabs(f.cbz) + fabs(f.dcbzdz), th = fabs(kap) * bm, sc = fabs(kap) * mg;
      for (int a = 0; a < 3; a++) { sc += fabs(u[a]) + fabs(kap * e[a]); u[a] += kap * e[a]; } boris_rotate(u, bb, 0.5 * kap / gamma_of(u));
      double tol = 4e-6 * sc * (1 + 4 * th + 4 * th * th) + 1e-30; for (int a = 0; a < 3; a++) if (!(fabs((&d.ux)[a] - u[a]) <= tol)) { C->fail("momentum", "%s: particle %d of %d momentum component %d is %.9g in the file, time-centered %.9g (stored %.9g)", what.c_str(), i, sp->np, a, (&d.ux)[a], u[a], (&p.ux)[a]); break; }
    }
    r.done();
  } else if (o.kind == 4 || o.kind == 5) {
    bool fld = o.kind == 4; DumpParameters d; set_params(d, o, fmt("f%d", n)); 
    if (fld) s->field_dump(d, o.given ? &uf[0] : NULL, o.user ? ds : -1); else s->hydro_dump(sp->name, d, o.given ? &uh[0] : NULL, o.user ? ds : -1);
    if (!slurp(bfile, b)) { C->fail("file", "%s: no file %s", what.c_str(), bfile.c_str()); return; } Rd r(b, what);
    int nv = fld ? 24 : 14; header(r, g, fld ? 1 : 2, ds, o.st, fld ? -1 : sp->id, fld ? 0 : sp->q / sp->m); arr(r, fld ? sizeof(field_t) : sizeof(hydro_t), 3, nx / o.st[0] + 2, ny / o.st[1] + 2, nz / o.st[2] + 2, 0);
    if (r.p != 123) C->fail("header", "%s: data starts at byte %d, the global header says 123", what.c_str(), (int)r.p);
    const field_t *F = o.given ? &uf[0] : s->field_array->f; const hydro_t *h = o.given ? &uh[0] : H.empty() ? NULL : &H[0];
    std::string w; std::vector<int> vs; if (o.fmt) vs.push_back(-1); else for (int v = 0; v < nv; v++) if (o.mask >> v & 1) vs.push_back(v);
    for (size_t iv = 0; iv < vs.size(); iv++) for (int k = 0; k <= nz / o.st[2] + 1; k++) for (int j = 0; j <= ny / o.st[1] + 1; j++) for (int i = 0; i <= nx / o.st[0] + 1; i++) {
      int v = vox(g, off(i, nx, o.st[0]), off(j, ny, o.st[1]), off(k, nz, o.st[2])); if (vs[iv] < 0) w.append(fld ? (const char *)&F[v] : (const char *)&h[v], fld ? sizeof(field_t) : sizeof(hydro_t)); else w += fld ? fvar(F[v], vs[iv]) : hvar(h[v], vs[iv]); }
    r.bytes("banded data", w.data(), w.size()); r.done(); if (o.st[0] * o.st[1] * o.st[2] > 1) C->label("strided"); C->label(o.fmt ? "interleaved" : "banded");
  } else if (o.kind == 6) {
    double ef[6]; s->field_array->kernel->energy_f(ef, s->field_array); std::string l = fmt("%li ", step) + fmt("%e %e %e %e %e %e", ef[0], ef[1], ef[2], ef[3], ef[4], ef[5]), hd = "% step ex ey ez bx by bz"; species_t *t; LIST_FOR_EACH(t, s->species_list) { l += fmt(" %e", energy_p(t, s->interpolator_array)); hd += fmt(" \"%s\"", t->name); }
    file = dir + "/energies"; s->dump_energies(file.c_str(), o.append);
    if (!o.append) { en_file.clear(); en_file.push_back("% Layout"); en_file.push_back(hd); en_file.push_back(fmt("%% timestep = %e", g->dt)); } en_file.push_back(l);
    if (me == 0) { if (!slurp(file, b)) { C->fail("file", "%s: no file", what.c_str()); return; } text_is(what, lines(b), en_file); }
  } else if (o.kind == 7) {
    s->dump_species(base.c_str()); std::vector<std::string> w; species_t *t; LIST_FOR_EACH(t, s->species_list) w.push_back(fmt("%s %i %e %e", t->name, t->id, t->q, t->m));
    if (me == 0) { if (!slurp(base, b)) { C->fail("file", "%s: no file", what.c_str()); return; } text_is(what, lines(b), w); }
  } else if (o.kind == 8) {
    s->dump_materials(base.c_str()); std::vector<std::string> w; material_t *m; LIST_FOR_EACH(m, s->material_list) { w.push_back(m->name); w.push_back(fmt("%i", m->id)); w.push_back(fmt("%e %e %e", m->epsx, m->epsy, m->epsz)); w.push_back(fmt("%e %e %e", m->mux, m->muy, m->muz)); w.push_back(fmt("%e %e %e", m->sigmax, m->sigmay, m->sigmaz)); }
    if (me == 0) { if (!slurp(base, b)) { C->fail("file", "%s: no file", what.c_str()); return; } text_is(what, lines(b), w); }
  } else if (o.kind == 9) {
    std::vector<DumpParameters> d(2 + o.sp % 3); std::vector<DumpParameters *> dp; std::vector<Op> po(d.size(), o); for (size_t i = 0; i < d.size(); i++) { po[i].mask = i ? (o.mask >> (3 * i)) : o.mask; set_params(d[i], po[i], fmt("base%d", (int)i)); dp.push_back(&d[i]); }
    s->global_header(base.c_str(), dp); std::vector<std::string> w; w.push_back("VPIC_HEADER_VERSION 1.0.0"); w.push_back("DATA_HEADER_SIZE 123"); w.push_back(fmt("GRID_DELTA_T %f", g->dt)); w.push_back(fmt("GRID_CVAC %f", g->cvac)); w.push_back(fmt("GRID_EPS0 %f", g->eps0));
    w.push_back(fmt("GRID_EXTENTS_X %f %f", g->x0, g->x1)); w.push_back(fmt("GRID_EXTENTS_Y %f %f", g->y0, g->y1)); w.push_back(fmt("GRID_EXTENTS_Z %f %f", g->z0, g->z1)); w.push_back(fmt("GRID_DELTA_X %f", g->dx)); w.push_back(fmt("GRID_DELTA_Y %f", g->dy)); w.push_back(fmt("GRID_DELTA_Z %f", g->dz)); w.push_back(fmt("GRID_TOPOLOGY_X %d", S->q.gp[0])); w.push_back(fmt("GRID_TOPOLOGY_Y %d", S->q.gp[1])); w.push_back(fmt("GRID_TOPOLOGY_Z %d", S->q.gp[2]));
    for (size_t i = 0; i < d.size(); i++) {
      const char *p = i ? "SPECIES" : "FIELD"; w.push_back(fmt("%s_DATA_DIRECTORY %s", p, dir.c_str())); w.push_back(fmt("%s_DATA_BASE_FILENAME base%d", p, (int)i)); std::vector<std::string> v; for (int k = 0; k < (i ? 5 : 12); k++) if (po[i].mask >> (i ? HI : FI)[k] & 1) v.push_back(fmt("\"%s\" %s", i ? HN[k] : FN[k], i ? HD[k] : FD[k]));
      w.push_back(fmt("%s_DATA_VARIABLES %d", i ? "HYDRO" : "FIELD", (int)v.size())); w.insert(w.end(), v.begin(), v.end()); if (!i) w.push_back(fmt("NUM_OUTPUT_SPECIES %d", (int)d.size() - 1)); }
    if (me == 0) { if (!slurp(base + ".vpc", b)) { C->fail("file", "%s: no file", what.c_str()); return; } text_is(what, data_lines(b), w); }
  } else if (o.kind == 10) {
    DumpParameters d; set_params(d, o, "x"); char l[4000], l2[4000]; s->create_field_list(l, d); s->create_hydro_list(l2, d); std::string a, h; for (int k = 0; k < 12; k++) if (o.mask >> FI[k] & 1) { if (!a.empty()) a += ", "; a += FN[k]; } for (int k = 0; k < 5; k++) if (o.mask >> HI[k] & 1) { if (!h.empty()) h += ", "; h += HN[k]; }
    if (a != l) C->fail("text", "field list \"%s\", expected \"%s\"", l, a.c_str()); if (h != l2) C->fail("text", "hydro list \"%s\", expected \"%s\"", l2, h.c_str());
  }
  s->nxout = keep[0]; s->nyout = keep[1]; s->nzout = keep[2]; s->dxout = keepf[0]; s->dyout = keepf[1]; s->dzout = keepf[2]; // scratch of the header macro
  same_state(s, before, what.c_str());
}
static void diag(vpic_simulation *s) {
  if (s->grid->step != at_step || ran) return; ran = true;
  if (extra_np && s->species_list) { // a list longer than the dump buffer
    species_t *sp = s->species_list; pbt::SplitMix r(S->hs + 99); int n = extra_np + pbt::rank() * 7; ensure_room(sp, n); while (sp->np < n) { particle_t p; memset(&p, 0, sizeof p); for (int a = 0; a < 3; a++) { (&p.dx)[a] = (float)r.real(-1, 1); (&p.ux)[a] = (float)r.normal(); } p.i = vox(s->grid, r.irange(1, s->grid->nx), r.irange(1, s->grid->ny), r.irange(1, s->grid->nz)); p.w = (float)r.unit(); sp->p[sp->np++] = p; } }
  for (size_t i = 0; i < ops.size(); i++) { do_op(s, ops[i], (int)i); if (pbt::any_rank(C->failed)) break; }
}
static void rm_tree(const std::string &d) { DIR *h = opendir(d.c_str()); if (!h) return; while (dirent *e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat st; if (!lstat(p.c_str(), &st)) { if (S_ISDIR(st.st_mode)) rm_tree(p); else unlink(p.c_str()); } } closedir(h); rmdir(d.c_str()); }
void pbt_setup() {}
void pbt_teardown() {}
void pbt_case(pbt::Ctx &c) {
  C = &c; SimOpt o; o.random_ops = false; o.maxn = 6; o.maxnp = 120; o.maxstep = 3; o.walls_pmc = true; SimCase s = gen_sim(c, o); S = &s;
  at_step = (int)c.draw(s.num_step); ran = false; int n = 1 + (int)c.draw(5); ops.clear(); en_file.clear(); extra_np = c.flag(0.03) ? 32768 * (1 + (int)c.draw(1)) + (int)c.draw(2) - 1 : 0; s.uinj = s.uinj && !extra_np;
  std::string od; for (int i = 0; i < n; i++) {
    Op p; p.kind = (int)c.draw(10); p.sp = (int)c.draw(2); if (!s.sp.empty()) p.sp %= s.sp.size(); p.ftag = (int)c.draw(1); p.fmt = (int)c.draw(1); p.user = c.flag(0.3) ? 1 + (int)c.draw(5) : 0; p.append = (int)c.draw(1); static const uint32_t M[] = {electric, magnetic, current | rhof, tca | rhob, div_e_err | div_b_err, emat | nmat, fmat | cmat, all, 0xffffff}; p.mask = c.flag() ? M[c.draw(8)] : (uint32_t)c.draw(0xffffffu); p.given = c.flag(0.25);
    for (int a = 0; a < 3; a++) { int m = s.q.ln(a); std::vector<int> dv; for (int k = 1; k <= m; k++) if (m % k == 0) dv.push_back(k); p.st[a] = c.flag(0.5) ? 1 : c.pick(dv); }
    ops.push_back(p); od += fmt("[kind %d species %d tag %d fmt %d mask %x stride %d %d %d user %d append %d given %d] ", p.kind, p.sp, p.ftag, p.fmt, p.mask, p.st[0], p.st[1], p.st[2], p.user, p.append, (int)p.given);
  }
  c.note("%s dumps at step %d%s: %s", s.str().c_str(), at_step, extra_np ? " with a long particle list" : "", od.c_str());
  { std::vector<char> all = pbt::allgatherv(c.scratch.c_str(), c.scratch.size() + 1); dir = fmt("%s/k%ld", &all[0], dir_no++); } if (dir.size() > 100) { fprintf(stderr, "scratch path too long\n"); abort(); }
  if (pbt::rank() == 0) mkdir(dir.c_str(), 0777); pbt::barrier(); 
  cur_diag = diag; vpic_simulation *sim = sim_start(s); if (at_step == 0 && !ran) diag(sim); while (!ran && sim->advance()) {} cur_diag = NULL; if (!ran) c.fail("harness", "dump step never reached"); sim_end(); pbt::barrier();
  if (pbt::rank() == 0) rm_tree(dir); pbt::barrier();
  if (!s.sp.empty()) c.nontrivial();
}

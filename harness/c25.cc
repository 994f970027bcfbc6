// C25: the short-vector classes (4, 8 and 16 lanes): sequences of operations on a register file and a memory arena,
// compared lane by lane with the scalar operation.  Compiled once per variant (see builder.py, simd_*).
#include "pbt.h"
#include <utility>
#include <functional>
#define CAT_(a, b, c, d, e) a##b##c##d##e
#define CAT(a, b, c, d, e) CAT_(a, b, c, d, e)
#if VW == 4
#include "util/v4/v4.h"
typedef v4::v4 V; typedef v4::v4int VI; typedef v4::v4float VF;
namespace vn = v4;
#define PP(p) p[0], p[1], p[2], p[3]
#elif VW == 8
#include "util/v8/v8.h"
typedef v8::v8 V; typedef v8::v8int VI; typedef v8::v8float VF;
namespace vn = v8;
#define PP(p) p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]
#else
#include "util/v16/v16.h"
typedef v16::v16 V; typedef v16::v16int VI; typedef v16::v16float VF;
namespace vn = v16;
#define PP(p) p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13], p[14], p[15]
#endif
#define PH(p) p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]
using namespace vn;
const char *pbt_check_name = "c25";
using namespace pbt;
typedef uint32_t W;
enum { NR = 20, MEM = 1024 };
static float asf(W w) { float f; memcpy(&f, &w, 4); return f; }
static W asw(float f) { W w; memcpy(&w, &f, 4); return w; }
static bool isnanw(W w) { return (w & 0x7fffffff) > 0x7f800000; }
struct alignas(64) Reg { W w[16]; };
static Reg R[NR];                 // registers, seen through the class under test
alignas(64) static W mem[MEM];    // memory, written by the class under test
static W mr[NR][VW], mm[MEM];     // model
static V &G(int i) { return *(V *)&R[i]; }
static VI &I(int i) { return *(VI *)&R[i]; }
static VF &F(int i) { return *(VF *)&R[i]; }
#define P1(r) G(r[0])
#define P2(r) P1(r), G(r[1])
#define P3(r) P2(r), G(r[2])
#define P4(r) P3(r), G(r[3])
#define P8(r) P4(r), G(r[4]), G(r[5]), G(r[6]), G(r[7])
#define P16(r) P8(r), G(r[8]), G(r[9]), G(r[10]), G(r[11]), G(r[12]), G(r[13]), G(r[14]), G(r[15])
#if VW == 4
#define ALLREG(r) P4(r)
#elif VW == 8
#define ALLREG(r) P8(r)
#else
#define ALLREG(r) P16(r)
#endif
enum Dom { ANYF, ANYI, MASK, ARITH, NZI, SHIFT, UNIT, POS, MODER, POWB, POWE, NZF, POSN, SMALL };
static SplitMix *rg;
static float normalf() { float f = (float)((rg->flag() ? -1 : 1) * pow(10., rg->real(-4, 4))); if (rg->flag(.2)) f = rintf(f); return f; }
static W value(Dom d) {
  static const W special[] = {0, 0x80000000u, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00001, 1, 0x80000001u, 0x007fffff, 0x00800000, 0x7f7fffff, 0xff7fffff, 0x7fffffff, 0xffffffff, 0x34000000, 0x4b000000, 0x4b800001, 0xcb000001, 0x3fc00000, 0xc0200000, 0x3effffff, 0x3f7fffff};
  int k = rg->irange(0, 9);
  switch (d) {
  case ANYF: return k < 3 ? special[rg->irange(0, 23)] : k < 4 ? (W)rg->next() : asw(normalf());
  case ANYI: return k < 3 ? special[rg->irange(0, 23)] : k < 5 ? (W)rg->irange(-3, 3) : k < 7 ? (W)rg->irange(-1000, 1000) : (W)rg->next();
  case MASK: return rg->flag() ? ~0u : 0;
  case ARITH: { int v = k < 4 ? rg->irange(-5, 5) : (int)rg->next(); return (W)(v == INT32_MIN ? 7 : v); }
  case NZI: { int v = k < 5 ? rg->irange(-5, 5) : (int)rg->next(); return (W)(v == 0 || v == -1 ? 3 : v); }
  case SHIFT: return (W)rg->irange(0, 31);
  case UNIT: return k == 0 ? asw(1) : k == 1 ? asw(-1) : k == 2 ? 0 : asw((float)rg->real(-1, 1));
  case POS: return asw((float)pow(10., rg->real(-30, 30)));
  case POSN: return k == 0 ? asw(1) : k == 1 ? asw(4) : asw((float)pow(10., rg->real(-18, 18)));
  case MODER: return k == 0 ? 0 : asw((float)rg->real(-50, 50));
  case SMALL: return k == 0 ? 0 : asw((float)rg->real(-3, 3));
  case POWB: return asw((float)pow(10., rg->real(-3, 3)));
  case POWE: return k < 3 ? asw((float)rg->irange(-3, 3)) : asw((float)rg->real(-5, 5));
  case NZF: return asw((float)((rg->flag() ? -1 : 1) * pow(10., rg->real(-2, 3))));
  }
  return 0;
}
static void fillreg(int i, Dom d) { for (int l = 0; l < VW; l++) R[i].w[l] = mr[i][l] = value(d); }
static Ctx *cx; static int lastin; static Dom lastdom;
static std::vector<int> used;
// an input register holding values of the domain; the previous input of the same domain may be used again
static int in(Dom d) {
  if (lastin >= 0 && lastdom == d && rg->flag(.15)) { used.push_back(lastin); return lastin; }
  int i; do i = rg->irange(0, NR - 1); while (std::find(used.begin(), used.end(), i) != used.end());
  if (!((d == ANYF || d == ANYI) && rg->flag(.3))) fillreg(i, d);
  used.push_back(i); lastin = i; lastdom = d; return i;
}
static int outr() { return rg->irange(0, NR - 1); }
static std::vector<int> distinct(int n) { std::vector<int> v; for (int i = 0; i < NR; i++) v.push_back(i); for (int i = 0; i < n; i++) std::swap(v[i], v[rg->irange(i, NR - 1)]); v.resize(n); return v; }
static double tol; static std::set<int> tolreg; static bool tolmem; static bool tolabs; static double tscale[VW];
struct Op { std::string name; std::function<void()> f; };
static std::vector<Op> ops;
typedef std::function<W(W)> M1; typedef std::function<W(W, W)> M2; typedef std::function<W(W, W, W)> M3;
static void set(int o, const W *t) { memcpy(mr[o], t, 4 * VW); }
static void approx(int o, double t) { tol = t; tolreg.insert(o); }
template <class A> static void u1(const char *n, Dom d, A act, M1 m, double t = 0) { ops.push_back(Op{n, [=] { int a = in(d), o = outr(); W x[VW]; for (int l = 0; l < VW; l++) x[l] = m(mr[a][l]); act(o, a); set(o, x); if (t) approx(o, t); }}); }
template <class A> static void u2(const char *n, Dom d, Dom e, A act, M2 m, double t = 0) { ops.push_back(Op{n, [=] { int a = in(d), b = in(e), o = outr(); W x[VW]; for (int l = 0; l < VW; l++) x[l] = m(mr[a][l], mr[b][l]); act(o, a, b); set(o, x); if (t) approx(o, t); }}); }
template <class A> static void u3(const char *n, Dom d, Dom e, Dom f, A act, M3 m) { ops.push_back(Op{n, [=] { int a = in(d), b = in(e), c = in(f), o = outr(); W x[VW]; for (int l = 0; l < VW; l++) x[l] = m(mr[a][l], mr[b][l], mr[c][l]); act(o, a, b, c); set(o, x); }}); }
// in place: a op= b
template <class A> static void upd(const char *n, Dom d, Dom e, A act, M2 m) { ops.push_back(Op{n, [=] { int a = in(d), b = in(e); W x[VW]; for (int l = 0; l < VW; l++) x[l] = m(mr[a][l], mr[b][l]); act(a, b); set(a, x); }}); }
static W B(bool b) { return b ? ~0u : 0; }
#define FI1(n, dom, expr, mexpr) u1(n, dom, [](int o, int i) { VI &a = I(i); (void)a; I(o) = expr; }, [](W wa) { int a = (int)wa; (void)a; return (W)(mexpr); })
#define FI2(n, d, e, op) u2("int a" n "b", d, e, [](int o, int i, int j) { I(o) = I(i) op I(j); }, [](W wa, W wb) { int a = (int)wa, b = (int)wb; return (W)(a op b); })
#define FI2L(n, op) u2("int a" n "b", ANYI, ANYI, [](int o, int i, int j) { I(o) = I(i) op I(j); }, [](W wa, W wb) { int a = (int)wa, b = (int)wb; return B(a op b); })
#define FIU(n, d, e, op, cop) upd("int a" n "b", d, e, [](int i, int j) { I(i) op I(j); }, [](W wa, W wb) { int a = (int)wa, b = (int)wb; return (W)(a cop b); })
#define FF2(n, d, e, op) u2("float a" n "b", d, e, [](int o, int i, int j) { F(o) = F(i) op F(j); }, [](W wa, W wb) { return asw(asf(wa) op asf(wb)); })
#define FF2L(n, op) u2("float a" n "b", ANYF, ANYF, [](int o, int i, int j) { I(o) = F(i) op F(j); }, [](W wa, W wb) { return B(asf(wa) op asf(wb)); })
#define FFU(n, op, cop) upd("float a" n "b", ANYF, ANYF, [](int i, int j) { F(i) op F(j); }, [](W wa, W wb) { return asw(asf(wa) cop asf(wb)); })
#define MATH1(fn, d, t) u1(#fn, d, [](int o, int i) { F(o) = fn(F(i)); }, [](W a) { return asw((float)::fn((double)asf(a))); }, t)
#define MATH2(fn, d, e, t) u2(#fn, d, e, [](int o, int i, int j) { F(o) = fn(F(i), F(j)); }, [](W a, W b) { return asw((float)::fn((double)asf(a), (double)asf(b))); }, t)
// permutations known at compile time
constexpr unsigned hsh(unsigned k, unsigned l) { return ((k * 2654435761u + l * 40503u + 977u) ^ ((k * 2654435761u + l * 40503u) >> 13)) * 2246822519u; }
constexpr int pidx(int k, int l) { return VW == 4 ? (k >> (2 * l)) & 3 : k == 0 ? l : k == 1 ? VW - 1 - l : k == 2 ? (l ^ 1) : k == 3 ? (l + VW / 2) % VW : k == 4 ? VW - 1 : (int)((hsh(k, l) >> 15) % VW); }
#if VW == 4
enum { NSH = 256 };
template <int k> static V shuf(const V &a) { return vn::shuffle<pidx(k, 0), pidx(k, 1), pidx(k, 2), pidx(k, 3)>(a); }
#elif VW == 8
enum { NSH = 96 };
template <int k> static V shuf(const V &a) { return vn::shuffle<pidx(k, 0), pidx(k, 1), pidx(k, 2), pidx(k, 3), pidx(k, 4), pidx(k, 5), pidx(k, 6), pidx(k, 7)>(a); }
#else
enum { NSH = 96 };
template <int k> static V shuf(const V &a) { return vn::shuffle<pidx(k, 0), pidx(k, 1), pidx(k, 2), pidx(k, 3), pidx(k, 4), pidx(k, 5), pidx(k, 6), pidx(k, 7), pidx(k, 8), pidx(k, 9), pidx(k, 10), pidx(k, 11), pidx(k, 12), pidx(k, 13), pidx(k, 14), pidx(k, 15)>(a); }
#endif
template <int k> static V spl(const V &a) { return vn::splat<k>(a); }
typedef V (*Perm)(const V &);
template <int... k> static std::vector<Perm> mkshuf(std::integer_sequence<int, k...>) { return std::vector<Perm>{&shuf<k>...}; }
template <int... k> static std::vector<Perm> mksplat(std::integer_sequence<int, k...>) { return std::vector<Perm>{&spl<k>...}; }
// strided (transposed) memory access: np pointers, M words each, registers in groups
// the vector kernels pass addresses of pairs and quadruples inside larger structures
static int walign(int M, bool st) { return VW == 16 && M > (st ? 2 : 4) ? 16 : M == 1 ? 1 : M == 2 ? 2 : M <= 4 ? 4 : M; }
static void tr(int M, bool st, bool pairs, std::function<void(W **, std::vector<int> &)> act) {
  int al = pairs ? 16 : walign(M, st), np = !pairs ? VW : M == 8 ? VW / 2 : VW, ext = pairs ? 16 : M; // words behind each pointer
  int nreg = M; W *p[16]; int off[16];
  std::vector<int> r = st ? std::vector<int>() : distinct(nreg);
  if (st) for (int i = 0; i < nreg; i++) r.push_back(rg->irange(0, NR - 1));
  std::vector<int> slot; for (int i = 0; i < MEM / 16 - 1; i++) slot.push_back(i);
  for (int i = 0; i < np; i++) {
    if (st) std::swap(slot[i], slot[rg->irange(i, (int)slot.size() - 1)]);
    int room = st ? (16 - ext) / al : (MEM - 32) / al; off[i] = (st ? 16 * slot[i] : 0) + al * rg->irange(0, room);
    if (!st && i && rg->flag(.1)) off[i] = off[i - 1];
    p[i] = mem + off[i];
  }
  // value k of lane l of the access
  for (int i = 0; i < np; i++) for (int k = 0; k < ext; k++) {
    int reg, lane; if (!pairs) { reg = k; lane = i; } else { reg = (M == 16 ? 8 * (i / 8) : 0) + k % 8; lane = 2 * (i % 8) + k / 8; }
    if (st) mm[off[i] + k] = mr[r[reg]][lane]; else mr[r[reg]][lane] = mm[off[i] + k];
  }
  act(p, r);
}
#define TRL(M) ops.push_back(Op{"load_Nx" #M "_tr", [] { tr(M, false, false, [](W **p, std::vector<int> &r) { CAT(load_, VW, x, M, _tr)(PP(p), P##M(r)); }); }})
#define TRS(M) ops.push_back(Op{"store_Nx" #M "_tr", [] { tr(M, true, false, [](W **p, std::vector<int> &r) { CAT(store_, VW, x, M, _tr)(P##M(r), PP(p)); }); }})
static int maddr() { return VW * rg->irange(0, MEM / VW - 1); }
static void build_ops() {
  // constructors, lane access, assignment
  ops.push_back(Op{"splat constructor int", [] { int o = outr(), v = (int)value(ANYI); I(o) = VI(v); for (int l = 0; l < VW; l++) mr[o][l] = (W)v; }});
  ops.push_back(Op{"splat constructor float", [] { int o = outr(); float v = normalf(); F(o) = VF(v); for (int l = 0; l < VW; l++) mr[o][l] = asw(v); }});
#if VW == 4
#define LST(x) x[0], x[1], x[2], x[3]
#elif VW == 8
#define LST(x) x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]
#else
#define LST(x) x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15]
#endif
  ops.push_back(Op{"lane constructor int", [] { int o = outr(), x[16]; for (int l = 0; l < VW; l++) x[l] = (int)(mr[o][l] = value(ANYI)); I(o) = VI(LST(x)); }});
  ops.push_back(Op{"lane constructor float", [] { int o = outr(); float x[16]; for (int l = 0; l < VW; l++) { x[l] = normalf(); mr[o][l] = asw(x[l]); } F(o) = VF(LST(x)); }});
  ops.push_back(Op{"copy", [] { int a = in(ANYI), o = outr(); switch (rg->irange(0, 4)) { case 0: { VI t(I(a)); I(o) = t; } break; case 1: { VF t(F(a)); F(o) = t; } break; case 2: { V t(G(a)); F(o) = VF(t); } break; case 3: { V t(G(a)); I(o) = VI(t); } break; default: F(o) = VF(I(a)); } memmove(mr[o], mr[a], 4 * VW); }});
  ops.push_back(Op{"lane write int", [] { int o = outr(), n = rg->irange(0, VW - 1); W v = value(ANYI); I(o)[n] = (int)v; mr[o][n] = v; }});
  ops.push_back(Op{"lane write float", [] { int o = outr(), n = rg->irange(0, VW - 1); float v = normalf(); F(o)[n] = v; mr[o][n] = asw(v); }});
  ops.push_back(Op{"lane read", [] { int a = in(ANYI), n = rg->irange(0, VW - 1); int v = I(a)(n); if ((W)v != mr[a][n]) cx->fail("lane", "reading lane %d gives %d, stored %d", n, v, (int)mr[a][n]); int b = in(ARITH); float f = F(b)(n); if (!isnanw(mr[b][n]) && asw(f) != mr[b][n]) cx->fail("lane", "reading float lane %d gives %08x, stored %08x", n, asw(f), mr[b][n]); float g = F(b)[n]; if (!isnanw(mr[b][n]) && asw(g) != mr[b][n]) cx->fail("lane", "reading float lane [%d] gives %08x, stored %08x", n, asw(g), mr[b][n]); }});
  ops.push_back(Op{"any all", [] { int a = in(rg->flag() ? MASK : ANYI); if (rg->flag(.3)) { for (int l = 0; l < VW; l++) R[a].w[l] = mr[a][l] = 0; if (rg->flag(.7)) { int l = rg->irange(0, VW - 1); R[a].w[l] = mr[a][l] = rg->flag() ? ~0u : 1; } } else if (rg->flag(.3)) { for (int l = 0; l < VW; l++) R[a].w[l] = mr[a][l] = rg->flag(.9) ? ~0u : 4; if (rg->flag()) { int l = rg->irange(0, VW - 1); R[a].w[l] = mr[a][l] = 0; } }
    bool y = false, z = true; for (int l = 0; l < VW; l++) { y |= mr[a][l] != 0; z &= mr[a][l] != 0; } bool ry = any(G(a)) != 0, rz = all(G(a)) != 0; if (ry != y || rz != z) cx->fail("anyall", "any gives %d (expected %d), all gives %d (expected %d)", ry, y, rz, z); }});
  static std::vector<Perm> sh = mkshuf(std::make_integer_sequence<int, NSH>()), sp = mksplat(std::make_integer_sequence<int, VW>());
  for (int rep = 0; rep < 3; rep++) ops.push_back(Op{"shuffle", [] { int a = in(ANYI), o = outr(), k = rg->irange(0, NSH - 1); W x[VW]; for (int l = 0; l < VW; l++) x[l] = mr[a][pidx(k, l)]; G(o) = sh[k](G(a)); set(o, x); }});
  ops.push_back(Op{"splat", [] { int a = in(ANYI), o = outr(), k = rg->irange(0, VW - 1); W x[VW]; for (int l = 0; l < VW; l++) x[l] = mr[a][k]; G(o) = sp[k](G(a)); set(o, x); }});
  ops.push_back(Op{"swap", [] { std::vector<int> r = distinct(2); swap(G(r[0]), G(r[1])); for (int l = 0; l < VW; l++) std::swap(mr[r[0]][l], mr[r[1]][l]); }});
  for (int rep = 0; rep < 2; rep++) ops.push_back(Op{"transpose", [] { std::vector<int> r = distinct(VW); for (int i = 0; i < VW; i++) if (rg->flag()) fillreg(r[i], ANYI); transpose(ALLREG(r)); for (int i = 0; i < VW; i++) for (int j = 0; j < i; j++) std::swap(mr[r[i]][j], mr[r[j]][i]); }});
  // masks
  u2("czero", MASK, ANYI, [](int o, int c, int a) { G(o) = czero(I(c), G(a)); }, [](W c, W a) { return a & ~c; });
  u2("notczero", MASK, ANYI, [](int o, int c, int a) { G(o) = notczero(I(c), G(a)); }, [](W c, W a) { return a & c; });
  u3("merge", MASK, ANYI, ANYF, [](int o, int c, int t, int f) { G(o) = merge(I(c), G(t), G(f)); }, [](W c, W t, W f) { return (t & c) | (f & ~c); });
  u2("clear_bits", ANYI, ANYF, [](int o, int m, int a) { F(o) = clear_bits(I(m), F(a)); }, [](W m, W a) { return ~m & a; });
  u2("set_bits", ANYI, ANYF, [](int o, int m, int a) { F(o) = set_bits(I(m), F(a)); }, [](W m, W a) { return m | a; });
  u2("toggle_bits", ANYI, ANYF, [](int o, int m, int a) { F(o) = toggle_bits(I(m), F(a)); }, [](W m, W a) { return m ^ a; });
  // memory
  ops.push_back(Op{"load_Nx1", [] { int o = outr(), p = maddr(); CAT(load_, VW, x, 1, )(mem + p, G(o)); memcpy(mr[o], mm + p, 4 * VW); }});
  ops.push_back(Op{"store_Nx1", [] { int a = in(ANYI), p = maddr(); CAT(store_, VW, x, 1, )(G(a), mem + p); memcpy(mm + p, mr[a], 4 * VW); }});
  ops.push_back(Op{"stream_Nx1", [] { int a = in(ANYI), p = maddr(); CAT(stream_, VW, x, 1, )(G(a), mem + p); memcpy(mm + p, mr[a], 4 * VW); }});
  ops.push_back(Op{"clear_Nx1", [] { int p = maddr(); CAT(clear_, VW, x, 1, )(mem + p); memset(mm + p, 0, 4 * VW); }});
  ops.push_back(Op{"copy_Nx1", [] { int p = maddr(), q = rg->flag(.1) ? p : maddr(); CAT(copy_, VW, x, 1, )(mem + p, mem + q); memmove(mm + p, mm + q, 4 * VW); }});
  ops.push_back(Op{"swap_Nx1", [] { int p = maddr(), q = rg->flag(.1) ? p : maddr(); CAT(swap_, VW, x, 1, )(mem + p, mem + q); for (int l = 0; l < VW; l++) std::swap(mm[p + l], mm[q + l]); }});
#define MEMF(nm, op) ops.push_back(Op{#nm, [] { int a = in(ANYF), p = maddr(); for (int l = 0; l < VW; l++) if (rg->flag()) mem[p + l] = mm[p + l] = value(ANYF); W x[VW]; for (int l = 0; l < VW; l++) x[l] = asw(asf(mm[p + l]) op asf(mr[a][l])); CAT(nm##_, VW, x, 1, )((float *)mem + p, F(a)); memcpy(mm + p, x, 4 * VW); }})
  MEMF(increment, +); MEMF(decrement, -); MEMF(scale, *);
  for (int rep = 0; rep < 2; rep++) {
    TRL(1); TRL(2); TRL(3); TRL(4); TRS(1); TRS(2); TRS(3); TRS(4);
#if VW >= 8
    TRL(8); TRS(8);
#endif
#if VW == 16
    TRL(16); TRS(16);
    ops.push_back(Op{"load_16x8_tr_p", [] { tr(8, false, true, [](W **p, std::vector<int> &r) { load_16x8_tr_p(PH(p), P8(r)); }); }});
    ops.push_back(Op{"store_16x8_tr_p", [] { tr(8, true, true, [](W **p, std::vector<int> &r) { store_16x8_tr_p(P8(r), PH(p)); }); }});
    ops.push_back(Op{"load_16x16_tr_p", [] { tr(16, false, true, [](W **p, std::vector<int> &r) { load_16x16_tr_p(PP(p), P16(r)); }); }});
    ops.push_back(Op{"store_16x16_tr_p", [] { tr(16, true, true, [](W **p, std::vector<int> &r) { store_16x16_tr_p(P16(r), PP(p)); }); }});
#endif
  }
  // integers
  FI1("int +a", ANYI, +a, a); FI1("int -a", ARITH, -a, -a); FI1("int ~a", ANYI, ~a, ~a); FI1("int !a", ANYI, !a, B(!a)); FI1("int abs", ARITH, abs(a), a < 0 ? -a : a);
  ops.push_back(Op{"int ++ --", [] { int a = in(ARITH), o; do o = outr(); while (o == a); int k = rg->irange(0, 3), d = k & 1 ? -1 : 1; W x[VW], y[VW]; for (int l = 0; l < VW; l++) { if (mr[a][l] == 0x7fffffff || mr[a][l] == 0x80000001u) R[a].w[l] = mr[a][l] = 5; y[l] = mr[a][l] + d; x[l] = k < 2 ? y[l] : mr[a][l]; } I(o) = k == 0 ? ++I(a) : k == 1 ? --I(a) : k == 2 ? I(a)++ : I(a)--; set(a, y); set(o, x); }});
  FI2("+", ANYI, ANYI, +); FI2("-", ANYI, ANYI, -); FI2("*", ANYI, ANYI, *); FI2("/", ANYI, NZI, /); FI2("%", ANYI, NZI, %); FI2("^", ANYI, ANYI, ^); FI2("&", ANYI, ANYI, &); FI2("|", ANYI, ANYI, |); FI2("<<", ANYI, SHIFT, <<); FI2(">>", ANYI, SHIFT, >>);
  FI2L("<", <); FI2L(">", >); FI2L("==", ==); FI2L("!=", !=); FI2L("<=", <=); FI2L(">=", >=); FI2L("&&", &&); FI2L("||", ||);
  FIU("+=", ANYI, ANYI, +=, +); FIU("-=", ANYI, ANYI, -=, -); FIU("*=", ANYI, ANYI, *=, *); FIU("/=", ANYI, NZI, /=, /); FIU("%=", ANYI, NZI, %=, %); FIU("^=", ANYI, ANYI, ^=, ^); FIU("&=", ANYI, ANYI, &=, &); FIU("|=", ANYI, ANYI, |=, |); FIU("<<=", ANYI, SHIFT, <<=, <<); FIU(">>=", ANYI, SHIFT, >>=, >>);
  // floats
  u1("float +a", ANYF, [](int o, int a) { F(o) = +F(a); }, [](W a) { return a; });
  u1("float -a", ANYF, [](int o, int a) { F(o) = -F(a); }, [](W a) { return a ^ 0x80000000u; });
  u1("float !a", ANYF, [](int o, int a) { I(o) = !F(a); }, [](W a) { return B(!asf(a)); });
  ops.push_back(Op{"float ++ --", [] { int a = in(ANYF), o; do o = outr(); while (o == a); int k = rg->irange(0, 3); W x[VW], y[VW]; for (int l = 0; l < VW; l++) { y[l] = asw(k & 1 ? asf(mr[a][l]) - 1 : asf(mr[a][l]) + 1); x[l] = k < 2 ? y[l] : mr[a][l]; } F(o) = k == 0 ? ++F(a) : k == 1 ? --F(a) : k == 2 ? F(a)++ : F(a)--; set(a, y); set(o, x); }});
  FF2("+", ANYF, ANYF, +); FF2("-", ANYF, ANYF, -); FF2("*", ANYF, ANYF, *); FF2("/", ANYF, ANYF, /);
  FF2L("<", <); FF2L(">", >); FF2L("==", ==); FF2L("!=", !=); FF2L("<=", <=); FF2L(">=", >=); FF2L("&&", &&); FF2L("||", ||);
  FFU("+=", +=, +); FFU("-=", -=, -); FFU("*=", *=, *); FFU("/=", /=, /);
  MATH1(acos, UNIT, 4e-7); MATH1(asin, UNIT, 4e-7); MATH1(atan, MODER, 4e-7); MATH2(atan2, NZF, NZF, 4e-7); MATH1(ceil, ANYF, 0); MATH1(cos, MODER, 4e-7); MATH1(cosh, MODER, 4e-7); MATH1(exp, MODER, 4e-7); MATH1(fabs, ANYF, 0); MATH1(floor, ANYF, 0); MATH2(fmod, MODER, NZF, 0); MATH1(log, POS, 4e-7); MATH1(log10, POS, 4e-7); MATH2(pow, POWB, POWE, 4e-7); MATH1(sin, MODER, 4e-7); MATH1(sinh, MODER, 4e-7); MATH1(sqrt, POS, 1.3e-7); MATH1(tan, SMALL, 4e-7); MATH1(tanh, SMALL, 4e-7);
  u2("copysign", ANYF, ANYF, [](int o, int a, int b) { F(o) = copysign(F(a), F(b)); }, [](W a, W b) { return isnanw(a) ? a : (a & 0x7fffffff) | (b & 0x80000000u); });
  u1("rsqrt_approx", POSN, [](int o, int a) { F(o) = rsqrt_approx(F(a)); }, [](W a) { return asw((float)(1 / ::sqrt((double)asf(a)))); }, 4e-4);
  u1("rsqrt", POSN, [](int o, int a) { F(o) = rsqrt(F(a)); }, [](W a) { return asw((float)(1 / ::sqrt((double)asf(a)))); }, 1e-6);
  u1("rcp_approx", POSN, [](int o, int a) { F(o) = rcp_approx(F(a)); }, [](W a) { return asw((float)(1 / (double)asf(a))); }, 4e-4);
  u1("rcp", POSN, [](int o, int a) { F(o) = rcp(F(a)); }, [](W a) { return asw((float)(1 / (double)asf(a))); }, 1e-6);
  for (int k = 0; k < 3; k++) ops.push_back(Op{k == 0 ? "fma" : k == 1 ? "fms" : "fnms", [=] { int a = in(NZF), b = in(NZF), c = in(NZF), o = outr(); W x[VW]; for (int l = 0; l < VW; l++) { double p = (double)asf(mr[a][l]) * asf(mr[b][l]), q = asf(mr[c][l]); x[l] = asw((float)(k == 0 ? p + q : k == 1 ? p - q : q - p)); tscale[l] = ::fabs(p) + ::fabs(q); } F(o) = k == 0 ? fma(F(a), F(b), F(c)) : k == 1 ? fms(F(a), F(b), F(c)) : fnms(F(a), F(b), F(c)); set(o, x); approx(o, 1.3e-7); tolabs = true; }});
#if VW == 4
  ops.push_back(Op{"trilinear", [] { std::vector<int> r = distinct(2); fillreg(r[0], UNIT); fillreg(r[1], UNIT); double x = asf(mr[r[0]][0]), y = asf(mr[r[0]][1]), z = asf(mr[r[0]][2]); for (int l = 0; l < 4; l++) { double q = (l & 1 ? 1 + x : 1 - x) * (l & 2 ? 1 + y : 1 - y); mr[r[0]][l] = asw((float)(q * (1 - z))); mr[r[1]][l] = asw((float)(q * (1 + z))); tscale[l] = 8; } trilinear(F(r[0]), F(r[1])); tol = 4e-7; tolreg.insert(r[0]); tolreg.insert(r[1]); tolabs = true; }});
#endif
#ifdef V16_AVX512_ACCELERATION
  ops.push_back(Op{"load_16x2_bc", [] { std::vector<int> r = distinct(2); int p = maddr(); load_16x2_bc(mem + p, P2(r)); for (int k = 0; k < 2; k++) for (int l = 0; l < VW; l++) mr[r[k]][l] = mm[p + k]; }});
#endif
}
static std::string keyof(std::string s) { for (size_t i = 0; i < s.size(); i++) if (s[i] == ' ') s[i] = '_'; return s; }
void pbt_setup() { build_ops(); }
void pbt_teardown() {}
void pbt_case(Ctx &c) {
#ifdef NEED_AVX512
  if (!__builtin_cpu_supports("avx512f") || !__builtin_cpu_supports("avx512dq")) { c.label("processor without AVX-512"); return; }
#endif
  cx = &c;
  int n = c.irange(1, 40); SplitMix s = c.bulk(); rg = &s;
  for (int i = 0; i < NR; i++) fillreg(i, rg->flag() ? ANYI : ANYF);
  for (int i = 0; i < MEM; i++) mem[i] = mm[i] = (W)s.next();
  c.note("%d-lane operations:", VW);
  for (int q = 0; q < n; q++) {
    int k = c.irange(0, (int)ops.size() - 1); SplitMix so = c.bulk(); rg = &so;
    used.clear(); lastin = -1; tol = 0; tolabs = false; tolreg.clear(); for (int l = 0; l < VW; l++) tscale[l] = 0;
    c.note(" %s", ops[k].name.c_str());
    ops[k].f();
    if (c.failed) { c.msg = ops[k].name + ": " + c.msg; return; }
    for (int i = 0; i < NR; i++) for (int l = 0; l < VW; l++) {
      W a = R[i].w[l], m = mr[i][l]; if (a == m) continue;
      bool ok = (isnanw(a) && isnanw(m)) || (ops[k].name == "float -a" && !((a | m) & 0x7fffffff)); // the sign of a negated zero is left open
      if (!ok && tolreg.count(i)) { double x = asf(a), y = asf(m); ok = ::fabs(x - y) <= tol * (tolabs ? tscale[l] : ::fabs(y)) + 1e-44; }
      if (!ok) { c.fail(keyof(ops[k].name).c_str(), "%s: register %d lane %d holds %08x (%g, %d), the scalar operation gives %08x (%g, %d)", ops[k].name.c_str(), i, l, a, asf(a), (int)a, m, asf(m), (int)m); return; }
      mr[i][l] = a;
    }
    for (int i = 0; i < MEM; i++) if (mem[i] != mm[i]) {
      if (isnanw(mem[i]) && isnanw(mm[i]) && (ops[k].name == "increment" || ops[k].name == "decrement" || ops[k].name == "scale")) { mm[i] = mem[i]; continue; }
      c.fail(keyof(ops[k].name).c_str(), "%s: memory word %d holds %08x, expected %08x", ops[k].name.c_str(), i, mem[i], mm[i]); return;
    }
    c.label(ops[k].name);
  }
  if (n > 3) c.nontrivial();
}

// C26: dispatching over pipelines runs the work exactly once per pipeline with the right arguments, the host's
// clean-up call included, and waiting ends only when all of it is done; the item and voxel ranges given to the
// pipelines and the host cover every item exactly once.
#define HAS_V4_PIPELINE
#define HAS_V8_PIPELINE
#define HAS_V16_PIPELINE
#include "common.h"
#include "util/pipelines/pipelines_exec.h"
#include <time.h>
#include <unistd.h>
const char *pbt_check_name = "C26";

struct Log { volatile int calls, clean; void *args[MAX_PIPELINE + 1]; int n[MAX_PIPELINE + 1], cnt[MAX_PIPELINE + 1], vec[MAX_PIPELINE + 1]; volatile int bad; long work[MAX_PIPELINE + 1]; int delay[MAX_PIPELINE + 1]; pthread_t who[MAX_PIPELINE + 1]; };
static Log *cur; // the dispatch under way; the workers find it here and through their arguments
static void spin(int us) { if (us <= 0) return; timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a); do { clock_gettime(CLOCK_MONOTONIC, &b); } while ((b.tv_sec - a.tv_sec) * 1e6 + (b.tv_nsec - a.tv_nsec) * 1e-3 < us); }
static void record(void *args, int r, int n, int vec) {
  Log *l = cur;
  if (r < 0 || r > MAX_PIPELINE) { l->bad = 1; return; }
  __sync_fetch_and_add(&l->cnt[r], 1);
  spin(l->delay[r]);
  l->args[r] = args; l->n[r] = n; l->vec[r] = vec; l->who[r] = pthread_self();
  l->work[r] = 1000003l * (r + 1); // an effect that must be visible after the wait
  __sync_fetch_and_add(&l->calls, 1);
}
struct Small { int a; }; struct Odd { char c[13]; }; struct Big { double d[40]; char pad; };
#define KIND(T, tag) \
  static void tag##_pipeline_scalar(T *a, int r, int n) { record(a, r, n, 1); } \
  static void tag##_pipeline_v4(T *a, int r, int n) { record(a, r, n, 4); } \
  static void tag##_pipeline_v8(T *a, int r, int n) { record(a, r, n, 8); } \
  static void tag##_pipeline_v16(T *a, int r, int n) { record(a, r, n, 16); }
KIND(Small, psmall) KIND(Odd, podd) KIND(Big, pbig)
#if defined(V16_ACCELERATION)
static const int VEC = 16;
#elif defined(V8_ACCELERATION)
static const int VEC = 8;
#elif defined(V4_ACCELERATION)
static const int VEC = 4;
#else
static const int VEC = 1;
#endif
static void direct(void *a, int r, int n) { record(a, r, n, 1); }
static int orig_n;
void pbt_setup() { orig_n = N_PIPELINE; }
void pbt_teardown() {}
static void reboot(int n, int host) {
  char a0[] = "x", k1[] = "--tpp", k2[] = "--dispatch_to_host", v1[16], v2[16]; sprintf(v1, "%d", n); sprintf(v2, "%d", host);
  char *av[] = {a0, k1, v1, k2, v2, 0}; char **pv = av; int ac = 5;
#if defined(VPIC_USE_PTHREADS)
  thread.halt(); thread.boot(&ac, &pv);
#else
  omp_helper.n_pipeline = 0; omp_helper.boot(&ac, &pv);
#endif
}
static void ranges(pbt::Ctx &c) {
  pbt::SplitMix r = c.bulk();
  for (int k = 0; k < 40 && !c.failed; k++) {
    int P = r.flag(0.7) ? r.irange(1, 20) : r.irange(1, MAX_PIPELINE);
    static const int bs[] = {1, 2, 4, 8, 16, 32, 3, 7, 100};
    int b = bs[r.irange(0, 8)];
    int m = r.irange(0, 5), N = m == 0 ? r.irange(0, 3 * b) : m == 1 ? b * r.irange(0, 4 * P) : m == 2 ? r.irange(0, 5000) : m == 3 ? (int)(r.next() >> 33) : m == 4 ? 2147483647 - r.irange(0, 3) : P * b * r.irange(0, 50) + r.irange(0, 2);
    long next = 0; long lo = -1, hi = -1;
    for (int p = 0; p <= P; p++) {
      int i, n; DISTRIBUTE(N, b, p, P, i, n);
      if (i != next || n < 0) { c.fail("distribute", "DISTRIBUTE(N=%d,b=%d,P=%d): pipeline %d starts at %d with %d items, expected start %ld", N, b, P, p, i, n, next); return; }
      if (p < P) { if (n % b) { c.fail("distribute-block", "DISTRIBUTE(N=%d,b=%d,P=%d): pipeline %d gets %d items, not a multiple of the block", N, b, P, p, n); return; }
        if (lo < 0 || n < lo) lo = n; if (n > hi) hi = n; }
      else if (n != N % b) { c.fail("distribute-rest", "DISTRIBUTE(N=%d,b=%d,P=%d): the host gets %d items, expected %d", N, b, P, n, N % b); return; }
      next += n;
    }
    if (next != N) { c.fail("distribute-cover", "DISTRIBUTE(N=%d,b=%d,P=%d) covers %ld items", N, b, P, next); return; }
    if (hi - lo > b) { c.fail("distribute-share", "DISTRIBUTE(N=%d,b=%d,P=%d): shares from %ld to %ld items", N, b, P, lo, hi); return; }
  }
}
static void voxels(pbt::Ctx &c) {
  pbt::SplitMix r = c.bulk();
  for (int k = 0; k < 8 && !c.failed; k++) {
    int n[3], l[3], h[3]; for (int a = 0; a < 3; a++) { n[a] = r.irange(1, r.flag(0.3) ? 30 : 6); l[a] = r.irange(0, 2); h[a] = r.flag(0.5) ? n[a] + r.irange(-1, 1) : r.irange(l[a] - 1, n[a] + 1); if (h[a] < l[a] - 1) h[a] = l[a] - 1; if (l[a] > n[a] + 1) l[a] = n[a] + 1; }
    int P = r.flag(0.8) ? r.irange(1, 12) : r.irange(1, MAX_PIPELINE); static const int bs[] = {1, 4, 8, 16, 5}; int b = bs[r.irange(0, 4)];
    std::vector<int> want, got; for (int z = l[2]; z <= h[2]; z++) for (int y = l[1]; y <= h[1]; y++) for (int x = l[0]; x <= h[0]; x++) want.push_back(VOXEL(x, y, z, n[0], n[1], n[2]));
    for (int p = 0; p <= P; p++) {
      int x, y, z, nv; DISTRIBUTE_VOXELS(l[0], h[0], l[1], h[1], l[2], h[2], b, p, P, x, y, z, nv);
      if (nv < 0 || (p < P && nv % b) || (p == P && nv != (int)want.size() % b)) { c.fail("voxel-share", "%dx%dx%d region [%d,%d]x[%d,%d]x[%d,%d] bundle %d: pipeline %d of %d gets %d voxels", n[0], n[1], n[2], l[0], h[0], l[1], h[1], l[2], h[2], b, p, P, nv); return; }
      if (!nv) continue;
      int v = VOXEL(x, y, z, n[0], n[1], n[2]);
      for (int i = 0; i < nv; i++) {
        if (v != VOXEL(x, y, z, n[0], n[1], n[2])) { c.fail("voxel-index", "%dx%dx%d region [%d,%d]x[%d,%d]x[%d,%d]: index %d does not match cell %d,%d,%d", n[0], n[1], n[2], l[0], h[0], l[1], h[1], l[2], h[2], v, x, y, z); return; }
        got.push_back(v);
        NEXT_VOXEL(v, x, y, z, l[0], h[0], l[1], h[1], l[2], h[2], n[0], n[1], n[2]);
      }
    }
    if (got != want) { c.fail("voxel-cover", "%dx%dx%d region [%d,%d]x[%d,%d]x[%d,%d] bundle %d over %d pipelines: %d voxels visited, %d expected (or another order)", n[0], n[1], n[2], l[0], h[0], l[1], h[1], l[2], h[2], b, P, (int)got.size(), (int)want.size()); return; }
  }
}
static std::vector<Log *> pool; static unsigned used;
static Log *newlog() { if (used == pool.size()) pool.push_back(new Log); Log *l = pool[used++]; memset(l, 0, sizeof *l); return l; }
static bool verify(pbt::Ctx &c, Log *l, int step, const char *what, int N, char *base, long pitch, int clean, int vec, bool settled) {
  int want = N + (clean ? 1 : 0);
  if (l->bad) { c.fail("rank", "step %d (%s): called with a rank out of range", step, what); return false; }
  for (int r = 0; r <= MAX_PIPELINE; r++) {
    int w = r < N || (clean && r == N);
    if (l->cnt[r] != w) { c.fail(w && !l->cnt[r] ? "missing" : "extra", "step %d (%s) over %d pipelines%s: rank %d was called %d times, expected %d", step, what, N, settled ? " (after the end of the case)" : "", r, l->cnt[r], w); return false; }
    if (!w) continue;
    if (l->work[r] != 1000003l * (r + 1)) { c.fail("unfinished", "step %d (%s) over %d pipelines: rank %d had not finished when the wait ended", step, what, N, r); return false; }
    if (l->args[r] != (void *)(base + pitch * r)) { c.fail("args", "step %d (%s) over %d pipelines: rank %d got arguments at offset %ld, expected %ld", step, what, N, r, (long)((char *)l->args[r] - base), pitch * r); return false; }
    if (l->n[r] != N) { c.fail("count", "step %d (%s): rank %d was told there are %d pipelines, expected %d", step, what, r, l->n[r], N); return false; }
    int wv = r == N ? 1 : vec; if (l->vec[r] != wv) { c.fail("vector", "step %d (%s): rank %d ran the width-%d function, expected %d", step, what, r, l->vec[r], wv); return false; }
  }
  if (l->calls != want) { c.fail("unfinished", "step %d (%s): %d calls finished when the wait ended, expected %d", step, what, l->calls, want); return false; }
  return true;
}
void pbt_case(pbt::Ctx &c) {
  int kind = c.pickw({6, 1, 1});
  if (kind == 1) { c.label("ranges"); c.nontrivial(); c.note("item ranges"); ranges(c); return; }
  if (kind == 2) { c.label("voxels"); c.nontrivial(); c.note("voxel ranges"); voxels(c); return; }
  int N = c.flag(0.04) ? c.irange(1, MAX_PIPELINE) : c.irange(1, 12), host = !c.flag(0.4);
  int steps = c.irange(1, 12); used = 0;
  c.note("%d pipelines%s, ", N, host ? "" : " (host not a pipeline)");
  c.label(host ? "host-in" : "host-out"); if (N > 1) c.nontrivial();
  reboot(N, host);
  if (N_PIPELINE != N) c.fail("n_pipeline", "%d pipelines requested, %d reported", N, N_PIPELINE);
#if defined(VPIC_USE_PTHREADS)
  int SN = c.irange(1, 8);
#endif
  struct Chk { Log *l; const char *what; int N; char *base; long pitch; int clean, vec; };
  std::vector<Chk> done; std::vector<char> mem;
  mem.resize((MAX_PIPELINE + 2) * (sizeof(Big) + 8) * 4);
  for (int s = 0; s < steps && !c.failed; s++) {
    Log *l = newlog(); cur = l;
    int dk = (int)c.draw(3), dmax = dk == 0 ? 0 : dk == 1 ? 20 : dk == 2 ? 200 : 40; pbt::SplitMix r = c.bulk();
    for (int p = 0; p <= N; p++) l->delay[p] = dmax ? (dk == 3 ? (r.flag(0.2) ? 300 : 0) : r.irange(0, dmax)) : 0;
    if (N > 12) for (int p = 0; p <= N; p++) l->delay[p] /= 8;
    int op = (int)c.draw(5), str = (int)c.draw(3), hostwork = c.flag(0.3) ? (int)c.draw(100) : 0; (void)hostwork;
    Chk k; k.l = l; k.N = N; k.base = &mem[0]; k.clean = 1; k.vec = VEC; k.pitch = 0; k.what = "";
    c.note("%s", op <= 1 ? "s" : op == 2 ? "o" : op == 3 ? "b" : op == 4 ? "d" : "S"); if (s == steps - 1) c.note(" (last stride %d)", str);
    if (op <= 1) { Small *a = (Small *)&mem[0]; k.what = "4-byte arguments"; k.pitch = sizeof(Small) * str; EXEC_PIPELINES(psmall, a, str); spin(hostwork); WAIT_PIPELINES(); }
    else if (op == 2) { Odd *a = (Odd *)&mem[0]; k.what = "13-byte arguments"; k.pitch = sizeof(Odd) * str; EXEC_PIPELINES(podd, a, str); spin(hostwork); WAIT_PIPELINES(); }
    else if (op == 3) { Big *a = (Big *)&mem[0]; k.what = "328-byte arguments"; k.pitch = sizeof(Big) * str; EXEC_PIPELINES(pbig, a, str); spin(hostwork); WAIT_PIPELINES(); }
#if defined(VPIC_USE_PTHREADS)
    else if (op == 4) { int sz = 1 + (int)c.draw(300); bool null = c.flag(0.1); k.what = null ? "no function" : "direct dispatch"; k.pitch = sz * str; k.clean = 0; k.vec = 1; if (null) k.N = 0; thread.dispatch(null ? NULL : direct, &mem[0], sz, str); spin(hostwork); thread.wait(); }
    else { char a0[] = "x", k1[] = "--serial.n_pipeline", v1[16]; sprintf(v1, "%d", SN); char *av[] = {a0, k1, v1, 0}; char **pv = av; int ac = 3;
      serial.halt(); serial.boot(&ac, &pv); int sz = 1 + (int)c.draw(300); k.what = "serial dispatch"; k.N = SN; k.pitch = sz * str; k.clean = 0; k.vec = 1; serial.dispatch(direct, &mem[0], sz, str); serial.wait(); c.label("serial"); }
#else
    else { Big *a = (Big *)&mem[0]; k.what = "328-byte arguments"; k.pitch = sizeof(Big) * str; EXEC_PIPELINES(pbig, a, str); WAIT_PIPELINES(); }
#endif
    if (!verify(c, l, s, k.what, k.N, k.base, k.pitch, k.clean, k.vec, false)) break;
    done.push_back(k); c.label(str ? "strided" : "shared");
  }
  if (c.failed) usleep(20000);
  reboot(orig_n, 1); // also joins the workers: nothing may arrive later
  for (size_t i = 0; i < done.size() && !c.failed; i++) { Chk &k = done[i]; verify(c, k.l, (int)i, k.what, k.N, k.base, k.pitch, k.clean, k.vec, true); }
}

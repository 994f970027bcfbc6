// C14: checkpoint archives: generated register/unregister/modify/checkpoint/restore histories of a synthetic object graph against a model.
#include "common.h"
#include <unistd.h>
#include <malloc.h>
#include "util/checkpt/checkpt.h"
const char *pbt_check_name = "c14";
static long file_no = 0;

// ---- the real objects ----
struct Arr { char *data; uint64_t sz, str, n, max, align; };
struct Node { uint64_t uid; int kind; int nstr, narr, nback, nfwd; char c; int i; float f; double d; char *str[3]; Arr arr[3]; Node *back[3]; Node *fwd[3]; const void *sym; int wide; int reanimated; };
struct Log { int what; uint64_t uid; }; // 0 checkpoint 1 restore 2 reanimate
static std::vector<Log> lg;
static bool bad_ptr; static std::string bad_what;
static void lgp(int w, uint64_t u) { Log l; l.what = w; l.uid = u; lg.push_back(l); }
static long live_nodes_expected; // number of nodes the reanimation hooks must find present
void c14_global_a(void) {}
int c14_global_var = 3;
int c14_global_b(int x) { return x + c14_global_var; }
static int c14_static(int x) { return x * 3; }
static const void *SYM[6] = {0, (const void *)(size_t)c14_global_a, (const void *)(size_t)c14_global_b, (const void *)&c14_global_var, (const void *)(size_t)malloc, (const void *)(size_t)c14_static};

void c14_checkpt(const Node *n) {
  lgp(0, n->uid);
  CHECKPT(n, 1);
  CHECKPT_VAL(char, n->c); CHECKPT_VAL(int, n->i); CHECKPT_VAL(float, n->f); CHECKPT_VAL(double, n->d); CHECKPT_VAL(long, n->wide);
  for (int k = 0; k < n->nstr; k++) CHECKPT_STR(n->str[k]);
  for (int k = 0; k < n->nback; k++) CHECKPT_PTR(n->back[k]);
  for (int k = 0; k < n->narr; k++) checkpt_data(n->arr[k].data, n->arr[k].sz, n->arr[k].str, n->arr[k].n, n->arr[k].max, n->arr[k].align);
  for (int k = 0; k < n->nfwd; k++) CHECKPT_FPTR(n->fwd[k]);
  CHECKPT_SYM(n->sym);
  checkpt_raw(&n->uid, sizeof n->uid); checkpt_raw(NULL, 0);
}
Node *c14_restore(void) {
  Node *n; RESTORE(n);
  memset(n->str, 0x77, sizeof n->str); memset(n->back, 0x77, sizeof n->back); memset(n->fwd, 0x77, sizeof n->fwd); n->sym = (void *)n; for (int k = 0; k < 3; k++) n->arr[k].data = (char *)n; // stale addresses must not survive
  n->c = 0; n->i = 0; n->f = 0; n->d = 0; n->wide = 0;
  RESTORE_VAL(char, n->c); RESTORE_VAL(int, n->i); RESTORE_VAL(float, n->f); RESTORE_VAL(double, n->d); RESTORE_VAL(long, n->wide);
  for (int k = 0; k < n->nstr; k++) RESTORE_STR(n->str[k]);
  for (int k = 0; k < n->nback; k++) { RESTORE_PTR(n->back[k]); if (n->back[k] && n->back[k]->kind != 0 && n->back[k]->kind != 1 && n->back[k]->kind != 2 && n->back[k]->kind != 3) { bad_ptr = true; bad_what = "backward pointer unusable while restoring"; } }
  for (int k = 0; k < n->narr; k++) RESTORE_ALIGNED(n->arr[k].data);
  for (int k = 0; k < n->nfwd; k++) RESTORE_FPTR(n->fwd[k]);
  RESTORE_SYM(n->sym);
  uint64_t u = 0; restore_raw(&u, sizeof u); restore_raw(NULL, 0);
  if (u != n->uid) { bad_ptr = true; bad_what = "archive position lost"; }
  lgp(1, u);
  return n;
}
void c14_reanimate(Node *n) {
  lgp(2, n->uid); n->reanimated++;
  for (int k = 0; k < n->nfwd; k++) { REANIMATE_FPTR(n->fwd[k]); if (n->fwd[k] && (n->fwd[k]->kind < 0 || n->fwd[k]->kind > 3)) { bad_ptr = true; bad_what = "forward pointer unusable while reanimating"; } }
}
// ---- the model ----
struct MArr { uint64_t sz, str, n, max, align; std::vector<char> bytes; };
struct MNode { uint64_t uid; int kind; size_t id; char c; int i; float f; double d; int wide; std::vector<std::pair<bool, std::string> > str; std::vector<MArr> arr; std::vector<uint64_t> back, fwd; int sym; int reanim; };
typedef std::vector<MNode> Model; // in registration order
static int find(const Model &m, uint64_t u) { for (size_t k = 0; k < m.size(); k++) if (m[k].uid == u) return (int)k; return -1; }
static std::map<uint64_t, Node *> real; // uid -> real object
static std::map<uint64_t, Node *> statics; // objects registered without restore function: live forever in this process
static char *xalloc(const MArr &a) { char *p = NULL; if (a.align) { MALLOC_ALIGNED(p, a.max * a.str, a.align); } else MALLOC(p, a.max * a.str); return p; }
static void fill_real(Node *n, const MNode &m) {
  n->uid = m.uid; n->kind = m.kind; n->c = m.c; n->i = m.i; n->f = m.f; n->d = m.d; n->wide = m.wide; n->nstr = (int)m.str.size(); n->narr = (int)m.arr.size(); n->nback = (int)m.back.size(); n->nfwd = (int)m.fwd.size(); n->sym = SYM[m.sym];
  for (int k = 0; k < n->nstr; k++) if (m.str[k].first) n->str[k] = NULL; else { MALLOC(n->str[k], m.str[k].second.size() + 1); strcpy(n->str[k], m.str[k].second.c_str()); }
  for (int k = 0; k < n->narr; k++) { const MArr &a = m.arr[k]; Arr &r = n->arr[k]; r.sz = a.sz; r.str = a.str; r.n = a.n; r.max = a.max; r.align = a.align; r.data = xalloc(a); if (r.data) memset(r.data, 0x3c, a.max * a.str); for (uint64_t e = 0; e < a.n && a.sz; e++) memcpy(r.data + e * a.str, &a.bytes[e * a.sz], a.sz); }
  for (int k = 0; k < n->nback; k++) n->back[k] = m.back[k] ? real[m.back[k]] : NULL;
  for (int k = 0; k < n->nfwd; k++) n->fwd[k] = m.fwd[k] ? real[m.fwd[k]] : NULL;
}
static void free_parts(Node *n) { for (int k = 0; k < n->nstr; k++) FREE(n->str[k]); for (int k = 0; k < n->narr; k++) if (n->arr[k].align) FREE_ALIGNED(n->arr[k].data); else FREE(n->arr[k].data); }
static void gen_content(pbt::Ctx &c, MNode &m, const Model &all_) {
  pbt::SplitMix r = c.bulk(); m.c = (char)r.next(); m.i = r.irange(-100000, 100000); m.f = (float)r.normal(); m.d = r.normal(); m.wide = r.irange(-1000000, 1000000);
  m.str.clear(); m.arr.clear(); m.back.clear(); m.fwd.clear();
  int ns = (int)c.draw(3); for (int k = 0; k < ns; k++) { std::string s; bool nul = c.flag(0.25); if (!nul) { int n = c.flag(0.2) ? 0 : c.flag(0.1) ? (int)c.draw(70000) : (int)c.draw(40); for (int q = 0; q < n; q++) s += (char)r.irange(1, 255); } m.str.push_back(std::make_pair(nul, s)); }
  int na = (int)c.draw(3); for (int k = 0; k < na; k++) {
    MArr a; bool big = c.flag(0.02);
    a.sz = c.flag(0.1) ? 0 : 1 + c.draw(big ? 400 : 40); a.str = a.sz + (c.flag(0.6) ? 0 : c.draw(30)); a.n = c.flag(0.15) ? 0 : c.draw(big ? 8000 : 30); a.max = a.n + (c.flag() ? 0 : c.draw(30)); a.align = c.flag() ? 0 : 1ull << c.draw(12);
    a.bytes.resize(a.sz * a.n); for (size_t q = 0; q < a.bytes.size(); q++) a.bytes[q] = (char)r.next();
    m.arr.push_back(a); }
  int pos = find(all_, m.uid); if (pos < 0) pos = (int)all_.size();
  int nb = (int)c.draw(3); for (int k = 0; k < nb; k++) m.back.push_back(pos == 0 || c.flag(0.2) ? 0 : all_[c.draw(pos - 1)].uid);
  int nf = m.kind == 0 ? (int)c.draw(3) : 0; for (int k = 0; k < nf; k++) { int t = (int)c.draw(all_.size()); m.fwd.push_back(c.flag(0.2) ? 0 : t < (int)all_.size() ? all_[t].uid : m.uid); }
  m.sym = c.flag(0.03) ? 5 : (int)c.draw(4);
}
static void verify(pbt::Ctx &c, const Model &m, const std::vector<size_t> &dead_ids, const std::vector<void *> &dead_ptrs, bool with_fwd) {
  for (size_t k = 0; k < m.size() && !c.failed; k++) {
    const MNode &a = m[k]; Node *n = real[a.uid];
    if (object_id(n) != a.id) c.fail("object-id", "object %d: object_id gives %lu, expected %lu", (int)a.uid, (unsigned long)object_id(n), (unsigned long)a.id);
    if (object_ptr(a.id) != n) c.fail("object-ptr", "object %d: object_ptr(%lu) gives %p, expected %p", (int)a.uid, (unsigned long)a.id, object_ptr(a.id), (void *)n);
    if (n->uid != a.uid || n->kind != a.kind || n->c != a.c || n->i != a.i || memcmp(&n->f, &a.f, 4) || memcmp(&n->d, &a.d, 8) || n->wide != a.wide) c.fail("scalars", "object %d: scalar values differ", (int)a.uid);
    if (n->reanimated != a.reanim) c.fail("reanimate-count", "object %d reanimated %d times, expected %d", (int)a.uid, n->reanimated, a.reanim);
    if (n->nstr != (int)a.str.size() || n->narr != (int)a.arr.size() || n->nback != (int)a.back.size() || n->nfwd != (int)a.fwd.size()) { c.fail("scalars", "object %d: part counts differ", (int)a.uid); break; }
    for (int j = 0; j < n->nstr; j++) if (a.str[j].first ? n->str[j] != NULL : n->str[j] == NULL || a.str[j].second != n->str[j]) c.fail("string", "object %d string %d differs (length %d, null %d)", (int)a.uid, j, (int)a.str[j].second.size(), a.str[j].first);
    for (int j = 0; j < n->narr; j++) {
      const MArr &x = a.arr[j]; Arr &y = n->arr[j];
      for (uint64_t e = 0; e < x.n && x.sz; e++) if (memcmp(y.data + e * x.str, &x.bytes[e * x.sz], x.sz)) { c.fail("array-data", "object %d array %d (size %d stride %d n %d max %d align %d): element %d differs", (int)a.uid, j, (int)x.sz, (int)x.str, (int)x.n, (int)x.max, (int)x.align, (int)e); break; }
      if (x.max * x.str && !y.data) { c.fail("array-capacity", "object %d array %d has no storage", (int)a.uid, j); continue; }
      if (x.align && (size_t)y.data % x.align) c.fail("array-align", "object %d array %d is not aligned to %d", (int)a.uid, j, (int)x.align);
      if (x.max * x.str && !x.align && malloc_usable_size(y.data) < x.max * x.str) c.fail("array-capacity", "object %d array %d: capacity %d bytes, requested %d", (int)a.uid, j, (int)malloc_usable_size(y.data), (int)(x.max * x.str));
      // the whole capacity must be usable: write the spare part (checked by the allocator / sanitizer), keep the elements
      for (uint64_t e = 0; e < x.max; e++) { uint64_t from = e < x.n ? x.sz : 0; if (x.str > from) memset(y.data + e * x.str + from, 0x3c, x.str - from); }
    }
    for (int j = 0; j < n->nback; j++) { Node *w = a.back[j] ? real[a.back[j]] : NULL; if (n->back[j] != w) c.fail("backward-pointer", "object %d backward pointer %d: wrong object", (int)a.uid, j); }
    if (with_fwd) for (int j = 0; j < n->nfwd; j++) { Node *w = a.fwd[j] ? real[a.fwd[j]] : NULL; if (n->fwd[j] != w) c.fail("forward-pointer", "object %d forward pointer %d: wrong object", (int)a.uid, j); }
    if (n->sym != SYM[a.sym]) c.fail("symbol", "object %d: symbol %d restored as %p, expected %p", (int)a.uid, a.sym, n->sym, SYM[a.sym]);
  }
  for (size_t k = 0; k < dead_ids.size() && !c.failed; k++) if (object_ptr(dead_ids[k])) c.fail("unregister", "id %lu still resolves after its object was unregistered", (unsigned long)dead_ids[k]);
  for (size_t k = 0; k < dead_ptrs.size() && !c.failed; k++) if (object_id(dead_ptrs[k])) c.fail("unregister", "an unregistered address still has an id");
  if (object_ptr(0)) c.fail("object-ptr", "id 0 resolves to an object");
  if (object_id(&lg)) c.fail("object-id", "an address never registered has an id");
}
static void check_order(pbt::Ctx &c, const Model &m, int what, const char *name) {
  std::vector<uint64_t> want; for (size_t k = 0; k < m.size(); k++) if (what == 2 ? m[k].kind == 0 || m[k].kind == 3 : m[k].kind < 2) want.push_back(m[k].uid);
  std::vector<uint64_t> got; for (size_t k = 0; k < lg.size(); k++) if (lg[k].what == what) got.push_back(lg[k].uid);
  if (got != want) { std::string g, w; char b[20]; for (size_t k = 0; k < got.size(); k++) sprintf(b, "%d ", (int)got[k]), g += b; for (size_t k = 0; k < want.size(); k++) sprintf(b, "%d ", (int)want[k]), w += b; c.fail("hook-order", "%s hooks ran for objects [%s], expected exactly [%s]", name, g.c_str(), w.c_str()); }
  if (got.size() != lg.size()) c.fail("hook-order", "other hooks ran during %s", name);
}
void pbt_setup() { mallopt(M_PERTURB, 0x5b); }
void pbt_teardown() {}
void pbt_case(pbt::Ctx &c) {
  Model m; real.clear(); statics.clear(); bad_ptr = false; uint64_t next_uid = 1; std::vector<size_t> dead; std::vector<void *> deadp; std::vector<Node *> graveyard;
  struct Ck { Model m; std::string f; std::vector<size_t> dead; size_t max_id; }; std::vector<Ck> cks; size_t max_id = 0;
  int nop = 2 + (int)c.draw(14); int nreg = 0, nck = 0, nres = 0, nun = 0;
  c.note("%d operations: ", nop);
  for (int o = 0; o < nop && !c.failed; o++) {
    int op; { std::vector<int> w(5); w[0] = 6; w[1] = m.empty() ? 0 : 3; w[2] = m.empty() ? 0 : 2; w[3] = 2; w[4] = cks.empty() ? 0 : 3; op = c.pickw(w); if (op == 3 && o == nop - 1) op = 0; if (o == nop - 1 && !cks.empty()) op = 4; }
    if (op == 0) { // register a group of objects: all of them exist before the contents are set, so forward references may point ahead
      int k = 1 + (int)c.draw(4); Model add; c.note("register %d; ", k); nreg += k;
      for (int j = 0; j < k; j++) { MNode x; x.uid = next_uid++; std::vector<int> w(4); w[0] = 6; w[1] = 4; w[2] = 1; w[3] = 1; x.kind = c.pickw(w); x.reanim = 0; x.id = 0; x.sym = 0; x.c = 0; x.i = 0; x.f = 0; x.d = 0; x.wide = 0;
        Node *n; MALLOC(n, 1); memset(n, 0, sizeof *n); n->uid = x.uid; n->kind = x.kind; real[x.uid] = n; if (x.kind >= 2) statics[x.uid] = n;
        if (x.kind == 0) REGISTER_OBJECT(n, c14_checkpt, c14_restore, c14_reanimate); else if (x.kind == 1) REGISTER_OBJECT(n, c14_checkpt, c14_restore, NULL); else if (x.kind == 2) REGISTER_OBJECT(n, NULL, NULL, NULL); else REGISTER_OBJECT(n, NULL, NULL, c14_reanimate);
        x.id = object_id(n); if (!x.id || x.id <= max_id) c.fail("object-id", "a new object got id %lu, ids up to %lu were already given out", (unsigned long)x.id, (unsigned long)max_id); max_id = std::max(max_id, x.id);
        m.push_back(x); add.push_back(x); }
      for (int j = 0; j < k; j++) { int p = find(m, add[j].uid); MNode x = m[p]; if (x.kind < 2) gen_content(c, x, m); m[p] = x; fill_real(real[x.uid], x); }
    } else if (op == 1) { // unregister and destroy some objects; pointers to them are cleared by their owners first
      int k = (int)c.draw(m.size() - 1); int j = c.flag(0.3) ? (int)c.draw(1) * ((int)m.size() - 1) : k; uint64_t u = m[j].uid; Node *n = real[u]; c.note("unregister %d; ", (int)u); nun++;
      for (size_t q = 0; q < m.size(); q++) { Node *z = real[m[q].uid]; for (size_t e = 0; e < m[q].back.size(); e++) if (m[q].back[e] == u) { m[q].back[e] = 0; z->back[e] = NULL; } for (size_t e = 0; e < m[q].fwd.size(); e++) if (m[q].fwd[e] == u) { m[q].fwd[e] = 0; z->fwd[e] = NULL; } }
      UNREGISTER_OBJECT(n); dead.push_back(m[j].id); deadp.push_back(n); graveyard.push_back(n); m.erase(m.begin() + j);
    } else if (op == 2) { // change the contents of an object
      int j = (int)c.draw(m.size() - 1); if (m[j].kind < 2) { c.note("modify %d; ", (int)m[j].uid); MNode x = m[j]; Node *n = real[x.uid]; free_parts(n); gen_content(c, x, m); m[j] = x; fill_real(n, x); }
    } else if (op == 3) {
      Ck k; char b[500]; snprintf(b, sizeof b, "%s/ck%ld.%d", c.scratch.c_str(), file_no++, pbt::rank()); k.f = b; c.note("checkpoint %d; ", (int)cks.size()); nck++;
      lg.clear(); checkpt_objects(b); check_order(c, m, 0, "checkpoint"); k.m = m; k.dead = dead; k.max_id = max_id; cks.push_back(k);
    } else {
      int j = (int)c.draw(cks.size() - 1); Ck &k = cks[j]; c.note("restore %d; ", j); nres++;
      // objects without a restore function are restored as the address they had
      std::map<uint64_t, Node *> old = real; real.clear();
      for (size_t q = 0; q < m.size(); q++) if (m[q].kind < 2) { Node *n = old[m[q].uid]; free_parts(n); FREE(n); } // dropped silently; their memory may be reused by the restored objects
      lg.clear(); bad_ptr = false; restore_objects(k.f.c_str());
      if (bad_ptr) { c.fail("restore", "%s", bad_what.c_str()); break; }
      m = k.m; dead = k.dead; deadp.clear(); max_id = k.max_id; check_order(c, m, 1, "restore");
      for (size_t q = 0; q < m.size(); q++) { Node *n = (Node *)object_ptr(m[q].id); if (!n) { c.fail("object-ptr", "object %d is missing after the restore", (int)m[q].uid); break; } if (m[q].kind >= 2 && n != statics[m[q].uid]) c.fail("object-ptr", "an object without restore function changed its address"); real[m[q].uid] = n; m[q].reanim = m[q].kind < 2 ? k.m[q].reanim : n->reanimated; }
      if (c.failed) break;
      verify(c, m, dead, deadp, false);
      if (c.failed) break;
      lg.clear(); reanimate_objects(); if (bad_ptr) { c.fail("reanimate", "%s", bad_what.c_str()); break; }
      check_order(c, m, 2, "reanimation"); for (size_t q = 0; q < m.size(); q++) if (m[q].kind == 0 || m[q].kind == 3) m[q].reanim++;
    }
    if (!c.failed) verify(c, m, dead, deadp, true);
  }
  while (!m.empty()) { size_t j = c.failed ? 0 : c.draw(m.size() - 1); Node *n = real[m[j].uid]; if (!c.failed || object_id(n)) UNREGISTER_OBJECT(n); dead.push_back(m[j].id); m.erase(m.begin() + j); if (!c.failed) verify(c, m, dead, deadp, false); }
  for (size_t j = 0; j < cks.size(); j++) unlink(cks[j].f.c_str());
  pbt::barrier();
  if (nreg > 2 && nres) c.nontrivial();
  c.label(nres > 1 ? "several-restores" : nres ? "restore" : nck ? "checkpoint-only" : "registry-only"); if (nun) c.label("unregister");
}

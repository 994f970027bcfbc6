// C24: message ports, turnstiles and collectives.
#include "fieldref.h"
#include <time.h>
#include <unistd.h>
const char *pbt_check_name = "C24";
void pbt_setup() {}
void pbt_teardown() {}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static void busy(int us) { double t = now() + 1e-6 * us; while (now() < t) ; }
static unsigned char byte_of(uint64_t s, int m, int i) { return (unsigned char)(pbt::SplitMix(s + 1000003ull * m + i).next() >> 24); }
struct Msg { int src, dst, tag, size, obj_s, obj_r, port_s, port_r, state_s, state_r; int grow_s, grow_r; }; // state: 0 idle, 1 begun, 2 ended
struct Ev { int rank, kind, m; }; // 0 begin_recv 1 begin_send 2 end_recv 3 end_send

static void ports_case(pbt::Ctx &c) {
  int P = pbt::nranks(), r = pbt::rank(), nobj = 1 + (int)c.draw(1), nport = 1 + (int)c.draw(7), nmsg = 1 + (int)c.draw(c.flag(0.3) ? 60 : 12), ntag = 1 + (int)c.draw(5); uint64_t s = c.draw(0xffffff); std::vector<Msg> M(nmsg); bool big = c.flag(0.1);
  for (int i = 0; i < nmsg; i++) { Msg &m = M[i]; memset(&m, 0, sizeof m); m.src = (int)c.draw(P - 1); m.dst = (int)c.draw(P - 1); m.tag = (int)c.draw(ntag - 1); m.size = 1 + (int)c.draw(big ? 300000 : c.flag(0.3) ? 5000 : 40); m.obj_s = (int)c.draw(nobj - 1); m.obj_r = (int)c.draw(nobj - 1); m.port_s = (int)c.draw(nport - 1); m.port_r = (int)c.draw(nport - 1); m.grow_s = c.flag(0.3) ? (int)c.draw(2 * m.size) : 0; m.grow_r = c.flag(0.3) ? (int)c.draw(2 * m.size) : 0; }
  // a global order of events in which every wait is for something already under way on both sides
  std::vector<Ev> ev; std::vector<int> busy_s(P * nobj * nport, -1), busy_r(P * nobj * nport, -1); pbt::SplitMix rg(c.draw(0xffffff));
  for (;;) {
    std::vector<Ev> can;
    for (int i = 0; i < nmsg; i++) {
      Msg &m = M[i]; bool fs = true, fr = true; for (int j = 0; j < i; j++) if (M[j].src == m.src && M[j].dst == m.dst && M[j].tag == m.tag) { if (!M[j].state_s) fs = false; if (!M[j].state_r) fr = false; }
      Ev e; e.m = i; if (!m.state_r && fr && busy_r[(m.dst * nobj + m.obj_r) * nport + m.port_r] < 0) { e.rank = m.dst; e.kind = 0; can.push_back(e); } if (!m.state_s && fs && busy_s[(m.src * nobj + m.obj_s) * nport + m.port_s] < 0) { e.rank = m.src; e.kind = 1; can.push_back(e); }
      if (m.state_s && m.state_r) { if (m.state_r == 1) { e.rank = m.dst; e.kind = 2; can.push_back(e); } if (m.state_s == 1) { e.rank = m.src; e.kind = 3; can.push_back(e); } }
    }
    if (can.empty()) break; Ev e = can[rg.next() % can.size()]; Msg &m = M[e.m]; ev.push_back(e);
    if (e.kind == 0) m.state_r = 1, busy_r[(m.dst * nobj + m.obj_r) * nport + m.port_r] = e.m; if (e.kind == 1) m.state_s = 1, busy_s[(m.src * nobj + m.obj_s) * nport + m.port_s] = e.m; if (e.kind == 2) m.state_r = 2, busy_r[(m.dst * nobj + m.obj_r) * nport + m.port_r] = -1; if (e.kind == 3) m.state_s = 2, busy_s[(m.src * nobj + m.obj_s) * nport + m.port_s] = -1;
  }
  // a port can stay blocked by a message whose partner waits for another one: such messages are left out
  std::vector<char> drop(nmsg, 0); for (int i = 0; i < nmsg; i++) if (M[i].state_s != 2 || M[i].state_r != 2) drop[i] = 1; int nd = 0; for (int i = 0; i < nmsg; i++) nd += drop[i];
  c.note("%d messages (%d unpaired) over %d ports of %d objects, %d tags; ", nmsg, nd, nport, nobj, ntag);
  if (nd) { // remove whatever is not complete, together with every later message of the same (src, dst, tag)
    std::vector<Ev> k; for (size_t i = 0; i < ev.size(); i++) if (!drop[ev[i].m]) k.push_back(ev[i]); ev = k;
  }
  std::vector<mp_t *> O(nobj); for (int o = 0; o < nobj; o++) { O[o] = new_mp(nport); for (int p = 0; p < nport; p++) if (mp_recv_buffer(O[o], p) || mp_send_buffer(O[o], p)) c.fail("fresh", "a fresh port has a buffer"); }
  std::vector<std::vector<unsigned char> > keep(nobj * nport), keeps(nobj * nport); int mine = 0; // what the receive (send) buffers hold
  for (size_t i = 0; i < ev.size(); i++) {
    Ev &e = ev[i]; if (e.rank != r) continue; Msg &m = M[e.m]; mine++; if (hunit(s, 9, (int)i, r, 0) > 0.9) busy(30);
    if (e.kind == 0) {
      mp_size_recv_buffer(O[m.obj_r], m.port_r, m.size); unsigned char *b = (unsigned char *)mp_recv_buffer(O[m.obj_r], m.port_r); std::vector<unsigned char> &k = keep[m.obj_r * nport + m.port_r]; if (!c.failed && (!b || ((uintptr_t)b & 127))) c.fail("align", "receive buffer %p", b); if (!c.failed && !k.empty() && memcmp(b, &k[0], k.size())) c.fail("grow", "receive buffer lost its %d bytes when grown to %d", (int)k.size(), m.size);
      mp_begin_recv(O[m.obj_r], m.port_r, m.size, m.src, m.tag);
    } else if (e.kind == 1) {
      std::vector<unsigned char> &k = keeps[m.obj_s * nport + m.port_s]; int half = m.grow_s ? std::max(1, std::min(m.size, m.grow_s / 2)) : 0; mp_size_send_buffer(O[m.obj_s], m.port_s, half ? half : m.size); unsigned char *b = (unsigned char *)mp_send_buffer(O[m.obj_s], m.port_s); if (!c.failed && (!b || ((uintptr_t)b & 127))) c.fail("align", "send buffer %p", b); if (!c.failed && !k.empty() && memcmp(b, &k[0], k.size())) c.fail("grow", "send buffer lost its %d bytes when sized to %d", (int)k.size(), m.size);
      int w = 0; for (; w < (half ? half : m.size); w++) b[w] = byte_of(s, e.m, w); if (half) { mp_size_send_buffer(O[m.obj_s], m.port_s, m.size); b = (unsigned char *)mp_send_buffer(O[m.obj_s], m.port_s); for (int j = 0; j < half && !c.failed; j++) if (b[j] != byte_of(s, e.m, j)) c.fail("grow", "send buffer lost byte %d of %d when grown to %d", j, half, m.size); for (; w < m.size; w++) b[w] = byte_of(s, e.m, w); }
      k.resize(m.size); memcpy(&k[0], b, m.size); mp_begin_send(O[m.obj_s], m.port_s, m.size, m.dst, m.tag);
    } else if (e.kind == 2) {
      mp_end_recv(O[m.obj_r], m.port_r); unsigned char *b = (unsigned char *)mp_recv_buffer(O[m.obj_r], m.port_r); for (int j = 0; j < m.size && !c.failed; j++) if (b[j] != byte_of(s, e.m, j)) c.fail("data", "message %d (%d bytes, %d to %d, tag %d): byte %d arrived as %d, sent as %d", e.m, m.size, m.src, m.dst, m.tag, j, b[j], byte_of(s, e.m, j));
      if (m.grow_r && !c.failed) { mp_size_recv_buffer(O[m.obj_r], m.port_r, m.grow_r); b = (unsigned char *)mp_recv_buffer(O[m.obj_r], m.port_r); for (int j = 0; j < m.size && !c.failed; j++) if (b[j] != byte_of(s, e.m, j)) c.fail("grow", "a received message lost byte %d of %d when its buffer was sized to %d", j, m.size, m.grow_r); }
      std::vector<unsigned char> &k = keep[m.obj_r * nport + m.port_r]; k.assign(b, b + m.size);
    } else { mp_end_send(O[m.obj_s], m.port_s); unsigned char *b = (unsigned char *)mp_send_buffer(O[m.obj_s], m.port_s); if (!c.failed && memcmp(b, &keeps[m.obj_s * nport + m.port_s][0], m.size)) c.fail("send-kept", "a send changed its buffer"); }
  }
  pbt::any_rank(c.failed); if (ev.size() > 4) c.nontrivial(); c.label("ports"); for (int o = 0; o < nobj; o++) delete_mp(O[o]);
}

static void grid_case(pbt::Ctx &c) {
  GeoOpt o; o.maxn = 2; Geo q = gen_geo(c, o); grid_t *g = geo_grid(q); int P = pbt::nranks(), r = pbt::rank(), rounds = 1 + (int)c.draw(2); (void)P; int ix[3]; q.rank_index(r, ix); c.label("grid ports"); c.note("%s", q.str().c_str()); uint64_t s = c.draw(0xffffff); bool some = false;
  for (int rd = 0; rd < rounds; rd++) {
    uint64_t hs = c.draw(0xffffff); std::vector<int> a, b; for (int k = 0; k < 12; k++) a.push_back(k), b.push_back(k);
    for (int k = 11; k > 0; k--) { std::swap(a[k], a[(int)((hunit(hs, 1, k, r, 0) + 1) * 0.49999 * (k + 1))]); std::swap(b[k], b[(int)((hunit(hs, 2, k, r, 0) + 1) * 0.49999 * (k + 1))]); }
    auto size_of = [&](int from, int f) { return 1 + (int)((hunit(hs, 3, from, f, 0) + 1) * (hunit(hs, 4, from, f, 0) > 0.8 ? 4000 : 40)); };
    static const int D[6][3] = {{-1, 0, 0}, {0, -1, 0}, {0, 0, -1}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; int nbr[6]; for (int f = 0; f < 6; f++) { int ax = f % 3, j[3] = {ix[0], ix[1], ix[2]}; j[ax] += f < 3 ? -1 : 1; bool out = j[ax] < 0 || j[ax] >= q.gp[ax]; j[ax] = (j[ax] + q.gp[ax]) % q.gp[ax]; nbr[f] = out && !q.periodic(ax) ? -1 : j[0] + q.gp[0] * (j[1] + q.gp[1] * j[2]); some |= nbr[f] >= 0; }
    for (int k = 0; k < 12; k++) {
      int f = a[k] % 6, i = D[f][0], j = D[f][1], l = D[f][2]; // direction of travel
      if (a[k] < 6) { int from = nbr[(f + 3) % 6]; begin_recv_port(i, j, l, from >= 0 ? size_of(from, f) : 8, g); }
      else { int n = size_of(r, f); unsigned char *p = (unsigned char *)size_send_port(i, j, l, n, g); if ((p == NULL) != (nbr[f] < 0)) { if (!c.failed) c.fail("wall-port", "size_send_port of face %d returned %p, neighbour %d", f, p, nbr[f]); continue; } if (p) for (int t = 0; t < n; t++) p[t] = byte_of(s + rd, r * 6 + f, t); begin_send_port(i, j, l, n, g); }
    }
    for (int k = 0; k < 12; k++) {
      int f = b[k] % 6, i = D[f][0], j = D[f][1], l = D[f][2];
      if (b[k] < 6) { int from = nbr[(f + 3) % 6]; unsigned char *p = (unsigned char *)end_recv_port(i, j, l, g); if ((p == NULL) != (from < 0)) { if (!c.failed) c.fail("wall-port", "end_recv_port in direction %d returned %p, neighbour %d", f, p, from); continue; } if (p) { int n = size_of(from, f); for (int t = 0; t < n && !c.failed; t++) if (p[t] != byte_of(s + rd, from * 6 + f, t)) c.fail("grid-data", "round %d: the message sent by rank %d in direction %d arrived wrong at byte %d of %d", rd, from, f, t, n); } }
      else end_send_port(i, j, l, g);
    }
    if (pbt::any_rank(c.failed)) break;
  }
  if (some) c.nontrivial(); delete_grid(g);
}

static void coll_case(pbt::Ctx &c) {
  int P = pbt::nranks(), r = pbt::rank(), nop = 1 + (int)c.draw(7); c.label("collectives"); c.nontrivial();
  for (int op = 0; op < nop; op++) {
    uint64_t hs = c.draw(0xffffff); int kind = (int)c.draw(6), n = 1 + (int)c.draw(c.flag(0.2) ? 3000 : 8); auto H = [&](int rank, int i) { return hunit(hs, 1, rank, i, 0); };
    static const char *nm[] = {"allsum_d", "allsum_i", "allgather_i", "allgather_i64", "gather_uc", "barrier", "turnstile"}; c.note("%s %d; ", nm[kind], n);
    if (kind == 0) { std::vector<double> a(n), b(n + 2, -7); for (int i = 0; i < n; i++) a[i] = floor(H(r, i) * 1e6) / 1024; std::vector<double> a0 = a; mp_allsum_d(&a[0], &b[1], n); for (int i = 0; i < n && !c.failed; i++) { double e = 0; for (int k = 0; k < P; k++) e += floor(H(k, i) * 1e6) / 1024; if (b[i + 1] != e || a[i] != a0[i]) c.fail("allsum_d", "element %d of %d sums to %.17g, expected %.17g", i, n, b[i + 1], e); } if (!c.failed && (b[0] != -7 || b[n + 1] != -7)) c.fail("allsum_d", "wrote outside the result"); }
    if (kind == 1) { std::vector<int> a(n), b(n + 2, -7); for (int i = 0; i < n; i++) a[i] = (int)(H(r, i) * 2e8); mp_allsum_i(&a[0], &b[1], n); for (int i = 0; i < n && !c.failed; i++) { int e = 0; for (int k = 0; k < P; k++) e += (int)(H(k, i) * 2e8); if (b[i + 1] != e) c.fail("allsum_i", "element %d of %d sums to %d, expected %d", i, n, b[i + 1], e); } if (!c.failed && (b[0] != -7 || b[n + 1] != -7)) c.fail("allsum_i", "wrote outside the result"); }
    if (kind == 2) { std::vector<int> a(n), b(n * P + 2, -7); for (int i = 0; i < n; i++) a[i] = (int)(H(r, i) * 2147483647.); mp_allgather_i(&a[0], &b[1], n); for (int k = 0; k < P; k++) for (int i = 0; i < n && !c.failed; i++) if (b[1 + k * n + i] != (int)(H(k, i) * 2147483647.)) c.fail("allgather_i", "element %d of rank %d is %d", i, k, b[1 + k * n + i]); if (!c.failed && (b[0] != -7 || b[n * P + 1] != -7)) c.fail("allgather_i", "wrote outside the result"); }
    if (kind == 3) { std::vector<int64_t> a(n), b(n * P + 2, -7); for (int i = 0; i < n; i++) a[i] = (int64_t)(H(r, i) * 9e18); mp_allgather_i64(&a[0], &b[1], n); for (int k = 0; k < P; k++) for (int i = 0; i < n && !c.failed; i++) if (b[1 + k * n + i] != (int64_t)(H(k, i) * 9e18)) c.fail("allgather_i64", "element %d of rank %d is %ld", i, k, (long)b[1 + k * n + i]); if (!c.failed && (b[0] != -7 || b[n * P + 1] != -7)) c.fail("allgather_i64", "wrote outside the result"); }
    if (kind == 4) { std::vector<unsigned char> a(n), b(n * P + 2, 77); for (int i = 0; i < n; i++) a[i] = byte_of(hs, r, i); bool null = c.flag(); mp_gather_uc(&a[0], r == 0 || !null ? &b[1] : NULL, n); if (r == 0) for (int k = 0; k < P; k++) for (int i = 0; i < n && !c.failed; i++) if (b[1 + k * n + i] != byte_of(hs, k, i)) c.fail("gather_uc", "byte %d of rank %d is %d", i, k, b[1 + k * n + i]); if (!c.failed && (b[0] != 77 || b[n * P + 1] != 77)) c.fail("gather_uc", "wrote outside the result"); }
    if (kind == 5) { double t[2]; if (H(r, 1) > 0.5) busy(50 + (int)(100 * (H(r, 2) + 1))); t[0] = now(); mp_barrier(); t[1] = now(); std::vector<double> v(t, t + 2), all = pbt::allgatherv(v); double in = 0, out = 1e300; for (int k = 0; k < P; k++) in = std::max(in, all[2 * k]), out = std::min(out, all[2 * k + 1]); if (in > out) c.fail("barrier", "a rank left the barrier %g s before another entered it", in - out); }
    if (kind == 6) { int nt = 1 + (int)c.draw(P - 1), ran = 0; double t[2] = {0, 0}; if (H(r, 1) > 0.5) busy(50); BEGIN_TURNSTILE(nt) { t[0] = now(); busy(20 + (int)(20 * (H(r, 2) + 1))); ran++; t[1] = now(); } END_TURNSTILE; std::vector<double> v(t, t + 2), all = pbt::allgatherv(v); if (ran != 1) c.fail("turnstile", "the body ran %d times", ran); for (int k = 0; k < P && !c.failed; k++) { int in = 0; for (int m = 0; m < P; m++) if (all[2 * m] <= all[2 * k] && all[2 * k] < all[2 * m + 1]) in++; if (in > nt) c.fail("turnstile", "%d processes are inside a turnstile of %d", in, nt); } c.note("turnstile of %d; ", nt); }
    if (pbt::any_rank(c.failed)) break;
  }
}
void pbt_case(pbt::Ctx &c) { std::vector<int> w(3); w[0] = 4; w[1] = 3; w[2] = 3; int k = c.pickw(w); if (k == 0) ports_case(c); else if (k == 1) grid_case(c); else coll_case(c); }

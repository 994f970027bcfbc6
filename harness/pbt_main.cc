#include "pbt.h"
#include "util/util.h"
#include <mpi.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdlib.h>
#include <time.h>

namespace pbt {
int argc; char **argv; std::map<std::string, std::string> opt;
static MPI_Comm comm = MPI_COMM_WORLD;
static int g_rank = 0, g_n = 1;
struct State { volatile int64_t idx, n, done, pad; volatile uint64_t ch[1 << 17]; };
static State *state;

int rank() { return g_rank; }
int nranks() { return g_n; }
void barrier() { MPI_Barrier(comm); }
bool any_rank(bool b) { int i = b, o = 0; MPI_Allreduce(&i, &o, 1, MPI_INT, MPI_MAX, comm); return o != 0; }
double max_rank(double v) { double o; MPI_Allreduce(&v, &o, 1, MPI_DOUBLE, MPI_MAX, comm); return o; }
double sum_rank(double v) { double o; MPI_Allreduce(&v, &o, 1, MPI_DOUBLE, MPI_SUM, comm); return o; }
long sum_rank_i(long v) { long o; MPI_Allreduce(&v, &o, 1, MPI_LONG, MPI_SUM, comm); return o; }
std::vector<char> allgatherv(const void *p, size_t n, std::vector<size_t> *counts) {
  int m = (int)n; std::vector<int> c(g_n), d(g_n); MPI_Allgather(&m, 1, MPI_INT, &c[0], 1, MPI_INT, comm);
  size_t t = 0; for (int i = 0; i < g_n; i++) { d[i] = (int)t; t += c[i]; }
  std::vector<char> o(t + 1);
  MPI_Allgatherv((void *)p, m, MPI_BYTE, &o[0], &c[0], &d[0], MPI_BYTE, comm);
  o.resize(t);
  if (counts) counts->assign(c.begin(), c.end());
  return o;
}

uint64_t Ctx::draw(uint64_t max) {
  uint64_t v;
  if (replay) { v = pos < replay->size() ? (*replay)[pos] : 0; if (v > max) v = max; }
  else if (max == ~0ull) v = rng.next();
  else v = (uint64_t)(((unsigned __int128)rng.next() * ((unsigned __int128)max + 1)) >> 64);
  pos++;
  rec.push_back(v);
  if (state && rec.size() <= (1u << 17)) { state->ch[rec.size() - 1] = v; state->n = rec.size(); }
  return v;
}
void Ctx::note(const char *fmt, ...) { char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); if (desc.size() < 6000) desc += b; }
void Ctx::fail(const char *k, const char *fmt, ...) {
  if (failed) return;
  char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  failed = true; key = k; msg = b;
}
static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size(); i++) { unsigned char ch = s[i]; if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) { char t[8]; sprintf(t, "\\u%04x", ch); o += t; } else o += ch; }
  return o + "\"";
}
static std::string jch(const std::vector<uint64_t> &v) { std::string o = "["; char t[32]; for (size_t i = 0; i < v.size(); i++) { sprintf(t, "%s%llu", i ? "," : "", (unsigned long long)v[i]); o += t; } return o + "]"; }
static uint64_t hash(const std::vector<uint64_t> &v) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < v.size(); i++) { h ^= v[i] + 0x9E3779B97F4A7C15ull + (h << 6); h *= 1099511628211ull; } return h; }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

// runs one case on all ranks and agrees on the verdict
static void run_case(Ctx &c) {
  pbt_case(c);
  int bad = c.failed ? g_rank : g_n, first = 0;
  MPI_Allreduce(&bad, &first, 1, MPI_INT, MPI_MIN, comm);
  if (first < g_n) {
    char b[4400]; memset(b, 0, sizeof b);
    if (g_rank == first) { snprintf(b, 200, "%s", c.key.c_str()); snprintf(b + 200, 4200, "[rank %d] %s", g_rank, c.msg.c_str()); }
    MPI_Bcast(b, sizeof b, MPI_CHAR, first, comm);
    c.failed = true; c.key = b; c.msg = b + 200;
  }
  int nt = c.nontriv, o; MPI_Allreduce(&nt, &o, 1, MPI_INT, MPI_MAX, comm); c.nontriv = o;
}
} // namespace pbt
using namespace pbt;

// a harness may provide another program under the same name (run as: EXE --pbt-program ...)
int pbt_program(int ac, char **av) __attribute__((weak));
int main(int ac, char **av) {
  if (ac > 1 && !strcmp(av[1], "--pbt-program") && pbt_program) { av[1] = av[0]; return pbt_program(ac - 1, av + 1); }
  uint64_t seed = 1; long cases = 10, start = 0; double seconds = 1e9; std::string outf, statef, replayf, scratch = "/tmp", knownf;
  std::vector<char *> rest; rest.push_back(av[0]);
  for (int i = 1; i < ac; i++) {
    std::string a = av[i];
    if (a == "--pbt-seed") seed = strtoull(av[++i], 0, 10);
    else if (a == "--pbt-cases") cases = atol(av[++i]);
    else if (a == "--pbt-start") start = atol(av[++i]);
    else if (a == "--pbt-seconds") seconds = atof(av[++i]);
    else if (a == "--pbt-out") outf = av[++i];
    else if (a == "--pbt-state") statef = av[++i];
    else if (a == "--pbt-replay") replayf = av[++i];
    else if (a == "--pbt-scratch") scratch = av[++i];
    else if (a == "--pbt-known") knownf = av[++i];
    else if (a == "--pbt-opt") { std::string kv = av[++i]; size_t e = kv.find('='); pbt::opt[kv.substr(0, e)] = e == std::string::npos ? "1" : kv.substr(e + 1); }
    else rest.push_back(av[i]);
  }
  rest.push_back(0);
  int bac = (int)rest.size() - 1; char **bav = &rest[0];
  boot_services(&bac, &bav);
  MPI_Comm_dup(MPI_COMM_WORLD, &comm);
  g_rank = world_rank; g_n = world_size;
  pbt::argc = bac; pbt::argv = bav;
  std::set<std::string> known;
  if (!knownf.empty()) { FILE *f = fopen(knownf.c_str(), "r"); char l[512]; if (f) { while (fgets(l, sizeof l, f)) { l[strcspn(l, "\n")] = 0; if (l[0]) known.insert(l); } fclose(f); } }
  if (g_rank == 0 && !statef.empty()) {
    int fd = open(statef.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (ftruncate(fd, sizeof(State)) == 0) state = (State *)mmap(0, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (state) state->idx = -1;
  }
  std::vector<std::vector<uint64_t> > cand;
  if (!replayf.empty()) {
    FILE *f = fopen(replayf.c_str(), "r"); if (!f) { fprintf(stderr, "no replay file\n"); exit(3); }
    std::string line; int ch;
    while ((ch = fgetc(f)) != EOF) { if (ch == '\n') { std::vector<uint64_t> v; const char *p = line.c_str(); char *e; for (;;) { unsigned long long x = strtoull(p, &e, 10); if (e == p) break; v.push_back(x); p = e; } cand.push_back(v); line.clear(); } else line += (char)ch; }
    fclose(f); cases = (long)cand.size(); start = 0;
  }
  uint64_t nameh = 1469598103934665603ull; for (const char *p = pbt_check_name; *p; p++) nameh = (nameh ^ (unsigned char)*p) * 1099511628211ull;
  std::map<std::string, long> labels; std::set<uint64_t> nth; std::vector<std::string> samples; std::map<std::string, std::pair<long, std::string> > kn;
  long done = 0, nontriv = 0; std::string fails; double t0 = now(); bool stopped = false;
  pbt_setup();
  for (long i = start; i < start + cases; i++) {
    Ctx c; c.index = i; c.labels = &labels; c.scratch = scratch;
    if (!cand.empty()) c.replay = &cand[i];
    else { SplitMix m(seed * 0x9E3779B97F4A7C15ull ^ nameh); m.s += (uint64_t)i * 0xD1342543DE82EF95ull; m.next(); c.rng = SplitMix(m.next()); }
    if (state) { state->n = 0; state->idx = i; }
    run_case(c);
    done++;
    if (c.nontriv) { nontriv++; nth.insert(hash(c.rec)); if (g_rank == 0 && samples.size() < 3) samples.push_back(c.desc); }
    if (c.failed) {
      if (known.count(c.key)) { std::pair<long, std::string> &k = kn[c.key]; k.first++; k.second = c.msg; }
      else {
        char b[64]; sprintf(b, "{\"index\":%ld,", i);
        fails = std::string(b) + "\"key\":" + jstr(c.key) + ",\"msg\":" + jstr(c.msg) + ",\"desc\":" + jstr(c.desc) + ",\"choices\":" + jch(c.rec) + "}";
        stopped = true; break;
      }
    }
    int stop = g_rank == 0 && now() - t0 > seconds; MPI_Bcast(&stop, 1, MPI_INT, 0, comm);
    if (stop) break;
  }
  pbt_teardown();
  if (state) state->done = 1;
  if (g_rank == 0 && !outf.empty()) {
    FILE *f = fopen(outf.c_str(), "w");
    fprintf(f, "{\"done\":%ld,\"nontrivial\":%ld,\"distinct\":%ld,\"labels\":{", done, nontriv, (long)nth.size());
    int k = 0; for (std::map<std::string, long>::iterator it = labels.begin(); it != labels.end(); ++it) fprintf(f, "%s%s:%ld", k++ ? "," : "", jstr(it->first).c_str(), it->second);
    fprintf(f, "},\"hashes\":["); k = 0; for (std::set<uint64_t>::iterator it = nth.begin(); it != nth.end(); ++it) fprintf(f, "%s\"%llx\"", k++ ? "," : "", (unsigned long long)*it);
    fprintf(f, "],\"known\":{"); k = 0; for (std::map<std::string, std::pair<long, std::string> >::iterator it = kn.begin(); it != kn.end(); ++it) fprintf(f, "%s%s:[%ld,%s]", k++ ? "," : "", jstr(it->first).c_str(), it->second.first, jstr(it->second.second).c_str());
    fprintf(f, "},\"samples\":["); for (size_t j = 0; j < samples.size(); j++) fprintf(f, "%s%s", j ? "," : "", jstr(samples[j]).c_str());
    fprintf(f, "],\"fail\":%s}\n", fails.empty() ? "null" : fails.c_str());
    fclose(f);
  }
  MPI_Barrier(comm);
  fflush(0);
  MPI_Finalize();
  _exit(stopped ? 10 : 0);
}

// Minimal property-based testing core: a case is a sequence of recorded choices, so that every rank of
// an MPI job generates the identical case from (seed, case index) without communication, any case can be
// replayed from its choices, and shrinking is generic on the choice sequence (done by tools/runcheck.py).
#ifndef PBT_H
#define PBT_H
#include <stdint.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>

namespace pbt {

struct SplitMix {
  uint64_t s;
  explicit SplitMix(uint64_t seed = 0) : s(seed) {}
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  int irange(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); }
  bool flag(double p = 0.5) { return unit() < p; }
  double normal() { double u = unit(), v = unit(); if (u < 1e-300) u = 1e-300; return sqrt(-2 * log(u)) * cos(6.283185307179586 * v); }
  // mostly ordinary values, sometimes corner ones
  double corner(double lo, double hi) { int k = irange(0, 11); if (k == 0) return lo; if (k == 1) return hi; if (k == 2) return 0.5 * (lo + hi); return real(lo, hi); }
};

struct Ctx {
  // choice sequence
  std::vector<uint64_t> rec;
  const std::vector<uint64_t> *replay;
  size_t pos;
  SplitMix rng;
  // outcome
  bool failed; std::string key, msg;
  bool nontriv; std::string desc;
  std::map<std::string, long> *labels;
  long index;
  std::string scratch; // per-run scratch directory
  Ctx() : replay(0), pos(0), rng(0), failed(false), nontriv(false), labels(0), index(0) {}

  uint64_t draw(uint64_t max); // in pbt_main.cc
  int irange(int lo, int hi) { return lo + (int)draw((uint64_t)(hi - lo)); }
  bool flag(double p = 0.5) { return draw(1023) >= (uint64_t)(1024 * (1 - p) + 0.5); }
  double unit() { return (double)draw((1u << 20)) / (double)(1u << 20); } // [0,1], 0 is simplest
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  // log-uniform in [lo,hi]
  double logreal(double lo, double hi) { return lo * pow(hi / lo, unit()); }
  template <class T> T pick(const std::vector<T> &v) { return v[draw(v.size() - 1)]; }
  int pickw(const std::vector<int> &w) { int t = 0; for (size_t i = 0; i < w.size(); i++) t += w[i]; int k = (int)draw(t - 1); for (size_t i = 0; i < w.size(); i++) { if (k < w[i]) return (int)i; k -= w[i]; } return 0; }
  SplitMix bulk() { return SplitMix(draw(0xffffffffull) * 2654435761ull + 12345); }

  void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
  void label(const std::string &s) { (*labels)[s]++; }
  void nontrivial() { nontriv = true; }
};

// true on all ranks iff b is true on any rank
bool any_rank(bool b);
double max_rank(double v);
double sum_rank(double v);
long sum_rank_i(long v);
void barrier();
int rank();
int nranks();
// concatenate byte buffers of all ranks (in rank order) on every rank
std::vector<char> allgatherv(const void *p, size_t n, std::vector<size_t> *counts = 0);
template <class T> std::vector<T> allgatherv(const std::vector<T> &v, std::vector<size_t> *counts = 0) {
  std::vector<char> b = allgatherv(v.empty() ? 0 : &v[0], v.size() * sizeof(T), counts);
  std::vector<T> o(b.size() / sizeof(T)); if (!b.empty()) memcpy(&o[0], &b[0], b.size());
  if (counts) for (size_t i = 0; i < counts->size(); i++) (*counts)[i] /= sizeof(T);
  return o;
}
extern int argc; extern char **argv; // arguments left for the check
extern std::map<std::string, std::string> opt; // --opt key=value
} // namespace pbt

// every harness defines these
extern const char *pbt_check_name;
void pbt_setup();
void pbt_case(pbt::Ctx &c);
void pbt_teardown();

#endif

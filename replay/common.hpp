// Common parts of the replay drivers: they run the real code of /repo on concrete inputs and compare with independent oracles.
// usage: driver <property> <seed> <cases> [case]
#pragma once
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <ctime>
#include <functional>
#include <limits>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <csignal>
#include <unistd.h>

struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; ++i) next(); }
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int i(int lo, int hi) { return lo + int(next() % uint64_t(hi - lo + 1)); }   // inclusive
  double u(double lo = -1, double hi = 1) { return lo + (hi - lo) * double(next() >> 11) / 9007199254740992.0; }
  bool b(double p = 0.5) { return u(0, 1) < p; }
  // small dyadic numbers: sums and products of a few of them are exact
  double d() { return double(i(-16, 16)) / 4.0; }
};

struct Fail { std::string msg; };

inline void expect(bool c, const std::string & m) { if (!c) throw Fail{m}; }
template<typename... T> std::string cat(const T &... t) { std::ostringstream o; o.precision(17); ((o << t), ...); return o.str(); }

inline const char * g_prop = "";
inline uint64_t g_seed = 0;
inline long g_case = 0;
inline void on_crash(int sig)
{
  char buf[256];
  int n = snprintf(buf, sizeof buf, "FAIL %s seed=%llu case=%ld: crash (signal %d)\n", g_prop, (unsigned long long)g_seed, g_case, sig);
  if (write(1, buf, n)) {}
  _exit(1);
}

// returns number of nontrivial cases through the int result of the case function
inline int drive(int argc, char ** argv, const std::map<std::string, std::function<int(Rng &, long)>> & props)
{
  if (argc < 4) { fprintf(stderr, "usage: %s property seed cases [case]\n", argv[0]); return 2; }
  g_prop = argv[1];
  g_seed = strtoull(argv[2], nullptr, 10);
  long n = atol(argv[3]);
  auto it = props.find(g_prop);
  if (it == props.end()) { fprintf(stderr, "unknown property\n"); return 2; }
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, on_crash);
  long lo = 0, hi = n, nontrivial = 0;
  if (argc > 4) { lo = atol(argv[4]); hi = lo + 1; }
  const double budget = getenv("FV_SECONDS") ? atof(getenv("FV_SECONDS")) : 1e9;
  const auto t0 = std::time(nullptr);
  long k = lo;
  for (; k < hi; ++k) {
    g_case = k;
    Rng r(g_seed * 1000003ull + k);
    try {
      nontrivial += it->second(r, k);
    } catch (const Fail & f) {
      printf("FAIL %s seed=%llu case=%ld: %s\n", g_prop, (unsigned long long)g_seed, k, f.msg.c_str());
      return 1;
    } catch (const std::exception & e) {
      printf("FAIL %s seed=%llu case=%ld: exception %s\n", g_prop, (unsigned long long)g_seed, k, e.what());
      return 1;
    }
    if (double(std::time(nullptr) - t0) > budget) { ++k; break; }
  }
  printf("OK cases=%ld nontrivial=%ld\n", k - lo, nontrivial);
  return 0;
}

// Runtime of the monitors: case generation, counters, verdicts, crash attribution.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

namespace vf {

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
  uint64_t u64() {
    s += 0x9e3779b97f4a7c15ULL;
    uint64_t x = s;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
  }
  double uni() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  // inclusive
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)(u64() % (uint64_t)(b - a + 1)); }
  bool chance(double p) { return uni() < p; }
  double logu(double lo, double hi) { return std::exp(std::log(lo) + uni() * (std::log(hi) - std::log(lo))); }
  double flat(double lo, double hi) { return lo + uni() * (hi - lo); }
  // the unit in which rates are given: nothing may depend on it
  double scale() {
    double u = uni();
    return u < 0.25 ? 1.0 : u < 0.8 ? logu(1e-9, 1e12) : logu(1e-25, 1e25);
  }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[u64() % v.size()];
  }
  template <typename T>
  void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[u64() % i]);
  }
};

struct Violation {
  std::string key, msg;
};

struct Ctx {
  Rng rng;
  uint64_t index;
  bool thorough;
  bool fast;  // built without sanitizers: longer statistics
  std::map<std::string, uint64_t> counters;
  uint64_t sig = 0;
  bool nontrivial = false;
  std::string sample;
  std::string trace;  // digest of the event log, compared between processes
  void event(const char* n, uint64_t k = 1) { counters[n] += k; }
  void mixsig(uint64_t v) { sig = mix(sig ^ v); }
  void mixsig(double v) {
    uint64_t u;
    memcpy(&u, &v, 8);
    mixsig(u);
  }
};

[[noreturn]] inline void fail(const std::string& key, const std::string& msg) { throw Violation{key, msg}; }

struct Msg {
  std::ostringstream o;
  Msg() { o.precision(17); }
  template <typename T>
  Msg& operator<<(const T& t) {
    o << t;
    return *this;
  }
  operator std::string() const { return o.str(); }
};

#define REQUIRE_THAT(cond, key, msg)                          \
  do {                                                        \
    if (!(cond)) vf::fail(key, std::string(vf::Msg() << msg)); \
  } while (0)

inline bool close(double a, double b, double rel, double abs_ = 0) {
  if (a == b) return true;
  if (!(std::isfinite(a) && std::isfinite(b))) return false;
  return std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + abs_;
}

// ---- rigorous statistical bounds: each alarms with probability < 2*exp(-LIM)
static const double LIM = 34.0;

inline double kl(double q, double p) {
  double r = 0;
  if (q > 0) r += q * std::log(q / p);
  if (q < 1) r += (1 - q) * std::log((1 - q) / (1 - p));
  return r;
}
// k successes out of n with success probability p (p uncertain by +-slack)
inline bool binomOk(double k, double n, double p, double slack = 0) {
  double q = k / n;
  double lo = std::max(0.0, p - slack), hi = std::min(1.0, p + slack);
  if (q >= lo && q <= hi) return true;
  double pp = q < lo ? lo : hi;
  if (pp <= 0) return k == 0;
  if (pp >= 1) return k == n;
  return n * kl(q, pp) <= LIM;
}
// mean of n exponentials of mean T
inline bool expMeanOk(double mean, double n, double T, double relslack = 0) {
  double lo = T * (1 - relslack), hi = T * (1 + relslack);
  if (mean >= lo && mean <= hi) return true;
  double r = mean < lo ? mean / lo : mean / hi;
  if (!(r > 0)) return false;
  return n * (r - 1 - std::log(r)) <= LIM;
}
// Dvoretzky-Kiefer-Wolfowitz against the exponential distribution
inline bool expShapeOk(std::vector<double> v, double T, double slack = 0) {
  std::sort(v.begin(), v.end());
  double n = (double)v.size(), d = 0;
  for (size_t i = 0; i < v.size(); ++i) {
    double F = 1 - std::exp(-v[i] / T);
    d = std::max(d, std::max(std::fabs(F - i / n), std::fabs(F - (i + 1) / n)));
  }
  d = std::max(0.0, d - slack);
  return 2 * n * d * d <= LIM;
}

typedef void (*CaseFn)(Ctx&);
struct Workload {
  const char* prop;
  const char* name;
  CaseFn fn;
  int weight;
};
inline std::vector<Workload>& registry() {
  static std::vector<Workload> r;
  return r;
}
struct Reg {
  Reg(const char* prop, const char* name, CaseFn fn, int weight) { registry().push_back({prop, name, fn, weight}); }
};
// WORKLOAD(C09, growth, 3) { ... uses Ctx& c ... }
#define WORKLOAD(PROP, NAME, W)                                      \
  static void wl_##PROP##_##NAME(vf::Ctx& c);                        \
  static vf::Reg reg_##PROP##_##NAME(#PROP, #NAME, wl_##PROP##_##NAME, W); \
  static void wl_##PROP##_##NAME(vf::Ctx& c)

inline std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (ch < 32 || ch >= 127) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else
      o += ch;
  }
  return o;
}

// distinct ids, sometimes small, sometimes negative/sparse/extreme
inline std::vector<int> makeIds(Rng& r, size_t n, bool allowMinusOne = true) {
  std::vector<int> out;
  std::set<int> seen;
  int mode = (int)r.range(0, 5);
  int base = mode == 1 ? 1 : mode == 0 ? 0 : (int)r.range(-1000, 1000);
  while (out.size() < n) {
    int id;
    if (mode <= 1)
      id = base + (int)out.size();
    else if (mode == 2)
      id = base + (int)out.size() * (int)r.range(1, 7);
    else if (mode == 3)
      id = (int)r.range(-2000000, 2000000);
    else if (mode == 4)
      id = (int)r.range(-50 - (int64_t)n, 50 + (int64_t)n);
    else
      id = r.chance(0.2) ? std::numeric_limits<int>::max() - (int)r.range(0, 100)
                         : r.chance(0.2) ? std::numeric_limits<int>::min() + 1 + (int)r.range(0, 100) : (int)r.range(-100000, 100000);
    if (id == std::numeric_limits<int>::min()) continue;
    if (!allowMinusOne && id == -1) {
      if (mode <= 2) base += 1000;
      continue;
    }
    if (seen.insert(id).second)
      out.push_back(id);
    else if (mode <= 2)
      base += 1;
  }
  if (r.chance(0.5)) r.shuffle(out);
  return out;
}

}  // namespace vf
#endif

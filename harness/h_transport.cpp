// C23: simulations assembled from a lattice, Marcus rates, walkers and a queue, the way the
// documentation does it, against the physics they stand for.
#include "chain.hpp"
#include "mythical/charge_transport/cuboid_lattice.hpp"
#include "mythical/charge_transport/marcus.hpp"
#include "mythical/coarsegrainsystem.hpp"
#include "mythical/constants.hpp"
#include "mythical/queue.hpp"
#include "mythical/walker.hpp"
using namespace vf;
using mythical::CoarseGrainSystem;
using mythical::Queue;
using mythical::Walker;
using mythical::charge_transport::BoundarySetting;
using mythical::charge_transport::Cuboid;
using mythical::charge_transport::Marcus;

typedef std::shared_ptr<Walker> WalkerPtr;
static const double KB = 8.617333262145e-5;

struct Device {
  int L, W, H, n;
  double d, cutoff, lambda, T, field;
  bool px, py, pz;
  std::vector<double> energy;
  std::unique_ptr<Cuboid> lattice;
  Store store;  // rates as handed to the library
  Graph g;      // own evaluation
  std::vector<int> sites;

  int x(int i) const { return i % L; }
  int y(int i) const { return i / L % W; }
  int z(int i) const { return i / (L * W); }
  static int image(int a, int len, bool periodic) {
    if (!periodic) return a;
    a %= len;
    if (a < 0) a += len;
    return 2 * a > len ? a - len : a;
  }
  // displacement from i to j along the field, the shorter way
  int dx(int i, int j) const { return image(x(j) - x(i), L, px); }
  double dist(int i, int j) const {
    double a = dx(i, j), b = image(y(j) - y(i), W, py), e = image(z(j) - z(i), H, pz);
    return std::sqrt(a * a + b * b + e * e) * d;
  }
};

// rates the way the time-of-flight example calculates them
static void makeRates(Ctx& c, Device& v, Rng& r) {
  Marcus marcus(v.lambda, v.T);
  double A = r.logu(1e-3, 1), alpha = r.flat(0.5, 4) / v.d;
  auto distances = v.lattice->getNeighborDistances(v.cutoff);
  for (auto& a : distances)
    for (auto& b : a.second) {
      double move = v.lattice->isXPeriodic() ? v.dx(a.first, b.first) : v.lattice->getX(b.first) - v.lattice->getX(a.first);
      double Ej = v.energy.at(b.first) - v.field * move * v.lattice->getLatticeSpacing();
      v.store[a.first][b.first] = marcus.getRate(v.energy.at(a.first), Ej, A * std::exp(-alpha * b.second));
    }
  // the same from scratch
  const double PI = 3.14159265358979323846, HB = 6.582119569e-16;
  for (int i = 0; i < v.n; ++i)
    for (int j = 0; j < v.n; ++j) {
      if (i == j) continue;
      double dist = v.dist(i, j);
      if (dist > v.cutoff) continue;
      double e = v.lambda + v.energy[j] - v.field * v.dx(i, j) * v.d - v.energy[i], h = A * std::exp(-alpha * dist);
      v.g[i][j] = 2 * PI / HB * h * h / std::sqrt(4 * PI * KB * v.T) * std::exp(-e * e / (4 * v.lambda * KB * v.T));
    }
  for (int i = 0; i < v.n; ++i) {
    REQUIRE_THAT(v.store.count(i) == v.g.count(i) && (!v.g.count(i) || v.store[i].size() == v.g[i].size()), "links", "site " << i << " of " << v.L << "x" << v.W << "x" << v.H << " has " << v.store[i].size() << " rates, expected " << v.g[i].size());
    for (auto& b : v.g[i]) REQUIRE_THAT(v.store[i].count(b.first) && close(v.store[i][b.first], b.second, 1e-5), "rates", "rate " << i << "->" << b.first << " is " << (v.store[i].count(b.first) ? v.store[i][b.first] : 0) << ", expected " << b.second);
  }
  c.event("links", distances.size());
}

static void makeDevice(Ctx& c, Device& v, int maxSites, int maxEdge, double disorder, bool field, bool collect, int dimers = 0) {
  Rng& r = c.rng;
  do {
    v.L = (int)r.range(2, maxEdge);
    v.W = (int)r.range(1, std::max(1, maxEdge - 1));
    v.H = (int)r.range(1, std::max(1, maxEdge - 2));
    v.n = v.L * v.W * v.H;
  } while (v.n < 3 || v.n > maxSites);
  v.d = r.logu(0.3, 3);
  v.cutoff = v.d * (r.chance(0.3) ? 1.05 : r.chance(0.5) ? 1.5 : r.chance(0.5) ? 1.8 : 2.05);
  v.lambda = r.flat(0.1, 0.5);
  v.T = r.flat(200, 600);
  v.px = !collect && (field || r.chance(0.5));
  v.py = r.chance(0.5);
  v.pz = r.chance(0.5);
  // the direction of a hop must be unambiguous
  if (v.px && field && v.L < 2 * (int)std::floor(v.cutoff / v.d) + 1) v.L = 2 * (int)std::floor(v.cutoff / v.d) + 1;
  v.n = v.L * v.W * v.H;
  v.field = field ? r.flat(0.1, 1.5) * KB * v.T / v.d * (r.chance(0.3) ? -1 : 1) : 0;
  double shift = r.flat(-3, 3);
  for (int i = 0; i < v.n; ++i) v.energy.push_back(shift + disorder * KB * v.T * (r.uni() + r.uni() + r.uni() - 1.5) * 2);
  auto b = [](bool p) { return p ? BoundarySetting::Periodic : BoundarySetting::Fixed; };
  v.lattice.reset(new Cuboid(v.L, v.W, v.H, v.d, b(v.px), b(v.py), b(v.pz)));
  // pairs of deep neighbouring sites
  for (int k = 0; k < dimers; ++k) {
    int s = (int)r.range(0, v.n - 1);
    double depth = KB * v.T * r.flat(4, 9);
    std::vector<int> nb = v.lattice->getNeighbors(s, v.d * 1.05);
    if (nb.empty()) continue;
    double level = v.energy[s] - depth;
    v.energy[s] = level;
    v.energy[r.pick(nb)] = level + KB * v.T * r.flat(-0.5, 0.5);
  }
  makeRates(c, v, r);
  for (int i = 0; i < v.n; ++i) v.sites.push_back(i);
}

static std::string name(const Device& v) {
  return Msg() << v.L << "x" << v.W << "x" << v.H << " sites, boundaries " << (v.px ? "p" : "f") << (v.py ? "p" : "f") << (v.pz ? "p" : "f") << ", cutoff " << v.cutoff / v.d << " spacings, " << v.T << " K, lambda " << v.lambda << " eV, field " << v.field;
}

struct Hopper {
  int id, site;
  WalkerPtr w;
};

static std::vector<std::pair<int, WalkerPtr>> place(CoarseGrainSystem& sys, std::vector<Hopper>& hs) {
  std::vector<std::pair<int, WalkerPtr>> v;
  for (auto& h : hs) {
    h.w = std::make_shared<Walker>();
    h.w->occupySite(h.site);
    v.emplace_back(h.id, h.w);
  }
  sys.initializeWalkers(v);
  return v;
}

// fractions of time on the sites in equilibrium, with k walkers that exclude each other
static std::vector<double> canonical(const Device& v, int k) {
  std::vector<LD> w(v.n);
  double lo = *std::min_element(v.energy.begin(), v.energy.end());
  for (int i = 0; i < v.n; ++i) w[i] = std::exp((LD)(lo - v.energy[i]) / (KB * v.T));
  auto e = [&](int without, int m) {
    std::vector<LD> p(m + 1, 0);
    p[0] = 1;
    for (int i = 0; i < v.n; ++i)
      if (i != without)
        for (int q = m; q >= 1; --q) p[q] += p[q - 1] * w[i];
    return p[m];
  };
  std::vector<double> f(v.n);
  LD all = e(-1, k);
  for (int i = 0; i < v.n; ++i) f[i] = (double)(w[i] * e(i, k - 1) / all);
  return f;
}

// walkers hop in the order of the queue; totals per batch of hops
struct Batches {
  std::vector<std::vector<double>> on;  // time on the sites
  std::vector<double> length, moved;
};

static void run(Ctx& c, Device& v, CoarseGrainSystem& sys, std::vector<Hopper>& hs, long hops, int batches, Batches& out) {
  Queue q;
  for (size_t i = 0; i < hs.size(); ++i) q.add(std::make_pair((int)i, hs[i].w->getDwellTime()));
  q.sort();
  double now = 0;
  for (int b = 0; b < batches; ++b) {
    std::vector<double> on(v.n, 0);
    double start = now;
    double moved = 0;
    for (long h = 0; h < hops / batches; ++h) {
      std::pair<int, double> e = q.pop_current();
      REQUIRE_THAT(e.second >= now, "time", "time runs backwards from " << now << " to " << e.second);
      double dt = e.second - now;
      now = e.second;
      for (auto& x : hs) on[x.site] += dt;
      Hopper& me = hs[e.first];
      sys.hop(me.id, me.w);
      int to = me.w->getIdOfSiteCurrentlyOccupying();
      REQUIRE_THAT(to == me.site || v.g[me.site].count(to), "link", "a hop from " << me.site << " to " << to << " without a rate");
      for (auto& x : hs) REQUIRE_THAT(&x == &me || x.site != to, "exclusion", "two walkers on site " << to);
      moved += v.dx(me.site, to) * v.d;
      if (to == me.site) c.event("blocked");
      me.site = to;
      double dwell = me.w->getDwellTime();
      REQUIRE_THAT(dwell >= 0 && std::isfinite(dwell), "dwell", "dwell time " << dwell);
      q.sortedAdd(std::make_pair(e.first, e.second + dwell));
    }
    out.on.push_back(on);
    out.length.push_back(now - start);
    out.moved.push_back(moved);
  }
  c.event("hops", (uint64_t)hops);
}

// mean of x per unit of time and its standard error
static void rateOf(const std::vector<double>& x, const std::vector<double>& len, double& mean, double& sd) {
  double X = 0, T = 0, var = 0;
  for (double a : x) X += a;
  for (double a : len) T += a;
  mean = X / T;
  for (size_t i = 0; i < x.size(); ++i) {
    double e = x[i] - mean * len[i];
    var += e * e;
  }
  double n = (double)x.size();
  sd = std::sqrt(var * n / (n - 1)) / T;
}

// how many independent visits of the sites to expect at least: means of rare events have no
// useful standard error. A visit may come and go many times before the past is forgotten.
static double visits(const Device& v, const std::set<int>& l, const std::vector<double>& want, const std::vector<double>& length, double mix) {
  double T = 0, n = 0, f = 0;
  for (double a : length) T += a;
  for (int s : l) {
    f += want[s];
    for (auto& b : v.g.at(s))
      if (!l.count(b.first)) n += T * want[s] * b.second;
  }
  return std::min(n / 5, f * T / mix);
}
static const double ENOUGH = 40;

static void configure(Ctx& c, Device& v, CoarseGrainSystem& sys, bool clusters) {
  Rng& r = c.rng;
  double mean = 0;
  for (int s : v.sites) mean += 1 / sumRates(v.g, s) / v.n;
  sys.setTimeResolution(mean * r.logu(1, 1e4));
  if (r.chance(0.8)) sys.setRandomSeed(r.u64() >> 1);
  sys.setMinCoarseGrainIterationThreshold(clusters ? (int)r.range(10, 300) : mythical::constants::inf_iterations);
  sys.initializeSystem(v.store);
}

// without a field: Boltzmann's distribution
WORKLOAD(C23, equilibrium, 3) {
  Rng& r = c.rng;
  Device v;
  makeDevice(c, v, 24, 5, r.flat(0, 1.5), false, false);
  CoarseGrainSystem sys;
  configure(c, v, sys, false);
  int k = r.chance(0.4) ? 1 : (int)r.range(2, std::min(6, v.n - 1));
  std::vector<Hopper> hs;
  std::vector<int> at = v.sites;
  r.shuffle(at);
  for (int i = 0; i < k; ++i) hs.push_back(Hopper{3 * i + 1, at[i], nullptr});
  place(sys, hs);
  const int B = 50;
  long hops = c.fast ? 200000 : 5000;
  Batches out, warm;
  double mix = mixingTime(v.g, v.sites);
  run(c, v, sys, hs, hops / 20, 1, warm);
  for (auto& h : hs) h.site = h.w->getIdOfSiteCurrentlyOccupying();
  // the queue is rebuilt from the dwell times, which is allowed: they have no memory
  run(c, v, sys, hs, hops, B, out);
  double shortest = *std::min_element(out.length.begin(), out.length.end());
  c.mixsig(out.length[0]);
  c.nontrivial = true;
  if (shortest < 8 * mix) {
    c.event("too-slow-to-compare");
    return;
  }
  std::vector<double> want = canonical(v, k);
  for (int s : v.sites) {
    std::vector<double> x;
    for (auto& o : out.on) x.push_back(o[s]);
    double mean, sd;
    rateOf(x, out.length, mean, sd);
    if (visits(v, std::set<int>{s}, want, out.length, mix) < ENOUGH) {
      c.event("rarely-visited");
      continue;
    }
    REQUIRE_THAT(std::fabs(mean - want[s]) <= 12 * sd + 1e-4 * want[s] * (1 - want[s]) + 1e-9, "boltzmann", "site " << s << " with energy " << v.energy[s] << " is occupied " << mean << " of the time, in equilibrium " << want[s] << ", standard error " << sd << ", " << k << " walkers, " << name(v));
    c.event("occupations-compared");
    if (k > 1) c.event("occupations-with-exclusion");
  }
  if (c.index % 20 == 0) c.sample = Msg() << k << " walkers, " << hops << " hops, " << name(v);
}

// deep pairs of sites are coarse grained, a walker spends as much time there as before
WORKLOAD(C23, coarse_grained, 3) {
  Rng& r = c.rng;
  Device v;
  makeDevice(c, v, 24, 5, r.flat(0, 0.8), false, false, (int)r.range(1, 2));
  CoarseGrainSystem sys;
  configure(c, v, sys, true);
  std::vector<Hopper> hs(1, Hopper{(int)r.range(-5, 5), (int)r.range(0, v.n - 1), nullptr});
  place(sys, hs);
  for (int k = 0; k < 30000; ++k) sys.hop(hs[0].id, hs[0].w);
  sys.setMinCoarseGrainIterationThreshold(mythical::constants::inf_iterations);
  auto clusters = sys.getClusters();
  c.nontrivial = !clusters.empty();
  if (clusters.empty()) return;
  c.event("devices-with-clusters");
  std::vector<std::set<int>> lumps;
  std::set<int> taken;
  double dev = 0;
  for (auto& x : clusters) {
    lumps.emplace_back(x.second.begin(), x.second.end());
    taken.insert(x.second.begin(), x.second.end());
    ClusterModel m(v.g, lumps.back());
    double T = m.timeConstant(m.equilibrium());
    for (auto& t : exitTimes(m)) dev = std::max(dev, std::fabs(t.second / T - 1));
  }
  c.mixsig((uint64_t)taken.size());
  if (dev > 0.1) {
    c.event("skipped-not-isolated");
    return;
  }
  for (int s : v.sites)
    if (!taken.count(s)) lumps.emplace_back(std::set<int>{s});
  std::vector<double> length;
  std::vector<std::vector<double>> on;
  const int B = 50;
  long hops = c.fast ? 300000 : 5000;
  int at = hs[0].w->getIdOfSiteCurrentlyOccupying();
  for (int b = 0; b < B; ++b) {
    length.push_back(0);
    on.emplace_back(v.n, 0.0);
    for (long h = 0; h < hops / B; ++h) {
      double dwell = hs[0].w->getDwellTime();
      on.back()[at] += dwell;
      length.back() += dwell;
      sys.hop(hs[0].id, hs[0].w);
      at = hs[0].w->getIdOfSiteCurrentlyOccupying();
    }
  }
  c.event("hops", (uint64_t)hops);
  c.mixsig(length[0]);
  double shortest = *std::min_element(length.begin(), length.end());
  double mix = mixingTime(v.g, v.sites);
  if (shortest < 8 * mix) {
    c.event("too-slow-to-compare");
    return;
  }
  std::vector<double> want = canonical(v, 1);
  for (auto& l : lumps) {
    double f = 0, mean, sd;
    std::vector<double> x(B, 0.0);
    for (int s : l) {
      f += want[s];
      for (int b = 0; b < B; ++b) x[b] += on[b][s];
    }
    rateOf(x, length, mean, sd);
    if (visits(v, l, want, length, mix) < ENOUGH) {
      c.event("rarely-visited");
      continue;
    }
    REQUIRE_THAT(std::fabs(mean - f) <= 12 * sd + (4 * dev + 1e-3) * std::min(f, 1 - f) + 1e-9, "coarse-grained", (l.size() > 1 ? "a cluster" : "a site") << " of " << l.size() << " is occupied " << mean << " of the time, in equilibrium " << f << ", standard error " << sd << ", deviation of the exit times " << dev << ", " << name(v));
    c.event(l.size() > 1 ? "clusters-compared" : "occupations-compared");
  }
  if (c.index % 20 == 0) c.sample = Msg() << clusters.size() << " clusters, " << hops << " hops, " << name(v);
}

// with a field along a periodic direction: drift
WORKLOAD(C23, drift, 2) {
  Rng& r = c.rng;
  Device v;
  makeDevice(c, v, 30, 6, r.flat(0, 1.2), true, false);
  CoarseGrainSystem sys;
  configure(c, v, sys, false);
  std::vector<Hopper> hs(1, Hopper{(int)r.range(-5, 5), (int)r.range(0, v.n - 1), nullptr});
  place(sys, hs);
  const int B = 50;
  long hops = c.fast ? 200000 : 5000;
  Batches out;
  run(c, v, sys, hs, hops, B, out);
  double shortest = *std::min_element(out.length.begin(), out.length.end());
  c.mixsig(out.length[0]);
  c.nontrivial = true;
  double mix = mixingTime(v.g, v.sites);
  if (shortest < 8 * mix) {
    c.event("too-slow-to-compare");
    return;
  }
  std::map<int, double> pi = stationary(v.g, v.sites);
  double want = 0, scale = 0;
  for (auto& a : v.g)
    for (auto& b : a.second) {
      want += pi[a.first] * b.second * v.dx(a.first, b.first) * v.d;
      scale += pi[a.first] * b.second * std::fabs(v.dx(a.first, b.first)) * v.d;
    }
  double mean, sd;
  std::vector<double> pis(v.n);
  for (auto& p : pi) pis[p.first] = p.second;
  rateOf(out.moved, out.length, mean, sd);
  REQUIRE_THAT(std::fabs(mean - want) <= 12 * sd + 1e-4 * scale, "drift", "drift velocity " << mean << ", master equation " << want << ", standard error " << sd << ", " << name(v));
  for (int s : v.sites) {
    std::vector<double> x;
    for (auto& o : out.on) x.push_back(o[s]);
    rateOf(x, out.length, mean, sd);
    if (visits(v, std::set<int>{s}, pis, out.length, mix) < ENOUGH) continue;
    REQUIRE_THAT(std::fabs(mean - pi[s]) <= 12 * sd + 1e-4 * pi[s] + 1e-9, "stationary", "site " << s << " is occupied " << mean << " of the time, master equation " << pi[s] << ", standard error " << sd << ", " << name(v));
  }
  c.event("drifts-compared");
  c.event("occupations-compared", v.sites.size());
  if (std::fabs(want) > 0.05 * scale) c.event("clear-drifts");
}

// one walker at a time from the first plane to the last
WORKLOAD(C23, transit, 2) {
  Rng& r = c.rng;
  Device v;
  makeDevice(c, v, 36, 6, r.flat(0, 1.5), r.chance(0.7), true);
  if (v.L < 2) return;
  CoarseGrainSystem sys;
  configure(c, v, sys, false);
  // first and second moment of the time to the last plane
  std::vector<int> in;
  std::map<int, size_t> pos;
  for (int s : v.sites)
    if (v.x(s) != v.L - 1) {
      pos[s] = in.size();
      in.push_back(s);
    }
  size_t n = in.size();
  std::vector<std::vector<LD>> a(n, std::vector<LD>(n + 1, 0)), b;
  for (size_t i = 0; i < n; ++i) {
    LD sum = 0;
    for (auto& e : v.g[in[i]]) {
      sum += e.second;
      if (pos.count(e.first)) a[i][pos[e.first]] -= e.second;
    }
    a[i][i] += sum;
    for (size_t j = 0; j < n; ++j) a[i][j] /= sum;
    a[i][n] = 1 / sum;
  }
  b = a;
  solve(a);
  // E t^2 = A^-1 (2 t / sum)
  for (size_t i = 0; i < n; ++i) b[i][n] = 2 * a[i][n] * b[i][n];
  std::vector<LD> t1(n);
  for (size_t i = 0; i < n; ++i) t1[i] = a[i][n];
  solve(b);
  long N = c.fast ? 1500 : 100, hops = 0;
  double total = 0, want = 0, var = 0;
  for (long k = 0; k < N; ++k) {
    int s = v.lattice->getRandomSite(Cuboid::Plane::YZ, 0);
    REQUIRE_THAT(s >= 0 && s < v.n && v.x(s) == 0, "plane", "site " << s << " is not in the first plane, " << name(v));
    std::vector<Hopper> hs(1, Hopper{(int)r.range(0, 3), s, nullptr});
    place(sys, hs);
    want += (double)t1[pos[s]];
    var += (double)(b[pos[s]][n] - t1[pos[s]] * t1[pos[s]]);
    while (v.x(hs[0].site) != v.L - 1) {
      total += hs[0].w->getDwellTime();
      sys.hop(hs[0].id, hs[0].w);
      int to = hs[0].w->getIdOfSiteCurrentlyOccupying();
      REQUIRE_THAT(v.g[hs[0].site].count(to), "alone", "a walker alone in the system hops from " << hs[0].site << " to " << to);
      hs[0].site = to;
      if (++hops > 3000000) {
        c.event("too-slow-to-compare");
        return;
      }
    }
    sys.removeWalkerFromSystem(hs[0].id, hs[0].w);
    c.event("walkers-collected");
  }
  double sd = std::sqrt(var);
  // Bernstein's bound: the tail of each time decays with the longest mean time at least
  double longest = (double)*std::max_element(t1.begin(), t1.end());
  REQUIRE_THAT(std::fabs(total - want) <= 8.3 * sd + 68 * longest, "transit", "the mean of " << N << " transit times is " << total / N << ", exact " << want / N << ", standard error " << sd / N << ", " << name(v));
  c.event("transit-times-compared");
  c.mixsig(total);
  c.nontrivial = true;
  // each visit is an arrival
  long visits = 0;
  for (int s : v.sites) visits += sys.getVisitFrequencyOfSite(s);
  REQUIRE_THAT(visits == hops + N, "visits", visits << " visits after " << hops << " hops of " << N << " walkers");
  if (c.index % 20 == 0) c.sample = Msg() << N << " walkers from plane to plane, " << name(v);
}

// walkers injected, collected, coarse grained: none is lost, none counted twice
WORKLOAD(C23, conservation, 3) {
  Rng& r = c.rng;
  Device v;
  bool clusters = r.chance(0.75);
  makeDevice(c, v, 250, 8, r.flat(0, 4), r.chance(0.7), true, clusters ? (int)r.range(0, 5) : 0);
  CoarseGrainSystem sys;
  configure(c, v, sys, clusters);
  std::map<int, int> onSite;          // site -> walker
  std::map<int, Hopper> hs;           // in the system
  std::set<int> collected;
  std::map<int, double> due;          // next event of each walker
  Queue q;
  int nextId = (int)r.range(-3, 3), placed = 0;
  double now = 0;
  auto inject = [&](int k) {
    std::vector<std::pair<int, WalkerPtr>> batch;
    for (int i = 0; i < k; ++i) {
      int s = v.lattice->getRandomSite(Cuboid::Plane::YZ, 0);
      REQUIRE_THAT(s >= 0 && s < v.n && v.x(s) == 0, "plane", "site " << s << " is not in the first plane, " << name(v));
      if (onSite.count(s)) continue;
      Hopper h{nextId++, s, std::make_shared<Walker>()};
      h.w->occupySite(s);
      onSite[s] = h.id;
      hs[h.id] = h;
      batch.emplace_back(h.id, h.w);
      ++placed;
    }
    if (batch.empty()) return;
    sys.initializeWalkers(batch);
    for (auto& b : batch) {
      double dwell = b.second->getDwellTime();
      REQUIRE_THAT(dwell >= 0 && std::isfinite(dwell), "dwell", "dwell time " << dwell);
      due[b.first] = now + dwell;
      if (q.size() && q.isSorted())
        q.sortedAdd(std::make_pair(b.first, now + dwell));
      else
        q.add(std::make_pair(b.first, now + dwell));
    }
    q.sort();
  };
  inject((int)r.range(1, std::max<int64_t>(1, v.W * v.H)));
  long hops = c.fast ? 12000 : 3000;
  bool formed = false;
  std::set<int> inCluster;
  for (long k = 0; k < hops; ++k) {
    if (!q.size() || (placed < 60 && r.chance(0.004))) {
      if (placed >= 60 && !q.size()) break;
      inject((int)r.range(1, 4));
      if (!q.size()) continue;
    }
    REQUIRE_THAT(q.size() == hs.size(), "queue", "the queue holds " << q.size() << " of " << hs.size() << " walkers");
    std::pair<int, double> e = q.pop_current();
    REQUIRE_THAT(hs.count(e.first) && due[e.first] == e.second, "queue", "walker " << e.first << " is released, " << (collected.count(e.first) ? "it has been collected before" : "at a time of another walker"));
    REQUIRE_THAT(e.second >= now, "time", "time runs backwards from " << now << " to " << e.second);
    for (auto& x : due) REQUIRE_THAT(x.second >= e.second, "order", "walker " << e.first << " hops at " << e.second << " before walker " << x.first << " at " << x.second);
    now = e.second;
    Hopper& me = hs[e.first];
    int from = me.site;
    sys.hop(me.id, me.w);
    int to = me.w->getIdOfSiteCurrentlyOccupying();
    REQUIRE_THAT(to >= 0 && to < v.n, "lattice", "a walker is on site " << to << " of " << v.n);
    REQUIRE_THAT(to == from || !onSite.count(to), "exclusion", "walkers " << me.id << " and " << (onSite.count(to) ? onSite[to] : 0) << " on site " << to);
    if (to != from && !v.g[from].count(to)) {
      // within or off a cluster
      int cl = sys.getClusterIdOfSite(from);
      REQUIRE_THAT(cl >= 0, "link", "a hop from " << from << " to " << to << " without a rate");
      c.event("hops-of-clusters");
    }
    if (to != from) {
      REQUIRE_THAT(v.lattice->getIndex(v.lattice->getPosition(to)) == to, "lattice", "site " << to << " has no position");
      onSite.erase(from);
      onSite[to] = me.id;
      me.site = to;
    } else
      c.event("blocked");
    if (!formed && clusters && k % 50 == 0) formed = !sys.getClusters().empty();
    if (v.lattice->getX(to) == v.L - 1) {
      sys.removeWalkerFromSystem(me.id, me.w);
      onSite.erase(to);
      due.erase(me.id);
      collected.insert(me.id);
      hs.erase(e.first);
      c.event("walkers-collected");
    } else {
      double dwell = me.w->getDwellTime();
      REQUIRE_THAT(dwell >= 0 && std::isfinite(dwell), "dwell", "dwell time " << dwell);
      due[me.id] = now + dwell;
      q.sortedAdd(std::make_pair(e.first, now + dwell));
    }
    REQUIRE_THAT((int)(hs.size() + collected.size()) == placed && onSite.size() == hs.size(), "conservation", placed << " walkers placed, " << hs.size() << " left, " << collected.size() << " collected");
  }
  // the others are where they were left, and what was collected does not block a site
  for (auto& x : hs) REQUIRE_THAT(x.second.w->getIdOfSiteCurrentlyOccupying() == x.second.site, "moved", "walker " << x.first << " was moved without hopping");
  if (clusters && !formed) formed = !sys.getClusters().empty();
  if (formed) c.event("devices-with-clusters");
  c.event("hops", (uint64_t)hops);
  c.mixsig(now);
  c.mixsig((uint64_t)collected.size());
  c.nontrivial = placed > 1;
  if (c.index % 20 == 0) c.sample = Msg() << placed << " walkers, " << collected.size() << " collected, " << name(v);
}

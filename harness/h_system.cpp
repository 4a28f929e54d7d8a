#include "sim.hpp"
using namespace vf;

static long stepsFor(Ctx& c, const Spec& s) {
  Rng& r = c.rng;
  long base = (long)r.range(50, 800) + 6L * s.threshold;
  return c.fast ? base * 2 : base;
}

static void watched(Ctx& c, int mask) {
  Spec s = makeSpec(c);
  long steps = stepsFor(c, s);
  Sim sim(c, s, mask, c.rng.u64());
  sim.run(steps);
  sim.summary(c);
  c.nontrivial = sim.created > 0 && sim.hops > 10;
  if (mask & M01) c.nontrivial = sim.blocked > 0;
}

WORKLOAD(C01, simulations, 3) { watched(c, M01); }
// few sites, many walkers, clusters forming under them
WORKLOAD(C01, crowded, 2) {
  Rng& r = c.rng;
  Spec s;
  if (r.chance(0.5)) familyWells(r, s, 3, 5); else familyNested(r, s, 6);
  s.threshold = (int)r.range(1, 20);
  s.seed = (unsigned long)r.range(0, 1000000);
  s.maxWalkers = std::max<size_t>(1, s.sites.size() - (size_t)r.range(1, 2));
  s.timeOrdered = r.chance(0.3);
  s.removal = r.chance(0.7) ? r.logu(1e-2, 0.3) : 0;
  s.addition = s.removal * 1.5;
  Sim sim(c, s, M01, r.u64());
  sim.run(stepsFor(c, s));
  sim.summary(c);
  c.nontrivial = sim.blocked > 0;
}
WORKLOAD(C02, simulations, 1) { watched(c, M02); }
WORKLOAD(C04, simulations, 2) { watched(c, M04); }
WORKLOAD(C05, criterion, 3) { watched(c, M05); }
WORKLOAD(C06, simulations, 3) { watched(c, M06); }
WORKLOAD(C13, system_counts, 4) { watched(c, M13); c.nontrivial = true; }

// nested basins: growth and merging is the rule
static void nested(Ctx& c, int mask) {
  Rng& r = c.rng;
  Spec s;
  familyNested(r, s, 14);
  s.threshold = (int)r.range(1, 40);
  s.seed = (unsigned long)r.range(0, 1000000);
  s.maxWalkers = r.chance(0.5) ? 1 : (size_t)r.range(1, 4);
  s.timeOrdered = r.chance(0.7);
  s.removal = r.chance(0.3) ? 0.01 : 0;
  s.addition = 0.05;
  Sim sim(c, s, mask, r.u64());
  sim.run(stepsFor(c, s) * 2);
  sim.summary(c);
  c.nontrivial = sim.enlarged > 0;
}
WORKLOAD(C04, nested, 2) { nested(c, M04); }
WORKLOAD(C05, nested, 2) { nested(c, M05); }
WORKLOAD(C06, nested, 2) { nested(c, M06); }
WORKLOAD(C02, nested, 1) { nested(c, M02); }

// ------------------------------------------------------------------ C05
// an isolated basin with a walker on it that never leaves is coarse grained
WORKLOAD(C05, liveness, 2) {
  Rng& r = c.rng;
  Spec s;
  size_t B = (size_t)r.range(1, 3);
  std::vector<size_t> size;
  size_t n = 0;
  for (size_t b = 0; b < B; ++b) {
    size.push_back((size_t)r.range(2, 5));
    n += size.back();
  }
  std::vector<int> ids = makeIds(r, n + 1, false);
  double R = r.scale(), eps = r.logu(1e-12, 1e-8);
  std::vector<std::vector<int>> basin;
  size_t k = 0;
  double worst = 0;
  for (size_t b = 0; b < B; ++b) {
    basin.emplace_back(ids.begin() + k, ids.begin() + k + size[b]);
    k += size[b];
    auto& v = basin.back();
    double rb = R * r.logu(0.5, 2);
    int shape = (int)r.range(0, 3);
    for (size_t i = 0; i < v.size(); ++i)
      for (size_t j = 0; j < i; ++j)
        if (shape == 0 || (shape == 3 ? j == 0 : j + 1 == i) || (shape == 1 && j == 0 && i + 1 == v.size())) pairRates(s.g, v[i], v[j], rb, rb);
    if (b) pairRates(s.g, r.pick(v), r.pick(basin[b - 1]), R * eps, R * eps);
    worst = std::max(worst, traversalTime(s.g, std::set<int>(v.begin(), v.end())));
  }
  s.g[ids[0]][ids[n]] = R * eps;
  s.sites = ids;
  s.perf = r.logu(0.01, 100);
  s.setPerf = r.chance(0.7);
  if (!s.setPerf) s.perf = 1;
  s.tres = 2 * worst * r.logu(1.2, 1e6);
  s.threshold = (int)r.logu(1, 300);
  s.seed = r.u64();
  s.family = "isolated basins";
  tidy(s);
  Sim sim(c, s, M05, r.u64());
  sim.configure();
  sim.init();
  std::vector<size_t> order;
  for (size_t b = 0; b < B; ++b) order.push_back(b);
  r.shuffle(order);
  for (size_t b : order) {
    std::set<int> S(basin[b].begin(), basin[b].end());
    std::vector<std::pair<int, WalkerPtr>> v(1, std::make_pair((int)r.range(0, 100), std::make_shared<mythical::Walker>()));
    v[0].second->occupySite(r.pick(basin[b]));
    sim.sys.initializeWalkers(v);
    bool left = false;
    long limit = 4L * s.threshold + 20;
    // a rejected attempt in between may have doubled the waiting time
    for (long h = 0; h < limit && !left && !sim.clusterOf.count(*S.begin()); ++h) {
      sim.sys.hop(v[0]);
      ++sim.hops;
      left = !S.count(v[0].second->getIdOfSiteCurrentlyOccupying());
      sim.view();
    }
    if (left) break;
    REQUIRE_THAT(sim.clusterOf.count(*S.begin()) && sim.clusters[sim.clusterOf[*S.begin()]] == S, "never-coarse-grained",
                 "a basin of " << S.size() << " sites that takes " << traversalTime(s.g, S) << " to traverse and " << 1 / externalRate(s.g, S) << " to leave is not coarse grained after " << limit << " hops, threshold " << s.threshold << ", time resolution " << s.tres << ", performance ratio " << s.perf);
    sim.sys.removeWalkerFromSystem(v[0]);
    c.event("basins-coarse-grained");
  }
  sim.summary(c);
  c.nontrivial = sim.created > 0;
}

// groups of fast sites with slower links between them: the groups are coarse grained and then
// joined, because together they are a basin again
WORKLOAD(C05, joining, 2) {
  Rng& r = c.rng;
  Spec s;
  static const int shapes[6][3] = {{2, 2, 0}, {2, 3, 0}, {3, 2, 0}, {2, 1, 0}, {2, 2, 1}, {4, 1, 0}};
  const int* sh = shapes[r.range(0, 5)];
  std::vector<std::vector<int>> group;
  std::vector<int> all = makeIds(r, 6, false);
  double R = r.scale(), delta = r.logu(1e-4, 5e-3), eps = r.logu(1e-13, 1e-10);
  size_t k = 0;
  for (int b = 0; b < 3 && sh[b]; ++b) {
    group.emplace_back(all.begin() + k, all.begin() + k + sh[b]);
    k += sh[b];
    auto& v = group.back();
    for (size_t i = 0; i < v.size(); ++i)
      for (size_t j = 0; j < i; ++j) pairRates(s.g, v[i], v[j], R, R);
    if (b) pairRates(s.g, r.pick(v), r.pick(group[b - 1]), R * delta, R * delta);
  }
  std::set<int> S(all.begin(), all.begin() + k);
  s.g[all[r.range(0, (long)k - 1)]][all[k]] = R * eps;
  s.sites.assign(all.begin(), all.begin() + k + 1);
  double limitPerf = 1e9;
  for (auto& v : group)
    if (v.size() > 1) {
      std::set<int> G(v.begin(), v.end());
      limitPerf = std::min(limitPerf, 1 / externalRate(s.g, G) / (2 * traversalTime(s.g, G)));
    }
  s.perf = limitPerf * r.logu(0.01, 0.5);
  s.setPerf = true;
  s.tres = 2 * traversalTime(s.g, S) * r.logu(1.5, 1e4);
  s.threshold = (int)r.logu(1, 300);
  s.seed = r.u64();
  s.family = "groups to join";
  tidy(s);
  Sim sim(c, s, M05, r.u64());
  sim.configure();
  sim.init();
  std::vector<std::pair<int, WalkerPtr>> v(1, std::make_pair((int)r.range(0, 100), std::make_shared<mythical::Walker>()));
  v[0].second->occupySite(r.pick(group[0]));
  sim.sys.initializeWalkers(v);
  long limit = 12L * s.threshold + 60, h = 0;
  auto joined = [&]() { return sim.clusterOf.count(*S.begin()) && sim.clusters[sim.clusterOf[*S.begin()]] == S; };
  for (; h < limit && !joined(); ++h) {
    sim.sys.hop(v[0]);
    ++sim.hops;
    if (!S.count(v[0].second->getIdOfSiteCurrentlyOccupying())) return;
    sim.view();
  }
  REQUIRE_THAT(joined(), "never-joined",
               "a basin of " << S.size() << " sites in " << group.size() << " groups that takes " << traversalTime(s.g, S) << " to traverse and " << 1 / externalRate(s.g, S) << " to leave is not one cluster after " << limit << " hops, threshold " << s.threshold << ", time resolution " << s.tres << ", performance ratio " << s.perf << "; there are " << sim.clusters.size() << " clusters");
  if (sim.created > 1) c.event("clusters-joined");
  c.event("groups-joined");
  sim.summary(c);
  c.nontrivial = sim.enlarged > 0;
}

// wells that miss or meet the performance ratio by a small factor, one after another
WORKLOAD(C05, ratio, 2) {
  Rng& r = c.rng;
  Spec s;
  size_t B = (size_t)r.range(2, 6);
  std::vector<size_t> size;
  size_t n = 0;
  for (size_t b = 0; b < B; ++b) {
    size.push_back((size_t)r.range(2, 4));
    n += size.back();
  }
  std::vector<int> ids = makeIds(r, n + 1, false);
  double R = r.scale();
  s.setPerf = true;
  s.perf = r.chance(0.5) ? r.logu(1, 3000) : r.logu(0.02, 1);
  size_t k = 0;
  double worst = 0;
  std::vector<std::vector<int>> well;
  uint64_t met = 0;
  for (size_t b = 0; b < B; ++b) {
    well.emplace_back(ids.begin() + k, ids.begin() + k + size[b]);
    k += size[b];
    auto& v = well.back();
    double rb = R * r.logu(0.3, 3);
    bool full = r.chance(0.5);
    for (size_t i = 0; i < v.size(); ++i)
      for (size_t j = 0; j < i; ++j)
        if (full || j + 1 == i) pairRates(s.g, v[i], v[j], rb, rb);
    double trav = traversalTime(s.g, std::set<int>(v.begin(), v.end()));
    worst = std::max(worst, trav);
    double q = r.chance(0.5) ? r.logu(1.05, 5) : r.logu(0.2, 0.95);
    met += q > 1;
    double out = 1 / (2 * s.perf * trav * q);
    int ways = (int)r.range(1, 2);
    for (int w = 0; w < ways; ++w) {
      int to = b && r.chance(0.5) ? r.pick(well[(size_t)r.range(0, (int64_t)b - 1)]) : ids[n];
      s.g[r.pick(v)][to] += out / ways;
    }
  }
  s.sites = ids;
  s.tres = 2 * worst * r.logu(1.2, 1e4);
  s.threshold = (int)r.range(1, 12);
  s.seed = r.u64();
  s.maxWalkers = (size_t)r.range(1, (int64_t)B);
  s.addition = 0.3;
  s.removal = 0.02;
  s.timeOrdered = r.chance(0.5);
  s.family = "wells close to the performance ratio";
  tidy(s);
  Sim sim(c, s, M05, r.u64());
  sim.run(c.fast ? 1500 : 600);
  sim.summary(c);
  c.event("wells-meeting-the-ratio", met);
  c.event("wells-missing-the-ratio", B - met);
  c.nontrivial = sim.created > 0;
}

// the settings may be changed while the simulation runs
WORKLOAD(C05, settings, 1) {
  Rng& r = c.rng;
  Spec s = makeSpec(c);
  s.threshold = (int)r.range(1, 20);
  Sim sim(c, s, M05, r.u64());
  double fast = s.tres, ratio = s.perf;
  int phases = (int)r.range(2, 8);
  for (int k = 0; k < phases; ++k) {
    bool off = r.chance(0.3);
    if (k) {
      if (r.chance(0.4)) sim.sys.setTimeResolution(s.tres = fast * r.logu(1e-3, 1e3));
      if (r.chance(0.4)) sim.sys.setPerformanceRatio(s.perf = ratio * r.logu(0.1, 30));
      if (off) sim.sys.setMinCoarseGrainIterationThreshold(mythical::constants::inf_iterations);
    }
    uint64_t before = sim.created + sim.enlarged + sim.merged;
    sim.run((long)r.range(20, 300));
    if (off && k) {
      REQUIRE_THAT(sim.created + sim.enlarged + sim.merged == before, "unwanted", "clusters change although coarse graining has been switched off, " << s.family);
      sim.sys.setMinCoarseGrainIterationThreshold(s.threshold);
      c.event("switched-off");
    }
    c.event("phases");
  }
  sim.summary(c);
  c.nontrivial = sim.created > 0;
}

// switched off, or not worth it
WORKLOAD(C05, never, 1) {
  Rng& r = c.rng;
  Spec s = makeSpec(c);
  bool off = r.chance(0.6);
  if (off)
    s.threshold = mythical::constants::inf_iterations;
  else
    s.threshold = (int)r.range(1, 10);
  if (!off) {
    // either the resolution or the performance ratio forbids every cluster
    double fastest = 0;
    for (auto& a : s.g)
      for (auto& b : a.second) fastest = std::max(fastest, b.second);
    if (r.chance(0.5))
      s.tres = 1.9 / fastest;
    else {
      double slowest = fastest;
      for (auto& a : s.g)
        for (auto& b : a.second) slowest = std::min(slowest, b.second);
      s.setPerf = true;
      s.perf = fastest / slowest;
    }
  }
  Sim sim(c, s, M05, r.u64());
  sim.run((long)r.range(100, 1000));
  REQUIRE_THAT(sim.created == 0, "unwanted", "a cluster was made although coarse graining is " << (off ? "switched off" : "never worth it") << ", " << s.family);
  sim.summary(c);
  c.event("runs-without-clusters");
  c.nontrivial = sim.hops > 10;
}

// ------------------------------------------------------------------ C13
// time spent on a basin turns into visits
WORKLOAD(C13, system_balance, 2) {
  Rng& r = c.rng;
  Spec s;
  size_t n = (size_t)r.range(2, 4);
  std::vector<int> ids = makeIds(r, n + 1, false);
  double R = r.scale();
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < i; ++j) pairRates(s.g, ids[i], ids[j], R, R);
  double eps = r.logu(1e-4, 1e-2);
  s.g[ids[0]][ids[n]] = R * eps;
  s.g[ids[n]][ids[(size_t)r.range(0, (int64_t)n - 1)]] = R * r.logu(0.01, 1);
  s.sites = ids;
  s.tres = r.logu(4, 1e3) / R;
  s.threshold = (int)r.logu(2, 1500);
  s.seed = r.u64();
  s.family = "one well";
  tidy(s);
  Sim sim(c, s, M13, r.u64());
  sim.configure();
  sim.init();
  sim.place(1);
  std::set<int> S(ids.begin(), ids.begin() + n);
  for (int k = 0; k < 2000 + 4 * s.threshold && sim.clusters.empty(); ++k) {
    if (isDrain(s.g, sim.items[0].site)) return;
    sim.hop(0);
  }
  if (sim.clusters.empty() || sim.clusters.begin()->second != S) return;
  std::map<int, long> start;
  for (int x : S) start[x] = sim.sys.getVisitFrequencyOfSite(x);
  double on = 0;
  long N = c.fast ? 4000 : 1500, next = (long)r.range(1, 20);
  ClusterModel m(s.g, S);
  std::vector<double> p = m.equilibrium();
  double hop = m.meanHopTime(p), piece = sim.inc.begin()->second;
  for (long k = 1; k <= N; ++k) {
    sim.hop(0);
    if (S.count(sim.items[0].site)) on += sim.items[0].w->getDwellTime();
    if (r.chance(0.05)) sim.sys.getVisitFrequencyOfSite(r.pick(ids));
    if (k != next && k != N) continue;
    next *= 3;
    for (size_t i = 0; i < m.id.size(); ++i) {
      double got = (double)(sim.sys.getVisitFrequencyOfSite(m.id[i]) - start[m.id[i]]), want = on / hop * p[i];
      // the system solves the master equation to 0.001; one stay may be under way; it counts
      // the mean length of the pieces of a stay, whose spread is below 0.33 of an increment
      double spread = 6 * 0.33 * std::sqrt((double)k) * piece / hop * p[i];
      REQUIRE_THAT(std::fabs(got - want) <= 0.03 * want + 3 + 1.1 * piece / hop + spread, "balance", "site " << m.id[i] << " of a well of " << n << " gains " << got << " visits in " << k << " hops while a walker spends the time of " << on / hop << " hops there, expected " << want);
      c.event("balances");
    }
  }
  sim.summary(c);
  c.nontrivial = true;
}

// more hops than an int can count between two attempts at coarse graining (thorough only)
WORKLOAD(ENDURANCE, hops, 1) {
  Rng& r = c.rng;
  Spec s;
  std::vector<int> ids = makeIds(r, 3, false);
  pairRates(s.g, ids[0], ids[1], 1, 1);
  pairRates(s.g, ids[0], ids[2], 0.5, 1);
  mythical::CoarseGrainSystem sys;
  sys.setTimeResolution(1e3);
  sys.setPerformanceRatio(1e6);
  sys.setRandomSeed(1);
  const long T = c.thorough ? 1L << 30 : 1L << 16;
  sys.setMinCoarseGrainIterationThreshold((int)T);
  std::unordered_map<int, std::unordered_map<int, double>> rates;
  for (auto& a : s.g) rates[a.first].insert(a.second.begin(), a.second.end());
  sys.initializeSystem(rates);
  std::vector<std::pair<int, WalkerPtr>> v(1, std::make_pair(1, std::make_shared<mythical::Walker>()));
  v[0].second->occupySite(ids[0]);
  sys.initializeWalkers(v);
  long n = T + 10, start = 1;
  for (long k = 0; k < n; ++k) {
    if (v[0].second->getPotentialSite() == ids[0]) ++start;
    sys.hop(v[0]);
  }
  REQUIRE_THAT(sys.getVisitFrequencyOfSite(ids[0]) == start, "visits", sys.getVisitFrequencyOfSite(ids[0]) << " visits, expected " << start);
  c.event("enduring-hops", (uint64_t)n);
  c.nontrivial = true;
}

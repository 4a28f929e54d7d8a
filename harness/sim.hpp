// A coarse-grained simulation driven through the public interface, and the
// monitors that watch it. Every monitor keeps its own model of what the
// simulation is allowed to do; a workload switches on the one it is about.
#ifndef VERIF_SIM_HPP
#define VERIF_SIM_HPP
#include "model.hpp"
#include "mythical/coarsegrainsystem.hpp"
#include "mythical/constants.hpp"
#include "mythical/walker.hpp"

namespace vf {

typedef std::shared_ptr<mythical::Walker> WalkerPtr;

enum Monitor { M01 = 1, M02 = 2, M04 = 4, M05 = 8, M06 = 16, M13 = 32 };

struct Spec {
  Graph g;               // rates; a site that appears only as a target is a drain
  std::vector<int> sites;
  std::string family;
  double tres = 1;
  int threshold = 20;
  double perf = 1;
  bool setPerf = false;
  unsigned long seed = 1;
  size_t maxWalkers = 1;
  bool timeOrdered = true;
  double removal = 0, addition = 0;
};

inline bool isDrain(const Graph& g, int s) {
  auto it = g.find(s);
  return it == g.end() || it->second.empty();
}

// A set of rates is never empty, and a site the rates do not mention does not exist.
inline void tidy(Spec& s) {
  for (auto it = s.g.begin(); it != s.g.end();)
    if (it->second.empty())
      it = s.g.erase(it);
    else
      ++it;
  std::set<int> known;
  for (auto& a : s.g) {
    known.insert(a.first);
    for (auto& b : a.second) known.insert(b.first);
  }
  std::vector<int> v;
  for (int x : s.sites)
    if (known.count(x)) v.push_back(x);
  s.sites.swap(v);
}

// are all rates inside S alike? then the master equation of S has no slow mode
inline bool evenRates(const Graph& g, const std::set<int>& S) {
  double lo = 1e300, hi = 0;
  for (int a : S) {
    auto row = g.find(a);
    if (row == g.end()) return false;
    for (auto& b : row->second)
      if (S.count(b.first)) {
        lo = std::min(lo, b.second);
        hi = std::max(hi, b.second);
      }
  }
  return hi > 0 && hi <= lo * 1.0001;
}

// ---------------------------------------------------------------- families
inline void pairRates(Graph& g, int a, int b, double x, double y) {
  g[a][b] = x;
  g[b][a] = y;
}

// wells of up to five sites with equal fast rates, slow links, drains
inline void familyWells(Rng& r, Spec& s, size_t maxWells, size_t maxSize) {
  size_t W = (size_t)r.range(1, (int64_t)maxWells);
  std::vector<size_t> size;
  size_t n = 0;
  for (size_t w = 0; w < W; ++w) {
    size.push_back((size_t)r.range(w ? 1 : 2, (int64_t)maxSize));
    n += size.back();
  }
  size_t drains = W == 1 ? 1 : (size_t)r.range(0, 2);
  std::vector<int> ids = makeIds(r, n + drains, false);
  double R = r.scale();
  double eps = r.logu(1e-5, 3e-2);
  std::vector<std::vector<int>> well;
  size_t k = 0;
  for (size_t w = 0; w < W; ++w) {
    well.emplace_back(ids.begin() + k, ids.begin() + k + size[w]);
    k += size[w];
    double rw = R * r.logu(0.2, 1);
    int shape = (int)r.range(0, 2);
    auto& v = well.back();
    for (size_t i = 0; i < v.size(); ++i)
      for (size_t j = 0; j < i; ++j)
        if (shape == 0 || j + 1 == i || (shape == 1 && j == 0 && i + 1 == v.size())) pairRates(s.g, v[i], v[j], rw, rw);
  }
  auto slow = [&]() { return R * eps * r.logu(0.1, 1); };
  for (size_t w = 1; w < W; ++w) {
    int a = r.pick(well[w]), b = r.pick(well[(size_t)r.range(0, (int64_t)w - 1)]);
    pairRates(s.g, a, b, slow(), slow());
  }
  for (size_t e = 0; e < W; ++e)
    if (W > 2 && r.chance(0.4)) {
      int a = r.pick(well[(size_t)r.range(0, (int64_t)W - 1)]), b = r.pick(well[(size_t)r.range(0, (int64_t)W - 1)]);
      if (a != b && !s.g[a].count(b) && !s.g[b].count(a)) pairRates(s.g, a, b, slow(), slow());
    }
  for (size_t d = 0; d < drains; ++d) s.g[r.pick(r.pick(well))][ids[n + d]] = slow() * (r.chance(0.5) ? 1 : 0.01);
  s.sites = ids;
  s.tres = r.logu(3, 1e4) / R / (r.chance(0.3) ? eps : 1);
  s.family = "wells";
  tidy(s);
}

inline void familyRandom(Rng& r, Spec& s, size_t maxSites) {
  size_t n = (size_t)r.range(3, (int64_t)maxSites);
  std::vector<int> ids = makeIds(r, n, false);
  double R = r.scale(), decades = r.flat(0, 6);
  bool directed = r.chance(0.3);
  auto rate = [&]() { return R * std::pow(10.0, -decades * r.uni()); };
  for (size_t i = 1; i < n; ++i) {
    int a = ids[i], b = ids[(size_t)r.range(0, (int64_t)i - 1)];
    pairRates(s.g, a, b, rate(), rate());
  }
  size_t extra = (size_t)r.range(0, (int64_t)(2 * n));
  for (size_t k = 0; k < extra; ++k) {
    int a = r.pick(ids), b = r.pick(ids);
    if (a == b) continue;
    if (!s.g[a].count(b)) s.g[a][b] = rate();
    if (!directed && !s.g[b].count(a)) s.g[b][a] = rate();
  }
  if (r.chance(0.3)) s.g.erase(r.pick(ids));  // a drain
  s.sites = ids;
  s.tres = r.logu(1, 1e6) / R;
  s.family = directed ? "random one-way" : "random two-way";
}

// Gaussian energies on a small grid, Marcus-like hopping
inline void familyLattice(Rng& r, Spec& s, bool large = false) {
  int L = (int)r.range(2, 5), W = (int)r.range(1, 4), H = (int)r.range(1, 2);
  if (large) {
    L = (int)r.range(6, 12);
    W = (int)r.range(4, 10);
    H = (int)r.range(1, 3);
  }
  int n = L * W * H;
  if (n < 3) {
    L = 3;
    n = L * W * H;
  }
  std::vector<double> e(n);
  double sigma = r.flat(0.0, 0.15), kT = 0.025, lam = 0.2;
  for (auto& x : e) x = sigma * (r.uni() + r.uni() + r.uni() + r.uni() - 2) * 1.7;
  int base = r.chance(0.5) ? 0 : (int)r.range(-500, 500);
  if (base < 0) base -= 500;
  for (int i = 0; i < n; ++i) s.sites.push_back(base + i);
  auto pos = [&](int i, int& x, int& y, int& z) {
    x = i % L;
    y = (i / L) % W;
    z = i / (L * W);
  };
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      if (i == j) continue;
      int a, b, q, d, f, h;
      pos(i, a, b, q);
      pos(j, d, f, h);
      int dist = (a - d) * (a - d) + (b - f) * (b - f) + (q - h) * (q - h);
      if (dist > 2) continue;
      double J = dist == 1 ? 1 : 0.1;
      double dE = e[j] - e[i];
      s.g[base + i][base + j] = 1e12 * J * std::exp(-(lam + dE) * (lam + dE) / (4 * lam * kT));
    }
  s.tres = r.logu(1e-12, 1e-4);
  s.family = "lattice";
}

// basins inside basins, so that clusters grow and merge
inline void familyNested(Rng& r, Spec& s, size_t maxSites) {
  size_t n = (size_t)r.range(4, (int64_t)maxSites);
  std::vector<int> ids = makeIds(r, n + 1, false);
  double R = r.scale();
  double f = r.logu(3, 40);
  // leaves in groups of 1-2, groups joined by slower and slower rates
  std::vector<std::vector<int>> groups;
  size_t k = 0;
  while (k < n) {
    size_t m = std::min<size_t>(n - k, (size_t)r.range(1, 2));
    groups.emplace_back(ids.begin() + k, ids.begin() + k + m);
    if (m == 2) pairRates(s.g, ids[k], ids[k + 1], R, R);
    k += m;
  }
  double rate = R / f;
  while (groups.size() > 1) {
    std::vector<std::vector<int>> next;
    for (size_t i = 0; i < groups.size(); i += 2) {
      if (i + 1 == groups.size()) {
        next.push_back(groups[i]);
        continue;
      }
      pairRates(s.g, r.pick(groups[i]), r.pick(groups[i + 1]), rate, rate);
      if (i + 2 + 1 == groups.size() && r.chance(0.5)) {
        // three at once
        pairRates(s.g, r.pick(groups[i]), r.pick(groups[i + 2]), rate, rate);
        groups[i].insert(groups[i].end(), groups[i + 2].begin(), groups[i + 2].end());
        groups[i].insert(groups[i].end(), groups[i + 1].begin(), groups[i + 1].end());
        next.push_back(groups[i]);
        break;
      }
      groups[i].insert(groups[i].end(), groups[i + 1].begin(), groups[i + 1].end());
      next.push_back(groups[i]);
    }
    groups.swap(next);
    rate /= f * (r.chance(0.3) ? r.logu(1, 10) : 1);
  }
  // the way out
  s.g[ids[(size_t)r.range(0, (int64_t)n - 1)]][ids[n]] = rate * r.logu(0.01, 1);
  s.sites = ids;
  s.tres = r.chance(0.7) ? r.logu(10, 1e4) * std::pow(f, 3) / R : r.logu(3, 1e3) / R;
  s.setPerf = true;
  s.perf = r.logu(0.02, 1.0);
  s.family = "nested";
  tidy(s);
}

// a ring or chain with pairs and triples of fast exchange
inline void familyRing(Rng& r, Spec& s, size_t maxSites) {
  size_t n = (size_t)r.range(4, (int64_t)maxSites);
  std::vector<int> ids = makeIds(r, n, false);
  double R = r.scale();
  bool ring = r.chance(0.6), oneway = r.chance(0.2);
  double fast = R * r.logu(20, 1e5);
  for (size_t i = 0; i + 1 < n + (ring ? 1 : 0); ++i) {
    int a = ids[i], b = ids[(i + 1) % n];
    bool trap = r.chance(0.3);
    double x = trap ? fast : R * r.logu(0.3, 1);
    s.g[a][b] = x;
    if (!oneway || trap) s.g[b][a] = trap ? (r.chance(0.7) ? fast : fast * r.logu(0.5, 2)) : R * r.logu(0.3, 1);
  }
  if (r.chance(0.3)) s.g.erase(ids[0]);
  s.sites = ids;
  s.tres = r.logu(0.01, 100) / R;
  s.family = "ring with traps";
}

// satellites of a pair of sites: clusters by themselves, until exploring from the pair, which
// sees only the nearest site of each, joins all of them at once
inline void familyHub(Rng& r, Spec& s) {
  size_t k = r.chance(0.3) ? 2 : 3;
  double back = r.logu(0.01, 0.1);
  std::vector<int> ids = makeIds(r, 2 + 3 * k + 1, false);
  double R = r.scale();
  auto near = [&](double x) { return R * x * r.flat(0.97, 1.03); };
  pairRates(s.g, ids[0], ids[1], near(1), near(1));
  // in equal steps: exploration continues at 0.9999 of the slowest rate
  double off = R * r.flat(0.28, 0.32);
  for (size_t i = 0; i < k; ++i) {
    const int* v = &ids[2 + 3 * i];
    bool three = r.chance(0.3);
    s.g[r.chance(0.5) ? ids[0] : ids[1]][v[0]] = off;
    s.g[v[0]][r.chance(0.5) ? ids[0] : ids[1]] = near(back);
    double in = near(0.2);
    pairRates(s.g, v[0], v[1], in, in);
    if (three) pairRates(s.g, v[1], v[2], in, in);
  }
  double out = R * r.logu(1e-6, 1e-4);
  s.g[ids[0]][ids.back()] = out;
  if (r.chance(0.5)) s.g[ids.back()][ids[1]] = out * r.logu(0.1, 10);
  s.sites = ids;
  s.tres = r.logu(10, 1e4) / back / R;
  s.setPerf = true;
  s.perf = r.logu(0.2, 0.9) / (0.4 * (double)k * (1 / back + 3.5));
  s.threshold = (int)r.range(0, 12);
  s.maxWalkers = (size_t)r.range(1, (int64_t)k + 3);
  s.seed = (unsigned long)r.range(0, 100000);
  s.addition = 0.05;
  s.family = "hub";
  tidy(s);
}

inline Spec makeSpec(Ctx& c) {
  Rng& r = c.rng;
  Spec s;
  if (r.chance(0.07)) {
    familyHub(r, s);
    s.timeOrdered = r.chance(0.6);
    s.removal = r.chance(0.5) ? r.logu(1e-3, 0.1) : 0;
    return s;
  }
  bool large = r.chance(0.02);
  if (large) {
    switch (r.range(0, 2)) {
      case 0: familyLattice(r, s, true); break;
      case 1: familyWells(r, s, 60, 5); break;
      default: familyNested(r, s, 60);
    }
  } else switch (r.range(0, 9)) {
    case 0: case 1: case 2: familyWells(r, s, 6, 5); break;
    case 3: case 4: familyRandom(r, s, 16); break;
    case 5: familyLattice(r, s); break;
    case 6: case 7: case 8: familyNested(r, s, 10); break;
    default: familyRing(r, s, 16);
  }
  tidy(s);
  if (!s.setPerf && r.chance(0.3)) {
    s.setPerf = true;
    s.perf = r.logu(0.02, 3.0);
  }
  s.threshold = r.chance(0.1) ? (int)r.range(0, 2) : (int)r.logu(2, 150);
  s.seed = r.chance(0.1) ? r.u64() : (unsigned long)r.range(0, 100000);
  size_t n = s.sites.size();
  int crowd = (int)r.range(0, 3);
  s.maxWalkers = crowd == 0 ? 1 : crowd == 1 ? (size_t)r.range(1, 3) : crowd == 2 ? (size_t)r.range(1, (int64_t)std::max<size_t>(1, n / 2)) : (size_t)r.range(1, (int64_t)n - 1);
  s.timeOrdered = r.chance(0.6);
  s.removal = r.chance(0.5) ? r.logu(1e-3, 0.1) : 0;
  s.addition = r.chance(0.5) ? r.logu(1e-3, 0.2) : 0;
  return s;
}

struct Quit {};

struct Sim {
  struct Item {
    int id;
    WalkerPtr w;
    double clock;
    int site;
    bool parked;  // stays on a drain for good
  };
  Ctx& c;
  const Spec& s;
  int mask;
  Rng rng;
  Store store;
  mythical::CoarseGrainSystem sys;
  std::vector<Item> items;
  std::set<int> occupied, ids;
  long hops = 0;
  std::map<int, std::set<int>> clusters;
  std::map<int, int> clusterOf;
  std::map<int, double> inc, res;
  std::set<int> dead, everClustered;
  std::map<int, long> stays, lastCount;
  std::map<int, double> budget;  // visits a site may have gained since it was last read
  std::vector<uint64_t> log;
  bool record = false, initialised = false;
  bool settled = false;  // the clusters do not change any more
  bool blind = false;    // the clusters are not looked at
  double unit = 1;       // of the times in the log
  std::function<int(int)> rename;  // the names the system knows the walkers by
  Rng* style = nullptr;  // which of equivalent calls are used
  uint64_t created = 0, enlarged = 0, merged = 0, blocked = 0;
  std::function<void(Sim&)> tick;  // called before every step

  Sim(Ctx& ctx, const Spec& spec, int m, uint64_t seed) : c(ctx), s(spec), mask(m), rng(seed), store(toStore(spec.g)) {
    for (auto& a : s.g)
      if (a.second.empty()) throw std::logic_error("harness: empty set of rates");
  }
  void configure() {
    sys.setTimeResolution(s.tres);
    sys.setRandomSeed(s.seed);
    if (s.setPerf) sys.setPerformanceRatio(s.perf);
    sys.setMinCoarseGrainIterationThreshold(s.threshold);
  }
  void init() {
    sys.initializeSystem(store);
    initialised = true;
    view();
  }
  void note(uint64_t v) {
    if (record) log.push_back(v);
  }
  void note(double d) {
    uint64_t u;
    memcpy(&u, &d, 8);
    note(u);
  }

  void noteTime(double d) { note(d * unit); }
  int name(int id) const { return rename ? rename(id) : id; }
  bool pairForm() {
    bool p = rng.chance(0.5);
    return style ? style->chance(0.5) : p;
  }

  // reads the clusters and compares them with what was known
  void view() {
    bool watch = mask & M04;
    auto cl = sys.getClusters();
    auto rs = sys.getResolutionOfClusters();
    auto in = sys.getTimeIncrementOfClusters();
    std::map<int, std::set<int>> now;
    std::map<int, int> of;
    for (auto& x : cl) {
      std::set<int>& S = now[x.first];
      for (int site : x.second) {
        bool fresh = S.insert(site).second;
        if (watch) {
          REQUIRE_THAT(fresh, "listed-twice", "cluster " << x.first << " lists site " << site << " twice");
          REQUIRE_THAT(!of.count(site), "overlap", "site " << site << " belongs to clusters " << of[site] << " and " << x.first << " after " << hops << " hops");
          REQUIRE_THAT(std::find(s.sites.begin(), s.sites.end(), site) != s.sites.end(), "unknown-site", "cluster " << x.first << " contains the unknown site " << site);
        }
        of[site] = x.first;
      }
    }
    if (watch) {
      for (auto& x : now) {
        REQUIRE_THAT(x.second.size() >= 2, "too-small", "cluster " << x.first << " has " << x.second.size() << " sites after " << hops << " hops");
        REQUIRE_THAT(rs.count(x.first), "resolutions", "no resolution is reported for cluster " << x.first);
        REQUIRE_THAT(in.count(x.first), "increments", "no time increment is reported for cluster " << x.first);
      }
      REQUIRE_THAT(rs.size() == now.size() && in.size() == now.size(), "extra-cluster", rs.size() << " resolutions and " << in.size() << " increments for " << now.size() << " clusters");
      for (int site : s.sites) {
        int id = sys.getClusterIdOfSite(site);
        int want = of.count(site) ? of[site] : mythical::constants::unassignedId;
        REQUIRE_THAT(id == want, "site-disagrees", "site " << site << " reports cluster " << id << ", the clusters say " << want << ", after " << hops << " hops");
      }
      for (auto& x : clusters) {
        if (now.count(x.first)) {
          for (int site : x.second) REQUIRE_THAT(now[x.first].count(site), "site-left", "site " << site << " left cluster " << x.first << " after " << hops << " hops");
        } else {
          int into = of.count(*x.second.begin()) ? of[*x.second.begin()] : mythical::constants::unassignedId;
          REQUIRE_THAT(into != mythical::constants::unassignedId, "dissolved", "cluster " << x.first << " is gone and its site " << *x.second.begin() << " is in no cluster");
          REQUIRE_THAT(into < x.first, "merged-into-larger", "cluster " << x.first << " was merged into " << into);
          REQUIRE_THAT(clusters.count(into), "merged-into-new", "cluster " << x.first << " was merged into " << into << ", which did not exist before");
          for (int site : x.second) REQUIRE_THAT(of.count(site) && of[site] == into, "torn", "sites of cluster " << x.first << " went to different clusters");
        }
      }
      for (auto& x : now) REQUIRE_THAT(!dead.count(x.first), "id-reused", "cluster id " << x.first << " is used again");
      c.event("partitions-checked");
    }
    bool changed = false;
    std::map<int, std::set<int>> touched;
    for (auto& x : now) {
      auto it = clusters.find(x.first);
      if (it == clusters.end()) {
        ++created;
        c.event("clusters-created");
        touched.insert(x);
        changed = true;
      } else if (it->second.size() != x.second.size()) {
        ++enlarged;
        c.event("clusters-enlarged");
        touched.insert(x);
        changed = true;
      }
    }
    int gone = 0;
    for (auto& x : clusters)
      if (!now.count(x.first)) {
        dead.insert(x.first);
        ++merged;
        ++gone;
        c.event("clusters-merged");
        changed = true;
      }
    if (gone > 1) c.event("several-merged-at-once");
    if (gone > 2) c.event("three-merged-at-once");
    if (mask & M05) {
      REQUIRE_THAT(!changed || hops > s.threshold, "too-early", "a cluster appears after " << hops << " hops, the threshold is " << s.threshold);
      for (auto& x : touched) {
        double out = externalRate(s.g, x.second), trav = traversalTime(s.g, x.second);
        REQUIRE_THAT(out > 0 && 1.0 / out > 2 * s.perf * trav * (1 - 1e-9), "not-isolated", "cluster of " << x.second.size() << " sites is left within " << 1.0 / out << " and takes " << trav << " to traverse, performance ratio " << s.perf << ", " << s.family);
        REQUIRE_THAT(2 * trav < s.tres * (1 + 1e-9), "too-slow", "cluster of " << x.second.size() << " sites takes " << trav << " to traverse, time resolution " << s.tres << ", " << s.family);
        c.event("criteria-checked");
      }
    }
    if (mask & M06) {
      for (auto& x : in) {
        REQUIRE_THAT(std::isfinite(x.second) && x.second > 0, "increment", "time increment " << x.second);
        REQUIRE_THAT(x.second <= s.tres * (1 + 1e-9), "increment-too-long", "time increment " << x.second << " exceeds the time resolution " << s.tres << " (cluster of " << now[x.first].size() << " sites, " << hops << " hops, " << s.family << ")");
        REQUIRE_THAT(rs[x.first] >= 2 - 1e-9, "resolution", "resolution " << rs[x.first]);
        if (changed && now[x.first].size() <= 20) {
          ClusterModel m(s.g, now[x.first]);
          double T = m.timeConstant(m.equilibrium());
          // rates over so many decades that rounding decides
          if (!m.resolved()) continue;
          REQUIRE_THAT(x.second <= 0.5 * T * 1.001, "increment-beyond-residence", "time increment " << x.second << " although walkers stay for " << T << " on average (cluster of " << now[x.first].size() << " sites, resolution " << rs[x.first] << ", time resolution " << s.tres << ", " << hops << " hops, " << s.family << ")");
          c.event("residence-times-compared");
        }
        c.event("increments-checked");
      }
    }
    if ((mask & M13) && changed)
      for (auto& x : of) everClustered.insert(x.first);
    clusters.swap(now);
    clusterOf.swap(of);
    inc.clear();
    res.clear();
    inc.insert(in.begin(), in.end());
    res.insert(rs.begin(), rs.end());
    if (changed && record) noteClusters();
  }
  void noteClusters() {
    note((uint64_t)0xc1);
    for (auto& x : clusters) {  // in the order of their ids
      note((uint64_t)x.second.size());
      for (int site : x.second) note((uint64_t)(int64_t)site);
      noteTime(inc[x.first]);
      note(res[x.first]);
    }
  }

  // the announcement a walker carries must fit the clusters as they were when it was made
  void announcement(const Item& it, const std::map<int, int>& of, const std::map<int, std::set<int>>& cl, const std::map<int, double>& incs) {
    if (isDrain(s.g, it.site)) return;
    double d = it.w->getDwellTime();
    int p = mask & (M01 | M02) ? it.w->getPotentialSite() : 0;
    auto k = of.find(it.site);
    if (mask & M02) {
      REQUIRE_THAT(std::isfinite(d) && d > 0, "dwell-time", "dwell time " << d << " on site " << it.site);
      if (k == of.end()) {
        REQUIRE_THAT(s.g.at(it.site).count(p), "no-such-rate", "walker on site " << it.site << " announces " << p << ", there is no rate to it");
        c.event("announcements-on-sites");
      } else {
        const std::set<int>& S = cl.at(k->second);
        bool ok = S.count(p);
        for (int m : S) {
          auto row = s.g.find(m);
          ok = ok || (row != s.g.end() && row->second.count(p));
        }
        REQUIRE_THAT(ok, "no-such-exit", "walker on site " << it.site << " of cluster " << k->second << " announces " << p << ", which the cluster neither contains nor has a rate to");
        c.event("announcements-on-clusters");
      }
    }
    if ((mask & M06) && k != of.end()) {
      REQUIRE_THAT(d <= incs.at(k->second) * (1 + 1e-9), "dwell-exceeds-increment", "dwell time " << d << " on a cluster with time increment " << incs.at(k->second));
      c.event("cluster-dwell-times");
    }
  }

  bool place(size_t n) {
    std::vector<int> freeSites;
    for (int site : s.sites)
      if (!occupied.count(site) && (!isDrain(s.g, site) || rng.chance(0.1))) freeSites.push_back(site);
    rng.shuffle(freeSites);
    if (freeSites.size() < n) n = freeSites.size();
    if (!n) return false;
    std::vector<std::pair<int, WalkerPtr>> v;
    size_t first = items.size();
    double now = items.empty() ? 0 : items[0].clock;
    for (auto& it : items) now = std::min(now, it.clock);
    for (size_t i = 0; i < n; ++i) {
      int id;
      do id = rng.chance(0.7) ? (int)rng.range(0, 40) : (int)rng.range(-1000000, 1000000);
      while (ids.count(id));
      ids.insert(id);
      WalkerPtr w = std::make_shared<mythical::Walker>();
      w->occupySite(freeSites[i]);
      v.push_back(std::make_pair(name(id), w));
      items.push_back({id, w, now, freeSites[i], false});
      occupied.insert(freeSites[i]);
      ++stays[freeSites[i]];
      if (mask & M13) spend(freeSites[i], clusterOf, clusters, inc);
    }
    if (style && style->chance(0.5)) {
      for (auto& x : v) {
        std::vector<std::pair<int, WalkerPtr>> one(1, x);
        sys.initializeWalkers(one);
      }
    } else
      sys.initializeWalkers(v);
    for (size_t i = first; i < items.size(); ++i) {
      Item& it = items[i];
      if (mask & (M01 | M02)) REQUIRE_THAT(it.w->getIdOfSiteCurrentlyOccupying() == it.site, "moved-by-initialisation", "walker placed on site " << it.site << " is reported on " << it.w->getIdOfSiteCurrentlyOccupying());
      announcement(it, clusterOf, clusters, inc);
      if (!isDrain(s.g, it.site)) it.clock = now + it.w->getDwellTime();
      note((uint64_t)(int64_t)it.site);
      if (!isDrain(s.g, it.site)) {
        note((uint64_t)(int64_t)it.w->getPotentialSite());
        noteTime(it.w->getDwellTime());
      }
    }
    c.event("walkers-placed", n);
    return true;
  }

  void remove(size_t i) {
    std::pair<int, WalkerPtr> p(name(items[i].id), items[i].w);
    if (pairForm())
      sys.removeWalkerFromSystem(p);
    else
      sys.removeWalkerFromSystem(p.first, items[i].w);
    occupied.erase(items[i].site);
    ids.erase(items[i].id);
    items.erase(items.begin() + i);
    c.event("walkers-removed");
  }

  struct Copy {
    int site, pot;
    double dwell;
  };
  void hop(size_t i) {
    Item& it = items[i];
    int from = it.site, to = it.w->getPotentialSite();
    bool isFree = !occupied.count(to);
    std::vector<Copy> before;
    if (mask & M02)
      for (auto& o : items) before.push_back({o.w->getIdOfSiteCurrentlyOccupying(), isDrain(s.g, o.site) ? 0 : o.w->getPotentialSite(), o.w->getDwellTime()});
    std::map<int, int> of;
    std::map<int, std::set<int>> cl;
    std::map<int, double> incs;
    if (!settled) {
      of = clusterOf;
      cl = clusters;
      incs = inc;
    }
    if (pairForm()) {
      std::pair<int, WalkerPtr> p(name(it.id), it.w);
      sys.hop(p);
    } else
      sys.hop(name(it.id), it.w);
    ++hops;
    int now = it.w->getIdOfSiteCurrentlyOccupying();
    if (mask & M01) {
      for (size_t j = 0; j < items.size(); ++j)
        if (j != i) REQUIRE_THAT(items[j].w->getIdOfSiteCurrentlyOccupying() != now, "shared-site", "walkers " << it.id << " and " << items[j].id << " are both on site " << now << " after " << hops << " hops (" << s.family << ", came from " << from << ", in a cluster: " << of.count(now) << ")");
      if (isFree) REQUIRE_THAT(now != from || to == from, "free-site-unavailable", "walker " << it.id << " cannot enter site " << to << " although nobody is on it (in a cluster: " << of.count(to) << ")");
      c.event("exclusions-checked");
    }
    if (mask & M02) {
      REQUIRE_THAT(now == (isFree ? to : from), "other-site", "walker " << it.id << " on " << from << " had announced " << to << (isFree ? " (free)" : " (taken)") << " and ends up on " << now);
      for (size_t j = 0; j < items.size(); ++j)
        if (j != i) {
          auto& o = items[j];
          REQUIRE_THAT(o.w->getIdOfSiteCurrentlyOccupying() == before[j].site && (isDrain(s.g, o.site) || o.w->getPotentialSite() == before[j].pot) && o.w->getDwellTime() == before[j].dwell, "bystander", "the hop of walker " << it.id << " changed walker " << o.id);
        }
    }
    if (now != (isFree ? to : from)) throw Quit();
    if (isFree) {
      occupied.erase(from);
      occupied.insert(now);
      c.event("moves");
    } else {
      ++blocked;
      c.event("blocked-hops");
    }
    it.site = now;
    ++stays[now];
    if (settled) {
      it.clock += it.w->getDwellTime();
      return;
    }
    if (!blind) {
      view();
      announcement(it, of, cl, incs);
    }
    if (!isDrain(s.g, now)) it.clock += it.w->getDwellTime();
    if (record) {
      note((uint64_t)(int64_t)it.id);
      note((uint64_t)(int64_t)now);
      if (!isDrain(s.g, now)) {
        note((uint64_t)(int64_t)it.w->getPotentialSite());
        noteTime(it.w->getDwellTime());
      }
    }
    if (mask & M13) {
      spend(now, of, cl, incs);
      spend(now, clusterOf, clusters, inc);
      counts(hops % 16 == 0);
    }
  }

  // a stay on a cluster is at most one increment long, and a visit takes at least
  // the dwell time of the fastest site
  void spend(int site, const std::map<int, int>& of, const std::map<int, std::set<int>>& cl, const std::map<int, double>& incs) {
    auto k = of.find(site);
    if (k == of.end()) {
      budget[site] += 1;
      return;
    }
    double fastest = 0;
    for (int m : cl.at(k->second)) {
      auto row = s.g.find(m);
      double sum = 0;
      if (row != s.g.end())
        for (auto& b : row->second) sum += b.second;
      fastest = std::max(fastest, sum);
    }
    for (int m : cl.at(k->second)) budget[m] += incs.at(k->second) * fastest + 1;
  }

  void counts(bool all) {
    for (int site : s.sites) {
      if (!all && !rng.chance(0.2)) continue;
      long f = sys.getVisitFrequencyOfSite(site);
      if (!everClustered.count(site)) {
        REQUIRE_THAT(f == stays[site], "count", "site " << site << " counts " << f << " visits, " << stays[site] << " stays were begun there (" << s.family << ")");
        c.event("exact-counts");
      } else {
        // at the change of a cluster fractions of a visit may be rounded
        long last = lastCount.count(site) ? lastCount[site] : 0;
        REQUIRE_THAT(f >= last - 1, "lowered", "visits of site " << site << " fall from " << last << " to " << f << " (" << s.family << ")");
        REQUIRE_THAT(f <= last + 2 + 1.01 * budget[site], "raised", "visits of site " << site << " rise from " << last << " to " << f << " while the stays allow for " << budget[site] << " at most (" << s.family << ")");
        c.event("cluster-counts");
        f = std::max(f, last);
      }
      lastCount[site] = f;
      budget[site] = 0;
    }
  }

  // one step of the driver: returns false when nothing can move any more
  bool step() {
    if (tick) tick(*this);
    if (rng.chance(s.addition) && items.size() < s.maxWalkers) place(1);
    std::vector<size_t> able;
    for (size_t i = 0; i < items.size(); ++i)
      if (!items[i].parked) able.push_back(i);
    if (able.empty()) {
      if (items.size() < s.maxWalkers && place(1)) return true;
      return false;
    }
    size_t i = able[0];
    if (s.timeOrdered) {
      for (size_t k : able)
        if (items[k].clock < items[i].clock) i = k;
    } else
      i = rng.pick(able);
    if (isDrain(s.g, items[i].site)) {
      if (rng.chance(0.8))
        remove(i);
      else
        items[i].parked = true;
      return true;
    }
    if (rng.chance(s.removal)) {
      remove(i);
      return true;
    }
    hop(i);
    return true;
  }

  void run(long steps) {
    try {
      if (!initialised) {
        configure();
        init();
      }
      if (items.empty()) place(s.maxWalkers);
      for (long k = 0; k < steps; ++k)
        if (!step()) break;
      if (mask & M13) counts(true);
      if (record)
        for (int site : s.sites) note((uint64_t)(int64_t)sys.getVisitFrequencyOfSite(site));
    } catch (const Quit&) {
      c.event("abandoned");
    }
  }
  void summary(Ctx& cc) {
    cc.mixsig((uint64_t)created * 1000003 + enlarged * 1009 + merged * 13 + blocked);
    cc.mixsig((uint64_t)hops);
    for (auto& x : clusters)
      for (int site : x.second) cc.mixsig((uint64_t)(int64_t)site);
    for (auto& it : items) cc.mixsig(it.clock);
    cc.event("hops", (uint64_t)hops);
    if (cc.index % 25 == 0)
      cc.sample = Msg() << s.family << ": " << s.sites.size() << " sites, up to " << s.maxWalkers << " walkers, threshold " << s.threshold << ", " << hops << " hops, " << created << " clusters created, " << enlarged << " enlarged, " << merged << " merged away, " << blocked << " hops blocked";
  }
};

}  // namespace vf
#endif

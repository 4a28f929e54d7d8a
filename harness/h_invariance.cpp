// C25: the units of time and length are the user's choice. C26: names of walkers, equivalent
// calls and looking at a simulation do not influence it.
#include <climits>
#include <sstream>

#include "libmythical/basin_explorer.hpp"
#include "libmythical/cluster_container.hpp"
#include "libmythical/site_container.hpp"
#include "libmythical/topologyfeatures/cluster.hpp"
#include "mythical/charge_transport/cuboid_lattice.hpp"
#include "sim.hpp"
using namespace vf;
using namespace mythical;
using mythical::charge_transport::BoundarySetting;
using mythical::charge_transport::Cuboid;

typedef std::vector<uint64_t> EventLog;

static void add(EventLog& l, double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  l.push_back(u);
}
static void add(EventLog& l, int64_t i) { l.push_back((uint64_t)i); }

static void same(const EventLog& a, const EventLog& b, const char* key, const std::string& what) {
  size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n; ++i)
    if (a[i] != b[i]) {
      double x, y;
      memcpy(&x, &a[i], 8);
      memcpy(&y, &b[i], 8);
      REQUIRE_THAT(false, key, what << ": the event logs differ at entry " << i << " of " << a.size() << " and " << b.size() << " (" << (int64_t)a[i] << " and " << (int64_t)b[i] << ", or " << x << " and " << y << ")");
    }
  REQUIRE_THAT(a.size() == b.size(), key, what << ": one event log has " << a.size() << " entries, the other " << b.size());
}

static Spec any(Ctx& c) {
  Rng& r = c.rng;
  if (!r.chance(0.5)) return makeSpec(c);
  Spec s;
  if (r.chance(0.2)) {
    familyHub(r, s);
    return s;
  }
  familyNested(r, s, 14);
  s.threshold = (int)r.range(1, 30);
  s.seed = (unsigned long)r.range(0, 100000);
  s.maxWalkers = (size_t)r.range(1, 4);
  s.addition = 0.02;
  return s;
}

// powers of two change no digit
static int exponent(Rng& r) {
  int k = (int)r.range(1, r.chance(0.5) ? 8 : 200);
  return r.chance(0.5) ? k : -k;
}

// ------------------------------------------------------------------ C25
WORKLOAD(C25, systems, 4) {
  Rng& r = c.rng;
  Spec s = any(c);
  int k = exponent(r);
  Spec t = s;
  for (auto& a : t.g)
    for (auto& b : a.second) b.second = std::ldexp(b.second, k);
  t.tres = std::ldexp(s.tres, -k);
  long steps = (long)r.range(100, 800) + 4L * s.threshold;
  uint64_t drv = r.u64();
  Ctx quiet = c;
  Sim a(c, s, 0, drv), b(quiet, t, 0, drv);
  a.record = b.record = true;
  b.unit = std::ldexp(1.0, k);
  a.run(steps);
  b.run(steps);
  same(a.log, b.log, "unit-of-time", Msg() << s.family << " with all rates multiplied by 2^" << k << " and the time resolution divided by it, " << a.created << " and " << b.created << " clusters, " << a.hops << " and " << b.hops << " hops");
  c.event("events-compared", a.log.size());
  a.summary(c);
  c.nontrivial = a.created > 0;
}

WORKLOAD(C25, parts, 2) {
  Rng& r = c.rng;
  size_t n = (size_t)r.range(2, 8);
  ClusterGraph cg = makeClusterGraph(r, n, (size_t)r.range(1, 4), r.flat(0, 5), r.chance(0.3));
  int k = exponent(r);
  unsigned long seed = (unsigned long)r.range(0, 100000);
  Rng drv(r.u64());
  // the tolerances and limits of the parts have no unit
  auto run = [&](int e) {
    Rng q = drv;
    EventLog log;
    Store st = toStore(cg.g);
    for (auto& x : st)
      for (auto& y : x.second) y.second = std::ldexp(y.second, e);
    double u = std::ldexp(1.0, e);
    Site_Container sites;
    Cluster_Container clusters;
    Cluster cl;
    int method = (int)q.range(0, 2);
    if (method == 1) {
      cl.setConvergenceMethod(Cluster::converge_by_iterations_per_site);
      cl.setConvergenceIterations((long)q.range(1, 30));
    } else if (method == 2) {
      cl.setConvergenceMethod(Cluster::converge_by_iterations_per_cluster);
      cl.setConvergenceIterations((long)q.range(1, 60));
    } else if (q.chance(0.5))
      cl.setConvergenceTolerance(q.logu(1e-9, 1e-2));
    for (int id : cg.in) {
      Site s;
      s.setId(id);
      s.setRandomSeed(seed + (unsigned long)id);
      s.setRatesToNeighbors(st[id]);
      for (int i = 0; i < 5; ++i) {
        add(log, s.getDwellTime(i) * u);
        add(log, (int64_t)s.pickNewSiteId(i));
      }
      add(log, s.getTimeConstant() * u);
      add(log, s.getFastestRate() / u);
      for (auto& e2 : s.getProbabilitiesAndIdsOfNeighbors()) {
        add(log, e2.second);
        add(log, (int64_t)e2.first);
      }
      sites.addSite(s);
      add(log, sites.getFastestRateOffSite(id) / u);
      cl.addSite(s);
    }
    cl.setRandomSeed(seed);
    cl.updateProbabilitiesAndTimeConstant();
    cl.setResolution(q.flat(2, 30));
    add(log, cl.getTimeConstant() * u);
    add(log, cl.getTimeIncrement() * u);
    add(log, cl.getFastestRateOffCluster() / u);
    for (int id : cg.in) add(log, cl.getProbabilityOfOccupyingInternalSite(id));
    for (int i = 0; i < 30; ++i) {
      int w = (int)q.range(0, 3);
      cl.occupy(cg.in[0]);
      add(log, cl.getDwellTime(w) * u);
      add(log, (int64_t)cl.pickNewSiteId(w));
      cl.vacate(cg.in[0]);
      if (i % 7 == 3)
        for (int id : cg.in) add(log, (int64_t)cl.getVisitFrequency(id));
    }
    return log;
  };
  EventLog a = run(0), b = run(k);
  same(a, b, "unit-of-time", Msg() << "sites and a cluster of " << n << " with all rates multiplied by 2^" << k);
  c.event("parts-compared", a.size());
  for (uint64_t x : a) c.mixsig(x);
  c.nontrivial = true;
}

WORKLOAD(C25, basins, 1) {
  Rng& r = c.rng;
  Spec s = any(c);
  int k = exponent(r);
  std::vector<std::vector<int>> got[2];
  for (int p = 0; p < 2; ++p) {
    Store st = toStore(s.g);
    if (p)
      for (auto& x : st)
        for (auto& y : x.second) y.second = std::ldexp(y.second, k);
    Site_Container sites;
    Cluster_Container clusters;
    for (int id : s.sites) {
      Site x;
      x.setId(id);
      if (!isDrain(s.g, id)) x.setRatesToNeighbors(st[id]);
      sites.addSite(x);
    }
    for (int id : s.sites)
      if (!isDrain(s.g, id)) {
        BasinExplorer ex;
        ex.setMaxExplorationCount(12);
        got[p].push_back(ex.findBasin(sites, clusters, id));
      }
  }
  REQUIRE_THAT(got[0] == got[1], "unit-of-time", s.family << ": other basins are found when all rates are multiplied by 2^" << k);
  c.event("basins-compared", got[0].size());
  c.mixsig((uint64_t)got[0].size());
  for (auto& v : got[0]) c.mixsig((uint64_t)v.size());
  c.nontrivial = true;
}

WORKLOAD(C25, lattices, 1) {
  Rng& r = c.rng;
  int L = (int)r.range(1, 6), W = (int)r.range(1, 6), H = (int)r.range(1, 6);
  auto bound = [&] { return r.chance(0.5) ? BoundarySetting::Periodic : BoundarySetting::Fixed; };
  BoundarySetting x = bound(), y = bound(), z = bound();
  double d = r.logu(0.01, 100), cutoff = d * r.flat(0.5, 3.5);
  int k = exponent(r);
  double u = std::ldexp(1.0, k);
  Cuboid a(L, W, H, d, x, y, z), b(L, W, H, d * u, x, y, z);
  REQUIRE_THAT(a.getLatticeSpacing() * u == b.getLatticeSpacing(), "unit-of-length", "the spacing is not the one given");
  auto na = a.getNeighborDistances(cutoff), nb = b.getNeighborDistances(cutoff * u);
  REQUIRE_THAT(na.size() == nb.size(), "unit-of-length", "another number of sites has neighbours when lengths are multiplied by 2^" << k);
  for (auto& p : na) {
    auto& q = nb[p.first];
    REQUIRE_THAT(p.second.size() == q.size(), "unit-of-length", "site " << p.first << " has " << p.second.size() << " neighbours, and " << q.size() << " when lengths are multiplied by 2^" << k);
    for (auto& e : p.second) REQUIRE_THAT(q.count(e.first) && q[e.first] == e.second * u, "unit-of-length", "the distance from " << p.first << " to " << e.first << " is not multiplied by 2^" << k << " when lengths are");
  }
  for (int t = 0; t < 20; ++t) {
    int i = (int)r.range(0, L * W * H - 1), j = (int)r.range(0, L * W * H - 1);
    REQUIRE_THAT(a.getSmallestDistance(i, j) * u == b.getSmallestDistance(i, j), "unit-of-length", "the shortest distance from " << i << " to " << j << " is not multiplied by 2^" << k << " when lengths are");
    REQUIRE_THAT(a.getNeighbors(i, cutoff) == b.getNeighbors(i, cutoff * u), "unit-of-length", "site " << i << " has other neighbours when lengths are multiplied by 2^" << k);
  }
  c.event("lattices-compared");
  c.mixsig((uint64_t)(L * 100 + W * 10 + H));
  c.mixsig(d);
  c.nontrivial = L * W * H > 1;
}

// ------------------------------------------------------------------ C26
// injective, and fond of the ends of the range
struct Names {
  Rng r;
  std::map<int, int> to;
  std::set<int> used;
  explicit Names(uint64_t seed) : r(seed) {}
  int operator()(int id) {
    auto it = to.find(id);
    if (it != to.end()) return it->second;
    static const int odd[] = {0, -1, -2, 1, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1};
    int n;
    do n = r.chance(0.4) ? odd[r.range(0, 7)] : (int)r.range(INT_MIN, INT_MAX);
    while (!used.insert(n).second);
    return to[id] = n;
  }
};

// everything a simulation can be asked
static uint64_t look(Rng& r, Sim& s) {
  uint64_t n = 0;
  for (int i = (int)r.range(1, 6); i > 0; --i, ++n) switch (r.range(0, 7)) {
      case 0: s.sys.getClusters(); break;
      case 1: s.sys.getResolutionOfClusters(); break;
      case 2: s.sys.getTimeIncrementOfClusters(); break;
      case 3: s.sys.getTimeResolution(); break;
      case 4: s.sys.getMinCoarseGrainIterationThreshold(); break;
      case 5: s.sys.getVisitFrequencyOfSite(r.pick(s.s.sites)); break;
      case 6: s.sys.getClusterIdOfSite(r.pick(s.s.sites)); break;
      default:
        for (auto& it : s.items) {
          it.w->getIdOfSiteCurrentlyOccupying();
          if (!isDrain(s.s.g, it.site)) it.w->getPotentialSite();
        }
    }
  return n;
}

WORKLOAD(C26, systems, 4) {
  Rng& r = c.rng;
  Spec s = any(c);
  long steps = (long)r.range(100, 800) + 4L * s.threshold;
  uint64_t drv = r.u64();
  bool names = r.chance(0.7), forms = r.chance(0.7), looks = r.chance(0.7);
  Ctx quiet = c;
  Sim a(c, s, 0, drv), b(quiet, s, 0, drv);
  a.record = b.record = a.blind = b.blind = true;
  Names nm(r.u64());
  Rng style(r.u64()), q(r.u64());
  double often = r.logu(0.01, 1);
  uint64_t queries = 0;
  if (names) b.rename = [&](int id) { return nm(id); };
  if (forms) b.style = &style;
  if (looks)
    b.tick = [&](Sim& x) {
      if (q.chance(often)) queries += look(q, x);
    };
  a.run(steps);
  b.run(steps);
  // the counts are compared by C13: reading them rounds
  size_t counts = s.sites.size();
  for (Sim* x : {&a, &b}) x->log.resize(x->log.size() - std::min(counts, x->log.size()));
  same(a.log, b.log, "influenced", Msg() << s.family << ", " << a.hops << " and " << b.hops << " hops" << (names ? ", walkers renamed" : "") << (forms ? ", other forms of the same calls" : "") << (looks ? ", looked at in between" : ""));
  a.view();
  b.view();
  std::set<std::set<int>> pa, pb;
  for (auto& x : a.clusters) pa.insert(x.second);
  for (auto& x : b.clusters) pb.insert(x.second);
  REQUIRE_THAT(pa == pb, "influenced", s.family << ": other clusters" << (names ? ", walkers renamed" : "") << (forms ? ", other forms of the same calls" : "") << (looks ? ", looked at in between" : ""));
  c.event("events-compared", a.log.size());
  if (names) c.event("walkers-renamed", nm.to.size());
  if (forms) c.event("other-forms");
  c.event("queries", queries);
  c.event("clusters-alike", pa.size());
  a.summary(c);
  c.nontrivial = !pa.empty() && (names || forms || looks);
}

// a cluster by itself: walkers of any name, read in between or not
WORKLOAD(C26, clusters, 2) {
  Rng& r = c.rng;
  size_t n = (size_t)r.range(2, 8);
  ClusterGraph cg = makeClusterGraph(r, n, (size_t)r.range(1, 4), r.flat(0, 4), r.chance(0.3));
  unsigned long seed = (unsigned long)r.range(0, 100000);
  Rng drv(r.u64());
  uint64_t nameSeed = r.u64(), lookSeed = r.u64();
  auto run = [&](bool other, uint64_t& queries) {
    Rng q = drv, l(lookSeed);
    Names nm(nameSeed);
    auto name = [&](int w) { return other ? nm(w) : w; };
    EventLog log;
    Store st = toStore(cg.g);
    Cluster cl;
    auto look = [&] {
      if (!other) return;
      for (int i = (int)l.range(0, 4); i > 0; --i, ++queries) switch (l.range(0, 8)) {
          case 0: cl.getSiteIdsInCluster(); break;
          case 1: cl.getSiteIdsNeighboringCluster(); break;
          case 2: cl.getProbabilityOfOccupyingInternalSite(l.pick(cg.in)); break;
          case 3: cl.getTimeConstant(); break;
          case 4: cl.getTimeIncrement(); break;
          case 5: cl.isOccupied(l.pick(cg.in)); break;
          case 6: cl.getFastestRateOffCluster(); break;
          case 7: {
            std::ostringstream o;
            o << cl;
            break;
          }
          default: cl.getNumberOfSitesInCluster();
        }
    };
    cl.setRandomSeed(seed);
    for (int id : cg.in) {
      Site s;
      s.setId(id);
      s.setRatesToNeighbors(st[id]);
      cl.addSite(s);
    }
    cl.updateProbabilitiesAndTimeConstant();
    cl.setResolution(q.flat(2, 30));
    std::map<int, int> at;
    for (int i = 0; i < 150; ++i) {
      look();
      int w = (int)q.range(0, (int64_t)n - 1);
      if (at.count(w)) {
        if (q.chance(0.1)) {
          cl.removeWalker(name(w), at[w]);
          at.erase(w);
          continue;
        }
        cl.vacate(at[w]);
      }
      int to = -1;
      for (int id : cg.in)
        if (!cl.isOccupied(id)) to = id;
      cl.occupy(to);
      at[w] = to;
      look();
      add(log, cl.getDwellTime(name(w)));
      look();
      int next = cl.pickNewSiteId(name(w));
      add(log, (int64_t)next);
      if (!cl.siteIsInCluster(next)) {
        cl.vacate(to);
        at.erase(w);
      }
    }
    for (int id : cg.in) add(log, (int64_t)cl.isOccupied(id));
    return log;
  };
  uint64_t queries = 0, none = 0;
  EventLog a = run(false, none), b = run(true, queries);
  same(a, b, "influenced", Msg() << "a cluster of " << n << " sites, walkers renamed, looked at in between");
  c.event("cluster-events-compared", a.size());
  c.event("cluster-queries", queries);
  for (uint64_t x : a) c.mixsig(x);
  c.nontrivial = true;
}

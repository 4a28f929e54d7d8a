// C07: same seed, same calls, same trajectory. C08: rejected calls change nothing.
#include "sim.hpp"
#include "libmythical/topologyfeatures/cluster.hpp"
using namespace vf;
using namespace mythical;

static std::string digest(const std::vector<uint64_t>& log) {
  uint64_t h = 0x1234;
  for (uint64_t x : log) h = mix(h ^ x);
  char b[32];
  snprintf(b, sizeof b, "%016llx/%zu", (unsigned long long)h, log.size());
  return b;
}
static void sameLog(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b, const char* key, const std::string& what) {
  size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n; ++i) REQUIRE_THAT(a[i] == b[i], key, what << ": the event logs differ at entry " << i << " of " << a.size() << " and " << b.size());
  REQUIRE_THAT(a.size() == b.size(), key, what << ": one event log has " << a.size() << " entries, the other " << b.size());
}

// ------------------------------------------------------------------ C07
struct Junk {
  std::vector<std::vector<char>> blocks;
  std::vector<std::unique_ptr<Cluster>> clusters;
  std::vector<std::unique_ptr<Site>> sites;
};
// moves the heap and every process-wide counter
static void churn(Rng& r, Junk& j) {
  int n = (int)r.range(5, 200);
  for (int i = 0; i < n; ++i) j.blocks.emplace_back((size_t)r.logu(1, 5000));
  for (int i = 0; i < n / 2; ++i) {
    size_t k = (size_t)r.range(0, (int64_t)j.blocks.size() - 1);
    j.blocks.erase(j.blocks.begin() + k);
  }
  n = (int)r.range(0, 30);
  for (int i = 0; i < n; ++i) j.clusters.emplace_back(new Cluster());
  n = (int)r.range(0, 10);
  for (int i = 0; i < n; ++i) j.sites.emplace_back(new Site());
}

WORKLOAD(C07, twins, 4) {
  Rng& r = c.rng;
  Spec s;
  if (r.chance(0.5)) {
    familyNested(r, s, 14);
    s.threshold = (int)r.range(1, 30);
    s.seed = r.chance(0.3) ? r.u64() : (unsigned long)r.range(0, 100000);
    s.maxWalkers = (size_t)r.range(1, 4);
    s.addition = 0.02;
  } else
    s = makeSpec(c);
  long steps = (long)r.range(100, 1200) + 4L * s.threshold;
  uint64_t drv = r.u64();
  Ctx quiet = c;
  Sim a(c, s, 0, drv);
  a.record = true;
  a.run(steps);
  Junk j;
  churn(r, j);
  Spec so = makeSpec(c);
  Sim other(quiet, so, 0, r.u64());
  if (r.chance(0.7)) other.run(50);
  Sim b(quiet, s, 0, drv);
  b.record = true;
  Rng cr(r.u64());
  if (r.chance(0.5))
    b.tick = [&](Sim&) {
      if (cr.chance(0.05)) churn(cr, j);
      if (other.initialised && cr.chance(0.2)) other.step();
    };
  b.run(steps);
  sameLog(a.log, b.log, "not-reproducible", Msg() << s.family << ", seed " << s.seed << ", " << a.hops << " hops, " << a.created << " clusters created, " << a.enlarged << " enlarged");
  c.trace = digest(a.log);
  c.event("events-compared", a.log.size());
  a.summary(c);
  c.nontrivial = a.created > 0;
}

// several clusters joined at once; the other simulation runs in a process in which clusters are
// made all the time, so that those of the simulation have quite other ids
WORKLOAD(C07, hubs, 2) {
  Rng& r = c.rng;
  Spec s;
  familyHub(r, s);
  s.timeOrdered = r.chance(0.5);
  long steps = (long)r.range(100, 500);
  uint64_t drv = r.u64();
  Ctx quiet = c;
  Sim a(c, s, 0, drv), b(quiet, s, 0, drv);
  a.record = b.record = true;
  a.run(steps);
  Junk j;
  Rng cr(r.u64());
  long spread = cr.range(1, 40);
  b.tick = [&](Sim&) {
    if (cr.chance(0.7)) return;
    for (long i = cr.range(0, spread); i > 0; --i) Cluster unused;
  };
  b.run(steps);
  sameLog(a.log, b.log, "not-reproducible", Msg() << s.family << ", seed " << s.seed << ", " << a.hops << " hops, " << a.created << " clusters created, " << a.merged << " merged into others, with other clusters made in between");
  c.event("events-compared", a.log.size());
  a.summary(c);
  c.nontrivial = a.merged > 0;
}

WORKLOAD(C07, seeds, 1) {
  Rng& r = c.rng;
  Spec s = makeSpec(c);
  // enough choices that two different streams cannot agree by accident
  uint64_t drv = r.u64();
  Sim a(c, s, 0, drv);
  a.record = true;
  a.run(100);
  Spec t = s;
  t.seed = r.chance(0.5) ? s.seed + 1 + (unsigned long)r.range(0, 10) : r.u64();
  if (t.seed == s.seed) t.seed += 1;
  Sim b(c, t, 0, drv);
  b.record = true;
  b.run(100);
  if (a.hops >= 3) REQUIRE_THAT(a.log != b.log, "seed-ignored", "seeds " << s.seed << " and " << t.seed << " give the same trajectory over " << a.hops << " hops");
  c.event("seed-pairs");
  a.summary(c);
  c.nontrivial = a.hops >= 3;
}

// on a cluster every pick belongs to one dwell time
static void exercise(Rng r, TopologyFeature& f, int n, std::vector<uint64_t>& log, bool extra) {
  for (int i = 0; i < n; ++i) {
    int w = (int)r.range(0, 3);
    double d = f.getDwellTime(w);
    uint64_t u;
    memcpy(&u, &d, 8);
    log.push_back(u);
    log.push_back((uint64_t)(int64_t)f.pickNewSiteId(w));
    if (extra && r.chance(0.3)) log.push_back((uint64_t)(int64_t)f.pickNewSiteId(w));
  }
}

WORKLOAD(C07, sites_and_clusters, 2) {
  Rng& r = c.rng;
  size_t n = (size_t)r.range(2, 8);
  ClusterGraph cg = makeClusterGraph(r, n, (size_t)r.range(1, 4), r.flat(0, 3), r.chance(0.3));
  unsigned long seed = r.chance(0.5) ? r.u64() : (unsigned long)r.range(0, 1000), seed2 = seed + 1 + (unsigned long)r.range(0, 5);
  Rng drv(r.u64());
  Junk j;
  std::vector<uint64_t> log[3];
  int site = r.pick(cg.in);
  bool reseed = r.chance(0.3);
  bool early = r.chance(0.5);
  double res = r.flat(2, 30);
  for (int k = 0; k < 3; ++k) {
    Store st = toStore(cg.g);
    Site s;
    s.setId(site);
    s.setRandomSeed(k == 2 ? seed2 : seed);
    s.setRatesToNeighbors(st[site]);
    if (reseed) {
      std::vector<uint64_t> waste;
      exercise(drv, s, 5, waste, true);
      s.setRandomSeed(k == 2 ? seed2 : seed);
    }
    exercise(drv, s, 40, log[k], true);
    Cluster cl;
    if (early) cl.setRandomSeed(k == 2 ? seed2 : seed);
    for (int id : cg.in) {
      Site x;
      x.setId(id);
      x.setRatesToNeighbors(st[id]);
      cl.addSite(x);
    }
    cl.updateProbabilitiesAndTimeConstant();
    cl.setResolution(res);
    if (!early) cl.setRandomSeed(k == 2 ? seed2 : seed);
    exercise(drv, cl, 60, log[k], false);
    churn(r, j);
  }
  sameLog(log[0], log[1], "feature-not-reproducible", Msg() << "a site and a cluster of " << n << " sites, seed " << seed);
  REQUIRE_THAT(log[0] != log[2], "seed-ignored", "a site and a cluster behave the same with the seeds " << seed << " and " << seed2);
  c.trace = digest(log[0]);
  c.event("events-compared", log[0].size());
  c.mixsig(log[0].back());
  c.mixsig((uint64_t)n);
  c.nontrivial = true;
}

// ------------------------------------------------------------------ C08
template <typename F>
static void mustThrow(Ctx& c, const char* key, const std::string& what, F f) {
  bool thrown = false;
  try {
    f();
  } catch (const std::exception&) {
    thrown = true;
  }
  REQUIRE_THAT(thrown, key, what << " is accepted");
  c.event(key);
}

static int unknownSite(Rng& r, const Spec& s) {
  for (;;) {
    int64_t near = (int64_t)r.pick(s.sites) + r.range(-3, 3);
    int id = r.chance(0.5) && near >= INT32_MIN && near <= INT32_MAX ? (int)near : (int)r.range(-3000000, 3000000);
    if (id != constants::unassignedId && std::find(s.sites.begin(), s.sites.end(), id) == s.sites.end()) return id;
  }
}

static void misuse(Ctx& c, Rng& r, Sim& sim) {
  const Spec& s = sim.s;
  CoarseGrainSystem& sys = sim.sys;
  auto walker = [&](int site, int pot) {
    WalkerPtr w = std::make_shared<Walker>();
    if (site != constants::unassignedId) w->occupySite(site);
    if (pot != constants::unassignedId) w->setPotentialSite(pot);
    return w;
  };
  const int none = constants::unassignedId;
  int known = r.pick(s.sites), bad = unknownSite(r, s);
  int wid = (int)r.range(2000, 3000);
  switch (r.range(0, 11)) {
    case 0:
      mustThrow(c, "seed-after-initialisation", "setting the seed after initialisation", [&] { sys.setRandomSeed(r.u64()); });
      break;
    case 1: {
      Store again = toStore(s.g);
      if (again.empty()) return;
      mustThrow(c, "same-sites-twice", "initialising the same sites twice", [&] { sys.initializeSystem(again); });
      break;
    }
    case 2: {
      // new sites together with one that is known, or leading to one that is known
      Store part;
      int b2 = unknownSite(r, s), b3 = unknownSite(r, s);
      if (r.chance(0.5)) {
        part[b2][b3] = 1.0;
        part[b3][b2] = 1.0;
        part[known][b2] = 2.0;
      } else
        part[b2][known] = 1.0;
      mustThrow(c, "known-site-again", "initialising a known site again", [&] { sys.initializeSystem(part); });
      mustThrow(c, "known-site-again", "asking for a site of a rejected initialisation", [&] { sys.getVisitFrequencyOfSite(b2); });
      mustThrow(c, "known-site-again", "asking for a site of a rejected initialisation", [&] { sys.getClusterIdOfSite(b2); });
      break;
    }
    case 3:
      mustThrow(c, "resolution", "a non-positive time resolution", [&] { sys.setTimeResolution(r.chance(0.3) ? 0.0 : r.chance(0.3) ? -0.0 : -r.logu(1e-300, 1e300)); });
      REQUIRE_THAT(sys.getTimeResolution() == s.tres, "resolution-changed", "the time resolution is " << sys.getTimeResolution() << " instead of " << s.tres);
      break;
    case 4:
      mustThrow(c, "unknown-visits", "asking for the visits of an unknown site", [&] { sys.getVisitFrequencyOfSite(bad); });
      break;
    case 5:
      mustThrow(c, "unknown-cluster-id", "asking for the cluster of an unknown site", [&] { sys.getClusterIdOfSite(bad); });
      break;
    case 6: case 7: {
      // a bad walker, alone or among good ones
      std::vector<std::pair<int, WalkerPtr>> v;
      std::vector<int> freeSites;
      for (int x : s.sites)
        if (!sim.occupied.count(x)) freeSites.push_back(x);
      size_t good = r.chance(0.5) ? 0 : std::min<size_t>(freeSites.size(), (size_t)r.range(1, 3));
      r.shuffle(freeSites);
      for (size_t i = 0; i < good; ++i) v.push_back(std::make_pair(wid + (int)i, walker(freeSites[i], none)));
      size_t at = (size_t)r.range(0, (int64_t)v.size());
      bool unplaced = r.chance(0.5);
      v.insert(v.begin() + at, std::make_pair(wid + 50, walker(unplaced ? none : bad, none)));
      mustThrow(c, unplaced ? "unplaced-walker" : "misplaced-walker", unplaced ? "a walker that is nowhere" : "a walker on an unknown site", [&] { sys.initializeWalkers(v); });
      for (auto& w : v) mustThrow(c, "rejected-walker", "asking a rejected walker for its next site", [&] { w.second->getPotentialSite(); });
      break;
    }
    case 8: {
      WalkerPtr w = walker(none, known);
      mustThrow(c, "hop-unplaced", "a hop of a walker that is nowhere", [&] { sys.hop(wid, w); });
      WalkerPtr w2 = walker(known, none);
      mustThrow(c, "hop-without-target", "a hop of a walker that was never initialised", [&] { sys.hop(wid, w2); });
      REQUIRE_THAT(w2->getIdOfSiteCurrentlyOccupying() == known, "rejected-hop-moved", "a rejected hop moved the walker");
      break;
    }
    case 9: {
      WalkerPtr w = walker(bad, known);
      mustThrow(c, "hop-from-unknown", "a hop from an unknown site", [&] { sys.hop(wid, w); });
      WalkerPtr w2 = walker(known, bad);
      mustThrow(c, "hop-to-unknown", "a hop to an unknown site", [&] { sys.hop(wid, w2); });
      REQUIRE_THAT(w2->getIdOfSiteCurrentlyOccupying() == known && w2->getPotentialSite() == bad, "rejected-hop-moved", "a rejected hop changed the walker");
      break;
    }
    case 10: {
      WalkerPtr w = walker(none, none);
      mustThrow(c, "remove-unplaced", "removing a walker that is nowhere", [&] { sys.removeWalkerFromSystem(wid, w); });
      WalkerPtr w2 = walker(bad, none);
      mustThrow(c, "remove-misplaced", "removing a walker from an unknown site", [&] { sys.removeWalkerFromSystem(wid, w2); });
      break;
    }
    default: {
      // queries are harmless
      REQUIRE_THAT(sys.getMinCoarseGrainIterationThreshold() == s.threshold, "threshold", "the threshold is reported as " << sys.getMinCoarseGrainIterationThreshold() << " instead of " << s.threshold);
      REQUIRE_THAT(sys.getTimeResolution() == s.tres, "resolution-changed", "the time resolution is " << sys.getTimeResolution() << " instead of " << s.tres);
      sys.getVisitFrequencyOfSite(known);
      c.event("harmless-queries");
    }
  }
}

// every site and every cluster of a system draws numbers of its own
WORKLOAD(C07, streams, 1) {
  Rng& r = c.rng;
  Spec s;
  size_t B = (size_t)r.range(2, 7);
  std::vector<std::vector<int>> basin;
  std::vector<size_t> size;
  size_t n = 0;
  for (size_t b = 0; b < B; ++b) {
    size.push_back((size_t)r.range(2, 4));
    n += size.back();
  }
  std::vector<int> ids = makeIds(r, n + 1, false);
  double R = r.scale(), eps = r.logu(1e-3, 1e-2);
  size_t k = 0;
  for (size_t b = 0; b < B; ++b) {
    basin.emplace_back(ids.begin() + k, ids.begin() + k + size[b]);
    k += size[b];
    auto& v = basin.back();
    for (size_t i = 0; i < v.size(); ++i)
      for (size_t j = 0; j < i; ++j) pairRates(s.g, v[i], v[j], R, R);
    s.g[r.pick(v)][ids[n]] = R * eps;
  }
  s.sites = ids;
  s.tres = r.logu(20, 1e4) / R;
  s.threshold = (int)r.range(1, 10);
  s.seed = r.chance(0.5) ? r.u64() : (unsigned long)r.range(0, 50);
  s.family = "alike basins";
  tidy(s);
  Sim sim(c, s, 0, r.u64());
  sim.configure();
  sim.init();
  struct First {
    std::string what;
    double u;
  };
  std::vector<First> first;
  std::set<int> seenSite, seenCluster;
  std::vector<size_t> order;
  for (size_t b = 0; b < B; ++b) order.push_back(b);
  r.shuffle(order);
  for (size_t b : order) {
    std::set<int> S(basin[b].begin(), basin[b].end());
    int cluster = -1;
    double stay = 0, T = 0;
    bool done = false;
    for (int tries = 0; tries < 20 && !done; ++tries) {
      std::vector<std::pair<int, WalkerPtr>> v(1, std::make_pair((int)r.range(0, 100), std::make_shared<mythical::Walker>()));
      auto& w = v[0].second;
      w->occupySite(r.pick(basin[b]));
      sim.sys.initializeWalkers(v);
      bool onCluster = cluster >= 0;
      stay = onCluster ? w->getDwellTime() : 0;
      for (int h = 0; h < 20000; ++h) {
        int site = w->getIdOfSiteCurrentlyOccupying();
        if (!onCluster && seenSite.insert(site).second) {
          double sum = 0;
          for (auto& x : s.g[site]) sum += x.second;
          first.push_back({Msg() << "site " << site, w->getDwellTime() * sum});
        }
        bool before = cluster >= 0;
        sim.sys.hop(v[0]);
        if (!S.count(w->getIdOfSiteCurrentlyOccupying())) {
          if (onCluster) done = true;
          break;
        }
        if (before) {
          onCluster = true;
          stay += w->getDwellTime();
        } else {
          sim.view();
          auto it = sim.clusterOf.find(basin[b][0]);
          if (it != sim.clusterOf.end()) {
            cluster = it->second;
            if (sim.clusters[cluster] != S) return;
            T = sim.inc[cluster] * sim.res[cluster];
          }
        }
      }
      sim.sys.removeWalkerFromSystem(v[0]);
      if (done) {
        first.push_back({Msg() << "the cluster of site " << basin[b][0], stay / T});
        c.event("cluster-streams");
      }
    }
  }
  for (size_t i = 0; i < first.size(); ++i)
    for (size_t j = 0; j < i; ++j)
      REQUIRE_THAT(std::fabs(first[i].u - first[j].u) > 1e-11 * first[i].u, "same-stream", first[i].what << " and " << first[j].what << " draw the same number " << first[i].u << " (seed " << s.seed << ")");
  c.event("site-streams", seenSite.size());
  for (auto& x : first) c.mixsig(x.u);
  c.nontrivial = first.size() > 3;
}


WORKLOAD(C08, twins, 4) {
  Rng& r = c.rng;
  Spec s = makeSpec(c);
  long steps = (long)r.range(50, 500) + 3L * s.threshold;
  uint64_t drv = r.u64();
  Sim a(c, s, 0, drv);
  a.record = true;
  a.run(steps);
  Ctx quiet = c;
  Sim b(quiet, s, 0, drv);
  b.record = true;
  Rng mr(r.u64());
  // out of order: before the resolution is set, before the sites exist
  {
    CoarseGrainSystem& sys = b.sys;
    std::vector<std::pair<int, WalkerPtr>> v(1, std::make_pair(1, std::make_shared<Walker>()));
    v[0].second->occupySite(r.pick(s.sites));
    auto noResolution = [&] {
      if (mr.chance(0.7)) mustThrow(c, "no-resolution", "initialising without a time resolution", [&] { sys.initializeSystem(b.store); });
      if (mr.chance(0.7)) mustThrow(c, "no-resolution-query", "asking for a time resolution that was never set", [&] { sys.getTimeResolution(); });
    };
    auto noSites = [&] {
      if (mr.chance(0.7)) mustThrow(c, "walkers-before-sites", "initialising walkers before the sites", [&] { sys.initializeWalkers(v); });
      if (mr.chance(0.3)) {
        std::vector<std::pair<int, WalkerPtr>> none;
        mustThrow(c, "walkers-before-sites", "initialising no walkers before the sites", [&] { sys.initializeWalkers(none); });
      }
      if (mr.chance(0.5)) mustThrow(c, "unknown-visits", "asking for visits before the sites exist", [&] { sys.getVisitFrequencyOfSite(s.sites[0]); });
      if (mr.chance(0.5)) mustThrow(c, "unknown-cluster-id", "asking for a cluster before the sites exist", [&] { sys.getClusterIdOfSite(s.sites[0]); });
      if (mr.chance(0.5)) mustThrow(c, "hop-before-sites", "a hop before the sites exist", [&] { sys.hop(1, v[0].second); });
    };
    noResolution();
    noSites();
    if (mr.chance(0.7)) {
      mustThrow(c, "resolution", "a non-positive time resolution", [&] { sys.setTimeResolution(mr.chance(0.5) ? 0.0 : -mr.logu(1e-9, 1e9)); });
      noResolution();
    }
    b.configure();
    noSites();
    REQUIRE_THAT(sys.getTimeResolution() == s.tres, "resolution-changed", "the time resolution is " << sys.getTimeResolution() << " instead of " << s.tres);
    b.init();
    if (mr.chance(0.7)) misuse(c, mr, b);
  }
  double p = mr.logu(0.01, 0.3);
  b.tick = [&](Sim& sim) {
    if (mr.chance(p)) misuse(c, mr, sim);
  };
  b.run(steps);
  sameLog(a.log, b.log, "rejected-call-changed-something", Msg() << s.family << ", " << a.hops << " hops, " << a.created << " clusters");
  c.event("events-compared", a.log.size());
  a.summary(c);
  c.nontrivial = a.hops > 10;
}

WORKLOAD(C08, walkers_and_identities, 1) {
  Rng& r = c.rng;
  for (int t = 0; t < 50; ++t) {
    Walker w;
    mustThrow(c, "walker-site-unset", "asking a new walker for its site", [&] { w.getIdOfSiteCurrentlyOccupying(); });
    mustThrow(c, "walker-target-unset", "asking a new walker for its next site", [&] { w.getPotentialSite(); });
    auto some = [&] {
      int k = (int)r.range(0, 3);
      return k == 0 ? 0 : k == 1 ? (int)r.range(-10, 10) : k == 2 ? std::numeric_limits<int>::max() - (int)r.range(0, 1) : std::numeric_limits<int>::min() + 1 + (int)r.range(0, 1);
    };
    int a = some(), b = some();
    double d = r.chance(0.2) ? 0 : r.logu(1e-300, 1e300);
    int order = (int)r.range(0, 1);
    if (order) {
      w.setPotentialSite(b);
      mustThrow(c, "walker-site-unset", "asking a walker without a site for it", [&] { w.getIdOfSiteCurrentlyOccupying(); });
      w.occupySite(a);
    } else {
      w.occupySite(a);
      mustThrow(c, "walker-target-unset", "asking a walker without a next site for it", [&] { w.getPotentialSite(); });
      w.setPotentialSite(b);
    }
    w.setDwellTime(d);
    REQUIRE_THAT(w.getIdOfSiteCurrentlyOccupying() == a && w.getPotentialSite() == b && w.getDwellTime() == d, "walker-values", "a walker returns other values than it was given");
    int a2 = some();
    w.occupySite(a2);
    REQUIRE_THAT(w.getIdOfSiteCurrentlyOccupying() == a2 && w.getPotentialSite() == b && w.getDwellTime() == d, "walker-values", "occupying a site changes more than the site");
    c.mixsig((uint64_t)(int64_t)a);
    Site s;
    mustThrow(c, "identity-unset", "asking a site without id for it", [&] { s.getId(); });
    s.setId(a);
    REQUIRE_THAT(s.getId() == a, "identity", "site id " << s.getId() << " instead of " << a);
    s.setId(b);
    REQUIRE_THAT(s.getId() == b, "identity", "site id " << s.getId() << " instead of " << b);
    c.event("walkers-checked");
  }
  c.nontrivial = true;
}

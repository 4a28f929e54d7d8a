// C03: the statistics of a single walker against the exact Markov chain.
#include "chain.hpp"
#include "sim.hpp"
using namespace vf;

// wells of 2-4 sites and single sites between them, strongly connected; nested wells consist of
// two parts with slower links between them, so that clusters are enlarged or merged on the
// way
static void makeWells(Rng& r, Spec& s, std::map<int, int>& groupOf, bool nest) {
  size_t W = (size_t)r.range(1, 3), singles = (size_t)r.range(W == 1 ? 1 : 0, 3);
  std::vector<size_t> size;
  size_t n = 0;
  for (size_t w = 0; w < W; ++w) {
    size.push_back((size_t)(nest ? r.range(3, 5) : r.range(2, 4)));
    n += size.back();
  }
  std::vector<int> ids = makeIds(r, n + singles, false);
  double R = r.scale();
  double eps = nest ? r.logu(2e-4, 1e-3) : r.logu(5e-4, 3e-3);
  std::vector<std::vector<int>> groups;
  size_t k = 0;
  for (size_t w = 0; w < W; ++w) {
    groups.emplace_back(ids.begin() + k, ids.begin() + k + size[w]);
    k += size[w];
    auto& v = groups.back();
    double rw = R * r.logu(0.5, 2);
    if (nest) {
      size_t h = (size_t)r.range(1, (int64_t)v.size() - 1);
      double link = rw * r.logu(0.02, 0.3);
      for (size_t i = 0; i < v.size(); ++i)
        for (size_t j = 0; j < i; ++j)
          if ((i < h) == (j < h)) pairRates(s.g, v[i], v[j], rw, rw);
      pairRates(s.g, v[(size_t)r.range(0, (int64_t)h - 1)], v[(size_t)r.range((int64_t)h, (int64_t)v.size() - 1)], link, link);
    } else if (v.size() == 2) {
      pairRates(s.g, v[0], v[1], rw, rw * r.logu(0.4, 2.5));
    } else
      for (size_t i = 0; i < v.size(); ++i)
        for (size_t j = 0; j < i; ++j) pairRates(s.g, v[i], v[j], rw, rw);
  }
  for (size_t i = 0; i < singles; ++i) groups.emplace_back(1, ids[n + i]);
  for (size_t i = 0; i < groups.size(); ++i)
    for (int a : groups[i]) groupOf[a] = (int)i;
  auto slow = [&](size_t group) { return R * eps * r.logu(0.3, 1) * (group >= W && r.chance(0.5) ? 20 : 1); };
  for (size_t i = 1; i < groups.size(); ++i) {
    size_t j = (size_t)r.range(0, (int64_t)i - 1);
    pairRates(s.g, r.pick(groups[i]), r.pick(groups[j]), slow(i), slow(j));
  }
  for (size_t e = 0; e < 3; ++e) {
    size_t i = (size_t)r.range(0, (int64_t)groups.size() - 1), j = (size_t)r.range(0, (int64_t)groups.size() - 1);
    if (i == j) continue;
    int a = r.pick(groups[i]), b = r.pick(groups[j]);
    if (!s.g[a].count(b)) s.g[a][b] = slow(i);
  }
  s.sites = ids;
  s.tres = (nest ? r.logu(250, 5e3) : r.logu(8, 3e3)) / R;
  s.threshold = (int)r.range(5, 40);
  s.seed = r.u64();
  s.maxWalkers = 1;
  s.family = nest ? "nested wells and single sites" : "wells and single sites";
  tidy(s);
}

static void statistics(Ctx& c, bool on, bool nest) {
  Rng& r = c.rng;
  Spec s;
  std::map<int, int> groupOf;
  makeWells(r, s, groupOf, nest);
  if (!on) s.threshold = mythical::constants::inf_iterations;
  Sim sim(c, s, 0, r.u64());
  sim.configure();
  sim.init();
  sim.place(1);
  if (isDrain(s.g, sim.items[0].site)) return;
  // let the wells be found, then keep the clusters as they are
  if (on) {
    long warm = 60L * s.threshold + 400;
    for (long k = 0; k < warm; ++k) sim.hop(0);
    sim.sys.setMinCoarseGrainIterationThreshold(mythical::constants::inf_iterations);
  }
  sim.settled = true;
  std::map<int, int> lump;  // site -> lump
  std::vector<std::set<int>> lumps;
  for (auto& x : sim.clusters) {
    for (int a : x.second) lump[a] = (int)lumps.size();
    lumps.push_back(x.second);
  }
  size_t nc = lumps.size();
  for (int a : s.sites)
    if (!lump.count(a)) {
      lump[a] = (int)lumps.size();
      lumps.emplace_back(std::set<int>{a});
    }
  size_t K = lumps.size();
  struct L {
    double T = 0, dev = 0, slack = 0;
    std::map<int, double> exits;
    uint64_t n = 0;
    double total = 0;
    std::map<int, uint64_t> to;
    std::map<int, uint64_t> entry;
    std::map<int, double> te;
    std::vector<double> stays;
  };
  std::vector<L> info(K);
  double worst = 0;
  for (size_t k = 0; k < K; ++k) {
    L& l = info[k];
    ClusterModel m(s.g, lumps[k]);
    std::vector<double> p = k < nc ? m.equilibrium() : std::vector<double>(1, 1.0);
    l.T = m.timeConstant(p);
    l.exits = m.exits(p);
    if (k < nc) {
      l.te = exitTimes(m);
      for (auto& x : l.te) l.dev = std::max(l.dev, std::fabs(x.second / l.T - 1));
      // the system solves the master equation of the cluster to 0.001
      l.slack = 1e-3 + 2 * l.dev;
    } else
      l.slack = 1e-9;
    worst = std::max(worst, l.slack);
  }
  if (worst > 0.25) {
    c.event("skipped-not-isolated");
    return;
  }
  // embedded chain of stays
  long N = c.fast ? (on ? 60000 : 300000) : 8000;
  int ref = -1;
  int cur = lump[sim.items[0].site];
  double t = 0, cycle = 0;
  bool first = true, inCycle = false;
  std::vector<std::vector<double>> cyc;  // per cycle: time on each lump
  std::vector<double> acc(K, 0), len;
  t = 0;
  uint64_t transitions = 0;
  std::map<int, uint64_t> groupEntries;
  for (auto& x : groupOf) groupEntries[x.second] = 0;
  int group = groupOf[sim.items[0].site];
  for (long h = 0; h < N; ++h) {
    double d = sim.items[0].w->getDwellTime();
    // the dwell time was drawn on the current site
    t += d;
    acc[cur] += d;
    cycle += d;
    sim.hop(0);
    int site = sim.items[0].site, nl = lump[site];
    if (groupOf[site] != group) ++groupEntries[group = groupOf[site]];
    if (nl == cur) continue;
    L& l = info[cur];
    ++transitions;
    if (!first) {
      ++l.n;
      l.total += t;
      l.stays.push_back(t);
      ++l.to[site];
    }
    first = false;
    t = 0;
    cur = nl;
    ++info[cur].entry[site];
    if (transitions > 50 && ref < 0) {
      // the lump entered most often so far
      uint64_t best = 0;
      for (size_t k = 0; k < K; ++k)
        if (info[k].n > best) {
          best = info[k].n;
          ref = (int)k;
        }
    }
    if (cur == ref) {
      if (inCycle) {
        cyc.push_back(acc);
        len.push_back(cycle);
      }
      inCycle = true;
      cycle = 0;
      std::fill(acc.begin(), acc.end(), 0.0);
    }
  }
  for (size_t k = 0; k < K; ++k) {
    L& l = info[k];
    if (l.n < 30) continue;
    const char* kind = k < nc ? "a cluster" : "a site";
    REQUIRE_THAT(expMeanOk(l.total / l.n, (double)l.n, l.T, l.slack), "residence", "the mean of " << l.n << " stays on " << kind << " of " << lumps[k].size() << " sites is " << l.total / l.n << ", exact " << l.T << " (allowed deviation " << l.slack << ", coarse graining " << (on ? "on" : "off") << ")");
    REQUIRE_THAT(expShapeOk(l.stays, l.T, l.slack), "residence-shape", l.n << " stays on " << kind << " of " << lumps[k].size() << " sites are not exponentially distributed with mean " << l.T);
    c.event("stays", l.n);
    c.event(k < nc ? "clusters-compared" : "sites-compared");
    for (auto& x : l.to) REQUIRE_THAT(l.exits.count(x.first), "impossible-arrival", "arrival on " << x.first << " without a rate");
    for (auto& x : l.exits) {
      double got = (double)l.to[x.first];
      REQUIRE_THAT(binomOk(got, (double)l.n, x.second, k < nc ? l.slack : 1e-9), "arrivals", "from " << kind << " of " << lumps[k].size() << " sites " << got << " of " << l.n << " walks arrive on " << x.first << ", exact probability " << x.second << " (coarse graining " << (on ? "on" : "off") << ")");
      c.event("arrival-frequencies");
    }
  }
  // long-run fractions of time, from cycles between entries of one lump
  // (a well that was hardly ever reached, or left, makes them meaningless)
  size_t n = cyc.size();
  uint64_t rarest = UINT64_MAX;
  for (auto& x : groupEntries) rarest = std::min(rarest, x.second);
  if (n >= 200 && rarest >= 150) {
    std::map<int, double> pi = stationary(s.g, s.sites);
    double C = 0;
    for (double x : len) C += x;
    for (size_t k = 0; k < K; ++k) {
      double D = 0, want = 0;
      for (auto& v : cyc) D += v[k];
      for (int a : lumps[k]) want += pi[a];
      double f = D / C, var = 0;
      for (size_t i = 0; i < n; ++i) {
        double e = cyc[i][k] - f * len[i];
        var += e * e;
      }
      double sd = std::sqrt(var) / C;
      if (info[k].n < 100) continue;
      REQUIRE_THAT(std::fabs(f - want) <= 10 * sd + (on ? 2.5 * worst * std::min(want, 1 - want) : 0) + 1e-9, "time-fraction", "fraction of time on " << (k < nc ? "a cluster" : "a site") << " is " << f << ", exact " << want << ", standard error " << sd << ", " << n << " cycles (coarse graining " << (on ? "on" : "off") << ")");
      c.event("time-fractions");
    }
  }
  sim.summary(c);
  c.event("transitions", transitions);
  c.nontrivial = on ? nc > 0 && transitions > 100 : transitions > 100;
  if (c.index % 10 == 0) c.sample = Msg() << "coarse graining " << (on ? "on" : "off") << ": " << s.sites.size() << " sites, " << nc << " clusters, " << transitions << " changes of cluster or site in " << N << " hops, " << n << " cycles";
}

WORKLOAD(C03, coarse_grained, 4) { statistics(c, true, false); }
WORKLOAD(C03, nested, 3) { statistics(c, true, true); }
WORKLOAD(C03, plain, 1) { statistics(c, false, c.rng.chance(0.3)); }

// a well with several ways out, entered over and over again: which way and when
WORKLOAD(C03, well_to_drains, 3) {
  Rng& r = c.rng;
  Spec s;
  size_t n = (size_t)r.range(2, 5), D = (size_t)r.range(1, 4);
  std::vector<int> ids = makeIds(r, n + D, false);
  double R = r.scale(), eps = r.logu(1e-5, 2e-3);
  std::set<int> S(ids.begin(), ids.begin() + n);
  int shape = n == 2 ? 1 : (int)r.range(0, 1);
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < i; ++j)
      if (shape || j == 0) pairRates(s.g, ids[i], ids[j], R, n == 2 ? R * r.logu(0.4, 2.5) : R);
  for (size_t d = 0; d < D; ++d) s.g[ids[(size_t)r.range(0, (int64_t)n - 1)]][ids[n + d]] = R * eps * r.logu(0.2, 1);
  s.sites = ids;
  s.tres = r.logu(8, 1e5) / R;
  s.threshold = (int)r.range(3, 30);
  s.seed = r.u64();
  s.family = "well with drains";
  tidy(s);
  Sim sim(c, s, 0, r.u64());
  sim.configure();
  sim.init();
  long N = c.fast ? 3000 : 400;
  ClusterModel m(s.g, S);
  std::vector<double> p = m.equilibrium();
  double T = m.timeConstant(p), dev = 0, slack;
  for (auto& x : exitTimes(m)) dev = std::max(dev, std::fabs(x.second / T - 1));
  slack = 1e-3 + 2 * dev;
  if (slack > 0.25) {
    c.event("skipped-not-isolated");
    return;
  }
  auto exits = m.exits(p);
  std::map<int, uint64_t> to;
  std::vector<double> stays;
  double total = 0;
  long guard = 0, limit = N * 2000;
  bool clustered = false;
  while ((long)stays.size() < N && guard < limit) {
    std::vector<std::pair<int, WalkerPtr>> v(1, std::make_pair((int)r.range(0, 5), std::make_shared<mythical::Walker>()));
    v[0].second->occupySite(ids[(size_t)r.range(0, (int64_t)n - 1)]);
    sim.sys.initializeWalkers(v);
    bool counted = clustered;
    double t = v[0].second->getDwellTime();
    for (;;) {
      sim.sys.hop(v[0]);
      ++guard;
      if (!clustered) {
        auto cl = sim.sys.getClusters();
        clustered = cl.size() == 1 && std::set<int>(cl.begin()->second.begin(), cl.begin()->second.end()) == S;
      }
      int site = v[0].second->getIdOfSiteCurrentlyOccupying();
      if (!S.count(site)) {
        if (counted) {
          ++to[site];
          stays.push_back(t);
          total += t;
        }
        break;
      }
      t += v[0].second->getDwellTime();
      if (guard >= limit || (!clustered && guard > 200000)) return;
    }
    sim.sys.removeWalkerFromSystem(v[0]);
  }
  double k = (double)stays.size();
  REQUIRE_THAT(expMeanOk(total / k, k, T, slack), "residence", "the mean of " << k << " stays on a well of " << n << " sites is " << total / k << ", exact " << T);
  REQUIRE_THAT(expShapeOk(stays, T, slack), "residence-shape", k << " stays on a well of " << n << " sites are not exponentially distributed with mean " << T);
  for (auto& x : exits) REQUIRE_THAT(binomOk((double)to[x.first], k, x.second, slack), "arrivals", to[x.first] << " of " << k << " walks leave a well of " << n << " sites to " << x.first << ", exact probability " << x.second);
  c.event("stays", stays.size());
  c.event("arrival-frequencies", exits.size());
  c.mixsig(total);
  c.nontrivial = true;
}

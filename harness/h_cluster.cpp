#include "model.hpp"
#include "libmythical/topologyfeatures/cluster.hpp"
using namespace vf;
using namespace mythical;

// A set of clusters over one rate graph, and the model of what they contain
struct World {
  Graph g;
  Store st;
  std::map<int, Site> spare;             // sites not in any cluster
  std::map<int, bool> occ;               // occupancy of every site
  std::vector<std::unique_ptr<Cluster>> cl;
  std::vector<std::set<int>> members;

  void bind(const Graph& graph, const std::vector<int>& ids, Rng& r) {
    g = graph;
    st = toStore(g);
    for (int id : ids) {
      Site s;
      s.setId(id);
      s.setRandomSeed(r.u64());
      s.setRatesToNeighbors(st[id]);
      spare[id] = s;
      occ[id] = false;
    }
  }
  size_t addCluster(Rng& r) {
    cl.emplace_back(new Cluster());
    cl.back()->setRandomSeed(r.u64());
    members.emplace_back();
    return cl.size() - 1;
  }
  void add(Rng& r, size_t k, const std::vector<int>& ids) {
    if (r.chance(0.5)) {
      for (int id : ids) {
        cl[k]->addSite(spare[id]);
        spare.erase(id);
        members[k].insert(id);
      }
    } else {
      std::vector<Site> v;
      for (int id : ids) v.push_back(spare[id]);
      cl[k]->addSites(v);
      for (int id : ids) {
        spare.erase(id);
        members[k].insert(id);
      }
    }
  }
  void migrate(size_t to, size_t from) {
    cl[to]->migrateSitesFrom(*cl[from]);
    members[to].insert(members[from].begin(), members[from].end());
    members[from].clear();
  }
};

static std::vector<double> reported(Cluster& cl, const ClusterModel& m) {
  std::vector<double> p;
  for (int id : m.id) p.push_back(cl.getProbabilityOfOccupyingInternalSite(id));
  return p;
}
static void sane(const std::vector<double>& p) {
  double t = 0;
  for (double x : p) {
    REQUIRE_THAT(x >= 0 && x <= 1 + 1e-9 && std::isfinite(x), "probability-range", "occupation probability " << x);
    t += x;
  }
  REQUIRE_THAT(close(t, 1.0, 1e-9), "probability-sum", "occupation probabilities sum to " << t << " over " << p.size() << " sites");
}
static double norm(const std::vector<double>& a, const std::vector<double>& b) {
  double t = 0;
  for (size_t i = 0; i < a.size(); ++i) t += (a[i] - b[i]) * (a[i] - b[i]);
  return std::sqrt(t);
}
// iterations of the lazy chain, from the uniform distribution, until close to equilibrium
static long mixing(const ClusterModel& m, const std::vector<double>& eq, double eps, long cap) {
  std::vector<double> p(m.id.size(), 1.0 / m.id.size());
  for (long k = 0; k < cap; ++k) {
    if (norm(p, eq) < eps) return k;
    std::vector<double> q = m.step(p);
    for (size_t i = 0; i < p.size(); ++i) p[i] = 0.5 * (p[i] + q[i]);
  }
  return cap;
}

// Build clusters over a connected graph by one of several routes; afterwards
// cluster 0 holds all sites in "all". ext: outside sites.
struct Built {
  World w;
  std::vector<int> all;
};
static void buildByHistory(Ctx& c, Built& b, size_t n, size_t m, double decades, bool directed, std::function<void(Cluster&)> conf, double extScale = 1.0) {
  Rng& r = c.rng;
  ClusterGraph cg = makeClusterGraph(r, n, m, decades, directed, extScale);
  b.w.bind(cg.g, cg.in, r);
  b.all = cg.in;
  int route = n < 4 ? 0 : (int)r.range(0, 3);
  World& w = b.w;
  w.addCluster(r);
  conf(*w.cl[0]);
  auto usable = [&](size_t from, size_t to) {
    std::set<int> S(b.all.begin() + from, b.all.begin() + to);
    return S.size() > 1 && connected(w.g, S) && externalRate(w.g, S) > 0;
  };
  // cut points between the portions; every intermediate cluster has to be one
  // a walker can move around in and leave
  std::vector<size_t> cut;
  for (int attempt = 0; attempt < 20 && route; ++attempt) {
    cut.assign(1, 0);
    if (attempt) r.shuffle(b.all);
    bool ok = true;
    if (route == 1) {
      size_t i = (size_t)r.range(2, (int64_t)n - 1);
      while (i < n) {
        cut.push_back(i);
        ok = ok && usable(0, i);
        i += (size_t)r.range(1, (int64_t)(n - i));
      }
      cut.push_back(n);
    } else {
      size_t parts = n >= 6 && r.chance(0.5) ? 3 : 2, i = 0;
      for (size_t p = 0; p < parts; ++p) {
        size_t left = n - i, k = p + 1 == parts ? left : (size_t)r.range(2, (int64_t)(left - 2 * (parts - 1 - p)));
        ok = ok && usable(i, i + k);
        i += k;
        cut.push_back(i);
      }
    }
    if (ok) break;
    if (attempt == 19) route = 0;
  }
  auto portion = [&](size_t p) { return std::vector<int>(b.all.begin() + cut[p], b.all.begin() + cut[p + 1]); };
  if (route == 0) {
    w.add(r, 0, b.all);
    w.cl[0]->updateProbabilitiesAndTimeConstant();
    c.event("built-at-once");
  } else if (route == 1) {
    // grow in portions with updates
    for (size_t p = 0; p + 1 < cut.size(); ++p) {
      w.add(r, 0, portion(p));
      w.cl[0]->updateProbabilitiesAndTimeConstant();
    }
    c.event("built-by-growth");
  } else {
    // merge two or three clusters
    size_t parts = cut.size() - 1;
    for (size_t p = 0; p < parts; ++p) {
      if (p) w.addCluster(r);
      conf(*w.cl[p]);
      w.add(r, p, portion(p));
      w.cl[p]->updateProbabilitiesAndTimeConstant();
    }
    auto joined = [&](size_t a, size_t z) {
      std::set<int> S(w.members[a]);
      S.insert(w.members[z].begin(), w.members[z].end());
      return S.size() == n || (connected(w.g, S) && externalRate(w.g, S) > 0);
    };
    if (parts == 3 && joined(1, 2) && (r.chance(0.5) || !joined(0, 1))) {
      w.migrate(1, 2);
      w.migrate(0, 1);
    } else if (parts == 3 && !joined(0, 1)) {
      w.migrate(0, 2);
      w.migrate(0, 1);
    } else
      for (size_t p = 1; p < parts; ++p) w.migrate(0, p);
    c.event("built-by-merging");
  }
}

// ------------------------------------------------------------------ C09
static void compareEquilibrium(Ctx& c, Cluster& cl, const Graph& g, const std::set<int>& S, const char* how, double tol) {
  ClusterModel m(g, S);
  std::vector<double> p = reported(cl, m);
  sane(p);
  std::vector<double> eq = m.equilibrium();
  for (size_t i = 0; i < p.size(); ++i)
    REQUIRE_THAT(std::fabs(p[i] - eq[i]) <= tol, "equilibrium", "occupation probability of site " << m.id[i] << " is " << p[i] << ", equilibrium " << eq[i] << " (" << how << ", " << S.size() << " sites)");
  c.event("equilibria-compared");
}

// moderate rates: the exact equilibrium, by each convergence method
WORKLOAD(C09, equilibrium, 4) {
  Rng& r = c.rng;
  Built b;
  size_t n = r.chance(0.1) ? (size_t)r.range(11, 30) : (size_t)r.range(2, 8);
  // a first look at the graph tells how many iterations are needed
  int method = (int)r.range(0, 2);
  double tol = r.logu(1e-12, 1e-10);
  bool directed = r.chance(0.4);
  // converge generously while building, then reconfigure and update
  buildByHistory(c, b, n, (size_t)r.range(1, 4), r.flat(0, 1.5), directed, [&](Cluster& cl) {
    cl.setConvergenceMethod(Cluster::converge_by_tolerance);
    cl.setConvergenceTolerance(tol);
  });
  Cluster& cl = *b.w.cl[0];
  std::set<int> S(b.all.begin(), b.all.end());
  compareEquilibrium(c, cl, b.w.g, S, "tolerance", 1e-6);
  ClusterModel m(b.w.g, S);
  std::vector<double> eq = m.equilibrium();
  long need = mixing(m, eq, 1e-9, 20000);
  if (method && need < 20000) {
    long N = need + 5;
    if (method == 1) {
      cl.setConvergenceMethod(Cluster::converge_by_iterations_per_cluster);
      cl.setConvergenceIterations(N);
      REQUIRE_THAT(cl.getConvergenceIterations() == N, "getter", "iterations are reported as " << cl.getConvergenceIterations());
    } else {
      cl.setConvergenceMethod(Cluster::converge_by_iterations_per_site);
      cl.setConvergenceIterations(N / (long)n + 1);
    }
    cl.updateProbabilitiesAndTimeConstant();
    compareEquilibrium(c, cl, b.w.g, S, method == 1 ? "iterations per cluster" : "iterations per site", 1e-6);
    if (method == 2) c.event("per-site"); else c.event("per-cluster");
  }
  // a fresh cluster in the default configuration is a proper distribution too
  Cluster def;
  World w2;
  w2.bind(b.w.g, b.all, r);
  w2.addCluster(r);
  w2.add(r, 0, b.all);
  w2.cl[0]->updateProbabilitiesAndTimeConstant();
  sane(reported(*w2.cl[0], m));
  c.mixsig(eq[0]);
  c.mixsig((uint64_t)n);
  c.nontrivial = n > 2;
  if (c.index % 50 == 0) c.sample = Msg() << n << " sites, " << (directed ? "one-way and two-way" : "two-way") << " rates, first probability " << eq[0];
}

// rates over many orders of magnitude: the residual of the master equation
WORKLOAD(C09, residual, 3) {
  Rng& r = c.rng;
  Built b;
  double decades = r.chance(0.4) ? r.flat(0, 1) : r.flat(0, 10);
  double tol = r.logu(1e-11, 1e-2);
  size_t n = r.chance(0.15) ? (size_t)r.range(10, 40) : (size_t)r.range(2, 9);
  buildByHistory(c, b, n, (size_t)r.range(1, 6), decades, r.chance(0.4), [&](Cluster& cl) {
    cl.setConvergenceMethod(Cluster::converge_by_tolerance);
    cl.setConvergenceTolerance(tol);
    REQUIRE_THAT(cl.getConvergenceTolerance() == tol, "getter", "tolerance is reported as " << cl.getConvergenceTolerance());
  });
  std::set<int> S(b.all.begin(), b.all.end());
  ClusterModel m(b.w.g, S);
  std::vector<double> p = reported(*b.w.cl[0], m);
  sane(p);
  std::vector<double> q = m.step(p);
  double res = norm(p, q);
  // the last step changed at most tol; renormalising after losses off the
  // cluster amplifies that by the inverse of the probability to stay
  double stay = 0;
  for (size_t i = 0; i < p.size(); ++i)
    for (double x : m.Q[i]) stay += p[i] * x;
  REQUIRE_THAT(res <= tol * (4 + 3 * std::sqrt((double)n) / stay) + 1e-12, "residual", "one more hop changes the distribution by " << res << ", tolerance " << tol << ", " << n << " sites");
  c.event("residuals");
  std::vector<double> eq = m.equilibrium();
  if (m.resolved()) {
    REQUIRE_THAT(norm(p, eq) <= 1.01 * tol + 1e-8, "not-converged", "the distribution is " << norm(p, eq) << " from equilibrium, tolerance " << tol << ", " << n << " sites, " << m.doublings << " doublings");
    c.event("distances-from-equilibrium");
  } else
    c.event("unresolved");
  c.mixsig(res);
  c.mixsig((uint64_t)n);
  c.nontrivial = n > 2;
}

// externally changed rates are used after the next update
WORKLOAD(C09, changed_rates, 2) {
  Rng& r = c.rng;
  Built b;
  size_t n = (size_t)r.range(2, 8);
  buildByHistory(c, b, n, (size_t)r.range(1, 4), 1.0, r.chance(0.3), [&](Cluster& cl) {
    cl.setConvergenceMethod(Cluster::converge_by_tolerance);
    cl.setConvergenceTolerance(1e-12);
  });
  std::set<int> S(b.all.begin(), b.all.end());
  Cluster& cl = *b.w.cl[0];
  for (int round = 0; round < 4; ++round) {
    for (int s : b.all)
      for (auto& x : b.w.st[s])
        if (r.chance(0.4)) {
          x.second *= r.logu(0.2, 5);
          b.w.g[s][x.first] = x.second;
        }
    cl.updateProbabilitiesAndTimeConstant();
    compareEquilibrium(c, cl, b.w.g, S, "after changing rates", 1e-6);
    ClusterModel m(b.w.g, S);
    std::vector<double> p = reported(cl, m);
    REQUIRE_THAT(close(cl.getTimeConstant(), m.timeConstant(p), 1e-8), "stale-time-constant", "time constant " << cl.getTimeConstant() << " after changing rates, expected " << m.timeConstant(p));
    auto ex = m.exits(p);
    for (auto& e : ex) REQUIRE_THAT(close(cl.getProbabilityOfHoppingToNeighborOfCluster(e.first), e.second, 1e-8), "stale-exits", "exit probability to " << e.first << " after changing rates");
    c.event("rate-changes");
    c.mixsig(p[0]);
  }
  c.nontrivial = true;
}

// as documented: n iterations per site on a cluster of m sites are n*m iterations
WORKLOAD(C09, iterations, 1) {
  Rng& r = c.rng;
  Built b;
  size_t n = (size_t)r.range(2, 12);
  long N = r.chance(0.7) ? (long)r.range(1, 12) : (long)r.range(1, 200);
  int mode = (int)r.range(0, 1);
  buildByHistory(c, b, n, (size_t)r.range(1, 4), r.flat(0, 4), r.chance(0.4), [&](Cluster& cl) {
    cl.setConvergenceMethod(Cluster::converge_by_iterations_per_site);
    cl.setConvergenceIterations(N);
  });
  std::set<int> S(b.all.begin(), b.all.end());
  ClusterModel m(b.w.g, S);
  World w2;
  w2.bind(b.w.g, b.all, r);
  w2.addCluster(r);
  w2.cl[0]->setConvergenceMethod(Cluster::converge_by_iterations_per_cluster);
  w2.cl[0]->setConvergenceIterations(N * (long)n);
  w2.add(r, 0, b.all);
  w2.cl[0]->updateProbabilitiesAndTimeConstant();
  if (mode) b.w.cl[0]->updateProbabilitiesAndTimeConstant();
  std::vector<double> p = reported(*b.w.cl[0], m), q = reported(*w2.cl[0], m);
  sane(p);
  sane(q);
  for (size_t i = 0; i < p.size(); ++i)
    REQUIRE_THAT(close(p[i], q[i], 1e-9, 1e-12), "iteration-count", N << " iterations per site on " << n << " sites give " << p[i] << " on site " << m.id[i] << ", " << N * (long)n << " iterations give " << q[i]);
  // more iterations bring the distribution closer to equilibrium, by much if there are enough of them
  std::vector<double> eq = m.equilibrium();
  if (mixing(m, eq, 1e-9, N * (long)n) < N * (long)n) {
    REQUIRE_THAT(norm(q, eq) < 1e-6, "equilibrium", "distribution is " << norm(q, eq) << " from equilibrium after " << N * (long)n << " iterations");
    c.event("converged");
  }
  c.event("iteration-counts");
  c.mixsig(p[0]);
  c.mixsig((uint64_t)N);
  c.nontrivial = n > 2;
}

// ------------------------------------------------------------------ C10
// walkers come, move, leave and are removed, the resolution and the rates
// change while they are there
WORKLOAD(C10, histories, 3) {
  Rng& r = c.rng;
  Built b;
  size_t n = (size_t)r.range(2, 7);
  buildByHistory(c, b, n, (size_t)r.range(1, 4), r.flat(0, 2), r.chance(0.3), [&](Cluster&) {});
  std::set<int> S(b.all.begin(), b.all.end());
  Cluster& cl = *b.w.cl[0];
  const double values[3] = {2.0, 5.5, 13.0};
  double res = cl.getResolution();
  int ri = -1;
  std::vector<int> ids = makeIds(r, (size_t)r.range(1, 2 * (int64_t)n));
  struct In {
    int site, next;
    bool old;  // was there when the rates changed
    int pieces;
  };
  std::map<int, In> in;
  std::map<int, int> at;  // site -> walker
  std::set<int> removed;
  double trials[3][2] = {{0}}, leaves[3][2] = {{0}};
  double T = cl.getTimeConstant();
  auto piece = [&](int w, In& x, bool afresh) {
    double d = cl.getDwellTime(w);
    double inc = T / res;
    REQUIRE_THAT(d > 0 && std::isfinite(d), "piece", "walker " << w << " is given " << d << (afresh ? " on arrival" : "") << (removed.count(w) ? " after having been removed before" : ""));
    REQUIRE_THAT(d <= inc * (1 + 1e-9), "piece", "piece " << d << " is longer than " << inc << ", time constant " << T << " resolution " << res);
    x.next = cl.pickNewSiteId(w);
    bool leaves_ = !S.count(x.next);
    REQUIRE_THAT(leaves_ || close(d, inc, 1e-9), "short-piece", "walker " << w << " stays on the cluster but is given " << d << " instead of " << inc);
    ++x.pieces;
    if (ri >= 0 && !x.old) {
      int k = afresh && removed.count(w) ? 1 : 0;
      trials[ri][k] += 1;
      leaves[ri][k] += leaves_;
    }
    c.event("pieces");
  };
  int steps = c.fast ? 12000 : 1500;
  for (int k = 0; k < steps; ++k) {
    int w = r.pick(ids);
    auto it = in.find(w);
    double what = r.uni();
    if (it == in.end()) {
      int site = r.pick(b.all);
      if (at.count(site)) continue;
      cl.occupy(site);
      at[site] = w;
      In x{site, 0, false, 0};
      piece(w, x, true);
      in[w] = x;
      c.event("arrivals");
    } else if (what < 0.85) {
      In& x = it->second;
      if (!S.count(x.next)) {
        cl.vacate(x.site);
        at.erase(x.site);
        in.erase(it);
        c.event("stays");
      } else {
        cl.vacate(x.site);
        at.erase(x.site);
        if (!at.count(x.next)) x.site = x.next;
        cl.occupy(x.site);
        at[x.site] = w;
        piece(w, x, false);
      }
    } else {
      In x = it->second;
      if (r.chance(0.3)) {
        // what would be left of the stay is not what the next stay is made of
        Cluster stay(cl), gone(cl);
        auto drain = [&](Cluster& y) {
          double t = 0;
          for (int i = 0; i < 100000; ++i) {
            t += y.getDwellTime(w);
            if (!S.count(y.pickNewSiteId(w))) break;
          }
          return t;
        };
        gone.removeWalker(w, x.site);
        double fresh = drain(gone), rest = drain(stay);
        if (S.count(x.next)) REQUIRE_THAT(!close(rest, fresh, 1e-9), "removed-walker-remembered", "a removed walker continues its former stay of " << rest << ", " << in.size() << " walkers on the cluster");
      } else if (r.chance(0.5) && S.count(x.next)) {
        cl.getDwellTime(w);  // removed in the middle of a hop
      }
      cl.removeWalker(w, x.site);
      at.erase(x.site);
      in.erase(it);
      removed.insert(w);
      c.event("removals");
    }
    if (r.chance(0.004)) {
      ri = (int)r.range(0, 2);
      res = values[ri];
      cl.setResolution(res);
      REQUIRE_THAT(close(cl.getTimeIncrement(), T / res, 1e-9), "increment", "time increment " << cl.getTimeIncrement() << " after setting resolution " << res << " with " << in.size() << " walkers there, time constant " << T);
      c.event("resolution-changes");
    }
    if (r.chance(0.001)) {
      double f = r.logu(0.2, 5);
      for (int s : b.all)
        for (auto& x : b.w.st[s]) x.second *= f;
      cl.updateProbabilitiesAndTimeConstant();
      REQUIRE_THAT(close(cl.getTimeConstant(), T / f, 1e-7), "scaling", "all rates times " << f << " change the time constant from " << T << " to " << cl.getTimeConstant());
      T = cl.getTimeConstant();
      for (auto& x : in) x.second.old = true;
      c.event("updates-while-occupied", !in.empty());
    }
  }
  for (int i = 0; i < 3; ++i)
    for (int k = 0; k < 2; ++k)
      if (trials[i][k] > 0) {
        double p = 1 - std::exp(-1 / values[i]);
        REQUIRE_THAT(binomOk(leaves[i][k], trials[i][k], p), "hazard", leaves[i][k] << " of " << trials[i][k] << " pieces of 1/" << values[i] << " of the time constant end a stay, expected a fraction " << p << (k ? " (first pieces of walkers that had been removed before)" : ""));
        c.event("hazards-compared");
      }
  c.mixsig(T);
  c.mixsig((uint64_t)ids.size());
  c.nontrivial = ids.size() > 1;
}

WORKLOAD(C10, time_constant, 3) {
  Rng& r = c.rng;
  Built b;
  size_t n = r.chance(0.1) ? (size_t)r.range(10, 30) : (size_t)r.range(2, 8);
  double decades = r.chance(0.4) ? r.flat(0, 1) : r.flat(0, 6);
  double tol = r.logu(1e-11, 1e-2);
  buildByHistory(c, b, n, (size_t)r.range(1, 5), decades, r.chance(0.3), [&](Cluster& cl) {
    if (r.chance(0.7)) {
      cl.setConvergenceMethod(Cluster::converge_by_tolerance);
      cl.setConvergenceTolerance(tol);
    }
  });
  std::set<int> S(b.all.begin(), b.all.end());
  ClusterModel m(b.w.g, S);
  Cluster& cl = *b.w.cl[0];
  for (int round = 0; round < 3; ++round) {
    std::vector<double> p = reported(cl, m);
    double T = m.timeConstant(p);
    REQUIRE_THAT(close(cl.getTimeConstant(), T, 1e-9), "time-constant", "time constant " << cl.getTimeConstant() << ", average time per hop over escape probability " << T << ", " << n << " sites");
    REQUIRE_THAT(close(cl.getTimeIncrement(), T / cl.getResolution(), 1e-9), "increment", "time increment " << cl.getTimeIncrement() << " resolution " << cl.getResolution() << " time constant " << T);
    double res = r.chance(0.5) ? r.flat(2, 60) : r.logu(2, 1e6);
    cl.setResolution(res);
    REQUIRE_THAT(close(cl.getResolution(), res, 1e-12) && close(cl.getTimeIncrement(), T / res, 1e-9), "increment", "time increment " << cl.getTimeIncrement() << " after setting resolution " << res << " time constant " << T);
    if (round == 1) cl.updateProbabilitiesAndTimeConstant();
    c.event("time-constants");
  }
  // one stay: pieces never longer than the increment
  double inc = cl.getTimeIncrement();
  if (cl.getResolution() < 1e4)
    for (int k = 0; k < 5; ++k) {
      int wid = (int)r.range(-100, 100);
      for (int i = 0; i < 4000000; ++i) {
        double d = cl.getDwellTime(wid);
        REQUIRE_THAT(d >= 0 && d <= inc * (1 + 1e-12), "piece", "piece " << d << " is longer than " << inc);
        c.event("pieces");
        if (!S.count(cl.pickNewSiteId(wid))) break;
      }
    }
  c.mixsig(cl.getTimeConstant());
  c.nontrivial = n > 2;
  if (c.index % 50 == 0) c.sample = Msg() << n << " sites, time constant " << cl.getTimeConstant() << ", resolution " << cl.getResolution();
}

// stays of many interleaved walkers: exponential, independent
WORKLOAD(C10, stays, 3) {
  Rng& r = c.rng;
  Built b;
  size_t n = (size_t)r.range(2, 6);
  buildByHistory(c, b, n, (size_t)r.range(1, 4), r.flat(0, 3), r.chance(0.3), [&](Cluster&) {});
  std::set<int> S(b.all.begin(), b.all.end());
  Cluster& cl = *b.w.cl[0];
  double res = r.flat(2, 12);
  cl.setResolution(res);
  double T = cl.getTimeConstant(), inc = T / res;
  int K = (int)r.range(1, 6);
  std::vector<int> wid = makeIds(r, (size_t)K);
  std::vector<double> acc((size_t)K, 0);
  std::vector<std::vector<double>> stays((size_t)K);
  int want = c.fast ? (c.thorough ? 20000 : 6000) : 600;
  int mode = (int)r.range(0, 2);
  uint64_t steps = 0;
  int done = 0;
  // stop at a number of steps: stopping at a number of stays would favour short ones
  uint64_t limit = (uint64_t)(want * (res + 1));
  for (; steps < limit; ++steps) {
    int k = mode == 0 ? (int)(steps % K) : mode == 1 ? (int)r.range(0, K - 1) : (int)((steps / 7) % K);
    double d = cl.getDwellTime(wid[k]);
    REQUIRE_THAT(d >= 0 && d <= inc * (1 + 1e-12), "piece", "piece " << d << " is longer than " << inc);
    acc[k] += d;
    if (!S.count(cl.pickNewSiteId(wid[k]))) {
      stays[k].push_back(acc[k]);
      acc[k] = 0;
      ++done;
    }
  }
  std::vector<double> all;
  for (int k = 0; k < K; ++k) {
    // the first half of the stays of each walker started well before the end
    size_t keep = stays[k].size() * 3 / 4;
    for (size_t i = 0; i < keep; ++i) all.push_back(stays[k][i]);
  }
  REQUIRE_THAT(all.size() > 20, "progress", "walkers left the cluster only " << done << " times in " << steps << " pieces of 1/" << res << " of the time constant");
  double mean = 0;
  for (double x : all) mean += x;
  mean /= all.size();
  REQUIRE_THAT(expMeanOk(mean, (double)all.size(), T, 0.002), "mean", "mean stay " << mean << " over " << all.size() << " stays, time constant " << T << ", " << K << " walkers interleaved");
  REQUIRE_THAT(expShapeOk(all, T, 0.002), "shape", "stays are not exponential with time constant " << T << ", " << K << " walkers interleaved");
  for (int k = 1; k < K; ++k) {
    size_t N = std::min(stays[k].size(), stays[k - 1].size()) * 3 / 4;
    int both = 0;
    for (size_t i = 0; i < N; ++i) both += stays[k][i] > T * std::log(2.0) && stays[k - 1][i] > T * std::log(2.0);
    if (N > 50) REQUIRE_THAT(binomOk(both, (double)N, 0.25, 0.01), "independence", "stays of two walkers are long together " << both << " of " << N << " times, expected a quarter");
  }
  c.event("stays", done);
  c.event("pieces", steps);
  c.mixsig(T);
  c.mixsig((uint64_t)K);
  c.nontrivial = K > 1;
}

// a walker that was removed starts afresh
WORKLOAD(C10, removal, 2) {
  Rng& r = c.rng;
  Built b;
  size_t n = (size_t)r.range(2, 6);
  buildByHistory(c, b, n, (size_t)r.range(1, 3), r.flat(0, 2), false, [&](Cluster&) {});
  std::set<int> S(b.all.begin(), b.all.end());
  Cluster& cl = *b.w.cl[0];
  cl.setResolution(r.flat(3, 30));
  auto drain = [&](Cluster& x, int w) {
    double t = 0;
    for (int i = 0; i < 100000; ++i) {
      t += x.getDwellTime(w);
      if (!S.count(x.pickNewSiteId(w))) break;
    }
    return t;
  };
  for (int rep = 0; rep < 60; ++rep) {
    std::vector<int> ws = makeIds(r, 3);
    int w = ws[0], site = r.pick(b.all);
    cl.occupy(site);
    // stay a few pieces, without leaving
    bool left = false;
    int pieces = (int)r.range(1, 4);
    for (int i = 0; i < pieces && !left; ++i) {
      cl.getDwellTime(w);
      left = !S.count(cl.pickNewSiteId(w));
    }
    if (left) {
      cl.vacate(site);
      continue;
    }
    // another walker, which is not removed
    cl.getDwellTime(ws[1]);
    bool otherIn = S.count(cl.pickNewSiteId(ws[1]));
    Cluster stay(cl), gone(cl);
    double rest = drain(stay, w);
    gone.removeWalker(w, site);
    double fresh = drain(gone, w);
    REQUIRE_THAT(!close(rest, fresh, 1e-9), "removed-walker-remembered", "a removed walker continues its former stay of " << rest);
    if (otherIn) {
      Cluster a(cl), d(cl);
      d.removeWalker(w, site);
      double x = drain(a, ws[1]), y = drain(d, ws[1]);
      REQUIRE_THAT(close(x, y, 1e-12), "other-walker-disturbed", "removing a walker changes the stay of another one from " << x << " to " << y);
      c.event("bystanders");
    }
    cl.removeWalker(w, site);
    c.event("removals");
    c.mixsig(fresh);
  }
  c.nontrivial = true;
}

// stays after an update or merge use the new time constant
WORKLOAD(C10, after_changes, 2) {
  Rng& r = c.rng;
  Built b;
  size_t n = (size_t)r.range(2, 6);
  buildByHistory(c, b, n, (size_t)r.range(1, 3), r.flat(0, 2), false, [&](Cluster&) {});
  std::set<int> S(b.all.begin(), b.all.end());
  Cluster& cl = *b.w.cl[0];
  double res = r.flat(2, 6);
  cl.setResolution(res);
  for (int round = 0; round < 3; ++round) {
    double f = r.logu(1e-3, 1e3);
    for (int s : b.all)
      for (auto& x : b.w.st[s]) x.second *= f;
    double before = cl.getTimeConstant();
    // a walker that is removed before the change
    int w = (int)r.range(0, 5), site = r.pick(b.all);
    cl.occupy(site);
    cl.getDwellTime(w);
    cl.pickNewSiteId(w);
    cl.removeWalker(w, site);
    cl.updateProbabilitiesAndTimeConstant();
    double T = cl.getTimeConstant();
    REQUIRE_THAT(close(T, before / f, 1e-7), "scaling", "all rates times " << f << " change the time constant from " << before << " to " << T);
    REQUIRE_THAT(close(cl.getTimeIncrement(), T / res, 1e-9), "increment", "time increment " << cl.getTimeIncrement() << " after an update, time constant " << T << " resolution " << res);
    int N = c.fast ? 3000 : 300;
    std::vector<double> v;
    double mean = 0;
    for (int i = 0; i < N; ++i) {
      double t = 0;
      while (true) {
        double d = cl.getDwellTime(w);
        REQUIRE_THAT(d >= 0 && d <= T / res * (1 + 1e-12), "piece", "piece " << d << " is longer than " << T / res << " after an update");
        t += d;
        if (!S.count(cl.pickNewSiteId(w))) break;
      }
      v.push_back(t);
      mean += t;
    }
    REQUIRE_THAT(expMeanOk(mean / N, N, T), "mean", "mean stay " << mean / N << " over " << N << " stays after an update, time constant " << T);
    REQUIRE_THAT(expShapeOk(v, T), "shape", "stays after an update are not exponential with time constant " << T);
    c.event("stays", N);
    c.mixsig(T);
  }
  c.nontrivial = true;
}

// ------------------------------------------------------------------ C11
static void checkExits(Ctx& c, Cluster& cl, const ClusterModel& m, const std::vector<double>& p) {
  auto ex = m.exits(p);
  std::vector<int> nb = cl.getSiteIdsNeighboringCluster();
  REQUIRE_THAT(nb.size() == ex.size() && std::set<int>(nb.begin(), nb.end()).size() == ex.size(), "neighbour-set", "cluster reports " << nb.size() << " neighbours, " << ex.size() << " can be reached");
  double t = 0;
  for (auto& e : ex) {
    REQUIRE_THAT(std::find(nb.begin(), nb.end(), e.first) != nb.end(), "neighbour-set", "neighbour " << e.first << " is missing");
    double q = cl.getProbabilityOfHoppingToNeighborOfCluster(e.first);
    REQUIRE_THAT(close(q, e.second, 1e-8), "exit-probability", "reported exit probability to " << e.first << " is " << q << ", flow share " << e.second);
    t += q;
  }
  REQUIRE_THAT(close(t, 1, 1e-9), "exit-sum", "exit probabilities sum to " << t);
  c.event("exit-sets-compared");
}

static void pickStats(Ctx& c, Cluster& cl, const std::set<int>& S, const ClusterModel& m, const std::vector<double>& p, int N, const char* when) {
  Rng& r = c.rng;
  auto ex = m.exits(p), sh = m.shares(p);
  std::map<int, int> hin, hout;
  int nin = 0, nout = 0;
  std::vector<int> wid = makeIds(r, 3);
  for (int i = 0; i < N; ++i) {
    int w = r.pick(wid);
    cl.getDwellTime(w);
    int s = cl.pickNewSiteId(w);
    if (S.count(s)) {
      ++hin[s];
      ++nin;
    } else {
      REQUIRE_THAT(ex.count(s), "pick", "picked " << s << ", which is neither in the cluster nor reachable from it " << when);
      ++hout[s];
      ++nout;
    }
  }
  if (nin > 0)
    for (auto& x : sh) REQUIRE_THAT(binomOk(hin[x.first], nin, x.second, 1e-7), "internal-frequency", "site " << x.first << " picked " << hin[x.first] << " times of " << nin << ", time share " << x.second << " " << when);
  if (nout > 0)
    for (auto& x : ex) REQUIRE_THAT(binomOk(hout[x.first], nout, x.second, 1e-7), "exit-frequency", "exit " << x.first << " picked " << hout[x.first] << " times of " << nout << ", flow share " << x.second << " " << when);
  c.event("internal-picks", nin);
  c.event("exit-picks", nout);
}

WORKLOAD(C11, picks, 4) {
  Rng& r = c.rng;
  Built b;
  size_t n = r.chance(0.15) ? (size_t)r.range(8, 25) : (size_t)r.range(2, 7);
  buildByHistory(c, b, n, r.chance(0.1) ? (size_t)r.range(10, 60) : (size_t)r.range(1, 5), r.flat(0, 3), r.chance(0.4), [&](Cluster& cl) {
    if (r.chance(0.5)) {
      cl.setConvergenceMethod(Cluster::converge_by_tolerance);
      cl.setConvergenceTolerance(1e-8);
    }
  });
  std::set<int> S(b.all.begin(), b.all.end());
  Cluster& cl = *b.w.cl[0];
  cl.setResolution(2 + r.uni() * 2);
  int N = c.fast ? (c.thorough ? 200000 : 60000) : 4000;
  {
    ClusterModel m(b.w.g, S);
    std::vector<double> p = reported(cl, m);
    checkExits(c, cl, m, p);
    pickStats(c, cl, S, m, p, N, "");
    double fast = 0;
    for (int s : S)
      for (auto& x : b.w.g[s])
        if (!S.count(x.first)) fast = std::max(fast, x.second);
    REQUIRE_THAT(cl.getFastestRateOffCluster() == fast, "fastest-rate-off", "fastest rate off the cluster is " << cl.getFastestRateOffCluster() << ", expected " << fast);
  }
  // after rates changed and repeated updates the distributions are those of the new rates
  int ups = (int)r.range(1, 3);
  for (int u = 0; u < ups; ++u) {
    for (int s : b.all)
      for (auto& x : b.w.st[s])
        if (r.chance(0.5)) {
          x.second *= r.logu(0.1, 10);
          b.w.g[s][x.first] = x.second;
        }
    cl.updateProbabilitiesAndTimeConstant();
  }
  ClusterModel m(b.w.g, S);
  std::vector<double> p = reported(cl, m);
  checkExits(c, cl, m, p);
  pickStats(c, cl, S, m, p, N / 2, "after an update");
  c.mixsig(p[0]);
  c.mixsig((uint64_t)n);
  c.nontrivial = n > 2;
  if (c.index % 40 == 0) c.sample = Msg() << n << " sites, " << cl.getSiteIdsNeighboringCluster().size() << " exits, " << N << "+" << N / 2 << " picks";
}

// the pick that ends a stay is an exit, all others are internal
WORKLOAD(C11, stay_structure, 2) {
  Rng& r = c.rng;
  Built b;
  size_t n = (size_t)r.range(2, 7);
  buildByHistory(c, b, n, (size_t)r.range(1, 4), r.flat(0, 2), r.chance(0.3), [&](Cluster&) {});
  std::set<int> S(b.all.begin(), b.all.end());
  Cluster& cl = *b.w.cl[0];
  double res = r.flat(2, 20);
  cl.setResolution(res);
  double inc = cl.getTimeIncrement();
  int N = c.fast ? 5000 : 800;
  int K = (int)r.range(1, 4);
  for (int i = 0; i < N; ++i) {
    int w = (int)r.range(0, K - 1);
    double d = cl.getDwellTime(w);
    int s = cl.pickNewSiteId(w);
    bool inside = S.count(s);
    // a piece shorter than the increment is the last one of the stay, and vice versa
    if (d < inc * (1 - 1e-9)) REQUIRE_THAT(!inside, "stay-end", "the stay ends after a partial piece " << d << " of " << inc << " but the walker is sent to a site of the cluster");
    if (inside) REQUIRE_THAT(close(d, inc, 1e-9), "stay-goes-on", "the stay goes on although its piece was " << d << " of " << inc);
    c.event(inside ? "internal-picks" : "exit-picks");
  }
  c.mixsig(inc);
  c.nontrivial = true;
}

// ------------------------------------------------------------------ C12
static void checkMembers(Ctx& c, World& w) {
  for (size_t k = 0; k < w.cl.size(); ++k) {
    Cluster& cl = *w.cl[k];
    const std::set<int>& M = w.members[k];
    REQUIRE_THAT(cl.getNumberOfSitesInCluster() == (int)M.size(), "count", "cluster has " << cl.getNumberOfSitesInCluster() << " sites, expected " << M.size());
    std::vector<int> ids = cl.getSiteIdsInCluster();
    REQUIRE_THAT(ids.size() == M.size() && std::set<int>(ids.begin(), ids.end()) == M, "ids", "cluster lists " << ids.size() << " site ids, expected " << M.size());
    bool any = false;
    std::vector<Site> ss = cl.getSitesInCluster();
    std::set<int> seen;
    REQUIRE_THAT(ss.size() == M.size(), "sites", "cluster returns " << ss.size() << " sites, expected " << M.size());
    for (Site& s : ss) {
      int id = s.getId();
      REQUIRE_THAT(M.count(id) && seen.insert(id).second, "sites", "site " << id << " does not belong there or is listed twice");
      REQUIRE_THAT(s.getClusterId() == cl.getId(), "cluster-id", "site " << id << " carries cluster id " << s.getClusterId() << " instead of " << cl.getId());
      REQUIRE_THAT(s.isOccupied() == w.occ[id], "site-occupancy", "site " << id << " in the cluster is occupied: " << s.isOccupied() << ", expected " << w.occ[id]);
      REQUIRE_THAT(s.getNeighborSiteIds().size() == w.g[id].size(), "site-rates", "site " << id << " lost rates");
      any = any || w.occ[id];
    }
    for (auto& x : w.occ) {
      REQUIRE_THAT(cl.siteIsInCluster(x.first) == (M.count(x.first) > 0), "member", "siteIsInCluster(" << x.first << ") is " << cl.siteIsInCluster(x.first));
      if (M.count(x.first)) REQUIRE_THAT(cl.isOccupied(x.first) == x.second, "occupancy", "isOccupied(" << x.first << ") is " << cl.isOccupied(x.first) << ", expected " << x.second);
    }
    REQUIRE_THAT(cl.isOccupied() == any, "cluster-occupancy", "cluster reports occupied " << cl.isOccupied() << " although " << (any ? "a" : "no") << " site of it is occupied");
    c.event("cluster-states");
  }
}

WORKLOAD(C12, histories, 5) {
  Rng& r = c.rng;
  World w;
  size_t n = r.chance(0.2) ? (size_t)r.range(15, 40) : (size_t)r.range(4, 14);
  ClusterGraph cg = makeClusterGraph(r, n, (size_t)r.range(1, 4), 1, false);
  // every site has a rate to the outside, so that every cluster can be left
  for (int s : cg.in)
    if (r.chance(0.7)) cg.g[s][cg.out[0]] = cg.g[s].begin()->second;
  if (r.chance(0.7))
    for (int s : cg.in)
      for (int t : cg.in)
        if (s != t && !cg.g[s].count(t)) cg.g[s][t] = cg.g[s].begin()->second * r.flat(0.3, 3);
  w.bind(cg.g, cg.in, r);
  size_t K = (size_t)r.range(1, 4);
  for (size_t k = 0; k < K; ++k) w.addCluster(r);
  std::set<int> idset;
  for (auto& x : w.cl) REQUIRE_THAT(idset.insert(x->getId()).second, "unique-id", "two clusters share the id " << x->getId());
  std::vector<bool> ready(K, false);
  int ops = (int)r.range(5, 40);
  auto upd = [&](size_t k) {
    w.cl[k]->updateProbabilitiesAndTimeConstant();
    ready[k] = true;
  };
  int merges = 0;
  for (int o = 0; o < ops; ++o) {
    size_t k = (size_t)r.range(0, (int64_t)K - 1);
    int op = (int)r.range(0, 6);
    if (op <= 1 && !w.spare.empty()) {
      // occupy sites before they are added
      std::vector<int> pick;
      size_t m = (size_t)r.range(w.members[k].empty() ? 2 : 1, 5);
      for (auto& x : w.spare) {
        if (pick.size() < m && r.chance(0.5)) pick.push_back(x.first);
      }
      if (w.members[k].size() + pick.size() < 2) continue;
      std::set<int> un(w.members[k]);
      un.insert(pick.begin(), pick.end());
      if (!(externalRate(w.g, un) > 0) || !connected(w.g, un)) continue;
      r.shuffle(pick);
      for (int id : pick)
        if (r.chance(0.3)) {
          w.spare[id].occupy();
          w.occ[id] = true;
        }
      w.add(r, k, pick);
      upd(k);
      c.event("additions", pick.size());
    } else if (op == 2 && K > 1) {
      size_t j = (size_t)r.range(0, (int64_t)K - 1);
      if (j == k || w.members[j].size() + w.members[k].size() < 2) continue;
      if (!w.members[j].empty() && !ready[j]) continue;
      if (!w.members[k].empty() && !ready[k]) continue;
      std::set<int> un(w.members[k]);
      un.insert(w.members[j].begin(), w.members[j].end());
      if (!(externalRate(w.g, un) > 0) || !connected(w.g, un)) continue;
      w.migrate(k, j);
      ready[k] = true;
      ready[j] = false;
      ++merges;
      c.event("migrations");
    } else if (op == 3 && ready[k]) {
      std::vector<int> ms(w.members[k].begin(), w.members[k].end());
      int id = r.pick(ms);
      if (!w.occ[id]) {
        w.cl[k]->occupy(id);
        w.occ[id] = true;
        c.event("occupy");
      }
    } else if (op == 4 && ready[k]) {
      std::vector<int> ms(w.members[k].begin(), w.members[k].end());
      int id = r.pick(ms);
      if (w.occ[id]) {
        if (r.chance(0.5)) w.cl[k]->vacate(id); else w.cl[k]->removeWalker((int)r.range(0, 9), id);
        w.occ[id] = false;
        c.event("vacate");
      }
    } else if (op == 5 && ready[k]) {
      w.cl[k]->updateProbabilitiesAndTimeConstant();
    } else if (op == 6 && ready[k]) {
      // occupied as a whole and vacated again
      w.cl[k]->occupy();
      REQUIRE_THAT(w.cl[k]->isOccupied(), "whole", "a cluster occupied as a whole reports being free");
      if (r.chance(0.3)) {
        w.cl[k]->occupy();
        w.cl[k]->vacate();
        REQUIRE_THAT(w.cl[k]->isOccupied(), "whole", "a cluster occupied twice and vacated once reports being free");
      }
      w.cl[k]->vacate();
    }
    checkMembers(c, w);
    // a cluster in use works: probabilities cover exactly its sites and its picks are known
    if (ready[k] && r.chance(0.3)) {
      ClusterModel m(w.g, w.members[k]);
      sane(reported(*w.cl[k], m));
      for (int id : w.members[k]) {
        if (w.occ[id]) continue;
        int wid = (int)r.range(900, 950);
        w.cl[k]->occupy(id);
        w.cl[k]->getDwellTime(wid);
        int s = w.cl[k]->pickNewSiteId(wid);
        REQUIRE_THAT(w.members[k].count(s) || m.out.count(s), "pick", "cluster picks " << s << ", which it neither contains nor can reach");
        w.cl[k]->removeWalker(wid, id);
        checkMembers(c, w);
        c.event("walkers-passed");
        break;
      }
    }
    c.mixsig((uint64_t)op * 10 + k);
  }
  c.mixsig((uint64_t)merges);
  c.nontrivial = merges > 0 || K == 1;
  if (c.index % 60 == 0) c.sample = Msg() << n << " sites, " << K << " clusters, " << ops << " operations, " << merges << " merges";
}

// ------------------------------------------------------------------ C13 (one cluster)
// n stays recorded as the system does it: occupy, dwell, pick
struct Visit {
  double time = 0;
  int occupations = 0;
};
static void walk(Ctx& c, Cluster& cl, const std::set<int>& S, std::vector<int> const& all, int n, Visit& v) {
  Rng& r = c.rng;
  int w = (int)r.range(0, 3);
  int at = r.pick(all);
  for (int i = 0; i < n; ++i) {
    cl.occupy(at);
    ++v.occupations;
    v.time += cl.getDwellTime(w);
    int s = cl.pickNewSiteId(w);
    cl.vacate(at);
    at = S.count(s) ? s : r.pick(all);
  }
}

WORKLOAD(C13, cluster_counts, 3) {
  Rng& r = c.rng;
  Built b;
  size_t n = (size_t)r.range(2, 7);
  buildByHistory(c, b, n, (size_t)r.range(1, 4), r.flat(0, 2), r.chance(0.3), [&](Cluster& cl) {
    cl.setConvergenceMethod(Cluster::converge_by_tolerance);
    cl.setConvergenceTolerance(1e-8);
  }, 0.02);
  std::set<int> S(b.all.begin(), b.all.end());
  Cluster& cl = *b.w.cl[0];
  cl.setResolution(r.flat(2, 30));
  ClusterModel m(b.w.g, S);
  std::vector<double> p = reported(cl, m);
  double T = cl.getTimeConstant(), inc = cl.getTimeIncrement();
  double per = m.meanHopTime(p);
  std::map<int, long> start;
  for (int s : b.all) start[s] = cl.getVisitFrequency(s);
  for (int s : b.all) REQUIRE_THAT(start[s] == 0, "start", "a cluster nobody visited reports " << start[s] << " visits");
  // a twin that is queried all the time
  Cluster asked(cl);
  int N = c.fast ? 3000 : 400;
  Rng keep = r;
  Visit v1, v2;
  walk(c, cl, S, b.all, N, v1);
  r = keep;
  int chunk = (int)r.range(1, 20);
  r = keep;
  {
    // same random choices, counts read in between
    Rng& rr = c.rng;
    int w = (int)rr.range(0, 3);
    int at = rr.pick(b.all);
    std::map<int, long> last;
    for (int i = 0; i < N; ++i) {
      asked.occupy(at);
      ++v2.occupations;
      v2.time += asked.getDwellTime(w);
      int s = asked.pickNewSiteId(w);
      asked.vacate(at);
      at = S.count(s) ? s : rr.pick(b.all);
      if (i % chunk == 0)
        for (int x : b.all) {
          long f = asked.getVisitFrequency(x);
          REQUIRE_THAT(f >= last[x], "lowered", "visits of site " << x << " fall from " << last[x] << " to " << f);
          last[x] = f;
          c.event("queries");
        }
    }
  }
  double sum = 0, weighted = 0;
  for (size_t i = 0; i < m.id.size(); ++i) {
    long f = cl.getVisitFrequency(m.id[i]), g = asked.getVisitFrequency(m.id[i]);
    REQUIRE_THAT(std::abs(f - g) <= 1 + 1e-9 * f, "query-dependence", "visits of site " << m.id[i] << ": " << f << " when asked once, " << g << " when asked often");
    REQUIRE_THAT(cl.getVisitFrequency(m.id[i]) == f, "query-dependence", "asking twice changes the visits of site " << m.id[i]);
    sum += f;
    weighted += f * m.tau[i];
  }
  // time accounted for by the visits is the time spent (every piece is at most inc)
  double slack = inc * std::sqrt(LIM * N / 2.0) + inc;
  double rounding = 0;
  for (double t : m.tau) rounding += t;
  REQUIRE_THAT(std::fabs(weighted - v1.time) <= slack + rounding + 0.002 * v1.time, "time-balance", "visits account for a time of " << weighted << ", walkers spent " << v1.time << " (slack " << slack << ", " << N << " occupations)");
  // shares follow the shares of hops
  for (size_t i = 0; i < m.id.size(); ++i) {
    long f = cl.getVisitFrequency(m.id[i]);
    REQUIRE_THAT(std::fabs(f - p[i] * sum) <= 1 + (double)m.id.size() + 1e-6 * sum, "hop-share", "site " << m.id[i] << " has " << f << " of " << sum << " visits, its share of hops is " << p[i]);
  }
  // an update keeps the counts
  std::map<int, long> before;
  for (int s : b.all) before[s] = cl.getVisitFrequency(s);
  cl.updateProbabilitiesAndTimeConstant();
  for (int s : b.all) REQUIRE_THAT(std::abs(cl.getVisitFrequency(s) - before[s]) <= 1, "update-loses", "an update changes the visits of site " << s << " from " << before[s] << " to " << cl.getVisitFrequency(s));
  c.event("occupations", (uint64_t)v1.occupations * 2);
  c.mixsig(T);
  c.mixsig(sum);
  c.nontrivial = sum > (double)n;
  if (c.index % 50 == 0) c.sample = Msg() << n << " sites, " << N << " occupations, " << sum << " visits, time balance " << weighted / v1.time;
}

// the unit of time does not matter
WORKLOAD(C13, units, 2) {
  Rng& r = c.rng;
  size_t n = (size_t)r.range(2, 6);
  ClusterGraph cg = makeClusterGraph(r, n, (size_t)r.range(1, 3), r.flat(0, 2), r.chance(0.3), 0.05);
  int e = (int)r.range(-60, 60);
  double f = std::ldexp(1.0, e);
  Graph g2 = cg.g;
  for (auto& a : g2)
    for (auto& x : a.second) x.second *= f;
  uint64_t seed = r.u64();
  std::set<int> S(cg.in.begin(), cg.in.end());
  Store s1 = toStore(cg.g), s2;
  // same insertion order in both
  s2 = s1;
  for (auto& a : s2)
    for (auto& x : a.second) x.second *= f;
  Cluster c1, c2;
  double res = r.flat(2, 20);
  for (int pass = 0; pass < 2; ++pass) {
    Cluster& cl = pass ? c2 : c1;
    Store& st = pass ? s2 : s1;
    cl.setRandomSeed(seed);
    for (int s : cg.in) {
      Site x;
      x.setId(s);
      x.setRatesToNeighbors(st[s]);
      cl.addSite(x);
    }
    cl.updateProbabilitiesAndTimeConstant();
    cl.setResolution(res);
  }
  Visit v1, v2;
  int N = c.fast ? 1000 : 200;
  Rng keep = r;
  walk(c, c1, S, cg.in, N, v1);
  r = keep;
  walk(c, c2, S, cg.in, N, v2);
  double sum = 0;
  for (int s : cg.in) {
    long a = c1.getVisitFrequency(s), b = c2.getVisitFrequency(s);
    REQUIRE_THAT(std::abs(a - b) <= 1 + 1e-6 * a, "units", "visits of site " << s << " are " << a << ", with all rates times 2^" << e << " they are " << b);
    sum += a;
  }
  c.event("occupations", 2 * (uint64_t)N);
  c.mixsig(sum);
  c.mixsig((uint64_t)(e + 100));
  c.nontrivial = sum > 1;
}

// counts are carried over when clusters merge
WORKLOAD(C13, merging, 3) {
  Rng& r = c.rng;
  size_t K = (size_t)r.range(2, 3);
  size_t n = (size_t)r.range((int64_t)(2 * K), 10);
  ClusterGraph cg = makeClusterGraph(r, n, 2, 1.0, false, 0.05);
  for (int s : cg.in)
    for (int t : cg.in)
      if (s != t && !cg.g[s].count(t)) cg.g[s][t] = cg.g[s].begin()->second * r.flat(0.3, 3);
  World w;
  w.bind(cg.g, cg.in, r);
  std::vector<std::set<int>> S(K);
  for (size_t k = 0; k < K; ++k) {
    w.addCluster(r);
    size_t lo = n * k / K, hi = n * (k + 1) / K;
    w.add(r, k, std::vector<int>(cg.in.begin() + lo, cg.in.begin() + hi));
    w.cl[k]->updateProbabilitiesAndTimeConstant();
    w.cl[k]->setResolution(r.flat(2, 20));
  }
  std::map<int, long> visits;
  auto tour = [&](size_t k) {
    std::vector<int> ms(w.members[k].begin(), w.members[k].end());
    if (ms.empty() || r.chance(0.2)) return;
    Visit v;
    walk(c, *w.cl[k], w.members[k], ms, (int)r.range(1, 100), v);
    c.event("occupations", (uint64_t)v.occupations);
  };
  // long simulations: counts far beyond what a float or an int holds exactly
  for (int s : cg.in)
    if (r.chance(0.2))
      for (size_t k = 0; k < K; ++k)
        if (w.members[k].count(s)) {
          long n0 = (long)r.logu(1e3, 1e14);
          w.cl[k]->setVisitFrequency(n0, s);
          REQUIRE_THAT(w.cl[k]->getVisitFrequency(s) == n0, "stored", "a count of " << n0 << " visits is stored as " << w.cl[k]->getVisitFrequency(s));
          c.event("large-counts");
        }
  int events = 0;
  for (int round = 0; round < 3; ++round) {
    for (size_t k = 0; k < K; ++k) tour(k);
    // sometimes the counts are read before the merge, sometimes not: use twins to know them
    for (size_t k = 0; k < K; ++k) {
      if (w.members[k].empty()) continue;
      Cluster twin(*w.cl[k]);
      for (int s : w.members[k]) visits[s] = twin.getVisitFrequency(s);
    }
    size_t a = (size_t)r.range(0, (int64_t)K - 1), b = (size_t)r.range(0, (int64_t)K - 1);
    if (a == b || w.members[a].empty() || w.members[b].empty()) continue;
    w.migrate(a, b);
    ++events;
    for (int s : w.members[a]) {
      long f = w.cl[a]->getVisitFrequency(s);
      REQUIRE_THAT(std::abs(f - visits[s]) <= 1, "carried-over", "merging changes the visits of site " << s << " from " << visits[s] << " to " << f);
      c.event("counts-carried");
    }
    // and they grow again afterwards
    tour(a);
    for (int s : w.members[a]) {
      long f = w.cl[a]->getVisitFrequency(s);
      REQUIRE_THAT(f >= visits[s] - 1, "lowered", "visits of site " << s << " fall from " << visits[s] << " to " << f << " after a merge");
    }
    c.mixsig((uint64_t)(a * 10 + b));
  }
  c.mixsig((uint64_t)n);
  c.nontrivial = events > 0;
}

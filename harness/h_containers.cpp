#include "model.hpp"
#include "libmythical/cluster_container.hpp"
#include "libmythical/rate_container.hpp"
#include "libmythical/site_container.hpp"
using namespace vf;
using namespace mythical;

template <typename F>
static bool throws(F f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}
typedef std::map<int, std::map<int, double*>> RM;
static RM toModel(const Rate_Map& m) {
  RM r;
  for (auto& a : m)
    for (auto& b : a.second) r[a.first][b.first] = b.second;
  return r;
}

// ---------------------------------------------------------------- rates
static void checkRates(Ctx& c, Rate_Container& rc, const RM& m, const std::vector<int>& ids) {
  std::set<int> outs, ins;
  for (auto& a : m)
    for (auto& b : a.second) {
      outs.insert(a.first);
      ins.insert(b.first);
    }
  for (int s : ids) {
    size_t in = 0;
    RM im, om;
    for (auto& a : m) {
      auto it = a.second.find(s);
      if (it != a.second.end()) {
        ++in;
        im[a.first][s] = it->second;
      }
    }
    auto it = m.find(s);
    size_t out = it == m.end() ? 0 : it->second.size();
    if (out) om[s] = it->second;
    REQUIRE_THAT(rc.incomingRateCount(s) == in, "incoming-count", "incoming rates of " << s << ": " << rc.incomingRateCount(s) << " expected " << in);
    REQUIRE_THAT(rc.outgoingRateCount(s) == out, "outgoing-count", "outgoing rates of " << s << ": " << rc.outgoingRateCount(s) << " expected " << out);
    REQUIRE_THAT(toModel(rc.getIncomingRates(s)) == im, "incoming-rates", "incoming rates of " << s << " differ from what was added");
    REQUIRE_THAT(toModel(rc.getOutgoingRates(s)) == om, "outgoing-rates", "outgoing rates of " << s << " differ from what was added");
    for (int t : ids) {
      bool have = out && it->second.count(t);
      if (have) {
        REQUIRE_THAT(rc.getRate(s, t) == it->second.at(t), "rate", "rate " << s << "->" << t << " is not the one added");
      } else {
        REQUIRE_THAT(throws([&] { rc.getRate(s, t); }), "unknown-rate", "a rate " << s << "->" << t << " that was never added is returned");
        c.event("rejected");
      }
    }
  }
  std::vector<int> so = rc.getSourceSiteIds(), si = rc.getSinkSiteIds();
  std::set<int> ws, wk;
  for (int x : outs)
    if (!ins.count(x)) ws.insert(x);
  for (int x : ins)
    if (!outs.count(x)) wk.insert(x);
  REQUIRE_THAT(std::set<int>(so.begin(), so.end()) == ws && so.size() == ws.size(), "sources", so.size() << " sources, expected " << ws.size());
  REQUIRE_THAT(std::set<int>(si.begin(), si.end()) == wk && si.size() == wk.size(), "sinks", si.size() << " sinks, expected " << wk.size());
  c.event("rate-store-states");
}

WORKLOAD(C15, rates, 3) {
  Rng& r = c.rng;
  std::vector<int> ids = makeIds(r, (size_t)r.range(2, 9));
  std::vector<std::unique_ptr<double>> cells;
  double unit = r.scale();
  RM m;
  std::unique_ptr<Rate_Container> rc;
  auto cell = [&]() {
    cells.emplace_back(new double(r.logu(1e-9, 1e9) * unit));
    return cells.back().get();
  };
  auto bulk = [&](bool fresh) {
    Rate_Map b;
    int n = (int)r.range(0, 6);
    for (int i = 0; i < n; ++i) {
      int s = r.pick(ids), t = r.pick(ids);
      // a site without rates, the way Site_Container::getRates lists drains
      if (r.chance(0.15)) {
        b[s];
        c.event("sites-without-rates");
        continue;
      }
      if (fresh && m.count(s) && m[s].count(t)) continue;
      b[s][t] = cell();
    }
    return b;
  };
  if (r.chance(0.4)) {
    Rate_Map b = bulk(true);
    for (auto& a : b)
      for (auto& x : a.second) m[a.first][x.first] = x.second;
    rc.reset(new Rate_Container(b));
  } else
    rc.reset(new Rate_Container());
  int ops = (int)r.range(1, 25);
  for (int o = 0; o < ops; ++o) {
    int k = (int)r.range(0, 3);
    if (k == 0 || k == 1) {
      int s = r.pick(ids), t = r.pick(ids);
      double* p = cell();
      bool dup = m.count(s) && m[s].count(t);
      if (dup) {
        REQUIRE_THAT(throws([&] { rc->addRate(s, t, p); }), "duplicate-rate", "rate " << s << "->" << t << " can be added twice");
        c.event("rejected");
      } else {
        rc->addRate(s, t, p);
        m[s][t] = p;
      }
    } else if (k == 2) {
      Rate_Map b = bulk(true);
      rc->addRates(b);
      for (auto& a : b)
        for (auto& x : a.second) m[a.first][x.first] = x.second;
    } else if (!m.empty()) {
      // a bulk addition of one rate that exists is rejected and changes nothing
      auto it = m.begin();
      std::advance(it, r.range(0, (int64_t)m.size() - 1));
      Rate_Map b;
      if (r.chance(0.6)) b = bulk(true);
      b[it->first][it->second.begin()->first] = cell();
      REQUIRE_THAT(throws([&] { rc->addRates(b); }), "duplicate-rate", "bulk addition replaces an existing rate");
      c.event("rejected-lists");
    }
    if (r.chance(0.5) || o == ops - 1) checkRates(c, *rc, m, ids);
    c.mixsig((uint64_t)k);
  }
  size_t n = 0;
  for (auto& a : m) n += a.second.size();
  c.mixsig((uint64_t)n);
  c.nontrivial = n > 1;
}

// ---------------------------------------------------------------- sites
struct MSite {
  std::map<int, double*> rates;
  int cluster = constants::unassignedId;
  int occ = 0;
  int visits = 0;
};

static void checkSites(Ctx& c, Rng& r, Site_Container& sc, std::map<int, MSite>& m, const std::vector<int>& ids) {
  REQUIRE_THAT(sc.size() == m.size(), "size", "size " << sc.size() << " expected " << m.size());
  std::vector<int> l = sc.getSiteIds();
  REQUIRE_THAT(l.size() == m.size(), "ids", "list of ids has " << l.size() << " entries, expected " << m.size());
  for (int x : l) REQUIRE_THAT(m.count(x), "ids", "unknown id " << x);
  for (int s : ids) {
    auto it = m.find(s);
    REQUIRE_THAT(sc.exist(s) == (it != m.end()), "exist", "exist(" << s << ") is " << sc.exist(s));
    if (it == m.end()) {
      int cid = (int)r.range(0, 5);
      bool ok = throws([&] { sc.getSite(s); }) && throws([&] { sc.setClusterId(s, cid); }) && throws([&] { sc.getClusterIdOfSite(s); }) && throws([&] { sc.partOfCluster(s); }) &&
                throws([&] { sc.isOccupied(s); }) && throws([&] { sc.vacate(s); }) && throws([&] { sc.occupy(s); }) && throws([&] { sc.getDwellTime(s); }) && throws([&] { sc.getTimeConstant(s); }) &&
                throws([&] { sc.getFastestRateOffSite(s); }) && throws([&] { sc.getRateToNeighborOfSite(s, s); }) && throws([&] { sc.getSiteIdsOfNeighbors(s); }) &&
                throws([&] { sc.getSites(std::vector<int>{s}); }) && throws([&] { sc.getSmallestClusterId(std::vector<int>{s}); });
      REQUIRE_THAT(ok, "unknown-site", "a query about the unknown site " << s << " is answered");
      REQUIRE_THAT(!sc.exist(s) && sc.size() == m.size(), "purity", "a rejected query about " << s << " adds it to the store");
      c.event("rejected", 14);
      continue;
    }
    MSite& x = it->second;
    REQUIRE_THAT(sc.getClusterIdOfSite(s) == x.cluster && sc.partOfCluster(s) == (x.cluster > -1), "cluster-id", "cluster id of " << s << " is " << sc.getClusterIdOfSite(s) << " expected " << x.cluster);
    REQUIRE_THAT(sc.isOccupied(s) == (x.occ > 0), "occupied", "site " << s << " occupied " << sc.isOccupied(s) << " expected count " << x.occ);
    Site& st = sc.getSite(s);
    REQUIRE_THAT(st.getId() == s && st.getVisitFrequency() == x.visits && st.getClusterId() == x.cluster, "site", "site " << s << " is returned changed");
    double sum = 0, fast = 0;
    for (auto& n : x.rates) {
      sum += *n.second;
      fast = std::max(fast, *n.second);
      REQUIRE_THAT(sc.getRateToNeighborOfSite(s, n.first) == *n.second, "rate", "rate " << s << "->" << n.first);
    }
    REQUIRE_THAT(sc.getFastestRateOffSite(s) == fast, "fastest-rate", "fastest rate off " << s << " is " << sc.getFastestRateOffSite(s) << " expected " << fast);
    std::vector<int> nb = sc.getSiteIdsOfNeighbors(s);
    REQUIRE_THAT(nb.size() == x.rates.size(), "neighbours", "site " << s << " has " << nb.size() << " neighbours, expected " << x.rates.size());
    for (int n : nb) REQUIRE_THAT(x.rates.count(n), "neighbours", n << " is no neighbour of " << s);
    if (!x.rates.empty()) {
      REQUIRE_THAT(close(sc.getTimeConstant(s), 1 / sum, 1e-10), "time-constant", "time constant of " << s);
      double d = sc.getDwellTime(s);
      REQUIRE_THAT(d >= 0 && std::isfinite(d), "dwell", "dwell time " << d);
    }
  }
  auto all = sc.getSites();
  REQUIRE_THAT(all.size() == m.size(), "sites", "getSites returns " << all.size() << " of " << m.size());
  for (auto& a : all) REQUIRE_THAT(m.count(a.first) && a.second.getId() == a.first && a.second.getClusterId() == m[a.first].cluster && a.second.isOccupied() == (m[a.first].occ > 0), "sites", "getSites entry " << a.first);
  RM rm;
  for (auto& a : m)
    for (auto& b : a.second.rates) rm[a.first][b.first] = b.second;
  REQUIRE_THAT(toModel(sc.getRates()) == rm, "rates", "getRates differs from the rates of the sites");
  c.event("site-store-states");
}

WORKLOAD(C15, sites, 3) {
  Rng& r = c.rng;
  std::vector<int> ids = makeIds(r, (size_t)r.range(2, 14));
  std::vector<std::unique_ptr<double>> cells;
  double unit = r.scale();
  std::map<int, MSite> m;
  Site_Container sc;
  auto make = [&](int id, MSite& x) {
    Site s;
    s.setId(id);
    s.setRandomSeed(r.u64());
    int n = r.chance(0.1) ? 0 : (int)r.range(1, 5);
    for (int i = 0; i < n; ++i) {
      int t = r.pick(ids);
      if (x.rates.count(t)) continue;
      cells.emplace_back(new double(r.logu(1e-6, 1e6) * unit));
      x.rates[t] = cells.back().get();
      s.addNeighRate(std::make_pair(t, cells.back().get()));
    }
    if (r.chance(0.2)) {
      s.occupy();
      x.occ = 1;
      x.visits = 1;
    }
    if (r.chance(0.2)) {
      x.cluster = (int)r.range(0, 5);
      s.setClusterId(x.cluster);
    }
    return s;
  };
  int ops = (int)r.range(2, 40);
  for (int o = 0; o < ops; ++o) {
    int k = (int)r.range(0, 7);
    int id = r.pick(ids);
    if (k <= 1) {
      MSite x;
      Site s = make(id, x);
      if (m.count(id)) {
        REQUIRE_THAT(throws([&] { sc.addSite(s); }), "duplicate-site", "site " << id << " can be added twice");
        c.event("rejected");
      } else {
        sc.addSite(s);
        m[id] = x;
      }
    } else if (k == 2) {
      std::vector<Site> v;
      std::map<int, MSite> nm;
      for (int i = 0; i < 3; ++i) {
        int j = r.pick(ids);
        if (m.count(j) || nm.count(j)) continue;
        MSite x;
        v.push_back(make(j, x));
        nm[j] = x;
      }
      if (r.chance(0.3) && (!m.empty() || !v.empty())) {
        // one that exists, or the same one twice, anywhere in the list: nothing
        // of the list is added
        MSite x;
        bool twice = m.empty() || (!v.empty() && r.chance(0.3));
        int j = twice ? v[(size_t)r.range(0, (int64_t)v.size() - 1)].getId() : [&] {
          auto it = m.begin();
          std::advance(it, r.range(0, (int64_t)m.size() - 1));
          return it->first;
        }();
        Site s = make(j, x);
        v.insert(v.begin() + r.range(0, (int64_t)v.size()), s);
        REQUIRE_THAT(throws([&] { sc.addSites(v); }), "duplicate-site", "a list with site " << j << " that exists is added");
        c.event("rejected-lists");
      } else {
        sc.addSites(v);
        m.insert(nm.begin(), nm.end());
      }
    } else if (k == 3 && m.count(id)) {
      int cid = r.chance(0.2) ? constants::unassignedId : (int)r.range(0, 1000);
      sc.setClusterId(id, cid);
      m[id].cluster = cid;
    } else if (k == 4 && m.count(id)) {
      sc.occupy(id);
      ++m[id].occ;
      ++m[id].visits;
    } else if (k == 5 && m.count(id) && m[id].occ > 0) {
      sc.vacate(id);
      --m[id].occ;
    } else if (k == 6 && !m.empty()) {
      std::vector<int> q;
      bool unknown = false;
      int n = (int)r.range(0, 6);
      for (int i = 0; i < n; ++i) {
        int j = r.pick(ids);
        q.push_back(j);
        if (!m.count(j)) unknown = true;
      }
      if (unknown) {
        REQUIRE_THAT(throws([&] { sc.getSmallestClusterId(q); }) && throws([&] { sc.getSites(q); }), "unknown-site", "a list with an unknown site is accepted");
        c.event("rejected", 2);
      } else {
        int want = constants::unassignedId;
        for (int j : q)
          if (m[j].cluster != constants::unassignedId && (want == constants::unassignedId || m[j].cluster < want)) want = m[j].cluster;
        REQUIRE_THAT(sc.getSmallestClusterId(q) == want, "smallest-cluster", "smallest cluster id " << sc.getSmallestClusterId(q) << " expected " << want);
        auto s = sc.getSites(q);
        REQUIRE_THAT(s.size() == std::set<int>(q.begin(), q.end()).size(), "sites", "getSites of " << q.size() << " ids returns " << s.size());
        for (auto& x : s) REQUIRE_THAT(x.second.getId() == x.first && m.count(x.first), "sites", "getSites entry " << x.first);
      }
    }
    if (r.chance(0.4) || o == ops - 1) checkSites(c, r, sc, m, ids);
    c.mixsig((uint64_t)k);
  }
  c.mixsig((uint64_t)m.size());
  c.nontrivial = m.size() > 1;
  if (c.index % 80 == 0) c.sample = Msg() << ops << " operations on a site store ending with " << m.size() << " sites";
}

// ---------------------------------------------------------------- clusters
WORKLOAD(C15, clusters, 2) {
  Rng& r = c.rng;
  Cluster_Container cc;
  struct M {
    std::set<int> sites, neigh;
    double T, res, fast;
    int occ;
    std::unique_ptr<Store> st;
  };
  std::map<int, M> m;
  std::vector<int> retired;
  auto make = [&](M& x) {
    ClusterGraph g = makeClusterGraph(r, (size_t)r.range(2, 6), (size_t)r.range(1, 4), 2, false);
    x.st.reset(new Store(toStore(g.g)));
    Cluster cl;
    cl.setRandomSeed(r.u64());
    for (int s : g.in) {
      Site site;
      site.setId(s);
      site.setRatesToNeighbors((*x.st)[s]);
      cl.addSite(site);
      x.sites.insert(s);
    }
    cl.updateProbabilitiesAndTimeConstant();
    x.res = r.flat(2, 50);
    cl.setResolution(x.res);
    x.fast = 0;
    for (int s : g.in)
      for (auto& b : g.g[s])
        if (!x.sites.count(b.first)) {
          x.neigh.insert(b.first);
          x.fast = std::max(x.fast, b.second);
        }
    x.T = cl.getTimeConstant();
    x.occ = 0;
    return cl;
  };
  int ops = (int)r.range(2, 14);
  for (int o = 0; o < ops; ++o) {
    int k = (int)r.range(0, 5);
    int anyId = m.empty() ? 0 : [&] {
      auto it = m.begin();
      std::advance(it, r.range(0, (int64_t)m.size() - 1));
      return it->first;
    }();
    if (k == 0 || m.empty()) {
      M x;
      Cluster cl = make(x);
      cc.addCluster(cl);
      int id = cl.getId();
      REQUIRE_THAT(!m.count(id), "unique-id", "cluster id " << id << " is used twice");
      m[id] = std::move(x);
    } else if (k == 1) {
      std::vector<Cluster> v;
      std::vector<M> xs;
      for (int i = 0; i < 2; ++i) {
        xs.emplace_back();
        v.push_back(make(xs.back()));
      }
      if (r.chance(0.3)) {
        Cluster dup = r.chance(0.5) ? v[0] : cc.getCluster(anyId);
        v.insert(v.begin() + r.range(0, 2), dup);
        REQUIRE_THAT(throws([&] { cc.addClusters(v); }), "duplicate-cluster", "a list with cluster " << dup.getId() << " that exists is added");
        for (auto& x : v)
          if (!m.count(x.getId())) REQUIRE_THAT(!cc.exist(x.getId()), "duplicate-cluster", "a part of a rejected list is added");
        c.event("rejected-lists");
      } else {
        cc.addClusters(v);
        for (int i = 0; i < 2; ++i) m[v[i].getId()] = std::move(xs[i]);
      }
    } else if (k == 2) {
      Cluster dup = cc.getCluster(anyId);
      REQUIRE_THAT(throws([&] { cc.addCluster(dup); }), "duplicate-cluster", "cluster " << anyId << " can be added twice");
      c.event("rejected");
    } else if (k == 3 && r.chance(0.5)) {
      cc.erase(anyId);
      retired.push_back(anyId);
      m.erase(anyId);
    } else if (k == 4) {
      cc.occupy(anyId);
      ++m[anyId].occ;
    } else if (k == 5 && m[anyId].occ > 0) {
      cc.vacate(anyId);
      --m[anyId].occ;
    }
    // compare everything
    REQUIRE_THAT(cc.size() == m.size(), "size", "size " << cc.size() << " expected " << m.size());
    auto l = cc.getClusterIds();
    REQUIRE_THAT(l.size() == m.size(), "ids", "list of cluster ids has " << l.size() << " entries");
    for (int x : l) REQUIRE_THAT(m.count(x), "ids", "unknown cluster id " << x);
    auto sites = cc.getSiteIdsOfClusters();
    auto res = cc.getResolutionOfClusters();
    auto inc = cc.getTimeIncrementOfClusters();
    REQUIRE_THAT(sites.size() == m.size() && res.size() == m.size() && inc.size() == m.size(), "maps", "reported maps do not cover the clusters");
    for (auto& x : m) {
      int id = x.first;
      REQUIRE_THAT(cc.exist(id), "exist", "cluster " << id << " is missing");
      REQUIRE_THAT(sites.count(id) && std::set<int>(sites[id].begin(), sites[id].end()) == x.second.sites && sites[id].size() == x.second.sites.size(), "sites", "sites of cluster " << id);
      REQUIRE_THAT(close(res[id], x.second.res, 1e-12) && close(inc[id], x.second.T / x.second.res, 1e-10), "resolution", "resolution or increment of cluster " << id << ": " << res[id] << ", " << inc[id]);
      REQUIRE_THAT(cc.isOccupied(id) == (x.second.occ > 0), "occupied", "cluster " << id << " occupied " << cc.isOccupied(id) << " model " << x.second.occ);
      REQUIRE_THAT(cc.getTimeConstant(id) == x.second.T, "time-constant", "time constant of cluster " << id << " changed");
      REQUIRE_THAT(cc.getFastestRateOffCluster(id) == x.second.fast, "fastest-rate", "fastest rate off cluster " << id << " is " << cc.getFastestRateOffCluster(id) << " expected " << x.second.fast);
      auto nb = cc.getSiteIdsOfNeighbors(id);
      REQUIRE_THAT(std::set<int>(nb.begin(), nb.end()) == x.second.neigh && nb.size() == x.second.neigh.size(), "neighbours", "neighbours of cluster " << id);
      double d = cc.getDwellTime((int)r.range(0, 3) + 10 * o, id);
      REQUIRE_THAT(d > 0 && d <= x.second.T / x.second.res * (1 + 1e-12), "dwell", "dwell time " << d);
      REQUIRE_THAT(cc.getCluster(id).getId() == id, "cluster", "cluster " << id << " is returned with another id");
    }
    std::vector<int> bad = retired;
    bad.push_back(-1);
    bad.push_back(1000000000 + (int)r.range(0, 1000));
    for (int b : bad) {
      // getCluster reports the unknown id on stderr before it throws
      bool ok = throws([&] { cc.isOccupied(b); }) && throws([&] { cc.vacate(b); }) && throws([&] { cc.occupy(b); }) && throws([&] { cc.getDwellTime(1, b); }) && throws([&] { cc.getTimeConstant(b); }) &&
                throws([&] { cc.getFastestRateOffCluster(b); }) && throws([&] { cc.getSiteIdsOfNeighbors(b); }) && throws([&] { cc.getCluster(b); });
      REQUIRE_THAT(ok, "unknown-cluster", "a query about the unknown cluster " << b << " is answered");
      cc.erase(b);
      REQUIRE_THAT(!cc.exist(b) && cc.size() == m.size(), "purity", "a rejected query adds cluster " << b);
      c.event("rejected", 8);
    }
    c.event("cluster-store-states");
    c.mixsig((uint64_t)k);
  }
  c.nontrivial = m.size() + retired.size() > 1;
  c.mixsig((uint64_t)m.size());
}

// C22: basin exploration and the conversion of rates to graph edges.
#include <list>
#include "model.hpp"
#include "libmythical/basin_explorer.hpp"
#include "libmythical/graph_library_adapter.hpp"
using namespace vf;
using namespace mythical;

namespace {
struct State {
  Graph g;
  Store st;
  std::vector<int> ids;
  Site_Container sites;
  Cluster_Container clusters;
  std::map<int, int> clusterOf;
  std::map<int, std::set<int>> members;
  std::map<int, bool> occ;
};

void make(Ctx& c, State& s) {
  Rng& r = c.rng;
  size_t n = (size_t)r.range(2, 14);
  s.ids = makeIds(r, n);
  double R = r.scale();
  int levels = (int)r.range(1, 5);
  double f = r.chance(0.5) ? 2.0 : r.flat(1.05, 20);
  bool noise = r.chance(0.3);
  auto rate = [&]() {
    double x = R * std::pow(f, -(double)r.range(0, levels - 1));
    if (noise) x *= 1 + 0.3 * r.uni();
    return x;
  };
  bool twoWay = r.chance(0.6);
  size_t edges = (size_t)r.range((int64_t)n - 1, (int64_t)(2 * n));
  for (size_t i = 1; i < n; ++i) {
    int a = s.ids[i], b = s.ids[(size_t)r.range(0, (int64_t)i - 1)];
    s.g[a][b] = rate();
    if (twoWay || r.chance(0.7)) s.g[b][a] = r.chance(0.5) ? s.g[a][b] : rate();
  }
  for (size_t k = n; k < edges; ++k) {
    int a = r.pick(s.ids), b = r.pick(s.ids);
    if (a == b || s.g[a].count(b)) continue;
    s.g[a][b] = rate();
    if (twoWay && !s.g[b].count(a)) s.g[b][a] = rate();
  }
  s.st = toStore(s.g);
  std::vector<Site> v;
  for (int id : s.ids) {
    Site x;
    x.setId(id);
    if (!s.g[id].empty()) x.setRatesToNeighbors(s.st[id]);
    s.occ[id] = r.chance(0.3);
    if (s.occ[id]) x.occupy();
    s.sites.addSite(x);
  }
  // some sites are part of clusters
  size_t K = (size_t)r.range(0, 2);
  std::set<int> used;
  for (size_t k = 0; k < K; ++k) {
    std::set<int> S;
    int a = r.pick(s.ids);
    if (used.count(a)) continue;
    S.insert(a);
    for (int t = 0; t < 6 && S.size() < 4; ++t) {
      std::vector<int> m(S.begin(), S.end());
      int u = r.pick(m);
      for (auto& e : s.g[u])
        if (!used.count(e.first) && r.chance(0.5)) {
          S.insert(e.first);
          break;
        }
    }
    if (S.size() < 2 || !(externalRate(s.g, S) > 0) || !connected(s.g, S)) continue;
    Cluster cl;
    cl.setRandomSeed(r.u64());
    for (int id : S) {
      Site copy = s.sites.getSite(id);
      cl.addSite(copy);
    }
    cl.updateProbabilitiesAndTimeConstant();
    s.clusters.addCluster(cl);
    for (int id : S) {
      s.sites.setClusterId(id, cl.getId());
      s.clusterOf[id] = cl.getId();
      used.insert(id);
    }
    s.members[cl.getId()] = S;
  }
}

std::set<int> reach(const Graph& g, int start, double ref) {
  std::set<int> seen{start};
  std::vector<int> st{start};
  while (!st.empty()) {
    int u = st.back();
    st.pop_back();
    auto it = g.find(u);
    if (it == g.end()) continue;
    for (auto& e : it->second)
      if (e.second >= ref && seen.insert(e.first).second) st.push_back(e.first);
  }
  return seen;
}
}  // namespace

WORKLOAD(C22, basins, 4) {
  Rng& r = c.rng;
  State s;
  make(c, s);
  for (int t = 0; t < 6; ++t) {
    int start = r.pick(s.ids);
    double ref = 0;
    if (s.clusterOf.count(start)) {
      const std::set<int>& S = s.members[s.clusterOf[start]];
      for (int a : S)
        for (auto& e : s.g[a])
          if (!S.count(e.first)) ref = std::max(ref, e.second);
    } else
      for (auto& e : s.g[start]) ref = std::max(ref, e.second);
    std::set<int> want = reach(s.g, start, ref), lax = reach(s.g, start, ref * 0.99);
    if (want != lax) {
      c.event("too-close-to-tell");
      continue;
    }
    int limit = 5;
    BasinExplorer ex;
    if (r.chance(0.6)) {
      limit = (int)r.range(1, 12);
      ex.setMaxExplorationCount(limit);
    }
    std::vector<int> got = ex.findBasin(s.sites, s.clusters, start);
    if ((int)want.size() > limit) {
      REQUIRE_THAT(got.empty(), "limit", "exploring from a site with " << want.size() << " sites in reach of fast rates returns " << got.size() << " sites, the limit is " << limit);
      c.event("basins-beyond-limit");
    } else {
      std::set<int> set(got.begin(), got.end());
      REQUIRE_THAT(set.size() == got.size(), "duplicates", "a site is listed twice among " << got.size());
      std::ostringstream o;
      o << "got";
      for (int x : set) o << " " << x;
      o << ", expected";
      for (int x : want) o << " " << x;
      REQUIRE_THAT(set == want, "basin", "from site " << start << (s.clusterOf.count(start) ? " of a cluster" : "") << " with reference rate " << ref << ": " << o.str());
      c.event(want.size() > 1 ? "basins-found" : "single-sites");
      if (s.clusterOf.count(start)) c.event("from-clusters");
    }
    // exploring again gives the same
    std::vector<int> again = ex.findBasin(s.sites, s.clusters, start);
    REQUIRE_THAT(again == got, "not-repeatable", "exploring twice from site " << start << " gives " << got.size() << " and " << again.size() << " sites or another order");
    c.mixsig((uint64_t)(want.size() * 100 + limit));
    c.mixsig(ref);
    if (want.size() > 1) c.nontrivial = true;
  }
  // nothing was changed
  REQUIRE_THAT(s.sites.size() == s.ids.size() && s.clusters.size() == s.members.size(), "size-changed", "exploration changed the number of sites or clusters");
  for (int id : s.ids) {
    Site& x = s.sites.getSite(id);
    std::vector<int> nb = x.getNeighborSiteIds();
    REQUIRE_THAT(nb.size() == s.g[id].size() && x.isOccupied() == s.occ[id] && s.sites.partOfCluster(id) == (s.clusterOf.count(id) > 0), "site-changed", "exploration changed site " << id);
    for (auto& e : s.g[id]) REQUIRE_THAT(x.getRateToNeighbor(e.first) == e.second && s.st[id][e.first] == e.second, "rate-changed", "exploration changed the rate from " << id << " to " << e.first);
    if (s.clusterOf.count(id)) REQUIRE_THAT(s.sites.getClusterIdOfSite(id) == s.clusterOf[id] && s.clusters.getCluster(s.clusterOf[id]).siteIsInCluster(id), "cluster-changed", "exploration changed the cluster of site " << id);
  }
  for (auto& m : s.members) REQUIRE_THAT(s.clusters.exist(m.first) && s.clusters.getCluster(m.first).getNumberOfSitesInCluster() == (int)m.second.size(), "cluster-changed", "exploration changed cluster " << m.first);
  c.event("states-compared");
  if (c.index % 100 == 0) c.sample = Msg() << s.ids.size() << " sites, " << s.members.size() << " clusters, 6 explorations";
}

typedef std::multiset<std::pair<std::pair<int, int>, double>> Edges;
template <typename T>
static Edges edgesOf(const T& v) {
  Edges e;
  for (auto& p : v) {
    auto* w = dynamic_cast<ugly::EdgeDirectedWeighted*>(p.get());
    REQUIRE_THAT(w, "edge-kind", "an edge is not a directed weighted edge");
    e.insert(std::make_pair(std::make_pair(w->getVertex1(), w->getVertex2()), w->getWeight()));
  }
  return e;
}

WORKLOAD(C22, conversion, 1) {
  Rng& r = c.rng;
  State s;
  make(c, s);
  std::vector<int> some;
  for (int id : s.ids)
    if (r.chance(0.5)) some.push_back(id);
  r.shuffle(some);
  Edges rates, times;
  for (int id : some)
    for (auto& e : s.g[id]) {
      rates.insert(std::make_pair(std::make_pair(id, e.first), e.second));
      times.insert(std::make_pair(std::make_pair(id, e.first), 1.0 / e.second));
    }
  typedef std::shared_ptr<ugly::Edge> P;
  REQUIRE_THAT(edgesOf(convertSitesOutgoingRatesToSharedWeightedEdges<std::vector<P>>(s.sites, some)) == rates, "edges", "the edges of " << some.size() << " sites are not their rates");
  REQUIRE_THAT(edgesOf(convertSitesOutgoingRatesToSharedWeightedEdges<std::list<P>>(s.sites, some)) == rates, "edges", "the edges of " << some.size() << " sites are not their rates");
  REQUIRE_THAT(edgesOf(convertSitesOutgoingRatesToTimeSharedWeightedEdges<std::vector<P>>(s.sites, some)) == times, "times", "the edges of " << some.size() << " sites are not their times");
  for (int id : s.ids) {
    Edges one;
    for (auto& e : s.g[id]) one.insert(std::make_pair(std::make_pair(id, e.first), e.second));
    REQUIRE_THAT(edgesOf(convertSitesOutgoingRatesToSharedWeightedEdges<std::vector<P>>(s.sites, id)) == one, "edges", "the edges of site " << id << " are not its rates");
    REQUIRE_THAT(edgesOf(convertSitesOutgoingRatesToUniqueWeightedEdges<std::vector<std::unique_ptr<ugly::Edge>>>(s.sites, id)) == one, "edges", "the edges of site " << id << " are not its rates");
    c.event("edges-compared", one.size());
  }
  auto nodes = convertSitesToEmptySharedNodes(some);
  REQUIRE_THAT(nodes.size() == some.size(), "nodes", nodes.size() << " nodes for " << some.size() << " sites");
  for (int id : some) REQUIRE_THAT(nodes.count(id) && nodes[id], "nodes", "no node for site " << id);
  for (auto& x : nodes)
    for (auto& y : nodes) REQUIRE_THAT(x.first == y.first || x.second != y.second, "nodes", "two sites share a node");
  c.event("conversions");
  c.mixsig((uint64_t)some.size());
  c.mixsig(s.g[s.ids[0]].empty() ? 0.0 : s.g[s.ids[0]].begin()->second);
  c.nontrivial = some.size() > 1;
}

// Reference models written from the documentation: rate graphs, the exact
// Markov chain of a cluster, shortest traversal times.
#ifndef VERIF_MODEL_HPP
#define VERIF_MODEL_HPP
#include "common.hpp"

namespace vf {

typedef std::map<int, std::map<int, double>> Graph;                       // model
typedef std::unordered_map<int, std::unordered_map<int, double>> Store;   // handed to the library

inline Store toStore(const Graph& g) {
  Store s;
  for (auto& a : g)
    for (auto& b : a.second) s[a.first][b.first] = b.second;
  return s;
}
inline std::set<int> allSites(const Graph& g) {
  std::set<int> r;
  for (auto& a : g) {
    r.insert(a.first);
    for (auto& b : a.second) r.insert(b.first);
  }
  return r;
}
inline double sumRates(const Graph& g, int s) {
  auto it = g.find(s);
  double t = 0;
  if (it != g.end())
    for (auto& b : it->second) t += b.second;
  return t;
}

// strongly connected when restricted to S?
inline bool connected(const Graph& g, const std::set<int>& S) {
  if (S.empty()) return false;
  for (int dir = 0; dir < 2; ++dir) {
    std::set<int> seen{*S.begin()};
    std::vector<int> st{*S.begin()};
    while (!st.empty()) {
      int u = st.back();
      st.pop_back();
      for (int v : S) {
        if (seen.count(v)) continue;
        auto it = g.find(dir ? v : u);
        if (it != g.end() && it->second.count(dir ? u : v)) {
          seen.insert(v);
          st.push_back(v);
        }
      }
    }
    if (seen.size() != S.size()) return false;
  }
  return true;
}

// largest shortest-path time between two sites of S over rates inside S
inline double traversalTime(const Graph& g, const std::set<int>& S) {
  std::vector<int> v(S.begin(), S.end());
  size_t n = v.size();
  const double inf = std::numeric_limits<double>::infinity();
  std::vector<std::vector<double>> d(n, std::vector<double>(n, inf));
  for (size_t i = 0; i < n; ++i) {
    d[i][i] = 0;
    auto it = g.find(v[i]);
    if (it == g.end()) continue;
    for (size_t j = 0; j < n; ++j)
      if (i != j && it->second.count(v[j])) d[i][j] = 1.0 / it->second.at(v[j]);
  }
  for (size_t k = 0; k < n; ++k)
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j) d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]);
  double m = 0;
  for (auto& r : d)
    for (double x : r) m = std::max(m, x);
  return m;
}
inline double externalRate(const Graph& g, const std::set<int>& S) {
  double t = 0;
  for (int s : S) {
    auto it = g.find(s);
    if (it == g.end()) continue;
    for (auto& b : it->second)
      if (!S.count(b.first)) t += b.second;
  }
  return t;
}

// The hops of a walker restricted to a set of sites
struct ClusterModel {
  std::vector<int> id;
  std::map<int, size_t> pos;
  std::vector<std::vector<double>> Q;     // internal hop probabilities
  std::vector<double> tau, off;           // time constant, summed rate off the cluster
  std::map<int, std::vector<double>> out; // neighbour -> hop probability from each site
  ClusterModel(const Graph& g, const std::set<int>& S) {
    for (int s : S) {
      pos[s] = id.size();
      id.push_back(s);
    }
    size_t n = id.size();
    Q.assign(n, std::vector<double>(n, 0.0));
    tau.assign(n, 0);
    off.assign(n, 0);
    for (size_t i = 0; i < n; ++i) {
      double sum = sumRates(g, id[i]);
      tau[i] = 1.0 / sum;
      auto it = g.find(id[i]);
      if (it == g.end()) continue;
      for (auto& b : it->second) {
        if (S.count(b.first))
          Q[i][pos[b.first]] = b.second / sum;
        else {
          off[i] += b.second;
          auto& o = out[b.first];
          if (o.empty()) o.assign(n, 0.0);
          o[i] = b.second / sum;
        }
      }
    }
  }
  // normalised distribution after one hop, given that the walker stayed
  std::vector<double> step(const std::vector<double>& p) const {
    size_t n = id.size();
    std::vector<double> q(n, 0.0);
    double t = 0;
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j) q[j] += p[i] * Q[i][j];
    for (double x : q) t += x;
    for (double& x : q) x /= t;
    return q;
  }
  // equilibrium distribution of hops (quasi-stationary, left Perron vector); doublings says how
  // often the number of hops had to be doubled until the starting site made no difference
  mutable int doublings = 0;
  bool resolved() const { return doublings <= 26; }
  std::vector<double> equilibrium() const {
    size_t n = id.size();
    typedef long double L;
    std::vector<std::vector<L>> M(n, std::vector<L>(n, 0));
    for (size_t i = 0; i < n; ++i) {
      for (size_t j = 0; j < n; ++j) M[i][j] = Q[i][j] * 0.5L;
      M[i][i] += 0.5L;
    }
    std::vector<L> v(n, 1.0L / n);
    for (doublings = 0; doublings < 64; ++doublings) {
      // v <- uniform * M^(2^doublings)
      L t = 0, diff = 0;
      std::vector<L> w(n, 0);
      for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) w[j] += M[i][j];
      for (L x : w) t += x;
      for (L& x : w) x /= t;
      for (size_t i = 0; i < n; ++i) {
        L sum = 0;
        for (L x : M[i]) sum += x;
        if (sum > 0)
          for (size_t j = 0; j < n; ++j) diff = std::max(diff, std::fabs(M[i][j] / sum - w[j]));
      }
      v = w;
      if (diff < 1e-17L * n) break;
      std::vector<std::vector<L>> N(n, std::vector<L>(n, 0));
      L mx = 0;
      for (size_t i = 0; i < n; ++i)
        for (size_t a = 0; a < n; ++a) {
          L x = M[i][a];
          if (x == 0) continue;
          for (size_t j = 0; j < n; ++j) N[i][j] += x * M[a][j];
        }
      for (auto& r : N)
        for (L x : r) mx = std::max(mx, x);
      for (auto& r : N)
        for (L& x : r) x /= mx;
      M.swap(N);
    }
    return std::vector<double>(v.begin(), v.end());
  }
  double timeConstant(const std::vector<double>& p) const {
    double a = 0, b = 0;
    for (size_t i = 0; i < id.size(); ++i) {
      a += p[i] * tau[i];
      b += p[i] * tau[i] * off[i];
    }
    return a / b;
  }
  double meanHopTime(const std::vector<double>& p) const {
    double a = 0;
    for (size_t i = 0; i < id.size(); ++i) a += p[i] * tau[i];
    return a;
  }
  std::map<int, double> exits(const std::vector<double>& p) const {
    std::map<int, double> r;
    double t = 0;
    for (auto& o : out) {
      double x = 0;
      for (size_t i = 0; i < id.size(); ++i) x += p[i] * o.second[i];
      r[o.first] = x;
      t += x;
    }
    for (auto& x : r) x.second /= t;
    return r;
  }
  std::map<int, double> shares(const std::vector<double>& p) const {
    std::map<int, double> r;
    double t = meanHopTime(p);
    for (size_t i = 0; i < id.size(); ++i) r[id[i]] = p[i] * tau[i] / t;
    return r;
  }
};

// A connected set of n sites plus m outside sites, as a cluster would see it.
// decades: spread of the rates. directed: also one-way rates.
struct ClusterGraph {
  Graph g;
  std::vector<int> in, out;
};
inline ClusterGraph makeClusterGraph(Rng& r, size_t n, size_t m, double decades, bool directed, double extScale = 1.0) {
  ClusterGraph c;
  std::vector<int> ids = makeIds(r, n + m);
  c.in.assign(ids.begin(), ids.begin() + n);
  c.out.assign(ids.begin() + n, ids.end());
  double base = r.scale();
  bool equal = r.chance(0.15);
  auto rate = [&]() { return equal ? base : base * std::pow(10.0, r.uni() * decades); };
  // spanning structure
  int shape = (int)r.range(0, 3);
  if (directed && n > 2 && r.chance(0.5)) {
    for (size_t i = 0; i < n; ++i) c.g[c.in[i]][c.in[(i + 1) % n]] = rate();
  } else {
    for (size_t i = 1; i < n; ++i) {
      size_t j = shape == 0 ? i - 1 : shape == 1 ? 0 : (size_t)r.range(0, (int64_t)i - 1);
      c.g[c.in[i]][c.in[j]] = rate();
      c.g[c.in[j]][c.in[i]] = rate();
    }
  }
  size_t extra = r.chance(0.3) ? 0 : (size_t)r.range(0, (int64_t)(2 * n));
  if (shape == 3 && n <= 12)
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j)
        if (i != j && !c.g[c.in[i]].count(c.in[j])) c.g[c.in[i]][c.in[j]] = rate();
  for (size_t k = 0; k < extra && n > 1; ++k) {
    int a = r.pick(c.in), b = r.pick(c.in);
    if (a == b) continue;
    if (!c.g[a].count(b)) c.g[a][b] = rate();
    if (!directed && !c.g[b].count(a)) c.g[b][a] = rate();
  }
  // exits
  for (size_t k = 0; k < m; ++k) {
    size_t links = r.chance(0.6) ? 1 : (size_t)r.range(1, (int64_t)std::min<size_t>(n, 4));
    for (size_t l = 0; l < links; ++l) c.g[r.pick(c.in)][c.out[k]] = rate() * extScale;
    if (r.chance(0.5)) c.g[c.out[k]][r.pick(c.in)] = rate();
  }
  return c;
}

}  // namespace vf
#endif

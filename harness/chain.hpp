// Exact results for Markov chains.
#ifndef VERIF_CHAIN_HPP
#define VERIF_CHAIN_HPP
#include "model.hpp"

namespace vf {

typedef long double LD;

// stationary distribution of the chain, by elimination of states (no subtraction)
inline std::map<int, double> stationary(const Graph& g, const std::vector<int>& sites) {
  size_t n = sites.size();
  std::map<int, size_t> pos;
  for (size_t i = 0; i < n; ++i) pos[sites[i]] = i;
  std::vector<std::vector<LD>> q(n, std::vector<LD>(n, 0));
  for (auto& a : g)
    for (auto& b : a.second) q[pos[a.first]][pos[b.first]] = b.second;
  std::vector<LD> scale(n, 0);
  for (size_t k = n; k-- > 1;) {
    LD t = 0;
    for (size_t j = 0; j < k; ++j) t += q[k][j];
    scale[k] = t;
    for (size_t i = 0; i < k; ++i) {
      LD f = q[i][k] / t;
      for (size_t j = 0; j < k; ++j)
        if (j != i) q[i][j] += f * q[k][j];
    }
  }
  std::vector<LD> pi(n, 0);
  pi[0] = 1;
  for (size_t k = 1; k < n; ++k) {
    LD t = 0;
    for (size_t i = 0; i < k; ++i) t += pi[i] * q[i][k];
    pi[k] = t / scale[k];
  }
  LD sum = 0;
  for (LD x : pi) sum += x;
  std::map<int, double> r;
  for (size_t i = 0; i < n; ++i) r[sites[i]] = (double)(pi[i] / sum);
  return r;
}

// mean time until a walker that enters S at each of its sites leaves it
inline std::map<int, double> exitTimes(const ClusterModel& m) {
  size_t n = m.id.size();
  std::vector<std::vector<LD>> a(n, std::vector<LD>(n + 1, 0));
  for (size_t i = 0; i < n; ++i) {
    // (sum of rates) t_i - sum_j k_ij t_j = 1
    for (size_t j = 0; j < n; ++j) a[i][j] = -(LD)m.Q[i][j];
    a[i][i] += 1;
    a[i][n] = m.tau[i];
  }
  for (size_t k = 0; k < n; ++k) {
    size_t p = k;
    for (size_t i = k; i < n; ++i)
      if (std::fabs(a[i][k]) > std::fabs(a[p][k])) p = i;
    std::swap(a[k], a[p]);
    for (size_t i = 0; i < n; ++i)
      if (i != k) {
        LD f = a[i][k] / a[k][k];
        for (size_t j = k; j <= n; ++j) a[i][j] -= f * a[k][j];
      }
  }
  std::map<int, double> r;
  for (size_t i = 0; i < n; ++i) r[m.id[i]] = (double)(a[i][n] / a[i][i]);
  return r;
}

// Gauss elimination with the largest pivot, columns from n on are right-hand sides
inline void solve(std::vector<std::vector<LD>>& a) {
  size_t n = a.size(), m = n ? a[0].size() : 0;
  for (size_t k = 0; k < n; ++k) {
    size_t p = k;
    for (size_t i = k; i < n; ++i)
      if (std::fabs(a[i][k]) > std::fabs(a[p][k])) p = i;
    std::swap(a[k], a[p]);
    for (size_t i = 0; i < n; ++i)
      if (i != k) {
        LD f = a[i][k] / a[k][k];
        for (size_t j = k; j < m; ++j) a[i][j] -= f * a[k][j];
      }
  }
  for (size_t i = 0; i < n; ++i)
    for (size_t j = n; j < m; ++j) a[i][j] /= a[i][i];
}

// time after which the site a walker started on makes no difference (to 1 %)
inline double mixingTime(const Graph& g, const std::vector<int>& sites) {
  size_t n = sites.size();
  std::map<int, size_t> pos;
  for (size_t i = 0; i < n; ++i) pos[sites[i]] = i;
  double fastest = 0;
  for (int s : sites) fastest = std::max(fastest, sumRates(g, s));
  double dt = 0.5 / fastest;
  std::vector<std::vector<double>> P(n, std::vector<double>(n, 0));
  for (size_t i = 0; i < n; ++i) {
    P[i][i] = 1 - sumRates(g, sites[i]) * dt;
    auto it = g.find(sites[i]);
    if (it == g.end()) continue;
    for (auto& b : it->second) P[i][pos[b.first]] += b.second * dt;
  }
  for (int k = 0; k < 60; ++k) {
    double diff = 0;
    for (size_t j = 0; j < n; ++j) {
      double lo = P[0][j], hi = P[0][j];
      for (size_t i = 1; i < n; ++i) {
        lo = std::min(lo, P[i][j]);
        hi = std::max(hi, P[i][j]);
      }
      diff = std::max(diff, hi - lo);
    }
    if (diff < 0.01) return dt * std::ldexp(1.0, k);
    std::vector<std::vector<double>> Q(n, std::vector<double>(n, 0));
    for (size_t i = 0; i < n; ++i)
      for (size_t a = 0; a < n; ++a)
        for (size_t j = 0; j < n; ++j) Q[i][j] += P[i][a] * P[a][j];
    P.swap(Q);
  }
  return std::numeric_limits<double>::infinity();
}

}  // namespace vf
#endif

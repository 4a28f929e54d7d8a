#ifndef STUB_UGLY_GRAPH_ALGORITHMS_HPP
#define STUB_UGLY_GRAPH_ALGORITHMS_HPP
#include <limits>
#include <queue>
#include <unordered_map>
#include "graph.hpp"
#include "pair_hash.hpp"
namespace ugly {
namespace graphalgorithms {
// Length of the shortest directed path between every ordered pair of vertices.
template <typename... Ts>
std::unordered_map<std::pair<int, int>, double, hash_functions::hash>
maxMinimumDistanceBetweenEveryVertex(Graph<Ts...>& g) {
  std::unordered_map<std::pair<int, int>, double, hash_functions::hash> out;
  const double inf = std::numeric_limits<double>::infinity();
  for (int s : g.getVertices()) {
    std::unordered_map<int, double> dist;
    for (int v : g.getVertices()) dist[v] = inf;
    dist[s] = 0.0;
    typedef std::pair<double, int> qe;
    std::priority_queue<qe, std::vector<qe>, std::greater<qe>> pq;
    pq.push({0.0, s});
    while (!pq.empty()) {
      auto top = pq.top();
      pq.pop();
      if (top.first > dist[top.second]) continue;
      for (auto& nb : g.adjacent(top.second)) {
        double d = top.first + nb.second;
        if (d < dist[nb.first]) {
          dist[nb.first] = d;
          pq.push({d, nb.first});
        }
      }
    }
    for (auto& d : dist)
      if (d.first != s) out[{s, d.first}] = d.second;
  }
  return out;
}
}
}
#endif

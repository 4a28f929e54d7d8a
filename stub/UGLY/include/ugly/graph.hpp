#ifndef STUB_UGLY_GRAPH_HPP
#define STUB_UGLY_GRAPH_HPP
#include <limits>
#include <list>
#include <memory>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>
#include "edge.hpp"
#include "graph_node.hpp"
namespace ugly {
template <typename... Ts>
class Graph {
 public:
  Graph(std::list<std::weak_ptr<Edge>> edges,
        std::unordered_map<int, std::weak_ptr<GraphNode<Ts...>>> nodes) {
    for (auto& n : nodes) vertices_.push_back(n.first);
    for (auto& w : edges) {
      auto e = w.lock();
      if (!e) continue;
      if (!nodes.count(e->getVertex1()) || !nodes.count(e->getVertex2())) continue;
      adj_[e->getVertex1()].push_back({e->getVertex2(), e->getWeight()});
      if (!e->directional()) adj_[e->getVertex2()].push_back({e->getVertex1(), e->getWeight()});
    }
  }
  const std::vector<int>& getVertices() const { return vertices_; }
  const std::vector<std::pair<int, double>>& adjacent(int v) const {
    static const std::vector<std::pair<int, double>> none;
    auto it = adj_.find(v);
    return it == adj_.end() ? none : it->second;
  }

 private:
  std::vector<int> vertices_;
  std::unordered_map<int, std::vector<std::pair<int, double>>> adj_;
};
}
#endif

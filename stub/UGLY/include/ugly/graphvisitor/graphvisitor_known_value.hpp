#ifndef STUB_UGLY_GV_KNOWN_VALUE_HPP
#define STUB_UGLY_GV_KNOWN_VALUE_HPP
#include <memory>
#include <set>
#include <stdexcept>
#include <vector>
#include "../edge.hpp"
namespace ugly {
// Explores a directed graph, always taking the pending edge with the largest
// (or smallest) weight next.
class GraphVisitorKnownValue {
 public:
  explicit GraphVisitorKnownValue(bool largest) : largest_(largest), started_(false), start_(0) {}
  void setStartingVertex(int v) {
    start_ = v;
    started_ = true;
    explored_.insert(v);
    order_.push_back(v);
  }
  bool edgeCanBeAdded(std::weak_ptr<Edge> w) const {
    auto e = w.lock();
    if (!e) return false;
    if (!explored_.count(e->getVertex1())) return false;
    if (explored_.count(e->getVertex2())) return false;
    for (auto& p : pending_) {
      auto q = p.lock();
      if (q && q->getVertex1() == e->getVertex1() && q->getVertex2() == e->getVertex2()) return false;
    }
    return true;
  }
  void addEdge(std::weak_ptr<Edge> w) {
    if (!started_) throw std::runtime_error("starting vertex not set");
    if (!edgeCanBeAdded(w)) throw std::invalid_argument("edge cannot be added");
    pending_.push_back(w);
  }
  bool allEdgesExplored() const { return pending_.empty(); }
  template <typename T>
  std::weak_ptr<T> getNextEdge() {
    if (pending_.empty()) throw std::runtime_error("no edges left to explore");
    std::size_t best = 0;
    for (std::size_t i = 1; i < pending_.size(); ++i) {
      double a = pending_[i].lock()->getWeight(), b = pending_[best].lock()->getWeight();
      if (largest_ ? a > b : a < b) best = i;
    }
    return pending_[best];
  }
  int chooseTerminalVertex(std::weak_ptr<Edge> w) const {
    auto e = w.lock();
    if (!e) throw std::runtime_error("edge has expired");
    return e->getVertex2();
  }
  void exploreEdge(std::weak_ptr<Edge> w) {
    auto e = w.lock();
    if (!e) throw std::runtime_error("edge has expired");
    if (explored_.insert(e->getVertex2()).second) order_.push_back(e->getVertex2());
    std::vector<std::weak_ptr<Edge>> keep;
    for (auto& p : pending_) {
      auto q = p.lock();
      if (q && !explored_.count(q->getVertex2())) keep.push_back(p);
    }
    pending_.swap(keep);
  }
  std::vector<int> getExploredVertices() const { return order_; }
  std::size_t countExploredVertices() const { return order_.size(); }
  bool vertexHasBeenExplored(int v) const { return explored_.count(v) != 0; }

 private:
  bool largest_;
  bool started_;
  int start_;
  std::set<int> explored_;
  std::vector<int> order_;
  std::vector<std::weak_ptr<Edge>> pending_;
};
}
#endif

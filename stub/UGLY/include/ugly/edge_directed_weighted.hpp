#ifndef STUB_UGLY_EDGE_DIRECTED_WEIGHTED_HPP
#define STUB_UGLY_EDGE_DIRECTED_WEIGHTED_HPP
#include "edge.hpp"
namespace ugly {
class EdgeDirectedWeighted : public Edge {
 public:
  EdgeDirectedWeighted(int v1, int v2, double w) : Edge(v1, v2), w_(w) {}
  bool directional() const override { return true; }
  double getWeight() const override { return w_; }
  void setWeight(double w) { w_ = w; }

 private:
  double w_;
};
}
#endif

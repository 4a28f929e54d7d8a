#ifndef STUB_UGLY_EDGE_HPP
#define STUB_UGLY_EDGE_HPP
#include <stdexcept>
namespace ugly {
class Edge {
 public:
  Edge(int v1, int v2) : v1_(v1), v2_(v2) {}
  virtual ~Edge() {}
  int getVertex1() const { return v1_; }
  int getVertex2() const { return v2_; }
  int getOtherVertex(int v) const {
    if (v == v1_) return v2_;
    if (v == v2_) return v1_;
    throw std::invalid_argument("vertex is not part of the edge");
  }
  bool containsVertex(int v) const { return v == v1_ || v == v2_; }
  virtual bool directional() const { return false; }
  virtual double getWeight() const { return 1.0; }

 protected:
  int v1_;
  int v2_;
};
}
#endif

#ifndef STUB_UGLY_GRAPH_NODE_HPP
#define STUB_UGLY_GRAPH_NODE_HPP
#include <string>
namespace ugly {
template <typename... Ts>
class GraphNode {
 public:
  GraphNode() {}
  explicit GraphNode(const std::string& l) : label_(l) {}
  const std::string& getLabel() const { return label_; }

 private:
  std::string label_;
};
}
#endif

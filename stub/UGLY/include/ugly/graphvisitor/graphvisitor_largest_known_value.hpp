#ifndef STUB_UGLY_GV_LARGEST_HPP
#define STUB_UGLY_GV_LARGEST_HPP
#include "graphvisitor_known_value.hpp"
namespace ugly {
class GraphVisitorLargestKnownValue : public GraphVisitorKnownValue {
 public:
  GraphVisitorLargestKnownValue() : GraphVisitorKnownValue(true) {}
};
}
#endif

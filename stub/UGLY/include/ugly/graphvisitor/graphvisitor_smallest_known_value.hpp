#ifndef STUB_UGLY_GV_SMALLEST_HPP
#define STUB_UGLY_GV_SMALLEST_HPP
#include "graphvisitor_known_value.hpp"
namespace ugly {
class GraphVisitorSmallestKnownValue : public GraphVisitorKnownValue {
 public:
  GraphVisitorSmallestKnownValue() : GraphVisitorKnownValue(false) {}
};
}
#endif

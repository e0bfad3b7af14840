#include "common.h"
using namespace hx;
int main(int argc, char** argv) {
  mc::Main m; m.property = "C14";
  m.bounds = "GreaterThan, LessThan, EqualTo; 8 reference values; every stream of depth 4 over the reference value, its two floating point neighbours, zero, negatives and infinities; depth 8 over {below, equal, above}; two instances with equal and different parameters fed alternately";
  m.parse(argc, argv);
  auto B = bases(); B.push_back(~0ull - 19);
  for (auto t : {"GreaterThan", "LessThan", "EqualTo"}) for (double c : {0.0, 1.0, -1.0, 0.1, 1e9, -2.5, 1e-12, 1e300}) {
    auto d = zoo::dVal(t, c); double lo = std::nextafter(c, -INFINITY), hi = std::nextafter(c, INFINITY);
    m.add(d.name + " near", stream(d, 1, {1}, {c, lo, hi, 0, -1, INFINITY, -INFINITY, c + 0.5}, 4));
    m.add(d.name + " depth", stream(d, 1, {1}, {c, lo, hi}, 7));
    for (auto b : B) m.add(d.name + " " + baseName(b), stream(d, b, {1, 2}, {lo, c, hi}, 3));
    m.add(d.name + " deep", stream(d, 1, {1}, {c, lo, hi, -c}, 9), true);
  }
  // two instances at once
  for (auto t : {"GreaterThan", "LessThan", "EqualTo"}) sideBySide(m, {zoo::dVal(t, 1), zoo::dVal(t, 2)}, {0, 1, 1.5, 2, 3}, 3, 5);
  return m.run();
}

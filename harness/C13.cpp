#include "common.h"
using namespace hx;
int main(int argc, char** argv) {
  mc::Main m; m.property = "C13";
  m.bounds = "Add, Scale, Power, Constant, Identity; 12 parameters; every stream of depth 4 over 7 values incl. negatives, zero, huge, infinities and NaN; every stream of depth 8 over 3 values; time origins 0..2^64-20; two instances with equal and different parameters fed alternately";
  m.parse(argc, argv);
  auto B = bases(); B.push_back(~0ull - 19);
  vector<Def> ds = {zoo::dPlain("Identity")};
  for (auto t : {"Add", "Scale", "Power", "Constant"}) for (double c : {0.0, 1.0, -1.0, 2.0, 0.5, -2.25, 1e9, 1e-9, 3.0, 1e-13, 1 + 1e-12, -1e-200}) ds.push_back(zoo::dVal(t, c));
  for (auto& d : ds) {
    for (auto b : B) m.add(d.name + " " + baseName(b), stream(d, b, {1, 2}, {-1.5, 0, 3}, 3));
    m.add(d.name + " values", stream(d, 1, {1}, {-2, 0, 1, 0.3, 1e6, INFINITY, NAN}, 4));
    m.add(d.name + " tiny", scaled(0, stream(d, 1, {1}, {-2e-13, 1e-13, 1e-300, 0}, 4)));
    m.add(d.name + " depth", stream(d, 1, {1}, {-2, 1, 0.25}, 7));
    m.add(d.name + " deep", stream(d, 1, {1, 3}, {-2, 1, 0.25, 1e6}, 6), true);
  }
  // two instances at once
  for (auto t : {"Add", "Scale", "Power", "Constant"}) sideBySide(m, {zoo::dVal(t, 2), zoo::dVal(t, 3)}, {-2, 0, 5}, 4, 6);
  return m.run();
}

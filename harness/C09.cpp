#include "common.h"
using namespace hx;
int main(int argc, char** argv) {
  mc::Main m; m.property = "C09";
  m.bounds = "EVERY filter of up to 6 coefficients over {0,1,-0.5,3} and of 7..12 over {1,2}; FiniteImpulseResponse with 1..5, 12 coefficients and Difference (both time modes): every stream of depth 6-8 over values {-1,0.5,3}, increments {1,2,7}, time origins up to 2^63; filters of 13 to 100 coefficients over EVERY flat stream with one or two (more than 33: one) deviating messages; periodic streams of 700 messages; two instances with equal and different parameters fed alternately";
  m.parse(argc, argv);
  vector<Def> ds = {zoo::dFIR({3}), zoo::dFIR({2, -1}), zoo::dFIR({1, 2, 4}), zoo::dFIR({0, 0, 1}), zoo::dFIR({0.5, -8, 16, 100}), zoo::dFIR({1, 10, 100, 1000, 10000}), zoo::dDiff(), zoo::dDiff(false)};
  for (auto& d : ds) {
    for (auto b : bases()) m.add(d.name + " " + baseName(b), stream(d, b, {1, 2, 7}, {-1, 0.5, 3}, b > 1 ? 4 : 5));
    m.add(d.name + " depth", stream(d, 3, {1}, {-1, 0, 4}, 9));
    m.add(d.name + " values", stream(d, 3, {1}, {-1, 1e9, 1e-9, -1e300, 0.1, 0}, 5));
    for (double s : {1e-13, 1e12}) m.add(d.name + " values times " + ref::str(s), scaled(s, stream(d, 3, {1}, times(s, {-1, 0.5, 3}), 6)));
    m.add(d.name + " deep", stream(d, 3, {1, 2}, {-1, 0, 4}, 8), true);
    for (int p : {1, 2, 3, 4}) m.add(d.name + " period " + to_string(p), periodic(d, 0, {1, 5}, {-1, 2, 0.125}, p, 700), p > 2);
  }
  vector<double> big; for (int i = 0; i < 12; i++) big.push_back(i % 2 ? i + 1 : -(1 << i));
  m.add("FIR12", stream(zoo::dFIR(big), 9, {1}, {-1, 3}, 16));
  m.add("every filter", filters([](vector<double> v) { return zoo::dFIR(v); }, {0, 1, -0.5, 3}, 1, 6)); m.add("every longer filter", filters([](vector<double> v) { return zoo::dFIR(v); }, {1, 2}, 7, 12)); m.add("every filter deep", filters([](vector<double> v) { return zoo::dFIR(v); }, {0, 1, -0.5}, 7, 9), true);
  for (int n : {13, 16, 17, 31, 32, 33, 64, 65, 100}) { vector<double> v; for (int i = 0; i < n; i++) v.push_back((i * 7) % 11 - 4.5 + i / 16.0); m.add("FIR with " + to_string(n) + " coefficients", bumps(zoo::dFIR(v), 0, {-2, 3}, n + 5, n > 33 ? 1 : 2)); }
  // two instances at once
  sideBySide(m, {zoo::dFIR({2, -1}), zoo::dFIR({1, 2, 4}), zoo::dDiff(), zoo::dDiff(false)}, {-1, 4}, 7, 8);
  return m.run();
}

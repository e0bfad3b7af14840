#include "common.h"
using namespace hx;
int main(int argc, char** argv) {
  mc::Main m; m.property = "C11";
  m.bounds = "EVERY AutoRegressive of up to 6 coefficients over {0,0.5,-0.25,1} and of 7..11 over {0,0.5}; one stream of 2^24+40 messages; Count, CumulativeSum, AutoRegressive with 1..4 and 12 coefficients: every stream of depth 6-9 over values {-1,0.5,3}, increments {1,2,7}, time origins up to 2^63; AutoRegressive with 13 to 65 coefficients over EVERY flat stream with one or two deviating messages; periodic streams of 1300 messages; two instances with equal and different parameters fed alternately";
  m.parse(argc, argv);
  vector<Def> ds = {zoo::dPlain("Count"), zoo::dPlain("CumulativeSum"), zoo::dAR({0.5}), zoo::dAR({-1}), zoo::dAR({0.5, 0.25}), zoo::dAR({0, 1}), zoo::dAR({0.5, 0, -0.25}), zoo::dAR({0.125, 0.25, 0.0625, -0.5})};
  for (auto& d : ds) {
    for (auto b : bases()) m.add(d.name + " " + baseName(b), stream(d, b, {1, 2, 7}, {-1, 0.5, 3}, b > 1 ? 4 : 5));
    m.add(d.name + " depth", stream(d, 3, {1}, {-1, 0, 4}, 9));
    m.add(d.name + " values", stream(d, 3, {1}, {-1, 1e9, 1e-9, 0.1, 0}, 6));
    for (double s : {1e-13, 1e12}) m.add(d.name + " values times " + ref::str(s), scaled(s, stream(d, 3, {1}, times(s, {-1, 0.5, 3}), 6)));
    m.add(d.name + " deep", stream(d, 3, {1, 2}, {-1, 0, 4}, 8), true);
    for (int p : {1, 2, 3}) m.add(d.name + " period " + to_string(p), periodic(d, 0, {1, 5}, {-1, 1, 0.125}, p, 1300), p > 2);
  }
  vector<double> big; for (int i = 0; i < 12; i++) big.push_back((i % 2 ? 1 : -1) / (double)(2 << i));
  m.add("AR12", stream(zoo::dAR(big), 9, {1}, {-1, 3}, 15));
  m.add("every AR", filters([](vector<double> v) { return zoo::dAR(v); }, {0, 0.5, -0.25, 1}, 1, 6)); m.add("every longer AR", filters([](vector<double> v) { return zoo::dAR(v); }, {0, 0.5}, 7, 11)); m.add("every AR deep", filters([](vector<double> v) { return zoo::dAR(v); }, {0, 0.5, -0.25}, 7, 8), true);
  // a stream of more messages than a single-precision number can count
  m.add("Count, 2^24 messages", [](Ctx& c) { auto op = zoo::dPlain("Count").real("op"); c.decide(); uint64_t n = (1 << 24) + 40;
    for (uint64_t i = 1; i <= n; i++) { c.step(); op->receiveData(zoo::Msg(i, -1), "i1"); auto o = op->executeData(); bool ok = o.size() == 1 && o.begin()->second.size() == 1 && o.begin()->second.begin()->second.size() == 1; if (ok) { auto& m = o.begin()->second.begin()->second[0]; ok = m.time == i && m.value == (double)i; } c.check(ok, "count", [&] { return "message number " + to_string(i) + " is not counted as such"; }); } c.outcome(n); c.state(n); });
  for (int n : {13, 16, 17, 31, 32, 33, 64, 65}) { vector<double> v; for (int i = 0; i < n; i++) v.push_back(((i * 7) % 11 - 4.5) / (8.0 * n)); m.add("AR with " + to_string(n) + " coefficients", bumps(zoo::dAR(v), 0, {-2, 3}, n + 5, n > 33 ? 1 : 2)); }
  // two instances at once
  sideBySide(m, {zoo::dPlain("Count"), zoo::dPlain("CumulativeSum"), zoo::dAR({0.5}), zoo::dAR({0.25, -1})}, {-1, 4}, 7, 8);
  return m.run();
}

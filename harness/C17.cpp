#include "common.h"
using namespace hx;
int main(int argc, char** argv) {
  mc::Main m; m.property = "C17";
  m.bounds = "interval in {1,2,3,5,10,1000,2^33}; every stream of depth 6-7 with gaps from {1,2,3,5,d-1,d,d+1,2d,2d+1}; depth 4 with gaps of 130, 257, 1000 and 70000 intervals; time origins 0..2^63; periodic streams of 500 messages; two instances with equal and different parameters fed alternately";
  m.assumptions = {"messages arrive in strictly increasing time order"};
  m.parse(argc, argv);
  auto tagged = [](Def d, uint64_t base, vector<uint64_t> inc, int depth) { return [=](Ctx& c) { Lock l(d); uint64_t t = base; for (int i = 0; i < depth; i++) { if (i) t += c.pick(inc); l.send(c, false, 1, M{t, (i * 7 % 5) - 1.5 + i}); } }; };
  for (uint64_t D : {1ull, 2ull, 3ull, 5ull, 10ull, 1000ull, 1ull << 33}) {
    auto d = zoo::dConstRes(D); std::set<uint64_t> g; for (uint64_t x : {D, D + 1, 2 * D, 2 * D + 1, 7 * D + 2}) g.insert(x); if (D > 1) { g.insert(D - 1); g.insert(1); } if (D < 100) { g.insert(2); g.insert(3); }
    vector<uint64_t> gaps(g.begin(), g.end());
    for (auto b : bases()) { m.add(d.name + " " + baseName(b), tagged(d, b, gaps, b > 1 ? 5 : 6)); m.add(d.name + " deep " + baseName(b), tagged(d, b, gaps, 7), true); }
    m.add(d.name + " values", stream(d, 4, {1, D, D + 1}, {-1, 0, 2}, 4));
    m.add(d.name + " huge gaps", tagged(d, 3, {1, 130 * D, 257 * D + 1, 1000 * D, 70000 * D + D / 2 + 1}, 4));
    if (D < 100) for (int p : {1, 2, 3, 4}) m.add(d.name + " period " + to_string(p), periodic(d, 1, gaps, {1.5}, p, 500), p > 3);
  }
  // two instances at once
  sideBySide(m, {zoo::dConstRes(1), zoo::dConstRes(2), zoo::dConstRes(3)}, {1, 5}, 7, 8); sideBySide(m, {zoo::dConstRes(4), zoo::dConstRes(5)}, {1, 5}, 7, 8, 3);
  return m.run();
}

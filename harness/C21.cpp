#include "common.h"
using namespace hx;
int main(int argc, char** argv) {
  mc::Main m; m.property = "C21";
  m.bounds = "defaults {0,0.25,-3}; data and queries on every pair of subsets of a 5-slot timeline in ALL interleavings; every history of depth 8 with clock increments {1,2,3}; up to 300 queries waiting for one data message and 300 data messages before one query; time origins 0..2^63; two instances with equal and different parameters fed alternately";
  m.assumptions = {"data times strictly increase, query times strictly increase"};
  m.parse(argc, argv);
  for (double def : {0.0, 0.25, -3.0}) for (auto b : bases()) {
    auto d = zoo::dVariable(def); string n = d.name + " " + baseName(b);
    m.add(n + " subsets", [d, b](Ctx& c) { Lock l(d); vector<Seq> s = {{false, 1, {}}, {true, 1, {}}};
      for (auto& q : s) { int mask = c.choose(32); for (int k = 0; k < 5; k++) if (mask >> k & 1) q.msgs.push_back(M{b + (uint64_t)k, q.control ? 99.0 : k + 0.5}); }
      interleave(c, s, [&](bool ct, int p, M x) { l.send(c, ct, p, x); }); }, def != 0.25 || b > 1);
    m.add(n + " histories", anyOrder(d, b, {1, 2, 3}, {0.5}, b > 1 ? 5 : 7), def == 0);
    m.add(n + " deep histories", anyOrder(d, b, {1, 2, 3}, {0.5}, 9), true);
  }
  for (int q : {1, 2, 17, 300}) m.add("backlog " + to_string(q), [q](Ctx& c) {
    Lock l(zoo::dVariable(-2)); int gap = 1 + c.choose(3), pre = c.choose(3), dataFirst = c.choose(2), off = c.choose(3);
    uint64_t t = 50; for (int i = 0; i < pre; i++) l.send(c, false, 1, M{40ull + i, i + 1.0});
    for (int i = 0; i < q; i++) l.send(c, !dataFirst, 1, M{t + (uint64_t)gap * i, i + 0.25});
    uint64_t u = t + off; for (int i = 0; i < 6; i++) { l.send(c, dataFirst, 1, M{u, 100.0 + i}); u += c.pick(vector<uint64_t>{1, 2, (uint64_t)gap * q}); }
  });
  // two instances at once
  sideBySide(m, {zoo::dVariable(0.25), zoo::dVariable(-3)}, {1, 5}, 5, 6);
  return m.run();
}

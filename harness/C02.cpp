#include "common.h"
using namespace hx;
int main(int argc, char** argv) {
  mc::Main m; m.property = "C02";
  m.bounds = "Join with 2 (depth 8), 3 (depth 6), 4 (depth 5) and 11 ports; every order of arrival, every clock increment in {1,2,3} per port; values that identify the message or repeat; backlogs of up to 400 unmatched messages; time origins up to 2^63; per-port times strictly increasing; two instances with equal and different parameters fed alternately";
  m.assumptions = {"each input port receives strictly increasing times"};
  m.parse(argc, argv);
  for (auto base : bases()) {
    bool more = base > 1;
    m.add("2 ports " + baseName(base), anyOrder(zoo::dJoin(2), base, {1, 2}, {0.5}, more ? 7 : 9));
    m.add("2 ports wide " + baseName(base), anyOrder(zoo::dJoin(2), base, {1, 2, 3, 5}, {0.5}, more ? 5 : 6));
    m.add("3 ports " + baseName(base), anyOrder(zoo::dJoin(3), base, {1, 2}, {0.5}, more ? 5 : 7));
    m.add("4 ports " + baseName(base), anyOrder(zoo::dJoin(4), base, {1, 2}, {0.5}, more ? 4 : 6));
    m.add("deep 2 ports " + baseName(base), anyOrder(zoo::dJoin(2), base, {1, 2, 3}, {0.5}, 9), true);
    m.add("deep 3 ports " + baseName(base), anyOrder(zoo::dJoin(3), base, {1, 2}, {0.5}, 8), true);
    m.add("deep 4 ports " + baseName(base), anyOrder(zoo::dJoin(4), base, {1, 2}, {0.5}, 7), true);
    m.add("2 ports, repeated values " + baseName(base), anyOrder(zoo::dJoin(2), base, {1, 2}, {0, -2.5}, 6), more); m.add("3 ports, repeated values " + baseName(base), anyOrder(zoo::dJoin(3), base, {1}, {0, -2.5}, 7), more);
    for (int w : {3, 50, 400}) m.add("backlog " + to_string(w) + " " + baseName(base), anyOrder(zoo::dJoin(2), base, {1, 2, 3, 40}, {0.5}, 4, w), more);
    // per-port sequences chosen as subsets of a timeline, then every interleaving
    m.add("subsets 2 " + baseName(base), [base](Ctx& c) {
      Lock l(zoo::dJoin(2)); vector<Seq> s = {{false, 1, {}}, {false, 2, {}}};
      for (auto& q : s) { int mask = c.choose(32); for (int k = 0; k < 5; k++) if (mask >> k & 1) q.msgs.push_back(M{base + (uint64_t)k, q.port * 10 + k + 0.5}); }
      interleave(c, s, [&](bool ct, int p, M x) { l.send(c, ct, p, x); });
    }, more);
    m.add("11 ports " + baseName(base), [base](Ctx& c) {
      const int n = 11; Lock l(zoo::dJoin(n));
      for (int r = 0; r < 3; r++) {
        int rot = c.choose(n), skip = c.choose(4), rev = c.choose(2);
        for (int i = 0; i < n; i++) { int p = (rev ? n - 1 - i : i); p = (p + rot) % n + 1; if (skip && p == 1 + 4 * (skip - 1)) continue; l.send(c, false, p, M{base + (uint64_t)r, p + 100.0 * r}); }
      }
    }, more);
  }
  // two instances at once
  m.add("side by side Join2 Join2", twin(zoo::dJoin(2), zoo::dJoin(2), {1, 2}, 5)); m.add("side by side Join2 Join3", twin(zoo::dJoin(2), zoo::dJoin(3), {1}, 7));
  return m.run();
}

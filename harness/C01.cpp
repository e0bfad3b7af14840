#include "common.h"
using namespace hx;
int main(int argc, char** argv) {
  mc::Main m; m.property = "C01";
  m.bounds = "Input with 1,2,3,11 ports; every sequence up to depth 7 (1 port, 4 timestamps), 6 (2 ports, 3 timestamps), 5 (3 ports, 3), 4 (11 ports); every pair among 128 ports; every subset of ports delivered together; values that differ (NaN, infinities, -0 and denormals included) or repeat; time origins 0, 1, 2^31, 2^32, 2^53, 2^63, 2^64-4";
  m.assumptions = {"times are unsigned 64 bit, values double"};
  m.parse(argc, argv);
  auto B = bases(); B.push_back(~0ull - 3);
  static const vector<double> val = {0.5, NAN, 0, 1e300, -INFINITY, 7, -0.0, 5e-324, 2, 5};
  for (auto base : B) {
    auto seq = [base](int n, int times, int depth) {
      return [=](Ctx& c) {
        Lock l(zoo::dInput(n));
        for (int i = 0; i < depth; i++) { int x = c.choose(n * times); l.send(c, false, x / times + 1, M{base + x % times, val[i % val.size()]}); }
      }; };
    m.add("same value " + baseName(base), [base](Ctx& c) { Lock l(zoo::dInput(2)); double v = c.pick(vector<double>{0, NAN, 1, INFINITY}); for (int i = 0; i < 5; i++) { int x = c.choose(6); l.send(c, false, x / 3 + 1, M{base + x % 3, v}); } }, base > 1);
    m.add("1 port " + baseName(base), seq(1, 4, 7));
    m.add("2 ports " + baseName(base), seq(2, 3, 6));
    m.add("3 ports " + baseName(base), seq(3, 3, 5), base > 1);
    m.add("11 ports " + baseName(base), seq(11, 2, 4), base != 0);
    m.add("deep 1 port " + baseName(base), seq(1, 4, 9), true);
    m.add("deep 2 ports " + baseName(base), seq(2, 4, 7), true);
    // several ports receive before the operator executes (what an upstream fan-out does)
    m.add("fan-in " + baseName(base), [base](Ctx& c) {
      auto d = zoo::dInput(2); auto real = d.real("op"); auto model = d.ref();
      for (int i = 0; i < 4; i++) {
        int mask = 1 + c.choose(3), execs = 1 + c.choose(2); Out want;
        for (int p = 1; p <= 2; p++) if (mask >> (p - 1) & 1) {
          M x{base + (uint64_t)c.choose(3), val[i]};
          ref::append(want, model->on(false, p, x)); real->receiveData(zoo::Msg(x.t, x.v), "i" + to_string(p));
          c.log([&] { return "receive " + what(false, p, x); });
        }
        Out got; for (int e = 0; e < execs; e++) ref::append(got, zoo::extract(real->executeData(), "op"));
        c.step(); c.log([&] { return "execute -> " + ref::str(got); }); c.state(model->hash()); c.outcome(ref::hash(got));
        c.check(exact(want, got), "Input/fan-in", [&] { return "emitted " + ref::str(got) + ", expected " + ref::str(want); });
      }
    }, base > 1);
  }
  // many ports: a message forwarded on any one of them leaves every other one alone
  for (int n : {12, 128}) m.add(to_string(n) + " ports, every pair", [n](Ctx& c) {
    Lock l(zoo::dInput(n)); int p = 1 + c.choose(n); bool up = c.flip(); l.send(c, false, p, M{50, 1});
    for (int i = 1; i <= n; i++) { int q = up ? i : n + 1 - i; l.send(c, false, q, M{q == p ? 50ull : 50ull - i % 40, (double)q}); }
    for (int q = 1; q <= n; q++) l.send(c, false, q, M{50, 0.5});
  });
  return m.run();
}

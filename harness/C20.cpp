#include "common.h"
using namespace hx;
int main(int argc, char** argv) {
  mc::Main m; m.property = "C20";
  m.bounds = "1,2,3,11 control ports; timelines of 2..5 slots, each slot a data message with any combination of control values, control messages on any subset of ports, or nothing; data values distinct or repeated; ALL interleavings of the data and control streams; data or controls delayed by up to 300 messages; time origins 0..2^63; two demultiplexers fed alternately";
  m.assumptions = {"every data message has a control message with value 0 or 1 on every control port (the operator refuses other designs)", "each port receives strictly increasing times"};
  m.parse(argc, argv);
  auto cfg = [](int n, int K, uint64_t b, int same = 0) { return [=](Ctx& c) { Lock l(zoo::dDemux(n)); auto s = demuxSeqs(c, n, K, b); if (same) { int v = c.choose(3); for (size_t k = 0; k < s[0].msgs.size(); k++) s[0].msgs[k].v = v == 0 ? 0 : v == 1 ? 1 : k / 2 % 2; } interleave(c, s, [&](bool ct, int p, M x) { l.send(c, ct, p, x); }); }; };
  for (auto b : bases()) {
    m.add("1 port " + baseName(b), cfg(1, b > 1 ? 4 : 5, b)); m.add("2 ports " + baseName(b), cfg(2, b > 0 ? 2 : 3, b)); m.add("3 ports " + baseName(b), cfg(3, 2, b), b > 0);
    m.add("1 port, repeated values " + baseName(b), cfg(1, 4, b, 1), b > 1); m.add("2 ports, repeated values " + baseName(b), cfg(2, 2, b, 1), b > 1);
    m.add("deep 1 port " + baseName(b), cfg(1, 7, b), true);
  }
  for (int n : {1, 2, 3}) m.add("delay " + to_string(n), [n](Ctx& c) {
    Lock l(zoo::dDemux(n)); int K = c.pick(vector<int>{1, 2, 10, 300}), late = c.choose(n + 1), pat = c.choose(1 << n), mod = 1 + c.choose(3);
    auto ctl = [&](int p, int k) { l.send(c, true, p, M{5ull + k, (double)((pat >> (p - 1) & 1) ^ (k % mod == 1))}); };
    auto dat = [&](int k) { l.send(c, false, 1, M{5ull + k, k + 0.5}); };
    for (int k = 0; k < K; k++) { if (late != 0) dat(k); for (int p = 1; p <= n; p++) if (p != late) ctl(p, k); }
    for (int k = 0; k < K; k++) { if (late == 0) dat(k); else ctl(late, k); }
    for (int k = K; k < K + 3; k++) { dat(k); for (int p = 1; p <= n; p++) ctl(p, k); }
  });
  m.add("11 ports", [](Ctx& c) {
    const int n = 11; Lock l(zoo::dDemux(n));
    for (int r = 0; r < 2; r++) { int rot = c.choose(n), when = c.choose(n + 1), hot = c.choose(n + 2);
      for (int i = 0; i <= n; i++) { if (i == when) l.send(c, false, 1, M{5ull + r, 3.5 + r}); if (i < n) { int p = (i + rot) % n + 1; l.send(c, true, p, M{5ull + r, hot == n ? 1.0 : p - 1 == hot ? 1.0 : 0.0}); } } }
  });
  // two demultiplexers at once: the second has controls of its own; EVERY order in which the slots of the two follow each other
  for (int n : {1, 2}) for (int k : {1, 2}) m.add("side by side " + to_string(n) + " and " + to_string(k) + " ports", [n, k](Ctx& c) {
    int nn[2] = {n, k}; Lock l[2] = {Lock(zoo::dDemux(n), "side by side"), Lock(zoo::dDemux(k), "side by side")}; uint64_t t[2] = {10, 10};
    for (int s = 0; s < 3; s++) { int w = c.choose(2), on = c.choose(1 << nn[w]), part = c.choose(2); c.log([&] { return w ? "to the second:" : "to the first:"; });
      if (part) l[w].send(c, false, 1, M{t[w], 3.5 + s}); for (int p = 1; p <= nn[w]; p++) l[w].send(c, true, p, M{t[w], (double)(on >> (p - 1) & 1)});
      if (c.flip()) { int o = 1 - w, on2 = c.choose(1 << nn[o]); for (int p = 1; p <= nn[o]; p++) l[o].send(c, true, p, M{t[o], (double)(on2 >> (p - 1) & 1)}); l[o].send(c, false, 1, M{t[o], -3.5 - s}); t[o]++; }
      if (!part) l[w].send(c, false, 1, M{t[w], 3.5 + s}); t[w]++; }
  });
  return m.run();
}

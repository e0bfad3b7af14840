#include "c06defs.h"
using namespace hx;
// original (collected from), a twin that is never collected, and the restored copies
struct Trio {
  const Def& d; OpPtr orig, twin; vector<OpPtr> copies; string sig;
  explicit Trio(const Def& d) : d(d), orig(d.real("op")), twin(d.real("op")), sig(d.type) {}
  void checkpoint(Ctx& c, zoo::Op& from) {
    auto bytes = from.collect(); auto again = from.collect();
    c.check(bytes == again, sig + "/collect", [&] { return "collecting twice in a row gives different bytes"; });
    auto cp = d.real("op");
    rtbot::Bytes padded = bytes; for (int i = 0; i < 64; i++) padded.push_back(0xA5);  // what follows belongs to somebody else
    rtbot::Bytes::const_iterator it = padded.begin();
    cp->restore(it);
    c.check(it == padded.begin() + bytes.size(), sig + "/consumed", [&] { return "restore consumed " + to_string(it - padded.begin()) + " of " + to_string(bytes.size()) + " collected bytes"; });
    c.log([&] { return "-- collect " + to_string(bytes.size()) + " bytes, restore into a fresh operator"; });
    copies.push_back(std::move(cp));
  }
  void send(Ctx& c, bool ct, int p, M m) {
    c.step();
    auto want = flat(sendAll(*twin, ct, p, m)), got = flat(sendAll(*orig, ct, p, m));
    c.log([&] { return what(ct, p, m) + " -> " + hx::str(got); });
    c.check(exact(want, got), sig + "/disturbed", [&] { return "after " + what(ct, p, m) + " the collected-from operator emits " + hx::str(got) + ", one never collected from " + hx::str(want); });
    for (size_t i = 0; i < copies.size(); i++) {
      Flat r; string err; try { r = flat(sendAll(*copies[i], ct, p, m)); } catch (std::exception& e) { err = e.what(); }
      c.check(err.empty() && exact(want, r), sig + "/restored", [&] { return "after " + what(ct, p, m) + " the restored operator emits " + (err.empty() ? hx::str(r) : "error " + err) + ", the original " + hx::str(want); });
    }
    c.outcome(hash(got)); c.state(mc::mix(hash(got), copies.size()));
  }
};
static std::function<void(Ctx&)> any(Def d, uint64_t base, vector<uint64_t> inc, vector<double> vals, int depth) {
  return [=](Ctx& c) {
    Trio t(d); Ports P(d); int at = c.choose(depth + 1);
    for (int i = 0; i < depth; i++) {
      if (i == at) { t.checkpoint(c, *t.orig); t.checkpoint(c, *t.copies[0]); }
      int x = c.choose((int)(P.ports.size() * inc.size() * vals.size()));
      int v = x % vals.size(); x /= vals.size(); uint64_t k = inc[x % inc.size()]; int p = x / (int)inc.size();
      P.next[p] = P.started[p] ? P.next[p] + k : base + k - 1; P.started[p] = 1;
      t.send(c, P.ports[p].first, P.ports[p].second, M{P.next[p], vals[v]});
    }
    if (at == depth) t.checkpoint(c, *t.orig);
  };
}
// a checkpoint between receiving a message (on one port, or on every port of a set) and processing it
static std::function<void(Ctx&)> midStep(Def d, int depth) {
  return [=](Ctx& c) {
    Trio t(d); Ports P(d); int k = (int)P.ports.size(), at = c.choose(depth); uint64_t tm = 5;
    auto val = [&](bool ct, int i, int p) { return ct ? double((i + p) % 2) : i * 1.5 - p; };
    for (int i = 0; i < depth; i++) {
      tm += 1 + 2 * (i % 2);
      if (i != at) { for (int p = 0; p < k; p++) t.send(c, P.ports[p].first, P.ports[p].second, M{tm, val(P.ports[p].first, i, p)}); continue; }
      int mask = 1 + c.choose((1 << k) - 1); c.step();
      auto recv = [&](zoo::Op& o, int p) { auto [ct, n] = P.ports[p]; zoo::Msg m(tm, val(ct, i, p)); ct ? o.receiveControl(m, "c" + to_string(n)) : o.receiveData(m, "i" + to_string(n)); };
      for (int p = 0; p < k; p++) if (mask >> p & 1) { recv(*t.twin, p); recv(*t.orig, p); c.log([&] { return string("receive on port ") + to_string(p); }); }
      t.checkpoint(c, *t.orig); t.checkpoint(c, *t.copies[0]);
      for (int p = 0; p < k; p++) if (!(mask >> p & 1)) { recv(*t.twin, p); recv(*t.orig, p); for (auto& o : t.copies) recv(*o, p); }
      for (int ct = d.nctl ? 1 : 0; ct >= 0; ct--) {
        auto run = [&](zoo::Op& o) { return flat(ct ? o.executeControl() : o.executeData()); };
        auto want = run(*t.twin), got = run(*t.orig); c.log([&] { return "process -> " + hx::str(got); });
        c.check(exact(want, got), t.sig + "/disturbed", [&] { return "processing what was received before the checkpoint emits " + hx::str(got) + ", without a checkpoint " + hx::str(want); });
        for (auto& o : t.copies) { auto r = run(*o); c.check(exact(want, r), t.sig + "/restored", [&] { return "processing what was received before the checkpoint: the restored operator emits " + hx::str(r) + ", the original " + hx::str(want); }); }
        c.outcome(hash(got));
      }
    }
  };
}
// long periodic stream, a checkpoint after any message, the rest of the stream through both
static std::function<void(Ctx&)> longRun(Def d, int total) {
  return [=](Ctx& c) {
    Trio t(d); static const vector<vector<uint64_t>> incs = {{1, 1, 1, 1}, {1, 2, 5, 1}, {7, 3, 1, 2}}; static const vector<vector<double>> vals = {{1, -2, 0.5, 4, 4}, {0.1, 0.2, 0.7, -0.3, 1e6}};
    auto& inc = c.pick(incs); auto& va = c.pick(vals); int at = c.choose(total), mode = c.choose(d.nin + d.nctl > 1 ? 2 : 1);
    uint64_t tm = 1000;
    for (int i = 0; i < total; i++) {
      if (i == at) t.checkpoint(c, *t.orig);
      for (int p = 1; p <= d.nin; p++) t.send(c, false, p, M{tm, va[i % 5] + p});
      if (mode == 1 && i % 3 == 0) { if (i == at) t.checkpoint(c, *t.orig); t.send(c, false, d.nin, M{tm + 1, 0.25}); tm++; }
      for (int p = 1; p <= d.nctl; p++) t.send(c, true, p, M{tm, (double)((i + p) % 2)});
      tm += inc[i % 4];
    }
  };
}
// many messages waiting on one port (or a wide window) when the checkpoint is taken, then their partners
static std::function<void(Ctx&)> backlog(Def d, vector<int> sizes) {
  return [=](Ctx& c) {
    Trio t(d); Ports P(d); int k = (int)P.ports.size(), first = c.choose(k), n = c.pick(sizes), at = c.choose(k > 1 ? 3 : 2);
    auto one = [&](int p, int i) { bool ct = P.ports[p].first; t.send(c, ct, P.ports[p].second, M{uint64_t(i), ct ? double((i + p) % 2) : (i % 7) * 0.5}); };
    for (int i = 1; i <= n; i++) { if (at == 0 && i == n / 2) t.checkpoint(c, *t.orig); one(first, i); }
    if (at == 1) t.checkpoint(c, *t.orig);
    for (int i = 1; i <= n; i++) { if (at == 2 && i == 5) t.checkpoint(c, *t.orig); for (int p = 0; p < k; p++) if (p != first) one(p, i); }
    for (int i = n + 1; i <= n + 3; i++) for (int p = 0; p < k; p++) one(p, i);
  };
}
int main(int argc, char** argv) {
  mc::Main m; m.property = "C06";
  m.bounds = "every operator type (several parameters each), composites and pipelines: every history of depth 3..8 (increments {1,3}, 2-3 values, every port order) with a checkpoint before every step, and between receiving and processing (every subset of ports); periodic streams of 60 messages with a checkpoint before every message; two restored generations; demultiplexer and variable over all interleavings of their streams";
  m.assumptions = {"restored in the same process architecture that collected", "the restored operator has the same definition"};
  m.parse(argc, argv);
  vector<Def> all = zoo::unary();
  for (auto& d : zoo::multi()) all.push_back(d);
  for (auto& d : pipelines()) all.push_back(d);
  for (auto& d : composites()) all.push_back(d);
  for (int n : {1, 2}) { all.push_back(zoo::dInput(n)); all.push_back(zoo::dOutput(n)); }
  for (double v : {0.5, -3.0}) all.push_back(zoo::dVariable(v));
  for (auto& d : all) {
    int P = d.nin + d.nctl, depth = P == 1 ? 6 : P == 2 ? 4 : 3; bool multi = P > 1;
    m.add(d.name + " histories", any(d, 5, {1, 3}, {-1, 2.5}, depth));
    m.add(d.name + " unit steps", any(d, 0, {1}, multi ? vector<double>{1, 3} : vector<double>{-1, 0.1, 3}, depth));
    m.add(d.name + " between receiving and processing", midStep(d, 9));
    m.add(d.name + " late origin", any(d, (1ull << 63) - 3, {1, 2}, {2.5}, depth + 2));
    m.add(d.name + " long", longRun(d, 40));
    m.add(d.name + " deep histories", any(d, 5, {1, 3}, {-1, 2.5}, depth + (P == 1 ? 2 : 1)), true);
    m.add(d.name + " deep long", longRun(d, 200), true);
  }
  vector<Def> wide = zoo::multi(); for (auto& d : {zoo::dVariable(0.5), zoo::dDemux(1), zoo::dDemux(2), zoo::dMA(300), zoo::dStd(300), zoo::dPeak(300), zoo::dRSI(300), zoo::dFIR(vector<double>(300, 0.25)), zoo::dAR(vector<double>(300, 0.0078125))}) wide.push_back(d);
  for (auto& d : wide) m.add(d.name + " backlog", backlog(d, {255, 310}));
  for (auto& d : {zoo::dJoin(2), zoo::dVariable(0.5), zoo::dDemux(1)}) m.add(d.name + " huge backlog", backlog(d, {70000}), true);
  m.add("Minus huge backlog", [](Ctx& c) { auto d = zoo::dPlain("Minus"); Trio t(d); for (int i = 1; i <= 70000; i++) t.send(c, false, 1, M{(uint64_t)i, 0.5}); t.checkpoint(c, *t.orig); for (int i = 1; i <= 70003; i++) t.send(c, false, 2, M{(uint64_t)i, 0.25}); });
  for (double v : {0.5, -3.0}) m.add("Variable subsets " + zoo::num(v), [v](Ctx& c) {
    auto d = zoo::dVariable(v); Trio t(d); vector<Seq> s = {{false, 1, {}}, {true, 1, {}}}; int n = 0;
    for (auto& q : s) { int mask = c.choose(16); for (int k = 0; k < 4; k++) if (mask >> k & 1) { q.msgs.push_back(M{7ull + k, k + 0.5}); n++; } }
    int at = c.choose(n + 1), i = 0;
    interleave(c, s, [&](bool ct, int p, M x) { if (i++ == at) t.checkpoint(c, *t.orig); t.send(c, ct, p, x); });
  });
  for (int n : {1, 2, 3}) m.add("Demultiplexer" + to_string(n), [n](Ctx& c) {
    auto d = zoo::dDemux(n); Trio t(d); auto s = demuxSeqs(c, n, n == 1 ? 3 : 2, 9); int total = 0; for (auto& q : s) total += (int)q.msgs.size();
    int at = c.choose(total + 1), i = 0;
    interleave(c, s, [&](bool ct, int p, M x) { if (i++ == at) t.checkpoint(c, *t.orig); t.send(c, ct, p, x); });
  }, n == 3);
  return m.run();
}

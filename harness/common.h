// Drivers shared by the operator-level harnesses.
#pragma once
#include "zoo.h"

namespace hx {
using mc::Ctx;
using ref::M; using ref::Out;
using zoo::Def; using zoo::OpPtr; using ref::RefPtr;
using std::string; using std::vector; using std::to_string;

// time origins: every behaviour is explored relative to each of these
inline const vector<uint64_t>& bases() {
  static const vector<uint64_t> b = {0, 1, (1ull << 31) - 3, (1ull << 32) - 3, (1ull << 53) - 3, (1ull << 63) - 3};
  return b;
}
inline string baseName(uint64_t b) { return "t0=" + to_string(b); }

inline string what(bool control, int port, M m) { return string(control ? "control c" : "data i") + to_string(port) + " " + ref::str(m); }

inline bool exact(const M& a, const M& b) { return a.t == b.t && (memcmp(&a.v, &b.v, 8) == 0 || a.v == b.v || (std::isnan(a.v) && std::isnan(b.v))); }
inline bool exact(const Out& a, const Out& b) {
  auto sub = [](const Out& x, const Out& y) {
    for (auto& [p, v] : x) { if (v.empty()) continue; auto it = y.find(p); if (it == y.end() || it->second.size() != v.size()) return false;
      for (size_t i = 0; i < v.size(); i++) if (!exact(v[i], it->second[i])) return false; }
    return true; };
  return sub(a, b) && sub(b, a);
}

// operators that hand values on: compared bit for bit, the others up to rounding
inline bool isExact(const string& t) {
  static const std::set<string> s = {"Input", "Output", "Join", "Demultiplexer", "Variable", "Identity", "Constant", "GreaterThan", "LessThan", "EqualTo",
                                     "GreaterThanStream", "LessThanStream", "And", "Or", "PeakDetector", "Count", "ConstantResampler", "TimeShift"};
  return s.count(t) > 0;
}
// the real operator and its reference, fed in lock step
struct Lock {
  string id = "op"; OpPtr real; RefPtr model; string sig; bool ex;
  Lock(const Def& d, string sig = "") : real(d.real("op")), model(d.ref()), sig(sig.empty() ? d.type : sig), ex(isExact(d.type)) {}
  Out send(Ctx& c, bool control, int port, M m) {
    c.step();
    Out want = model->on(control, port, m), got;
    string err;
    try { got = zoo::feed(*real, control, port, m); } catch (std::exception& e) { err = string("the operator threw: ") + e.what(); }
    c.log([&] { return what(control, port, m) + " -> " + (err.empty() ? ref::str(got) : err); });
    if (!err.empty()) c.fail(sig + "/throws", err + " on " + what(control, port, m) + "; expected " + ref::str(want));
    c.check(ex ? exact(want, got) : ref::same(want, got), sig + "/output", [&] { return "after " + what(control, port, m) + " the operator emitted " + ref::str(got) + ", expected " + ref::str(want); });
    c.state(model->hash()); c.outcome(ref::hash(got));
    return got;
  }
};
// runs f with rounding judged relative to numbers of size s
inline std::function<void(Ctx&)> scaled(double s, std::function<void(Ctx&)> f) {
  return [=](Ctx& c) { struct Set { double old; Set(double s) : old(ref::unit()) { ref::unit() = s; } ~Set() { ref::unit() = old; } } set(s); f(c); };
}
inline vector<double> times(double s, vector<double> v) { for (auto& x : v) x *= s; return v; }
inline string vname(const vector<double>& v) { string s; for (double d : v) s += (s.empty() ? "" : "|") + ref::str(d); return "{" + s + "}"; }

// every sequence of `depth` messages on a one-input operator: increments from inc, values from vals
inline std::function<void(Ctx&)> stream(Def d, uint64_t base, vector<uint64_t> inc, vector<double> vals, int depth) {
  return [=](Ctx& c) {
    Lock l(d); uint64_t t = base;
    for (int i = 0; i < depth; i++) {
      if (i > 0 || inc.size() == 1) t += i == 0 ? 0 : c.pick(inc);
      l.send(c, false, 1, M{t, c.pick(vals)});
    }
  };
}
// every periodic stream with period `period`, run for `total` messages
inline std::function<void(Ctx&)> periodic(Def d, uint64_t base, vector<uint64_t> inc, vector<double> vals, int period, int total) {
  return [=](Ctx& c) {
    Lock l(d); uint64_t t = base; vector<uint64_t> di; vector<double> dv;
    for (int i = 0; i < period; i++) { di.push_back(c.pick(inc)); dv.push_back(c.pick(vals)); }
    for (int i = 0; i < total; i++) { l.send(c, false, 1, M{t, dv[i % period]}); t += di[i % period]; }
  };
}
// a flat stream which deviates at up to two places: EVERY pair of places and heights (long windows, where full enumeration is out of reach)
inline std::function<void(Ctx&)> bumps(Def d, double flat, vector<double> heights, int length, int places = 2) {
  return [=](Ctx& c) {
    Lock l(d); int i = c.choose(length), j = places > 1 ? c.choose(i + 1) : i; double a = c.pick(heights), b = places > 1 ? c.pick(heights) : a;
    for (int k = 0; k < length; k++) l.send(c, false, 1, M{5ull + 2 * k, k == i ? a : k == j ? b : flat});
  };
}
}  // namespace hx

namespace hx {
// how the streams of a multi-input operator are produced: each port's times strictly increase
struct Ports {
  vector<std::pair<bool, int>> ports;  // (control?, number)
  vector<uint64_t> next;               // last time used, valid when started
  vector<char> started;
  explicit Ports(const Def& d) {
    for (int i = 1; i <= d.nin; i++) ports.push_back({false, i});
    for (int i = 1; i <= d.nctl; i++) ports.push_back({true, i});
    next.assign(ports.size(), 0); started.assign(ports.size(), 0);
  }
};
// every history of `depth` messages: any port next, any increment of that port's clock, any value
inline std::function<void(Ctx&)> anyOrder(Def d, uint64_t base, vector<uint64_t> inc, vector<double> vals, int depth, int warm = 0) {
  return [=](Ctx& c) {
    Lock l(d); Ports P(d);
    if (warm) for (int i = 0; i < warm; i++) { P.started[0] = 1; P.next[0] = base + 2 * i; l.send(c, false, 1, M{P.next[0], (double)i}); }
    for (int i = 0; i < depth; i++) {
      int x = c.choose((int)(P.ports.size() * inc.size() * vals.size()));
      int v = x % vals.size(); x /= vals.size(); uint64_t k = inc[x % inc.size()]; int p = x / (int)inc.size();
      P.next[p] = P.started[p] ? P.next[p] + k : base + k - 1; P.started[p] = 1;
      // a single value letter means: make values identify the message
      double val = vals.size() == 1 ? (P.ports[p].second * 1000 + (double)(P.next[p] - base) + vals[0]) : vals[v];
      l.send(c, P.ports[p].first, P.ports[p].second, M{P.next[p], val});
    }
  };
}
// EVERY coefficient vector of 1..n letters of `co` (one execution each), on a stream that tells every pair of coefficients apart
template <class F> std::function<void(Ctx&)> filters(F make, vector<double> co, int min, int n) {
  return [=](Ctx& c) {
    vector<double> v; int k = min + c.choose(n - min + 1); for (int i = 0; i < k; i++) v.push_back(c.pick(co));
    static const double x[] = {1, 0, -3, 7, 0.5, 20, -64, 11, 0, 5, 3, -2}; Def d = make(v); c.log([&] { return d.type + " " + vname(v); }); Lock l(d);
    if (d.nin == 1) for (int i = 0; i < k + 4; i++) l.send(c, false, 1, M{10ull + 2 * i, x[i % 12]});
    else for (int r = 0; r < 3; r++) for (int p = 0; p < k; p++) l.send(c, false, 1 + (r % 2 ? k - 1 - p : p), M{10ull + r, x[(p + 3 * r) % 12]});
  };
}
struct Seq { bool control; int port; vector<M> msgs; };
// delivers the given per-port sequences in any interleaving
template <class F> void interleave(Ctx& c, const vector<Seq>& seqs, F send) {
  vector<size_t> pos(seqs.size(), 0);
  for (;;) {
    vector<int> live; for (size_t i = 0; i < seqs.size(); i++) if (pos[i] < seqs[i].msgs.size()) live.push_back((int)i);
    if (live.empty()) break;
    int i = live.size() == 1 ? live[0] : live[c.choose((int)live.size())];
    send(seqs[i].control, seqs[i].port, seqs[i].msgs[pos[i]++]);
  }
}
// a valid demultiplexer history: K time slots, each a data message (with every combination of control values), control messages only, or nothing
inline vector<Seq> demuxSeqs(Ctx& c, int n, int K, uint64_t base) {
  vector<Seq> s; s.push_back({false, 1, {}}); for (int p = 1; p <= n; p++) s.push_back({true, p, {}});
  for (int k = 0; k < K; k++) {
    uint64_t t = base + 2 * k; int x = c.choose((1 << n) * 2 - 1);
    if (x < (1 << n)) { s[0].msgs.push_back(M{t, 10.5 + k}); for (int p = 0; p < n; p++) s[p + 1].msgs.push_back(M{t, (double)(x >> p & 1)}); }
    else { int mask = x - (1 << n) + 1; for (int p = 0; p < n; p++) if (mask >> p & 1) s[p + 1].msgs.push_back(M{t, 1}); }
  }
  return s;
}
}  // namespace hx

namespace hx {
// Two instances fed alternately: EVERY history over (instance, port, value); each instance must stay the one it is. Values and times of the two coincide.
inline std::function<void(Ctx&)> twin(Def a, Def b, vector<double> vals, int depth, uint64_t inc = 2) {
  return [=](Ctx& c) {
    const Def* d[2] = {&a, &b}; Lock l[2] = {Lock(a, "side by side/" + a.type), Lock(b, "side by side/" + b.type)}; Ports P[2] = {Ports(a), Ports(b)}; vector<vector<int>> n(2); n[0].resize(P[0].ports.size()); n[1].resize(P[1].ports.size()); int total = (int)(n[0].size() + n[1].size());
    c.log([&] { return "two operators: " + d[0]->name + " and " + d[1]->name; });
    for (int i = 0; i < depth; i++) {
      int x = c.choose(total * (int)vals.size()), v = x % (int)vals.size(), p = x / (int)vals.size(), w = p >= (int)n[0].size(); if (w) p -= (int)n[0].size();
      c.log([&] { return w ? "to the second:" : "to the first:"; });
      l[w].send(c, P[w].ports[p].first, P[w].ports[p].second, M{10 + inc * n[w][p]++, vals[v]});
    }
  };
}
// all pairs of the given operators which follow each other in the list, both ways round, and each with another one of its kind
inline void sideBySide(mc::Main& m, vector<Def> ds, vector<double> vals, int depth, int deep = 0, uint64_t inc = 2) {
  for (size_t i = 0; i < ds.size(); i++) for (size_t j : {i, (i + 1) % ds.size()}) { string n = "side by side " + ds[i].name + " " + ds[j].name; m.add(n, twin(ds[i], ds[j], vals, depth, inc)); if (deep) m.add(n + " deep", twin(ds[i], ds[j], vals, deep, inc), true); }
}
}  // namespace hx

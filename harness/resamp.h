#pragma once
#include "common.h"
namespace hx {
// gaps relative to the step: much smaller, around, multiples, much larger
inline vector<uint64_t> gapsFor(uint64_t D) {
  std::set<uint64_t> g; for (uint64_t x : {D, D + 1, 2 * D, 2 * D + 1, 5 * D + 1}) g.insert(x); if (D > 1) { g.insert(D - 1); g.insert(1); } if (D > 4) g.insert(D / 2);
  return vector<uint64_t>(g.begin(), g.end());
}
inline bool sameTimes(const Out& a, const Out& b) {
  auto g = [](const Out& o) { vector<uint64_t> t; auto it = o.find(1); if (it != o.end()) for (auto& m : it->second) t.push_back(m.t); return t; };
  return g(a) == g(b);
}
enum Judge { TIMES, VALUES };
struct Resampler {
  Def d; Judge j; OpPtr real; RefPtr model;
  Resampler(Def d, Judge j) : d(d), j(j), real(d.real("op")), model(d.ref()) {}
  void send(Ctx& c, M x) {
    c.step(); Out want = model->on(false, 1, x), got = zoo::feed(*real, false, 1, x);
    c.log([&] { return what(false, 1, x) + " -> " + ref::str(got); }); c.state(model->hash()); c.outcome(ref::hash(got));
    if (j == TIMES) c.check(sameTimes(want, got), d.type + "/grid", [&] { return "after " + what(false, 1, x) + " the operator emitted " + ref::str(got) + ", expected the grid times of " + ref::str(want); });
    else {  // the value at every grid time both agree on
      size_t k = 0; for (auto& a : got[1]) { while (k < want[1].size() && want[1][k].t < a.t) k++; if (k == want[1].size() || want[1][k].t != a.t) continue; auto& b = want[1][k]; c.check(std::fabs(a.v - b.v) <= 1e-7 * std::max({ref::unit(), std::fabs(a.v), std::fabs(b.v)}), d.type + "/value", [&] { return "after " + what(false, 1, x) + " the value at time " + to_string(a.t) + " is " + ref::str(a.v) + ", expected " + ref::str(b.v); }); }
      c.check(got[1].size() == want[1].size(), d.type + "/missing", [&] { return "after " + what(false, 1, x) + " the operator emitted " + ref::str(got) + ", expected " + ref::str(want); });
    }
  }
};
inline std::function<void(Ctx&)> resample(Def d, Judge j, uint64_t base, vector<uint64_t> gaps, vector<double> vals, int depth, int period = 0) {
  return [=](Ctx& c) {
    Resampler r(d, j); uint64_t t = base; vector<uint64_t> pg; vector<double> pv;
    for (int i = 0; i < period; i++) { pg.push_back(c.pick(gaps)); pv.push_back(c.pick(vals)); }
    for (int i = 0; i < depth; i++) {
      if (i) t += period ? pg[i % period] : c.pick(gaps);
      double v = period ? pv[i % period] : vals.size() == 1 ? (i * 5 % 7) - 2.5 : c.pick(vals); r.send(c, M{t, v});
    }
  };
}
// two resamplers fed alternately
inline std::function<void(Ctx&)> resampleTwin(Def a, Def b, Judge j, vector<uint64_t> gaps, int depth) {
  return [=](Ctx& c) {
    Resampler r[2] = {Resampler(a, j), Resampler(b, j)}; uint64_t t[2] = {7, 7}; c.log([&] { return "two operators: " + a.name + " and " + b.name; });
    for (int i = 0; i < depth; i++) { int w = c.choose(2); c.log([&] { return w ? "to the second:" : "to the first:"; }); r[w].send(c, M{t[w], (w ? 1 : -1) * ((i * 5 % 7) - 2.5)}); t[w] += c.pick(gaps); }
  };
}
inline void resampConfigs(mc::Main& m, Judge j) {
  for (uint64_t D : {1ull, 2ull, 3ull, 5ull, 10ull, 1000ull, 1ull << 33}) for (auto d : {zoo::dCos(D), zoo::dHer(D)}) {
    auto gaps = gapsFor(D); vector<uint64_t> few = {D > 1 ? D - 1 : 1, D + 1, 2 * D};
    for (auto b : bases()) {
      m.add(d.name + " " + baseName(b), resample(d, j, b, gaps, {0}, b > 1 ? 6 : 7), b > 1 && D != 2 && D != 10);
      if (j == VALUES) m.add(d.name + " values " + baseName(b), resample(d, j, b, few, {-1, 0, 4}, 5), b > 1 && D != 3);
    }
    m.add(d.name + " values", resample(d, j, 7, few, {-1, 4}, 6));
    if (j == VALUES) for (double s : {1e-13, 1e12}) m.add(d.name + " values times " + ref::str(s), scaled(s, resample(d, j, 7, few, times(s, {-1, 0, 4}), 5)), D != 2 && D != 10);
    m.add(d.name + " deep", resample(d, j, 0, gaps, {0}, 9), true);
    m.add(d.name + " deep values", resample(d, j, 0, few, {-1, 0, 4}, 7), true);
    m.add(d.name + " tiny gaps", resample(d, j, 3, {std::max<uint64_t>(1, D / 5), std::max<uint64_t>(1, D / 3)}, {0}, 13));
    m.add(d.name + " huge gaps", resample(d, j, 3, {1, 130 * D, 257 * D + 1, 1000 * D}, {0}, 5));
    m.add(d.name + " 70000 steps in a gap", resample(d, j, 3, {D, 70000 * D + D / 2 + 1}, {0}, 5), D != 1 && D != 1000);
    for (int p : {1, 2, 3}) m.add(d.name + " period " + to_string(p), resample(d, j, 1, gaps, {1.5, -2}, 300, p), p > 2);
  }
  for (auto [a, b] : vector<std::pair<Def, Def>>{{zoo::dCos(2), zoo::dCos(2)}, {zoo::dCos(2), zoo::dCos(3)}, {zoo::dHer(2), zoo::dHer(2)}, {zoo::dHer(3), zoo::dHer(2)}, {zoo::dCos(3), zoo::dHer(3)}}) m.add("side by side " + a.name + " " + b.name, resampleTwin(a, b, j, {1, 2, 5}, 7));
}
}  // namespace hx

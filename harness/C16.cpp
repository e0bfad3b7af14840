#include "common.h"
using namespace hx;
int main(int argc, char** argv) {
  mc::Main m; m.property = "C16";
  m.bounds = "2 to 5 points with unequal spacing, negative and repeated ordinates, in EVERY order of listing; both modes; every pair of query values from all abscissas, all midpoints, floating neighbours of the abscissas, and points outside on both sides; lines of 2..5 collinear points; 6 to 257 points in four orders of listing, queried at EVERY point and midpoint and outside; points 1e-9 apart; two instances with equal and different parameters fed alternately";
  m.assumptions = {"abscissas are distinct"};
  m.parse(argc, argv);
  using P = vector<std::pair<double, double>>;
  vector<P> sets = {{{0, 0}, {1, 2}}, {{-2, 5}, {10, -1}}, {{0, 0}, {1, 2}, {3, 1}}, {{-5, 1}, {-1, 1}, {2, 1}}, {{0, 1}, {1, 3}, {4, 9}}, {{0, 0}, {10, 5}, {11, 5}, {40, -20}},
                    {{-1, -1}, {0, 0}, {2, 2}, {7, 7}}, {{1, 1}, {2, 4}, {3, 9}, {5, 25}, {9, 81}}, {{-100, 3}, {0.001, 2}, {0.002, 7}, {5, 0}, {1e6, 1}}, {{0, 0}, {10, 1}, {20, 2}}, {{0, 7}, {0.5, 7}, {100, -3}}, {{0, 1e-13}, {1, 3e-13}, {3, 0}}, {{1e-13, 4}, {2e-13, 8}, {9e-13, 0}}, {{-4e12, 1e12}, {1e12, 3e12}, {2e12, -1e12}}};
  for (size_t s = 0; s < sets.size(); s++) for (bool h : {false, true}) for (int k : {1, 2, 3}) {
    auto pts = sets[s]; double unit = 0; for (auto& p : pts) unit = std::max(unit, std::fabs(p.second));
    m.add("points " + to_string(s) + (h ? " hermite" : " linear") + " queries " + to_string(k), scaled(std::min(1.0, unit), [pts, h, k](Ctx& c) {
      P perm, rest = pts;
      while (!rest.empty()) { int i = rest.size() == 1 ? 0 : c.choose((int)rest.size()); perm.push_back(rest[i]); rest.erase(rest.begin() + i); }
      vector<double> q;
      for (size_t i = 0; i < pts.size(); i++) {
        q.push_back(pts[i].first);
        if (i) { double a = pts[i - 1].first, b = pts[i].first; q.push_back((a + b) / 2); if (k == 1) for (double f : {0.1, 0.25, 0.7, 0.999}) q.push_back(a + (b - a) * f); }
        if (k == 1) q.push_back(std::nextafter(pts[i].first, -INFINITY));
        if (k == 1) q.push_back(std::nextafter(pts[i].first, INFINITY));
      }
      { q.push_back(pts[0].first - 1); q.push_back(pts[0].first - 100); q.push_back(pts.back().first + 1); q.push_back(pts.back().first + 1000); }
      Def d = zoo::dFunction(perm, h); Lock l(d, h ? "Function-hermite" : "Function-linear"); uint64_t t = 5;
      for (int i = 0; i < k; i++) {
        double x = c.pick(q); Out got = l.send(c, false, 1, M{t += 3, x});
        for (auto& p : pts) if (p.first == x) c.check(ref::same(got[1].at(0).v, p.second), "Function/knot", [&] { return "at the abscissa " + ref::str(x) + " the value is " + ref::str(got[1][0].v) + ", the point says " + ref::str(p.second); });
      }
    }), k == 3 && pts.size() > 3);
    // continuous first derivative: one-sided difference quotients agree at every inner point
    if (h && k == 1 && pts.size() > 2) m.add("smooth " + to_string(s), [pts](Ctx& c) {
      auto op = zoo::dFunction(pts, true).real("op"); size_t i = 1 + c.choose((int)pts.size() - 2);
      double w = std::min(pts[i].first - pts[i - 1].first, pts[i + 1].first - pts[i].first), e = w * 1e-4; uint64_t t = 0;
      auto f = [&](double x) { c.step(); return zoo::feed(*op, false, 1, M{++t, x})[1].at(0).v; };
      double y = f(pts[i].first), dl = (y - f(pts[i].first - e)) / e, dr = (f(pts[i].first + e) - y) / e, scale = 0;
      for (size_t j = 1; j < pts.size(); j++) scale = std::max(scale, std::fabs((pts[j].second - pts[j - 1].second) / (pts[j].first - pts[j - 1].first)));
      c.outcome(ref::hv(0, dl)); c.state(i);
      c.check(std::fabs(dl - dr) <= 0.01 * scale + 1e-6, "Function-hermite/smooth", [&] { return "slopes on both sides of x=" + ref::str(pts[i].first) + ": " + ref::str(dl) + " and " + ref::str(dr); });
    });
  }
  // many points, listed in several orders; points which single precision cannot tell apart
  for (int n : {6, 7, 8, 9, 16, 17, 33, 63, 64, 65, 66, 100, 257}) for (bool h : {false, true}) m.add(to_string(n) + (h ? " points hermite" : " points linear"), [n, h](Ctx& c) {
    P pts, listed; for (int i = 0; i < n; i++) pts.push_back({i * 2.0 + (i % 3) * 0.25 - 7, (i * 5) % 7 - 3.0}); int order = c.choose(4), at = c.choose(2 * n + 3) - 2;
    for (int i = 0; i < n; i++) listed.push_back(pts[order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i + n / 2) % n : i % 2 ? i / 2 : n - 1 - i / 2]);
    double x = at < 0 ? pts[0].first + at * 3 : at >= 2 * n ? pts.back().first + 5 : at % 2 ? (at / 2 + 1 < n ? (pts[at / 2].first + pts[at / 2 + 1].first) / 2 : pts.back().first + 1) : pts[at / 2].first;
    Def d = zoo::dFunction(listed, h); Lock l(d, h ? "Function-hermite" : "Function-linear"); l.send(c, false, 1, M{3, x}); l.send(c, false, 1, M{4, pts[n / 2].first}); });
  for (bool h : {false, true}) for (double e : {1e-9, 1e-6}) m.add(string(h ? "close points hermite " : "close points linear ") + ref::str(e), [h, e](Ctx& c) {
    P pts = {{1, 2}, {1 + e, 3}, {1 + 2 * e, -1}, {2, 5}}, perm, rest = pts; while (!rest.empty()) { int i = c.choose((int)rest.size()); perm.push_back(rest[i]); rest.erase(rest.begin() + i); }
    Def d = zoo::dFunction(perm, h); Lock l(d, h ? "Function-hermite" : "Function-linear"); uint64_t t = 0; for (auto& p : pts) l.send(c, false, 1, M{++t, p.first}); l.send(c, false, 1, M{++t, 1.75}); });
  // two instances at once
  sideBySide(m, {zoo::dFunction({{0, 0}, {1, 2}, {3, 1}}, false), zoo::dFunction({{0, 0}, {1, 2}, {3, 1}}, true), zoo::dFunction({{0, 1}, {2, -2}, {3, 1}}, false), zoo::dFunction({{0, 1}, {2, -2}, {3, 1}}, true)}, {-1, 0.5, 1, 2.5, 4}, 3, 4);
  return m.run();
}

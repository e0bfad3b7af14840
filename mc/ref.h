// Reference models ("what the documentation says"), written to be boring: every model keeps the full
// history it needs and recomputes from the definition.  They share no code with rtbot.
#pragma once
#include "mc.h"

namespace ref {

struct M { uint64_t t = 0; double v = 0; };
// the size of the numbers under test: rounding is judged relative to it (and to the numbers compared)
inline double& unit() { static double u = 1; return u; }
inline bool same(double a, double b) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= 1e-9 * std::max({unit(), std::fabs(a), std::fabs(b)});
}
inline bool same(const M& a, const M& b) { return a.t == b.t && same(a.v, b.v); }
inline std::string str(double v) { char b[40]; snprintf(b, 40, "%.12g", v); return b; }
inline std::string str(const M& m) { return "(" + std::to_string(m.t) + "," + str(m.v) + ")"; }
inline std::string str(const std::vector<M>& v) { std::string s = "["; for (auto& m : v) s += str(m); return s + "]"; }

using Out = std::map<int, std::vector<M>>;  // output port number -> messages, in order
inline std::string str(const Out& o) { std::string s = "{"; for (auto& [p, v] : o) s += "o" + std::to_string(p) + ":" + str(v) + " "; return s + "}"; }
inline bool same(const std::vector<M>& a, const std::vector<M>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false;
  return true;
}
inline bool same(const Out& a, const Out& b) {
  auto sub = [](const Out& x, const Out& y) { for (auto& [p, v] : x) { if (v.empty()) continue; auto it = y.find(p); if (it == y.end() || !same(v, it->second)) return false; } return true; };
  return sub(a, b) && sub(b, a);
}
inline void append(Out& a, const Out& b) { for (auto& [p, v] : b) a[p].insert(a[p].end(), v.begin(), v.end()); }
// stable hash: values rounded so that harmless rounding differences do not create new states
inline uint64_t hv(uint64_t h, double v) { if (std::isnan(v)) return mc::mix(h, 99); if (std::fabs(v) < 1e9) v = std::round(v * 1e6) / 1e6; return mc::mixd(h, v); }
inline uint64_t hm(uint64_t h, const M& m) { return hv(mc::mix(h, m.t), m.v); }
inline uint64_t hash(const std::vector<M>& v, uint64_t h = 5) { for (auto& m : v) h = hm(h, m); return mc::mix(h, v.size()); }
inline uint64_t hash(const Out& o) { uint64_t h = 7; for (auto& [p, v] : o) if (!v.empty()) h = mc::mix(h, hash(v, p)); return h; }

struct RefOp {
  virtual ~RefOp() = default;
  virtual Out on(bool control, int port, M m) = 0;
  virtual uint64_t hash() const { return 0; }  // of the state that determines the future
};
using RefPtr = std::unique_ptr<RefOp>;

struct RInput : RefOp {
  std::map<int, uint64_t> last;
  Out on(bool, int p, M m) override {
    auto it = last.find(p);
    if (it != last.end() && !(m.t > it->second)) return {};
    last[p] = m.t; return {{p, {m}}};
  }
  uint64_t hash() const override { uint64_t h = 1; for (auto& [p, t] : last) h = mc::mix(mc::mix(h, p), t); return h; }
};
struct ROutput : RefOp { Out on(bool, int p, M m) override { return {{p, {m}}}; } };

struct RMap : RefOp {  // one message in, at most one out
  std::function<std::optional<M>(M)> f;
  explicit RMap(std::function<std::optional<M>(M)> f) : f(f) {}
  Out on(bool, int, M m) override { auto r = f(m); if (!r) return {}; return {{1, {*r}}}; }
};

// n synchronized ports; f maps the values (port order) at a common time to outputs
struct RJoin : RefOp {
  int n; std::vector<std::map<uint64_t, double>> seen;
  std::function<Out(uint64_t, const std::vector<double>&)> f;
  RJoin(int n, std::function<Out(uint64_t, const std::vector<double>&)> f) : n(n), seen(n), f(f) {}
  Out on(bool, int p, M m) override {
    seen[p - 1][m.t] = m.v;
    std::vector<double> v;
    for (auto& s : seen) { auto it = s.find(m.t); if (it == s.end()) return {}; v.push_back(it->second); }
    return f(m.t, v);
  }
  uint64_t hash() const override {
    // only messages newer than the last common time, and not older than every other port's newest, matter
    uint64_t h = 2, lastCommon = 0; bool any = false;
    for (auto& [t, v] : seen[0]) { bool all = true; for (auto& s : seen) all = all && s.count(t); if (all) { lastCommon = t; any = true; } }
    for (auto& s : seen) { h = mc::mix(h, 1); if (!s.empty()) h = mc::mix(h, s.rbegin()->first); for (auto& [t, v] : s) if (!any || t > lastCommon) h = hv(mc::mix(h, t), v); }
    return h;
  }
};
inline RefPtr rBin(std::function<std::optional<double>(double, double)> g) {
  return std::make_unique<RJoin>(2, [g](uint64_t t, const std::vector<double>& v) -> Out { auto r = g(v[0], v[1]); if (!r) return {}; return {{1, {M{t, *r}}}}; });
}
inline RefPtr rLinear(std::vector<double> c) {
  return std::make_unique<RJoin>((int)c.size(), [c](uint64_t t, const std::vector<double>& v) -> Out { double s = 0; for (size_t i = 0; i < c.size(); i++) s += c[i] * v[i]; return {{1, {M{t, s}}}}; });
}
inline RefPtr rTuple(int n) {
  return std::make_unique<RJoin>(n, [](uint64_t t, const std::vector<double>& v) -> Out { Out o; for (size_t i = 0; i < v.size(); i++) o[(int)i + 1] = {M{t, v[i]}}; return o; });
}

struct RDemux : RefOp {
  int n; std::map<uint64_t, double> data; std::vector<std::map<uint64_t, double>> ctl;
  explicit RDemux(int n) : n(n), ctl(n) {}
  Out on(bool control, int p, M m) override {
    if (control) ctl[p - 1][m.t] = m.v; else data[m.t] = m.v;
    if (!data.count(m.t)) return {};
    for (auto& c : ctl) if (!c.count(m.t)) return {};
    Out o; for (int i = 0; i < n; i++) if (ctl[i][m.t] == 1) o[i + 1] = {M{m.t, data[m.t]}};
    return o;
  }
  uint64_t hash() const override {
    uint64_t h = 3; auto done = [&](uint64_t t) { if (!data.count(t)) return false; for (auto& c : ctl) if (!c.count(t)) return false; return true; };
    for (auto& [t, v] : data) if (!done(t)) h = hv(mc::mix(h, t), v);
    for (auto& c : ctl) { h = mc::mix(h, 4); for (auto& [t, v] : c) if (!done(t)) h = hv(mc::mix(h, t), v); }
    return h;
  }
};

struct RVariable : RefOp {
  double def; std::vector<M> data; std::deque<uint64_t> pending;
  explicit RVariable(double d) : def(d) {}
  Out on(bool control, int, M m) override {
    if (control) pending.push_back(m.t); else data.push_back(m);
    std::vector<M> out;
    while (!pending.empty() && !data.empty() && data.back().t >= pending.front()) {
      uint64_t q = pending.front(); double v = def;
      for (auto& d : data) if (d.t <= q) v = d.v;
      out.push_back(M{q, v}); pending.pop_front();
    }
    if (out.empty()) return {};
    return {{1, out}};
  }
  uint64_t hash() const override { uint64_t h = ref::hash(data, 4); for (auto q : pending) h = mc::mix(h, q); return h; }
};

// function of the last n values; nothing before n messages
struct RWindow : RefOp {
  size_t n; std::vector<M> all; std::function<std::optional<M>(const std::vector<M>&)> f;
  RWindow(size_t n, std::function<std::optional<M>(const std::vector<M>&)> f) : n(n), f(f) {}
  Out on(bool, int, M m) override {
    all.push_back(m); if (all.size() > n) all.erase(all.begin());
    if (all.size() < n) return {};
    auto r = f(all); if (!r) return {};
    return {{1, {*r}}};
  }
  uint64_t hash() const override { return ref::hash(all, 6); }
};
inline RefPtr rMA(size_t n) { return std::make_unique<RWindow>(n, [](const std::vector<M>& w) { long double s = 0; for (auto& m : w) s += m.v; return M{w.back().t, (double)(s / w.size())}; }); }
inline RefPtr rStd(size_t n) {
  return std::make_unique<RWindow>(n, [](const std::vector<M>& w) { long double s = 0, q = 0; for (auto& m : w) s += m.v; s /= w.size(); for (auto& m : w) q += (m.v - s) * (m.v - s); return M{w.back().t, (double)sqrtl(q / (w.size() - 1))}; });
}
inline RefPtr rFIR(std::vector<double> c) {
  return std::make_unique<RWindow>(c.size(), [c](const std::vector<M>& w) { long double s = 0; for (size_t i = 0; i < c.size(); i++) s += c[i] * w[w.size() - 1 - i].v; return M{w.back().t, (double)s}; });
}
inline RefPtr rDiff(bool newest = true) { return std::make_unique<RWindow>(2, [newest](const std::vector<M>& w) { return M{newest ? w[1].t : w[0].t, w[1].v - w[0].v}; }); }
inline RefPtr rPeak(size_t n) {
  return std::make_unique<RWindow>(n, [](const std::vector<M>& w) -> std::optional<M> { auto c = w[w.size() / 2]; for (auto& m : w) if (m.v > c.v) return std::nullopt; return c; });
}
struct RCount : RefOp { uint64_t n = 0; Out on(bool, int, M m) override { n++; return {{1, {M{m.t, (double)n}}}}; } uint64_t hash() const override { return n + 1; } };
struct RCumSum : RefOp { double s = 0; Out on(bool, int, M m) override { s += m.v; return {{1, {M{m.t, s}}}}; } uint64_t hash() const override { return hv(8, s); } };
struct RAR : RefOp {
  std::vector<double> c; std::deque<double> y;  // y[0] = most recent output
  explicit RAR(std::vector<double> c) : c(c) {}
  Out on(bool, int, M m) override {
    double s = m.v; for (size_t i = 0; i < c.size(); i++) s += c[i] * (i < y.size() ? y[i] : 0.0);
    y.push_front(s); if (y.size() > c.size()) y.pop_back();
    return {{1, {M{m.t, s}}}};
  }
  uint64_t hash() const override { uint64_t h = 9; for (double d : y) h = hv(h, d); return h; }
};
struct RRSI : RefOp {
  size_t n; std::vector<double> x; long double ag = 0, al = 0;
  explicit RRSI(size_t n) : n(n) {}
  Out on(bool, int, M m) override {
    x.push_back(m.v);
    if (x.size() < n + 1) return {};
    if (x.size() == n + 1) { for (size_t i = 1; i <= n; i++) { double d = x[i] - x[i - 1]; if (d > 0) ag += d; else al -= d; } ag /= n; al /= n; }
    else { double d = x[x.size() - 1] - x[x.size() - 2]; ag = (ag * (n - 1) + (d > 0 ? d : 0)) / n; al = (al * (n - 1) + (d < 0 ? -d : 0)) / n; }
    double r = al > 0 ? (double)(100.0L - 100.0L / (1 + ag / al)) : 100.0;
    return {{1, {M{m.t, r}}}};
  }
  uint64_t hash() const override { return mc::mix(hv(hv(hv(10, (double)ag), (double)al), x.empty() ? 0 : x.back()), std::min(x.size(), n + 1)); }
};
struct RConstRes : RefOp {
  uint64_t d; std::vector<M> all; uint64_t next = 0;
  explicit RConstRes(uint64_t d) : d(d) {}
  Out on(bool, int, M m) override {
    all.push_back(m);
    if (all.size() == 1) { next = m.t + d; return {}; }
    std::vector<M> out;
    for (; next <= m.t; next += d) { double v = 0; for (auto& a : all) if (a.t <= next) v = a.v; out.push_back(M{next, v}); }
    if (all.size() > 1) all.erase(all.begin(), all.end() - 1);
    if (out.empty()) return {};
    return {{1, out}};
  }
  uint64_t hash() const override { return mc::mix(ref::hash(all, 11), next); }
};
// resampling on t0 + k d; lag = how many of the newest messages are not reached yet
struct RInterp : RefOp {
  uint64_t d; bool hermite; std::vector<M> all; uint64_t next = 0;
  RInterp(uint64_t d, bool h) : d(d), hermite(h) {}
  static double cosi(double y1, double y2, double mu) { double m2 = (1 - std::cos(mu * M_PI)) / 2; return y1 * (1 - m2) + y2 * m2; }
  static double herm(double y0, double y1, double y2, double y3, double mu) {
    double m0 = (y1 - y0) / 2 + (y2 - y1) / 2, m1 = (y2 - y1) / 2 + (y3 - y2) / 2, m2 = mu * mu, m3 = m2 * mu;
    return (2 * m3 - 3 * m2 + 1) * y1 + (m3 - 2 * m2 + mu) * m0 + (m3 - m2) * m1 + (3 * m2 - 2 * m3) * y2;
  }
  double leftOfFirst() const {  // least squares line through the first four messages, one mean spacing before the first
    long double n = 4, sx = 0, sy = 0, sxy = 0, sxx = 0;
    for (int i = 0; i < 4; i++) { long double x = (long double)(all[i].t - all[0].t), y = all[i].v; sx += x; sy += y; sxy += x * y; sxx += x * x; }
    long double b = (n * sxy - sx * sy) / (n * sxx - sx * sx), a = (sy - b * sx) / n;
    return (double)(a + b * -((long double)(all[3].t - all[0].t) / 3));
  }
  Out on(bool, int, M m) override {
    all.push_back(m);
    if (all.size() == 1) next = m.t + d;
    size_t need = hermite ? 4 : 2;
    if (all.size() < need) return {};
    uint64_t upto = hermite ? all[all.size() - 2].t : m.t;
    std::vector<M> out;
    for (; next <= upto; next += d) {
      size_t i = 0; while (!(next > all[i].t && next <= all[i + 1].t)) i++;
      double mu = (double)(next - all[i].t) / (double)(all[i + 1].t - all[i].t);
      double v = hermite ? herm(i == 0 ? leftOfFirst() : all[i - 1].v, all[i].v, all[i + 1].v, all[i + 2].v, mu) : cosi(all[i].v, all[i + 1].v, mu);
      out.push_back(M{next, v});
    }
    if (out.empty()) return {};
    return {{1, out}};
  }
  uint64_t hash() const override { std::vector<M> w(all.end() - std::min<size_t>(all.size(), 4), all.end()); return mc::mix(mc::mix(ref::hash(w, 12), next), std::min<size_t>(all.size(), 5)); }
};
struct RFunction : RefOp {
  std::vector<std::pair<double, double>> p; bool hermite;
  RFunction(std::vector<std::pair<double, double>> q, bool h) : p(q), hermite(h) { std::sort(p.begin(), p.end()); }
  double tan(size_t i) const {
    size_t a = i == 0 ? 0 : i - 1, b = i + 1 == p.size() ? i : i + 1;
    return (p[b].second - p[a].second) / (p[b].first - p[a].first);
  }
  double eval(double x) const {
    size_t s = 0; while (s + 2 < p.size() && x >= p[s + 1].first) s++;
    double w = p[s + 1].first - p[s].first, mu = (x - p[s].first) / w;
    if (!hermite) return p[s].second + (p[s + 1].second - p[s].second) * mu;
    double m2 = mu * mu, m3 = m2 * mu;
    return (2 * m3 - 3 * m2 + 1) * p[s].second + (m3 - 2 * m2 + mu) * w * tan(s) + (m3 - m2) * w * tan(s + 1) + (3 * m2 - 2 * m3) * p[s + 1].second;
  }
  Out on(bool, int, M m) override { return {{1, {M{m.t, eval(m.v)}}}}; }
};
inline RefPtr rShift(long long shift) {
  return std::make_unique<RMap>([shift](M m) -> std::optional<M> {
    if (shift < 0) { uint64_t k = (uint64_t)(-shift); m.t = m.t > k ? m.t - k : 0; } else m.t += (uint64_t)shift;
    return m; });
}

}  // namespace ref

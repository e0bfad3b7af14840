// Program graphs: as JSON for the real code and as a network of reference operators.
#pragma once
#include "c06defs.h"
#include "rtbot/Program.h"
#include <nlohmann/json.hpp>
namespace hx {
struct Node { string id; Def d; };
struct Edge { int a, op, b; bool ctl; int ip; int omit = 0; };  // omit: 1 = leave out fromPort, 2 = leave out toPort
struct Graph {
  vector<Node> nodes; vector<Edge> edges; int entry = 0; std::map<string, vector<string>> output; bool hasOutput = false;
  int node(const string& id, const Def& d) { nodes.push_back({id, d}); return (int)nodes.size() - 1; }
  void edge(int a, int op, int b, int ip, bool ctl = false, int omit = 0) { edges.push_back({a, op, b, ctl, ip, omit}); }
  string edgeJson(const Edge& e) const {
    return con(nodes[e.a].id, nodes[e.b].id, (e.omit & 1) ? "" : "o" + to_string(e.op), (e.omit & 2) ? "" : (e.ctl ? "c" : "i") + to_string(e.ip));
  }
  string json(const vector<int>* po = nullptr, const vector<int>* pe = nullptr) const {
    vector<string> o, c;
    for (size_t i = 0; i < nodes.size(); i++) { auto& n = nodes[po ? (*po)[i] : i]; o.push_back(n.d.json(n.id)); }
    for (size_t i = 0; i < edges.size(); i++) c.push_back(edgeJson(edges[pe ? (*pe)[i] : i]));
    string s = "{\"entryOperator\":\"" + nodes[entry].id + "\"";
    if (hasOutput) { s += ",\"output\":{"; bool f = true; for (auto& [k, v] : output) { vector<string> q; for (auto& p : v) q.push_back("\"" + p + "\""); s += (f ? "" : ",") + string("\"") + k + "\":" + list(q); f = false; } s += "}"; }
    return s + ",\"operators\":" + list(o) + ",\"connections\":" + list(c) + "}";
  }
};
// composition of reference operators, message by message
struct RefGraph {
  const Graph& g; vector<RefPtr> r;
  explicit RefGraph(const Graph& g) : g(g) { for (auto& n : g.nodes) r.push_back(n.d.ref()); }
  void deliver(int n, bool ctl, int port, M m, Flat& f) {
    Out o = r[n]->on(ctl, port, m);
    for (auto& [p, v] : o) for (auto& x : v) {
      f[g.nodes[n].id + ":o" + to_string(p)].push_back(x);
      for (auto& e : g.edges) if (e.a == n && e.op == p) deliver(e.b, e.ctl, e.ip, x, f);
    }
  }
  Flat send(int port, M m) { Flat f; deliver(g.entry, false, port, m, f); return f; }
  uint64_t hash() const { uint64_t h = 1; for (auto& x : r) h = mc::mix(h, x->hash()); return h; }
};
inline bool same(const Flat& a, const Flat& b) {
  if (a.size() != b.size()) return false;
  for (auto& [k, v] : a) { auto it = b.find(k); if (it == b.end() || !ref::same(v, it->second)) return false; }
  return true;
}
using MMap = rtbot::OperatorMessage<uint64_t, double>;
inline MMap one(int port, M m) { MMap x; x["i" + to_string(port)].push_back(zoo::Msg(m.t, m.v)); return x; }

// ---- building every small graph ----
struct Src { int n, p; };
inline vector<Src> sources(const Graph& g) { vector<Src> s; for (size_t i = 0; i < g.nodes.size(); i++) for (int p = 1; p <= g.nodes[i].d.nout; p++) s.push_back({(int)i, p}); return s; }
// adds a node whose every port is fed by exactly one of the existing output ports; port names may be left out where that is allowed
inline void grow(Ctx& c, Graph& g, const vector<Def>& alphabet, const string& id, int omitMode) {
  auto src = sources(g); const Def& d = c.pick(alphabet);
  if (d.type == "Demultiplexer") {  // data from anywhere; every control is a constant of the same stream, so that it exists for every data message
    auto s = c.pick(src); vector<int> ctl; for (int p = 1; p <= d.nctl; p++) ctl.push_back(g.node(id + "k" + to_string(p), zoo::dVal("Constant", p % 2)));
    int n = g.node(id, d); int late = c.choose(2);
    if (late) g.edge(s.n, s.p, n, 1);
    for (int p = 1; p <= d.nctl; p++) { g.edge(s.n, s.p, ctl[p - 1], 1); g.edge(ctl[p - 1], 1, n, p, true); }
    if (!late) g.edge(s.n, s.p, n, 1);
    return;
  }
  int n = g.node(id, d);
  for (int p = 1; p <= d.nin + d.nctl; p++) {
    auto s = c.pick(src); bool ctl = p > d.nin; int omit = 0;
    if ((omitMode & 1) && g.nodes[s.n].d.nout == 1) omit |= 1;
    if ((omitMode & 2) && d.nin + d.nctl == 1) omit |= 2;
    g.edge(s.n, s.p, n, ctl ? p - d.nin : p, ctl, omit);
  }
}
// operators whose arithmetic is exact on small dyadic values, so that reference and implementation agree on every comparison downstream
inline vector<Def> exactOps() {
  return {zoo::dVal("Add", 2.5), zoo::dVal("Scale", -2), zoo::dMA(2), zoo::dPlain("CumulativeSum"), zoo::dDiff(), zoo::dPlain("Count"), zoo::dPeak(3), zoo::dFIR({2, -1}), zoo::dAR({0.5}), zoo::dVal("GreaterThan", 0),
          zoo::dVal("EqualTo", 1), zoo::dShift(3, 1), zoo::dConstRes(2), zoo::dPlain("Minus"), zoo::dPlain("Or"), zoo::dPlain("LessThanStream"), zoo::dJoin(2), zoo::dJoin(3), zoo::dVariable(0.5), zoo::dDemux(2), zoo::dOutput(2)};
}
inline vector<Def> lastOps() {
  auto v = exactOps();
  for (auto d : {zoo::dStd(2), zoo::dRSI(2), zoo::dCos(2), zoo::dHer(3), zoo::dVal("Power", 2), zoo::dVal("Constant", 7), zoo::dVal("LessThan", 1), zoo::dPlain("Identity"), zoo::dPlain("Plus"), zoo::dPlain("Multiplication"), zoo::dPlain("Division"),
                 zoo::dPlain("And"), zoo::dPlain("GreaterThanStream"), zoo::dLinear({1, 2, 4}), zoo::dFunction({{0, 0}, {1, 2}, {3, 1}}, false), zoo::dDemux(1), zoo::dInput(1), zoo::dInput(2), zoo::dOutput(1)}) v.push_back(d);
  return v;
}
inline vector<Def> fewOps() { return {zoo::dMA(2), zoo::dVal("GreaterThan", 0), zoo::dShift(3, 1), zoo::dPlain("Minus"), zoo::dJoin(2), zoo::dVariable(0.5), zoo::dConstRes(2)}; }

struct In { int port; M m; };
// input streams; ports interleave in different ways; some timestamps repeat or go back (the entry discards them)
// 4: special values (not a number, infinite, signed zero, huge, denormal); 5: one value, with long silences between the messages
inline vector<In> inputs(int which, int nin, uint64_t base = 10) {
  vector<In> v; static const double usual[] = {1, -2, 1, 0.5, 3, -1, 1, 4}, special[] = {1, NAN, -0.0, 1e300, -INFINITY, NAN, 5e-324, 2}, one[] = {2, 2, 2, 2, 2, 2, 2, 2};
  static const uint64_t g0[] = {1, 1, 1, 1, 1, 1, 1}, g1[] = {2, 1, 5, 3, 1, 7, 2}, g5[] = {1, 70, 1, 300, 2, 1000, 1}; const uint64_t* g = which == 5 ? g5 : which % 2 ? g1 : g0; const double* val = which == 4 ? special : which == 5 ? one : usual;
  uint64_t t = base;
  for (int i = 0; i < 8; i++) {
    if (nin == 1) { v.push_back({1, M{t, val[i]}}); if (which == 2 && i == 3) v.push_back({1, M{t, 9}}); if (which == 3 && i == 4) v.push_back({1, M{t - 1, 9}}); }
    else { int first = (i + which) % 2; v.push_back({1 + first, M{t + (which == 3 && i % 3 == 0 ? 1 : 0), val[i] + (double)first}}); if (i % 4 != 3) v.push_back({2 - first, M{t, val[(i + 3) % 8]}}); }
    if (i < 7) t += g[i];
  }
  return v;
}
inline Graph start(int entryPorts) { Graph g; g.node("in", zoo::dInput(entryPorts)); return g; }
}  // namespace hx

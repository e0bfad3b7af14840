#include "prog.h"
using namespace hx;
// permutations of n things: all of them up to 4, beyond that every transposition, rotation and the reversal
static vector<vector<int>> perms(int n) {
  vector<vector<int>> r; vector<int> id(n); std::iota(id.begin(), id.end(), 0);
  if (n <= 4) { auto p = id; while (std::next_permutation(p.begin(), p.end())) r.push_back(p); return r; }
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { auto p = id; std::swap(p[i], p[j]); r.push_back(p); }
  for (int k = 1; k < n; k++) { auto p = id; std::rotate(p.begin(), p.begin() + k, p.end()); r.push_back(p); }
  auto p = id; std::reverse(p.begin(), p.end()); r.push_back(p); return r;
}
static void runPerm(Ctx& c, const Graph& g, const vector<In>& in, bool both = true) {
  int n = (int)g.nodes.size(), m = (int)g.edges.size(); vector<int> po(n), pe(m); std::iota(po.begin(), po.end(), 0); std::iota(pe.begin(), pe.end(), 0);
  auto a = perms(n), b = perms(m); int k = c.choose((int)(a.size() + b.size()) + (both ? 1 : 0));
  if (k < (int)a.size()) po = a[k]; else if (k < (int)(a.size() + b.size())) pe = b[k - a.size()]; else { std::reverse(po.begin(), po.end()); std::reverse(pe.begin(), pe.end()); }
  string j1 = g.json(), j2 = g.json(&po, &pe); c.log([&] { return "listed as " + j1 + "\n      and as " + j2; });
  auto p1 = rtbot::FactoryOp::createProgram(j1), p2 = rtbot::FactoryOp::createProgram(j2);
  uint64_t h = 0;
  for (auto& x : in) {
    c.step(); Flat f1, f2; string e1, e2;
    try { f1 = flat(p1.receiveDebug(one(x.port, x.m))); } catch (std::exception& e) { e1 = e.what(); }
    try { f2 = flat(p2.receiveDebug(one(x.port, x.m))); } catch (std::exception& e) { e2 = e.what(); }
    c.log([&] { return what(false, x.port, x.m) + " -> " + (e1.empty() ? hx::str(f1) : e1) + " / " + (e2.empty() ? hx::str(f2) : e2); });
    c.check(e1 == e2 && exact(f1, f2), "listing order", [&] { return "after " + what(false, x.port, x.m) + "\n  " + j1 + " emits " + (e1.empty() ? hx::str(f1) : e1) + "\n  " + j2 + " emits " + (e2.empty() ? hx::str(f2) : e2); });
    h = mc::mix(h, hash(f1)); c.outcome(hash(f1)); c.state(h);
  }
}
static std::function<void(Ctx&)> graphs(int ports, vector<Def> inner, vector<Def> last, int k, vector<int> streams, int omit = 0) {
  return [=](Ctx& c) { Graph g = start(ports); for (int i = 0; i < k; i++) grow(c, g, i + 1 == k ? last : inner, string(1, "zambk"[i]) + to_string(i), omit); int s = c.pick(streams); runPerm(c, g, inputs(s, ports)); };
}
int main(int argc, char** argv) {
  mc::Main m; m.property = "C05";
  m.bounds = "every program graph of 1..3 operators behind the entry in which each input port is fed by one connection (operator alphabets and wirings as for C22, pipelines included), each in its own listing order and in EVERY permutation of its operators and of its connections (all permutations up to 4 items, beyond that every transposition, rotation and the reversal, and both lists reversed); pipelines' inner lists likewise; streams of 8-14 messages, special values and long silences included";
  m.assumptions = {"each input port is fed by one connection (where several feed one port their relative order is the order of the program text)"};
  m.parse(argc, argv);
  auto in = exactOps(), la = lastOps(), few = fewOps(); auto pl = pipelines(); auto mid = few; for (auto& d : {pl[2], pl[3], zoo::dDemux(2), zoo::dOutput(2), zoo::dLinear({1, 2, 4}), zoo::dPlain("CumulativeSum"), zoo::dDiff()}) mid.push_back(d);
  for (auto& d : pl) la.push_back(d);
  m.add("1 operator", graphs(1, in, la, 1, {1, 2, 3, 4, 5})); m.add("1 operator, 2 entry ports", graphs(2, in, la, 1, {0, 1, 2, 3, 4, 5}));
  m.add("2 operators", graphs(1, in, la, 2, {1, 4})); m.add("2 operators, 2 entry ports", graphs(2, mid, mid, 2, {3}));
  m.add("3 operators", graphs(1, few, few, 3, {1})); m.add("3 operators, omitted names", graphs(1, {zoo::dMA(2), zoo::dPlain("Minus"), zoo::dVariable(0.5)}, mid, 3, {0}, 3));
  m.add("3 operators, 2 entry ports deep", graphs(2, few, few, 3, {3}), true); m.add("3 operators deep", graphs(1, mid, mid, 3, {1}), true);
  // wide fan-out and fan-in
  m.add("join of n branches", [](Ctx& c) { Graph g = start(1); int n = c.pick(vector<int>{3, 5, 8}); auto d = c.pick(vector<Def>{zoo::dVal("GreaterThan", 0), zoo::dMA(2), zoo::dShift(1, 1), zoo::dPlain("Count")}); int j = g.node("j", zoo::dJoin(n));
    for (int i = 0; i < n; i++) { int x = g.node(string(1, 'k' + (i % 2 ? i : -i)), i ? zoo::dVal("Add", i) : d); g.edge(0, 1, x, 1); g.edge(x, 1, j, i + 1); } runPerm(c, g, inputs(c.choose(4), 1)); });
  // control paths shorter and longer than the data path
  m.add("delayed controls", [](Ctx& c) { Graph g = start(1); bool demux = c.flip(); int n = demux ? c.choose(2) + 1 : 1; int d = g.node("d", demux ? zoo::dDemux(n) : zoo::dVariable(0.5)); int ld = c.choose(3), lc = c.choose(3);
    auto path = [&](int len, const string& nm, bool sel) { int prev = 0; for (int i = 0; i < len; i++) { int x = g.node(nm + to_string(i), zoo::dPlain("Identity")); g.edge(prev, 1, x, 1); prev = x; } if (sel) { int x = g.node(nm + "s", zoo::dVal("Constant", 1)); g.edge(prev, 1, x, 1); prev = x; } return prev; };
    int a = path(ld, "b", false); for (int i = 0; i < n; i++) { int b = path(lc, string(1, "ax"[i]), demux); g.edge(b, 1, d, i + 1, true); } g.edge(a, 1, d, 1);
    int o = g.node("o", zoo::dOutput(n)); for (int i = 0; i < (demux ? n : 1); i++) g.edge(d, i + 1, o, i + 1); runPerm(c, g, inputs(c.choose(4), 1)); });
  m.add("inside a pipeline", [](Ctx& c) { vector<vector<string>> ops = {{op("Input", "i"), op("MovingAverage", "a", "\"n\":2"), op("Minus", "m")}, {op("Input", "q"), op("Count", "z"), op("Scale", "b", "\"value\":3"), op("Plus", "k")}, {op("Minus", "z"), op("Count", "a"), op("Scale", "k", "\"value\":2")}, {op("CumulativeSum", "z"), op("Difference", "m"), op("Count", "a")}};
    vector<vector<string>> cons = {{con("i", "a"), con("i", "m", "", "i1"), con("a", "m", "", "i2")}, {con("q", "z"), con("q", "b"), con("z", "k", "o1", "i2"), con("b", "k", "o1", "i1")}, {con("z", "a"), con("z", "k")}, {con("z", "m"), con("z", "a")}};
    int w = c.choose(4), no = w == 2 || w == 3 ? 2 : 1, ni = w == 2 ? 2 : 1; auto o = ops[w], e = cons[w]; auto a = perms((int)o.size()), b = perms((int)e.size()); int k = c.choose((int)(a.size() + b.size())); vector<string> o2, e2;
    if (k < (int)a.size()) { for (int i : a[k]) o2.push_back(o[i]); e2 = e; } else { for (int i : b[k - a.size()]) e2.push_back(e[i]); o2 = o; }
    auto wrap = [&](const vector<string>& x, const vector<string>& y) { vector<string> cs = {con("in", "p", "o1", "i1")}; if (ni == 2) cs.push_back(con("in", "p", "o2", "i2")); cs.push_back(con("p", "out", "o1", "i1")); if (no == 2) cs.push_back(con("p", "out", "o2", "i2"));
      string s = prog({op("Input", "in", "\"numPorts\":" + to_string(ni)), op("Pipeline", "p", "\"prog\":" + prog(x, y)), op("Output", "out", "\"numPorts\":" + to_string(no))}, cs); return "{\"entryOperator\":\"in\"," + s.substr(1); };
    string j1 = wrap(o, e), j2 = wrap(o2, e2); auto p1 = rtbot::FactoryOp::createProgram(j1), p2 = rtbot::FactoryOp::createProgram(j2); uint64_t h = 0;
    for (auto& x : inputs(c.choose(4), ni)) { c.step(); auto f1 = flat(p1.receiveDebug(one(x.port, x.m))), f2 = flat(p2.receiveDebug(one(x.port, x.m)));
      c.check(exact(f1, f2), "listing order in a pipeline", [&] { return "after " + what(false, x.port, x.m) + "\n  " + j1 + " emits " + hx::str(f1) + "\n  " + j2 + " emits " + hx::str(f2); }); h = mc::mix(h, hash(f1)); c.outcome(hash(f1)); c.state(h); } });
  return m.run();
}

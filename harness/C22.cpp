#include "prog.h"
using namespace hx;
// every message through the real program and through the composition of the reference operators
static void runBoth(Ctx& c, const Graph& g, const vector<In>& in, bool ordered = true) {
  string js = g.json(); c.log([&] { return "program " + js; });
  auto p = rtbot::FactoryOp::createProgram(js); RefGraph r(g);
  for (auto& x : in) {
    c.step(); Flat want = r.send(x.port, x.m), got; string err;
    try { got = flat(p.receiveDebug(one(x.port, x.m))); } catch (std::exception& e) { err = e.what(); }
    c.log([&] { return what(false, x.port, x.m) + " -> " + (err.empty() ? hx::str(got) : "error " + err); });
    auto w = want, q = got;
    if (!ordered) for (auto* f : {&w, &q}) for (auto& [k, v] : *f) std::sort(v.begin(), v.end(), [](const M& a, const M& b) { return std::make_pair(a.t, a.v) < std::make_pair(b.t, b.v); });
    c.check(err.empty() && same(w, q), "composition", [&] { return "program " + js + "\n  after " + what(false, x.port, x.m) + " the program emitted " + (err.empty() ? hx::str(got) : "error " + err) + "\n  the composition of its operators gives " + hx::str(want); });
    c.outcome(hash(got)); c.state(r.hash());
  }
}
static std::function<void(Ctx&)> graphs(int ports, vector<Def> inner, vector<Def> last, int k, vector<int> streams, int omit) {
  return [=](Ctx& c) {
    Graph g = start(ports); for (int i = 0; i < k; i++) grow(c, g, i + 1 == k ? last : inner, "n" + to_string(i + 1), omit);
    int s = c.pick(streams); runBoth(c, g, inputs(s, ports));
  };
}
static bool p1(const Def& d, int p) { return d.nctl && p <= d.nin; }  // the data port of an operator with control ports
int main(int argc, char** argv) {
  mc::Main m; m.property = "C22";
  m.bounds = "EVERY program graph of 1..3 operators behind the entry (21 types inside, 40 at the end; every wiring in which each input port is fed by one earlier output port; fan-out, shared and repeated sources, control ports), 4 operators from a small alphabet in thorough; port names given and omitted; several input streams with 8-14 messages; operators fed with special values and with up to 1100 messages at once on 1-2 entry ports; chains of depth 40; operators with 11 and 12 ports, any two of them fed by one output; hand-made graphs in which several connections feed one port";
  m.assumptions = {"one connection per input port, except in the fan-in graphs, where the order of merged messages of one step is left open"};
  m.parse(argc, argv);
  auto in = exactOps(), la = lastOps(), few = fewOps();
  for (int om : {0, 3}) m.add("1 operator omit " + to_string(om), graphs(1, in, la, 1, {0, 1, 2, 3}, om));
  m.add("1 operator, 2 entry ports", graphs(2, in, la, 1, {0, 1, 2, 3}, 2));
  m.add("2 operators", graphs(1, in, la, 2, {0, 1, 3}, 0)); m.add("2 operators, omitted names", graphs(1, in, la, 2, {1}, 3));
  m.add("2 operators, 2 entry ports", graphs(2, in, la, 2, {1, 3}, 1));
  m.add("3 operators", graphs(1, few, few, 3, {0, 1}, 0)); m.add("3 operators, 2 entry ports", graphs(2, few, few, 3, {3}, 3));
  // values that are not numbers, through operators whose result is defined for each message alone
  vector<Def> plain = {zoo::dPlain("Identity"), zoo::dVal("Add", 2.5), zoo::dVal("Scale", -2), zoo::dShift(3, 1), zoo::dVal("GreaterThan", 0), zoo::dVal("LessThan", 1), zoo::dVal("EqualTo", 1), zoo::dVal("Constant", 7), zoo::dConstRes(2), zoo::dPlain("Minus"), zoo::dPlain("Plus"), zoo::dPlain("Multiplication"), zoo::dPlain("Division"), zoo::dPlain("Count"), zoo::dPlain("GreaterThanStream"), zoo::dJoin(2), zoo::dVariable(0.5), zoo::dOutput(1), zoo::dOutput(2), zoo::dInput(1), zoo::dDemux(1)};
  m.add("special values, 1 operator", graphs(1, plain, plain, 1, {4}, 0)); m.add("special values, 2 operators", graphs(1, plain, plain, 2, {4}, 0)); m.add("special values, 2 entry ports", graphs(2, plain, plain, 1, {4}, 0));
  // many messages emitted at once, and long silences
  m.add("bursts", [la](Ctx& c) { Graph g = start(1); int r = g.node("r", c.pick(vector<Def>{zoo::dConstRes(1), zoo::dConstRes(7)})); g.edge(0, 1, r, 1); auto d = c.pick(la); if (d.type == "RelativeStrengthIndex") throw mc::Skip{};  /* its averages decay to denormal numbers there */ int x = g.node("x", d); for (int p = 1; p <= d.nin; p++) g.edge(r, 1, x, p); if (d.nctl) { int k = g.node("k", zoo::dVal("Constant", 1)); g.edge(r, 1, k, 1); for (int p = 1; p <= d.nctl; p++) g.edge(k, 1, x, p, true); }
    vector<In> in; uint64_t t = 3; for (int i = 0; i < 4; i++) { in.push_back({1, M{t, i % 2 ? -1.5 : 2.0}}); t += c.pick(vector<int>{1, 63, 64, 65, 300, 1100}); } runBoth(c, g, in); });
  m.add("long silences", graphs(1, in, la, 1, {5}, 0)); m.add("long silences, 2 operators", graphs(1, few, few, 2, {5}, 0));
  m.add("3 operators deep", graphs(1, in, in, 3, {1}, 0), true);
  m.add("4 operators deep", graphs(1, few, few, 4, {1}, 2), true);
  // long chains, wide fan-out
  m.add("chains", [](Ctx& c) { Graph g = start(1); int n = c.pick(vector<int>{5, 20, 40}), prev = 0; auto few = vector<Def>{zoo::dPlain("Identity"), zoo::dVal("Add", 1), zoo::dShift(1, 1), zoo::dMA(2)}; int kind = c.choose(5);
    for (int i = 0; i < n; i++) { int x = g.node("n" + to_string(i), kind == 4 ? few[i % 3] : few[kind == 3 && i > 8 ? 0 : kind]); g.edge(prev, 1, x, 1); prev = x; } runBoth(c, g, inputs(c.choose(4), 1)); });
  m.add("fan-out", [](Ctx& c) { Graph g = start(1); int n = c.pick(vector<int>{3, 9, 12}); auto d = c.pick(exactOps()); if (d.type == "Demultiplexer") d = zoo::dPlain("Identity"); int j = g.node("all", zoo::dJoin(n));
    for (int i = 0; i < n; i++) { int x = g.node("n" + to_string(i), i % 2 ? zoo::dVal("Add", i) : d); for (int p = 1; p <= g.nodes[x].d.nin + g.nodes[x].d.nctl; p++) g.edge(0, 1, x, p > g.nodes[x].d.nin ? p - g.nodes[x].d.nin : p, p > g.nodes[x].d.nin); g.edge(x, 1, j, i + 1); }
    runBoth(c, g, inputs(c.choose(4), 1)); });
  // one output feeding any two ports of an operator with more than nine
  m.add("wide operators", [](Ctx& c) { Graph g = start(1); vector<double> co; for (int i = 0; i < 12; i++) co.push_back(i + 0.5 * (i % 3)); auto d = c.pick(vector<Def>{zoo::dJoin(12), zoo::dLinear(co), zoo::dOutput(12), zoo::dDemux(11)}); int b = g.node("b", zoo::dVal("Constant", 1)), w = g.node("w", d), n = d.nin + d.nctl; g.edge(0, 1, b, 1);
    int i = 1 + c.choose(n), j = 1 + c.choose(n); auto edge = [&](int from, int p) { g.edge(from, 1, w, p > d.nin ? p - d.nin : p, p > d.nin); }; int from = d.nctl ? b : 0; if (i != j) { edge(p1(d, i) ? 0 : from, i); edge(p1(d, j) ? 0 : from, j); } for (int p = 1; p <= n; p++) if (i == j || (p != i && p != j)) edge(p1(d, p) ? 0 : b, p);
    runBoth(c, g, inputs(c.choose(2), 1)); });
  // several connections into one port: branches that exclude each other keep their order ...
  m.add("exclusive branches", [](Ctx& c) { Graph g = start(1); int kind = c.choose(3); int a, b, pa = 1, pb = 1;
    if (kind == 0) { a = g.node("gt", zoo::dVal("GreaterThan", 0)); b = g.node("lt", zoo::dVal("LessThan", 0)); g.edge(0, 1, a, 1); g.edge(0, 1, b, 1); }
    else if (kind == 1) { a = g.node("gt", zoo::dVal("GreaterThan", 1)); b = g.node("eq", zoo::dVal("EqualTo", 1)); g.edge(0, 1, b, 1); g.edge(0, 1, a, 1); }
    else { int e = g.node("lts", zoo::dVal("LessThan", 0)), o = g.node("gts", zoo::dVal("GreaterThan", 0)); a = e; b = o; g.edge(0, 1, a, 1); g.edge(0, 1, b, 1); }
    int sa = g.node("sa", zoo::dVal("Scale", -1)), sb = g.node("sb", zoo::dVal("Add", 10)); g.edge(a, pa, sa, 1); g.edge(b, pb, sb, 1);
    auto d = c.pick(vector<Def>{zoo::dOutput(1), zoo::dPlain("Count"), zoo::dMA(2), zoo::dDiff(), zoo::dPlain("CumulativeSum"), zoo::dVal("Add", 1), zoo::dVariable(0.5), zoo::dPlain("Minus")}); int t = g.node("t", d);
    g.edge(sa, 1, t, 1); g.edge(sb, 1, t, 1); if (d.nctl) g.edge(0, 1, t, 1, true); if (d.nin > 1) g.edge(0, 1, t, 2);
    runBoth(c, g, inputs(c.choose(4), 1)); });
  // ... and branches that do not must still deliver every message exactly once
  m.add("merged branches", [](Ctx& c) { Graph g = start(1); auto mid = c.pick(vector<Def>{zoo::dPlain("Identity"), zoo::dVal("Add", 100), zoo::dVal("GreaterThan", 0), zoo::dShift(1, 1)}); auto d = c.pick(vector<Def>{zoo::dOutput(1), zoo::dVal("Add", 1), zoo::dVal("Scale", 2), zoo::dPlain("Identity"), zoo::dVal("GreaterThan", -5), zoo::dVal("Power", 2)});
    int b = g.node("b", mid), t = g.node("t", d), u = g.node("u", zoo::dVal("Add", 0.5)); int ord = c.choose(6); vector<Edge> e = {{0, 1, b, false, 1}, {0, 1, t, false, 1}, {b, 1, t, false, 1}}; vector<int> p = {0, 1, 2}; for (int i = 0; i < ord; i++) std::next_permutation(p.begin(), p.end());
    for (int i : p) g.edges.push_back(e[i]); g.edge(t, 1, u, 1); runBoth(c, g, inputs(c.choose(4), 1), false); });
  // ... nor may an operator with a memory lose one: its outputs follow from one fixed order of the merged messages
  m.add("merged branches, stateful", [](Ctx& c) { Graph g = start(1); auto mid = c.pick(vector<Def>{zoo::dPlain("Identity"), zoo::dVal("Add", 100), zoo::dVal("GreaterThan", 0), zoo::dMA(2)});
    auto d = c.pick(vector<Def>{zoo::dAR({0.5}), zoo::dAR({0.5, 0.25}), zoo::dPlain("Count"), zoo::dPlain("CumulativeSum"), zoo::dMA(2), zoo::dMA(3), zoo::dMA(1), zoo::dDiff(), zoo::dPeak(3), zoo::dPeak(1), zoo::dFIR({2, -1}), zoo::dFIR({3})});
    int b = g.node("b", mid), t = g.node("t", d), u = g.node("u", zoo::dVal("Add", 0.5)); int two = c.choose(2); vector<Edge> e = {{0, 1, b, false, 1}, {0, 1, t, false, 1}, {b, 1, t, false, 1}}; if (two) { int b2 = g.node("b2", zoo::dVal("Scale", 2)); e.push_back({0, 1, b2, false, 1}); e.push_back({b2, 1, t, false, 1}); }
    vector<int> p; for (size_t i = 0; i < e.size(); i++) p.push_back((int)i); Graph base = g; auto ins = inputs(c.choose(4), 1); int ord = c.choose(two ? 120 : 6); for (int i = 0; i < ord; i++) std::next_permutation(p.begin(), p.end());
    for (int i : p) g.edges.push_back(e[i]); g.edge(t, 1, u, 1);
    rtbot::Program real(g.json()); vector<Flat> got; for (auto& i : ins) { c.step(); got.push_back(flat(real.receiveDebug(one(i.port, i.m)))); }
    vector<int> q; for (size_t i = 0; i < e.size(); i++) q.push_back((int)i); bool any = false;
    do { Graph h = base; for (int i : q) h.edges.push_back(e[i]); h.edge(t, 1, u, 1); RefGraph r(h); bool ok = true; for (size_t i = 0; i < ins.size() && ok; i++) ok = same(got[i], r.send(ins[i].port, ins[i].m)); any = any || ok; } while (!any && std::next_permutation(q.begin(), q.end()));
    for (auto& f : got) c.outcome(hash(f)); c.state(hash(got.back()));
    c.check(any, "merged", [&] { string o; for (size_t i = 0; i < ins.size(); i++) o += "\n  " + to_string(ins[i].m.t) + ":" + to_string(ins[i].m.v) + " -> " + str(got[i]); return g.json() + " emits what no order of the merged messages explains:" + o; }); });
  return m.run();
}

#include "prog.h"
using namespace hx;
using rtbot::Bytes; using rtbot::FactoryOp;
// the uninterrupted program against one that is serialized and resumed at the chosen points, and one that is only serialized
static void runResume(Ctx& c, const string& js, const vector<In>& in, bool filtered = false, const vector<int>& points = {}) {
  int n = (int)in.size(); c.log([&] { return "program " + js; });
  // at which points: one point, all of them, two points, every other one
  int kind = points.empty() ? c.choose(3) : 3; vector<bool> at(n + 1, false); if (kind == 3) at[c.pick(points)] = true;
    if (kind == 0) at[c.choose(n + 1)] = true; else if (kind == 1) at.assign(n + 1, true); else if (kind == 2) { int a = c.choose(n); at[a] = true; at[a + 1 + c.choose(n - a)] = true; }
  FactoryOp f0, f1; auto mk = [&](FactoryOp& f) { f.createProgram("p", js); }; mk(f0); mk(f1);
  uint64_t h = 0;
  auto feedTo = [&](FactoryOp& f, const In& x, string& e) { Flat r; try { r = flat(filtered ? f.processMessageMap("p", one(x.port, x.m)) : f.processMessageMapDebug("p", one(x.port, x.m))); } catch (std::exception& ex) { e = ex.what(); } return r; };
  FactoryOp* cur = &f1; vector<std::unique_ptr<FactoryOp>> keep; FactoryOp f2; mk(f2); int resumes = 0;
  for (int i = 0; i <= n; i++) {
    if (at[i]) {
      Bytes b = cur->serialize("p"), again = cur->serialize("p");
      c.check(b == again, "serialize twice", [&] { return "two serializations in a row differ, program " + js; });
      keep.push_back(std::make_unique<FactoryOp>()); auto* nx = keep.back().get(); nx->createProgram("p", b); cur = nx; resumes++;
      c.check(nx->getProgramEntryOperatorId("p") == f0.getProgramEntryOperatorId("p") && nx->getProgramEntryPorts("p") == f0.getProgramEntryPorts("p") && nx->getProgramOutputFilter("p") == f0.getProgramOutputFilter("p"), "resumed definition", [&] { return "the resumed program has another entry or output declaration, program " + js; });
      f2.serialize("p"); c.log([&] { return "serialize and resume before message " + to_string(i + 1); });
    }
    if (i == n) break;
    c.step(); string e0, e1, e2; auto& x = in[i]; Flat a = feedTo(f0, x, e0), b = feedTo(*cur, x, e1), d = feedTo(f2, x, e2);
    c.log([&] { return what(false, x.port, x.m) + " -> " + (e0.empty() ? hx::str(a) : e0); });
    c.check(e0 == e1 && exact(a, b), "resumed program", [&] { return "program " + js + "\n  resumed " + to_string(resumes) + " times; after " + what(false, x.port, x.m) + " it emits " + (e1.empty() ? hx::str(b) : "error " + e1) + ", the uninterrupted one " + (e0.empty() ? hx::str(a) : "error " + e0); });
    c.check(e0 == e2 && exact(a, d), "serialized program", [&] { return "program " + js + "\n  after being serialized, " + what(false, x.port, x.m) + " emits " + hx::str(d) + " " + e2 + ", without serializing " + hx::str(a) + " " + e0; });
    h = mc::mix(h, hash(a)); c.outcome(hash(a)); c.state(h);
  }
  // once more at the end: the outputs of a program resumed from the final bytes agree with the original's
  if (kind == 1) { FactoryOp z; Bytes zb = cur->serialize("p"); z.createProgram("p", zb); uint64_t t = 0; for (auto& x : in) t = std::max(t, x.m.t);
    for (int k = 1; k <= 3; k++) { In x{1, M{t + 2 * k, 0.5 * k}}; string e0, e1; Flat a = feedTo(f0, x, e0), b = feedTo(z, x, e1); c.step(); c.check(e0 == e1 && exact(a, b), "resumed program", [&] { return "program " + js + "\n  resumed at the end; after " + what(false, x.port, x.m) + " it emits " + hx::str(b) + e1 + ", the uninterrupted one " + hx::str(a) + e0; }); } }
}
static vector<Def> allOps() { auto v = lastOps(); for (auto& d : zoo::unary()) v.push_back(d); for (auto& d : pipelines()) v.push_back(d); v.push_back(zoo::dDemux(3)); v.push_back(zoo::dVariable(-1.5)); v.push_back(zoo::dMA(4)); v.push_back(zoo::dRSI(4)); v.push_back(zoo::dAR({0.5, 0.25, 0.125})); return v; }
static std::function<void(Ctx&)> graphs(int ports, vector<Def> inner, vector<Def> last, int k, vector<int> streams) {
  return [=](Ctx& c) { Graph g = start(ports); for (int i = 0; i < k; i++) grow(c, g, i + 1 == k ? last : inner, "n" + to_string(i + 1), 0);
    int s = c.pick(streams); auto in = inputs(s % 10, ports, s >= 10 ? (1ull << 62) : 10);
    if (s >= 10) for (auto& x : in) x.m.v = x.m.v * 1e300 / 7; runResume(c, g.json(), in); };
}
int main(int argc, char** argv) {
  mc::Main m; m.property = "C07";
  m.bounds = "programs: every graph of 1..2 operators over the full operator list (pipelines included; 3 operators from a small alphabet), other entry operators, nested pipelines, output declarations; EVERY serialization point, every pair of points, and serialization after every message (300 messages waiting or in a window, and programs whose text has 25-140 kB, included), of streams of 8-14 messages incl. huge times and values, special values and long silences";
  m.assumptions = {"bytes are resumed by a build of the same code"};
  m.parse(argc, argv);
  auto all = allOps(); auto in = exactOps(); auto few = fewOps(); auto pl = pipelines(); auto mid = few; for (int i : {0, 3, 5}) mid.push_back(pl[i]); mid.push_back(zoo::dHer(2)); mid.push_back(zoo::dRSI(2));
  m.add("1 operator", graphs(1, in, all, 1, {0, 1, 3, 4, 5, 10, 11})); m.add("1 operator, 2 entry ports", graphs(2, in, all, 1, {1, 3, 4, 5, 13}));
  m.add("2 operators", graphs(1, mid, mid, 2, {1, 13})); m.add("2 operators, 2 entry ports", graphs(2, few, mid, 2, {3}));
  m.add("2 operators deep", graphs(1, all, all, 2, {1}), true); m.add("3 operators", graphs(1, {zoo::dMA(2), zoo::dPlain("Minus"), zoo::dVariable(0.5)}, few, 3, {1})); m.add("3 operators deep", graphs(1, few, mid, 3, {1}), true);
  m.add("any entry operator", [all](Ctx& c) { Graph g; vector<Def> e; for (auto& d : all) if (!d.nctl) e.push_back(d); auto& d = c.pick(e); g.node("entry", d); int o = g.node("out", zoo::dJoin(2)); g.edge(0, 1, o, 1); g.edge(0, d.nout, o, 2); int s = c.choose(2); runResume(c, g.json(), inputs(s, std::min(d.nin, 2)), c.flip()); });
  m.add("output declaration", [](Ctx& c) { Graph g = start(2); int a = g.node("a", zoo::dMA(2)), b = g.node("b", zoo::dJoin(2)), d = g.node("d", zoo::dPlain("CumulativeSum")); g.edge(0, 1, a, 1); g.edge(a, 1, b, 1); g.edge(0, 2, b, 2); g.edge(b, 2, d, 1); g.hasOutput = true;
    int mask = c.choose(32); if (mask & 1) g.output["in"].push_back("o2"); if (mask & 2) g.output["a"].push_back("o1"); if (mask & 4) g.output["b"].push_back("o1"); if (mask & 8) g.output["b"].push_back("o2"); if (mask & 16) g.output["d"].push_back("o1"); runResume(c, g.json(), inputs(c.choose(4), 2), c.flip()); });
  m.add("nested pipelines", [](Ctx& c) { auto st = c.pick(vector<string>{op("CumulativeSum", "s"), op("MovingAverage", "s", "\"n\":3"), op("HermiteResampler", "s", "\"dt\":2"), op("RelativeStrengthIndex", "s", "\"n\":2"), op("ConstantResampler", "s", "\"interval\":3"), op("PeakDetector", "s", "\"n\":3"), op("AutoRegressive", "s", "\"coeff\":[0.5,-0.25]"), op("Difference", "s")});
    int depth = c.choose(3) + 1; string cur = prog({st, op("Count", "z")}, {con("s", "z")}); for (int i = 1; i < depth; i++) cur = prog({op("Pipeline", "p", "\"prog\":" + cur), op("Scale", "q", "\"value\":2")}, {con("p", "q")});
    string js = prog({op("Input", "in"), op("Pipeline", "p1", "\"prog\":" + cur), op("Pipeline", "p2", "\"prog\":" + cur), st, op("Join", "j", "\"numPorts\":3")}, {con("in", "p1"), con("p1", "p2"), con("in", "s"), con("p1", "j", "o1", "i1"), con("s", "j", "o1", "i2"), con("p2", "j", "o1", "i3")}); runResume(c, "{\"entryOperator\":\"in\"," + js.substr(1), inputs(c.choose(4), 1)); });
  m.add("partly filled synchronizers", [](Ctx& c) { Graph g = start(3); auto d = c.pick(vector<Def>{zoo::dJoin(3), zoo::dLinear({1, 2, 4})}); int j = g.node("j", d), v = g.node("v", zoo::dVariable(0.5)); for (int i = 1; i <= 3; i++) g.edge(0, i, j, i); g.edge(0, 1, v, 1); g.edge(0, 2, v, 1, true);
    vector<uint64_t> t(4, 10); vector<In> in; for (int i = 0; i < 5; i++) { int p = 1 + c.choose(3); t[p] += 1 + c.choose(2); in.push_back({p, M{t[p], i + 0.5}}); } runResume(c, g.json(), in); });
  m.add("long program texts", [](Ctx& c) { int kind = c.choose(3); Graph g = start(1); int n = kind == 0 ? c.pick(vector<int>{250, 900}) : 2, prev = 0; for (int i = 1; i <= n; i++) { int x = g.node((kind == 1 ? string(40000, 'a') : string("n \u00e9 ")) + " " + to_string(i), i % 3 == 0 ? zoo::dDiff() : i % 3 == 1 ? zoo::dVal("Add", 0.5) : zoo::dMA(2)); g.edge(i % 12 ? prev : 0, 1, x, 1); prev = x; }
    string js = g.json(); if (kind == 2) js = "{\"title\":\"" + string(c.pick(vector<int>{300, 66000, 140000}), 'x') + "\"," + js.substr(1); auto in = inputs(1, 1); in.resize(4); runResume(c, js, in, false, {2, 4}); });
  m.add("long backlogs and wide windows", [](Ctx& c) { Graph g = start(2); auto d = c.pick(vector<Def>{zoo::dJoin(2), zoo::dPlain("Division"), zoo::dVariable(0.5), zoo::dDemux(1), zoo::dMA(300), zoo::dStd(300), zoo::dPeak(301), zoo::dFIR(vector<double>(300, 0.25)), zoo::dAR(vector<double>(300, 0.0078125))}); int x = g.node("x", d); g.edge(0, 1, x, 1); if (d.nin > 1) g.edge(0, 2, x, 2); if (d.nctl) g.edge(0, 2, x, 1, true);
    int first = 1 + c.choose(2), n = c.pick(vector<int>{256, 310}); vector<In> in; for (int p : {first, 3 - first}) for (int i = 1; i <= n; i++) in.push_back({p, M{(uint64_t)i, p == 2 ? (i / 3) % 2 : i % 7 * 0.5}}); runResume(c, g.json(), in, false, {n / 2, n, n + 3}); });
  return m.run();
}

#include "prog.h"
using namespace hx;
using C = rtbot::Composite<uint64_t, double>;
using json = nlohmann::json;
static void create(C& c, const Node& n) {
  auto j = json::parse(n.d.json(n.id)); const string& t = n.d.type; auto v = [&] { return j["value"].get<double>(); }; auto N = [&](const char* k) { return j[k].get<size_t>(); }; auto co = [&] { return j["coeff"].get<vector<double>>(); };
  if (t == "Input") c.createInput(n.id, N("numPorts")); else if (t == "Output") c.createOutput(n.id, N("numPorts")); else if (t == "Add") c.createAdd(n.id, v()); else if (t == "AutoRegressive") c.createAutoregressive(n.id, co());
  else if (t == "Constant") c.createConstant(n.id, v()); else if (t == "CosineResampler") c.createCosineResampler(n.id, N("dt")); else if (t == "Count") c.createCount(n.id); else if (t == "CumulativeSum") c.createCumulativeSum(n.id);
  else if (t == "Difference") { if (j.contains("useOldestTime")) c.createDifference(n.id, j["useOldestTime"].get<bool>()); else c.createDifference(n.id); } else if (t == "Join") c.createJoin(n.id, N("numPorts")); else if (t == "Division") c.createDivision(n.id); else if (t == "Minus") c.createMinus(n.id);
  else if (t == "Linear") c.createLinear(n.id, co()); else if (t == "EqualTo") c.createEqualTo(n.id, v()); else if (t == "GreaterThan") c.createGreaterThan(n.id, v()); else if (t == "LessThan") c.createLessThan(n.id, v());
  else if (t == "HermiteResampler") c.createHermiteResampler(n.id, N("dt")); else if (t == "Identity") c.createIdentity(n.id); else if (t == "MovingAverage") c.createMovingAverage(n.id, N("n")); else if (t == "FiniteImpulseResponse") c.createFiniteImpulseResponse(n.id, co());
  else if (t == "Variable") c.createVariable(n.id, v()); else if (t == "PeakDetector") c.createPeakDetector(n.id, N("n")); else if (t == "StandardDeviation") c.createStandardDeviation(n.id, N("n")); else if (t == "Demultiplexer") c.createDemultiplexer(n.id, N("numPorts"));
  else if (t == "Power") c.createPower(n.id, v()); else if (t == "Scale") c.createScale(n.id, v()); else if (t == "TimeShift") c.createTimeShift(n.id, N("dt"), j["times"].get<int>()); else throw std::logic_error("no create for " + t);
}
static string pn(const Edge& e, bool from) { return from ? ((e.omit & 1) ? "" : "o" + to_string(e.op)) : ((e.omit & 2) ? "" : (e.ctl ? "c" : "i") + to_string(e.ip)); }
struct Direct { std::map<string, OpPtr> ops; explicit Direct(const Graph& g) { for (auto& n : g.nodes) ops[n.id] = n.d.real(n.id); for (auto& e : g.edges) ops[g.nodes[e.a].id]->connect(ops[g.nodes[e.b].id].get(), pn(e, true), pn(e, false)); } };
static void build(C& c, const Graph& g) { for (auto& n : g.nodes) create(c, n); for (auto& e : g.edges) c.createInternalConnection(g.nodes[e.a].id, g.nodes[e.b].id, pn(e, true), pn(e, false)); }
static Flat send(zoo::Op& op, const In& x) { op.receiveData(zoo::Msg(x.m.t, x.m.v), "i" + to_string(x.port)); return flat(op.executeData()); }
static void compare(Ctx& c, const Graph& g, const In& x, const Flat& got, const Flat& want, const string& how) {
  c.log([&] { return what(false, x.port, x.m) + " -> " + hx::str(got); });
  c.check(exact(got, want), "composite", [&] { return how + " of " + g.json() + "\n  after " + what(false, x.port, x.m) + " the composite emits " + hx::str(got) + "\n  the operators connected directly emit " + hx::str(want); });
  c.outcome(hash(got));
}
static vector<Def> withoutNew(vector<Def> v) { static const std::set<string> no = {"Pipeline", "ConstantResampler", "Or", "And", "Plus", "Multiplication", "LessThanStream", "GreaterThanStream", "RelativeStrengthIndex", "Function", "Input", "Output"}; vector<Def> r; for (auto& d : v) if (!no.count(d.type)) r.push_back(d); return r; }
// a graph that ends in an Output fed by the last node and by the earliest one
static Graph closed(Ctx& c, int ports, const vector<Def>& inner, const vector<Def>& last, int k, int omit) {
  Graph g = start(ports); for (int i = 0; i < k; i++) grow(c, g, i + 1 == k ? last : inner, "n" + to_string(i + 1), omit);
  int l = (int)g.nodes.size() - 1, no = g.nodes[l].d.nout, extra = c.choose(2); int o = g.node("out", zoo::dOutput(no + extra)); for (int p = 1; p <= no; p++) g.edge(l, p, o, p, false, no + extra == 1 ? omit : 0); if (extra) g.edge(0, ports, o, no + 1); return g;
}
static void run(Ctx& c, const Graph& g, const vector<In>& in, int ports) {
  int how = c.choose(3);  // alone; followed by operators connected to it; fed by an operator
  C comp("composite"); build(comp, g); Direct d(g); auto& last = g.nodes.back(); int no = last.d.nout; vector<string> ids = {"x", "y", "z"}; vector<OpPtr> a, b;
  if (how == 1) for (int p = 1; p <= no; p++) { for (auto* v : {&a, &b}) v->push_back(p % 2 ? zoo::dMA(2).real("x" + to_string(p)) : zoo::dPlain("Count").real("x" + to_string(p))); comp.connect(a.back().get(), "o" + to_string(p), "i1"); d.ops["out"]->connect(b.back().get(), "o" + to_string(p), "i1"); }
  OpPtr s1, s2; if (how == 2) { s1 = zoo::dInput(ports).real("src"); s2 = zoo::dInput(ports).real("src"); for (int p = 1; p <= ports; p++) { s1->connect(&comp, "o" + to_string(p), "i" + to_string(p)); s2->connect(d.ops["in"].get(), "o" + to_string(p), "i" + to_string(p)); } }
  auto ins = comp.getDataInputs(), want = d.ops["in"]->getDataInputs(); c.check(ins == want && comp.getNumOutputPorts() == (size_t)no, "ports", [&] { return "the composite's ports do not match those of its input and output operators: " + g.json(); });
  uint64_t h = how; for (auto& x : in) { c.step(); Flat f1, f2; string e1, e2; try { f1 = how == 2 ? send(*s1, x) : send(comp, x); } catch (std::exception& e) { e1 = e.what(); } try { f2 = how == 2 ? send(*s2, x) : send(*d.ops["in"], x); } catch (std::exception& e) { e2 = e.what(); }
    c.check(e1 == e2, "errors", [&] { return g.json() + ": the composite answers '" + e1 + "', the operators connected directly '" + e2 + "'"; }); compare(c, g, x, f1, f2, how == 0 ? "composite" : how == 1 ? "composite with followers" : "composite fed by an operator"); h = mc::mix(h, hash(f1)); c.state(h); }
}
int main(int argc, char** argv) {
  mc::Main m; m.property = "C29";
  m.bounds = "EVERY composite of Input(1..2), 1..2 inner operators (3 from a small alphabet) of every type a composite can create, every wiring, and an Output with 1..4 ports; alone, with operators connected to its outputs, fed by an operator, and two composites in a row; streams of 8-14 messages per run; chains of 20; EVERY parameter of a list of ~100 further ones; composites of 9, 10, 11, 12 and 32 ports";
  m.assumptions = {"the same operators connected directly are decided by C01-C22"};
  m.parse(argc, argv);
  auto all = withoutNew(lastOps()), un = withoutNew(zoo::unary()), in = withoutNew(exactOps()), few = withoutNew(fewOps()); for (auto& d : un) all.push_back(d); few.push_back(zoo::dDemux(1));
  auto mk = [](int ports, vector<Def> inner, vector<Def> last, int k, vector<int> st, int omit) { return [=](Ctx& c) { Graph g = closed(c, ports, inner, last, k, omit); int s = c.pick(st); run(c, g, inputs(s, ports), ports); }; };
  m.add("1 operator", mk(1, in, all, 1, {0, 1, 2, 3}, 0)); m.add("1 operator, omitted names", mk(1, in, all, 1, {1}, 3)); m.add("1 operator, 2 ports", mk(2, in, all, 1, {1, 3}, 0));
  m.add("2 operators", mk(1, in, all, 2, {1, 3}, 0)); m.add("2 operators, 2 ports", mk(2, in, in, 2, {3}, 1)); m.add("3 operators", mk(1, few, few, 3, {1}, 0)); m.add("3 operators deep", mk(2, few, few, 3, {1, 3}, 0), true);
  // every parameter of the functions that create inner operators, beyond the values used above
  vector<Def> par; for (uint64_t dt : {0, 1, 2, 1000}) for (int t : {-3, -2, -1, 0, 2, 3}) par.push_back(zoo::dShift(dt, t)); for (int n : {4, 5, 9, 33}) { par.push_back(zoo::dMA(n)); par.push_back(zoo::dStd(n)); } for (int n : {5, 7, 9}) par.push_back(zoo::dPeak(n)); for (int n : {4, 5, 7, 1000}) { par.push_back(zoo::dCos(n)); par.push_back(zoo::dHer(n)); }
  for (int n : {1, 4, 5, 9, 12}) { vector<double> w; for (int i = 0; i < n; i++) w.push_back(i % 3 - 1 + 0.25 * i); par.push_back(zoo::dFIR(w)); par.push_back(zoo::dAR(w)); } for (double v : {-1e300, -3.0, -0.0, 1e-300, 0.1, 123456789.0}) for (auto t : {"Add", "Scale", "Constant", "GreaterThan", "LessThan", "EqualTo"}) par.push_back(zoo::dVal(t, v)); for (double v : {-1.0, 0.5, 3.0}) par.push_back(zoo::dVal("Power", v)); for (double v : {-3.0, 0.0, 1e300}) par.push_back(zoo::dVariable(v)); for (int n : {3, 4, 5}) par.push_back(zoo::dDemux(n));
  m.add("every parameter", [par](Ctx& c) { Graph g = start(1); grow(c, g, par, "n1", 0); int l = (int)g.nodes.size() - 1, no = g.nodes[l].d.nout, o = g.node("out", zoo::dOutput(no)); for (int p = 1; p <= no; p++) g.edge(l, p, o, p); int s = c.pick(vector<int>{0, 1, 3}); auto in = inputs(s, 1); if (c.flip()) { auto more = in; uint64_t t = in.back().m.t; for (int r = 1; r < 5; r++) for (auto x : more) { x.m.t += r * (t - more[0].m.t + 1); in.push_back(x); } } run(c, g, in, 1); });
  // many ports: every port of the input, of the operator inside and of the output
  m.add("many ports", [](Ctx& c) { int n = c.pick(vector<int>{9, 10, 11, 12, 32}), kind = c.choose(4); Graph g = start(n); int l = 0; if (kind == 1) l = g.node("j", zoo::dJoin(n)); else if (kind == 2) { vector<double> w; for (int i = 0; i < n; i++) w.push_back(1 + i); l = g.node("j", zoo::dLinear(w)); } else if (kind == 3) l = g.node("j", zoo::dDemux(n));
    if (kind == 1 || kind == 2) for (int p = 1; p <= n; p++) g.edge(0, p, l, p); else if (kind == 3) { int mask = c.choose(3); for (int p = 1; p <= n; p++) { int k = g.node("k" + to_string(p), zoo::dVal("Constant", mask == 0 ? 1 : (p + mask) % 2)); g.edge(0, 1, k, 1); g.edge(k, 1, l, p, true); } g.edge(0, 1, l, 1); }
    int no = g.nodes[l].d.nout, rev = c.choose(2), o = g.node("out", zoo::dOutput(no)); for (int p = 1; p <= no; p++) g.edge(l, p, o, rev ? no + 1 - p : p); vector<In> in; for (uint64_t t = 1; t <= 3; t++) for (int p = 1; p <= n; p++) in.push_back({rev ? n + 1 - p : p, M{t, t * 100.0 + p}}); run(c, g, in, n); });
  m.add("two composites", [all](Ctx& c) { auto& da = c.pick(all); auto& db = c.pick(all); if (da.nin + da.nctl > 1 || db.nin + db.nctl > 1 || da.nctl || db.nctl) { Graph g = start(1); C x("x"); return; }
    auto one1 = [&](const string& pre, const Def& d) { Graph g; g.node(pre + "in", zoo::dInput(1)); g.node(pre + "op", d); g.node(pre + "out", zoo::dOutput(1)); g.edge(0, 1, 1, 1); g.edge(1, 1, 2, 1); return g; };
    Graph a = one1("a", da), b = one1("b", db); C ca("ca"), cb("cb"); build(ca, a); build(cb, b); Direct d1(a), d2(b); ca.connect(cb, "o1", "i1"); d1.ops["aout"]->connect(d2.ops["bin"].get(), "o1", "i1"); for (auto& x : inputs(c.choose(4), 1)) { c.step(); auto f1 = send(ca, x), f2 = send(*d1.ops["ain"], x); compare(c, a, x, f1, f2, "two composites in a row, the first"); c.state(hash(f1)); } });
  m.add("chains", [](Ctx& c) { Graph g = start(1); int n = c.choose(2) ? 20 : 7, prev = 0; auto k = c.pick(vector<vector<Def>>{{zoo::dVal("Add", 1)}, {zoo::dVal("Add", 1), zoo::dMA(2), zoo::dPlain("Count"), zoo::dShift(1, 1)}, {zoo::dPlain("CumulativeSum"), zoo::dVal("Scale", 0.5), zoo::dDiff()}}); for (int i = 0; i < n; i++) { int x = g.node("n" + to_string(100 - i), k[i % k.size()]); g.edge(prev, 1, x, 1); prev = x; } int o = g.node("out", zoo::dOutput(1)); g.edge(prev, 1, o, 1); run(c, g, inputs(c.choose(4), 1), 1); });
  return m.run();
}

#include "prog.h"
using namespace hx;
using rtbot::FactoryOp;
// one program with a declaration, one without; every step through receive or receiveDebug
static void runFilter(Ctx& c, Graph g, const vector<In>& in, const vector<std::pair<string, vector<string>>>& decl, int modes) {
  Graph plain = g; g.hasOutput = true; g.output.clear(); for (auto& [k, v] : decl) g.output[k] = v;
  string js = g.json(); c.log([&] { return "program " + js; });
  FactoryOp f; f.createProgram("all", plain.json()); f.createProgram("sel", js); f.createProgram("dbg", js);
  auto get = [](std::function<rtbot::ProgramMessage<uint64_t, double>()> fn, string& e) { Flat r; try { r = flat(fn()); } catch (std::exception& x) { e = x.what(); } return r; };
  for (size_t i = 0; i < in.size(); i++) {
    auto& x = in[i]; c.step(); string e0, e1, e2, e3; bool dbg = modes == 2 ? c.flip() : modes == 1 ? i % 2 : false; auto mm = one(x.port, x.m);
    Flat all = get([&] { return i % 2 ? f.processMessageMap("all", mm) : f.processMessageMapDebug("all", mm); }, e0), sel = get([&] { return dbg ? f.processMessageMapDebug("sel", mm) : f.processMessageMap("sel", mm); }, e1), db = get([&] { return f.processMessageMapDebug("dbg", mm); }, e2);
    Flat want; for (auto& [k, v] : all) { auto p = k.rfind(':'); string id = k.substr(0, p), port = k.substr(p + 1); auto it = g.output.find(id); if (it != g.output.end() && std::find(it->second.begin(), it->second.end(), port) != it->second.end()) want[k] = v; }
    c.log([&] { return string(dbg ? "debug " : "") + what(false, x.port, x.m) + " -> " + (e1.empty() ? hx::str(sel) : e1); });
    c.check(e0 == e1 && e0 == e2, "errors", [&] { return "errors differ: '" + e0 + "' '" + e1 + "' '" + e2 + "'"; });
    c.check(exact(all, db), "debug", [&] { return "program " + js + "\n  debug processing of " + what(false, x.port, x.m) + " returned " + hx::str(db) + ", everything emitted is " + hx::str(all); });
    c.check(exact(dbg ? all : want, sel), dbg ? "debug" : "selection", [&] { return "program " + js + "\n  processing " + what(false, x.port, x.m) + (dbg ? " (debug)" : "") + " returned " + hx::str(sel) + ", the declaration selects " + hx::str(dbg ? all : want) + " of " + hx::str(all); });
    c.outcome(hash(sel)); c.state(mc::mix(hash(all), i));
  }
}
// a declaration: any subset of the ports of the program
static vector<std::pair<string, vector<string>>> anyDecl(Ctx& c, const Graph& g, int& extra) {
  std::map<string, vector<string>> d; bool any = false;
  for (auto& n : g.nodes) { int m = c.choose(1 << n.d.nout); for (int p = 0; p < n.d.nout; p++) if (m >> p & 1) { d[n.id].push_back("o" + to_string(p + 1)); any = true; } }
  extra = c.choose(any ? 4 : 3);
  if (extra == 1) d["nobody"].push_back("o1"); else if (extra == 2 || !any) d[g.nodes.back().id].push_back("o9"); else if (extra == 3) { auto& v = d.begin()->second; v.push_back(v[0]); if (v.size() > 2) std::swap(v[0], v[1]); }
  return {d.begin(), d.end()};
}
static std::function<void(Ctx&)> graphs(int ports, vector<Def> inner, vector<Def> last, int k, vector<int> streams, int modes) {
  return [=](Ctx& c) { Graph g = start(ports); for (int i = 0; i < k; i++) grow(c, g, i + 1 == k ? last : inner, "n" + to_string(i + 1), 0); int s = c.pick(streams), ex; auto d = anyDecl(c, g, ex); auto in = inputs(s, ports); in.resize(6); runFilter(c, g, in, d, modes); };
}
int main(int argc, char** argv) {
  mc::Main m; m.property = "C24";
  m.bounds = "EVERY program graph of 1..3 operators (alphabets as for C22) with EVERY subset of its operator ports as the output declaration, plus declarations that also name unknown operators, unknown ports or a port twice; plain and debug processing in every order over short streams, alternating over longer ones; batches on every interface; programs of 71 and 131 operators with declarations of one, all but one, and all of them, and of the 40 ports of one operator";
  m.parse(argc, argv);
  auto in = exactOps(), la = lastOps(), few = fewOps(); for (auto& d : pipelines()) la.push_back(d);
  m.add("1 operator", graphs(1, in, la, 1, {1, 3}, 1)); m.add("1 operator, 2 entry ports", graphs(2, in, la, 1, {1, 3}, 1));
  m.add("2 operators", graphs(1, few, few, 2, {1}, 1)); m.add("2 operators, 2 entry ports", graphs(2, {zoo::dMA(2), zoo::dJoin(2)}, few, 2, {3}, 1)); m.add("2 operators deep", graphs(1, in, la, 2, {1}, 0), true);
  m.add("3 operators", graphs(1, {zoo::dMA(2), zoo::dPlain("Minus")}, few, 3, {1}, 1)); m.add("3 operators deep", graphs(1, few, few, 3, {1}, 1), true);
  m.add("every mixture of plain and debug", [](Ctx& c) { Graph g = start(1); int a = g.node("a", zoo::dMA(2)), b = g.node("b", zoo::dJoin(2)); g.edge(0, 1, a, 1); g.edge(a, 1, b, 1); g.edge(0, 1, b, 2); int ex; auto d = anyDecl(c, g, ex); auto in = inputs(c.choose(2) ? 3 : 1, 1); in.resize(6); runFilter(c, g, in, d, 2); });
  // many operators, long declarations: all operators but one, only one, all in the order of the declaration
  m.add("long declarations", [](Ctx& c) { int n = c.pick(vector<int>{70, 130}); Graph g = start(1); int prev = 0; for (int i = 1; i <= n; i++) { int x = g.node("n" + to_string(i), i % 3 ? zoo::dVal("Add", 1) : zoo::dDiff()); g.edge(i % 10 ? 0 : prev, 1, x, 1); prev = x; } int w = g.node("wide", zoo::dOutput(40)); for (int p = 1; p <= 40; p++) g.edge(1 + p, 1, w, p);
    int kind = c.choose(4), k = kind == 1 || kind == 2 ? c.choose(n + 1) : 0; std::map<string, vector<string>> d; for (int i = 0; i <= n; i++) if (kind == 0 || (kind == 1) == (i != k) || kind == 3) d[g.nodes[i].id] = {"o1"}; if (kind == 3) for (int p = 40; p >= 1; p -= 1) d["wide"].push_back("o" + to_string(p)); else if (kind == 0) for (int p = 1; p <= 40; p += 2) d["wide"].push_back("o" + to_string(p));
    auto in = inputs(1, 1); in.resize(3); runFilter(c, g, in, {d.begin(), d.end()}, 1); });
  // batches: every split of the stream, each part processed through one of the interfaces
  m.add("batches", [](Ctx& c) { Graph g = start(1); auto d = c.pick(vector<Def>{zoo::dMA(2), zoo::dVal("GreaterThan", 0), zoo::dConstRes(1)}); int a = g.node("a", d), b = g.node("b", zoo::dJoin(2)); g.edge(0, 1, a, 1); g.edge(a, 1, b, 1); g.edge(0, 1, b, 2);
    Graph plain = g; g.hasOutput = true; int mask = 1 + c.choose(15); if (mask & 1) g.output["in"] = {"o1"}; if (mask & 2) g.output["a"] = {"o1"}; if (mask & 4) g.output["b"].push_back("o2"); if (mask & 8) g.output["b"].push_back("o1");
    FactoryOp f; f.createProgram("all", plain.json()); f.createProgram("sel", g.json()); auto in = inputs(1, 1); in.resize(5); Flat all, sel; bool dbg = false; auto addTo = [](Flat& f, const Flat& x) { hx::add(f, x); };
    size_t i = 0; while (i < in.size()) { size_t n = 1 + c.choose((int)std::min<size_t>(3, in.size() - i)); MMap mm; for (size_t k = i; k < i + n; k++) mm["i1"].push_back(zoo::Msg(in[k].m.t, in[k].m.v)); i += n; c.step(); Flat x = flat(f.processMessageMapDebug("all", mm)), want, got;
      bool buf = c.flip(), dbg = c.flip(); if (buf) { for (auto& q : mm["i1"]) f.addToMessageBuffer("sel", "i1", q); got = flat(dbg ? f.processMessageBufferDebug("sel") : f.processMessageBuffer("sel")); } else got = flat(dbg ? f.processMessageMapDebug("sel", mm) : f.processMessageMap("sel", mm));
      if (dbg) want = x; else for (auto& [k, v] : x) { auto p = k.rfind(':'); auto it = g.output.find(k.substr(0, p)); if (it != g.output.end() && std::find(it->second.begin(), it->second.end(), k.substr(p + 1)) != it->second.end()) want[k] = v; }
      c.check(exact(want, got), "selection of a batch", [&] { return "program " + g.json() + "\n  a " + string(dbg ? "debug " : "") + (buf ? "buffer" : "batch") + " of " + to_string(n) + " messages returned " + hx::str(got) + ", selected were " + hx::str(want); }); c.outcome(hash(got)); c.state(mc::mix(hash(x), i)); } });
  return m.run();
}

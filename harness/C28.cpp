#include "prog.h"
using namespace hx;
using P2 = std::pair<int, int>;
// a pipeline's inner graph: inputs that no inner connection feeds are its inputs, outputs that feed nothing are its outputs
struct Inner {
  vector<Node> nodes; vector<Edge> edges; vector<std::pair<string, string>> ins, outs;  // (operator, port) in the pipeline's port order
  void close() {
    std::map<string, std::pair<string, string>> i, o; std::set<string> ui, uo; for (auto& e : edges) { if (!e.ctl) ui.insert(nodes[e.b].id + ":i" + to_string(e.ip)); uo.insert(nodes[e.a].id + ":o" + to_string(e.op)); }
    for (auto& n : nodes) { for (int p = 1; p <= n.d.nin; p++) { string k = n.id + ":i" + to_string(p); if (!ui.count(k)) i[k] = {n.id, "i" + to_string(p)}; } for (int p = 1; p <= n.d.nout; p++) { string k = n.id + ":o" + to_string(p); if (!uo.count(k)) o[k] = {n.id, "o" + to_string(p)}; } }
    for (auto& [k, v] : i) ins.push_back(v); for (auto& [k, v] : o) outs.push_back(v);
  }
  string edge(const Edge& e, const string& pre) const { return con(pre + nodes[e.a].id, pre + nodes[e.b].id, (e.omit & 1) && pre.empty() ? "" : "o" + to_string(e.op), (e.omit & 2) && pre.empty() ? "" : (e.ctl ? "c" : "i") + to_string(e.ip)); }
  void list(const string& pre, vector<string>& ops, vector<string>& cons) const { for (auto& n : nodes) ops.push_back(n.d.json(pre + n.id)); for (auto& e : edges) cons.push_back(edge(e, pre)); }
  string json() const { vector<string> o, c; list("", o, c); return prog(o, c); }
};
static Inner anyInner(Ctx& c, int k, const vector<Def>& alphabet, int maxIn, int maxOut, int naming) {
  Inner g; static const char* names[3][4] = {{"m", "b", "z", "k"}, {"m:", "a:b:i1", ":", "::k"}, {"m n", "M", "\u00e9,x", "m n 2"}}; auto& ids = names[naming];
  for (int i = 0; i < k; i++) { const Def& d = c.pick(alphabet); int n = (int)g.nodes.size(); vector<Src> src; for (int a = 0; a < n; a++) for (int p = 1; p <= g.nodes[a].d.nout; p++) src.push_back({a, p});
    g.nodes.push_back({ids[i], d}); for (int p = 1; p <= d.nin; p++) { int s = c.choose((int)src.size() + 1); if (s < (int)src.size()) g.edges.push_back({src[s].n, src[s].p, n, false, p, (g.nodes[src[s].n].d.nout == 1 ? 1 : 0) | (d.nin + d.nctl == 1 ? 2 : 0)}); }
    for (int p = 1; p <= d.nctl; p++) { if (src.empty()) throw mc::Skip{}; auto& s = c.pick(src); g.edges.push_back({s.n, s.p, n, true, p, 0}); } }
  g.close(); if ((int)g.ins.size() > maxIn || (int)g.outs.size() > maxOut || g.outs.empty()) throw mc::Skip{};
  return g;
}
// outer program: in -> pipeline(s) -> followers -> join; with the pipeline as an operator, or with its operators in place
struct Outer { vector<string> ops, cons; string json(const string& entry) const { return "{\"entryOperator\":\"" + entry + "\"," + prog(ops, cons).substr(1); } };
static void follow(Outer& o, const vector<std::pair<string, string>>& outs, int follower, const string& pre = "f") {
  for (size_t i = 0; i < outs.size(); i++) { string f = pre + to_string(i + 1); int k = (follower + (int)i) % 4; o.ops.push_back(k == 0 ? op("CumulativeSum", f) : k == 1 ? op("Output", f) : k == 2 ? op("MovingAverage", f, "\"n\":2") : op("Count", f)); o.cons.push_back(con(outs[i].first, f, outs[i].second, "i1")); }
  if (outs.size() >= 2) { o.ops.push_back(op("Join", pre + "j")); for (int i : {0, 1}) o.cons.push_back(con(outs[i].first, pre + "j", outs[i].second, "i" + to_string(i + 1))); }
}
static Flat outside(const Flat& f, const string& pre) { Flat r; for (auto& [k, v] : f) if (k.compare(0, pre.size(), pre)) r[k] = v; return r; }
static void compare(Ctx& c, const string& j1, const string& j2, const vector<In>& in) {
  c.log([&] { return "with pipeline " + j1 + "\ninline " + j2; }); auto a = rtbot::FactoryOp::createProgram(j1), b = rtbot::FactoryOp::createProgram(j2); uint64_t h = 1;
  for (auto& x : in) { c.step(); Flat f1, f2; string e1, e2; try { f1 = outside(flat(a.receiveDebug(one(x.port, x.m))), "PP"); } catch (std::exception& e) { e1 = e.what(); } try { f2 = outside(flat(b.receiveDebug(one(x.port, x.m))), "PP"); } catch (std::exception& e) { e2 = e.what(); }
    c.log([&] { return what(false, x.port, x.m) + " -> " + (e1.empty() ? hx::str(f1) : e1); });
    c.check(e1.empty() == e2.empty() && exact(f1, f2), "pipeline", [&] { return "after " + what(false, x.port, x.m) + " the program with the pipeline emits " + (e1.empty() ? hx::str(f1) : e1) + "\n  the same program with the operators in place emits " + (e2.empty() ? hx::str(f2) : e2) + "\n  with pipeline: " + j1 + "\n  in place: " + j2; }); h = mc::mix(h, hash(f1)); c.outcome(hash(f1)); c.state(h); if (!e1.empty()) return; }
}
// instances: 1 = one pipeline, 2 = two instances in a row, 3 = two instances side by side; nest: how many pipelines around the inner graph
static void run(Ctx& c, const Inner& g, int ports, int instances, int nest, const vector<In>& in, int follower) {
  Outer a, b; for (auto* o : {&a, &b}) o->ops.push_back(op("Input", "in", "\"numPorts\":" + to_string(ports)));
  string pj = g.json(); for (int i = 0; i < nest; i++) pj = prog({op("Pipeline", "q", "\"prog\":" + pj)}, {});
  auto place = [&](const string& id, vector<std::pair<string, string>> fa, vector<std::pair<string, string>> fb, vector<std::pair<string, string>>& oa, vector<std::pair<string, string>>& ob) {
    a.ops.push_back(op("Pipeline", id, "\"prog\":" + pj)); vector<string> o2, c2; g.list(id + ".", o2, c2); for (auto& x : o2) b.ops.push_back(x); for (auto& x : c2) b.cons.push_back(x);
    for (size_t i = 0; i < g.ins.size(); i++) { a.cons.push_back(con(fa[i].first, id, fa[i].second, "i" + to_string(i + 1))); b.cons.push_back(con(fb[i].first, id + "." + g.ins[i].first, fb[i].second, g.ins[i].second)); }
    for (size_t i = 0; i < g.outs.size(); i++) { oa.push_back({id, "o" + to_string(i + 1)}); ob.push_back({id + "." + g.outs[i].first, g.outs[i].second}); } };
  using L = vector<std::pair<string, string>>; auto feed = [&](const L& src) { L f; for (size_t i = 0; i < g.ins.size(); i++) f.push_back(src[i % src.size()]); return f; };
  L e; for (int p = 1; p <= ports; p++) e.push_back({"in", "o" + to_string(p)}); L oa, ob, oa2, ob2; place("PP1", feed(e), feed(e), oa, ob);
  if (instances == 2) { place("PP2", feed(oa), feed(ob), oa2, ob2); follow(a, oa2, follower, "g"); follow(b, ob2, follower, "g"); }
  if (instances == 3) { L r(e.rbegin(), e.rend()); place("PP2", feed(r), feed(r), oa2, ob2); follow(a, oa2, follower, "g"); follow(b, ob2, follower, "g"); }
  if (instances == 4) { L sa = {{"pre", "o1"}}; for (auto* o : {&a, &b}) { o->ops.push_back(op("GreaterThan", "pre", "\"value\":0")); o->cons.push_back(con("in", "pre", "o1", "i1")); } place("PP2", feed(sa), feed(sa), oa2, ob2); follow(a, oa2, follower, "g"); follow(b, ob2, follower, "g"); }
  follow(a, oa, follower); follow(b, ob, follower); compare(c, a.json("in"), b.json("in"), in);
}
int main(int argc, char** argv) {
  mc::Main m; m.property = "C28";
  m.bounds = "EVERY pipeline of 1..2 operators (all types; 3 from a small alphabet) with every wiring and every choice of free inputs (up to 3) and outputs (up to 4); one instance, two in a row, two side by side and two with different inputs; nested up to 3 deep; followed by stateful operators; 1-2 entry ports; streams of 8-14 messages, special values and long silences included; several connections into one pipeline port; inner operators of up to 23 ports; up to 300 messages emitted at once or waiting";
  m.assumptions = {"pipelines have fewer than ten inputs and outputs and no free control input", "a run ends where a Demultiplexer refuses a control value other than 0 and 1 (both programs must refuse it)"};
  m.parse(argc, argv);
  auto few = fewOps(); vector<Def> all = lastOps(); for (auto& d : zoo::unary()) all.push_back(d); auto mid = exactOps();
  auto mk = [](int k, vector<Def> al, int ports, vector<int> inst, vector<int> nests, vector<int> st, int fol, int naming = 0) { return [=](Ctx& c) { Inner g = anyInner(c, k, al, 3, 4, naming); int i = c.pick(inst), n = c.pick(nests), s = c.pick(st), f = c.choose(fol); run(c, g, ports, i, n, inputs(s, ports), f); }; };
  m.add("1 operator", mk(1, all, 1, {1, 2, 3, 4}, {0, 1, 3}, {0, 1, 2, 3, 4, 5}, 4)); m.add("1 operator, 2 entry ports", mk(1, all, 2, {1, 2, 3, 4}, {0, 2}, {1, 3, 4}, 2));
  m.add("2 operators", mk(2, mid, 1, {1, 2, 3, 4}, {0, 1}, {1, 3, 4}, 4)); m.add("2 operators, 2 entry ports", mk(2, mid, 2, {1, 3}, {0, 1}, {1, 3}, 2)); m.add("3 operators", mk(3, few, 1, {1, 2, 3, 4}, {0, 2}, {1, 3}, 2)); m.add("2 operators deep", mk(2, all, 2, {1, 2, 3, 4}, {0, 1}, {1, 3}, 1), true); m.add("3 operators deep", mk(3, few, 2, {1, 2, 3, 4}, {0, 2}, {3}, 2), true);
  // ids of any form: with the colon that separates operator and port elsewhere, with blanks and other characters
  for (int n : {1, 2}) { string w = n == 1 ? ", ids with colons" : ", other ids"; m.add("1 operator" + w, mk(1, all, 1, {1, 3}, {0, 2}, {1, 3}, 1, n)); m.add("2 operators" + w, mk(2, mid, 1, {1}, {0, 1}, {3}, 1, n)); }
  // an inner operator with many ports: any one, two or nine neighbouring ones of them are free, the others feed operators inside; the pipeline's outputs keep the order of the inner names
  m.add("inner operator with many ports", [](Ctx& c) { int n = c.pick(vector<int>{3, 10, 12, 23}), first = 1 + c.choose(n), len = c.pick(vector<int>{1, 2, 8}), kind = c.choose(3); if (first + len - 1 > n) throw mc::Skip{}; Inner g; auto d = kind == 0 ? zoo::dOutput(n) : kind == 1 ? zoo::dInput(n) : zoo::dJoin(n);
    g.nodes.push_back({"src", zoo::dPlain("Identity")}); g.nodes.push_back({"w", d}); for (int p = 1; p <= n; p++) { g.nodes.push_back({"a" + to_string(p), zoo::dVal("Add", p)}); g.edges.push_back({0, 1, p + 1, false, 1, 0}); g.edges.push_back({p + 1, 1, 1, false, p, 0}); }
    g.nodes.push_back({"z", zoo::dPlain("Count")}); for (int p = 1; p <= n; p++) if (p < first || p >= first + len) g.edges.push_back({1, p, (int)g.nodes.size() - 1, false, 1, 0}); g.close(); run(c, g, 1, c.pick(vector<int>{1, 2, 3}), c.choose(2), inputs(c.choose(4), 1), 2); });
  // many messages at once
  m.add("bursts", [](Ctx& c) { auto d = c.pick(vector<Def>{zoo::dConstRes(1), zoo::dCos(1), zoo::dHer(1), zoo::dConstRes(3)}); auto d2 = c.pick(fewOps()); if (d2.nin + d2.nctl > 1) throw mc::Skip{}; Inner g; g.nodes = {{"m", d}, {"b", d2}}; g.edges = {{0, 1, 1, false, 1, 0}}; g.close(); vector<In> in; uint64_t t = 1; for (int i = 0; i < 5; i++) { t += c.pick(vector<int>{1, 40, 300}); in.push_back({1, M{t, (i % 2 ? -1 : 1) * (i + 0.5)}}); } run(c, g, 1, c.pick(vector<int>{1, 2}), c.choose(2), in, 1); });
  m.add("backlogs", [](Ctx& c) { auto d = c.pick(vector<Def>{zoo::dJoin(2), zoo::dPlain("Minus"), zoo::dVariable(0.5)}); Inner g; g.nodes = {{"m", d}}; if (d.nctl) { g.nodes = {{"b", zoo::dPlain("Identity")}, {"a", d}}; g.edges = {{0, 1, 1, true, 1, 0}}; } g.close(); int n = c.pick(vector<int>{2, 40, 300}), first = 1 + c.choose(2); vector<In> in; for (int p : {first, 3 - first}) for (int i = 1; i <= n; i++) in.push_back({p, M{(uint64_t)(p == first ? i : 2 * i), i * 0.5}}); run(c, g, 2, c.pick(vector<int>{1, 2, 3}), c.choose(2), in, 1); });
  // several connections into one port of the pipeline
  m.add("merged into a pipeline", [](Ctx& c) { auto mid = c.pick(vector<string>{op("Identity", "b"), op("Add", "b", "\"value\":100"), op("GreaterThan", "b", "\"value\":0"), op("TimeShift", "b", "\"dt\":1")}); auto st = c.pick(vector<string>{op("Add", "PP.s", "\"value\":1"), op("MovingAverage", "PP.s", "\"n\":2"), op("CumulativeSum", "PP.s"), op("Count", "PP.s"), op("Output", "PP.s")}); int ord = c.choose(6); bool nest = c.flip();
    string inner = prog({st, op("Scale", "PP.t", "\"value\":2")}, {con("PP.s", "PP.t")}); if (nest) inner = prog({op("Pipeline", "q", "\"prog\":" + inner)}, {}); vector<string> ca = {con("in", "b"), con("in", "PP", "o1", "i1"), con("b", "PP", "o1", "i1")}, cb = {con("in", "b"), con("in", "PP.s", "o1", "i1"), con("b", "PP.s", "o1", "i1")}; vector<int> p = {0, 1, 2}; for (int i = 0; i < ord; i++) std::next_permutation(p.begin(), p.end()); Outer x, y; for (int i : p) { x.cons.push_back(ca[i]); y.cons.push_back(cb[i]); }
    x.ops = {op("Input", "in"), mid, op("Pipeline", "PP", "\"prog\":" + inner), op("Output", "f")}; y.ops = {op("Input", "in"), mid, st, op("Scale", "PP.t", "\"value\":2"), op("Output", "f")}; x.cons.push_back(con("PP", "f", "o1", "i1")); y.cons.push_back(con("PP.s", "PP.t")); y.cons.push_back(con("PP.t", "f", "o1", "i1")); compare(c, x.json("in"), y.json("in"), inputs(c.choose(4), 1)); });
  return m.run();
}

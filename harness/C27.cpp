#include "prog.h"
#include <cfloat>
using namespace hx;
using json = nlohmann::json; using rtbot::FactoryOp;
static string portsOf(zoo::Op& o) { string s; for (auto& v : {o.getDataInputs(), o.getControlInputs(), o.getOutputs()}) { for (auto& p : v) s += p + " "; s += "| "; } return s; }
static Flat feedAll(zoo::Op& o, bool ctl, int p, M m, string& e) { try { return flat(sendAll(o, ctl, p, m)); } catch (std::exception& x) { e = x.what(); return {}; } }
static vector<string> ids() { return {"x", "op-1", "with space", "quote\"back\\slash", "\xc3\xa9\xe2\x82\xac", "a:b", "0"}; }
// the streams an operator is compared on: numbers of messages large enough for its window
static void behave(Ctx& c, const Def& d, vector<zoo::Op*> os, const string& text, int stream) {
  int np = d.nin + d.nctl, len = 10; auto j = json::parse(d.json("q")); if (j.contains("n")) len = (int)std::min<size_t>(j["n"].get<size_t>() + 6, 140); if (j.contains("coeff")) len = (int)j["coeff"].size() + 6;
  static const double val[] = {1, -2, 1.5, 0.1, 3, -1, 0, 4, 1e17, 0.5}; static const uint64_t gap[] = {1, 1, 2, 5, 1, 3, 1, 11, 1}; uint64_t t = stream == 2 ? 1ull << 60 : 1; uint64_t h = 1; if (j.contains("value")) len = 16;
  for (int i = 0; i < len; i++) { t += stream ? gap[i % 9] : 1; for (int p = 0; p < np; p++) { double v = d.type == "Demultiplexer" ? (p + i) % 2 : val[(i + p) % 10]; if (stream == 1 && j.contains("value") && j["value"].is_number() && i % 3 == 0) v = j["value"].get<double>(); if (stream == 1 && j.contains("points")) v = i * 0.37 - 1; if (np > 1 && stream == 1 && i % 4 == p) continue; if (d.type == "Demultiplexer" && stream == 1) continue;
      bool ctl = p >= d.nin; int port = ctl ? p - d.nin + 1 : p + 1; c.step(); string e0; Flat f0 = feedAll(*os[0], ctl, port, M{t, v}, e0); h = mc::mix(h, hash(f0));
      for (size_t k = 1; k < os.size(); k++) { string e; Flat f = feedAll(*os[k], ctl, port, M{t, v}, e); c.check(e == e0 && exact(f, f0), "behaviour", [&] { return text + "\n  after " + what(ctl, port, M{t, v}) + (k == 1 ? " the operator read from JSON" : " the operator read back from its written JSON") + " emits " + hx::str(f) + e + ", the original " + hx::str(f0) + e0; }); } } }
  c.outcome(h); c.state(h);
}
static void run(Ctx& c, const Def& d) {
  string id = c.pick(ids()); int stream = c.choose(3); json hand = {{"type", d.type}, {"id", id}}; { auto b = json::parse("{\"type\":\"\"" + d.params + "}"); for (auto& [k, v] : b.items()) if (k != "type") hand[k] = v; }
  auto direct = d.real(id); string text = d.name; auto a = FactoryOp::readOp(hand.dump()); string w1 = FactoryOp::writeOp(direct), w2 = FactoryOp::writeOp(a); auto b = FactoryOp::readOp(w1); string w3 = FactoryOp::writeOp(b); auto b2 = FactoryOp::readOp(w2);
  c.log([&] { return hand.dump() + "\nwritten as " + w1; });
  c.check(w1 == w2 && w1 == w3, "written JSON", [&] { return text + " is written as\n  " + w1 + "\n  and, read from " + hand.dump() + ", as\n  " + w2 + "\n  and after reading back as\n  " + w3; });
  auto j = json::parse(w1); c.check(j.value("type", "") == d.type && j.value("id", "") == id, "type or id", [&] { return text + " with id " + id + " is written as " + w1; });
  for (auto [k, v] : hand.items()) { if (k == "points") { for (auto* x : {&v, &j[k]}) std::sort(x->begin(), x->end()); } c.check(j.contains(k) && j[k] == v, "parameter", [&] { return text + ": parameter " + k + " = " + v.dump() + " is written as " + (j.contains(k) ? j[k].dump() : string("nothing")); }); }
  for (auto* o : {a.get(), b.get(), b2.get()}) c.check(o->typeName() == direct->typeName() && o->id == id && portsOf(*o) == portsOf(*direct), "ports", [&] { return text + ": type, id and ports are " + direct->typeName() + " " + id + " " + portsOf(*direct) + ", after JSON " + o->typeName() + " " + o->id + " " + portsOf(*o); });
  behave(c, d, {direct.get(), a.get(), b.get()}, text + " " + w1, stream);
}
int main(int argc, char** argv) {
  mc::Main m; m.property = "C27";
  m.bounds = "every operator type (pipelines included) x a grid of parameter values (fractional, negative, tiny, huge, integer-valued, every n and number of ports up to 20) x 7 ids (quotes, unicode, colon) x 3 streams; direct construction, hand-written JSON, written JSON and read-back operator compared; omitted optional parameters; whole programs; nested pipelines";
  m.parse(argc, argv);
  vector<Def> all = zoo::unary(); vector<double> vals = {0, 1, -1, 2.5, -2.5, 0.1, 1.0 / 3, 1e-300, 1e300, -1e17, 123456789.125, DBL_MAX, DBL_MIN, 4.9e-324, 9007199254740993.0, 0.5};
  for (auto& t : {"Add", "Scale", "Power", "Constant", "GreaterThan", "LessThan", "EqualTo"}) for (double v : vals) all.push_back(zoo::dVal(t, v)); for (double v : vals) all.push_back(zoo::dVariable(v));
  for (int n : {1, 2, 3, 4, 5, 7, 9, 10, 11, 20, 100}) { all.push_back(zoo::dMA(n)); all.push_back(zoo::dStd(n)); all.push_back(zoo::dPeak(n)); all.push_back(zoo::dRSI(n)); all.push_back(zoo::dConstRes(n)); all.push_back(zoo::dCos(n)); all.push_back(zoo::dHer(n)); }
  for (int n : {70000, 2147483647}) { all.push_back(zoo::dMA(n)); all.push_back(zoo::dPeak(n)); } for (uint64_t dt : {1ull << 31, (1ull << 32) + 5, 1ull << 53, (1ull << 53) + 1, 1ull << 62}) { all.push_back(zoo::dConstRes(dt)); all.push_back(zoo::dCos(dt)); all.push_back(zoo::dHer(dt)); all.push_back(zoo::dShift(dt, 1)); }
  for (int t : {0, 1, -1, 3, -4}) for (uint64_t dt : {1, 2, 9}) all.push_back(zoo::dShift(dt, t)); for (int n = 1; n <= 20; n++) { all.push_back(zoo::dInput(n)); all.push_back(zoo::dOutput(n)); all.push_back(zoo::dDemux(n)); if (n > 1) all.push_back(zoo::dJoin(n)); vector<double> co; for (int i = 0; i < n; i++) co.push_back(vals[i % vals.size()] == DBL_MAX ? 3 : vals[i % vals.size()] * (i + 1)); all.push_back(zoo::dFIR(co)); all.push_back(zoo::dAR(co)); if (n > 1) all.push_back(zoo::dLinear(co)); }
  for (auto& d : zoo::multi()) all.push_back(d); vector<std::pair<double, double>> pts = {{-1.5, 0.1}, {0, 1.0 / 3}, {2, 1e10}, {0.5, -7}, {3.25, 0}}; for (int n = 2; n <= 5; n++) for (bool h : {false, true}) all.push_back(zoo::dFunction({pts.begin(), pts.begin() + n}, h)); for (auto& d : pipelines()) all.push_back(d);
  std::set<string> seen; for (auto& d : all) if (seen.insert(d.name).second) m.add(d.name, [d](Ctx& c) { run(c, d); });
  // optional parameters left out: what is written reads back the same
  m.add("omitted parameters", [](Ctx& c) { struct O { const char *js, *full; }; static const vector<O> os = {{R"({"type":"Input","id":"x"})", R"({"type":"Input","id":"x","numPorts":1})"}, {R"({"type":"Output","id":"x"})", R"({"type":"Output","id":"x","numPorts":1})"}, {R"({"type":"Demultiplexer","id":"x"})", R"({"type":"Demultiplexer","id":"x","numPorts":1})"}, {R"({"type":"Join","id":"x"})", R"({"type":"Join","id":"x","numPorts":2})"},
      {R"({"type":"Variable","id":"x"})", R"({"type":"Variable","id":"x","value":0})"}, {R"({"type":"TimeShift","id":"x"})", R"({"type":"TimeShift","id":"x","dt":1,"times":1})"}, {R"({"type":"TimeShift","id":"x","dt":7})", R"({"type":"TimeShift","id":"x","dt":7,"times":1})"}, {R"({"type":"TimeShift","id":"x","times":-2})", R"({"type":"TimeShift","id":"x","dt":1,"times":-2})"}, {R"({"type":"Difference","id":"x"})", R"({"type":"Difference","id":"x","useOldestTime":true})"}, {R"({"type":"Function","id":"x","points":[[0,0],[1,2],[4,3]]})", R"({"type":"Function","id":"x","points":[[0,0],[1,2],[4,3]],"interpolationType":"linear"})"}};
    auto& o = c.pick(os); auto a = FactoryOp::readOp(o.js), b = FactoryOp::readOp(o.full); string w = FactoryOp::writeOp(a); auto r = FactoryOp::readOp(w); auto jw = json::parse(w), jf = json::parse(o.full); c.check(w == FactoryOp::writeOp(b) && w == FactoryOp::writeOp(r) && jw["type"] == jf["type"] && jw["id"] == jf["id"], "omitted parameter", [&] { return string(o.js) + " is written as " + w + ", with the default spelled out as " + FactoryOp::writeOp(b); });
    Def d = {"", jf["type"], "", (int)a->getNumDataInputs(), (int)a->getNumControlInputs(), 0, nullptr, nullptr}; behave(c, d, {a.get(), b.get(), r.get()}, o.js, c.choose(3)); });
  // Difference as JSON with both settings
  m.add("Difference settings", [](Ctx& c) { bool f = c.flip(); auto d = zoo::dDiff(f); string js = string(R"({"type":"Difference","id":"x","useOldestTime":)") + (f ? "true}" : "false}"); auto a = d.real("x"); auto b = FactoryOp::readOp(js); string w = FactoryOp::writeOp(b); auto r = FactoryOp::readOp(w); c.check(w == FactoryOp::writeOp(a), "written JSON", [&] { return js + " is written as " + w; }); behave(c, d, {a.get(), b.get(), r.get()}, js, c.choose(3)); });
  // the operators of a program, written as JSON, make the same program again
  m.add("programs", [](Ctx& c) { Graph g = start(1 + c.choose(2)); int k = 2; auto la = lastOps(), in = exactOps(); for (int i = 0; i < k; i++) grow(c, g, i + 1 == k ? la : in, "n" + to_string(i), 0); auto p = FactoryOp::createProgram(g.json()); string w = p.getProgram(); auto j = json::parse(g.json()); j["operators"] = json::parse(w); auto q = FactoryOp::createProgram(j.dump());
    c.check(j["operators"].size() == g.nodes.size() && q.getProgram() == w, "program", [&] { return g.json() + "\n  written as " + w; }); uint64_t h = 1;
    for (auto& x : inputs(1 + 2 * c.choose(2), g.nodes[0].d.nin)) { c.step(); Flat a, b; string ea, eb; try { a = flat(p.receiveDebug(one(x.port, x.m))); } catch (std::exception& e) { ea = e.what(); } try { b = flat(q.receiveDebug(one(x.port, x.m))); } catch (std::exception& e) { eb = e.what(); } c.check(ea == eb && exact(a, b), "program behaviour", [&] { return g.json() + "\n  rebuilt from its written operators emits " + hx::str(b) + eb + ", the original " + hx::str(a) + ea; }); h = mc::mix(h, hash(a)); } c.outcome(h); c.state(h); });
  return m.run();
}

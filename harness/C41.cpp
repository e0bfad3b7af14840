#include "api.h"
#include "exported.h"
using namespace hx;
// Every sequence of calls through a wrapper module (the project's own module definitions, over stand-ins for pybind11 and embind),
// against the same calls of the engine's functions on programs of their own.
using Args = json;
static string withFilter(const string& out) { return "{\"title\":\"t\",\"author\":\"a\",\"license\":\"l\",\"version\":\"v\",\"date\":\"2023-01-01\",\"apiVersion\":\"v1\"," + out + "\"entryOperator\":\"in\",\"operators\":[{\"type\":\"Input\",\"id\":\"in\",\"numPorts\":2},{\"type\":\"CumulativeSum\",\"id\":\"s\"},{\"type\":\"Join\",\"id\":\"j\",\"numPorts\":2}],\"connections\":[{\"from\":\"in\",\"to\":\"s\",\"fromPort\":\"o1\",\"toPort\":\"i1\"},{\"from\":\"s\",\"to\":\"j\",\"fromPort\":\"o1\",\"toPort\":\"i1\"},{\"from\":\"in\",\"to\":\"j\",\"fromPort\":\"o2\",\"toPort\":\"i2\"}]}"; }
static const vector<string>& progs() { static vector<string> v = {withFilter("\"output\":{\"j\":[\"o2\"]},"), withFilter(""), "{\"entryOperator\":\"c\",\"operators\":[{\"type\":\"Count\",\"id\":\"c\"}],\"connections\":[]}", withFilter("\"entryOperators\":3,"), "{\"operators\":[]}", "no json"}; return v; }
static json direct(const string& f, const Args& a) {
  auto s = [&](int i) { return a.at(i).get<string>(); }; auto num = [](const json& j) { return j.is_null() ? std::nan("") : j.get<double>(); };
  if (f == "validate") return validate(s(0)); if (f == "validateOperator") return validateOperator(s(0), s(1)); if (f == "createProgram") return createProgram(s(0), s(1)); if (f == "deleteProgram") return deleteProgram(s(0));
  if (f == "addToMessageBuffer") return addToMessageBuffer(s(0), s(1), a.at(2).get<uint64_t>(), num(a.at(3))); if (f == "processMessageBuffer") return processMessageBuffer(s(0)); if (f == "processMessageBufferDebug") return processMessageBufferDebug(s(0));
  if (f == "getProgramEntryOperatorId") return getProgramEntryOperatorId(s(0)); if (f == "getProgramEntryPorts") return getProgramEntryPorts(s(0)); if (f == "getProgramOutputFilter") return getProgramOutputFilter(s(0));
  vector<double> v; for (auto& x : a.at(2)) v.push_back(num(x)); auto t = a.at(1).get<vector<uint64_t>>(); auto p = a.at(3).get<vector<string>>(); return f == "processBatch" ? processBatch(s(0), t, v, p) : processBatchDebug(s(0), t, v, p);
}
struct Call { string f; Args a; bool id; };  // id: the first argument is a program id (left out here)
static vector<Call> calls(bool wasm, bool few) {
  vector<Call> r; for (size_t i = 0; i < (few ? 2 : progs().size()); i++) r.push_back({"createProgram", {progs()[i]}, true});
  for (auto f : {"deleteProgram", "processMessageBuffer", "processMessageBufferDebug"}) r.push_back({f, Args::array(), true}); if (!few) for (auto f : {"getProgramEntryOperatorId", "getProgramEntryPorts", "getProgramOutputFilter"}) r.push_back({f, Args::array(), true});
  r.push_back({"addToMessageBuffer", {"i1", 0, 0.5}, true}); r.push_back({"addToMessageBuffer", {"i2", 0, -3}, true}); if (!few) { r.push_back({"addToMessageBuffer", {"i3", 0, 1}, true}); r.push_back({"addToMessageBuffer", {"i1", 4294967290u, 1e300}, true}); }
  if (wasm) for (auto f : {"processBatch", "processBatchDebug"}) { r.push_back({f, {{1, 2, 0}, {0.25, -1, 7}, {"i1", "i1", "i2"}}, true}); if (!few) { r.push_back({f, {Args::array(), Args::array(), Args::array()}, true}); r.push_back({f, {{1, 2}, {0.25}, {"i1", "i1"}}, true}); r.push_back({f, {{4294967294u}, {1.5}, {"i2"}}, true}); r.push_back({f, {{5}, {1.5}, {"x"}}, true}); } }
  return r;
}
struct World {
  Ctx& c; exported::Table& t; string name; uint64_t clock = 10; string hist; int ids;
  World(Ctx& c, bool wasm, int ids) : c(c), t(wasm ? exported::wasm() : exported::python()), name(wasm ? "WebAssembly" : "Python"), ids(ids) { clear(); }
  ~World() { try { clear(); } catch (...) {} }
  void clear() { for (int i = 0; i < ids; i++) for (auto x : {"m", "e"}) deleteProgram(x + to_string(i)); }
  void run(Call k, int id) {
    for (auto& x : k.a) if (x.is_number_integer() && x == 0) x = clock++; else if (x.is_array()) for (auto& y : x) if (y.is_number_integer() && y == 0) y = clock++; else if (y.is_number_integer() && y < 5 && k.f.find("Batch") != string::npos && &x == &k.a[0]) y = clock++;
    Args am = k.a, ae = k.a; if (k.id) { am.insert(am.begin(), "m" + to_string(id)); ae.insert(ae.begin(), "e" + to_string(id)); } c.step(); string e1, e2; json r1, r2;
    hist += (hist.empty() ? "" : "; ") + k.f + am.dump().substr(0, 120); auto it = t.find(k.f); c.check(it != t.end(), "missing function", [&] { return "the " + name + " module does not export " + k.f; });
    e1 = err([&] { r1 = it->second(am); }); e2 = err([&] { r2 = direct(k.f, ae); }); auto norm = [](string s) { for (size_t p = 0; (p = s.find("e0", p)) != string::npos;) s.replace(p, 2, "m0"); for (size_t p = 0; (p = s.find("e1", p)) != string::npos;) s.replace(p, 2, "m1"); return s; };
    c.check(e1.empty() == e2.empty() && norm(r1.dump()) == norm(r2.dump()), "module", [&] { return "through the " + name + " module: " + hist + "\n  answers " + (e1.empty() ? r1.dump() : "error " + e1) + "\n  the engine " + (e2.empty() ? r2.dump() : "error " + e2); });
    c.outcome(mc::mixs(1, norm(r2.dump()) + (e2.empty() ? "" : "!"))); c.state(mc::mixs(7, norm(r2.dump()) + k.f));
  }
  void finish() { c.log([&] { return name + ": " + hist; }); hist += "; then"; for (int i = 0; i < ids; i++) { run({"getProgramEntryPorts", Args::array(), true}, i); run({"addToMessageBuffer", {"i1", 0, 2}, true}, i); run({"processMessageBufferDebug", Args::array(), true}, i); } }
};
int main(int argc, char** argv) {
  mc::Main m; m.property = "C41";
  m.bounds = "both module definitions: EVERY sequence of 3 calls out of 16 (Python) and 26 (WebAssembly) on one program, of 3 out of a smaller set on two programs (4 thorough), from nothing and with a running program and pending messages; validate and validateOperator of every documented operator with each of 6 definitions";
  m.assumptions = {"pybind11, embind and protocol buffers are not installed: stand-ins register the functions the module definitions name and convert their arguments; a wasm unsigned long has 32 bits, times stay below 2^32"};
  m.parse(argc, argv);
  for (bool w : {false, true}) { string n = w ? "WebAssembly" : "Python"; auto all = calls(w, false), few = calls(w, true);
    auto mk = [=](const vector<Call>& al, int ids, int depth, vector<std::pair<int, int>> pre) { return [=](Ctx& c) { World x(c, w, ids); for (auto& [k, i] : pre) x.run(al[k], i); for (int d = 0; d < depth; d++) { int k = c.choose((int)al.size() * ids); x.run(al[k / ids], k % ids); } x.finish(); }; };
    m.add(n + ", from nothing", mk(all, 1, 3, {})); m.add(n + ", running", mk(all, 1, 3, {{0, 0}, {9, 0}, {10, 0}})); m.add(n + ", two programs", mk(few, 2, 3, {{0, 0}, {1, 1}})); m.add(n + ", two programs deep", mk(few, 2, 4, {{0, 0}, {1, 1}}), true); m.add(n + ", running deep", mk(all, 1, 4, {{0, 0}, {9, 0}}), true);
    m.add(n + ", validation", [w](Ctx& c) { World x(c, w, 1); auto d = c.pick(lastOps()); for (auto& p : progs()) x.run({"validate", {p}, false}, 0); for (auto& q : zoo::unary()) x.run({"validateOperator", {q.type, d.json("x")}, false}, 0); for (string t : {string("{}"), string("{\"id\":\"x\"}"), string("{"), d.json("x")}) { x.run({"validateOperator", {d.type, t}, false}, 0); x.run({"validateOperator", {"", t}, false}, 0); } x.finish(); });
    m.add(n + ", exported names", [w](Ctx& c) { auto& t = w ? exported::wasm() : exported::python(); c.step(); vector<string> want = {"validate", "validateOperator", "createProgram", "deleteProgram", "addToMessageBuffer", "processMessageBuffer", "processMessageBufferDebug", "getProgramEntryOperatorId", "getProgramEntryPorts", "getProgramOutputFilter"}; if (w) { want.push_back("processBatch"); want.push_back("processBatchDebug"); } for (auto& f : want) { c.check(t.count(f) == 1, "missing function", [&] { return "the module does not export " + f; }); c.outcome(mc::mixs(1, f)); c.state(mc::mixs(1, f)); } }); }
  return m.run();
}

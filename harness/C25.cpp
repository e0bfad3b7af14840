#include "api.h"
using namespace hx;
// Every sequence of calls on two program ids, against one isolated Program object and one list of pending messages per id.
struct Model { std::unique_ptr<rtbot::Program> p; MMap pending; int kind = 0; };
static const vector<string>& progs() { static vector<string> v = {
  "{\"entryOperator\":\"in\",\"operators\":[{\"type\":\"Input\",\"id\":\"in\"},{\"type\":\"CumulativeSum\",\"id\":\"s\"}],\"connections\":[{\"from\":\"in\",\"to\":\"s\",\"fromPort\":\"o1\",\"toPort\":\"i1\"}]}",
  "{\"entryOperator\":\"in\",\"output\":{\"s\":[\"o1\"],\"j\":[\"o2\"]},\"operators\":[{\"type\":\"Input\",\"id\":\"in\",\"numPorts\":2},{\"type\":\"Join\",\"id\":\"j\",\"numPorts\":2},{\"type\":\"MovingAverage\",\"id\":\"s\",\"n\":2}],\"connections\":[{\"from\":\"in\",\"to\":\"j\",\"fromPort\":\"o1\",\"toPort\":\"i1\"},{\"from\":\"in\",\"to\":\"j\",\"fromPort\":\"o2\",\"toPort\":\"i2\"},{\"from\":\"j\",\"to\":\"s\",\"fromPort\":\"o1\",\"toPort\":\"i1\"}]}",
  "{\"entryOperator\":\"e\",\"operators\":[{\"type\":\"Count\",\"id\":\"e\"},{\"type\":\"Input\",\"id\":\"in\"}],\"connections\":[{\"from\":\"e\",\"to\":\"in\"}]}"}; return v; }
static int np(int kind) { return kind == 1 ? 2 : 1; }
static const vector<string>& bad() { static vector<string> v = {"{\"entryOperator\":\"in\"", "{\"entryOperator\":\"nobody\",\"operators\":[{\"type\":\"Input\",\"id\":\"in\"}],\"connections\":[]}", "{\"entryOperator\":\"in\",\"operators\":[{\"type\":\"Nothing\",\"id\":\"in\"}],\"connections\":[]}"}; return v; }
enum { CREATE0, CREATE1, CREATE2, BAD, COPY, DEL, ADD, BUF, MSG, BATCH, BUFD, NOPS };
static const char* names[] = {"create program 0 as", "create program 1 as", "create program 2 as", "create a malformed program as", "serialize the other and create it as", "delete", "buffer a message for", "process the buffer of", "send a message to", "send a batch to", "process (debug) the buffer of"};
struct World {
  Ctx& c; vector<string> id; vector<Model> m; uint64_t clock = 10; string hist; bool still = false;  // still: buffered messages repeat the same time and value
  World(Ctx& c, int n) : c(c) { for (int i = 0; i < n; i++) { id.push_back(i < 26 ? string(1, 'a' + i) : "a" + to_string(i)); deleteProgram(id.back()); } m.resize(n); }
  ~World() { for (auto& x : id) try { deleteProgram(x); } catch (...) {} }
  void same(const string& what, const string& e, const Flat& got, bool exists, const Flat& want) {
    c.check((e.empty()) == exists, exists ? "unexpected error" : "missing error", [&] { return hist + "\n  " + what + (exists ? " failed: " + e : " did not report an error although the program does not exist"); });
    if (exists) c.check(exact(got, want), "result", [&] { return hist + "\n  " + what + " returned " + hx::str(got) + ", an isolated program returns " + hx::str(want); });
    c.outcome(hx::hash(got));
  }
  void create(int i, int kind) {
    string r, e = err([&] { r = createProgram(id[i], progs()[kind]); });
    if (!m[i].p) { c.check(e.empty() && r.empty(), "create failed", [&] { return hist + "\n  creating a valid program under an unused id failed: " + e + r; }); m[i].p = std::make_unique<rtbot::Program>(progs()[kind]); m[i].kind = kind; m[i].pending.clear(); } }
  void run(int o, int i) {
    Model& x = m[i]; int n = (int)m.size(); hist += (hist.empty() ? "" : "; ") + string(names[o]) + " " + id[i]; c.step(); bool ex = (bool)x.p; Flat want, got; string e;
    if (o <= CREATE2) create(i, o);
    else if (o == BAD) { string r; e = err([&] { r = createProgram(id[i], bad()[(clock / 2) % 3]); }); clock += 2; c.check(!e.empty() || (!r.empty() && !json::parse(r, nullptr, false).value("valid", false)) , "malformed accepted", [&] { return hist + "\n  was accepted"; }); }
    else if (o == COPY) { int k = (i + 1) % n; Model& y = m[k]; rtbot::Bytes b; e = err([&] { b = serializeProgram(id[k]); }); c.check(e.empty() == (bool)y.p, "serialize", [&] { return hist + ": serializing " + id[k] + (y.p ? " failed: " + e : " did not report an error although it does not exist"); }); if (!y.p) return;
      e = err([&] { createProgram(id[i], b); }); if (!ex) { c.check(e.empty(), "create from bytes", [&] { return hist + " failed: " + e; }); x.p = std::make_unique<rtbot::Program>(y.p->serialize()); x.kind = y.kind; x.pending.clear(); } else c.check(!e.empty(), "create from bytes over an existing program", [&] { return hist + " did not report an error"; }); }
    else if (o == DEL) { string r; e = err([&] { r = deleteProgram(id[i]); }); c.check(e.empty() && r == (ex ? "1" : "0"), "delete", [&] { return hist + " answered " + r + e + (ex ? " for an existing program" : " for a program that does not exist"); }); x.p.reset(); x.pending.clear(); }
    else if (o == ADD) { string port = "i" + to_string(1 + (clock % 2 && x.kind == 1 ? 1 : 0)); uint64_t t = x.kind == 1 ? clock / 2 : clock; double v = (double)clock + 64 * i; if (!still) clock++; e = err([&] { addToMessageBuffer(id[i], port, t, v); }); c.check(e.empty() == ex, "buffer a message", [&] { return hist + (ex ? " failed: " + e : " did not report an error although the program does not exist"); }); if (ex) x.pending[port].push_back(zoo::Msg(t, v)); }
    else if (o == BUF || o == BUFD) { if (ex) want = flat(o == BUFD ? x.p->receiveDebug(x.pending) : x.p->receive(x.pending)); x.pending.clear(); e = err([&] { got = flatJson(o == BUFD ? processMessageBufferDebug(id[i]) : processMessageBuffer(id[i])); }); same(names[o], e, got, ex, want); }
    else if (o == MSG) { MMap mm; clock += 2; for (int p = 1; p <= np(x.kind); p++) mm["i" + to_string(p)].push_back(zoo::Msg(clock, clock * 0.5 + p + 64 * i)); if (ex) want = flat(x.p->receive(mm)); e = err([&] { got = flatJson(processMessageMap(id[i], mm)); }); same(names[o], e, got, ex, want); }
    else if (o == BATCH) { Batch b; MMap mm = x.pending; for (int k = 0; k < 2; k++) { clock += 2; for (int p = 1; p <= np(x.kind); p++) { b.add({p, M{clock, clock * 0.25 - p}}); mm["i" + to_string(p)].push_back(zoo::Msg(clock, clock * 0.25 - p)); } } x.pending.clear(); if (ex) want = flat(x.p->receive(mm)); e = err([&] { got = flatJson(processBatch(id[i], b.t, b.v, b.p)); }); same(names[o], e, got, ex, want); }
    for (int k = 0; k < n; k++) { string q, e2 = err([&] { q = getProgramEntryOperatorId(id[k]) + getProgramEntryPorts(id[k]) + getProgramOutputFilter(id[k]); }); string w = m[k].p ? m[k].p->getProgramEntryOperatorId() + json(m[k].p->getProgramEntryPorts()).dump() + json(m[k].p->getProgramOutputFilter()).dump() : "";
      c.check(q == w && e2.empty() == (bool)m[k].p, "program identity", [&] { return hist + "\n  afterwards " + id[k] + " is " + (e2.empty() ? q : "unknown (" + e2 + ")") + ", it should be " + (m[k].p ? w : "unknown"); }); }
    uint64_t h = 1; for (auto& y : m) h = mc::mix(mc::mix(h, y.p ? y.kind + 2 : 1), y.pending.size()); c.state(mc::mixs(h, hist.substr(0, 0)));
  }
  void finish() { c.log([&] { return hist; }); hist += "; then"; for (size_t i = 0; i < m.size(); i++) { run(MSG, (int)i); run(BUF, (int)i); run(MSG, (int)i); } }
};
int main(int argc, char** argv) {
  mc::Main m; m.property = "C25";
  m.bounds = "EVERY sequence of 3 calls (4 from a smaller alphabet; one deeper in thorough) over two program ids: create three different programs (from JSON, from another program's bytes), create a malformed one, delete, buffer, process the buffer (plain and debug), send a message, send a batch; sequences from non-initial states (both ids running, messages pending); three ids; 5, 12 and 40 programs with messages pending; equal messages buffered; two programs around operators of one kind (47 operators), equal or different parameters, fed messages of equal times; afterwards every program's state and pending messages are probed";
  m.parse(argc, argv);
  vector<int> full = {CREATE0, CREATE1, CREATE2, BAD, COPY, DEL, ADD, BUF, MSG, BATCH, BUFD}, few = {CREATE0, CREATE1, COPY, DEL, ADD, BUF, MSG};
  auto mk = [](int n, vector<int> al, int depth, vector<std::pair<int, int>> pre) { return [=](Ctx& c) { World w(c, n); for (auto& [o, i] : pre) w.run(o, i); for (int k = 0; k < depth; k++) { int x = c.choose((int)al.size() * n); w.run(al[x / n], x % n); } w.finish(); }; };
  m.add("from nothing, all calls", mk(2, full, 3, {})); m.add("from nothing, main calls", mk(2, few, 4, {}));
  m.add("two running", mk(2, full, 3, {{CREATE0, 0}, {CREATE1, 1}, {MSG, 0}, {ADD, 1}, {ADD, 0}})); m.add("same program twice", mk(2, full, 3, {{CREATE1, 0}, {COPY, 1}, {ADD, 0}, {MSG, 1}})); m.add("deleted with messages pending", mk(2, full, 3, {{CREATE1, 0}, {ADD, 0}, {ADD, 0}, {DEL, 0}, {CREATE0, 1}}));
  m.add("three ids", mk(3, few, 3, {{CREATE0, 0}, {CREATE1, 1}, {ADD, 0}})); m.add("from nothing, all calls deep", mk(2, full, 4, {}), true); m.add("from nothing, main calls deep", mk(2, few, 5, {}), true); m.add("two running deep", mk(2, full, 4, {{CREATE0, 0}, {CREATE1, 1}, {MSG, 0}, {ADD, 1}, {ADD, 0}}), true); m.add("three ids deep", mk(3, few, 5, {{CREATE0, 0}, {CREATE1, 1}, {ADD, 0}}), true);
  m.add("equal messages", [few](Ctx& c) { World w(c, 2); w.still = true; w.run(CREATE2, c.choose(2)); for (int k = 0; k < 4; k++) { int x = c.choose(2 * 5); w.run(vector<int>{ADD, ADD, BUF, MSG, CREATE2}[x / 2], x % 2); } w.finish(); });
  // many programs, all with messages pending: any two calls, then every program is probed
  m.add("many programs", [few](Ctx& c) { int n = c.pick(vector<int>{5, 12, 40}); World w(c, n); for (int i = 0; i < n; i++) { w.run(i % 3, i); for (int k = 0; k <= i % 3; k++) w.run(ADD, i); } for (int k = 0; k < 2; k++) w.run(c.pick(few), c.pick(vector<int>{0, 1, n / 2, n - 1})); w.finish(); });
  // two programs around operators of one kind, fed messages of equal times (and different values): each against the reference of its operator
  vector<Def> kinds = zoo::unary(), bin = zoo::multi(); for (auto& d : bin) kinds.push_back(d); for (double x : {3.0, -4.0}) for (auto t : {"Add", "Scale", "Power", "Constant", "GreaterThan", "LessThan", "EqualTo"}) kinds.push_back(zoo::dVal(t, x)); for (auto& d : {zoo::dShift(1, -2), zoo::dFunction({{0, 1}, {2, -2}, {3, 1}}, false), zoo::dFunction({{0, 1}, {2, -2}, {3, 1}}, true), zoo::dInput(1), zoo::dInput(2), zoo::dOutput(1), zoo::dOutput(2)}) kinds.push_back(d);
  std::map<string, vector<Def>> byType; for (auto& d : kinds) byType[d.type].push_back(d);
  for (auto& [type, ds] : byType) m.add("two programs with " + type, [ds = ds](Ctx& c) {
    Def d[2] = {c.pick(ds), c.pick(ds)}; string id[2] = {"one", "two"}; RefPtr model[2] = {d[0].ref(), d[1].ref()}; uint64_t t[2] = {12, 12}; string hist; for (auto& x : id) deleteProgram(x);
    for (int w : {0, 1}) { string cons; for (int p = 1; p <= d[w].nin; p++) cons += string(p > 1 ? "," : "") + "{\"from\":\"in\",\"to\":\"op\",\"fromPort\":\"o" + to_string(p) + "\",\"toPort\":\"i" + to_string(p) + "\"}";
      string js = "{\"entryOperator\":\"in\",\"output\":{\"op\":[\"o1\"" + string(d[w].nout > 1 ? ",\"o2\"" : "") + "]},\"operators\":[{\"type\":\"Input\",\"id\":\"in\",\"numPorts\":" + to_string(d[w].nin) + "}," + d[w].json("op") + "],\"connections\":[" + cons + "]}", e = err([&] { put(id[w], js); }); c.check(e.empty(), "create failed", [&] { return js + ": " + e; }); }
    c.log([&] { return "program one around " + d[0].name + ", program two around " + d[1].name; });
    for (int k = 0; k < 8; k++) { int w = k < 2 ? k : k == 2 ? c.choose(2) : k % 2; double v = k < 4 ? c.pick(vector<double>{-1.5, 2}) : (k * 5 % 7) - 2.5; c.step(); MMap mm; Flat want;
      for (int p = 1; p <= d[w].nin; p++) { mm["i" + to_string(p)].push_back(zoo::Msg(t[w], v + p)); for (auto& [o, ms] : model[w]->on(false, p, M{t[w], v + p})) if (o <= 2) for (auto& x : ms) want["op:o" + to_string(o)].push_back(x); }
      Flat got; string e = err([&] { got = flatJson(processMessageMap(id[w], mm)); }); c.log([&] { return "program " + id[w] + " at " + to_string(t[w]) + " value " + zoo::num(v) + " -> " + hx::str(got); });
      c.check(e.empty() && same(got, want), "not itself", [&] { return "program " + id[w] + " around " + d[w].name + " answered " + (e.empty() ? hx::str(got) : e) + " to a message at " + to_string(t[w]) + " with value " + zoo::num(v) + ", alone it answers " + hx::str(want); }); c.outcome(hx::hash(got)); t[w] += 2; }
    for (auto& x : id) deleteProgram(x); });
  return m.run();
}

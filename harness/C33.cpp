#include "api.h"
#include <cstdlib>
#include <new>
// live heap bytes
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t live() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t gLive = 0;
static size_t live() { return gLive; }
static void* take(size_t n) { auto* p = (size_t*)malloc(n + 16); if (!p) throw std::bad_alloc(); p[0] = n; gLive += n; return p + 2; }
static void give(void* q) { if (q) { auto* p = (size_t*)q - 2; gLive -= p[0]; free(p); } }
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
#endif
using namespace hx;
// Every periodic stream over every operator: the checkpoint after many cycles is not larger than after few, except for
// messages that may still find their partner (counted by the reference below).
static const size_t MSG = zoo::Msg(1, 1).collect().size();
// how many messages an operator may still need, from the times received per port
struct Needed {
  int kind = 0; vector<std::deque<uint64_t>> port;  // 0 none beyond its window, 1 all ports by equal time, 2 variable (port 0 data, 1 queries)
  explicit Needed(const Def& d) { if (d.type == "Variable") kind = 2; else if (d.nin + d.nctl > 1 && d.type != "Input" && d.type != "Output" && d.type != "Pipeline") kind = 1; port.resize(d.nin + d.nctl); newest.assign(d.nin + d.nctl, 0); any.assign(d.nin + d.nctl, false); }
  vector<uint64_t> newest; vector<bool> any;
  size_t add(int p, uint64_t t) {
    if (!kind) return 0;
    port[p].push_back(t); newest[p] = t; any[p] = true;
    if (kind == 1) {  // a message can still be matched while some other port has not passed its time
      size_t n = 0; for (size_t q = 0; q < port.size(); q++) { uint64_t lim = ~0ull; for (size_t o = 0; o < port.size(); o++) if (o != q) lim = std::min(lim, any[o] ? newest[o] : 0); while (!port[q].empty() && lim != ~0ull && lim && port[q].front() <= lim) port[q].pop_front(); n += port[q].size(); }
      return n; }
    // definitions: the one in force at the newest query and all later ones; queries: those after the newest definition
    if (any[1]) while (port[0].size() >= 2 && port[0][1] <= newest[1]) port[0].pop_front();
    if (any[0]) while (!port[1].empty() && port[1].front() <= newest[0]) port[1].pop_front();
    return port[0].size() + port[1].size();
  }
};
struct Ev { int p; uint64_t gap; double v; };
static vector<Ev> anyPattern(Ctx& c, int ports, int len, const vector<uint64_t>& gaps, bool demux) {
  vector<Ev> v; for (int i = 0; i < len; i++) v.push_back({ports > 1 ? c.choose(ports) : 0, demux ? 1 : c.pick(gaps), demux ? 1.0 : (double)((i * 7) % 5 - 2)}); return v; }
static string show(const vector<Ev>& v) { string s; for (auto& e : v) s += (s.empty() ? "" : ", ") + string("port ") + to_string(e.p + 1) + " +" + to_string(e.gap); return s; }
static void runOp(Ctx& c, const Def& d, int len, vector<uint64_t> gaps, int K) {
  int np = d.nin + d.nctl; auto pat = anyPattern(c, np, len, gaps, d.type == "Demultiplexer"); auto op = d.real("x"); Needed need(d); vector<uint64_t> t(np, 10); size_t size = 0, n = 0; vector<size_t> ms(pat.size(), 0), mn(pat.size(), 0); bool lead = c.flip();  // some ports may start late
  c.log([&] { return d.name + ", repeating: " + show(pat); });
  if (lead && np > 1) for (auto& x : t) x = 10 + 3 * (&x - &t[0]);
  for (int k = 1; k <= 4 * K; k++) {
    for (size_t i = 0; i < pat.size(); i++) { auto& e = pat[i]; size_t &maxSize = ms[i], &maxNeed = mn[i]; t[e.p] += e.gap; c.step(); try { zoo::feed(*op, e.p >= d.nin, e.p >= d.nin ? e.p - d.nin + 1 : e.p + 1, M{t[e.p], e.v + (d.type == "Demultiplexer" ? 0 : k % 3)}); } catch (std::exception& x) { return; } n = need.add(e.p, t[e.p]); size = op->collect().size();
      if (k <= 2 * K) { maxSize = std::max(maxSize, size); maxNeed = std::max(maxNeed, n); }
      c.check(k <= 2 * K || size <= maxSize + MSG * (np > 1 ? np + (len > 5 ? len : 0) + (n > maxNeed ? n - maxNeed : 0) : 0), "state grows", [&] { return d.name + ", repeating " + show(pat) + ": in the first " + to_string(2 * K) + " repetitions the checkpoint had, at the same point of the pattern, at most " + to_string(maxSize) + " bytes (" + to_string(maxNeed) + " messages that may still be needed), in repetition " + to_string(k) + " it has " + to_string(size) + " (" + to_string(n) + ")"; }); }
    if (k % K == 0) c.log([&] { return "after " + to_string(k) + " repetitions: " + to_string(size) + " bytes"; });
  }
  c.outcome(size); c.state(mc::mix(size, mc::mix(n, ms[0])));
}
static void runProgram(Ctx& c, const string& js, int ports, vector<Ev> pat, int K) {
  auto p = rtbot::FactoryOp::createProgram(js); vector<uint64_t> t(ports, 10); size_t maxSize = 0, size = 0; c.log([&] { return "program " + js + "\nrepeating: " + show(pat); });
  for (int k = 1; k <= 4 * K; k++) for (auto& e : pat) { t[e.p] += e.gap; c.step(); try { p.receive(one(e.p + 1, M{t[e.p], e.v + k % 3})); } catch (std::exception&) { return; } size = p.serialize().size(); if (k <= 2 * K) maxSize = std::max(maxSize, size);
    c.check(k <= 2 * K || size <= maxSize, "state grows", [&] { return "program " + js + "\n  repeating " + show(pat) + ": in the first " + to_string(2 * K) + " repetitions the checkpoint had at most " + to_string(maxSize) + " bytes, in repetition " + to_string(k) + " it has " + to_string(size); }); }
  c.outcome(size); c.state(mc::mix(size, maxSize));
}
// The memory held after a cycle of the pattern: 64 cycles go through every position of a block of kept messages, so from
// then on the highest amount does not rise, unless messages wait for a partner that may still arrive.
static void runMemory(Ctx& c, const string& what, int ports, const vector<Ev>& pat, Needed* need, const std::function<void(const vector<In>&)>& feed) {
  vector<uint64_t> t(ports, 10); size_t n = 0, n1 = 0, m1 = 0, m2 = 0; c.log([&] { return what + ", repeating: " + show(pat); });
  vector<In> cycle; cycle.reserve(pat.size()); size_t base = live();
  for (int k = 1; k <= 192; k++) {
    cycle.clear(); for (auto& e : pat) { t[e.p] += e.gap; cycle.push_back({e.p + 1, M{t[e.p], e.v + k % 2}}); if (need) n = need->add(e.p, t[e.p]); }
    c.step(); try { feed(cycle); } catch (std::exception& x) { return; }
    size_t now = live(); now = now > base ? now - base : 0;
    if (k <= 96) { m1 = std::max(m1, now); n1 = std::max(n1, n); } else m2 = std::max(m2, now);
    if (need && k > 96 && n > n1) return;  // it has to keep more and more
    c.check(k <= 96 || m2 <= m1, "memory grows", [&] { return what + ", repeating " + show(pat) + ": after the first 96 repetitions it held at most " + to_string(m1) + " bytes of memory more than at the start, after " + to_string(k) + " it holds " + to_string(now); });
  }
  c.log([&] { return "at most " + to_string(m1) + " bytes in the first half, " + to_string(m2) + " in the second"; }); c.outcome(m1); c.state(mc::mix(m1, m2));
}
static void memOp(Ctx& c, const Def& d, int len) {
  int np = d.nin + d.nctl; auto pat = anyPattern(c, np, len, {1, 2}, d.type == "Demultiplexer"); auto op = d.real("x"); Needed need(d);
  runMemory(c, d.name, np, pat, &need, [&](const vector<In>& in) { for (auto& i : in) { int p = i.port - 1; zoo::feed(*op, p >= d.nin, p >= d.nin ? p - d.nin + 1 : p + 1, i.m); } });
}
static void memApi(Ctx& c, const Graph& g, int ports, vector<vector<Ev>> pats) {
  string js = g.json(); auto pat = c.pick(pats); int way = c.choose(8); static const char* ways[] = {"buffer", "buffer, debug", "map", "map, debug", "batch", "batch, debug", "each fed to a program made anew", "refused ones in between"};
  put("p", js); struct Del { ~Del() { deleteProgram("p"); deleteProgram("q"); } } del;
  runMemory(c, string("program ") + js + ", fed by " + ways[way], ports, pat, nullptr, [&](const vector<In>& in) {
    auto map = [&] { zoo::OM om; for (auto& i : in) om["i" + to_string(i.port)].push_back(rtbot::Message<uint64_t, double>(i.m.t, i.m.v)); return om; };
    Batch b; for (auto& i : in) b.add(i);
    switch (way) {
      case 0: case 1: for (auto& i : in) addToMessageBuffer("p", "i" + to_string(i.port), i.m.t, i.m.v); way ? processMessageBufferDebug("p") : processMessageBuffer("p"); break;
      case 2: processMessageMap("p", map()); break;
      case 3: processMessageMapDebug("p", map()); break;
      case 4: processBatch("p", b.t, b.v, b.p); break;
      case 5: processBatchDebug("p", b.t, b.v, b.p); break;
      case 6: put("q", js); addToMessageBuffer("q", "i1", 1, 1); processBatch("q", b.t, b.v, b.p); deleteProgram("q"); break;
      default: processBatch("p", b.t, b.v, b.p); err([&] { put("p", js); }); err([&] { processBatch("p", b.t, b.v, vector<string>(b.t.size(), "i9")); }); err([&] { addToMessageBuffer("nobody", "i1", 1, 1); processMessageBuffer("nobody"); }); err([&] { processBatch("nobody", b.t, b.v, b.p); }); err([&] { put("q", "{\"entryOperator\":\"in\",\"operators\":1}"); }); err([&] { processMessageMap("p", {{"i9", {rtbot::Message<uint64_t, double>(1, 1)}}}); });
    } });
}
int main(int argc, char** argv) {
  mc::Main m; m.property = "C33";
  m.bounds = "every operator type: EVERY periodic pattern of up to 3-5 messages (any port, gaps from {1,2} or {1,2,3,7}) repeated 32-48 times; every program graph of 1..2 stateful operators under periodic streams on 1-2 entry ports; pipelines and composites included; the checkpoint is measured after every message; memory: every operator with every pattern of 1-3 messages, and programs fed through every function of the interface, 192 repetitions, live heap bytes measured after each";
  m.assumptions = {"a checkpoint holds at most one serialized message per message kept", "growth by messages that another port may still match is allowed and counted exactly"};
  m.parse(argc, argv);
  vector<Def> all = zoo::unary(); for (auto& d : zoo::multi()) all.push_back(d); for (auto& d : {zoo::dVariable(0.5), zoo::dDemux(1), zoo::dDemux(2), zoo::dInput(1), zoo::dInput(2), zoo::dOutput(1), zoo::dOutput(2), zoo::dMA(5), zoo::dJoin(4)}) all.push_back(d);
  for (auto& d : composites()) all.push_back(d); for (auto& d : pipelines()) if (d.nin == 1) all.push_back(d);
  for (auto& d : all) { int np = d.nin + d.nctl; for (int len = 1; len <= (np > 1 ? (np > 3 ? 4 : np > 2 ? 4 : 5) : 2); len++) m.add(d.name + ", patterns of " + to_string(len), [=](Ctx& c) { runOp(c, d, len, np > 1 ? vector<uint64_t>{1, 2} : vector<uint64_t>{1, 2, 3, 7}, 8); }); m.add(d.name + ", long", [=](Ctx& c) { runOp(c, d, np > 1 ? 6 : 3, np > 1 ? vector<uint64_t>{1, 3} : vector<uint64_t>{1, 2, 3, 7, 11}, 12); }, true); }
  vector<Def> st = {zoo::dMA(2), zoo::dShift(3, 1), zoo::dConstRes(2), zoo::dPlain("Minus"), zoo::dJoin(2), zoo::dVariable(0.5), zoo::dPlain("CumulativeSum"), zoo::dDiff(false), zoo::dHer(3), zoo::dRSI(2), zoo::dFIR({1, -1}), zoo::dPlain("Or"), zoo::dLinear({1, 2, 4}), zoo::dAR({0.5})}; for (auto& d : pipelines()) st.push_back(d);
  auto mk = [](int k, int ports, vector<Def> al, vector<vector<Ev>> pats) { return [=](Ctx& c) { Graph g = start(ports); for (int i = 0; i < k; i++) grow(c, g, al, "n" + to_string(i + 1), 0); runProgram(c, g.json(), ports, c.pick(pats), 8); }; };
  vector<vector<Ev>> p1 = {{{0, 1, 1}}, {{0, 2, 1}, {0, 1, -1}}, {{0, 3, 2}, {0, 1, -1}, {0, 5, 0.5}}}, p2 = {{{0, 1, 1}, {1, 1, 2}}, {{0, 1, 1}, {0, 1, 2}, {1, 2, -1}}, {{1, 3, 1}, {0, 1, 1}, {0, 2, 3}}, {{0, 1, 1}, {0, 1, 1}, {0, 1, 1}, {1, 1, 1}, {1, 2, 1}}};
  m.add("programs of 1 operator", mk(1, 1, st, p1)); m.add("programs of 2 operators", mk(2, 1, st, p1)); m.add("programs of 2 operators, 2 entry ports", mk(2, 2, {zoo::dMA(2), zoo::dConstRes(2), zoo::dPlain("Minus"), zoo::dJoin(2), zoo::dVariable(0.5), zoo::dShift(2, 1)}, p2)); m.add("programs of 3 operators deep", mk(3, 1, {zoo::dMA(2), zoo::dShift(3, 1), zoo::dPlain("Minus"), zoo::dJoin(2), zoo::dPlain("CumulativeSum"), zoo::dConstRes(2)}, p1), true);
  for (auto& d : all) { int np = d.nin + d.nctl; m.add(d.name + ", memory", [=](Ctx& c) { memOp(c, d, np > 2 ? 2 : np > 1 ? 3 : 1); }); m.add(d.name + ", memory, long", [=](Ctx& c) { memOp(c, d, np > 3 ? 3 : np > 1 ? 4 : 3); }, true); }
  auto api = [](int k, int ports, vector<Def> al, vector<vector<Ev>> pats) { return [=](Ctx& c) { Graph g = start(ports); for (int i = 0; i < k; i++) grow(c, g, al, "n" + to_string(i + 1), 0); memApi(c, g, ports, pats); }; };
  m.add("memory of programs of 1 operator through the interface", api(1, 1, st, p1)); m.add("memory of programs of 2 operators through the interface", api(2, 1, {zoo::dMA(2), zoo::dJoin(2), zoo::dConstRes(2), zoo::dPlain("CumulativeSum")}, p1)); m.add("memory of programs with 2 entry ports through the interface", api(1, 2, {zoo::dMA(2), zoo::dPlain("Minus"), zoo::dJoin(2), zoo::dVariable(0.5)}, {{{0, 1, 1}, {1, 1, 2}}, {{0, 1, 1}, {0, 1, 2}, {1, 2, -1}}}));
  return m.run();
}

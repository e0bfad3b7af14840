#include "api.h"
using namespace hx;
// the same stream, split into batches in every way, each batch through each interface; against one message at a time in port order
static void runSplit(Ctx& c, const string& js, const vector<In>& in, int maxPart) {
  c.log([&] { return "program " + js; }); int kind = c.choose(6);  // 0 map, 1 buffer, 2 batch, 3..5 the same with debug; 
  deleteProgram("x"); put("x", js); rtbot::Program ref(js); bool mixed = c.flip(); size_t i = 0; int part = 0; uint64_t h = 1;
  while (i < in.size()) {
    size_t n = 1 + c.choose((int)std::min<size_t>(maxPart, in.size() - i)); vector<In> b(in.begin() + i, in.begin() + i + n); i += n; part++;
    MMap mm; Batch bt; for (auto& x : b) { mm["i" + to_string(x.port)].push_back(zoo::Msg(x.m.t, x.m.v)); bt.add(x); }
    int k = mixed ? (kind + part) % 6 : kind; bool dbg = k >= 3; Flat want, got; string e1, e2; c.step(n);
    auto sorted = b; std::stable_sort(sorted.begin(), sorted.end(), [](const In& a, const In& b) { return a.port < b.port; });
    e1 = err([&] { for (auto& x : sorted) hx::add(want, flat(dbg ? ref.receiveDebug(one(x.port, x.m)) : ref.receive(one(x.port, x.m)))); });
    e2 = err([&] {
      if (k % 3 == 0) got = flatJson(dbg ? processMessageMapDebug("x", mm) : processMessageMap("x", mm));
      else if (k % 3 == 1) { for (auto& x : b) addToMessageBuffer("x", "i" + to_string(x.port), x.m.t, x.m.v); got = flatJson(dbg ? processMessageBufferDebug("x") : processMessageBuffer("x")); }
      else got = flatJson(dbg ? processBatchDebug("x", bt.t, bt.v, bt.p) : processBatch("x", bt.t, bt.v, bt.p));
    });
    static const char* nm[] = {"processMessageMap", "processMessageBuffer", "processBatch", "processMessageMapDebug", "processMessageBufferDebug", "processBatchDebug"};
    c.log([&] { return string(nm[k]) + " of " + to_string(n) + " -> " + (e2.empty() ? hx::str(got) : e2); });
    c.check(e1.empty() == e2.empty() && exact(want, got), "batching", [&] { return "program " + js + "\n  " + nm[k] + " with " + to_string(n) + " messages ending at time " + to_string(b.back().m.t) + " returned " + (e2.empty() ? hx::str(got) : e2) + "\n  one at a time: " + (e1.empty() ? hx::str(want) : e1); });
    // the buffer is empty afterwards
    string again = part % 2 ? processMessageBuffer("x") : processMessageBufferDebug("x");
    c.check(flatJson(again).empty(), "buffer not empty", [&] { return "program " + js + "\n  after " + nm[k] + " the buffer still held messages: " + again; });
    h = mc::mix(h, hx::hash(got)); c.outcome(hx::hash(got)); c.state(mc::mix(h, i));
  }
  deleteProgram("x");
}
static std::function<void(Ctx&)> graphs(int ports, vector<Def> inner, vector<Def> last, int k, vector<int> streams, int len, int maxPart) {
  return [=](Ctx& c) { Graph g = start(ports); for (int i = 0; i < k; i++) grow(c, g, i + 1 == k ? last : inner, "n" + to_string(i + 1), 0); int s = c.pick(streams); auto in = inputs(s, ports); in.resize(std::min<size_t>(len, in.size())); runSplit(c, g.json(), in, maxPart); };
}
int main(int argc, char** argv) {
  mc::Main m; m.property = "C23";
  m.bounds = "program graphs of 1..2 operators (every operator type, pipelines included; 1-2 entry ports, 3 in a hand-made one, with and without output declaration); EVERY split of streams of 6-9 messages (long silences included) into consecutive batches; message map, message buffer and batch calls, plain and debug, each alone and mixed within one stream";
  m.parse(argc, argv);
  auto in = exactOps(), la = lastOps(), few = fewOps(); for (auto& d : pipelines()) la.push_back(d);
  m.add("1 operator", graphs(1, in, la, 1, {1, 3, 5}, 7, 7)); m.add("1 operator, 2 entry ports", graphs(2, in, la, 1, {3, 5}, 6, 6)); m.add("2 operators", graphs(1, few, few, 2, {1, 5}, 6, 3)); m.add("2 operators, 2 entry ports", graphs(2, few, few, 2, {3}, 6, 2));
  m.add("2 operators, 2 entry ports deep", graphs(2, few, few, 2, {1, 3}, 8, 8), true); m.add("2 operators deep", graphs(1, in, la, 2, {1}, 6, 6), true);
  m.add("output declaration", [](Ctx& c) { Graph g = start(2); int a = g.node("a", zoo::dMA(2)), b = g.node("b", zoo::dJoin(2)), d = g.node("d", zoo::dPlain("CumulativeSum")); g.edge(0, 1, a, 1); g.edge(a, 1, b, 1); g.edge(0, 2, b, 2); g.edge(b, 2, d, 1); g.hasOutput = true;
    int mask = 1 + c.choose(15); if (mask & 1) g.output["in"].push_back("o2"); if (mask & 2) g.output["a"].push_back("o1"); if (mask & 4) g.output["b"].push_back("o1"); if (mask & 8) g.output["d"].push_back("o1"); auto in = inputs(c.choose(2) ? 3 : 1, 2); in.resize(7); runSplit(c, g.json(), in, 7); });
  m.add("3 entry ports", [](Ctx& c) { Graph g = start(3); auto d = c.pick(vector<Def>{zoo::dJoin(3), zoo::dLinear({1, 2, 4}), zoo::dOutput(3)}); int j = g.node("j", d); for (int i = 1; i <= 3; i++) g.edge(0, i, j, i); vector<uint64_t> t(4, 5); vector<In> in; for (int i = 0; i < 6; i++) { int p = 1 + (i < 4 ? c.choose(3) : i % 3); t[p] += 1 + i % 2; in.push_back({p, M{t[p], i - 2.5}}); } runSplit(c, g.json(), in, 6); });
  m.add("other entry operators", [](Ctx& c) { Graph g; vector<Def> e; for (auto& d : lastOps()) if (!d.nctl && d.nin < 3) e.push_back(d); for (auto& d : pipelines()) e.push_back(d); auto& d = c.pick(e); g.node("e", d); int x = g.node("x", zoo::dPlain("Count")); g.edge(0, 1, x, 1); auto in = inputs(1, d.nin); in.resize(7); runSplit(c, g.json(), in, 4); });
  // entry operators which, unlike Input, accept any times: repeated and older ones count as well
  m.add("other entry operators, any times", [](Ctx& c) { Graph g; auto d = c.pick(vector<Def>{zoo::dPlain("CumulativeSum"), zoo::dPlain("Count"), zoo::dMA(2), zoo::dVal("Add", 1), zoo::dDiff(), zoo::dFIR({2, -1}), zoo::dPeak(3), zoo::dAR({0.5}), zoo::dStd(3), zoo::dVal("GreaterThan", 0), zoo::dPlain("Identity")}); g.node("e", d); int x = g.node("x", zoo::dPlain("Count")); g.edge(0, 1, x, 1);
    vector<In> in; static const double v[] = {1, 1, -2, 3, 3}; for (int i = 0; i < 5; i++) in.push_back({1, M{10ull + c.choose(2) * (i + 1), v[i]}}); runSplit(c, g.json(), in, 5); });
  return m.run();
}

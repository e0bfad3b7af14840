#include "prog.h"
using namespace hx;
// every emitted time is larger than the previous one on its port, and not larger than the newest time received (plus positive shifts on the way)
struct Watch {
  std::map<string, uint64_t> last; std::map<string, uint64_t> extra; uint64_t newest = 0;
  void check(Ctx& c, const Flat& f, const string& js, const string& after) {
    for (auto& [k, v] : f) { string id = k.substr(0, k.rfind(':')); auto x = extra.count(id) ? extra[id] : 0;
      for (auto& m : v) {
        auto it = last.find(k); c.check(it == last.end() || m.t > it->second, "time order", [&] { return js + "\n  after " + after + " port " + k + " emitted time " + to_string(m.t) + " after time " + to_string(it->second); });
        c.check(m.t <= newest + x, "future", [&] { return js + "\n  after " + after + " port " + k + " emitted time " + to_string(m.t) + ", the newest time received is " + to_string(newest) + (x ? " and the shifts add up to " + to_string(x) : ""); });
        last[k] = m.t; } }
  }
};
static uint64_t shiftOf(const Def& d) { if (d.type != "TimeShift") return 0; auto j = nlohmann::json::parse(d.json("x")); long long s = j["dt"].get<long long>() * j["times"].get<int>(); return s > 0 ? s : 0; }
static void runGraph(Ctx& c, const Graph& g, const vector<In>& in) {
  string js = g.json(); c.log([&] { return "program " + js; }); auto p = rtbot::FactoryOp::createProgram(js); Watch w;
  for (size_t n = 0; n < g.nodes.size(); n++) { uint64_t b = 0; for (auto& e : g.edges) if (e.b == (int)n) b = std::max(b, w.extra[g.nodes[e.a].id]); w.extra[g.nodes[n].id] = b + shiftOf(g.nodes[n].d); }
  uint64_t h = 0; std::map<int, uint64_t> seen;
  for (auto& x : in) { c.step(); w.newest = std::max(w.newest, x.m.t); Flat f; try { f = flat(p.receiveDebug(one(x.port, x.m))); } catch (std::exception& e) { c.log([&] { return string(e.what()); }); return; }
    c.log([&] { return what(false, x.port, x.m) + " -> " + hx::str(f); }); w.check(c, f, "program " + js, what(false, x.port, x.m)); h = mc::mix(h, hash(f)); c.outcome(hash(f)); c.state(h); }
}
// one operator, any arrivals: each step picks the port, the gap to that port's previous time and the value
static std::function<void(Ctx&)> single(Def d, vector<uint64_t> gaps, int depth, bool large) { return [=](Ctx& c) {
  Graph g; g.node("in", zoo::dInput(d.nin + d.nctl)); int n = g.node("x", d); for (int p = 1; p <= d.nin + d.nctl; p++) g.edge(0, p, n, p > d.nin ? p - d.nin : p, p > d.nin);
  vector<uint64_t> t(5, large ? c.pick(vector<uint64_t>{(1ull << 53) - 3, 1ull << 61, (1ull << 63) - 5}) : c.pick(vector<uint64_t>{0, 5})); vector<In> in; int np = d.nin + d.nctl; bool demux = d.type == "Demultiplexer";
  for (int i = 0; i < depth; i++) { int p = 1 + (np > 1 ? c.choose(np) : 0); uint64_t gap = demux ? 1 : c.pick(gaps); t[p] += gap; double v = np == 1 && i < 4 ? (double)(c.choose(2) * 2 - 1) * (i + 1) : i % 2 ? 1 : 0; in.push_back({p, M{t[p], v}}); }
  runGraph(c, g, in); }; }
static std::function<void(Ctx&)> graphs(int ports, vector<Def> inner, vector<Def> last, int k, vector<int> streams) {
  return [=](Ctx& c) { Graph g = start(ports); for (int i = 0; i < k; i++) grow(c, g, i + 1 == k ? last : inner, "n" + to_string(i + 1), 0); int s = c.pick(streams); runGraph(c, g, inputs(s, ports, 100)); };
}
int main(int argc, char** argv) {
  mc::Main m; m.property = "C30";
  m.bounds = "every operator type behind an Input: EVERY arrival order over its ports with gaps from {1,2,3,7} (incl. time origins around 2^53, 2^61 and 2^63), 5-7 messages; the resamplers also with intervals of 1000, 3600000 and 2^33 and gaps one and two below, at, one above and one below twice the interval; every program graph of 1..2 operators (all types; 3 from a small alphabet) with streams of 8-14 messages, late and repeated messages included";
  m.assumptions = {"each input port is fed by one connection; TimeShift does not clamp (the streams start late enough)", "a run ends where a Demultiplexer refuses a control value other than 0 and 1"};
  m.parse(argc, argv);
  auto few = fewOps(); vector<Def> all = lastOps(); for (auto& d : zoo::unary()) all.push_back(d); for (auto& d : pipelines()) all.push_back(d); for (auto& d : {zoo::dShift(3, -1), zoo::dShift(2, -3), zoo::dShift(0, 4), zoo::dDiff(false), zoo::dCos(7), zoo::dHer(7), zoo::dConstRes(7)}) all.push_back(d);
  std::set<string> done; for (auto& d : all) { if (!done.insert(d.name).second || (d.type == "TimeShift" && shiftOf(d) == 0)) continue; int np = d.nin + d.nctl; bool grid = d.type.find("Resampler") != string::npos;
    m.add("operator " + d.name, single(d, np > 1 ? vector<uint64_t>{1, 2} : grid ? vector<uint64_t>{1, 2, 3, 7} : vector<uint64_t>{1, 7}, np > 2 ? 6 : np > 1 ? 6 : grid ? 6 : 6, false)); m.add("operator " + d.name + " far from the origin", single(d, grid ? vector<uint64_t>{1, 2, 9} : vector<uint64_t>{1, 9}, 5, true)); if (np > 1) m.add("operator " + d.name + " deep", single(d, {1, 2, 3}, 8, false), true); else m.add("operator " + d.name + " deep", single(d, {1, 2, 3, 7, 20}, 8, false), true); }
  for (uint64_t dt : {1000ull, 3600000ull, 1ull << 33}) for (auto& d : {zoo::dConstRes(dt), zoo::dCos(dt), zoo::dHer(dt)}) m.add("operator " + d.name + " long interval", single(d, {1, dt - 2, dt - 1, dt, dt + 1, 2 * dt - 1}, 5, false));
  m.add("1 operator", graphs(1, all, all, 1, {0, 1, 2, 3})); m.add("1 operator, 2 entry ports", graphs(2, all, all, 1, {0, 1, 2, 3})); m.add("2 operators", graphs(1, all, all, 2, {1})); m.add("2 operators, 2 entry ports", graphs(2, few, all, 2, {1, 3})); m.add("3 operators", graphs(1, few, few, 3, {1}));
  m.add("2 operators, 2 entry ports deep", graphs(2, all, all, 2, {1, 3}), true); m.add("3 operators deep", graphs(1, few, all, 3, {1}), true);
  return m.run();
}

#pragma once
#include "common.h"
#include "rtbot/FactoryOp.h"
#include "rtbot/Pipeline.h"
#include "rtbot/Composite.h"
#include <nlohmann/json.hpp>
namespace hx {
// definitions that only exist as real objects here: pipelines (from JSON) and composites
inline Def dPipeline(const string& name, const string& prog, int nin, int nout) {
  string par = ",\"prog\":" + prog;
  return {"Pipeline " + name, "Pipeline", par, nin, 0, nout, [par](string id) { return rtbot::FactoryOp::readOp("{\"type\":\"Pipeline\",\"id\":" + nlohmann::json(id).dump() + par + "}"); }, nullptr};
}
inline string op(const string& type, const string& id, const string& rest = "") { return "{\"type\":\"" + type + "\",\"id\":\"" + id + "\"" + (rest.empty() ? "" : "," + rest) + "}"; }
inline string con(const string& a, const string& b, const string& fp = "", const string& tp = "") {
  return "{\"from\":\"" + a + "\",\"to\":\"" + b + "\"" + (fp.empty() ? "" : ",\"fromPort\":\"" + fp + "\"") + (tp.empty() ? "" : ",\"toPort\":\"" + tp + "\"") + "}"; }
inline string list(const vector<string>& v) { string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + v[i]; return s + "]"; }
inline string prog(const vector<string>& ops, const vector<string>& cons) { return "{\"operators\":" + list(ops) + ",\"connections\":" + list(cons) + "}"; }
// pipelines with state in every kind of operator
inline vector<Def> pipelines() {
  vector<Def> v;
  v.push_back(dPipeline("ma-diff", prog({op("MovingAverage", "a", "\"n\":2"), op("Difference", "b")}, {con("a", "b")}), 1, 1));
  v.push_back(dPipeline("cumsum", prog({op("CumulativeSum", "a"), op("Identity", "b")}, {con("a", "b")}), 1, 1));
  v.push_back(dPipeline("minus of two inputs", prog({op("Minus", "m"), op("Count", "c")}, {con("m", "c")}), 2, 1));
  v.push_back(dPipeline("fan-in", prog({op("Input", "i"), op("MovingAverage", "a", "\"n\":2"), op("Minus", "m")}, {con("i", "a"), con("i", "m", "", "i1"), con("a", "m", "", "i2")}), 1, 1));
  v.push_back(dPipeline("resampler", prog({op("ConstantResampler", "r", "\"interval\":2"), op("Count", "c")}, {con("r", "c")}), 1, 1));
  v.push_back(dPipeline("nested", prog({op("Pipeline", "p", "\"prog\":" + prog({op("Count", "x"), op("Scale", "y", "\"value\":3")}, {con("x", "y")})), op("CumulativeSum", "s")}, {con("p", "s")}), 1, 1));
  return v;
}
inline Def dComposite(const string& name, std::function<void(rtbot::Composite<uint64_t, double>&)> build, int nin = 1) {
  return {"Composite " + name, "Composite", "", nin, 0, 1, [build](string id) -> OpPtr { auto c = std::make_unique<rtbot::Composite<uint64_t, double>>(id); build(*c); return c; }, nullptr};
}
inline vector<Def> composites() {
  using C = rtbot::Composite<uint64_t, double>;
  vector<Def> v;
  v.push_back(dComposite("ma-diff", [](C& c) { c.createInput("in"); c.createMovingAverage("a", 2); c.createDifference("b"); c.createOutput("out"); c.createInternalConnection("in", "a"); c.createInternalConnection("a", "b"); c.createInternalConnection("b", "out"); }));
  v.push_back(dComposite("cumsum-peak", [](C& c) { c.createInput("in"); c.createCumulativeSum("a"); c.createPeakDetector("b", 3); c.createOutput("out"); c.createInternalConnection("in", "a"); c.createInternalConnection("a", "b"); c.createInternalConnection("b", "out"); }));
  v.push_back(dComposite("minus of two", [](C& c) { c.createInput("in", 2); c.createMinus("m"); c.createCount("n"); c.createOutput("out"); c.createInternalConnection("in", "m", "o1", "i1"); c.createInternalConnection("in", "m", "o2", "i2"); c.createInternalConnection("m", "n"); c.createInternalConnection("n", "out"); }, 2));
  v.push_back(dComposite("hermite", [](C& c) { c.createInput("in"); c.createHermiteResampler("h", 2); c.createOutput("out"); c.createInternalConnection("in", "h"); c.createInternalConnection("h", "out"); }));
  return v;
}
inline zoo::PM sendAll(zoo::Op& op, bool control, int port, M m) {
  if (control) { op.receiveControl(zoo::Msg(m.t, m.v), "c" + to_string(port)); return op.executeControl(); }
  op.receiveData(zoo::Msg(m.t, m.v), "i" + to_string(port)); return op.executeData();
}
// every port of every operator that emitted, with empty entries dropped
using Flat = std::map<string, vector<M>>;
inline Flat flat(const zoo::PM& pm) { Flat f; for (auto& [id, om] : pm) for (auto& [p, v] : om) for (auto& m : v) f[id + ":" + p].push_back(M{m.time, m.value}); return f; }
inline string str(const Flat& f) { string s = "{"; for (auto& [k, v] : f) s += k + ref::str(v) + " "; return s + "}"; }
inline bool exact(const Flat& a, const Flat& b) {
  if (a.size() != b.size()) return false;
  for (auto& [k, v] : a) { auto it = b.find(k); if (it == b.end() || it->second.size() != v.size()) return false; for (size_t i = 0; i < v.size(); i++) if (!exact(v[i], it->second[i])) return false; }
  return true;
}
inline uint64_t hash(const Flat& f) { uint64_t h = 3; for (auto& [k, v] : f) h = mc::mix(mc::mixs(h, k), ref::hash(v)); return h; }
inline void add(Flat& a, const Flat& b) { for (auto& [k, v] : b) a[k].insert(a[k].end(), v.begin(), v.end()); }
}  // namespace hx

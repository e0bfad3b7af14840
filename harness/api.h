// The exported interface (bindings.h) as seen by a caller: results as JSON, errors as exceptions.
#pragma once
#include "prog.h"
#include "rtbot/bindings.h"
namespace hx {
using json = nlohmann::json;
inline Flat flatJson(const string& s) {
  Flat f; auto j = json::parse(s); if (j.is_null()) return f;
  for (auto& [id, om] : j.items()) for (auto& [p, v] : om.items()) for (auto& m : v) f[id + ":" + p].push_back(M{m.at("time").get<uint64_t>(), m.at("value").is_null() ? std::nan("") : m.at("value").get<double>()});
  return f;
}
// registers a program without going through the validation (which does not know pipelines)
inline void put(const string& id, const string& js) { rtbot::Program p(js); createProgram(id, p.serialize()); }
inline string err(const std::function<void()>& f) { try { f(); return ""; } catch (std::exception& e) { string s = e.what(); return s.empty() ? "error" : s; } }
inline bool gone(const string& id) { return !err([&] { getProgramEntryOperatorId(id); }).empty(); }
struct Batch { vector<uint64_t> t; vector<double> v; vector<string> p; void add(const In& x) { t.push_back(x.m.t); v.push_back(x.m.v); p.push_back("i" + to_string(x.port)); } };
}  // namespace hx

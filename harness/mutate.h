// A hand-written judge of program definitions (BAD: malformed in a listed way, GOOD: certainly well formed, OPEN: neither) and the mutations of a definition.
#pragma once
#include "opdoc.h"
namespace hx {
inline Verdict param(const Param& p, const OpDoc& d, const json& v);
inline Verdict judge(const json& j, bool nested, Ports2* shape = nullptr);
inline set<string> names(const char* c, size_t n) { set<string> s; for (size_t i = 1; i <= n; i++) s.insert(c + to_string(i)); return s; }
inline Verdict oper(const json& x, string& id, Ports2& ports) {
  if (!x.is_object() || !x.contains("id") || !x["id"].is_string() || !x.contains("type") || !x["type"].is_string()) return BAD;
  id = x["id"]; auto d = opDoc(x["type"]); if (!d) return BAD;
  Verdict v = id.empty() ? OPEN : GOOD;
  for (auto& p : d->params) v = both(v, x.contains(p.name) ? param(p, *d, x[p.name]) : p.req ? BAD : GOOD);
  if (v != GOOD) return v;
  const string& t = d->type; bool counted = !d->params.empty() && d->params[0].name == "numPorts"; size_t n = counted && x.contains("numPorts") ? x["numPorts"].get<size_t>() : t == "Join" ? 2 : 1;
  if (t == "Input" || t == "Output" || t == "Join") { ports.data = names("i", n); ports.out = names("o", n); }
  else if (t == "Demultiplexer") { ports.data = {"i1"}; ports.control = names("c", n); ports.out = names("o", n); }
  else if (t == "Linear") { ports.data = names("i", x["coeff"].size()); ports.out = {"o1"}; }
  else if (t == "Variable") { ports.data = {"i1"}; ports.control = {"c1"}; ports.out = {"o1"}; }
  else if (t == "Pipeline") judge(x["prog"], true, &ports);
  else { static const set<string> two = {"And", "Or", "Plus", "Minus", "Multiplication", "Division", "GreaterThanStream", "LessThanStream"}; ports.data = names("i", two.count(t) ? 2 : 1); ports.out = {"o1"}; }
  return v;
}
inline Verdict param(const Param& p, const OpDoc& d, const json& v) {
  auto num = [](const json& x) { return x.is_number() ? GOOD : x.is_boolean() ? OPEN : BAD; };
  switch (p.k) {
    case INT: if (v.is_boolean()) return OPEN; if (!v.is_number()) return BAD; if (!v.is_number_integer()) return OPEN;
      if (p.name == "times" || (d.type == "TimeShift" && v.get<long>() < 1)) return v.get<long>() < -1000 ? OPEN : p.name == "times" ? GOOD : OPEN;
      if (v.get<long>() < 0) return BAD; if (v.get<long>() == 0 && (d.type == "Input" || d.type == "Output")) return OPEN; return v.get<long>() < p.min ? BAD : GOOD;
    case NUM: return num(v);
    case NUMS: { if (!v.is_array() || (long)v.size() < p.min) return BAD; Verdict r = GOOD; for (auto& x : v) r = both(r, num(x)); return r; }
    case POINTS: { if (v.is_object()) return OPEN; if (!v.is_array() || v.size() < 2) return BAD; Verdict r = GOOD; set<double> xs;
      for (auto& x : v) { if (!x.is_array() || x.size() < 2) return BAD; r = both(r, both(num(x[0]), num(x[1]))); if (x.size() > 2) r = both(r, OPEN); if (x[0].is_number() && !xs.insert(x[0].get<double>()).second) r = both(r, OPEN); } return r; }
    case ENUM: return v == "linear" || v == "hermite" ? GOOD : BAD;
    case BOOL: return v.is_boolean() ? GOOD : BAD;
    case PROG: return v.is_object() ? judge(v, true) : BAD;
  }
  return OPEN;
}
inline Verdict judge(const json& j, bool nested, Ports2* shape) {
  if (!j.is_object()) return BAD;
  Verdict v = GOOD; string entry;
  if (!nested) { if (!j.contains("entryOperator") || !j["entryOperator"].is_string() || j["entryOperator"] == "") return BAD; entry = j["entryOperator"]; }
  if (!j.contains("operators") || !j.contains("connections")) return BAD;
  const json &o = j["operators"], &c = j["connections"];
  if (o.is_primitive() && !o.is_null()) return BAD; if (c.is_primitive() && !c.is_null()) return BAD; if (!o.is_array() || !c.is_array()) v = OPEN;
  std::map<string, Ports2> ops; set<string> unclear;
  for (auto& x : o) { string id; Ports2 p; Verdict w = oper(x, id, p); if (w == BAD) return BAD; if (ops.count(id)) { w = OPEN; } if (w == OPEN) unclear.insert(id); v = both(v, w); ops[id] = p; }
  if (!nested) { if (!ops.count(entry)) return BAD; if (!unclear.count(entry) && !ops[entry].control.empty()) return BAD; }
  set<std::pair<string, string>> usedIn, usedOut;
  for (auto& x : c) {
    if (!x.is_object()) return BAD;
    for (auto k : {"from", "to"}) if (!x.contains(k) || !x[k].is_string() || !ops.count(x[k])) return BAD;
    for (auto k : {"fromPort", "toPort"}) if (x.contains(k) && !x[k].is_string()) return BAD;
    string f = x["from"], t = x["to"], fp = x.value("fromPort", ""), tp = x.value("toPort", ""); if (unclear.count(f) || unclear.count(t)) continue;
    auto &F = ops[f], &T = ops[t];
    if (fp.empty()) { if (F.out.size() != 1) return BAD; fp = *F.out.begin(); } if (!F.out.count(fp)) return BAD;
    if (tp.empty()) { if (T.data.size() != 1 || !T.control.empty()) return BAD; tp = *T.data.begin(); } if (!T.data.count(tp) && !T.control.count(tp)) return BAD;
    usedIn.insert({t, tp}); usedOut.insert({f, fp});
  }
  if (shape) { size_t a = 0, b = 0; for (auto& [id, p] : ops) { for (auto& q : p.data) a += !usedIn.count({id, q}); for (auto& q : p.out) b += !usedOut.count({id, q}); } shape->data = names("i", a); shape->out = names("o", b); }
  return v;
}
inline const vector<json>& pool() { static const vector<json> p = [] { vector<json> v; for (auto s : {"null", "true", "0", "1", "-1", "2", "2.5", "-3.5", "\"\"", "\"x\"", "\"o1\"", "\"o2\"", "\"i1\"", "\"c1\"", "\"in\"", "\"Identity\"", "\"Nothing\"", "[]", "[1]", "[1,2,3]", "[[0,1],[1,2]]", "[[0],[1]]", "{}", "{\"a\":1}"}) v.push_back(json::parse(s)); return v; }(); return p; }
inline const vector<json>& fewValues() { static const vector<json> p = [] { vector<json> v; for (auto s : {"null", "-1", "\"x\"", "[]"}) v.push_back(json::parse(s)); return v; }(); return p; }
using P = json::json_pointer;
inline void walk(const json& j, const P& at, vector<P>& out) { if (!at.empty()) out.push_back(at); if (j.is_object()) for (auto& [k, v] : j.items()) walk(v, at / k, out); if (j.is_array()) for (size_t i = 0; i < j.size(); i++) walk(j[i], at / i, out); }
inline void removeAt(json& j, const P& p) { json& parent = j.at(p.parent_pointer()); if (parent.is_object()) parent.erase(p.back()); else parent.erase(std::stoul(p.back())); }
// one mutation chosen from all: a member or element deleted, replaced, duplicated
inline string mutate(Ctx& c, json& j, const vector<json>& vals) {
  vector<P> ps; walk(j, P(), ps); if (ps.empty()) return "nothing left";
  P p = ps[c.choose((int)ps.size())]; int k = c.choose((int)vals.size() + 2);
  if (k == 0) { removeAt(j, p); return "without " + p.to_string(); }
  if (k == 1) { json& parent = j.at(p.parent_pointer()); if (parent.is_array()) { json x = j.at(p); parent.push_back(x); return "twice " + p.to_string(); } parent[p.back() + "_"] = parent[p.back()]; removeAt(j, p); return "misnamed " + p.to_string(); }
  j.at(p) = vals[k - 2]; return p.to_string() + " = " + vals[k - 2].dump();
}
}  // namespace hx

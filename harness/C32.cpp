#include "mutate.h"
using namespace hx;
// The published schema, written down by hand a second time: what validation must answer for a definition.
static bool whole(const json& v) { return v.is_number_integer() || (v.is_number_float() && std::floor(v.get<double>()) == v.get<double>()); }
static Verdict shapeParam(const OpDoc& d, const Param& p, const json& v) {
  switch (p.k) {
    case INT: return whole(v) && (p.name == "times" || v.get<double>() >= p.min) ? GOOD : BAD;
    case NUM: return d.type == "LessThan" ? (whole(v) ? GOOD : BAD) : v.is_number() ? GOOD : BAD;
    case NUMS: if (!v.is_array() || (long)v.size() < p.min) return BAD; for (auto& x : v) if (!x.is_number()) return BAD; return GOOD;
    case POINTS: if (!v.is_array() || v.size() < 2) return BAD; for (auto& x : v) if (!x.is_array() || x.size() != 2 || !x[0].is_number() || !x[1].is_number()) return BAD; return GOOD;
    case ENUM: return v == "linear" || v == "hermite" ? GOOD : BAD;
    default: return GOOD;
  }
}
static Verdict shapeOp(const json& x) {
  if (!x.is_object() || !x.contains("id") || !x["id"].is_string() || !x.contains("type") || !x["type"].is_string()) return BAD;
  auto d = opDoc(x["type"]); if (!d || !d->inSchema) return BAD;
  for (auto& p : d->params) { if (d->type == "Difference") continue; if (x.contains(p.name) ? shapeParam(*d, p, x[p.name]) == BAD : p.req) return BAD; }
  return GOOD;
}
static Verdict shape(const json& j) {
  if (!j.is_object()) return BAD;
  for (auto k : {"operators", "connections", "entryOperator"}) if (!j.contains(k)) return BAD;
  for (auto k : {"title", "description", "author", "license", "entryOperator"}) if (j.contains(k) && !j[k].is_string()) return BAD;
  Verdict v = GOOD;
  if (j.contains("date")) { if (!j["date"].is_string()) return BAD; if (j["date"] != "2024-02-28") return BAD; }
  if (j.contains("apiVersion") && j["apiVersion"] != "v1") return BAD;
  if (j.contains("output")) { if (!j["output"].is_object()) return BAD; for (auto& [k, o] : j["output"].items()) { if (!o.is_array()) return BAD; for (auto& p : o) if (!p.is_string()) return BAD; } }
  if (!j["operators"].is_array() || !j["connections"].is_array()) return BAD;
  for (auto& x : j["operators"]) if (shapeOp(x) == BAD) return BAD;
  for (auto& x : j["connections"]) { if (!x.is_object()) return BAD; for (auto k : {"from", "to"}) if (!x.contains(k)) return BAD; for (auto& [k, p] : x.items()) if ((k != "from" && k != "to" && k != "fromPort" && k != "toPort") || !p.is_string()) return BAD; }
  return v;
}
static bool loops(const json& j) {  // only for definitions of good shape
  std::map<string, set<string>> next; for (auto& x : j["connections"]) next[x["from"]].insert(x["to"].get<string>());
  std::function<bool(const string&, set<string>)> go = [&](const string& s, set<string> seen) { if (!seen.insert(s).second) return true; for (auto& t : next[s]) if (go(t, seen)) return true; return false; };
  for (auto& x : j["operators"]) if (go(x["id"], {})) return true; return false;
}
static string answer(Ctx& c, const string& way, const string& r, Verdict want, const std::function<string()>& show) {
  c.step(); json a = json::parse(r, nullptr, false); c.check(!a.is_discarded() && a.is_object() && a.contains("valid") && a["valid"].is_boolean(), "not an answer", [&] { return way + " answered " + r + " for " + show(); });
  bool ok = a["valid"]; string e = a.value("error", ""); c.check(ok ? e.empty() : !e.empty(), "answer without error", [&] { return way + " answered " + r + " for " + show(); });
  if (want == BAD) c.check(!ok, way + " accepted a definition of wrong shape", [&] { return way + " accepted " + show(); });
  if (want == GOOD) c.check(ok, way + " refused a definition of the documented shape", [&] { return way + " refused with \"" + e + "\": " + show(); });
  return e;
}
static const string& other() { static const string s = R"({"entryOperator":"e","operators":[{"type":"Input","id":"e"},{"type":"MovingAverage","id":"s","n":2}],"connections":[{"from":"e","to":"s","fromPort":"o1","toPort":"i1"}]})"; return s; }
static void attempt(Ctx& c, const string& text, const string& how, bool alive) {
  json j = json::parse(text, nullptr, false); Verdict want = j.is_discarded() ? BAD : shape(j);
  c.log([&] { return how + "\n" + text + "\n" + (want == BAD ? "wrong shape" : "documented shape"); }); c.outcome(want); c.state(mc::mixs(want, text));
  auto show = [&] { return how + ": " + text; }; deleteProgram("q"); rtbot::Bytes before;
  if (alive) { string r = createProgram("q", other()); Batch b; b.add({1, M{1, 1}}); processBatch("q", b.t, b.v, b.p); addToMessageBuffer("q", "i1", 2, 5); before = serializeProgram("q"); }
  string e = answer(c, "validate", validate(text), want, show);
  string r, thrown = err([&] { r = createProgram("q", text); });
  if (want == BAD) {
    c.check(thrown.empty(), "createProgram threw", [&] { return "createProgram threw \"" + thrown + "\" for " + show(); });
    string e2 = answer(c, "createProgram", r, BAD, show); c.check(e == e2, "different error", [&] { return "createProgram says \"" + e2 + "\", validate says \"" + e + "\" for " + show(); });
    if (!alive) c.check(gone("q"), "refused but registered", [&] { return "the id exists after the refusal of " + show(); });
    else { c.check(!gone("q") && serializeProgram("q") == before, "refusal touched a running program", [&] { return "the program that ran under the id has changed after the refusal of " + show(); });
      auto f = flatJson(processMessageBuffer("q")); Flat w = {{"e:o1", {M{2, 5}}}, {"s:o1", {M{2, 3}}}}; c.check(exact(f, w), "refusal touched a running program", [&] { return "the program that ran under the id answers " + hx::str(f) + " after the refusal of " + show(); }); }
    deleteProgram("q"); string r2, e3 = err([&] { r2 = createProgram("q", other()); }); c.check(r2.empty() && e3.empty(), "id unusable", [&] { return "a valid program can not be created under the id after the refusal of " + show() + " " + r2 + e3; });
  } else if (!alive && judge(j, false) == GOOD && !loops(j)) {
    c.check(thrown.empty() && r.empty() && !gone("q"), "valid but not created", [&] { return "creating a valid program answered \"" + r + thrown + "\" for " + show(); });
    string entry = getProgramEntryOperatorId("q"); c.check(entry == j["entryOperator"], "wrong entry operator", [&] { return "entry operator " + entry + " for " + show(); });
    std::map<string, vector<string>> filter, wantFilter; filter = json::parse(getProgramOutputFilter("q")).get<decltype(filter)>(); if (j.contains("output")) wantFilter = j["output"].get<decltype(filter)>();
    c.check(filter == wantFilter, "wrong output filter", [&] { return "output filter " + json(filter).dump() + " for " + show(); });
    Batch b; vector<string> ports = json::parse(getProgramEntryPorts("q")).get<vector<string>>(); for (uint64_t t = 1; t <= 4; t++) for (auto& p : ports) { b.t.push_back(t); b.v.push_back((double)((t * 5) % 3)); b.p.push_back(p); }
    string out; e = err([&] { out = processBatchDebug("q", b.t, b.v, b.p); flatJson(out); }); c.check(e.empty(), "valid but can not run", [&] { return "running a valid program failed with \"" + e + "\": " + show(); }); c.outcome(mc::mixs(3, out));
  }
  deleteProgram("q");
}
static json around(const json& op) {
  auto d = opDoc(op.value("type", "")); json j = {{"entryOperator", "in"}, {"operators", json::array({json{{"type", "Input"}, {"id", "in"}}, op})}, {"connections", json::array()}};
  if (!op.contains("id") || !op["id"].is_string()) return j; string t = d ? d->type : ""; if (t == "Demultiplexer") return j;  // what it is sent decides whether it can go on (C13)
  static const set<string> two = {"And", "Or", "Plus", "Minus", "Multiplication", "Division", "GreaterThanStream", "LessThanStream", "Join", "Linear"};
  if (t == "Variable") j["connections"].push_back({{"from", "in"}, {"to", op["id"]}, {"fromPort", "o1"}, {"toPort", "c1"}});
  j["connections"].push_back({{"from", "in"}, {"to", op["id"]}, {"fromPort", "o1"}, {"toPort", "i1"}}); if (two.count(t)) j["connections"].push_back({{"from", "in"}, {"to", op["id"]}, {"fromPort", "o1"}, {"toPort", "i2"}});
  return j;
}
static const vector<json>& values() { static const vector<json> v = [] { vector<json> v = pool(); for (auto s : {"2.0", "1e2", "-2.0", "0.5", "1e-9", "7", "[1,2]", "[1,\"a\"]", "[1.5]", "[null,1]", "[[0,1]]", "[[0,1],[1,2,3]]", "[[0,1],[1]]", "[[0,\"1\"],[1,2]]", "[[2,1],[-1,2.5],[0,0]]", "\"linear\"", "\"hermite\"", "\"cubic\"", "false"}) v.push_back(json::parse(s)); return v; }(); return v; }
static const json& rich() { static const json j = json::parse(R"({"title":"t","description":"d","date":"2024-02-28","apiVersion":"v1","author":"a","license":"MIT","entryOperator":"in","output":{"sum":["o1"],"j1":["o1","o2"]},
  "operators":[{"type":"Input","id":"in","numPorts":2},{"type":"Join","id":"j1","numPorts":2},{"type":"CumulativeSum","id":"sum"}],"connections":[{"from":"in","to":"j1","fromPort":"o1","toPort":"i1"},{"from":"in","to":"j1","fromPort":"o2","toPort":"i2"},{"from":"j1","to":"sum","fromPort":"o2","toPort":"i1"}]})"); return j; }
int main(int argc, char** argv) {
  mc::Main m; m.property = "C32";
  m.bounds = "every documented operator type: every parameter (alone and in pairs) left out, misnamed or given each of 43 values, ids and types likewise, with and without a running program under the id; validateOperator of every operator under every type name; a program with every documented member: every single mutation of every node with 43 values and pairs of mutations; output filters under 9 ids; texts that are not JSON";
  m.assumptions = {"json-schema-validator is not installed: a stand-in covers the draft-07 keywords the schema uses, and the schema is assembled from template and operator pages as tools/generator does", "the published schema asks for a whole number as LessThan's value and does not mention Difference's useOldestTime: taken as published"};
  m.parse(argc, argv);
  m.add("operators", [](Ctx& c) { vector<const OpDoc*> ds; for (auto& d : opDocs()) ds.push_back(&d); auto& d = *c.pick(ds); json op = example(d, "x"); string h = d.type; int k = c.choose(2 + (int)d.params.size());
    auto set = [&](const string& key) { auto v = values(); int x = c.choose((int)v.size() + 2); if (x == 0) { op.erase(key); h += " without " + key; } else if (x == 1) { if (op.contains(key)) { op[key + "_"] = op[key]; op.erase(key); h += ", misnamed " + key; } } else { op[key] = v[x - 2]; h += ", " + key + " = " + v[x - 2].dump(); } };
    if (k < (int)d.params.size()) { for (auto& p : d.params) set(p.name); } else set(k == (int)d.params.size() ? "id" : "extra"); bool alive = c.flip();
    answer(c, "validateOperator", validateOperator(d.type, op.dump()), shapeOp(op), [&] { return op.dump(); }); attempt(c, around(op).dump(), h, alive); });
  m.add("operator types", [](Ctx& c) { static const vector<string> more = {"", "input", "MovingAverage ", "Operator", "Filter", "type", "x"}; auto name = [&] { int i = c.choose((int)(opDocs().size() + more.size())); return i < (int)opDocs().size() ? opDocs()[i].type : more[i - opDocs().size()]; };
    auto& d = c.pick(opDocs()); json op = example(d, "x"); string t = name(); int k = c.choose(3); if (k == 1) op.erase("type"); if (k == 2) { op["type"] = t; }
    string as = k == 2 ? d.type : t; Verdict v = k == 1 ? BAD : both(shapeOp(op), op["type"] == as ? GOOD : BAD); answer(c, "validateOperator", validateOperator(as, op.dump()), v, [&] { return op.dump() + " as " + as; });
    if (k) attempt(c, around(op).dump(), "type " + t, false); else c.state(mc::mixs(2, as + d.type)); });
  m.add("operator texts", [](Ctx& c) { static const vector<string> t = {"", "\xff", "null", "[]", "{}", "0", "{\"type\":\"Input\"", "x"}; auto& d = c.pick(opDocs()); auto& x = c.pick(t); answer(c, "validateOperator", validateOperator(d.type, x), BAD, [&] { return x + " as " + d.type; }); c.state(mc::mixs(1, d.type + x)); });
  m.add("program", [](Ctx& c) { json j = rich(); string h = mutate(c, j, values()); attempt(c, j.dump(), h, c.flip()); });
  m.add("program members", [](Ctx& c) { json j = rich(); static const vector<string> k = {"title", "description", "date", "apiVersion", "author", "license", "entryOperator", "output", "operators", "connections", "extra", "Output", "x-y"}; auto set = [&] { auto key = c.pick(k); auto v = values(); v.push_back("yesterday"); v.push_back("v2"); v.push_back("2024-1-1"); int x = c.choose((int)v.size() + 1); if (x) j[key] = v[x - 1]; else j.erase(key); }; set(); if (c.flip()) { static const vector<string> few = {"title", "output", "operators", "entryOperator", "extra"}; string key = c.pick(few); if (c.flip()) j.erase(key); else j[key] = c.pick(fewValues()); } attempt(c, j.dump(), "members", false); });
  m.add("output filters", [](Ctx& c) { static const vector<string> ids = {"sum", "j1", "z", "vuxyz", "A-b_9", "ünï", "with space", "a.b", ""}; json j = rich(); string id = c.pick(ids); json o = json::object(); auto v = values(); v.push_back(json::array({"o1"})); v.push_back(json::array({"o1", "o2"})); v.push_back(json::array({"o1", 3})); v.push_back(json::array({json::array({"o1"})})); o[id] = c.pick(v); if (c.flip()) o["j1"] = json::array({"o1"}); j["output"] = o; attempt(c, j.dump(), "output of " + id, false); });
  m.add("connection members", [](Ctx& c) { json j = rich(); auto& x = j["connections"][c.choose(3)]; static const vector<string> k = {"from", "to", "fromPort", "toPort", "extra", "From"}; for (int i = 0; i < 2; i++) { string key = c.pick(k); auto v = pool(); v.push_back("sum"); v.push_back("j1"); v.push_back("i2"); int q = c.choose((int)v.size() + 1); if (q) x[key] = v[q - 1]; else x.erase(key); } attempt(c, j.dump(), "connection", false); });
  m.add("texts", [](Ctx& c) { static const vector<string> t = {"", " ", "null", "[]", "{}", "0", "\"x\"", "true", "nul", "{\"entryOperator\":\"e\"}", "\xff\xfe", "{} {}", "//", "{\"a\":}"}; auto& x = c.pick(t); attempt(c, x, "text", c.flip()); });
  m.add("program, cut texts", [](Ctx& c) { string t = rich().dump(); size_t at = c.choose((int)t.size()); int k = c.choose(3); if (k == 0) t = t.substr(0, at); else if (k == 1) t.erase(at, 1); else t[at] = '"'; attempt(c, t, "text changed at byte " + std::to_string(at), false); });
  m.add("program, pairs", [](Ctx& c) { json j = rich(); string h = mutate(c, j, fewValues()); h += " and " + mutate(c, j, vector<json>{-1, "x"}); attempt(c, j.dump(), h, false); });
  m.add("program, pairs deep", [](Ctx& c) { json j = rich(); string h = mutate(c, j, values()); h += " and " + mutate(c, j, fewValues()); attempt(c, j.dump(), h, c.flip()); }, true);
  return m.run();
}

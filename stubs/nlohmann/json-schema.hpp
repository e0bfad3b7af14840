// Stand-in for pboettch/json-schema-validator (not installed here): the draft-07 keywords that the published
// rtbot schema uses.  Unknown assertion keywords are an error, so a schema change can not be ignored silently.
#pragma once
#include <map>
#include <unordered_map>
#include <functional>
#include <map>
#include <memory>
#include <nlohmann/json.hpp>
#include <regex>
#include <set>
#include <stdexcept>
#include <string>
namespace nlohmann { namespace json_schema {
using schema_loader = std::function<void(const std::string&, json&)>;
using format_checker = std::function<void(const std::string&, const std::string&)>;
inline void default_string_format_check(const std::string& f, const std::string& v) {
  if (f == "date" && !std::regex_match(v, std::regex("[0-9]{4}-[0-9]{2}-[0-9]{2}"))) throw std::invalid_argument(v + " is not a date string");
}
class json_validator {
  std::shared_ptr<const json> root_;
  static bool isType(const json& j, const std::string& t) {
    if (t == "object") return j.is_object();
    if (t == "array") return j.is_array();
    if (t == "string") return j.is_string();
    if (t == "number") return j.is_number();
    if (t == "boolean") return j.is_boolean();
    if (t == "null") return j.is_null();
    if (t == "integer") return j.is_number_integer() || (j.is_number_float() && j.get<double>() == (double)(long long)j.get<double>());
    throw std::invalid_argument("unknown type " + t);
  }
  struct Err { std::string m; };  // first error found; checking is by return value, so that refused alternatives are cheap
  static bool fail(Err* e, const std::string& path, const char* m) { if (e && e->m.empty()) e->m = "At " + path + ": " + m; return false; }
  static const std::regex& rx(const std::string& s) { static std::map<std::string, std::regex> c; auto it = c.find(s); if (it == c.end()) it = c.emplace(s, std::regex(s)).first; return it->second; }
  static std::string sub(Err* e, const std::string& p, const std::string& k) { return e ? p + "/" + k : p; }
  static bool check(const json& s, const json& j, const std::string& p, Err* e) {
    if (s.is_boolean()) return s.get<bool>() || fail(e, p, "not allowed");
    static const std::set<std::string> known = {"$id", "$schema", "type", "properties", "patternProperties", "additionalProperties", "required", "items", "minItems", "maxItems",
      "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "enum", "const", "oneOf", "anyOf", "allOf", "format", "minLength", "maxLength", "default", "examples", "description", "title"};
    for (auto it = s.begin(); it != s.end(); ++it) if (!known.count(it.key())) throw std::logic_error("schema keyword not supported by the stand-in: " + it.key());
    auto kw = [&](const char* k) -> const json* { auto it = s.find(k); return it == s.end() ? nullptr : &*it; };
    if (auto t = kw("type")) {
      bool ok = false;
      if (t->is_array()) { for (auto& x : *t) ok = ok || isType(j, x); } else ok = isType(j, *t);
      if (!ok) return fail(e, p, "unexpected instance type");
    }
    if (auto q = kw("enum")) { bool ok = false; for (auto& x : *q) ok = ok || x == j; if (!ok) return fail(e, p, "instance not found in required enum"); }
    if (auto q = kw("const")) if (*q != j) return fail(e, p, "instance not const");
    if (j.is_object()) {
      if (auto q = kw("required")) for (auto& r : *q) if (!j.contains(r.get_ref<const std::string&>())) return fail(e, p, ("required property '" + r.get<std::string>() + "' not found in object").c_str());
      auto pr = kw("properties"), pp = kw("patternProperties"), ap = kw("additionalProperties");
      if (pr && pr->contains("type") && j.contains("type") && !check((*pr)["type"], j["type"], e ? p + "/type" : p, e)) return false;  // cheapest refusal first
      for (auto it = j.begin(); it != j.end(); ++it) {
        bool seen = false;
        if (pr && pr->contains(it.key())) { seen = true; if (!check((*pr)[it.key()], it.value(), sub(e, p, it.key()), e)) return false; }
        if (pp) for (auto q = pp->begin(); q != pp->end(); ++q) if (std::regex_search(it.key(), rx(q.key()))) { seen = true; if (!check(q.value(), it.value(), sub(e, p, it.key()), e)) return false; }
        if (!seen && ap && !check(*ap, it.value(), sub(e, p, it.key()), e)) return false;
      }
    }
    if (j.is_array()) {
      if (auto q = kw("minItems")) if (j.size() < q->get<size_t>()) return fail(e, p, "array has too few items");
      if (auto q = kw("maxItems")) if (j.size() > q->get<size_t>()) return fail(e, p, "array has too many items");
      if (auto q = kw("items")) for (size_t i = 0; i < j.size(); i++) if (!check(*q, j[i], sub(e, p, std::to_string(i)), e)) return false;
    }
    if (j.is_number()) {
      double v = j.get<double>();
      if (auto q = kw("minimum")) if (v < q->get<double>()) return fail(e, p, "instance is below minimum");
      if (auto q = kw("maximum")) if (v > q->get<double>()) return fail(e, p, "instance exceeds maximum");
      if (auto q = kw("exclusiveMinimum")) if (v <= q->get<double>()) return fail(e, p, "instance is below minimum");
      if (auto q = kw("exclusiveMaximum")) if (v >= q->get<double>()) return fail(e, p, "instance exceeds maximum");
      if (auto q = kw("multipleOf")) { double d = v / q->get<double>(); if (d != (double)(long long)d) return fail(e, p, "instance is not a multiple"); }
    }
    if (j.is_string()) {
      if (auto q = kw("format")) { try { default_string_format_check(*q, j.get<std::string>()); } catch (std::exception& x) { return fail(e, p, x.what()); } }
      if (auto q = kw("minLength")) if (j.get<std::string>().size() < q->get<size_t>()) return fail(e, p, "instance is too short");
      if (auto q = kw("maxLength")) if (j.get<std::string>().size() > q->get<size_t>()) return fail(e, p, "instance is too long");
    }
    auto count = [&](const json& l) { int n = 0; for (auto& x : l) n += check(x, j, p, nullptr); return n; };
    if (auto q = kw("oneOf")) if (count(*q) != 1) return fail(e, p, "no or more than one subschema has succeeded");
    if (auto q = kw("anyOf")) if (count(*q) < 1) return fail(e, p, "no subschema has succeeded");
    if (auto q = kw("allOf")) for (auto& x : *q) if (!check(x, j, p, e)) return false;
    return true;
  }
 public:
  explicit json_validator(schema_loader = nullptr, format_checker = nullptr) {}
  void set_root_schema(const json& s) {
    static std::shared_ptr<const json> last; if (!last || *last != s) last = std::make_shared<json>(s);
    root_ = last;
  }
  // The verdict is a function of schema and document only, so it is remembered per pair.
  json validate(const json& j) const {
    static std::map<const json*, std::pair<std::shared_ptr<const json>, std::unordered_map<std::string, std::pair<bool, std::string>>>> memo;
    auto& m = memo[root_.get()]; m.first = root_;
    if (m.second.size() > 4096) m.second.clear();
    std::string k = j.dump(); auto it = m.second.find(k);
    if (it == m.second.end()) { Err e; bool ok = check(*root_, j, "", &e); it = m.second.emplace(k, std::make_pair(ok, e.m)).first; }
    if (!it->second.first) throw std::invalid_argument(it->second.second);
    return json(nullptr);
  }
};
}}  // namespace

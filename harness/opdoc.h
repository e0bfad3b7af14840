// What the documentation says about every operator: parameters and ports.  Written by hand from the operator pages, independent of code and schema.
#pragma once
#include "api.h"
namespace hx {
enum Kind { INT, NUM, NUMS, POINTS, ENUM, BOOL, PROG };
struct Param { string name; Kind k; bool req; long min = 1; };  // min: of the number, or of the number of elements
struct OpDoc { string type; vector<Param> params; bool inSchema = true; };
inline const vector<OpDoc>& opDocs() {
  static const vector<OpDoc> d = {
    {"Input", {{"numPorts", INT, false, 1}}}, {"Output", {{"numPorts", INT, false, 1}}}, {"Join", {{"numPorts", INT, false, 2}}}, {"Demultiplexer", {{"numPorts", INT, false, 1}}},
    {"Add", {{"value", NUM, true}}}, {"Scale", {{"value", NUM, true}}}, {"Power", {{"value", NUM, true}}}, {"Constant", {{"value", NUM, true}}}, {"EqualTo", {{"value", NUM, true}}}, {"GreaterThan", {{"value", NUM, true}}}, {"LessThan", {{"value", NUM, true}}},
    {"Variable", {{"value", NUM, false}}}, {"And", {}}, {"Or", {}}, {"Plus", {}}, {"Minus", {}}, {"Multiplication", {}}, {"Division", {}}, {"GreaterThanStream", {}}, {"LessThanStream", {}}, {"Identity", {}}, {"Count", {}}, {"CumulativeSum", {}},
    {"Difference", {{"useOldestTime", BOOL, false}}}, {"AutoRegressive", {{"coeff", NUMS, true, 1}}}, {"FiniteImpulseResponse", {{"coeff", NUMS, true, 1}}}, {"Linear", {{"coeff", NUMS, true, 2}}},
    {"MovingAverage", {{"n", INT, true, 1}}}, {"StandardDeviation", {{"n", INT, true, 1}}}, {"PeakDetector", {{"n", INT, true, 1}}}, {"RelativeStrengthIndex", {{"n", INT, true, 1}}, false},
    {"ConstantResampler", {{"interval", INT, true, 1}}}, {"CosineResampler", {{"dt", INT, true, 1}}}, {"HermiteResampler", {{"dt", INT, true, 1}}}, {"TimeShift", {{"dt", INT, false, 1}, {"times", INT, false, -1000000}}},
    {"Function", {{"points", POINTS, true, 2}, {"interpolationType", ENUM, false}}}, {"Pipeline", {{"prog", PROG, true}}, false}};
  return d;
}
inline const OpDoc* opDoc(const string& t) { for (auto& d : opDocs()) if (d.type == t) return &d; return nullptr; }
// a definition with every parameter given
inline json example(const OpDoc& d, const string& id) {
  json j = {{"type", d.type}, {"id", id}};
  for (auto& p : d.params) switch (p.k) {
    case INT: j[p.name] = std::max(p.min, 2L); break; case NUM: j[p.name] = 3; break; case NUMS: j[p.name] = {1, -2}; break; case POINTS: j[p.name] = json::parse("[[0,0],[1,2],[3,1]]"); break;
    case ENUM: j[p.name] = "hermite"; break; case BOOL: j[p.name] = false; break; case PROG: j[p.name] = json::parse(R"({"operators":[{"type":"Identity","id":"q"},{"type":"MovingAverage","id":"w","n":2}],"connections":[{"from":"q","to":"w"}]})"); break; }
  return j;
}
enum Verdict { BAD, OPEN, GOOD };
inline Verdict both(Verdict a, Verdict b) { return std::min(a, b); }
struct Ports2 { set<string> data, control, out; };
}  // namespace hx

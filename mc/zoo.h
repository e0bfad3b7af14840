// The operator zoo: every operator type with representative parameters, as a real object, as JSON and as a
// reference model.
#pragma once
#include "ref.h"
#include <array>
#include <list>
#include <numeric>
#include <unordered_map>
#include <variant>

#include "rtbot/Message.h"
#include "rtbot/Operator.h"
#include "rtbot/Input.h"
#include "rtbot/Output.h"
#include "rtbot/Join.h"
#include "rtbot/Demultiplexer.h"
#include "rtbot/finance/RelativeStrengthIndex.h"
#include "rtbot/std/Add.h"
#include "rtbot/std/And.h"
#include "rtbot/std/AutoRegressive.h"
#include "rtbot/std/Constant.h"
#include "rtbot/std/ConstantResampler.h"
#include "rtbot/std/CosineResampler.h"
#include "rtbot/std/Count.h"
#include "rtbot/std/CumulativeSum.h"
#include "rtbot/std/Difference.h"
#include "rtbot/std/Division.h"
#include "rtbot/std/EqualTo.h"
#include "rtbot/std/FiniteImpulseResponse.h"
#include "rtbot/std/Function.h"
#include "rtbot/std/GreaterThan.h"
#include "rtbot/std/GreaterThanStream.h"
#include "rtbot/std/HermiteResampler.h"
#include "rtbot/std/Identity.h"
#include "rtbot/std/LessThan.h"
#include "rtbot/std/LessThanStream.h"
#include "rtbot/std/Linear.h"
#include "rtbot/std/Minus.h"
#include "rtbot/std/MovingAverage.h"
#include "rtbot/std/Multiplication.h"
#include "rtbot/std/Or.h"
#include "rtbot/std/PeakDetector.h"
#include "rtbot/std/Plus.h"
#include "rtbot/std/Power.h"
#include "rtbot/std/Scale.h"
#include "rtbot/std/StandardDeviation.h"
#include "rtbot/std/TimeShift.h"
#include "rtbot/std/Variable.h"

namespace zoo {
using T = uint64_t; using V = double;
using Op = rtbot::Operator<T, V>;
using OpPtr = std::unique_ptr<Op>;
using PM = rtbot::ProgramMessage<T, V>;
using OM = rtbot::OperatorMessage<T, V>;
using Msg = rtbot::Message<T, V>;
using ref::M; using ref::Out; using ref::RefPtr; using ref::RefOp;

inline int portNo(const std::string& p) { return atoi(p.c_str() + 1); }

// everything the operator `id` emitted, per output port; ports that emitted nothing are left out
inline Out extract(const PM& pm, const std::string& id) {
  Out o; auto it = pm.find(id); if (it == pm.end()) return o;
  for (auto& [port, msgs] : it->second) for (auto& m : msgs) o[portNo(port)].push_back(M{m.time, m.value});
  return o;
}
inline Out feed(Op& op, bool control, int port, M m) {
  if (control) { op.receiveControl(Msg(m.t, m.v), "c" + std::to_string(port)); return extract(op.executeControl(), op.id); }
  op.receiveData(Msg(m.t, m.v), "i" + std::to_string(port)); return extract(op.executeData(), op.id);
}

struct Def {
  std::string name, type, params;  // params: JSON members besides id and type, with a leading comma when not empty
  int nin, nctl, nout;
  std::function<OpPtr(std::string)> real;
  std::function<RefPtr()> ref;
  std::string json(const std::string& id) const { return "{\"type\":\"" + type + "\",\"id\":\"" + id + "\"" + params + "}"; }
};

inline std::string num(double v) { char b[40]; snprintf(b, 40, "%.17g", v); return b; }
inline std::string arr(const std::vector<double>& c) { std::string s = "["; for (size_t i = 0; i < c.size(); i++) s += (i ? "," : "") + num(c[i]); return s + "]"; }

template <class O, class... A> std::function<OpPtr(std::string)> mk(A... a) { return [=](std::string id) { return std::make_unique<O>(id, a...); }; }
template <class R, class... A> std::function<RefPtr()> mr(A... a) { return [=]() { return std::make_unique<R>(a...); }; }
inline std::function<RefPtr()> rmap(std::function<std::optional<double>(double)> f) {
  return [f]() { return std::make_unique<ref::RMap>([f](M m) -> std::optional<M> { auto r = f(m.v); if (!r) return std::nullopt; return M{m.t, *r}; }); };
}
inline std::function<RefPtr()> rbin(std::function<std::optional<double>(double, double)> f) { return [f]() { return ref::rBin(f); }; }

inline Def dInput(int n) { return {"Input" + std::to_string(n), "Input", ",\"numPorts\":" + std::to_string(n), n, 0, n, mk<rtbot::Input<T, V>>((size_t)n), mr<ref::RInput>()}; }
inline Def dOutput(int n) { return {"Output" + std::to_string(n), "Output", ",\"numPorts\":" + std::to_string(n), n, 0, n, mk<rtbot::Output<T, V>>((size_t)n), mr<ref::ROutput>()}; }
inline Def dJoin(int n) { return {"Join" + std::to_string(n), "Join", ",\"numPorts\":" + std::to_string(n), n, 0, n, mk<rtbot::Join<T, V>>((size_t)n), [n]() { return ref::rTuple(n); }}; }
inline Def dDemux(int n) { return {"Demultiplexer" + std::to_string(n), "Demultiplexer", ",\"numPorts\":" + std::to_string(n), 1, n, n, mk<rtbot::Demultiplexer<T, V>>((size_t)n), mr<ref::RDemux>(n)}; }
inline Def dVariable(double d) { return {"Variable(" + num(d) + ")", "Variable", ",\"value\":" + num(d), 1, 1, 1, mk<rtbot::Variable<T, V>>(d), mr<ref::RVariable>(d)}; }
inline Def dLinear(std::vector<double> c) { return {"Linear" + arr(c), "Linear", ",\"coeff\":" + arr(c), (int)c.size(), 0, 1, mk<rtbot::Linear<T, V>>(c), [c]() { return ref::rLinear(c); }}; }
inline Def dMA(int n) { return {"MovingAverage" + std::to_string(n), "MovingAverage", ",\"n\":" + std::to_string(n), 1, 0, 1, mk<rtbot::MovingAverage<T, V>>((size_t)n), [n]() { return ref::rMA(n); }}; }
inline Def dStd(int n) { return {"StandardDeviation" + std::to_string(n), "StandardDeviation", ",\"n\":" + std::to_string(n), 1, 0, 1, mk<rtbot::StandardDeviation<T, V>>((size_t)n), [n]() { return ref::rStd(n); }}; }
inline Def dPeak(int n) { return {"PeakDetector" + std::to_string(n), "PeakDetector", ",\"n\":" + std::to_string(n), 1, 0, 1, mk<rtbot::PeakDetector<T, V>>((size_t)n), [n]() { return ref::rPeak(n); }}; }
inline Def dFIR(std::vector<double> c) { return {"FiniteImpulseResponse" + arr(c), "FiniteImpulseResponse", ",\"coeff\":" + arr(c), 1, 0, 1, mk<rtbot::FiniteImpulseResponse<T, V>>(c), [c]() { return ref::rFIR(c); }}; }
inline Def dDiff(bool newest = true) { return {newest ? "Difference" : "Difference(oldest)", "Difference", newest ? "" : ",\"useOldestTime\":false", 1, 0, 1, mk<rtbot::Difference<T, V>>(newest), [newest]() { return ref::rDiff(newest); }}; }
inline Def dAR(std::vector<double> c) { return {"AutoRegressive" + arr(c), "AutoRegressive", ",\"coeff\":" + arr(c), 1, 0, 1, mk<rtbot::AutoRegressive<T, V>>(c), mr<ref::RAR>(c)}; }
inline Def dRSI(int n) { return {"RelativeStrengthIndex" + std::to_string(n), "RelativeStrengthIndex", ",\"n\":" + std::to_string(n), 1, 0, 1, mk<rtbot::RelativeStrengthIndex<T, V>>((size_t)n), mr<ref::RRSI>((size_t)n)}; }
inline Def dConstRes(uint64_t d) { return {"ConstantResampler" + std::to_string(d), "ConstantResampler", ",\"interval\":" + std::to_string(d), 1, 0, 1, mk<rtbot::ConstantResampler<T, V>>(d), mr<ref::RConstRes>(d)}; }
inline Def dCos(uint64_t d) { return {"CosineResampler" + std::to_string(d), "CosineResampler", ",\"dt\":" + std::to_string(d), 1, 0, 1, mk<rtbot::CosineResampler<T, V>>(d), mr<ref::RInterp>(d, false)}; }
inline Def dHer(uint64_t d) { return {"HermiteResampler" + std::to_string(d), "HermiteResampler", ",\"dt\":" + std::to_string(d), 1, 0, 1, mk<rtbot::HermiteResampler<T, V>>(d), mr<ref::RInterp>(d, true)}; }
inline Def dShift(uint64_t dt, int times) { return {"TimeShift(" + std::to_string(dt) + "," + std::to_string(times) + ")", "TimeShift", ",\"dt\":" + std::to_string(dt) + ",\"times\":" + std::to_string(times), 1, 0, 1, mk<rtbot::TimeShift<T, V>>(dt, times), [dt, times]() { return ref::rShift((long long)dt * times); }}; }
inline Def dFunction(std::vector<std::pair<double, double>> p, bool h) {
  std::string js = "["; for (size_t i = 0; i < p.size(); i++) js += (i ? ",[" : "[") + num(p[i].first) + "," + num(p[i].second) + "]"; js += "]";
  return {"Function" + js + (h ? "h" : "l"), "Function", ",\"points\":" + js + ",\"interpolationType\":\"" + (h ? "hermite" : "linear") + "\"", 1, 0, 1,
          [p, h](std::string id) { return std::make_unique<rtbot::Function<T, V>>(id, p, h ? "hermite" : "linear"); }, mr<ref::RFunction>(p, h)};
}
inline Def dVal(const std::string& type, double c) {
  std::string name = type + "(" + num(c) + ")", par = ",\"value\":" + num(c);
  if (type == "Add") return {name, type, par, 1, 0, 1, mk<rtbot::Add<T, V>>(c), rmap([c](double x) { return std::optional<double>(x + c); })};
  if (type == "Scale") return {name, type, par, 1, 0, 1, mk<rtbot::Scale<T, V>>(c), rmap([c](double x) { return std::optional<double>(x * c); })};
  if (type == "Power") return {name, type, par, 1, 0, 1, mk<rtbot::Power<T, V>>(c), rmap([c](double x) { return std::optional<double>(std::pow(x, c)); })};
  if (type == "Constant") return {name, type, par, 1, 0, 1, mk<rtbot::Constant<T, V>>(c), rmap([c](double) { return std::optional<double>(c); })};
  if (type == "GreaterThan") return {name, type, par, 1, 0, 1, mk<rtbot::GreaterThan<T, V>>(c), rmap([c](double x) { return x > c ? std::optional<double>(x) : std::nullopt; })};
  if (type == "LessThan") return {name, type, par, 1, 0, 1, mk<rtbot::LessThan<T, V>>(c), rmap([c](double x) { return x < c ? std::optional<double>(x) : std::nullopt; })};
  if (type == "EqualTo") return {name, type, par, 1, 0, 1, mk<rtbot::EqualTo<T, V>>(c), rmap([c](double x) { return x == c ? std::optional<double>(x) : std::nullopt; })};
  throw std::logic_error("dVal " + type);
}
inline Def dPlain(const std::string& type) {
  using O = std::optional<double>;
  if (type == "Identity") return {type, type, "", 1, 0, 1, mk<rtbot::Identity<T, V>>(), rmap([](double x) { return O(x); })};
  if (type == "Count") return {type, type, "", 1, 0, 1, mk<rtbot::Count<T, V>>(), mr<ref::RCount>()};
  if (type == "CumulativeSum") return {type, type, "", 1, 0, 1, mk<rtbot::CumulativeSum<T, V>>(), mr<ref::RCumSum>()};
  if (type == "Plus") return {type, type, "", 2, 0, 1, mk<rtbot::Plus<T, V>>(), rbin([](double a, double b) { return O(a + b); })};
  if (type == "Minus") return {type, type, "", 2, 0, 1, mk<rtbot::Minus<T, V>>(), rbin([](double a, double b) { return O(a - b); })};
  if (type == "Multiplication") return {type, type, "", 2, 0, 1, mk<rtbot::Multiplication<T, V>>(), rbin([](double a, double b) { return O(a * b); })};
  if (type == "Division") return {type, type, "", 2, 0, 1, mk<rtbot::Division<T, V>>(), rbin([](double a, double b) { return b == 0 ? O() : O(a / b); })};
  if (type == "And") return {type, type, "", 2, 0, 1, mk<rtbot::And<T, V>>(), rbin([](double a, double b) { return O(a >= 0.5 && b >= 0.5 ? 1 : 0); })};
  if (type == "Or") return {type, type, "", 2, 0, 1, mk<rtbot::Or<T, V>>(), rbin([](double a, double b) { return O(a >= 0.5 || b >= 0.5 ? 1 : 0); })};
  if (type == "GreaterThanStream") return {type, type, "", 2, 0, 1, mk<rtbot::GreaterThanStream<T, V>>(), rbin([](double a, double b) { return a > b ? O(a) : O(); })};
  if (type == "LessThanStream") return {type, type, "", 2, 0, 1, mk<rtbot::LessThanStream<T, V>>(), rbin([](double a, double b) { return a < b ? O(a) : O(); })};
  throw std::logic_error("dPlain " + type);
}
inline std::vector<std::string> binaryTypes() { return {"Plus", "Minus", "Multiplication", "Division", "And", "Or", "GreaterThanStream", "LessThanStream"}; }

// single data input, no control
inline std::vector<Def> unary() {
  return {dPlain("Identity"), dVal("Add", 2.5), dVal("Scale", -2), dVal("Power", 2), dVal("Constant", 3.5), dVal("GreaterThan", 0), dVal("LessThan", 1), dVal("EqualTo", 1),
          dShift(3, 1), dPlain("Count"), dPlain("CumulativeSum"), dDiff(), dDiff(false), dMA(1), dMA(2), dMA(3), dStd(2), dStd(3), dPeak(1), dPeak(2), dPeak(3),
          dFIR({2, -1}), dFIR({1, 2, 4}), dAR({0.5}), dAR({0.5, 0.25}), dRSI(1), dRSI(2), dRSI(3), dConstRes(1), dConstRes(2), dConstRes(3), dCos(1), dCos(2), dCos(3), dHer(1), dHer(2), dHer(3),
          dFunction({{0, 0}, {1, 2}, {3, 1}}, false), dFunction({{0, 0}, {1, 2}, {3, 1}}, true)};
}
inline std::vector<Def> multi() {
  std::vector<Def> v = {dJoin(2), dJoin(3), dLinear({2, -1}), dLinear({1, 2, 4})};
  for (auto& t : binaryTypes()) v.push_back(dPlain(t));
  return v;
}

}  // namespace zoo

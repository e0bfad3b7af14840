// What a wrapper module exports: functions by name, callable with JSON arguments.  Used by the stand-ins for pybind11 and embind.
#pragma once
#include <cmath>
#include <functional>
#include <map>
#include <nlohmann/json.hpp>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
namespace exported {
using nlohmann::json;
using Table = std::map<std::string, std::function<json(const json&)>>;
template <class T> struct From { static T get(const json& j) { if constexpr (std::is_floating_point_v<T>) { if (j.is_null()) return std::nan(""); } return j.get<T>(); } };
template <class R, class... A, size_t... I> json invoke(const std::function<R(A...)>& f, const json& a, std::index_sequence<I...>) {
  std::tuple<std::decay_t<A>...> v{From<std::decay_t<A>>::get(a.at(I))...};
  if constexpr (std::is_void_v<R>) { f(std::get<I>(v)...); return nullptr; } else return json(f(std::get<I>(v)...));
}
template <class R, class... A> void add(Table& t, const std::string& name, std::function<R(A...)> f) {
  t[name] = [name, f](const json& a) -> json { if (a.size() != sizeof...(A)) throw std::invalid_argument(name + ": wrong number of arguments"); return invoke(f, a, std::index_sequence_for<A...>{}); };
}
Table& python();
Table& wasm();
}

// Stand-in for embind (not installed): what the module definition needs; function() takes a function pointer as embind's does.
#pragma once
#include <iostream>
#include "../exported.h"
namespace emscripten {
class val { public: exported::json j; template <class T> static val array(const std::vector<T>& v) { return val{exported::json(v)}; } val(exported::json x = nullptr) : j(std::move(x)) {} };
template <class T> std::vector<T> vecFromJSArray(const val& v) { std::vector<T> r; for (auto& x : v.j) r.push_back(exported::From<T>::get(x)); return r; }
template <class T> std::vector<T> convertJSArrayToNumberVector(const val& v) { return vecFromJSArray<T>(v); }
struct allow_raw_pointers {};
namespace internal {
using TYPEID = const void*;
template <class T> struct Canonicalized { using type = std::remove_cv_t<std::remove_reference_t<T>>; };
template <class T, class = void> struct BindingType;
template <> struct BindingType<val> { using WireType = val; static WireType toWireType(const val& v) { return v; } static val fromWireType(WireType w) { return w; } };
template <class T, class = void> struct TypeID { static constexpr TYPEID get() { return nullptr; } };
template <class T, class = void> struct Bound { static T from(const exported::json& j) { return exported::From<T>::get(j); } };
template <class T> struct Bound<T, std::void_t<decltype(BindingType<T>::fromWireType(val()))>> { static T from(const exported::json& j) { return BindingType<T>::fromWireType(val(j)); } };
exported::Table& table();
template <class R, class... A, size_t... I> exported::json invoke(const std::function<R(A...)>& f, const exported::json& a, std::index_sequence<I...>) {
  std::tuple<std::decay_t<A>...> v{Bound<std::decay_t<A>>::from(a.at(I))...};
  if constexpr (std::is_void_v<R>) { f(std::get<I>(v)...); return nullptr; } else return exported::json(f(std::get<I>(v)...));
}
}
template <class R, class... A, class... P> void function(const char* name, R (*f)(A...), P...) {
  std::function<R(A...)> g = f; std::string n = name;
  internal::table()[n] = [n, g](const exported::json& a) -> exported::json { if (a.size() != sizeof...(A)) throw std::invalid_argument(n + ": wrong number of arguments"); return internal::invoke(g, a, std::index_sequence_for<A...>{}); };
}
template <class F> auto optional_override(F f) { return +f; }
template <class T> void constant(const char*, const T&) {}
template <class S> S* select_overload(S* f) { return f; }
template <class S, class F> S* select_overload(F f) { return f; }
template <class T> struct value_object { explicit value_object(const char*) {} template <class... X> value_object& field(const char*, X...) { return *this; } };
template <class T> void register_vector(const char*) {}
template <class K, class V> void register_map(const char*) {}
}
#define EMSCRIPTEN_BINDINGS(name) static void embind_init_##name(); \
  exported::Table& emscripten::internal::table() { static exported::Table t; return t; } \
  exported::Table& exported::wasm() { static bool once = [] { embind_init_##name(); return true; }(); (void)once; return emscripten::internal::table(); } \
  static void embind_init_##name()

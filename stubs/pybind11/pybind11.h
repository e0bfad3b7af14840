// Stand-in for pybind11 (not installed): what a module definition needs; def() takes its function as pybind11's does.
#pragma once
#include "../exported.h"
namespace pybind11 {
struct arg { explicit arg(const char*) {} template <class T> arg& operator=(T&&) { return *this; } };
struct kw_only {}; struct pos_only {}; enum class return_value_policy { automatic, copy, move, reference, take_ownership };
struct gil_scoped_release {}; struct gil_scoped_acquire {};
template <class... T> struct call_guard {};
struct attribute { template <class T> attribute& operator=(T&&) { return *this; } };
struct module_ {
  attribute attr(const char*) { return {}; }
  exported::Table* table; std::string text; std::string& doc() { return text; }
  template <class F, class... X> module_& def(const char* name, F&& f, const X&...) { exported::add(*table, name, std::function{std::forward<F>(f)}); return *this; }
};
using module = module_;
template <class... A> struct overload_cast_impl { template <class R> constexpr auto operator()(R (*p)(A...)) const noexcept { return p; } };
template <class... A> static constexpr overload_cast_impl<A...> overload_cast{};
namespace literals { inline arg operator""_a(const char* s, size_t) { return arg(s); } }
}
#define PYBIND11_MODULE(name, m) static void pybind11_init_##name(pybind11::module_& m); \
  exported::Table& exported::python() { static Table t; static bool once = [] { pybind11::module_ x{&t, ""}; pybind11_init_##name(x); return true; }(); (void)once; return t; } \
  static void pybind11_init_##name(pybind11::module_& m)

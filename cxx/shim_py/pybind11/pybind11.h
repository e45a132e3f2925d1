// Light stand-in for pybind11: records the callables bound under a name so
// harnesses can call exactly what Python would call; everything else is inert.
#pragma once
#include <any>
#include <array>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include <cmath>
#include <sstream>
#include <algorithm>
#include <numeric>
#include <stack>
#define PYBIND11_MODULE(name, var) static void pyb_module_##name(pybind11::module_ &var)
namespace pybind11 {
struct arg_v {};
struct arg {
  arg(const char* = nullptr) {}
  template <typename T> arg_v operator=(T&&) const { return {}; }
  arg& noconvert(bool = true) { return *this; }
  arg& none(bool = true) { return *this; }
};
namespace literals { inline arg operator"" _a(const char* s, size_t) { return arg(s); } }
struct object {
  object() = default;
  object attr(const char*) const { return {}; }
  template <typename... A> object operator()(A&&...) const { return {}; }
  template <typename T> T cast() const { return T(); }
  template <typename T> object& operator+=(const T&) { return *this; }
  bool is_none() const { return false; }
  template <typename K> object operator[](K&&) const { return {}; }
};
using handle = object;
struct none : object {};
struct dict : object {};
struct list : object { template <typename T> void append(T&&) {} };
struct tuple : object { size_t size() const { return 0; } };
struct args : tuple {};
struct kwargs : dict {};
struct str : object { str() = default; template <typename T> explicit str(T&&) {} str(const char*) {} operator std::string() const { return {}; } };
struct bytes : object { bytes() = default; bytes(const std::string&) {} };
struct int_ : object { template <typename T> int_(T&&) {} };
struct float_ : object { template <typename T> float_(T&&) {} };
template <typename T> object cast(T&&) { return {}; }
template <typename T, typename U> T cast(U&&) { return T(); }
template <typename... A> tuple make_tuple(A&&...) { return {}; }
struct kw_only {};
struct pos_only {};
struct dynamic_attr {};
struct is_operator {};
struct call_guard_ {};
template <typename... T> struct call_guard {};
struct gil_scoped_release {};
struct gil_scoped_acquire {};
template <typename A, typename B> struct keep_alive {};
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
template <typename... A> struct init_t {};
template <typename... A> init_t<A...> init() { return {}; }
template <typename F> struct init_f { F f; };
template <typename F, typename = std::enable_if_t<!std::is_same_v<F, void>>> init_f<F> init(F f) { return {f}; }
template <typename G, typename S> struct pickle_t { G get; S set; };
template <typename G, typename S> pickle_t<G, S> pickle(G g, S s) { return {g, s}; }
struct value_error : std::runtime_error { using runtime_error::runtime_error; };
struct index_error : std::runtime_error { using runtime_error::runtime_error; };
struct type_error : std::runtime_error { using runtime_error::runtime_error; };

namespace detail_sig {
template <typename T> struct sig;
template <typename R, typename... A> struct sig<R (*)(A...)> { using type = R(A...); };
template <typename R, typename... A> struct sig<R (*)(A...) noexcept> { using type = R(A...); };
template <typename C, typename R, typename... A> struct sig<R (C::*)(A...)> { using type = R(A...); };
template <typename C, typename R, typename... A> struct sig<R (C::*)(A...) const> { using type = R(A...); };
template <typename C, typename R, typename... A> struct sig<R (C::*)(A...) noexcept> { using type = R(A...); };
template <typename C, typename R, typename... A> struct sig<R (C::*)(A...) const noexcept> { using type = R(A...); };
}
// all bindings: name -> overloads, callable with type-erased arguments the
// way Python would call them (first overload whose parameters fit).
struct no_overload : std::runtime_error { using runtime_error::runtime_error; };
template <typename T> struct is_stdfn : std::false_type {};
template <typename S> struct is_stdfn<std::function<S>> : std::true_type {};
// the value of parameter type T held by an argument
template <typename T> T* any_arg(std::any& a, std::any& tmp) {
  if (auto* p = std::any_cast<T>(&a)) return p;
  if (auto* p = std::any_cast<std::shared_ptr<T>>(&a)) return p->get();
  if constexpr (std::is_fundamental_v<T> && !std::is_same_v<T, bool>) {
    auto put = [&](auto v) { tmp = T(v); return std::any_cast<T>(&tmp); };
    if (auto* p = std::any_cast<long>(&a)) { if (std::is_unsigned_v<T> && *p < 0) return nullptr; return put(*p); }
    if (auto* p = std::any_cast<int>(&a)) { if (std::is_unsigned_v<T> && *p < 0) return nullptr; return put(*p); }
    if (auto* p = std::any_cast<size_t>(&a)) return put(*p);
    if constexpr (std::is_floating_point_v<T>) { if (auto* p = std::any_cast<double>(&a)) return put(*p); if (auto* p = std::any_cast<long double>(&a)) return put(*p); }
  }
  return nullptr;
}
struct callable {
  size_t n;
  std::function<bool(std::vector<std::any>&, std::any&)> call;
};
struct registry {
  std::map<std::string, std::vector<callable>> f;
  static registry& get() { static registry r; return r; }
  bool has(const std::string& k) { return f.count(k); }
  template <typename R, typename... A> void add(const std::string& k, std::function<R(A...)> fn) {
    f[k].push_back({sizeof...(A), [fn](std::vector<std::any>& v, std::any& out) { return go<R, A...>(fn, v, out, std::index_sequence_for<A...>{}); }});
  }
  template <typename R, typename... A, size_t... I>
  static bool go(const std::function<R(A...)>& fn, std::vector<std::any>& v, std::any& out, std::index_sequence<I...>) {
    std::array<std::any, sizeof...(A) + 1> tmp;
    std::tuple<std::remove_cv_t<std::remove_reference_t<A>>*...> p{any_arg<std::remove_cv_t<std::remove_reference_t<A>>>(v[I], tmp[I])...};
    if (!(true && ... && (std::get<I>(p) != nullptr))) return false;
    if constexpr (std::is_void_v<R>) { fn(static_cast<A>(*std::get<I>(p))...); out = 0; }
    else out = std::any(std::decay_t<R>(fn(static_cast<A>(*std::get<I>(p))...)));
    return true;
  }
  std::any operator()(const std::string& k, std::vector<std::any> v) {
    auto it = f.find(k);
    if (it == f.end()) throw no_overload(k + " is not bound");
    for (auto& c : it->second) { std::any out; if (c.n == v.size() && c.call(v, out)) return out; }
    throw no_overload("no overload of " + k + " takes these arguments");
  }
};
template <typename T> T as(const std::any& a) {
  if (auto* p = std::any_cast<T>(&a)) return *p;
  if (auto* p = std::any_cast<std::shared_ptr<T>>(&a)) return **p;
  if constexpr (std::is_integral_v<T>) { if (auto* p = std::any_cast<long>(&a)) return T(*p); if (auto* p = std::any_cast<int>(&a)) return T(*p); if (auto* p = std::any_cast<size_t>(&a)) return T(*p); if (auto* p = std::any_cast<bool>(&a)) return T(*p); }
  throw std::logic_error("harness: result of unexpected type");
}
template <typename Self, typename C, typename R, typename... A> void reg_m(const std::string& k, R (C::*m)(A...));
template <typename Self, typename C, typename R, typename... A> void reg_m(const std::string& k, R (C::*m)(A...) const);
template <typename Self, typename F> void reg(const std::string& k, F fn) {
#ifdef PYB_CAPTURE
  if constexpr (std::is_member_function_pointer_v<F>) reg_m<Self>(k, fn);
  else if constexpr (std::is_pointer_v<F>) registry::get().add(k, std::function<typename detail_sig::sig<F>::type>(fn));
  else registry::get().add(k, std::function<typename detail_sig::sig<decltype(&F::operator())>::type>(fn));
#endif
}
#ifdef PYB_CAPTURE
template <typename Self, typename C, typename R, typename... A> void reg_m(const std::string& k, R (C::*m)(A...)) {
  registry::get().add(k, std::function<R(Self&, A...)>([m](Self& s, A... a) -> R { return (s.*m)(std::forward<A>(a)...); }));
}
template <typename Self, typename C, typename R, typename... A> void reg_m(const std::string& k, R (C::*m)(A...) const) {
  registry::get().add(k, std::function<R(const Self&, A...)>([m](const Self& s, A... a) -> R { return (s.*m)(std::forward<A>(a)...); }));
}
#endif
struct module_ : object {
  std::string name;
  template <typename F, typename... X> module_& def(const char* n, F&& f, const X&...) {
#ifdef PYB_CAPTURE
    reg<void>(name + "." + n, std::decay_t<F>(f));
#endif
    return *this;
  }
  module_ def_submodule(const char* n, const char* = nullptr) { module_ m; m.name = name + "." + n; return m; }
  static module_ import(const char*) { return {}; }
  template <typename T> void add_object(const char*, T&&) {}
  const char* doc() { return ""; }
};
using module = module_;
template <typename T, typename... B>
struct class_ : object {
  std::string name;
  template <typename... X> class_(module_&, const char* n, const X&...) : name(n) {}
  template <typename F, typename... X> class_& def(const char* n, F&& f, const X&...) {
#ifdef PYB_CAPTURE
    reg<T>(name + "." + n, std::decay_t<F>(f));
#endif
    return *this;
  }
  template <typename... A, typename... X> class_& def(init_t<A...>, const X&...) {
#ifdef PYB_CAPTURE
    registry::get().add(name + ".__init__", std::function<std::shared_ptr<T>(A...)>([](A... a) { return std::shared_ptr<T>(new T(std::forward<A>(a)...)); }));
#endif
    return *this;
  }
  template <typename F, typename... X> class_& def(init_f<F> f, const X&...) {
#ifdef PYB_CAPTURE
    reg<T>(name + ".__init__", f.f);
#endif
    return *this;
  }
  template <typename G, typename S, typename... X> class_& def(pickle_t<G, S> p, const X&...) {
#ifdef PYB_CAPTURE
    reg<T>(name + ".__getstate__", p.get);
    reg<T>(name + ".__setstate__", p.set);
#endif
    return *this;
  }
  template <typename F, typename... X> class_& def_property_readonly(const char* n, F&& f, const X&...) {
#ifdef PYB_CAPTURE
    reg<T>(name + "." + n, std::decay_t<F>(f));
#endif
    return *this;
  }
  template <typename F, typename G, typename... X> class_& def_property(const char*, F&&, G&&, const X&...) { return *this; }
  template <typename F, typename... X> class_& def_readonly(const char* n, F m, const X&...) {
#ifdef PYB_CAPTURE
    if constexpr (std::is_member_object_pointer_v<F>) { using V = std::decay_t<decltype(std::declval<T&>().*m)>; registry::get().add(name + "." + n, std::function<V(const T&)>([m](const T& x) { return V(x.*m); })); }
#endif
    return *this;
  }
  template <typename F, typename... X> class_& def_readwrite(const char* n, F m, const X&...) {
    def_readonly(n, m);
#ifdef PYB_CAPTURE
    if constexpr (std::is_member_object_pointer_v<F>) { using V = std::decay_t<decltype(std::declval<T&>().*m)>; registry::get().add(name + "." + n + "=", std::function<int(T&, const V&)>([m](T& x, const V& v) { x.*m = v; return 0; })); }
#endif
    return *this;
  }
  template <typename F, typename... X> class_& def_static(const char*, F&&, const X&...) { return *this; }
  template <typename F> class_& def_buffer(F&&) { return *this; }
};
}  // namespace pybind11

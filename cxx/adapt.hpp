// Uniform access to the bits of a bit set in both modes, included before the repo headers.
#pragma once
#include <pybind11/functional.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <regex>
#include <mpfr.h>
#include <sym.hpp>
#include <boost/dynamic_bitset.hpp>

namespace sym {
template <typename B>
inline Bit bit_of(const B& x, size_t i) {
#ifndef CONC
  return x.b.at(i);
#else
  return x.test(i);
#endif
}
template <typename B>
inline B make_bits(const std::vector<Bit>& v) {
  B r(v.size());
#ifndef CONC
  r.b = v;
#else
  for (size_t i = 0; i < v.size(); ++i) r.set(i, v[i]);
#endif
  return r;
}
// log2 of native integers: dimension tokens give symbolic weights
inline Real sym_log2(const Real& x) { return log2(x); }
}  // namespace sym
template <typename T, std::enable_if_t<std::is_fundamental_v<T>, int> = 0>
inline auto sym_log2(T x) {
  if constexpr (std::is_integral_v<T>) return sym::log2_tok((unsigned long long)x);
  else return sym::tok_kind(x) == 1 ? sym::log2_tok((unsigned long long)x) : sym::Real((double)::log2(x));
}
namespace std {
template <typename T, std::enable_if_t<std::is_fundamental_v<T>, int> = 0>
inline auto sym_log2(T x) { return ::sym_log2(x); }
using sym::sym_log2;
}  // namespace std
#define noexcept

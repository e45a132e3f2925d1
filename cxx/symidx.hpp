// A signed index whose value is symbolic; using it as a position forks.
// Include before the repository headers, which then build their trees on it.
#pragma once
#include <sym.hpp>
#ifndef CONC
struct SymIdx {
  int32_t c = 0, h = -1;  // concrete value, or handle
  constexpr SymIdx() = default;
  template <typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0> constexpr SymIdx(T x) : c(int32_t(x)) {}
  constexpr SymIdx(const SymIdx&) = default;
  constexpr SymIdx& operator=(const SymIdx&) = default;
  struct Table {
    struct H { z3::expr e; long lo, hi; bool known; long v; };
    std::vector<H> h; long path = -1;
    std::map<std::tuple<int, long, long>, bool> cmp;
  };
  static Table& tab() { static Table t; auto& g = sym::E(); if (t.path != g.paths) { t.h.clear(); t.cmp.clear(); t.path = g.paths; } return t; }
  static SymIdx make(const z3::expr& e, long lo, long hi) { auto& t = tab(); t.h.push_back({e, lo, hi, false, 0}); SymIdx x; x.h = int32_t(t.h.size()) - 1; return x; }
  static SymIdx fresh(const std::string& n, long lo, long hi) {
    auto e = sym::E().fresh(n, 'i');
    sym::E().assume(e >= (int)lo && e <= (int)hi);
    return make(e, lo, hi);
  }
  bool known() const { return h < 0 || tab().h[h].known; }
  long val() const { return h < 0 ? c : tab().h[h].v; }
  z3::expr ex() const { return known() ? sym::E().ctx.int_val((int)val()) : tab().h[h].e; }
  long lo() const { return known() ? val() : tab().h[h].lo; }
  long hi() const { return known() ? val() : tab().h[h].hi; }
  long conc() const {
    if (known()) return val();
    auto& t = tab();
    for (long k = t.h[h].lo; k <= t.h[h].hi; ++k) if (eq(*this, SymIdx(k))) { t.h[h].known = true; t.h[h].v = k; return k; }
    throw sym::Abort{};
  }
  static bool eq(const SymIdx& a, const SymIdx& b) { return cmp(0, a, b); }
  static bool cmp(int op, const SymIdx& a, const SymIdx& b) {
    if (a.known() && b.known()) return op == 0 ? a.val() == b.val() : a.val() < b.val();
    if (a.h >= 0 && a.h == b.h) return op == 0;
    if (op == 0 && (a.hi() < b.lo() || b.hi() < a.lo())) return false;
    if (op == 1) { if (a.hi() < b.lo()) return true; if (a.lo() >= b.hi()) return false; }
    auto& t = tab();
    auto key = std::make_tuple(op, a.known() ? a.val() + (1L << 40) : a.h, b.known() ? b.val() + (1L << 40) : b.h);
    auto it = t.cmp.find(key);
    if (it != t.cmp.end()) return it->second;
    bool r = sym::E().decide(op == 0 ? a.ex() == b.ex() : a.ex() < b.ex());
    t.cmp[key] = r;
    if (r && op == 0) {
      if (b.known() && a.h >= 0) { t.h[a.h].known = true; t.h[a.h].v = b.val(); }
      else if (a.known() && b.h >= 0) { t.h[b.h].known = true; t.h[b.h].v = a.val(); }
    } else if (op == 1) {
      if (b.known() && a.h >= 0) { auto& x = t.h[a.h]; r ? x.hi = std::min(x.hi, b.val() - 1) : x.lo = std::max(x.lo, b.val()); }
      else if (a.known() && b.h >= 0) { auto& x = t.h[b.h]; r ? x.lo = std::max(x.lo, a.val() + 1) : x.hi = std::min(x.hi, a.val()); }
    }
    return r;
  }
  template <typename T, std::enable_if_t<std::is_arithmetic_v<T> && !std::is_same_v<T, SymIdx>, int> = 0> constexpr operator T() const { return h < 0 ? T(c) : T(conc()); }
  SymIdx operator-() const { return known() ? SymIdx(-val()) : make(-ex(), -hi(), -lo()); }
  SymIdx& operator+=(const SymIdx& o) { return *this = add(*this, o); }
  SymIdx& operator-=(const SymIdx& o) { return *this = sub(*this, o); }
  SymIdx& operator++() { return *this += SymIdx(1); }
  SymIdx& operator--() { return *this -= SymIdx(1); }
  static SymIdx add(const SymIdx& a, const SymIdx& b) { return a.known() && b.known() ? SymIdx(a.val() + b.val()) : make(a.ex() + b.ex(), a.lo() + b.lo(), a.hi() + b.hi()); }
  static SymIdx sub(const SymIdx& a, const SymIdx& b) { return a.known() && b.known() ? SymIdx(a.val() - b.val()) : make(a.ex() - b.ex(), a.lo() - b.hi(), a.hi() - b.lo()); }
};
#define SYMIDX_OP(op, expr, R) \
  inline R operator op(const SymIdx& a, const SymIdx& b) { return expr; } \
  template <typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0> inline R operator op(const SymIdx& a_, T b_) { SymIdx a = a_, b(b_); return expr; } \
  template <typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0> inline R operator op(T a_, const SymIdx& b_) { SymIdx a(a_), b = b_; return expr; }
SYMIDX_OP(==, SymIdx::cmp(0, a, b), bool)
SYMIDX_OP(!=, !SymIdx::cmp(0, a, b), bool)
SYMIDX_OP(<, SymIdx::cmp(1, a, b), bool)
SYMIDX_OP(>, SymIdx::cmp(1, b, a), bool)
SYMIDX_OP(<=, !SymIdx::cmp(1, b, a), bool)
SYMIDX_OP(>=, !SymIdx::cmp(1, a, b), bool)
SYMIDX_OP(+, SymIdx::add(a, b), SymIdx)
SYMIDX_OP(-, SymIdx::sub(a, b), SymIdx)
#undef SYMIDX_OP
inline std::ostream& operator<<(std::ostream& o, const SymIdx& x) { return o << x.conc(); }
namespace std {
template <> struct is_arithmetic<SymIdx> : true_type {};
template <> inline constexpr bool is_arithmetic_v<SymIdx> = true;
template <> struct is_signed<SymIdx> : true_type {};
template <> inline constexpr bool is_signed_v<SymIdx> = true;
template <> struct hash<SymIdx> { size_t operator()(const SymIdx& x) const { return x.conc(); } };
template <> struct numeric_limits<SymIdx> : numeric_limits<int32_t> {};
}  // namespace std
inline SymIdx fresh_idx(const std::string& n, long lo, long hi) { return SymIdx::fresh(n, lo, hi); }
// x == k as a formula, without forking
inline sym::Bit idx_eq(const SymIdx& x, long k) {
  if (x.known()) return x.val() == k;
  if (k < x.lo() || k > x.hi()) return 0;
  return sym::r_cmp(x.ex() == (int)k);
}
inline sym::Bit idx_neg(const SymIdx& x) { if (x.known()) return x.val() < 0; if (x.lo() >= 0) return 0; if (x.hi() < 0) return 1; return sym::r_cmp(x.ex() < 0); }
inline sym::Bit idx_same(const SymIdx& x, const SymIdx& y) {
  if (x.known()) return idx_eq(y, x.val()); if (y.known()) return idx_eq(x, y.val());
  return sym::r_cmp(x.ex() == y.ex());
}
#define int_fast32_t SymIdx
#define int_fast64_t SymIdx
#else
using SymIdx = int_fast32_t;
inline SymIdx fresh_idx(const std::string& n, long, long) { auto s = sym::E().take(n); s.erase(std::remove_if(s.begin(), s.end(), [](char c) { return c == '(' || c == ')' || c == ' '; }), s.end()); return std::stol(s); }
inline sym::Bit idx_eq(SymIdx x, long k) { return x == k; }
inline sym::Bit idx_neg(SymIdx x) { return x < 0; }
inline sym::Bit idx_same(SymIdx x, SymIdx y) { return x == y; }
#endif

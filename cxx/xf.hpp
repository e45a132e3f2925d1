// Extended floats: a real number, a zero of either sign, an infinity or not-a-number.
#pragma once
#include <sym.hpp>
namespace sym {
struct XF {
  enum K { NUM, ZERO, INF, NAN_ } k = ZERO;
  bool neg = false;  // of zero and infinity
  Real r;
  XF() = default;
  XF(K k, bool n) : k(k), neg(n) {}
  static XF num(const Real& r, bool zero_sign = false) {  // forks on zero
    XF x; if (r == Real(0)) { x.k = ZERO; x.neg = zero_sign; } else { x.k = NUM; x.r = r; } return x;
  }
  template <typename T, std::enable_if_t<std::is_arithmetic_v<T> && !std::is_same_v<T, Real>, int> = 0> XF(T v) {
    if constexpr (std::is_floating_point_v<T>) {
      if (std::isnan(v)) { k = NAN_; return; }
      neg = std::signbit(v);
      if (std::isinf(v)) { k = INF; return; }
    } else neg = v < T(0);
    if (v == T(0)) { k = ZERO; return; }
    k = NUM; r = Real(v);
  }
  explicit operator double() const { throw std::logic_error("harness: number turned into a double"); }
  bool sign() const { return k == NUM ? r < Real(0) : neg; }
  Real val() const { return k == NUM ? r : Real(0); }
};
inline XF operator-(const XF& a) { XF x = a; x.neg = !a.neg; x.r = -a.r; return x; }
inline XF xf_add(const XF& a, const XF& b) {
  if (a.k == XF::NAN_ || b.k == XF::NAN_) return {XF::NAN_, false};
  if (a.k == XF::INF) return b.k == XF::INF && a.neg != b.neg ? XF(XF::NAN_, false) : a;
  if (b.k == XF::INF) return b;
  return XF::num(a.val() + b.val(), a.k == XF::ZERO && b.k == XF::ZERO && a.neg && b.neg);
}
inline XF xf_sub(const XF& a, const XF& b) { return xf_add(a, -b); }
inline XF xf_mul(const XF& a, const XF& b) {
  if (a.k == XF::NAN_ || b.k == XF::NAN_) return {XF::NAN_, false};
  bool s = a.sign() != b.sign();
  if (a.k == XF::INF || b.k == XF::INF) return a.k == XF::ZERO || b.k == XF::ZERO ? XF(XF::NAN_, false) : XF(XF::INF, s);
  if (a.k == XF::ZERO || b.k == XF::ZERO) return {XF::ZERO, s};
  XF x(XF::NUM, false); x.r = a.r * b.r; return x;
}
inline XF xf_div(const XF& a, const XF& b) {
  if (a.k == XF::NAN_ || b.k == XF::NAN_) return {XF::NAN_, false};
  bool s = a.sign() != b.sign();
  if (a.k == XF::INF) return b.k == XF::INF ? XF(XF::NAN_, false) : XF(XF::INF, s);
  if (b.k == XF::INF) return {XF::ZERO, s};
  if (b.k == XF::ZERO) return a.k == XF::ZERO ? XF(XF::NAN_, false) : XF(XF::INF, s);
  if (a.k == XF::ZERO) return {XF::ZERO, s};
  XF x(XF::NUM, false); x.r = a.r / b.r; return x;
}
inline XF xf_abs(const XF& a) { XF x = a; if (a.sign()) x = -x; return x; }
inline XF xf_log(const XF& a) {
  if (a.k == XF::NAN_) return a;
  if (a.k == XF::ZERO) return {XF::INF, true};
  if (a.sign()) return {XF::NAN_, false};
  if (a.k == XF::INF) return a;
  return XF::num(log(a.r));
}
inline XF xf_log2(const XF& a) {
  if (a.k == XF::NUM && !a.sign()) return XF::num(log2(a.r));
  return xf_log(a);
}
// powers: only of positive numbers to finite numbers
inline XF xf_pow(const XF& a, const XF& b) {
  if (b.k == XF::ZERO) return XF(1);
  if (a.k == XF::NAN_ || b.k == XF::NAN_) return {XF::NAN_, false};
  if (a.k != XF::NUM || b.k != XF::NUM || a.sign()) throw std::logic_error("harness: power outside the modelled range");
  XF x(XF::NUM, false); x.r = pow(a.r, b.r); return x;
}
inline bool xf_unord(const XF& a, const XF& b) { return a.k == XF::NAN_ || b.k == XF::NAN_; }
inline bool xf_eq(const XF& a, const XF& b) {
  if (xf_unord(a, b)) return false;
  if (a.k == XF::INF || b.k == XF::INF) return a.k == b.k && a.neg == b.neg;
  return a.val() == b.val();
}
inline bool xf_lt(const XF& a, const XF& b) {
  if (xf_unord(a, b)) return false;
  if (a.k == XF::INF) return a.neg && !(b.k == XF::INF && b.neg);
  if (b.k == XF::INF) return !b.neg;
  return a.val() < b.val();
}
inline bool xf_le(const XF& a, const XF& b) { return xf_lt(a, b) || xf_eq(a, b); }
inline XF operator+(const XF& a) { return a; }
inline XF operator+(const XF& a, const XF& b) { return xf_add(a, b); }
inline XF operator-(const XF& a, const XF& b) { return xf_sub(a, b); }
inline XF operator*(const XF& a, const XF& b) { return xf_mul(a, b); }
inline XF operator/(const XF& a, const XF& b) { return xf_div(a, b); }
inline XF& operator+=(XF& a, const XF& b) { return a = a + b; }
inline XF& operator-=(XF& a, const XF& b) { return a = a - b; }
inline XF& operator*=(XF& a, const XF& b) { return a = a * b; }
inline XF& operator/=(XF& a, const XF& b) { return a = a / b; }
inline bool operator==(const XF& a, const XF& b) { return xf_eq(a, b); }
inline bool operator!=(const XF& a, const XF& b) { return !xf_eq(a, b); }
inline bool operator<(const XF& a, const XF& b) { return xf_lt(a, b); }
inline bool operator<=(const XF& a, const XF& b) { return xf_le(a, b); }
inline bool operator>(const XF& a, const XF& b) { return xf_lt(b, a); }
inline bool operator>=(const XF& a, const XF& b) { return xf_le(b, a); }
inline XF abs(const XF& a) { return xf_abs(a); }
inline XF fabs(const XF& a) { return xf_abs(a); }
inline XF log(const XF& a) { return xf_log(a); }
inline XF log2(const XF& a) { return xf_log2(a); }
inline XF pow(const XF& a, const XF& b) { return xf_pow(a, b); }
inline bool isnan(const XF& a) { return a.k == XF::NAN_; }
inline bool isinf(const XF& a) { return a.k == XF::INF; }
inline bool signbit(const XF& a) { return a.sign(); }
inline std::ostream& operator<<(std::ostream& o, const XF& a) {
  if (a.k == XF::NAN_) return o << "nan";
  if (a.k == XF::NUM) return o << a.r;
  return o << (a.neg ? "-" : "") << (a.k == XF::INF ? "inf" : "0");
}
// any value
inline XF fresh_xf(const char* n, bool special = true) {
  long c = special ? choose(6, "kind of number") : 5 - choose(3, "kind of number");
  if (c == 0) return {XF::NAN_, false};
  if (c == 1 || c == 2) return {XF::INF, c == 2};
  if (c == 3 || c == 4) return {XF::ZERO, c == 4};
  XF x(XF::NUM, false); x.r = fresh_real(n);
  assume(b_not(r_eq(x.r, Real(0))));
  return x;
}
// the same value, bit for bit (not-a-number is like not-a-number)
inline Bit xf_same(const XF& a, const XF& b) {
  if (a.k != b.k) return 0;
  if (a.k == XF::NAN_) return 1;
  if (a.k != XF::NUM) return a.neg == b.neg;
#ifdef CONC
  Q d = a.r.q - b.r.q, m = b.r.q; if (d < 0) d = -d; if (m < 0) m = -m;
  mpq_class eps(1); eps /= mpq_class(mpz_class(1) << 1000);
  return d <= m * eps;
#else
  return r_eq(a.r, b.r);
#endif
}
}  // namespace sym
#ifndef CONC
namespace std { template <> struct numeric_limits<sym::XF> : numeric_limits<long double> {}; }
#endif

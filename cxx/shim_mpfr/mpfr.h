// Stand-in for MPFR: numbers are exact symbolic extended floats.
#pragma once
#include <sym.hpp>
#include <xf.hpp>
#include <cstdarg>
#include <cstring>
using mpfr_prec_t = long;
enum mpfr_rnd_t { MPFR_RNDN = 0, MPFR_RNDZ, MPFR_RNDU, MPFR_RNDD, MPFR_RNDA, MPFR_RNDF };
struct __mpfr_struct { sym::XF* v; long prec; };
typedef __mpfr_struct mpfr_t[1];
typedef __mpfr_struct* mpfr_ptr;
typedef const __mpfr_struct* mpfr_srcptr;
namespace mpfr_stub {
// precision at which a result is exact for our purposes
constexpr long EXACT = 1024;
inline std::vector<sym::XF>& texts() { static std::vector<sym::XF> t; return t; }
inline sym::Real rounded(const sym::Real& r) {
  auto& g = sym::E();
  return sym::Real(g.ctx.function("rnd", g.ctx.real_sort(), g.ctx.real_sort())(r.e));
}
inline sym::XF rounded(const sym::XF& x) { auto y = x; if (x.k == sym::XF::NUM) y.r = rounded(x.r); return y; }
inline int put(mpfr_ptr o, const sym::XF& x) { *o->v = o->prec < EXACT ? rounded(x) : x; return 0; }
inline long& live() { static long n = 0; return n; }
}
inline void mpfr_init2(mpfr_ptr x, mpfr_prec_t p) { x->v = new sym::XF(sym::XF::NAN_, false); x->prec = p; ++mpfr_stub::live(); }
inline void mpfr_init(mpfr_ptr x) { mpfr_init2(x, 53); }
inline void mpfr_clear(mpfr_ptr x) { if (!x->v) std::abort(); delete x->v; x->v = nullptr; --mpfr_stub::live(); }
inline mpfr_prec_t mpfr_get_prec(mpfr_srcptr x) { return x->prec; }
inline void mpfr_set_prec(mpfr_ptr x, mpfr_prec_t p) { x->prec = p; *x->v = sym::XF(sym::XF::NAN_, false); }
inline int mpfr_set(mpfr_ptr o, mpfr_srcptr a, mpfr_rnd_t) { return mpfr_stub::put(o, *a->v); }
inline int mpfr_set_ld(mpfr_ptr o, const sym::XF& a, mpfr_rnd_t) { return mpfr_stub::put(o, a); }
inline int mpfr_set_d(mpfr_ptr o, const sym::XF& a, mpfr_rnd_t) { return mpfr_stub::put(o, a); }
inline int mpfr_set_flt(mpfr_ptr o, const sym::XF& a, mpfr_rnd_t) { return mpfr_stub::put(o, a); }
inline int mpfr_set_si(mpfr_ptr o, long a, mpfr_rnd_t) { return mpfr_stub::put(o, sym::XF(a)); }
inline int mpfr_set_ui(mpfr_ptr o, unsigned long a, mpfr_rnd_t) { return mpfr_stub::put(o, sym::XF(a)); }
inline void mpfr_set_nan(mpfr_ptr o) { *o->v = sym::XF(sym::XF::NAN_, false); }
inline void mpfr_set_inf(mpfr_ptr o, int s) { *o->v = sym::XF(sym::XF::INF, s < 0); }
inline void mpfr_set_zero(mpfr_ptr o, int s) { *o->v = sym::XF(sym::XF::ZERO, s < 0); }
inline void mpfr_swap(mpfr_ptr a, mpfr_ptr b) { std::swap(a->v, b->v); std::swap(a->prec, b->prec); }
inline int mpfr_neg(mpfr_ptr o, mpfr_srcptr a, mpfr_rnd_t) { return mpfr_stub::put(o, -*a->v); }
inline int mpfr_abs(mpfr_ptr o, mpfr_srcptr a, mpfr_rnd_t) { return mpfr_stub::put(o, sym::xf_abs(*a->v)); }
#define MPFR2(name, fn) \
  inline int mpfr_##name(mpfr_ptr o, mpfr_srcptr a, mpfr_srcptr b, mpfr_rnd_t) { return mpfr_stub::put(o, sym::fn(*a->v, *b->v)); } \
  inline int mpfr_##name##_si(mpfr_ptr o, mpfr_srcptr a, long b, mpfr_rnd_t) { return mpfr_stub::put(o, sym::fn(*a->v, sym::XF(b))); } \
  inline int mpfr_##name##_ui(mpfr_ptr o, mpfr_srcptr a, unsigned long b, mpfr_rnd_t) { return mpfr_stub::put(o, sym::fn(*a->v, sym::XF(b))); } \
  inline int mpfr_##name##_d(mpfr_ptr o, mpfr_srcptr a, const sym::XF& b, mpfr_rnd_t) { return mpfr_stub::put(o, sym::fn(*a->v, b)); } \
  inline int mpfr_d_##name(mpfr_ptr o, const sym::XF& a, mpfr_srcptr b, mpfr_rnd_t) { return mpfr_stub::put(o, sym::fn(a, *b->v)); }
MPFR2(add, xf_add) MPFR2(sub, xf_sub) MPFR2(mul, xf_mul) MPFR2(div, xf_div) MPFR2(pow, xf_pow)
#undef MPFR2
inline int mpfr_log(mpfr_ptr o, mpfr_srcptr a, mpfr_rnd_t) { return mpfr_stub::put(o, sym::xf_log(*a->v)); }
inline int mpfr_log2(mpfr_ptr o, mpfr_srcptr a, mpfr_rnd_t) { return mpfr_stub::put(o, sym::xf_log2(*a->v)); }
inline int mpfr_equal_p(mpfr_srcptr a, mpfr_srcptr b) { return sym::xf_eq(*a->v, *b->v); }
inline int mpfr_less_p(mpfr_srcptr a, mpfr_srcptr b) { return sym::xf_lt(*a->v, *b->v); }
inline int mpfr_lessequal_p(mpfr_srcptr a, mpfr_srcptr b) { return sym::xf_le(*a->v, *b->v); }
inline int mpfr_greater_p(mpfr_srcptr a, mpfr_srcptr b) { return sym::xf_lt(*b->v, *a->v); }
inline int mpfr_greaterequal_p(mpfr_srcptr a, mpfr_srcptr b) { return sym::xf_le(*b->v, *a->v); }
inline int mpfr_lessgreater_p(mpfr_srcptr a, mpfr_srcptr b) { return !sym::xf_unord(*a->v, *b->v) && !sym::xf_eq(*a->v, *b->v); }
inline int mpfr_unordered_p(mpfr_srcptr a, mpfr_srcptr b) { return sym::xf_unord(*a->v, *b->v); }
// zero when either is not-a-number, as MPFR documents
inline int mpfr_cmp_xf(const sym::XF& a, const sym::XF& b) { return sym::xf_unord(a, b) ? 0 : sym::xf_lt(a, b) ? -1 : sym::xf_eq(a, b) ? 0 : 1; }
inline int mpfr_cmp(mpfr_srcptr a, mpfr_srcptr b) { return mpfr_cmp_xf(*a->v, *b->v); }
inline int mpfr_cmpabs(mpfr_srcptr a, mpfr_srcptr b) { return mpfr_cmp_xf(sym::xf_abs(*a->v), sym::xf_abs(*b->v)); }
inline int mpfr_cmp_ld(mpfr_srcptr a, const sym::XF& b) { return mpfr_cmp_xf(*a->v, b); }
inline int mpfr_cmp_d(mpfr_srcptr a, const sym::XF& b) { return mpfr_cmp_xf(*a->v, b); }
inline int mpfr_cmp_si(mpfr_srcptr a, long b) { return mpfr_cmp_xf(*a->v, sym::XF(b)); }
inline int mpfr_cmp_ui(mpfr_srcptr a, unsigned long b) { return mpfr_cmp_xf(*a->v, sym::XF(b)); }
inline int mpfr_nan_p(mpfr_srcptr a) { return a->v->k == sym::XF::NAN_; }
inline int mpfr_inf_p(mpfr_srcptr a) { return a->v->k == sym::XF::INF; }
inline int mpfr_zero_p(mpfr_srcptr a) { return a->v->k == sym::XF::ZERO; }
inline int mpfr_number_p(mpfr_srcptr a) { return a->v->k == sym::XF::ZERO || a->v->k == sym::XF::NUM; }
inline int mpfr_regular_p(mpfr_srcptr a) { return a->v->k == sym::XF::NUM; }
inline int mpfr_signbit(mpfr_srcptr a) { return a->v->sign(); }
inline int mpfr_sgn(mpfr_srcptr a) { auto& x = *a->v; return x.k == sym::XF::ZERO || x.k == sym::XF::NAN_ ? 0 : x.sign() ? -1 : 1; }
inline int mpfr_copysign(mpfr_ptr o, mpfr_srcptr a, mpfr_srcptr b, mpfr_rnd_t) { auto x = sym::xf_abs(*a->v); return mpfr_stub::put(o, b->v->sign() ? -x : x); }
inline int mpfr_setsign(mpfr_ptr o, mpfr_srcptr a, int s, mpfr_rnd_t) { auto x = sym::xf_abs(*a->v); return mpfr_stub::put(o, s ? -x : x); }
inline sym::XF mpfr_get_ld(mpfr_srcptr a, mpfr_rnd_t) { return mpfr_stub::rounded(*a->v); }
struct mpfr_as_double { sym::XF x; operator double() const { throw std::logic_error("harness: number turned into a double"); } operator sym::XF() const { return x; } };
inline mpfr_as_double mpfr_get_d(mpfr_srcptr a, mpfr_rnd_t) { return {mpfr_stub::rounded(*a->v)}; }
// text: "%Ra" is exact, every other format only approximates
inline int mpfr_asprintf(char** out, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  mpfr_srcptr x = va_arg(ap, mpfr_srcptr);
  va_end(ap);
  bool exact = !std::strcmp(fmt, "%Ra") || !std::strcmp(fmt, "%RNa") || !std::strcmp(fmt, "%RA");
  mpfr_stub::texts().push_back(exact ? *x->v : mpfr_stub::rounded(*x->v));
  std::string s = std::string(exact ? "0xMPFR" : "MPFR") + std::to_string(mpfr_stub::texts().size() - 1);
  *out = strdup(s.c_str());
  return (int)s.size();
}
inline void mpfr_free_str(char* s) { std::free(s); }
inline int mpfr_set_str(mpfr_ptr o, const char* s, int base, mpfr_rnd_t) {
  std::string t = s;
  auto p = t.find("MPFR");
  if (p == std::string::npos) throw std::logic_error("harness: text that is not a printed number");
  bool hex = p == 2;
  auto x = mpfr_stub::texts().at(std::stoul(t.substr(p + 4)));
  if (x.k == sym::XF::NAN_ || x.k == sym::XF::INF) { *o->v = x; return 0; }
  if (hex ? base == 0 || base == 16 : base == 0 || base == 10) return mpfr_stub::put(o, x);
  *o->v = sym::XF(sym::XF::ZERO, false);  // not a number in this base
  return -1;
}
inline int mpfr_strtofr(mpfr_ptr o, const char* s, char** e, int base, mpfr_rnd_t r) { int k = mpfr_set_str(o, s, base, r); if (e) *e = const_cast<char*>(s) + std::strlen(s); return k; }

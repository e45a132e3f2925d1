// What Python sees: bit sets (C12), extended floats (C13), closeness tests (C15).
#include <pybind11/pybind11.h>
#include <adapt.hpp>
#include <xf.hpp>
#ifdef CONC
using LDBL_T = long double;
#else
using LDBL_T = sym::XF;
#endif
#include <tnco/globals.hpp>
#include <tnco/bitset.hpp>
#include <tnco/fixed_float.hpp>
#include <tnco/utils.hpp>
using namespace sym;
using bits_t = tnco::bitset_type;
using F = tnco::float1024;
namespace py = pybind11;

static std::map<std::string, int> opts(const std::string& s, std::string& kind) {
  std::map<std::string, int> o; std::istringstream is(s); std::string t;
  std::getline(is, kind, ':');
  while (std::getline(is, t, ':')) { auto e = t.find('='); o[t.substr(0, e)] = std::stoi(t.substr(e + 1)); }
  return o;
}
static py::registry& R() { return py::registry::get(); }
static bool thrown(const std::function<void()>& f) { try { f(); } catch (const Abort&) { throw; } catch (const py::no_overload&) { throw; } catch (const std::exception&) { return true; } return false; }
std::vector<Bit> fresh_bits(int n, const char* nm) { std::vector<Bit> v; for (int i = 0; i < n; ++i) v.push_back(fresh_bit(nm)); return v; }

void bitset_(int n) {
  static bool once = [] { py::module_ m; tnco::bitset::init<>(m, "Bitset"); return true; }(); (void)once;
  auto A = fresh_bits(n, "a"), B = fresh_bits(n, "b");
  auto a = make_bits<bits_t>(A), b = make_bits<bits_t>(B);
  auto bop = [&](const std::string& k, const std::vector<Bit>& want) {
    auto r = py::as<bits_t>(R()("Bitset." + k, {a, b}));
    check_b((int)r.size() == n, "C12 result has another size: " + k);
    for (int i = 0; i < n; ++i) check(b_eq(bit_of(r, i), want[i]), "C12 wrong elements: " + k);
  };
  std::vector<Bit> an, o, x, d, inv;
  Bit eq = 1, sub = 1, sup = 1, dis = 1;
  for (int i = 0; i < n; ++i) {
    an.push_back(b_and(A[i], B[i])); o.push_back(b_or(A[i], B[i])); x.push_back(b_xor(A[i], B[i])); d.push_back(b_and(A[i], b_not(B[i]))); inv.push_back(b_not(A[i]));
    eq = b_and(eq, b_eq(A[i], B[i])); sub = b_and(sub, b_implies(A[i], B[i])); sup = b_and(sup, b_implies(B[i], A[i])); dis = b_and(dis, b_not(an.back()));
  }
  bop("__and__", an); bop("__or__", o); bop("__xor__", x); bop("__sub__", d);
  auto rel = [&](const std::string& k, Bit want) { check(b_eq(py::as<bool>(R()("Bitset." + k, {a, b})), want), "C12 wrong answer: " + k); };
  rel("__eq__", eq); rel("isdisjoint", dis); rel("issubset", sub); rel("issuperset", sup); rel("__le__", sub); rel("__ge__", sup);
  rel("__lt__", b_and(sub, b_not(eq))); rel("__gt__", b_and(sup, b_not(eq)));
  if (R().has("Bitset.__ne__")) rel("__ne__", b_not(eq));
  auto iv = py::as<bits_t>(R()("Bitset.__invert__", {a}));
  check_b((int)iv.size() == n, "C12 result has another size: __invert__");
  for (int i = 0; i < n; ++i) check(b_eq(bit_of(iv, i), inv[i]), "C12 wrong elements: __invert__");
  check_b(py::as<size_t>(R()("Bitset.__len__", {a})) == (size_t)n, "C12 wrong length");
  // listing
  std::vector<size_t> pos; std::string text;
  for (int i = 0; i < n; ++i) { bool on = decide(A[i]); if (on) pos.push_back(i); text += on ? '1' : '0'; }
  check_b(py::as<size_t>(R()("Bitset.count", {a})) == pos.size(), "C12 wrong count");
  check_b(py::as<std::vector<size_t>>(R()("Bitset.positions", {a})) == pos, "C12 wrong positions");
  std::vector<size_t> seen;
  R()("Bitset.visit", {a, std::function<void(size_t)>([&](size_t p) { seen.push_back(p); })});
  check_b(seen == pos, "C12 visit lists other positions");
  for (int i = 0; i < n + 2; ++i) {
    if (i < n) check(b_eq(py::as<bool>(R()("Bitset.__getitem__", {a, (long)i})), A[i]), "C12 wrong element");
    else check_b(thrown([&] { R()("Bitset.__getitem__", {a, (long)i}); }), "C12 an element past the end is answered");
  }
  auto s = py::as<std::string>(R()("Bitset.__str__", {a}));
  check_b(s == text, "C12 wrong text");
  auto same = [&](const bits_t& y, const std::string& l) { check_b((int)y.size() == n, l); for (int i = 0; i < n; ++i) check(b_eq(bit_of(y, i), A[i]), l); };
  same(py::as<bits_t>(R()("Bitset.__init__", {s})), "C12 reading the text gives another set");
  same(py::as<bits_t>(R()("Bitset.__setstate__", {R()("Bitset.__getstate__", {a})})), "C12 restoring a saved set gives another set");
  same(py::as<bits_t>(R()("Bitset.__init__", {pos, (long)n})), "C12 building from positions gives another set");
  auto rev = pos; std::reverse(rev.begin(), rev.end());
  if (!rev.empty()) rev.push_back(rev[0]);
  same(py::as<bits_t>(R()("Bitset.__init__", {rev, (long)n})), "C12 building from positions gives another set");
  auto bad = pos; bad.insert(bad.begin() + choose((long)bad.size() + 1, "where"), n + choose(2, "past the end"));
  check_b(thrown([&] { R()("Bitset.__init__", {bad, (long)n}); }), "C12 a position that does not fit is accepted");
  check_b(py::as<bits_t>(R()("Bitset.__init__", {})).size() == 0, "C12 the default set is not empty");
  cover("sets compared");
}

// ---- extended floats
#ifdef CONC
XF to_xf(const F& f) {
  auto* p = reinterpret_cast<const __mpfr_struct*>(&f);
  if (mpfr_nan_p(p)) return {XF::NAN_, false};
  if (mpfr_inf_p(p)) return {XF::INF, mpfr_signbit(p) != 0};
  if (mpfr_zero_p(p)) return {XF::ZERO, mpfr_signbit(p) != 0};
  mpz_class m; auto e = mpfr_get_z_2exp(m.get_mpz_t(), p);
  Q q(m); if (e >= 0) q *= Q(mpz_class(1) << e); else q /= Q(mpz_class(1) << -e);
  XF x(XF::NUM, false); x.r = Real(q); return x;
}
XF to_xf(long double v) { F f(v); return to_xf(f); }
long double to_ld(const XF& x) {
  if (x.k == XF::NAN_) return NAN; if (x.k == XF::INF) return x.neg ? -INFINITY : INFINITY; if (x.k == XF::ZERO) return x.neg ? -0.0L : 0.0L;
  return (long double)x.r.q.get_d();
}
// the number a machine can hold
XF hold(const XF& x) { return to_xf(to_ld(x)); }
XF round_xf(const XF& x) { return x; }
Bit same_rounded(const XF& a, const XF& b) { if (a.k != XF::NUM || b.k != XF::NUM) return xf_same(a, b); return std::fabs(a.r.q.get_d() - b.r.q.get_d()) <= 1e-12 * std::fabs(b.r.q.get_d()); }
#else
XF to_xf(const F& f) { return *reinterpret_cast<const __mpfr_struct*>(&f)->v; }
XF to_xf(const XF& x) { return x; }
XF to_ld(const XF& x) { return x; }
XF hold(const XF& x) { return x; }
XF round_xf(const XF& x) { return mpfr_stub::rounded(x); }
Bit same_rounded(const XF& a, const XF& b) { return xf_same(a, b); }
#endif
XF res(const std::any& a) { if (auto* p = std::any_cast<std::shared_ptr<F>>(&a)) return to_xf(**p); return to_xf(py::as<F>(a)); }
F mk(const XF& x) { return F(to_ld(x)); }
std::string show(const XF& a, const XF& b) { std::ostringstream o; o << a << " , " << b; return o.str(); }

void float_(const std::string& op, int how) {
  static bool once = [] { py::module_ m; tnco::fixed_float::init<1024>(m, "f"); return true; }(); (void)once;
  auto xa = hold(fresh_xf("x")), xb = hold(fresh_xf("y"));
  F a = mk(xa), b = mk(xb);
  check(xf_same(to_xf(a), xa), "C13 a number built from a float is another number");
  std::any other = how ? std::any(LDBL_T(to_ld(xb))) : std::any(b);
  struct O { const char *n, *i, *r; XF (*f)(const XF&, const XF&); };
  if (op == "arith") {
    for (auto& o : std::vector<O>{{"__add__", "__iadd__", "__radd__", xf_add}, {"__sub__", "__isub__", "__rsub__", xf_sub}, {"__mul__", "__imul__", "__rmul__", xf_mul}, {"__truediv__", "__itruediv__", "__rtruediv__", xf_div}}) {
      auto want = o.f(xa, xb);
      check(xf_same(res(R()(std::string("f.") + o.n, {a, other})), want), std::string("C13 wrong result: ") + o.n, show(xa, xb));
      check(xf_same(to_xf(a), xa), std::string("C13 operand changed: ") + o.n);
      auto c = mk(xa);
      check(xf_same(res(R()(std::string("f.") + o.i, {std::any(std::make_shared<F>(c)), other})), want), std::string("C13 wrong result: ") + o.i, show(xa, xb));
      if (how) check(xf_same(res(R()(std::string("f.") + o.r, {a, other})), o.f(xb, xa)), std::string("C13 wrong result: ") + o.r, show(xa, xb));
    }
    cover("arithmetic");
  } else if (op == "cmp") {
    bool eq = xf_eq(xa, xb), lt = xf_lt(xa, xb), gt = xf_lt(xb, xa);
    struct C { const char* n; bool w; };
    for (auto& c : std::vector<C>{{"__eq__", eq}, {"__ne__", !eq}, {"__lt__", lt}, {"__le__", lt || eq}, {"__gt__", gt}, {"__ge__", gt || eq}})
      check_b(py::as<bool>(R()(std::string("f.") + c.n, {a, other})) == c.w, std::string("C13 wrong answer: ") + c.n, show(xa, xb));
    if (xa.k == XF::NAN_ || xb.k == XF::NAN_) cover("not-a-number compared");
  } else if (op == "one") {
    check(xf_same(res(R()("f.__pos__", {a})), xa), "C13 wrong result: __pos__");
    check(xf_same(res(R()("f.__neg__", {a})), -xa), "C13 wrong result: __neg__", show(xa, xa));
    check(xf_same(res(R()("f.__abs__", {a})), xf_abs(xa)), "C13 wrong result: __abs__", show(xa, xa));
    check_b(py::as<bool>(R()("f.isinf", {a})) == (xa.k == XF::INF), "C13 wrong answer: isinf", show(xa, xa));
    check_b(py::as<bool>(R()("f.isnan", {a})) == (xa.k == XF::NAN_), "C13 wrong answer: isnan", show(xa, xa));
    if (xa.k != XF::NAN_) check_b(py::as<bool>(R()("f.signbit", {a})) == xa.sign(), "C13 wrong answer: signbit", show(xa, xa));
    check(same_rounded(to_xf(py::as<LDBL_T>(R()("f.__float__", {a}))), round_xf(xa)), "C13 wrong result: __float__", show(xa, xa));
    check(xf_same(res(R()("f.__init__", {std::any(LDBL_T(to_ld(xa)))})), xa), "C13 a number built from a float is another number");
    check(xf_same(res(R()("f.__init__", {a})), xa), "C13 a copy is another number", show(xa, xa));
    // numbers that need the full precision survive too
    F t = a / b; XF xt = to_xf(t);
    check(xf_same(res(R()("f.__init__", {t})), xt), "C13 a copy is another number", show(xa, xb));
    check(xf_same(res(R()("f.__setstate__", {R()("f.__getstate__", {a})})), xa), "C13 saving and restoring gives another number", show(xa, xa));
    check(xf_same(res(R()("f.__setstate__", {R()("f.__getstate__", {t})})), xt), "C13 saving and restoring gives another number", show(xa, xb));
    F c = t, d; d = t; F e = std::move(c); F g = mk(xa); g = std::move(d);
    check(b_and(xf_same(to_xf(e), xt), xf_same(to_xf(g), xt)), "C13 assigning gives another number");
    cover("one number");
  } else {
    if (xa.k != XF::NUM || xb.k != XF::NUM) assume_b(false);
    assume(r_lt(Real(0), xa.r));
#ifdef CONC
    auto w = std::pow((long double)xa.r.q.get_d(), (long double)xb.r.q.get_d());
    check_b(std::fabs((long double)py::as<F>(R()("f.__pow__", {a, LDBL_T(to_ld(xb))})) - w) <= 1e-9L * std::fabs(w), "C13 wrong result: __pow__", show(xa, xb));
#else
    check(xf_same(res(R()("f.__pow__", {a, LDBL_T(to_ld(xb))})), xf_pow(xa, xb)), "C13 wrong result: __pow__", show(xa, xb));
#endif
    cover("power");
  }
}

// ---- closeness
void close_(const std::string& what, int n) {
  static bool once = [] { py::module_ m; tnco::utils::init(m); return true; }(); (void)once;
  XF tol = hold(fresh_xf("atol", false)); if (tol.sign()) assume_b(false);
  auto T = LDBL_T(to_ld(tol));
  auto want = [&](const XF& x, const XF& y, bool lg) {
    if (!lg) return xf_le(xf_abs(xf_sub(x, y)), tol);
    if (xf_lt(x, XF(0)) || xf_lt(y, XF(0))) return false;
    if (x.k == XF::ZERO || y.k == XF::ZERO) return x.k == XF::ZERO && y.k == XF::ZERO;
#ifdef CONC
    return std::fabs(std::log(to_ld(x)) - std::log(to_ld(y))) <= to_ld(tol);
#else
    return xf_le(xf_abs(xf_sub(xf_log(x), xf_log(y))), tol);
#endif
  };
  bool lg = what == "log";
  if (n < 0) {
    auto x = hold(fresh_xf("x", false)), y = hold(fresh_xf("y", false));
    bool r = py::as<bool>(R()(lg ? ".is_logclose" : ".is_close", {LDBL_T(to_ld(x)), LDBL_T(to_ld(y)), T}));
    check_b(r == want(x, y, lg), lg ? "C15 wrong answer: is_logclose" : "C15 wrong answer: is_close", show(x, y));
    cover(r ? "close" : "not close");
    return;
  }
  long nx = choose(n + 1, "length"), ny = choose(n + 1, "length");
  std::vector<XF> x, y; std::vector<LDBL_T> lx, ly;
  for (long i = 0; i < nx; ++i) { x.push_back(hold(fresh_xf("x", false))); lx.push_back(to_ld(x.back())); }
  for (long i = 0; i < ny; ++i) { y.push_back(hold(fresh_xf("y", false))); ly.push_back(to_ld(y.back())); }
  bool r = py::as<bool>(R()(lg ? ".all_logclose" : ".all_close", {lx, ly, T}));
  bool w = nx == ny;
  for (long i = 0; w && i < nx; ++i) w = want(x[i], y[i], lg);
  check_b(r == w, lg ? "C15 wrong answer: all_logclose" : "C15 wrong answer: all_close", "lengths " + std::to_string(nx) + " " + std::to_string(ny));
  cover(r ? "arrays close" : "arrays not close");
}

std::vector<std::string> harness_configs(const std::string&, const std::string&) { return {}; }
void harness_run(const std::string&, const std::string&, const std::string& config) {
  std::string kind; auto o = opts(config, kind);
  if (kind == "bitset") bitset_(o["n"]);
  else if (kind == "close" || kind == "log") close_(kind, o.count("n") ? o["n"] : -1);
  else float_(kind, o["how"]);
}
int main(int c, char** v) { return sym_main(c, v); }

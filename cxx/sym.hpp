// Symbolic execution by native execution: two modes.
//   default : values are z3 terms; branches on them fork (by re-execution).
//   -DCONC  : the same harness on ordinary values read from a replay file.
#pragma once
#include <type_traits>
namespace sym { struct Real; }
namespace std {
template <> struct is_arithmetic<sym::Real> : true_type {};
template <> inline constexpr bool is_arithmetic_v<sym::Real> = true;
}
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#ifndef CONC
#include <z3++.h>
#else
#include <gmpxx.h>
#endif

namespace sym {

struct Abort {};  // leaves the current path (assumption false, or stop)

// Tokens: native numbers that stand for symbolic ones (they survive a trip
// through double).  TOK+i: positive integer d<i>; RTOK+i: real r<i>.
constexpr size_t TOK = 0x7E5700000000ULL, RTOK = 0x7E5800000000ULL;
inline bool is_tok(unsigned long long x) { return (x >> 16) == (TOK >> 16); }
inline bool is_rtok(unsigned long long x) { return (x >> 16) == (RTOK >> 16); }
template <typename T> inline int tok_kind(T x) {  // 1 integer token, 2 real token, negative when negated
  if constexpr (sizeof(T) < 8) return 0;
  else {
    bool neg = x < T(0); T y = neg ? -x : x;
    if (!(y >= T(TOK) && y < T(RTOK) + T(65536))) return 0;
    auto u = (unsigned long long)y;
    if (T(u) != y) return 0;
    int k = is_tok(u) ? 1 : is_rtok(u) ? 2 : 0;
    return neg ? -k : k;
  }
}

inline std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if ((unsigned char)c < 32) o += ' ';
    else o += c;
  }
  return o + "\"";
}

// only the checks of this property are decided (labels start with its id)
inline std::string only_prop;
inline bool skipped(const std::string& l) { return l.size() > 3 && l[0] == 'C' && l[3] == ' ' && l.compare(0, 3, only_prop) != 0 && !only_prop.empty(); }
struct Violation { std::string label, detail; std::vector<std::string> vals; };

// watched by the alarm: a path hangs when nothing symbolic happens for a while
inline volatile long progress = 0;
inline volatile int in_solver = 0;

#ifndef CONC
// ---------------------------------------------------------------- symbolic
using Bit = int;  // 0 false, 1 true, >=2 arena index

struct Engine {
  z3::context ctx;
  z3::solver s{ctx, z3::solver::simple()};
  std::vector<z3::expr> arena;
  std::map<std::tuple<int, int, int, int>, int> cache;
  struct D { long v, n; bool solver; };
  std::vector<D> trail;
  size_t pos = 0;
  std::optional<z3::model> model;
  // values created on this path, in order
  struct V { std::string name; std::optional<z3::expr> e; long c; };
  std::vector<V> vals;
  std::map<std::string, int> names;
  struct UF { std::string name; z3::func_decl f; int nb; };
  std::map<std::string, UF> ufs;
  std::map<std::string, z3::expr> consts;  // persistent constants
  // statistics
  long paths = 0, queries = 0, checks = 0, decisions = 0, unknown = 0, trivial = 0, assumed_out = 0;
  double solver_s = 0;
  std::map<std::string, long> labels, covers;
  std::vector<Violation> viol;
  size_t max_viol = 3;
  bool truncated = false, stopped = false;
  long bad_paths = 0;
  std::set<std::string> seen_viol;
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
  double budget = 1e9;
  std::unordered_map<unsigned, std::pair<z3::expr, z3::expr>> smemo;
  z3::expr simp(const z3::expr& e) {
    auto it = smemo.find(e.id());
    if (it != smemo.end()) return it->second.second;
    auto d = e.simplify();
    smemo.emplace(e.id(), std::make_pair(e, d));
    return d;
  }
  double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

  Engine() {
    arena.push_back(ctx.bool_val(false));
    arena.push_back(ctx.bool_val(true));
    z3::params p(ctx);
    p.set("timeout", 60000u);
    s.set(p);
  }
  z3::check_result check() {
    ++progress;
    if (elapsed() > budget + 15) { truncated = true; throw Abort{}; }  // the path is given up
    auto t = std::chrono::steady_clock::now();
    in_solver = 1;
    auto r = s.check();
    in_solver = 0;
    ++progress;
    solver_s += std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count();
    ++queries;
    return r;
  }
  void step() {
    ++progress;
    if (++steps > 20000) { steps = 0; violation("hang", "20000 decisions on one path"); }
  }
  long steps = 0;
  void begin() {
    steps = 0;
    s.reset();
    pos = 0; vals.clear(); names.clear(); model.reset();
  }
  bool next() {  // prepare the next path; false when exhausted
    while (!trail.empty()) {
      auto& d = trail.back();
      if (d.v + 1 < d.n) { ++d.v; return true; }
      trail.pop_back();
    }
    return false;
  }
  // free choice
  long choose(long n, const char* name = "choice") {
    if (n <= 0) { std::fprintf(stderr, "choose(%ld)\n", n); std::abort(); }
    step();
    long v;
    if (n == 1) v = 0;
    else if (pos < trail.size()) v = trail[pos++].v;
    else { trail.push_back({0, n, false}); ++pos; v = 0; }
    vals.push_back({name, std::nullopt, v});
    return v;
  }
  void add(const z3::expr& e) { s.add(e); }
  bool decide(z3::expr c) {
    c = simp(c);
    if (c.is_true()) return true;
    if (c.is_false()) return false;
    ++decisions;
    step();
    if (pos < trail.size()) {
      auto& d = trail[pos++];
      // v==0: side 'first', v==1: other ; first side is stored in n's sign bit
      bool side = d.solver ? (d.v == 0) : (d.v != 0);
      add(side ? c : !c);
      model.reset();
      return side;
    }
    // which side does the current model take?
    bool t_ok = false, f_ok = false;
    if (!model) {
      auto r = check();
      if (r == z3::unsat) { ++assumed_out; throw Abort{}; }
      if (r == z3::sat) model = s.get_model();
    }
    if (model) {
      auto v = model->eval(c, true);
      if (v.is_true()) t_ok = true;
      else if (v.is_false()) f_ok = true;
    }
    if (!t_ok) {
      s.push(); add(c); auto r = check();
      if (r != z3::unsat) { t_ok = true; if (r == z3::unknown) ++unknown; }
      s.pop();
    }
    if (!f_ok) {
      s.push(); add(!c); auto r = check();
      if (r != z3::unsat) { f_ok = true; if (r == z3::unknown) ++unknown; }
      s.pop();
    }
    if (!t_ok && !f_ok) { ++assumed_out; throw Abort{}; }
    // D.v==0 means true side first; if only one side is feasible n=1.
    if (t_ok && f_ok) {
      trail.push_back({0, 2, true}); ++pos;
      add(c);
      if (model && !model->eval(c, true).is_true()) model.reset();
      return true;
    }
    if (t_ok) { trail.push_back({0, 1, true}); ++pos; add(c); return true; }
    trail.push_back({0, 1, false}); ++pos; add(!c);  // forced false: v==0, solver=false
    return false;
  }
  std::string fresh_name(const std::string& n) { return n + "#" + std::to_string(names[n]++); }
  z3::expr fresh(const std::string& n, char k) {
    auto nm = fresh_name(n);
    auto key = nm + k;
    auto it = consts.find(key);
    if (it == consts.end()) {
      z3::expr e = k == 'b' ? ctx.bool_const(key.c_str()) : k == 'i' ? ctx.int_const(key.c_str()) : ctx.real_const(key.c_str());
      it = consts.emplace(key, e).first;
    }
    vals.push_back({nm, it->second, 0});
    return it->second;
  }
  z3::expr named(const std::string& n, char k) {  // same name -> same constant on a path
    auto key = n + "!" + k;
    auto it = consts.find(key);
    if (it == consts.end()) {
      z3::expr e = k == 'b' ? ctx.bool_const(key.c_str()) : k == 'i' ? ctx.int_const(key.c_str()) : ctx.real_const(key.c_str());
      it = consts.emplace(key, e).first;
    }
    return it->second;
  }
  void assume(const z3::expr& c) {
    auto d = simp(c);
    if (d.is_true()) return;
    add(d);
    if (model && !model->eval(d, true).is_true()) model.reset();
    if (d.is_false()) { ++assumed_out; throw Abort{}; }
  }
  static std::string show(z3::expr v) {
    std::ostringstream o; o << v; auto s = o.str();
    if (v.is_numeral()) { std::string q; v.is_numeral(q); return q; }
    return s;
  }
  std::vector<std::string> dump(z3::model m) {
    std::vector<std::string> out;
    for (auto& v : vals)
      out.push_back(v.name + " " + (v.e ? show(m.eval(*v.e, true)) : std::to_string(v.c)));
    for (auto& [n, uf] : ufs)
      for (unsigned long k = 0; k < (1UL << uf.nb); ++k) {
        z3::expr_vector a(ctx);
        for (int i = 0; i < uf.nb; ++i) a.push_back(ctx.bool_val(bool((k >> i) & 1)));
        out.push_back("@" + n + " " + std::to_string(k) + " " + show(m.eval(uf.f(a), true)));
      }
    for (auto& [n, e] : consts)
      if (n.find('!') != std::string::npos) out.push_back("=" + n.substr(0, n.find('!')) + " " + show(m.eval(e, true)));
    return out;
  }
  void violation(const std::string& label, const std::string& detail = "") {
    if (!model) { auto r = check(); if (r == z3::sat) model = s.get_model(); else { if (r == z3::unknown) ++unknown; throw Abort{}; } }
    violation_model(label, detail, *model);
  }
  void violation_model(const std::string& label, const std::string& detail, z3::model m) {
    ++bad_paths;
    if (seen_viol.insert(label).second) viol.push_back({label, detail, dump(m)});
    throw Abort{};
  }
  void check_that(const z3::expr& c, const std::string& label, const std::string& detail = "") {
    ++labels[label]; ++checks;
    auto d = simp(c);
    if (d.is_true()) { ++trivial; return; }
    s.push(); add(!d); auto r = check();
    if (r == z3::sat) { auto m = s.get_model(); s.pop(); violation_model(label, detail, m); }
    s.pop();
    if (r == z3::unknown) { ++unknown; return; }
  }
};
inline Engine& E() { static Engine e; return e; }

inline z3::expr bx(Bit b) { return E().arena[b]; }
inline Bit intern(z3::expr e, std::tuple<int, int, int, int> key) {
  auto& g = E();
  auto it = g.cache.find(key);
  if (it != g.cache.end()) return it->second;
  auto d = e.simplify();
  int id = d.is_true() ? 1 : d.is_false() ? 0 : (g.arena.push_back(d), (int)g.arena.size() - 1);
  g.cache[key] = id;
  return id;
}
inline Bit b_not(Bit a) { if (a < 2) return !a; return intern(!bx(a), {3, a, 0, 0}); }
inline Bit b_and(Bit a, Bit b) {
  if (a == 0 || b == 0) return 0; if (a == 1) return b; if (b == 1 || a == b) return a;
  if (a > b) std::swap(a, b); return intern(bx(a) && bx(b), {0, a, b, 0});
}
inline Bit b_or(Bit a, Bit b) {
  if (a == 1 || b == 1) return 1; if (a == 0) return b; if (b == 0 || a == b) return a;
  if (a > b) std::swap(a, b); return intern(bx(a) || bx(b), {1, a, b, 0});
}
inline Bit b_xor(Bit a, Bit b) {
  if (a == 0) return b; if (b == 0) return a; if (a == b) return 0; if (a == 1) return b_not(b); if (b == 1) return b_not(a);
  if (a > b) std::swap(a, b); return intern(bx(a) != bx(b), {2, a, b, 0});
}
inline Bit b_eq(Bit a, Bit b) { return b_not(b_xor(a, b)); }
inline bool decide(Bit b) { return b < 2 ? bool(b) : E().decide(bx(b)); }
inline Bit fresh_bit(const std::string& n) {
  auto e = E().fresh(n, 'b');
  // key by z3 ast id to keep arena stable
  return intern(e, {9, (int)e.id(), 0, 0});
}
inline long choose(long n, const char* name = "choice") { return E().choose(n, name); }
inline void assume(Bit b) { if (b == 0) { ++E().assumed_out; throw Abort{}; } if (b != 1) E().assume(bx(b)); }
inline void assume_b(bool b) { if (!b) { ++E().assumed_out; throw Abort{}; } }
inline void check(Bit b, const std::string& label, const std::string& detail = "") { if (skipped(label)) return; E().check_that(bx(b), label, detail); }
inline void check_b(bool b, const std::string& label, const std::string& detail = "") {
  if (skipped(label)) return;
  ++E().labels[label]; ++E().checks; if (!b) E().violation(label, detail);
}
inline void fail(const std::string& label, const std::string& detail = "") { E().violation(label, detail); }
inline void cover(const std::string& l) { ++E().covers[l]; }

struct Real {
  z3::expr e;
  static z3::expr num(long double x) {
    static std::map<long double, z3::expr> memo;
    auto it = memo.find(x);
    if (it == memo.end()) it = memo.emplace(x, num_(x)).first;
    return it->second;
  }
  static z3::expr num_(long double x) {
    if (x == 0) return E().ctx.real_val(0);
    if (std::isinf(x) || std::isnan(x)) { E().ctx.real_val(0); std::fprintf(stderr, "inf/nan constant\n"); throw std::domain_error("sym: inf/nan constant"); }
    int ex; long double m = std::frexp(x, &ex);
    __int128 mi = (__int128)std::ldexp(m, 64); ex -= 64;
    while (mi && !(mi & 1)) { mi >>= 1; ++ex; }
    auto str = [](__int128 v) { bool n = v < 0; if (n) v = -v; std::string s; do { s += char('0' + int(v % 10)); v /= 10; } while (v); if (n) s += '-'; std::reverse(s.begin(), s.end()); return s; };
    z3::expr r = E().ctx.real_val(str(mi).c_str());
    z3::expr two = E().ctx.real_val(1);
    for (int i = 0; i < std::abs(ex); ++i) two = (two * 2).simplify();
    return (ex >= 0 ? r * two : r / two).simplify();
  }
  static z3::expr fromint(long long x) { if (x == 0) { static auto z = E().ctx.real_val(0); return z; } if (x == 1) { static auto z = E().ctx.real_val(1); return z; } return E().ctx.real_val(std::to_string(x).c_str()); }
  static z3::expr tok(unsigned long long x) {
    auto e = E().named("d" + std::to_string(x - TOK), 'i');
    return z3::to_real(e);
  }
  Real() : e(fromint(0)) {}
  Real(const z3::expr& x) : e(x) {}
  Real(const Real&) = default;
  Real& operator=(const Real&) = default;
  template <typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0>
  Real(T x) : e(tok_kind(x) ? tokn(x) : fromint((long long)x)) {}
  template <typename T, std::enable_if_t<std::is_floating_point_v<T>, int> = 0>
  Real(T x) : e(tok_kind(x) ? tokn(x) : num(x)) {}
  template <typename T> static z3::expr tokn(T x) {
    int k = tok_kind(x); unsigned long long u = k < 0 ? -x : x;
    auto v = k == 1 || k == -1 ? tok(u) : E().named("r" + std::to_string(u - RTOK), 'r');
    return k < 0 ? -v : v;
  }
  explicit operator double() const { throw std::logic_error("sym: Real->double"); }
  explicit operator long double() const { throw std::logic_error("sym: Real->long double"); }
  Real operator-() const { return Real(E().simp(-e)); }
  Real operator+() const { return *this; }
  Real& operator+=(const Real& o) { e = E().simp(e + o.e); return *this; }
  Real& operator-=(const Real& o) { e = E().simp(e - o.e); return *this; }
  Real& operator*=(const Real& o) { e = E().simp(e * o.e); return *this; }
  Real& operator/=(const Real& o) {
    if (!o.e.is_numeral()) {
      // 0/x: recognised when the numerator is provably zero (x assumed non-zero)
      auto& g = E();
      g.s.push(); g.add(e != 0); auto r = g.check(); g.s.pop();
      if (r == z3::unsat) { e = g.ctx.real_val(0); return *this; }
    }
    e = E().simp(e / o.e); return *this;
  }
};
inline Real operator+(Real a, const Real& b) { a += b; return a; }
inline Real operator-(Real a, const Real& b) { a -= b; return a; }
inline Real operator*(Real a, const Real& b) { a *= b; return a; }
inline Real operator/(Real a, const Real& b) { a /= b; return a; }
#define SYM_CMP(op) \
  inline bool operator op(const Real& a, const Real& b) { return E().decide(a.e op b.e); }
SYM_CMP(<) SYM_CMP(<=) SYM_CMP(>) SYM_CMP(>=) SYM_CMP(==) SYM_CMP(!=)
#undef SYM_CMP
inline Bit r_cmp(z3::expr e) { e = E().simp(e); return e.is_true() ? 1 : e.is_false() ? 0 : intern(e, {10, (int)e.id(), 0, 0}); }
inline Bit r_eq(const Real& a, const Real& b) { return r_cmp(a.e == b.e); }
inline Bit r_le(const Real& a, const Real& b) { return r_cmp(a.e <= b.e); }
inline Bit r_lt(const Real& a, const Real& b) { return r_cmp(a.e < b.e); }
inline Real r_ite(Bit c, const Real& a, const Real& b) { return c == 1 ? a : c == 0 ? b : Real(z3::ite(bx(c), a.e, b.e)); }
inline Real abs(const Real& a) { return Real(E().simp(z3::ite(a.e >= 0, a.e, -a.e))); }
inline Real fabs(const Real& a) { return abs(a); }
inline Real uf1(const char* n, const Real& a) {
  auto& g = E();
  return Real(g.ctx.function(n, g.ctx.real_sort(), g.ctx.real_sort())(a.e.simplify()));
}
// exp and log: uninterpreted, with the facts used (sign, monotonicity) stated
// for every application made on the path.
inline std::map<std::string, std::vector<std::pair<z3::expr, z3::expr>>>& apps() { static std::map<std::string, std::vector<std::pair<z3::expr, z3::expr>>> m; return m; }
inline long& apps_path() { static long p = -1; return p; }
inline Real mono(const char* n, const Real& a) {
  auto& g = E();
  if (apps_path() != g.paths) { apps().clear(); apps_path() = g.paths; }
  auto x = g.simp(a.e);
  auto r = uf1(n, Real(x)).e;
  auto& l = apps()[n];
  for (auto& [y, q] : l) if (z3::eq(x, y)) return Real(r);
  g.assume(n[0] == 'e' ? (r > 0 && (x < 0) == (r < 1) && (x == 0) == (r == 1)) : ((x < 1) == (r < 0) && (x == 1) == (r == 0)));
  for (auto& [y, q] : l) g.assume((x < y) == (r < q) && (x == y) == (r == q));
  if (n[0] == 'l' && n[3] == 0) for (auto& [y, q] : l) g.assume(z3::implies(x * y == 1, r == -q));
  l.push_back({x, r});
  return Real(r);
}
inline Real log(const Real& a) { return mono("log", a); }
inline Real exp(const Real& a) { return mono("exp", a); }
inline Real log2(const Real& a) {
  auto x = E().simp(a.e);
  if (x.is_app() && x.num_args() == 1 && x.decl().decl_kind() == Z3_OP_TO_REAL && x.arg(0).is_const()) {
    auto n = x.arg(0).decl().name().str();
    if (n[0] == 'd' && n.find('!') != std::string::npos) return Real(E().named("w" + n.substr(1, n.find('!') - 1), 'r'));
  }
  return mono("log2", a);
}
inline bool isinf(const Real&) { return false; }
inline bool isnan(const Real&) { return false; }
inline bool isfinite(const Real&) { return true; }
inline std::ostream& operator<<(std::ostream& o, const Real& a) { return o << a.e; }
inline Real fresh_real(const std::string& n) { return Real(E().fresh(n, 'r')); }
inline Real named_real(const std::string& n) { return Real(E().named(n, 'r')); }
inline Real uf_bits(const std::string& n, const std::vector<Bit>& args) {
  auto& g = E();
  auto it = g.ufs.find(n);
  if (it == g.ufs.end()) {
    z3::sort_vector d(g.ctx);
    for (size_t i = 0; i < args.size(); ++i) d.push_back(g.ctx.bool_sort());
    it = g.ufs.emplace(n, Engine::UF{n, g.ctx.function(n.c_str(), d, g.ctx.real_sort()), (int)args.size()}).first;
  }
  z3::expr_vector a(g.ctx);
  for (auto b : args) a.push_back(bx(b));
  return Real(it->second.f(a));
}

#else  // ----------------------------------------------------------- concrete
using Bit = int;
using Q = mpq_class;
struct Engine {
  std::vector<std::pair<std::string, std::string>> in;
  size_t pos = 0;
  std::map<std::string, std::map<unsigned long, std::string>> ufs;
  std::map<std::string, std::string> named;
  std::map<std::string, long> labels, covers;
  std::string label, detail;
  bool failed = false;
  std::string take(const std::string& n) {
    if (pos >= in.size()) { std::fprintf(stderr, "replay: out of values at %s\n", n.c_str()); throw Abort{}; }
    auto& [k, v] = in[pos++];
    auto base = k.substr(0, k.find('#'));
    if (base != n) { std::fprintf(stderr, "replay: expected %s got %s\n", n.c_str(), k.c_str()); throw Abort{}; }
    return v;
  }
};
inline Engine& E() { static Engine e; return e; }
inline Bit b_not(Bit a) { return !a; }
inline Bit b_and(Bit a, Bit b) { return a && b; }
inline Bit b_or(Bit a, Bit b) { return a || b; }
inline Bit b_xor(Bit a, Bit b) { return a != b; }
inline Bit b_eq(Bit a, Bit b) { return a == b; }
inline bool decide(Bit b) { return b; }
inline Bit fresh_bit(const std::string& n) { return E().take(n) == "true"; }
inline long choose(long n, const char* name = "choice") { return std::stol(E().take(name)); }
inline void assume(Bit b) { if (!b) { std::fprintf(stderr, "replay: assumption false\n"); throw Abort{}; } }
inline void assume_b(bool b) { assume(b); }
inline void fail(const std::string& label, const std::string& detail = "") {
  E().failed = true; E().label = label; E().detail = detail; throw Abort{};
}
inline void check(Bit b, const std::string& label, const std::string& detail = "") { if (skipped(label)) return; ++E().labels[label]; if (!b) fail(label, detail); }
inline void check_b(bool b, const std::string& label, const std::string& detail = "") { check(b, label, detail); }
inline void cover(const std::string& l) { ++E().covers[l]; }
inline Q parse_q(std::string s) {
  if (!s.empty() && s.back() == '?') s.pop_back();
  auto dot = s.find('.');
  if (dot != std::string::npos) {
    auto frac = s.substr(dot + 1);
    s = s.substr(0, dot) + frac + "/1" + std::string(frac.size(), '0');
  }
  Q v(s); v.canonicalize(); return v;
}
struct Real {
  Q q;
  Real() : q(0) {}
  Real(const Q& x) : q(x) {}
  template <typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0>
  Real(T x) : q(0) {
    if (tok_kind(x)) q = tokn(x);
    else q = Q((long)x);
  }
  template <typename T, std::enable_if_t<std::is_floating_point_v<T>, int> = 0>
  Real(T x) : q(tok_kind(x) ? tokn(x) : Q((double)x)) {}
  template <typename T> static Q tokn(T x) {
    int k = tok_kind(x); unsigned long long u = k < 0 ? -x : x;
    Q v = std::abs(k) == 1 ? parse_q(E().named["d" + std::to_string(u - TOK)]) : parse_q(E().named["r" + std::to_string(u - RTOK)]);
    return k < 0 ? Q(-v) : v;
  }
  explicit operator double() const { return q.get_d(); }
  explicit operator long double() const { return q.get_d(); }
  Real operator-() const { return Real(Q(-q)); }
  Real operator+() const { return *this; }
  Real& operator+=(const Real& o) { q += o.q; return *this; }
  Real& operator-=(const Real& o) { q -= o.q; return *this; }
  Real& operator*=(const Real& o) { q *= o.q; return *this; }
  Real& operator/=(const Real& o) { if (o.q == 0) { q = 0; return *this; } q /= o.q; return *this; }
};
inline Real operator+(Real a, const Real& b) { a += b; return a; }
inline Real operator-(Real a, const Real& b) { a -= b; return a; }
inline Real operator*(Real a, const Real& b) { a *= b; return a; }
inline Real operator/(Real a, const Real& b) { a /= b; return a; }
#define SYM_CMP(op) inline bool operator op(const Real& a, const Real& b) { return a.q op b.q; }
SYM_CMP(<) SYM_CMP(<=) SYM_CMP(>) SYM_CMP(>=) SYM_CMP(==) SYM_CMP(!=)
#undef SYM_CMP
inline Bit r_eq(const Real& a, const Real& b) { return a.q == b.q; }
inline Bit r_le(const Real& a, const Real& b) { return a.q <= b.q; }
inline Bit r_lt(const Real& a, const Real& b) { return a.q < b.q; }
inline Real r_ite(Bit c, const Real& a, const Real& b) { return c ? a : b; }
inline Real abs(const Real& a) { return a.q < 0 ? Real(Q(-a.q)) : a; }
inline Real fabs(const Real& a) { return abs(a); }
inline Real log(const Real& a) { return a.q <= 0 ? Real(-1e300) : Real(std::log((double)a)); }
inline Real exp(const Real& a) { return Real(std::exp(a.q.get_d())); }
inline Real log2(const Real& a) { for (auto& [n, v] : E().named) if (n[0] == 'd' && parse_q(v) == a.q && E().named.count("w" + n.substr(1))) return Real(parse_q(E().named["w" + n.substr(1)])); return a.q <= 0 ? Real(-1e300) : Real(std::log2((double)a)); }
inline bool isinf(const Real&) { return false; }
inline bool isnan(const Real&) { return false; }
inline bool isfinite(const Real&) { return true; }
inline std::ostream& operator<<(std::ostream& o, const Real& a) { return o << a.q.get_str(); }
inline Real fresh_real(const std::string& n) { return Real(parse_q(E().take(n))); }
inline Real named_real(const std::string& n) { return Real(parse_q(E().named[n])); }
inline Real uf_bits(const std::string& n, const std::vector<Bit>& args) {
  unsigned long k = 0;
  for (size_t i = 0; i < args.size(); ++i) k |= (unsigned long)(args[i] != 0) << i;
  auto& t = E().ufs[n];
  auto it = t.find(k);
  return it == t.end() ? Real(1) : Real(parse_q(it->second));
}
#endif

template <typename T> using arith_t = std::enable_if_t<std::is_arithmetic_v<T>, int>;
#define SYM_MIX(op, R) \
  template <typename T, std::enable_if_t<std::is_fundamental_v<T>, int> = 0> inline R operator op(const Real& a, T b) { return a op Real(b); } \
  template <typename T, std::enable_if_t<std::is_fundamental_v<T>, int> = 0> inline R operator op(T a, const Real& b) { return Real(a) op b; }
SYM_MIX(+, Real) SYM_MIX(-, Real) SYM_MIX(*, Real) SYM_MIX(/, Real)
SYM_MIX(<, bool) SYM_MIX(<=, bool) SYM_MIX(>, bool) SYM_MIX(>=, bool) SYM_MIX(==, bool) SYM_MIX(!=, bool)
#undef SYM_MIX

inline Real exp2(const Real& a) { return exp(a * log(Real(2))); }
template <typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0>
inline Real pow(const Real& a, T n) {
  Real r(1); bool neg = n < T(0);
  for (T i = 0; i != n; neg ? --i : ++i) r *= a;
  return neg ? Real(1) / r : r;
}
inline Real pow(const Real& a, const Real& b) { return exp(b * log(a)); }
template <typename T, std::enable_if_t<std::is_floating_point_v<T>, int> = 0>
inline Real pow(const Real& a, T b) { return tok_kind(b) || b != T((long)b) ? pow(a, Real(b)) : pow(a, (long)b); }
template <typename T, std::enable_if_t<std::is_fundamental_v<T>, int> = 0>
inline Real pow(T a, const Real& b) { return pow(Real(a), b); }
inline const Real& min_r(const Real& a, const Real& b) { return b < a ? b : a; }

inline Bit b_implies(Bit a, Bit b) { return b_or(b_not(a), b); }

// log2 of a (possibly symbolic) integer dimension
inline bool plain_log2 = false;
inline Real log2_tok(unsigned long long x) {
  if (tok_kind(x) == 1) return named_real("w" + std::to_string(x - TOK));
  if (x && !(x & (x - 1))) { int k = 0; while (x > 1) { x >>= 1; ++k; } return Real(k); }
  return Real((double)std::log2((long double)x));
}

// ------------------------------------------------------------------- PRNG
// A draw is an arbitrary 32-bit number.  "% n" and "& (2^k-1)" of a draw that
// was not used before are an arbitrary residue; further uses of the same draw
// are consistent with it (period 840).
struct Draw {
  std::shared_ptr<long> v = std::make_shared<long>(-1);
  long conc(long period) const {
    if (*v < 0) *v = choose(period, "draw");
    return *v;
  }
  template <typename T> T operator%(T n) const {
    if (n == 0) fail("crash", "random draw taken modulo zero");
    if (*v >= 0) return T(*v % (long)n);
    // keep residues mod small numbers independent of later uses
    long r = choose((long)n, "draw");
    *v = r;  // a representative with this residue
    return T(r);
  }
  template <typename T> T operator&(T m) const { if (((m + 1) & m) == 0 && m < 1024) return T(*this % (long)(m + 1)); return T(conc(12) & m); }
  template <typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0> operator T() const { return T(conc(12)); }
};
}  // namespace sym

namespace std {
struct sym_mt19937 {
  using result_type = unsigned;
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return 0xffffffffu; }
  static constexpr result_type default_seed = 5489u;
  unsigned long seeded = 5489;
  std::string state = "init";
  sym_mt19937() = default;
  template <typename T> explicit sym_mt19937(T s) { seed(s); }
  template <typename T> void seed(T) {}
  void seed() {}
  sym::Draw operator()() { return {}; }
  void discard(unsigned long long) {}
  friend std::ostream& operator<<(std::ostream& o, const sym_mt19937& p) { return o << p.state; }
  friend std::istream& operator>>(std::istream& i, sym_mt19937& p) { return i >> p.state; }
  bool operator==(const sym_mt19937& o) const { return state == o.state; }
};
template <typename T = double>
struct sym_uniform_real_distribution {
  using result_type = sym::Real;
  sym::Real a{0}, b{1};
  sym_uniform_real_distribution() = default;
  template <typename U, typename V> sym_uniform_real_distribution(U a, V b) : a(a), b(b) {}
  template <typename G> sym::Real operator()(G&&) const {
    auto u = sym::fresh_real("u");
    sym::assume(sym::b_and(sym::r_le(sym::Real(0), u), sym::r_lt(u, sym::Real(1))));
    return a + u * (b - a);
  }
};
template <typename T = int>
struct sym_uniform_int_distribution {
  using result_type = T;
  T lo{0}, hi{std::numeric_limits<T>::max()};
  sym_uniform_int_distribution() = default;
  sym_uniform_int_distribution(T a, T b = std::numeric_limits<T>::max()) : lo(a), hi(b) {}
  template <typename G> T operator()(G&&) const { return lo + T(sym::choose((long)hi - (long)lo + 1, "draw")); }
};
struct sym_bernoulli_distribution {
  double p = 0.5;
  sym_bernoulli_distribution() = default;
  template <typename T> explicit sym_bernoulli_distribution(T) {}
  template <typename G> bool operator()(G&&) const { return sym::choose(2, "draw"); }
};
template <typename It, typename G>
void sym_shuffle(It b, It e, G&&) {
  for (long n = e - b, i = n - 1; i > 0; --i) std::swap(b[i], b[sym::choose(i + 1, "draw")]);
}
}  // namespace std

namespace sym {
// ------------------------------------------------------------ driver
inline sigjmp_buf jb;
inline volatile int in_path = 0;
inline volatile long seen_progress = 0;
inline pthread_t main_thread;
inline void on_signal(int sig) {
  if (sig == SIGALRM) {
    if (!pthread_equal(pthread_self(), main_thread)) { pthread_kill(main_thread, sig); return; }
    if (!in_path) return;
    if (in_solver || progress != seen_progress) { seen_progress = progress; alarm(60); return; }
  }
  if (!in_path) _exit(70);
  siglongjmp(jb, sig);
}
inline void install_signals() {
  main_thread = pthread_self();
  struct sigaction sa; std::memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_signal; sa.sa_flags = SA_NODEFER | SA_ONSTACK;
  static std::vector<char> alt(1 << 20);
  stack_t ss{}; ss.ss_sp = alt.data(); ss.ss_size = alt.size();
  sigaltstack(&ss, nullptr);
  for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGALRM}) sigaction(s, &sa, nullptr);
}

#ifndef CONC
// run 'body' on every path
inline void explore(const std::function<void()>& body, unsigned path_timeout = 60) {
  auto& g = E();
  do {
    if (g.elapsed() > g.budget) { g.truncated = true; return; }
    g.begin();
    ++g.paths;
    int sig = sigsetjmp(jb, 1);
    if (sig == 0) {
      in_path = 1;
      in_solver = 0; seen_progress = progress;
      alarm(path_timeout);
      try { body(); }
      catch (const Abort&) {}
      catch (const z3::exception& x) { std::fprintf(stderr, "z3: %s\n", x.msg()); ++g.unknown; }
      catch (const std::exception& x) { try { g.violation("throws", x.what()); } catch (const Abort&) {} }
      alarm(0);
      in_path = 0;
    } else {
      alarm(0); in_path = 0;
      try { g.violation(sig == SIGALRM ? "hang" : "crash", "signal " + std::to_string(sig)); } catch (const Abort&) {}
    }
    if (g.viol.size() >= g.max_viol || g.bad_paths >= 40) { g.stopped = true; return; }
  } while (g.next());
}
inline void report(const std::string& config) {
  auto& g = E();
  std::ostringstream o;
  o << "{\"config\":" << jstr(config) << ",\"paths\":" << g.paths << ",\"queries\":" << g.queries << ",\"checks\":" << g.checks
    << ",\"trivial\":" << g.trivial << ",\"decisions\":" << g.decisions << ",\"unknown\":" << g.unknown << ",\"truncated\":" << (g.truncated ? "true" : "false")
    << ",\"solver_s\":" << g.solver_s << ",\"wall_s\":" << g.elapsed() << ",\"labels\":{";
  bool f = true;
  for (auto& [k, v] : g.labels) { o << (f ? "" : ",") << jstr(k) << ":" << v; f = false; }
  o << "},\"covers\":{"; f = true;
  for (auto& [k, v] : g.covers) { o << (f ? "" : ",") << jstr(k) << ":" << v; f = false; }
  o << "},\"violations\":["; f = true;
  for (auto& v : g.viol) {
    o << (f ? "" : ",") << "{\"label\":" << jstr(v.label) << ",\"detail\":" << jstr(v.detail) << ",\"vals\":["; f = false;
    bool h = true;
    for (auto& x : v.vals) { o << (h ? "" : ",") << jstr(x); h = false; }
    o << "]}";
  }
  o << "]}";
  std::cout << o.str() << std::endl;
}
#endif
}  // namespace sym

// Harness entry: defined by each harness
std::vector<std::string> harness_configs(const std::string& prop, const std::string& tier);
void harness_run(const std::string& prop, const std::string& tier, const std::string& config);

inline int sym_main(int argc, char** argv) {
  using namespace sym;
  install_signals();
  std::string prop = argc > 2 ? argv[2] : "", tier = argc > 3 ? argv[3] : "quick", cfg = argc > 4 ? argv[4] : "";
  only_prop = prop;
  std::string cmd = argc > 1 ? argv[1] : "";
  if (cmd == "list") { for (auto& c : harness_configs(prop, tier)) std::cout << c << "\n"; return 0; }
#ifndef CONC
  if (cmd == "run") {
    if (argc > 5) E().budget = std::atof(argv[5]);
    explore([&] { harness_run(prop, tier, cfg); });
    report(cfg);
    return 0;
  }
#else
  if (cmd == "replay") {
    std::ifstream f(argv[5]);
    std::string l;
    auto& g = E();
    while (std::getline(f, l)) {
      if (l.empty()) continue;
      auto sp = l[0] == '@' ? l.find(' ') : l.rfind(' ');
      auto k = l.substr(0, sp), v = l.substr(sp + 1);
      if (k[0] == '@') { auto s2 = v.find(' '); g.ufs[k.substr(1)][std::stoul(v.substr(0, s2))] = v.substr(s2 + 1); }
      else if (k[0] == '=') g.named[k.substr(1)] = v;
      else g.in.emplace_back(k, v);
    }
    int sig = sigsetjmp(jb, 1);
    if (sig == 0) {
      in_path = 1; alarm(60);
      try { harness_run(prop, tier, cfg); }
      catch (const Abort&) {}
      catch (const std::exception& x) { g.failed = true; g.label = "throws"; g.detail = x.what(); }
    } else { g.failed = true; g.label = sig == SIGALRM ? "hang" : "crash"; g.detail = "signal " + std::to_string(sig); }
    std::cout << (g.failed ? "REPRODUCED " + g.label + ": " + g.detail : std::string("NOT-REPRODUCED")) << std::endl;
    return 0;
  }
#endif
  return 64;
}

// From here on, the repository's headers see the stand-ins.
#define mt19937_64 sym_mt19937
#define mt19937 sym_mt19937
#define uniform_real_distribution sym_uniform_real_distribution
#define uniform_int_distribution sym_uniform_int_distribution
#define bernoulli_distribution sym_bernoulli_distribution
#define shuffle sym_shuffle

// The formulas of the cost models (C10, C11) and of the acceptance rules (C06).
#include <adapt.hpp>
#define log2 sym_log2
#include <tnco/optimize/infinite_memory/cost_model/simple.hpp>
#include <tnco/optimize/infinite_memory/cost_model/simple_sparse_inds.hpp>
#include <tnco/optimize/finite_width/cost_model/simple.hpp>
#include <tnco/optimize/finite_width/cost_model/simple_sparse_inds.hpp>
#include <tnco/optimize/prob/base.hpp>
#include <tnco/optimize/prob/greedy.hpp>
#include <tnco/optimize/prob/mh.hpp>
#undef log2

using namespace sym;
using bits_t = tnco::bitset_type;
namespace inf = tnco::optimize::infinite_memory::cost_model;
namespace fin = tnco::optimize::finite_width::cost_model;
namespace prb = tnco::optimize::prob;
using dims_t = tnco::ctree_type::dims_type;
constexpr int PROJ = 9;

static std::map<std::string, int> opts(const std::string& s, std::string& kind) {
  std::map<std::string, int> o; std::istringstream is(s); std::string t;
  std::getline(is, kind, ':');
  while (std::getline(is, t, ':')) { auto e = t.find('='); o[t.substr(0, e)] = std::stoi(t.substr(e + 1)); }
  return o;
}
std::vector<Bit> fresh_bits(int n, const char* nm) { std::vector<Bit> v; for (int i = 0; i < n; ++i) v.push_back(fresh_bit(nm)); return v; }
Real dim(int i) { return Real(size_t(TOK + i)); }
Real lg(int i) { return named_real("w" + std::to_string(i)); }
// dimensions are positive integers, with increasing logarithms
void dims_axioms(const std::vector<int>& ids) {
  for (auto i : ids) {
    assume(r_le(Real(1), dim(i)));
    assume(b_eq(r_eq(dim(i), Real(1)), r_eq(lg(i), Real(0))));
    assume(b_eq(r_eq(dim(i), Real(2)), r_eq(lg(i), Real(1))));
    assume(r_le(Real(0), lg(i)));
    for (auto j : ids) if (i < j) { assume(b_eq(r_eq(dim(i), dim(j)), r_eq(lg(i), lg(j)))); assume(b_eq(r_lt(dim(i), dim(j)), r_lt(lg(i), lg(j)))); }
  }
}
bool longer = false;  // more dimensions than indices
dims_t get_dims(int n, bool uni) {
  if (uni) { dims_axioms({0, PROJ}); return dims_t(size_t(TOK)); }
  std::vector<int> ids; std::vector<size_t> d;
  for (int i = 0; i < n; ++i) { ids.push_back(i); d.push_back(TOK + i); }
  if (longer) d.push_back(TOK + n);
  ids.push_back(PROJ); dims_axioms(ids);
  return dims_t(typename std::variant_alternative_t<1, dims_t>(d.begin(), d.end()));
}

template <typename M> Real cost(const M& m, const bits_t& a, const bits_t& b, const bits_t& c, const dims_t& d, const bits_t& s) {
  if constexpr (requires { m.max_width; }) return m.contraction_cost(a, b, c, d, s);
  else return m.contraction_cost(a, b, c, d);
}

static bool concrete_bit(Bit b) { return decide(b); }

template <typename M>
void cost_props(const M& m, int n, bool uni, bool slices, const std::vector<Bit>& sp, const std::vector<Bit>& A, const std::vector<Bit>& B, const std::vector<Bit>& C, const std::vector<Bit>& S) {
  auto d = get_dims(n, uni);
  auto a = make_bits<bits_t>(A), b = make_bits<bits_t>(B), c = make_bits<bits_t>(C), s = make_bits<bits_t>(S);
  Real r = cost(m, a, b, c, d, s);
  Real dense(1), sparse(1); bool anys = false;
  for (int i = 0; i < n; ++i) {
    bool on = concrete_bit(b_or(b_or(A[i], B[i]), slices ? S[i] : 0)), isp = concrete_bit(sp[i]);
    if (!on) continue;
    if (isp) { sparse *= dim(uni ? 0 : i); anys = true; } else dense *= dim(uni ? 0 : i);
  }
  Real want = dense;
  if (anys) { cover("sparse cost"); want = dense * r_ite(r_lt(sparse, dim(PROJ)), sparse, dim(PROJ)); }
  check(r_eq(r, want), "C10 contraction cost is not the product of the dimensions");
  check(r_eq(cost(m, b, a, c, d, s), r), "C10 cost depends on the order of the operands");
  if (uni) {
    std::vector<size_t> v(n, TOK);
    dims_t dv(typename std::variant_alternative_t<1, dims_t>(v.begin(), v.end()));
    check(r_eq(cost(m, a, b, c, dv, s), r), "C10 cost differs between one dimension and one per index");
  }
  auto cl = m.clone();
  if constexpr (requires { m.max_width; }) check(r_eq(cl->contraction_cost(a, b, c, d, s), r), "C10 a copy of the model gives another cost");
  else check(r_eq(cl->contraction_cost(a, b, c, d), r), "C10 a copy of the model gives another cost");
  cover(uni ? "uniform" : "vector");
}

template <typename M>
void width_props(const M& m, int n, bool uni, const std::vector<Bit>& sp, const std::vector<Bit>& A) {
  auto d = get_dims(n, uni);
  auto a = make_bits<bits_t>(A);
  Real w = m.width(a, d);
  auto want = [&](const std::vector<Bit>& v) {
    Real dn(0), sn(0);
    for (int i = 0; i < n; ++i) {
      auto l = r_ite(v[i], lg(uni ? 0 : i), Real(0));
      dn += r_ite(sp[i], Real(0), l); sn += r_ite(sp[i], l, Real(0));
    }
    return dn + r_ite(r_lt(sn, lg(PROJ)), sn, lg(PROJ));
  };
  check(r_eq(w, want(A)), "C11 width is not the sum of the logarithms");
  int p = choose(n, "position");
  auto B = A; B[p] = b_not(B[p]);
  Real dw = m.delta_width(a, d, p);
  check(r_eq(dw, m.width(make_bits<bits_t>(B), d) - w), "C11 increment differs from the change of width");
  if (uni) {
    std::vector<size_t> v(n, TOK);
    dims_t dv(typename std::variant_alternative_t<1, dims_t>(v.begin(), v.end()));
    check(r_eq(m.width(a, dv), w), "C11 width differs between one dimension and one per index");
    check(r_eq(m.delta_width(a, dv, p), dw), "C11 increment differs between one dimension and one per index");
  }
  auto cl = m.clone();
  check(r_eq(cl->width(a, d), w), "C11 a copy of the model gives another width");
  cover(decide(A[p]) ? "index removed" : "index added");
}

std::vector<std::string> harness_configs(const std::string&, const std::string&) { return {}; }
void harness_run(const std::string& prop, const std::string&, const std::string& config) {
  std::string kind; auto o = opts(config, kind);
  int n = o["n"]; bool uni = o["uni"], sparse = o["sparse"], finw = o["fin"]; longer = o["longer"];
  if (kind == "cost" || kind == "width") {
    auto A = fresh_bits(n, "A");
    auto sp = sparse ? fresh_bits(n, "sparse") : std::vector<Bit>(n, 0);
    Real mw = fresh_real("max_width"); assume(r_le(Real(0), mw));
    auto spb = make_bits<bits_t>(sp);
    if (kind == "width") {
      if (sparse) width_props(fin::simple_sparse_inds::CostModel<Real, Real>(mw, spb, TOK + PROJ), n, uni, sp, A);
      else width_props(fin::simple::CostModel<Real, Real>(mw), n, uni, sp, A);
      return;
    }
    auto B = fresh_bits(n, "B"), S = fresh_bits(n, "S");
    std::vector<Bit> C;
    // what is kept: everything only one operand has, any part of what both have
    for (int i = 0; i < n; ++i) C.push_back(b_or(b_xor(A[i], B[i]), b_and(b_and(A[i], B[i]), fresh_bit("kept"))));
    if (finw) {
      if (sparse) cost_props(fin::simple_sparse_inds::CostModel<Real, Real>(mw, spb, TOK + PROJ), n, uni, true, sp, A, B, C, S);
      else cost_props(fin::simple::CostModel<Real, Real>(mw), n, uni, true, sp, A, B, C, S);
    } else {
      if (sparse) cost_props(inf::simple_sparse_inds::CostModel<Real>(spb, TOK + PROJ), n, uni, false, sp, A, B, C, S);
      else cost_props(inf::simple::CostModel<Real>(), n, uni, false, sp, A, B, C, S);
    }
    return;
  }
  if (kind == "refuse") {
    // senseless parameters are refused
    auto thrown = [](auto&& f) { try { f(); } catch (const sym::Abort&) { throw; } catch (const std::exception&) { return true; } return false; };
    auto spb = make_bits<bits_t>(fresh_bits(1, "sparse"));
    Real mw = fresh_real("max_width");
    bool neg = decide(r_lt(mw, Real(0)));
    check_b(thrown([&] { fin::simple::CostModel<Real, Real> x(mw); }) == neg, "C11 maximum width is refused exactly when negative");
    check_b(thrown([&] { fin::simple_sparse_inds::CostModel<Real, Real> x(mw, spb, TOK); }) == neg, "C11 maximum width is refused exactly when negative");
    check_b(thrown([&] { fin::simple_sparse_inds::CostModel<Real, Real> x(Real(1), spb, 0); }), "C10 no projections is refused");
    check_b(thrown([&] { inf::simple_sparse_inds::CostModel<Real> x(spb, 0); }), "C10 no projections is refused");
    return;
  }
  // acceptance rules
  Real old = fresh_real("old"), delta = fresh_real("delta");
  assume(r_lt(Real(0), old)); assume(r_lt(-old, delta));
  Real beta{double(RTOK)}, beta2{double(RTOK + 1)};
  assume(r_le(Real(0), beta)); assume(r_le(Real(0), beta2));
  auto via = [](const prb::base::Probability<Real>& p, const Real& d, const Real& o) { auto c = p.clone(); return (*c)(d, o); };
  if (kind == "base") {
    check(r_eq(via(prb::base::Probability<Real>(), delta, old), Real(1)), "C06 base rule is not 1");
  } else if (kind == "greedy") {
    check(r_eq(via(prb::greedy::Probability<Real>(), delta, old), r_ite(r_le(delta, Real(0)), Real(1), Real(0))), "C06 greedy rule is wrong");
  } else if (kind == "mh") {
    auto p = via(prb::mh::Probability<Real>(double(RTOK)), delta, old);
    prb::mh::Probability<Real> set; set.beta = double(RTOK);
    if (decide(r_le(delta, Real(0)))) { check(r_eq(p, Real(1)), "C06 Metropolis-Hastings is not 1 for a lower cost"); cover("lower"); return; }
    cover("higher");
    Real ratio = Real(1) + delta / old;
    check(r_eq(p, pow(ratio, -beta)), "C06 Metropolis-Hastings value");
    check(b_and(r_lt(Real(0), p), r_le(p, Real(1))), "C06 Metropolis-Hastings is not in (0,1]");
    check(r_eq(set(delta, old), p), "C06 setting beta differs from constructing with it");
  } else if (kind == "mono") {
    Real d2 = fresh_real("delta"); assume(r_lt(delta, d2));
    prb::mh::Probability<Real> P{double(RTOK)}, Q{double(RTOK + 1)};
    check(r_le(P(d2, old), P(delta, old)), "C06 Metropolis-Hastings rises with the cost");
    assume(r_lt(beta, beta2));
    check(r_le(Q(delta, old), P(delta, old)), "C06 Metropolis-Hastings rises with beta");
  }
}
int main(int c, char** v) { return sym_main(c, v); }

// One optimizer step from an arbitrary valid state (C03-C08), and the
// finite-width constructor (C07, C08, C09).
#include <adapt.hpp>
#define log2 sym_log2
#include <tnco/optimize/infinite_memory/optimizer.hpp>
#include <tnco/optimize/infinite_memory/cost_model/simple.hpp>
#include <tnco/optimize/finite_width/greedy/optimizer.hpp>
#include <tnco/optimize/finite_width/cost_model/simple.hpp>
#include <tnco/optimize/prob/greedy.hpp>
#undef log2
#include "../trees.hpp"

using namespace sym;
using ctree_t = tnco::ctree_type;
using node_t = ctree_t::node_type;
using bits_t = tnco::bitset_type;
namespace inf = tnco::optimize::infinite_memory;
namespace fin = tnco::optimize::finite_width;
namespace prb = tnco::optimize::prob;

// ---- environment stubs --------------------------------------------------
// Any cost model: an arbitrary positive function of the indices involved (and of the slices).
struct InfCost : inf::cost_model::base::CostModel<Real> {
  using base = inf::cost_model::base::CostModel<Real>;
  [[nodiscard]] Real contraction_cost(const bits_t& A, const bits_t& B, const bits_t& C, const dims_type&) const override {
    std::vector<Bit> v;
    for (size_t i = 0; i < A.size(); ++i) v.push_back(b_or(b_or(bit_of(A, i), bit_of(B, i)), bit_of(C, i)));
    auto r = uf_bits("cost", v);
    assume(r_lt(Real(0), r));
    return r;
  }
  [[nodiscard]] clone_ptr_type clone() const override { return std::make_unique<InfCost>(); }
};
struct FinCost : fin::cost_model::base::CostModel<Real, Real> {
  using base = fin::cost_model::base::CostModel<Real, Real>;
  std::vector<bool> sparse; Real cap; bool hom;
  bool unit_cost = false;
  FinCost(Real mw, std::vector<bool> sp, Real cap, bool hom) : base(mw), sparse(sp), cap(cap), hom(hom) {}
  FinCost(const FinCost&) = default;
  [[nodiscard]] Real contraction_cost(const bits_t& A, const bits_t& B, const bits_t& C, const dims_type&, const bits_t& S) const override {
    std::vector<Bit> v;
    for (size_t i = 0; i < A.size(); ++i) v.push_back(b_or(b_or(bit_of(A, i), bit_of(B, i)), bit_of(C, i)));
    for (size_t i = 0; i < A.size(); ++i) v.push_back(bit_of(S, i));
    auto r = uf_bits("cost", v);
    assume(r_lt(Real(0), r));
    return r;
  }
  Real w(size_t i) const { return named_real("w" + std::to_string(hom ? 0 : i)); }
  [[nodiscard]] Real wid(const std::vector<Bit>& b) const {
    Real a(0), s(0); bool any_sparse = false;
    for (size_t i = 0; i < b.size(); ++i) {
      auto t = r_ite(b[i], w(i), Real(0));
      if (sparse[i]) { s += t; any_sparse = true; } else a += t;
    }
    if (!any_sparse) return a;
    return a + r_ite(r_lt(s, cap), s, cap);
  }
  static std::vector<Bit> vec(const bits_t& x) { std::vector<Bit> v; for (size_t i = 0; i < x.size(); ++i) v.push_back(bit_of(x, i)); return v; }
  [[nodiscard]] Real width(const bits_t& x, const dims_type&) const override { return wid(vec(x)); }
  [[nodiscard]] Real delta_width(const bits_t& x, const dims_type&, const size_t& pos) const override {
    auto v = vec(x), u = v; u.at(pos) = b_not(u.at(pos));
    return wid(u) - wid(v);
  }
  [[nodiscard]] clone_ptr_type clone() const override { return std::make_unique<FinCost>(*this); }
};
// Any acceptance rule: an arbitrary number in [0,1], or only 0 / 1.
struct Rule : prb::base::Probability<Real> {
  int kind;  // 0 arbitrary, 1 in {0,1}
  mutable std::vector<int> given;
  mutable std::vector<Real> delta, old;
  Rule(int k) : kind(k) {}
  Rule(const Rule&) = default;
  [[nodiscard]] Real operator()(const Real& d, const Real& o) const override {
    if (kind == 1) { delta.push_back(d); old.push_back(o); int p = choose(2, "prob"); given.push_back(p); return Real(p); }
    auto p = fresh_real("p");
    assume(b_and(r_le(Real(0), p), r_le(p, Real(1))));
    given.push_back(2);
    return p;
  }
  [[nodiscard]] clone_ptr_type clone() const override { return std::make_unique<Rule>(*this); }
};

// the rule is asked about the change of cost and the cost before each move
static void check_args(const Rule& r, Real cost, const Real& final, bool last) {
  for (size_t i = 0; i < r.given.size(); ++i) {
    check(r_eq(r.old[i], cost), "C06 the rule is not given the cost before the move");
    if (r.given[i]) cost = cost + r.delta[i];
  }
  if (last) check(r_eq(cost, final), "C06 the rule is not given the change of cost");
}

// ---- states ---------------------------------------------------------------
struct Net {  // leaves and outputs of the network
  int n, m; std::vector<std::vector<Bit>> leaf; std::vector<Bit> out;
};
static Net make_net(int n, int m) {
  Net N{n, m, {}, {}};
  for (int i = 0; i < n; ++i) { N.leaf.emplace_back(); for (int x = 0; x < m; ++x) N.leaf[i].push_back(fresh_bit("leaf")); }
  for (int x = 0; x < m; ++x) {
    Bit u = 0; for (int i = 0; i < n; ++i) u = b_or(u, N.leaf[i][x]);
    N.out.push_back(b_and(fresh_bit("out"), u));
    assume(u);  // every index names something
    // an index on a single tensor must be an output (the tree constructor demands it)
    Bit once = 0;
    for (int i = 0; i < n; ++i) { Bit only = N.leaf[i][x]; for (int j = 0; j < n; ++j) if (j != i) only = b_and(only, b_not(N.leaf[j][x])); once = b_or(once, only); }
    assume(b_implies(once, N.out[x]));
  }
  return N;
}
template <typename Ch> static void leaves_of(const Ch& ch, long p, std::vector<char>& in, int depth = 0) {
  if (depth > 64) return;
  if (ch[p][0] < 0) { in[p] = 1; return; }
  leaves_of(ch, ch[p][0], in, depth + 1); leaves_of(ch, ch[p][1], in, depth + 1);
}
// indices node p must carry: those of its leaves that occur outside or are outputs
template <typename Ch> static std::vector<Bit> expected(const Net& N, const Ch& ch, long p) {
  std::vector<char> in(2 * N.n - 1, 0); leaves_of(ch, p, in);
  std::vector<Bit> r;
  for (int x = 0; x < N.m; ++x) {
    Bit a = 0, o = N.out[x];
    for (int i = 0; i < N.n; ++i) if (in[i]) a = b_or(a, N.leaf[i][x]); else o = b_or(o, N.leaf[i][x]);
    r.push_back(b_and(a, o));
  }
  return r;
}
struct State { std::vector<node_t> nodes; std::vector<bits_t> inds; };
static State make_state(const Net& N, const Shape& s) {
  State S;
  for (int i = 0; i < 2 * N.n - 1; ++i) S.nodes.push_back(node_t({s.ch[i][0], s.ch[i][1]}, s.pa[i]));
  for (int i = 0; i < 2 * N.n - 1; ++i) S.inds.push_back(make_bits<bits_t>(i < N.n ? N.leaf[i] : expected(N, s.ch, i)));
  return S;
}
static Bit shares(const bits_t& a, const bits_t& b) { Bit r = 0; for (size_t i = 0; i < a.size(); ++i) r = b_or(r, b_and(bit_of(a, i), bit_of(b, i))); return r; }
static Bit all_share(const std::vector<node_t>& nodes, const std::vector<bits_t>& inds) {
  Bit r = 1;
  for (auto& nd : nodes) if (nd.children[0] >= 0) r = b_and(r, shares(inds[nd.children[0]], inds[nd.children[1]]));
  return r;
}
static bool well_formed(const std::vector<node_t>& nodes, int n) {
  size_t t = 2 * n - 1;
  if (nodes.size() != t) return false;
  for (size_t i = 0; i < t; ++i) {
    auto& x = nodes[i];
    for (auto c : x.children) if (c < -1 || c >= (long)t) return false;
    if (x.parent < -1 || x.parent >= (long)t) return false;
    if ((int)i < n) { if (x.children[0] != -1 || x.children[1] != -1) return false; }
    else { if (x.children[0] < 0 || x.children[1] < 0 || x.children[0] == x.children[1]) return false;
      for (auto c : x.children) if (nodes[c].parent != (long)i) return false; }
    if ((x.parent == -1) != (i == t - 1)) return false;
  }
  for (size_t i = 0; i < t; ++i) { long p = i; size_t k = 0; while (nodes[p].parent >= 0 && k <= t) { p = nodes[p].parent; ++k; } if (p != (long)t - 1) return false; }
  return true;
}
static std::vector<std::array<long, 2>> kids(const std::vector<node_t>& nodes) { std::vector<std::array<long, 2>> r; for (auto& x : nodes) r.push_back({(long)x.children[0], (long)x.children[1]}); return r; }
static bool same_kids(const std::vector<std::array<long, 2>>& a, const std::vector<std::array<long, 2>>& b) {
  for (size_t i = 0; i < a.size(); ++i) { auto p = a[i], q = b[i]; if (p != q && !(p[0] == q[1] && p[1] == q[0])) return false; }
  return true;
}
// the tree still describes the same network
static void check_network(const Net& N, const ctree_t& t, const std::string& which) {
  check_b(well_formed(t.nodes, N.n), "C03 " + which + " tree malformed");
  check_b(t.inds.size() == t.nodes.size(), "C03 " + which + " number of index sets");
  auto ch = kids(t.nodes);
  Bit ok = 1, leaf = 1, root = 1;
  for (int i = 0; i < 2 * N.n - 1; ++i) {
    check_b(t.inds[i].size() == (size_t)N.m, "C03 " + which + " index set size");
    auto e = i < N.n ? N.leaf[i] : expected(N, ch, i);
    for (int x = 0; x < N.m; ++x) {
      auto q = b_eq(bit_of(t.inds[i], x), e[x]);
      if (i < N.n) leaf = b_and(leaf, q); else if (i == 2 * N.n - 2) root = b_and(root, q); else ok = b_and(ok, q);
    }
  }
  check(leaf, "C03 " + which + " leaf indices changed");
  check(root, "C03 " + which + " output indices changed");
  check(ok, "C03 " + which + " intermediate indices wrong");
}
template <typename F> static Real tree_cost(const ctree_t& t, const F& f) {
  Real c(0);
  for (size_t i = 0; i < t.nodes.size(); ++i) if (auto& nd = t.nodes[i]; nd.children[0] >= 0) c += f(t.inds[i], t.inds[nd.children[0]], t.inds[nd.children[1]]);
  return c;
}
static Bit same_tree(const ctree_t& a, const std::vector<std::array<long, 2>>& k, const std::vector<bits_t>& inds) {
  if (kids(a.nodes) != k) return 0;
  Bit r = 1;
  for (size_t i = 0; i < inds.size(); ++i) for (size_t x = 0; x < inds[i].size(); ++x) r = b_and(r, b_eq(bit_of(a.inds[i], x), bit_of(inds[i], x)));
  return r;
}
template <typename O> static constexpr auto requires_cache(int) -> decltype(std::declval<O>().cost_cache.contraction_cost[0], std::declval<O>().cost_cache.partial_cost[0], true) { return true; }
template <typename O> static constexpr bool requires_cache(...) { return false; }
template <typename O> static constexpr auto requires_hyper(int) -> decltype(std::declval<O>().hyper_cache.hyper_inds[0], true) { return true; }
template <typename O> static constexpr bool requires_hyper(...) { return false; }
// caches, when the optimizer has them under these names
template <typename O, typename F> static void check_caches(const O& o, const ctree_t& t, const F& f, const char* prop) {
  if constexpr (requires_cache<O>(0)) {
    Bit ok = 1; std::vector<Real> part(t.nodes.size(), Real(0));
    std::function<Real(long)> go = [&](long p) -> Real {
      auto& nd = t.nodes[p];
      if (nd.children[0] < 0) { return Real(0); }
      auto c = f(t.inds[p], t.inds[nd.children[0]], t.inds[nd.children[1]]);
      auto s = go(nd.children[0]) + go(nd.children[1]) + c;
      ok = b_and(ok, r_eq(c, o.cost_cache.contraction_cost[p]));
      ok = b_and(ok, r_eq(s, o.cost_cache.partial_cost[p]));
      return s;
    };
    go((long)t.nodes.size() - 1);
    check(ok, std::string(prop) + " cached partial costs stale");
  }
}
template <typename O> static void check_hyper(const O& o, const ctree_t& t) {
  if constexpr (requires_hyper<O>(0)) {
    Bit ok = 1;
    for (size_t p = 0; p < t.nodes.size(); ++p) if (auto& nd = t.nodes[p]; nd.children[0] >= 0)
      for (size_t x = 0; x < t.inds[p].size(); ++x)
        ok = b_and(ok, b_eq(bit_of(o.hyper_cache.hyper_inds[p], x), b_and(bit_of(t.inds[p], x), b_and(bit_of(t.inds[nd.children[0]], x), bit_of(t.inds[nd.children[1]], x)))));
    check(ok, "C03 cached hyper-indices stale");
  }
}

struct Cfg { int n, m, lo, hi; std::map<std::string, int> o; std::string kind; };
static Cfg parse(const std::string& s) {
  Cfg c{}; std::istringstream i(s); std::string t; std::getline(i, c.kind, ':');
  while (std::getline(i, t, ':')) { auto e = t.find('='); c.o[t.substr(0, e)] = std::stoi(t.substr(e + 1)); }
  c.n = c.o["N"]; c.m = c.o["I"]; c.lo = c.o["lo"]; c.hi = c.o["hi"];
  return c;
}
static const std::vector<Shape>& shapes(int n, int full) {
  static std::map<std::pair<int, int>, std::vector<Shape>> m;
  auto& v = m[{n, full}];
  if (v.empty()) v = full == 2 ? all_shapes(n) : full == 1 ? all_shapes(n, true, false) : all_shapes(n, false, false);
  return v;
}
static bool all0(const std::vector<int>& v) { for (int x : v) if (x != 0) return false; return true; }
static bool any1(const std::vector<int>& v) { for (int x : v) if (x == 1) return true; return false; }

static void run_inf(const Cfg& c) {
  auto& S = shapes(c.n, c.o.at("full"));
  const auto& sh = S[c.lo + choose(c.hi - c.lo, "shape")];
  const auto& sh2 = S[c.o.count("min") && c.o.at("min") ? choose(2, "minshape") * (S.size() - 1) : 0];
  bool use_min = c.o.count("min") && c.o.at("min");
  bool dsi = choose(2, "disable_shared_inds");
  auto N = make_net(c.n, c.m);
  auto st = make_state(N, sh);
  auto sm = make_state(N, use_min ? sh2 : sh);
  if (!dsi) { assume(all_share(st.nodes, st.inds)); if (use_min) assume(all_share(sm.nodes, sm.inds)); }
  ctree_t tree(st.nodes, st.inds, ctree_t::dims_type(size_t(2)), false);
  std::optional<ctree_t> mt;
  if (use_min) mt = ctree_t(sm.nodes, sm.inds, ctree_t::dims_type(size_t(2)), false);
  InfCost cm;
  auto f = [&](auto&& a, auto&& b, auto&& d) { return cm.contraction_cost(a, b, d, ctree_t::dims_type(size_t(2))); };
  int rule = c.o.count("rule") ? c.o.at("rule") : 0;
  auto body = [&](auto& opt, auto& prob, const Rule* given) {
    Real before = opt.get_total_cost(), min_before = opt.get_min_total_cost();
    auto k0 = kids(opt.ctree.nodes); auto km = kids(opt.min_ctree.nodes); auto im = opt.min_ctree.inds;
    check(r_eq(before, tree_cost(opt.ctree, f)), "C04 initial total cost");
    check(r_eq(min_before, tree_cost(opt.min_ctree, f)), "C04 initial minimum cost");
    int steps = c.o.count("steps") ? c.o.at("steps") : 1;
    for (int i = 0; i < steps; ++i) opt.update(prob);
    bool changed = !same_kids(kids(opt.ctree.nodes), k0);
    if (changed) cover("tree changed"); else cover("tree unchanged");
    check_network(N, opt.ctree, "current");
    check_network(N, opt.min_ctree, "best");
    check_hyper(opt, opt.ctree);
    Real tot = opt.get_total_cost(), mn = opt.get_min_total_cost();
    check(r_eq(tot, tree_cost(opt.ctree, f)), "C04 total cost is not the cost of the tree");
    check(r_eq(mn, tree_cost(opt.min_ctree, f)), "C04 minimum is not the cost of the best tree");
    check_caches(opt, opt.ctree, f, "C04");
    check(r_le(mn, min_before), "C04 minimum rose");
    check(r_le(mn, tot), "C04 minimum above the cost reached");
    check(b_or(same_tree(opt.min_ctree, km, im), r_lt(mn, min_before)), "C04 best tree replaced without improvement");
    if (!dsi) { check(all_share(opt.ctree.nodes, opt.ctree.inds), "C05 current tree contracts tensors that share nothing");
      check(all_share(opt.min_ctree.nodes, opt.min_ctree.inds), "C05 best tree contracts tensors that share nothing"); cover("shared"); }
    if (given) {
      if (any1(given->given)) { cover("prob1"); check_b(changed, "C06 a move with probability one was not made"); }
      else { cover("prob0"); check_b(!changed, "C06 a move with probability zero was made"); }
      check_args(*given, before, tot, true);
    }
    if (rule == 2) check(r_le(tot, before), "C06 greedy rule raised the cost");
    return 0;
  };
  if (rule == 2) {
    inf::optimizer::Optimizer<InfCost::base, prb::base::Probability<Real>> opt(tree, cm, size_t(1), dsi, 1e-5, mt);
    prb::greedy::Probability<Real> p; body(opt, p, nullptr);
  } else {
    inf::optimizer::Optimizer<InfCost::base, prb::base::Probability<Real>> opt(tree, cm, size_t(1), dsi, 1e-5, mt);
    Rule p(rule); body(opt, p, rule == 1 ? &p : nullptr);
  }
}

static std::vector<Bit> fresh_bits(int m, const char* nm) { std::vector<Bit> r; for (int i = 0; i < m; ++i) r.push_back(fresh_bit(nm)); return r; }
static Bit disjoint(const std::vector<Bit>& a, const std::vector<Bit>& b) { Bit r = 1; for (size_t i = 0; i < a.size(); ++i) r = b_and(r, b_not(b_and(a[i], b[i]))); return r; }

static void run_fin(const Cfg& c) {
  auto& S = shapes(c.n, c.o.at("full"));
  const auto& sh = S[c.lo + choose(c.hi - c.lo, "shape")];
  bool use_min = c.o.count("min") && c.o.at("min");
  const auto& sh2 = use_min ? S[choose(2, "minshape") * (S.size() - 1)] : sh;
  bool dsi = c.o.at("dsi"); bool hom = c.o.at("hom");
  size_t mns = c.o.at("mns"); int nsp = c.o.at("sparse"); int skip = c.o.at("skip");
  bool ctor = c.kind == "ctor"; bool upd = c.o.at("upd");
  int rule = c.o.count("rule") ? c.o.at("rule") : 0;
  auto N = make_net(c.n, c.m);
  auto st = make_state(N, sh); auto sm = make_state(N, sh2);
  if (!dsi) { assume(all_share(st.nodes, st.inds)); if (use_min) assume(all_share(sm.nodes, sm.inds)); }
  std::vector<bool> sp(c.m, false); for (int i = 0; i < nsp; ++i) sp[i] = true;
  Real mw = fresh_real("max_width"), cap = fresh_real("cap");
  assume(b_and(r_le(Real(0), mw), r_le(Real(0), cap)));
  FinCost cm(mw, sp, cap, hom);
  for (int i = 0; i < (hom ? 1 : c.m); ++i) assume(r_le(Real(0), cm.w(i)));
  ctree_t::dims_type dims;
  if (hom) dims = size_t(TOK); else { std::vector<size_t> d; for (int i = 0; i < c.m; ++i) d.push_back(TOK + i); dims = d; }
  ctree_t tree(st.nodes, st.inds, dims, false);
  std::optional<ctree_t> mt;
  if (use_min) mt = ctree_t(sm.nodes, sm.inds, dims, false);
  std::optional<bits_t> skb; std::vector<Bit> sk(c.m, 0);
  if (skip) { sk = fresh_bits(c.m, "skip"); skb = make_bits<bits_t>(sk); }
  auto fits = [&](const std::vector<bits_t>& inds, const std::vector<Bit>& sl) {
    Bit ok = 1;
    for (auto& x : inds) { std::vector<Bit> v; for (int i = 0; i < c.m; ++i) v.push_back(b_and(bit_of(x, i), b_not(sl[i]))); ok = b_and(ok, r_le(cm.wid(v), mw)); }
    return ok;
  };
  std::optional<bits_t> sl, msl;
  if (!ctor) {
    auto s = fresh_bits(c.m, "slices"); assume(disjoint(s, sk)); assume(fits(st.inds, s)); sl = make_bits<bits_t>(s);
    if (use_min) { auto t = fresh_bits(c.m, "min_slices"); assume(disjoint(t, sk)); assume(fits(sm.inds, t)); msl = make_bits<bits_t>(t); }
  } else {
    // a solution exists: slicing everything allowed
    std::vector<Bit> s; for (auto x : sk) s.push_back(b_not(x));
    assume(fits(st.inds, s)); if (use_min) assume(fits(sm.inds, s));
  }
  auto vec = [](const bits_t& x) { std::vector<Bit> v; for (size_t i = 0; i < x.size(); ++i) v.push_back(bit_of(x, i)); return v; };
  auto with = [&](const bits_t& s) { return [&cm, &dims, s](auto&& a, auto&& b, auto&& d) { return cm.contraction_cost(a, b, d, dims, s); }; };
  auto state_ok = [&](auto& opt) {
    check(fits(opt.ctree.inds, vec(opt.slices)), "C07 a tensor of the current tree is too wide");
    check(fits(opt.min_ctree.inds, vec(opt.min_slices)), "C07 a tensor of the best tree is too wide");
    check(disjoint(vec(opt.slices), sk), "C07 a forbidden index is sliced");
    check(disjoint(vec(opt.min_slices), sk), "C07 a forbidden index is sliced in the best tree");
    check(r_eq(opt.get_total_cost(), tree_cost(opt.ctree, with(opt.slices))), "C08 total cost is not that of tree and slices");
    check(r_eq(opt.get_min_total_cost(), tree_cost(opt.min_ctree, with(opt.min_slices))), "C08 minimum cost is not that of best tree and slices");
  };
  auto body = [&](auto& opt, auto& prob, const Rule* given) {
    state_ok(opt);
    if (ctor) {
      // every sliced index occurs in a tensor that is too wide
      std::vector<Bit> none(c.m, 0), need(c.m, 0);
      for (auto& x : tree.inds) { auto big = r_lt(mw, cm.wid(vec(x))); for (int i = 0; i < c.m; ++i) need[i] = b_or(need[i], b_and(big, bit_of(x, i))); }
      Bit ok = 1; auto s = vec(opt.slices);
      for (int i = 0; i < c.m; ++i) ok = b_and(ok, b_implies(s[i], need[i]));
      check(fits(tree.inds, s), "C09 a tensor is too wide");
      check(disjoint(s, sk), "C09 a forbidden index is sliced");
      check(ok, "C09 an index was sliced that is in no tensor that is too wide");
      check(b_implies(fits(tree.inds, none), b_not(opt.slices.size() ? [&] { Bit r = 0; for (auto b : s) r = b_or(r, b); return r; }() : 0)), "C09 sliced although everything fits");
      // the last index chosen was needed: with one of them back some tensor is too wide
      Bit some = 0, one = 0;
      for (int i = 0; i < c.m; ++i) { some = b_or(some, s[i]); auto w = s; w[i] = 0; one = b_or(one, b_and(s[i], b_not(fits(tree.inds, w)))); }
      check(b_implies(some, one), "C09 more indices are sliced than needed");
      cover("constructed");
      return 0;
    }
    Real before = opt.get_total_cost(), min_before = opt.get_min_total_cost();
    auto k0 = kids(opt.ctree.nodes); auto km = kids(opt.min_ctree.nodes); auto im = opt.min_ctree.inds;
    auto s0 = vec(opt.slices), ms0 = vec(opt.min_slices);
    opt.update(prob, upd);
    bool changed = !same_kids(kids(opt.ctree.nodes), k0);
    cover(changed ? "tree changed" : "tree unchanged");
    check_network(N, opt.ctree, "current");
    check_network(N, opt.min_ctree, "best");
    check_hyper(opt, opt.ctree);
    state_ok(opt);
    check_caches(opt, opt.ctree, with(opt.slices), "C08");
    Real tot = opt.get_total_cost(), mn = opt.get_min_total_cost();
    check(r_le(mn, min_before), "C08 minimum rose");
    check(r_le(mn, tot), "C08 minimum above the cost reached");
    Bit same_s = 1, same_ms = 1; auto s1 = vec(opt.slices), ms1 = vec(opt.min_slices);
    for (int i = 0; i < c.m; ++i) { same_s = b_and(same_s, b_eq(s0[i], s1[i])); same_ms = b_and(same_ms, b_eq(ms0[i], ms1[i])); }
    check(b_or(b_and(same_ms, same_tree(opt.min_ctree, km, im)), r_lt(mn, min_before)), "C08 best tree or slices replaced without improvement");
    if (!upd) {
      // at most mns new slices for each inner node below the root
      std::vector<Bit> add; for (int i = 0; i < c.m; ++i) add.push_back(b_and(s1[i], b_not(s0[i])));
      for (int k = 0; k < (1 << c.m); ++k) if (__builtin_popcount(k) == mns * (c.n - 2) + 1) { Bit all = 1; for (int i = 0; i < c.m; ++i) if (k >> i & 1) all = b_and(all, add[i]); check(b_not(all), "C07 more new slices than allowed"); }
    }
    if (!changed) check(b_or(same_s, r_lt(tot, before)), "C08 slices replaced without lowering the cost");
    if (mns == 0 && !upd) check(same_s, "C08 slices changed although neither re-slicing nor new slices are allowed");
    if (!dsi) { check(all_share(opt.ctree.nodes, opt.ctree.inds), "C05 current tree contracts tensors that share nothing");
      check(all_share(opt.min_ctree.nodes, opt.min_ctree.inds), "C05 best tree contracts tensors that share nothing"); }
    if (given) {
      if (any1(given->given)) { cover("prob1"); check_b(changed, "C06 a move with probability one was not made"); }
      else { cover("prob0"); check_b(!changed, "C06 a move with probability zero was made"); }
      check_args(*given, before, tot, !upd);
    }
    if (rule == 2) check(r_le(tot, before), "C06 greedy rule raised the cost");
    return 0;
  };
  if (rule == 2) {
    fin::greedy::optimizer::Optimizer<FinCost::base, prb::base::Probability<Real>> opt(tree, cm, mns, size_t(1), dsi, 1e-5, skb, mt, sl, msl);
    prb::greedy::Probability<Real> p; body(opt, p, nullptr);
  } else {
    fin::greedy::optimizer::Optimizer<FinCost::base, prb::base::Probability<Real>> opt(tree, cm, mns, size_t(1), dsi, 1e-5, skb, mt, sl, msl);
    Rule p(rule); body(opt, p, rule == 1 ? &p : nullptr);
  }
}

std::vector<std::string> harness_configs(const std::string& prop, const std::string& tier) { return {}; }
void harness_run(const std::string& prop, const std::string& tier, const std::string& config) {
  auto c = parse(config);
  if (c.kind == "inf") run_inf(c); else run_fin(c);
}
int main(int argc, char** argv) { return sym_main(argc, argv); }

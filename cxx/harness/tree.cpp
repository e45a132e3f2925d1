// Trees with arbitrary node tables: exchange (C01), validation (C02), traversal (C14).
#include <adapt.hpp>
#include <symidx.hpp>
#include <tnco/globals.hpp>
#include <tnco/utils.hpp>
#include "../trees.hpp"
using namespace sym;
using tree_t = tnco::tree_type;
using node_t = tree_t::node_type;
using bits_t = tnco::bitset_type;
using ctree_t = tnco::ctree_type;

static std::map<std::string, int> opts(const std::string& s, std::string& kind) {
  std::map<std::string, int> o; std::istringstream is(s); std::string t;
  std::getline(is, kind, ':');
  while (std::getline(is, t, ':')) { auto e = t.find('='); o[t.substr(0, e)] = std::stoi(t.substr(e + 1)); }
  return o;
}
static std::string str(long i) { return std::to_string(i); }

// raw node fields; negative means none
struct Raw { std::array<SymIdx, 2> c; SymIdx p; };

// the definition of a full binary tree with leaves first and root last
Bit genuine(const std::vector<Raw>& t) {
  long N = t.size(), L = (N + 1) / 2;
  if (N % 2 == 0) return 0;
  auto in = [&](const SymIdx& x) { Bit r = 0; for (long k = 0; k < N; ++k) r = b_or(r, idx_eq(x, k)); return r; };
  Bit v = 1;
  for (long i = 0; i < N && v; ++i) {
    if (i < L) v = b_and(v, b_and(idx_neg(t[i].c[0]), idx_neg(t[i].c[1])));
    else v = b_and(v, b_and(b_and(in(t[i].c[0]), in(t[i].c[1])), b_not(idx_same(t[i].c[0], t[i].c[1]))));
    v = b_and(v, i == N - 1 ? idx_neg(t[i].p) : in(t[i].p));
  }
  if (!v) return 0;
  for (long i = L; i < N; ++i) for (int s = 0; s < 2; ++s) for (long k = 0; k < N; ++k) v = b_and(v, b_implies(idx_eq(t[i].c[s], k), idx_eq(t[k].p, i)));
  for (long k = 0; k < N - 1; ++k) for (long i = 0; i < N; ++i)
    v = b_and(v, b_implies(idx_eq(t[k].p, i), i < L ? 0 : b_or(idx_eq(t[i].c[0], k), idx_eq(t[i].c[1], k))));
  std::vector<Bit> r(N, 0); r[N - 1] = 1;
  for (long d = 0; d < L; ++d) {
    auto q = r;
    for (long k = 0; k < N - 1; ++k) for (long i = L; i < N; ++i) q[k] = b_or(q[k], b_and(idx_eq(t[k].p, i), r[i]));
    r = q;
  }
  for (auto x : r) v = b_and(v, x);
  return v;
}
std::vector<Raw> fresh_raw(long N, long lo, long hi) {
  std::vector<Raw> t;
  for (long i = 0; i < N; ++i) { Raw r; r.c[0] = fresh_idx("c0_" + str(i), lo, hi); r.c[1] = fresh_idx("c1_" + str(i), lo, hi); r.p = fresh_idx("p_" + str(i), lo, hi); t.push_back(r); }
  return t;
}
// a tree object holding these fields, made without asking it whether it is valid
tree_t force(const std::vector<Raw>& t) {
  tree_t tr;
  tr.nodes.assign(t.size(), node_t());
  for (size_t i = 0; i < t.size(); ++i) { tr.nodes[i].children = {t[i].c[0], t[i].c[1]}; tr.nodes[i].parent = t[i].p; }
  return tr;
}
std::vector<Raw> raw_of(const tree_t& t) { std::vector<Raw> r; for (auto& n : t.nodes) r.push_back({{n.children[0], n.children[1]}, n.parent}); return r; }

void swap_(long N) {
  auto t = fresh_raw(N, -1, N - 1);
  assume(genuine(t));
  auto tr = force(t);
  SymIdx pos = fresh_idx("pos", -2, N + 1);
  tr.swap_with_nn(pos);
  auto u = raw_of(tr);
  check_b((long)u.size() == N, "C01 number of nodes changed");
  if ((long)u.size() != N) return;
  // expected result, as a formula over the symbolic table
  auto same = [&](long i) { return b_and(b_and(idx_same(t[i].c[0], u[i].c[0]), idx_same(t[i].c[1], u[i].c[1])), idx_same(t[i].p, u[i].p)); };
  Bit undefined = 1, allsame = 1;
  for (long i = 0; i < N; ++i) allsame = b_and(allsame, same(i));
  for (long d = 0; d < N - 1; ++d) for (long b = 0; b < N - 1; ++b) undefined = b_and(undefined, b_not(b_and(idx_eq(pos, d), idx_eq(t[d].p, b))));
  bool undef = decide(undefined);
  if (undef) { cover("undefined move"); check(allsame, "C01 an undefined move changed the tree"); return; }
  cover("exchange");
  long d = pos;  // forks (known by now)
  long b = t[d].p, a = t[b].p;
  long c = idx_eq(t[a].c[0], b) == 1 || decide(idx_eq(t[a].c[0], b)) ? (long)t[a].c[1] : (long)t[a].c[0];
  for (long i = 0; i < N; ++i) {
    Bit kids;
    if (i == a || i == b) {
      long from = i == a ? c : d, to = i == a ? d : c;
      auto slot = [&](const SymIdx& o, const SymIdx& n) { return b_or(b_and(idx_eq(o, from), idx_eq(n, to)), b_and(b_not(idx_eq(o, from)), idx_same(o, n))); };
      kids = b_or(b_and(slot(t[i].c[0], u[i].c[0]), slot(t[i].c[1], u[i].c[1])), b_and(slot(t[i].c[0], u[i].c[1]), slot(t[i].c[1], u[i].c[0])));
    } else kids = b_and(idx_same(t[i].c[0], u[i].c[0]), idx_same(t[i].c[1], u[i].c[1]));
    check(kids, "C01 the children of a node are not as the exchange demands", "node " + str(i) + " exchange of " + str(d) + " and " + str(c));
    check(i == d ? idx_eq(u[i].p, a) : i == c ? idx_eq(u[i].p, b) : idx_same(t[i].p, u[i].p), "C01 the parent of a node is not as the exchange demands", "node " + str(i));
  }
  if (N <= 7) check(genuine(u), "C01 the result is not a full binary tree");
}

// A table of nodes with arbitrary fields is accepted exactly when it is a tree.
// pin: parent of node 0; sub >= 0: a valid tree of N nodes where only the nodes sub and sub2 are arbitrary.
void valid_(long N, std::map<std::string, int>& o) {
  std::vector<Raw> t;
  if (o.count("shape")) {
    auto sh = all_shapes((N + 1) / 2, false, true).at(o["shape"]);
    for (long i = 0; i < N; ++i) t.push_back({{SymIdx(sh.ch[i][0]), SymIdx(sh.ch[i][1])}, SymIdx(sh.pa[i])});
    long i = choose(N, "node"), j = choose(N, "node");
    if (j <= i) assume_b(false);
    for (long k : {i, j}) { t[k].c[0] = fresh_idx("c0_" + str(k), -1, N - 1); t[k].c[1] = fresh_idx("c1_" + str(k), -1, N - 1); t[k].p = fresh_idx("p_" + str(k), -1, N - 1); }
  } else {
    long m = o.count("tight") ? 0 : 1;
    t = fresh_raw(N, -1 - m, N - 1 + m);
    if (o.count("pin")) assume(idx_eq(t[0].p, o["pin"]));
    if (o.count("pin2")) assume(idx_eq(t[1].p, o["pin2"]));
  }
  bool ok = true; std::string why;
  try {
    std::vector<node_t> nodes;
    for (auto& r : t) nodes.emplace_back(std::array<SymIdx, 2>{r.c[0], r.c[1]}, r.p);
    tree_t tr(nodes);
    auto u = raw_of(tr);
    check_b((long)u.size() == N, "C02 accepted tree has another number of nodes");
    for (long i = 0; i < N; ++i) {
      auto f = [&](const SymIdx& x, const SymIdx& y) { return b_or(idx_same(x, y), b_and(idx_neg(x), idx_eq(y, -1))); };
      check(b_and(f(t[i].p, u[i].p), b_and(f(t[i].c[0], u[i].c[0]), f(t[i].c[1], u[i].c[1]))), "C02 accepted tree has other links");
    }
    check_b(tr.is_valid().first, "C02 an accepted tree says it is not valid");
  } catch (const Abort&) { throw; } catch (const std::exception& x) { ok = false; why = x.what(); }
  if (ok) { cover("accepted"); check(genuine(t), "C02 a malformed tree is accepted"); }
  else { cover("refused"); check(b_not(genuine(t)), "C02 a genuine tree is refused", why); }
}

std::vector<Bit> fresh_bits(int n, const char* nm) { std::vector<Bit> v; for (int i = 0; i < n; ++i) v.push_back(fresh_bit(nm)); return v; }
// A contraction tree is accepted exactly when its index sets and dimensions fit.
// how: 0 bit sets, 1 lists of positions; odd: 0 nothing odd, 1 missing set, 2 longer set, 3 one dimension too few, 4 one too many
void ctree_(int n, std::map<std::string, int>& o) {
  auto sh = all_shapes(n, true, true).at(choose(all_shapes(n, true, true).size(), "shape"));
  long N = 2 * n - 1; int I = o["I"], odd = o["odd"], how = o["how"];
  std::vector<node_t> nodes;
  for (long i = 0; i < N; ++i) nodes.emplace_back(std::array<SymIdx, 2>{SymIdx(sh.ch[i][0]), SymIdx(sh.ch[i][1])}, SymIdx(sh.pa[i]));
  std::vector<std::vector<Bit>> x;
  for (long i = 0; i < N; ++i) x.push_back(fresh_bits(I, "ind"));
  bool shared = choose(2, "check_shared_inds"), sizes_ok = true;
  std::vector<bits_t> bs;
  for (auto& v : x) bs.push_back(make_bits<bits_t>(v));
  if (odd == 1) { bs.pop_back(); sizes_ok = false; }
  if (odd == 2) { auto v = x[choose(N, "which")]; v.push_back(fresh_bit("extra")); bs[choose(N, "which")] = make_bits<bits_t>(v); sizes_ok = false; }
  std::vector<std::vector<size_t>> ps; int top = 0;
  if (how == 1) for (auto& v : x) { std::vector<size_t> p; for (int i = I - 1; i >= 0; --i) if (decide(v[i])) { p.push_back(i); top = std::max(top, i + 1); } ps.push_back(p); }
  int nd = how == 1 ? top : I;
  ctree_t::dims_type dims; std::vector<size_t> dv;
  bool uni = odd < 3 && choose(2, "one dimension");
  if (uni) { size_t d = choose(3, "dim"); dims = d; if (d == 0) sizes_ok = false; dv.assign(nd, d); }
  else {
    int m = nd + (odd == 3 ? -1 : odd == 4 ? 1 : 0);
    if (m < 0) assume_b(false);
    for (int i = 0; i < m; ++i) { dv.push_back(choose(3, "dim")); if (dv.back() == 0) sizes_ok = false; }
    dims = dv;
    // lists of positions: equal dimensions are stored as one, so their number does not matter
    bool alleq = m > 0; for (auto d : dv) alleq = alleq && d == dv[0];
    if (m != nd && !(how == 1 && alleq)) sizes_ok = false;
  }
  Bit good = sizes_ok, conn = 1;
  for (long i = n; i < N; ++i) {
    auto &a = x[sh.ch[i][0]], &b = x[sh.ch[i][1]], &c = x[i]; Bit any = 0;
    for (int k = 0; k < I; ++k) {
      good = b_and(good, b_and(b_implies(b_xor(a[k], b[k]), c[k]), b_implies(c[k], b_or(a[k], b[k]))));
      any = b_or(any, b_and(a[k], b[k]));
    }
    conn = b_and(conn, any);
  }
  bool ok = true; std::string why; std::optional<ctree_t> t;
  try { if (how == 1) t.emplace(nodes, ps, dims, shared); else t.emplace(nodes, bs, dims, shared); }
  catch (const Abort&) { throw; } catch (const std::exception& e) { ok = false; why = e.what(); }
  Bit want = shared ? b_and(good, conn) : good;
  if (!ok) { cover("refused"); check(b_not(want), "C02 a genuine contraction tree is refused", why); return; }
  cover("accepted");
  check(want, "C02 a contraction tree that does not fit is accepted");
  bool c2 = choose(2, "check_shared_inds");
  auto v = t->is_valid(c2).first;
  check(b_eq(v, c2 ? conn : 1), "C02 is_valid disagrees with the definition");
  check_b((int)t->inds.size() == N, "C02 accepted tree has another number of index sets");
  for (long i = 0; i < N; ++i) {
    check_b((int)t->inds[i].size() == nd, "C02 accepted tree has another number of indices");
    for (int k = 0; k < nd; ++k) check(b_eq(bit_of(t->inds[i], k), x[i][k]), "C02 accepted tree has other indices");
  }
  for (int k = 0; k < nd; ++k) {
    auto d = t->dims.index() == 0 ? std::get<0>(t->dims) : std::get<1>(t->dims).at(k);
    check_b(d == dv[std::min<size_t>(k, dv.size() - 1)], "C02 accepted tree has other dimensions");
  }
}

void trav(long N) {
  auto t = fresh_raw(N, -1, N - 1);
  assume(genuine(t));
  auto tr = force(t);
  long L = (N + 1) / 2;
  std::vector<long> ord;
  tnco::utils::traverse(tr, [&](auto&& p) { ord.push_back((long)p); if ((long)ord.size() > 3 * N) fail("hang", "traversal does not end"); });
  std::vector<long> at(N, -1);
  for (size_t k = 0; k < ord.size(); ++k) {
    check_b(ord[k] >= 0 && ord[k] < N, "C14 a node that does not exist is visited");
    check_b(at[ord[k]] < 0, "C14 a node is visited twice");
    at[ord[k]] = k;
  }
  check_b((long)ord.size() == N, "C14 a node is not visited");
  check_b(ord.back() == N - 1, "C14 the traversal does not end at the root");
  for (long i = L; i < N; ++i) for (int s = 0; s < 2; ++s)
    for (long k = 0; k < N; ++k) check(b_implies(idx_eq(t[i].c[s], k), at[k] < at[i]), "C14 a node is visited before its children");
  auto ct = tnco::utils::get_contraction(tr);
  check_b((long)ct.size() == L - 1, "C14 the number of contractions is not that of internal nodes");
  std::vector<long> done(N, -1);
  for (long i = 0; i < L; ++i) done[i] = 0;
  for (size_t k = 0; k < ct.size(); ++k) {
    long a = ct[k][0], b = ct[k][1], c = ct[k][2];
    check_b(c >= L && c < N && done[c] < 0, "C14 a contraction is not that of an internal node, or occurs twice");
    check(b_or(b_and(idx_eq(t[c].c[0], a), idx_eq(t[c].c[1], b)), b_and(idx_eq(t[c].c[0], b), idx_eq(t[c].c[1], a))), "C14 a contraction does not name the children of its node");
    check_b(done[a] >= 0 && done[b] >= 0, "C14 a contraction uses a tensor that does not exist yet");
    done[c] = 1;
  }
  cover("traversed");
}

std::vector<std::string> harness_configs(const std::string&, const std::string&) { return {}; }
void harness_run(const std::string&, const std::string&, const std::string& config) {
  std::string kind; auto o = opts(config, kind);
  if (kind == "swap") swap_(o["N"]);
  else if (kind == "valid") valid_(o["N"], o);
  else if (kind == "ctree") ctree_(o["n"], o);
  else if (kind == "trav") trav(o["N"]);
}
int main(int c, char** v) { return sym_main(c, v); }

// All full binary trees on N labelled leaves 0..N-1 with internal nodes
// N..2N-2 in every numbering with the root last, in both child orders.
#pragma once
#include <array>
#include <functional>
#include <string>
#include <vector>
struct Shape { int n; std::vector<std::array<long, 2>> ch; std::vector<long> pa; };
inline std::vector<Shape> all_shapes(int n, bool orders = true, bool numberings = true) {
  std::vector<Shape> out;
  // build by joining parts: parts are roots; next internal number taken in creation order
  std::vector<std::array<long, 2>> ch(2 * n - 1, {-1, -1});
  std::vector<std::vector<std::array<long, 2>>> base;  // unordered trees, canonical creation order
  std::function<void(std::vector<long>, int)> rec = [&](std::vector<long> roots, int next) {
    if (roots.size() == 1) { base.push_back(ch); return; }
    for (size_t i = 0; i < roots.size(); ++i) for (size_t j = i + 1; j < roots.size(); ++j) {
      ch[next] = {roots[i], roots[j]};
      std::vector<long> r;
      for (size_t k = 0; k < roots.size(); ++k) if (k != i && k != j) r.push_back(roots[k]);
      r.push_back(next);
      rec(r, next + 1);
    }
  };
  std::vector<long> l; for (int i = 0; i < n; ++i) l.push_back(i);
  rec(l, n);
  // 'base' lists every creation order; that covers every topological numbering.
  // Additional numberings (child numbered above its parent) by permuting.
  std::vector<std::vector<std::array<long, 2>>> all;
  auto has = [&](const std::vector<std::array<long, 2>>& t) { for (auto& x : all) if (x == t) return true; return false; };
  auto norm = [&](std::vector<std::array<long, 2>> t) { for (auto& c : t) if (c[0] > c[1]) std::swap(c[0], c[1]); return t; };
  for (auto& t : base) {
    if (!numberings) { auto u = norm(t); if (!has(u)) all.push_back(u); continue; }
    std::vector<long> perm; for (int i = 0; i < n - 2; ++i) perm.push_back(n + i);
    do {
      auto map = [&](long x) { return x < n || x == 2 * n - 2 ? x : perm[x - n]; };
      std::vector<std::array<long, 2>> u(2 * n - 1, {-1, -1});
      for (int k = n; k < 2 * n - 1; ++k) u[map(k)] = {map(t[k][0]), map(t[k][1])};
      u = norm(u);
      if (!has(u)) all.push_back(u);
    } while (std::next_permutation(perm.begin(), perm.end()));
  }
  for (auto& t : all)
    for (int m = 0; m < (orders ? 1 << (n - 1) : 1); ++m) {
      Shape s; s.n = n; s.ch = t; s.pa.assign(2 * n - 1, -1);
      for (int k = 0; k < n - 1; ++k) if ((m >> k) & 1) std::swap(s.ch[n + k][0], s.ch[n + k][1]);
      for (int k = n; k < 2 * n - 1; ++k) for (auto c : s.ch[k]) s.pa[c] = k;
      out.push_back(s);
    }
  return out;
}

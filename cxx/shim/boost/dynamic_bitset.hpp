// Stand-in for boost::dynamic_bitset whose bits are solver terms.  Set algebra
// is symbolic; questions with a native answer (test, intersects, find_first,
// count, ...) fork.
#pragma once
#include <sym.hpp>

namespace boost {
template <typename Block = unsigned long, typename Allocator = std::allocator<Block>>
class dynamic_bitset {
 public:
  using block_type = Block;
  using allocator_type = Allocator;
  using size_type = std::size_t;
  static constexpr size_type npos = static_cast<size_type>(-1);
  static constexpr size_type bits_per_block = 8 * sizeof(Block);
  std::vector<sym::Bit> b;

  class reference {
    friend class dynamic_bitset;
    dynamic_bitset& s; size_type p;
    reference(dynamic_bitset& s, size_type p) : s(s), p(p) {}
   public:
    reference(const reference&) = default;
    operator bool() const { return s.test(p); }
    bool operator~() const { return !s.test(p); }
    reference& operator=(bool x) { s.b.at(p) = x; return *this; }
    reference& operator=(const reference& o) { s.b.at(p) = o.s.b.at(o.p); return *this; }
    reference& flip() { s.b.at(p) = sym::b_not(s.b.at(p)); return *this; }
    reference& operator|=(bool x) { if (x) s.b.at(p) = 1; return *this; }
    reference& operator&=(bool x) { if (!x) s.b.at(p) = 0; return *this; }
    reference& operator^=(bool x) { if (x) flip(); return *this; }
    reference& operator-=(bool x) { if (x) s.b.at(p) = 0; return *this; }
  };
  using const_reference = bool;

  dynamic_bitset() = default;
  explicit dynamic_bitset(const Allocator&) {}
  explicit dynamic_bitset(size_type n, unsigned long v = 0, const Allocator& = Allocator()) : b(n, 0) {
    for (size_type i = 0; i < n && i < 64; ++i) b[i] = (v >> i) & 1;
  }
  template <typename C, typename T, typename A>
  explicit dynamic_bitset(const std::basic_string<C, T, A>& s, typename std::basic_string<C, T, A>::size_type pos = 0,
                          typename std::basic_string<C, T, A>::size_type n = std::basic_string<C, T, A>::npos,
                          size_type nb = npos, const Allocator& = Allocator()) {
    auto t = s.substr(pos, n);
    size_type k = nb == npos ? t.size() : nb;
    b.assign(k, 0);
    for (size_type i = 0; i < k && i < t.size(); ++i) {
      auto c = t[t.size() - 1 - i];
      if (c != C('0') && c != C('1')) std::abort();
      b[i] = c == C('1');
    }
  }
  template <typename It, std::enable_if_t<!std::is_integral_v<It>, int> = 0>
  dynamic_bitset(It f, It l, const Allocator& = Allocator()) {
    for (; f != l; ++f) for (size_type i = 0; i < bits_per_block; ++i) b.push_back((*f >> i) & 1);
  }
  dynamic_bitset(const dynamic_bitset&) = default;
  dynamic_bitset(dynamic_bitset&&) = default;
  dynamic_bitset& operator=(const dynamic_bitset&) = default;
  dynamic_bitset& operator=(dynamic_bitset&&) = default;
  void swap(dynamic_bitset& o) { b.swap(o.b); }
  void resize(size_type n, bool v = false) { b.resize(n, v); }
  void clear() { b.clear(); }
  void push_back(bool v) { b.push_back(v); }
  void pop_back() { b.pop_back(); }
  void append(Block x) { for (size_type i = 0; i < bits_per_block; ++i) b.push_back((x >> i) & 1); }
  void same(const dynamic_bitset& o) const { if (b.size() != o.b.size()) std::abort(); }
  void in(size_type p) const { if (p >= b.size()) std::abort(); }
#define SYM_OP(op, f) dynamic_bitset& operator op(const dynamic_bitset& o) { same(o); for (size_type i = 0; i < b.size(); ++i) b[i] = f; return *this; }
  SYM_OP(&=, sym::b_and(b[i], o.b[i])) SYM_OP(|=, sym::b_or(b[i], o.b[i])) SYM_OP(^=, sym::b_xor(b[i], o.b[i]))
  SYM_OP(-=, sym::b_and(b[i], sym::b_not(o.b[i])))
#undef SYM_OP
  dynamic_bitset& operator<<=(size_type n) { std::vector<sym::Bit> r(b.size(), 0); for (size_type i = n; i < b.size(); ++i) r[i] = b[i - n]; b = r; return *this; }
  dynamic_bitset& operator>>=(size_type n) { std::vector<sym::Bit> r(b.size(), 0); for (size_type i = n; i < b.size(); ++i) r[i - n] = b[i]; b = r; return *this; }
  dynamic_bitset operator<<(size_type n) const { auto r = *this; r <<= n; return r; }
  dynamic_bitset operator>>(size_type n) const { auto r = *this; r >>= n; return r; }
  dynamic_bitset& set(size_type p, bool v = true) { in(p); b[p] = v; return *this; }
  dynamic_bitset& set(size_type p, size_type n, bool v) { for (size_type i = 0; i < n; ++i) set(p + i, v); return *this; }
  dynamic_bitset& set() { for (auto& x : b) x = 1; return *this; }
  dynamic_bitset& reset(size_type p) { in(p); b[p] = 0; return *this; }
  dynamic_bitset& reset(size_type p, size_type n) { for (size_type i = 0; i < n; ++i) reset(p + i); return *this; }
  dynamic_bitset& reset() { for (auto& x : b) x = 0; return *this; }
  dynamic_bitset& flip(size_type p) { in(p); b[p] = sym::b_not(b[p]); return *this; }
  dynamic_bitset& flip() { for (auto& x : b) x = sym::b_not(x); return *this; }
  bool test(size_type p) const { in(p); return sym::decide(b[p]); }
  bool at(size_type p) const { if (p >= b.size()) throw std::out_of_range("dynamic_bitset"); return sym::decide(b[p]); }
  bool test_set(size_type p, bool v = true) { bool o = test(p); set(p, v); return o; }
  reference operator[](size_type p) { in(p); return reference(*this, p); }
  bool operator[](size_type p) const { return test(p); }
  dynamic_bitset operator~() const { auto r = *this; r.flip(); return r; }
  sym::Bit any_() const { sym::Bit r = 0; for (auto x : b) r = sym::b_or(r, x); return r; }
  bool any() const { return sym::decide(any_()); }
  bool none() const { return !any(); }
  bool all() const { sym::Bit r = 1; for (auto x : b) r = sym::b_and(r, x); return sym::decide(r); }
  size_type count() const { size_type c = 0; for (auto x : b) c += sym::decide(x); return c; }
  size_type size() const { return b.size(); }
  bool empty() const { return b.empty(); }
  size_type num_blocks() const { return (b.size() + bits_per_block - 1) / bits_per_block; }
  size_type max_size() const { return npos / 2; }
  size_type capacity() const { return b.capacity(); }
  void reserve(size_type n) { b.reserve(n); }
  void shrink_to_fit() {}
  unsigned long to_ulong() const { unsigned long r = 0; for (size_type i = 0; i < b.size(); ++i) if (sym::decide(b[i])) { if (i >= 64) throw std::overflow_error("to_ulong"); r |= 1UL << i; } return r; }
  bool is_subset_of(const dynamic_bitset& o) const { same(o); return sym::decide(sub_(o)); }
  bool is_proper_subset_of(const dynamic_bitset& o) const { same(o); return sym::decide(sym::b_and(sub_(o), sym::b_not(eq_(o)))); }
  bool intersects(const dynamic_bitset& o) const { same(o); sym::Bit r = 0; for (size_type i = 0; i < b.size(); ++i) r = sym::b_or(r, sym::b_and(b[i], o.b[i])); return sym::decide(r); }
  sym::Bit sub_(const dynamic_bitset& o) const { sym::Bit r = 1; for (size_type i = 0; i < b.size(); ++i) r = sym::b_and(r, sym::b_implies(b[i], o.b[i])); return r; }
  sym::Bit eq_(const dynamic_bitset& o) const { if (b.size() != o.b.size()) return 0; sym::Bit r = 1; for (size_type i = 0; i < b.size(); ++i) r = sym::b_and(r, sym::b_eq(b[i], o.b[i])); return r; }
  size_type find_first(size_type p = 0) const { for (; p < b.size(); ++p) if (sym::decide(b[p])) return p; return npos; }
  size_type find_next(size_type p) const { return p == npos || p + 1 >= b.size() ? npos : find_first(p + 1); }
  Allocator get_allocator() const { return {}; }
  friend bool operator==(const dynamic_bitset& x, const dynamic_bitset& y) { return sym::decide(x.eq_(y)); }
  friend bool operator!=(const dynamic_bitset& x, const dynamic_bitset& y) { return !(x == y); }
  friend bool operator<(const dynamic_bitset& x, const dynamic_bitset& y) {
    for (size_type i = x.size(), j = y.size(); i-- > 0 && j-- > 0;) { bool p = sym::decide(x.b[i]), q = sym::decide(y.b[j]); if (p != q) return q; }
    return x.size() < y.size();
  }
  friend bool operator>(const dynamic_bitset& x, const dynamic_bitset& y) { return y < x; }
  friend bool operator<=(const dynamic_bitset& x, const dynamic_bitset& y) { return !(y < x); }
  friend bool operator>=(const dynamic_bitset& x, const dynamic_bitset& y) { return !(x < y); }
};
#define SYM_F(op) template <typename B, typename A> dynamic_bitset<B, A> operator op(const dynamic_bitset<B, A>& x, const dynamic_bitset<B, A>& y) { auto r = x; r op##= y; return r; }
SYM_F(&) SYM_F(|) SYM_F(^) SYM_F(-)
#undef SYM_F
template <typename B, typename A, typename S> void to_string(const dynamic_bitset<B, A>& x, S& s) { s.clear(); for (std::size_t i = x.size(); i-- > 0;) s.push_back(x.test(i) ? '1' : '0'); }
template <typename B, typename A> void swap(dynamic_bitset<B, A>& x, dynamic_bitset<B, A>& y) { x.swap(y); }
template <typename C, typename T, typename B, typename A>
std::basic_ostream<C, T>& operator<<(std::basic_ostream<C, T>& os, const dynamic_bitset<B, A>& x) { std::string s; to_string(x, s); return os << s; }
}  // namespace boost

// families of reductions, the values contributed to them and their sequential fold
#pragma once
#include "rt.h"
#include <algorithm>
#include <array>
#include <limits>
namespace fold {
enum Fam { PlusVec, PlusTup, MaxT, MinT, BOr, BAnd, BXor, AndB, OrB, Custom, ArrMax, VecMin, NoneF, FamN };
inline char const* const fam_name[] = {"plus vector", "plus tuple", "max", "min", "bit-or", "bit-and", "bit-xor", "and", "or", "custom +", "max array", "min vector", "none"};
struct Stat { int64_t n = 0, lo = 0, hi = 0, sum = 0;
  friend Stat operator+(Stat a, Stat const& b) { a.n += b.n; a.sum += b.sum; a.lo = std::min(a.lo, b.lo); a.hi = std::max(a.hi, b.hi); return a; }
  template <class S> void serialize(S& s) { s | n | lo | hi | sum; } };
template <int F> struct OpOf;
#define FOLD_OP(F, O) template <> struct OpOf<F> { template <class T> using Op = vt::collective::O<T>; };
FOLD_OP(PlusVec, PlusOp) FOLD_OP(PlusTup, PlusOp) FOLD_OP(MaxT, MaxOp) FOLD_OP(MinT, MinOp) FOLD_OP(BOr, BitOrOp) FOLD_OP(BAnd, BitAndOp) FOLD_OP(BXor, BitXorOp)
FOLD_OP(AndB, AndOp) FOLD_OP(OrB, OrOp) FOLD_OP(Custom, PlusOp) FOLD_OP(ArrMax, MaxOp) FOLD_OP(VecMin, MinOp)
#undef FOLD_OP
struct Red { int fam = 0, rid = 0, len = 1; uint64_t seed = 0; };
inline Red gen(pbt::Gen& g, int rid, bool none = true) { Red r; r.fam = (int)g.draw(none ? FamN - 1 : FamN - 2); r.rid = rid; r.len = g.chance(1, 8) ? (int)g.range(1, 400) : (int)g.range(1, 6); r.seed = g.seed(); return r; }
inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t x = (a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6))) * 0xbf58476d1ce4e5b9ull; x ^= x >> 29; x *= 0x94d049bb133111ebull; return x ^ (x >> 32); }
inline uint64_t raw(Red const& r, int who, int i) { return mix(mix(r.seed, (uint64_t)who + 1), (uint64_t)i + 77); }
inline int64_t val(Red const& r, int who, int i) {
  uint64_t x = raw(r, who, i);
  switch (r.seed & 3) { case 0: return (int64_t)(x % 2001) - 1000; case 1: return (int64_t)(x % 3) - 1; case 2: return (int64_t)(x >> 8) * ((x & 1) ? -1 : 1); default: return -(int64_t)(x % 1000000) - 5; }
}
inline int64_t small(Red const& r, int who, int i) { return (int64_t)(raw(r, who, i) % 100003) - 50000; }
inline bool bval(Red const& r, int who) { return (raw(r, who, 0) % 4 != 0) == ((r.seed >> 5) & 1); }
inline uint64_t bits(Red const& r, int who) { uint64_t x = raw(r, who, 0); if (r.fam == BAnd) x |= raw(r, who, 1) | raw(r, who, 2); if (r.fam == BOr) x &= raw(r, who, 1) & raw(r, who, 2); return x; }

// digests of results
inline uint64_t dg(std::vector<int64_t> const& v) { uint64_t h = 1; for (auto x : v) h = mix(h, (uint64_t)x); return h; }
inline uint64_t d_tup(int64_t a, int n, double d) { return dg({2, a, n, (int64_t)d}); }
inline uint64_t d_i(int64_t a, int rid) { return dg({3, a, rid}); }
inline uint64_t d_u(uint64_t a) { return dg({4, (int64_t)a}); }
inline uint64_t d_b(bool b) { return dg({5, b}); }
inline uint64_t d_c(Stat const& s) { return dg({6, s.n, s.lo, s.hi, s.sum}); }
inline uint64_t d_a(std::array<int, 3> const& a) { return dg({7, a[0], a[1], a[2]}); }
inline uint64_t d_none() { return dg({8}); }

template <class... A> uint64_t digest(A const&... a) {
  if constexpr (sizeof...(A) == 0) return d_none();
  else if constexpr (std::is_same_v<std::tuple<A...>, std::tuple<std::vector<int64_t>>>) return dg(a...);
  else if constexpr (sizeof...(A) == 3) return d_tup(a...);
  else if constexpr (sizeof...(A) == 2) return d_i(a...);
  else if constexpr (std::is_same_v<std::tuple<A...>, std::tuple<uint64_t>>) return d_u(a...);
  else if constexpr (std::is_same_v<std::tuple<A...>, std::tuple<bool>>) return d_b(a...);
  else if constexpr (std::is_same_v<std::tuple<A...>, std::tuple<Stat>>) return d_c(a...);
  else return d_a(a...);
}

template <class F> void contribute(Red const& r, int who, F&& f) {
  auto vec = [&](int k) { std::vector<int64_t> v; for (int i = 0; i < r.len; i++) v.push_back(k ? val(r, who, i) : small(r, who, i)); if (!k) { v.push_back(1); v.push_back(r.rid); } else v.push_back(r.rid); return v; };
  switch (r.fam) {
    case PlusVec: f(std::integral_constant<int, PlusVec>{}, vec(0)); break;
    case PlusTup: f(std::integral_constant<int, PlusTup>{}, small(r, who, 0), 1, (double)(small(r, who, 1) + r.rid)); break;
    case MaxT: f(std::integral_constant<int, MaxT>{}, val(r, who, 0), r.rid); break;
    case MinT: f(std::integral_constant<int, MinT>{}, val(r, who, 0), r.rid); break;
    case BOr: f(std::integral_constant<int, BOr>{}, bits(r, who)); break;
    case BAnd: f(std::integral_constant<int, BAnd>{}, bits(r, who)); break;
    case BXor: f(std::integral_constant<int, BXor>{}, bits(r, who)); break;
    case AndB: f(std::integral_constant<int, AndB>{}, bval(r, who)); break;
    case OrB: f(std::integral_constant<int, OrB>{}, bval(r, who)); break;
    case Custom: { int64_t x = small(r, who, 0); f(std::integral_constant<int, Custom>{}, Stat{1, x, x, x}); break; }
    case ArrMax: f(std::integral_constant<int, ArrMax>{}, std::array<int, 3>{(int)small(r, who, 0), (int)small(r, who, 1), r.rid}); break;
    case VecMin: f(std::integral_constant<int, VecMin>{}, vec(1)); break;
    default: f(std::integral_constant<int, NoneF>{}); break;
  }
}
inline uint64_t expect(Red const& r, std::vector<int> const& who) {
  std::vector<int64_t> v((size_t)r.len, 0); Stat s; std::array<int, 3> a{INT32_MIN, INT32_MIN, INT32_MIN}; int64_t x = 0; uint64_t u = 0; bool b = false; int64_t t = 0; double d = 0; bool first = true;
  for (int w : who) {
    for (int i = 0; i < r.len; i++) { int64_t q = r.fam == VecMin ? val(r, w, i) : small(r, w, i); if (r.fam == VecMin) v[(size_t)i] = first ? q : std::min(v[(size_t)i], q); else v[(size_t)i] += q; }
    t += small(r, w, 0); d += (double)(small(r, w, 1) + r.rid);
    int64_t y = val(r, w, 0); x = first ? y : r.fam == MaxT ? std::max(x, y) : std::min(x, y);
    uint64_t z = bits(r, w); u = first ? z : r.fam == BOr ? u | z : r.fam == BAnd ? u & z : u ^ z;
    bool c = bval(r, w); b = first ? c : r.fam == AndB ? b && c : b || c;
    int64_t m = small(r, w, 0); Stat one{1, m, m, m}; s = first ? one : s + one;
    a[0] = std::max(a[0], (int)small(r, w, 0)); a[1] = std::max(a[1], (int)small(r, w, 1)); a[2] = std::max(a[2], r.rid);
    first = false;
  }
  switch (r.fam) {
    case PlusVec: v.push_back((int64_t)who.size()); v.push_back((int64_t)who.size() * r.rid); return dg(v);
    case PlusTup: return d_tup(t, (int)who.size(), d);
    case MaxT: case MinT: return d_i(x, r.rid);
    case BOr: case BAnd: case BXor: return d_u(u);
    case AndB: case OrB: return d_b(b);
    case Custom: return d_c(s);
    case ArrMax: return d_a(a);
    case VecMin: v.push_back(r.rid); return dg(v);
    default: return d_none();
  }
}
// results received per target, in shared memory: up to 96 targets with up to 300 results
struct Log {
  int base;
  int64_t* at(int target) const { return sim::shared() + base + target * 301; }
  void add(int target, uint64_t d) const { auto* p = at(target); RT_CHECK(p[0] < 300, "duplicate", "target ", target, " got more than 300 results"); p[1 + p[0]++] = (int64_t)d; sim::progress(); }
  // compare with the results due so far
  void check(int target, std::vector<std::pair<uint64_t, int>> want /* digest, rid */, char const* what) const {
    auto* p = at(target); std::vector<uint64_t> got; for (int64_t i = 0; i < p[0]; i++) got.push_back((uint64_t)p[1 + i]);
    auto gs = got; std::sort(gs.begin(), gs.end());
    for (auto& w : want) { auto it = std::lower_bound(gs.begin(), gs.end(), w.first); RT_CHECK(it != gs.end() && *it == w.first, "result", what, " ", target, " did not get the right result of reduction ", w.second, " (", got.size(), " of ", want.size(), " results arrived)"); gs.erase(it); }
    RT_CHECK(gs.empty(), "duplicate", what, " ", target, " got ", got.size(), " results instead of ", want.size());
  }
};
} // namespace fold

// variant: san
// sources: vt/topos/mapping/seed/seed.cc
// C23: linearization of dense indices and mappings
#include "common/standalone.h"
#include <vt/topos/index/index.h>
#include <vt/topos/mapping/dense/dense.h>
#include <vt/topos/mapping/dense/unbounded_default.h>
#include <vt/topos/mapping/seed/seed.h>
#include <map>
#include <set>
PBT_RULE("A case draws an index type (16, 32 or 64 bits; signed or not; 1 to 6 dimensions), bounds and a rank count. Small boxes (at most 4096 points) are enumerated in full: linearizations, foreach, block, round-robin and unbounded maps, ordering, hash and bit packing of every point against mixed-radix arithmetic. Large boxes are sampled at corners and random points. Non-trivial: more than one rank and more than one point.");
using namespace vt;
namespace {
template <typename T, int N> using Ix = index::DenseIndexArray<T, (int8_t)N>;
template <typename T, int N> std::string str(std::array<T, N> const& a) { std::string s = "("; for (int i = 0; i < N; i++) s += pbt::cat(i ? "," : "", (long long)a[i]); return s + ")"; }

template <typename T, int N> struct Box {
  std::array<T, N> dim; uint64_t size = 1; int ranks; std::string name;
  uint64_t col(std::array<T, N> const& p) const { uint64_t v = 0; for (int i = 0; i < N; i++) v = v * (uint64_t)dim[i] + (uint64_t)p[i]; return v; }
  uint64_t row(std::array<T, N> const& p) const { uint64_t v = 0; for (int i = N - 1; i >= 0; i--) v = v * (uint64_t)dim[i] + (uint64_t)p[i]; return v; }
};
// the block a flat index belongs to: the first size%ranks blocks have one point more
int block(uint64_t flat, uint64_t size, int ranks) {
  uint64_t q = size / (unsigned)ranks, r = size % (unsigned)ranks;
  return (int)(flat < r * (q + 1) ? flat / (q + 1) : r + (flat - r * (q + 1)) / q);
}
template <typename T, int N> NodeType blockMap(Ix<T, N>* i, Ix<T, N>* m, int n) {
  if constexpr (N == 1) return mapping::dense1DBlockMap<T>(i, m, (NodeType)n);
  else if constexpr (N == 2) return mapping::dense2DBlockMap<T>(i, m, (NodeType)n);
  else if constexpr (N == 3) return mapping::dense3DBlockMap<T>(i, m, (NodeType)n);
  else return mapping::denseNDBlockMap<T, (int8_t)N>(i, m, (NodeType)n);
}
template <typename T, int N> NodeType defMap(Ix<T, N>* i, Ix<T, N>* m, int n) {
  if constexpr (N == 1) return mapping::defaultDenseIndex1DMap<T>(i, m, (NodeType)n);
  else if constexpr (N == 2) return mapping::defaultDenseIndex2DMap<T>(i, m, (NodeType)n);
  else if constexpr (N == 3) return mapping::defaultDenseIndex3DMap<T>(i, m, (NodeType)n);
  else return blockMap<T, N>(i, m, n); // defaultDenseIndexNDMap
}
template <typename T, int N> NodeType rrMap(Ix<T, N>* i, Ix<T, N>* m, int n) {
  if constexpr (N == 1) return mapping::dense1DRoundRobinMap<T>(i, m, (NodeType)n);
  else if constexpr (N == 2) return mapping::dense2DRoundRobinMap<T>(i, m, (NodeType)n);
  else if constexpr (N == 3) return mapping::dense3DRoundRobinMap<T>(i, m, (NodeType)n);
  else return mapping::denseNDRoundRobinMap<T, (int8_t)N>(i, m, (NodeType)n);
}
// everything claimed about one point of a box
template <typename T, int N> void point(Box<T, N> const& b, std::array<T, N> p) {
  Ix<T, N> i(p), m(b.dim); std::string at = b.name + " at " + str<T, N>(p);
  uint64_t col = b.col(p), row = b.row(p);
  auto gc = mapping::linearizeDenseIndexColMajor<T, (int8_t)N>(&i, &m);
  auto gr = mapping::linearizeDenseIndexRowMajor<T, (int8_t)N>(&i, &m);
  PBT_CHECK((uint64_t)gc == col, "linearize", at, ": column-major position ", (long long)gc, ", expected ", col);
  PBT_CHECK((uint64_t)gr == row, "linearize", at, ": row-major position ", (long long)gr, ", expected ", row);
  int bl = block(col, b.size, b.ranks);
  int g1 = (int)blockMap<T, N>(&i, &m, b.ranks), g2 = (int)defMap<T, N>(&i, &m, b.ranks), g3 = (int)rrMap<T, N>(&i, &m, b.ranks);
  PBT_CHECK(g1 == bl, "block map", at, ": mapped to rank ", g1, ", expected ", bl);
  PBT_CHECK(g2 == bl, "default map", at, ": mapped to rank ", g2, ", expected ", bl);
  PBT_CHECK(g3 == (int)(col % (unsigned)b.ranks), "round-robin map", at, ": mapped to rank ", g3, ", expected ", col % (unsigned)b.ranks);
  for (int d = 0; d < N; d++) PBT_CHECK(i[(T)d] == p[(size_t)d] && i.get((T)d) == p[(size_t)d] && i.raw()[d] == p[(size_t)d], "components", at);
  PBT_CHECK(i.x() == p[0], "components", at, " x");
  if constexpr (N > 1) PBT_CHECK(i.y() == p[1], "components", at, " y");
  if constexpr (N > 2) PBT_CHECK(i.z() == p[2], "components", at, " z");
  if constexpr (N > 3) PBT_CHECK(i.u() == p[3], "components", at, " u");
  if constexpr (N > 4) PBT_CHECK(i.v() == p[4], "components", at, " v");
  if constexpr (N > 5) PBT_CHECK(i.w() == p[5], "components", at, " w");
  // packing into 64 bits is inverted for components that fit their share
  int share = 64 / N; bool fits = true;
  for (T x : p) fits = fits && (share >= 64 || (uint64_t)x < (1ull << share));
  if (fits) { auto back = Ix<T, N>::uniqueBitsToIndex(i.uniqueBits()); PBT_CHECK(back == i, "unique bits", at, " came back as ", back.toString()); }
}
// pairs of arbitrary (possibly negative) indices: order, equality, arithmetic, rendering, unbounded map
template <typename T, int N> void pairs(pbt::Gen& g, int ranks) {
  auto val = [&]() -> T { int64_t r = std::is_signed<T>::value ? g.range(-3, 3) : g.range(0, 6);
    if (g.chance(1, 5)) r *= (int64_t)(std::numeric_limits<T>::max() / 8); return (T)r; };
  std::vector<std::array<T, N>> v(3);
  for (auto& a : v) for (auto& x : a) x = val();
  if (g.chance(2, 5)) v[1] = v[0];
  if (g.chance(2, 5)) { v[1] = v[0]; v[1][g.draw(N - 1)] = val(); }
  std::vector<Ix<T, N>> ix; for (auto& a : v) ix.push_back(Ix<T, N>(a));
  for (int a = 0; a < 3; a++) {
    for (int c = 0; c < 3; c++) {
      bool lt = false, eq = v[a] == v[c];
      for (int d = N - 1; d >= 0; d--) if (v[a][d] != v[c][d]) { lt = v[a][d] < v[c][d]; break; }
      std::string w = str<T, N>(v[a]) + " and " + str<T, N>(v[c]);
      PBT_CHECK((ix[a] == ix[c]) == eq, "equality", w);
      PBT_CHECK((ix[a] < ix[c]) == lt, "order", w);
      if (eq) PBT_CHECK((std::hash<Ix<T, N>>{}(ix[a]) == std::hash<Ix<T, N>>{}(ix[c])), "hash", w);
      std::array<T, N> s, t; for (int d = 0; d < N; d++) { s[d] = (T)(v[a][d] + v[c][d]); t[d] = (T)(v[a][d] - v[c][d]); }
      PBT_CHECK(ix[a] + ix[c] == (Ix<T, N>(s)), "sum", w); PBT_CHECK(ix[a] - ix[c] == (Ix<T, N>(t)), "difference", w);
    }
    std::string list; for (int d = 0; d < N; d++) list += (d ? "," : "") + std::to_string(v[a][d]);
    std::stringstream ss; ss << ix[a];
    PBT_CHECK(ix[a].toString() == "[" + list + "]" && ss.str() == "idx(" + list + ")", "rendering", list, " renders as ", ix[a].toString(), " and ", ss.str());
    mapping::UnboundedDefaultMap<Ix<T, N>> um;
    int r1 = (int)um.map(&ix[a], N, (NodeType)ranks), r2 = (int)um.map(&ix[a], N, (NodeType)ranks);
    PBT_CHECK(r1 >= 0 && r1 < ranks, "unbounded map", list, " maps to rank ", r1, " of ", ranks);
    PBT_CHECK(r1 == r2, "unbounded map", list, " maps to ", r1, " and to ", r2);
    if (N == 1 && v[a][0] >= 0) PBT_CHECK((uint64_t)r1 == (uint64_t)v[a][0] % (unsigned)ranks, "unbounded map spread", list, " maps to ", r1, " of ", ranks);
    Ix<T, N> same(index::dense_single_value_tag, v[a][0]);
    for (int d = 0; d < N; d++) PBT_CHECK(same[(T)d] == v[a][0], "single value", list);
    PBT_CHECK(ix[a].packedSize() == N * sizeof(T) && ix[a].indexIsByteCopyable() && ix[a].ndims() == N, "traits", list);
  }
}
template <typename T, int N> void run(pbt::Gen& g) {
  Box<T, N> b; bool small = !g.chance(3, 10);
  b.ranks = (int)(g.chance(1, 5) ? g.range(1, 3000) : g.range(1, 17));
  uint64_t cap = small ? 4096 : std::min<uint64_t>((uint64_t)std::numeric_limits<T>::max(), 1ull << 45);
  for (int d = 0; d < N; d++) {
    uint64_t room = cap / b.size, most = small ? std::min<uint64_t>(room, N == 1 ? 600 : N == 2 ? 40 : 9) : room;
    b.dim[(size_t)d] = (T)(g.chance(3, 20) ? 1 : small ? 1 + g.size((uint32_t)(most - 1)) : (d == N - 1 ? 1 + g.u64() % most : 1 + g.u64() % std::max<uint64_t>(1, (uint64_t)std::pow((double)most, 1.0 / (N - d)))));
    b.size *= (uint64_t)b.dim[(size_t)d];
  }
  b.name = pbt::cat(sizeof(T) * 8, std::is_signed<T>::value ? "-bit" : "-bit unsigned", " box ", str<T, N>(b.dim), " on ", b.ranks, " ranks");
  g.note(b.name); g.label(pbt::cat(N, "D")); g.label(small ? "enumerated" : "sampled");
  if ((uint64_t)b.size < (uint64_t)b.ranks) g.label("fewer points than ranks");
  Ix<T, N> m(b.dim);
  PBT_CHECK(m.getSize() == b.size, "box size", b.name, " has size ", m.getSize(), ", expected ", b.size);
  g.nontrivial(b.size > 1 && b.ranks > 1);
  if (small) {
    std::array<T, N> p{}; uint64_t k = 0; std::vector<std::array<T, N>> seen;
    std::vector<uint64_t> cnt((size_t)b.ranks), rr((size_t)b.ranks);
    auto visit = [&](Ix<T, N> x) { std::array<T, N> q; for (int d = 0; d < N; d++) q[(size_t)d] = x[(T)d]; seen.push_back(q); };
    if (g.coin()) m.foreach(visit); else { Ix<T, N> z; z.foreach(m, visit); }
    PBT_CHECK(seen.size() == b.size, "foreach", b.name, ": ", seen.size(), " visits for ", b.size, " points");
    for (; k < b.size; k++) {
      point<T, N>(b, p);
      Ix<T, N> i(p); cnt[(size_t)blockMap<T, N>(&i, &m, b.ranks)]++; rr[(size_t)rrMap<T, N>(&i, &m, b.ranks)]++;
      // the order of visits is not promised: position by row-major rank
      for (size_t d = 0; d < N; d++) { if (++p[d] < b.dim[d]) break; p[d] = 0; }
    }
    auto s = seen; std::sort(s.begin(), s.end());
    PBT_CHECK(std::adjacent_find(s.begin(), s.end()) == s.end(), "foreach", b.name, " visits a point twice");
    for (auto& q : s) for (int d = 0; d < N; d++) PBT_CHECK(q[d] >= 0 && q[d] < b.dim[d], "foreach", b.name, " visits ", str<T, N>(q));
    auto [lo, hi] = std::minmax_element(cnt.begin(), cnt.end()); auto [rl, rh] = std::minmax_element(rr.begin(), rr.end());
    PBT_CHECK(*hi - *lo <= 1, "block balance", b.name, ": ranks hold from ", *lo, " to ", *hi, " points");
    PBT_CHECK(*rh - *rl <= 1, "round-robin balance", b.name, ": ranks hold from ", *rl, " to ", *rh, " points");
  } else {
    for (int k = 0; k < 40; k++) {
      std::array<T, N> p;
      for (size_t d = 0; d < N; d++) { uint64_t n = (uint64_t)b.dim[d]; switch (g.draw(3)) { case 0: p[d] = 0; break; case 1: p[d] = (T)(n - 1); break; default: p[d] = (T)(g.u64() % n); } }
      point<T, N>(b, p);
    }
    // the edges of the blocks
    if constexpr (N == 1) for (int r = 0; r < std::min(b.ranks, 60); r++) {
      uint64_t q = b.size / (unsigned)b.ranks, e = b.size % (unsigned)b.ranks, first = (unsigned)r * q + std::min<uint64_t>((unsigned)r, e);
      if (first < b.size) point<T, N>(b, {(T)first});
      if (first > 0 && first <= b.size) point<T, N>(b, {(T)(first - 1)});
    }
  }
  pairs<T, N>(g, b.ranks);
}
template <typename T> void dims(pbt::Gen& g) {
  switch (g.draw(5)) {
    case 0: run<T, 1>(g); break; case 1: run<T, 2>(g); break; case 2: run<T, 3>(g); break;
    case 3: run<T, 4>(g); break; case 4: run<T, 5>(g); break; default: run<T, 6>(g);
  }
}
} // namespace
PBT_TARGET(dense, InProc, 12000, 400000) {
  switch (g.draw(5)) {
    case 0: dims<int16_t>(g); break; case 1: dims<int64_t>(g); break; case 2: dims<uint32_t>(g); break; default: dims<int32_t>(g);
  }
}
PBT_TARGET(seeds, InProc, 20000, 200000) {
  long seed = (long)(g.coin() ? g.range(-5, 200) : (int64_t)g.u64()); int n = (int)g.range(1, 5000);
  g.note("seed ", seed, " on ", n, " ranks"); g.nontrivial(n > 1);
  auto a = mapping::randomSeedMapNode((SeedType)seed, (NodeType)n), b = mapping::randomSeedMapNode((SeedType)seed, (NodeType)n);
  PBT_CHECK((int)a >= 0 && (int)a < n, "seed map", "seed ", seed, " maps to rank ", a, " of ", n);
  PBT_CHECK(a == b, "seed map", "seed ", seed, " maps to ", a, " and to ", b);
  auto c = mapping::randomSeedMapCore((SeedType)seed, (CoreType)n);
  PBT_CHECK((int)c == (int)a, "seed map", "core and node maps differ");
}

// helpers for collection checks: shapes of 1 to 3 dimensions with a linear numbering
#pragma once
#include "rt.h"
#include <array>
#include <set>
namespace col {
struct Shape { int d = 1; int x = 1, y = 1, z = 1; int size() const { return x * y * z; } };
inline Shape shape(pbt::Gen& g, int max) {
  Shape s; s.d = (int)g.range(1, 3);
  if (s.d == 1) s.x = (int)g.range(1, max);
  else if (s.d == 2) { s.x = (int)g.range(1, 6); s.y = (int)g.range(1, std::max(1, max / s.x)); }
  else { s.x = (int)g.range(1, 4); s.y = (int)g.range(1, 3); s.z = (int)g.range(1, std::max(1, max / (s.x * s.y))); }
  return s;
}
inline std::string show(Shape s) { return pbt::cat("shape ", s.d, "d ", s.x, "x", s.y, "x", s.z); }
template <class I> struct Ix;
template <> struct Ix<vt::Index1D> { static vt::Index1D range(Shape s) { return vt::Index1D(s.x); } static vt::Index1D at(Shape, int i) { return vt::Index1D(i); } static int lin(Shape, vt::Index1D const& i) { return i.x(); } };
template <> struct Ix<vt::Index2D> { static vt::Index2D range(Shape s) { return vt::Index2D(s.x, s.y); } static vt::Index2D at(Shape s, int i) { return vt::Index2D(i / s.y, i % s.y); } static int lin(Shape s, vt::Index2D const& i) { return i.x() * s.y + i.y(); } };
template <> struct Ix<vt::Index3D> { static vt::Index3D range(Shape s) { return vt::Index3D(s.x, s.y, s.z); } static vt::Index3D at(Shape s, int i) { return vt::Index3D(i / (s.y * s.z), i / s.z % s.y, i % s.z); } static int lin(Shape s, vt::Index3D const& i) { return (i.x() * s.y + i.y()) * s.z + i.z(); } };
template <template <class> class F, class... A> void by_dim(Shape s, A&&... a) {
  if (s.d == 1) F<vt::Index1D>::run(s, std::forward<A>(a)...); else if (s.d == 2) F<vt::Index2D>::run(s, std::forward<A>(a)...); else F<vt::Index3D>::run(s, std::forward<A>(a)...);
}
// a mapping that is neither block nor round robin: spreads by a multiplicative hash
inline int scatter_rank(uint64_t lin, int n) { return (int)(((lin + 1) * 0x9e3779b97f4a7c15ull >> 32) % (uint64_t)n); }
} // namespace col

// variant: san
// sources: vt/epoch/epoch_window.cc vt/epoch/epoch_manip.cc
// C21: interval sets behave as sets of integers
#include "common/standalone.h"
#include <vt/termination/interval/integral_set.h>
#include <vt/epoch/epoch_window.h>
#include <vt/epoch/epoch_manip.h>
#include <set>
#include <optional>
PBT_RULE("A case is a sequence of up to 200 operations (insert value, insert range, erase, query, clear, copy, assign, iterate) on interval sets over three value types, or of activate/allocate/terminate on an epoch window; after each operation the set is compared with a reference set. Non-trivial: at least one interval was merged with a neighbour or split, or at least two epochs were live at once.");
using namespace vt;
using u128 = unsigned __int128;
namespace {
// reference: maximal disjoint intervals, kept as ordered list of [lo,hi] in a wide type
template <class T> struct Ref {
  std::map<T, T> m; // lo -> hi
  bool has(T v) const { auto i = m.upper_bound(v); if (i == m.begin()) return false; --i; return v <= i->second; }
  bool free(T lo, T hi) const { auto i = m.upper_bound(hi); if (i == m.begin()) return true; --i; return i->second < lo; }
  bool add(T lo, T hi) { // disjoint; true if merged
    bool merged = false;
    auto i = m.upper_bound(lo);
    if (i != m.begin()) { auto p = std::prev(i); if (p->second + 1 == lo) { lo = p->first; m.erase(p); merged = true; } }
    auto n = m.upper_bound(hi);
    if (n != m.end() && hi + 1 == n->first) { hi = n->second; m.erase(n); merged = true; }
    m[lo] = hi; return merged;
  }
  bool del(T v) { auto i = std::prev(m.upper_bound(v)); T lo = i->first, hi = i->second; m.erase(i); if (lo < v) m[lo] = v - 1; if (v < hi) m[v + 1] = hi; return lo < v && v < hi; }
  size_t count() const { size_t c = 0; for (auto& p : m) c += (size_t)(p.second - p.first) + 1; return c; }
};
template <class T, class S> void compare(pbt::Gen& g, S& s, Ref<T> const& r, std::vector<T> const& probes, char const* what, bool iterate) {
  PBT_CHECK(s.size() == r.count(), "size", what, ": size is ", s.size(), ", the set has ", r.count(), " members");
  PBT_CHECK(s.empty() == r.m.empty(), "empty", what, ": empty() is ", s.empty(), " with ", r.count(), " members");
  PBT_CHECK(s.compressedSize() == r.m.size(), "intervals", what, ": ", s.compressedSize(), " intervals, expected ", r.m.size());
  if (!r.m.empty()) {
    PBT_CHECK(s.lower() == r.m.begin()->first && s.upper() == std::prev(r.m.end())->second, "bounds", what, ": bounds [", s.lower(), ",", s.upper(), "], expected [", r.m.begin()->first, ",", std::prev(r.m.end())->second, "]");
    PBT_CHECK(s.range() == (T)(std::prev(r.m.end())->second - r.m.begin()->first), "bounds", what, ": range ", s.range());
  }
  auto it = s.ibegin(); auto ri = r.m.begin();
  for (; it != s.iend() && ri != r.m.end(); ++it, ++ri) PBT_CHECK(it->lower() == ri->first && it->upper() == ri->second, "intervals", what, ": interval [", it->lower(), ",", it->upper(), "], expected [", ri->first, ",", ri->second, "]");
  PBT_CHECK(it == s.iend() && ri == r.m.end(), "intervals", what, ": interval list has another length");
  for (T p : probes) for (int d = -1; d <= 1; d++) { T v = p + (T)d; PBT_CHECK(s.contains(v) == r.has(v) && s.exists(v) == r.has(v), "membership", what, ": contains(", v, ") is ", s.contains(v), ", expected ", r.has(v)); }
  bool sentinel = false; // a range bound of zero marks an invalid interval and cannot be iterated
  for (auto& p : r.m) sentinel |= p.first == T{} || p.second == T{};
  if (iterate && !sentinel && r.count() < 4000) {
    std::vector<T> want, got, back;
    for (auto& p : r.m) for (T v = p.first;; v++) { want.push_back(v); if (v == p.second) break; }
    for (auto v : s) { got.push_back(v); if (got.size() > want.size()) break; }
    PBT_CHECK(got == want, "iteration", what, ": iteration yields ", got.size(), " values (first difference at ", std::mismatch(got.begin(), got.begin() + (long)std::min(got.size(), want.size()), want.begin()).first - got.begin(), "), expected ", want.size());
    for (auto i = s.rbegin(); i != s.rend(); ++i) { back.push_back(*i); if (back.size() > want.size()) break; }
    std::reverse(back.begin(), back.end());
    PBT_CHECK(back == want, "iteration", what, ": reverse iteration differs");
    g.label("iterated");
  }
}
template <class T> void history(pbt::Gen& g, char const* tname, T base, int64_t span) {
  IntegralSet<T> s; Ref<T> r; std::vector<T> probes;
  if (g.chance(1, 6)) s = IntegralSet<T>(base);
  size_t ops = 1 + g.size(200);
  g.note(tname, " around ", base, " span ", span, ":\n");
  std::optional<IntegralSet<T>> copy; Ref<T> rcopy;
  auto val = [&]() -> T {
    if (!r.m.empty() && g.chance(2, 5)) { // near an existing interval
      auto it = r.m.begin(); std::advance(it, (long)g.draw(r.m.size() - 1));
      T b = g.coin() ? it->first : it->second; return b + (T)(g.range(0, 4) - 2);
    }
    return base + (T)g.range(0, span);
  };
  for (size_t k = 0; k < ops; k++) {
    switch (g.weighted({8, 4, 8, 2, 1, 2, 1})) {
      case 0: { T v = val(); if (r.has(v)) { g.label("insert skipped, present"); break; } probes.push_back(v); g.note(" +", v);
        auto it = s.insert(v); bool m = r.add(v, v); g.nontrivial(m);
        PBT_CHECK(it->contains(v), "insert iterator", "insert(", v, ") returned the interval [", it->lower(), ",", it->upper(), "]"); break; }
      case 1: { T lo = val(); T hi = lo + (T)(g.chance(1, 5) ? g.range(0, span) : g.range(0, 20)); if (hi < lo || !r.free(lo, hi)) break; probes.push_back(lo); probes.push_back(hi); g.note(" +[", lo, ",", hi, "]");
        typename IntegralSet<T>::IntervalType i(lo, hi); s.insertInterval(i); bool m = r.add(lo, hi); g.nontrivial(m); g.label("range"); break; }
      case 2: { if (r.m.empty()) break; auto it = r.m.begin(); std::advance(it, (long)g.draw(r.m.size() - 1));
        T w = it->second - it->first; T v; switch (g.draw(2)) { case 0: v = it->first; break; case 1: v = it->second; break; default: v = it->first + (T)g.draw((uint64_t)w); }
        g.note(" -", v); probes.push_back(v); s.erase(v); bool split = r.del(v); g.nontrivial(split); if (split) g.label("split"); break; }
      case 3: { T v = val(); PBT_CHECK(s.contains(v) == r.has(v), "membership", "contains(", v, ") is ", s.contains(v), ", expected ", r.has(v)); break; }
      case 4: g.note(" clear"); s.clear(); r.m.clear(); g.label("clear"); break;
      case 5: if (copy && g.coin()) { g.note(" restore"); s = *copy; r = rcopy; g.label("assign"); } else { g.note(" copy"); copy.emplace(s); rcopy = r; g.label("copy"); } break;
      case 6: { g.note(" move"); IntegralSet<T> t(std::move(s)); s = IntegralSet<T>(); s = t; g.label("move"); break; }
    }
    if (probes.size() > 24) probes.erase(probes.begin(), probes.begin() + 8);
    compare<T>(g, s, r, probes, "after the last operation", k + 1 == ops || g.chance(1, 16));
    if (copy && k % 8 == 0) compare<T>(g, *copy, rcopy, probes, "the copy", false);
  }
}
} // namespace
PBT_TARGET(integral_set, InProc, 40000, 1500000) {
  switch (g.draw(3)) {
    case 0: history<int>(g, "int", (int)g.pick(std::vector<int>{100, 1, -30, -1000000, 2147300000}), g.pick(std::vector<int64_t>{40, 12, 400, 40000})); break;
    case 1: history<int64_t>(g, "int64", g.pick(std::vector<int64_t>{1000, -20, INT64_MIN + 100, INT64_MAX - 400000}), g.pick(std::vector<int64_t>{30, 1000, 70000})); break;
    case 2: history<uint64_t>(g, "uint64", g.pick(std::vector<uint64_t>{5, 1ull << 63, (1ull << 32) - 20, UINT64_MAX - 400000}), g.pick(std::vector<int64_t>{30, 1000, 70000})); break;
    default: history<int>(g, "int", 1, g.pick(std::vector<int64_t>{6, 20, 64})); break;
  }
}

PBT_TARGET(epoch_window, InProc, 30000, 1000000) {
  using E = epoch::EpochManip;
  bool rooted = g.coin(); NodeType node = (NodeType)g.range(0, 30);
  auto cat = (epoch::eEpochCategory)g.draw(2);
  EpochType arch = E::generateEpoch(rooted, rooted ? node : uninitialized_destination, cat);
  E::setSeq(arch, g.chance(1, 3) ? g.bits(20) : 0);
  epoch::EpochWindow w(arch);
  auto mk = [&](uint64_t seq) { EpochType e = arch; E::setSeq(e, seq); return e; };
  uint64_t maxseq = E::seq(w.getLast());
  std::set<uint64_t> live; std::vector<uint64_t> past; uint64_t terminated = 0;
  size_t ops = 1 + g.size(150);
  size_t const full = w.getSize();
  PBT_CHECK(maxseq > 1000 && full == maxseq - E::seq(w.getFirst()) + 1, "window", "a new window holds ", full, " of the sequence numbers up to ", maxseq);
  g.note(rooted ? "rooted" : "collective", " window:");
  for (size_t k = 0; k < ops; k++) {
    switch (g.weighted({5, 5, 2, 2})) {
      case 0: { auto e = w.allocateNewEpoch(); auto s = E::seq(e); g.note(" new=", s);
        PBT_CHECK(e == mk(s) && E::isRooted(e) == rooted && E::category(e) == cat && (!rooted || E::node(e) == node), "archetype", "allocated epoch ", *e, " is not of the window's kind");
        PBT_CHECK(s >= 1, "archetype", "allocated the reserved sequence number ", s);
        PBT_CHECK(!live.count(s), "reused live epoch", "epoch ", s, " was allocated while active");
        PBT_CHECK(!w.isTerminated(e), "terminated", "newly allocated epoch ", s, " reads as terminated");
        live.insert(s); past.push_back(s); g.nontrivial(live.size() > 1); break; }
      case 1: { if (live.empty()) break; auto it = live.begin(); std::advance(it, (long)g.draw(live.size() - 1)); auto s = *it; live.erase(it); g.note(" end=", s); w.setEpochTerminated(mk(s)); terminated++; break; }
      case 2: { // an epoch becomes known on this rank
        uint64_t s = g.chance(1, 2) && !past.empty() ? past.back() + (uint64_t)g.range(0, 4) : 1 + (uint64_t)g.range(0, 30); if (s > maxseq) break; g.note(" activate=", s); w.activateEpoch(mk(s)); live.insert(s); past.push_back(s); g.label("activated"); g.nontrivial(live.size() > 1); break; }
      default: { uint64_t s = g.chance(1, 3) || past.empty() ? 1 + (uint64_t)g.range(0, 200) : g.pick(past); PBT_CHECK(w.isTerminated(mk(s)) == !live.count(s), "terminated", "epoch ", s, " reads as terminated=", w.isTerminated(mk(s)), " but it is ", live.count(s) ? "active" : "over"); break; }
    }
    for (auto s : live) PBT_CHECK(!w.isTerminated(mk(s)), "terminated", "active epoch ", s, " reads as terminated");
    for (size_t i = past.size() > 6 ? past.size() - 6 : 0; i < past.size(); i++) PBT_CHECK(w.isTerminated(mk(past[i])) == !live.count(past[i]), "terminated", "epoch ", past[i], " reads as terminated=", w.isTerminated(mk(past[i])));
    PBT_CHECK(w.getSize() == full - live.size(), "window size", "window holds ", w.getSize(), " terminated epochs, expected ", full - live.size());
    PBT_CHECK(w.getTotalTerminated() == terminated, "total", "total terminated is ", w.getTotalTerminated(), ", expected ", terminated);
  }
}

PBT_TARGET(interval, InProc, 40000, 1500000) {
  using I = vt::Interval<int64_t>;
  auto mk = [&] { int64_t lo = g.range(-12, 12), hi = lo + g.range(0, 8); g.note(" [", lo, ",", hi, "]"); return I(lo, hi); };
  I a = mk(), b = mk(); int64_t gap = g.range(1, 3), v = g.range(-15, 20);
  auto desc = [&] { return pbt::cat("[", a.lower(), ",", a.upper(), "] and [", b.lower(), ",", b.upper(), "]"); };
  bool overlap = false; for (int64_t x = a.lower(); x <= a.upper(); x++) overlap |= b.lower() <= x && x <= b.upper();
  PBT_CHECK(I::intersects(a, b) == overlap && I::intersects(b, a) == overlap, "intersects", desc(), ": intersects ", I::intersects(a, b));
  PBT_CHECK(I::less(a, b) == (a.upper() < b.lower()), "order", desc(), ": less ", I::less(a, b));
  PBT_CHECK(a.width() == a.upper() - a.lower() + 1 && a.valid(), "width", desc());
  PBT_CHECK(a.contains(v) == (a.lower() <= v && v <= a.upper()), "contains", desc(), " value ", v);
  PBT_CHECK((a == b) == (a.lower() == b.lower() && a.upper() == b.upper()) && (a != b) == !(a == b), "equal", desc());
  auto t = a.tangent(b, gap);
  auto want = a.lower() == b.upper() + gap ? I::PositionEnum::TangentLeft : a.upper() + gap == b.lower() ? I::PositionEnum::TangentRight : I::PositionEnum::NotTangent;
  PBT_CHECK(t == want, "tangent", desc(), " gap ", gap, ": ", (int)t, ", expected ", (int)want);
  if (auto p = a.tangent(b); p != I::PositionEnum::NotTangent) {
    I j = a; j.join(b, p); g.nontrivial();
    PBT_CHECK(j.lower() == std::min(a.lower(), b.lower()) && j.upper() == std::max(a.upper(), b.upper()), "join", desc(), " join to [", j.lower(), ",", j.upper(), "]");
  }
  int lo = (int)g.range(-4, 3), n = (int)g.range(1, 6); adt::RangedCounter<int> c(lo, lo + n - 1); int m = 0;
  for (int k = (int)g.range(0, 14); k > 0; k--) {
    int before = c.get(); bool up = g.coin(), post = g.coin();
    int ret = up ? (post ? (c++).get() : (++c).get()) : (post ? (c--).get() : (--c).get());
    m = (m + (up ? 1 : n - 1)) % n;
    PBT_CHECK(c.get() == lo + m && (int)c == lo + m, "ranged counter", "counter over [", lo, ",", lo + n - 1, "] reads ", c.get(), ", expected ", lo + m);
    PBT_CHECK(ret == (post ? before : c.get()), "ranged counter", "increment or decrement returned ", ret);
  }
}

// variant: san
// sources: vt/runtime/component/diagnostic_enum_format.cc vt/utils/memory/memory_units.cc
// C29: summary statistics agree with their definition
#include "common/standalone.h"
#include "common/context_stub.h"
#include <vt/utils/adt/histogram_approx.h>
#include <vt/utils/adt/ranged_counter.h>
#include <vt/utils/stats/linear_regression.h>
#include <array>
#include <vt/utils/container/circular_buffer.h>
#include <vt/vrt/collection/balance/stats_msg.h>
#include <vt/runtime/component/diagnostic_value.h>
#include <vt/runtime/component/diagnostic_value_format.h>
#include <checkpoint/checkpoint.h>
#include <deque>
PBT_RULE("A case is a history of values added to up to 4 histograms (few distinct, many distinct, clustered, with multiplicities) with merges and serialization between them and queries after each step; a set of points for a regression; a history of pushes and pops on circular buffers of capacity 2 to 9; a random binary tree combining up to 600 values (some of weights up to 100000) of load statistics or of diagnostics with every update rule. Results are compared with direct evaluation in long double. Non-trivial: the histogram has merged centroids, the buffer wrapped around, or the tree has 3 or more leaves.");
using namespace vt;
namespace {
double frac(pbt::Gen& g) { return (double)g.draw((1u << 20) - 1) / (1u << 20); }
using Hist = adt::HistogramApprox<double, int64_t>; using LD = long double;
double value(pbt::Gen& g, int style) {
  switch (style) { case 0: return (double)g.range(-3, 3); case 1: return (double)g.range(-1000000, 1000000) / 64; case 2: return (double)g.draw(5) * 1000 + (double)g.draw(40) / 128; case 3: return frac(g) * std::pow(10., (double)g.range(-6, 6)); default: return (double)g.range(-1, 1) * 1e12 + (double)g.draw(1000); }
}
struct HistModel { Hist h; int64_t most; std::multiset<double> dummy; std::map<double, int64_t> all; bool exact = true; int64_t count() const { int64_t n = 0; for (auto& e : all) n += e.second; return n; } };
void judge(pbt::Gen& g, HistModel& m) {
  auto n = m.count(); PBT_CHECK(m.h.getCount() == n, "count", "the count is ", m.h.getCount(), " after ", n, " values"); auto& cs = m.h.getCentroids();
  PBT_CHECK((int64_t)cs.size() <= m.most && m.h.getNumCentroids() == (int64_t)cs.size() && m.h.getMaxCentroids() == m.most, "size", cs.size(), " centroids of at most ", m.most); if (!n) return;
  double lo = m.all.begin()->first, hi = m.all.rbegin()->first, ulp = m.exact ? 0 : 1e-12 * (fabs(lo) + fabs(hi)); // a merged centroid can lie beyond the values by rounding, and reach the extrema with a further merge
  PBT_CHECK(fabs(m.h.getMin() - lo) <= ulp, "min", "the minimum is ", m.h.getMin(), " instead of ", lo); PBT_CHECK(fabs(m.h.getMax() - hi) <= ulp, "max", "the maximum is ", m.h.getMax(), " instead of ", hi); lo = m.h.getMin(); hi = m.h.getMax();
  int64_t sum = 0; LD total = 0, wanted = 0, mag = 0; for (auto& e : m.all) { wanted += (LD)e.first * e.second; mag += fabsl((LD)e.first) * e.second; }
  for (size_t i = 0; i < cs.size(); i++) { sum += cs[i].getCount(); total += (LD)cs[i].getValue() * cs[i].getCount(); PBT_CHECK(cs[i].getCount() > 0, "centroid", "a centroid with count ", cs[i].getCount()); PBT_CHECK(i == 0 || cs[i - 1].getValue() <= cs[i].getValue(), "order", "centroids out of order: ", cs[i - 1].getValue(), " before ", cs[i].getValue()); PBT_CHECK(cs[i].getValue() >= lo - 1e-9 * fabs(lo) && cs[i].getValue() <= hi + 1e-9 * fabs(hi), "centroid", "a centroid at ", cs[i].getValue(), " outside ", lo, " to ", hi); }
  PBT_CHECK(sum == n, "weight", "the centroids have weight ", sum, " of ", n); PBT_CHECK(fabsl(total - wanted) <= 1e-9L * (mag + 1), "mean", "the centroids sum to ", (double)total, " instead of ", (double)wanted);
  if ((int64_t)m.all.size() <= m.most && m.exact) { size_t i = 0; PBT_CHECK(cs.size() == m.all.size(), "exact", cs.size(), " centroids for ", m.all.size(), " values"); for (auto& e : m.all) { PBT_CHECK(cs[i].getValue() == e.first && cs[i].getCount() == e.second, "exact", "the centroid for ", e.first, " times ", e.second, " is ", cs[i].getValue(), " times ", cs[i].getCount()); i++; } } else { m.exact = false; g.nontrivial(); }
  // number of values up to p: exact while nothing was merged; always between the weights around p
  std::vector<double> ps{lo, hi, std::nextafter(lo, -INFINITY), std::nextafter(hi, INFINITY), lo - 1, hi + 1}; for (int k = 0; k < 6; k++) { ps.push_back(lo + (hi - lo) * frac(g)); auto it = m.all.begin(); std::advance(it, (long)g.draw(m.all.size() - 1)); ps.push_back(it->first); } for (auto& c : cs) ps.push_back(c.getValue());
  std::sort(ps.begin(), ps.end());
  for (auto p : ps) {
    double est = m.h.estimateNumValues(p); int64_t under = 0, upto = 0; for (size_t i = 0; i < cs.size(); i++) if (cs[i].getValue() <= p) { upto += cs[i].getCount(); under = upto - cs[i].getCount(); } size_t next = 0; while (next < cs.size() && cs[next].getValue() <= p) next++;
    int64_t ceiling = upto + (next < cs.size() ? cs[next].getCount() : 0); PBT_CHECK(est >= (double)under - 1e-6 * (double)n && est <= (double)ceiling + 1e-6 * (double)n, "estimate", est, " of ", n, " values are up to ", p, ", with centroids of weight ", under, " before and ", ceiling, " after");
    if (p >= hi) PBT_CHECK(est == (double)n, "estimate", est, " of ", n, " values are up to ", p, " above the maximum"); if (p < lo) PBT_CHECK(est == 0, "estimate", est, " values are below the minimum");
    if (m.exact) { int64_t want = 0; for (auto& e : m.all) if (e.first <= p) want += e.second; PBT_CHECK(est == (double)want, "estimate-exact", est, " values are up to ", p, " and there are ", want); }
    else if (p >= lo && p < hi) { // the trapezoids of the paper, except next to a centroid that is exact
      double pi = next ? cs[next - 1].getValue() : lo, mi = next ? (double)cs[next - 1].getCount() : 0, pj = next < cs.size() ? cs[next].getValue() : hi, mj = next < cs.size() ? (double)cs[next].getCount() : 0; bool ei = !next || cs[next - 1].isExact(), ej = next == cs.size() || cs[next].isExact();
      double before = next ? (double)under : 0; if (ei && (ej || pi == p)) PBT_CHECK(est == before + mi, "estimate", est, " values are up to ", p, " next to an exact centroid, expected ", before + mi);
      else { double x = (p - pi) / (pj - pi), want = before + mi / 2 + x * mi + x * x * (mj - mi) / 2; PBT_CHECK(fabs(est - want) <= 1e-6 * ((double)n + 1), "estimate", est, " values are up to ", p, ", the trapezoid gives ", want); }
    }
  }
  // quantiles
  double last = lo; std::vector<double> qs{0, 1, 0.5}; for (int k = 0; k < 8; k++) qs.push_back(frac(g)); std::sort(qs.begin(), qs.end()); double slack = 1e-9 * (fabs(lo) + fabs(hi));
  for (auto q : qs) {
    double v = m.h.quantile(q); PBT_CHECK(v >= lo - slack && v <= hi + slack, "quantile", "quantile ", q, " is ", v, " outside ", lo, " to ", hi); PBT_CHECK(v >= last - slack - 1e-7 * (hi - lo), "quantile", "quantile ", q, " is ", v, " below that of a smaller fraction, ", last); last = std::max(last, v);
    double t = q * (double)n, c = 0; size_t i = 0; for (; i < cs.size(); i++) { if (c + (double)cs[i].getCount() / 2 > t) break; c += (double)cs[i].getCount(); } // cs[i] is the first whose middle lies beyond t
    double pi = i ? cs[i - 1].getValue() : lo, pj = i < cs.size() ? cs[i].getValue() : hi, mi = i ? (double)cs[i - 1].getCount() : 0, mj = i < cs.size() ? (double)cs[i].getCount() : 0; bool ei = !i || cs[i - 1].isExact(), ej = i == cs.size() || cs[i].isExact();
    bool close = false; { double cc = 0; for (auto& e : cs) { if (fabs(cc + (double)e.getCount() / 2 - t) < 1e-6 * (1 + t)) close = true; cc += (double)e.getCount(); } } if (close) continue;
    if (ei && ej) PBT_CHECK(v == pj, "quantile", "quantile ", q, " between exact values ", pi, " and ", pj, " is ", v); else { double d = t - (c - mi / 2), x = pj > pi ? (v - pi) / (pj - pi) : 0; PBT_CHECK(v >= pi - slack && v <= pj + slack, "quantile", "quantile ", q, " is ", v, " outside ", pi, " to ", pj); if (pj > pi) PBT_CHECK(fabs(mi * x + x * x * (mj - mi) / 2 - d) <= 1e-5 * (1 + (double)n) + 1e-7 * (mi + mj) * slack / (pj - pi), "quantile", "quantile ", q, " is ", v, ", where the weight is off by ", mi * x + x * x * (mj - mi) / 2 - d); }
  }
  if (m.exact && hi > lo) { int nb = 1 + (int)g.draw(9); auto b = m.h.computeFixedBuckets(nb); int64_t s = 0; for (auto x : b) { s += x; PBT_CHECK(x >= 0, "buckets", "a bucket with ", x, " values"); } PBT_CHECK((int)b.size() == nb && s == n, "buckets", nb, " buckets hold ", s, " of ", n, " values");
    int64_t cum = 0; for (int i = 0; i < nb; i++) { cum += b[(size_t)i]; double edge = i + 1 == nb ? hi : lo + (hi - lo) / nb * (i + 1); int64_t want = 0; for (auto& e : m.all) if (e.first <= edge) want += e.second; PBT_CHECK(cum == want, "buckets", "the first ", i + 1, " of ", nb, " buckets hold ", cum, " values and should hold ", want); } }
}
// moments in any order
struct Direct { LD n = 0, sum = 0, mean = 0, m2 = 0, m3 = 0, m4 = 0, min = 0, max = 0, mag = 0; };
Direct direct(std::vector<double> const& v) { Direct d; d.n = (LD)v.size(); d.min = d.max = v[0]; for (auto x : v) { d.sum += x; d.min = std::min(d.min, (LD)x); d.max = std::max(d.max, (LD)x); d.mag = std::max(d.mag, fabsl(x)); } d.mean = d.sum / d.n; for (auto x : v) { LD e = x - d.mean; d.m2 += e * e; d.m3 += e * e * e; d.m4 += e * e * e * e; } return d; }
bool near(LD a, LD b, LD scale) { return fabsl(a - b) <= 1e-9L * (scale + 1e-300L) + 1e-7L * fabsl(b); }
template <typename T, typename F> T fold(pbt::Gen& g, std::vector<T> parts, F op) { int shape = (int)g.draw(2); while (parts.size() > 1) { size_t i = shape == 0 ? 0 : shape == 1 ? parts.size() - 2 : (size_t)g.draw(parts.size() - 2); parts[i] = op(parts[i], parts[i + 1]); parts.erase(parts.begin() + (long)i + 1); } return parts[0]; }
template <typename T> T copied(T& t) { auto s = checkpoint::serialize(t); T out{}; checkpoint::deserializeInPlace<T>(s->getBuffer(), &out); return out; }
}
PBT_TARGET(histogram, InProc, 80000, 2000000) {
  std::vector<HistModel> hs; size_t k = 1 + g.draw(3); for (size_t i = 0; i < k; i++) { int64_t most = 1 + (int64_t)g.draw(11) + (g.chance(1, 6) ? 30 : 0); hs.push_back({Hist(most), most, {}, {}, true}); } int style = (int)g.draw(4); size_t steps = 1 + g.size(25);
  for (size_t s = 0; s < steps; s++) {
    auto& h = hs[g.draw(k - 1)]; int op = (int)g.draw(9);
    if (op < 6) { size_t n = g.size(12); for (size_t i = 0; i < n; i++) { double v = value(g, style); int64_t times = g.chance(1, 4) ? 1 + (int64_t)g.draw(g.chance(1, 4) ? 1000000 : 6) : 1; if (times == 1) h.h.add(v); else h.h.add(v, times); h.all[v] += times; if ((int64_t)h.all.size() > h.most) h.exact = false; g.note(pbt::cat("add ", v, "x", times, " to ", &h - &hs[0], "; ")); } }
    else if (op < 8 && k > 1) { size_t o = g.draw(k - 1); if (&hs[o] == &h) continue; g.note(pbt::cat("merge ", o, " into ", &h - &hs[0])); h.h.mergeIn(hs[o].h); for (auto& e : hs[o].all) h.all[e.first] += e.second; h.exact &= hs[o].exact; if ((int64_t)h.all.size() > h.most) h.exact = false; }
    else if (op == 8) { h.h = copied(h.h); }
    if (g.chance(1, 4)) judge(g, h);
  }
  for (auto& h : hs) judge(g, h);
}
PBT_TARGET(regression, InProc, 40000, 1000000) {
  std::vector<double> x, y; size_t n = 2 + g.size(30); int style = (int)g.draw(2); double a = (double)g.range(-50, 50) / 4, b = (double)g.range(-50, 50) / 4;
  for (size_t i = 0; i < n; i++) { x.push_back(style == 0 ? (double)i : (double)g.range(-64, 64) / 4); y.push_back(style == 1 ? a * x.back() + b : (double)g.range(-4000, 4000) / 16); } bool distinct = false; for (auto v : x) distinct |= v != x[0]; if (!distinct) throw pbt::Discard{}; if (n > 2) g.nontrivial();
  LD mx = 0, my = 0; for (size_t i = 0; i < n; i++) { mx += x[i]; my += y[i]; } mx /= (LD)n; my /= (LD)n; LD sxy = 0, sxx = 0; for (size_t i = 0; i < n; i++) { sxy += (x[i] - mx) * (y[i] - my); sxx += (x[i] - mx) * (x[i] - mx); } LD slope = sxy / sxx, icept = my - slope * mx;
  util::stats::LinearRegression r(x, y); double at = (double)g.range(-100, 100) / 3; bool lazy = g.coin(); if (!lazy) r.compute(); double p = r.predict(at); LD want = icept + slope * at; LD tol = 1e-7L * (1 + fabsl(slope) * 200 + fabsl(icept));
  g.note(pbt::cat(n, " points, predict at ", at)); PBT_CHECK(fabsl(p - want) <= tol, "prediction", "predicts ", p, " at ", at, " instead of ", (double)want); PBT_CHECK(fabsl(r.getSlope() - slope) <= tol && fabsl(r.getIntercept() - icept) <= tol, "line", "the line is ", r.getIntercept(), " + ", r.getSlope(), " x instead of ", (double)icept, " + ", (double)slope, " x");
}
namespace {
struct Item { std::string s; int v = 0; Item() = default; Item(std::string a, int b) : s(std::move(a)), v(b) {} bool operator==(Item const& o) const { return s == o.s && v == o.v; } template <typename S> void serialize(S& z) { z | s | v; } };
template <int cap> void ring(pbt::Gen& g) {
  auto b = std::make_unique<util::container::CircularBuffer<Item, cap>>(); std::deque<Item> m; size_t steps = 1 + g.size(60), total = 0;
  for (size_t i = 0; i < steps; i++) {
    if (!b->full() && g.chance(3, 5)) { Item it(std::string(g.draw(40), (char)('a' + i % 26)), (int)i); switch (g.draw(2)) { case 0: b->push(it); break; case 1: b->push(Item(it)); break; default: b->emplace(it.s, it.v); } m.push_back(it); total++; g.note("push"); }
    else if (!m.empty()) { g.note("pop"); auto it = b->pop(); PBT_CHECK(it == m.front(), "queue", "popped item ", it.v, " instead of ", m.front().v); m.pop_front(); }
    PBT_CHECK(b->size() == (int)m.size() && b->empty() == m.empty() && b->full() == (m.size() == cap - 1) && b->numFree() == cap - 1 - (int)m.size(), "size", "size ", b->size(), ", ", b->numFree(), " free with ", m.size(), " of ", cap - 1, " items");
  }
  while (!m.empty()) { auto it = b->pop(); PBT_CHECK(it == m.front(), "queue", "popped item ", it.v, " instead of ", m.front().v); m.pop_front(); } PBT_CHECK(b->empty(), "queue", "not empty at the end"); if (total > cap) g.nontrivial();
}
}
PBT_TARGET(circular_buffer, InProc, 40000, 1000000) { switch (g.draw(4)) { case 0: ring<2>(g); break; case 1: ring<3>(g); break; case 2: ring<4>(g); break; case 3: ring<5>(g); break; default: ring<9>(g); } }
PBT_TARGET(ranged_counter, InProc, 2000, 20000) {
  int lo = (int)g.range(-5, 5), hi = lo + (int)g.draw(6); adt::RangedCounter<int> c(lo, hi); int64_t m = 0, n = hi - lo + 1; auto at = [&] { return lo + (int)((m % n + n) % n); }; size_t steps = g.size(30); if (steps > 3) g.nontrivial(); g.note(pbt::cat(lo, " to ", hi));
  for (size_t i = 0; i < steps; i++) { int before = at(), got = 0; switch (g.draw(5)) { case 0: got = c++; m++; PBT_CHECK(got == before, "post", got); break; case 1: got = ++c; m++; PBT_CHECK(got == at(), "pre", got); break; case 2: got = c--; m--; PBT_CHECK(got == before, "post", got); break; case 3: got = --c; m--; PBT_CHECK(got == at(), "pre", got); break; case 4: c.increment(); m++; break; default: c.decrement(); m--; } PBT_CHECK(c.get() == at() && (int)c == at(), "value", "the counter is ", c.get(), " instead of ", at()); }
}
PBT_TARGET(load_statistics, InProc, 50000, 1200000) {
  using vrt::collection::balance::LoadData; std::vector<double> v; size_t n = 1 + g.size(g.chance(1, 6) ? 599 : 24); int style = (int)g.draw(3); bool positive = g.chance(3, 4); bool rep = g.chance(1, 5); double c = value(g, style);
  for (size_t i = 0; i < n; i++) { double x = rep ? c : value(g, style); v.push_back(positive ? std::fabs(x) : x); } std::vector<LoadData> parts; auto st = g.coin() ? vrt::collection::lb::Statistic::Rank_load_modeled : vrt::collection::lb::Statistic::Object_load_raw; for (auto x : v) parts.emplace_back(st, x);
  if (n > 2) g.nontrivial(); g.note(pbt::cat(n, " values of style ", style)); auto r = fold(g, parts, [](LoadData a, LoadData const& b) { return a + b; }); auto d = direct(v); LD s = d.max - d.min + 1e-6L * d.mag;
  PBT_CHECK(r.N_ == (int)n && r.stat_ == st, "count", r.N_, " of ", n); PBT_CHECK(r.max() == (double)d.max && r.min() == (double)d.min, "extrema", r.min(), " to ", r.max(), " instead of ", (double)d.min, " to ", (double)d.max); int p = 0; for (auto x : v) p += x != 0; PBT_CHECK(r.npr() == p, "present", r.npr(), " non-zero values of ", p);
  PBT_CHECK(near(r.sum(), d.sum, d.mag * d.n), "sum", r.sum(), " instead of ", (double)d.sum); PBT_CHECK(near(r.avg(), d.mean, d.mag), "mean", r.avg(), " instead of ", (double)d.mean);
  LD var = d.m2 / d.n; LD e2 = s * s * 10 + d.mag * d.mag * 1e-5L; PBT_CHECK(fabsl(r.var() - var) <= 1e-6L * var + 1e-9L * e2, "variance", r.var(), " instead of ", (double)var); PBT_CHECK(r.stdv() == std::sqrt(r.var()), "deviation", r.stdv());
  if (n > 1 && var > 1e-6L * d.mag * d.mag && var > 1e-20L) { LD u = d.m2 / (d.n - 1), skew = d.m3 / d.n / powl(u, 1.5L), krte = d.m4 / d.n / (u * u) - 3; PBT_CHECK(fabsl(r.skew() - skew) <= 1e-6L * (1 + fabsl(skew)) , "skew", r.skew(), " instead of ", (double)skew); PBT_CHECK(fabsl(r.krte() - krte) <= 1e-6L * (1 + fabsl(krte)), "kurtosis", r.krte(), " instead of ", (double)krte); }
  if (n == 1) PBT_CHECK(r.skew() == 0 && r.krte() == 0 && r.var() == 0, "single", "moments of a single value are not zero"); if (d.mean > 1e-9L * d.mag) PBT_CHECK(fabsl(r.I() - (d.max / d.mean - 1)) <= 1e-6L * (1 + d.max / d.mean), "imbalance", r.I(), " instead of ", (double)(d.max / d.mean - 1)); else if (d.mean < -1e-9L * d.mag || d.mag == 0) PBT_CHECK(r.I() == 0, "imbalance", r.I(), " for a mean of ", (double)d.mean);
}
// values a component counts, and their reduction over ranks
PBT_TARGET(diagnostics, InProc, 12000, 300000) {
  using namespace runtime::component; using namespace runtime::component::detail; auto rule = (DiagnosticUpdate)g.draw(4); size_t ranks = 1 + g.size(20); int style = (int)g.draw(2); bool integer = g.coin(); g.note(pbt::cat("rule ", (int)rule, " on ", ranks, " ranks")); if (ranks > 2) g.nontrivial();
  auto go = [&](auto zero) {
    using T = decltype(zero); using W = DiagnosticValueWrapper<T>; std::vector<W> parts; std::vector<double> weighted; LD sum = 0; bool any = false; T lo = std::numeric_limits<T>::max(), hi = std::numeric_limits<T>::lowest(); size_t N = 0; std::vector<T> used;
    T init = rule == DiagnosticUpdate::Min ? std::numeric_limits<T>::max() : rule == DiagnosticUpdate::Max ? std::numeric_limits<T>::lowest() : T{0};
    for (size_t r = 0; r < ranks; r++) {
      DiagnosticSnapshotValues<T> s(2, init); T cur = init; size_t n = g.chance(1, 4) ? 0 : g.chance(1, 12) ? 60000 : 1 + g.draw(5); size_t cnt = 0; T run = init;
      if (n == 60000) { T x = (T)value(g, style); for (size_t i = 0; i < n; i++) { s.update(x, rule); } cnt = n; cur = rule == DiagnosticUpdate::Sum || rule == DiagnosticUpdate::Avg ? T(0) : x; if (rule == DiagnosticUpdate::Sum || rule == DiagnosticUpdate::Avg) for (size_t i = 0; i < n; i++) cur += x; }
      else for (size_t i = 0; i < n; i++) {
        T x = (T)value(g, style); s.update(x, rule); cnt++; cur = rule == DiagnosticUpdate::Replace ? x : rule == DiagnosticUpdate::Min ? std::min(cur, x) : rule == DiagnosticUpdate::Max ? std::max(cur, x) : cur + x; 
      }
      for (int k = 0; k < 2; k++) { PBT_CHECK(s[k].isUpdated() == (cnt > 0), "updated", "isUpdated() is ", s[k].isUpdated(), " after ", cnt, " updates"); T want = rule == DiagnosticUpdate::Avg && cnt ? T(cur / (T)cnt) : cur; PBT_CHECK(s[k].getRawValue() == cur && s[k].getComputedValue() == want, "value", "the value is ", (double)s[k].getComputedValue(), " instead of ", (double)want, " after ", cnt, " updates"); }
      T v = s[0].getComputedValue(); size_t c = rule == DiagnosticUpdate::Avg ? s[0].getN() : s[0].isUpdated() ? 1 : 0; PBT_CHECK(c == (rule == DiagnosticUpdate::Avg ? cnt : cnt > 0), "count", c, " of ", cnt, " updates"); parts.emplace_back(typename W::ReduceTag{}, v, s[0].isUpdated(), c); if (g.coin()) parts.back() = copied(parts.back());
      if (cnt) { any = true; lo = std::min(lo, v); hi = std::max(hi, v); sum += (LD)v; N += c; used.push_back(v); for (size_t i = 0; i < c; i += c > 1000 ? c / 4 : 1) weighted.push_back((double)v); }
      s.reset(0); PBT_CHECK(!s[0].isUpdated() && s[0].getRawValue() == init && s[0].getN() == 0 && s[1].isUpdated() == (cnt > 0), "reset", "a snapshot is not reset, or the other one is");
    }
    std::vector<std::pair<LD, LD>> w; { for (auto& p : parts) if (p.getN()) w.push_back({(LD)p.getRawValue(), (LD)p.getN()}); }
    auto r = fold(g, parts, [](W a, W const& b) { return a + b; }); PBT_CHECK(r.getN() == N, "count", r.getN(), " of ", N);
    if (!any) { PBT_CHECK(r.avg() == 0 && r.stdv() == 0 && r.min() == T{0} && r.max() == T{0} && r.sum() == T{0}, "empty", "statistics of no value are not zero"); return; }
    PBT_CHECK(r.min() == lo && r.max() == hi, "extrema", (double)r.min(), " to ", (double)r.max(), " instead of ", (double)lo, " to ", (double)hi); LD mag = std::max(fabsl((LD)lo), fabsl((LD)hi)); PBT_CHECK(fabsl((LD)r.sum() - sum) <= 1e-9L * (mag * ranks + 1), "sum", (double)r.sum(), " instead of ", (double)sum);
    LD n = 0, m = 0, m2 = 0; for (auto& [x, k] : w) { n += k; m += x * k; } m /= n; for (auto& [x, k] : w) m2 += (x - m) * (x - m) * k; PBT_CHECK(fabsl(r.avg() - m) <= 1e-9L * (mag + 1), "mean", r.avg(), " instead of ", (double)m); PBT_CHECK(fabsl(r.var() - m2 / n) <= 1e-6L * (m2 / n) + 1e-9L * mag * mag, "variance", r.var(), " instead of ", (double)(m2 / n)); PBT_CHECK(r.stdv() == std::sqrt(r.var()), "deviation", r.stdv());
    PBT_CHECK(r.getHistogram().getCount() == (int64_t)ranks, "histogram", "the histogram has ", r.getHistogram().getCount(), " values for ", ranks, " ranks"); auto e = DiagnosticEraser<T>::get(r); PBT_CHECK(std::get<T>(e.min_) == lo && std::get<T>(e.max_) == hi && std::get<T>(e.sum_) == r.sum() && e.avg_ == r.avg() && e.std_ == r.stdv(), "erased", "the erased value differs");
  };
  if (integer) go(int64_t{0}); else go(double{0});
}

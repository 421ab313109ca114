// variant: san
// sources: vt/group/region/group_range.cc vt/group/region/group_list.cc vt/group/region/group_shallow_list.cc vt/group/region/group_region.cc
// C22: regions of ranks behave as sets of ranks
#include "common/standalone.h"
#include <vt/group/region/group_range.h>
#include <vt/group/region/group_list.h>
#include <vt/group/region/group_shallow_list.h>
#include <set>
PBT_RULE("A case builds a range (any bounds and stride), list or shallow list of ranks and applies up to 12 operations (copy, tail, removal of leading ranks, split, splitN, sort, list conversion), following every resulting region; size, head, membership, list form of each are compared with the ordered set of ranks it denotes. Non-trivial: at least 2 ranks and one splitting, tail or removal.");
using namespace vt; using namespace vt::group;
namespace {
using Ptr = region::Region::RegionUPtrType;
enum K { RANGE, LIST, SHALLOW };
struct R { Ptr p; std::vector<int> v; K k; bool set_only; }; // set_only: order not promised (sorted)
std::string str(std::vector<int> const& v) { std::string s = "{"; for (int x : v) s += pbt::cat(x, ","); return s + "}"; }
void check(pbt::Gen& g, R& r, std::string const& what) {
  PBT_CHECK(r.p->getSize() == r.v.size(), "size", what, " has size ", r.p->getSize(), ", it denotes ", str(r.v));
  std::set<int> s(r.v.begin(), r.v.end());
  for (int x = -3; x < 70; x++) PBT_CHECK(r.p->contains((NodeType)x) == (bool)s.count(x), "membership", what, " contains(", x, ") is ", r.p->contains((NodeType)x), ", it denotes ", str(r.v));
  PBT_CHECK(r.p->isList() == (r.k != RANGE), "kind", what, " isList is ", r.p->isList());
  if (!r.v.empty()) PBT_CHECK((int)r.p->head() == r.v[0], "head", what, " head is ", r.p->head(), ", it denotes ", str(r.v));
}
} // namespace
PBT_TARGET(regions, InProc, 60000, 2000000) {
  std::vector<R> pool; std::vector<std::unique_ptr<std::vector<NodeType>>> backing;
  R r; int kind = (int)g.draw(2); r.k = (K)kind; r.set_only = false;
  if (kind == RANGE) {
    int lo = (int)g.range(0, 20), stride = (int)g.range(1, 6), hi = lo + (int)g.range(0, 40);
    if (g.coin()) r.p = std::make_unique<region::Range>((NodeType)lo, (NodeType)hi, (NodeType)stride);
    else { region::Range x((NodeType)lo, (NodeType)hi, (NodeType)stride); region::RangeData d(x); r.p = std::make_unique<region::Range>(d.getRange()); }
    for (int i = lo; i < hi; i += stride) r.v.push_back(i);
    g.note("range [", lo, ",", hi, ") stride ", stride); g.label(stride > 1 ? "strided range" : "range");
  } else {
    auto b = std::make_unique<std::vector<NodeType>>();
    std::vector<int> all = g.perm(24); size_t n = g.draw(20); bool sorted = g.coin();
    all.resize(n); for (auto& x : all) x = x * 2 + (int)g.draw(1);
    if (sorted) std::sort(all.begin(), all.end());
    for (int x : all) b->push_back((NodeType)x);
    r.v = all;
    if (kind == LIST) {
      if (g.coin()) r.p = std::make_unique<region::List>(*b); else r.p = std::make_unique<region::List>(b->data(), b->size(), sorted);
    } else { if (g.coin()) r.p = std::make_unique<region::ShallowList>(*b); else r.p = std::make_unique<region::ShallowList>(b->data(), b->size()); }
    backing.push_back(std::move(b)); g.note(kind == LIST ? "list " : "shallow list ", str(r.v)); g.label(kind == LIST ? "list" : "shallow list");
  }
  check(g, r, "the region"); pool.push_back(std::move(r));
  size_t ops = 1 + g.size(12);
  for (size_t k = 0; k < ops && pool.size() < 40; k++) {
    size_t i = g.draw(pool.size() - 1); R& c = pool[i]; size_t n = c.v.size();
    std::vector<R> out; std::string what;
    auto sub = [&](Ptr p, size_t a, size_t b) { out.push_back(R{std::move(p), std::vector<int>(c.v.begin() + (long)a, c.v.begin() + (long)b), c.k, c.set_only}); };
    switch (g.draw(6)) {
      case 0: what = pbt::cat("copy of #", i); sub(c.p->copy(), 0, n); if (c.k == SHALLOW) out.back().k = LIST; break;
      case 1: if (!n) continue; what = pbt::cat("tail of #", i); sub(c.p->tail(), 1, n); g.nontrivial(n > 1); break;
      case 2: { if (n < 2) continue; what = pbt::cat("half of #", i); auto t = c.p->split();
        size_t m = std::get<0>(t)->getSize();
        PBT_CHECK(m >= 1 && m < n, "split", what, ": first half has ", m, " of ", n, " ranks");
        PBT_CHECK(2 * m + 1 >= n && 2 * m <= n + 1, "split balance", what, ": first half has ", m, " of ", n, " ranks");
        sub(std::move(std::get<0>(t)), 0, m); sub(std::move(std::get<1>(t)), m, n); g.nontrivial(); g.label("split"); break; }
      case 3: { int parts = (int)g.range(1, 9); what = pbt::cat("part of splitN(", parts, ") of #", i); size_t at = 0, calls = 0;
        c.p->splitN(parts, [&](Ptr p) {
          size_t m = p->getSize(); calls++;
          PBT_CHECK(m >= 1 && at + m <= n, "splitN", what, ": part ", calls, " has ", m, " ranks after ", at, " of ", n);
          // no part more than the even share, but for the last one, which takes the rest
          size_t share = n / std::min<size_t>((size_t)parts, n);
          PBT_CHECK(m == share || calls == std::min<size_t>((size_t)parts, n), "splitN balance", what, ": part ", calls, " has ", m, " of ", n, " ranks");
          sub(std::move(p), at, at + m); at += m; });
        PBT_CHECK(at == n && calls == std::min<size_t>((size_t)parts, n), "splitN", what, ": ", calls, " parts cover ", at, " of ", n, " ranks: ", str(c.v));
        g.nontrivial(n > 1); g.label("splitN"); break; }
      case 4: { size_t m = g.draw(n); what = pbt::cat("#", i, " without its first ", m);
        if (auto* q = dynamic_cast<region::Range*>(c.p.get())) sub(std::make_unique<region::Range>(*q, (NodeType)m), m, n);
        else if (auto* l = dynamic_cast<region::List*>(c.p.get())) sub(std::make_unique<region::List>(*l, (NodeType)m), m, n);
        else continue;
        g.nontrivial(m > 0 && n > 1); break; }
      case 5: if (c.k == SHALLOW) continue; what = pbt::cat("#", i, " sorted"); c.p->sort(); if (c.k == LIST) std::sort(c.v.begin(), c.v.end()); check(g, c, what); break;
      case 6: { if (c.k == SHALLOW) continue; what = pbt::cat("#", i, " as list"); auto const& l = c.p->makeList(); std::vector<int> got(l.begin(), l.end());
        PBT_CHECK(got == c.v, "list", what, " is ", str(got), ", expected ", str(c.v));
        PBT_CHECK(region::ListHash{}(l) == region::ListHash{}(c.p->makeList()), "hash", what); check(g, c, what); g.label("makeList"); break; }
    }
    g.note("; ", what);
    for (auto& o : out) { check(g, o, what); pool.push_back(std::move(o)); }
  }
  for (auto& p : pool) check(g, p, "in the end, a region");
}

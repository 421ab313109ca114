// variant: san
// sources: vt/pool/pool.cc vt/pool/header/pool_header.cc
// C30: memory from the pool is exclusive, sized as asked and reusable
#include "common/standalone.h"
#include <vt/pool/pool.h>
#include <vt/pool/static_sized/memory_pool_equal.impl.h>
#include <map>
PBT_RULE("A case is a history of up to 400 steps (allocate with extra bytes, grow in place, write, release, burst) on a fresh pool; every live block carries a pattern over all its bytes that is checked on each touch and at the end. Non-trivial: blocks of at least two size classes, or a block grown in place, and at least one release before an allocation.");
using namespace vt;
namespace {
struct Block { std::byte* p; size_t req, over, grown; uint32_t tag; size_t size() const { return req + over + grown; } };
std::byte pat(uint32_t tag, size_t i) { return (std::byte)(uint8_t)((tag * 2654435761u + i * 97u) >> 7); }
void fill(Block& b) { for (size_t i = 0; i < b.size(); i++) b.p[i] = pat(b.tag, i); }
void intact(Block const& b, char const* when) {
  for (size_t i = 0; i < b.size(); i++) PBT_CHECK(b.p[i] == pat(b.tag, i), "content", when, ": byte ", i, " of a block of ", b.req, "+", b.over, " bytes (grown by ", b.grown, ") was changed by something else");
}
} // namespace
PBT_TARGET(history, InProc, 6000, 200000) {
  pool::Pool pool; std::vector<Block> live; std::map<std::byte*, size_t> at; // start -> end
  std::map<std::byte*, int> used; size_t peak = 0; uint32_t next = 1; bool released = false; std::set<int> classes;
  auto alloc = [&](size_t n, size_t over) {
    Block b{pool.alloc(n, over), n, over, 0, next++};
    PBT_CHECK(b.p, "alloc", "no memory for ", n, "+", over, " bytes");
    PBT_CHECK(((uintptr_t)b.p & 15) == 0, "alignment", "block of ", n, "+", over, " bytes at ", (void*)b.p);
    PBT_CHECK(pool.allocatedSize(b.p) == n + over, "allocated size", "block of ", n, "+", over, " bytes reports ", pool.allocatedSize(b.p));
    auto it = at.upper_bound(b.p + n + over);
    if (it != at.begin()) { auto q = std::prev(it); PBT_CHECK(q->second <= (size_t)b.p || (size_t)q->first >= (size_t)b.p + n + over, "overlap", "a block of ", n, "+", over, " bytes overlaps a live one"); }
    PBT_CHECK(!at.count(b.p), "overlap", "a live block was handed out again");
    at[b.p] = (size_t)b.p + n + over; fill(b);
    auto t = pool.getPoolType(n, over); classes.insert((int)t); if (t != pool::Pool::ePoolSize::Malloc) used[b.p]++;
    live.push_back(b); peak = std::max(peak, live.size()); if (released) g.nontrivial(classes.size() > 1);
    g.label(t == pool::Pool::ePoolSize::Small ? "small" : t == pool::Pool::ePoolSize::Medium ? "medium" : "malloc");
  };
  auto drop = [&](size_t i) {
    Block b = live[i]; intact(b, "at release");
    PBT_CHECK(pool.allocatedSize(b.p) == b.size(), "allocated size", "at release a block of ", b.req, "+", b.over, " bytes grown by ", b.grown, " reports ", pool.allocatedSize(b.p));
    at.erase(b.p); live[i] = live.back(); live.pop_back(); pool.dealloc(b.p); released = true;
  };
  auto pick_size = [&]() -> size_t {
    switch (g.weighted({4, 3, 2, 2, 1})) {
      case 0: return (size_t)g.range(0, 80);
      case 1: return (size_t)((int)pool::memory_size_small + g.range(0, 4) - 2);
      case 2: return (size_t)((int)pool::memory_size_medium + g.range(0, 4) - 2);
      case 3: return (size_t)g.range(60, 1100);
      default: return (size_t)g.range(1000, 9000);
    }
  };
  size_t ops = 1 + g.size(400);
  for (size_t k = 0; k < ops; k++) {
    switch (g.weighted({8, 6, 4, 1, 1})) {
      case 0: { size_t n = pick_size(), o = g.chance(1, 3) ? (g.coin() ? pick_size() : (size_t)g.range(0, 40)) : 0; g.note(" alloc(", n, "+", o, ")"); alloc(n, o); break; }
      case 1: if (live.empty()) break; { size_t i = g.draw(live.size() - 1); g.note(" free(#", live[i].tag, ")"); drop(i); } break;
      case 2: { if (live.empty()) break; Block& b = live[g.draw(live.size() - 1)];
        size_t rem = pool.remainingSize(b.p);
        size_t grow = g.chance(1, 3) ? rem : g.chance(1, 3) ? rem + (size_t)g.range(1, 50) : (size_t)g.range(0, 70);
        g.note(" grow(#", b.tag, " by ", grow, ", remaining ", rem, ")");
        bool ok = pool.tryGrowAllocation(b.p, grow);
        PBT_CHECK(ok == (grow <= rem), "grow", "growing by ", grow, " with ", rem, " bytes remaining returned ", ok);
        if (ok) {
          for (size_t i = 0; i < b.size(); i++) PBT_CHECK(b.p[i] == pat(b.tag, i), "content", "growing changed byte ", i);
          b.grown += grow; fill(b); g.nontrivial(grow > 0); g.label("grown");
          PBT_CHECK(pool.allocatedSize(b.p) == b.size(), "allocated size", "a block of ", b.req, "+", b.over, " bytes grown by ", b.grown, " reports ", pool.allocatedSize(b.p));
          PBT_CHECK(pool.remainingSize(b.p) == rem - grow, "remaining", "after growing by ", grow, " of ", rem, " bytes ", pool.remainingSize(b.p), " remain");
          auto nx = at.upper_bound(b.p); PBT_CHECK(nx == at.end() || (size_t)nx->first >= (size_t)b.p + b.size(), "overlap", "a grown block reaches into another");
          at[b.p] = (size_t)b.p + b.size();
        }
        break; }
      case 3: { size_t n = g.coin() ? (size_t)g.range(1, 64) : (size_t)g.range(100, 1000); size_t c = n <= 64 ? (size_t)g.range(1, 1500) : (size_t)g.range(1, 150); g.note(" burst(", c, " x ", n, ")");
        if (live.size() > 3000) break;
        for (size_t i = 0; i < c; i++) alloc(n, 0); g.label("burst"); break; }
      case 4: { g.note(" free most"); while (live.size() > 3) drop(live.size() * 7 / 11); break; }
    }
    if (!live.empty() && k % 4 == 0) intact(live[g.draw(live.size() - 1)], "while in use");
  }
  for (auto& b : live) intact(b, "at the end");
  while (!live.empty()) drop(live.size() - 1);
  PBT_CHECK(used.size() <= 4 * peak + 4096, "reuse", used.size(), " distinct blocks were handed out with never more than ", peak, " in use");
}

// variant: rt
// C04: reductions over ranks fold one contribution of every rank; barriers, scatters and continuations keep their promise
#include "common/rt.h"
#include "common/fold.h"
#include <map>
#include <set>
PBT_RULE("A case is up to 4 rounds over 1-12 simulated ranks, each with up to 8 overlapping reductions on the global and up to two further reducers (13 operator families, any root, sequence-numbered or user-stamped contributed in a different order per rank, argument, message/callback and multi-contribution forms, issued directly or by delayed work), mixed with barriers, named barriers, barrier continuations and scatters; non-trivial: at least two ranks and two operations.");
namespace {
using fold::digest;
enum Kind { Args, Stamped, MsgCb, Multi, Barrier, Named, Then, Scatter };
struct Op { int kind; fold::Red red; int root, reducer, stamp, contrib, arg; };
struct Round { std::vector<Op> ops; std::vector<std::vector<int>> order; std::vector<std::vector<int>> gap; };
struct Prog { int n = 1, reducers = 1, named = 3; std::vector<Round> rounds; } P;
fold::Log const rlog{0};                       // per rank
int64_t* sh(int i) { return sim::shared() + 6000 + i; }
std::vector<vt::collective::reduce::Reduce*> reds;

template <class... A> void done(A... a) { rlog.add(sim::rank(), digest(a...)); }
using VecMsg = vt::collective::ReduceTMsg<std::vector<int64_t>>;
void vec_done(VecMsg* m) { rlog.add(sim::rank(), digest(m->getVal())); }
int& scatter_words() { static int w = 1; return w; }
void scattered(int64_t* p) {
  int id = (int)p[0]; RT_CHECK(id >= 0 && id < 400, "scatter", "rank ", sim::rank(), " received a block with id ", id);
  int words = (int)p[1];
  for (int i = 2; i < words; i++) RT_CHECK(p[i] == (int64_t)id * 100000 + sim::rank() * 1000 + i, "scatter", "rank ", sim::rank(), " got word ", i, " of scatter ", id, " of another rank or scatter");
  (*sh(1000 + id * 16 + sim::rank()))++; sim::progress();
}

void give(Op& o) {
  auto* R = reds[(size_t)o.reducer]; int me = sim::rank();
  using Stamp = vt::collective::reduce::ReduceStamp; using namespace vt::collective::reduce::detail;
  Stamp st;
  switch (o.stamp % 3) { case 0: st = StrongUserID{(uint64_t)o.stamp}; break; case 1: st = TagPair{(vt::TagType)(o.stamp / 3), (vt::TagType)(o.stamp % 5 + 1)}; break; default: st = StrongTag{(vt::TagType)o.stamp}; }
  if (o.kind == MsgCb || o.kind == Multi) {
    auto cb = vt::theCB()->makeSend<&vec_done>((vt::NodeType)o.root);
    int k = o.kind == Multi ? o.contrib : 1;
    for (int j = 0; j < k; j++) fold::contribute(o.red, me * 8 + j, [&](auto F, auto... a) {
      if constexpr (decltype(F)::value == fold::PlusVec) {
        auto m = vt::makeMessage<VecMsg>(a...);
        if (o.kind == Multi) R->reduce<vt::collective::PlusOp<std::vector<int64_t>>>((vt::NodeType)o.root, m.get(), cb, st, k);
        else R->reduce<vt::collective::PlusOp<std::vector<int64_t>>>((vt::NodeType)o.root, m.get(), cb);
      }
    });
    return;
  }
  fold::contribute(o.red, me * 8, [&](auto F, auto... a) {
    constexpr int f = decltype(F)::value; vt::Node root{(vt::NodeType)o.root};
    if constexpr (f == fold::NoneF) { if (o.kind == Stamped) R->reduce<done<>>(root, st); else R->reduce<done<>>(root); }
    else if (o.kind == Stamped) R->reduce<done<decltype(a)...>, fold::OpOf<f>::template Op>(root, a..., st);
    else R->reduce<done<decltype(a)...>, fold::OpOf<f>::template Op>(root, a...);
  });
}

void body(int me) {
  reds.clear(); reds.push_back(vt::theCollective()->global());
  for (int i = 1; i < P.reducers; i++) reds.push_back(vt::theCollective()->makeReducerCollective());
  std::vector<vt::BarrierType> names; for (int i = 0; i < 3; i++) names.push_back(vt::theCollective()->newNamedCollectiveBarrier());
  { // names made by one rank and told to the others: as many as the case asks for, none of them twice
    for (int k = 0; k < P.named; k++) { auto b = vt::theCollective()->newNamedBarrier(); *sh(20000 + me * 64 + k) = (int64_t)b; }
    vt::theCollective()->barrier(); std::set<int64_t> seen; for (auto b : names) seen.insert((int64_t)b);
    for (int r = 0; r < P.n; r++) for (int k = 0; k < P.named; k++) RT_CHECK(seen.insert(*sh(20000 + r * 64 + k)).second, "barrier name", "rank ", r, " makes a name for barriers that is in use already: ", *sh(20000 + r * 64 + k));
    for (int k = 0; k < 3; k++) names.push_back((vt::BarrierType)*sh(20000 + (k * 5 % P.n) * 64 + P.named - 1 - k));
  }
  { // the spanning tree as every rank sees it
    struct T : vt::collective::tree::Tree { T() : Tree(vt::collective::tree::tree_cons_tag_t) {} } t;
    *sh(40 + me) = t.isRoot() ? -1 : t.getParent(); *sh(60 + me) = (int64_t)t.getNumDescendants();
    for (auto c : t.getChildren()) { RT_CHECK(c >= 0 && c < P.n, "tree", "child ", c); *sh(80 + c) = me + 1; }
  }
  std::map<int, std::vector<std::pair<uint64_t, int>>> want;
  int bid = 0, sid = 0;
  auto enter = [](int b) { (*sh(100 + b))++; };
  auto left = [&](int b, char const* what) { RT_CHECK(*sh(100 + b) == P.n, "barrier", "rank ", sim::rank(), " passed ", what, " ", b, " when only ", *sh(100 + b), " of ", P.n, " ranks had entered it"); };
  for (size_t k = 0; k < P.rounds.size(); k++) {
    Round& Q = P.rounds[k];
    std::vector<int> bids; for (auto& o : Q.ops) bids.push_back(o.kind == Scatter ? sid++ : o.kind >= Barrier ? bid++ : -1);
    vt::runInEpochCollective([&] {
      auto& ord = Q.order[(size_t)me];
      for (size_t i = 0; i < ord.size(); i++) {
        Op& o = Q.ops[(size_t)ord[i]]; int b = bids[(size_t)ord[i]];
        for (int s = 0; s < Q.gap[(size_t)me][i] % 6; s++) vt::theSched()->runSchedulerOnceImpl();
        switch (o.kind) {
          case Barrier: enter(b); vt::theCollective()->barrier(); left(b, "barrier"); break;
          case Named: enter(b); vt::theCollective()->barrier(nullptr, names[(size_t)o.arg]); left(b, "named barrier"); break;
          case Then: enter(b); vt::theCollective()->barrierThen([b, left] { left(b, "barrier continuation"); (*sh(400 + b * 16 + 0))++; sim::progress(); }); break;
          case Scatter: {
            if (o.root != me) break;
            size_t words = (size_t)o.arg + 2;
            vt::theCollective()->scatter<scattered>(words * 8 * (size_t)P.n, words * 8, nullptr, [&](vt::NodeType r, void* p) { auto* w = (int64_t*)p; w[0] = b; w[1] = (int64_t)words; for (size_t q = 2; q < words; q++) w[q] = (int64_t)b * 100000 + r * 1000 + (int64_t)q; });
            break;
          }
          default: give(o);
        }
      }
    });
    for (size_t i = 0; i < Q.ops.size(); i++) {
      Op& o = Q.ops[i];
      if (o.kind == Then) RT_CHECK(*sh(400 + bids[i] * 16) <= P.n, "barrier", "a continuation ran twice");
      if (o.kind == Scatter) for (int r = 0; r < P.n; r++) RT_CHECK(*sh(1000 + bids[i] * 16 + r) == 1, "scatter", "after its epoch scatter ", bids[i], " ran ", *sh(1000 + bids[i] * 16 + r), " times on rank ", r);
      if (o.kind >= Barrier) continue;
      std::vector<int> who; for (int r = 0; r < P.n; r++) for (int j = 0; j < (o.kind == Multi ? o.contrib : 1); j++) who.push_back(r * 8 + j);
      want[o.root].push_back({fold::expect(o.red, who), o.red.rid});
    }
    for (int r = 0; r < P.n; r++) rlog.check(r, want[r], "root rank");
    vt::theCollective()->barrier();
  }
  for (int i = 0; i < bid; i++) if (int64_t c = *sh(400 + i * 16)) RT_CHECK(c == P.n, "barrier", "continuation of barrier ", i, " ran on ", c, " of ", P.n, " ranks");
  for (auto& Q : P.rounds) { int b = 0; (void)b; for (auto& o : Q.ops) if (o.kind == Then) { } }
  for (int r = 0; r < P.n; r++) {
    RT_CHECK(r == 0 ? *sh(40) == -1 : *sh(80 + r) == *sh(40 + r) + 1, "tree", "rank ", r, " has parent ", *sh(40 + r), " but is a child of ", *sh(80 + r) - 1);
    int64_t d = 0; for (int c = 1; c < P.n; c++) { int a = c; for (int h = 0; a > 0 && h < 40; h++) { a = (int)*sh(40 + a); if (a == r) { d++; break; } } }
    RT_CHECK(d == *sh(60 + r), "tree", "rank ", r, " reports ", *sh(60 + r), " descendants, has ", d);
  }
}
} // namespace

PBT_TARGET(collectives, Isolated, 3000, 100000) {
  rt::Opt o; o.max_n = g.chance(1, 4) ? 12 : 7; auto c = rt::gen(g, o); int n = c.sim.n;
  P = Prog{}; P.n = n; P.reducers = (int)g.range(1, 3); P.named = (int)(g.chance(1, 4) ? g.range(3, 60) : 3);
  int nr = (int)g.range(1, 4), rid = 0, total = 0, stamp = 7;
  for (int k = 0; k < nr; k++) {
    Round Q; int m = (int)g.range(1, 8);
    for (int i = 0; i < m; i++) {
      Op p{}; p.kind = (int)g.weighted({6, 5, 2, 2, 2, 1, 2, 2}); p.root = (int)g.draw((uint64_t)n - 1); p.reducer = (int)g.draw((uint64_t)P.reducers - 1);
      p.red = fold::gen(g, rid++); p.stamp = stamp; stamp += (int)g.range(1, 9); p.contrib = (int)g.range(1, 5);
      if (p.kind == MsgCb || p.kind == Multi) p.red.fam = fold::PlusVec;
      p.arg = p.kind == Named ? (int)g.draw(5) : p.kind == Scatter ? (g.chance(1, 6) ? (int)g.range(100, 600) : (int)g.range(0, 8)) : 0;
      Q.ops.push_back(p); total++;
      g.label((char const*[]){"reduction", "stamped reduction", "message reduction with callback", "several contributions per rank", "barrier", "named barrier", "barrier continuation", "scatter"}[p.kind]);
      if (p.kind < Barrier) g.label(fold::fam_name[p.red.fam]);
    }
    // every rank: sequence-numbered operations and barriers in the common order, the stamped ones anywhere
    // between the barriers around them
    for (int r = 0; r < n; r++) {
      std::vector<int> ord, pend; auto flush = [&] { for (int x : pend) { size_t lo = 0; for (size_t j = 0; j < ord.size(); j++) if (Q.ops[(size_t)ord[j]].kind == Barrier || Q.ops[(size_t)ord[j]].kind == Named) lo = j + 1; ord.insert(ord.begin() + (long)(lo + g.draw(ord.size() - lo)), x); } pend.clear(); };
      for (int i = 0; i < m; i++) {
        int kd = Q.ops[(size_t)i].kind;
        if (kd == Stamped || kd == Multi || kd == Scatter) { pend.push_back(i); continue; }
        if (kd == Barrier || kd == Named) flush();
        ord.push_back(i);
      }
      flush(); Q.order.push_back(ord);
      std::vector<int> gp; for (int i = 0; i < m; i++) gp.push_back(g.chance(1, 3) ? (int)g.draw(5) : 0); Q.gap.push_back(gp);
    }
    P.rounds.push_back(Q);
    g.note("round ", k, "\n"); for (int i = 0; i < m; i++) { auto& p = Q.ops[(size_t)i]; g.note("  op", i, " kind=", p.kind, " ", p.kind < Barrier ? fold::fam_name[p.red.fam] : "", " root=", p.root, " reducer=", p.reducer, " stamp=", p.stamp, " contrib=", p.contrib, " arg=", p.arg, " len=", p.red.len, "\n"); }
    for (int r = 0; r < n; r++) { g.note("  rank ", r, ":"); for (int x : Q.order[(size_t)r]) g.note(" ", x); g.note("\n"); }
  }
  g.note(rt::show(c), "reducers=", P.reducers, "\n");
  g.nontrivial(n > 1 && total > 1);
  Prog Q = P;
  rt::run(g, c, [&](int me) { P = Q; body(me); });
}

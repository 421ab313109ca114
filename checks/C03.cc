// variant: rt
// C03: chain steps and dependent epochs impose exactly the order they declare
#include "common/rt.h"
#include <vt/messaging/collection_chain_set.h>
#include <vt/messaging/collection_chain_set.impl.h>
PBT_RULE("A case is up to 3 phases over 1-6 simulated ranks: chain sets (tracked where elements live or at home) over a collection of up to 8 elements that migrates between phases, advanced by rooted, collective and merged steps, and up to 4 chains per rank with steps, merges and resets, epochs declared dependent on others, and sends held back and released later; each step does a generated tree of messages among elements and ranks; non-trivial: at least two steps of which one waits for another. dependencies: a case is a graph of up to 7 collective and rooted epochs (of both detectors) with chains of messages, in which dependencies, work and ends come in any order in which an epoch is finished after its own; non-trivial: several ranks and an epoch that precedes two others of which one precedes the other.");
namespace {
enum To { Elm_, Rank_, Bcast_, Lam_ };
struct Nd { int unit = 0, to = 0, at = 0; bool first = false; std::vector<int> kids; };       // a piece of work
struct Unit { std::vector<int> pre; int total = 0; int root = -1; };                          // all work of one step (and element)
enum SKind { Rooted_, Coll_, Merge_ };
struct SStep { int kind = 0, set = 0; std::vector<int> unit; };                               // unit per element
enum CKind { Add, Merge, Dep, Held, Done, Query, Steps };
struct CStep { int kind = 0, a = 0, b = 0, u = -1, v = -1, n = 0; bool lazy = false; };
struct Phase { std::vector<SStep> steps; std::vector<std::vector<CStep>> chains; std::vector<std::vector<int>> pause; std::vector<std::pair<int, int>> moves; bool mid = false; };
struct Prog { int n = 1, K = 1, map = 0, sets = 1, layout[2] = {0, 0}; std::vector<Nd> nodes; std::vector<Unit> units; std::vector<Phase> phases; } P;
int64_t* ran(int nd) { return sim::shared() + nd; }                        // up to 6000
int64_t* done(int u) { return sim::shared() + 8000 + u; }                  // up to 3000
int64_t* fin(int u) { return sim::shared() + 12000 + u; }
struct E; using Proxy = vt::CollectionProxy<E, vt::Index1D>; Proxy px;
void at_rank(int nd);
void work(int nd);
vt::messaging::PendingSend emit(int nd);
void over(int u, char const* what, int by) { auto& U = P.units[(size_t)u]; RT_CHECK(*done(u) == U.total, "order", what, by, " while the work of unit ", u, " it waits for had run ", *done(u), " of ", U.total, " pieces"); }
struct E : vt::Collection<E, vt::Index1D> { int n = 0; bool moving = false;
  template <class S> void serialize(S& s) { vt::Collection<E, vt::Index1D>::serialize(s); s | n; moving = false; }
  void run(int nd) { RT_CHECK(P.nodes[(size_t)nd].to == Elm_ && P.nodes[(size_t)nd].at == this->getIndex().x(), "place", "piece ", nd, " ran on element ", this->getIndex().x()); n++; work(nd); }
  void mv(int to) { if (to != sim::rank() && !moving) { moving = true; this->migrate((vt::NodeType)to); } } };
void at_rank(int nd) { auto& N = P.nodes[(size_t)nd]; RT_CHECK(N.to == Bcast_ || (N.to == Rank_ && N.at == sim::rank()), "place", "piece ", nd, " ran on rank ", sim::rank()); work(nd); }
void work(int nd) {
  auto& N = P.nodes[(size_t)nd]; auto& U = P.units[(size_t)N.unit];
  if (N.first) for (int p : U.pre) over(p, "piece ", nd);
  ++*ran(nd); ++*done(N.unit); RT_CHECK(*ran(nd) <= (N.to == Bcast_ ? P.n : 1), "duplicate", "piece ", nd, " ran ", *ran(nd), " times");
  sim::progress(); if (N.to != Bcast_ || sim::rank() == N.at) for (int k : N.kids) emit(k);
}
vt::messaging::PendingSend emit(int nd) {
  auto& N = P.nodes[(size_t)nd];
  switch (N.to) {
    case Elm_: return px[vt::Index1D(N.at)].template send<&E::run>(nd);
    case Rank_: return vt::theMsg()->send<at_rank>(vt::Node{(vt::NodeType)N.at}, nd);
    case Bcast_: return vt::theMsg()->broadcast<at_rank>(nd);
    default: { auto ep = vt::theMsg()->getEpoch(); return vt::messaging::PendingSend{ep, [nd, ep] { vt::theMsg()->pushEpoch(ep); work(nd); vt::theMsg()->popEpoch(ep); }}; }
  }
}
using Set = vt::messaging::CollectionChainSet<vt::Index1D>; using Chain = vt::messaging::DependentSendChain;
vt::NodeType scat(vt::Index1D* i, vt::Index1D*, vt::NodeType n) { return (vt::NodeType)((i->x() * 7 + 3) % n); }
void spin(int k) { for (int i = 0; i < k; i++) vt::theSched()->runSchedulerOnceImpl(); }
void body(int me) {
  auto mk = vt::makeCollection<E>("c03"); mk.bounds(vt::Index1D(P.K)).bulkInsert(); if (P.map) mk.mapperFunc<scat>(); px = mk.wait();
  std::unique_ptr<Set> sets[2];
  vt::runInEpochCollective([&] { for (int i = 0; i < P.sets; i++) sets[i] = std::make_unique<Set>(px, P.layout[i] ? vt::messaging::Home : vt::messaging::Local); });
  vt::theCollective()->barrier();
  std::vector<int> where((size_t)P.K); for (int i = 0; i < P.K; i++) { vt::Index1D x(i), m(P.K); where[(size_t)i] = (int)vt::theCollection()->getMappedNode(px, x); (void)m; }
  auto home = where; std::vector<std::unique_ptr<Chain>> ch; for (int i = 0; i < 4; i++) ch.push_back(std::make_unique<Chain>());
  std::vector<int> last(4, -1);
  for (auto& ph : P.phases) {
    for (int i = 0; i < P.sets; i++) { std::set<int> have, want; for (auto& x : sets[i]->getSet()) have.insert((int)x.x()); for (int k = 0; k < P.K; k++) if ((P.layout[i] ? home : where)[(size_t)k] == me) want.insert(k);
      RT_CHECK(have == want, "tracked", "rank ", me, " tracks ", have.size(), " elements in set ", i, ", expected ", want.size()); }
    vt::theCollective()->barrier();
    struct Wait { int step; vt::messaging::PendingSend ps; }; std::vector<Wait> held;
    auto chain_step = [&](CStep& s) {
      switch (s.kind) {
        case Add: case Merge: {
          auto ep = vt::theTerm()->makeEpochRooted("c03", vt::term::UseDS{s.n % 2 == 0}); vt::theMsg()->pushEpoch(ep);
          if (s.kind == Add) ch[(size_t)s.a]->add(ep, emit(P.units[(size_t)s.u].root)); else Chain::mergeChainStep(*ch[(size_t)s.a], *ch[(size_t)s.b], ep, emit(P.units[(size_t)s.u].root));
          vt::theMsg()->popEpoch(ep); vt::theTerm()->finishedEpoch(ep); int u = s.u; vt::theTerm()->addAction(ep, [u] { over(u, "the end of the step of unit ", u); ++*fin(u); }); last[(size_t)s.a] = s.u; if (s.kind == Merge) last[(size_t)s.b] = s.u; break; }
        case Dep: {   // the epoch of v may not end before that of u
          auto e1 = vt::theTerm()->makeEpochRooted("pred", vt::term::UseDS{s.n % 2 == 0}), e2 = vt::theTerm()->makeEpochRooted("succ", vt::term::UseDS{s.n % 3 == 0}); vt::theTerm()->addDependency(e1, e2);
          int u = s.u, v = s.v; vt::theTerm()->addAction(e2, [u, v] { over(u, "the end of the successor epoch, unit ", v); over(v, "the end of the epoch of unit ", v); ++*fin(v); });
          vt::theMsg()->pushEpoch(e2); emit(P.units[(size_t)v].root); vt::theMsg()->popEpoch(e2);
          if (s.lazy) vt::theTerm()->finishedEpoch(e2), spin(s.n);
          vt::theMsg()->pushEpoch(e1); emit(P.units[(size_t)u].root); vt::theMsg()->popEpoch(e1); vt::theTerm()->finishedEpoch(e1); if (!s.lazy) vt::theTerm()->finishedEpoch(e2);
          break; }
        case Held: {
          auto ep = vt::theTerm()->makeEpochRooted("held", vt::term::UseDS{s.n % 2 == 0}); vt::theMsg()->pushEpoch(ep); auto ps = emit(P.units[(size_t)s.u].root); vt::theMsg()->popEpoch(ep); vt::theTerm()->finishedEpoch(ep);
          int u = s.u; vt::theTerm()->addAction(ep, [u] { over(u, "the end of the epoch of held unit ", u); ++*fin(u); });
          vt::messaging::PendingSend other(std::move(ps)); spin(s.n); RT_CHECK(*done(u) == 0, "held", "unit ", u, " ran before its message was released"); if (s.lazy) { other.release(); spin(2); other.release(); } break; }
        case Done: ch[(size_t)s.a]->done(); last[(size_t)s.a] = -1; break;
        case Query: if (last[(size_t)s.a] >= 0 && ch[(size_t)s.a]->isTerminated()) over(last[(size_t)s.a], "isTerminated of chain ", s.a); break;
        default: spin(s.n);
      }
    };
    vt::runInEpochCollective([&] {
      auto& mine = ph.chains[(size_t)me]; size_t c = 0;
      for (size_t i = 0; i < ph.steps.size(); i++) {
        auto& s = ph.steps[i]; int w = ph.pause[i][(size_t)me]; if (w) spin(w);
        std::function<vt::messaging::PendingSend(vt::Index1D)> act = [&s](vt::Index1D x) { return emit(P.units[(size_t)s.unit[(size_t)x.x()]].root); };
        if (s.kind == Rooted_) sets[s.set]->nextStep("r", act); else if (s.kind == Coll_) sets[s.set]->nextStepCollective("c", act); else Set::mergeStepCollective("m", *sets[0], *sets[1], act);
        if (ph.mid && c < mine.size()) chain_step(mine[c++]);
      }
      while (c < mine.size()) chain_step(mine[c++]);
    });
    for (auto& s : ph.steps) for (int u : s.unit) over(u, "the end of the phase, unit ", u);
    for (auto& r : ph.chains) for (auto& s : r) { if (s.u >= 0) over(s.u, "the end of the phase, unit ", s.u); if (s.v >= 0) over(s.v, "the end of the phase, unit ", s.v); }
    for (auto& s : ph.chains[(size_t)me]) if (s.kind <= Held) { int u = s.kind == Dep ? s.v : s.u; RT_CHECK(*fin(u) == 1, "action", "the action at the end of the epoch of unit ", u, " ran ", *fin(u), " times"); }
    for (int a = 0; a < 4; a++) if (last[(size_t)a] >= 0) RT_CHECK(ch[(size_t)a]->isTerminated(), "chain-end", "chain ", a, " of rank ", me, " is not terminated though all its steps are");
    vt::runInEpochCollective([&] { for (int i = 0; i < P.sets; i++) sets[i]->phaseDone(); });
    if (!ph.moves.empty()) {
      vt::runInEpochCollective([&] { for (auto& m : ph.moves) if (m.first % P.n == me) px[vt::Index1D(m.first)].template send<&E::mv>(m.second); });
      for (auto& m : ph.moves) where[(size_t)m.first] = m.second;
    }
  }
}
} // namespace

PBT_TARGET(chains, Isolated, 2500, 100000) {
  auto c = rt::gen(g); int n = c.sim.n; P = Prog{}; P.n = n; P.K = (int)g.range(1, 8); P.map = (int)g.draw(1); P.sets = (int)g.range(1, 2); P.layout[0] = (int)g.draw(1); P.layout[1] = g.chance(2, 3) ? P.layout[0] : 1 - P.layout[0];
  auto rr = [&] { return (int)g.draw((uint64_t)n - 1); };
  auto unit = [&](std::vector<int> pre, int at, int here) {   // here: the rank that starts it, if known
    int u = (int)P.units.size(); P.units.push_back(Unit{}); Unit U; std::sort(pre.begin(), pre.end()); pre.erase(std::unique(pre.begin(), pre.end()), pre.end()); U.pre = pre;
    auto mk = [&](auto& self, int depth) -> int {
      int id = (int)P.nodes.size(); P.nodes.push_back(Nd{}); Nd N; N.unit = u; N.first = depth == 0;
      if (depth == 0) { int f = (int)g.weighted({5, 3, 1, 1}); if (f == 0 && at < 0) f = 1; N.to = f == 0 ? Elm_ : f == 1 ? Rank_ : f == 2 ? Bcast_ : Lam_; N.at = f == 0 ? at : rr(); if (f == 0 && g.chance(1, 6)) N.at = (int)g.draw((uint64_t)P.K - 1); }
      else { N.to = g.chance(1, 10) ? Bcast_ : g.coin() ? Elm_ : Rank_; N.at = N.to == Elm_ ? (int)g.draw((uint64_t)P.K - 1) : rr(); }
      (void)here; U.total += N.to == Bcast_ ? n : 1;
      int k = depth < 3 && P.nodes.size() < 1500 ? (int)g.weighted({4, 3, 1, 1}) : 0; for (int i = 0; i < k; i++) N.kids.push_back(self(self, depth + 1));
      P.nodes[(size_t)id] = N; return id;
    };
    U.root = mk(mk, 0); P.units[(size_t)u] = U; return u;
  };
  int nph = (int)g.range(1, 3); int waits = 0;
  for (int k = 0; k < nph; k++) {
    Phase ph; ph.chains.resize((size_t)n); ph.mid = g.coin();
    std::vector<std::vector<std::vector<int>>> last((size_t)P.sets, std::vector<std::vector<int>>((size_t)P.K));   // the units the next step of an element waits for
    int m = (int)g.range(0, 4);
    for (int i = 0; i < m; i++) {
      SStep s; s.kind = (int)g.weighted({4, 3, 3}); if (s.kind == Merge_ && (P.sets < 2 || P.layout[0] != P.layout[1])) s.kind = Coll_; s.set = (int)g.draw((uint64_t)P.sets - 1); g.label((char const*[]){"rooted step", "collective step", "merged step"}[s.kind]);
      for (int e = 0; e < P.K; e++) {
        auto pre = last[(size_t)s.set][(size_t)e]; if (s.kind == Merge_) { pre = last[0][(size_t)e]; for (int x : last[1][(size_t)e]) pre.push_back(x); }
        waits += !pre.empty(); s.unit.push_back(unit(pre, e, -1));
      }
      for (int q = 0; q < P.sets; q++) if (s.kind == Merge_ || q == s.set) for (int e = 0; e < P.K; e++) last[(size_t)q][(size_t)e] = s.kind == Rooted_ ? std::vector<int>{s.unit[(size_t)e]} : s.unit;
      ph.steps.push_back(s); std::vector<int> w; for (int r = 0; r < n; r++) w.push_back(g.chance(1, 3) ? (int)g.range(1, 20) : 0); ph.pause.push_back(w);
    }
    for (int r = 0; r < n; r++) {
      int q = (int)g.weighted({3, 2, 2, 1, 1, 1}); std::vector<std::vector<int>> l(4);
      for (int i = 0; i < q; i++) {
        CStep s; s.kind = (int)g.weighted({5, 2, 1, 1, 1, 2, 1}); s.a = (int)g.draw(3); s.b = (s.a + 1 + (int)g.draw(2)) % 4; s.n = (int)g.range(0, 15); s.lazy = g.coin();
        switch (s.kind) {
          case Add: waits += !l[(size_t)s.a].empty(); s.u = unit(l[(size_t)s.a], -1, r); l[(size_t)s.a] = {s.u}; g.label("chain step"); break;
          case Merge: { auto pre = l[(size_t)s.a]; for (int x : l[(size_t)s.b]) pre.push_back(x); waits += !pre.empty(); s.u = unit(pre, -1, r); l[(size_t)s.a] = l[(size_t)s.b] = {s.u}; g.label("merged chain step"); break; }
          case Dep: waits++; s.u = unit({}, -1, r); s.v = unit({}, -1, r); g.label("dependent epoch"); break;
          case Held: s.u = unit({}, -1, r); g.label("held send"); break;
          case Done: l[(size_t)s.a].clear(); g.label("chain reset"); break;
          default: break;
        }
        ph.chains[(size_t)r].push_back(s);
      }
    }
    if (g.chance(1, 2)) for (int e = 0; e < P.K; e++) if (g.chance(1, 3)) ph.moves.push_back({e, rr()});
    g.note("phase ", k, ":"); for (auto& s : ph.steps) { g.note(" ", (char const*[]){"rooted", "collective", "merged"}[s.kind], "(set ", s.set, ": units ", s.unit.front(), "-", s.unit.back(), ")"); } g.note(ph.mid ? " interleaved" : "", "\n");
    for (int r = 0; r < n; r++) if (!ph.chains[(size_t)r].empty()) { g.note("  rank ", r, ":"); for (auto& s : ph.chains[(size_t)r]) g.note(" ", (char const*[]){"add", "merge", "dep", "held", "done", "query", "steps"}[s.kind], "(", s.a, ",", s.b, ",u", s.u, ",v", s.v, ",", s.n, s.lazy ? ",lazy" : "", ")"); g.note("\n"); }
    if (!ph.moves.empty()) { g.note("  moves:"); for (auto& v : ph.moves) g.note(" ", v.first, "->", v.second); g.note("\n"); }
    P.phases.push_back(ph);
  }
  for (size_t u = 0; u < P.units.size() && u < 60; u++) { auto& U = P.units[u]; g.note("  unit ", u, " pieces=", U.total, " waits for"); for (int p : U.pre) g.note(" ", p); auto& N = P.nodes[(size_t)U.root]; g.note("; starts at ", (char const*[]){"element ", "rank ", "all ranks, from ", "its own rank "}[N.to], N.at, "\n"); }
  g.note("elements=", P.K, " map=", P.map, " sets=", P.sets, " layouts=", P.layout[0], P.layout[1], "\n", rt::show(c)); g.nontrivial(waits > 0 && P.units.size() > 1);
  if (P.nodes.size() > 7000 || P.units.size() > 3500) throw pbt::Discard{"large"};
  Prog Q = P;
  rt::run(g, c, [&](int me) { P = Q; body(me); });
}

// epochs in a graph of dependencies: none ends before those it depends on
namespace graph {
struct Ep { int owner = -1; bool ds = false; };                               // owner -1: collective
struct W { int e = 0, from = 0; std::vector<int> hops; };                     // a chain of messages in epoch e
struct Do { int what = 0, a = 0, b = 0; };                                    // 0 edge a -> b, 1 work a, 2 finish a, 3 turns
struct G { int n = 1; std::vector<Ep> es; std::vector<std::pair<int, int>> edges; std::vector<W> ws; std::vector<std::vector<Do>> ops; } Q;
int64_t& got(int w) { return sim::shared()[w]; }
int64_t& ended(int e, int r) { return sim::shared()[1000 + e * 8 + r]; }
void hop(int w, int k) { auto& X = Q.ws[(size_t)w]; RT_CHECK(sim::rank() == X.hops[(size_t)k] && got(w) == k, "content", "hop ", k, " of work ", w, " after ", got(w), " hops"); got(w)++; sim::progress(); if (k + 1 < (int)X.hops.size()) vt::theMsg()->send<hop>(vt::Node{(vt::NodeType)X.hops[(size_t)k + 1]}, w, k + 1); }
void over(int e, int of) {
  for (size_t w = 0; w < Q.ws.size(); w++) if (Q.ws[w].e == e) RT_CHECK(got((int)w) == (int64_t)Q.ws[w].hops.size(), "early", "epoch ", of, " ends after ", got((int)w), " of ", Q.ws[w].hops.size(), " hops of work ", w, " in epoch ", e, e == of ? "" : ", which it depends on");
  for (auto& [p, q] : Q.edges) if (q == e) over(p, of);
}
void body(int me) {
  std::vector<vt::EpochType> ep(Q.es.size(), vt::no_epoch); std::vector<bool> mine(Q.es.size());
  for (size_t e = 0; e < Q.es.size(); e++) {
    auto& E = Q.es[e]; mine[e] = E.owner < 0 || E.owner == me; if (!mine[e]) continue;
    ep[e] = E.owner < 0 ? vt::theTerm()->makeEpochCollective("graph") : vt::theTerm()->makeEpochRooted("graph", vt::term::UseDS{E.ds});
    vt::theTerm()->addAction(ep[e], [e] { sim::progress(); over((int)e, (int)e); RT_CHECK(++ended((int)e, sim::rank()) == 1, "twice", "the action at the end of epoch ", e, " ran twice"); });
  }
  for (auto& d : Q.ops[(size_t)me]) {
    auto a = (size_t)d.a;
    if (d.what == 0) vt::theTerm()->addDependency(ep[a], ep[(size_t)d.b]);
    else if (d.what == 1) { vt::theMsg()->pushEpoch(ep[(size_t)Q.ws[a].e]); vt::theMsg()->send<hop>(vt::Node{(vt::NodeType)Q.ws[a].hops[0]}, (int)a, 0); vt::theMsg()->popEpoch(ep[(size_t)Q.ws[a].e]); }
    else if (d.what == 2) vt::theTerm()->finishedEpoch(ep[a]);
    else for (int i = 0; i < d.a; i++) vt::theSched()->runSchedulerOnceImpl();
  }
  vt::theSched()->runSchedulerWhile([&] { for (size_t e = 0; e < Q.es.size(); e++) if (mine[e] && !ended((int)e, me)) return true; return false; });
  vt::theCollective()->barrier();
  for (size_t w = 0; w < Q.ws.size(); w++) RT_CHECK(got((int)w) == (int64_t)Q.ws[w].hops.size(), "lost", "work ", w);
}
} // namespace graph
PBT_TARGET(dependencies, Isolated, 2000, 80000) {
  using namespace graph; auto c = rt::gen(g); int n = c.sim.n; Q = G{}; Q.n = n; auto rr = [&] { return (int)g.draw((uint64_t)n - 1); };
  int k = (int)g.range(2, 7), owner = rr(); bool one = g.chance(1, 3), shared = false; Q.ops.resize((size_t)n);
  for (int e = 0; e < k; e++) { Ep E; E.owner = !one && g.coin() ? -1 : one || g.chance(2, 3) ? owner : rr(); E.ds = g.coin(); Q.es.push_back(E); }
  std::vector<int> rank_of((size_t)k); for (int e = 0; e < k; e++) rank_of[(size_t)e] = e; { auto p = g.perm((size_t)k); for (int e = 0; e < k; e++) rank_of[(size_t)e] = (int)p[(size_t)e]; }
  auto who = [&](int a, int b) { int x = Q.es[(size_t)a].owner, y = Q.es[(size_t)b].owner; if (x < 0) return y; if (y < 0 || x == y) return x; return -2; };
  for (int a = 0; a < k; a++) for (int b = 0; b < k; b++) if (rank_of[(size_t)a] < rank_of[(size_t)b] && who(a, b) != -2 && g.chance(2, 3)) Q.edges.push_back({a, b});
  { auto p = g.perm(Q.edges.size()); auto old = Q.edges; for (size_t i = 0; i < old.size(); i++) Q.edges[i] = old[(size_t)p[i]]; }
  for (int e = 0; e < k; e++) for (int i = (int)g.draw(3); i > 0; i--) { W w; w.e = e; w.from = Q.es[(size_t)e].owner < 0 ? rr() : Q.es[(size_t)e].owner; for (int h = (int)g.range(1, 5); h > 0; h--) w.hops.push_back(rr()); Q.ws.push_back(w); }
  for (int r = 0; r < n; r++) {
    std::vector<Do> all; std::vector<int> left((size_t)k, 0);   // what must precede the end of an epoch
    std::vector<Do> es, ws, fs;
    for (auto& [a, b] : Q.edges) { int w = who(a, b); if (w == -1 || w == r) es.push_back({0, a, b}), left[(size_t)b]++; }
    for (size_t w = 0; w < Q.ws.size(); w++) if (Q.ws[w].from == r) ws.push_back({1, (int)w, 0}), left[(size_t)Q.ws[w].e]++;
    for (int e = 0; e < k; e++) if (Q.es[(size_t)e].owner < 0 || Q.es[(size_t)e].owner == r) fs.push_back({2, e, 0});
    bool edges_first = g.coin();
    while (!es.empty() || !ws.empty() || !fs.empty()) {
      if (g.chance(1, 6)) { all.push_back({3, (int)g.range(1, 15), 0}); }
      int t = (int)g.weighted({es.empty() ? 0u : 3u, ws.empty() || (edges_first && !es.empty()) ? 0u : 3u, 2});
      if (t == 0 && es.empty()) t = 1; if (t == 1 && (ws.empty() || (edges_first && !es.empty()))) t = 2;
      if (t == 0) { auto d = es.front(); es.erase(es.begin()); left[(size_t)d.b]--; all.push_back(d); continue; }
      if (t == 1) { size_t i = g.draw(ws.size() - 1); auto d = ws[i]; ws.erase(ws.begin() + (long)i); left[(size_t)Q.ws[(size_t)d.a].e]--; all.push_back(d); continue; }
      std::vector<size_t> can; for (size_t i = 0; i < fs.size(); i++) if (!left[(size_t)fs[i].a]) can.push_back(i);
      if (can.empty()) { if (!es.empty()) { auto d = es.front(); es.erase(es.begin()); left[(size_t)d.b]--; all.push_back(d); } else { auto d = ws.front(); ws.erase(ws.begin()); left[(size_t)Q.ws[(size_t)d.a].e]--; all.push_back(d); } continue; }
      size_t i = g.pick(can); all.push_back(fs[i]); fs.erase(fs.begin() + (long)i);
    }
    Q.ops[(size_t)r] = all;
  }
  for (auto& [a, b] : Q.edges) for (auto& [x, y] : Q.edges) if (a == x && b != y) for (auto& [p, q] : Q.edges) shared |= (p == b && q == y) || (p == y && q == b);
  for (int e = 0; e < k; e++) g.note("epoch ", e, Q.es[(size_t)e].owner < 0 ? std::string(" collective") : pbt::cat(" of rank ", Q.es[(size_t)e].owner, Q.es[(size_t)e].ds ? " (DS)" : " (wave)"), "\n");
  for (size_t w = 0; w < Q.ws.size(); w++) { g.note("work ", w, " in epoch ", Q.ws[w].e, " from rank ", Q.ws[w].from, " to"); for (int h : Q.ws[w].hops) g.note(" ", h); g.note("\n"); }
  for (int r = 0; r < n; r++) { g.note("rank ", r, ":"); for (auto& d : Q.ops[(size_t)r]) g.note(d.what == 0 ? pbt::cat(" ", d.b, " after ", d.a) : d.what == 1 ? pbt::cat(" work ", d.a) : d.what == 2 ? pbt::cat(" finish ", d.a) : pbt::cat(" +", d.a), ";"); g.note("\n"); }
  g.note(rt::show(c)); if (shared) g.label("shared successors"); g.nontrivial(shared && n > 1); G S = Q;
  rt::run(g, c, [&](int me) { Q = S; graph::body(me); });
}

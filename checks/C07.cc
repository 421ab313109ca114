// variant: rt
// C07: a reduction over a collection combines exactly one contribution of every element
#include "common/col.h"
#include "common/fold.h"
#include <map>
PBT_RULE("A case is a collection (1-3 dimensions, up to 20 elements, block or scattering map) over 1-6 simulated ranks and up to 4 rounds of up to 6 overlapping reductions (13 operator families; result to all elements, one element, one rank or a callback); elements contribute when separate messages or a broadcast reach them, in any interleaving, and migrate or are rotated by the balancer between rounds; non-trivial: at least two ranks, two elements and two reductions.");
namespace {
using col::Shape;
enum Tgt { All, One, Rank, Cb, TgtN };
struct R { fold::Red red; int tgt, at; };
struct Round { std::vector<R> rs; int trigger /* 0 broadcast, 1 single messages */, by; std::vector<int> order, from; std::vector<int> cut; std::vector<std::pair<int, int>> moves; int rotate; };
struct Prog { Shape s; int n, map; std::vector<Round> rounds; } P;
fold::Log const elog{0}, rlog{20000};   // per element, per rank
template <class I> struct Elm;
using fold::digest;
template <class... A> void on_rank(A... a) { rlog.add(sim::rank(), digest(a...)); }
template <class I> struct Elm : vt::Collection<Elm<I>, I> {
  static inline vt::CollectionProxy<Elm<I>, I> proxy;
  bool moving = false; int done = 0;
  template <class S> void serialize(S& s) { vt::Collection<Elm<I>, I>::serialize(s); s | done; if (s.isUnpacking()) moving = false; }
  int me() { return col::Ix<I>::lin(P.s, this->getIndex()); }
  template <class... A> void res(A... a) { elog.add(me(), digest(a...)); }
  void give(R& r) {
    auto p = this->getCollectionProxy();
    fold::contribute(r.red, me(), [&](auto F, auto... a) {
      constexpr int f = decltype(F)::value;
      if constexpr (f == fold::NoneF) {
        switch (r.tgt) {
          case All: p.template allreduce<&Elm::template res<>>(); break;
          case One: p.template reduce<&Elm::template res<>>(proxy[col::Ix<I>::at(P.s, r.at)]); break;
          case Rank: p.template reduce<on_rank<>>((vt::NodeType)r.at); break;
          default: { auto cb = vt::theCB()->makeSend<on_rank<>>((vt::NodeType)r.at); p.reduce(cb); }
        }
      } else {
        if (r.tgt == All) { p.template allreduce<&Elm::template res<decltype(a)...>, fold::OpOf<f>::template Op>(a...); return; }
        if constexpr (f == fold::PlusVec || f == fold::MaxT) switch (r.tgt) {
          case One: p.template reduce<&Elm::template res<decltype(a)...>, fold::OpOf<f>::template Op>(proxy[col::Ix<I>::at(P.s, r.at)], a...); break;
          case Rank: p.template reduce<on_rank<decltype(a)...>, fold::OpOf<f>::template Op>((vt::NodeType)r.at, a...); break;
          default: { auto cb = vt::theCB()->makeSend<on_rank<decltype(a)...>>((vt::NodeType)r.at); p.template reduce<fold::OpOf<f>::template Op>(cb, a...); }
        }
      }
    });
    done++;
  }
  // contribute to the reductions of a round from the k-th on; stops once in between
  void go(int round, int k) {
    Round& Q = P.rounds[(size_t)round];
    int cut = Q.cut[(size_t)me()], n = (int)Q.rs.size();
    int stop = k < cut ? cut : n;
    for (int i = k; i < stop && i < n; i++) give(Q.rs[(size_t)i]);
    if (stop < n) this->getCollectionProxy()(this->getIndex()).template send<&Elm::go>(round, stop);
  }
  void mv(int to) { if (to != sim::rank() && !moving) { moving = true; this->migrate(to); } }
};
template <class I> vt::NodeType scatter(I* i, I* max, vt::NodeType n) { (void)max; return (vt::NodeType)col::scatter_rank((uint64_t)col::Ix<I>::lin(P.s, *i), n); }
template <class I> struct Run { static void run(Shape s, int me) {
  using E = Elm<I>;
  auto c = vt::makeCollection<E>("c07"); c.bounds(col::Ix<I>::range(s)).bulkInsert();
  if (P.map == 1) c.template mapperFunc<scatter<I>>();
  auto proxy = E::proxy = c.wait();
  vt::theCollective()->barrier();
  std::vector<int> all; for (int e = 0; e < s.size(); e++) all.push_back(e);
  std::map<int, std::vector<std::pair<uint64_t, int>>> ew, rw;
  for (size_t k = 0; k < P.rounds.size(); k++) {
    Round& Q = P.rounds[k];
    vt::runInEpochCollective([&] {
      if (Q.trigger == 0) { if (me == Q.by) proxy.template broadcast<&E::go>((int)k, 0); }
      else for (int e : Q.order) if (Q.from[(size_t)e] == me) proxy(col::Ix<I>::at(s, e)).template send<&E::go>((int)k, 0);
    });
    for (auto& r : Q.rs) {
      uint64_t d = fold::expect(r.red, all);
      if (r.tgt == All) for (int e : all) ew[e].push_back({d, r.red.rid}); else if (r.tgt == One) ew[r.at].push_back({d, r.red.rid}); else rw[r.at].push_back({d, r.red.rid});
    }
    for (int e : all) elog.check(e, ew[e], "element");
    for (int r = 0; r < P.n; r++) rlog.check(r, rw[r], "rank");
    vt::theCollective()->barrier();
    if (!Q.moves.empty()) {
      vt::runInEpochCollective([&] { for (auto& m : Q.moves) if (m.first % P.n == me) proxy(col::Ix<I>::at(s, m.first)).template send<&E::mv>(m.second); });
      vt::runInEpochCollective([] { vt::theCollection()->getTypelessHolder().invokeAllGroupConstructors(); });
    }
    if (Q.rotate) vt::thePhase()->nextPhaseCollective();
  }
} };
} // namespace

PBT_TARGET(reductions, Isolated, 3000, 80000) {
  auto c = rt::gen(g); int n = c.sim.n;
  P = Prog{}; P.n = n; P.s = col::shape(g, 20); if (P.s.d == 2) P.s.d = 3; P.map = (int)g.draw(1);
  c.args.push_back("--vt_lb"); c.args.push_back("--vt_lb_name=RotateLB"); c.args.push_back("--vt_lb_interval=1"); c.args.push_back("--vt_lb_run_lb_first_phase");
  int N = P.s.size(), nr = (int)g.range(1, 4), rid = 0;
  auto rr = [&] { return (int)g.draw((uint64_t)n - 1); };
  for (int k = 0; k < nr; k++) {
    Round Q{}; int m = (int)g.range(1, 6);
    for (int i = 0; i < m; i++) { R r; r.red = fold::gen(g, rid++); r.tgt = r.red.fam == fold::PlusVec || r.red.fam == fold::MaxT || r.red.fam == fold::NoneF ? (int)g.draw(TgtN - 1) : All; r.at = r.tgt == One ? (int)g.draw((uint64_t)N - 1) : rr(); Q.rs.push_back(r); g.label(fold::fam_name[r.red.fam]); g.label(pbt::cat("to ", (char const*[]){"all elements", "one element", "rank", "callback"}[r.tgt])); }
    Q.trigger = (int)g.coin(); Q.by = rr();
    auto perm = g.perm((size_t)N); for (auto p : perm) Q.order.push_back((int)p);
    for (int e = 0; e < N; e++) { Q.from.push_back(rr()); Q.cut.push_back((int)g.draw((uint64_t)m)); }
    if (g.chance(1, 3)) for (int e = 0; e < N; e++) if (g.chance(1, 3)) Q.moves.push_back({e, rr()});
    Q.rotate = g.chance(1, 5);
    P.rounds.push_back(Q);
    g.note("round ", k, Q.trigger ? " by messages" : pbt::cat(" by broadcast of ", Q.by), Q.rotate ? ", then rotated" : "", ", moves:"); for (auto& v : Q.moves) g.note(" ", v.first, "->", v.second); g.note("\n");
    for (auto& r : Q.rs) g.note("  red ", r.red.rid, " ", fold::fam_name[r.red.fam], " len=", r.red.len, " target=", r.tgt, "@", r.at, "\n");
  }
  g.note(rt::show(c), col::show(P.s), " map=", P.map, "\n");
  g.nontrivial(n > 1 && N > 1 && rid > 1);
  Prog Q = P;
  rt::run(g, c, [&](int me) { P = Q; if (P.s.d == 1) Run<vt::Index1D>::run(P.s, me); else Run<vt::Index3D>::run(P.s, me); });
}

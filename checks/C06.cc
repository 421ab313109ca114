// variant: rt
// C06: collections hold exactly the elements asked for; broadcasts reach each once; destruction destroys each once
#include "common/col.h"
#include <functional>
PBT_RULE("A case builds one or two collections (1-3 dimensions, up to 30 elements; bounds, bulk range, list from all ranks, ready-made local elements, constructor functions, default/function/object mappings, collective, deferred or rooted) on 1-6 simulated ranks, broadcasts to them in all forms and destroys them, or runs up to 5 rounds of insertions (from any rank, at the home or at a named rank, with duplicates), destructions, early sends, broadcasts and migrations on a dynamic collection, with a random schedule; non-trivial: at least two ranks and two elements.");
namespace {
using col::Shape;
enum How { Bulk, BulkRange, List, ListUnbounded, Here, Rooted, Defer, Classic, HowN };
char const* const how_name[] = {"bounds+bulk", "bulk range", "list", "unbounded list", "local elements", "rooted", "deferred", "constructCollective"};
enum Map { MDefault, MFunc, MObj };
struct Col { Shape s; int how, map, root; std::vector<int> member; /* element present */ bool cons; int owner_salt; };
struct Bc { int col, rank /* -1 collective */, form; };
struct Prog { int n; std::vector<Col> cols; std::vector<std::vector<Bc>> rounds; int destroy_by; };
Prog P;
int64_t& cell(int c, int e) { return sim::shared()[c * 4000 + e]; }
int64_t& hits(int c, int e) { return sim::shared()[c * 4000 + 100 + e]; }
int64_t& born() { return sim::shared()[30000]; }
int64_t& died() { return sim::shared()[30001]; }
int64_t& proxy_bits(int c) { return sim::shared()[30010 + c]; }
template <class I> vt::NodeType scatter(I* i, I* max, vt::NodeType n) { (void)max; uint64_t l = 0; for (int d = 0; d < i->ndims(); d++) l = l * 31 + (uint64_t)(*i)[d]; return (vt::NodeType)col::scatter_rank(l, n); }
template <class I> struct Mapper : vt::mapping::BaseMapper<I> {
  static vt::ObjGroupProxyType construct() { return vt::theObjGroup()->makeCollective<Mapper<I>>("Mapper").getProxy(); }
  vt::NodeType map(I* i, int, vt::NodeType n) override { return (vt::NodeType)((n - 1) - scatter<I>(i, i, n)); }
};
template <class I> struct Elm;
template <class I> struct BMsg : vt::CollectionMessage<Elm<I>> { BMsg() = default; BMsg(int c_, int k_) : c(c_), k(k_) {} int c, k; char pad[40]; };
template <class I> struct Elm : vt::Collection<Elm<I>, I> {
  int tag = 0; // given by constructor functions
  explicit Elm(int t = 0) : tag(t) { ++born(); }
  Elm(Elm const& o) : tag(o.tag) { ++born(); }
  virtual ~Elm() { ++died(); }
  template <class S> void serialize(S& s) { vt::Collection<Elm<I>, I>::serialize(s); s | tag; }
  int me(int c) { return col::Ix<I>::lin(P.cols[(size_t)c].s, this->getIndex()); }
  void hit(int c, int k) {
    RT_CHECK(c >= 0 && c < (int)P.cols.size(), "content", "broadcast for collection ", c);
    int e = me(c);
    RT_CHECK((int64_t)this->getProxy() == proxy_bits(c), "misdelivered", "broadcast to collection ", c, " runs on an element of another");
    RT_CHECK(k == c * 1000 + 7, "content", "broadcast content differs");
    RT_CHECK(e >= 0 && e < P.cols[(size_t)c].s.size() && P.cols[(size_t)c].member[(size_t)e], "element-set", "a broadcast reached element ", e, ", which should not exist");
    if (P.cols[(size_t)c].cons) RT_CHECK(tag == e + 1, "constructor", "element ", e, " was built by the constructor call for ", tag - 1);
    ++hits(c, e); sim::progress();
  }
  void msg(BMsg<I>* m) { hit(m->c, m->k); }
  void args(int c, int k, std::string const&) { hit(c, k); }
};
template <class I> struct Run { static void run(Shape, int c, int me, std::function<void()>* destroy, std::function<void(Bc)>* bcast, std::function<void()>* check) {
  using E = Elm<I>; Col& C = P.cols[(size_t)c]; Shape s = C.s;
  auto range = col::Ix<I>::range(s);
  using Params = vt::vrt::collection::param::ConstructParams<E>;
  auto cons = [s](I i) { return std::make_unique<E>(col::Ix<I>::lin(s, i) + 1); };
  auto map = [&](Params& p) {
    if (C.map == MFunc) p.template mapperFunc<scatter<I>>();
    if (C.map == MObj) p.template mapperObjGroupConstruct<Mapper<I>>();
  };
  std::vector<I> list; for (int e = 0; e < s.size(); e++) if (C.member[(size_t)e]) list.push_back(col::Ix<I>::at(s, e));
  auto owner = [&](int e) { return col::scatter_rank((uint64_t)e * 17 + (uint64_t)C.owner_salt, P.n); };
  vt::CollectionProxy<E, I> proxy; bool have = true;
  switch (C.how) {
    case Bulk: { auto p = vt::makeCollection<E>("c06"); p.bounds(range).bulkInsert(); map(p); if (C.cons) p.elementConstructor(cons); proxy = p.wait(); break; }
    case BulkRange: { auto p = vt::makeCollection<E>("c06"); p.bulkInsert(range); map(p); if (C.cons) p.elementConstructor(cons); proxy = p.wait(); break; }
    case List: { auto p = vt::makeCollection<E>("c06"); p.bounds(range).listInsert(list); map(p); if (C.cons) p.elementConstructor(cons); proxy = p.wait(); break; }
    case ListUnbounded: { auto p = vt::makeCollection<E>("c06"); p.listInsert(list); map(p); if (C.cons) p.elementConstructor(cons); proxy = p.wait(); break; }
    case Here: {
      std::vector<std::tuple<I, std::unique_ptr<E>>> mine;
      for (int e = 0; e < s.size(); e++) if (C.member[(size_t)e] && owner(e) == me) mine.emplace_back(col::Ix<I>::at(s, e), std::make_unique<E>(e + 1));
      auto p = vt::makeCollection<E>("c06"); p.listInsertHere(std::move(mine)); if (C.owner_salt % 2) p.bounds(range); map(p); proxy = p.wait(); break;
    }
    case Rooted: {
      have = false;
      vt::runInEpochCollective([&] { if (me == C.root) { auto p = vt::makeCollectionRooted<E>("c06"); p.bounds(range).bulkInsert(); if (C.map == MFunc) p.template mapperFunc<scatter<I>>(); proxy = p.wait(); proxy_bits(c) = (int64_t)proxy.getProxy(); } });
      proxy = vt::CollectionProxy<E, I>((vt::VirtualProxyType)proxy_bits(c)); break;
    }
    case Defer: {
      bool done = false;
      auto p = vt::makeCollection<E>("c06"); p.bounds(range).bulkInsert(); map(p); if (C.cons) p.elementConstructor(cons);
      auto ep = p.deferWithEpoch([&](vt::CollectionProxy<E, I> x) { proxy = x; RT_CHECK(!done, "deferred", "the action of a deferred construction ran twice"); done = true; });
      vt::theSched()->runSchedulerWhile([&] { return !done || !vt::theTerm()->isEpochTerminated(ep); }); break;
    }
    default: if (C.cons) proxy = vt::theCollection()->constructCollective<E>(range, cons); else proxy = vt::theCollection()->constructCollective<E>(range); break;
  }
  if (have) { RT_CHECK(!proxy_bits(c) || proxy_bits(c) == (int64_t)proxy.getProxy(), "proxy", "ranks disagree on the proxy of collection ", c); proxy_bits(c) = (int64_t)proxy.getProxy(); }
  for (int o = 0; o < c; o++) RT_CHECK(proxy_bits(o) != proxy_bits(c), "proxy", "two collections share a proxy");
  *check = [proxy, c, me, s, owner] {
    Col& C = P.cols[(size_t)c];
    for (auto& i : vt::theCollection()->getLocalIndices(proxy)) {
      int e = -1; for (int k = 0; k < s.size(); k++) if (col::Ix<I>::at(s, k) == i) e = k;
      RT_CHECK(e >= 0 && C.member[(size_t)e], "element-set", "rank ", me, " holds an element that was not asked for");
      cell(c, e)++;
      vt::NodeType want = vt::uninitialized_destination; I ii = i;
      if (C.how == Here) want = (vt::NodeType)owner(e);
      else if (C.map == MFunc) want = scatter<I>(&ii, &ii, (vt::NodeType)P.n);
      else if (C.map == MObj) want = (vt::NodeType)(P.n - 1 - scatter<I>(&ii, &ii, (vt::NodeType)P.n));
      if (want != vt::uninitialized_destination) RT_CHECK((int)want == me, "placement", "element ", e, " is on rank ", me, ", its mapping gives ", want);
      auto* p = proxy(i).tryGetLocalPtr();
      RT_CHECK(p && p->getIndex() == i, "element-set", "local element ", e, " cannot be reached by its index, or carries another");
    }
    vt::theCollective()->barrier();
    for (int e = 0; e < s.size(); e++) RT_CHECK(cell(c, e) == C.member[(size_t)e], "element-set", "element ", e, " of collection ", c, " (", how_name[C.how], ") exists ", cell(c, e), " times");
  };
  *bcast = [proxy](Bc b) {
    auto mk = [&] { auto m = vt::makeMessage<BMsg<I>>(); m->c = b.col; m->k = b.col * 1000 + 7; return m; };
    if (b.rank >= 0) { if (b.form) proxy.template broadcast<&E::args>(b.col, b.col * 1000 + 7, std::string("abc")); else proxy.template broadcastMsg<BMsg<I>, &E::msg>(mk()); }
    else switch (b.form) {
      case 0: proxy.template broadcastCollective<&E::args>(b.col, b.col * 1000 + 7, std::string("abc")); break;
      case 1: proxy.template broadcastCollectiveMsg<BMsg<I>, &E::msg>(mk()); break;
      default: proxy.template invokeCollective<BMsg<I>, &E::msg>(b.col, b.col * 1000 + 7); break;
    }
  };
  *destroy = [proxy] { proxy.destroy(); };
} };
} // namespace

PBT_TARGET(construction, Isolated, 1800, 60000) {
  auto c = rt::gen(g); int n = c.sim.n;
  P = Prog{}; P.n = n;
  int nc = (int)g.range(1, 2);
  for (int i = 0; i < nc; i++) {
    Col C{}; C.s = col::shape(g, 30); C.how = (int)g.draw(HowN - 1); C.map = (int)g.draw(2); C.root = (int)g.draw((uint64_t)n - 1); C.cons = g.coin(); C.owner_salt = (int)g.draw(1000);
    if (C.how == Rooted && C.map == MObj) C.map = MFunc;
    if (C.how == Rooted) C.cons = false;
    if (C.how == Classic) C.map = MDefault;
    if (C.how == Here) { C.cons = true; if (C.map == MDefault && C.owner_salt % 2 == 0) C.map = MFunc; }
    bool all = C.how == Bulk || C.how == BulkRange || C.how == Rooted || C.how == Defer || C.how == Classic;
    uint64_t dens = g.range(1, 10);
    for (int e = 0; e < C.s.size(); e++) C.member.push_back(all || g.chance(dens, 10));
    P.cols.push_back(C);
    g.label(how_name[C.how]); if (!all) g.label("subset");
    g.note(col::show(C.s), " ", how_name[C.how], " map=", C.map, " root=", C.root, C.cons ? " with constructor" : "", " members:"); for (int e = 0; e < C.s.size(); e++) g.note(C.member[(size_t)e] ? "1" : "0"); g.note("\n");
  }
  int nr = (int)g.range(1, 3);
  for (int r = 0; r < nr; r++) { P.rounds.emplace_back(); size_t k = g.draw(4); for (size_t i = 0; i < k; i++) { Bc b{(int)g.draw((uint64_t)nc - 1), g.chance(1, 3) ? -1 : (int)g.draw((uint64_t)n - 1), (int)g.draw(2)}; P.rounds.back().push_back(b); g.note(" round ", r, " broadcast to ", b.col, b.rank < 0 ? pbt::cat(" collectively, form ", b.form) : pbt::cat(" by ", b.rank), "\n"); } }
  P.destroy_by = (int)g.range(-1, n - 1);
  g.note(rt::show(c), "destroyed by ", P.destroy_by, "\n");
  int members = 0; for (auto& C : P.cols) for (int m : C.member) members += m;
  g.nontrivial(n > 1 && members > 1);
  Prog Q = P;
  rt::run(g, c, [&](int me) {
    P = Q;
    std::vector<std::function<void()>> destroy(P.cols.size()), check(P.cols.size()); std::vector<std::function<void(Bc)>> bcast(P.cols.size());
    for (size_t k = 0; k < P.cols.size(); k++) { col::by_dim<Run>(P.cols[k].s, (int)k, me, &destroy[k], &bcast[k], &check[k]); vt::theCollective()->barrier(); check[k](); vt::theCollective()->barrier(); }
    std::vector<int> sent(P.cols.size(), 0);
    for (auto& R : P.rounds) {
      vt::runInEpochCollective([&] { for (auto& b : R) if (b.rank < 0 || b.rank == me) bcast[(size_t)b.col](b); });
      for (auto& b : R) sent[(size_t)b.col]++;
      for (size_t k = 0; k < P.cols.size(); k++) for (int e = 0; e < P.cols[k].s.size(); e++)
        RT_CHECK(hits((int)k, e) == (P.cols[k].member[(size_t)e] ? sent[k] : 0), "broadcast", "element ", e, " of collection ", k, " (", how_name[P.cols[k].how], ") ran ", hits((int)k, e), " of ", sent[k], " broadcasts");
      vt::theCollective()->barrier();
    }
    if (P.destroy_by >= 0) {
      vt::runInEpochCollective([&] { if (me == P.destroy_by) for (auto& d : destroy) d(); });
      RT_CHECK(born() == died(), "destruction", "of ", born(), " element objects ", died(), " were destroyed with their collections");
    }
  });
  RT_CHECK(true, "", "");
}

// dynamic membership
namespace {
struct DOp { int rank, kind /* 0 insert, 1 insertAt, 2 destroy, 3 early send */, idx, at; };
struct Rnd { std::vector<DOp> ops; std::vector<int> after; int bc; std::vector<std::pair<int, int>> sends; std::vector<std::pair<int, int>> moves; bool wrap; };
struct Dyn { int n, span; std::vector<int> init; int map; std::vector<Rnd> rounds; } D;
int64_t& dhits(int e) { return sim::shared()[e]; }
int64_t& dsent(int e) { return sim::shared()[100 + e]; }
int64_t& dcell(int r, int e) { return sim::shared()[200 + r * 100 + e]; }
int64_t& dgen(int e) { return sim::shared()[1000 + e]; }
struct DE : vt::Collection<DE, vt::Index1D> {
  bool moving = false; int n = 0;
  DE() { ++born(); } DE(DE const&) { ++born(); } virtual ~DE() { ++died(); }
  template <class S> void serialize(S& s) { vt::Collection<DE, vt::Index1D>::serialize(s); s | n; }
  void bc(int) { ++dhits(getIndex().x()); n++; sim::progress(); }
  void one(int k) { RT_CHECK(k == getIndex().x(), "misdelivered", "message for ", k, " ran on ", getIndex().x()); ++dsent(k); sim::progress(); }
  void mv(int to) { if (to != sim::rank() && !moving) { moving = true; migrate(to); } }
};
} // namespace
PBT_TARGET(membership, Isolated, 1800, 60000) {
  auto c = rt::gen(g); int n = c.sim.n;
  D = Dyn{}; D.n = n; D.span = (int)g.range(1, 20); D.map = (int)g.draw(1);
  std::vector<int> live((size_t)D.span, 0); bool init = g.coin();
  if (init) for (auto& x : live) x = (int)g.coin();
  D.init = live;
  int nr = (int)g.range(1, 5); bool any = false;
  for (int r = 0; r < nr; r++) {
    Rnd R{}; std::vector<int> used((size_t)D.span, 0); // 1 insert, 2 destroy
    auto was = live;
    size_t k = g.size(12);
    for (size_t i = 0; i < k; i++) {
      DOp o{}; o.rank = (int)g.draw((uint64_t)n - 1); o.idx = (int)g.draw((uint64_t)D.span - 1); o.at = (int)g.draw((uint64_t)n - 1); o.kind = (int)g.weighted({4, 4, 4});
      if (o.kind == 2) { if (!was[(size_t)o.idx] || used[(size_t)o.idx]) continue; used[(size_t)o.idx] = 2; live[(size_t)o.idx] = 0; }
      else { if (used[(size_t)o.idx] == 2) continue; used[(size_t)o.idx] = 1; live[(size_t)o.idx] = 1; }
      R.ops.push_back(o); any = true;
    }
    R.wrap = g.chance(1, 3);
    if (R.wrap) for (int e = 0; e < D.span; e++) if (live[(size_t)e] && !was[(size_t)e] && g.coin()) R.ops.push_back(DOp{(int)g.draw((uint64_t)n - 1), 3, e, 0});
    R.after = live; R.bc = (int)g.draw((uint64_t)n - 1);
    for (int e = 0; e < D.span; e++) if (live[(size_t)e]) { if (g.coin()) R.sends.push_back({(int)g.draw((uint64_t)n - 1), e}); if (g.chance(1, 3)) R.moves.push_back({e, (int)g.draw((uint64_t)n - 1)}); }
    D.rounds.push_back(R);
    g.note("round ", r, R.wrap ? " (inside an epoch)" : "", ":"); for (auto& o : R.ops) g.note(" ", (char const*[]){"insert", "insertAt", "destroy", "early-send"}[o.kind], "(", o.idx, o.kind == 1 ? pbt::cat("@", o.at) : "", " by ", o.rank, ")"); g.note(" moves:"); for (auto& m : R.moves) g.note(" ", m.first, "->", m.second); g.note("\n");
  }
  g.note(rt::show(c), "span=", D.span, " map=", D.map, " initial:"); for (int x : D.init) g.note(x); g.note("\n");
  g.nontrivial(n > 1 && any);
  auto Q = D;
  rt::run(g, c, [&](int me) {
    D = Q;
    std::vector<vt::Index1D> list; for (int e = 0; e < D.span; e++) if (D.init[(size_t)e]) list.emplace_back(e);
    auto p = vt::makeCollection<DE>("dyn"); p.bounds(vt::Index1D(D.span)).dynamicMembership(true);
    if (!list.empty()) p.listInsert(list);
    if (D.map) p.mapperFunc<scatter<vt::Index1D>>();
    auto proxy = p.wait();
    std::vector<int> want((size_t)D.span, 0), wsent((size_t)D.span, 0);
    int rn = 0;
    for (auto& R : D.rounds) {
      auto modify = [&] {
        for (auto& o : R.ops) if (o.kind == 3 && o.rank == me) proxy(o.idx).send<&DE::one>(o.idx);
        auto tok = proxy.beginModification();
        for (auto& o : R.ops) if (o.rank == me) {
          if (o.kind == 0) proxy[o.idx].insert(tok); else if (o.kind == 1) proxy[o.idx].insertAt(tok, (vt::NodeType)o.at); else if (o.kind == 2) proxy[o.idx].destroy(tok);
        }
        proxy.finishModification(std::move(tok));
      };
      if (R.wrap) vt::runInEpochCollective(modify); else modify();
      for (auto& o : R.ops) if (o.kind == 3) wsent[(size_t)o.idx]++;
      for (auto& i : vt::theCollection()->getLocalIndices(proxy)) { RT_CHECK(i.x() >= 0 && i.x() < D.span, "element-set", "element ", i.x()); dcell(rn, i.x())++; }
      vt::theCollective()->barrier();
      for (int e = 0; e < D.span; e++) RT_CHECK(dcell(rn, e) == R.after[(size_t)e], "element-set", "after the modifications of round ", rn, " element ", e, " exists ", dcell(rn, e), " times, not ", R.after[(size_t)e]);
      vt::runInEpochCollective([&] { if (me == R.bc) proxy.broadcast<&DE::bc>(1); });
      vt::runInEpochCollective([&] { for (auto& s : R.sends) if (s.first == me) proxy(s.second).send<&DE::one>(s.second); });
      for (int e = 0; e < D.span; e++) if (R.after[(size_t)e]) want[(size_t)e]++;
      for (auto& s : R.sends) wsent[(size_t)s.second]++;
      for (int e = 0; e < D.span; e++) {
        RT_CHECK(dhits(e) == want[(size_t)e], "broadcast", "element ", e, " ran ", dhits(e), " of ", want[(size_t)e], " broadcasts (round ", rn, ")");
        RT_CHECK(dsent(e) == wsent[(size_t)e], "delivery", "element ", e, " ran ", dsent(e), " of ", wsent[(size_t)e], " messages (round ", rn, ")");
      }
      vt::theCollective()->barrier();
      vt::runInEpochCollective([&] { for (auto& m : R.moves) if (m.first % D.n == me) proxy(m.first).send<&DE::mv>(m.second); });
      rn++;
    }
    vt::runInEpochCollective([&] { if (me == 0) proxy.destroy(); });
    RT_CHECK(born() == died(), "destruction", "of ", born(), " element objects ", died(), " were destroyed");
  });
}

// variant: rt
// C05: a message to a collection element runs exactly once, on it, wherever it has migrated
#include "common/col.h"
PBT_RULE("A case is a collection (1-3 dimensions, up to 24 elements, default or scattering map) over 1-6 simulated ranks and a random history of up to 60 messages in up to 3 epochs, sent by ranks and by elements' handlers in four forms (typed arguments, plain message, serialized message, free function), with handlers that migrate their element and optional rotation of all elements between the epochs; non-trivial: at least two ranks and an element migrated while messages were sent to it.");
namespace {
using col::Shape;
struct Msg { int phase, parent, origin /* rank for top-level */, to, kind, size, migrate /* -1 or rank */; bool hold; std::vector<int> kids; };
struct Prog { Shape s; int n = 1, phases = 1, map = 0, rotate = 0, many = 0; std::vector<Msg> msgs; };
Prog P;
int64_t& ran(int m) { return sim::shared()[m]; }
int64_t& got(int e) { return sim::shared()[1000 + e]; }
int64_t& moves(int e) { return sim::shared()[2000 + e]; }
int64_t& sum(int e) { return sim::shared()[3000 + e]; }
int64_t& where(int e) { return sim::shared()[4000 + e]; }
int64_t& last(int e) { return sim::shared()[7000 + e]; }
int64_t& seen(int e) { return sim::shared()[5000 + e]; }
int64_t hash(int64_t a) { return (int64_t)((uint64_t)(a + 1) * 0x9e3779b97f4a7c15ull); }
std::vector<vt::messaging::PendingSend> held;

template <class I> struct Elm;
template <class I> struct Small : vt::CollectionMessage<Elm<I>> { int id, from; };
template <class I> struct Big : vt::CollectionMessage<Elm<I>> {
  using MessageParentType = vt::CollectionMessage<Elm<I>>; vt_msg_serialize_required();
  int id, from; std::vector<int> v;
  template <class S> void serialize(S& s) { MessageParentType::serialize(s); s | id | from | v; }
};
template <class I> void free_fn(Elm<I>* e, int id, int from, std::vector<int> v);
template <class I> struct Elm : vt::Collection<Elm<I>, I> {
  int count = 0, moved = 0, chk = 0; int64_t acc = 0; bool moving = false; std::vector<int> log;
  template <class S> void serialize(S& s) {
    vt::Collection<Elm<I>, I>::serialize(s); s | count | moved | chk | acc | log;
    if (s.isUnpacking()) moving = false;
  }
  int me() { return col::Ix<I>::lin(P.s, this->getIndex()); }
  void preMigrateOut() override { moves(me())++; }
  void epiMigrateIn() override {
    RT_CHECK(count == got(me()), "state", "element ", me(), " arrives having counted ", count, " of ", got(me()), " messages");
    moved++; where(me()) = sim::rank();
  }
  void run(int id, int from) {
    int e = me();
    RT_CHECK(id >= 0 && id < (int)P.msgs.size(), "content", "message with unknown id ", id);
    Msg& M = P.msgs[(size_t)id];
    RT_CHECK(M.to == e, "misdelivered", "message ", id, " for element ", M.to, " ran on element ", e);
    int want = M.parent < 0 ? M.origin : -2 - M.parent;
    RT_CHECK(from == want, "content", "message ", id, " carries origin ", from);
    ++ran(id); sim::progress();
    RT_CHECK(ran(id) == 1, "duplicate", "message ", id, " ran ", ran(id), " times");
    RT_CHECK(count == got(e) && acc == sum(e) && (int)log.size() == count, "state", "element ", e, " has counted ", count, " (log ", log.size(), ") of ", got(e), " earlier messages, or their sum differs");
    RT_CHECK(moved == moves(e), "state", "element ", e, " remembers ", moved, " of ", moves(e), " migrations");
    count++; got(e)++; acc += hash(id); sum(e) += hash(id); log.push_back(id);
    RT_CHECK(!moves(e) || where(e) == sim::rank(), "misplaced", "element ", e, " runs on rank ", sim::rank(), " but arrived last on ", where(e));
    auto ctx = vt::theContext()->getFromNodeCurrentTask();
    if (M.parent < 0 && P.n == 1) RT_CHECK(ctx == 0, "from-node", "sender is ", ctx);
    size_t half = M.kids.size() / 2;
    for (size_t i = 0; i < half; i++) send(M.kids[i]);
    if (M.migrate >= 0 && M.migrate != sim::rank() && !moving && (P.many || last(e) != M.phase + 1)) {
      last(e) = M.phase + 1; moving = true; this->migrate(M.migrate); }
    for (size_t i = half; i < M.kids.size(); i++) send(M.kids[i]);
  }
  void small(Small<I>* m) { run(m->id, m->from); }
  void big(Big<I>* m) { check(m->id, m->v); run(m->id, m->from); }
  void args(int id, int from, std::vector<int> v) { check(id, v); run(id, from); }
  static void check(int id, std::vector<int> const& v) {
    RT_CHECK(id >= 0 && id < (int)P.msgs.size() && (int)v.size() == P.msgs[(size_t)id].size, "content", "message ", id, " arrives with ", v.size(), " values");
    for (size_t i = 0; i < v.size(); i++) RT_CHECK(v[i] == (int)(i * 7) + id, "content", "message ", id, " value ", i, " differs");
  }
  void fin() {
    int e = me(); seen(e)++;
    RT_CHECK(count == got(e) && acc == sum(e) && moved == moves(e), "state", "at the end element ", e, " has counted ", count, " of ", got(e), " messages and ", moved, " of ", moves(e), " migrations");
    for (size_t i = 0; i < log.size(); i++) RT_CHECK(P.msgs[(size_t)log[i]].to == e, "state", "log of element ", e, " holds message ", log[i]);
  }
  static inline vt::CollectionProxy<Elm<I>, I> proxy;
  static void send(int id) {
    Msg& M = P.msgs[(size_t)id]; int from = M.parent < 0 ? M.origin : -2 - M.parent;
    auto p = proxy(col::Ix<I>::at(P.s, M.to));
    auto vec = [&] { std::vector<int> v; for (int i = 0; i < M.size; i++) v.push_back(i * 7 + id); return v; };
    switch (M.kind) {
      case 0: { auto m = vt::makeMessage<Small<I>>(); m->id = id; m->from = from; hold(M, p.template sendMsg<Small<I>, &Elm<I>::small>(m)); break; }
      case 1: { auto m = vt::makeMessage<Big<I>>(); m->id = id; m->from = from; m->v = vec(); hold(M, p.template sendMsg<Big<I>, &Elm<I>::big>(m)); break; }
      case 2: hold(M, p.template send<&Elm<I>::args>(id, from, vec())); break;
      default: hold(M, p.template send<free_fn<I>>(id, from, vec())); break;
    }
  }
  static void hold(Msg& M, vt::messaging::PendingSend s) { if (M.hold) held.push_back(std::move(s)); }
};
template <class I> void free_fn(Elm<I>* e, int id, int from, std::vector<int> v) { Elm<I>::check(id, v); e->run(id, from); }
template <class I> vt::NodeType scatter(I* i, I* max, vt::NodeType n) { (void)max; return (vt::NodeType)col::scatter_rank((uint64_t)col::Ix<I>::lin(P.s, *i), n); }

template <class I> struct Run { static void run(Shape s, int me) {
  auto c = vt::makeCollection<Elm<I>>("c05"); c.bounds(col::Ix<I>::range(s)).bulkInsert();
  if (P.map == 1) c.template mapperFunc<scatter<I>>();
  auto proxy = c.wait();
  Elm<I>::proxy = proxy;
  vt::theCollective()->barrier();
  for (int ph = 0; ph < P.phases; ph++) {
    vt::runInEpochCollective([&] {
      for (size_t i = 0; i < P.msgs.size(); i++) if (P.msgs[i].parent < 0 && P.msgs[i].phase == ph && P.msgs[i].origin == me) { Elm<I>::send((int)i); if (i % 5 == 4) vt::theSched()->runSchedulerOnceImpl(); }
      held.clear();
    });
    for (size_t i = 0; i < P.msgs.size(); i++) if (P.msgs[i].phase == ph) RT_CHECK(ran((int)i) == 1, "delivery", "after its epoch message ", i, " to element ", P.msgs[i].to, " has run ", ran((int)i), " times");
    vt::theCollective()->barrier();
    if (P.rotate) {
      vt::thePhase()->nextPhaseCollective();
    }
    // every element lives exactly once, where it last arrived
    for (auto& x : vt::theCollection()->getLocalIndices(proxy)) { int e = col::Ix<I>::lin(s, x); sim::shared()[6000 + ph * 200 + e]++; RT_CHECK(!moves(e) || where(e) == me, "misplaced", "element ", e, " held by rank ", me, " arrived on ", where(e)); }
    vt::theCollective()->barrier();
    for (int e = 0; e < s.size(); e++) RT_CHECK(sim::shared()[6000 + ph * 200 + e] == 1, "element-set", "element ", e, " exists ", sim::shared()[6000 + ph * 200 + e], " times");
  }
  // groups follow migrations only when rebuilt, as balancing does
  vt::runInEpochCollective([] { vt::theCollection()->getTypelessHolder().invokeAllGroupConstructors(); });
  vt::runInEpochCollective([&] { if (me == 0) proxy.template broadcast<&Elm<I>::fin>(); });
  for (int e = 0; e < s.size(); e++) RT_CHECK(seen(e) == 1, "element-set", "broadcast reached element ", e, " ", seen(e), " times");
} };
} // namespace

PBT_TARGET(routing, Isolated, 2500, 100000) {
  rt::Opt o; auto c = rt::gen(g, o); int n = c.sim.n;
  P = Prog{}; P.n = n; P.s = col::shape(g, 24); P.map = (int)g.draw(1); P.phases = (int)g.range(1, 3);
  P.many = g.chance(1, 4); P.rotate = g.chance(1, 5);
  if (P.rotate) { c.args.push_back("--vt_lb"); c.args.push_back("--vt_lb_name=RotateLB"); c.args.push_back("--vt_lb_interval=1"); c.args.push_back("--vt_lb_run_lb_first_phase"); }
  if (g.chance(1, 4)) c.args.push_back("--vt_max_mpi_send_size=" + std::to_string(g.pick(std::vector<int>{600, 4000})));
  size_t nm = 2 + g.size(58); bool mig = false;
  int hot = (int)g.draw((uint64_t)P.s.size() - 1), hot_w = (int)g.draw(3);
  for (size_t i = 0; i < nm; i++) {
    Msg M{};
    M.parent = i && g.chance(1, 2) ? (int)g.draw(i - 1) : -1;
    M.to = (int)g.draw(3) < hot_w ? hot : (int)g.draw((uint64_t)P.s.size() - 1);
    M.kind = (int)g.draw(3); M.size = g.chance(1, 6) ? (int)g.range(100, 2500) : (int)g.range(0, 20);
    M.migrate = g.chance(1, 3) ? (int)g.draw((uint64_t)n - 1) : -1; mig |= M.migrate >= 0 && n > 1;
    M.hold = false;
    if (M.parent >= 0) { M.phase = P.msgs[(size_t)M.parent].phase; P.msgs[(size_t)M.parent].kids.push_back((int)i); }
    else { M.phase = (int)g.draw((uint64_t)P.phases - 1); M.origin = (int)g.draw((uint64_t)n - 1); M.hold = g.chance(1, 15); }
    P.msgs.push_back(M);
  }
  g.note(rt::show(c), col::show(P.s), " map=", P.map ? "scatter" : "block", " phases=", P.phases, P.rotate ? " rotate" : "", P.many ? " repeated migration" : "", "\n");
  for (size_t i = 0; i < nm; i++) { auto& M = P.msgs[i]; g.note("  msg", i, " phase=", M.phase, " ", M.parent < 0 ? pbt::cat("rank ", M.origin) : pbt::cat("msg ", M.parent), " -> elm ", M.to, " kind=", M.kind, " size=", M.size, M.migrate >= 0 ? pbt::cat(" then migrates to ", M.migrate) : "", M.hold ? " held" : "", "\n"); }
  g.label(pbt::cat(P.s.d, "d")); if (mig) g.label("migration"); if (P.rotate) g.label("rotation by the balancer");
  g.nontrivial(n > 1 && mig);
  Prog Q = P;
  try { rt::run(g, c, [&](int me) { P = Q; col::by_dim<Run>(P.s, me); }); }
  catch (pbt::Fail& f) {
    // without versions in the location records a late answer may replace newer knowledge (known finding)
    bool stuck = f.label == "hang" || f.msg.find("Detected hang") != std::string::npos;
    if (stuck && Q.many) f.label = "lost-when-migrating-repeatedly";
    throw;
  }
}

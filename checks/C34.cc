// variant: rt
// C34: what follows an event or asynchronous operation runs once, after it completed
#include "common/rt.h"
#include <vt/messaging/async_op_mpi.h>
PBT_RULE("events: a case is up to 14 events over 1-5 simulated ranks (triggered by hand; receives of MPI; parents of up to 4 events of their rank, also of other parents) and up to 24 actions attached by any rank before, while and after they complete (some running the scheduler, some attaching more, some to the event that stands for a remote one); non-trivial: an action attached by another rank before the event completed and a parent with two events. ops: a case is up to 16 asynchronous operations (polled, or receives of MPI) registered in collective and rooted epochs by ranks, handlers and continuations of others, with continuations that send messages, register operations and run the scheduler; non-trivial: an operation registered by a continuation and one in a rooted epoch.");
namespace {
struct Ev { int type = 0, rank = 0, src = 0, hold = 0; std::vector<int> kids; };
struct Att { int e = 0, rank = 0, hold = 0, nest = 0, next = -1; bool inner = false, back = false; };
struct Prog { int n = 1; std::vector<Ev> es; std::vector<Att> as; } P;
int64_t& evid(int e) { return sim::shared()[e]; }
int64_t& done(int e) { return sim::shared()[100 + e]; }
int64_t& ran(int a) { return sim::shared()[1000 + a]; }
int64_t& early(int a) { return sim::shared()[2000 + a]; }
int64_t& sentback() { return sim::shared()[3000 + sim::rank()]; }
int64_t buf[64], out[64];
bool complete(int e) { auto& E = P.es[(size_t)e]; if (E.type == 0) return done(e); if (E.type == 1) return E.rank == sim::rank() ? buf[e] == 7000 + e : done(e) != 0; for (int k : E.kids) if (!complete(k)) return false; return true; }
void attach(int a, vt::EventType ev);
void action(int a) {
  auto& A = P.as[(size_t)a]; RT_CHECK(sim::rank() == A.rank, "place", "action ", a, " attached by rank ", A.rank, " runs on ", sim::rank());
  RT_CHECK(complete(A.e), "early", "action ", a, " runs before event ", A.e, " is complete");
  RT_CHECK(++ran(a) == 1, "twice", "action ", a, " of event ", A.e, " ran ", ran(a), " times"); sim::progress();
  if (A.next >= 0 && P.as[(size_t)A.next].inner) attach(A.next, (vt::EventType)(evid(A.e) - 1));
  for (int i = 0; i < A.nest; i++) vt::theSched()->runSchedulerOnceImpl();
}
void attach(int a, vt::EventType ev) {
  auto& A = P.as[(size_t)a]; early(a) = !complete(A.e); auto r = vt::theEvent()->attachAction(ev, [a] { action(a); });
  if (A.next >= 0 && P.as[(size_t)A.next].back) { if (r == vt::no_event) attach(A.next, ev); else attach(A.next, r); }
}
void body(int me) {
  auto* T = vt::theEvent();
  for (size_t e = 0; e < P.es.size(); e++) {
    auto& E = P.es[e]; if (E.rank != me) continue; vt::EventType id = vt::no_event;
    if (E.type == 0) id = T->createNormalEvent((vt::NodeType)me);
    else if (E.type == 1) { id = T->createMPIEvent((vt::NodeType)me); MPI_Irecv(&buf[e], 8, MPI_BYTE, E.src, 9000 + (int)e, MPI_COMM_WORLD, T->getEventHolder(id).get_event()->getRequest()); }
    else { id = T->createParentEvent((vt::NodeType)me); for (int k : E.kids) T->getEventHolder(id).get_event()->addEventToList((vt::EventType)(evid(k) - 1)); }
    RT_CHECK(T->getOwningNode(id) == me, "owner", "event ", e, " of rank ", me, " is owned by ", T->getOwningNode(id));
    for (size_t o = 0; o < P.es.size(); o++) RT_CHECK(evid((int)o) != (int64_t)id + 1, "identifier", "events ", o, " and ", e, " have the same identifier"); evid((int)e) = (int64_t)id + 1;
  }
  vt::theCollective()->barrier();
  std::vector<std::pair<int, std::function<void()>>> ops;
  for (size_t e = 0; e < P.es.size(); e++) {
    auto& E = P.es[e];
    if (E.type == 0 && E.rank == me) ops.push_back({E.hold, [e, T] { auto id = (vt::EventType)(evid((int)e) - 1); RT_CHECK(T->testEventComplete(id) == vt::event::EventState::EventWaiting, "state", "event ", e, " is not waiting"); done((int)e) = 1; T->getEventHolder(id).makeReadyTrigger(); }});
    if (E.type == 1 && E.src == me) ops.push_back({E.hold, [e, T, me] {
      auto id = T->createMPIEvent((vt::NodeType)me); out[e] = 7000 + (int64_t)e; done((int)e) = 1; MPI_Isend(&out[e], 8, MPI_BYTE, P.es[e].rank, 9000 + (int)e, MPI_COMM_WORLD, T->getEventHolder(id).get_event()->getRequest()); T->attachAction(id, [] { sentback()++; }); }});
  }
  for (size_t a = 0; a < P.as.size(); a++) if (P.as[a].rank == me && !P.as[a].inner && !P.as[a].back) ops.push_back({P.as[a].hold, [a] { attach((int)a, (vt::EventType)(evid(P.as[a].e) - 1)); }});
  std::stable_sort(ops.begin(), ops.end(), [](auto& a, auto& b) { return a.first < b.first; }); int now = 0;
  for (auto& [t, f] : ops) { for (; now < t; now++) vt::theSched()->runSchedulerOnceImpl(); f(); }
  int sends = 0; for (auto& E : P.es) sends += E.type == 1 && E.src == me;
  vt::theSched()->runSchedulerWhile([&] { if (sentback() < sends) return true; for (size_t a = 0; a < P.as.size(); a++) if (P.as[a].rank == me && !ran((int)a)) return true; return false; });
  for (size_t e = 0; e < P.es.size(); e++) if (P.es[e].rank == me) vt::theSched()->runSchedulerWhile([&] { return T->testEventComplete((vt::EventType)(evid((int)e) - 1)) != vt::event::EventState::EventReady; });
  vt::theCollective()->barrier();
  for (size_t e = 0; e < P.es.size(); e++) { RT_CHECK(complete((int)e) || P.es[e].rank != me, "early", "event ", e, " is ready before it is complete"); if (P.es[e].rank != me) RT_CHECK(T->testEventComplete((vt::EventType)(evid((int)e) - 1)) == vt::event::EventState::EventRemote, "state", "event ", e, " of rank ", P.es[e].rank, " is not remote on ", me); }
  for (size_t a = 0; a < P.as.size(); a++) RT_CHECK(ran((int)a) == 1, "twice", "action ", a, " ran ", ran((int)a), " times at the end"); RT_CHECK(sentback() == sends, "twice", "actions of ", sends, " sends ran ", sentback(), " times");
}
struct Op { int phase = 0, rank = 0, kind = 0, src = 0, polls = 0, hold = 0, by = -1, nest = 0, send = -1; bool own = false, viaMsg = false; std::vector<int> kids; };
struct OProg { int n = 1, phases = 1; std::vector<Op> os; } O;
int64_t& odone(int o) { return sim::shared()[o]; }
int64_t& ogone(int o) { return sim::shared()[100 + o]; }
int64_t& oarr(int o) { return sim::shared()[200 + o]; }
void reg(int o);
void arrived(int o) { oarr(o)++; sim::progress(); }
void cont(int o, vt::EpochType ep) {
  auto& X = O.os[(size_t)o]; RT_CHECK(sim::rank() == X.rank, "place", "operation ", o); if (X.kind == 1) RT_CHECK(buf[o] == 7000 + o, "early", "operation ", o, " continues before its data is there");
  RT_CHECK(++odone(o) == 1, "twice", "operation ", o, " continued ", odone(o), " times"); RT_CHECK(ogone(o) == 0, "lifetime", "operation ", o, " is gone before it continued"); sim::progress();
  vt::theMsg()->pushEpoch(ep); for (int k : X.kids) reg(k); if (X.send >= 0) vt::theMsg()->send<arrived>(vt::Node{(vt::NodeType)X.send}, o); vt::theMsg()->popEpoch(ep);
  for (int i = 0; i < X.nest; i++) vt::theSched()->runSchedulerOnceImpl();
}
struct Polled : vt::messaging::AsyncOp {
  int id, left; bool ready = false; Polled(int i, int l) : id(i), left(l) { }
  ~Polled() override { RT_CHECK(odone(id) == 1 && ++ogone(id) == 1, "lifetime", "operation ", id, " that continued ", odone(id), " times is gone ", ogone(id), " times"); }
  bool poll() override { RT_CHECK(!ready, "polled", "operation ", id, " is polled after it was ready"); if (left-- > 0) return false; return ready = true; }
  void done() override { RT_CHECK(ready, "early", "operation ", id, " continues before it is ready"); cont(id, cur_epoch_); }
};
void reg(int o) {
  auto& X = O.os[(size_t)o]; RT_CHECK(sim::rank() == X.rank, "harness", "operation ", o);
  if (X.kind == 0) vt::theMsg()->registerAsyncOp(std::make_unique<Polled>(o, X.polls));
  else { auto ep = vt::theMsg()->getEpoch(); MPI_Request r; MPI_Irecv(&buf[o], 8, MPI_BYTE, X.src, 9000 + o, MPI_COMM_WORLD, &r); vt::theMsg()->registerAsyncOp(std::make_unique<vt::messaging::AsyncOpMPI>(r, [o, ep] { cont(o, ep); })); }
}
void please(int o) { reg(o); }
bool below(int o, int top) { for (; o >= 0; o = O.os[(size_t)o].by) if (o == top) return true; return false; }
void over(int o, char const* what) { auto& X = O.os[(size_t)o]; RT_CHECK(odone(o) == 1, "lost", "operation ", o, " continued ", odone(o), " times when its ", what, " epoch ended"); RT_CHECK(X.send < 0 || oarr(o) == 1, "lost", "the message of operation ", o, " ran ", oarr(o), " times when its ", what, " epoch ended"); if (X.kind == 0) RT_CHECK(ogone(o) == 1, "lifetime", "operation ", o, " is still there when its epoch ended"); }
void obody(int me) {
  for (int ph = 0; ph < O.phases; ph++) {
    for (size_t o = 0; o < O.os.size(); o++) if (O.os[o].phase == ph && O.os[o].kind == 1 && O.os[o].src == me) out[o] = 7000 + (int64_t)o;
    std::vector<MPI_Request> rs; rs.reserve(64);
    vt::runInEpochCollective([&] {
      std::vector<std::pair<int, std::function<void()>>> ops;
      for (size_t i = 0; i < O.os.size(); i++) { auto& X = O.os[i]; int o = (int)i; if (X.phase != ph) continue;
        if (X.kind == 1 && X.src == me) ops.push_back({X.hold / 2, [&rs, o] { rs.emplace_back(); MPI_Isend(&out[o], 8, MPI_BYTE, O.os[(size_t)o].rank, 9000 + o, MPI_COMM_WORLD, &rs.back()); }});
        if (X.by >= 0) continue;
        if (X.viaMsg) { if (me == (X.rank + 1) % O.n) ops.push_back({X.hold, [o] { vt::theMsg()->send<please>(vt::Node{(vt::NodeType)O.os[(size_t)o].rank}, o); }}); }
        else if (X.rank == me && !X.own) ops.push_back({X.hold, [o] { reg(o); }});
      }
      std::stable_sort(ops.begin(), ops.end(), [](auto& a, auto& b) { return a.first < b.first; }); int now = 0;
      for (auto& [t, f] : ops) { for (; now < t; now++) vt::theSched()->runSchedulerOnceImpl(); f(); }
      for (size_t o = 0; o < O.os.size(); o++) if (O.os[o].phase == ph && O.os[o].own && O.os[o].by < 0 && O.os[o].rank == me) {
        vt::runInEpochRooted([o] { reg((int)o); });
        for (size_t k = 0; k < O.os.size(); k++) if (below((int)k, (int)o)) over((int)k, "rooted");
      }
    });
    for (size_t o = 0; o < O.os.size(); o++) if (O.os[o].phase == ph) over((int)o, "collective");
    for (auto& r : rs) { int f = 0; vt::theSched()->runSchedulerWhile([&] { MPI_Test(&r, &f, MPI_STATUS_IGNORE); return !f; }); }
    vt::theCollective()->barrier();
  }
}
} // namespace

PBT_TARGET(events, Isolated, 2500, 100000) {
  auto c = rt::gen(g, rt::Opt{g.chance(1, 6) ? 1 : 2, 5, true}); P = Prog{}; int n = P.n = c.sim.n; auto rr = [&] { return (int)g.draw((uint64_t)n - 1); }; auto hold = [&] { return g.chance(2, 3) ? (int)g.draw(25) : 0; };
  int ne = (int)g.range(1, 14); bool two = false, far = false;
  for (int e = 0; e < ne; e++) {
    Ev x; x.type = (int)g.weighted({3, 2, 2}); x.rank = rr(); x.src = rr(); x.hold = hold();
    if (x.type == 2) { if (e) x.rank = P.es[g.draw((uint64_t)e - 1)].rank; std::vector<int> may; for (int k = 0; k < e; k++) if (P.es[(size_t)k].rank == x.rank) may.push_back(k); for (int k : may) if (x.kids.size() < 4 && g.chance(2, 3)) x.kids.push_back(k); two |= x.kids.size() > 1; }
    P.es.push_back(x);
  }
  int na = (int)g.range(1, 24);
  for (int a = 0; a < na; a++) {
    Att x; x.e = (int)g.draw((uint64_t)ne - 1); x.rank = rr(); x.hold = hold(); x.nest = g.chance(1, 4) ? (int)g.range(1, 4) : 0;
    if (a && g.chance(1, 3)) { int p = (int)g.draw((uint64_t)a - 1); if (P.as[(size_t)p].next < 0) { auto& Q = P.as[(size_t)p]; Q.next = a; x.e = Q.e; x.rank = Q.rank; (g.coin() ? x.inner : x.back) = true; g.label(x.inner ? "attached by an action" : "attached to the returned event"); } }
    far |= x.rank != P.es[(size_t)x.e].rank; if (x.nest) g.label("action runs the scheduler"); P.as.push_back(x);
  }
  for (size_t e = 0; e < P.es.size(); e++) { auto& x = P.es[e]; g.note("event ", e, " on ", x.rank, x.type == 0 ? pbt::cat(" triggered +", x.hold) : x.type == 1 ? pbt::cat(" receives from ", x.src, " +", x.hold) : std::string(" parent of")); for (int k : x.kids) g.note(" ", k); g.note("\n"); }
  for (size_t a = 0; a < P.as.size(); a++) { auto& x = P.as[a]; g.note("action ", a, " of event ", x.e, " by rank ", x.rank, " +", x.hold, x.inner ? " attached by an action" : x.back ? " attached to the returned event" : "", x.next >= 0 ? pbt::cat(", then ", x.next) : std::string(), x.nest ? pbt::cat(", runs the scheduler ", x.nest, " times") : std::string(), "\n"); }
  g.note(rt::show(c)); Prog Q = P;
  rt::run(g, c, [&](int me) { P = Q; body(me); }); bool waited = false; for (size_t a = 0; a < P.as.size(); a++) waited |= early((int)a) && P.as[a].rank != P.es[(size_t)P.as[a].e].rank;
  if (waited) g.label("attached from afar before completion"); g.nontrivial(far && two && waited);
}
PBT_TARGET(ops, Isolated, 2500, 100000) {
  auto c = rt::gen(g, rt::Opt{1, 5, true}); O = OProg{}; int n = O.n = c.sim.n; O.phases = (int)g.range(1, 2); auto rr = [&] { return (int)g.draw((uint64_t)n - 1); }; bool chain = false, own = false;
  int no = (int)g.range(1, 16);
  for (int o = 0; o < no; o++) {
    Op x; x.phase = (int)g.draw((uint64_t)O.phases - 1); x.rank = rr(); x.kind = g.chance(1, 3); x.src = rr(); x.polls = (int)g.draw(g.coin() ? 3 : 30); x.hold = g.chance(1, 2) ? (int)g.draw(20) : 0; x.nest = g.chance(1, 4) ? (int)g.range(1, 4) : 0; if (g.coin()) x.send = rr();
    if (o && g.chance(2, 5)) { x.by = (int)g.draw((uint64_t)o - 1); auto& Q = O.os[(size_t)x.by]; Q.kids.push_back(o); x.rank = Q.rank; x.phase = Q.phase; chain = true; }
    else if (g.chance(1, 4)) x.own = own = true; else x.viaMsg = g.chance(1, 4);
    O.os.push_back(x);
  }
  // nobody may send what a rooted epoch of the sender waits for: those epochs receive nothing
  for (size_t o = 0; o < O.os.size(); o++) { int r = (int)o; while (O.os[(size_t)r].by >= 0) r = O.os[(size_t)r].by; if (O.os[(size_t)r].own) O.os[o].kind = 0; if (O.os[o].nest) g.label("continuation runs the scheduler"); }
  for (size_t o = 0; o < O.os.size(); o++) { auto& x = O.os[o]; g.note("phase ", x.phase, ": operation ", o, " on ", x.rank, x.kind ? pbt::cat(" receives from ", x.src) : pbt::cat(" polled ", x.polls + 1, " times"), x.by >= 0 ? pbt::cat(" registered by ", x.by) : x.own ? pbt::cat(" in an epoch of its own") : pbt::cat(x.viaMsg ? " through a message +" : " +", x.hold), x.send >= 0 ? pbt::cat(", sends to ", x.send) : std::string(), x.nest ? pbt::cat(", runs the scheduler ", x.nest, " times") : std::string(), "\n"); }
  g.note(rt::show(c)); g.nontrivial(chain && own); OProg Q = O;
  rt::run(g, c, [&](int me) { O = Q; obody(me); });
}

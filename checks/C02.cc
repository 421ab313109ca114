// variant: rt
// C02: an epoch ends if and only if all work caused in it (and nested in it) is done; actions run once, then
#include "common/rt.h"
#include <algorithm>
#include <set>
PBT_RULE("A case is a random program over 1-6 simulated ranks: up to 3 phases of concurrently open collective epochs (nested or not), rooted epochs (wave and Dijkstra-Scholten) opened at top level, by handlers without waiting, or by handlers which wait inside, up to 40 messages (sent by rank programs or by handlers, inheriting or naming an epoch) and actions attached to epochs, with a random schedule; non-trivial: at least two ranks, one message caused by another message, and one message crossing ranks.");
namespace {
struct Ep { int phase, coll, root, parent /* static, -1 none */, ds, by_msg /* handler that opens it, -1 top level */, block, api; std::vector<int> msgs; };
struct Msg { int phase, epoch /* of top-level sends and first messages of handler-opened epochs; -2 inherit; -3 name `alt` */, alt, origin, dest, kind, parent; std::vector<int> kids, opens; int exec; };
struct Act { int epoch, rank, encap /* epoch current when attached, -1 none */, late, uniq, sends /* message issued by the action or -1 */; };
struct Unit { enum { Send, Open, Finish, Wait, Action, Poll, Spin } k; int a; };
struct Prog { std::vector<Ep> eps; std::vector<Msg> msgs; std::vector<Act> acts; std::vector<std::vector<std::vector<Unit>>> todo; /* [phase][rank] */ int n, phases; };
Prog P;
int64_t* W(int base, int i) { return sim::shared() + base + i; }
int64_t& eid(int e) { return *W(0, e); }           // id + 1
int64_t& dyn_parent(int e) { return *W(100, e); }  // index + 2
int64_t& ended(int e) { return *W(200, e); }
int64_t& issued(int m) { return *W(300, m); }      // epoch index + 2, 0 = not yet
int64_t& ran(int m) { return *W(400, m); }
int64_t& act_ran(int a) { return *W(500, a); }
int64_t& act_on(int a) { return *W(600, a); }      // attached
std::vector<char> fin, opened;                     // this rank
std::vector<vt::EpochType> eps;                    // this rank's view
int ndest(Msg const& m) { return m.dest < 0 ? P.n : 1; }
bool below(int e, int anc) { for (int k = 0; e >= 0 && k < 100; k++) { if (e == anc) return true; e = (int)dyn_parent(e) - 2; } return false; }
std::string ep_name(int e) { return e < 0 ? std::string("none") : pbt::cat(P.eps[(size_t)e].coll ? "collective" : P.eps[(size_t)e].ds ? "rooted-ds" : "rooted", " epoch ", e); }

void check_end(int e, char const* how) {
  for (size_t m = 0; m < P.msgs.size(); m++) {
    Msg& M = P.msgs[m];
    if (issued((int)m)) {
      int ie = (int)issued((int)m) - 2;
      if (ie >= 0 && below(ie, e))
        RT_CHECK(ran((int)m) == ndest(M), "early", how, " says ", ep_name(e), " has ended, but message ", m, " sent in ", ep_name(ie), " has run ", ran((int)m), " of ", ndest(M), " times");
    } else if (M.parent < 0 && M.epoch >= 0 && eid(M.epoch) && below(M.epoch, e))
      RT_CHECK(false, "early", how, " says ", ep_name(e), " has ended, but rank ", M.origin, " has not yet sent message ", m, " in ", ep_name(M.epoch), " and not finished it");
  }
  for (size_t a = 0; a < P.acts.size(); a++)
    if (act_on((int)a) && P.acts[a].encap >= 0 && below(P.acts[a].encap, e))
      RT_CHECK(act_ran((int)a) == 1, "early", how, " says ", ep_name(e), " has ended, but action ", a, " on ", ep_name(P.acts[a].epoch), " attached in ", ep_name(P.acts[a].encap), " has not run");
  ended(e) = 1;
}
vt::EpochType cur() { return vt::theMsg()->getEpoch(); }
int find_ep(vt::EpochType x) {
  // innermost live program epoch with this id
  for (size_t e = 0; e < P.eps.size(); e++) if (eid((int)e) && !ended((int)e) && (int64_t)*x + 1 == eid((int)e)) return (int)e;
  return -1;
}
template <int N> struct Pod : vt::Message { int id; char b[N]; };
struct Ser : vt::Message {
  using MessageParentType = vt::Message; vt_msg_serialize_required();
  int id; std::vector<int> v; template <class S> void serialize(S& s) { MessageParentType::serialize(s); s | id | v; }
};
void handle(int id);
template <int N> void podh(Pod<N>* m) { handle(m->id); }
void serh(Ser* m) { handle(m->id); }
void parh(int id, std::string const&) { handle(id); }
void issue(int id, int e) { // e: index of the epoch to use, current one if it is current
  Msg& M = P.msgs[(size_t)id];
  RT_CHECK(!issued(id), "harness", "message ", id, " sent twice");
  issued(id) = e + 2;
  switch (M.kind) {
    case 0: { auto m = vt::makeMessage<Pod<16>>(); m->id = id; if (M.dest < 0) vt::theMsg()->broadcastMsg<podh<16>>(m); else vt::theMsg()->sendMsg<podh<16>>(M.dest, m); break; }
    case 1: { auto m = vt::makeMessage<Pod<3000>>(); m->id = id; if (M.dest < 0) vt::theMsg()->broadcastMsg<podh<3000>>(m); else vt::theMsg()->sendMsg<podh<3000>>(M.dest, m); break; }
    case 2: { auto m = vt::makeMessage<Ser>(); m->id = id; m->v.assign((size_t)(id * 13 % 700), id); if (M.dest < 0) vt::theMsg()->broadcastMsg<serh>(m); else vt::theMsg()->sendMsg<serh>(M.dest, m); break; }
    default: if (M.dest < 0) vt::theMsg()->broadcast<parh>(id, std::string((size_t)(id % 40), 'c')); else vt::theMsg()->send<parh>(vt::Node{(vt::NodeType)M.dest}, id, std::string((size_t)(id % 40), 'c'));
  }
}
void issue_in(int id, int e) { vt::theMsg()->pushEpoch(eps[(size_t)e]); issue(id, e); vt::theMsg()->popEpoch(eps[(size_t)e]); }
void note_epoch(int e, vt::EpochType x, int parent) { eps[(size_t)e] = x; eid(e) = (int64_t)*x + 1; dyn_parent(e) = parent + 2; ended(e) = 0; opened[(size_t)e] = 1; }

void attach(int a, int at_epoch) {
  Act& A = P.acts[(size_t)a];
  act_on(a) = 1;
  auto body = [a] {
    Act& A = P.acts[(size_t)a];
    RT_CHECK(sim::rank() == A.rank, "action", "action ", a, " runs on rank ", sim::rank());
    ++act_ran(a); sim::progress();
    RT_CHECK(act_ran(a) == 1, "action", "action ", a, " on ", ep_name(A.epoch), " ran ", act_ran(a), " times");
    check_end(A.epoch, "an attached action");
    if (A.sends >= 0 && A.encap >= 0) { RT_CHECK(eid(A.encap) == (int64_t)*cur() + 1, "action-epoch", "action ", a, " attached in ", ep_name(A.encap), " runs in another epoch"); issue(A.sends, A.encap); }
  };
  (void)at_epoch;
  if (A.uniq) vt::theTerm()->addActionUnique(eps[(size_t)A.epoch], std::move(body));
  else vt::theTerm()->addAction(eps[(size_t)A.epoch], body);
}
void handle(int id) {
  int me = sim::rank();
  RT_CHECK(id >= 0 && id < (int)P.msgs.size(), "harness", "bad id ", id);
  Msg& M = P.msgs[(size_t)id];
  int e = (int)issued(id) - 2;
  ++ran(id); sim::progress();
  RT_CHECK(ran(id) <= ndest(M), "harness", "message ", id, " ran ", ran(id), " times");
  if (e >= 0) {
    RT_CHECK(eid(e) == (int64_t)*cur() + 1, "epoch", "message ", id, " sent in ", ep_name(e), " runs in another epoch");
    for (int x = e; x >= 0; x = (int)dyn_parent(x) - 2) RT_CHECK(!ended(x), "early", "message ", id, " of ", ep_name(e), " runs after ", ep_name(x), " ended");
  }
  if (M.dest < 0 && me != M.exec) return;
  size_t half = M.kids.size() / 2;
  auto kid = [&](int k) {
    Msg& K = P.msgs[(size_t)k];
    if (K.epoch == -3 && K.alt >= 0 && opened[(size_t)K.alt] && !fin[(size_t)K.alt]) issue_in(k, K.alt); else issue(k, e);
  };
  for (size_t i = 0; i < half; i++) kid(M.kids[i]);
  for (int x : M.opens) {
    Ep& E = P.eps[(size_t)x];
    auto send_all = [&] { for (int m : E.msgs) issue(m, x); };
    if (E.block && E.api == 0) {
      // returns when the nested epoch is over
      vt::runInEpochRooted("nested", [&] { note_epoch(x, cur(), e); send_all(); fin[(size_t)x] = 1; });
      check_end(x, "runInEpochRooted");
    } else {
      auto ep = vt::theTerm()->makeEpochRooted("by handler", vt::term::UseDS{(bool)E.ds});
      note_epoch(x, ep, e);
      for (size_t a = 0; a < P.acts.size(); a++) if (P.acts[a].epoch == x) attach((int)a, e);
      vt::theMsg()->pushEpoch(ep); send_all(); vt::theMsg()->popEpoch(ep);
      fin[(size_t)x] = 1; vt::theTerm()->finishedEpoch(ep);
      if (E.block) { vt::runSchedulerThrough(ep); check_end(x, "runSchedulerThrough in a handler"); }
    }
  }
  for (size_t i = half; i < M.kids.size(); i++) kid(M.kids[i]);
}
void poll_all(int me) {
  for (size_t x = 0; x < P.eps.size(); x++) if (opened[x] && (P.eps[x].coll || P.eps[x].root == me) && !ended((int)x) && eid((int)x) == (int64_t)*eps[x] + 1)
    if (vt::theTerm()->isEpochTerminated(eps[x])) check_end((int)x, "isEpochTerminated");
}
void generate(pbt::Gen& g, int n) {
  P = Prog{}; P.n = n; P.phases = (int)g.range(1, 3);
  P.todo.assign((size_t)P.phases, std::vector<std::vector<Unit>>((size_t)n));
  size_t budget = 2 + g.size(38);
  auto rnd_rank = [&] { return (int)g.draw((uint64_t)n - 1); };
  auto dest = [&] { return g.chance(1, 6) ? -1 : rnd_rank(); };
  for (int ph = 0; ph < P.phases; ph++) {
    std::vector<int> tops;
    int nc = (int)g.range(1, 3);
    for (int i = 0; i < nc; i++) {
      Ep E{ph, 1, -1, -1, 0, -1, 0, (int)g.draw(2), {}};
      if (i && g.coin()) E.parent = tops[g.draw(tops.size() - 1)];
      tops.push_back((int)P.eps.size()); P.eps.push_back(E);
    }
    int nr = (int)g.draw(2);
    for (int i = 0; i < nr; i++) {
      Ep E{ph, 0, rnd_rank(), -1, (int)g.coin(), -1, (int)g.coin(), (int)g.draw(1), {}};
      if (g.chance(2, 3)) E.parent = tops[g.draw((uint64_t)nc - 1)];
      tops.push_back((int)P.eps.size()); P.eps.push_back(E);
    }
    size_t mine = std::min<size_t>(budget, 1 + g.draw(budget)); budget -= mine;
    size_t first = P.msgs.size();
    for (size_t i = 0; i < mine; i++) {
      Msg M{ph, -2, -1, 0, dest(), (int)g.draw(3), -1, {}, {}, 0};
      M.exec = M.dest < 0 ? rnd_rank() : M.dest;
      int id = (int)P.msgs.size();
      if (P.msgs.size() > first && g.chance(3, 5)) {
        int p = (int)g.range((int64_t)first, (int64_t)P.msgs.size() - 1);
        M.parent = p; M.origin = P.msgs[(size_t)p].exec;
        int how = (int)g.weighted({5, 2, 3});
        if (how == 1) { M.epoch = -3; M.alt = tops[g.draw((uint64_t)nc - 1)]; P.msgs[(size_t)p].kids.push_back(id); }
        else if (how == 2 && P.eps.size() < 40) {
          // a rooted epoch opened by the handler of p
          int x = -1; for (int o : P.msgs[(size_t)p].opens) if (g.coin()) x = o;
          if (x < 0) { x = (int)P.eps.size(); P.eps.push_back(Ep{ph, 0, M.origin, -1, (int)g.coin(), p, (int)g.chance(1, 3), (int)g.coin(), {}}); P.msgs[(size_t)p].opens.push_back(x); }
          M.epoch = x; P.eps[(size_t)x].msgs.push_back(id);
        } else P.msgs[(size_t)p].kids.push_back(id);
      } else {
        int e = tops[g.draw(tops.size() - 1)];
        M.epoch = e; M.origin = P.eps[(size_t)e].coll ? rnd_rank() : P.eps[(size_t)e].root;
      }
      P.msgs.push_back(M);
    }
    // actions
    int na = (int)g.draw(4);
    std::vector<int> top_acts;
    for (int i = 0; i < na; i++) {
      Act A{}; A.sends = -1; A.encap = -1;
      std::vector<int> cand = tops; for (size_t x = 0; x < P.eps.size(); x++) if (P.eps[x].phase == ph && P.eps[x].by_msg >= 0 && !(P.eps[x].block && P.eps[x].api == 0)) cand.push_back((int)x);
      A.epoch = g.pick(cand); Ep& E = P.eps[(size_t)A.epoch];
      A.rank = E.coll ? rnd_rank() : E.root; A.uniq = (int)g.coin(); A.late = (int)g.chance(1, 4);
      if (E.by_msg < 0) {
        if (g.coin()) { // attach while another collective epoch of the phase is current: must not be nested in the awaited one
          int q = tops[g.draw((uint64_t)nc - 1)];
          // the epoch it is attached in then waits for the awaited one: never let that become a circle
          std::set<int> reach{A.epoch};
          for (bool more = true; more;) {
            more = false;
            for (size_t x = 0; x < P.eps.size(); x++) if (P.eps[x].parent >= 0 && reach.count(P.eps[x].parent)) more |= reach.insert((int)x).second;
            for (auto& B : P.acts) if (B.encap >= 0 && reach.count(B.encap)) more |= reach.insert(B.epoch).second;
          }
          bool bad = reach.count(q) != 0;
          if (!E.coll && A.late) bad = true;
          if (!bad) { A.encap = q; if (g.coin()) { Msg M{ph, -4, -1, A.rank, dest(), (int)g.draw(3), 1 << 20, {}, {}, 0}; M.exec = M.dest < 0 ? rnd_rank() : M.dest; A.sends = (int)P.msgs.size(); P.msgs.push_back(M); } }
        }
        top_acts.push_back((int)P.acts.size());
      } else A.late = 0;
      P.acts.push_back(A);
    }
    // what each rank does at top level
    for (int r = 0; r < n; r++) {
      auto& T = P.todo[(size_t)ph][(size_t)r];
      for (int e : tops) if (P.eps[(size_t)e].coll) T.push_back({Unit::Open, e});
      std::vector<Unit> rest;
      std::map<int, int> uses;
      for (size_t m = first; m < P.msgs.size(); m++) if (P.msgs[m].parent < 0 && P.msgs[m].origin == r && P.msgs[m].epoch >= 0 && P.eps[(size_t)P.msgs[m].epoch].coll) { rest.push_back({Unit::Send, (int)m}); uses[P.msgs[m].epoch]++; }
      for (int e : tops) if (!P.eps[(size_t)e].coll && P.eps[(size_t)e].root == r) {
        rest.push_back({Unit::Open, e}); if (P.eps[(size_t)e].parent >= 0) uses[P.eps[(size_t)e].parent]++;
        for (int a : top_acts) if (P.acts[(size_t)a].epoch == e && P.acts[(size_t)a].encap >= 0) uses[P.acts[(size_t)a].encap]++;
      }
      for (int a : top_acts) if (P.acts[(size_t)a].rank == r && P.eps[(size_t)P.acts[(size_t)a].epoch].coll) { rest.push_back({Unit::Action, a}); if (P.acts[(size_t)a].encap >= 0) uses[P.acts[(size_t)a].encap]++; if (!P.acts[(size_t)a].late) uses[P.acts[(size_t)a].epoch]++; }
      int np = (int)g.draw(2); for (int i = 0; i < np; i++) rest.push_back({g.coin() ? Unit::Poll : Unit::Spin, 0});
      auto perm = g.perm(rest.size());
      std::vector<int> left; for (int e : tops) if (P.eps[(size_t)e].coll) left.push_back(e);
      auto finish_some = [&](bool all) {
        for (size_t i = 0; i < left.size();) if (uses[left[i]] == 0 && (all || g.chance(1, 3))) { T.push_back({Unit::Finish, left[i]}); left.erase(left.begin() + (long)i); } else i++;
      };
      std::vector<Unit> lateacts;
      for (auto i : perm) {
        Unit u = rest[i]; finish_some(false); T.push_back(u);
        if (u.k == Unit::Send) uses[P.msgs[(size_t)u.a].epoch]--;
        if (u.k == Unit::Open && P.eps[(size_t)u.a].parent >= 0) uses[P.eps[(size_t)u.a].parent]--;
        if (u.k == Unit::Open) for (int a : top_acts) if (P.acts[(size_t)a].epoch == u.a && P.acts[(size_t)a].encap >= 0) uses[P.acts[(size_t)a].encap]--;
        if (u.k == Unit::Action) { auto& A = P.acts[(size_t)u.a]; if (A.encap >= 0) uses[A.encap]--; if (!A.late) uses[A.epoch]--; }
      }
      if (g.coin() && left.size() > 1) std::reverse(left.begin(), left.end());
      finish_some(true);
      for (int e : tops) if (P.eps[(size_t)e].coll) T.push_back({Unit::Wait, e});
    }
  }
}
void run_rank(int me) {
  eps.assign(P.eps.size(), vt::no_epoch); fin.assign(P.eps.size(), 0); opened.assign(P.eps.size(), 0);
  for (int ph = 0; ph < P.phases; ph++) {
    for (auto& u : P.todo[(size_t)ph][(size_t)me]) switch (u.k) {
      case Unit::Open: {
        Ep& E = P.eps[(size_t)u.a];
        if (E.coll) {
          vt::EpochType ep;
          if (E.parent >= 0 && E.api == 1) { vt::theMsg()->pushEpoch(eps[(size_t)E.parent]); ep = vt::theTerm()->makeEpochCollective("nested"); vt::theMsg()->popEpoch(eps[(size_t)E.parent]); }
          else if (E.parent >= 0) ep = vt::theTerm()->makeEpochCollective("nested", vt::term::ParentEpochCapture{eps[(size_t)E.parent]});
          else if (E.api == 2) ep = vt::theTerm()->makeEpochCollective(vt::term::ParentEpochCapture{vt::no_epoch});
          else ep = vt::theTerm()->makeEpochCollective("top");
          RT_CHECK(!eid(u.a) || eid(u.a) == (int64_t)*ep + 1, "epoch-id", "collective epoch ", u.a, " has different ids on different ranks");
          note_epoch(u.a, ep, E.parent);
        } else {
          int par = E.parent;
          vt::EpochType ep;
          if (par >= 0) { vt::theMsg()->pushEpoch(eps[(size_t)par]); ep = vt::theTerm()->makeEpochRooted("rooted", vt::term::UseDS{(bool)E.ds}); vt::theMsg()->popEpoch(eps[(size_t)par]); }
          else ep = vt::theTerm()->makeEpochRooted("rooted", vt::term::UseDS{(bool)E.ds}, vt::term::ParentEpochCapture{vt::no_epoch});
          note_epoch(u.a, ep, par);
          for (size_t a = 0; a < P.acts.size(); a++) if (P.acts[a].epoch == u.a && !P.acts[a].late) {
            if (P.acts[a].encap >= 0) vt::theMsg()->pushEpoch(eps[(size_t)P.acts[a].encap]);
            attach((int)a, -1);
            if (P.acts[a].encap >= 0) vt::theMsg()->popEpoch(eps[(size_t)P.acts[a].encap]);
          }
          for (size_t m = 0; m < P.msgs.size(); m++) if (P.msgs[m].parent < 0 && P.msgs[m].epoch == u.a) { issue_in((int)m, u.a); if (E.api && m % 3 == 0) vt::theSched()->runSchedulerOnceImpl(); }
          fin[(size_t)u.a] = 1; vt::theTerm()->finishedEpoch(ep);
          if (E.block) { vt::runSchedulerThrough(ep); check_end(u.a, "runSchedulerThrough"); }
          for (size_t a = 0; a < P.acts.size(); a++) if (P.acts[a].epoch == u.a && P.acts[a].late) attach((int)a, -1);
        }
        break;
      }
      case Unit::Send: issue_in(u.a, P.msgs[(size_t)u.a].epoch); break;
      case Unit::Finish: fin[(size_t)u.a] = 1; vt::theTerm()->finishedEpoch(eps[(size_t)u.a]); break;
      case Unit::Action: {
        auto& A = P.acts[(size_t)u.a];
        if (A.encap >= 0) vt::theMsg()->pushEpoch(eps[(size_t)A.encap]);
        attach(u.a, -1);
        if (A.encap >= 0) vt::theMsg()->popEpoch(eps[(size_t)A.encap]);
        break;
      }
      case Unit::Poll: poll_all(me); break;
      case Unit::Spin: vt::theSched()->runSchedulerOnceImpl(); poll_all(me); break;
      case Unit::Wait:
        if (P.eps[(size_t)u.a].api == 2) vt::theSched()->runSchedulerWhile([&] { return !vt::theTerm()->isEpochTerminated(eps[(size_t)u.a]); });
        else vt::runSchedulerThrough(eps[(size_t)u.a]);
        check_end(u.a, "the wait for it"); break;
    }
    vt::theCollective()->barrier();
  }
}
} // namespace

PBT_TARGET(epochs, Isolated, 6000, 150000) {
  auto c = rt::gen(g);
  generate(g, c.sim.n);
  int n = c.sim.n;
  g.note(rt::show(c));
  bool caused = false, cross = false;
  for (size_t e = 0; e < P.eps.size(); e++) { auto& E = P.eps[e];
    g.note("  ", ep_name((int)e), " phase=", E.phase, " root=", E.root, " parent=", E.parent, " opened-by=", E.by_msg, E.block ? " waits" : "", "\n");
    g.label(pbt::cat(E.coll ? "collective" : E.ds ? "rooted ds" : "rooted wave", E.by_msg >= 0 ? " in handler" : "", E.block ? " waiting" : "", E.parent >= 0 ? " nested" : "")); }
  for (size_t m = 0; m < P.msgs.size(); m++) { auto& M = P.msgs[m]; caused |= M.parent >= 0; cross |= M.dest != M.origin;
    g.note("  msg", m, " ", M.origin, "->", M.dest < 0 ? std::string("all") : std::to_string(M.dest), " kind=", M.kind, " parent=", M.parent, " epoch=", M.epoch, M.epoch == -3 ? pbt::cat("(", M.alt, ")") : "", " phase=", M.phase, "\n"); }
  for (size_t a = 0; a < P.acts.size(); a++) { auto& A = P.acts[a]; g.note("  action", a, " on ", A.epoch, " rank=", A.rank, " in=", A.encap, A.late ? " late" : "", A.uniq ? " unique" : "", " sends=", A.sends, "\n"); g.label("action"); }
  for (int ph = 0; ph < P.phases; ph++) for (int r = 0; r < n; r++) {
    g.note("  phase ", ph, " rank ", r, ":"); for (auto& u : P.todo[(size_t)ph][(size_t)r]) g.note(" ", (char const*[]){"send", "open", "finish", "wait", "action", "poll", "spin"}[u.k], u.a); g.note("\n"); }
  g.nontrivial(n > 1 && caused && cross);
  Prog Q = P;
  rt::run(g, c, [&](int me) {
    P = Q;
    run_rank(me);
    for (size_t x = 0; x < P.eps.size(); x++) if (!P.eps[x].coll && opened[x] && P.eps[x].by_msg < 0 && !ended((int)x)) { vt::runSchedulerThrough(eps[x]); check_end((int)x, "the last wait for it"); }
    vt::theCollective()->barrier();
    vt::runInEpochCollective([] {});
    if (me == 0) {
      for (size_t m = 0; m < P.msgs.size(); m++) if (P.msgs[m].parent < (1 << 20)) RT_CHECK(ran((int)m) == ndest(P.msgs[m]), "delivery", "after all epochs ended, message ", m, " has run ", ran((int)m), " times");
    }
    vt::theCollective()->barrier();
    // actions attached at the end to epochs long over still run
    vt::theSched()->runSchedulerWhile([&] { for (size_t a = 0; a < P.acts.size(); a++) if (P.acts[a].rank == me && act_on((int)a) && !act_ran((int)a)) return true; return false; });
  });
}

// variant: rt
// C18: operations of collective scopes run in one order on all ranks, one at a time, exactly once
#include "common/rt.h"
#include <mpi.h>
PBT_RULE("A case is up to 3 rounds over 1-8 simulated ranks: each opens 1-4 scopes (system or user-tagged, kept, moved or destroyed while operations are pending), and enqueues up to 24 blocking MPI operations (barriers, reductions, broadcasts) into them, every rank interleaving the scopes in an order of its own, from its main program or from handlers, under the round's epoch or an epoch of its own, waiting for some and pausing between; non-trivial: at least 2 ranks and two operations which some ranks enqueue in different orders, or one that is waited for.");
namespace {
enum Form { Async, WaitNow, WaitLater, Handler, Own, Query };
struct Op { int scope, seq, kind, root, val; };
struct Act { int op = 0, form = 0, pause = 0; };
struct Scope { int tag = 0; int life = 0; };      // tag 0: system; life: 0 kept to the end of the round, 1 destroyed before the epoch ends, 2 moved first
struct Round { std::vector<Scope> scopes; std::vector<int> order; std::vector<Op> ops; std::vector<std::vector<Act>> acts; bool epoch = true; int chatter = 0; };
struct Prog { int n = 1; std::vector<Round> rounds; } P;
int64_t* ran(int me, int op) { return sim::shared() + me * 200 + op; }
int64_t* count(int me) { return sim::shared() + 4000 + me; }
int64_t* seq(int me, int k) { return sim::shared() + 5000 + me * 200 + k; }
int64_t* fin(int me, int op) { return sim::shared() + 8000 + me * 200 + op; }
int base = 0, inside = 0; std::vector<std::unique_ptr<vt::collective::CollectiveScope>> scopes; std::vector<vt::TagType> tags; Round* R;
void spin(int k) { for (int i = 0; i < k; i++) vt::theSched()->runSchedulerOnceImpl(); }
void chat(int hops) { sim::progress(); if (hops) vt::theMsg()->send<chat>(vt::Node{(vt::NodeType)((sim::rank() + hops) % P.n)}, hops - 1); }
void run(int op) {
  auto& o = R->ops[(size_t)op]; int me = sim::rank(), id = base + op;
  RT_CHECK(!inside, "overlap", "operation ", op, " starts on rank ", me, " inside another"); inside++;
  ++*ran(me, id); RT_CHECK(*ran(me, id) == 1, "duplicate", "operation ", op, " ran ", *ran(me, id), " times on rank ", me);
  int64_t k = (*count(me))++; *seq(me, (int)k) = id + 1; sim::progress();
  for (int r = 0; r < P.n; r++) { int64_t other = *seq(r, (int)k); RT_CHECK(!other || other == id + 1, "order", "rank ", me, " runs operation ", op, " at position ", k, " where rank ", r, " ran ", other - 1 - base); }
  auto comm = vt::theContext()->getComm();
  if (o.kind == 0) { MPI_Barrier(comm); for (int r = 0; r < P.n; r++) RT_CHECK(*ran(r, id) == 1, "barrier", "rank ", me, " left the barrier of operation ", op, " before rank ", r, " ran it"); }
  else if (o.kind == 1) { int in = o.val + me, out = -1; MPI_Allreduce(&in, &out, 1, MPI_INT, MPI_SUM, comm); RT_CHECK(out == o.val * P.n + P.n * (P.n - 1) / 2, "result", "the reduction of operation ", op, " gives ", out); }
  else { int v = me == o.root ? o.val : -1; MPI_Bcast(&v, 1, MPI_INT, o.root, comm); RT_CHECK(v == o.val, "result", "the broadcast of operation ", op, " gives ", v); }
  inside--;
}
void enqueue(int op) { auto& o = R->ops[(size_t)op]; tags[(size_t)op] = scopes[(size_t)o.scope]->mpiCollectiveAsync([op] { run(op); });
  for (size_t j = 0; j < tags.size(); j++) RT_CHECK((int)j == op || R->ops[j].scope != o.scope || tags[j] != tags[(size_t)op], "tag", "operations ", j, " and ", op, " of one scope have the same tag"); }
void later(int op) { enqueue(op); }
void body(int me) {
  int rn = 0;
  for (auto& rd : P.rounds) {
    R = &rd; scopes.clear(); scopes.resize(rd.scopes.size()); tags.assign(rd.ops.size(), vt::no_tag);
    std::vector<std::pair<bool, vt::TagType>> bits(rd.scopes.size());
    for (int s : rd.order) { auto& S = rd.scopes[(size_t)s]; scopes[(size_t)s] = std::make_unique<vt::collective::CollectiveScope>(S.tag ? vt::theCollective()->makeCollectiveScope(S.tag) : vt::theCollective()->makeCollectiveScope());
      bits[(size_t)s] = {scopes[(size_t)s]->isUserTag(), scopes[(size_t)s]->getScopeBits()}; RT_CHECK(bits[(size_t)s].first == (S.tag != 0) && (!S.tag || bits[(size_t)s].second == S.tag), "scope", "scope ", s, " is not the one asked for"); }
    vt::theCollective()->barrier();
    auto go = [&] {
      for (int i = 0; i < rd.chatter; i++) vt::theMsg()->send<chat>(vt::Node{(vt::NodeType)((me + i) % P.n)}, i);
      std::vector<int> waits;
      for (auto& a : rd.acts[(size_t)me]) {
        spin(a.pause); int op = a.op;
        auto& sc = *scopes[(size_t)rd.ops[(size_t)op].scope];
        auto check = [&](int o) { RT_CHECK(*ran(me, base + o) == 1, "wait", "rank ", me, " waited for operation ", o, " which ran ", *ran(me, base + o), " times"); };
        switch (a.form) {
          case WaitNow: tags[(size_t)op] = 0; sc.mpiCollectiveWait([op] { run(op); }); check(op); break;
          case Handler: if (rd.epoch) { vt::theMsg()->send<later>(vt::Node{(vt::NodeType)me}, op); while (tags[(size_t)op] == vt::no_tag) spin(1); break; } [[fallthrough]];
          case Own: if (a.form == Own) { auto ep = vt::theTerm()->makeEpochRooted("c18", vt::term::UseDS{op % 2 == 0}); vt::theMsg()->pushEpoch(ep); enqueue(op); vt::theMsg()->popEpoch(ep); vt::theTerm()->finishedEpoch(ep); int b = base;
            vt::theTerm()->addAction(ep, [op, me, b] { RT_CHECK(*ran(me, b + op) == 1, "epoch", "the epoch operation ", op, " was enqueued in ended before it ran"); ++*fin(me, b + op); }); break; } [[fallthrough]];
          default: enqueue(op); if (a.form == WaitLater) waits.push_back(op); if (a.form == Query && sc.isCollectiveDone(tags[(size_t)op])) check(op); break;
        }
      }
      for (int o : waits) { scopes[(size_t)rd.ops[(size_t)o].scope]->waitCollective(tags[(size_t)o]); RT_CHECK(*ran(me, base + o) == 1, "wait", "rank ", me, " waited for operation ", o, " which ran ", *ran(me, base + o), " times"); }
      for (size_t s = 0; s < scopes.size(); s++) { if (rd.scopes[s].life == 1) scopes[s].reset(); else if (rd.scopes[s].life == 2) { auto m = std::make_unique<vt::collective::CollectiveScope>(std::move(*scopes[s])); scopes[s] = std::move(m); } }
    };
    if (rd.epoch) vt::runInEpochCollective(go); else { go(); for (size_t o = 0; o < rd.ops.size(); o++) while (!*ran(me, base + (int)o)) spin(1); vt::theCollective()->barrier(); }
    for (size_t o = 0; o < rd.ops.size(); o++) RT_CHECK(*ran(me, base + (int)o) == 1, "lost", "operation ", o, " of round ", rn, " ran ", *ran(me, base + (int)o), " times on rank ", me);
    if (rd.epoch) for (auto& a : rd.acts[(size_t)me]) if (a.form == Own) RT_CHECK(*fin(me, base + a.op) == 1, "epoch", "the action of the epoch of operation ", a.op, " ran ", *fin(me, base + a.op), " times");
    for (size_t s = 0; s < scopes.size(); s++) {
      RT_CHECK(vt::theCollective()->isDeallocated(bits[s].first, bits[s].second) == (rd.scopes[s].life == 1), "dealloc", "scope ", s, " on rank ", me, " has the wrong liveness after its operations");
      for (size_t o = 0; o < rd.ops.size(); o++) if (scopes[s] && rd.ops[o].scope == (int)s && tags[o] > 0) RT_CHECK(scopes[s]->isCollectiveDone(tags[o]), "done", "operation ", o, " is not done");
    }
    scopes.clear(); for (auto& b : bits) RT_CHECK(vt::theCollective()->isDeallocated(b.first, b.second), "dealloc", "a scope with no operations left stays allocated");
    vt::theCollective()->barrier(); base += (int)rd.ops.size(); rn++;
  }
}
} // namespace

PBT_TARGET(scopes, Isolated, 2500, 100000) {
  auto c = rt::gen(g, rt::Opt{1, 8}); int n = c.sim.n; P = Prog{}; P.n = n; int nr = (int)g.range(1, 3); bool hard = false;
  for (int k = 0; k < nr; k++) {
    Round R; int ns = (int)g.range(1, 4); R.epoch = g.chance(3, 4); R.chatter = g.chance(1, 2) ? (int)g.range(1, 6) : 0;
    for (int s = 0; s < ns; s++) { Scope S; S.tag = g.coin() ? 0 : s + 1; if (S.tag && g.chance(1, 4)) S.tag += 40; S.life = (int)g.draw(2); R.scopes.push_back(S); R.order.push_back(s); }
    int no = (int)g.range(1, 8); std::vector<int> next((size_t)ns, 1);
    for (int o = 0; o < no; o++) { Op x; x.scope = (int)g.draw((uint64_t)ns - 1); x.seq = next[(size_t)x.scope]++; x.kind = (int)g.draw(2); x.root = (int)g.draw((uint64_t)n - 1); x.val = (int)g.range(1, 1000); R.ops.push_back(x); g.label((char const*[]){"barrier", "reduction", "broadcast"}[x.kind]); }
    // A rank may wait in place only for an operation all ranks enqueue without waiting for a later one: waits follow one global order
    bool in_place = g.coin();
    for (int r = 0; r < n; r++) {
      std::vector<size_t> order; std::vector<std::vector<size_t>> q((size_t)ns); for (size_t o = 0; o < R.ops.size(); o++) q[(size_t)R.ops[o].scope].push_back(o);
      if (in_place) for (size_t o = 0; o < R.ops.size(); o++) order.push_back(o);
      else { std::vector<size_t> pos((size_t)ns); while (order.size() < R.ops.size()) { size_t s = (size_t)g.draw((uint64_t)ns - 1); while (pos[s] >= q[s].size()) s = (s + 1) % (size_t)ns; order.push_back(q[s][pos[s]++]); } }
      std::vector<Act> acts; for (size_t o : order) { Act a; a.op = (int)o; a.form = (int)g.weighted({4, 2, 2, 2, 2, 1}); if (a.form == WaitNow && !in_place) a.form = WaitLater; a.pause = g.chance(1, 4) ? (int)g.range(1, 25) : 0; hard |= a.form == WaitNow || a.form == WaitLater; acts.push_back(a); g.label((char const*[]){"async", "wait", "wait later", "from handler", "own epoch", "query"}[a.form]); }
      if (r && no > 1) for (size_t i = 0; i < acts.size(); i++) hard |= acts[i].op != R.acts[0][i].op;
      R.acts.push_back(acts);
    }
    g.note("round ", k, R.epoch ? " in an epoch" : "", " chatter=", R.chatter, " scopes:"); for (auto& s : R.scopes) g.note(" ", s.tag ? pbt::cat("user", s.tag) : std::string("system"), (char const*[]){"", "(destroyed early)", "(moved)"}[s.life]); g.note(" ops:"); for (size_t o = 0; o < R.ops.size(); o++) g.note(" ", o, "=", (char const*[]){"barrier", "reduce", "bcast"}[R.ops[o].kind], "@", R.ops[o].scope); g.note("\n");
    for (int r = 0; r < n; r++) { g.note("  rank ", r, ":"); for (auto& a : R.acts[(size_t)r]) { if (a.pause) g.note(" pause", a.pause); g.note(" ", (char const*[]){"", "wait:", "later:", "handler:", "own:", "query:"}[a.form], a.op); } g.note("\n"); }
    P.rounds.push_back(R);
  }
  g.note(rt::show(c)); g.nontrivial(n > 1 && hard); Prog Q = P;
  rt::run(g, c, [&](int me) { P = Q; body(me); });
}

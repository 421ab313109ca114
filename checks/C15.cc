// variant: rt
// C15: the scheduler runs all queued work by priority, tells its state truly, and keeps time triggers
#include "common/rt.h"
#include <vt/timetrigger/time_trigger_manager.h>
#include <vt/timetrigger/trigger.h>
#include <vt/scheduler/priority_queue.h>
#include <vt/scheduler/queue.h>
#include <vt/messaging/message/message_priority.h>
PBT_RULE("work: up to 80 pieces of work per case on 1-5 simulated ranks (actions enqueued with a priority, messages to own and other ranks with a priority level or one derived from the message being handled), each enqueueing more, some running a nested scheduler loop, with triggers on every scheduler event and time triggers on a simulated clock; non-trivial: two pieces of different priority wait at once. busy: ranks which always have more work, of generated durations, under the options to poll every k handlers or s seconds; non-trivial: more than 20 pieces on a rank. timers: a history of adding, removing (also from within actions) and clock steps against a model; non-trivial: a trigger fires twice or one is removed. queues: histories of pushes and pops against models; non-trivial: more than 10 pops.");
namespace {
using vt::PriorityType;
struct Piece { int rank = 0, kind = 0, prio = 0, nest = 0; bool inc = false, bf = false; std::vector<int> kids; };   // kind: 0 action, 1 message to own rank, 2 message to another, derived priority when inc
struct Timer { int period = 1, at = 0, stop = 0; bool now = false; };
struct Prog { int n = 1; std::vector<Piece> p; std::vector<std::vector<int>> top; std::vector<std::vector<Timer>> timers; int rounds = 1; std::vector<std::vector<int>> once; } P;
int64_t* ran(int i) { return sim::shared() + i; }
struct Msg : vt::Message { int id = 0; };
void handle(Msg* m);
std::map<int, int> pending;                   // known to be in this rank's queue: id -> priority
PriorityType top_of(int p, bool bf) { int k = vt::sched::priority_num_levels - 1, b = vt::sched::priority_level_bits; return (PriorityType)((p << (k * b)) | (bf ? (1 << (k * b)) - 1 : 0)); }
void run(int id, int prio, Msg* from);
int cur_prio = 0, cur_level = 0;
void start(int id, Msg* from) {
  auto& a = P.p[(size_t)id];
  if (a.kind == 0) { pending[id] = a.prio; auto ep = vt::theMsg()->getEpoch(); vt::theTerm()->produce(ep); vt::theSched()->enqueue((PriorityType)a.prio, [id, ep] { vt::theMsg()->pushEpoch(ep); run(id, P.p[(size_t)id].prio, nullptr); vt::theMsg()->popEpoch(ep); vt::theTerm()->consume(ep); }); return; }
  auto m = vt::makeMessage<Msg>(); m->id = id; PriorityType want;
  int p = a.bf ? (int)vt::sched::Priority::BreadthFirst : a.prio & 7; if (!a.bf && p == (int)vt::sched::Priority::BreadthFirst) p--;
  if (from && a.inc) {
    int lvl = std::min<int>((int)vt::envelopeGetPriorityLevel(from->env) + 1, (int)vt::sched::priority_num_levels - 1), b = vt::sched::priority_level_bits, off = (vt::sched::priority_num_levels - 1 - lvl) * b;
    int old = vt::envelopeGetPriority(from->env), keep = old & ~((1 << (off + b)) - 1); want = (PriorityType)(keep | (p << off) | (a.bf ? (1 << off) - 1 : 0));
    vt::messaging::msgSetPriorityFrom(from, m.get(), (PriorityType)p, true);
  } else { want = top_of(p, a.bf); vt::messaging::msgSetPriority(m.get(), (PriorityType)p); }
  RT_CHECK(vt::envelopeGetPriority(m->env) == want, "priority", "a message asked for priority ", p, a.inc ? " at the next level" : "", " carries ", (int)vt::envelopeGetPriority(m->env), ", expected ", (int)want);
  if (a.rank == sim::rank()) pending[id] = want;
  vt::theMsg()->sendMsg<handle>((vt::NodeType)a.rank, m);
}
bool idle = false, idle_mt = false; int depth = 0, pends = 0; std::vector<int> ev(8, 0), once_got(8, 0);
void run(int id, int prio, Msg* from) {
  auto& a = P.p[(size_t)id]; RT_CHECK(a.rank == sim::rank(), "rank", "piece ", id, " ran on rank ", sim::rank());
  ++*ran(id); sim::progress(); RT_CHECK(*ran(id) == 1, "duplicate", "piece ", id, " ran ", *ran(id), " times"); pending.erase(id);
  for (auto& q : pending) RT_CHECK(q.second <= prio, "priority-order", "piece ", id, " of priority ", prio, " runs before piece ", q.first, " of priority ", q.second, " which waits in the same queue");
  RT_CHECK(!idle && !idle_mt, "idle", "piece ", id, " runs while the scheduler is said to be idle");
  size_t half = a.kids.size() / 2; for (size_t i = 0; i < half; i++) start(a.kids[i], from);
  if (a.nest == 1) { int k = 0; vt::theSched()->runSchedulerWhile([&] { return k++ < 5; }); RT_CHECK(!idle, "idle", "idle after a nested scheduler loop"); }
  else if (a.nest == 2) for (int i = 0; i < 3; i++) vt::theSched()->runSchedulerOnceImpl();
  else if (a.nest == 3 && half) { int k = a.kids[0]; if (P.p[(size_t)k].rank == sim::rank()) { vt::theSched()->runSchedulerWhile([&] { return !*ran(k); }); RT_CHECK(!idle, "idle", "idle after a nested scheduler loop"); } }
  for (size_t i = half; i < a.kids.size(); i++) start(a.kids[i], from);
}
void handle(Msg* m) { run(m->id, vt::envelopeGetPriority(m->env), m); }
struct Live { Timer t; int id = -1; double last = 0; int fires = 0; bool on = false; };
void body(int me) {
  using E = vt::sched::SchedulerEvent; static vt::sched::Scheduler* s; s = vt::theSched();
  auto on = [&](E e, std::function<void()> f) { s->registerTrigger(e, [e, f] { ev[(size_t)e]++; f(); }); };
  static bool primed = false, primed_mt = false; primed = primed_mt = false;
  on(E::BeginIdle, [&] { RT_CHECK(!primed || !idle, "idle", "idle begins twice"); RT_CHECK(s->workQueueEmpty() && s->isIdle(), "idle", "idle begins with work queued"); primed = true; idle = true; });
  on(E::EndIdle, [&] { RT_CHECK(!primed || idle, "idle", "idle ends twice"); primed = true; idle = false; });
  on(E::BeginIdleMinusTerm, [&] { RT_CHECK(!primed_mt || !idle_mt, "idle", "idle (without termination) begins twice"); RT_CHECK(pending.empty() && s->isIdleMinusTerm(), "idle", "idle (without termination) begins with other work queued"); primed_mt = true; idle_mt = true; });
  on(E::EndIdleMinusTerm, [&] { RT_CHECK(!primed_mt || idle_mt, "idle", "idle (without termination) ends twice"); primed_mt = true; idle_mt = false; });
  on(E::BeginSchedulerLoop, [&] { depth++; }); on(E::EndSchedulerLoop, [&] { RT_CHECK(depth > 0, "loop", "a scheduler loop ends that did not begin"); depth--; }); on(E::PendingSchedulerLoop, [&] { pends++; });
  std::vector<Live> tm; for (auto& t : P.timers[(size_t)me]) { Live l; l.t = t; tm.push_back(l); }
  for (int r = 0; r < P.rounds; r++) {
    for (int e : P.once[(size_t)me]) { once_got[(size_t)e] = 0; s->registerTriggerOnce((E)e, [e] { once_got[(size_t)e]++; }); }
    std::vector<int> before = ev; int was = pends;
    for (size_t k = 0; k < tm.size(); k++) {
      auto& l = tm[k]; if (l.t.at != r) continue; double now = s->getRecentTime().seconds();
      l.id = vt::theTimeTrigger()->addTrigger(s->getRecentTime(), std::chrono::milliseconds(l.t.period), [&l, k] {
        double c = s->getRecentTime().seconds(); RT_CHECK(l.on, "timer", "time trigger ", k, " fires after it was removed"); RT_CHECK(!l.fires || c - l.last > l.t.period / 1000.0 - 1e-7, "timer", "time trigger ", k, " of period ", l.t.period, " ms fires ", (c - l.last) * 1000, " ms after the last time");
        l.fires++; l.last = c; RT_CHECK(l.fires < 1000000, "timer", "fires without end"); if (l.t.stop == l.fires) { vt::theTimeTrigger()->removeTrigger(l.id); l.on = false; } }, false);
      l.on = true; l.last = now; l.fires = 1;
    }
    vt::runInEpochCollective([&] {
      RT_CHECK(pends == was + 1, "loop", "PendingSchedulerLoop came ", pends - was, " times for one epoch");
      for (size_t i = 0; i < P.top[(size_t)me].size(); i++) if ((int)i % P.rounds == r) start(P.top[(size_t)me][i], nullptr);
    });
    RT_CHECK(pending.empty() || P.n > 1, "lost", "work is left in the queue");
    for (int e : P.once[(size_t)me]) if (ev[(size_t)e] > before[(size_t)e]) RT_CHECK(once_got[(size_t)e] >= 1, "once", "a trigger for the next event ", e, " did not fire");
    // The clock moves on while the scheduler is called
    for (int k = 0; k < 6; k++) {
      double t0 = s->getRecentTime().seconds(); sim::advance(0.0035); double t = MPI_Wtime(); int fuel = 0; for (int i = 0; i < 2;) { if (s->workQueueEmpty()) i++; s->runSchedulerOnceImpl(); if (++fuel > 5000) break; } (void)t0;
      if (fuel <= 5000) for (size_t q = 0; q < tm.size(); q++) if (tm[q].on) RT_CHECK(tm[q].last + tm[q].t.period / 1000.0 > t - 1e-6 || tm[q].last > t - 1e-6, "timer", "time trigger ", q, " of period ", tm[q].t.period, " ms, last fired ", (t - tm[q].last) * 1000, " ms ago, is not fired by the scheduler");
    }
    vt::theCollective()->barrier();
  }
  for (auto& l : tm) if (l.on) vt::theTimeTrigger()->removeTrigger(l.id), l.on = false;
  vt::theCollective()->barrier();
  for (size_t i = 0; i < P.p.size(); i++) RT_CHECK(*ran((int)i) == 1, "lost", "piece ", i, " ran ", *ran((int)i), " times");
  RT_CHECK(ev[(size_t)E::BeginSchedulerLoop] - ev[(size_t)E::EndSchedulerLoop] == depth, "loop", "scheduler loops begin and end unequally");
  vt::theTimeTrigger()->triggerReady(s->getRecentTime());
}
} // namespace

PBT_TARGET(work, Isolated, 5000, 200000) {
  auto c = rt::gen(g, rt::Opt{1, 5}); int n = c.sim.n; P = Prog{}; P.n = n; P.rounds = (int)g.range(1, 3); P.top.resize((size_t)n); P.timers.resize((size_t)n); P.once.resize((size_t)n);
  if (g.chance(1, 4)) { c.args.push_back(pbt::cat("--vt_sched_progress_sec=0.00", g.range(1, 9))); }
  int cap = (int)g.range(2, 80); bool mixed = false;
  auto mk = [&](auto& self, int at, int depth) -> int {
    int id = (int)P.p.size(); P.p.push_back(Piece{}); Piece a; a.rank = at; a.kind = (int)g.weighted({3, 3, 2}); a.prio = a.kind == 0 ? (int)g.draw(g.coin() ? 3 : 65535) : (int)g.draw(7); a.bf = a.kind && g.chance(1, 6); a.inc = a.kind && depth && g.coin(); a.nest = g.chance(1, 5) ? (int)g.range(1, 3) : 0;
    if (a.kind == 2) { a.rank = (int)g.draw((uint64_t)n - 1); } g.label((char const*[]){"action", "own message", "message"}[a.kind]); if (a.nest) g.label("nested loop"); if (a.inc) g.label("derived priority");
    int k = depth < 5 && (int)P.p.size() < cap ? (int)g.weighted({3, 2, 2, 1, 1}) : 0; mixed |= k > 1; for (int i = 0; i < k; i++) a.kids.push_back(self(self, a.rank, depth + 1));
    P.p[(size_t)id] = a; return id;
  };
  for (int r = 0; r < n; r++) { int k = (int)g.range(0, 8); mixed |= k > 1; for (int i = 0; i < k && (int)P.p.size() < 2 * cap; i++) P.top[(size_t)r].push_back(mk(mk, r, 0));
    int t = (int)g.weighted({2, 2, 1, 1}); for (int i = 0; i < t; i++) { Timer x; x.period = (int)g.range(1, 12); x.at = (int)g.draw((uint64_t)P.rounds - 1); x.stop = g.coin() ? 0 : (int)g.range(2, 5); P.timers[(size_t)r].push_back(x); g.label("time trigger"); }
    for (int e = 0; e < 7; e++) if (g.chance(1, 4)) P.once[(size_t)r].push_back(e); }
  for (size_t i = 0; i < P.p.size() && i < 60; i++) { auto& a = P.p[i]; g.note(i, ":", (char const*[]){"action", "own", "msg"}[a.kind], "@", a.rank, " p=", a.prio, a.bf ? " bf" : "", a.inc ? " inc" : "", a.nest ? pbt::cat(" nest", a.nest) : std::string(), " kids"); for (int k : a.kids) g.note(" ", k); g.note("\n"); }
  for (int r = 0; r < n; r++) { g.note("rank ", r, " starts"); for (int k : P.top[(size_t)r]) g.note(" ", k); g.note(" timers"); for (auto& t : P.timers[(size_t)r]) g.note(" ", t.period, "ms@", t.at, "/", t.stop); g.note("\n"); }
  g.note("rounds=", P.rounds, "\n", rt::show(c)); g.nontrivial(mixed && P.p.size() > 2); Prog Q = P;
  rt::run(g, c, [&](int me) { P = Q; body(me); });
}

// Communication is polled while there is always other work to do
namespace busy {
struct Prog { int han = 0, sec = 0, n = 1; std::vector<std::vector<int>> cost; } B;
std::vector<int>* mine; size_t next, live; uint64_t polls; int since; double last;
void piece() {
  double now = MPI_Wtime(); sim::progress();
  if (sim::polls() != polls) { polls = sim::polls(); since = 0; last = now; }
  RT_CHECK(!B.han || since < B.han, "progress", "rank ", sim::rank(), " runs piece ", next, " after ", since, " without polling for messages, with --vt_sched_progress_han=", B.han);
  RT_CHECK(!B.sec || now - last < B.sec * 1e-3 + 1e-4, "progress", "rank ", sim::rank(), " runs piece ", next, " ", (now - last) * 1000, " ms after polling for messages, with --vt_sched_progress_sec of ", B.sec, " ms");
  since++;
  while (next < mine->size() && live < 3) { auto ep = vt::theMsg()->getEpoch(); live++; vt::theTerm()->produce(ep); int c = (*mine)[next++]; vt::theSched()->enqueue([ep, c] { live--; vt::theMsg()->pushEpoch(ep); piece(); sim::work(c * 1e-4); vt::theMsg()->popEpoch(ep); vt::theTerm()->consume(ep); }); }
}
void got() { sim::shared()[0]++; }
} // namespace busy
PBT_TARGET(busy, Isolated, 1000, 40000) {
  auto c = rt::gen(g, rt::Opt{1, 3}); auto& B = busy::B; B = busy::Prog{}; B.n = c.sim.n; if (c.sim.dt_ns > 500) c.sim.dt_ns = 500;
  std::vector<std::string> keep; for (auto& a : c.args) if (a.find("sched") == std::string::npos) keep.push_back(a); c.args = keep;
  auto how = g.weighted({2, 2, 3}); if (how != 1) { B.han = (int)g.range(1, 12); c.args.push_back(pbt::cat("--vt_sched_progress_han=", B.han)); } if (how != 0) { B.sec = (int)g.range(1, 20); c.args.push_back(pbt::cat("--vt_sched_progress_sec=", pbt::cat(B.sec / 1000, ".", B.sec / 100 % 10, B.sec / 10 % 10, B.sec % 10))); }
  for (int r = 0; r < B.n; r++) { std::vector<int> q; int k = (int)g.draw(60), typ = (int)g.range(0, 40); for (int i = 0; i < k; i++) q.push_back((int)g.draw((uint64_t)typ)); B.cost.push_back(q); g.nontrivial(k > 20); }
  g.label((char const*[]){"every k handlers", "every s seconds", "both"}[how]); g.note(rt::show(c)); for (auto& q : B.cost) { g.note("costs"); for (int x : q) g.note(" ", x); g.note("\n"); }
  rt::run(g, c, [](int me) { using namespace busy; mine = &B.cost[(size_t)me]; next = live = 0; since = 0;
    vt::runInEpochCollective([&] { for (int r = 0; r < B.n; r++) vt::theMsg()->send<got>(vt::Node{(vt::NodeType)r}); polls = sim::polls(); last = MPI_Wtime(); since = -1; vt::theSched()->runSchedulerOnceImpl(); polls = sim::polls(); last = MPI_Wtime(); since = 0; piece(); since = 0; });
    RT_CHECK(live == 0 && next == mine->size(), "lost", "work is left"); vt::theCollective()->barrier(); RT_CHECK(sim::shared()[0] == B.n * B.n, "lost", "messages are left"); });
}
PBT_TARGET(timers, InProc, 20000, 1000000) {
  using M = vt::timetrigger::TimeTriggerManager; M mgr; double now = (double)g.draw(1000) * 0.00025; auto T = [](double x) { return vt::TimeTypeWrapper{x}; };
  struct Tr { int id = -1, period = 0; double next = 0; bool live = true; int fires = 0; std::vector<std::pair<int, int>> does; int step = -1; }; std::vector<Tr> tr; tr.reserve(200); int step = 0, total = 0; bool twice = false, removed = false; bool inprog = false;
  std::function<void(size_t)> fire; std::function<void(int, bool, int)> add;
  auto script = [&] { std::vector<std::pair<int, int>> d; int k = (int)g.weighted({4, 1, 1}); for (int i = 0; i < k; i++) d.push_back({(int)g.draw(2), (int)g.draw(50)}); return d; };
  add = [&](int period, bool imm, int depth) {
    if (tr.size() > 60) return; size_t k = tr.size(); Tr t; t.period = period; t.next = now + period / 1000.0; if (depth < 3) t.does = script(); t.step = imm ? step : -1; tr.push_back(t); g.note("add ", k, " period ", period, imm ? " immediate" : "", depth ? " from an action" : "", "\n");
    bool was = inprog; int before = tr[k].fires; if (imm) inprog = false; int id = mgr.addTrigger(T(now), std::chrono::milliseconds(period), [&fire, k] { fire(k); }, imm); inprog = was;
    for (auto& o : tr) PBT_CHECK(o.id != id, "trigger id ", id, " given twice"); tr[k].id = id; PBT_CHECK(tr[k].fires == before + (imm ? 1 : 0), "a trigger registered", imm ? " to fire at once" : "", " fired ", tr[k].fires, " times at registration");
    if (imm) tr[k].next = now + period / 1000.0;
  };
  fire = [&](size_t k) {
    PBT_CHECK(tr[k].live, "removed trigger ", k, " fires"); tr[k].fires++; total++; g.note("  fire ", k, "\n"); twice |= tr[k].fires > 1; PBT_CHECK(total < 100000, "triggers fire without end");
    if (inprog) { PBT_CHECK(tr[k].next < now + 1e-7, "trigger ", k, " due at ", tr[k].next, " fires at ", now);
      for (size_t o = 0; o < tr.size(); o++) if (o != k && tr[o].live && tr[o].id >= 0) PBT_CHECK(tr[o].next > tr[k].next - 1e-7, "trigger ", k, " due at ", tr[k].next, " fires before trigger ", o, " due at ", tr[o].next);
      auto old = tr[k].next; tr[k].next = now + tr[k].period / 1000.0; (void)old; }
    if (tr[k].fires == 1) for (auto d : tr[k].does) { if (d.first == 0) add(d.second % 7 + 1, d.second % 3 == 0, 3); else { size_t o = (size_t)d.second % tr.size(); if (d.first == 2) o = k; if (tr[o].live && tr[o].id >= 0) { mgr.removeTrigger(tr[o].id); tr[o].live = false; removed = true; g.note("  remove ", o, " from an action\n"); } } }
  };
  int steps = 1 + (int)g.size(40);
  for (step = 0; step < steps; step++) switch (g.weighted({3, 4, 4, 1})) {
    case 0: add((int)g.draw(20), g.chance(1, 3), 0); break;
    case 1: now += (double)g.draw(g.chance(1, 6) ? 400 : 30) * 0.00025; break;
    case 2: { inprog = true; g.note("progress at ", now, "\n"); if (g.coin()) mgr.triggerReady(T(now)); else mgr.progress(T(now)); inprog = false;
      bool any = false; for (size_t k = 0; k < tr.size(); k++) if (tr[k].live) { any = true; PBT_CHECK(tr[k].next > now - 1e-7, "trigger ", k, " due at ", tr[k].next, " was not fired at ", now); }
      PBT_CHECK(!any || mgr.needsCurrentTime(), "the time is not asked for though a trigger is registered"); break; }
    default: if (!tr.empty()) { size_t o = (size_t)g.draw(tr.size() - 1); if (tr[o].live) { mgr.removeTrigger(tr[o].id); tr[o].live = false; removed = true; g.note("remove ", o, "\n"); } }
  }
  g.nontrivial(twice || (removed && total));
}

PBT_TARGET(queues, InProc, 10000, 500000) {
  vt::sched::Queue<int> q; std::deque<int> m; struct It { int p, id; bool operator<(It const& o) const { return p < o.p; } }; vt::sched::PriorityQueue<It> pq; std::multiset<int> pm; std::map<int, int> at; int next = 0, pops = 0, got = -1; size_t steps = 1 + g.size(300);
  unsigned w = (unsigned)g.range(1, 6);
  for (size_t i = 0; i < steps; i++) switch (g.weighted({w, w / 2, 2, w, 2})) {
    case 0: q.push(next); m.push_back(next++); break;
    case 1: q.emplace(int(next)); m.push_back(next++); break;
    case 2: if (!m.empty()) { int x = q.pop(); PBT_CHECK(x == m.front(), "queue gives ", x, ", expected ", m.front()); m.pop_front(); pops++; } break;
    case 3: { int p = (int)g.draw(g.coin() ? 3 : 65535), id = next++; at[id] = p; if (p & 1) pq.push(It{p, id}); else pq.emplace(It{p, id}); pm.insert(p); break; }
    default: if (!pm.empty()) { auto u = pq.pop(); got = u.id; PBT_CHECK(at.count(got), "an element comes out twice"); PBT_CHECK(at[got] == *pm.rbegin(), "priority queue gives priority ", at[got], " before ", *pm.rbegin()); pm.erase(pm.find(at[got])); at.erase(got); pops++; } break;
  } 
  PBT_CHECK(q.size() == m.size() && q.empty() == m.empty() && pq.size() == pm.size() && pq.empty() == pm.empty(), "sizes differ: ", q.size(), "/", m.size(), " ", pq.size(), "/", pm.size());
  while (!m.empty()) { int x = q.pop(); PBT_CHECK(x == m.front(), "queue gives ", x, ", expected ", m.front()); m.pop_front(); }
  g.nontrivial(pops > 10);
}

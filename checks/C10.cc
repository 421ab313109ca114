// variant: rt
// C10: every entity is found where it last migrated to
#include "common/rt.h"
#include <list>
PBT_RULE("locations: a case is up to 8 entities with homes over 1-6 simulated ranks and a history of up to 4 phases: registrations (at home, away, announced to the home first), migrations by ranks and from handlers, unregistrations and later registrations elsewhere, up to 50 routed messages (small, large, serialized; with a handler of their own or the registered one; from ranks and from handlers, some before the entity is registered), lookups and emptied caches; non-trivial: several ranks, a migration, and a message sent in the phase of one or after it. cache: a case is up to 120 operations on a location cache and a directory with cache of a random size against a least-recently-used model; non-trivial: an entry was evicted and one was refreshed.");
namespace {
struct Msg { int phase = 0, parent = -1, origin = 0, to = 0, kind = 0, mode = 0, move = -1, hold = 0; std::vector<int> kids; };
struct Reg { int phase = 0, e = 0, rank = 0, hold = 0; bool announce = false; };
struct Mov { int phase = 0, e = 0, to = 0, hold = 0; };
struct Look { int phase = 0, rank = 0, e = 0, hold = 0; bool action = false; };
struct Clr { int phase = 0, rank = 0, hold = 0; };
struct Prog { int n = 1, E = 1, phases = 1; std::vector<int> home; std::vector<Reg> regs; std::vector<std::pair<int, int>> unregs; std::vector<Mov> movs; std::vector<Msg> msgs; std::vector<Look> looks; std::vector<Clr> clrs; std::vector<std::array<int, 3>> probes; } P;
int64_t& holder(int e) { return sim::shared()[e]; }                 // 0: nobody, 1 + rank, -1: in transit
int64_t& hosts(int e) { return sim::shared()[100 + e]; }            // bits of ranks that ever held it or were told to
int64_t& moved(int e) { return sim::shared()[200 + e]; }            // 1 + phase of its last move or registration
int64_t& ran(int m) { return sim::shared()[1000 + m]; }
int64_t& looked(int l) { return sim::shared()[2000 + l]; }
int64_t& answer(int l) { return sim::shared()[3000 + l]; }
template <class B> struct Body : B { int id = 0, from = 0; };
struct Small : vt::LocationRoutedMsg<int, vt::Message> { int id = 0, from = 0; };
struct Large : vt::LocationRoutedMsg<int, vt::Message> { int id = 0, from = 0; unsigned char pad[300]; };
struct Ser : vt::LocationRoutedMsg<int, vt::Message> { using MessageParentType = vt::LocationRoutedMsg<int, vt::Message>; vt_msg_serialize_required(); int id = 0, from = 0; std::vector<int> v; template <class S> void serialize(S& s) { MessageParentType::serialize(s); s | id | from | v; } };
auto lm() { return vt::theLocMan()->virtual_loc; }
void send(int id); void move(int e, int to, int phase);
void run(int id, int from, int ent, int loc_from) {
  int me = sim::rank(); RT_CHECK(id >= 0 && id < (int)P.msgs.size(), "content", "unknown message ", id); auto& M = P.msgs[(size_t)id];
  RT_CHECK(ent == M.to, "content", "message ", id, " is for entity ", M.to, ", not ", ent);
  RT_CHECK(holder(M.to) == me + 1, "misdelivered", "message ", id, " for entity ", M.to, " ran on rank ", me, " while held by ", holder(M.to) - 1);
  RT_CHECK(from == loc_from, "from-node", "message ", id, " from ", from, " names sender ", loc_from);
  RT_CHECK(++ran(id) == 1, "duplicate", "message ", id, " ran ", ran(id), " times"); sim::progress();
  if (M.move >= 0) move(M.to, M.move, M.phase);
  for (int k : M.kids) send(k);
}
void small(Small* m) { run(m->id, m->from, m->getEntity(), m->getLocFromNode()); }
void large(Large* m) { for (int i = 0; i < 300; i++) RT_CHECK(m->pad[i] == (unsigned char)(m->id * 7 + i), "content", "message ", m->id, " altered"); run(m->id, m->from, m->getEntity(), m->getLocFromNode()); }
void ser(Ser* m) { RT_CHECK(m->v == std::vector<int>((size_t)(m->id % 40), m->id), "content", "message ", m->id, " altered"); run(m->id, m->from, m->getEntity(), m->getLocFromNode()); }
// the action registered with an entity: only small messages are sent without a handler
void registered(vt::BaseMessage* b) { small(static_cast<Small*>(static_cast<vt::Message*>(b))); }
void send(int id) {
  auto& M = P.msgs[(size_t)id]; int me = sim::rank(), h = P.home[(size_t)M.to];
  switch (M.kind) {
    case 0: { auto m = vt::makeMessage<Small>(); m->id = id; m->from = me; if (M.mode) lm()->routeMsg<Small>(M.to, (vt::NodeType)h, m); else lm()->routeMsgHandler<Small, small>(M.to, (vt::NodeType)h, m); break; }
    case 1: { auto m = vt::makeMessage<Large>(); m->id = id; m->from = me; for (int i = 0; i < 300; i++) m->pad[i] = (unsigned char)(id * 7 + i); lm()->routeMsgHandler<Large, large>(M.to, (vt::NodeType)h, m); break; }
    default: { auto m = vt::makeMessage<Ser>(); m->id = id; m->from = me; m->v.assign((size_t)(id % 40), id); lm()->routeMsgHandler<Ser, ser>(M.to, (vt::NodeType)h, m); }
  }
}
void arrive(int e, int from) { int me = sim::rank(); RT_CHECK(holder(e) == -1, "harness", "arrival of ", e); holder(e) = me + 1; hosts(e) |= 1ll << me; sim::progress(); lm()->entityImmigrated(e, (vt::NodeType)P.home[(size_t)e], (vt::NodeType)from, registered); }
void leave(int e, int to) { int me = sim::rank(); RT_CHECK(holder(e) == me + 1, "harness", "departure of ", e); holder(e) = -1; hosts(e) |= 1ll << to; lm()->entityEmigrated(e, (vt::NodeType)to); vt::theMsg()->send<arrive>(vt::Node{(vt::NodeType)to}, e, me); }
void move(int e, int to, int phase) {                             // as elements do: later, from the scheduler, once per phase
  int me = sim::rank(); if (holder(e) != me + 1 || to == me || moved(e) == phase + 1) return;
  moved(e) = phase + 1; auto ep = vt::theMsg()->getEpoch(); vt::theTerm()->produce(ep);
  vt::theSched()->enqueue([=] { vt::theMsg()->pushEpoch(ep); leave(e, to); vt::theMsg()->popEpoch(ep); vt::theTerm()->consume(ep); });
}
void lookup(int l, int e, bool action) {
  auto f = [l, e](vt::NodeType r) { sim::progress(); answer(l) = r; RT_CHECK(++looked(l) == 1, "lookup", "lookup ", l, " answered ", looked(l), " times"); RT_CHECK(r >= 0 && r < P.n && (hosts(e) >> r & 1), "lookup", "lookup ", l, " of entity ", e, " answers ", r, ", which never held it"); };
  if (action) lm()->routeNonEagerAction(e, (vt::NodeType)P.home[(size_t)e], f); else lm()->getLocation(e, (vt::NodeType)P.home[(size_t)e], f);
}
void body(int me) {
  size_t probe = 0;
  for (int ph = 0; ph < P.phases; ph++) {
    for (auto& r : P.regs) if (r.phase == ph && r.announce && P.home[(size_t)r.e] == me) hosts(r.e) |= 1ll << r.rank, lm()->registerEntityRemote(r.e, (vt::NodeType)me, (vt::NodeType)r.rank, registered);
    vt::runInEpochCollective([&] {
      std::vector<std::pair<int, std::function<void()>>> ops;
      for (auto& r : P.regs) if (r.phase == ph && r.rank == me) ops.push_back({r.hold, [&r, ph, me] { moved(r.e) = ph + 1; holder(r.e) = me + 1; hosts(r.e) |= 1ll << me; lm()->registerEntity(r.e, (vt::NodeType)P.home[(size_t)r.e], registered); }});
      for (auto& m : P.movs) if (m.phase == ph) ops.push_back({m.hold, [&m, ph] { move(m.e, m.to, ph); }});
      for (size_t i = 0; i < P.msgs.size(); i++) if (P.msgs[i].phase == ph && P.msgs[i].parent < 0 && P.msgs[i].origin == me) ops.push_back({P.msgs[i].hold, [i] { send((int)i); }});
      for (size_t i = 0; i < P.looks.size(); i++) if (P.looks[i].phase == ph && P.looks[i].rank == me) ops.push_back({P.looks[i].hold, [i] { lookup((int)i, P.looks[i].e, P.looks[i].action); }});
      for (auto& c : P.clrs) if (c.phase == ph && c.rank == me) ops.push_back({c.hold, [] { lm()->clearCache(); }});
      std::stable_sort(ops.begin(), ops.end(), [](auto& a, auto& b) { return a.first < b.first; }); int now = 0;
      for (auto& [t, f] : ops) { for (; now < t; now++) vt::theSched()->runSchedulerOnceImpl(); f(); }
    });
    for (size_t i = 0; i < P.msgs.size(); i++) if (P.msgs[i].phase == ph) RT_CHECK(ran((int)i) == 1, "lost", "message ", i, " ran ", ran((int)i), " times when its epoch ended");
    for (size_t i = 0; i < P.looks.size(); i++) if (P.looks[i].phase == ph && P.looks[i].rank == me) vt::theSched()->runSchedulerWhile([i] { return looked((int)i) == 0; });
    vt::theCollective()->barrier();
    // nothing is under way: homes know, and so does everyone with an empty cache
    for (; probe < P.probes.size() && P.probes[probe][0] == ph; probe++) {
      int e = P.probes[probe][1], r = P.probes[probe][2], l = 500 + (int)probe; if (holder(e) <= 0) continue;
      if (r == me) { if (P.home[(size_t)e] != me) lm()->clearCache(); lookup(l, e, false); vt::theSched()->runSchedulerWhile([l] { return looked(l) == 0; }); RT_CHECK(answer(l) + 1 == holder(e), "stale", "rank ", me, " finds entity ", e, " at ", answer(l), ", it is at ", holder(e) - 1, " (home ", P.home[(size_t)e], ")"); }
      vt::theCollective()->barrier();
    }
    vt::runInEpochCollective([&] { for (auto& [p, e] : P.unregs) if (p == ph && holder(e) == me + 1) { holder(e) = 0; if (P.home[(size_t)e] == me && e % 2) lm()->unregisterEntity(e); else lm()->unregisterEntity(e, (vt::NodeType)P.home[(size_t)e]); } });
    vt::theCollective()->barrier();
  }
  for (int e = 0; e < P.E; e++) { if (holder(e) == me + 1) lm()->unregisterEntity(e); } vt::theCollective()->barrier();
}
struct Lru { size_t cap = 1; std::list<std::pair<int, int>> l; auto find(int k) { return std::find_if(l.begin(), l.end(), [k](auto& x) { return x.first == k; }); } bool get(int k, int& v) { auto i = find(k); if (i == l.end()) return false; l.splice(l.begin(), l, i); v = i->second; return true; } bool put(int k, int v) { auto i = find(k); bool ev = false; if (i != l.end()) l.erase(i); else if (l.size() == cap) l.pop_back(), ev = true; l.push_front({k, v}); return ev; } void del(int k) { auto i = find(k); if (i != l.end()) l.erase(i); } };
} // namespace

PBT_TARGET(locations, Isolated, 3000, 120000) {
  auto c = rt::gen(g); P = Prog{}; int n = P.n = c.sim.n; P.E = (int)g.range(1, 8); P.phases = (int)g.range(1, 4); auto rr = [&] { return (int)g.draw((uint64_t)n - 1); }; auto hold = [&] { return g.chance(1, 2) ? (int)g.draw(12) : 0; };
  std::vector<std::vector<int>> st((size_t)P.phases, std::vector<int>((size_t)P.E));   // 0 absent, 1 being registered, 2 present
  for (int e = 0; e < P.E; e++) {
    P.home.push_back(rr()); bool there = false;
    for (int p = 0; p < P.phases; p++) {
      if (!there && g.chance(4, 5)) { Reg r{p, e, g.coin() ? P.home.back() : rr(), hold(), g.chance(1, 4)}; if (r.rank == P.home.back()) r.announce = false; P.regs.push_back(r); st[(size_t)p][(size_t)e] = 1; there = true; if (r.announce) g.label("announced"); }
      else st[(size_t)p][(size_t)e] = there ? 2 : 0;
      if (there && p + 1 < P.phases && g.chance(1, 8)) { P.unregs.push_back({p, e}); there = false; g.label("unregistered"); }
    }
  }
  bool anymove = false, after = false;
  for (int p = 0; p < P.phases; p++) {
    std::vector<int> can, old; for (int e = 0; e < P.E; e++) { if (st[(size_t)p][(size_t)e]) can.push_back(e); if (st[(size_t)p][(size_t)e] == 2) old.push_back(e); }
    if (can.empty()) continue; auto any = [&] { return can[g.draw(can.size() - 1)]; };
    for (int e : old) if (g.chance(1, 3)) { P.movs.push_back({p, e, rr(), hold()}); anymove |= n > 1; }
    int nm = (int)g.range(1, 16), base = (int)P.msgs.size();
    for (int i = 0; i < nm; i++) {
      Msg m; m.phase = p; m.to = any(); m.kind = (int)g.weighted({3, 1, 1}); m.mode = m.kind == 0 && g.chance(1, 4); m.hold = hold(); m.origin = rr(); if (st[(size_t)p][(size_t)m.to] == 2 && g.chance(1, 5)) { m.move = rr(); anymove |= n > 1; }
      if (i && g.chance(1, 2)) { m.parent = base + (int)g.draw((uint64_t)i - 1); P.msgs[(size_t)m.parent].kids.push_back(base + i); }
      after |= anymove; P.msgs.push_back(m);
    }
    for (int i = (int)g.draw(6); i > 0; i--) P.looks.push_back({p, rr(), any(), hold(), g.coin()});
    for (int i = (int)g.draw(3); i > 0; i--) P.clrs.push_back({p, rr(), hold()}), g.label("emptied cache");
    for (int i = (int)g.draw(3); i > 0; i--) P.probes.push_back({p, any(), rr()});
  }
  for (int e = 0; e < P.E; e++) g.note("entity ", e, " home ", P.home[(size_t)e], "\n");
  for (auto& r : P.regs) g.note("phase ", r.phase, ": register ", r.e, " on ", r.rank, r.announce ? " (announced)" : "", " +", r.hold, "\n");
  for (auto& [p, e] : P.unregs) g.note("phase ", p, ": unregister ", e, " at the end\n");
  for (auto& m : P.movs) g.note("phase ", m.phase, ": move ", m.e, " to ", m.to, " +", m.hold, "\n");
  for (size_t i = 0; i < P.msgs.size(); i++) { auto& m = P.msgs[i]; g.note("phase ", m.phase, ": message ", i, " to ", m.to, m.parent < 0 ? pbt::cat(" from rank ", m.origin, " +", m.hold) : pbt::cat(" from message ", m.parent), m.kind == 0 ? " small" : m.kind == 1 ? " large" : " serialized", m.mode ? " (registered action)" : "", m.move >= 0 ? pbt::cat(" moves it to ", m.move) : std::string(), "\n"); }
  for (auto& l : P.looks) g.note("phase ", l.phase, ": lookup of ", l.e, " on ", l.rank, " +", l.hold, "\n");
  for (auto& l : P.clrs) g.note("phase ", l.phase, ": empty the cache of ", l.rank, " +", l.hold, "\n");
  g.note(rt::show(c)); if (anymove) g.label("migration"); g.nontrivial(n > 1 && anymove && after); Prog Q = P;
  rt::run(g, c, [&](int me) { P = Q; body(me); });
}
PBT_TARGET(cache, InProc, 20000, 400000) {
  using namespace vt::location; int cap = (int)g.range(1, 5), keys = (int)g.range(2, 12), n = (int)g.size(120); bool evicted = false, refreshed = false;
  LocationCache<int, int> c{(size_t)cap}; Lru m; m.cap = (size_t)cap; LocLookup<int, int> d{(size_t)cap, 0}; Lru dm; dm.cap = (size_t)cap; std::map<int, int> dir;
  for (int i = 0; i < n; i++) {
    int k = (int)g.draw((uint64_t)keys - 1), v = i, op = (int)g.draw(5), w = 0; bool home = k % 3 == 0; g.note(op, ":", k, " ");
    switch (op) {
      case 0: case 1: c.insert(k, v); evicted |= m.put(k, v); if (op == 0) { d.insert(k, home ? 0 : 1, v); if (home) dir[k] = v; else dm.put(k, v); } else { d.update(k, v); if (dir.count(k)) dir[k] = v; else dm.put(k, v); } break;
      case 2: { bool has = m.find(k) != m.l.end(); PBT_CHECK(c.exists(k) == has, "cache", "after ", i, " operations the cache of ", cap, has ? " lacks " : " holds ", k); if (has) { refreshed |= m.l.back().first == k && m.l.size() > 1; m.get(k, w); int r = c.get(k); PBT_CHECK(r == w, "cache", "the cache holds ", r, " for ", k, ", not ", w); } [[fallthrough]]; }
      case 3: { bool has = dir.count(k) || dm.find(k) != dm.l.end(); PBT_CHECK(d.exists(k) == has, "directory", "after ", i, " operations the directory with a cache of ", cap, has ? " lacks " : " holds ", k); if (has) { if (dir.count(k)) w = dir[k]; else dm.get(k, w); int r = d.get(k); PBT_CHECK(r == w, "directory", "the directory holds ", r, " for ", k, ", not ", w); } break; }
      case 4: c.remove(k); m.del(k); d.remove(k); dm.del(k); dir.erase(k); break;
      default: if (g.chance(1, 6)) { d.clearCache(); dm.l.clear(); } PBT_CHECK(c.getSize() == (size_t)cap && d.getCacheSize() == (size_t)cap, "cache", "size changed");
    }
  }
  for (int k = 0; k < keys; k++) { PBT_CHECK(c.exists(k) == (m.find(k) != m.l.end()), "cache", "at the end the cache of ", cap, " differs at ", k); PBT_CHECK(d.exists(k) == (dir.count(k) || dm.find(k) != dm.l.end()), "directory", "at the end the directory differs at ", k); }
  g.nontrivial(evicted && refreshed);
}

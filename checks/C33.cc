// variant: rt
// C33: virtual contexts are made once where asked and run each message once
#include "common/rt.h"
PBT_RULE("a case is up to 8 virtual contexts of two types made over 1-6 simulated ranks in up to 3 phases (locally, on a named rank, through a map, from handlers of other contexts; with a number, text and vector as arguments) and up to 40 messages to them (small, large, serialized below and above the eager size; from the maker, from ranks told the proxy by a message or in a later phase, from handlers; some in a rooted epoch of their own), with contexts destroyed between phases; one in 60 cases has a rank with more than 65536 contexts; non-trivial: several ranks, a context made from another rank, and a message sent to it in the phase that makes it.");
namespace {
struct Ctx { int phase = 0, maker = 0, place = 0, mode = 0, type = 0, hold = 0, by = -1, dies = -1; int64_t a = 0; std::string b; std::vector<int> v; std::vector<int> tells; };
struct Msg { int phase = 0, parent = -1, origin = 0, to = 0, kind = 0, size = 0, hold = 0, makes = -1; bool own = false; std::vector<int> kids; };
struct Prog { int n = 1, phases = 1, crowd = -1; std::vector<Ctx> cs; std::vector<Msg> msgs; } P;
int64_t& proxy(int c) { return sim::shared()[c]; }     // 1 + proxy
int64_t& made(int c) { return sim::shared()[100 + c]; }
int64_t& gone(int c) { return sim::shared()[200 + c]; }
int64_t& where(int c) { return sim::shared()[300 + c]; }   // address
int64_t& ran(int m) { return sim::shared()[1000 + m]; }
template <int T> struct VC : vt::vrt::VirtualContext {
  int id, type = T; int64_t a; std::string b; std::vector<int> v;
  VC(int i, int64_t a_, std::string b_, std::vector<int> v_) : id(i), a(a_), b(std::move(b_)), v(std::move(v_)) {
    if (id < 0) return; int me = sim::rank();
    RT_CHECK(id < (int)P.cs.size() && P.cs[(size_t)id].type == T, "content", "a context ", id, " of type ", T, " is made"); auto& C = P.cs[(size_t)id];
    RT_CHECK(++made(id) == 1, "made twice", "context ", id, " is made ", made(id), " times"); RT_CHECK(me == C.place, "place", "context ", id, " for rank ", C.place, " is made on rank ", me);
    RT_CHECK(a == C.a && b == C.b && v == C.v, "arguments", "context ", id, " is made with other arguments: ", a, " ", b, " ", v.size(), " for ", C.a, " ", C.b, " ", C.v.size()); where(id) = (int64_t)(uintptr_t)this; sim::progress();
  }
  ~VC() override { if (id >= 0) gone(id)++; }
};
struct Small : vt::vrt::VirtualMessage { int id = 0, from = 0; };
struct Large : vt::vrt::VirtualMessage { int id = 0, from = 0; unsigned char pad[300]; };
struct Ser : vt::vrt::VirtualMessage { using MessageParentType = vt::vrt::VirtualMessage; vt_msg_serialize_required(); int id = 0, from = 0; std::vector<int> v; template <class S> void serialize(S& s) { MessageParentType::serialize(s); s | id | from | v; } };
void send(int id); void make(int c);
template <int T> void run(VC<T>* vc, int id, int from) {
  int me = sim::rank(); RT_CHECK(id >= 0 && id < (int)P.msgs.size(), "content", "unknown message ", id); auto& M = P.msgs[(size_t)id]; auto& C = P.cs[(size_t)M.to];
  RT_CHECK(vc->id == M.to && vc->type == T && (int64_t)(uintptr_t)vc == where(M.to) && me == C.place, "misdelivered", "message ", id, " for context ", M.to, " of rank ", C.place, " runs on context ", vc->id, " of rank ", me);
  RT_CHECK(gone(M.to) == 0 && vc->a == C.a && vc->b == C.b && vc->v == C.v, "state", "context ", M.to, " has other contents when message ", id, " runs");
  RT_CHECK((int64_t)vc->getProxy() + 1 == proxy(M.to), "proxy", "context ", M.to, " has proxy ", vc->getProxy(), ", not ", proxy(M.to) - 1);
  RT_CHECK(M.parent >= 0 ? from == P.cs[(size_t)P.msgs[(size_t)M.parent].to].place : from == M.origin, "content", "message ", id, " is from rank ", from);
  RT_CHECK(vt::theVirtualManager()->getVirtualByProxy(vc->getProxy()) == vc, "lookup", "the proxy of context ", M.to, " gives another context");
  RT_CHECK(++ran(id) == 1, "duplicate", "message ", id, " ran ", ran(id), " times"); sim::progress();
  if (M.makes >= 0) make(M.makes);
  for (int k : M.kids) send(k);
}
template <int T> void small(VC<T>* vc, Small* m) { run<T>(vc, m->id, m->from); }
template <int T> void large(VC<T>* vc, Large* m) { for (int i = 0; i < 300; i++) RT_CHECK(m->pad[i] == (unsigned char)(m->id * 7 + i), "content", "message ", m->id, " altered"); run<T>(vc, m->id, m->from); }
template <int T> void ser(VC<T>* vc, Ser* m) { RT_CHECK(m->id >= 0 && m->id < (int)P.msgs.size() && m->v == std::vector<int>((size_t)P.msgs[(size_t)m->id].size, m->id), "content", "message ", m->id, " altered"); run<T>(vc, m->id, m->from); }
template <int T> void sendT(int id) {
  auto& M = P.msgs[(size_t)id]; int me = sim::rank(); RT_CHECK(proxy(M.to), "harness", "context ", M.to, " has no proxy"); auto p = (vt::VirtualProxyType)(proxy(M.to) - 1); auto vm = vt::theVirtualManager();
  switch (M.kind) {
    case 0: { auto m = vt::makeMessage<Small>(); m->id = id; m->from = me; vm->sendMsg<VC<T>, Small, small<T>>(p, m.get()); break; }
    case 1: { auto m = vt::makeMessage<Large>(); m->id = id; m->from = me; for (int i = 0; i < 300; i++) m->pad[i] = (unsigned char)(id * 7 + i); vm->sendMsg<VC<T>, Large, large<T>>(p, m.get()); break; }
    default: { auto m = vt::makeMessage<Ser>(); m->id = id; m->from = me; m->v.assign((size_t)M.size, id); vm->sendSerialMsg<VC<T>, Ser, ser<T>>(p, m.get()); }
  }
}
void send(int id) { if (P.cs[(size_t)P.msgs[(size_t)id].to].type) sendT<1>(id); else sendT<0>(id); }
vt::NodeType themap(vt::SeedType, vt::NodeType) { return 0; }
template <int T> vt::VirtualProxyType makeT(int c) {
  auto& C = P.cs[(size_t)c]; auto vm = vt::theVirtualManager();
  if (C.mode == 1) return vm->makeVirtual<VC<T>>(c, C.a, C.b, C.v);
  if (C.mode == 2) return vm->makeVirtualMap<VC<T>, themap>(c, C.a, C.b, C.v);
  return vm->makeVirtualNode<VC<T>>((vt::NodeType)C.place, c, C.a, C.b, C.v);
}
bool under(int m, int top) { for (; m >= 0; m = P.msgs[(size_t)m].parent) if (m == top) return true; return false; }
void sendRoot(int i) {
  if (!P.msgs[(size_t)i].own) { send(i); return; }
  vt::runInEpochRooted([i] { send(i); });
  for (size_t k = 0; k < P.msgs.size(); k++) if (under((int)k, i)) RT_CHECK(ran((int)k) == 1, "lost", "message ", k, " ran ", ran((int)k), " times when its rooted epoch ended");
}
void rootsOf(int c, int me) { for (size_t i = 0; i < P.msgs.size(); i++) { auto& M = P.msgs[i]; if (M.to == c && M.parent < 0 && M.origin == me && M.phase == P.cs[(size_t)c].phase) sendRoot((int)i); } }
void told(int c, int64_t p) { RT_CHECK(proxy(c) == p, "harness", "proxy of ", c); rootsOf(c, sim::rank()); }
void make(int c) {
  auto& C = P.cs[(size_t)c]; auto p = C.type ? makeT<1>(c) : makeT<0>(c);
  for (int o = 0; o < (int)P.cs.size(); o++) RT_CHECK(o == c || proxy(o) != (int64_t)p + 1, "proxy", "contexts ", o, " and ", c, " have the same proxy ", p);
  RT_CHECK(proxy(c) == 0, "harness", "context ", c, " asked for twice"); proxy(c) = (int64_t)p + 1;
  for (int r : C.tells) vt::theMsg()->send<told>(vt::Node{(vt::NodeType)r}, c, proxy(c));
  if (C.by < 0) rootsOf(c, sim::rank());
}
void body(int me) {
  for (int ph = 0; ph < P.phases; ph++) {
    vt::runInEpochCollective([&] {
      if (ph == 0 && P.crowd == me) for (int i = 0; i < 65600; i++) vt::theVirtualManager()->makeVirtual<VC<0>>(-1, (int64_t)0, std::string(), std::vector<int>());
      std::vector<std::pair<int, std::function<void()>>> ops;
      for (size_t c = 0; c < P.cs.size(); c++) if (P.cs[c].phase == ph && P.cs[c].by < 0 && P.cs[c].maker == me) ops.push_back({P.cs[c].hold, [c] { make((int)c); }});
      for (size_t i = 0; i < P.msgs.size(); i++) if (P.msgs[i].phase == ph && P.msgs[i].parent < 0 && P.msgs[i].origin == me && P.cs[(size_t)P.msgs[i].to].phase < ph) ops.push_back({P.msgs[i].hold, [i] { sendRoot((int)i); }});
      std::stable_sort(ops.begin(), ops.end(), [](auto& a, auto& b) { return a.first < b.first; }); int now = 0;
      for (auto& [t, f] : ops) { for (; now < t; now++) vt::theSched()->runSchedulerOnceImpl(); f(); }
    });
    for (size_t c = 0; c < P.cs.size(); c++) if (P.cs[c].phase == ph) RT_CHECK(made((int)c) == 1, "not made", "context ", c, " was made ", made((int)c), " times when the epoch ended");
    for (size_t i = 0; i < P.msgs.size(); i++) if (P.msgs[i].phase == ph) RT_CHECK(ran((int)i) == 1, "lost", "message ", i, " ran ", ran((int)i), " times when its epoch ended");
    vt::theCollective()->barrier();
    for (size_t c = 0; c < P.cs.size(); c++) if (P.cs[c].dies == ph && P.cs[c].place == me) { RT_CHECK(gone((int)c) == 0, "destroyed", "context ", c, " is gone before it is destroyed"); vt::theVirtualManager()->destroyVirtualByProxy((vt::VirtualProxyType)(proxy((int)c) - 1)); RT_CHECK(gone((int)c) == 1, "destroyed", "context ", c, " is destroyed ", gone((int)c), " times"); }
    vt::theCollective()->barrier();
    for (size_t c = 0; c < P.cs.size(); c++) if (P.cs[c].phase <= ph) RT_CHECK(gone((int)c) == (P.cs[c].dies >= 0 && P.cs[c].dies <= ph), "destroyed", "context ", c, " is destroyed ", gone((int)c), " times by the end of phase ", ph);
  }
}
} // namespace

PBT_TARGET(contexts, Isolated, 1500, 60000) {
  auto c = rt::gen(g); P = Prog{}; int n = P.n = c.sim.n; P.phases = (int)g.range(1, 3); auto rr = [&] { return (int)g.draw((uint64_t)n - 1); }; auto hold = [&] { return g.chance(1, 2) ? (int)g.draw(12) : 0; };
  auto ctx = [&](int ph) { Ctx x; x.phase = ph; x.maker = rr(); x.place = rr(); x.mode = (int)g.weighted({6, 1, 1}); if (x.mode) x.place = x.maker; x.type = g.coin(); x.hold = hold(); x.a = (int64_t)g.u64(); x.b = g.text(20, "abcxyz"); x.v.assign(g.draw(30), (int)g.draw(99)); if (g.chance(1, 3)) x.dies = (int)g.range(ph, P.phases - 1); return x; };
  bool remote = false, race = false;
  for (int p = 0; p < P.phases; p++) {
    if (p == 0 || g.coin()) for (int i = (int)g.range(1, 3); i > 0; i--) { auto x = ctx(p); for (int r = 0; r < n; r++) if (r != x.maker && g.chance(1, 3)) x.tells.push_back(r); P.cs.push_back(x); }
    std::vector<int> can; for (size_t i = 0; i < P.cs.size(); i++) if ((P.cs[i].dies < 0 || P.cs[i].dies >= p) && P.cs[i].by < 0) can.push_back((int)i);
    for (size_t i = 0; i < P.cs.size(); i++) if (P.cs[i].by >= 0 && P.cs[i].phase < p && (P.cs[i].dies < 0 || P.cs[i].dies >= p)) can.push_back((int)i);
    if (can.empty()) continue;
    int nm = (int)g.range(1, 14), base = (int)P.msgs.size();
    for (int i = 0; i < nm; i++) {
      Msg m; m.phase = p; m.kind = (int)g.weighted({3, 1, 2}); m.size = (int)(g.coin() ? g.draw(8) : g.draw(200)); m.hold = hold();
      if (i && g.chance(2, 5)) {
        m.parent = base + (int)g.draw((uint64_t)i - 1); auto& Q = P.msgs[(size_t)m.parent]; Q.kids.push_back(base + i);
        std::vector<int> may{Q.to}; if (Q.makes >= 0) may.push_back(Q.makes), may.push_back(Q.makes); for (int k : can) if (P.cs[(size_t)k].phase < p) may.push_back(k); m.to = g.pick(may);
      } else {
        m.to = g.pick(can); auto& C = P.cs[(size_t)m.to];
        if (C.phase < p) { m.origin = rr(); m.own = g.chance(1, 4); } else { m.origin = C.tells.empty() || g.coin() ? C.maker : g.pick(C.tells); m.own = m.origin == C.maker && g.chance(1, 4); }
      }
      if (P.cs.size() < 8 && g.chance(1, 10)) { Ctx x = ctx(p); x.by = base + i; x.maker = P.cs[(size_t)m.to].place; if (x.mode) x.place = x.maker; m.makes = (int)P.cs.size(); P.cs.push_back(x); g.label("made from a handler"); }
      P.msgs.push_back(m);
    }
  }
  for (auto& x : P.cs) { remote |= x.place != x.maker; if (x.dies >= 0) g.label("destroyed"); }
  for (auto& m : P.msgs) { auto& C = P.cs[(size_t)m.to]; race |= C.place != C.maker && C.phase == m.phase; if (m.own) g.label("rooted epoch"); if (m.kind == 2 && m.size > 40) g.label("large serialized"); }
  if (n > 1 && g.chance(1, 60)) { P.crowd = rr(); g.label("more than 65536 contexts"); }
  for (size_t i = 0; i < P.cs.size(); i++) { auto& x = P.cs[i]; g.note("context ", i, " phase ", x.phase, x.by < 0 ? pbt::cat(" by rank ", x.maker, " +", x.hold) : pbt::cat(" by message ", x.by), " on rank ", x.place, x.mode == 1 ? " (local)" : x.mode == 2 ? " (map)" : "", " type ", x.type); if (x.tells.size()) g.note(" told to ", pbt::cat(x.tells.size()), " ranks from ", x.tells[0]); if (x.dies >= 0) g.note(" destroyed after phase ", x.dies); g.note("\n"); }
  for (size_t i = 0; i < P.msgs.size(); i++) { auto& m = P.msgs[i]; g.note("phase ", m.phase, ": message ", i, " to ", m.to, m.parent < 0 ? pbt::cat(" from rank ", m.origin, " +", m.hold) : pbt::cat(" from message ", m.parent), m.kind == 0 ? " small" : m.kind == 1 ? " large" : pbt::cat(" serialized ", m.size), m.own ? " in its own epoch" : "", m.makes >= 0 ? pbt::cat(" makes ", m.makes) : std::string(), "\n"); }
  if (P.crowd >= 0) g.note("65600 contexts on rank ", P.crowd, "\n");
  g.note(rt::show(c)); g.nontrivial(n > 1 && remote && race); Prog Q = P;
  rt::run(g, c, [&](int me) { P = Q; body(me); });
}

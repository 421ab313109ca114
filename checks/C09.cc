// variant: rt
// C09: messages to a rank group reach exactly its members
#include "common/rt.h"
#include "common/fold.h"
PBT_RULE("A case is up to 3 phases over 1-12 (one in eight: up to 32) simulated ranks: groups made collectively from any subset (with or without an MPI communicator) or by one rank from a list or strided range, each rank calling at its own moment; then, while groups are set up and later, broadcasts to them by members, outsiders, creators, setup actions, other ranks told the group's id and handlers of earlier messages, with and without delivery to the sender, through messages, object groups and multicasts to regions, and reductions over groups; non-trivial: at least two ranks, a group and two messages.");
namespace {
enum Form { Plain, Packed, Objg, Region };
enum How { Direct, Action, Told };
struct Send { int id = 0, group = 0, form = 0, how = 0, from = 0, teller = 0; bool self = true; int len = 0, kid = -1, at = -1; std::vector<int> who; };
struct Group { bool coll = true, comm = false; std::vector<int> members; int how = 0, creator = 0, lo = 0, hi = 0, stride = 1; std::vector<int> list; int phase = 0; std::vector<std::vector<int>> acts; };
struct Red { fold::Red red; int group = 0, root = 0; };
struct Item { int what, arg; };    // 0 create, 1 send, 2 reduction, 3 scheduler steps, 4 rooted epoch
struct Phase { std::vector<std::vector<Item>> ranks; std::vector<int> sends, reds, groups, drop; };
struct Prog { int n = 1; std::vector<Group> groups; std::vector<Send> sends; std::vector<Red> reds; std::vector<Phase> phases; } P;
constexpr int W = 40;
int64_t* ran(int id, int r) { return sim::shared() + id * W + r; }             // up to 300 sends
int64_t* acted(int g, int r) { return sim::shared() + 12000 + g * W + r; }     // up to 12 groups
int64_t* gid(int g) { return sim::shared() + 12600 + g; }
int64_t* rootof(int g, int r) { return sim::shared() + 12700 + g * W + r; }
int64_t* late(int id) { return sim::shared() + 13400 + id; }
fold::Log const rlog{14000};                                                    // 40 * 301
bool has(std::vector<int> const& v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }
int64_t word(int id, int i) { return (int64_t)fold::mix((uint64_t)id, (uint64_t)i); }
std::vector<int64_t> data(Send const& o) { std::vector<int64_t> v; for (int i = 0; i < o.len; i++) v.push_back(word(o.id, i)); return v; }
void do_send(int id);
std::vector<int> target(Send const& s) {
  auto v = s.form == Region ? s.who : P.groups[(size_t)s.group].members;
  if (!s.self) v.erase(std::remove(v.begin(), v.end(), s.from), v.end());
  return v;
}
void arrived(int id, std::vector<int64_t> const& d) {
  int me = sim::rank(); RT_CHECK(id >= 0 && id < (int)P.sends.size(), "content", "message with id ", id);
  auto& s = P.sends[(size_t)id]; RT_CHECK(d == data(s), "content", "message ", id, " arrived with other content");
  (*ran(id, me))++; RT_CHECK(has(target(s), me), "outsider", "message ", id, " to group ", s.group, " ran on rank ", me); RT_CHECK(*ran(id, me) == 1, "duplicate", "message ", id, " ran twice on rank ", me);
  sim::progress(); if (s.kid >= 0 && s.at == me) do_send(s.kid);
}
struct Msg : vt::Message { using MessageParentType = vt::Message; vt_msg_serialize_required(); int id = 0; std::vector<int64_t> d;
  Msg() = default; template <class S> void serialize(S& s) { MessageParentType::serialize(s); s | id | d; } };
struct Small : vt::Message { int id = 0; };
void han(Msg* m) { arrived(m->id, m->d); }
void hans(Small* m) { arrived(m->id, data(P.sends[(size_t)m->id])); }
struct Obj { void f(int id, std::vector<int64_t> d) { arrived(id, d); } void m(Msg* x) { arrived(x->id, x->d); } };
vt::objgroup::proxy::Proxy<Obj> px;
void tell(int id) { do_send(id); }
std::vector<vt::GroupType> ids;
void emit(int id) {
  auto& s = P.sends[(size_t)id]; auto g = (vt::GroupType)*gid(s.group);
  switch (s.form) {
    case Plain: { auto m = vt::makeMessage<Small>(); m->id = id; vt::envelopeSetGroup(m->env, g); vt::theMsg()->broadcastMsg<hans>(m, s.self); break; }
    case Packed: { auto m = vt::makeMessage<Msg>(); m->id = id; m->d = data(s); vt::envelopeSetGroup(m->env, g); vt::theMsg()->broadcastMsg<han>(m, s.self); break; }
    case Objg: px.multicast<&Obj::f>(g, id, data(s)); break;
    default: { auto w = s.who; std::vector<vt::group::region::Region::BoundType> l(w.begin(), w.end()); px.multicast<&Obj::f>(std::make_unique<vt::group::region::List>(l), id, data(s)); }
  }
}
void do_send(int id) {
  auto& s = P.sends[(size_t)id];
  if (s.how == Told && sim::rank() != s.from) { vt::theMsg()->send<tell>(vt::Node{(vt::NodeType)s.from}, id); return; }
  emit(id);
}
void on_ready(int g, vt::GroupType t) {
  int me = sim::rank(); auto& G = P.groups[(size_t)g]; (*acted(g, me))++; sim::progress();
  RT_CHECK(*acted(g, me) == 1, "setup-action", "the setup action of group ", g, " ran twice on rank ", me);
  RT_CHECK(G.coll || me == G.creator, "setup-action", "rank ", me); *gid(g) = (int64_t)t;
  for (int id : G.acts[(size_t)me]) do_send(id);
}
void create(int g) {
  auto& G = P.groups[(size_t)g]; int me = sim::rank();
  auto act = [g](vt::GroupType t) { on_ready(g, t); };
  vt::GroupType t;
  if (G.coll) { t = vt::theGroup()->newGroupCollective(has(G.members, me), act, G.comm); *gid(g) = (int64_t)t; }
  else {
    std::unique_ptr<vt::group::region::Region> r; using B = vt::group::region::Region::BoundType;
    if (G.how == 0) r = std::make_unique<vt::group::region::List>(std::vector<B>(G.list.begin(), G.list.end()));
    else r = std::make_unique<vt::group::region::Range>((B)G.lo, (B)G.hi, (B)G.stride);
    t = vt::theGroup()->newGroup(std::move(r), act); *gid(g) = (int64_t)t;
  }
  ids[(size_t)g] = t;
}
void reached(int id, bool deep) {
  auto& s = P.sends[(size_t)id]; auto w = target(s);
  for (int r = 0; r < P.n; r++) RT_CHECK(*ran(id, r) == (has(w, r) ? 1 : 0), "lost", "message ", id, " from ", s.from, " to group ", s.group, " ran ", *ran(id, r), " times on rank ", r, has(w, r) ? " (a member)" : "", " when its epoch had ended");
  if (deep && s.kid >= 0) reached(s.kid, true);
}
template <class... A> void red_done(A... a) { rlog.add(sim::rank(), fold::digest(a...)); }
void give(Red& q) {
  auto* R = vt::theGroup()->groupReducer(ids[(size_t)q.group]); vt::Node root{(vt::NodeType)q.root};
  fold::contribute(q.red, sim::rank(), [&](auto F, auto... a) { constexpr int f = decltype(F)::value;
    if constexpr (f == fold::NoneF) R->reduce<red_done<>>(root); else R->reduce<red_done<decltype(a)...>, fold::OpOf<f>::template Op>(root, a...); });
}
void items(std::vector<Item> const& v) {
  for (size_t i = 0; i < v.size(); i++) switch (v[i].what) {
    case 0: create(v[i].arg); break;
    case 1: do_send(v[i].arg); break;
    case 2: give(P.reds[(size_t)v[i].arg]); break;
    case 3: for (int s = 0; s < v[i].arg; s++) vt::theSched()->runSchedulerOnceImpl(); break;
    case 4: i++; vt::runInEpochRooted([&] { do_send(v[i].arg); }); reached(v[i].arg, true); break;
  }
}
void body(int me) {
  ids.assign(P.groups.size(), 0); px = vt::theObjGroup()->makeCollective<Obj>("obj"); vt::theCollective()->barrier();
  std::vector<std::pair<uint64_t, int>> want;
  for (auto& ph : P.phases) {
    vt::runInEpochCollective([&] { items(ph.ranks[(size_t)me]); });
    for (int id : ph.sends) reached(id, false);
    for (int q : ph.reds) { auto& r = P.reds[(size_t)q]; if (r.root == me) want.push_back({fold::expect(r.red, P.groups[(size_t)r.group].members), r.red.rid}); }
    rlog.check(me, want, "root rank");
    for (int g : ph.groups) {
      auto& G = P.groups[(size_t)g]; bool in = has(G.members, me);
      if (!G.coll) { if (me == G.creator) RT_CHECK(*acted(g, me) == 1, "setup-action", "rank ", me, " never ran the setup action of group ", g); continue; }
      RT_CHECK(*acted(g, me) == 1, "setup-action", "rank ", me, " ran the setup action of group ", g, " ", *acted(g, me), " times");
      RT_CHECK(ids[(size_t)g] == (vt::GroupType)*gid(g) || P.n == 1, "group-id", "rank ", me, " has another id for group ", g);
      RT_CHECK(vt::theGroup()->inGroup(ids[(size_t)g]) == in, "membership", "rank ", me, " in group ", g);
      RT_CHECK(vt::theGroup()->isGroupDefault(ids[(size_t)g]) == ((int)G.members.size() == P.n), "membership", "isGroupDefault on rank ", me, " for a group of ", G.members.size(), " of ", P.n);
      *rootof(g, me) = vt::theGroup()->groupRoot(ids[(size_t)g]);
      if (!G.members.empty()) RT_CHECK(has(G.members, (int)*rootof(g, me)), "root", "rank ", me, " reports root ", *rootof(g, me), " for group ", g);
      if (G.comm && P.n > 1) { int k = -1; MPI_Comm_size(vt::theGroup()->getGroupComm(ids[(size_t)g]), &k); int w = in ? (int)G.members.size() : P.n - (int)G.members.size(); RT_CHECK(k == w, "communicator", "rank ", me, " has a communicator of ", k, " ranks for group ", g, ", expected ", w); }
    }
    vt::theCollective()->barrier();
    for (int g : ph.groups) if (P.groups[(size_t)g].coll) for (int r = 0; r < P.n; r++) RT_CHECK(*rootof(g, r) == *rootof(g, me), "root", "ranks ", me, " and ", r, " report roots ", *rootof(g, me), " and ", *rootof(g, r), " of group ", g);
    vt::theCollective()->barrier();
    for (int g : ph.drop) vt::theGroup()->deleteGroupCollective(ids[(size_t)g]);
  }
}
} // namespace

PBT_TARGET(groups, Isolated, 2000, 100000) {
  rt::Opt o; o.max_n = g.chance(1, 8) ? 32 : g.chance(1, 3) ? 12 : 6; auto c = rt::gen(g, o); int n = c.sim.n;
  P = Prog{}; P.n = n; int nph = (int)g.range(1, 3), rid = 0; std::vector<int> live, lastwho;
  for (int k = 0; k < nph; k++) {
    Phase ph; ph.ranks.resize((size_t)n); int fresh = (int)g.range(k ? 0 : 1, 3); int first = (int)P.groups.size(); auto before = live;
    for (int i = 0; i < fresh; i++) {
      Group G; G.phase = k; G.coll = g.chance(2, 3); G.acts.resize((size_t)n); G.comm = G.coll && g.chance(1, 5);
      if (G.coll) {
        switch (g.weighted({4, 1, 1, 1, 1})) {
          case 0: { int d = (int)g.range(1, 3); for (int r = 0; r < n; r++) if (g.chance((uint64_t)d, 4)) G.members.push_back(r); break; }
          case 1: for (int r = 0; r < n; r++) G.members.push_back(r); break;
          case 2: G.members.push_back((int)g.draw((uint64_t)n - 1)); break;
          case 3: for (int r = 1; r < n; r++) G.members.push_back(r); break;
          default: for (int r = n / 2; r < n; r++) G.members.push_back(r); break;
        }
        g.label(G.members.empty() ? "empty collective group" : (int)G.members.size() == n ? "collective group of all" : has(G.members, 0) ? "collective group with rank 0" : "collective group without rank 0");
      } else {
        G.creator = (int)g.draw((uint64_t)n - 1); G.how = (int)g.draw(1);
        if (G.how == 0) { auto p = g.perm((size_t)n); int m = (int)g.range(1, n); for (int j = 0; j < m; j++) G.list.push_back((int)p[(size_t)j]); G.members = G.list; }
        else { G.lo = (int)g.draw((uint64_t)n - 1); G.hi = (int)g.range(G.lo + 1, n); G.stride = (int)g.range(1, 3); for (int r = G.lo; r < G.hi; r += G.stride) G.members.push_back(r); }
        g.label(has(G.members, G.creator) ? "rooted group with its creator" : "rooted group without its creator");
      }
      live.push_back((int)P.groups.size()); ph.groups.push_back((int)P.groups.size()); P.groups.push_back(G);
    }
    // fill: rank r sends to group gr, which it knows when it does
    auto make = [&](auto& self, int r, int gr, int how, int depth) -> int {
      Send s; s.id = (int)P.sends.size(); s.group = gr; s.how = how; s.from = r; s.form = (int)g.weighted({3, 4, 2, 1}); s.self = s.form <= Packed && P.groups[(size_t)gr].coll ? !g.chance(1, 4) : true;
      s.len = g.chance(1, 8) ? (int)g.range(20, 300) : (int)g.range(0, 4); if (s.form == Plain) s.len = 0;
      if (s.form == Region && lastwho.size() && g.chance(1, 3)) s.who = lastwho; else if (s.form == Region) { for (int q = 0; q < n; q++) if (g.coin()) s.who.push_back(q); if (s.who.empty()) s.who.push_back((int)g.draw((uint64_t)n - 1)); lastwho = s.who; }
      P.sends.push_back(s); ph.sends.push_back(s.id);
      g.label((char const*[]){"message", "serialized message", "object-group multicast", "multicast to a region"}[s.form]); g.label((char const*[]){"sent directly", "sent by the setup action", "sent by a rank that was told"}[how]);
      if (s.form != Region) g.label(P.groups[(size_t)gr].phase == k ? "group in setup" : "group set up"), g.label(has(P.groups[(size_t)gr].members, r) ? "sender is a member" : "sender is an outsider");
      auto w = target(s);
      if (!w.empty() && depth < 3 && P.sends.size() < 100 && g.chance(1, 3)) {
        std::vector<int> cand = before; if (!P.groups[(size_t)gr].coll || has(before, gr)) cand.push_back(gr); else if (s.form != Region) cand.push_back(gr);
        if (!cand.empty()) { int at = g.pick(w), kg = g.pick(cand); int kid = self(self, at, kg, Direct, depth + 1); P.sends[(size_t)s.id].kid = kid; P.sends[(size_t)s.id].at = at; }
      }
      return s.id;
    };
    for (int r = 0; r < n; r++) {
      auto& v = ph.ranks[(size_t)r]; int made = first;
      auto creates = [&](int upto) { while (made < upto) { auto& G = P.groups[(size_t)made]; if (G.coll || G.creator == r) v.push_back({0, made}); made++; } };
      int m = n > 12 ? (int)g.weighted({3, 1}) : (int)g.range(0, 3);
      for (int i = 0; i < m; i++) {
        if (made < first + fresh && g.coin()) creates(made + 1);
        if (g.chance(1, 4)) v.push_back({3, (int)g.range(1, 12)});
        std::vector<int> cand; for (int x : live) if (has(before, x) || (x < made && P.groups[(size_t)x].coll)) cand.push_back(x);
        if (cand.empty()) continue;
        int gr = g.pick(cand), src = r, how = Direct;
        if (has(before, gr) && g.chance(1, 6)) { how = Told; src = (int)g.draw((uint64_t)n - 1); }
        int id = make(make, src, gr, how, 0);
        if (how == Direct && g.chance(1, 4)) { v.push_back({4, 0}); g.label("rooted epoch"); }
        v.push_back({1, id});
      }
      creates(first + fresh);
    }
    for (int x = first; x < first + fresh; x++) for (int j = (int)g.weighted({2, 2, 1}); j > 0; j--) { int r = P.groups[(size_t)x].coll ? (int)g.draw((uint64_t)n - 1) : P.groups[(size_t)x].creator; bool told = !P.groups[(size_t)x].coll && g.chance(1, 3); int id = make(make, told ? (int)g.draw((uint64_t)n - 1) : r, x, told ? Told : Action, 0); P.groups[(size_t)x].acts[(size_t)r].push_back(id); }
    if (k) for (int j = (int)g.weighted({2, 2, 1}); j > 0; j--) {
      std::vector<int> cand; for (int x : before) if (P.groups[(size_t)x].coll && !P.groups[(size_t)x].members.empty()) cand.push_back(x);
      if (cand.empty()) break;
      Red q; q.red = fold::gen(g, rid++); q.group = g.pick(cand); q.root = (int)g.draw((uint64_t)n - 1); int id = (int)P.reds.size(); P.reds.push_back(q); ph.reds.push_back(id); g.label("reduction over a group");
      for (int r : P.groups[(size_t)q.group].members) ph.ranks[(size_t)r].push_back({2, id});
    }
    std::vector<int> left; for (int x : live) if (P.groups[(size_t)x].coll && !P.groups[(size_t)x].comm && g.chance(1, 6)) { ph.drop.push_back(x); g.label("group deleted"); } else left.push_back(x);
    live = left; P.phases.push_back(ph);
    g.note("phase ", k, "\n"); for (int r = 0; r < n; r++) { g.note("  rank ", r, ":"); for (auto& it : ph.ranks[(size_t)r]) g.note(" ", (char const*[]){"create", "send", "reduce", "steps", "epoch"}[it.what], it.arg); g.note("\n"); }
  }
  for (size_t i = 0; i < P.groups.size(); i++) { auto& G = P.groups[i]; g.note("  group ", i, G.coll ? " collective" : " rooted", G.comm ? " with communicator" : ""); if (!G.coll) g.note(" by ", G.creator, G.how ? pbt::cat(" range ", G.lo, ":", G.hi, ":", G.stride) : " list"); g.note(" members"); for (int x : G.members) g.note(" ", x); g.note("; action sends:"); for (int r = 0; r < n; r++) for (int x : G.acts[(size_t)r]) g.note(" ", r, ":", x); g.note("\n"); }
  for (auto& s : P.sends) { g.note("  send", s.id, " group=", s.group, " from=", s.from, " form=", s.form, " how=", s.how, s.self ? "" : " not-to-self", " len=", s.len, " kid=", s.kid, "@", s.at); if (s.form == Region) { g.note(" to"); for (int x : s.who) g.note(" ", x); } g.note("\n"); }
  for (auto& q : P.reds) g.note("  reduction ", q.red.rid, " ", fold::fam_name[q.red.fam], " group=", q.group, " root=", q.root, "\n");
  g.note(rt::show(c)); g.nontrivial(n > 1 && !P.groups.empty() && P.sends.size() > 1);
  Prog Q = P;
  rt::run(g, c, [&](int me) { P = Q; body(me); });
}

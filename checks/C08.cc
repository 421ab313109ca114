// variant: rt
// C08: object groups run each call on the named rank's own instance exactly once
#include "common/rt.h"
#include "common/fold.h"
#include <memory>
PBT_RULE("A case is up to 4 phases over 1-7 simulated ranks: object groups made in five ways (each rank at its own moment, so calls may arrive before the local object exists), trees of sends, broadcasts and local invocations with parameters or messages, through base-class and deserialized proxies, some awaited in rooted epochs, reductions and all-reduces of 13 operator families, replacement of objects and destruction of groups; non-trivial: at least two ranks and three calls.");
namespace {
enum Kind { Send, SendMsg, Bcast, BcastMsg, Invoke, BaseSend, Fwd, Free };
struct Op { int kind = 0, id = 0, group = 0, dest = 0, len = 0; std::vector<int> kids; };
struct Item { int what; int arg; };   // 0 create group, 1 op, 2 reduction, 3 scheduler steps, 4 rooted epoch of the next arg items
struct Red { fold::Red red; int group = 0, dest = 0; bool all = false, cb = false; };
struct Phase { std::vector<std::vector<Item>> ranks; std::vector<int> ops, reds, update, destroy; };
struct Group { int how = 0, phase = 0, born = 0; };
struct Prog { int n = 1; std::vector<Group> groups; std::vector<Op> ops; std::vector<Red> reds; std::vector<Phase> phases; } P;
fold::Log const rlog{0};
int64_t* ran(int id, int rank) { return sim::shared() + 6000 + id * 8 + rank; }
int64_t* dtor(int g, int rank) { return sim::shared() + 60000 + g * 8 + rank; }
int64_t word(int id, int i) { return (int64_t)fold::mix((uint64_t)id, (uint64_t)i); }
std::vector<int64_t> data(Op const& o) { std::vector<int64_t> v; for (int i = 0; i < o.len; i++) v.push_back(word(o.id, i)); return v; }

struct Msg : vt::Message {
  using MessageParentType = vt::Message; vt_msg_serialize_required();
  int id = 0; std::vector<int64_t> d;
  Msg() = default; Msg(int i, std::vector<int64_t> const& x) : id(i), d(x) {}
  template <class S> void serialize(S& s) { MessageParentType::serialize(s); s | id | d; }
};
struct Small : vt::Message { int id; explicit Small(int i) : id(i) {} };
void run_op(int id);
void arrived(int id, std::vector<int64_t> const& d) {
  RT_CHECK(id >= 0 && id < (int)P.ops.size(), "content", "call with id ", id);
  RT_CHECK(d == data(P.ops[(size_t)id]), "content", "call ", id, " arrived with other content");
  int me = sim::rank(); auto& o = P.ops[(size_t)id];
  (*ran(id, me))++; RT_CHECK(*ran(id, me) == 1, "duplicate", "call ", id, " ran twice on rank ", me);
  bool everywhere = o.kind == Bcast || o.kind == BcastMsg;
  RT_CHECK(everywhere || me == o.dest, "wrong-rank", "call ", id, " for rank ", o.dest, " ran on rank ", me);
  sim::progress();
  if (me == o.dest) for (int k : o.kids) run_op(k);
}
struct Base {
  virtual ~Base() = default;
  virtual void base(int id, std::vector<int64_t> d) = 0;
  int64_t magic = 0x5eed; int gid = 0;
};
struct Pad { int64_t pad[3] = {1, 2, 3}; virtual ~Pad() = default; };
struct Obj : Base {
  int owner = sim::rank(), version; static inline int made = 0; std::vector<int> heap{1, 2, 3};
  explicit Obj(int g, int v = 0) : version(v) { gid = g; made++; }
  Obj(Obj const&) = delete;
  ~Obj() override { check("destructor"); magic = 0; (*dtor(gid, owner))++; }
  void check(char const* what) const;
  void call(int id, std::vector<int64_t> d) { here(id); arrived(id, d); }
  void fwd(vt::objgroup::proxy::Proxy<Obj> p, vt::objgroup::proxy::ProxyElm<Obj> e, int id, std::vector<int64_t> d) {
    here(id); RT_CHECK(p.get() == this && e.get() == this, "proxy", "a proxy that was sent names another object"); arrived(id, d);
  }
  void msg(Msg* m) { here(m->id); arrived(m->id, m->d); }
  void small(Small* m) { here(m->id); arrived(m->id, data(P.ops[(size_t)m->id])); }
  int value(int id, std::vector<int64_t> const& d) { here(id); arrived(id, d); return id * 31 + gid; }
  void base(int id, std::vector<int64_t> d) override { here(id); arrived(id, d); }
  template <class... A> void red(A... a) { check("reduction target"); rlog.add(sim::rank(), fold::digest(a...)); }
  void here(int id) { check("call"); RT_CHECK(gid == P.ops[(size_t)id].group, "wrong-object", "call ", id, " of group ", P.ops[(size_t)id].group, " ran on an object of group ", gid); }
};
using Proxy = vt::objgroup::proxy::Proxy<Obj>;
template <class T> struct UserPtr {
  std::shared_ptr<T> p; UserPtr(std::nullptr_t) {} explicit UserPtr(T* t) : p(t) {}
  T* operator*() const { return p.get(); } bool operator!=(std::nullptr_t) const { return p != nullptr; }
};
std::vector<Proxy> px; std::vector<Obj*> raw; std::vector<Obj*> cur; std::vector<int> vers;
void Obj::check(char const* what) const {
  RT_CHECK(magic == 0x5eed && heap.size() == 3, "dead-object", what, " on an object that is gone");
  RT_CHECK(owner == sim::rank(), "wrong-object", what, " on an object of rank ", owner);
}
void free_fn(Small* m) { arrived(m->id, data(P.ops[(size_t)m->id])); }

void create(int g) {
  auto& G = P.groups[(size_t)g]; std::string label = pbt::cat("group ", g); auto* og = vt::theObjGroup();
  RT_CHECK((int)px.size() == g, "harness", "creation order");
  Obj* o = nullptr; Proxy p;
  switch (G.how) {
    case 0: p = og->makeCollective<Obj>(label, g); break;
    case 1: { auto u = std::make_unique<Obj>(g); o = u.get(); p = og->makeCollective<Obj>(std::move(u), label); break; }
    case 2: p = og->makeCollective<Obj>([&]() -> std::unique_ptr<Obj> { auto u = std::make_unique<Obj>(g); o = u.get(); return u; }, label); break;
    case 3: o = new Obj(g); p = og->makeCollective<Obj>(o, label); break;
    default: o = new Obj(g); p = og->makeCollective<UserPtr, Obj>(UserPtr<Obj>(o), label); break;
  }
  px.push_back(p); raw.push_back(G.how == 3 ? o : nullptr); cur.push_back(p.get()); vers.push_back(0);
  RT_CHECK(!o || p.get() == o, "wrong-object", "group ", g, " holds another object than the one given");
  for (size_t i = 0; i + 1 < px.size(); i++) RT_CHECK(px[i].getProxy() != p.getProxy(), "proxy", "groups ", i, " and ", g, " have the same proxy");
}
void run_op(int id) {
  auto& o = P.ops[(size_t)id]; Proxy p = px[(size_t)o.group]; vt::NodeType d = (vt::NodeType)o.dest;
  switch (o.kind) {
    case Send: p[d].send<&Obj::call>(id, data(o)); break;
    case SendMsg: if (o.len) p[d].sendMsg<Msg, &Obj::msg>(vt::makeMessage<Msg>(id, data(o))); else p[d].send<Small, &Obj::small>(id); break;
    case Bcast: p.broadcast<&Obj::call>(id, data(o)); break;
    case BcastMsg: if (o.len) p.broadcastMsg<Msg, &Obj::msg>(vt::makeMessage<Msg>(id, data(o))); else p.broadcast<Small, &Obj::small>(id); break;
    case Invoke: { int v = p[d].invoke<&Obj::value>(id, data(o)); RT_CHECK(v == id * 31 + o.group && *ran(id, sim::rank()) == 1, "invoke", "invocation ", id, " returned ", v, " after ", *ran(id, sim::rank()), " runs"); break; }
    case BaseSend: p.castToBase<Base>()[d].send<&Base::base>(id, data(o)); break;
    case Fwd: p[d].send<&Obj::fwd>(p, p[d], id, data(o)); break;
    default: vt::theObjGroup()->getDefault()[d].send<Small, free_fn>(id); break;
  }
}
void reached(int id, int me, bool deep) {
  auto& o = P.ops[(size_t)id];
  for (int r = 0; r < P.n; r++) {
    int want = o.kind == Bcast || o.kind == BcastMsg || r == o.dest;
    RT_CHECK(*ran(id, r) == want, "lost", "call ", id, " ran ", *ran(id, r), " times on rank ", r, " instead of ", want, " when its epoch had ended (rank ", me, ")");
  }
  if (deep) for (int k : o.kids) reached(k, me, true);
}
template <class... A> struct Give {
  template <int f> static void to(Red& q, Proxy p, A... a) {
    auto t = p[(vt::NodeType)q.dest];
    if constexpr (f == fold::NoneF) { if (q.all) p.allreduce<&Obj::red<>>(); else if (q.cb) p.reduce(vt::theCB()->makeSend<&Obj::red<>>(t)); else p.reduce<&Obj::red<>>(t); }
    else if (q.all) p.allreduce<&Obj::red<A...>, fold::OpOf<f>::template Op>(a...);
    else if (q.cb) p.reduce<fold::OpOf<f>::template Op>(vt::theCB()->makeSend<&Obj::red<A...>>(t), a...);
    else p.reduce<&Obj::red<A...>, fold::OpOf<f>::template Op>(t, a...);
  }
};
void give(Red& q) {
  fold::contribute(q.red, sim::rank(), [&](auto F, auto... a) { Give<decltype(a)...>::template to<decltype(F)::value>(q, px[(size_t)q.group], a...); });
}
void items(std::vector<Item> const& v, size_t a, size_t b, int me) {
  for (size_t i = a; i < b; i++) switch (v[i].what) {
    case 0: create(v[i].arg); break;
    case 1: run_op(v[i].arg); break;
    case 2: give(P.reds[(size_t)v[i].arg]); break;
    case 3: for (int s = 0; s < v[i].arg; s++) vt::theSched()->runSchedulerOnceImpl(); break;
    case 4: {
      size_t e = std::min(b, i + 1 + (size_t)v[i].arg);
      vt::runInEpochRooted([&] { for (size_t j = i + 1; j < e; j++) if (v[j].what == 1) run_op(v[j].arg); });
      for (size_t j = i + 1; j < e; j++) if (v[j].what == 1) reached(v[j].arg, me, true);
      i = e - 1; break;
    }
  }
}
void body(int me) {
  px.clear(); raw.clear(); cur.clear(); vers.clear();
  std::vector<std::vector<std::pair<uint64_t, int>>> want((size_t)P.n);
  std::vector<int> dead(P.groups.size()), due(P.groups.size());
  auto drops = [&](char const* when) {
    for (size_t g = 0; g < px.size(); g++) { int64_t d = *dtor((int)g, me); RT_CHECK(d == due[g], "lifetime", "rank ", me, " ", when, ": objects of group ", g, " destroyed ", d, " times instead of ", due[g]); }
  };
  for (auto& ph : P.phases) {
    vt::runInEpochCollective([&] { auto& v = ph.ranks[(size_t)me]; items(v, 0, v.size(), me); });
    for (int id : ph.ops) reached(id, me, false);
    for (int q : ph.reds) { auto& r = P.reds[(size_t)q]; std::vector<int> who; for (int i = 0; i < P.n; i++) who.push_back(i); auto d = std::pair(fold::expect(r.red, who), r.red.rid); for (int i = 0; i < P.n; i++) if (r.all || i == r.dest) want[(size_t)i].push_back(d); }
    rlog.check(me, want[(size_t)me], "rank");
    drops("after a phase");
    for (size_t g = 0; g < px.size(); g++) if (!dead[g]) {
      Proxy p = px[g]; RT_CHECK(p.get() == cur[g] && cur[g]->gid == (int)g && cur[g]->version == vers[g], "wrong-object", "group ", g, " has another object");
      RT_CHECK(vt::theObjGroup()->getLabel(p) == pbt::cat("group ", g), "label", "label of group ", g, " is ", vt::theObjGroup()->getLabel(p));
      RT_CHECK(vt::theObjGroup()->getProxy(cur[g]).getProxy() == p.getProxy() && vt::theObjGroup()->proxyElm(cur[g]).getNode() == me, "proxy", "proxy of the object of group ", g);
    }
    vt::theCollective()->barrier();
    for (int g : ph.update) {
      int x = ++vers[(size_t)g]; due[(size_t)g]++;
      if (x % 2) vt::theObjGroup()->update(px[(size_t)g], g, x); else vt::theObjGroup()->update(px[(size_t)g](me), g, x);
      cur[(size_t)g] = px[(size_t)g].get();
    }
    drops("after replacing objects");
    for (int g : ph.destroy) { px[(size_t)g].destroyCollective(); dead[(size_t)g] = 1; if (P.groups[(size_t)g].how != 3) due[(size_t)g]++; }
    drops("after destroying groups");
    if (!ph.update.empty()) vt::theCollective()->barrier();
  }
}
void after(int me) {
  for (size_t g = 0; g < P.groups.size(); g++) {
    int64_t want = P.groups[g].how != 3; for (auto& ph : P.phases) for (int u : ph.update) want += u == (int)g;
    RT_CHECK(*dtor((int)g, me) == want, "lifetime", "rank ", me, " after finalize: objects of group ", g, " destroyed ", *dtor((int)g, me), " times instead of ", want);
  }
}
} // namespace

PBT_TARGET(programs, Isolated, 2200, 100000) {
  rt::Opt o; o.max_n = 7; auto c = rt::gen(g, o); int n = c.sim.n;
  P = Prog{}; P.n = n; int nph = (int)g.range(1, 4), rid = 0; std::vector<int> live;
  for (int k = 0; k < nph; k++) {
    Phase ph; int fresh = (int)g.range(k ? 0 : 1, 3); if (P.groups.size() + (size_t)fresh > 9) fresh = 0;
    int first = (int)P.groups.size();
    for (int i = 0; i < fresh; i++) { Group G; G.how = (int)g.draw(4); G.phase = k; live.push_back((int)P.groups.size()); P.groups.push_back(G); }
    if (live.empty()) { P.phases.push_back(ph); P.phases.back().ranks.resize((size_t)n); continue; }
    // a tree of calls: the rank that runs a call has its group, hence every live group made before it
    auto make = [&](auto& self, int src, int maxg, int depth) -> int {
      Op p; p.id = (int)P.ops.size(); std::vector<int> cand; for (int x : live) if (x <= maxg) cand.push_back(x);
      p.group = g.pick(cand); p.kind = (int)g.weighted({5, 4, 3, 3, 2, 2, 2, 1});
      p.dest = (int)g.draw((uint64_t)n - 1); if (p.kind == Invoke) p.dest = src;
      p.len = g.chance(1, 8) ? (int)g.range(20, 300) : (int)g.range(0, 4); if (p.kind == Free) p.len = 0;
      P.ops.push_back(p); ph.ops.push_back(p.id);
      g.label((char const*[]){"send", "message send", "broadcast", "message broadcast", "invoke", "base-class send", "send of proxies", "default object group"}[p.kind]);
      int nk = depth < 4 && P.ops.size() < 150 ? (int)g.weighted({5, 3, 2}) : 0; std::vector<int> kids; int mg = p.kind == Free ? first - 1 : p.group;
      bool any = false; for (int x : live) any |= x <= mg;
      if (any) for (int i = 0; i < nk; i++) kids.push_back(self(self, p.dest, mg, depth + 1));
      P.ops[(size_t)p.id].kids = kids; return p.id;
    };
    for (int r = 0; r < n; r++) {
      std::vector<Item> v; int made = first; int m = (int)g.range(0, 5); if (r == 0 && k == 0) m++;
      auto creates = [&](int upto) { while (made < upto) v.push_back({0, made++}); };
      for (int i = 0; i < m; i++) {
        if (made < first + fresh && (g.coin() || live[0] >= made)) creates(made + 1);
        if (g.chance(1, 4)) v.push_back({3, (int)g.range(1, 12)});
        bool any = false; for (int x : live) any |= x < made;
        if (!any) continue;
        int ep = g.chance(1, 5) ? (int)g.range(1, 3) : 0; if (ep) { v.push_back({4, ep}); g.label("rooted epoch"); }
        for (int j = 0; j < std::max(ep, 1); j++) v.push_back({1, make(make, r, made - 1, 0)});
      }
      if (g.chance(1, 3)) v.push_back({3, (int)g.range(1, 30)});
      creates(first + fresh); ph.ranks.push_back(v);
    }
    int nr = (int)g.weighted({3, 2, 2, 1, 1});
    std::vector<size_t> lo((size_t)n, 0);
    for (int i = 0; i < nr; i++) {
      Red q; q.red = fold::gen(g, rid++); q.group = g.pick(live); q.dest = (int)g.draw((uint64_t)n - 1); q.all = g.chance(1, 3); q.cb = g.coin();
      g.label(fold::fam_name[q.red.fam]); g.label(q.all ? "all-reduce" : "reduction");
      int id = (int)P.reds.size(); P.reds.push_back(q); ph.reds.push_back(id);
      for (int r = 0; r < n; r++) {
        auto& v = ph.ranks[(size_t)r]; size_t a = lo[(size_t)r];
        for (size_t j = 0; j < v.size(); j++) if (v[j].what == 0 && v[j].arg <= q.group) a = std::max(a, j + 1);
        size_t at = a + g.draw(v.size() - a);
        for (size_t j = 0; j < v.size(); j++) if (v[j].what == 4 && at > j && at <= j + (size_t)v[j].arg) { at = j + 1 + (size_t)v[j].arg; break; }
        v.insert(v.begin() + (long)at, {2, id}); lo[(size_t)r] = at + 1;
      }
    }
    std::vector<int> left; for (int x : live) { if (P.groups[(size_t)x].how <= 2 && g.chance(1, 6)) { ph.update.push_back(x); g.label("object replaced"); } if (g.chance(1, 5)) { ph.destroy.push_back(x); g.label("group destroyed"); } else left.push_back(x); }
    live = left; P.phases.push_back(ph);
    g.note("phase ", k, ": new groups ", first, "..", first + fresh - 1, "\n");
    for (int r = 0; r < n; r++) { g.note("  rank ", r, ":"); for (auto& it : P.phases.back().ranks[(size_t)r]) g.note(" ", "cors#"[it.what == 4 ? 4 : it.what == 3 ? 3 : it.what == 2 ? 2 : it.what], it.arg); g.note("\n"); }
  }
  for (auto& p : P.ops) { g.note("  op", p.id, " kind=", p.kind, " group=", p.group, " dest=", p.dest, " len=", p.len, " kids:"); for (int x : p.kids) g.note(" ", x); g.note("\n"); }
  for (auto& q : P.reds) g.note("  reduction ", q.red.rid, " ", fold::fam_name[q.red.fam], " group=", q.group, " dest=", q.dest, q.all ? " all" : "", q.cb ? " cb" : "", "\n");
  for (size_t i = 0; i < P.groups.size(); i++) g.note("  group ", i, " how=", P.groups[i].how, "\n");
  g.note(rt::show(c)); g.nontrivial(n > 1 && P.ops.size() > 2);
  Prog Q = P;
  rt::run(g, c, [&](int me) { P = Q; body(me); }, after);
}

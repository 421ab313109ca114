// variant: rt
// C13: one-sided operations act on exactly the addressed elements
#include "common/col.h"
#include "common/scratch.h"
#include <list>
#include <map>
PBT_RULE("windows, sets, collections: a case makes handles of several types and per-rank (per-index) sizes over 1-5 simulated ranks and runs rounds of concurrent gets, puts, accumulates and fetch-ops (blocking, by request, into a registered buffer, on the local memory; each with its own lock or, on windows, a held one) that do not conflict: every range is read by anybody, or used by one rank, or accumulated into by anybody with one operator; collections migrate and rebalance between rounds. Non-trivial: some rank read what another one wrote.");
namespace {
using col::Shape;
using vt::Lock;
enum Kind { Get, GetBuf, RGet, Put, RPut, Acc, RAcc, Fetch, Mod, Look, KindN };
struct Op { int actor = 0, region = 0, off = 0, len = 0, kind = 0, lock = 1, held = 0, seg = 0, op = 0, poll = 0, slot = -1; std::vector<int64_t> in, want; };
struct Region { int owner = 0, size = 0; std::vector<int64_t> val; };
struct Ticket { int64_t start; std::vector<std::pair<int, int64_t>> of; };          // slot, added
struct Round { std::vector<std::vector<Op>> by; std::vector<std::vector<int64_t>> after; std::vector<Ticket> tickets; };
MPI_Op mpiop(int o) { MPI_Op t[] = {MPI_SUM, MPI_MAX, MPI_MIN, MPI_REPLACE}; return t[o]; }
int64_t fold(int o, int64_t a, int64_t b) { return o == 0 ? a + b : o == 1 ? std::max(a, b) : o == 2 ? std::min(a, b) : b; }
char const* const kinds[] = {"get", "get into buffer", "rget", "put", "rput", "accum", "raccum", "fetchOp", "modify", "look"};
std::string show(Op const& o) { return pbt::cat(kinds[o.kind], " of ", o.len, " at ", o.off, " of region ", o.region, o.held ? " held" : "", o.lock == 1 ? " exclusive" : " shared", o.kind >= Acc && o.kind <= Fetch ? pbt::cat(" op ", o.op) : std::string()); }
int64_t& ticket(int i) { return sim::shared()[20000 + i]; }
int64_t& shared_read() { return sim::shared()[19999]; }

// a round of operations that do not conflict; actors are ranks or elements; local(region) is the actor that has the memory of the region
template <class F> Round make_round(pbt::Gen& g, std::vector<Region>& R, int actors, F local, bool can_hold, bool init) {
  Round r; r.by.resize((size_t)actors); std::vector<std::vector<std::pair<uint64_t, Op>>> order((size_t)actors); int seg = 0, slots = 0; bool foreign = false;
  auto anyone = [&] { return (int)g.draw((uint64_t)actors - 1); };
  auto value = [&] { return (int64_t)g.range(0, 900); };
  for (int q = 0; q < (int)R.size(); q++) { auto& reg = R[(size_t)q]; int pos = 0;
    if (!init && !reg.size && g.coin()) { Op o; o.actor = anyone(); o.region = q; o.kind = g.coin() ? Get : Put; order[(size_t)o.actor].push_back({0, o}); }
    while (pos < reg.size) {
      int len = (int)g.range(1, reg.size - pos), role = init ? 0 : (int)g.weighted({3, 3, 3, 1, 2}); uint64_t when = 0; seg++;
      auto add = [&](Op o) { o.seg = seg; o.lock = (int)g.range(1, 2); o.held = can_hold && o.kind < Mod && g.chance(1, 4); o.poll = (int)g.chance(1, 3); when += g.draw(20); order[(size_t)o.actor].push_back({when, std::move(o)}); };
      auto sub = [&](Op& o) { o.region = q; o.off = pos + (int)g.draw((uint64_t)len - 1); o.len = (int)g.range(1, pos + len - o.off); if (g.chance(1, 20)) o.len = 0; if (g.chance(1, 4)) { o.off = pos; o.len = len; } };
      auto read = [&](Op& o) { for (int i = 0; i < o.len; i++) o.want.push_back(reg.val[(size_t)(o.off + i)]); if (o.actor != local(q) && o.len && !init) foreign = true; };
      if (role == 0 || role == 4) {        // one actor does as it likes; 0: the owner
        int a = role == 0 ? local(q) : anyone();
        if (init) { Op o; o.actor = a; o.region = q; o.off = pos; o.len = len; o.kind = Mod; for (int i = 0; i < len; i++) o.in.push_back(reg.val[(size_t)(pos + i)] = value()); add(o); }
        else for (int k = (int)g.range(1, 4); k > 0; k--) {
          Op o; o.actor = a; sub(o); o.kind = (int)g.weighted({2, 1, 2, 3, 3, 2, 2, 2, 2, 1}); if (o.kind >= Mod && a != local(q)) o.kind = Put; if (o.kind == Fetch) { if (!o.len) o.len = 1; o.len = 1; }
          o.op = (int)g.draw(3); if (o.op == 3 && o.kind == Fetch && g.coin()) o.op = 0;
          if (o.kind <= RGet || o.kind == Look) read(o);
          else { if (o.kind == Fetch) read(o); for (int i = 0; i < o.len; i++) { auto& c = reg.val[(size_t)(o.off + i)]; int64_t v = o.kind >= Acc && o.kind <= Fetch && o.op == 0 ? (int64_t)g.range(0, 9) : value(); o.in.push_back(v); c = o.kind >= Acc && o.kind <= Fetch ? fold(o.op, c, v) : v; } }
          add(o);
        }
      } else if (role == 1) {        // read by anyone
        for (int k = (int)g.range(1, 5); k > 0; k--) { Op o; o.actor = anyone(); sub(o); o.kind = (int)g.weighted({2, 1, 2, 0, 0, 0, 0, 0, 0, 1}); if (o.kind > RGet && (o.kind != Look || o.actor != local(q))) o.kind = RGet; read(o); add(o); }
      } else if (role == 2) {        // accumulated into by anyone
        int op = (int)g.draw(2); for (int k = (int)g.range(1, 6); k > 0; k--) { Op o; o.actor = anyone(); sub(o); o.op = op; o.kind = (int)g.weighted({0, 0, 0, 0, 0, 3, 3, 2}); if (o.kind < Acc || o.kind > Fetch) o.kind = Acc; if (o.kind == Fetch) o.len = 1; for (int i = 0; i < o.len; i++) { int64_t v = op == 0 ? (int64_t)g.range(0, 9) : value(); o.in.push_back(v); auto& c = reg.val[(size_t)(o.off + i)]; c = fold(op, c, v); } add(o); }
      } else {        // tickets are drawn from one cell
        len = 1; Ticket t; t.start = reg.val[(size_t)pos];
        for (int k = (int)g.range(1, 6); k > 0; k--) { Op o; o.actor = anyone(); o.region = q; o.off = pos; o.len = 1; o.kind = Fetch; o.op = 0; o.slot = slots++; int64_t v = (int64_t)g.range(1, 5); o.in = {v}; t.of.push_back({o.slot, v}); reg.val[(size_t)pos] += v; add(o); if (o.actor != local(q)) foreign = true; }
        r.tickets.push_back(t);
      }
      pos += len;
    }
  }
  for (int a = 0; a < actors; a++) { auto& l = order[(size_t)a]; std::stable_sort(l.begin(), l.end(), [](auto& x, auto& y) { return x.first < y.first; }); for (auto& x : l) { r.by[(size_t)a].push_back(x.second); } }
  for (auto& x : R) r.after.push_back(x.val);
  if (foreign) g.nontrivial(true);
  return r;
}
std::string show(Round const& r) { std::string s; for (size_t a = 0; a < r.by.size(); a++) { if (r.by[a].empty()) continue; s += pbt::cat("  ", a, ":"); for (auto& o : r.by[a]) { s += " " + show(o) + (o.in.empty() ? "" : " ("); for (auto v : o.in) s += pbt::cat(v, " "); s += o.in.empty() ? ";" : ");"; } s += "\n"; } return s; }
void check_tickets(Round const& r, std::string const& w) {
  for (auto& t : r.tickets) { std::vector<std::pair<int64_t, int64_t>> got; for (auto& o : t.of) got.push_back({ticket(o.first), o.second}); std::sort(got.begin(), got.end()); int64_t at = t.start; for (auto& x : got) { RT_CHECK(x.first == at, "fetch-op", w, ": concurrent fetch-ops starting at ", t.start, " returned ", x.first, " where only ", at, " is possible"); at += x.second; } }
}
// carry out the operations of one actor
template <class T, class H, class Key, class Loc> void perform(std::vector<Op> const& ops, H& han, Key key, Loc local, std::vector<Region> const& R, std::string const& w) {
  struct Pend { int seg; vt::rdma::RequestHolder r; std::unique_ptr<T[]> buf; Op const* o; };
  std::list<Pend> open; constexpr bool node = std::is_same_v<typename H::IndexType, vt::NodeType>;
  auto cmp = [&](T const* p, Op const& o) { for (int i = 0; i < o.len; i++) RT_CHECK(p[i] == (T)o.want[(size_t)i], "wrong-data", w, ": actor ", o.actor, " ", show(o), ": cell ", o.off + i, " is ", (double)p[i], ", not ", o.want[(size_t)i]); };
  auto room = [](int n) { auto b = std::make_unique<T[]>((size_t)n + 2); for (int i = 0; i < n + 2; i++) b[(size_t)i] = (T)77; return b; };
  auto intact = [&](T const* b, Op const& o) { RT_CHECK(b[0] == (T)77 && b[o.len + 1] == (T)77, "overrun", w, ": actor ", o.actor, " ", show(o), " wrote outside of the buffer"); };
  auto finish = [&](Pend& p) { if (p.o->poll) while (!p.r.test()) vt::theSched()->runSchedulerOnceImpl(); p.r.wait(); RT_CHECK(p.r.done(), "not-done", w, ": a request is not done after waiting for it"); if (p.o->kind == RGet) cmp(p.buf.get() + 1, *p.o); intact(p.buf.get(), *p.o); };
  auto settle = [&](int seg) { for (auto i = open.begin(); i != open.end();) if (seg < 0 || i->seg == seg) { finish(*i); i = open.erase(i); } else ++i; };
  for (auto& o : ops) {
    settle(o.seg); auto k = key(o.region); Lock l = o.lock == 1 ? Lock::Exclusive : Lock::Shared; auto b = room(o.len); auto* p = b.get() + 1; size_t len = (size_t)o.len; H h = han;
    if (o.kind >= Put && o.kind <= Fetch) for (int i = 0; i < o.len; i++) p[i] = (T)o.in[(size_t)i];
    if constexpr (node) if (o.held) { h.lock(l, k); l = Lock::None; }
    auto release = [&] { if constexpr (node) if (o.held) { h.flush(k); h.unlock(); } };
    switch (o.kind) {
      case Get: h.get(k, p, len, o.off, l); release(); cmp(p, o); intact(b.get(), o); break;
      case GetBuf: {
        int n1 = 0, n2 = 0; T* at = nullptr; std::vector<T> seen; bool own = o.poll;
        if (!own) h.setBuffer(p);
        h.addAction([&](T* q) { n1++; at = q; seen.assign(q, q + o.len); }); h.addAction([&](T*) { n2++; });
        if (o.in.empty() && o.seg % 2) { auto r = h.rget(k, len, o.off, l); r.wait(); } else h.get(k, len, o.off, l);
        release(); RT_CHECK(n1 == 1 && n2 == 1, "action", w, ": actor ", o.actor, " ", show(o), ": its actions ran ", n1, " and ", n2, " times"); RT_CHECK(own || at == p, "action", w, ": the action got another buffer than the registered one"); cmp(seen.data(), o); if (!own) cmp(p, o); intact(b.get(), o); break; }
      case RGet: { auto r = h.rget(k, p, len, o.off, l); release(); open.push_back(Pend{o.seg, std::move(r), std::move(b), &o}); break; }
      case Put: h.put(k, p, len, o.off, l); release(); break;
      case RPut: { auto r = h.rput(k, p, len, o.off, l); release(); open.push_back(Pend{o.seg, std::move(r), std::move(b), &o}); break; }
      case Acc: h.accum(k, p, len, o.off, mpiop(o.op), l); release(); break;
      case RAcc: { auto r = h.raccum(k, p, len, o.off, mpiop(o.op), l); release(); open.push_back(Pend{o.seg, std::move(r), std::move(b), &o}); break; }
      case Fetch: { T x = h.fetchOp(k, *p, o.off, mpiop(o.op), l); release(); if (!o.want.empty()) RT_CHECK(x == (T)o.want[0], "wrong-data", w, ": actor ", o.actor, " ", show(o), " returned ", (double)x, ", not ", o.want[0]); if (o.slot >= 0) ticket(o.slot) = (int64_t)x; break; }
      case Mod: case Look: {
        int ran = 0; auto& mine = local(o.region); auto body = [&](T* q, size_t n, bool wr) { ran++; RT_CHECK((int)n == R[(size_t)o.region].size, "count", w, ": the local memory of region ", o.region, " is handed out as ", n, " elements, not ", R[(size_t)o.region].size); if (wr) for (int i = 0; i < o.len; i++) q[o.off + i] = (T)o.in[(size_t)i]; else cmp(q + o.off, o); };
        auto wr = [&](T* q, size_t n) { body(q, n, true); }; auto rd = [&](T const* q, size_t n) { body(const_cast<T*>(q), n, false); };
        if constexpr (node) if (o.poll) { mine.access(l, [&](T* q, size_t n) { ran++; RT_CHECK((int)n == R[(size_t)o.region].size - o.off, "count", w, ": the local memory from ", o.off, " on has ", n, " elements"); if (o.kind == Mod) for (int i = 0; i < o.len; i++) q[i] = (T)o.in[(size_t)i]; else cmp(q, o); }, (size_t)o.off); RT_CHECK(ran == 1, "action", "a local access ran ", ran, " times"); break; }
        if (o.kind == Mod) { if (l == Lock::Exclusive) mine.modifyExclusive(wr); else mine.modifyShared(wr); } else { if (l == Lock::Exclusive) mine.readExclusive(rd); else mine.readShared(rd); }
        RT_CHECK(ran == 1, "action", "a local access ran ", ran, " times"); break; }
      default: break;
    }
  }
  settle(-1);
}
struct Group { };
struct Handle { int type = 0, group = 0, uniform = 0, dense = 0, max = 0; std::vector<Region> reg; std::vector<std::pair<int, int>> key; };        // key: rank and number in the set
struct Event { int kind = 0, h = 0, round = -1, by = 0; std::vector<std::pair<int, int>> to; };          // 0 make, 1 round, 2 destroy, 3 migrate, 4 rebuild, 5 phase
struct Prog { int n = 1, lb = 0, map = 0; Shape s; bool set = false; std::vector<Handle> h; std::vector<Event> ev; std::vector<Round> rounds; } P;
using W = vt::objgroup::proxy::Proxy<Group>;
void show_prog(pbt::Gen& g, char const* const* names) {
  for (size_t i = 0; i < P.h.size(); i++) { auto& h = P.h[i]; g.note("handle ", i, " type ", h.type, h.uniform ? " uniform" : "", h.dense ? " dense" : "", " max ", h.max, ":"); for (size_t k = 0; k < h.reg.size(); k++) { if (!h.key.empty()) g.note(" (", h.key[k].first, ",", h.key[k].second, ")"); g.note(" ", h.reg[k].size); } g.note("\n"); }
  for (auto& e : P.ev) { g.note(names[e.kind], " ", e.h); for (auto& m : e.to) g.note(" ", m.first, "->", m.second); g.note("\n"); if (e.round >= 0) g.note(show(P.rounds[(size_t)e.round])); }
}
template <class T> struct One {
  static inline std::map<int, vt::rdma::Handle<T>> han; static inline std::map<int, vt::rdma::HandleSet<T>> set;
  static void step(Event const& e, int me, W group, std::string const& w) {
    auto& h = P.h[(size_t)e.h];
    if (e.kind == 0 && !P.set) { auto x = group.makeHandleRDMA<T>((size_t)h.reg[(size_t)me].size, h.uniform); vt::theSched()->runSchedulerWhile([x] { return !x.ready(); }); han[e.h] = x; }
    else if (e.kind == 0) {
      std::unordered_map<int32_t, size_t> m; std::vector<size_t> v; for (size_t k = 0; k < h.key.size(); k++) if (h.key[k].first == me) { m[h.key[k].second] = (size_t)h.reg[k].size; v.push_back((size_t)h.reg[k].size); }
      set[e.h] = h.dense ? group.makeHandleSetRDMA<T>(h.max, v, h.uniform) : group.makeHandleSetRDMA<T>(h.max, m, h.uniform);
    } else if (e.kind == 2) { vt::theCollective()->barrier(); if (!P.set) { group.destroyHandleRDMA(han[e.h]); han.erase(e.h); } else { group.destroyHandleSetRDMA(set[e.h]); set.erase(e.h); } return; }
    else {
      auto& r = P.rounds[(size_t)e.round];
      if (!P.set) { auto& x = han[e.h]; perform<T>(r.by[(size_t)me], x, [](int q) { return (vt::NodeType)q; }, [&](int) -> auto& { return x; }, h.reg, w); }
      else { auto& s = set[e.h]; perform<T>(r.by[(size_t)me], *s, [&](int q) { return vt::Index2D(h.key[(size_t)q].first, h.key[(size_t)q].second); }, [&](int q) -> auto& { return s[h.key[(size_t)q].second]; }, h.reg, w); }
      if (e.by == 1 && !P.set) han[e.h].fence(); else vt::theCollective()->barrier();
      check_tickets(r, w);
    }
    for (size_t q = 0; q < h.reg.size(); q++) {        // everyone knows the sizes and sees the content
      size_t c = 0; int size = h.reg[q].size; if (!P.set) c = han[e.h].getCount((vt::NodeType)q); else c = set[e.h]->getCount(vt::Index2D(h.key[q].first, h.key[q].second));
      RT_CHECK((int)c == size, "count", w, ": rank ", me, " takes region ", q, " to have ", c, " elements, not ", size);
      int owner = P.set ? h.key[q].first : (int)q; if (owner == me) RT_CHECK((int)(P.set ? set[e.h][h.key[q].second].count() : han[e.h].count()) == size, "count", w, ": the local handle of region ", q, " has another size than ", size);
      if (e.kind != 1) continue;
      auto& r = P.rounds[(size_t)e.round]; auto see = [&](T const* p, size_t n) { RT_CHECK((int)n == size, "count", w, ": region ", q, " has ", n, " local elements, not ", size); for (int i = 0; i < size; i++) RT_CHECK(p[i] == (T)r.after[q][(size_t)i], "wrong-content", w, ": seen by rank ", me, " cell ", i, " of region ", q, " is ", (double)p[i], ", not ", r.after[q][(size_t)i]); };
      if (owner == me) { if (P.set) set[e.h][h.key[q].second].readExclusive(see); else han[e.h].readExclusive(see); }
      else if ((me + (int)q + e.round) % 2) { std::vector<T> b((size_t)size); if (P.set) set[e.h]->get(vt::Index2D(h.key[q].first, h.key[q].second), b.data(), (size_t)size, 0, Lock::Shared); else han[e.h].get((vt::NodeType)q, b.data(), (size_t)size, 0, Lock::Shared); see(b.data(), b.size()); }
    }
    vt::theCollective()->barrier();
  }
};
void body(int me) {
  static W group[2]; for (auto& x : group) x = vt::theObjGroup()->makeCollective<Group>("c13");
  int i = 0; for (auto& e : P.ev) { auto& h = P.h[(size_t)e.h]; auto w = pbt::cat("event ", i++); auto gr = group[h.group]; switch (h.type) { case 0: One<int64_t>::step(e, me, gr, w); break; case 1: One<double>::step(e, me, gr, w); break; default: One<int16_t>::step(e, me, gr, w); } }
}
void gen_events(pbt::Gen& g, int actors_fixed) {
  std::vector<char> live(P.h.size(), 0), gone(P.h.size(), 0); auto round = [&](int h, bool init) { auto& H = P.h[(size_t)h]; P.rounds.push_back(make_round(g, H.reg, actors_fixed, [&](int q) { return P.set ? H.key[(size_t)q].first : q; }, !P.set, init)); Event e; e.kind = 1; e.h = h; e.round = (int)P.rounds.size() - 1; e.by = (int)g.chance(1, 5); P.ev.push_back(e); };
  auto make = [&](int h) { Event e; e.h = h; P.ev.push_back(e); live[(size_t)h] = 1; round(h, true); };
  make(0);
  for (int k = (int)g.range(1, 6); k > 0; k--) {
    int h = (int)g.draw(P.h.size() - 1); if (gone[(size_t)h]) continue;
    if (!live[(size_t)h]) make(h); else if (g.chance(1, 8)) { Event e; e.kind = 2; e.h = h; P.ev.push_back(e); live[(size_t)h] = 0; gone[(size_t)h] = 1; } else round(h, false);
  }
  for (int h = 0; h < (int)P.h.size(); h++) if (live[(size_t)h]) { Event e; e.kind = 2; e.h = h; P.ev.push_back(e); }
}
char const* const names[] = {"make", "round", "destroy", "migrate", "rebuild", "phase"};

// collections
template <class I> struct Elm : vt::Collection<Elm<I>, I> {
  static inline vt::CollectionProxy<Elm<I>, I> proxy; vt::HandleRDMA<double, I> han[3]; bool moving = false;
  template <class S> void serialize(S& s) { vt::Collection<Elm<I>, I>::serialize(s); for (auto& x : han) s | x; if (s.isUnpacking()) moving = false; }
  int me() { return col::Ix<I>::lin(P.s, this->getIndex()); }
  void make(int h) { auto& H = P.h[(size_t)h]; han[h] = this->getCollectionProxy().template makeHandleRDMA<double>(this->getIndex(), (size_t)H.reg[(size_t)me()].size, H.uniform); }
  void round(int h, int r, int i) { auto key = [](int q) { return col::Ix<I>::at(P.s, q); }; perform<double>(P.rounds[(size_t)r].by[(size_t)me()], han[h], key, [&](int) -> auto& { return han[h]; }, P.h[(size_t)h].reg, pbt::cat("event ", i)); sim::shared()[100 + me()]++; }
  void verify(int h, int r, int i) {
    auto& H = P.h[(size_t)h]; int N = P.s.size(), e = me(); auto w = pbt::cat("event ", i); auto& after = P.rounds[(size_t)r].after;
    RT_CHECK(han[h].isInit() && han[h].ready(), "not-ready", w, ": the handle of element ", e, " is not ready");
    for (int k = 0; k < 3; k++) { int q = (e + k * (i + 1)) % N, size = H.reg[(size_t)q].size; RT_CHECK((int)han[h].getCount(col::Ix<I>::at(P.s, q)) == size, "count", w, ": element ", e, " takes ", q, " to have ", han[h].getCount(col::Ix<I>::at(P.s, q)), " values, not ", size); std::vector<double> b((size_t)size); han[h].get(col::Ix<I>::at(P.s, q), b.data(), b.size(), 0, Lock::Shared); for (int j = 0; j < size; j++) RT_CHECK(b[(size_t)j] == (double)after[(size_t)q][(size_t)j], "wrong-content", w, ": seen by element ", e, " value ", j, " of element ", q, " is ", b[(size_t)j], ", not ", after[(size_t)q][(size_t)j]); }
    int size = H.reg[(size_t)e].size; han[h].readShared([&](double const* p, size_t n) { RT_CHECK((int)n == size, "count", w, ": element ", e, " has ", n, " local values, not ", size); for (int j = 0; j < size; j++) RT_CHECK(p[j] == (double)after[(size_t)e][(size_t)j], "wrong-content", w, ": the local value ", j, " of element ", e, " is ", p[j]); });
    sim::shared()[100 + e]++;
  }
  void destroy(int h) { this->getCollectionProxy().destroyHandleRDMA(han[h]); }
  void mv(int to) { if (to != sim::rank() && !moving) { moving = true; this->migrate(to); } }
};
template <class I> vt::NodeType scatter(I* i, I*, vt::NodeType n) { return (vt::NodeType)col::scatter_rank((uint64_t)(i->x() + 3 * P.s.size()), n); }
template <class I> struct Run { static void run(Shape s, int me) {
  using El = Elm<I>; auto& proxy = El::proxy; int N = s.size(), i = 0; auto at = [&](int e) { return col::Ix<I>::at(s, e); };
  auto c = vt::makeCollection<El>("c13"); c.bounds(col::Ix<I>::range(s)).collective(true).bulkInsert(); if (P.map) c.template mapperFunc<scatter<I>>(); proxy = c.wait();
  std::vector<int> last(P.h.size(), -1); int steps = 0;
  auto all = [&](char const* w) { vt::theCollective()->barrier(); steps++; for (int e = 0; e < N; e++) RT_CHECK(sim::shared()[100 + e] == steps, "delivery", w, ": element ", e, " ran ", sim::shared()[100 + e], " steps, not ", steps); vt::theCollective()->barrier(); };
  auto verify = [&] { for (size_t h = 0; h < P.h.size(); h++) if (last[h] >= 0) { vt::runInEpochCollective([&] { proxy.template broadcastCollective<&El::verify>((int)h, last[h], i); }); all("verifying"); } };
  for (auto& e : P.ev) {
    switch (e.kind) {
      case 0: vt::runInEpochCollective([&] { proxy.template broadcastCollective<&El::make>(e.h); }); break;
      case 1: vt::runInEpochCollective([&] { proxy.template broadcastCollective<&El::round>(e.h, e.round, i); }); all("round"); check_tickets(P.rounds[(size_t)e.round], pbt::cat("event ", i)); last[(size_t)e.h] = e.round; verify(); break;
      case 2: vt::theCollective()->barrier(); vt::runInEpochCollective([&] { proxy.template broadcastCollective<&El::destroy>(e.h); }); last[(size_t)e.h] = -1; verify(); break;
      case 3: vt::runInEpochCollective([&] { for (auto& m : e.to) if ((m.first + e.by) % P.n == me) proxy(at(m.first)).template send<&El::mv>(m.second); }); break;
      case 4: vt::thePhase()->runHooksManual(vt::phase::PhaseHook::EndPostMigration); verify(); break;
      case 5: vt::thePhase()->nextPhaseCollective(); verify(); break;
      default: break;
    }
    i++; vt::runInEpochCollective([] { vt::theCollection()->getTypelessHolder().invokeAllGroupConstructors(); });
  }
} };
} // namespace

PBT_TARGET(windows, Isolated, 1200, 40000) {
  auto c = rt::gen(g, rt::Opt{1, 5, true}); int n = c.sim.n; P = Prog{}; P.n = n;
  for (int k = (int)g.range(1, 3); k > 0; k--) { Handle h; h.type = (int)g.draw(2); h.group = (int)g.draw(1); int same = g.chance(1, 3) ? (int)g.range(0, 10) : -1; for (int r = 0; r < n; r++) { Region q; q.owner = r; q.size = same >= 0 ? same : (int)g.range(0, 10); q.val.assign((size_t)q.size, 0); h.reg.push_back(q); } h.uniform = same >= 0 && g.coin(); P.h.push_back(h); }
  gen_events(g, n); g.note(rt::show(c)); show_prog(g, names);
  rt::run(g, c, body);
}
PBT_TARGET(sets, Isolated, 800, 20000) {
  auto c = rt::gen(g, rt::Opt{1, 5, true}); int n = c.sim.n; P = Prog{}; P.n = n; P.set = true;
  for (int k = (int)g.range(1, 2); k > 0; k--) {
    Handle h; h.type = (int)g.draw(2); h.group = (int)g.draw(1); int same = g.chance(1, 3) ? (int)g.range(0, 6) : -1; h.dense = (int)g.coin(); h.uniform = same >= 0 && g.coin(); h.max = (int)g.range(1, 6);
    for (int r = 0; r < n; r++) { std::vector<int> keys; if (h.dense) for (int j = (int)g.range(1, h.max); j > 0; j--) keys.push_back((int)keys.size()); else { for (int j = 0; j < h.max; j++) if (g.coin()) keys.push_back(j); if (keys.empty()) keys.push_back((int)g.draw((uint64_t)h.max - 1)); } for (int j : keys) { Region q; q.owner = r; q.size = same >= 0 ? same : (int)g.range(0, 6); q.val.assign((size_t)q.size, 0); h.reg.push_back(q); h.key.push_back({r, j}); } }
    P.h.push_back(h);
  }
  gen_events(g, n); g.note(rt::show(c)); show_prog(g, names);
  rt::run(g, c, body);
}
PBT_TARGET(collections, Isolated, 150, 20000) {
  auto c = rt::gen(g, rt::Opt{1, 5, true}); int n = c.sim.n; P = Prog{}; P.n = n; if (c.sim.quantum > 10) c.sim.quantum = 10; c.sim.hang_steps *= 5; c.sim.max_steps *= 5;
  P.s = col::shape(g, 14); P.map = (int)g.draw(1); int N = P.s.size();
  char const* lbs[] = {"RotateLB", "GreedyLB", "TemperedLB", "RandomLB"}; P.lb = (int)g.draw(3);
  for (auto a : {"--vt_lb", "--vt_lb_quiet", "--vt_lb_interval=1", "--vt_lb_run_lb_first_phase"}) c.args.push_back(a);
  c.args.push_back(std::string("--vt_lb_name=") + lbs[P.lb]);
  for (int k = (int)g.range(1, 3); k > 0; k--) { Handle h; int same = g.chance(1, 3) ? (int)g.range(0, 6) : -1; for (int r = 0; r < N; r++) { Region q; q.size = same >= 0 ? same : (int)g.range(0, 6); q.val.assign((size_t)q.size, 0); h.reg.push_back(q); } h.uniform = same >= 0 && g.coin(); P.h.push_back(h); }
  std::vector<char> live(P.h.size(), 0), gone(P.h.size(), 0); bool moved = false;
  auto ev = [&](int kind, int h) { Event e; e.kind = kind; e.h = h; e.by = (int)g.draw((uint64_t)n - 1); P.ev.push_back(e); };
  auto round = [&](int h, bool init) { P.rounds.push_back(make_round(g, P.h[(size_t)h].reg, N, [](int q) { return q; }, false, init)); ev(1, h); P.ev.back().round = (int)P.rounds.size() - 1; };
  auto make = [&](int h) { ev(0, h); live[(size_t)h] = 1; round(h, true); };
  for (int h = (int)P.h.size() - 1; h >= 0; h--) make(h);        // before anything moves
  for (int k = (int)g.range(1, 8); k > 0; k--) {
    int h = (int)g.draw(P.h.size() - 1); int kind = (int)g.weighted({0, 5, 1, 4, 0, 3}); if (!kind) kind = 1;
    if (kind == 3) { ev(3, 0); for (int e = 0; e < N; e++) if (g.chance(1, 3)) P.ev.back().to.push_back({e, (int)g.draw((uint64_t)n - 1)}); moved = true; g.label("moved by the user"); continue; }
    if (kind == 5) { ev(5, 0); moved = false; g.label("phase"); continue; }
    if (!live[(size_t)h]) continue;
    if (moved) { ev(4, 0); moved = false; }
    if (kind == 2) { ev(2, h); live[(size_t)h] = 0; gone[(size_t)h] = 1; g.label("destroyed"); } else round(h, false);
  }
  if (moved) ev(4, 0);
  g.note(rt::show(c), col::show(P.s), " map=", P.map, " ", lbs[P.lb], "\n"); show_prog(g, names);
  rt::run(g, c, [&](int me) { col::by_dim<Run>(P.s, me); });
}

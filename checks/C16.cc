// variant: rt
// C16: a collection restored from a checkpoint equals the one that was saved
#include "common/col.h"
#include "common/scratch.h"
#include <map>
PBT_RULE("histories: a case is a program of up to 14 steps on a collection (1-3 dimensions, up to 24 elements, all or some of them present, block, scattering or single-rank map) over 1-6 simulated ranks: changes of element state (by single messages or broadcast), migrations, phases with a balancer, saves to one of several files (with and without sub-directories, over an older save too), restores in place (of the same or another collection) and into new collections, reductions and neighbour messages; possibly followed by a second run of the machine that starts from the files of the first. Non-trivial: something was restored that differed in state or placement from what was saved, or in another run.");
namespace {
using col::Shape;
enum Kind { Change, Migrate, Phase, Save, InPlace, Fresh, Ping, Reduce, Broadcast, Destroy, KindN };
struct Step { int kind = 0, inst = 0, base = 0, v = 0, by = 0; std::vector<std::pair<int, int>> to; };
struct Base { int sub = 1, files = 4; };
struct Prog { Shape s; int n = 1, map[2] = {0, 0}, lb = 0; std::vector<char> have; std::vector<Base> bases; std::vector<Step> steps[2]; int runs = 1; std::string dir; } P;
constexpr int Max = 8, E = 24;         // instances of the collection, elements
int64_t mix(int64_t d, int64_t v) { return (int64_t)(((uint64_t)d ^ (uint64_t)(v + 1)) * 0x9e3779b97f4a7c15ull); }
// what an element should be: the list of what changed it
struct State { std::vector<int> log; };
struct Inst { bool alive = false; std::vector<State> st; std::vector<int> at; };        // at: rank of each element, -1 unknown
struct Snap { bool saved = false; std::vector<State> st; std::vector<int> at; };
int64_t& where(int i, int e) { return sim::shared()[i * E + e]; }
int64_t& held(int i, int e) { return sim::shared()[500 + i * E + e]; }
int64_t& dig(int i, int e) { return sim::shared()[1000 + i * E + e]; }
int64_t& hits(int e) { return sim::shared()[2000 + e]; }
int64_t& saved_at(int b, int e) { return sim::shared()[3000 + b * E + e]; }
int64_t& sums(int i) { return sim::shared()[4000 + i]; }
int64_t& differed() { return sim::shared()[5000]; }
int64_t digest(std::vector<int> const& log) { int64_t d = 17; for (int v : log) d = mix(d, v); return d; }
template <class I> struct Elm : vt::Collection<Elm<I>, I> {
  static inline vt::CollectionProxy<Elm<I>, I> proxy[Max];
  // all of this follows from the log; kept apart so that losing any of it shows
  std::vector<int> log; int64_t d = 17; int count = 0; std::string name; std::map<int, std::string> table; std::vector<std::vector<char>> blocks; std::unique_ptr<double> last; bool moving = false;
  template <class S> void serialize(S& s) { vt::Collection<Elm<I>, I>::serialize(s); s | log | d | count | name | table | blocks | last; if (s.isUnpacking()) moving = false; }
  int me() { return col::Ix<I>::lin(P.s, this->getIndex()); }
  void check(int inst, char const* w) {
    RT_CHECK(this->getCollectionProxy().getProxy() == proxy[inst].getProxy(), "identity", w, ": element ", me(), " of collection ", inst, " takes itself to be in another collection");
    RT_CHECK(d == digest(log) && count == (int)log.size(), "state", w, ": element ", me(), " has count ", count, " and a log of ", log.size(), " or a digest not of its log");
    RT_CHECK((int)name.size() == count * 3 % 41 && (table.size() == (size_t)std::min(count, 5)) && blocks.size() == (size_t)(count % 7), "state", w, ": element ", me(), " has a name of ", name.size(), " a table of ", table.size(), " and ", blocks.size(), " blocks after ", count, " changes");
    for (int k = std::max(0, count - 5); k < count; k++) { auto it = table.find(k); RT_CHECK(it != table.end() && it->second == std::to_string(log[(size_t)k]), "state", w, ": element ", me(), " lost entry ", k, " of its table"); }
    for (auto& b : blocks) RT_CHECK(b == std::vector<char>((size_t)count, (char)count), "state", w, ": element ", me(), " has an altered block");
    RT_CHECK((last != nullptr) == (count % 2 == 1) && (!last || *last == 0.5 * log.back()), "state", w, ": element ", me(), " lost its last value");
    RT_CHECK(this->valExists("count") == (count > 0) && (!count || this->template valGet<int>("count") == count), "state", w, ": element ", me(), " lost its stored value");
  }
  void rebuild() {
    count = (int)log.size(); d = digest(log); name = std::string((size_t)(count * 3 % 41), 'n'); table.clear(); for (int k = std::max(0, count - 5); k < count; k++) table[k] = std::to_string(log[(size_t)k]);
    blocks.assign((size_t)(count % 7), std::vector<char>((size_t)count, (char)count)); if (count % 2) last = std::make_unique<double>(0.5 * log.back()); else last.reset();
    if (this->valExists("count")) this->valRemove("count"); if (count) this->valInsert("count", count);
  }
  // v < 0 forgets most of what happened
  void change(int inst, int v) { check(inst, "changing"); hits(me())++; if (v < 0) log.resize(log.size() / 3); else for (int k = 0; k <= v % 4; k++) log.push_back(v + k + me()); rebuild(); sim::advance(1e-4 * (1 + me() % 3)); }
  void report(int inst) { check(inst, "reporting"); hits(me())++; dig(inst, me()) = d; where(inst, me()) = 1 + sim::rank(); }
  void ping(int inst, int v) { check(inst, "asked"); int e = (me() + 1 + v) % P.s.size(); while (!P.have[(size_t)e]) e = (e + 1) % P.s.size(); this->getCollectionProxy()(col::Ix<I>::at(P.s, e)).template send<&Elm::pong>(inst, me(), v); }
  void pong(int inst, int from, int v) { check(inst, "neighbour"); int e = (from + 1 + v) % P.s.size(); while (!P.have[(size_t)e]) e = (e + 1) % P.s.size(); RT_CHECK(e == me(), "misdelivered", "a message for element ", e, " ran on ", me()); hits(from)++; }
  void give(int inst) { check(inst, "reducing"); hits(me())++; this->getCollectionProxy().template allreduce<&Elm::total, vt::collective::PlusOp>((long)d % 1000, inst); }
  void total(long v, int) { int inst = 0; while (proxy[inst].getProxy() != this->getCollectionProxy().getProxy()) inst++; hits(E + me())++; sums(inst) = v; }
  void mv(int to) { if (to != sim::rank() && !moving) { moving = true; this->migrate(to); } }
};
template <class I> vt::NodeType scatter(I* i, I*, vt::NodeType n) { return (vt::NodeType)col::scatter_rank((uint64_t)(i->x() + 3 * P.s.size()), n); }
template <class I> vt::NodeType single(I*, I*, vt::NodeType n) { return n - 1; }
template <class I> struct Run { static void run(Shape s, int me, int pass) {
  using El = Elm<I>; auto& proxy = El::proxy; int N = s.size(); auto at = [&](int e) { return col::Ix<I>::at(s, e); };
  std::vector<Inst> inst(Max); std::vector<Snap> snap(P.bases.size());
  auto make = [&](int k, int map) {
    std::vector<I> l; for (int e = 0; e < N; e++) if (P.have[(size_t)e]) l.push_back(at(e));
    auto c = vt::makeCollection<El>("c16"); c.bounds(col::Ix<I>::range(s)).collective(true);
    if (map == 1) c.template mapperFunc<scatter<I>>(); else if (map == 2) c.template mapperFunc<single<I>>();
    if (std::find(P.have.begin(), P.have.end(), 0) == P.have.end()) c.bulkInsert(); else c.listInsert(l);
    proxy[k] = c.wait(); inst[(size_t)k].alive = true; inst[(size_t)k].st.assign((size_t)N, {}); inst[(size_t)k].at.assign((size_t)N, -1);
  };
  auto regroup = [] { vt::runInEpochCollective([] { vt::theCollection()->getTypelessHolder().invokeAllGroupConstructors(); }); };
  auto clear = [&] { vt::theCollective()->barrier(); if (me == 0) { for (int e = 0; e < 2 * E; e++) hits(e) = 0; for (int k = 0; k < Max * E; k++) held(0, k) = 0; } vt::theCollective()->barrier(); };
  auto heard = [&](int off, int want, std::string const& w) { for (int e = 0; e < N; e++) RT_CHECK(hits(off + e) == (P.have[(size_t)e] ? want : 0), "delivery", w, ": element ", e, " was reached ", hits(off + e), " times, not ", P.have[(size_t)e] ? want : 0); };
  auto presence = [&](int k, std::string const& w) {        // exactly the elements there should be, where they should be
    for (auto& x : vt::theCollection()->getLocalIndices(proxy[k])) { int e = col::Ix<I>::lin(s, x); held(k, e)++; where(k, e) = 1 + me; auto p = proxy[k](x).tryGetLocalPtr(); RT_CHECK(p && p->getIndex() == x, "identity", w, ": element ", e, " has another index"); p->check(k, w.c_str()); RT_CHECK(p->d == digest(inst[(size_t)k].st[(size_t)e].log), "state", w, ": element ", e, " of collection ", k, " has ", p->count, " changes, ", inst[(size_t)k].st[(size_t)e].log.size(), " were made up to then"); }
    vt::theCollective()->barrier();
    for (int e = 0; e < N; e++) { RT_CHECK(held(k, e) == P.have[(size_t)e], "element-set", w, ": element ", e, " of collection ", k, " exists ", held(k, e), " times"); if (!P.have[(size_t)e]) continue; auto& a = inst[(size_t)k].at[(size_t)e]; RT_CHECK(a < 0 || a == where(k, e) - 1, "placement", w, ": element ", e, " of collection ", k, " is on rank ", where(k, e) - 1, ", not on ", a); a = (int)where(k, e) - 1; }
    vt::theCollective()->barrier();
  };
  auto changed = [&](int k, int e, int v) { auto& l = inst[(size_t)k].st[(size_t)e].log; if (v < 0) l.resize(l.size() / 3); else for (int i = 0; i <= v % 4; i++) l.push_back(v + i + e); };
  auto file = [&](int b) { return P.dir + "/b" + std::to_string(b); };
  if (pass == 0) { make(0, P.map[0]); presence(0, "at the start"); }
  else for (size_t b = 0; b < snap.size(); b++) {        // what the first run saved
    Inst x; x.st.assign((size_t)N, {}); std::vector<Inst> all(Max, x); std::vector<Snap> sn(snap.size());
    for (auto& t : P.steps[0]) { auto& i = all[(size_t)t.inst]; switch (t.kind) {
      case Change: case Broadcast: for (int e = 0; e < N; e++) if (P.have[(size_t)e] && (t.kind == Broadcast || (e + t.v) % 3)) { auto& l = i.st[(size_t)e].log; if (t.v < 0) l.resize(l.size() / 3); else for (int k = 0; k <= t.v % 4; k++) l.push_back(t.v + k + e); } break;
      case Save: sn[(size_t)t.base].saved = true; sn[(size_t)t.base].st = i.st; break;
      case InPlace: case Fresh: i.st = sn[(size_t)t.base].st; break;
      default: break; } }
    snap[b] = sn[b]; snap[b].at.assign((size_t)N, -1); for (int e = 0; e < N; e++) snap[b].at[(size_t)e] = (int)saved_at((int)b, e) - 1;
  }
  int nth = 0;
  for (auto& t : P.steps[pass]) {
    int k = t.inst; auto& x = inst[(size_t)k]; auto w = pbt::cat("run ", pass, " step ", nth++); clear();
    switch (t.kind) {
      case Change: case Ping: case Reduce: {
        vt::runInEpochCollective([&] { for (int e = 0; e < N; e++) if (P.have[(size_t)e] && (e + t.by) % P.n == me) { auto p = proxy[k](at(e)); if (t.kind == Ping) p.template send<&El::ping>(k, t.v); else if (t.kind == Reduce) p.template send<&El::give>(k); else if ((e + t.v) % 3) p.template send<&El::change>(k, t.v); } });
        for (int e = 0; e < N; e++) { int want = P.have[(size_t)e] && (t.kind != Change || (e + t.v) % 3); RT_CHECK(hits(e) == want, "delivery", w, ": element ", e, " was reached ", hits(e), " times, not ", want); if (t.kind == Change && want) changed(k, e, t.v); }
        if (t.kind == Reduce) { heard(E, 1, w + " total"); long sum = 0; for (int e = 0; e < N; e++) if (P.have[(size_t)e]) sum += (long)digest(x.st[(size_t)e].log) % 1000; RT_CHECK(sums(k) == sum, "reduction", w, ": the elements add up to ", sums(k), ", not ", sum); }
        break; }
      case Broadcast: vt::runInEpochCollective([&] { if (me == t.by) proxy[k].template broadcast<&El::change>(k, t.v); }); heard(0, 1, w + " broadcast"); for (int e = 0; e < N; e++) if (P.have[(size_t)e]) changed(k, e, t.v); break;
      case Migrate:
        vt::runInEpochCollective([&] { for (auto& m : t.to) if (P.have[(size_t)m.first] && (m.first + t.by) % P.n == me) proxy[k](at(m.first)).template send<&El::mv>(m.second); });
        regroup(); for (auto& m : t.to) x.at[(size_t)m.first] = m.second; break;
      case Phase: vt::thePhase()->nextPhaseCollective(); for (auto& i : inst) for (auto& a : i.at) a = -1; break;
      case Save: vt::theCollection()->checkpointToFile(proxy[k], file(t.base), P.bases[(size_t)t.base].sub, P.bases[(size_t)t.base].files); vt::theCollective()->barrier(); snap[(size_t)t.base] = {true, x.st, x.at}; for (int e = 0; e < N; e++) saved_at(t.base, e) = 1 + x.at[(size_t)e]; break;
      case InPlace: {
        auto& sn = snap[(size_t)t.base]; for (int e = 0; e < N; e++) if (x.at[(size_t)e] != sn.at[(size_t)e] || x.st[(size_t)e].log != sn.st[(size_t)e].log) differed() = 1;
        vt::theCollection()->restoreFromFileInPlace<El>(proxy[k], col::Ix<I>::range(s), file(t.base)); x.st = sn.st; x.at = sn.at; regroup(); break; }
      case Fresh: { auto& sn = snap[(size_t)t.base]; proxy[k] = vt::theCollection()->restoreFromFile<El>(col::Ix<I>::range(s), file(t.base)); x = {true, sn.st, sn.at}; if (pass) differed() = 1; vt::theCollective()->barrier(); break; }
      case Destroy: vt::runInEpochCollective([&] { if (me == t.by) proxy[k].destroy(); }); x.alive = false; break;
      default: break;
    }
    vt::theCollective()->barrier();
    clear(); for (int i = 0; i < Max; i++) if (inst[(size_t)i].alive) presence(i, w);
  }
  // everything is still reachable
  for (int k = 0; k < Max; k++) if (inst[(size_t)k].alive) {
    clear(); vt::runInEpochCollective([&] { for (int e = 0; e < N; e++) if (P.have[(size_t)e] && e % P.n == me) proxy[k](at(e)).template send<&El::report>(k); });
    heard(0, 1, "at the end"); for (int e = 0; e < N; e++) if (P.have[(size_t)e]) RT_CHECK(dig(k, e) == digest(inst[(size_t)k].st[(size_t)e].log), "state", "at the end element ", e, " of collection ", k, " differs");
    clear(); vt::runInEpochCollective([&] { if (me == P.n - 1) proxy[k].template broadcast<&El::report>(k); }); heard(0, 1, "broadcast at the end");
  }
} };
char const* const kinds[] = {"change", "migrate", "phase", "save", "restore in place", "restore", "ping", "reduce", "broadcast", "destroy"};
} // namespace

PBT_TARGET(histories, Isolated, 300, 30000) {
  auto c = rt::gen(g); int n = c.sim.n; if (c.sim.quantum > 10) c.sim.quantum = 10;
  c.sim.hang_steps *= 5; c.sim.max_steps *= 5;
  P = Prog{}; P.n = n; P.s = col::shape(g, E); P.map[0] = (int)g.weighted({2, 2, 1}); int N = P.s.size();
  P.have.assign((size_t)N, 1); if (g.chance(1, 4)) { for (auto& h : P.have) h = (char)g.coin(); P.have[0] = 1; }
  P.dir = standalone::scratch() + "/c" + std::to_string(getpid()); std::filesystem::create_directories(P.dir);
  for (int b = (int)g.range(1, 3); b > 0; b--) P.bases.push_back({(int)g.coin(), (int)g.range(1, 5)});
  char const* lbs[] = {"RotateLB", "GreedyLB", "TemperedLB", "RandomLB"}; P.lb = (int)g.draw(3);
  for (auto a : {"--vt_lb", "--vt_lb_quiet", "--vt_lb_interval=1", "--vt_lb_run_lb_first_phase"}) c.args.push_back(a);
  c.args.push_back(std::string("--vt_lb_name=") + lbs[P.lb]); c.args.push_back("--vt_lb_statistics_dir=" + P.dir);
  P.runs = g.chance(1, 3) ? 2 : 1; std::vector<char> saved(P.bases.size(), 0);
  auto rr = [&] { return (int)g.draw((uint64_t)n - 1); };
  for (int pass = 0; pass < P.runs; pass++) {
    std::vector<char> alive(Max, 0); int used = 0; if (!pass) alive[0] = 1, used = 1; bool any = false; for (char b : saved) any |= b; if (pass && !any) { P.runs = 1; break; }
    for (int i = (int)g.range(4, 14); i > 0; i--) {
      Step t; std::vector<int> live, kept; for (int k = 0; k < Max; k++) if (alive[(size_t)k]) live.push_back(k); for (int b = 0; b < (int)saved.size(); b++) if (saved[(size_t)b]) kept.push_back(b);
      t.kind = (int)g.weighted({4, 3, 2, 4, 3, 3, 1, 1, 2, 1}); t.by = rr(); t.v = g.chance(1, 4) ? -1 : (int)g.range(0, 30);
      if (live.empty()) t.kind = Fresh; else t.inst = g.pick(live);
      if ((t.kind == InPlace || t.kind == Fresh) && kept.empty()) t.kind = Save; if (t.kind == Fresh && used == Max) t.kind = Save; if (t.kind == Destroy && !pass && live.size() == 1 && kept.empty()) t.kind = Save;
      if (t.kind == InPlace || t.kind == Fresh) t.base = g.pick(kept); else if (t.kind == Save) { t.base = (int)g.draw(P.bases.size() - 1); saved[(size_t)t.base] = 1; }
      if (t.kind == Fresh) { t.inst = used++; alive[(size_t)t.inst] = 1; } if (t.kind == Destroy) alive[(size_t)t.inst] = 0;
      if (t.kind == Migrate) for (int e = 0; e < N; e++) if (P.have[(size_t)e] && g.chance(1, 3)) t.to.push_back({e, rr()});
      P.steps[pass].push_back(t); g.label(kinds[t.kind]);
    }
  }
  g.note(rt::show(c), col::show(P.s), " map=", P.map[0], " ", lbs[P.lb], " present:"); for (char h : P.have) g.note((int)h); g.note("\nfiles:"); for (auto& b : P.bases) g.note(" ", b.sub ? pbt::cat("sub-directories of ", b.files) : std::string("flat")); g.note("\n");
  for (int pass = 0; pass < P.runs; pass++) for (auto& t : P.steps[pass]) { g.note("run ", pass, ": ", kinds[t.kind], " collection ", t.inst, " base ", t.base, " v=", t.v, " by ", t.by); for (auto& m : t.to) g.note(" ", m.first, "->", m.second); g.note("\n"); }
  if (P.runs == 2) g.label("restarted");
  struct Clean { std::string d; ~Clean() { std::error_code e; std::filesystem::remove_all(d, e); } } clean{P.dir};
  static std::vector<int64_t> places; Prog Q = P; bool other = false;
  rt::run(g, c, [&](int me) { P = Q; col::by_dim<Run>(P.s, me, 0); });
  places.assign(sim::shared() + 3000, sim::shared() + 3000 + 4 * E); other = differed();
  if (P.runs == 2) { rt::run(g, c, [&](int me) { P = Q; for (size_t i = 0; i < places.size(); i++) sim::shared()[3000 + i] = places[i]; col::by_dim<Run>(P.s, me, 1); }); other |= differed(); }
  g.nontrivial(other);
}

// variant: rt
// C17: every phase change runs the registered hooks once, in order, with their work done where it should be
#include "common/rt.h"
PBT_RULE("A case is 1-6 phase changes over 1-8 simulated ranks with up to 12 hooks (collective ones, rooted and unsynchronized ones on any subset of the ranks, for each of the four moments), registered and unregistered between the phases, each sending chains of messages, some of them under an epoch of its own, while the ranks enter the phase change at different times with traffic of the application in flight; non-trivial: at least 2 ranks, and a collective or rooted hook with messages followed by another hook of the same phase change.");
namespace {
using vt::phase::PhaseHook; using vt::phase::PhaseHookID;
struct Msgs { int from, to, hops; };
struct Hook { int kind = 0, type = 0, nest = 0; uint64_t on = 0; std::vector<Msgs> msgs; };   // kind: 0 collective, 1 rooted, 2 unsynchronized
struct Step { int op, h = 0; std::vector<int> late, chat; };                                  // op: 0 register, 1 unregister, 2 next phase, 3 run by hand
struct Prog { int n = 1; std::vector<Hook> h; std::vector<Step> s; } P;
PhaseHook const types[] = {PhaseHook::DataCollection, PhaseHook::End, PhaseHook::EndPostMigration, PhaseHook::Start};
char const* tname[] = {"DataCollection", "End", "EndPostMigration", "Start"}; char const* kname[] = {"collective", "rooted", "unsynchronized"};
int64_t* out(int h, int r) { return sim::shared() + h * 8 + r; }
int64_t* runs(int h, int r) { return sim::shared() + 200 + h * 8 + r; }
int64_t* entered(int r) { return sim::shared() + 400 + r; }
int64_t* left(int r) { return sim::shared() + 420 + r; }
int64_t* sent(int h) { return sim::shared() + 440 + h; }
int64_t* done(int h) { return sim::shared() + 460 + h; }
std::vector<int> expect; size_t at = 0; int phases = 0; bool manual = false, active = false; std::vector<char> live; std::vector<int> order;
void hop(int h, int origin, int hops) {
  sim::progress(); ++*done(h); RT_CHECK(*out(h, origin) > 0, "duplicate", "a message of hook ", h, " of rank ", origin, " runs more often than it was sent");
  if (hops) { ++*sent(h); ++*out(h, origin); vt::theMsg()->send<hop>(vt::Node{(vt::NodeType)((sim::rank() + hops) % P.n)}, h, origin, hops - 1); }
  --*out(h, origin);
}
void chat(int hops) { if (hops) vt::theMsg()->send<chat>(vt::Node{(vt::NodeType)((sim::rank() + 1) % P.n)}, hops - 1); }
// What has to be done when hook cur starts on this rank, or (-1) at the return: the work of
// all earlier collective and data collection hooks, on all ranks, and of the own rooted ones.
void quiet(int me, int cur) {
  auto type = [](int h) { return P.h[(size_t)h].type; };
  auto where = [&] { return pbt::cat("rank ", me, cur < 0 ? " returns from the phase change" : pbt::cat(" starts hook ", cur)); };
  for (int h = 0; h < (int)P.h.size(); h++) { auto& k = P.h[(size_t)h];
    if (k.kind == 2 && k.type != 0) continue;
    if (h == cur || (k.kind == 1 && k.type != 0)) { RT_CHECK(*out(h, me) == 0, "work left", where(), " with messages left of its ", kname[k.kind], " ", tname[k.type], " hook ", h); continue; }
    if (cur >= 0 && type(cur) == 0 && k.type == 0) continue;                                           // these run together
    if (cur >= 0 && P.h[(size_t)cur].kind == 1 && type(cur) != 0 && k.type >= type(cur)) continue;    // others may be ahead
    for (int r = 0; r < P.n; r++) RT_CHECK(*out(h, r) == 0, "work left", where(), " with ", *out(h, r), " messages left of the ", kname[k.kind], " ", tname[k.type], " hook ", h, " of rank ", r);
  }
}
void trigger(int h) {
  int me = sim::rank(); auto& k = P.h[(size_t)h]; sim::progress(); ++*runs(h, me);
  RT_CHECK(active, "moment", "hook ", h, " runs on rank ", me, " outside of a phase change");
  RT_CHECK(at < expect.size() && expect[at] == h, "order", "rank ", me, " runs the ", kname[k.kind], " ", tname[k.type], " hook ", h, " where ", at < expect.size() ? pbt::cat("hook ", expect[at]) : "none", " is due"); at++;
  if (!manual) {
    RT_CHECK((int)vt::thePhase()->getCurrentPhase() == phases + (k.type == 3), "phase", "hook ", h, " (", tname[k.type], ") sees phase ", vt::thePhase()->getCurrentPhase(), " at phase change ", phases);
    for (int r = 0; r < P.n; r++) RT_CHECK(*entered(r) > phases, "early", "hook ", h, " runs on rank ", me, " before rank ", r, " enters the phase change");
  }
  if (k.kind != 2 || k.type == 0) quiet(me, h);
  auto work = [h, me, &k] { for (auto& m : k.msgs) if (m.from == me) { ++*sent(h); ++*out(h, me); vt::theMsg()->send<hop>(vt::Node{(vt::NodeType)m.to}, h, me, m.hops); } };
  if (k.nest && k.kind == 0) { vt::runInEpochCollective(work); for (int r = 0; r < P.n; r++) RT_CHECK(*out(h, r) == 0, "nested", "messages left after an epoch within hook ", h); }
  else if (k.nest && k.kind == 1) { { auto ep = vt::theTerm()->makeEpochRooted("c17", vt::term::UseDS{k.nest == 2}); vt::theMsg()->pushEpoch(ep); work(); vt::theMsg()->popEpoch(ep); vt::theTerm()->finishedEpoch(ep); vt::runSchedulerThrough(ep); } RT_CHECK(*out(h, me) == 0, "nested", "messages left after an epoch within hook ", h); }
  else work();
}
bool has(Hook const& k, int me) { return k.kind == 0 || (k.on >> me & 1); }
void due(int me, int type) { for (int kind : {1, 0, 2}) for (int h : order) if (live[(size_t)h] && P.h[(size_t)h].kind == kind && P.h[(size_t)h].type == type && has(P.h[(size_t)h], me)) expect.push_back(h); }
void body(int me) {
  expect.clear(); order.clear(); at = 0; phases = 0; active = false; live.assign(P.h.size(), 0); std::vector<std::unique_ptr<PhaseHookID>> ids(P.h.size());
  for (auto& s : P.s) {
    auto h = s.h;
    if (s.op == 0) { auto& k = P.h[(size_t)h]; live[(size_t)h] = 1; order.push_back(h); if (!has(k, me)) continue; auto f = [h] { trigger(h); }; auto t = types[k.type];
      ids[(size_t)h] = std::make_unique<PhaseHookID>(k.kind == 0 ? vt::thePhase()->registerHookCollective(t, f) : k.kind == 1 ? vt::thePhase()->registerHookRooted(t, f) : vt::thePhase()->registerHookUnsynchronized(t, f)); }
    else if (s.op == 1) { live[(size_t)h] = 0; order.erase(std::find(order.begin(), order.end(), h)); if (has(P.h[(size_t)h], me)) vt::thePhase()->unregisterHook(*ids[(size_t)h]); }
    else {
      for (int i = 0; i < s.chat[(size_t)me]; i++) vt::theMsg()->send<chat>(vt::Node{(vt::NodeType)((me + i) % P.n)}, i);
      for (int i = 0; i < s.late[(size_t)me]; i++) vt::theSched()->runSchedulerOnceImpl();
      manual = s.op == 3; if (manual) { vt::theCollective()->barrier(); due(me, h); active = true; vt::thePhase()->runHooksManual(types[h]); active = false; RT_CHECK(at == expect.size(), "lost", "rank ", me, " runs no ", tname[h], " hook ", at < expect.size() ? expect[at] : -1, " by hand"); vt::theCollective()->barrier(); vt::runInEpochCollective([] {}); continue; }
      for (int t = 0; t < 4; t++) due(me, t);
      ++*entered(me); active = true; vt::thePhase()->nextPhaseCollective(); active = false;
      RT_CHECK(at == expect.size(), "lost", "rank ", me, " returns from phase change ", phases, " without running the hook ", at < expect.size() ? expect[at] : -1);
      phases++; ++*left(me); RT_CHECK((int)vt::thePhase()->getCurrentPhase() == phases, "phase", "after ", phases, " phase changes the phase is ", vt::thePhase()->getCurrentPhase());
      for (int r = 0; r < P.n; r++) RT_CHECK(*entered(r) >= phases, "early", "rank ", me, " returns from phase change ", phases - 1, " before rank ", r, " enters it");
      for (size_t q = 0; q < P.h.size(); q++) if (live[q]) { int64_t most = 0; for (int r = 0; r < P.n; r++) if (has(P.h[q], r)) most = std::max(most, *runs((int)q, r)); for (int r = 0; r < P.n; r++) RT_CHECK(!has(P.h[q], r) || *runs((int)q, r) == most, "early", "rank ", me, " returns before rank ", r, " runs hook ", q); }
      quiet(me, -1);
    }
  }
  vt::runInEpochCollective([] {});   // the messages of unsynchronized hooks are in no epoch
  for (size_t h = 0; h < P.h.size(); h++) while (*sent((int)h) != *done((int)h)) vt::theSched()->runSchedulerOnceImpl();
}
void after(int) { for (size_t h = 0; h < P.h.size(); h++) { RT_CHECK(*sent((int)h) == *done((int)h), "messages", "hook ", h, " sent ", *sent((int)h), " messages of which ", *done((int)h), " ran"); } }
} // namespace

PBT_TARGET(hooks, Isolated, 1000, 100000) {
  auto c = rt::gen(g, rt::Opt{1, 8, true}); int n = c.sim.n; P = Prog{}; P.n = n; bool rich = false; std::vector<int> state; int changes = 0;
  auto make = [&] {
    Hook k; k.kind = (int)g.weighted({4, 3, 2}); k.type = (int)g.draw(3); k.nest = g.chance(1, 4) ? (int)g.range(1, 2) : 0; k.on = g.draw((1u << n) - 1); if (!k.on) k.on = 1;
    for (int i = (int)g.draw(3); i > 0; i--) k.msgs.push_back({(int)g.draw((uint64_t)n - 1), (int)g.draw((uint64_t)n - 1), (int)g.draw(4)});
    P.h.push_back(k); state.push_back(1); P.s.push_back({0, (int)P.h.size() - 1, {}, {}});
  };
  for (int i = (int)g.range(1, 5); i > 0; i--) make();
  for (int i = (int)g.range(1, 10); i > 0 && changes < 6; i--) {
    auto what = g.weighted({2, 1, 4, 1});
    if (what == 0 && P.h.size() < 12) { make(); continue; }
    if (what == 1) { int h = (int)g.draw(state.size() - 1); if (state[(size_t)h]) { state[(size_t)h] = 0; P.s.push_back({1, h, {}, {}}); g.label("unregistered"); } continue; }
    Step s{2, 0, {}, {}}; if (what == 3) { s.op = 3; s.h = (int)g.range(1, 3); g.label("by hand"); } else changes++;
    for (int r = 0; r < n; r++) { s.late.push_back(g.chance(1, 3) ? (int)g.draw(30) : 0); s.chat.push_back(g.chance(1, 3) ? (int)g.draw(5) : 0); }
    P.s.push_back(s);
    if (n > 1) for (size_t a = 0; a < P.h.size(); a++) for (size_t b = 0; b < P.h.size(); b++) if (a != b && state[a] && state[b] && P.h[a].kind < 2 && !P.h[a].msgs.empty() && P.h[a].type < P.h[b].type) rich = true;
  }
  if (rich && changes) g.nontrivial();
  g.note(rt::show(c)); for (size_t h = 0; h < P.h.size(); h++) { auto& k = P.h[h]; g.note("hook ", h, ": ", kname[k.kind], " ", tname[k.type], k.nest ? " nested" : "", " on ", k.kind ? k.on : 0, " messages"); for (auto& m : k.msgs) g.note(" ", m.from, ">", m.to, "x", m.hops); g.note("\n"); g.label(pbt::cat(kname[k.kind], " ", tname[k.type])); }
  for (auto& s : P.s) { g.note(s.op == 0 ? "register " : s.op == 1 ? "unregister " : s.op == 2 ? "next phase" : "by hand ", s.op == 2 ? "" : pbt::cat(s.h)); for (int l : s.late) g.note(" ", l); for (int l : s.chat) g.note(" +", l); g.note("\n"); }
  rt::run(g, c, body, after);
}

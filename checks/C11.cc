// variant: rt
// C11: load balancing keeps every object, once, unchanged and reachable
#include "common/col.h"
#include "common/scratch.h"
#include <fstream>
#include <vt/vrt/collection/balance/model/norm.h>
#include <vt/vrt/collection/balance/model/persistence_median_last_n.h>
#include <vt/vrt/collection/balance/model/linear_model.h>
#include <vt/vrt/collection/balance/model/comm_overhead.h>
#include <vt/vrt/collection/balance/model/naive_persistence.h>
#include <vt/vrt/collection/balance/model/raw_data.h>
#include <vt/vrt/collection/balance/model/weighted_messages.h>
#include <vt/vrt/collection/balance/model/weighted_communication_volume.h>
PBT_RULE("balancing: a case is one or two collections (up to 30 elements, 1-3 dimensions, block, scattering or single-rank map) over 1-8 simulated ranks running up to 5 phases of generated loads and element-to-element messages, each phase followed by a generated balancer with generated arguments (from the command line or a configuration file) and load model; non-trivial: several ranks and a balancer moved an element. offline: such a program is first run with any balancers while its data is recorded, then again with OfflineLB and the recorded plan; non-trivial: the plan moves an element between ranks.");
namespace {
using col::Shape;
namespace bal = vt::vrt::collection::balance;
struct Ph { std::string lb, args; std::vector<int> us; std::vector<std::array<int, 3>> comm; int objgroup_us = 0, bcast = 0; };
struct Prog { Shape s[2]; int cols = 1, n = 1, map = 0, model = 0, self = 0, offline = 0, stats = 0; std::vector<Ph> ph; } P;
int total() { return P.s[0].size() + (P.cols > 1 ? P.s[1].size() : 0); }
// shared words: where[phase][element], how often an element counted a run, messages, loads
int64_t& where(int ph, int e) { return sim::shared()[ph * 64 + e]; }        // 1 + rank after phase ph was balanced; row 0 is before
int64_t& held(int ph, int e) { return sim::shared()[1000 + ph * 64 + e]; }
int64_t& runs(int e) { return sim::shared()[2000 + e]; }
int64_t& digest(int e) { return sim::shared()[3000 + e]; }
int64_t& got(int ph, int k) { return sim::shared()[4000 + ph * 200 + k]; }
int64_t& moves(int e) { return sim::shared()[6000 + e]; }
int64_t& planned(int ph, int e) { return sim::shared()[7000 + ph * 64 + e]; }
double& rload(int r) { return reinterpret_cast<double*>(sim::shared() + 10000)[r]; }        // the load of a rank in this phase
double& eload(int e) { return reinterpret_cast<double*>(sim::shared() + 11000)[e]; }
int64_t& elmid(int e) { return sim::shared()[8000 + e]; }
int64_t& recorded(int ph, int e) { return sim::shared()[8100 + ph * 64 + e]; }
int64_t mix(int64_t d, int64_t v) { return (int64_t)(((uint64_t)d ^ (uint64_t)(v + 1)) * 0x9e3779b97f4a7c15ull); }
int seen_lb = 0;
template <class I> struct Elm : vt::Collection<Elm<I>, I> {
  int id = -1, count = 0, in = 0; int64_t dig = 0; std::vector<int> log; std::string name;
  static inline vt::CollectionProxy<Elm<I>, I> proxy[2];
  template <class S> void serialize(S& s) { vt::Collection<Elm<I>, I>::serialize(s); s | id | count | in | dig | log | name; }
  int me() { int w = P.cols > 1 && this->getCollectionProxy().getProxy() == proxy[1].getProxy(); return w * P.s[0].size() + col::Ix<I>::lin(P.s[w], this->getIndex()); }
  void preMigrateOut() override { if (id < 0) id = me(); moves(id)++; }
  void epiMigrateIn() override { if (id < 0) id = me(); RT_CHECK(id == me(), "state", "element ", me(), " arrives as element ", id); in++; verify("on arrival"); }
  void verify(char const* w) {
    RT_CHECK(count == runs(id) && dig == digest(id) && (int)log.size() == count, "state", w, " element ", id, " has counted ", count, " of ", runs(id), " runs (log ", log.size(), ") or their digest differs");
    RT_CHECK(in == moves(id), "state", w, " element ", id, " remembers ", in, " of ", moves(id), " migrations");
    RT_CHECK(name == std::string((size_t)(count % 37), (char)('a' + id % 26)), "state", w, " element ", id, " has an altered name");
  }
  void bump(int v) { if (id < 0) { id = me(); } verify("running,"); sim::progress(); count++; runs(id)++; dig = mix(dig, v); digest(id) = dig; log.push_back(v); name = std::string((size_t)(count % 37), (char)('a' + id % 26)); }
  void work(int ph) {
    bump(ph); got(ph, id)++; RT_CHECK(got(ph, id) == 1, "duplicate", "element ", id, " was asked ", got(ph, id), " times to work in phase ", ph);
    RT_CHECK(where(ph, id) == 0 || where(ph, id) == 1 + sim::rank(), "misplaced", "element ", id, " works on rank ", sim::rank(), " but was on ", where(ph, id) - 1, " when phase ", ph, " began");
    RT_CHECK(elmid(id) == 0 || elmid(id) == (int64_t)this->getElmID().id, "element-id", "element ", id, " changed its element id"); elmid(id) = (int64_t)this->getElmID().id;
    sim::advance(P.ph[(size_t)ph].us[(size_t)id] * 1e-6);
    for (size_t i = 0; i < P.ph[(size_t)ph].comm.size(); i++) { auto& c = P.ph[(size_t)ph].comm[i]; if (c[0] == id) at(c[1]).template send<&Elm::poke>(ph, (int)i, std::vector<char>((size_t)c[2], (char)i)); }
  }
  void poke(int ph, int i, std::vector<char> v) { auto& c = P.ph[(size_t)ph].comm[(size_t)i]; bump(100 + i); RT_CHECK(c[1] == id, "misdelivered", "message ", i, " for element ", c[1], " ran on ", id); RT_CHECK(v == std::vector<char>((size_t)c[2], (char)i), "content", "message ", i, " altered"); got(ph, 64 + i)++; }
  static auto at(int e) { int w = e >= P.s[0].size(); return proxy[w](col::Ix<I>::at(P.s[w], w ? e - P.s[0].size() : e)); }
};
template <class I> vt::NodeType scatter(I* i, I*, vt::NodeType n) { return (vt::NodeType)col::scatter_rank((uint64_t)i->x(), n); }
template <class I> vt::NodeType single(I*, I*, vt::NodeType n) { return n - 1; }
struct Rest { void work(int ph) { sim::advance(P.ph[(size_t)ph].objgroup_us * 1e-6); } };
std::shared_ptr<bal::LoadModel> model(int k) {
  auto base = vt::theLBManager()->getBaseLoadModel(); using namespace bal;
  switch (k) {
    case 1: return std::make_shared<Norm>(base, 2.0);
    case 2: return std::make_shared<PersistenceMedianLastN>(base, 3u);
    case 3: return std::make_shared<LinearModel>(base, 3u);
    case 4: return std::make_shared<NaivePersistence>(std::make_shared<CommOverhead>(std::make_shared<RawData>(), vt::LoadType{1e-4}, vt::LoadType{1e-7}));
    case 5: return std::make_shared<NaivePersistence>(std::make_shared<WeightedMessages>(std::make_shared<RawData>(), vt::LoadType{1e-4}, vt::LoadType{1e-6}));
    case 6: return std::make_shared<WeightedCommunicationVolume>(base, 1.0, 1e-6, 1e-7);
    default: return base;
  }
}
struct Reading { bool ran = false; double max = 0, post = 0, imb = 0, ipost = 0; };
template <class I> struct Run { static void run(Shape, int me) {
  int N = total();
  for (int w = 0; w < P.cols; w++) {
    auto c = vt::makeCollection<Elm<I>>("c11"); c.bounds(col::Ix<I>::range(P.s[w])).bulkInsert();
    if (P.map == 1) c.template mapperFunc<scatter<I>>(); else if (P.map == 2) c.template mapperFunc<single<I>>();
    Elm<I>::proxy[w] = c.wait();
  }
  auto rest = vt::theObjGroup()->makeCollective<Rest>("rest");
  if (P.model && !P.offline) vt::theLBManager()->setLoadModel(model(P.model));
  auto locals = [&](auto f) { for (int w = 0; w < P.cols; w++) for (auto& x : vt::theCollection()->getLocalIndices(Elm<I>::proxy[w])) f(w * P.s[0].size() + col::Ix<I>::lin(P.s[w], x)); };
  locals([&](int e) { where(0, e) = me + 1; }); vt::theCollective()->barrier();
  int phases = (int)P.ph.size();
  for (int ph = 0; ph < phases; ph++) {
    auto& F = P.ph[(size_t)ph];
    vt::runInEpochCollective([&] {
      if (F.bcast) { if (me == ph % P.n) for (int w = 0; w < P.cols; w++) Elm<I>::proxy[w].template broadcast<&Elm<I>::work>(ph); }
      else for (int e = 0; e < N; e++) if (e % P.n == (me + ph) % P.n) Elm<I>::at(e).template send<&Elm<I>::work>(ph);
      if (F.objgroup_us) rest[me].template send<&Rest::work>(ph);
    });
    for (int e = 0; e < N; e++) RT_CHECK(got(ph, e) == 1, "delivery", "in phase ", ph, " element ", e, " worked ", got(ph, e), " times");
    for (size_t i = 0; i < F.comm.size(); i++) RT_CHECK(got(ph, 64 + (int)i) == 1, "delivery", "in phase ", ph, " message ", i, " from element ", F.comm[i][0], " to ", F.comm[i][1], " ran ", got(ph, 64 + (int)i), " times");
    vt::theCollective()->barrier();
    vt::thePhase()->nextPhaseCollective();
    RT_CHECK(vt::thePhase()->getCurrentPhase() == (vt::PhaseType)ph + 1, "phase", "phase ", ph, " is followed by ", vt::thePhase()->getCurrentPhase());
    auto info = *vt::theLBManager()->getPhaseInfo();
    // the loads as they were recorded on this rank, of elements and of everything else
    auto it = vt::theNodeLBData()->getNodeLoad()->find((vt::PhaseType)ph); rload(me) = 0;
    if (it != vt::theNodeLBData()->getNodeLoad()->end()) for (auto& [id, l] : it->second) { int e = 0; while (e < N && elmid(e) != (int64_t)id.id) e++; if (e < N) { recorded(ph, e)++; eload(e) = l.whole_phase_load; RT_CHECK(where(ph, e) == me + 1, "record", "in phase ", ph, " element ", e, " is recorded on rank ", me); } else rload(me) += l.whole_phase_load; }
    locals([&](int e) { held(ph, e)++; where(ph + 1, e) = me + 1; });
    vt::theCollective()->barrier();
    int moved = 0;
    for (int e = 0; e < N; e++) {
      RT_CHECK(held(ph, e) == 1, "element-set", "after phase ", ph, " was balanced by ", F.lb, " element ", e, " exists ", held(ph, e), " times");
      moved += where(ph, e) != where(ph + 1, e);
      if (P.offline) { if (ph + 1 < phases) RT_CHECK(where(ph + 1, e) == planned(ph + 1, e), "plan", "in phase ", ph + 1, " element ", e, " is on rank ", where(ph + 1, e) - 1, ", the plan has it on ", planned(ph + 1, e) - 1); }
      else if (F.lb == "RotateLB") RT_CHECK(where(ph + 1, e) - 1 == where(ph, e) % P.n, "rotation", "rotation took element ", e, " from rank ", where(ph, e) - 1, " to ", where(ph + 1, e) - 1);
      else if (F.lb == "NoLB" || F.lb == "TestSerializationLB") RT_CHECK(where(ph + 1, e) == where(ph, e), "placement", F.lb, " took element ", e, " from rank ", where(ph, e) - 1, " to ", where(ph + 1, e) - 1);
    }
    if (moved) sim::shared()[9000] = 1;
    if (!P.offline) {
      RT_CHECK(info.ran_lb == (F.lb != "NoLB"), "report", "phase ", ph, ": ", F.lb, " ran: ", info.ran_lb);
      if (F.lb != "NoLB" && !P.self) RT_CHECK(info.migration_count == moved, "report", "phase ", ph, ": ", F.lb, " reports ", info.migration_count, " migrations, ", moved, " elements moved");
      // (with another model it balances other loads than those reported)
      if (F.lb == "TemperedLB" && info.migration_count && P.model == 0) RT_CHECK(info.imb_load_post_lb <= info.imb_load + 1e-9 + 1e-6 * std::fabs(info.imb_load) && info.max_load_post_lb <= info.max_load * (1 + 1e-9) + 1e-12, "worse", "phase ", ph, ": TemperedLB reports a maximum load of ", info.max_load_post_lb, " after ", info.max_load, " (imbalance ", info.imb_load_post_lb, " after ", info.imb_load, ")");
      // what is reported is the recorded loads, where the elements were and where they are now
      double before[16] = {}, after[16] = {}, hi = 0, post = 0;
      for (int e = 0; e < N; e++) { RT_CHECK(recorded(ph, e) == 1, "record", "phase ", ph, " has ", recorded(ph, e), " records of element ", e); RT_CHECK(eload(e) >= F.us[(size_t)e] * 1e-6 * (1 - 1e-9), "record", "phase ", ph, " records a load of ", eload(e), " for element ", e, ", which worked ", F.us[(size_t)e], " us"); before[where(ph, e) - 1] += eload(e); after[where(ph + 1, e) - 1] += eload(e); }
      for (int r = 0; r < P.n; r++) { hi = std::max(hi, before[r] + rload(r)); post = std::max(post, after[r] + rload(r)); }
      auto same = [](double a, double b) { return std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b)) + 1e-12; };
      if (P.model == 0) {
        RT_CHECK(same(info.max_load, hi), "report", "phase ", ph, " (", F.lb, "): reported maximum load ", info.max_load, ", recorded ", hi);
        if (info.ran_lb) RT_CHECK(same(info.max_load_post_lb, post), "report", "phase ", ph, " (", F.lb, "): reported maximum load after balancing ", info.max_load_post_lb, ", its placement has ", post);
      }
    }
    vt::theCollective()->barrier();
  }
  // all still reachable, one by one and by broadcast
  static int checks; checks = 0;
  vt::runInEpochCollective([&] { for (int e = 0; e < N; e++) if (e % P.n == me) Elm<I>::at(e).template send<&Elm<I>::bump>(7); });
  vt::runInEpochCollective([&] { if (me == 0) for (int w = 0; w < P.cols; w++) Elm<I>::proxy[w].template broadcast<&Elm<I>::bump>(8); });
  for (int e = 0; e < N; e++) { int want = 2; for (int ph = 0; ph < phases; ph++) { want++; for (auto& c : P.ph[(size_t)ph].comm) want += c[1] == e; } RT_CHECK(runs(e) == want, "delivery", "element ", e, " ran ", runs(e), " handlers, ", want, " were sent"); }
} };
std::string tempered(pbt::Gen& g, bool wmin) {
  std::string a; auto opt = [&](char const* k, std::vector<std::string> v) { if (g.chance(1, 3)) a += std::string(k) + "=" + g.pick(v) + " "; };
  switch (g.draw(4)) { case 0: a += "knowledge=Complete "; break; case 1: a += pbt::cat("knowledge=UserDefined fanout=", g.range(1, 4), " rounds=", g.range(1, 4), " "); break; case 2: a += pbt::cat("fanout=", g.range(2, 5), " "); break; case 3: a += pbt::cat("rounds=", g.range(1, 4), " "); break; default: break; }
  a += pbt::cat("iters=", g.range(1, 3), " trials=", g.range(1, 2), " ");
  opt("criterion", {"Grapevine", "ModifiedGrapevine"}); opt("cmf", {"Original", "NormByMax", "NormByMaxExcludeIneligible"}); opt("rollback", {"true", "false"}); opt("targetpole", {"true", "false"});
  bool async = g.chance(1, 3), arb = g.chance(1, 5); int det = (int)g.draw(2); if (async || arb) det = 0;
  a += async ? "inform=AsyncInform " : det || g.coin() ? "inform=SyncInform " : "";       // asynchronous informs (the default) refuse to be deterministic
  if (arb) a += "ordering=Arbitrary "; else opt("ordering", {"ElmID", "FewestMigrations", "SmallObjects", "LargestObjects"});
  if (det) a += "deterministic=true "; else opt("deterministic", {"false"});
  if (wmin) { opt("alpha", {"1.0", "0.5"}); opt("beta", {"0.0", "1e-6"}); opt("gamma", {"0.0", "1e-7"}); }
  return a;
}
std::string arguments(pbt::Gen& g, std::string const& lb) {
  std::string a; auto opt = [&](char const* k, std::vector<std::string> v) { if (g.chance(1, 2)) a += std::string(k) + "=" + g.pick(v) + " "; };
  if (lb == "GreedyLB") { opt("strategy", {"scatter", "pt2pt", "bcast"}); opt("min", {"0.0", "0.5", "1.0"}); opt("max", {"1.0", "1.004", "2.0"}); opt("auto", {"true", "false"}); }
  else if (lb == "HierarchicalLB") { opt("strategy", {"LoadOverLessThan", "LoadOverGreaterThan", "LoadOverOneEach"}); opt("min", {"0.0", "0.5", "1.0"}); opt("max", {"1.0", "1.004", "2.0"}); opt("auto", {"true", "false"}); }
  else if (lb == "RandomLB") { opt("seed", {"0", "7", "123456"}); }
  else if (lb == "TemperedLB" || lb == "TemperedWMin") a = tempered(g, lb == "TemperedWMin");
  while (!a.empty() && a.back() == ' ') a.pop_back();
  return a;
}
void program(pbt::Gen& g, rt::Cfg const& c, int lbs) {
  P = Prog{}; P.n = c.sim.n; P.s[0] = col::shape(g, g.chance(1, 3) ? 4 : 24); P.cols = g.chance(1, 4) ? 2 : 1; P.map = (int)g.weighted({2, 2, 1});
  if (P.cols > 1) { P.s[1] = P.s[0]; if (P.s[0].d == 1) P.s[1].x = (int)g.range(1, 6); else { P.s[1].x = 1; P.s[1].y = (int)g.range(1, 3); P.s[1].z = 1; } }
  int N = total(), phases = (int)g.range(1, 5); std::vector<std::string> names{"RotateLB", "GreedyLB", "HierarchicalLB", "TemperedLB", "TemperedWMin", "RandomLB", "NoLB", "TestSerializationLB"};
  int dist = (int)g.draw(3), fixed = (int)g.draw(6);
  for (int p = 0; p < phases; p++) {
    Ph F; F.lb = names[lbs >= 0 ? (size_t)lbs : g.chance(1, 8) ? 6 : g.coin() ? (size_t)fixed : g.draw(5)]; if (F.lb == "TestSerializationLB" && !P.self) F.lb = "NoLB";
    F.args = arguments(g, F.lb); F.objgroup_us = g.chance(1, 3) ? (int)g.range(1, 20000) : 0; F.bcast = g.coin();
    for (int e = 0; e < N; e++) F.us.push_back(dist == 0 ? (int)g.range(0, 900) : dist == 1 ? (int)g.range(1000, 60000) : dist == 2 ? (g.chance(1, 4) ? (int)g.range(50000, 200000) : (int)g.range(0, 500)) : 5000 * (1 + e % 3));
    for (int i = (int)g.draw(12); i > 0; i--) F.comm.push_back({(int)g.draw((uint64_t)N - 1), (int)g.draw((uint64_t)N - 1), g.chance(1, 6) ? (int)g.range(500, 3000) : (int)g.range(0, 60)});
    P.ph.push_back(F);
  }
}
void describe(pbt::Gen& g, rt::Cfg const& c) {
  g.note(rt::show(c), col::show(P.s[0]), P.cols > 1 ? " and " + col::show(P.s[1]) : std::string(), " map=", P.map, " model=", P.model, P.self ? " self-migration" : "", "\n");
  for (size_t p = 0; p < P.ph.size(); p++) { auto& F = P.ph[p]; g.note("phase ", p, ": ", F.lb, " ", F.args, F.bcast ? " (broadcast)" : "", " other=", F.objgroup_us, "us loads"); for (int u : F.us) g.note(" ", u); for (auto& m : F.comm) g.note(" ", m[0], "->", m[1], ":", m[2]); g.note("\n"); }
}
// the balancers of the phases as a configuration file, or as arguments when one does for all
void configure(pbt::Gen& g, rt::Cfg& c, std::string const& tag) {
  c.args.push_back("--vt_lb"); bool same = true; for (auto& F : P.ph) same &= F.lb == P.ph[0].lb;
  c.args.push_back("--vt_lb_quiet"); c.args.push_back("--vt_lb_statistics_dir=" + standalone::scratch()); if (P.stats) c.args.push_back("--vt_lb_statistics_freq=1"); if (P.self) c.args.push_back("--vt_lb_self_migration");
  if (same && g.coin()) { for (auto& F : P.ph) F.args = P.ph[0].args; c.args.push_back("--vt_lb_name=" + P.ph[0].lb); if (P.ph[0].args.size()) c.args.push_back("--vt_lb_args=" + P.ph[0].args); c.args.push_back("--vt_lb_interval=1"); c.args.push_back("--vt_lb_run_lb_first_phase"); g.label("by arguments"); return; }
  auto f = standalone::scratch() + "/" + tag + std::to_string(getpid()) + ".lb"; std::ofstream o(f); for (size_t p = 0; p < P.ph.size(); p++) o << p << " " << P.ph[p].lb << " " << P.ph[p].args << "\n"; o << "% 1 NoLB\n"; o.close(); c.args.push_back("--vt_lb_file_name=" + f); g.label("by file");
}
} // namespace

PBT_TARGET(balancing, Isolated, 350, 20000) {
  auto c = rt::gen(g, {1, 8}); if (c.sim.quantum > 10) c.sim.quantum = 10;
  c.sim.hang_steps *= 5; c.sim.max_steps *= 5; program(g, c, -1); P.model = g.chance(1, 4) ? (int)g.range(1, 6) : 0; P.stats = g.chance(1, 4);
  if (g.chance(1, 8)) { P.self = 1; for (auto& F : P.ph) if (g.coin()) F.lb = "TestSerializationLB", F.args = ""; }
  configure(g, c, "lb"); describe(g, c);
  std::set<std::string> used; for (auto& F : P.ph) used.insert(F.lb); for (auto& u : used) g.label(u);
  Prog Q = P;
  rt::run(g, c, [&](int me) { P = Q; col::by_dim<Run>(P.s[0], me); });
  g.nontrivial(P.n > 1 && sim::shared()[9000]);
}
PBT_TARGET(offline, Isolated, 80, 8000) {
  auto c = rt::gen(g, {1, 6}); if (c.sim.quantum > 10) c.sim.quantum = 10;
  c.sim.hang_steps *= 5; c.sim.max_steps *= 5; program(g, c, -1); auto d = c;
  if (P.ph.size() == 1) P.ph.push_back(P.ph[0]);
  configure(g, c, "plan"); describe(g, c); auto dir = standalone::scratch() + "/plan" + std::to_string(getpid());
  bool packed = g.coin(), file = g.coin(); auto name = file ? std::string("plan.%p.json") : std::string("data.%p.json");
  for (auto& a : {std::string("--vt_lb_data"), "--vt_lb_data_dir=" + dir, "--vt_lb_data_file=" + name}) c.args.push_back(a);
  if (!packed) c.args.push_back("--vt_lb_data_compress=0");
  Prog Q = P; static std::vector<int64_t> plan;
  rt::run(g, c, [&](int me) { P = Q; col::by_dim<Run>(P.s[0], me); });
  plan.assign(8 * 64, 0); int moved = 0; for (int ph = 0; ph < (int)Q.ph.size(); ph++) for (int e = 0; e < 64; e++) { plan[(size_t)(ph * 64 + e)] = where(ph, e); moved += ph && where(ph, e) != where(ph - 1, e); }
  // the same program, with other balancers' choices replaced by what was recorded
  P = Q; P.offline = 1; for (auto& F : P.ph) { F.lb = "OfflineLB"; F.args = ""; F.bcast = g.coin(); for (auto& u : F.us) if (g.chance(1, 4)) u = (int)g.range(0, 3000); }
  auto n = d.args.size(); configure(g, d, "off"); for (auto& a : d.args) if (a == "--vt_lb_interval=1") a = "--vt_lb_interval=" + std::to_string(g.range(1, 3));
  (void)n; for (auto& a : {std::string("--vt_lb_data_in"), "--vt_lb_data_dir_in=" + dir, "--vt_lb_data_file_in=" + name + (packed ? ".br" : "")}) d.args.push_back(a);
  g.note("then offline: ", rt::show(d), "\n");
  Prog R = P;
  rt::run(g, d, [&](int me) { P = R; for (int ph = 0; ph < (int)P.ph.size(); ph++) for (int e = 0; e < 64; e++) planned(ph, e) = plan[(size_t)(ph * 64 + e)]; col::by_dim<Run>(P.s[0], me); });
  g.nontrivial(P.n > 1 && moved);
}

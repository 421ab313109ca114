// variant: rt
// C32: replaying recorded workloads balances exactly the recorded objects, each where the balancers before put it
#include "common/rt.h"
#include "common/scratch.h"
#include <fstream>
#include <nlohmann/json.hpp>
#include <vt/elm/elm_id_bits.h>
#include <vt/vrt/collection/balance/lb_data_holder.h>
#include <vt/vrt/collection/balance/stats_msg.h>
#include <vt/vrt/collection/balance/workload_replay.h>
PBT_RULE("relocate: a case is up to 24 objects (some not migratable) with a home, a rank that has their recorded work and a rank where they are, over 1-8 simulated ranks; non-trivial: an object's work is neither at home nor where the object is. replay: a case is up to 24 objects with generated work in up to 4 recorded phases, recorded on ranks that change from phase to phase, given in memory or as files, and up to 6 phases replayed (each input several times or not) under a generated balancer and interval; non-trivial: a phase is replayed whose work was recorded elsewhere than the object is.");
namespace {
namespace bal = vt::vrt::collection::balance; using vt::elm::ElementIDStruct;
struct Obj { int home = 0, seq = 1; bool mig = true; std::vector<int> at; std::vector<double> load; std::vector<std::vector<double>> sub; std::vector<int> user; };
struct Prog { int n = 1, rec = 1, first = 0, phases = 1, mod = 0, interval = 1, subs = 0; bool files = false, firstlb = false, seqids = false, sparse = false, self = false; std::string lb, dir; std::vector<Obj> o; std::vector<int> here; } P;
ElementIDStruct id(Obj const& o, int cur) { return vt::elm::ElmIDBits::createCollectionImpl(o.mig, (uint64_t)o.seq, (vt::NodeType)o.home, (vt::NodeType)cur); }
vt::PhaseType input(int ph) { return (vt::PhaseType)(P.mod ? ph % P.mod : ph); }
int base() { return P.mod ? 0 : P.first; }        // the first recorded phase
std::shared_ptr<bal::LBDataHolder> holder(int me) {
  if (P.files) {
    nlohmann::json j; j["type"] = "LBDatafile"; j["phases"] = nlohmann::json::array();
    for (int p = 0; p < P.rec; p++) {
      nlohmann::json t = nlohmann::json::array();
      for (auto& o : P.o) if (o.at[(size_t)p] == me) {
        nlohmann::json x; x["node"] = me; x["resource"] = "cpu"; x["time"] = o.load[(size_t)p]; auto& e = x["entity"]; e["type"] = "object"; e["home"] = o.home; e["migratable"] = o.mig;
        if (P.seqids) { e["seq_id"] = o.seq; e["collection_id"] = 7; } else e["id"] = id(o, me).id;
        for (int s = 0; s < P.subs; s++) x["subphases"].push_back({{"id", s}, {"time", o.sub[(size_t)p][(size_t)s]}});
        if (o.user[(size_t)p]) x["user_defined"]["w"] = (double)o.user[(size_t)p];
        t.push_back(x);
      }
      nlohmann::json ph; ph["id"] = base() + p; if (!t.empty() || !P.sparse) ph["tasks"] = t; j["phases"].push_back(ph);
    }
    std::string name = vt::theConfig()->getLBDataFileIn(); { std::ofstream f(name); f << j.dump(2); }
    return bal::replay::readInWorkloads(name);
  }
  auto h = std::make_shared<bal::LBDataHolder>();
  for (int p = 0; p < P.rec; p++) {
    auto ph = (vt::PhaseType)(base() + p); if (!P.sparse) h->node_data_[ph];
    for (auto& o : P.o) if (o.at[(size_t)p] == me) { auto& d = h->node_data_[ph][id(o, me)]; d.whole_phase_load = o.load[(size_t)p]; for (auto s : o.sub[(size_t)p]) d.subphase_loads.push_back(s); if (o.user[(size_t)p]) h->user_defined_lb_info_[ph][id(o, me)]["w"] = (double)o.user[(size_t)p]; }
  }
  return h;
}
bool same(double a, double b) { return std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b)) + 1e-12; }
struct Sink { std::vector<std::vector<bal::LoadData>> got; void take(std::vector<bal::LoadData> const& v) { sim::progress(); got.push_back(v); } };
struct Sums { double load = 0, max = 0; int objs = 0; };
bool ran(int ph) { if (P.lb == "NoLB") return false; int off = P.firstlb ? 0 : 1; return ph % P.interval == off || (P.interval == 1 && ph != 0); }
std::string who(size_t k) { auto& o = P.o[k]; return pbt::cat("object ", k, " (home ", o.home, ", recorded on ", o.at[0], ", now on ", P.here[k], ")"); }

void relocate(int me) {
  auto h = holder(me); auto ph = (vt::PhaseType)base(); auto model = vt::theLBManager()->getBaseLoadModel();
  model->setLoads(&h->node_data_, &h->node_comm_, &h->user_defined_lb_info_);
  vt::runInEpochCollective([&] { model->updateLoads(ph); });
  std::set<ElementIDStruct> here; for (size_t k = 0; k < P.o.size(); k++) if (P.o[k].mig && P.here[k] == me) here.insert(id(P.o[k], me));
  std::shared_ptr<bal::LoadModel> out = bal::replay::WorkloadDataMigrator::relocateWorkloadsForReplay(model, here);
  std::vector<int> seen(P.o.size(), 0); int count = 0; bal::PhaseOffset when{bal::PhaseOffset::NEXT_PHASE, bal::PhaseOffset::WHOLE_PHASE};
  for (auto it = out->begin(); it.isValid(); ++it) {
    ElementIDStruct e = *it; size_t k = 0; while (k < P.o.size() && !(id(P.o[k], 0) == e)) k++; RT_CHECK(k < P.o.size(), "unknown", "rank ", me, " has an object never recorded"); count++;
    int should = P.o[k].mig ? P.here[k] : P.o[k].at[0]; RT_CHECK(should == me, "placement", "the work of ", who(k), " is found on rank ", me); RT_CHECK(!seen[k]++, "twice", "rank ", me, " has the work of ", who(k), " twice");
    RT_CHECK(e.curr_node == me, "current", "rank ", me, " has ", who(k), " with current rank ", e.curr_node);
    RT_CHECK(same(out->getModeledLoad(e, when), P.o[k].load[0]), "load", who(k), " has load ", out->getModeledLoad(e, when), " instead of ", P.o[k].load[0]);
    RT_CHECK(same(out->getRawLoad(e, when), P.o[k].load[0]), "raw load", who(k), " has raw load ", out->getRawLoad(e, when), " instead of ", P.o[k].load[0]);
    for (int s = 0; s < P.subs; s++) RT_CHECK(same(out->getModeledLoad(e, {bal::PhaseOffset::NEXT_PHASE, (unsigned)s}), P.o[k].sub[0][(size_t)s]), "subphase load", who(k), " has load ", out->getModeledLoad(e, {bal::PhaseOffset::NEXT_PHASE, (unsigned)s}), " in subphase ", s, " instead of ", P.o[k].sub[0][(size_t)s]);
    auto u = out->getUserData(e, when); int w = 0; if (u.count("w")) { if (auto* q = std::get_if<int>(&u["w"])) w = *q; else if (auto* q = std::get_if<double>(&u["w"])) w = (int)*q; } RT_CHECK(w == P.o[k].user[0], "user data", who(k), " has user data ", w, " instead of ", P.o[k].user[0]);
  }
  for (size_t k = 0; k < P.o.size(); k++) { int should = P.o[k].mig ? P.here[k] : P.o[k].at[0]; RT_CHECK(should != me || seen[k], "lost", "rank ", me, " does not have the work of ", who(k)); }
  RT_CHECK(out->getNumObjects() == count, "count", "rank ", me, " counts ", out->getNumObjects(), " objects and has ", count);
  vt::theCollective()->barrier(); vt::theLBManager()->setLoadModel(vt::theLBManager()->getBaseLoadModel()); static bal::LBDataHolder none; vt::theLBManager()->getBaseLoadModel()->setLoads(&none.node_data_, &none.node_comm_, &none.user_defined_lb_info_);
}

void replay(int me) {
  auto h = holder(me); auto sink = vt::theObjGroup()->makeCollective<Sink>("c32"); auto cb = vt::theCB()->makeBcast<&Sink::take>(sink);
  bal::replay::replayWorkloads((vt::PhaseType)P.first, (vt::PhaseType)P.phases, (vt::PhaseType)P.mod, h, cb);
  auto& got = sink.get()->got; size_t at = 0; auto& info = *vt::theLBManager()->getPhaseInfo();
  std::vector<int> pos; for (auto& o : P.o) pos.push_back(o.at[input(P.first) - (vt::PhaseType)base()]);
  bool exact = P.lb == "RotateLB" || P.lb == "TestSerializationLB" || P.lb == "NoLB"; int mig = 0; for (auto& o : P.o) mig += o.mig;
  for (int ph = P.first; ph < P.first + P.phases; ph++) {
    size_t in = input(ph) - (size_t)base(); bool lb = ran(ph); std::vector<Sums> pre((size_t)P.n), post((size_t)P.n); double all = 0, top = 0; bool full = exact;
    for (size_t k = 0; k < P.o.size(); k++) {
      auto& o = P.o[k]; if (!o.mig) pos[k] = o.at[in]; int b = pos[k], a = b; if (lb && o.mig && P.lb == "RotateLB") a = (b + 1) % P.n; pos[k] = a; double l = o.load[in]; all += l; top = std::max(top, l);
      pre[(size_t)b].load += l; pre[(size_t)b].objs++; post[(size_t)a].load += l; post[(size_t)a].objs++;
    }
    auto max = [](auto& v) { double m = 0; for (auto& x : v) m = std::max(m, x.load); return m; };
    auto min = [](auto& v) { double m = 1e300; for (auto& x : v) m = std::min(m, x.load); return m; };
    if (ph == P.first + P.phases - 1) {
      RT_CHECK(info.phase == (vt::PhaseType)ph, "report", "after phase ", ph, " the report is of phase ", info.phase); RT_CHECK(info.ran_lb == lb, "report", "phase ", ph, ": balanced ", info.ran_lb, " instead of ", lb);
      RT_CHECK(same(info.avg_load, all / P.n), "report", "phase ", ph, ": average load ", info.avg_load, " instead of ", all / P.n); RT_CHECK(same(info.max_obj, top), "report", "phase ", ph, ": largest object ", info.max_obj, " instead of ", top);
      if (exact) RT_CHECK(same(info.max_load, max(pre)), "report", "phase ", ph, ": maximum load ", info.max_load, " instead of ", max(pre));
      if (lb && P.lb == "RotateLB" && P.n > 1) RT_CHECK(info.migration_count == mig, "report", "phase ", ph, ": ", info.migration_count, " migrations instead of ", mig);
    }
    if (!lb) continue;
    RT_CHECK(at < got.size(), "statistics", "no statistics after phase ", ph, " was balanced"); auto& v = got[at++]; int found = 0;
    for (auto& d : v) {
      auto kind = d.stat_; using S = vt::vrt::collection::lb::Statistic;
      if (kind == S::Rank_load_modeled || kind == S::Rank_load_raw) {
        found |= kind == S::Rank_load_modeled ? 1 : 2; RT_CHECK(d.N_ == P.n, "statistics", "phase ", ph, ": loads of ", d.N_, " ranks"); RT_CHECK(same(d.sum(), all), "statistics", "after phase ", ph, " the total load is ", d.sum(), " instead of ", all);
        if (full) { RT_CHECK(same(d.max(), max(post)), "statistics", "after phase ", ph, " the maximum load is ", d.max(), " instead of ", max(post)); RT_CHECK(same(d.min(), min(post)), "statistics", "after phase ", ph, " the minimum load is ", d.min(), " instead of ", min(post)); double m = all / P.n, q = 0; for (auto& x : post) q += (x.load - m) * (x.load - m); RT_CHECK(std::fabs(d.var() - q / P.n) <= 1e-6 * (q / P.n) + 1e-9, "statistics", "after phase ", ph, " the variance of the loads is ", d.var(), " instead of ", q / P.n); }
      } else if (kind == S::Object_load_modeled || kind == S::Object_load_raw) {
        found |= kind == S::Object_load_modeled ? 4 : 8; RT_CHECK(same(d.sum(), all), "statistics", "after phase ", ph, " the objects have a load of ", d.sum(), " instead of ", all); RT_CHECK(same(d.max(), top), "statistics", "after phase ", ph, " the largest object has a load of ", d.max(), " instead of ", top);
        if (full) { int empty = 0; for (auto& x : post) empty += x.objs == 0; RT_CHECK(d.N_ == (int)P.o.size() + empty, "statistics", "after phase ", ph, " there are ", d.N_ - empty, " objects instead of ", P.o.size()); }
      }
    }
    RT_CHECK((found & 5) == 5, "statistics", "after phase ", ph, " the statistics lack the loads");
  }
  RT_CHECK(at == got.size(), "statistics", "statistics came ", got.size(), " times instead of ", at);
  vt::theCollective()->barrier(); static bal::LBDataHolder none; vt::theLBManager()->setLoadModel(vt::theLBManager()->getBaseLoadModel()); vt::theLBManager()->getBaseLoadModel()->setLoads(&none.node_data_, &none.node_comm_, &none.user_defined_lb_info_);
}

rt::Cfg setup(pbt::Gen& g, int phases) {
  auto c = rt::gen(g, rt::Opt{1, 8, false}); P = Prog{}; P.n = c.sim.n; P.files = g.coin(); P.seqids = P.files && g.coin(); P.sparse = g.chance(1, 3); P.subs = (int)g.weighted({3, 1, 1, 1}); P.rec = phases;
  int N = (int)g.range(1, 24); std::vector<int> seq((size_t)P.n, 0); int spread = (int)g.draw(2);
  for (int k = 0; k < N; k++) {
    Obj o; o.home = (int)g.draw((uint64_t)P.n - 1); o.seq = ++seq[(size_t)o.home]; o.mig = !g.chance(1, 6); int at = spread == 0 ? o.home : (int)g.draw((uint64_t)P.n - 1);
    for (int p = 0; p < phases; p++) {
      if (p && spread && o.mig && g.chance(1, 2)) at = (int)g.draw((uint64_t)P.n - 1);
      o.at.push_back(at); o.load.push_back(g.chance(1, 8) ? 0. : (double)g.range(1, 1 << 20) / 4096.); std::vector<double> s; for (int q = 0; q < P.subs; q++) s.push_back((double)g.draw(4096) / 64.); o.sub.push_back(s); o.user.push_back(g.chance(1, 3) ? (int)g.range(1, 1000) : 0);
    }
    P.o.push_back(o);
  }
  if (P.files) { g.label("from files"); } if (P.subs) { g.label("subphases"); } if (P.sparse) { g.label("ranks without records"); }
  P.dir = standalone::scratch(); c.args.push_back(pbt::cat("--vt_lb_data_dir_in=", P.dir)); c.args.push_back("--vt_lb_data_file_in=c32.%p.json");
  return c;
}
void tell(pbt::Gen& g, rt::Cfg const& c) {
  g.note(rt::show(c)); g.note(P.files ? "files " : "memory ", P.sparse ? "sparse " : "", "subphases ", P.subs, "\n");
  for (size_t k = 0; k < P.o.size(); k++) { auto& o = P.o[k]; g.note("object ", k, o.mig ? "" : " (fixed)", " home ", o.home, " at"); for (size_t p = 0; p < o.at.size(); p++) g.note(" ", o.at[p], ":", o.load[p]); if (k < P.here.size()) g.note(" here ", P.here[k]); g.note("\n"); }
}
} // namespace

PBT_TARGET(relocate, Isolated, 1500, 60000) {
  auto c = setup(g, 1); P.first = (int)g.draw(3);
  for (auto& o : P.o) { int w = (int)g.draw(3); P.here.push_back(w == 0 ? o.home : w == 1 ? o.at[0] : (int)g.draw((uint64_t)P.n - 1)); if (o.mig && o.at[0] != o.home && P.here.back() != o.home && P.here.back() != o.at[0]) g.nontrivial(); }
  tell(g, c); rt::run(g, c, relocate);
}
PBT_TARGET(replay, Isolated, 800, 60000) {
  auto c = setup(g, (int)g.range(1, 4)); static char const* const names[] = {"RotateLB", "GreedyLB", "RandomLB", "TemperedLB", "HierarchicalLB", "TestSerializationLB", "NoLB"};
  P.lb = names[g.weighted({6, 1, 1, 1, 1, 1, 1})]; g.label(P.lb);
  if (g.coin()) { P.mod = P.rec; P.first = (int)g.draw(5); P.phases = (int)g.range(1, 6); g.label("inputs repeat"); } else { P.first = (int)g.draw(5); P.phases = (int)g.range(1, P.rec); P.mod = 0; }
  P.interval = (int)g.pick(std::vector<int>{1, 1, 2, 3}); P.firstlb = g.coin(); P.self = P.lb == "TestSerializationLB";
  if (P.lb != "NoLB" || g.coin()) { c.args.push_back("--vt_lb"); c.args.push_back("--vt_lb_name=" + P.lb); c.args.push_back(pbt::cat("--vt_lb_interval=", P.interval)); if (P.firstlb) c.args.push_back("--vt_lb_run_lb_first_phase"); if (P.self) c.args.push_back("--vt_lb_self_migration"); }
  std::vector<int> pos; for (auto& o : P.o) pos.push_back(o.at[input(P.first) - (size_t)base()]);
  for (int ph = P.first; ph < P.first + P.phases; ph++) for (size_t k = 0; k < P.o.size(); k++) if (P.o[k].mig) { if (ph > P.first && pos[k] != P.o[k].at[input(ph) - (size_t)base()]) g.nontrivial(); if (ran(ph) && P.lb == "RotateLB") pos[k] = (pos[k] + 1) % P.n; }
  g.note(P.lb, " every ", P.interval, P.firstlb ? " from the first phase" : "", ", phases ", P.first, "+", P.phases, " of ", P.rec, " recorded, modulo ", P.mod, "\n"); tell(g, c);
  c.sim.hang_steps *= 5; c.sim.max_steps *= 5; rt::run(g, c, replay);
}

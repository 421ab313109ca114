// variant: rt
// C12: loads and messages are recorded for the object, the phase and the sub-phase they belong to
#include "common/col.h"
#include <vt/elm/elm_id_bits.h>
PBT_RULE("accounting: a case is one or two collections (up to 16 elements), one or two object groups (possibly made in a later phase) and 1-6 simulated ranks running up to 4 phases of generated message trees between elements, object groups and plain handlers, with work on a clock of each rank, sub-phases, migrations within and between phases and work outside of any task; non-trivial: several ranks, and a task sent a message to another object or an element moved. element: a case is a history of up to 60 start, stop, send, receive, sub-phase and phase steps on one record, also copied through serialization, against a map; non-trivial: two phases or two sub-phases have entries.");
namespace {
using col::Shape;
using vt::elm::ElementIDStruct; using vt::elm::ElmIDBits; using vt::elm::CommCategory;
enum Kind { ELM, OBJ, BARE, BCAST };
struct Nd { int kind, to, aux, msg, bytes, pre, post, sub, mig; std::vector<int> kids; };      // ELM: element; OBJ: rank, group in aux; BARE: rank; BCAST: collection
struct Ph { std::vector<Nd> nd; std::vector<std::array<int, 2>> roots; int main_work[8] = {}; bool bcast = false, migrates = false; };
struct Prog { Shape s[2]; int cols = 1, n = 1, groups = 1, made[2] = {0, 0}, map = 0; std::string lb; std::vector<Ph> ph; } P;
constexpr double unit = 1.0, slack = 0.25;
int total() { return P.s[0].size() + (P.cols > 1 ? P.s[1].size() : 0); }
int actors() { return total() + (P.groups + 1) * P.n; }
int obj(int g, int r) { return total() + g * P.n + r; }
int bare(int r) { return total() + P.groups * P.n + r; }
std::string actor(int a) { if (a < total()) return pbt::cat("element ", a); a -= total(); if (a < P.groups * P.n) return pbt::cat("object group ", a / P.n, " on rank ", a % P.n); return pbt::cat("the handlers of rank ", a - P.groups * P.n); }
double* D() { return reinterpret_cast<double*>(sim::shared()); }
constexpr int A = 34;
double& load(int ph, int a) { return D()[ph * 15000 + a]; }
double& sub(int ph, int a, int k) { return D()[ph * 15000 + 50 + a * 4 + k]; }
double& recs(int ph, int a) { return D()[ph * 15000 + 200 + a]; }
double& msgs(int ph, int c, int f, int t) { return D()[ph * 15000 + 300 + (c * A + f) * A + t]; }
double& bytes(int ph, int c, int f, int t) { return D()[ph * 15000 + 300 + 2 * A * A + (c * A + f) * A + t]; }
double& smsgs(int ph, int c, int f, int t) { return D()[ph * 15000 + 300 + 4 * A * A + (c * A + f) * A + t]; }
double& sbytes(int ph, int c, int f, int t) { return D()[ph * 15000 + 300 + 6 * A * A + (c * A + f) * A + t]; }
int64_t& elmid(int e) { return sim::shared()[61000 + e]; }
int64_t& ran(int ph, int k) { return sim::shared()[61100 + ph * 400 + k]; }
int64_t& loc(int e) { return sim::shared()[63000 + e]; }
int64_t& moved() { return sim::shared()[63100]; }
void send(int ph, int k);
Nd& node(int ph, int k) { return P.ph[(size_t)ph].nd[(size_t)k]; }
void go(int ph, int k) { ran(ph, k)++; sim::progress(); auto& x = node(ph, k); sim::work(x.pre * unit); for (int c : x.kids) send(ph, c); sim::work(x.post * unit); }
struct BareMsg : vt::Message { int ph = 0, k = 0; char pad[40] = {}; };
struct ObjMsg : vt::Message { int ph = 0, k = 0; char pad[24] = {}; };
void bare_msg(BareMsg* m) { go(m->ph, m->k); }
void bare_par(int ph, int k, std::vector<char> v) { RT_CHECK((int)v.size() == node(ph, k).bytes, "content", "wrong message"); go(ph, k); }
struct Grp { void msg(ObjMsg* m) { go(m->ph, m->k); } void par(int ph, int k, std::vector<char> v) { RT_CHECK((int)v.size() == node(ph, k).bytes, "content", "wrong message"); go(ph, k); } void two(int ph, int k) { go(ph, k); } };
vt::objgroup::proxy::Proxy<Grp> grp[2];
template <class I> struct Elm : vt::Collection<Elm<I>, I> {
  struct Msg : vt::CollectionMessage<Elm> { int ph = 0, k = 0; char pad[16] = {}; };
  static inline vt::CollectionProxy<Elm<I>, I> proxy[2];
  int me() { int w = P.cols > 1 && this->getCollectionProxy().getProxy() == proxy[1].getProxy(); return w * P.s[0].size() + col::Ix<I>::lin(P.s[w], this->getIndex()); }
  static auto at(int e) { int w = e >= P.s[0].size(); return proxy[w](col::Ix<I>::at(P.s[w], w ? e - P.s[0].size() : e)); }
  void run(int ph, int k) {
    auto& x = node(ph, k); if (x.kind == ELM) RT_CHECK(x.to == me(), "misdelivered", "message ", k, " of phase ", ph);
    this->getLBData().setSubPhase((vt::SubphaseType)x.sub);
    if (x.mig >= 0 && x.mig < P.n && x.mig != sim::rank()) { moved() = 1; this->migrate((vt::NodeType)x.mig); }
    go(ph, k);
  }
  void msg(Msg* m) { run(m->ph, m->k); }
  void par(int ph, int k, std::vector<char> v) { RT_CHECK((int)v.size() == node(ph, k).bytes, "content", "wrong message"); run(ph, k); }
  void two(int ph, int k) { run(ph, k); }
};
template <class I> void send_elm(int ph, int k) {
  using E = Elm<I>; auto& x = node(ph, k);
  if (x.kind == ELM) { auto p = E::at(x.to); switch (x.msg) { case 0: { auto m = vt::makeMessage<typename E::Msg>(); m->ph = ph; m->k = k; p.template sendMsg<&E::msg>(m); } break; case 1: p.template send<&E::par>(ph, k, std::vector<char>((size_t)x.bytes, 'e')); break; default: p.template send<&E::two>(ph, k); } }
  else { auto p = E::proxy[x.to]; switch (x.msg) { case 0: { auto m = vt::makeMessage<typename E::Msg>(); m->ph = ph; m->k = k; p.template broadcastMsg<&E::msg>(m); } break; case 1: p.template broadcast<&E::par>(ph, k, std::vector<char>((size_t)x.bytes, 'b')); break; default: p.template broadcast<&E::two>(ph, k); } }
}
void send(int ph, int k) {
  auto& x = node(ph, k);
  if (x.kind == OBJ) { auto p = grp[x.aux][(vt::NodeType)x.to]; switch (x.msg) { case 0: { auto m = vt::makeMessage<ObjMsg>(); m->ph = ph; m->k = k; p.sendMsg<&Grp::msg>(m); } break; case 1: p.send<&Grp::par>(ph, k, std::vector<char>((size_t)x.bytes, 'o')); break; default: p.send<&Grp::two>(ph, k); } }
  else if (x.kind == BARE) { if (x.msg == 0) { auto m = vt::makeMessage<BareMsg>(); m->ph = ph; m->k = k; vt::theMsg()->sendMsg<bare_msg>((vt::NodeType)x.to, m); } else vt::theMsg()->send<bare_par>(vt::Node{(vt::NodeType)x.to}, ph, k, std::vector<char>((size_t)x.bytes, 'h')); }
  else if (P.s[0].d == 1) send_elm<vt::Index1D>(ph, k); else if (P.s[0].d == 2) send_elm<vt::Index2D>(ph, k); else send_elm<vt::Index3D>(ph, k);
}
template <class I> vt::NodeType scatter(I* i, I*, vt::NodeType n) { return (vt::NodeType)col::scatter_rank((uint64_t)i->x(), n); }
struct Want { std::vector<double> load, sub; std::vector<int> n; std::vector<double> lo, hi; };
// what the record of phase ph has to be
Want want(int ph) {
  Want w; w.load.assign(A, 0); w.sub.assign(A * 4, 0); w.n.assign(2 * A * A, 0); w.lo.assign(2 * A * A, 0); w.hi.assign(2 * A * A, 0);
  auto& F = P.ph[(size_t)ph]; std::vector<std::vector<int>> from(F.nd.size());
  auto targets = [&](Nd& x) { std::vector<int> t; if (x.kind == ELM) t = {x.to}; else if (x.kind == OBJ) t = {obj(x.aux, x.to)}; else if (x.kind == BARE) t = {bare(x.to)}; else for (int e = 0; e < P.s[x.to].size(); e++) t.push_back(x.to * P.s[0].size() + e); return t; };
  for (size_t k = 0; k < F.nd.size(); k++) { auto& x = F.nd[k]; for (int a : targets(x)) {
    w.load[(size_t)a] += (x.pre + x.post) * unit; w.sub[(size_t)(a * 4 + (a < total() ? x.sub : 0))] += (x.pre + x.post) * unit;
    for (int c : x.kids) { auto& y = F.nd[(size_t)c]; for (int b : targets(y)) {
      size_t i = (size_t)(((y.kind == BCAST) * A + a) * A + b); w.n[i]++;
      double size = y.msg == 0 ? (y.kind == OBJ ? sizeof(ObjMsg) : y.kind == BARE ? sizeof(BareMsg) : P.s[0].d == 1 ? sizeof(Elm<vt::Index1D>::Msg) : P.s[0].d == 2 ? sizeof(Elm<vt::Index2D>::Msg) : sizeof(Elm<vt::Index3D>::Msg)) : 0;
      if (y.msg == 0) { w.lo[i] += size; w.hi[i] += size; } else { w.lo[i] += 8 + (y.msg == 1 ? y.bytes : 0); w.hi[i] += 512 + (y.msg == 1 ? y.bytes : 0); }
    } }
  } }
  return w;
}
int find(ElementIDStruct id) {
  for (int e = 0; e < total(); e++) if (elmid(e) == (int64_t)id.id) return e;
  for (int r = 0; r < P.n; r++) { for (int g = 0; g < P.groups; g++) if (grp[g].getProxy() && id == ElmIDBits::createObjGroup(grp[g].getProxy(), (vt::NodeType)r)) return obj(g, r); if (id == ElmIDBits::createBareHandler((vt::NodeType)r)) return bare(r); }
  return -1;
}
template <class I> struct Run { static void run(Shape, int me) {
  int N = total();
  for (int w = 0; w < P.cols; w++) { auto c = vt::makeCollection<Elm<I>>("c12"); c.bounds(col::Ix<I>::range(P.s[w])).bulkInsert(); if (P.map) c.template mapperFunc<scatter<I>>(); Elm<I>::proxy[w] = c.wait(); }
  auto locals = [&](auto f) { for (int w = 0; w < P.cols; w++) for (auto& x : vt::theCollection()->getLocalIndices(Elm<I>::proxy[w])) f(w * P.s[0].size() + col::Ix<I>::lin(P.s[w], x), w, x); };
  locals([&](int e, int w, I x) { elmid(e) = (int64_t)Elm<I>::proxy[w](x).tryGetLocalPtr()->getElmID().id; });
  vt::theCollective()->barrier();
  for (int ph = 0; ph < (int)P.ph.size(); ph++) {
    auto& F = P.ph[(size_t)ph];
    for (int g = 0; g < P.groups; g++) if (P.made[g] == ph) { grp[g] = vt::theObjGroup()->makeCollective<Grp>("grp"); vt::theCollective()->barrier(); }
    for (int round = 0; round < 2; round++) {
      sim::work(F.main_work[me] * unit);
      vt::runInEpochCollective([&] { sim::work(F.main_work[(me + 1) % 8] * unit); for (auto& r : F.roots) if (r[0] == me * 2 + round) send(ph, r[1]); sim::work(F.main_work[(me + 3) % 8] * unit); });
    }
    for (int k = 0; k < (int)F.nd.size(); k++) { auto& x = F.nd[(size_t)k]; int times = x.kind == BCAST ? P.s[x.to].size() : 1; RT_CHECK(ran(ph, k) == times, "delivery", "message ", k, " of phase ", ph, " ran ", ran(ph, k), " times instead of ", times); }
    locals([&](int e, int, I) { loc(e) = me; });
    vt::theCollective()->barrier();
    sim::work(F.main_work[(me + 2) % 8] * unit);
    vt::thePhase()->nextPhaseCollective();
    auto data = vt::theNodeLBData(); auto it = data->getNodeLoad()->find((vt::PhaseType)ph);
    RT_CHECK(it != data->getNodeLoad()->end(), "missing", "rank ", me, " has no loads of phase ", ph);
    for (auto& [id, l] : it->second) {
      int a = find(id); if (a < 0) { RT_CHECK(ElmIDBits::getControlBits(id.id) < vt::elm::CollectionNonMigratable, "unknown", "phase ", ph, " has a record of an unknown element"); continue; }
      RT_CHECK(a < N ? loc(a) == me : (a - N) % P.n == me, "rank", "phase ", ph, " has a record of ", actor(a), " on rank ", me);
      recs(ph, a)++; load(ph, a) += l.whole_phase_load;
      for (size_t k = 0; k < l.subphase_loads.size(); k++) { RT_CHECK(k < 4, "sub-phase", "phase ", ph, " has a load of ", actor(a), " in sub-phase ", k); sub(ph, a, (int)k) += l.subphase_loads[k]; }
    }
    auto take = [&](auto& map, auto&& n, auto&& b) { for (auto& [key, v] : map) {
      int f = find(key.from_), t = find(key.to_);
      if (f < N && t < N && (f < 0 || t < 0)) continue;           // runtime objects
      if (f < 0 || t < 0) continue;
      RT_CHECK(key.cat_ == CommCategory::SendRecv || key.cat_ == CommCategory::Broadcast, "category", "phase ", ph, " has messages of category ", (int)key.cat_, " from ", actor(f), " to ", actor(t));
      if (t >= N) RT_CHECK(key.to_.curr_node == (t - N) % P.n, "messages", "phase ", ph, " has ", actor(t), " as a receiver on rank ", key.to_.curr_node);
      int c = key.cat_ == CommCategory::Broadcast; n(ph, c, f, t) += (double)v.messages; b(ph, c, f, t) += v.bytes;
    } };
    auto ci = data->getNodeComm()->find((vt::PhaseType)ph); if (ci != data->getNodeComm()->end()) take(ci->second, msgs, bytes);
    auto si = data->getNodeSubphaseComm()->find((vt::PhaseType)ph); if (si != data->getNodeSubphaseComm()->end()) for (auto& [k, m] : si->second) { (void)k; take(m, smsgs, sbytes); }
    vt::theCollective()->barrier();
    auto w = want(ph);
    if (me == 0) for (int a = 0; a < actors(); a++) {
      bool made = a < N || a >= N + P.groups * P.n || P.made[(a - N) / P.n] <= ph;
      RT_CHECK(recs(ph, a) == (made ? 1 : 0), made && recs(ph, a) == 0 ? "missing" : "record", "phase ", ph, " has ", recs(ph, a), " records of ", actor(a));
      RT_CHECK(load(ph, a) >= w.load[(size_t)a] - 1e-6 && load(ph, a) <= w.load[(size_t)a] + slack, "load", "phase ", ph, " records a load of ", load(ph, a), " for ", actor(a), ", whose tasks ran ", w.load[(size_t)a]);
      for (int k = 0; k < 4; k++) RT_CHECK(sub(ph, a, k) >= w.sub[(size_t)(a * 4 + k)] - 1e-6 && sub(ph, a, k) <= w.sub[(size_t)(a * 4 + k)] + slack, "sub-phase", "phase ", ph, " records a load of ", sub(ph, a, k), " for ", actor(a), " in sub-phase ", k, ", whose tasks ran ", w.sub[(size_t)(a * 4 + k)]);
      for (int c = 0; c < 2; c++) for (int b = 0; b < actors(); b++) {
        size_t i = (size_t)((c * A + a) * A + b); char const* h = c ? " broadcasts" : " messages"; bool handlers = b >= N + P.groups * P.n;
        if (handlers) RT_CHECK((a < N + P.groups * P.n && !F.bcast ? msgs(ph, c, a, b) == w.n[i] : msgs(ph, c, a, b) >= w.n[i]) && bytes(ph, c, a, b) >= w.lo[i], "messages", "phase ", ph, " records ", msgs(ph, c, a, b), h, " from ", actor(a), " (", bytes(ph, c, a, b), " bytes) to ", actor(b), ", of ", w.n[i], " (", w.lo[i], "..", w.hi[i], ")");
        else {
          RT_CHECK(msgs(ph, c, a, b) == w.n[i], "messages", "phase ", ph, " records ", msgs(ph, c, a, b), h, " from ", actor(a), " to ", actor(b), " instead of ", w.n[i]);
          RT_CHECK(bytes(ph, c, a, b) >= w.lo[i] && bytes(ph, c, a, b) <= w.hi[i], "bytes", "phase ", ph, " records ", bytes(ph, c, a, b), " bytes in ", w.n[i], h, " from ", actor(a), " to ", actor(b), ", expected ", w.lo[i], "..", w.hi[i]);
        }
        RT_CHECK(smsgs(ph, c, a, b) == msgs(ph, c, a, b) && std::fabs(sbytes(ph, c, a, b) - bytes(ph, c, a, b)) < 1e-6, "sub-phase", "phase ", ph, " records ", msgs(ph, c, a, b), h, " (", bytes(ph, c, a, b), " bytes) from ", actor(a), " to ", actor(b), " but ", smsgs(ph, c, a, b), " (", sbytes(ph, c, a, b), " bytes) in its sub-phases");
      }
    }
    vt::theCollective()->barrier();
  }
} };
int tree(pbt::Gen& g, Ph& F, int depth, int budget) {
  Nd x{}; x.mig = -1; int k = (int)F.nd.size();
  switch (g.weighted({5, 2, 2, F.bcast ? 1u : 0u})) { case 0: x.kind = ELM; x.to = (int)g.draw((uint64_t)total() - 1); break; case 1: x.kind = OBJ; x.aux = (int)g.draw((uint64_t)P.groups - 1); x.to = (int)g.draw((uint64_t)P.n - 1); break; case 2: x.kind = BARE; x.to = (int)g.draw((uint64_t)P.n - 1); break; default: x.kind = F.bcast ? BCAST : ELM; x.to = F.bcast ? (int)g.draw((uint64_t)P.cols - 1) : 0; }
  x.msg = (int)g.draw(2); x.bytes = g.chance(1, 6) ? (int)g.range(500, 4000) : (int)g.range(0, 60);
  x.pre = (int)g.draw(3); x.post = g.chance(1, 3) ? (int)g.draw(3) : 0; x.sub = g.chance(1, 3) ? (int)g.draw(3) : 0;
  F.nd.push_back(x); std::vector<int> kids;
  if (depth < 4 && x.kind != BCAST) for (int i = (int)g.draw(2); i > 0 && (int)F.nd.size() < budget; i--) kids.push_back(tree(g, F, depth + 1, budget));
  F.nd[(size_t)k].kids = kids; return k;
}
void program(pbt::Gen& g, rt::Cfg& c) {
  P = Prog{}; P.n = c.sim.n; P.s[0] = col::shape(g, g.chance(1, 3) ? 3 : 10); while (P.s[0].size() > 12) { if (P.s[0].x > 1) P.s[0].x--; else P.s[0].y--; }
  P.cols = g.chance(1, 4) ? 2 : 1; P.map = g.coin();
  if (P.cols > 1) { P.s[1] = P.s[0]; P.s[1].x = 1; if (P.s[0].d == 1) P.s[1].x = (int)g.range(1, 4); else { P.s[1].y = (int)g.range(1, 3); P.s[1].z = 1; } }
  P.groups = (int)g.range(1, 2); while (actors() > A) { P.groups = 1; if (actors() > A) { P.cols = 1; if (actors() > A) P.s[0].x = 1; } }
  int phases = (int)g.range(1, 4); if (P.groups == 2 && g.coin()) P.made[1] = (int)g.draw((uint64_t)phases - 1);
  static char const* const lbs[] = {"", "RotateLB", "RandomLB", "GreedyLB", "NoLB"}; P.lb = lbs[g.weighted({2, 3, 1, 1, 1})];
  if (P.lb.size()) for (auto& a : {std::string("--vt_lb"), std::string("--vt_lb_quiet"), "--vt_lb_name=" + P.lb, std::string("--vt_lb_interval=1"), std::string("--vt_lb_run_lb_first_phase")}) c.args.push_back(a);
  bool wander = g.coin();       // (elements which moved by themselves may be missed by broadcasts until balancing moves others)
  for (int p = 0; p < phases; p++) {
    Ph F; int cols = P.groups; if (P.made[1] > p) P.groups = 1;      // generate only for groups which exist
    F.bcast = !wander && g.coin(); F.migrates = wander && g.coin();
    for (int i = (int)g.range(0, 8); i > 0 && F.nd.size() < 36; i--) { int at = (int)g.draw((uint64_t)P.n * 2 - 1); int k = tree(g, F, 0, 36); F.roots.push_back({at, k}); }
    if (F.migrates) { std::set<int> done; for (auto& x : F.nd) if (x.kind == ELM && !done.count(x.to) && g.coin()) { done.insert(x.to); x.mig = (int)g.draw((uint64_t)P.n - 1); } }
    for (auto& m : F.main_work) m = g.chance(1, 4) ? (int)g.range(1, 4) : 0;
    P.groups = cols; P.ph.push_back(F);
  }
}
void describe(pbt::Gen& g, rt::Cfg const& c) {
  g.note(rt::show(c), col::show(P.s[0]), P.cols > 1 ? " and " + col::show(P.s[1]) : std::string(), " map=", P.map, " groups=", P.groups, P.made[1] ? pbt::cat(" (second made in phase ", P.made[1], ")") : std::string(), " ", P.lb, "\n");
  static char const* const kn[] = {"element ", "group ", "rank ", "broadcast "};
  for (size_t p = 0; p < P.ph.size(); p++) { auto& F = P.ph[p]; g.note("phase ", p, " main work"); for (int m : F.main_work) g.note(" ", m); g.note("\n"); for (auto& r : F.roots) g.note(" from main on rank ", r[0] / 2, " in round ", r[0] % 2, ": ", r[1], "\n"); for (size_t k = 0; k < F.nd.size(); k++) { auto& x = F.nd[k]; g.note(" ", k, ": ", kn[x.kind], x.kind == OBJ ? pbt::cat(x.aux, " on ") : std::string(), x.to, x.msg == 0 ? " message" : x.msg == 1 ? pbt::cat(" ", x.bytes, " bytes") : std::string(" two words"), " works ", x.pre, "+", x.post, x.sub ? pbt::cat(" in sub-phase ", x.sub) : std::string(), x.mig >= 0 ? pbt::cat(" and moves to ", x.mig) : std::string(), x.kids.empty() ? "" : " sends"); for (int y : x.kids) g.note(" ", y); g.note("\n"); } }
}
} // namespace

PBT_TARGET(accounting, Isolated, 400, 20000) {
  auto c = rt::gen(g, {1, 6}); if (c.sim.quantum > 10) c.sim.quantum = 10;
  c.sim.dt_ns = 1; program(g, c); describe(g, c); g.label(P.lb.empty() ? "no balancing" : P.lb);
  bool talk = false; for (auto& F : P.ph) for (auto& x : F.nd) talk |= !x.kids.empty();
  Prog Q = P;
  rt::run(g, c, [&](int me) { P = Q; col::by_dim<Run>(P.s[0], me); });
  g.nontrivial(P.n > 1 && (talk || moved()));
}

namespace {
struct Rec : vt::elm::ElementLBData { void release(vt::PhaseType p, unsigned b) { this->releaseLBDataFromUnneededPhases(p, b); } };
struct Model { std::map<vt::PhaseType, double> load; std::map<vt::PhaseType, std::map<int, double>> sub; std::map<vt::PhaseType, std::map<std::array<uint64_t, 6>, std::pair<double, double>>> comm; std::map<vt::PhaseType, std::map<int, std::map<std::array<uint64_t, 6>, std::pair<double, double>>>> scomm; vt::PhaseType ph = 0; int sp = 0; bool on = false; double t = 0; };
std::array<uint64_t, 6> flat(vt::elm::CommKey const& k) { return {k.from_.id, k.to_.id, (uint64_t)k.nfrom_, (uint64_t)k.nto_, (uint64_t)(int64_t)k.shared_id_, (uint64_t)k.cat_}; }
}
PBT_TARGET(element, InProc, 4000, 400000) {
  auto r = std::make_unique<Rec>(); Model m; int n = (int)g.range(1, 60); uint64_t const none = vt::elm::no_element_id; auto const nn = (uint64_t)(vt::NodeType)vt::uninitialized_destination; auto const ns = (uint64_t)(int64_t)vt::elm::CommKey{}.shared_id_;
  std::set<int> gone; double clock = 1; bool multi = false;
  auto id = [&](uint64_t x) { return ElementIDStruct{x, (vt::NodeType)(x % 4)}; };
  auto add = [&](std::array<uint64_t, 6> k, double b) { auto& v = m.comm[m.ph][k]; v.first++; v.second += b; auto& w = m.scomm[m.ph][m.sp][k]; w.first++; w.second += b; };
  auto time = [&](double d) { m.load[m.ph] += d; m.sub[m.ph][m.sp] += d; };
  g.note("steps:");
  for (int i = 0; i < n; i++) {
    auto a = (uint64_t)g.range(1, 4), b = (uint64_t)g.range(1, 4); double bytes = (double)g.draw(5000); bool bc = g.chance(1, 3); auto op = g.weighted({4, 4, 3, 3, 3, 2, 2, 1, 1, 5, 3, 1, 2, 1, 1}); g.note(" ", op, "/", a, "/", b);
    switch (op) {
      case 0: clock += (double)g.range(0, 8) / 4; r->start(vt::TimeType{clock}); m.on = true; m.t = clock; break;
      case 1: clock += (double)g.range(0, 8) / 4; r->stop(vt::TimeType{clock}); if (m.on) { time(clock - m.t); m.on = false; } break;
      case 2: r->sendToEntity(id(a), id(b), bytes); add({b, a, nn, nn, ns, (uint64_t)CommCategory::SendRecv}, bytes); break;
      case 3: r->recvObjData(id(a), id(b), bytes, bc); add({b, a, nn, nn, ns, (uint64_t)(bc ? CommCategory::Broadcast : CommCategory::SendRecv)}, bytes); break;
      case 4: r->recvFromNode(id(a), (vt::NodeType)b, bytes, bc); add({none, a, b, nn, ns, (uint64_t)(bc ? CommCategory::NodeToCollectionBcast : CommCategory::NodeToCollection)}, bytes); break;
      case 5: r->recvToNode((vt::NodeType)a, id(b), bytes, bc); add({b, none, nn, a, ns, (uint64_t)(bc ? CommCategory::CollectionToNodeBcast : CommCategory::CollectionToNode)}, bytes); break;
      case 6: r->addTime((double)a); time((double)a); break;
      case 7: r->addWritableSharedID((vt::NodeType)a, (int)b, bytes); add({none, none, nn, a, b, (uint64_t)CommCategory::WriteShared}, bytes); break;
      case 8: r->addReadOnlySharedID((vt::NodeType)a, (int)b, bytes); add({none, none, nn, a, b, (uint64_t)CommCategory::ReadOnlyShared}, bytes); break;
      case 9: m.sp = (int)g.draw(4); r->setSubPhase((vt::SubphaseType)m.sp); break;
      case 10: r->updatePhase(1); m.ph++; break;
      case 11: { auto d = a; r->updatePhase((vt::PhaseType)d); m.ph += (vt::PhaseType)d; } break;
      case 12: { auto back = (unsigned)g.range(1, 4); r->release(m.ph, back); if (m.ph >= back) { auto p = m.ph - back; m.load.erase(p); m.sub.erase(p); m.comm.erase(p); m.scomm.erase(p); } } break;
      case 13: { auto buf = checkpoint::serialize(static_cast<vt::elm::ElementLBData&>(*r)); auto c = std::make_unique<Rec>(); checkpoint::deserializeInPlace(buf->getBuffer(), static_cast<vt::elm::ElementLBData*>(c.get())); r = std::move(c); } break;
      default: { std::vector<double> v; int k = (int)g.range(0, 4); double sum = 0; for (int j = 0; j < k; j++) { v.push_back((double)g.draw(5)); sum += v.back(); } r->setTime(sum, v); m.load[m.ph] = sum; m.sub[m.ph].clear(); for (int j = 0; j < k; j++) m.sub[m.ph][j] = v[(size_t)j]; } break;
    }
    multi |= m.comm.size() > 1 || m.load.size() > 1 || m.sub[m.ph].size() > 1;
    PBT_CHECK(r->getPhase() == m.ph && r->getSubPhase() == m.sp, "phase", "after step ", i);
    auto near = [](double x, double y) { return std::fabs(x - y) <= 1e-9 * (std::fabs(x) + std::fabs(y)); };
    for (vt::PhaseType p = 0; p <= m.ph + 1; p++) {
      PBT_CHECK(near(r->getLoad(p), m.load.count(p) ? m.load[p] : 0.0), "load", "step ", i, ": the load of phase ", p, " is ", r->getLoad(p), ", not ", m.load.count(p) ? m.load[p] : 0.0);
      if (p > m.ph) break;
      auto const& st = r->getSubphaseTimes(p); for (size_t k = 0; k < 8; k++) { double want = m.sub.count(p) && m.sub[p].count((int)k) ? m.sub[p][(int)k] : 0; PBT_CHECK(near(k < st.size() ? st[k] : 0.0, want), "load", "step ", i, ": the load of phase ", p, ", sub-phase ", k, " is not ", want); if (k < st.size()) PBT_CHECK(near(r->getLoad(p, (vt::SubphaseType)k), want), "load", "of a sub-phase"); }
      PBT_CHECK(near(r->getLoad(p, Rec::no_subphase), m.load.count(p) ? m.load[p] : 0.0), "load", "without a sub-phase");
      auto same = [&](auto const& have, auto& want, char const* what) { PBT_CHECK(have.size() == want.size(), "messages", "step ", i, ": ", have.size(), " edges of the ", what, " in phase ", p, ", not ", want.size()); for (auto& [k, v] : have) { auto it = want.find(flat(k)); PBT_CHECK(it != want.end() && near((double)v.messages, it->second.first) && near(v.bytes, it->second.second), "messages", "step ", i, ": an edge of the ", what, " in phase ", p, " has ", v.messages, " messages and ", v.bytes, " bytes"); } };
      same(r->getComm(p), m.comm[p], "phase"); auto const& sc = r->getSubphaseComm(p); for (size_t k = 0; k < 8; k++) { static vt::elm::CommMapType const empty; same(k < sc.size() ? sc[k] : empty, m.scomm[p][(int)k], "sub-phase"); }
    }
  }
  g.nontrivial(multi);
}

// variant: san
// sources: vt/vrt/collection/balance/model/comm_overhead.cc vt/vrt/collection/balance/model/composed_model.cc vt/vrt/collection/balance/model/linear_model.cc vt/vrt/collection/balance/model/multiple_phases.cc vt/vrt/collection/balance/model/naive_persistence.cc vt/vrt/collection/balance/model/norm.cc vt/vrt/collection/balance/model/per_collection.cc vt/vrt/collection/balance/model/persistence_median_last_n.cc vt/vrt/collection/balance/model/proposed_reassignment.cc vt/vrt/collection/balance/model/raw_data.cc vt/vrt/collection/balance/model/select_subphases.cc vt/vrt/collection/balance/model/weighted_communication_volume.cc vt/vrt/collection/balance/model/weighted_messages.cc vt/vrt/collection/balance/lb_common.cc vt/elm/elm_id.cc vt/elm/elm_id_bits.cc
// C26: load models predict what their definition says, alone and composed
#include "common/standalone.h"
#include "common/context_stub.h"
#include <vt/vrt/collection/balance/model/raw_data.h>
#include <vt/vrt/collection/balance/model/naive_persistence.h>
#include <vt/vrt/collection/balance/model/persistence_median_last_n.h>
#include <vt/vrt/collection/balance/model/linear_model.h>
#include <vt/vrt/collection/balance/model/multiple_phases.h>
#include <vt/vrt/collection/balance/model/norm.h>
#include <vt/vrt/collection/balance/model/comm_overhead.h>
#include <vt/vrt/collection/balance/model/weighted_messages.h>
#include <vt/vrt/collection/balance/model/weighted_communication_volume.h>
#include <vt/vrt/collection/balance/model/per_collection.h>
#include <vt/vrt/collection/balance/model/select_subphases.h>
#include <vt/vrt/collection/balance/model/proposed_reassignment.h>
#include <vt/vrt/collection/balance/node_lb_data.h>
#include <vt/elm/elm_id_bits.h>
#include <optional>
PBT_RULE("A case records up to 7 phases of loads (objects may be absent in some phases and have different numbers of sub-phases), communication of every category and user data, and builds a random stack of up to 6 models over it, with per-collection sub-stacks. Every object is asked at many phase offsets and sub-phases, with the whole history and with only the history the stack says it needs, and the answers are compared with an interpreter of the models' definitions. Non-trivial: at least one object and a stack of two or more models.");
using namespace vt; using namespace vt::vrt::collection::balance;
namespace {
using Id = ElementIDStruct;
std::map<uint64_t, VirtualProxyType> collection_of;
}
namespace vt {
vrt::collection::balance::NodeLBData* theNodeLBData() { alignas(16) static unsigned char mem[sizeof(vrt::collection::balance::NodeLBData)]; return reinterpret_cast<vrt::collection::balance::NodeLBData*>(mem); }
namespace vrt { namespace collection { namespace balance {
VirtualProxyType NodeLBData::getCollectionProxyForElement(ElementIDStruct o) const { auto i = collection_of.find(o.id); return i == collection_of.end() ? no_vrt_proxy : i->second; }
}}}}
namespace {
constexpr unsigned WHOLE = PhaseOffset::WHOLE_PHASE;
struct History {
  std::unordered_map<PhaseType, LoadMapType> load; std::unordered_map<PhaseType, CommMapType> comm; std::unordered_map<PhaseType, DataMapType> data;
  int last = 0; std::vector<Id> ids;
};
enum Kind { Raw, Naive, Median, Linear, Multi, NormK, CommO, WMsg, WVol, PerColl, Select, Proposed };
char const* names[] = {"Raw", "Naive", "Median", "Linear", "Multi", "Norm", "CommOverhead", "WeightedMessages", "WeightedVolume", "PerCollection", "Select", "Proposed"};
struct MNode {
  Kind kind = Raw; int n = 0; double p = 0, a = 0, b = 0, c = 0; std::vector<unsigned> sel; std::shared_ptr<MNode> base;
  std::map<VirtualProxyType, std::shared_ptr<MNode>> subs; std::shared_ptr<Reassignment> re; std::shared_ptr<LoadModel> model;
};
using P = std::shared_ptr<MNode>; using V = std::optional<double>;
struct Ref {
  History const& h;
  double scale = 0; // the largest magnitude met, for the tolerance
  double seen(double v) { scale = std::max(scale, std::fabs(v)); return v; }
  int subphases(P const& m) {
    if (m->kind == Raw) { size_t k = 0; for (auto& [id, s] : h.load.at((PhaseType)h.last)) k = std::max(k, s.subphase_loads.size()); return (int)k; }
    if (m->kind == Select) return (int)m->sel.size();
    return subphases(m->base);
  }
  static double of(LoadSummary const& s, unsigned sub) { return sub == WHOLE ? s.whole_phase_load : sub < s.subphase_loads.size() ? s.subphase_loads[sub] : 0.; }
  // a regression line through recorded zeroes may miss zero by a rounding error of either sign
  static bool rounded(P const& m) { if (m->kind == Raw) return false; if (m->kind == Linear) return true; for (auto& [p, x] : m->subs) if (rounded(x)) return true; return rounded(m->base); }
  V raw(Id o, int ph, unsigned sub) {
    if (ph >= 0 || h.last + 1 + ph < 0) return {};
    auto& m = h.load.at((PhaseType)(h.last + 1 + ph)); auto i = m.find(o); return i == m.end() ? 0. : seen(of(i->second, sub));
  }
  V load(P const& m, Id o, int ph, unsigned sub) {
    switch (m->kind) {
    case Raw: return raw(o, ph, sub);
    case Naive: return load(m->base, o, ph >= 0 ? -1 : ph, sub);
    case Median: {
      if (ph < 0) return load(m->base, o, ph, sub);
      std::vector<double> v; for (int i = 1; i <= std::min(m->n, h.last + 1); i++) { auto x = load(m->base, o, -i, sub); if (!x) return {}; v.push_back(*x); }
      std::sort(v.begin(), v.end()); size_t k = v.size(); return (v[(k - 1) / 2] + v[k / 2]) / 2; }
    case Linear: {
      if (ph < 0) return load(m->base, o, ph, sub);
      int k = std::min(m->n, h.last + 1); if (k < 1) return {}; if (k == 1) return load(m->base, o, -1, sub); // one phase gives a level
      double sx = 0, sy = 0; std::vector<double> x, y;
      for (int i = 1; i <= k; i++) { auto v = load(m->base, o, -i, sub); if (!v) return {}; x.push_back(-i); y.push_back(*v); sx += -i; sy += *v; }
      double mx = sx / k, my = sy / k, num = 0, den = 0; for (int i = 0; i < k; i++) { num += (x[i] - mx) * (y[i] - my); den += (x[i] - mx) * (x[i] - mx); }
      double s = num / den; seen(s * (std::abs(ph) + k)); return seen(my + s * (ph - mx)); }
    case Multi: {
      if (ph < 0) return load(m->base, o, ph, sub);
      double s = 0; for (int i = 0; i < m->n; i++) { auto v = load(m->base, o, m->n * ph + i, sub); if (!v) return {}; s += *v; } return seen(s); }
    case NormK: {
      if (sub != WHOLE) return load(m->base, o, ph, sub);
      double s = 0; int k = subphases(m->base);
      for (int i = 0; i < k; i++) { auto v = load(m->base, o, ph, (unsigned)i); if (!v || *v < 0 || (*v < 1e-6 && rounded(m->base))) return {}; if (std::isinf(m->p)) s = std::max(s, *v); else s += std::pow(*v, m->p); }
      if (std::isinf(m->p)) return s;
      return seen(std::pow(s, 1 / m->p)); }
    case CommO: {
      auto w = load(m->base, o, ph, sub); if (!w || ph >= 0 || h.last + 1 + ph < 0) return {};
      double over = 0; for (auto& [k, v] : h.comm.at((PhaseType)(h.last + 1 + ph))) if (off(k) && k.to_ == o) over += m->a * (double)v.messages + m->b * v.bytes;
      seen(over); if (sub == WHOLE) return *w + over;
      auto t = load(m->base, o, ph, WHOLE); if (!t || *t <= 1e-6 || *w < 0) return {};
      return seen(*w + over * (*w / *t)); }
    case WMsg: return load(m->base, o, ph, sub);
    case WVol: { auto l = load(m->base, o, ph, sub), c = comm(m->base, o, ph, sub); if (!l || !c) return {}; return seen(m->a * *l) + seen(m->b * *c) + seen(m->c); }
    case PerColl: { auto c = collection_of.find(o.id); if (c != collection_of.end()) { auto s = m->subs.find(c->second); if (s != m->subs.end()) return load(s->second, o, ph, sub); } return load(m->base, o, ph, sub); }
    case Select: {
      if (sub != WHOLE) { if (sub >= m->sel.size()) return {}; return load(m->base, o, ph, m->sel[sub]); }
      double s = 0; for (auto x : m->sel) { auto v = load(m->base, o, ph, x); if (!v) return {}; s += *v; } return seen(s); }
    case Proposed: { auto a = m->re->arrive_.find(o); if (a != m->re->arrive_.end()) return seen(of(std::get<0>(a->second), sub)); if (m->re->depart_.count(o)) return {}; return load(m->base, o, ph, sub); }
    }
    return {};
  }
  // a transfer leaves the rank when its two ends are on different ranks; groups of receivers and shared blocks always count
  static bool off(elm::CommKey const& k) {
    switch (k.cat_) {
    case elm::CommCategory::SendRecv: return k.from_.curr_node != k.to_.curr_node;
    case elm::CommCategory::CollectionToNode: return k.from_.curr_node != k.nto_;
    case elm::CommCategory::NodeToCollection: return k.to_.curr_node != k.nfrom_;
    default: return true;
    }
  }
  V comm(P const& m, Id o, int ph, unsigned sub) {
    switch (m->kind) {
    case Raw: return 0.;
    case Naive: return comm(m->base, o, ph >= 0 ? -1 : ph, sub);
    case WMsg: {
      if (ph >= 0 || h.last + 1 + ph < 0) return {};
      auto below = comm(m->base, o, ph, sub); if (!below || (*below != 0 && sub != WHOLE)) return {};
      double in = 0, out = 0;
      for (auto& [k, v] : h.comm.at((PhaseType)(h.last + 1 + ph))) {
        if (k.cat_ != elm::CommCategory::SendRecv || !off(k)) continue;
        double w = m->a * (double)v.messages + m->b * v.bytes; if (k.to_ == o) in += w; else if (k.from_ == o) out += w; }
      double t = seen(*below + std::max(in, out)); if (sub == WHOLE) return t;
      auto l = load(m->base, o, ph, sub), all = load(m->base, o, ph, WHOLE); if (!l || !all || *all <= 1e-6 || *l < 0) return {};
      return seen(t * *l / *all); }
    case PerColl: { auto c = collection_of.find(o.id); if (c != collection_of.end() && m->subs.count(c->second)) return {}; return comm(m->base, o, ph, sub); }
    case Proposed: if (m->re->arrive_.count(o) || m->re->depart_.count(o)) return {}; return comm(m->base, o, ph, sub);
    case Select: return {};
    default: return comm(m->base, o, ph, sub);
    }
  }
  V rawload(P const& m, Id o, int ph, unsigned sub) {
    switch (m->kind) {
    case Raw: return raw(o, ph, sub);
    case Naive: return rawload(m->base, o, ph >= 0 ? -1 : ph, sub);
    case PerColl: { auto c = collection_of.find(o.id); if (c != collection_of.end()) { auto s = m->subs.find(c->second); if (s != m->subs.end()) return rawload(s->second, o, ph, sub); } return rawload(m->base, o, ph, sub); }
    case Proposed: { auto a = m->re->arrive_.find(o); if (a != m->re->arrive_.end()) return of(std::get<1>(a->second), sub); if (m->re->depart_.count(o)) return {}; return rawload(m->base, o, ph, sub); }
    default: return rawload(m->base, o, ph, sub);
    }
  }
  std::optional<ElmUserDataType> data(P const& m, Id o, int ph) {
    switch (m->kind) {
    case Raw: { if (ph >= 0 || h.last + 1 + ph < 0) return {}; auto p = h.data.find((PhaseType)(h.last + 1 + ph)); if (p == h.data.end()) return ElmUserDataType{}; auto i = p->second.find(o); return i == p->second.end() ? ElmUserDataType{} : i->second; }
    case Naive: return data(m->base, o, ph >= 0 ? -1 : ph);
    case PerColl: { auto c = collection_of.find(o.id); if (c != collection_of.end()) { auto s = m->subs.find(c->second); if (s != m->subs.end()) return data(s->second, o, ph); } return data(m->base, o, ph); }
    case Proposed: { auto a = m->re->arrive_.find(o); if (a != m->re->arrive_.end()) return std::get<2>(a->second); if (m->re->depart_.count(o)) return {}; return data(m->base, o, ph); }
    default: return data(m->base, o, ph);
    }
  }
  std::set<uint64_t> objects(P const& m) {
    std::set<uint64_t> s;
    if (m->kind == Raw) { for (auto& [id, l] : h.load.at((PhaseType)h.last)) s.insert(id.id); return s; }
    s = objects(m->base);
    if (m->kind == Proposed) { for (auto& [id, to] : m->re->depart_) s.erase(id.id); for (auto& [id, t] : m->re->arrive_) s.insert(id.id); }
    return s;
  }
};
double val(pbt::Gen& g) { return g.chance(1, 5) ? 0. : g.chance(1, 2) ? (double)g.range(1, 50) : g.real(0.01, 20); }
LoadSummary summary(pbt::Gen& g, size_t most, bool sums) {
  LoadSummary s; size_t k = g.draw(most); for (size_t i = 0; i < k; i++) s.subphase_loads.push_back(val(g));
  if (k && sums) { for (auto v : s.subphase_loads) s.whole_phase_load += v; } else s.whole_phase_load = val(g);
  return s;
}
ElmUserDataType userdata(pbt::Gen& g) { ElmUserDataType d; size_t k = g.draw(3); for (size_t i = 0; i < k; i++) { std::string key(1, (char)('a' + g.draw(3))); switch (g.draw(2)) { case 0: d[key] = (int)g.range(-5, 5); break; case 1: d[key] = val(g); break; default: d[key] = g.text(3, "xyz"); } } return d; }
std::string show(P const& m) {
  std::string s = names[m->kind]; if (m->kind == Raw) return s;
  s += pbt::cat("[", m->n ? pbt::cat(m->n) : m->kind == NormK ? pbt::cat(m->p) : m->kind == Select ? pbt::cat(m->sel.size()) : "", "](");
  for (auto& [p, x] : m->subs) s += pbt::cat(p, ":", show(x), " ");
  return s + show(m->base) + ")";
}
} // namespace
PBT_TARGET(models, InProc, 60000, 1500000) {
  int me = (int)g.range(0, 3); standalone::rank(me, 4); collection_of.clear();
  History h; h.last = (int)g.range(0, 6); size_t most = g.draw(4); bool sums = g.chance(3, 4); uint64_t seq = 0;
  auto fresh = [&](int node) { Id id = elm::ElmIDBits::createCollectionImpl(g.coin(), ++seq, (NodeType)g.draw(3), (NodeType)node); if (g.chance(3, 4)) collection_of[id.id] = 1 + g.draw(2); return id; };
  size_t no = g.size(6); for (size_t i = 0; i < no; i++) h.ids.push_back(fresh(me));
  std::vector<Id> others; for (int i = 0; i < 4; i++) others.push_back(fresh((int)g.draw(3)));
  auto any = [&]() -> Id { return !h.ids.empty() && g.chance(2, 3) ? h.ids[g.draw(h.ids.size() - 1)] : others[g.draw(3)]; };
  for (int ph = 0; ph <= h.last; ph++) {
    auto& l = h.load[(PhaseType)ph]; auto& c = h.comm[(PhaseType)ph];
    for (auto o : h.ids) if (g.chance(5, 6)) { l[o] = summary(g, most, sums); if (g.chance(1, 3)) h.data[(PhaseType)ph][o] = userdata(g); }
    size_t ne = g.size(8);
    for (size_t e = 0; e < ne; e++) {
      elm::CommKey k;
      switch (g.draw(6)) {
        case 0: case 1: case 2: k = elm::CommKey(elm::CommKey::CollectionTag{}, any(), any(), g.chance(1, 6)); break;
        case 3: k = elm::CommKey(elm::CommKey::CollectionToNodeTag{}, any(), (NodeType)g.draw(3), g.chance(1, 4)); break;
        case 4: k = elm::CommKey(elm::CommKey::NodeToCollectionTag{}, (NodeType)g.draw(3), any(), g.chance(1, 4)); break;
        case 5: k = elm::CommKey(elm::CommKey::WriteSharedTag{}, (NodeType)g.draw(3), (int)g.draw(5)); break;
        default: k = elm::CommKey(elm::CommKey::SendRecvTag{}, any(), any(), g.chance(1, 6)); break;
      }
      elm::CommVolume v; size_t n = 1 + g.draw(4); for (size_t i = 0; i < n; i++) { if (g.coin()) v.sendMsg((double)g.draw(100)); else v.receiveMsg((double)g.draw(100)); }
      c[k] += v;
    }
  }
  Ref ref{h, 0}; size_t depth = 0;
  std::function<P(int, bool)> build = [&](int more, bool spine) -> P {
    auto m = std::make_shared<MNode>();
    if (more == 0) { m->kind = Raw; m->model = std::make_shared<RawData>(); return m; }
    m->base = build(more - 1, spine); auto& b = m->base->model; depth++;
    int kind = 1 + (int)g.draw(10); if (spine && g.chance(1, 8)) kind = Proposed; m->kind = (Kind)kind;
    auto weight = [&] { return g.chance(1, 5) ? 0. : g.chance(1, 2) ? (double)g.range(1, 4) : g.real(0, 3); };
    switch (m->kind) {
    case Naive: m->model = std::make_shared<NaivePersistence>(b); break;
    case Median: m->n = (int)g.range(1, 5); m->model = std::make_shared<PersistenceMedianLastN>(b, (unsigned)m->n); break;
    case Linear: m->n = (int)g.range(2, 6); m->model = std::make_shared<LinearModel>(b, (unsigned)m->n); break;
    case Multi: m->n = (int)g.range(1, 3); m->model = std::make_shared<MultiplePhases>(b, m->n); break;
    case NormK: m->p = g.chance(1, 4) ? std::numeric_limits<double>::infinity() : g.chance(1, 2) ? (double)g.range(1, 4) : g.real(0.5, 5); m->model = std::make_shared<Norm>(b, m->p); break;
    case CommO: m->a = weight(); m->b = weight(); m->model = std::make_shared<CommOverhead>(b, m->a, m->b); break;
    case WMsg: m->a = weight(); m->b = weight(); m->model = std::make_shared<WeightedMessages>(b, m->a, m->b); break;
    case WVol: m->a = weight(); m->b = weight(); m->c = weight(); m->model = std::make_shared<WeightedCommunicationVolume>(b, m->a, m->b, m->c); break;
    case PerColl: { auto pc = std::make_shared<PerCollection>(b); size_t k = g.draw(2); for (size_t i = 0; i < k; i++) { auto s = build((int)g.draw(2), false); auto pr = 1 + g.draw(2); if (m->subs.count(pr)) continue; m->subs[pr] = s; pc->addModel(pr, s->model); } m->model = pc; break; }
    case Select: { int k = ref.subphases(m->base); if (k) { size_t n = g.draw(4); for (size_t i = 0; i < n; i++) m->sel.push_back((unsigned)g.draw((uint64_t)k - 1)); } m->model = std::make_shared<SelectSubphases>(b, m->sel); break; }
    case Proposed: {
      auto r = std::make_shared<Reassignment>(); r->node_ = (NodeType)me; r->global_migration_count = 0;
      auto present = ref.objects(m->base); size_t ns = (size_t)ref.subphases(m->base);
      auto arrive = [&](Id id) { LoadSummary a = summary(g, ns, sums), b2 = summary(g, ns, sums); r->arrive_[id] = std::make_tuple(a, b2, userdata(g)); };
      for (auto id : std::vector<Id>(h.ids)) if (present.count(id.id) && g.chance(1, 3)) { r->depart_[id] = (NodeType)g.draw(3); if (g.chance(1, 4)) arrive(id); }
      size_t k = g.draw(2); for (size_t i = 0; i < k; i++) { Id id = fresh((int)g.draw(3)); h.ids.push_back(id); arrive(id); }
      m->re = r; m->model = std::make_shared<ProposedReassignment>(b, r); break; }
    default: break;
    }
    return m;
  };
  P top = build((int)g.draw(5), true);
  if (no && depth >= 1) g.nontrivial();
  g.note(pbt::cat(no, " objects, ", h.last + 1, " phases, ", show(top)));
  auto& M = *top->model;
  auto check = [&](int deepest, char const* how) {
    auto near = [&](double got, double want) { double tol = 1e-7 * std::max(1., std::max(ref.scale, std::fabs(want))); return std::fabs(got - want) <= tol; };
    auto want_objs = ref.objects(top); std::multiset<uint64_t> seen; for (auto o : M) { seen.insert(o.id); if (seen.size() > 1000) break; }
    PBT_CHECK((std::multiset<uint64_t>(want_objs.begin(), want_objs.end()) == seen), "iteration", "the objects iterated differ from those recorded: ", seen.size(), " visited, ", want_objs.size(), " expected for ", show(top));
    PBT_CHECK(M.getNumObjects() == (int)want_objs.size(), "count", M.getNumObjects(), " objects reported, ", want_objs.size(), " exist");
    PBT_CHECK(M.getNumCompletedPhases() == (unsigned)h.last + 1, "completed", M.getNumCompletedPhases(), " completed phases of ", h.last + 1);
    int ns = ref.subphases(top); PBT_CHECK(M.getNumSubphases() == ns, "subphases", M.getNumSubphases(), " sub-phases, recorded ", ns);
    PBT_CHECK(M.hasRawLoad() && M.hasUserData(), "has-raw", "a stack over recorded data claims to have no raw loads or user data");
    for (auto o : h.ids) {
      for (int ph = -deepest; ph <= 3; ph++) {
        for (int s = -1; s < ns; s++) {
          unsigned sub = s < 0 ? WHOLE : (unsigned)s; ref.scale = 0; PhaseOffset when{ph, sub};
          auto what = [&] { return pbt::cat(how, ": object ", o.id, " at phase offset ", ph, s < 0 ? std::string() : pbt::cat(" sub-phase ", s), " of ", show(top)); };
          if (auto w = ref.load(top, o, ph, sub)) { double got = M.getModeledLoad(o, when); PBT_CHECK(near(got, *w), "load", what(), " is modeled as ", got, ", by definition ", *w); }
          if (auto w = ref.comm(top, o, ph, sub)) { double got = M.getModeledComm(o, when); PBT_CHECK(near(got, *w), "comm", what(), " has communication ", got, ", by definition ", *w); }
          if (auto w = ref.rawload(top, o, ph, sub)) { double got = M.getRawLoad(o, when); PBT_CHECK(got == *w, "raw-load", what(), " has raw load ", got, ", recorded ", *w); }
        }
        if (auto w = ref.data(top, o, ph)) { auto got = M.getUserData(o, {ph, WHOLE}); PBT_CHECK(got == *w, "user-data", "the user data of object ", o.id, " at offset ", ph, " differs from the recorded"); PBT_CHECK(getObjectUserData(&M, o, {ph, WHOLE}) == *w, "user-data", "getObjectUserData differs"); }
        // the summary used for objects that move: the whole phase and each sub-phase
        bool all = true; std::vector<double> want; ref.scale = 0; for (int s = -1; s < ns; s++) { auto w = ref.load(top, o, ph, s < 0 ? WHOLE : (unsigned)s); if (!w) { all = false; break; } want.push_back(*w); }
        if (all) { auto got = getObjectLoads(&M, o, {ph, WHOLE}); PBT_CHECK(got.subphase_loads.size() == (size_t)ns && near(got.whole_phase_load, want[0]), "summary", "getObjectLoads of object ", o.id, " at ", ph, " gives ", got.whole_phase_load, " and ", got.subphase_loads.size(), " sub-phases"); for (int s = 0; s < ns; s++) PBT_CHECK(near(got.subphase_loads[(size_t)s], want[(size_t)s + 1]), "summary", "getObjectLoads of object ", o.id, " at ", ph, " sub-phase ", s, " gives ", got.subphase_loads[(size_t)s], ", by definition ", want[(size_t)s + 1]); }
      }
    }
    for (int ph = -deepest; ph <= 0; ph++) {
      auto c = M.getComm({ph, WHOLE}); if (ph < 0) { auto& want = h.comm.at((PhaseType)(h.last + 1 + ph)); bool same = c.size() == want.size(); if (same) for (auto& [k, v] : want) { auto i = c.find(k); same = same && i != c.end() && i->second.bytes == v.bytes && i->second.messages == v.messages; } PBT_CHECK(same, "get-comm", "getComm at offset ", ph, " is not the recorded communication"); }
    }
  };
  // learn phase by phase, as the runtime does, then answer over everything recorded
  for (int ph = (int)g.draw((uint64_t)h.last); ph <= h.last; ph++) { M.setLoads(&h.load, &h.comm, &h.data); M.updateLoads((PhaseType)ph); }
  check(std::min(h.last + 1, 4), "whole history");
  // keep only what the stack says it needs to look back that far
  int back = (int)g.draw(3); unsigned need = M.getNumPastPhasesNeeded((unsigned)back);
  PBT_CHECK(need >= (unsigned)back, "needed", "to look back ", back, " phases only ", need, " are kept");
  History full = h;
  for (int ph = 0; ph <= h.last - (int)need; ph++) { h.load.erase((PhaseType)ph); h.comm.erase((PhaseType)ph); h.data.erase((PhaseType)ph); }
  { History pruned = h; h.load = full.load; h.comm = full.comm; h.data = full.data; M.setLoads(&pruned.load, &pruned.comm, &pruned.data); M.updateLoads((PhaseType)h.last);
    if (need >= 1) check(std::min(std::min(back, (int)need), h.last + 1), "needed history only"); }
}

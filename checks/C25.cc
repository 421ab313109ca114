// variant: san
// sources: vt/vrt/collection/balance/lb_data_holder.cc vt/elm/elm_id.cc vt/elm/elm_id_bits.cc vt/objgroup/proxy/proxy_bits.cc vt/utils/json/decompression_input_container.cc vt/utils/json/json_reader.cc vt/utils/compress/compressor.cc
// C25: load-balancing data written out reads back the same
#include "common/standalone.h"
#include "common/context_stub.h"
#include <vt/vrt/collection/balance/lb_data_holder.h>
#include <vt/elm/elm_id_bits.h>
#include <vt/utils/json/json_appender.h>
#include <vt/utils/json/json_reader.h>
#include <vt/objgroup/common.h>
#include <vt/objgroup/proxy/proxy_bits.h>
#include <fstream>
#include <unistd.h>
PBT_RULE("A case builds the data of one rank: up to 8 phases out of order, some without objects, some skipped or identical to the previous; objects of every kind (migratable or pinned collection elements with indices, object groups, bare handlers), sub-phase loads, user-defined values, attributes, and edges of every kind. It is written as the runtime writes it (text, streamed file, compressed or not, or with sequence numbers in place of packed ids and shuffled arrays) and read back; every map is compared. Non-trivial: at least one phase with objects or edges.");
using Json = nlohmann::json; using namespace vt; using namespace vt::vrt::collection::balance;
namespace {
using Id = ElementIDStruct;
double val(pbt::Gen& g) {
  switch (g.draw(3)) { case 0: return (double)g.range(0, 100); case 1: return g.real(0, 10); case 2: return g.real(0, 1) * 1e-9; default: { double d; uint64_t u = g.u64(); std::memcpy(&d, &u, 8); return std::isfinite(d) ? d : 0.1; } }
}
std::string str(pbt::Gen& g) { static char const* p[] = {"a", "\"", "\\", "\n", "é", "7", " ", "{"}; std::string s; size_t n = g.size(6); for (size_t i = 0; i < n; i++) s += p[g.draw(7)]; return s; }
std::string key(pbt::Gen& g) { return g.text(4, "ab_\"c"); }
UserDataValueType var(pbt::Gen& g) {
  switch (g.draw(2)) { case 0: return (int)(int32_t)g.bits(32); case 1: return val(g); default: return str(g); }
}
std::string show(UserDataValueType const& v) { return std::visit([](auto const& x) { return pbt::cat(x, sizeof(x) == 4 ? " (int)" : std::is_same<std::decay_t<decltype(x)>, double>::value ? " (double)" : " (string)"); }, v); }
struct Obj { Id id; bool coll = false, migr = false; int home = 0; uint64_t seq = 0; };
void same(ElmUserDataType const& got, ElmUserDataType const& want, std::string const& what) {
  for (auto& [k, v] : want) { auto i = got.find(k); PBT_CHECK(i != got.end(), what, "\"", k, "\" is lost"); PBT_CHECK(i->second == v, what, "\"", k, "\" is ", show(i->second), ", written ", show(v)); }
  PBT_CHECK(got.size() == want.size(), what, got.size(), " values read, ", want.size(), " written");
}
std::string comm(elm::CommKey const& k) { return pbt::cat("cat ", (int)k.cat_, " from ", k.from_.id, "/", k.nfrom_, " to ", k.to_.id, "/", k.nto_, " shared ", k.shared_id_); }
} // namespace
PBT_TARGET(holder, InProc, 6000, 200000) {
  int me = (int)g.range(0, 40), n = me + (int)g.range(1, 10); standalone::rank(me, n);
  LBDataHolder h; std::vector<Obj> objs; std::set<uint64_t> used;
  size_t no = g.size(8);
  for (size_t i = 0; i < no; i++) {
    Obj o; int kind = (int)g.draw(3);
    if (kind <= 1) { o.coll = true; o.migr = kind == 0; o.home = (int)g.draw((uint64_t)n - 1); o.seq = 1 + (g.chance(1, 4) ? g.bits(30) : g.draw(20)); o.id = elm::ElmIDBits::createCollectionImpl(o.migr, o.seq, (NodeType)o.home, (NodeType)me); }
    else if (kind == 2) { ObjGroupProxyType p = objgroup::proxy::ObjGroupProxy::create((objgroup::ObjGroupIDType)(1 + g.draw(1000)), (NodeType)me, g.coin()); o.id = elm::ElmIDBits::createObjGroup(p, (NodeType)me); h.node_objgroup_[o.id] = p; }
    else o.id = elm::ElmIDBits::createBareHandler((NodeType)me);
    if (!used.insert(o.id.id).second) continue;
    if (o.coll && g.chance(4, 5)) { std::vector<uint64_t> ix; size_t d = 1 + g.draw(3); for (size_t k = 0; k < d; k++) ix.push_back(g.chance(1, 5) ? g.u64() : g.draw(30)); h.node_idx_[o.id] = std::make_tuple((VirtualProxyType)g.u64(), ix); }
    objs.push_back(o);
  }
  // without an index an element is written like a bare handler
  for (auto& o : objs) if (!h.node_idx_.count(o.id)) o.coll = false;
  std::set<PhaseType> phases; size_t np = g.size(8); for (size_t i = 0; i < np; i++) phases.insert(g.draw(14));
  for (PhaseType p = 0; p < 15; p++) if (!phases.count(p)) { if (g.chance(1, 4)) h.skipped_phases_.insert(p); else if (g.chance(1, 4)) h.identical_phases_.insert(p); }
  std::unordered_map<PhaseType, DataMapType> info; size_t edges = 0, placed = 0; std::set<Id> seen;
  for (auto p : phases) {
    for (auto& o : objs) {
      if (!g.chance(2, 3)) continue;
      LoadSummary s; s.whole_phase_load = val(g); size_t ns = g.chance(1, 2) ? 0 : g.draw(4); for (size_t k = 0; k < ns; k++) s.subphase_loads.push_back(val(g));
      h.node_data_[p][o.id] = s; placed++; seen.insert(o.id);
      if (g.chance(1, 3)) {
        auto j = std::make_shared<Json>(Json::object()); size_t k = g.size(4);
        for (size_t x = 0; x < k; x++) { auto kk = key(g);
          switch (g.draw(5)) {
            case 0: { double v = val(g); (*j)[kk] = v; info[p][o.id][kk] = v; break; }
            case 1: { int v = (int)(int32_t)g.bits(32); (*j)[kk] = v; info[p][o.id][kk] = (double)v; break; }
            case 2: { auto v = str(g); (*j)[kk] = v; info[p][o.id][kk] = v; break; }
            case 3: (*j)[kk] = g.coin(); if (info.count(p) && info[p].count(o.id)) info[p][o.id].erase(kk); break;
            case 4: (*j)[kk] = nullptr; if (info.count(p) && info[p].count(o.id)) info[p][o.id].erase(kk); break;
            default: (*j)[kk] = Json::array({1, "x"}); if (info.count(p) && info[p].count(o.id)) info[p][o.id].erase(kk);
          } }
        h.user_defined_json_[p][o.id] = j; g.label("user-defined values");
      }
      if (g.chance(1, 3)) { size_t k = 1 + g.draw(3); for (size_t x = 0; x < k; x++) h.node_user_attributes_[p][o.id][key(g)] = var(g); g.label("attributes"); }
    }
    size_t ne = objs.empty() ? g.draw(2) : g.size(8);
    for (size_t k = 0; k < ne; k++) {
      Id a = objs.empty() ? Id{} : objs[g.draw(objs.size() - 1)].id, b = objs.empty() ? Id{} : objs[g.draw(objs.size() - 1)].id; NodeType nd = (NodeType)g.draw((uint64_t)n - 1); elm::CommKey key;
      int cat = objs.empty() ? 6 + (int)g.draw(1) : (int)g.draw(7);
      switch (cat) {
        case 0: key = {elm::CommKey::SendRecvTag{}, a, b, false}; break;
        case 1: key = {elm::CommKey::CollectionTag{}, a, b, true}; break;
        case 2: key = {elm::CommKey::CollectionToNodeTag{}, a, nd, false}; break;
        case 3: key = {elm::CommKey::CollectionToNodeTag{}, a, nd, true}; break;
        case 4: key = {elm::CommKey::NodeToCollectionTag{}, nd, b, false}; break;
        case 5: key = {elm::CommKey::NodeToCollectionTag{}, nd, b, true}; break;
        case 6: key = {elm::CommKey::WriteSharedTag{}, nd, (int)g.draw(50)}; break;
        default: key = {elm::CommKey::ReadOnlySharedTag{}, nd, (int)g.draw(50)};
      }
      elm::CommVolume v; v.bytes = val(g); v.messages = g.chance(1, 5) ? g.u64() : g.draw(100); h.node_comm_[p][key] = v; edges++; g.label(pbt::cat("edge kind ", cat));
    }
    if (g.chance(1, 5)) { auto j = std::make_shared<Json>(Json{{"k", (int)g.draw(9)}, {str(g), val(g)}}); h.user_per_phase_json_[p] = j; g.label("per-phase values"); }
    if (!h.node_data_.count(p)) g.label("phase without objects");
  }
  if (g.chance(1, 3)) { size_t k = 1 + g.draw(3); for (size_t x = 0; x < k; x++) h.rank_attributes_[key(g)] = var(g); }
  g.nontrivial(placed + edges > 0);
  g.note("rank ", me, "/", n, " objects "); for (auto& o : objs) g.note(o.id.id, " "); g.note("phases "); for (auto p : phases) g.note(p, " ");
  // as NodeLBData writes it
  Json meta; meta["type"] = "LBDatafile"; meta["rank"] = me; meta["phases"] = *h.metadataToJson(); if (auto a = h.rankAttributesToJson()) meta["attributes"] = (*a)["attributes"];
  std::vector<PhaseType> order(phases.begin(), phases.end()); if (g.chance(1, 4)) for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[g.draw(i - 1)]);
  Json doc; int form = (int)g.draw(3);
  if (form == 1) {
    std::string f = pbt::cat("/tmp/c25-", getpid(), ".json"); bool comp = g.coin();
    { util::json::Appender<std::ofstream> a("phases", meta, f, comp); for (auto p : order) a.addElm(*h.toJson(p)); }
    doc = *util::json::Reader(f).readFile(); unlink(f.c_str()); g.label(comp ? "compressed file" : "file"); g.note("through a file");
  } else {
    doc["metadata"] = meta; doc["phases"] = Json::array(); for (auto p : order) doc["phases"].push_back(*h.toJson(p));
    doc = Json::parse(doc.dump());
    if (form == 2) { // ids as sequence numbers with home and migratability
      auto unpack = [&](Json& e) { if (e.value("type", "") != "object") return; for (auto& o : objs) if (o.coll && e["id"] == o.id.id) { e.erase("id"); e["seq_id"] = o.seq; return; } };
      for (auto& p : doc["phases"]) { if (p.contains("tasks")) for (auto& t : p["tasks"]) unpack(t["entity"]); if (p.contains("communications")) for (auto& c : p["communications"]) { unpack(c["from"]); unpack(c["to"]); } }
      g.label("sequence ids"); g.note("with sequence ids");
    } else if (form == 3) { // the order within arrays carries no meaning
      auto shuffle = [&](Json& a) { for (size_t i = a.size(); i > 1; i--) std::swap(a[i - 1], a[g.draw(i - 1)]); };
      for (auto& p : doc["phases"]) { if (p.contains("tasks")) { shuffle(p["tasks"]); for (auto& t : p["tasks"]) if (t.contains("subphases")) shuffle(t["subphases"]); } if (p.contains("communications")) shuffle(p["communications"]); }
      g.label("shuffled"); g.note("with arrays shuffled");
    }
  }
  std::unique_ptr<LBDataHolder> r;
  try { r = std::make_unique<LBDataHolder>(doc); } catch (std::exception const& e) { pbt::fail("unreadable", pbt::cat("cannot be read back: ", e.what())); }
  PBT_CHECK(r->skipped_phases_ == h.skipped_phases_, "skipped phases", "skipped phases differ"); PBT_CHECK(r->identical_phases_ == h.identical_phases_, "identical phases", "identical phases differ");
  same(r->rank_attributes_, h.rank_attributes_, "rank attributes");
  for (auto& kv : r->node_data_) PBT_CHECK(phases.count(kv.first), "phases", "phase ", kv.first, " was not written");
  for (auto p : phases) {
    PBT_CHECK(r->node_data_.count(p), "phases", "phase ", p, " is missing");
    auto got = r->node_data_[p]; auto& want = h.node_data_[p];
    // phase 0 is given a placeholder task
    if (p == 0 && !want.empty()) { auto i = got.find(Id{}); PBT_CHECK(i != got.end() && i->second.whole_phase_load == 0.0, "placeholder", "no placeholder task in phase 0"); if (!want.count(Id{})) got.erase(i); }
    for (auto& [id, s] : want) {
      auto i = got.find(id); PBT_CHECK(i != got.end(), "objects", "object ", id.id, " of phase ", p, " is missing");
      PBT_CHECK(i->first.curr_node == (NodeType)me, "objects", "object ", id.id, " is read as living on ", i->first.curr_node);
      PBT_CHECK(i->second.whole_phase_load == s.whole_phase_load, "load", "object ", id.id, " in phase ", p, " has load ", i->second.whole_phase_load, ", written ", s.whole_phase_load);
      PBT_CHECK(i->second.subphase_loads == s.subphase_loads, "sub-phase loads", "object ", id.id, " in phase ", p, " has ", i->second.subphase_loads.size(), " sub-phases, or other values; written ", s.subphase_loads.size());
    }
    PBT_CHECK(got.size() == want.size(), "objects", got.size(), " objects read in phase ", p, ", ", want.size(), " written");
    auto& gc = r->node_comm_[p]; auto& wc = h.node_comm_[p];
    for (auto& [k, v] : wc) { auto i = gc.find(k); PBT_CHECK(i != gc.end(), "edges", "edge ", comm(k), " of phase ", p, " is missing");
      PBT_CHECK(i->second.bytes == v.bytes && i->second.messages == v.messages, "edges", "edge ", comm(k), " of phase ", p, " has ", i->second.bytes, " bytes in ", i->second.messages, ", written ", v.bytes, " in ", v.messages); }
    PBT_CHECK(gc.size() == wc.size(), "edges", gc.size(), " edges read in phase ", p, ", ", wc.size(), " written");
    for (auto& [id, s] : want) { same(r->node_user_attributes_[p][id], h.node_user_attributes_[p][id], "attributes"); same(r->user_defined_lb_info_[p][id], info[p][id], "user-defined values"); }
    if (h.user_per_phase_json_.count(p)) PBT_CHECK(r->user_per_phase_json_.count(p) && *r->user_per_phase_json_[p] == *h.user_per_phase_json_[p], "per-phase values", "values of phase ", p, " differ");
    else PBT_CHECK(!r->user_per_phase_json_.count(p), "per-phase values", "phase ", p, " has values");
  }
  for (auto& id : seen) { auto i = h.node_idx_.find(id); auto j = r->node_idx_.find(id); PBT_CHECK((i == h.node_idx_.end()) == (j == r->node_idx_.end()), "indices", "index of ", id.id, i == h.node_idx_.end() ? " appears" : " is lost"); if (i != h.node_idx_.end()) PBT_CHECK(i->second == j->second, "indices", "index or collection of ", id.id, " differs"); }
  r->clear(); PBT_CHECK(r->node_data_.empty() && r->node_comm_.empty() && r->node_idx_.empty() && r->skipped_phases_.empty() && r->identical_phases_.empty(), "clear", "data left after clear");
}

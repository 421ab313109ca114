// variant: san
// sources: vt/handler/handler.cc vt/epoch/epoch_manip.cc vt/epoch/epoch_window.cc vt/event/event_id.cc vt/group/id/group_id.cc
// sources: vt/pipe/id/pipe_id.cc vt/objgroup/proxy/proxy_bits.cc vt/vrt/proxy/proxy_bits.cc vt/vrt/collection/proxy_builder/elm_proxy_builder.cc
// sources: vt/elm/elm_id_bits.cc vt/elm/elm_id.cc vt/rdma/rdma_handle.cc vt/scheduler/priority_manip.cc
// C20: packed identifiers decode to exactly the fields they were built from
#include "common/standalone.h"
#include <vt/utils/bits/bits_common.h>
#include <vt/handler/handler.h>
#include <vt/epoch/epoch_manip.h>
#include <vt/event/event_id.h>
#include <vt/group/id/group_id.h>
#include <vt/pipe/id/pipe_id.h>
#include <vt/objgroup/common.h>
#include <vt/objgroup/proxy/proxy_bits.h>
#include <vt/vrt/proxy/proxy_bits.h>
#include <vt/vrt/collection/proxy_builder/elm_proxy_builder.h>
#include <vt/elm/elm_id_bits.h>
#include <vt/rdma/rdma_handle.h>
#include <vt/scheduler/priority_manip.h>
#include <vt/messaging/envelope.h>
#include <vt/messaging/envelope/payload_envelope.h>
PBT_RULE("A case is a packed identifier of a random kind and up to 40 random field assignments (boundary-biased values over each field's whole range), or direct construction from all fields; after every assignment all fields are compared with a field-by-field model. Non-trivial: at least two different fields were assigned, at least one to a value that is neither zero nor all ones.");
#define CHK PBT_CHECK
using namespace vt;

namespace {
// a field as the model sees it: width in bits, signedness, set and get through the API
struct Field { std::string name; int width; bool sign; std::function<void(uint64_t)> set; std::function<uint64_t()> get; };
uint64_t mask(int w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
uint64_t norm(Field const& f, uint64_t v) { v &= mask(f.width); if (f.sign && f.width < 64 && (v >> (f.width - 1))) v |= ~mask(f.width); return v; }
std::string hex(uint64_t v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }

// whole: an invariant function that may alter what the model expects is not needed: fields are independent
void fields(pbt::Gen& g, std::string const& kind, std::vector<Field>& F, std::vector<uint64_t> init, size_t max_ops = 40) {
  g.label(kind); g.note(kind, ":");
  std::set<size_t> touched; bool interesting = false;
  auto check = [&](char const* when) {
    for (size_t i = 0; i < F.size(); i++) {
      uint64_t got = F[i].get();
      CHK(got == init[i], "field " + kind + "." + F[i].name, when, ": field ", F[i].name, " of ", kind, " reads ", hex(got), " but was set to ", hex(init[i]));
    }
  };
  check("initially");
  size_t n = 1 + g.size(max_ops);
  for (size_t k = 0; k < n; k++) {
    size_t i = g.draw(F.size() - 1);
    uint64_t v = norm(F[i], g.bits(F[i].width));
    g.note(" ", F[i].name, "=", hex(v));
    F[i].set(v); init[i] = v; touched.insert(i);
    if (v && v != mask(F[i].width) && v != ~0ull) interesting = true;
    check("after setting fields");
  }
  g.nontrivial(touched.size() >= std::min<size_t>(2, F.size()) && (interesting || F.size() > 8));
}

template <int S, int L, class T> Field bitfield(T& x) {
  return {pbt::cat("bits[", S, ",", S + L, ")"), L, false,
    [&x](uint64_t v) { BitPackerType::setField<S, L>(x, (T)v); },
    [&x] { return (uint64_t)(std::make_unsigned_t<T>)BitPackerType::getField<S, L, T>(x) & mask(L); }};
}
template <int S, class T> Field boolfield(T& x) {
  return {pbt::cat("bit", S), 1, false, [&x](uint64_t v) { BitPackerType::boolSetField<S>(x, v != 0); }, [&x] { return (uint64_t)BitPackerType::boolGetField<S>(x); }};
}
template <class T> void packer_static(pbt::Gen& g, char const* nm) {
  T x = 0;
  std::vector<Field> F;
  if constexpr (sizeof(T) == 8) { F = {bitfield<0, 1>(x), bitfield<1, 7>(x), boolfield<8>(x), bitfield<9, 16>(x), bitfield<25, 6>(x), bitfield<31, 2>(x), bitfield<33, 30>(x), boolfield<63>(x)}; }
  else if constexpr (sizeof(T) == 4) { F = {bitfield<0, 3>(x), boolfield<3>(x), bitfield<4, 13>(x), bitfield<17, 14>(x), bitfield<31, 1>(x)}; }
  else if constexpr (sizeof(T) == 2) { F = {bitfield<0, 3>(x), boolfield<3>(x), bitfield<4, 9>(x), bitfield<13, 3>(x)}; }
  else { F = {bitfield<0, 3>(x), boolfield<3>(x), bitfield<4, 4>(x)}; }
  fields(g, nm, F, std::vector<uint64_t>(F.size(), 0));
}
template <class T> void packer_dynamic(pbt::Gen& g, char const* nm) {
  T x = (T)g.bits(sizeof(T) * 8);
  std::vector<Field> F; std::vector<uint64_t> init; int W = sizeof(T) * 8, p = 0;
  while (p < W) {
    int len = (int)g.range(1, std::min(W - p, W - 1)); if (len == 64) len = 63;
    uint64_t cur = ((uint64_t)(std::make_unsigned_t<T>)x >> p) & mask(len);
    F.push_back({pbt::cat("dyn[", p, ",", p + len, ")"), len, false,
      [&x, p, len](uint64_t v) { BitPackerType::setFieldDynamic((int64_t)p, (int64_t)len, x, (T)v); },
      [&x, p, len] { return (uint64_t)(std::make_unsigned_t<T>)BitPackerType::getFieldDynamic<T>((int64_t)p, (int64_t)len, x) & mask(len); }});
    init.push_back(cur); p += len;
  }
  fields(g, nm, F, init);
}
#define FLD(name, w, sgn, S, G) Field{name, w, sgn, [&](uint64_t v) { (void)v; S; }, [&]() -> uint64_t { return (uint64_t)(G); }}

void handler_fields(pbt::Gen& g) {
  using H = HandlerManager; HandlerType h = blank_handler; std::vector<uint64_t> init(6, 0);
  if (g.coin()) {
    uint64_t a = g.coin(), f = g.coin(), id = g.bits(handler_id_num_bits), rt = g.draw(10), c = g.bits(control_num_bits), b = g.coin();
    h = H::makeHandler(a, f, id, (H::RegistryTypeEnum)rt, (HandlerControlType)c, true, b);
    init = {a, f, c, b, rt, id};
    g.note("make ");
  }
  std::vector<Field> F = {
    FLD("auto", 1, false, H::setHandlerAuto(h, v), H::isHandlerAuto(h)),
    FLD("functor", 1, false, H::setHandlerFunctor(h, v), H::isHandlerFunctor(h)),
    FLD("control", control_num_bits, false, H::setHandlerControl(h, (HandlerControlType)v), H::getHandlerControl(h)),
    FLD("base_msg", 1, false, H::setHandlerBaseMsgDerived(h, v), H::isHandlerBaseMsgDerived(h)),
    FLD("registry", registry_type_bits, false, H::setHandlerRegistryType(h, (H::RegistryTypeEnum)v), (uint64_t)(int64_t)H::getHandlerRegistryType(h)),
    FLD("id", handler_id_num_bits, false, H::setHandlerIdentifier(h, v), H::getHandlerIdentifier(h))};
  fields(g, "handler", F, init);
  CHK(H::isHandlerObjGroup(h) == (H::getHandlerRegistryType(h) == H::RegistryTypeEnum::RegObjGroup), "handler kind", "object group test disagrees with the registry type");
  CHK(H::isHandlerMember(h) == (H::getHandlerRegistryType(h) == H::RegistryTypeEnum::RegVrtCollectionMember), "handler kind", "member test disagrees with the registry type");
}
void epoch_fields(pbt::Gen& g) {
  using E = epoch::EpochManip; bool rooted = g.coin();
  uint64_t cat = g.draw(2), node = g.bits(15);
  EpochType e = E::generateEpoch(rooted, rooted ? (NodeType)node : uninitialized_destination, (epoch::eEpochCategory)cat);
  std::vector<Field> F = {
    FLD("category", 2, false, E::setCategory(e, (epoch::eEpochCategory)v), (uint64_t)(int64_t)E::category(e)),
    FLD("rooted", 1, false, (void)0, E::isRooted(e)),
  };
  std::vector<uint64_t> init = {cat, rooted};
  F[1].width = 1; F[1].set = [&](uint64_t) { E::setIsRooted(e, rooted); };
  F.push_back(FLD("seq", rooted ? epoch::epoch_seq_root_num_bits : epoch::epoch_seq_coll_num_bits, false, E::setSeq(e, v), E::seq(e))); init.push_back(0);
  if (rooted) { F.push_back(FLD("node", 16, true, E::setNode(e, (NodeType)v), (int64_t)E::node(e))); init.push_back(node); }
  g.note(rooted ? "rooted " : "collective ");
  // the kind is fixed: setting it again must not disturb anything
  auto rooted_field = F[1];
  F.erase(F.begin() + 1); init.erase(init.begin() + 1);
  fields(g, rooted ? "rooted epoch" : "collective epoch", F, init);
  E::setIsRooted(e, rooted);
  CHK(E::isRooted(e) == rooted, "epoch kind", "epoch generated as rooted=", rooted, " reads as ", E::isRooted(e));
  for (size_t i = 0; i < F.size(); i++) (void)F[i].get();
}
void event_fields(pbt::Gen& g) {
  using E = event::EventIDManager; uint64_t id = g.bits(32), nd = g.bits(16);
  EventType e = E::makeEvent((int32_t)id, (NodeType)nd);
  std::vector<Field> F = {FLD("node", 16, true, E::setEventNode(e, (NodeType)v), (int64_t)E::getEventNode(e)),
                          FLD("id", 32, true, E::setEventIdentifier(e, (int32_t)v), (int64_t)E::getEventIdentifier(e))};
  fields(g, "event", F, {norm(F[0], nd), norm(F[1], id)});
}
void group_fields(pbt::Gen& g) {
  using B = group::GroupIDBuilder; uint64_t id = g.bits(32), nd = g.bits(15), c = g.coin(), s = g.coin();
  GroupType x = B::createGroupID((uint32_t)id, c ? group::group_collective_node : (NodeType)nd, c, s);
  std::vector<Field> F = {FLD("collective", 1, false, B::setIsCollective(x, v), B::isCollective(x)), FLD("static", 1, false, B::setIsStatic(x, v), B::isStatic(x)),
    FLD("node", 16, true, B::setNode(x, (NodeType)v), (int64_t)B::getNode(x)), FLD("id", 32, false, B::setID(x, (uint32_t)v), B::getGroupID(x))};
  fields(g, "group", F, {c, s, c ? ~0ull : nd, id});
}
void pipe_fields(pbt::Gen& g) {
  using B = pipe::PipeIDBuilder; uint64_t id = g.bits(32), nd = g.bits(15), c = g.coin(), s = g.coin();
  PipeType x = B::createPipeID((uint32_t)id, (NodeType)nd, c, s);
  std::vector<Field> F = {FLD("sendback", 1, false, B::setIsSendback(x, v), B::isSendback(x)), FLD("persist", 1, false, B::setIsPersist(x, v), B::isPersist(x)),
    FLD("node", 16, true, B::setNode(x, (NodeType)v), (int64_t)B::getNode(x)), FLD("id", 32, false, B::setID(x, (uint32_t)v), B::getPipeID(x))};
  fields(g, "pipe", F, {c, s, nd, id});
}
void objgroup_fields(pbt::Gen& g) {
  using B = objgroup::proxy::ObjGroupProxy; uint64_t id = g.bits(32), nd = g.bits(15), c = g.coin();
  ObjGroupProxyType x = B::create((uint32_t)id, (NodeType)nd, c);
  std::vector<Field> F = {FLD("control", 1, false, B::setControl(x, v), B::isControl(x)), FLD("collective", 1, false, B::setIsCollective(x, v), B::isCollective(x)),
    FLD("node", 16, true, B::setNode(x, (NodeType)v), (int64_t)B::getNode(x)), FLD("id", 32, false, B::setID(x, (uint32_t)v), B::getID(x))};
  CHK(B::isControl(x), "objgroup control", "a new object group proxy is not marked as one");
  fields(g, "objgroup proxy", F, {1, c, c ? 0 : nd, id});
}
void proxy_fields(pbt::Gen& g) {
  using B = vrt::VirtualProxyBuilder; uint64_t id = g.bits(32), nd = g.bits(15), c = g.coin(), m = g.coin(), d = g.coin();
  VirtualProxyType x = B::createProxy((uint32_t)id, (NodeType)nd, c, m, d);
  std::vector<Field> F = {FLD("collection", 1, false, B::setIsCollection(x, v), B::isCollection(x)), FLD("migratable", 1, false, B::setIsMigratable(x, v), B::isMigratable(x)),
    FLD("remote", 1, false, B::setIsRemote(x, v), B::isRemote(x)),
    FLD("node", 16, true, B::setVirtualNode(x, (NodeType)v), (int64_t)B::getVirtualNode(x)), FLD("id", 32, false, B::setVirtualID(x, (uint32_t)v), B::getVirtualID(x))};
  fields(g, "collection proxy", F, {c, m, d, d ? 0 : nd, id});
  // remote proxies: distinct (node, target, id, flags) give distinct proxies
  uint64_t a[2][5]; VirtualProxyType r[2];
  for (int k = 0; k < 2; k++) { for (int j = 0; j < 5; j++) a[k][j] = k && g.coin() ? a[0][j] : g.bits(j < 3 ? 16 : 1); r[k] = B::createRemoteProxy((uint16_t)a[k][0], (NodeType)a[k][1], (NodeType)a[k][2], a[k][3], a[k][4]);
    CHK(B::isCollection(r[k]) == (bool)a[k][3] && B::isMigratable(r[k]) == (bool)a[k][4] && B::isRemote(r[k]) && B::getVirtualNode(r[k]) == (NodeType)a[k][2], "remote proxy", "remote proxy fields differ"); }
  CHK((r[0] == r[1]) == std::equal(a[0], a[0] + 5, a[1]), "remote proxy", "remote proxies for (", a[0][0], ",", a[0][1], ",", a[0][2], ") and (", a[1][0], ",", a[1][1], ",", a[1][2], ") are equal=", r[0] == r[1]);
}
void elmproxy_fields(pbt::Gen& g) {
  using B = vrt::collection::VirtualElemProxyBuilder; VirtualElmOnlyProxyType x = 0;
  std::vector<Field> F = {FLD("index", 64, false, B::createElmProxy(x, v), B::elmProxyGetIndex(x))};
  fields(g, "element proxy", F, {0});
}
void rdma_fields(pbt::Gen& g) {
  using R = rdma::HandleManager; RDMA_HandleType x = 0;
  std::vector<Field> F = {FLD("sized", 1, false, R::setIsSized(x, v), R::isSized(x)), FLD("collective", 1, false, R::setIsCollective(x, v), R::isCollective(x)),
    FLD("handler", 1, false, R::setIsHandler(x, v), R::isHandler(x)), FLD("op", 2, false, R::setOpType(x, (rdma::Type)v), (uint64_t)R::getOpType(x)),
    FLD("id", 31, false, R::setRdmaIdentifier(x, (int32_t)v), (int64_t)R::getRdmaIdentifier(x)),
    FLD("node", 15, false, R::setRdmaNode(x, (NodeType)v), (int64_t)R::getRdmaNode(x))};
  if constexpr (sizeof(RDMA_HandleType) * 8 >= rdma::Bits::Node + 16) fields(g, "rdma handle", F, std::vector<uint64_t>(F.size(), 0));
}
void priority_fields(pbt::Gen& g) {
  PriorityType x = 0; std::vector<Field> F;
  for (int l = 0; l < sched::priority_num_levels; l++) F.push_back(Field{pbt::cat("level", l), sched::priority_level_bits, false,
    [&x, l](uint64_t v) { sched::PriorityManip::setPriority(x, (PriorityLevelType)l, (PriorityType)v); }, [&x, l] { return (uint64_t)sched::PriorityManip::getPriority(x, (PriorityLevelType)l); }});
  fields(g, "priority", F, std::vector<uint64_t>(F.size(), 0));
  // a higher value at a more significant level decides, whatever stands below
  PriorityType a = 0, b = 0; int lv = -1; bool less = false;
  for (int l = 0; l < sched::priority_num_levels; l++) {
    uint64_t p = g.bits(sched::priority_level_bits), q = l < 2 && g.coin() ? p : g.bits(sched::priority_level_bits);
    sched::PriorityManip::setPriority(a, (PriorityLevelType)l, (PriorityType)p); sched::PriorityManip::setPriority(b, (PriorityLevelType)l, (PriorityType)q);
    if (lv < 0 && p != q) { lv = l; less = p < q; }
  }
  CHK(lv < 0 ? a == b : (a < b) == less, "priority order", "priorities that first differ at level ", lv, " are ordered the wrong way");
}
void elmid_fields(pbt::Gen& g) {
  using B = elm::ElmIDBits;
  uint64_t a[2][5]; elm::ElementIDType r[2]; uint64_t kind[2];
  std::string desc[2];
  for (int k = 0; k < 2; k++) {
    kind[k] = k && g.coin() ? kind[0] : g.draw(2);
    auto d = [&](int j, int w) { a[k][j] = k && kind[0] == kind[1] && g.coin() ? a[0][j] : g.bits(w); return a[k][j]; };
    for (auto& v : a[k]) if (!k) v = 0;
    if (k) for (int j = 0; j < 5; j++) a[1][j] = 0;
    if (kind[k] == 0) {
      NodeType home = (NodeType)d(0, 15); uint64_t seq = d(1, elm::elm_id_num_bits); bool m = d(2, 1);
      NodeType cur = (NodeType)g.bits(15);
      auto s = B::createCollectionImpl(m, seq, home, cur); r[k] = s.id;
      desc[k] = pbt::cat("element ", seq, " of home ", home, " migratable ", m);
      CHK(s.curr_node == cur && s.getCurrNode() == cur, "element id", "current node ", s.curr_node, " but was created with ", cur);
      CHK(B::isMigratable(r[k]) == m && s.isMigratable() == m, "element id", desc[k], " reads migratable=", B::isMigratable(r[k]));
      CHK(B::getNode(r[k]) == home && s.getHomeNode() == home, "element id", desc[k], " reads home ", B::getNode(r[k]));
      CHK(B::getControlBits(r[k]) == (m ? elm::CollectionMigratable : elm::CollectionNonMigratable), "element id", desc[k], " has kind ", (int)B::getControlBits(r[k]));
    } else if (kind[k] == 1) {
      uint64_t id = d(0, 32), col = d(1, 1); NodeType n = (NodeType)d(2, 15); NodeType pn = (NodeType)g.bits(15);
      auto proxy = objgroup::proxy::ObjGroupProxy::create((uint32_t)id, pn, col);
      elm::ElementIDType e = 0; B::setObjGroup(e, proxy, n); r[k] = e;
      desc[k] = pbt::cat("object group ", id, " collective ", col, " on ", n);
      auto want = proxy; objgroup::proxy::ObjGroupProxy::setNode(want, n);
      CHK(B::getControlBits(e) == elm::ObjGroup && !B::isMigratable(e), "element id", desc[k], " has kind ", (int)B::getControlBits(e));
      CHK(B::getNode(e) == n, "element id", desc[k], " reads node ", B::getNode(e));
      CHK(B::getObjGroupProxy(e, true) == want, "element id", desc[k], " gives back another proxy");
      objgroup::proxy::ObjGroupProxy::setNode(want, 0);
      CHK(B::getObjGroupProxy(e, false) == want, "element id", desc[k], " gives back another proxy (without node)");
    } else {
      NodeType n = (NodeType)d(0, 15); auto s = B::createBareHandler(n); r[k] = s.id; desc[k] = pbt::cat("rank ", n);
      CHK(B::getControlBits(s.id) == elm::BareHandler && !B::isMigratable(s.id) && B::getNode(s.id) == n && s.curr_node == n && s.getHomeNode() == n, "element id", desc[k], " decodes wrongly");
    }
  }
  bool same = kind[0] == kind[1] && std::equal(a[0], a[0] + 5, a[1]);
  CHK((r[0] == r[1]) == same, "element id collision", "ids of {", desc[0], "} and {", desc[1], "} are ", r[0] == r[1] ? "equal" : "different");
  elm::ElementIDStruct s0{r[0], 1}, s1{r[1], 2};
  CHK((s0 == s1) == same && (!same || std::hash<elm::ElementIDStruct>{}(s0) == std::hash<elm::ElementIDStruct>{}(s1)) && ((s0 < s1) || (s1 < s0) || same), "element id order", "comparison of element ids is not consistent");
  g.label("element id"); g.note(desc[0], " / ", desc[1]); g.nontrivial();
}
// envelopes: five layouts
template <class Env> void env_base(std::vector<Field>& F, std::vector<uint64_t>& init, Env& e) {
  using namespace vt::messaging;
  F = {FLD("handler", 64, false, envelopeSetHandler(e, (HandlerType)v), envelopeGetHandler(e)),
    FLD("dest", 16, true, envelopeSetDest(e, (NodeType)v), (int64_t)envelopeGetDest(e)),
    FLD("ref", 16, false, envelopeSetRef(e, (RefType)v), envelopeGetRef(e)),
    FLD("group", 64, false, envelopeSetGroup(e, v), envelopeGetGroup(e)),
    FLD("priority", 16, false, envelopeSetPriority(e, (PriorityType)v), envelopeGetPriority(e)),
    FLD("level", 8, false, envelopeSetPriorityLevel(e, (PriorityLevelType)v), envelopeGetPriorityLevel(e)),
    FLD("serialized", 1, false, envelopeSetHasBeenSerialized(e, v), envelopeHasBeenSerialized(e)),
    FLD("comm recorded", 1, false, envelopeSetCommLBDataRecordedAboveBareHandler(e, v), envelopeCommLBDataRecordedAboveBareHandler(e)),
    FLD("locked", 1, false, { envelopeSetIsLocked(e, true); envelopeSetIsLocked(e, false); }, envelopeIsLocked(e))};
  F[8].width = 0;
  init = {(uint64_t)(int64_t)uninitialized_handler, (uint64_t)(int64_t)uninitialized_destination, not_shared_message, default_group, min_priority, 0, 0, 0, 0};
}
// type flags only ever get switched on
template <class Env> void env_flags(std::vector<Field>& F, std::vector<uint64_t>& init, Env& e, bool put) {
  using namespace vt::messaging;
  auto flag = [&](char const* n, auto set, auto get) { init.push_back(0); size_t i = F.size(); (void)i; F.push_back({n, 0, false, set, get}); };
  flag("term", [&e](uint64_t) { setTermType(e); }, [&e]() -> uint64_t { return envelopeIsTerm(e); });
  flag("pipe", [&e](uint64_t) { setPipeType(e); }, [&e]() -> uint64_t { return envelopeIsPipe(e); });
  flag("bcast", [&e](uint64_t) { setBroadcastType(e, true); }, [&e]() -> uint64_t { return envelopeIsBcast(e); });
  if (put) flag("packed", [&e](uint64_t) { setPackedPutType(e); }, [&e]() -> uint64_t { return envelopeIsPackedPutType(e); });
}
void run_env(pbt::Gen& g, std::string kind, std::vector<Field>& F, std::vector<uint64_t>& init, size_t first_flag, size_t nflags) {
  // flags are one-way: a drawn value of any kind sets them to one
  g.label(kind); g.note(kind, ":");
  auto check = [&] { for (size_t i = 0; i < F.size(); i++) CHK(F[i].get() == init[i], "field " + kind + "." + F[i].name, "field ", F[i].name, " of ", kind, " reads ", hex(F[i].get()), " but was set to ", hex(init[i])); };
  check();
  size_t n = 1 + g.size(40); std::set<size_t> touched;
  for (size_t k = 0; k < n; k++) {
    size_t i = g.draw(F.size() - 1);
    if (i >= first_flag && i < first_flag + nflags) { F[i].set(1); init[i] = 1; g.note(" ", F[i].name); }
    else if (F[i].width == 0) F[i].set(0);
    else { uint64_t v = norm(F[i], g.bits(F[i].width)); F[i].set(v); init[i] = v; g.note(" ", F[i].name, "=", hex(v)); }
    touched.insert(i); check();
  }
  g.nontrivial(touched.size() > 1);
}
void envelope_fields(pbt::Gen& g) {
  using namespace vt::messaging;
  std::vector<Field> F; std::vector<uint64_t> init;
  uint64_t junk = g.bits(8);
  auto epoch_field = [&](auto& e) { F.push_back(FLD("epoch", 64, false, envelopeSetEpoch(e, EpochType{v}), *envelopeGetEpoch(e))); init.push_back(~0ull); };
  auto tag_field = [&](auto& e) { F.push_back(FLD("tag", 32, true, envelopeSetTag(e, (TagType)v), (int64_t)envelopeGetTag(e))); init.push_back(~0ull); };
  switch (g.draw(4)) {
    case 0: { Envelope e; memset((void*)&e, (int)junk, sizeof e); envelopeInitEmpty(e); env_base(F, init, e); size_t f = F.size(); env_flags(F, init, e, false);
      CHK(!envelopeIsEpochType(e) && !envelopeIsTagType(e) && !envelopeIsPut(e), "envelope kind", "plain envelope claims epoch, tag or payload"); run_env(g, "envelope", F, init, f, 3); break; }
    case 1: { EpochEnvelope e; memset((void*)&e, (int)junk, sizeof e); envelopeInitEmpty(e); env_base(F, init, e); size_t f = F.size(); env_flags(F, init, e, false); epoch_field(e); 
      CHK(envelopeIsEpochType(e) && !envelopeIsTagType(e), "envelope kind", "epoch envelope kind"); run_env(g, "epoch envelope", F, init, f, 3); break; }
    case 2: { TagEnvelope e; memset((void*)&e, (int)junk, sizeof e); envelopeInitEmpty(e); env_base(F, init, e); size_t f = F.size(); env_flags(F, init, e, false); tag_field(e); 
      CHK(!envelopeIsEpochType(e) && envelopeIsTagType(e), "envelope kind", "tag envelope kind"); run_env(g, "tag envelope", F, init, f, 3); break; }
    case 3: { EpochTagEnvelope e; memset((void*)&e, (int)junk, sizeof e); envelopeInitEmpty(e); env_base(F, init, e); size_t f = F.size(); env_flags(F, init, e, false); epoch_field(e); tag_field(e); 
      CHK(envelopeIsEpochType(e) && envelopeIsTagType(e), "envelope kind", "epoch-tag envelope kind"); run_env(g, "epoch-tag envelope", F, init, f, 3);
      // copying keeps everything but the reference count and the lock
      EpochTagEnvelope c; memset((void*)&c, (int)junk, sizeof c); envelopeInitEmpty(c); RefType rc = (RefType)g.bits(16); envelopeSetRef(c, rc); envelopeSetIsLocked(e, true);
      envelopeInitCopy(c, e); CHK(envelopeGetRef(c) == rc && !envelopeIsLocked(c) && envelopeGetHandler(c) == envelopeGetHandler(e) && envelopeGetDest(c) == envelopeGetDest(e) && envelopeGetGroup(c) == envelopeGetGroup(e) && envelopeGetEpoch(c) == envelopeGetEpoch(e) && envelopeGetTag(c) == envelopeGetTag(e) && envelopeGetPriority(c) == envelopeGetPriority(e), "envelope copy", "copied envelope differs");
      break; }
    default: { PutShortEnvelope e; memset((void*)&e, (int)junk, sizeof e); envelopeInitEmpty(e); env_base(F, init, e); size_t f = F.size(); env_flags(F, init, e, true); epoch_field(e); tag_field(e);
      F.push_back(FLD("put tag", 32, true, envelopeSetPutTag(e, (TagType)v), (int64_t)envelopeGetPutTag(e))); init.push_back(~0ull);
      F.push_back(FLD("put size", 64, false, envelopeSetPutPtr(e, envelopeGetPutPtr(e), v), envelopeGetPutSize(e))); init.push_back(0);
      F.push_back(FLD("put ptr", 47, false, envelopeSetPutPtrOnly(e, (PutPtrConstType)v), (uintptr_t)envelopeGetPutPtr(e))); init.push_back(0);
      CHK(envelopeIsEpochType(e) && envelopeIsTagType(e) && envelopeIsPut(e), "envelope kind", "payload envelope kind"); run_env(g, "payload envelope", F, init, f, 4); break; }
  }
}
} // namespace

PBT_TARGET(bits, InProc, 200000, 6000000) {
  switch (g.draw(9)) {
    case 0: packer_static<uint64_t>(g, "packer u64"); break;
    case 1: packer_static<int64_t>(g, "packer i64"); break;
    case 2: packer_static<uint32_t>(g, "packer u32"); break;
    case 3: packer_static<uint16_t>(g, "packer u16"); break;
    case 4: packer_static<uint8_t>(g, "packer u8"); break;
    case 5: packer_dynamic<uint64_t>(g, "dynamic u64"); break;
    case 6: packer_dynamic<int64_t>(g, "dynamic i64"); break;
    case 7: packer_dynamic<uint32_t>(g, "dynamic u32"); break;
    case 8: packer_dynamic<int32_t>(g, "dynamic i32"); break;
    default: packer_dynamic<uint16_t>(g, "dynamic u16"); break;
  }
}
PBT_TARGET(identifiers, InProc, 300000, 9000000) {
  switch (g.draw(11)) {
    case 0: handler_fields(g); break;
    case 1: epoch_fields(g); break;
    case 2: event_fields(g); break;
    case 3: group_fields(g); break;
    case 4: pipe_fields(g); break;
    case 5: objgroup_fields(g); break;
    case 6: proxy_fields(g); break;
    case 7: elmproxy_fields(g); break;
    case 8: rdma_fields(g); break;
    case 9: priority_fields(g); break;
    case 10: elmid_fields(g); break;
    default: envelope_fields(g); break;
  }
}
PBT_TARGET(envelopes, InProc, 60000, 2000000) { envelope_fields(g); }

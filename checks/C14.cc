// variant: rt
// C14: a callback runs its own target exactly once per send, wherever it is sent from
#include "common/rt.h"
#include <variant>
PBT_RULE("A case is up to 10 callbacks over 1-6 simulated ranks (functions with and without message and context, single-use ones, message and parameter handlers and functors on a rank or on all, object group members, members and free functions of collection elements or of all elements, with plain, serialized, parameter and no content) and up to 24 sends, from ranks the callback reached through up to 3 hops inside plain or serialized messages, under the program's or an own epoch, some from within another callback's target, while elements migrate; non-trivial: 2 callbacks with 3 sends of which one is remote.");
namespace {
enum Ty { Void_, DM_, SM_, Par_ };
enum Kind { Func, Ctx, Once, Send, Bcast, FSend, FBcast, OSend, OBcast, CSend, CBcast, CFSend, CFBcast };
struct Cb { int owner = 0, ty = 0, kind = 0, var = 0, at = 0, twin = 0; };
struct Use { int cb = 0, own = 0, next = -1, hold = 0; std::vector<int> path; int form = 0; bool mid = false; };
struct Prog { int n = 1, K = 1; std::vector<Cb> cbs; std::vector<Use> uses; std::vector<std::pair<int, int>> moves; bool during = false; } P;
int64_t* got(int use, int where) { return sim::shared() + use * 20 + where; }                 // where: rank or element
int64_t* vgot(int cb, int where) { return sim::shared() + 2000 + cb * 20 + where; }
int64_t* fin(int use) { return sim::shared() + 4000 + use; }
struct DM : vt::Message { int use = 0, cb = 0; char pad[40] = {}; DM() = default; DM(int u, int c) : use(u), cb(c) { for (int i = 0; i < 40; i++) pad[i] = (char)(u * 3 + i); } };
struct SM : vt::Message { using MessageParentType = vt::Message; vt_msg_serialize_required(); int use = 0, cb = 0; std::vector<int> v; SM() = default; SM(int u, int c) : use(u), cb(c), v((size_t)(u * 7 % 50), u) {} template <class S> void serialize(S& s) { MessageParentType::serialize(s); s | use | cb | v; } };
using CV = vt::Callback<>; using CD = vt::Callback<DM>; using CS = vt::Callback<SM>; using CP = vt::Callback<int, int, std::string>;
std::string text(int u) { return std::string((size_t)(u % 30), (char)('a' + u % 26)); }
void chain(int use);
void hit(int use, int cb, int kind, int var, int where) {      // where: the rank, or the element of a collection kind
  RT_CHECK(use >= 0 && use < (int)P.uses.size() && cb >= 0 && cb < (int)P.cbs.size(), "content", "unknown send ", use, " of callback ", cb); auto& C = P.cbs[(size_t)cb];
  RT_CHECK(P.uses[(size_t)use].cb == cb && C.kind == kind && C.var == var, "target", "send ", use, " of callback ", cb, " (kind ", C.kind, "/", C.var, ") ran the target of kind ", kind, "/", var);
  bool bc = kind == Bcast || kind == FBcast || kind == OBcast || kind == CBcast || kind == CFBcast; int at = kind <= Once ? C.owner : C.at;
  RT_CHECK(bc || where == at, "target", "send ", use, " of callback ", cb, " ran at ", where, ", not ", at);
  ++*got(use, where); RT_CHECK(*got(use, where) == 1, "duplicate", "send ", use, " of callback ", cb, " ran ", *got(use, where), " times at ", where); sim::progress();
  if (!bc) chain(use);
}
void vhit(int cb, int where) { ++*vgot(cb, where); sim::progress(); }
template <class M> void chk(M* m) { if constexpr (std::is_same_v<M, DM>) { for (int i = 0; i < 40; i++) RT_CHECK(m->pad[i] == (char)(m->use * 3 + i), "content", "send ", m->use, " arrives altered"); } else RT_CHECK(m->v == std::vector<int>((size_t)(m->use * 7 % 50), m->use), "content", "send ", m->use, " arrives altered"); }
void chkp(int use, std::string const& s) { RT_CHECK(s == text(use), "content", "send ", use, " arrives with '", s, "'"); }
struct Cx { int cb; }; Cx cxs[32];
template <class M, int V, int K> void han(M* m) { chk(m); hit(m->use, m->cb, K, V, sim::rank()); }
template <int V, int K> void par(int u, int c, std::string s) { chkp(u, s); hit(u, c, K, V, sim::rank()); }
template <int V, int K> void nul() { for (size_t i = 0; i < P.cbs.size(); i++) if (P.cbs[i].ty == Void_ && P.cbs[i].kind == K && P.cbs[i].var == V && (K == Bcast || K == FBcast || P.cbs[i].at == sim::rank())) { vhit((int)i, sim::rank()); return; } RT_CHECK(false, "target", "a handler of kind ", K, "/", V, " runs on rank ", sim::rank(), " though no callback names it"); }
template <class M, int V, int K> struct Fm { void operator()(M* m) { han<M, V, K>(m); } };
template <int V, int K> struct Fp { void operator()(int u, int c, std::string s) { par<V, K>(u, c, s); } };
template <int V, int K> struct Fv { void operator()() { nul<V, K>(); } };
struct O { template <class M, int V, int K> void m(M* x) { han<M, V, K>(x); } template <int V, int K> void p(int u, int c, std::string s) { par<V, K>(u, c, s); } };
struct E : vt::Collection<E, vt::Index1D> { bool moving = false; int e() { return (int)this->getIndex().x(); } template <class S> void serialize(S& s) { vt::Collection<E, vt::Index1D>::serialize(s); moving = false; }
  template <class M, int V, int K> void m(M* x) { chk(x); hit(x->use, x->cb, K, V, e()); } template <int V, int K> void p(int u, int c, std::string s) { chkp(u, s); hit(u, c, K, V, e()); }
  void mv(int to) { if (to != sim::rank() && !moving) { moving = true; this->migrate((vt::NodeType)to); } } };
template <class M, int V, int K> void cfree(E* x, M* m) { x->template m<M, V, K>(m); }
vt::CollectionProxy<E, vt::Index1D> px; vt::objgroup::proxy::Proxy<O> og;
using Any = std::variant<std::monostate, CV, CD, CS, CP>; std::vector<Any> made;
template <class C> void fire(C& cb, int use) {
  auto& U = P.uses[(size_t)use]; auto go = [&] {
    if constexpr (std::is_same_v<C, CV>) cb.send();
    else if constexpr (std::is_same_v<C, CD>) { if (U.form == 0) cb.send(use, U.cb); else { auto m = vt::makeMessage<DM>(use, U.cb); if (U.form == 1) cb.sendMsg(m); else cb.send(m.get()); } }
    else if constexpr (std::is_same_v<C, CS>) { if (U.form == 0) cb.send(use, U.cb); else { auto m = vt::makeMessage<SM>(use, U.cb); cb.sendMsg(m); } }
    else { if (U.form == 0) cb.send(use, U.cb, text(use)); else cb.sendTuple(std::make_tuple(use, U.cb, text(use))); } };
  if (!U.own) { go(); return; }
  auto ep = vt::theTerm()->makeEpochRooted("c14", vt::term::UseDS{U.own == 1}); vt::theMsg()->pushEpoch(ep); go(); vt::theMsg()->popEpoch(ep); vt::theTerm()->finishedEpoch(ep); int me = sim::rank();
  vt::theTerm()->addAction(ep, [use, me] { auto& D = P.cbs[(size_t)P.uses[(size_t)use].cb]; (void)me; ++*fin(use); if (D.ty == Void_) return; int n = 0; for (int i = 0; i < 20; i++) n += (int)*got(use, i); bool cb = D.kind == CBcast || D.kind == CFBcast, rb = D.kind == Bcast || D.kind == FBcast || D.kind == OBcast; int want = cb ? P.K : rb ? P.n : 1; RT_CHECK(n == want, "epoch", "the epoch of send ", use, " ended when it had run ", n, " of ", want, " times"); });
}
template <class C> struct Carry : vt::Message { C cb; int use = 0, hop = 0; };
template <class C> void pass(C cb, int use, int hop);
template <class C> void carry(Carry<C>* m) { pass(m->cb, m->use, m->hop); }
template <class C> void pass_p(C cb, int use, int hop) { pass(cb, use, hop); }
template <class C> void pass(C cb, int use, int hop) {
  auto& U = P.uses[(size_t)use]; if (hop >= (int)U.path.size()) { fire(cb, use); return; }
  auto to = (vt::NodeType)U.path[(size_t)hop];
  if ((use + hop) % 2) { auto m = vt::makeMessage<Carry<C>>(); m->cb = cb; m->use = use; m->hop = hop + 1; vt::theMsg()->sendMsg<carry<C>>(to, m); }
  else vt::theMsg()->send<pass_p<C>>(vt::Node{to}, cb, use, hop + 1);
}
void begin(int use) { auto& a = made[(size_t)P.uses[(size_t)use].cb]; std::visit([&](auto& c) { if constexpr (!std::is_same_v<std::decay_t<decltype(c)>, std::monostate>) pass(c, use, 0); else RT_CHECK(false, "harness", "not made"); }, a); }
void begin_at(int use) { begin(use); }
void chain(int use) { int k = P.uses[(size_t)use].next; if (k >= 0) { int o = P.cbs[(size_t)P.uses[(size_t)k].cb].owner; if (o == sim::rank()) begin(k); else vt::theMsg()->send<begin_at>(vt::Node{(vt::NodeType)o}, k); } }
template <int V> Any make(int id) {
  auto& c = P.cbs[(size_t)id]; auto cb = vt::theCB(); auto at = (vt::NodeType)c.at; auto life = c.kind == Once ? vt::pipe::LifetimeEnum::Once : vt::pipe::LifetimeEnum::Indefinite;
  auto anon = [id, V_ = c.var, k = c.kind](int u, int x) { RT_CHECK(x == id, "target", "the function of callback ", id, " runs for callback ", x); hit(u, x, k, V_, sim::rank()); };
  switch (c.ty) {
    case Void_: switch (c.kind) { case Func: case Once: return cb->makeFunc(life, [id] { vhit(id, sim::rank()); });
      case Ctx: cxs[id].cb = id; return cb->makeFunc<Cx>(life, &cxs[id], [](Cx* x) { vhit(x->cb, sim::rank()); });
      case Send: return CV(cb->makeSend<nul<V, Send>>(at)); case Bcast: return CV(cb->makeBcast<nul<V, Bcast>>()); case FSend: return CV(cb->makeSend<Fv<V, FSend>>(at)); default: return CV(cb->makeBcast<Fv<V, FBcast>>()); }
    case Par_: switch (c.kind) { case Send: return CP(cb->makeSend<par<V, Send>>(at)); case Bcast: return CP(cb->makeBcast<par<V, Bcast>>()); case FSend: return CP(cb->makeSend<Fp<V, FSend>>(at)); case FBcast: return CP(cb->makeBcast<Fp<V, FBcast>>());
      case OSend: return CP(cb->makeSend<&O::template p<V, OSend>>(og[at])); case OBcast: return CP(cb->makeBcast<&O::template p<V, OBcast>>(og)); case CSend: return CP(cb->makeSend<&E::template p<V, CSend>>(px(c.at))); default: return CP(cb->makeBcast<&E::template p<V, CBcast>>(px)); }
#define MSGS(M, C) switch (c.kind) { case Func: case Once: return cb->makeFunc<M>(life, [anon](M* m) { chk(m); anon(m->use, m->cb); }); case Ctx: cxs[id].cb = id; return cb->makeFunc<M, Cx>(life, &cxs[id], [anon](M* m, Cx* x) { chk(m); RT_CHECK(x->cb == m->cb, "target", "context of another callback"); anon(m->use, m->cb); }); \
      case Send: return C(cb->makeSend<han<M, V, Send>>(at)); case Bcast: return C(cb->makeBcast<han<M, V, Bcast>>()); case FSend: return C(cb->makeSend<Fm<M, V, FSend>>(at)); case FBcast: return C(cb->makeBcast<Fm<M, V, FBcast>>()); case OSend: return C(cb->makeSend<&O::template m<M, V, OSend>>(og[at])); case OBcast: return C(cb->makeBcast<&O::template m<M, V, OBcast>>(og)); \
      case CSend: return C(cb->makeSend<&E::template m<M, V, CSend>>(px(c.at))); case CBcast: return C(cb->makeBcast<&E::template m<M, V, CBcast>>(px)); case CFSend: return C(cb->makeSend<cfree<M, V, CFSend>>(px(c.at))); default: return C(cb->makeBcast<cfree<M, V, CFBcast>>(px)); }
    case DM_: MSGS(DM, CD)
    default: MSGS(SM, CS)
  }
}
void body(int me) {
  px = vt::makeCollection<E>("c14").bounds(vt::Index1D(P.K)).bulkInsert().wait(); og = vt::theObjGroup()->makeCollective<O>("c14"); made.assign(P.cbs.size(), Any{}); vt::theCollective()->barrier();
  auto moves = [&](size_t from, size_t step) { for (size_t i = from; i < P.moves.size(); i += step) if (P.moves[i].first % P.n == me) px(P.moves[i].first).template send<&E::mv>(P.moves[i].second); };
  vt::runInEpochCollective([&] { moves(0, 2); }); vt::runInEpochCollective([] { vt::theCollection()->getTypelessHolder().invokeAllGroupConstructors(); });   // the group of a collection follows migrations when rebuilt, as balancing does
  for (size_t i = 0; i < P.cbs.size(); i++) if (P.cbs[i].owner == me) made[i] = P.cbs[i].var ? make<1>((int)i) : make<0>((int)i);
  vt::theCollective()->barrier();
  std::set<int> chained; for (auto& u : P.uses) if (u.next >= 0) chained.insert(u.next);
  vt::runInEpochCollective([&] {
    for (size_t u = 0; u < P.uses.size(); u++) { auto& U = P.uses[u]; if (P.cbs[(size_t)U.cb].owner != me || chained.count((int)u)) continue; for (int i = 0; i < U.hold; i++) vt::theSched()->runSchedulerOnceImpl(); begin((int)u); if (P.during && u == 0) moves(1, 2); }
  });
  vt::theCollective()->barrier();
  for (size_t c = 0; c < P.cbs.size(); c++) {
    auto& C = P.cbs[c]; bool cb = C.kind == CBcast || C.kind == CFBcast, rb = C.kind == Bcast || C.kind == FBcast || C.kind == OBcast; int at = C.kind <= Once ? C.owner : C.at, sends = 0;
    for (size_t u = 0; u < P.uses.size(); u++) if (P.uses[u].cb == (int)c) { sends++; RT_CHECK(!P.uses[u].own || *fin((int)u) == 1, "epoch", "the epoch of send ", u, " did not end"); if (C.ty != Void_) for (int i = 0; i < (cb ? P.K : P.n); i++) { int want = cb || rb || i == at; if (!want && C.kind >= CSend) continue; RT_CHECK(*got((int)u, i) == want, "lost", "send ", u, " of callback ", c, " ran ", *got((int)u, i), " times at ", i, ", expected ", want); } }
    if (C.ty == Void_) for (int i = 0; i < P.n; i++) RT_CHECK(*vgot((int)c, i) == (rb || i == at ? sends : 0), "lost", "callback ", c, ", sent ", sends, " times, ran ", *vgot((int)c, i), " times on rank ", i);
  }
}
} // namespace

PBT_TARGET(callbacks, Isolated, 4000, 160000) {
  auto c = rt::gen(g); int n = c.sim.n; P = Prog{}; P.n = n; P.K = (int)g.range(1, 8); auto rr = [&] { return (int)g.draw((uint64_t)n - 1); };
  int nc = (int)g.range(1, 10); std::set<std::array<int, 3>> voids; 
  for (int i = 0; i < nc; i++) {
    Cb x; x.owner = rr(); x.ty = (int)g.weighted({2, 3, 2, 3}); x.kind = (int)g.draw(CFBcast); x.var = (int)g.draw(1);
    if (x.ty == Void_ && x.kind > FBcast) x.kind %= 7; if (x.ty == Par_) { if (x.kind < Send) x.kind += 3; if (x.kind > CBcast) x.kind -= 2; }
    x.at = x.kind >= CSend ? (int)g.draw((uint64_t)P.K - 1) : rr(); 
    if (x.ty == Void_ && x.kind >= Send) { bool bc = x.kind == Bcast || x.kind == FBcast; bool dup = !voids.insert({x.kind, x.var, bc ? 0 : x.at}).second; if (dup) x.kind = Func; }   // a handler without content can serve one callback only, to be told apart
    g.label((char const*[]){"function", "context", "once", "send", "bcast", "functor send", "functor bcast", "object group", "object group bcast", "element", "collection bcast", "element free function", "collection bcast free function"}[x.kind]); P.cbs.push_back(x);
  }
  int nu = (int)g.range(1, 24); std::set<int> used; bool remote = false;
  for (int i = 0; i < nu; i++) {
    Use u; u.cb = (int)g.draw(P.cbs.size() - 1); if (P.cbs[(size_t)u.cb].kind == Once) { if (!used.insert(u.cb).second) continue; }
    int hops = (int)g.weighted({2, 3, 1, 1}); for (int h = 0; h < hops; h++) u.path.push_back(rr()); u.own = (int)g.weighted({3, 1, 1}); u.form = (int)g.draw(2); u.hold = g.chance(1, 4) ? (int)g.range(1, 10) : 0;
    remote |= !u.path.empty() && u.path.back() != P.cbs[(size_t)u.cb].owner; P.uses.push_back(u);
  }
  for (size_t i = 0; i + 1 < P.uses.size(); i++) { auto& C = P.cbs[(size_t)P.uses[i].cb]; bool bc = C.kind == Bcast || C.kind == FBcast || C.kind == OBcast || C.kind == CBcast || C.kind == CFBcast; if (C.ty != Void_ && !bc && g.chance(1, 5)) { bool free_ = true; for (auto& u : P.uses) free_ &= u.next != (int)i + 1; if (free_) P.uses[i].next = (int)i + 1, g.label("from a target"); } }
  for (int e = 0; e < P.K; e++) if (g.chance(1, 3)) P.moves.push_back({e, rr()}); P.during = g.coin(); for (auto& x : P.cbs) if (x.kind == CBcast || x.kind == CFBcast) P.during = false;   // a broadcast may miss or repeat on a moving element
  for (size_t i = 0; i < P.cbs.size(); i++) { auto& x = P.cbs[i]; g.note("callback ", i, ": owner ", x.owner, " type ", (char const*[]){"void", "plain", "serialized", "params"}[x.ty], " kind ", x.kind, "/", x.var, " at ", x.at, "\n"); }
  for (size_t i = 0; i < P.uses.size(); i++) { auto& u = P.uses[i]; g.note("send ", i, ": callback ", u.cb, " path"); for (int h : u.path) g.note(" ", h); g.note(u.own ? " own epoch" : "", " form ", u.form, u.next >= 0 ? pbt::cat(" then ", u.next) : std::string(), "\n"); }
  g.note("elements=", P.K, " moves=", P.moves.size(), P.during ? " (half during)" : "", "\n", rt::show(c)); g.nontrivial(P.cbs.size() > 1 && P.uses.size() > 2 && remote); Prog Q = P;
  rt::run(g, c, [&](int me) { P = Q; body(me); });
}

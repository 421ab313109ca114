// variant: rt
// C35: an active get or put runs the registered function once, with exactly the bytes asked for
#include "common/rt.h"
#include <vt/rdma/rdma_headers.h>
PBT_RULE("a case is up to 5 handles over 1-6 simulated ranks, each with a buffer (raw or of 2, 4 or 8 byte elements) or with functions for any tag or for single tags (registered, replaced and withdrawn between rounds), and up to 3 rounds of up to 40 gets (into buffers or with a continuation) and puts of 1 byte to 20000 bytes by any rank, some by the action that ends another; non-trivial: a remote operation of 64 bytes or more and one by an action.");
namespace {
using vt::ByteType; using vt::TagType; using vt::RDMA_PtrType; using vt::RDMA_GetType;
enum Kind { Buffer_, Any_, Tags_ };
enum What { Put_, Get_, Into_ };
struct Hd { int owner = 0, kind = 0, elt = 0, len = 0; bool by = false; std::vector<int> tags; std::vector<std::vector<int>> put, get; };   // functions of each round by place in tags
struct Op { int round = 0, h = 0, from = 0, what = 0, tag = -1, off = 0, len = 0, parent = -1; bool act = true, whole = false, typed = false, shorter = false; std::vector<int> kids; };
struct Prog { int n = 1, rounds = 1; std::vector<Hd> hs; std::vector<Op> ops; } P;
int64_t& handle(int h) { return sim::shared()[h]; }
int64_t& ran(int i) { return sim::shared()[100 + i]; }
int64_t& done(int i) { return sim::shared()[1000 + i]; }
unsigned char pat(int i, int k) { return (unsigned char)(i * 37 + k * 11 + k / 256 + 5); }
std::vector<std::vector<unsigned char>> bufs, model, mine, gives;   // of handles, of operations
void issue(int i);
int expected(int h, int round, int tag, bool put) { auto& H = P.hs[(size_t)h]; auto& f = (put ? H.put : H.get)[(size_t)round]; if (H.kind == Any_) return f[0]; for (size_t k = 0; k < H.tags.size(); k++) if (H.tags[k] == tag) return f[k]; return -1; }
struct HMsg : vt::BaseMessage { int h = 0; };
std::vector<std::unique_ptr<HMsg>> gmsg, pmsg;
int called(int k, HMsg* m, ByteType n, ByteType off, TagType tag, bool local, bool put) {
  int i = (int)(((int64_t)off - 1) / 3), me = sim::rank(); RT_CHECK(off != vt::no_byte && (int64_t)off % 3 == 1 && i >= 0 && i < (int)P.ops.size(), "offset", put ? "put" : "get", " function called with offset ", off); auto& O = P.ops[(size_t)i]; auto& H = P.hs[(size_t)O.h];
  RT_CHECK((O.what == Put_) == put && H.kind != Buffer_, "kind", "a ", put ? "put" : "get", " function runs for operation ", i);
  RT_CHECK(m && m->h == O.h && me == H.owner, "handle", "operation ", i, " on handle ", O.h, " of rank ", H.owner, " runs on rank ", me, " with the message of handle ", m ? m->h : -1);
  RT_CHECK(tag == O.tag, "tag", "operation ", i, " with tag ", O.tag, " runs with tag ", tag); RT_CHECK(k == expected(O.h, O.round, O.tag, put), "function", "operation ", i, " with tag ", O.tag, " runs function ", k, ", not ", expected(O.h, O.round, O.tag, put));
  RT_CHECK(n == (O.whole ? vt::no_byte : (ByteType)O.len), "length", "operation ", i, " of ", O.len, " bytes runs with ", n); RT_CHECK(local == (O.from == me), "local", "operation ", i, " of rank ", O.from, " says local=", local);
  RT_CHECK(++ran(i) == 1, "duplicate", "the function of operation ", i, " ran ", ran(i), " times"); sim::progress(); return i;
}
int given(const Op& O) { return O.shorter ? (O.len + 1) / 2 : O.len; }
template <int K> RDMA_GetType getf(HMsg* m, ByteType n, ByteType off, TagType tag, bool local) { int i = called(K, m, n, off, tag, local, false); auto& O = P.ops[(size_t)i]; auto& v = gives[(size_t)i]; v.resize((size_t)O.len); for (int k = 0; k < O.len; k++) v[(size_t)k] = pat(i, k); return {reinterpret_cast<RDMA_PtrType>(v.data()), (size_t)given(O)}; }
template <int K> void putf(HMsg* m, RDMA_PtrType p, ByteType n, ByteType off, TagType tag, bool local) { int i = called(K, m, n, off, tag, local, true); for (int k = 0; k < P.ops[(size_t)i].len; k++) RT_CHECK((unsigned char)p[k] == pat(i, k), "bytes", "put ", i, " arrives with other bytes at ", k); }
std::map<std::tuple<int, int, int>, vt::RDMA_HandlerType> handlers;
void setf(int h, int k, bool put, int tag, bool any) {
  auto* m = (put ? pmsg : gmsg)[(size_t)h].get(); auto han = (vt::RDMA_HandleType)handle(h); vt::RDMA_HandlerType x{};
#define F(K) case K: if (put) x = vt::theRDMA()->associatePutFunction<HMsg, putf<K>>(m, han, putf<K>, any, tag); else x = vt::theRDMA()->associateGetFunction<HMsg, getf<K>>(m, han, getf<K>, any, tag); break;
  switch (k) { F(0) F(1) F(2) F(3) }
#undef F
  handlers[{h, put, tag}] = x;
}
void over(int i) {
  auto& O = P.ops[(size_t)i]; RT_CHECK(sim::rank() == O.from, "action rank", "the action of operation ", i, " of rank ", O.from, " runs on rank ", sim::rank());
  RT_CHECK(++done(i) == 1, "action twice", "the action of operation ", i, " ran ", done(i), " times"); if (P.hs[(size_t)O.h].kind != Buffer_) RT_CHECK(ran(i) == 1, "early", "the action of operation ", i, " runs before its function"); sim::progress();
  for (int k : O.kids) issue(k);
}
void got(int i, const unsigned char* p, size_t n) {
  auto& O = P.ops[(size_t)i]; auto& H = P.hs[(size_t)O.h]; if (O.what == Get_) RT_CHECK(n == (size_t)given(O), "bytes", "get ", i, " of ", given(O), " bytes gets ", n);
  for (int k = 0; k < given(O); k++) { unsigned char w = H.kind == Buffer_ ? model[(size_t)O.h][(size_t)(O.off + k)] : pat(i, k); RT_CHECK(p[k] == w, "bytes", "get ", i, " gets ", (int)p[k], " for ", (int)w, " at ", k); }
  if (O.what == Into_) for (size_t k = (size_t)given(O); k < mine[(size_t)i].size(); k++) RT_CHECK(p[k] == 0xEE, "overrun", "get ", i, " writes beyond its ", given(O), " bytes");
}
template <class T> void typed(int i) {
  auto& O = P.ops[(size_t)i]; int s = (int)sizeof(T); auto* p = reinterpret_cast<T*>(mine[(size_t)i].data()); auto han = (vt::RDMA_HandleType)handle(O.h); auto a = O.act ? vt::ActionType{[i] { over(i); }} : vt::ActionType{};
  if (O.what == Put_) vt::theRDMA()->putTypedData(han, p, (ByteType)(O.len / s), (ByteType)(O.off / s), O.tag, a); else vt::theRDMA()->getTypedDataInfoBuf(han, p, O.whole ? vt::no_byte : (ByteType)(O.len / s), O.whole ? vt::no_byte : (ByteType)(O.off / s), O.tag, [i] { got(i, mine[(size_t)i].data(), 0); over(i); });
}
void issue(int i) {
  auto& O = P.ops[(size_t)i]; auto& H = P.hs[(size_t)O.h]; auto han = (vt::RDMA_HandleType)handle(O.h); auto& v = mine[(size_t)i];
  if (O.what == Put_) { v.resize((size_t)O.len); for (int k = 0; k < O.len; k++) v[(size_t)k] = pat(i, k); } else if (O.what == Into_) v.assign((size_t)O.len + 32, 0xEE);
  auto p = reinterpret_cast<RDMA_PtrType>(v.data());
  if (O.typed) { if (H.elt == 2) typed<int16_t>(i); else if (H.elt == 4) typed<int32_t>(i); else typed<double>(i); return; }
  ByteType off = H.kind == Buffer_ ? O.whole ? vt::no_byte : (ByteType)O.off : (ByteType)(3 * i + 1), n = O.whole ? vt::no_byte : (ByteType)O.len; auto a = O.act ? vt::ActionType{[i] { over(i); }} : vt::ActionType{};
  if (O.what == Put_) { if (O.whole && O.tag == -1) vt::theRDMA()->putData(han, p, (ByteType)O.len, a); else vt::theRDMA()->putData(han, p, (ByteType)O.len, off, O.tag, vt::rdma::rdma_default_byte_size, a); }
  else if (O.what == Get_) vt::theRDMA()->getData(han, O.tag, n, off, [i](std::byte* q, size_t s) { got(i, reinterpret_cast<unsigned char*>(q), s); over(i); });
  else vt::theRDMA()->getDataIntoBuf(han, p, n, off, O.tag, [i] { got(i, mine[(size_t)i].data(), 0); over(i); });
}
void body(int me) {
  int nh = (int)P.hs.size(); bufs.assign((size_t)nh, {}); model.assign((size_t)nh, {}); mine.assign(P.ops.size(), {}); gives.assign(P.ops.size(), {}); gmsg.clear(); pmsg.clear();
  for (int h = 0; h < nh; h++) {
    auto& H = P.hs[(size_t)h]; gmsg.push_back(std::make_unique<HMsg>()); pmsg.push_back(std::make_unique<HMsg>()); gmsg.back()->h = pmsg.back()->h = h;
    if (H.kind == Buffer_) { for (int k = 0; k < H.len; k++) model[(size_t)h].push_back(pat(200 + h, k)); bufs[(size_t)h] = model[(size_t)h]; }
    if (H.owner != me) continue; auto* q = bufs[(size_t)h].data(); auto cnt = (ByteType)(H.elt ? H.len / H.elt : 0); vt::RDMA_HandleType x;
    if (H.kind != Buffer_) x = vt::theRDMA()->registerNewRdmaHandler();
    else if (H.elt == 2) x = vt::theRDMA()->registerNewTypedRdmaHandler(reinterpret_cast<int16_t*>(q), cnt);
    else if (H.elt == 4) x = vt::theRDMA()->registerNewTypedRdmaHandler(reinterpret_cast<int32_t*>(q), cnt);
    else if (H.elt == 8) x = vt::theRDMA()->registerNewTypedRdmaHandler(reinterpret_cast<double*>(q), cnt);
    else x = vt::theRDMA()->registerNewRdmaHandler(true, reinterpret_cast<RDMA_PtrType>(q), (ByteType)H.len);
    handle(h) = (int64_t)x;
  }
  vt::theCollective()->barrier();
  for (int h = 0; h < nh; h++) for (int k = 0; k < h; k++) RT_CHECK(handle(h) != handle(k), "same handle", "handles ", k, " and ", h, " are the same");
  for (int r = 0; r < P.rounds; r++) {
    for (int h = 0; h < nh; h++) { auto& H = P.hs[(size_t)h]; if (H.owner != me || H.kind == Buffer_) continue;
      for (int put = 0; put < 2; put++) for (size_t k = 0; k < H.tags.size(); k++) { auto& f = put ? H.put : H.get; int was = r ? f[(size_t)r - 1][k] : -1, now = f[(size_t)r][k]; if (was == now) continue;
        if (was >= 0 && H.by) vt::theRDMA()->unregisterRdmaHandler((vt::RDMA_HandleType)handle(h), handlers[{h, put, H.tags[k]}], H.tags[k]);
        else if (was >= 0) vt::theRDMA()->unregisterRdmaHandler((vt::RDMA_HandleType)handle(h), put ? vt::rdma::Type::Put : vt::rdma::Type::Get, H.tags[k]);
        if (now >= 0) setf(h, now, put, H.tags[k], H.kind == Any_); } }
    for (size_t i = 0; i < P.ops.size(); i++) { auto& O = P.ops[i]; if (O.round == r && O.what == Put_ && P.hs[(size_t)O.h].kind == Buffer_) for (int k = 0; k < O.len; k++) model[(size_t)O.h][(size_t)(O.off + k)] = pat((int)i, k); }
    vt::theCollective()->barrier();
    for (size_t i = 0; i < P.ops.size(); i++) if (P.ops[i].round == r && P.ops[i].from == me && P.ops[i].parent < 0) issue((int)i);
    auto open = [&] {
      for (size_t i = 0; i < P.ops.size(); i++) { auto& O = P.ops[i]; if (O.round != r) continue; auto& H = P.hs[(size_t)O.h];
        if (O.what != Put_ || O.act ? !done((int)i) : H.kind != Buffer_ ? !ran((int)i) : H.owner == me && memcmp(&bufs[(size_t)O.h][(size_t)O.off], &model[(size_t)O.h][(size_t)O.off], (size_t)O.len)) return true; }
      return false;
    };
    vt::theSched()->runSchedulerWhile(open); vt::theCollective()->barrier();
    for (int h = 0; h < nh; h++) if (P.hs[(size_t)h].owner == me) for (size_t k = 0; k < bufs[(size_t)h].size(); k++) RT_CHECK(bufs[(size_t)h][k] == model[(size_t)h][k], "buffer", "byte ", k, " of handle ", h, " is ", (int)bufs[(size_t)h][k], ", not ", (int)model[(size_t)h][k], " after round ", r);
    vt::theCollective()->barrier();
  }
  for (int i = 0; i < 40; i++) vt::theSched()->runSchedulerOnceImpl();
  vt::theCollective()->barrier();
  for (size_t i = 0; i < P.ops.size(); i++) { auto& O = P.ops[i]; RT_CHECK(ran((int)i) == (P.hs[(size_t)O.h].kind != Buffer_), "count", "the function of operation ", i, " ran ", ran((int)i), " times"); RT_CHECK(done((int)i) == (O.what != Put_ || O.act), "count", "the action of operation ", i, " ran ", done((int)i), " times"); }
}
} // namespace
PBT_TARGET(active, Isolated, 1500, 100000) {
  auto c = rt::gen(g); P = Prog{}; int n = P.n = c.sim.n; auto rr = [&] { return (int)g.draw((uint64_t)n - 1); };
  P.rounds = (int)g.range(1, 3); int nh = (int)g.range(1, 5);
  for (int h = 0; h < nh; h++) {
    Hd H; H.owner = rr(); H.kind = (int)g.weighted({3, 1, 2}); H.by = g.coin();
    if (H.kind == Buffer_) { H.elt = g.pick(std::vector<int>{0, 2, 4, 8}); H.len = H.elt ? H.elt * (int)g.range(1, 3000) : (int)g.range(1, 24000); if (g.coin()) H.len = std::max(H.elt, 1) * (int)g.range(1, 60); }
    else { if (H.kind == Any_) H.tags = {-1}; else { int k = (int)g.range(1, 3); for (int t = 0; t < k; t++) { int x = t == 0 && g.coin() ? -1 : (int)g.draw(200); while (std::count(H.tags.begin(), H.tags.end(), x)) x++; H.tags.push_back(x); } }
      for (int r = 0; r < P.rounds; r++) for (int put = 0; put < 2; put++) { auto& f = put ? H.put : H.get; std::vector<int> v; for (size_t k = 0; k < H.tags.size(); k++) v.push_back(r && g.coin() ? f[(size_t)r - 1][k] : g.chance(1, 6) ? -1 : (int)g.draw(3)); f.push_back(v); } }
    P.hs.push_back(H);
  }
  bool big = false, kid = false;
  for (int r = 0; r < P.rounds; r++) {
    std::vector<int> at((size_t)nh, 0); std::vector<int> dir; for (int h = 0; h < nh; h++) dir.push_back((int)g.draw(1)); std::vector<int> parents;
    for (int k = (int)g.draw(40); k > 0 && P.ops.size() < 120; k--) {
      Op O; O.round = r; O.h = (int)g.draw((uint64_t)nh - 1); O.from = rr(); auto& H = P.hs[(size_t)O.h]; int unit = 1;
      if (!parents.empty() && g.chance(1, 3)) { O.parent = g.pick(parents); O.from = P.ops[(size_t)O.parent].from; }
      if (H.kind == Buffer_) {
        O.tag = g.chance(1, 3) ? (int)g.draw(9) : -1; O.typed = H.elt && g.coin(); if (O.typed) unit = H.elt; O.what = dir[(size_t)O.h] ? Put_ : O.typed || g.coin() ? Into_ : Get_;
        if (O.what == Put_) { int lo = (at[(size_t)O.h] + unit - 1) / unit * unit, room = (H.len - lo) / unit; if (room < 1) continue; O.len = unit * (int)g.range(1, g.coin() ? room : std::min(room, 80 / unit + 2)); O.off = lo; O.whole = lo == 0 && !O.typed && g.coin(); at[(size_t)O.h] = lo + O.len; }
        else { int room = H.len / unit; O.off = unit * (int)g.draw((uint64_t)room - 1); O.len = unit * (int)g.range(1, room - O.off / unit); if (g.chance(1, 4)) { O.whole = true; O.off = 0; O.len = H.len; } }
      } else {
        O.what = (int)g.draw(2); auto& f = (O.what == Put_ ? H.put : H.get)[(size_t)r]; std::vector<int> ok; for (size_t t = 0; t < f.size(); t++) if (f[t] >= 0) ok.push_back((int)t); if (ok.empty()) continue;
        O.tag = H.tags[(size_t)g.pick(ok)]; if (H.kind == Any_ && g.coin()) O.tag = (int)g.draw(99); O.len = g.coin() ? (int)g.range(1, 130) : (int)g.range(1, 20000); O.whole = O.what == Get_ && g.chance(1, 4); O.shorter = O.what != Put_ && g.chance(1, 5);
      }
      O.act = O.what != Put_ || g.coin(); int i = (int)P.ops.size(); big |= O.from != H.owner && O.len >= 64; if (O.act) parents.push_back(i);
      if (O.parent >= 0) { P.ops[(size_t)O.parent].kids.push_back(i); kid = true; }
      P.ops.push_back(O);
    }
  }
  for (int h = 0; h < nh; h++) { auto& H = P.hs[(size_t)h]; g.note("handle ", h, " of rank ", H.owner, H.kind == Buffer_ ? pbt::cat(" with ", H.len, " bytes of elements of ", H.elt) : std::string(H.kind == Any_ ? " any tag" : " tags")); for (size_t t = 0; t < H.tags.size(); t++) { g.note(" ", H.tags[t], ": put"); for (auto& v : H.put) g.note(" ", v[t]); g.note(" get"); for (auto& v : H.get) g.note(" ", v[t]); } g.note("\n"); }
  for (size_t i = 0; i < P.ops.size(); i++) { auto& O = P.ops[i]; g.note("operation ", i, " in round ", O.round, O.parent >= 0 ? pbt::cat(" after ", O.parent) : "", ": rank ", O.from, O.what == Put_ ? " puts " : O.what == Get_ ? " gets " : " gets into a buffer ", O.len, " bytes at ", O.off, " handle ", O.h, " tag ", O.tag, O.typed ? " typed" : "", O.whole ? " whole" : "", O.act ? "" : " no action", O.shorter ? " given half" : "", "\n"); }
  g.note(rt::show(c)); g.nontrivial(big && kid); Prog Q = P; rt::run(g, c, [&](int me) { P = Q; body(me); });
}

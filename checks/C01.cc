// variant: rt
// C01: every message is delivered exactly once, to exactly its destinations, with its content
#include "common/rt.h"
PBT_RULE("A case is a random program of sends, broadcasts, serialized, payload and multi-argument messages over 1-6 simulated ranks (root sends and sends from handlers, up to 40 operations in up to 3 epochs), with a random schedule, latencies, eager/rendezvous limit and maximum MPI message size; non-trivial: at least 2 ranks and at least one message crossed ranks.");
namespace {
enum Kind { Pod16, Pod600, Pod5000, Serial, Put, Params, KCount };
char const* const kind_name[] = {"pod16", "pod600", "pod5000", "serialized", "payload", "params"};
struct Op { int parent, origin, dest /* -1 broadcast */, kind, size, phase; bool hold; std::vector<int> kids; };
std::vector<Op> ops;      // same on all ranks
std::vector<std::vector<char>*> keep_alive;
std::vector<std::pair<int, vt::messaging::PendingSend>> held;

char expect_byte(int id, int i) { return (char)((unsigned)(id * 2654435761u + (unsigned)i * 40503u) >> 11); }
int64_t* cnt(int op, int rank) { return sim::shared() + op * sim::max_ranks + rank; }

struct Head { int id; int sender; };
template <int N> struct Pod : vt::Message { Head h; char b[N]; };
struct Ser : vt::Message {
  using MessageParentType = vt::Message; vt_msg_serialize_required();
  Head h; std::vector<int> v; std::string s;
  template <class S> void serialize(S& s_) { MessageParentType::serialize(s_); s_ | h.id | h.sender | v | s; }
};
struct PutM : vt::PayloadMessage { Head h; };

void issue(int id);
void arrived(int id, int sender) {
  int me = sim::rank();
  RT_CHECK(id >= 0 && id < (int)ops.size(), "content", "message with an id that was never sent: ", id);
  Op& o = ops[(size_t)id];
  RT_CHECK(sender == o.origin, "content", "message ", id, " carries sender ", sender, " but was sent by ", o.origin);
  RT_CHECK(o.dest == -1 || o.dest == me, "misdelivered", "message ", id, " for rank ", o.dest, " ran on rank ", me);
  auto from = vt::theContext()->getFromNodeCurrentTask();
  RT_CHECK(from == o.origin, "from-node", "message ", id, " sent by ", o.origin, " reports sender ", from);
  ++*cnt(id, me);
  RT_CHECK(*cnt(id, me) == 1, "duplicate", "message ", id, " (", kind_name[o.kind], ") ran ", *cnt(id, me), " times on rank ", me);
  sim::progress();
  for (int k : o.kids) if (ops[(size_t)k].origin == me) issue(k);
}
template <int N> void podh(Pod<N>* m) {
  for (int i = 0; i < N; i++) RT_CHECK(m->b[i] == expect_byte(m->h.id, i), "content", "message ", m->h.id, " byte ", i, " of ", N, " differs");
  arrived(m->h.id, m->h.sender);
}
void serh(Ser* m) {
  int id = m->h.id; RT_CHECK(id >= 0 && id < (int)ops.size(), "content", "bad id ", id);
  RT_CHECK((int)m->v.size() == ops[(size_t)id].size, "content", "serialized vector has ", m->v.size(), " of ", ops[(size_t)id].size, " elements");
  for (size_t i = 0; i < m->v.size(); i++) RT_CHECK(m->v[i] == (int)(i * 3 + (unsigned)id), "content", "serialized vector element ", i, " differs");
  RT_CHECK(m->s == std::string((size_t)(id % 50), 'x') + std::to_string(id), "content", "serialized string differs");
  arrived(id, m->h.sender);
}
void puth(PutM* m) {
  int id = m->h.id; RT_CHECK(id >= 0 && id < (int)ops.size(), "content", "bad id ", id);
  int sz = ops[(size_t)id].size;
  RT_CHECK((int)m->getPutSize() == sz, "content", "payload of message ", id, " has ", m->getPutSize(), " of ", sz, " bytes");
  char const* p = (char const*)m->getPut();
  for (int i = 0; i < sz; i++) RT_CHECK(p[i] == expect_byte(id, i), "content", "payload byte ", i, " of ", sz, " of message ", id, " differs");
  arrived(id, m->h.sender);
}
void parh(int id, int sender, std::vector<int> const& v, std::string const& s) {
  RT_CHECK(id >= 0 && id < (int)ops.size(), "content", "bad id ", id);
  RT_CHECK((int)v.size() == ops[(size_t)id].size, "content", "argument vector has ", v.size(), " elements");
  for (size_t i = 0; i < v.size(); i++) RT_CHECK(v[i] == (int)(i ^ (unsigned)id), "content", "argument vector element ", i, " differs");
  RT_CHECK(s == std::to_string(id * 7), "content", "argument string differs");
  arrived(id, sender);
}
template <int N> vt::messaging::PendingSend pod(int id, Op& o) {
  auto m = vt::makeMessage<Pod<N>>(); m->h = {id, o.origin};
  for (int i = 0; i < N; i++) m->b[i] = expect_byte(id, i);
  return o.dest < 0 ? vt::theMsg()->broadcastMsg<podh<N>>(m) : vt::theMsg()->sendMsg<podh<N>>(o.dest, m);
}
vt::messaging::PendingSend make(int id) {
  Op& o = ops[(size_t)id];
  switch (o.kind) {
    case Pod16: return pod<16>(id, o);
    case Pod600: return pod<600>(id, o);
    case Pod5000: return pod<5000>(id, o);
    case Serial: {
      auto m = vt::makeMessage<Ser>(); m->h = {id, o.origin};
      for (int i = 0; i < o.size; i++) m->v.push_back(i * 3 + id);
      m->s = std::string((size_t)(id % 50), 'x') + std::to_string(id);
      return o.dest < 0 ? vt::theMsg()->broadcastMsg<serh>(m) : vt::theMsg()->sendMsg<serh>(o.dest, m);
    }
    case Put: {
      auto m = vt::makeMessage<PutM>(); m->h = {id, o.origin};
      auto* buf = new std::vector<char>((size_t)o.size); keep_alive.push_back(buf);
      for (int i = 0; i < o.size; i++) (*buf)[(size_t)i] = expect_byte(id, i);
      m->setPut(reinterpret_cast<std::byte*>(buf->data()), (size_t)o.size);
      return o.dest < 0 ? vt::theMsg()->broadcastMsg<puth>(m) : vt::theMsg()->sendMsg<puth>(o.dest, m);
    }
    default: {
      std::vector<int> v; for (int i = 0; i < o.size; i++) v.push_back(i ^ id);
      if (o.dest < 0) return vt::theMsg()->broadcast<parh>(id, o.origin, v, std::to_string(id * 7));
      return vt::theMsg()->send<parh>(vt::Node{(vt::NodeType)o.dest}, id, o.origin, v, std::to_string(id * 7));
    }
  }
}
void issue(int id) {
  auto p = make(id);
  if (ops[(size_t)id].hold) held.emplace_back(id, std::move(p)); // released when `held` is cleared
}
} // namespace

PBT_TARGET(programs, Isolated, 6000, 120000) {
  auto c = rt::gen(g);
  int n = c.sim.n;
  int max_send = (int)g.pick(std::vector<int>{0, 0, 0, 20000, 3000, 512});
  if (max_send) c.args.push_back("--vt_max_mpi_send_size=" + std::to_string(max_send));
  c.sim.tag_ub = (int)g.pick(std::vector<int>{2147483647, 32767, 1 << 20});
  int phases = (int)g.range(1, 3);
  size_t nops = 1 + g.size(40);
  std::vector<Op> P;
  for (size_t i = 0; i < nops; i++) {
    Op o;
    o.parent = !P.empty() && g.chance(1, 2) ? (int)g.draw(P.size() - 1) : -1;
    o.kind = (int)g.draw(KCount - 1);
    switch (g.weighted({4, 2, 1})) { case 0: o.size = (int)g.range(0, 60); break; case 1: o.size = (int)g.range(60, 700); break; default: o.size = (int)g.range(700, 9000); }
    o.hold = g.chance(1, 12);
    o.dest = g.chance(1, 4) ? -1 : (int)g.draw((uint64_t)n - 1);
    if (o.parent >= 0) {
      Op& p = P[(size_t)o.parent];
      o.phase = p.phase; o.origin = p.dest >= 0 ? p.dest : (int)g.draw((uint64_t)n - 1);
      p.kids.push_back((int)i); o.hold = false;
    } else { o.origin = (int)g.draw((uint64_t)n - 1); o.phase = (int)g.draw((uint64_t)phases - 1); }
    P.push_back(o);
  }
  g.note(rt::show(c), "phases=", phases, " max_mpi_send=", max_send, "\n");
  bool cross = false; std::map<std::string, int> kinds;
  for (size_t i = 0; i < P.size(); i++) {
    Op& o = P[i];
    g.note("  op", i, " ", kind_name[o.kind], " size=", o.size, " ", o.origin, "->", o.dest < 0 ? std::string("all") : std::to_string(o.dest), " phase=", o.phase, " parent=", o.parent, o.hold ? " held" : "", "\n");
    cross |= n > 1 && o.dest != o.origin;
    g.label(std::string(o.dest < 0 ? "bcast " : "send ") + kind_name[o.kind]);
  }
  g.nontrivial(cross);
  rt::run(g, c, [&](int me) {
    ops = P;
    for (int ph = 0; ph < phases; ph++) {
      vt::runInEpochCollective([&] {
        for (size_t i = 0; i < ops.size(); i++) if (ops[i].parent < 0 && ops[i].phase == ph && ops[i].origin == me) issue((int)i);
        held.clear();
      });
      // the epoch is over: every message of this phase has been delivered everywhere
      for (size_t i = 0; i < ops.size(); i++) for (int r = 0; r < n; r++) {
        if (ops[i].phase != ph) continue;
        bool want = ops[i].dest == -1 || ops[i].dest == r;
        RT_CHECK(*cnt((int)i, r) == want, "delivery", "after the epoch, message ", i, " (", kind_name[ops[i].kind], " ", ops[i].origin, "->", ops[i].dest, ") had run ", *cnt((int)i, r), " times on rank ", r);
      }
      vt::theCollective()->barrier();
    }
  });
}

// more data transfers than there are tags: tags are reused
namespace { int64_t recv_n; }
static void manyh(PutM* m) {
  char const* p = (char const*)m->getPut(); int sz = (int)m->getPutSize();
  RT_CHECK(sz == 520 + m->h.id % 9, "content", "payload ", m->h.id, " has ", sz, " bytes");
  for (int i = 0; i < sz; i += 37) RT_CHECK(p[i] == expect_byte(m->h.id, i), "content", "payload of transfer ", m->h.id, " byte ", i, " differs");
  recv_n++; sim::progress();
}
PBT_TARGET(tag_reuse, Isolated, 16, 120) {
  rt::Opt o; o.min_n = 2; o.max_n = 3; auto c = rt::gen(g, o);
  c.sim.tag_ub = 32767; c.sim.latency_max = std::min<uint32_t>(c.sim.latency_max, 30); c.sim.latency_tail = 0;
  c.args.push_back("--vt_max_mpi_send_size=1000000");
  int total = (int)g.range(31700, 33500), batch = (int)g.pick(std::vector<int>{1000, 200, 3000});
  g.note(rt::show(c), "transfers=", total, " batch=", batch, "\n"); g.nontrivial();
  rt::run(g, c, [&](int me) {
    int n = c.sim.n; recv_n = 0;
    std::vector<std::vector<char>> bufs((size_t)batch);
    for (int s = 0; s < total; s += batch) {
      int e = std::min(total, s + batch);
      vt::runInEpochCollective([&] {
        if (me == 0) for (int i = s; i < e; i++) {
          auto& b = bufs[(size_t)(i - s)]; b.resize((size_t)(520 + i % 9));
          for (size_t k = 0; k < b.size(); k++) b[k] = expect_byte(i, (int)k);
          auto m = vt::makeMessage<PutM>(); m->h = {i, 0}; m->setPut((std::byte*)b.data(), b.size());
          vt::theMsg()->sendMsg<manyh>(1 + i % (n - 1), m);
        }
      });
    }
    if (me) { int64_t want = 0; for (int i = 0; i < total; i++) want += 1 + i % (n - 1) == me; RT_CHECK(recv_n == want, "delivery", "received ", recv_n, " of ", want, " transfers"); }
  });
}

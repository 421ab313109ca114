#include <execinfo.h>
#include "sim.h"
#include <mpi.h>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <poll.h>
#include <random>
#include <sched.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>

namespace {

using sim::max_ranks;

constexpr size_t arena_bytes = size_t{1} << 30; // reserved, not committed
constexpr int max_comms = 4096;
constexpr int max_wins = 256;
constexpr size_t max_events = 1 << 18;

struct Msg {
  Msg* next;
  int src_world, dst_world, comm, src_rank, tag;
  size_t bytes;
  uint64_t visible;
  char* data;       // payload in the arena, null until the sender copied it
  int matched;
  int probed;
  uint64_t seq;
};

struct Coll {
  Coll* next;
  int comm; uint64_t key; uint64_t seq;
  int type, root, op, dtype; long count;
  int arrived, left, n;
  uint64_t ready;
  int done;
  char* data[max_ranks];
  size_t bytes[max_ranks];
  long aux[max_ranks], aux2[max_ranks];
  int has[max_ranks];
};

struct CommRec { int n; int world[max_ranks]; int used; };

struct WinRec { int comm; char* base[max_ranks]; size_t size[max_ranks]; int disp[max_ranks];
  int excl_owner[max_ranks]; int shared_cnt[max_ranks]; int freed; };

struct Rma {
  Rma* next;
  int kind; // 0 put 1 get 2 acc 3 fetch_op 4 get_acc
  int win, origin_world, target_rank, dtype, op;
  size_t off, bytes; uint64_t visible;
  char* data;   // origin data (arena)
  char* result; // result (arena)
  int done;
};

struct World {
  sim::Config cfg;
  uint64_t rng;
  uint64_t steps, last_progress, switches, messages, bytes, inflight, max_inflight,
    reordered, misses, rendezvous, collectives, rma, sched_hash, seq;
  double clock;
  double skew[max_ranks];       // work done by this rank alone
  int turn;                     // whose turn (rank), -1 before start
  int fut[max_ranks * 16];      // one futex word per rank, own cache line
  int state[max_ranks];         // 0 = running, 1 = finished
  int blocked[max_ranks];       // in a blocking MPI call
  char const* what[max_ranks];
  uint64_t last_run[max_ranks];
  uint32_t weight[max_ranks];
  uint64_t reroll;
  int quantum;
  uint64_t chan_visible[max_ranks][max_ranks];
  Msg* head[max_ranks]; Msg* tail[max_ranks];
  Rma* rhead[max_ranks]; Rma* rtail[max_ranks];
  uint64_t rchan[max_ranks][max_ranks];
  Coll* colls;
  CommRec comms[max_comms]; int ncomms;
  WinRec wins[max_wins]; int nwins;
  int verdict, vrank; char msg[6000];
  size_t bump; void* freelist[48];
  size_t nevents;
  int64_t shared[sim::shared_words];
  sim::Event ev[max_events];
};

World* W = nullptr;
char* arena = nullptr;
int me = -1;
bool quiet_dead = false;

uint64_t rnd() {
  uint64_t z = (W->rng += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
uint64_t rnd(uint64_t n) { return n ? rnd() % n : 0; }

size_t cls_of(size_t b) { size_t c = 5; while ((size_t{1} << c) < b) c++; return c; }
void* aalloc(size_t b) {
  size_t c = cls_of(b ? b : 1);
  if (W->freelist[c]) { void* p = W->freelist[c]; memcpy(&W->freelist[c], p, sizeof(void*)); return p; }
  size_t sz = size_t{1} << c;
  if (W->bump + sz > arena_bytes) {
    W->verdict = sim::V_LIMIT; W->vrank = me; snprintf(W->msg, sizeof W->msg, "simulator arena exhausted");
    _exit(70);
  }
  void* p = arena + W->bump; W->bump += sz; return p;
}
void afree(void* p, size_t b) {
  if (!p) return;
  size_t c = cls_of(b ? b : 1);
  memcpy(p, &W->freelist[c], sizeof(void*)); W->freelist[c] = p;
}

[[noreturn]] void die(int verdict, char const* m) {
  if (W->verdict == sim::V_OK) {
    W->verdict = verdict; W->vrank = me;
    snprintf(W->msg, sizeof W->msg, "%s", m);
  }
  fflush(nullptr);
  _exit(70);
}
[[noreturn]] void mpierr(char const* m) {
  char b[512]; snprintf(b, sizeof b, "MPI usage error: %s", m);
  die(sim::V_MPI, b);
}

void fwait(int* w, int v) {
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == v)
    syscall(SYS_futex, w, FUTEX_WAIT, v, nullptr, nullptr, 0);
}
void fwake(int* w) { syscall(SYS_futex, w, FUTEX_WAKE, 1, nullptr, nullptr, 0); }

void hand(int next) {
  W->switches++;
  W->sched_hash = (W->sched_hash ^ (next + 1 + (W->steps << 4))) * 0x100000001b3ull;
  W->turn = next;
  __atomic_store_n(&W->fut[next * 16], 1, __ATOMIC_RELEASE);
  fwake(&W->fut[next * 16]);
}
void wait_turn() {
  fwait(&W->fut[me * 16], 0);
  __atomic_store_n(&W->fut[me * 16], 0, __ATOMIC_RELEASE);
}

void reroll() {
  static uint32_t const w1[] = {1, 4, 16, 16}, w2[] = {0, 1, 60, 400};
  for (int i = 0; i < W->cfg.n; i++)
    W->weight[i] = W->cfg.bias == 0 ? 16 : W->cfg.bias == 1 ? w1[rnd(4)] : w2[rnd(4)];
  W->reroll = W->steps + 50 + rnd(W->cfg.bias == 2 ? 3000 : 600);
}

int pick(bool exclude_me) {
  if (W->steps >= W->reroll) reroll();
  int n = W->cfg.n;
  uint64_t tot = 0;
  for (int i = 0; i < n; i++) {
    if (W->state[i]) continue;
    if (exclude_me && i == me) continue;
    if (W->steps - W->last_run[i] > 4000) return i; // bounded fairness
    tot += W->weight[i];
  }
  if (tot == 0) { // all runnable have weight 0
    int c = 0;
    for (int i = 0; i < n; i++) if (!W->state[i] && !(exclude_me && i == me)) c++;
    if (!c) return -1;
    int k = (int)rnd(c);
    for (int i = 0; i < n; i++) if (!W->state[i] && !(exclude_me && i == me)) if (k-- == 0) return i;
  }
  uint64_t x = rnd(tot);
  for (int i = 0; i < n; i++) {
    if (W->state[i] || (exclude_me && i == me)) continue;
    if (x < W->weight[i]) return i;
    x -= W->weight[i];
  }
  return -1;
}

void new_quantum() { W->quantum = 1 + (W->cfg.quantum > 1 ? (int)rnd(2 * W->cfg.quantum - 1) : 0); }

void pump();

void check_limits() {
  static uint64_t const mul = getenv("SIM_HANG") ? strtoull(getenv("SIM_HANG"), nullptr, 10) : 1;
  uint64_t const wide = W->cfg.n > 12 ? 8 : 1;   // phases without progress of the program (startup, finalize) grow with the ranks
  if (W->steps - W->last_progress > W->cfg.hang_steps * mul * wide || W->steps > W->cfg.max_steps * wide) {
    char b[1024]; int k = snprintf(b, sizeof b, "no progress for %llu steps (total %llu);",
      (unsigned long long)(W->steps - W->last_progress), (unsigned long long)W->steps);
    for (int i = 0; i < W->cfg.n; i++)
      k += snprintf(b + k, sizeof b - k, " r%d:%s%s", i, W->state[i] ? "done" : W->blocked[i] ? "blocked-in-" : "polling",
                    !W->state[i] && W->blocked[i] && W->what[i] ? W->what[i] : "");
    if (getenv("SIM_DUMP")) for (int i = 0; i < W->cfg.n; i++) for (Msg* m = W->head[i]; m; m = m->next)
      fprintf(stderr, "in flight: %d -> %d tag %d bytes %zu visible in %lld%s%s%s\n", m->src_world, i, m->tag, m->bytes, (long long)(m->visible - W->steps), m->matched ? " matched" : "", m->probed ? " probed" : "", m->data ? " copied" : "");
    die(sim::V_HANG, b);
  }
}

void step(bool blocked) {
  W->steps++;
  W->clock += W->cfg.dt_ns * 1e-9;
  W->last_run[me] = W->steps;
  check_limits();
  pump();
  if (!blocked && --W->quantum > 0) return;
  int nx = pick(blocked);
  new_quantum();
  if (nx < 0 || nx == me) return;
  hand(nx);
  wait_turn();
  pump();
}
uint64_t n_polls = 0; // MPI_Iprobe calls of this rank

struct Blocked {
  Blocked(char const* w) { W->what[me] = w; W->blocked[me]++; }
  ~Blocked() { W->blocked[me]--; }
};
#define BLOCK_UNTIL(name, cond) do { Blocked b__(name); while (!(cond)) step(true); } while (0)

size_t dsize(MPI_Datatype d) {
  switch (d) {
    case MPI_BYTE: case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR:
    case MPI_INT8_T: case MPI_UINT8_T: case MPI_C_BOOL: case MPI_CXX_BOOL: return 1;
    case MPI_SHORT: case MPI_UNSIGNED_SHORT: case MPI_INT16_T: case MPI_UINT16_T: return 2;
    case MPI_WCHAR: case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_INT32_T: case MPI_UINT32_T: return 4;
    case MPI_LONG_DOUBLE: return sizeof(long double);
    case MPI_C_DOUBLE_COMPLEX: case MPI_CXX_DOUBLE_COMPLEX: return 16;
    case MPI_C_LONG_DOUBLE_COMPLEX: case MPI_CXX_LONG_DOUBLE_COMPLEX: return 2 * sizeof(long double);
    default: return 8;
  }
}

template <class T> void opT(T* io, T const* in, long n, MPI_Op op) {
  for (long i = 0; i < n; i++) {
    T a = io[i], b = in[i];
    switch (op) {
      case MPI_SUM: io[i] = (T)(a + b); break;
      case MPI_PROD: io[i] = (T)(a * b); break;
      case MPI_MAX: io[i] = a < b ? b : a; break;
      case MPI_MIN: io[i] = b < a ? b : a; break;
      case MPI_REPLACE: io[i] = b; break;
      case MPI_NO_OP: break;
      case MPI_LAND: io[i] = (T)(a && b); break;
      case MPI_LOR: io[i] = (T)(a || b); break;
      default:
        if constexpr (std::is_integral_v<T>) {
          if (op == MPI_BAND) io[i] = a & b; else if (op == MPI_BOR) io[i] = a | b; else if (op == MPI_BXOR) io[i] = a ^ b;
          else mpierr("unsupported reduction operator");
        } else mpierr("unsupported reduction operator");
    }
  }
}
void apply_op(void* io, void const* in, long n, MPI_Datatype d, MPI_Op op) {
#define C(M, T) case M: opT((T*)io, (T const*)in, n, op); break
  switch (d) {
    C(MPI_BYTE, uint8_t); C(MPI_CHAR, char); C(MPI_INT16_T, int16_t); C(MPI_UINT16_T, uint16_t); C(MPI_SIGNED_CHAR, signed char); C(MPI_UNSIGNED_CHAR, unsigned char);
    C(MPI_INT8_T, int8_t); C(MPI_UINT8_T, uint8_t); C(MPI_SHORT, short); C(MPI_UNSIGNED_SHORT, unsigned short);
    C(MPI_INT, int); C(MPI_UNSIGNED, unsigned); C(MPI_LONG, long); C(MPI_UNSIGNED_LONG, unsigned long);
    C(MPI_LONG_LONG, long long); C(MPI_UNSIGNED_LONG_LONG, unsigned long long);
    C(MPI_FLOAT, float); C(MPI_DOUBLE, double); C(MPI_LONG_DOUBLE, long double);
    C(MPI_INT32_T, int32_t); C(MPI_UINT32_T, uint32_t); C(MPI_INT64_T, int64_t); C(MPI_UINT64_T, uint64_t);
    C(MPI_CXX_BOOL, bool); C(MPI_C_BOOL, bool);
    default: mpierr("unsupported datatype in reduction");
  }
#undef C
}

// ---- process-local request table -------------------------------------------
struct Req {
  int kind = 0; // 1 send, 2 recv, 3 coll, 4 rma-put, 5 rma-get
  uint64_t done_at = 0; bool complete = false;
  // send
  Msg* m = nullptr; void const* sbuf = nullptr; size_t bytes = 0; bool copied = false;
  // recv
  void* rbuf = nullptr; int src = 0, tag = 0, comm = 0; size_t cap = 0;
  // coll
  Coll* c = nullptr; int crank = 0; void* cbuf = nullptr;
  // rma
  Rma* r = nullptr;
  MPI_Status st{};
};
std::unordered_map<int, Req>* reqs;
std::vector<int>* pending_sends;   // rendezvous sends not yet copied
std::vector<int>* pending_recvs;   // posted receives not yet matched, in post order
int next_req = 1;
struct OriginOp { Rma* r; void* buf; int win, target; void const* src; };
std::vector<OriginOp>* origin_ops; // RMA ops not yet flushed
// The origin buffer of a write belongs to MPI until the operation is complete at the origin.
static void origin_complete(OriginOp& o) {
  if (o.src && memcmp(o.src, o.r->data, o.r->bytes) != 0) mpierr("origin buffer of a one-sided operation changed before the operation completed");
  o.src = nullptr;
}
struct LocalWinLock { int win, target, type; };
std::vector<LocalWinLock>* my_locks;
struct GroupRec { std::vector<int> world; };
std::vector<GroupRec>* groups;
std::unordered_map<uint64_t, uint64_t>* coll_seq;

int comm_rank(int c) {
  if (c < 0 || c >= W->ncomms) mpierr("invalid communicator");
  auto& r = W->comms[c];
  for (int i = 0; i < r.n; i++) if (r.world[i] == me) return i;
  return -1;
}

uint64_t latency() {
  auto& c = W->cfg;
  if (!c.latency_max) return 0;
  uint64_t l = rnd(c.latency_max + 1);
  if (rnd(1000) < c.latency_tail) l *= 20;
  return l;
}

bool matches(Msg* m, int src, int tag, int comm) {
  return m->comm == comm && (src == MPI_ANY_SOURCE || m->src_rank == src) && (tag == MPI_ANY_TAG || m->tag == tag);
}

// first visible matching message; among several sources choose one at random
Msg* find(int src, int tag, int comm) {
  Msg* cand[max_ranks]; int n = 0; uint64_t seen = 0;
  for (Msg* m = W->head[me]; m; m = m->next) {
    if (m->matched || (seen >> m->src_world & 1) || !matches(m, src, tag, comm)) continue;
    seen |= uint64_t{1} << m->src_world; // only the first matching one per source
    if (m->visible <= W->steps) cand[n++] = m;
  }
  if (!n) return nullptr;
  if (n == 1) return cand[0];
  int k = (int)rnd(n);
  if (k) W->reordered++;
  return cand[k];
}

void unlink_msg(Msg* x) {
  Msg* p = nullptr;
  for (Msg* m = W->head[me]; m; p = m, m = m->next) if (m == x) {
    if (p) p->next = m->next; else W->head[me] = m->next;
    if (W->tail[me] == m) W->tail[me] = p;
    return;
  }
}

// Make progress on everything this rank is responsible for
void pump() {
  // rendezvous sends whose receiver matched
  for (size_t i = 0; i < pending_sends->size();) {
    Req& r = (*reqs)[(*pending_sends)[i]];
    if (r.m->matched) {
      char* d = (char*)aalloc(r.bytes);
      memcpy(d, r.sbuf, r.bytes);
      r.m->data = d; r.copied = true;
      r.done_at = W->steps + rnd(W->cfg.done_delay + 1);
      pending_sends->erase(pending_sends->begin() + (long)i);
    } else i++;
  }
  // posted receives: match in post order
  for (size_t i = 0; i < pending_recvs->size();) {
    Req& r = (*reqs)[(*pending_recvs)[i]];
    Msg* m = find(r.src, r.tag, r.comm);
    if (m) {
      m->matched = 1; r.m = m;
      r.done_at = W->steps + rnd(W->cfg.done_delay + 1);
      if (m->bytes > r.cap) mpierr("message truncated on receive");
      pending_recvs->erase(pending_recvs->begin() + (long)i);
    } else i++;
  }
  // one-sided operations which target this rank
  while (Rma* r = W->rhead[me]) {
    if (r->visible > W->steps) break;
    W->rhead[me] = r->next; if (!W->rhead[me]) W->rtail[me] = nullptr;
    WinRec& w = W->wins[r->win];
    if (r->off + r->bytes > w.size[r->target_rank]) mpierr("one-sided access outside the window");
    char* t = w.base[r->target_rank] + r->off;
    long cnt = (long)(r->bytes / dsize(r->dtype));
    switch (r->kind) {
      case 0: memcpy(t, r->data, r->bytes); break;
      case 1: memcpy(r->result, t, r->bytes); break;
      case 2: apply_op(t, r->data, cnt, r->dtype, r->op); break;
      case 3: case 4:
        memcpy(r->result, t, r->bytes);
        apply_op(t, r->data, cnt, r->dtype, r->op); break;
    }
    r->done = 1;
  }
}

bool try_complete(int id) {
  auto it = reqs->find(id);
  if (it == reqs->end()) mpierr("test of an unknown or already completed request");
  Req& r = it->second;
  if (r.complete) return true;
  switch (r.kind) {
    case 1:
      if (r.copied && W->steps >= r.done_at) r.complete = true;
      break;
    case 2:
      if (r.m && r.m->data && W->steps >= r.done_at) {
        if (r.m->bytes) memcpy(r.rbuf, r.m->data, r.m->bytes);
        r.st.MPI_SOURCE = r.m->src_rank; r.st.MPI_TAG = r.m->tag; r.st._bytes = r.m->bytes; r.st.MPI_ERROR = 0;
        unlink_msg(r.m);
        afree(r.m->data, r.m->bytes);
        W->inflight--;
        r.complete = true; // the Msg record itself is never reused: the sender may still look at it
      }
      break;
    case 3: {
      Coll* c = r.c;
      bool rdy = (c->type == 1 /*bcast*/) ? c->has[c->root] : c->arrived == c->n;
      if (rdy && W->steps >= r.done_at) {
        if (c->type == 1 && r.crank != c->root) memcpy(r.cbuf, c->data[c->root], c->bytes[c->root]);
        c->left++;
        r.complete = true;
      }
      break;
    }
    case 4: // a write is complete at its origin when its buffer was read, not when it took effect
      if (W->steps >= r.done_at) {
        for (auto& o : *origin_ops) if (o.r == r.r) origin_complete(o);
        r.complete = true;
      }
      break;
    case 5:
      if (r.r->done && W->steps >= r.done_at) {
        if (r.r->result && r.rbuf) memcpy(r.rbuf, r.r->result, r.r->bytes);
        for (auto i = origin_ops->begin(); i != origin_ops->end(); ++i) if (i->r == r.r) { origin_ops->erase(i); break; }
        r.complete = true;
      }
      break;
  }
  return r.complete;
}

int new_req(Req const& r) { int id = next_req++; if (next_req < 0) next_req = 1; (*reqs)[id] = r; return id; }

enum { CT_BARRIER = 0, CT_BCAST = 1, CT_ALLREDUCE = 2, CT_REDUCE = 3, CT_ALLGATHER = 4, CT_SPLIT = 5, CT_CREATE = 6, CT_WIN = 7, CT_WINFREE = 8, CT_FINAL = 9, CT_DUP = 10 };
char const* const ct_names[] = {"Barrier","Bcast","Allreduce","Reduce","Allgather","Comm_split","Comm_create_group","Win_create","Win_free","Finalize","Comm_dup"};

Coll* join(int comm, uint64_t key, int n, int crank, int type, int root, long count, int dtype, int op) {
  uint64_t seq = (*coll_seq)[key]++;
  Coll* c = W->colls;
  for (; c; c = c->next) if (c->key == key && c->seq == seq) break;
  if (!c) {
    c = (Coll*)aalloc(sizeof(Coll)); memset(c, 0, sizeof(Coll));
    c->comm = comm; c->key = key; c->seq = seq; c->type = type; c->root = root; c->count = count; c->dtype = dtype; c->op = op; c->n = n;
    c->next = W->colls; W->colls = c; W->collectives++;
  } else if (c->type != type || c->root != root || (count >= 0 && c->count != count) || c->op != op) {
    char b[256]; snprintf(b, sizeof b, "mismatched collective: %s (root %d count %ld) joined by %s (root %d count %ld)",
      ct_names[c->type], c->root, c->count, ct_names[type], root, count);
    mpierr(b);
  }
  c->arrived++; c->has[crank] = 1;
  if (c->arrived == c->n) { // full: unlink (records are small and never reused)
    Coll** p = &W->colls; while (*p != c) p = &(*p)->next; *p = c->next;
  }
  return c;
}
Coll* join_comm(int comm, int type, int root, long count, int dtype, int op, int* crank) {
  *crank = comm_rank(comm);
  if (*crank < 0) mpierr("collective on a communicator this rank is not in");
  return join(comm, (uint64_t)comm, W->comms[comm].n, *crank, type, root, count, dtype, op);
}

int add_comm(std::vector<int> const& world) {
  if (W->ncomms >= max_comms) die(sim::V_LIMIT, "too many communicators");
  int id = W->ncomms++;
  CommRec& c = W->comms[id]; c.n = (int)world.size(); c.used = 1;
  for (int i = 0; i < c.n; i++) c.world[i] = world[(size_t)i];
  return id;
}

} // namespace

// ---- sim API ----------------------------------------------------------------
namespace sim {

int rank() { return me; }
int nranks() { return W->cfg.n; }
uint64_t steps() { return W->steps; }
void progress() { W->last_progress = W->steps; }
void log(int kind, int64_t a, int64_t b, int64_t c, int64_t d) {
  progress();
  if (W->nevents >= max_events) die(V_LIMIT, "event log full");
  W->ev[W->nevents++] = Event{me, kind, a, b, c, d, W->steps};
}
void fail(std::string const& m) { die(V_FAIL, m.c_str()); }
void yield(int k) { for (int i = 0; i < k; i++) step(false); }
void advance(double s) { W->clock += s; }
void work(double s) { W->skew[me] += s; }
uint64_t polls() { return n_polls; }
int64_t* shared() { return W->shared; }
Event const* events(size_t* n) { *n = W->nevents; return W->ev; }
bool all_delivered() { return W->inflight == 0; }

std::string Result::describe() const {
  static char const* const n[] = {"ok", "property-failure", "crash", "abort", "hang", "exit", "mpi-misuse", "limit"};
  return std::string(n[verdict]) + " on rank " + std::to_string(rank) + ": " + msg;
}

Result run(Config const& cfg, std::function<void(int)> const& body) {
  Result res;
  if (!W) {
    W = (World*)mmap(nullptr, sizeof(World), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    arena = (char*)mmap(nullptr, arena_bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (W == MAP_FAILED || arena == MAP_FAILED) { perror("mmap"); _exit(3); }
  } else {
    madvise(arena, arena_bytes, MADV_REMOVE);
  }
  memset((void*)W, 0, offsetof(World, ev));
  W->cfg = cfg;
  W->rng = cfg.seed * 0x9e3779b97f4a7c15ull + 0x1234567;
  W->clock = 1.0;
  W->turn = -1;
  std::vector<int> all; for (int i = 0; i < cfg.n; i++) all.push_back(i);
  add_comm(all); // world
  for (int i = 0; i < cfg.n; i++) (void)0;
  W->ncomms = 2; W->comms[1].n = 1; // MPI_COMM_SELF: not used for messages
  reroll(); new_quantum();
  int pfd[2]; if (pipe2(pfd, O_CLOEXEC)) { perror("pipe"); _exit(3); }
  fcntl(pfd[1], F_SETPIPE_SZ, 1 << 20);
  fflush(nullptr);
  std::vector<pid_t> pid((size_t)cfg.n, 0);
  for (int r = 0; r < cfg.n; r++) {
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(3); }
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      me = r;
      dup2(pfd[1], 1); dup2(pfd[1], 2);
      fcntl(1, F_SETFL, fcntl(1, F_GETFL) | O_NONBLOCK); // output beyond the pipe is dropped
      rlimit rl{(rlim_t)cfg.cpu_seconds, (rlim_t)cfg.cpu_seconds + 2}; setrlimit(RLIMIT_CPU, &rl);
      rlimit nc{0, 0}; setrlimit(RLIMIT_CORE, &nc);
      mallopt(M_PERTURB, 0xa5);
      if (getenv("SIM_BT")) for (int sg : {SIGUSR2, SIGTRAP, SIGSEGV, SIGABRT}) signal(sg, [](int sg) { void* b[60]; int k = backtrace(b, 60); char f[200]; snprintf(f, sizeof f, "%s.%d", getenv("SIM_BT"), me); int fd = open(f, O_WRONLY | O_CREAT | O_TRUNC, 0644); backtrace_symbols_fd(b, k, fd); close(fd); if (sg != SIGUSR2) { signal(sg, SIG_DFL); raise(sg); } });
      reqs = new std::unordered_map<int, Req>; pending_sends = new std::vector<int>; pending_recvs = new std::vector<int>;
      origin_ops = new std::vector<OriginOp>; my_locks = new std::vector<LocalWinLock>;
      groups = new std::vector<GroupRec>; coll_seq = new std::unordered_map<uint64_t, uint64_t>;
      wait_turn();
      W->last_run[me] = W->steps;
      try { body(r); }
      catch (std::exception const& e) { die(V_ABORT, (std::string("uncaught exception: ") + e.what()).c_str()); }
      catch (...) { die(V_ABORT, "uncaught exception"); }
      fflush(nullptr);
      W->state[me] = 1;
      int nx = pick(true); new_quantum();
      if (nx >= 0) hand(nx);
      _exit(0);
    }
    pid[(size_t)r] = p;
  }
  close(pfd[1]);
  me = -1;
  int first = pick(false);
  hand(first);
  int left = cfg.n; bool killed = false;
  std::string out;
  auto drain = [&](int timeout) {
    pollfd pf{pfd[0], POLLIN, 0};
    char buf[65536];
    while (poll(&pf, 1, timeout) > 0 && (pf.revents & POLLIN)) {
      ssize_t k = read(pfd[0], buf, sizeof buf);
      if (k <= 0) break;
      out.append(buf, (size_t)k); timeout = 0;
      if (out.size() > 400000) out.erase(0, out.size() - 200000);
    }
  };
  while (left) {
    int st; pid_t p = waitpid(-1, &st, 0);
    if (p < 0) { if (errno == EINTR) continue; break; }
    int r = -1; for (int i = 0; i < cfg.n; i++) if (pid[(size_t)i] == p) r = i;
    if (r < 0) continue;
    left--; pid[(size_t)r] = 0;
    bool good = WIFEXITED(st) && WEXITSTATUS(st) == 0 && W->state[r] == 1;
    if (!good && !killed) {
      if (W->verdict == V_OK) {
        W->vrank = r;
        if (WIFSIGNALED(st)) {
          W->verdict = V_CRASH;
          int s = WTERMSIG(st);
          snprintf(W->msg, sizeof W->msg, "killed by signal %d (%s)", s, strsignal(s));
          if (s == SIGKILL) W->verdict = V_LIMIT; // out of memory, not ours
          if (s == SIGXCPU) { W->verdict = V_HANG; snprintf(W->msg, sizeof W->msg, "ran %d s of CPU time without finishing", cfg.cpu_seconds); }
        } else {
          W->verdict = V_EXIT; snprintf(W->msg, sizeof W->msg, "exited with status %d before finishing", WEXITSTATUS(st));
        }
      }
      killed = true;
      if (getenv("SIM_BT")) for (auto q : pid) if (q) { kill(q, SIGUSR2); usleep(200000); drain(10); } // stacks, for debugging
      for (auto q : pid) if (q) kill(q, SIGKILL);
    }
  }
  drain(0);
  close(pfd[0]);
  res.verdict = W->verdict; res.rank = W->vrank; res.msg = W->msg;
  res.steps = W->steps; res.switches = W->switches; res.messages = W->messages; res.bytes = W->bytes;
  res.max_inflight = W->max_inflight; res.reordered = W->reordered; res.misses = W->misses; res.rendezvous = W->rendezvous;
  res.collectives = W->collectives; res.rma = W->rma; res.sched_hash = W->sched_hash;
  for (int i = 0; i < cfg.n; i++) for (Msg* m = W->head[i]; m; m = m->next) { res.unreceived++; if (getenv("SIM_BT")) fprintf(stderr, "unreceived: %d -> %d tag %d bytes %zu\n", m->src_world, i, m->tag, m->bytes); }
  res.events.assign(W->ev, W->ev + W->nevents);
  if (!getenv("SIM_BT") && out.size() > 6000) out.erase(0, out.size() - 6000);
  res.output = out;
  return res;
}

} // namespace sim

// random_device is the one entropy source vt consults; make it a function of the seed
namespace std {
void random_device::_M_init(std::string const&) {}
void random_device::_M_init_pretr1(std::string const&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return W ? (result_type)rnd() : 12345u; }
random_device::result_type random_device::_M_getval_pretr1() { return W ? (result_type)rnd() : 12345u; }
double random_device::_M_getentropy() const noexcept { return 0; }
}

// ---- MPI --------------------------------------------------------------------
extern "C" {

static int g_init = 0, g_fini = 0;
int MPI_Init(int*, char***) { g_init = 1; step(false); return 0; }
int MPI_Init_thread(int*, char***, int r, int* p) { *p = r; return MPI_Init(0, 0); }
int MPI_Initialized(int* f) { *f = g_init; return 0; }
int MPI_Finalized(int* f) { *f = g_fini; return 0; }
int MPI_Finalize(void) {
  int cr; Coll* c = join_comm(0, CT_FINAL, 0, 0, 0, 0, &cr);
  BLOCK_UNTIL("Finalize", c->arrived == c->n);
  g_fini = 1;
  return 0;
}
int MPI_Abort(MPI_Comm, int code) {
  char b[64]; snprintf(b, sizeof b, "MPI_Abort(%d)", code);
  die(sim::V_ABORT, b);
}
int MPI_Get_version(int* a, int* b) { *a = 3; *b = 1; return 0; }
int MPI_Get_library_version(char* s, int* n) { strcpy(s, "simmpi"); *n = 6; return 0; }
int MPI_Get_processor_name(char* s, int* n) { strcpy(s, "sim"); *n = 3; return 0; }
double MPI_Wtime(void) { if (!W || me < 0) return 1.0; W->clock += 1e-8; return W->clock + W->skew[me]; }
double MPI_Wtick(void) { return 1e-9; }
int MPI_Error_string(int e, char* s, int* n) { *n = snprintf(s, MPI_MAX_ERROR_STRING, "error %d", e); return 0; }

int MPI_Comm_rank(MPI_Comm c, int* r) { *r = c == MPI_COMM_SELF ? 0 : comm_rank(c); return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) { *n = W->comms[c].n; return 0; }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
static int split(MPI_Comm comm, long color, long key, int type, MPI_Comm* out) {
  int cr; Coll* c = join_comm(comm, type, 0, 0, 0, 0, &cr);
  c->aux[cr] = color; c->aux2[cr] = key;
  BLOCK_UNTIL("Comm_split", c->arrived == c->n);
  if (!c->done) { // the first one out builds all of the new communicators
    int ids[max_ranks];
    for (int i = 0; i < c->n; i++) ids[i] = -2;
    for (int i = 0; i < c->n; i++) {
      if (ids[i] != -2) continue;
      if (c->aux[i] == MPI_UNDEFINED) { ids[i] = MPI_COMM_NULL; continue; }
      std::vector<std::pair<long, int>> mem;
      for (int j = 0; j < c->n; j++) if (c->aux[j] == c->aux[i]) mem.push_back({c->aux2[j], j});
      for (size_t a = 0; a < mem.size(); a++) for (size_t b = a + 1; b < mem.size(); b++) if (mem[b] < mem[a]) std::swap(mem[a], mem[b]);
      std::vector<int> w; for (auto& m : mem) w.push_back(W->comms[comm].world[m.second]);
      int id = add_comm(w);
      for (auto& m : mem) ids[m.second] = id;
    }
    for (int i = 0; i < c->n; i++) c->bytes[i] = (size_t)(long)ids[i];
    c->done = 1;
  }
  *out = (int)(long)c->bytes[cr];
  return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* o) { int r = comm_rank(c); return split(c, 0, r, CT_DUP, o); }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* o) { return split(c, color, key, CT_SPLIT, o); }
int MPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info, MPI_Comm* o) { return split(c, 0, key, CT_SPLIT, o); }
int MPI_Comm_group(MPI_Comm c, MPI_Group* g) {
  GroupRec r; for (int i = 0; i < W->comms[c].n; i++) r.world.push_back(W->comms[c].world[i]);
  groups->push_back(r); *g = (int)groups->size() - 1; return 0;
}
int MPI_Group_incl(MPI_Group g, int n, int const* ranks, MPI_Group* o) {
  GroupRec r; auto src = (*groups)[(size_t)g];
  for (int i = 0; i < n; i++) {
    if (ranks[i] < 0 || ranks[i] >= (int)src.world.size()) mpierr("Group_incl: rank out of range");
    for (int j = 0; j < i; j++) if (ranks[j] == ranks[i]) mpierr("Group_incl: duplicate rank");
    r.world.push_back(src.world[(size_t)ranks[i]]);
  }
  groups->push_back(r); *o = (int)groups->size() - 1; return 0;
}
int MPI_Group_free(MPI_Group* g) { *g = MPI_GROUP_NULL; return 0; }
int MPI_Comm_create_group(MPI_Comm comm, MPI_Group g, int tag, MPI_Comm* o) {
  auto& gr = (*groups)[(size_t)g];
  uint64_t key = 0x8000000000000000ull | ((uint64_t)comm << 48) | ((uint64_t)(unsigned)tag << 16);
  int cr = -1;
  for (size_t i = 0; i < gr.world.size(); i++) { key = (key ^ (uint64_t)(gr.world[i] + 1)) * 0x100000001b3ull; if (gr.world[i] == me) cr = (int)i; }
  key |= 0x8000000000000000ull;
  if (cr < 0) { *o = MPI_COMM_NULL; return 0; }
  Coll* c = join(comm, key, (int)gr.world.size(), cr, CT_CREATE, 0, 0, 0, 0);
  BLOCK_UNTIL("Comm_create_group", c->arrived == c->n);
  if (!c->done) { c->aux[0] = add_comm(gr.world); c->done = 1; }
  *o = (int)c->aux[0];
  return 0;
}
int MPI_Comm_get_attr(MPI_Comm, int k, void* v, int* flag) {
  if (k == MPI_TAG_UB) { *(int**)v = &W->cfg.tag_ub; *flag = 1; } else *flag = 0;
  return 0;
}
int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function*, MPI_Errhandler* e) { *e = 2; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }

int MPI_Isend(void const* buf, int cnt, MPI_Datatype d, int dst, int tag, MPI_Comm comm, MPI_Request* rq) {
  step(false);
  if (cnt < 0) mpierr("negative count in Isend");
  if (comm < 0 || comm >= W->ncomms) mpierr("invalid communicator in Isend");
  if (dst < 0 || dst >= W->comms[comm].n) mpierr("destination rank out of range in Isend");
  if (tag < 0 || tag > W->cfg.tag_ub) mpierr("tag out of range in Isend");
  size_t bytes = (size_t)cnt * dsize(d);
  int dw = W->comms[comm].world[dst];
  Msg* m = (Msg*)aalloc(sizeof(Msg)); memset(m, 0, sizeof *m);
  m->src_world = me; m->dst_world = dw; m->comm = comm; m->src_rank = comm_rank(comm); m->tag = tag; m->bytes = bytes;
  uint64_t v = W->steps + latency();
  if (v < W->chan_visible[me][dw]) v = W->chan_visible[me][dw];
  W->chan_visible[me][dw] = v; m->visible = v; m->seq = W->seq++;
  if (W->tail[dw]) W->tail[dw]->next = m; else W->head[dw] = m;
  W->tail[dw] = m;
  W->messages++; W->bytes += bytes; W->inflight++; if (W->inflight > W->max_inflight) W->max_inflight = W->inflight;
  Req r; r.kind = 1; r.m = m; r.sbuf = buf; r.bytes = bytes;
  bool eager = bytes <= W->cfg.eager_limit;
  if (eager) {
    m->data = (char*)aalloc(bytes); if (bytes) memcpy(m->data, buf, bytes);
    r.copied = true; r.done_at = W->steps + rnd(W->cfg.done_delay + 1);
  } else W->rendezvous++;
  int id = new_req(r); *rq = id;
  if (!eager) pending_sends->push_back(id);
  return 0;
}
int MPI_Irecv(void* buf, int cnt, MPI_Datatype d, int src, int tag, MPI_Comm comm, MPI_Request* rq) {
  step(false);
  if (cnt < 0) mpierr("negative count in Irecv");
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= W->comms[comm].n)) mpierr("source rank out of range in Irecv");
  Req r; r.kind = 2; r.rbuf = buf; r.cap = (size_t)cnt * dsize(d); r.src = src; r.tag = tag; r.comm = comm;
  int id = new_req(r); *rq = id; pending_recvs->push_back(id);
  pump();
  return 0;
}
int MPI_Iprobe(int src, int tag, MPI_Comm comm, int* flag, MPI_Status* st) {
  step(false); n_polls++;
  *flag = 0;
  if (W->cfg.probe_miss && rnd(1000) < W->cfg.probe_miss) { W->misses++; return 0; }
  Msg* m = find(src, tag, comm);
  if (m) {
    *flag = 1; m->probed = 1;
    if (st) { st->MPI_SOURCE = m->src_rank; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->_bytes = m->bytes; }
  }
  return 0;
}
int MPI_Get_count(MPI_Status const* st, MPI_Datatype d, int* c) { *c = (int)(st->_bytes / dsize(d)); return 0; }
int MPI_Test(MPI_Request* rq, int* flag, MPI_Status* st) {
  step(false);
  if (*rq == MPI_REQUEST_NULL) { *flag = 1; return 0; }
  *flag = try_complete(*rq);
  if (*flag) { if (st) *st = (*reqs)[*rq].st; reqs->erase(*rq); *rq = MPI_REQUEST_NULL; }
  return 0;
}
int MPI_Testall(int n, MPI_Request rq[], int* flag, MPI_Status st[]) {
  step(false);
  *flag = 1;
  for (int i = 0; i < n; i++) if (rq[i] != MPI_REQUEST_NULL && !try_complete(rq[i])) *flag = 0;
  if (*flag) for (int i = 0; i < n; i++) if (rq[i] != MPI_REQUEST_NULL) {
    if (st) st[i] = (*reqs)[rq[i]].st;
    reqs->erase(rq[i]); rq[i] = MPI_REQUEST_NULL;
  }
  return 0;
}
int MPI_Wait(MPI_Request* rq, MPI_Status* st) {
  if (*rq == MPI_REQUEST_NULL) return 0;
  BLOCK_UNTIL("Wait", try_complete(*rq));
  if (st) *st = (*reqs)[*rq].st;
  reqs->erase(*rq); *rq = MPI_REQUEST_NULL;
  return 0;
}
int MPI_Waitall(int n, MPI_Request rq[], MPI_Status st[]) {
  for (int i = 0; i < n; i++) MPI_Wait(&rq[i], st ? &st[i] : nullptr);
  return 0;
}
int MPI_Send(void const* b, int c, MPI_Datatype d, int dst, int tag, MPI_Comm cm) { MPI_Request r; MPI_Isend(b, c, d, dst, tag, cm, &r); return MPI_Wait(&r, nullptr); }
int MPI_Recv(void* b, int c, MPI_Datatype d, int src, int tag, MPI_Comm cm, MPI_Status* st) { MPI_Request r; MPI_Irecv(b, c, d, src, tag, cm, &r); return MPI_Wait(&r, st); }

int MPI_Barrier(MPI_Comm comm) {
  step(false);
  int cr; Coll* c = join_comm(comm, CT_BARRIER, 0, 0, 0, 0, &cr);
  BLOCK_UNTIL("Barrier", c->arrived == c->n);
  return 0;
}
int MPI_Ibarrier(MPI_Comm comm, MPI_Request* rq) {
  step(false);
  int cr; Coll* c = join_comm(comm, CT_BARRIER, 0, 0, 0, 0, &cr);
  Req r; r.kind = 3; r.c = c; r.crank = cr; r.done_at = W->steps + rnd(W->cfg.done_delay + 1);
  *rq = new_req(r); return 0;
}
static Coll* bcast_join(void* buf, long bytes, int root, MPI_Comm comm, int* cr) {
  Coll* c = join_comm(comm, CT_BCAST, root, bytes, 0, 0, cr);
  if (*cr == root) { c->data[root] = (char*)aalloc((size_t)bytes); memcpy(c->data[root], buf, (size_t)bytes); c->bytes[root] = (size_t)bytes; }
  else if (!c->data[root]) c->has[root] = 0;
  if (c->data[root]) c->has[root] = 1;
  return c;
}
int MPI_Bcast(void* buf, int cnt, MPI_Datatype d, int root, MPI_Comm comm) {
  step(false);
  int cr; Coll* c = bcast_join(buf, (long)((size_t)cnt * dsize(d)), root, comm, &cr);
  BLOCK_UNTIL("Bcast", c->data[root] != nullptr);
  if (cr != root) memcpy(buf, c->data[root], c->bytes[root]);
  return 0;
}
int MPI_Ibcast(void* buf, int cnt, MPI_Datatype d, int root, MPI_Comm comm, MPI_Request* rq) {
  step(false);
  int cr; Coll* c = bcast_join(buf, (long)((size_t)cnt * dsize(d)), root, comm, &cr);
  Req r; r.kind = 3; r.c = c; r.crank = cr; r.cbuf = buf; r.done_at = W->steps + rnd(W->cfg.done_delay + 1);
  *rq = new_req(r); return 0;
}
static Coll* contribute(int type, void const* s, long cnt, MPI_Datatype d, MPI_Op op, int root, MPI_Comm comm, int* cr) {
  step(false);
  Coll* c = join_comm(comm, type, root, cnt, d, op, cr);
  size_t b = (size_t)cnt * dsize(d);
  c->data[*cr] = (char*)aalloc(b); memcpy(c->data[*cr], s, b); c->bytes[*cr] = b;
  BLOCK_UNTIL(ct_names[type], c->arrived == c->n);
  return c;
}
int MPI_Allreduce(void const* s, void* r, int cnt, MPI_Datatype d, MPI_Op op, MPI_Comm comm) {
  int cr; Coll* c = contribute(CT_ALLREDUCE, s == MPI_IN_PLACE ? r : s, cnt, d, op, 0, comm, &cr);
  memcpy(r, c->data[0], c->bytes[0]);
  for (int i = 1; i < c->n; i++) apply_op(r, c->data[i], cnt, d, op);
  return 0;
}
int MPI_Reduce(void const* s, void* r, int cnt, MPI_Datatype d, MPI_Op op, int root, MPI_Comm comm) {
  int cr; Coll* c = contribute(CT_REDUCE, s == MPI_IN_PLACE ? r : s, cnt, d, op, root, comm, &cr);
  if (cr == root) {
    memcpy(r, c->data[0], c->bytes[0]);
    for (int i = 1; i < c->n; i++) apply_op(r, c->data[i], cnt, d, op);
  }
  return 0;
}
int MPI_Allgather(void const* s, int cnt, MPI_Datatype d, void* r, int, MPI_Datatype, MPI_Comm comm) {
  int cr; Coll* c = contribute(CT_ALLGATHER, s, cnt, d, 0, 0, comm, &cr);
  for (int i = 0; i < c->n; i++) memcpy((char*)r + c->bytes[0] * (size_t)i, c->data[i], c->bytes[0]);
  return 0;
}

// ---- one-sided --------------------------------------------------------------
int MPI_Alloc_mem(MPI_Aint sz, MPI_Info, void* p) { *(void**)p = malloc((size_t)(sz ? sz : 1)); return 0; }
int MPI_Free_mem(void* p) { free(p); return 0; }
int MPI_Win_create(void* base, MPI_Aint sz, int disp, MPI_Info, MPI_Comm comm, MPI_Win* win) {
  step(false);
  int cr; Coll* c = join_comm(comm, CT_WIN, 0, 0, 0, 0, &cr);
  c->data[cr] = (char*)base; c->bytes[cr] = (size_t)sz; c->aux[cr] = disp;
  BLOCK_UNTIL("Win_create", c->arrived == c->n);
  if (!c->done) {
    if (W->nwins >= max_wins) die(sim::V_LIMIT, "too many windows");
    int id = W->nwins++; WinRec& w = W->wins[id]; memset(&w, 0, sizeof w); w.comm = comm;
    for (int i = 0; i < c->n; i++) { w.base[i] = c->data[i]; w.size[i] = c->bytes[i]; w.disp[i] = (int)c->aux[i]; w.excl_owner[i] = -1; }
    c->root = id; c->done = 1;
  }
  *win = c->root;
  return 0;
}
static void flush_ops(int win, int target, bool local = false) {
  for (size_t i = 0; i < origin_ops->size();) {
    OriginOp o = (*origin_ops)[i];
    if (o.win != win || (target >= 0 && o.target != target)) { i++; continue; }
    origin_complete((*origin_ops)[i]);
    if (local && !o.r->result) { i++; continue; }
    BLOCK_UNTIL("Win_flush", o.r->done);
    if (o.r->result && o.buf) memcpy(o.buf, o.r->result, o.r->bytes);
    // indices may have moved while blocked (nested completion is impossible, so it is still there)
    origin_ops->erase(origin_ops->begin() + (long)i);
  }
}
int MPI_Win_free(MPI_Win* win) {
  step(false);
  flush_ops(*win, -1);
  int cr; Coll* c = join_comm(W->wins[*win].comm, CT_WINFREE, 0, 0, 0, 0, &cr);
  BLOCK_UNTIL("Win_free", c->arrived == c->n);
  W->wins[*win].freed = 1;
  *win = MPI_WIN_NULL; return 0;
}
int MPI_Win_lock(int type, int t, int, MPI_Win win) {
  step(false);
  WinRec& w = W->wins[win];
  if (t < 0 || t >= W->comms[w.comm].n) mpierr("Win_lock target out of range");
  for (auto& l : *my_locks) if (l.win == win && l.target == t) mpierr("Win_lock: already locked by this rank");
  if (type == MPI_LOCK_EXCLUSIVE) {
    BLOCK_UNTIL("Win_lock", w.excl_owner[t] == -1 && w.shared_cnt[t] == 0);
    w.excl_owner[t] = me;
  } else {
    BLOCK_UNTIL("Win_lock", w.excl_owner[t] == -1);
    w.shared_cnt[t]++;
  }
  my_locks->push_back({win, t, type});
  return 0;
}
int MPI_Win_unlock(int t, MPI_Win win) {
  step(false);
  flush_ops(win, t);
  WinRec& w = W->wins[win];
  for (auto i = my_locks->begin(); i != my_locks->end(); ++i) if (i->win == win && i->target == t) {
    if (i->type == MPI_LOCK_EXCLUSIVE) w.excl_owner[t] = -1; else w.shared_cnt[t]--;
    my_locks->erase(i); return 0;
  }
  mpierr("Win_unlock without lock");
}
int MPI_Win_fence(int, MPI_Win win) { step(false); flush_ops(win, -1); MPI_Barrier(W->wins[win].comm); return 0; }
int MPI_Win_sync(MPI_Win) { step(false); return 0; }
int MPI_Win_flush(int t, MPI_Win win) { step(false); flush_ops(win, t); return 0; }
int MPI_Win_flush_local(int t, MPI_Win win) { step(false); flush_ops(win, t, true); return 0; }
int MPI_Win_flush_all(MPI_Win win) { step(false); flush_ops(win, -1); return 0; }

static Rma* rma_op(int kind, void const* o, void* res, int cnt, MPI_Datatype d, int t, MPI_Aint disp, MPI_Op op, MPI_Win win) {
  step(false);
  if (win < 0 || win >= W->nwins || W->wins[win].freed) mpierr("one-sided operation on an invalid window");
  WinRec& w = W->wins[win];
  if (t < 0 || t >= W->comms[w.comm].n) mpierr("one-sided target rank out of range");
  bool locked = false;
  for (auto& l : *my_locks) if (l.win == win && l.target == t) locked = true;
  if (!locked) mpierr("one-sided operation outside of a lock epoch");
  if (cnt < 0 || disp < 0) mpierr("negative count or displacement in one-sided operation");
  Rma* r = (Rma*)aalloc(sizeof(Rma)); memset(r, 0, sizeof *r);
  r->kind = kind; r->win = win; r->origin_world = me; r->target_rank = t; r->dtype = d; r->op = op;
  r->off = (size_t)disp * (size_t)w.disp[t]; r->bytes = (size_t)cnt * dsize(d);
  if (r->off + r->bytes > w.size[t]) mpierr("one-sided access outside the window");
  if (o) { r->data = (char*)aalloc(r->bytes); memcpy(r->data, o, r->bytes); }
  if (res) r->result = (char*)aalloc(r->bytes);
  int tw = W->comms[w.comm].world[t];
  uint64_t v = W->steps + latency();
  if (v < W->rchan[me][tw]) v = W->rchan[me][tw];
  W->rchan[me][tw] = v; r->visible = v;
  // keep the inbox ordered by visibility
  Rma** p = &W->rhead[tw];
  while (*p && (*p)->visible <= v) p = &(*p)->next;
  r->next = *p; *p = r; if (!r->next) W->rtail[tw] = r;
  W->rma++;
  origin_ops->push_back({r, res, win, t, o});
  return r;
}
int MPI_Put(void const* o, int c, MPI_Datatype d, int t, MPI_Aint disp, int, MPI_Datatype, MPI_Win w) { rma_op(0, o, nullptr, c, d, t, disp, 0, w); return 0; }
int MPI_Get(void* o, int c, MPI_Datatype d, int t, MPI_Aint disp, int, MPI_Datatype, MPI_Win w) { rma_op(1, nullptr, o, c, d, t, disp, 0, w); return 0; }
static int rma_req(Rma* r, void* res, MPI_Request* rq) {
  Req q; q.kind = res ? 5 : 4; q.r = r; q.rbuf = res; q.done_at = W->steps + rnd(W->cfg.done_delay + 1);
  *rq = new_req(q); return 0;
}
int MPI_Rput(void const* o, int c, MPI_Datatype d, int t, MPI_Aint disp, int, MPI_Datatype, MPI_Win w, MPI_Request* rq) { return rma_req(rma_op(0, o, nullptr, c, d, t, disp, 0, w), nullptr, rq); }
int MPI_Rget(void* o, int c, MPI_Datatype d, int t, MPI_Aint disp, int, MPI_Datatype, MPI_Win w, MPI_Request* rq) { return rma_req(rma_op(1, nullptr, o, c, d, t, disp, 0, w), o, rq); }
int MPI_Accumulate(void const* o, int c, MPI_Datatype d, int t, MPI_Aint disp, int, MPI_Datatype, MPI_Op op, MPI_Win w) { rma_op(2, o, nullptr, c, d, t, disp, op, w); return 0; }
int MPI_Raccumulate(void const* o, int c, MPI_Datatype d, int t, MPI_Aint disp, int, MPI_Datatype, MPI_Op op, MPI_Win w, MPI_Request* rq) { return rma_req(rma_op(2, o, nullptr, c, d, t, disp, op, w), nullptr, rq); }
int MPI_Fetch_and_op(void const* o, void* res, MPI_Datatype d, int t, MPI_Aint disp, MPI_Op op, MPI_Win w) { rma_op(3, o, res, 1, d, t, disp, op, w); return 0; }
int MPI_Get_accumulate(void const* o, int c, MPI_Datatype d, void* res, int, MPI_Datatype, int t, MPI_Aint disp, int, MPI_Datatype, MPI_Op op, MPI_Win w) { rma_op(4, o, res, c, d, t, disp, op, w); return 0; }

} // extern "C"

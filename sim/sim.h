// Deterministic simulated machine: N ranks as forked processes, exactly one of
// which runs at any time; every MPI call is a scheduling point.  The schedule,
// message latencies, request completion times and the clock are all functions
// of SimConfig (and of nothing else).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <functional>
#include <vector>

namespace sim {

constexpr int max_ranks = 40;

struct Config {
  int n = 2;
  uint64_t seed = 1;
  uint32_t latency_max = 0;      // steps; 0 = immediately visible
  uint32_t latency_tail = 0;     // per-mille of messages which get 20x latency
  uint32_t eager_limit = 1 << 30;// larger messages use rendezvous
  uint32_t quantum = 8;          // mean number of MPI calls per turn
  uint32_t bias = 0;             // 0 uniform, 1 biased, 2 strongly starving
  uint32_t probe_miss = 0;       // per-mille of Iprobe calls that miss
  uint32_t done_delay = 0;       // max extra steps until a request completes
  int tag_ub = 2147483647;
  uint32_t dt_ns = 200;          // clock advance per MPI call
  uint64_t hang_steps = 4000000;  // no user progress for this long => hang
  uint64_t max_steps = 30000000;
  int cpu_seconds = 60;          // CPU bound per rank (loops without MPI calls)
};

enum Verdict { V_OK = 0, V_FAIL, V_CRASH, V_ABORT, V_HANG, V_EXIT, V_MPI, V_LIMIT };

struct Event { int32_t rank; int32_t kind; int64_t a, b, c, d; uint64_t step; };

struct Result {
  int verdict = V_OK;
  int rank = -1;
  std::string msg;
  uint64_t steps = 0, switches = 0, messages = 0, bytes = 0, max_inflight = 0,
    reordered = 0, misses = 0, rendezvous = 0, collectives = 0, rma = 0;
  uint64_t unreceived = 0;
  uint64_t sched_hash = 0;
  std::vector<Event> events;
  std::string output;            // tail of what the ranks printed
  std::string describe() const;
};

// Parent side: run body(rank) on cfg.n ranks
Result run(Config const& cfg, std::function<void(int)> const& body);

// Rank side
int rank();
int nranks();
void log(int kind, int64_t a = 0, int64_t b = 0, int64_t c = 0, int64_t d = 0); // also counts as progress
void progress();                      // user-level progress (resets hang clock)
[[noreturn]] void fail(std::string const& msg);  // property violated on this rank
void yield(int k = 1);                // scheduling points without an MPI operation
void advance(double sec);             // advance the virtual clock
void work(double sec);                // advance the clock of this rank only
uint64_t polls();                     // MPI_Iprobe calls of this rank so far
int64_t* shared();                    // 65536 shared words, zeroed per case
constexpr int shared_words = 65536;
Event const* events(size_t* n);
uint64_t steps();
bool all_delivered();                 // no message in flight (other than buffered in vt)

} // namespace sim

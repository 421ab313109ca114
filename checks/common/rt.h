// Running vt on the simulated machine
#pragma once
#include <vt/transport.h>
#include "pbt.h"
#include "sim.h"

namespace rt {

struct Cfg { sim::Config sim; std::vector<std::string> args; };

struct Opt { int min_n = 1, max_n = 6; bool vary_args = true; };

inline Cfg gen(pbt::Gen& g, Opt o = {}) {
  Cfg c;
  c.sim.n = (int)g.range(o.min_n, o.max_n);
  c.sim.seed = g.seed();
  switch (g.weighted({3, 3, 2, 2})) {
    case 0: c.sim.latency_max = 0; break;
    case 1: c.sim.latency_max = (uint32_t)g.range(1, 40); break;
    case 2: c.sim.latency_max = (uint32_t)g.range(40, 400); break;
    case 3: c.sim.latency_max = (uint32_t)g.range(1, 60); c.sim.latency_tail = (uint32_t)g.range(1, 150); break;
  }
  c.sim.bias = (uint32_t)g.range(0, 2);
  c.sim.quantum = (uint32_t)g.pick(std::vector<int>{8, 1, 3, 30, 200});
  if (c.sim.n > 12 && c.sim.quantum > 8) c.sim.quantum = 8;   // with many ranks long turns only make polling dominate
  c.sim.probe_miss = (uint32_t)g.pick(std::vector<int>{0, 0, 50, 300});
  c.sim.done_delay = (uint32_t)g.pick(std::vector<int>{0, 10, 100});
  c.sim.eager_limit = (uint32_t)g.pick(std::vector<int>{1 << 30, 0, 256, 4096});
  c.args = {"prog", "--vt_quiet", "--vt_no_color", "--vt_no_SIGINT", "--vt_no_SIGSEGV", "--vt_no_SIGBUS",
            "--vt_no_terminate", "--vt_no_stack", "--vt_no_warn_stack"};
  if (o.vary_args) {
    switch (g.weighted({3, 1, 1, 1})) {
      case 1: c.args.push_back("--vt_sched_num_progress=1"); break;
      case 2: c.args.push_back("--vt_sched_num_progress=5"); break;
      case 3: c.args.push_back("--vt_sched_progress_han=1"); break;
      default: break;
    }
    switch (g.weighted({3, 1, 1})) {
      case 1: c.args.push_back("--vt_term_rooted_use_ds"); break;
      case 2: c.args.push_back("--vt_term_rooted_use_wave"); break;
      default: break;
    }
    if (g.chance(1, 4)) c.args.push_back("--vt_no_detect_hang");
  }
  return c;
}

inline std::string show(Cfg const& c) {
  std::string s = pbt::cat("ranks=", c.sim.n, " seed=", c.sim.seed, " latency<=", c.sim.latency_max, "(tail ", c.sim.latency_tail, "/1000) bias=", c.sim.bias,
    " quantum=", c.sim.quantum, " probe_miss=", c.sim.probe_miss, " done_delay=", c.sim.done_delay, " eager<=", c.sim.eager_limit, " args:");
  for (size_t i = 9; i < c.args.size(); i++) s += " " + c.args[i];
  return s + "\n";
}

inline void boot(Cfg const& c) {
  static std::vector<std::string> keep; static std::vector<char*> av;
  keep = c.args; for (auto& s : keep) av.push_back(&s[0]); av.push_back(nullptr);
  int argc = (int)keep.size(); char** argv = av.data();
  vt::initialize(argc, argv);
}
inline void down() { vt::finalize(); }

// run the body between initialize and finalize on every rank; any abnormal end fails the case
inline sim::Result run(pbt::Gen& g, Cfg const& c, std::function<void(int)> const& body, std::function<void(int)> const& after = {}) {
  auto r = sim::run(c.sim, [&](int me) { boot(c); body(me); down(); if (after) after(me); });
  g.note("steps=", r.steps, " switches=", r.switches, " messages=", r.messages, " rendezvous=", r.rendezvous, " max-in-flight=", r.max_inflight, "\n");
  if (r.reordered) g.label("arrival order of sources varied");
  if (r.rendezvous) g.label("rendezvous sends");
  if (r.misses) g.label("missed probes");
  if (r.verdict == sim::V_LIMIT) throw pbt::Discard{r.msg};
  if (r.verdict) {
    static char const* const n[] = {"ok", "property", "crash", "abort", "hang", "exit", "mpi-misuse", "limit"};
    std::string label = n[r.verdict];
    if (r.verdict == sim::V_FAIL) { auto p = r.msg.find(':'); if (p != std::string::npos && p < 60) label = r.msg.substr(0, p); }
    pbt::fail(label, r.describe() + "\n" + r.output);
  }
  return r;
}

#define RT_CHECK(cond, label, ...) do { if (!(cond)) ::sim::fail(std::string(label) + ": " + ::pbt::cat(__VA_ARGS__)); } while (0)

} // namespace rt

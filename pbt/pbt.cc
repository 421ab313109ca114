#include "pbt.h"
#include <atomic>
#include <cstring>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <poll.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

extern char const* const pbt_rule;

namespace pbt {

std::vector<Target>& targets() { static std::vector<Target> t; return t; }

uint64_t Gen::next() {
  uint64_t z = (rng_ += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
uint64_t Gen::draw(uint64_t max) {
  uint64_t v;
  if (replay_) { v = pos_ < in_.size() ? in_[pos_++] : 0; if (v > max) v = max; }
  else v = max == UINT64_MAX ? next() : next() % (max + 1);
  keep(v);
  if (rec.size() > 2000000) throw Discard{"too many choices"};
  return v;
}
int64_t Gen::range(int64_t lo, int64_t hi) {
  if (hi <= lo) return lo;
  uint64_t max = (uint64_t)hi - (uint64_t)lo, v;
  if (replay_) { v = pos_ < in_.size() ? in_[pos_++] : 0; if (v > max) v = max; }
  else {
    uint64_t k = next() % 16;
    if (k == 0) v = max; else if (k == 1) v = 0; else if (k == 2) v = max > 1 ? max - 1 : 0; else if (k == 3) v = max ? 1 : 0;
    else v = max == UINT64_MAX ? next() : next() % (max + 1);
  }
  return (int64_t)((uint64_t)lo + keep(v));
}
uint64_t Gen::bits(int n) {
  uint64_t mask = n >= 64 ? ~0ull : ((1ull << n) - 1), v;
  if (n <= 0) return 0;
  if (replay_) { v = pos_ < in_.size() ? in_[pos_++] : 0; v &= mask; }
  else {
    switch (next() % 10) {
      case 0: v = 0; break;
      case 1: v = mask; break;
      case 2: v = 1ull << (next() % (uint64_t)n); break;
      case 3: v = mask ^ (1ull << (next() % (uint64_t)n)); break;
      case 4: v = (1ull << (next() % (uint64_t)n)) - 1; break;
      case 5: v = next() % 16; break;
      default: v = next() >> (next() % 64); if (next() & 1) v = next(); break;
    }
    v &= mask;
  }
  return keep(v);
}
uint64_t Gen::u64() { return bits(64); }
bool Gen::chance(unsigned num, unsigned den) {
  if (replay_) return draw(1);
  bool b = next() % den < num; keep(b); return b;
}
size_t Gen::weighted(std::vector<unsigned> const& w) {
  if (replay_) return draw(w.size() - 1);
  uint64_t tot = 0; for (auto x : w) tot += x;
  uint64_t r = next() % tot; size_t i = 0;
  while (r >= w[i]) { r -= w[i]; i++; }
  keep(i); return i;
}
size_t Gen::size(size_t max) {
  if (replay_) return draw(max);
  size_t m = max;
  switch (next() % 4) { case 0: m = std::min<size_t>(max, 3); break; case 1: m = std::min<size_t>(max, 12); break; case 2: m = std::min(max, max / 4 + 1); break; default: break; }
  size_t v = next() % (m + 1);
  return keep(v);
}
double Gen::real(double lo, double hi) { return lo + (hi - lo) * ((double)(draw((1ull << 53) - 1)) * 0x1.0p-53); }
std::vector<int> Gen::perm(int n) {
  std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(i);
  for (int i = 0; i + 1 < n; i++) std::swap(v[(size_t)i], v[(size_t)i + draw((uint64_t)(n - 1 - i))]);
  return v;
}
std::string Gen::text(size_t max, std::string const& al) {
  std::string s; size_t n = size(max);
  for (size_t i = 0; i < n; i++) s += al[draw(al.size() - 1)];
  return s;
}

// ---- runner -----------------------------------------------------------------
namespace {

struct Outcome { bool failed = false, discarded = false; std::string label, msg, sample; std::vector<uint64_t> rec; };

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }

int g_cpu = 20;             // CPU seconds one in-process case may use
std::string g_tmp;          // scratch directory

Outcome run_here(Target const& t, Gen& g) {
  Outcome o;
  try { t.fn(g); }
  catch (Fail& f) { o.failed = true; o.label = f.label; o.msg = f.msg; }
  catch (Discard&) { o.discarded = true; }
  catch (std::exception& e) { o.failed = true; o.label = "exception"; o.msg = std::string("unexpected exception: ") + e.what(); }
  o.rec = g.rec; o.sample = g.sample;
  return o;
}

void wr(int fd, void const* p, size_t n) { char const* c = (char const*)p; while (n) { ssize_t k = write(fd, c, n); if (k <= 0) _exit(9); c += k; n -= (size_t)k; } }
void wrs(int fd, std::string const& s) { uint64_t n = s.size(); wr(fd, &n, 8); wr(fd, s.data(), n); }

struct Child { pid_t pid; int fd; std::string buf; std::string err; size_t cand; Gen::Live* live; };

using Before = std::vector<std::pair<Target const*, uint64_t>>; // cases to run first in the same process
Child spawn(Target const& t, std::vector<uint64_t> const* choices, uint64_t seed, size_t tag, Before const* before = nullptr) {
  int p[2]; if (pipe2(p, O_CLOEXEC)) { perror("pipe"); exit(3); }
  std::string err = g_tmp + "/err." + std::to_string(getpid()) + "." + std::to_string(tag);
  auto* live = (Gen::Live*)mmap(nullptr, sizeof(Gen::Live), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (live == MAP_FAILED) { perror("mmap"); exit(3); }
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    close(p[0]);
    int e = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(e, 2); dup2(e, 1);
    rlimit rl{(rlim_t)g_cpu, (rlim_t)g_cpu + 2}; setrlimit(RLIMIT_CPU, &rl);
    rlimit nc{0, 0}; setrlimit(RLIMIT_CORE, &nc);
    if (before) for (auto& b : *before) { Gen pg(b.second); run_here(*b.first, pg); }
    Gen g = choices ? Gen(*choices) : Gen(seed);
    g.sampling = true; g.live = live;
    Outcome o = run_here(t, g);
    char h[2] = {(char)o.failed, (char)o.discarded}; wr(p[1], h, 2);
    wrs(p[1], o.label); wrs(p[1], o.msg); wrs(p[1], o.sample);
    wrs(p[1], std::string((char*)o.rec.data(), o.rec.size() * 8));
    _exit(0);
  }
  close(p[1]);
  return Child{pid, p[0], "", err, tag, live};
}
Outcome finish(Child& c, std::vector<uint64_t> const* choices) {
  char b[65536]; ssize_t k;
  while ((k = read(c.fd, b, sizeof b)) > 0) c.buf.append(b, (size_t)k);
  close(c.fd);
  int st; waitpid(c.pid, &st, 0);
  Outcome o;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && c.buf.size() >= 2) {
    size_t p = 2; o.failed = c.buf[0]; o.discarded = c.buf[1];
    auto rs = [&] { uint64_t n; memcpy(&n, &c.buf[p], 8); p += 8; std::string s = c.buf.substr(p, n); p += n; return s; };
    o.label = rs(); o.msg = rs(); o.sample = rs(); std::string r = rs();
    o.rec.resize(r.size() / 8); memcpy(o.rec.data(), r.data(), r.size());
  } else {
    o.failed = true;
    std::ifstream f(c.err); std::string e((std::istreambuf_iterator<char>(f)), {});
    if (e.size() > 3000) { auto q = e.find("ERROR: AddressSanitizer"); auto q2 = e.find("runtime error:"); size_t s = std::min(q, q2); if (s != std::string::npos) e = e.substr(s > 200 ? s - 200 : 0, 3000); else e = e.substr(e.size() - 3000); }
    if (WIFSIGNALED(st)) {
      int s = WTERMSIG(st);
      if (s == SIGKILL) { o.failed = false; o.discarded = true; }  // memory limit of the sandbox, inconclusive
      else if (s == SIGXCPU || s == SIGVTALRM) { o.label = "no-answer"; o.msg = "did not finish within " + std::to_string(g_cpu) + " s of CPU time\n" + e; }
      else { o.label = "crash"; o.msg = std::string("killed by ") + strsignal(s) + "\n" + e; }
    } else { o.label = "crash"; o.msg = "exited with status " + std::to_string(WEXITSTATUS(st)) + "\n" + e; }
    if (choices) o.rec = *choices; else o.rec.assign(c.live->c, c.live->c + c.live->n);
    o.sample.assign(c.live->s, c.live->len);
  }
  munmap(c.live, sizeof(Gen::Live));
  unlink(c.err.c_str());
  return o;
}
Outcome attempt(Target const& t, std::vector<uint64_t> const& choices) { Child c = spawn(t, &choices, 0, 0); return finish(c, &choices); }

// evaluate candidates in parallel; the first (in order) that still fails, or -1
int first_failing(Target const& t, std::vector<std::vector<uint64_t>> const& cand, std::string const& label, int jobs, Outcome& out, double deadline) {
  for (size_t i = 0; i < cand.size(); i += (size_t)jobs) {
    if (now() > deadline) return -1;
    std::vector<Child> cs; std::vector<Outcome> os;
    for (size_t j = i; j < cand.size() && j < i + (size_t)jobs; j++) cs.push_back(spawn(t, &cand[j], 0, j));
    for (auto& c : cs) os.push_back(finish(c, &cand[c.cand]));
    for (size_t j = 0; j < os.size(); j++) if (os[j].failed && os[j].label == label) { out = os[j]; return (int)(i + j); }
  }
  return -1;
}

std::vector<uint64_t> shrink(Target const& t, Outcome& cur, int jobs, double budget, long& tried) {
  double deadline = now() + budget;
  std::vector<uint64_t> best = cur.rec;
  auto trim = [](std::vector<uint64_t> v) { while (!v.empty() && v.back() == 0) v.pop_back(); return v; };
  bool progress = true;
  auto accept = [&](std::vector<std::vector<uint64_t>> const& cand) {
    Outcome o; tried += (long)cand.size();
    int k = first_failing(t, cand, cur.label, jobs, o, deadline);
    if (k < 0) return false;
    std::vector<uint64_t> nb = trim(o.rec.size() <= cand[(size_t)k].size() || cand[(size_t)k].empty() ? o.rec : cand[(size_t)k]);
    auto ob = trim(best);
    if (nb.size() > ob.size() || (nb.size() == ob.size() && !(nb < ob))) return false;
    best = nb; cur = o; return true;
  };
  while (progress && now() < deadline) {
    progress = false;
    // delete chunks
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1 && now() < deadline; len /= 2) {
      bool again = true;
      size_t from = 0;
      while (again && now() < deadline) {
        again = false;
        std::vector<std::vector<uint64_t>> cand;
        size_t stepn = len >= 4 ? len / 2 : 1;
        for (size_t s = from; s + len <= best.size() && cand.size() < 256; s += stepn) {
          auto v = best; v.erase(v.begin() + (long)s, v.begin() + (long)(s + len)); cand.push_back(v);
        }
        if (!cand.empty() && accept(cand)) { again = true; progress = true; }
        else if (cand.size() == 256) { from += 256 * stepn; again = true; }
      }
      if (len == 1) break;
    }
    // zero and lower values
    for (size_t i = 0; i < best.size() && now() < deadline; i++) {
      if (!best[i]) continue;
      std::vector<std::vector<uint64_t>> cand; uint64_t x = best[i];
      for (uint64_t y : {uint64_t{0}, uint64_t{1}, x >> 32, x >> 16, x / 4, x / 2, x - x / 4, x - 1}) if (y < x) { auto v = best; v[i] = y; cand.push_back(v); }
      if (accept(cand)) { progress = true; i = i > 0 ? i - 1 : i; }
    }
    if (best.size() > 400) break;
  }
  return best;
}

std::string esc(std::string const& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o;
}

struct Shared {
  std::atomic<int> stop;
  struct W { std::atomic<int> target; std::atomic<long> idx; std::atomic<uint64_t> cases; std::atomic<int> busy; char pad[64]; } w[64];
};

struct Known { std::string label, what; };

struct Found { int w = 0; size_t t; long i; uint64_t seed; Outcome o; };

uint64_t case_seed(uint64_t seed, char const* name, long i) {
  uint64_t h = 1469598103934665603ull ^ (seed * 0x9e3779b97f4a7c15ull);
  for (char const* c = name; *c; c++) h = (h ^ (unsigned char)*c) * 1099511628211ull;
  h = (h ^ (uint64_t)i) * 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33;
  return h;
}

} // namespace
} // namespace pbt

using namespace pbt;

int main(int argc, char** argv) {
  // addresses must not vary between runs
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("PBT_REEXEC")) {
    if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) { setenv("PBT_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
  }
  unsetenv("PBT_REEXEC");
  std::map<std::string, std::string> a;
  std::vector<std::string> only;
  for (int i = 1; i < argc; i++) {
    std::string s = argv[i];
    if (s.substr(0, 2) == "--") {
      std::string v = i + 1 < argc ? argv[i + 1] : ""; i++;
      if (s == "--only") only.push_back(v); else a[s.substr(2)] = v;
    }
  }
  auto get = [&](char const* k, char const* d) { return a.count(k) ? a[k] : std::string(d); };
  std::string prop = get("property", "X00"), tier = get("tier", "quick"), out = get("out", "");
  uint64_t seed = strtoull(get("seed", "1").c_str(), nullptr, 10);
  int jobs = atoi(get("jobs", "8").c_str()); if (jobs < 1) jobs = 1; if (jobs > 64) jobs = 64;
  double budget = atof(get("budget", "300").c_str()), shrink_budget = atof(get("shrink", "60").c_str());
  double scale = atof(get("scale", "1").c_str());
  g_cpu = atoi(get("cpu", "10").c_str());
  char tmpl[] = "/tmp/pbt.XXXXXX"; g_tmp = mkdtemp(tmpl);
  std::string tmpdir = g_tmp;
  std::vector<Target> T;
  for (auto& t : targets()) { bool use = only.empty(); for (auto& o : only) if (o == t.name) use = true; if (use) T.push_back(t); }
  auto cleanup = [&] { std::string c = "rm -rf " + tmpdir; if (tmpdir.compare(0, 9, "/tmp/pbt.") == 0) (void)!system(c.c_str()); };

  if (a.count("replay")) {
    std::ifstream f(a["replay"]); std::string line, tn; std::vector<uint64_t> ch; Before before; uint64_t cs = 0; bool bycase = false;
    while (std::getline(f, line)) {
      if (line.compare(0, 7, "target=") == 0) tn = line.substr(7);
      if (line.compare(0, 9, "caseseed=") == 0) { cs = strtoull(line.c_str() + 9, nullptr, 10); bycase = true; }
      if (line.compare(0, 7, "before=") == 0) { std::istringstream is(line.substr(7)); std::string n; uint64_t x; is >> n >> x; for (auto& t : T) if (n == t.name) before.push_back({&t, x}); }
      if (line.compare(0, 4, "--- ") == 0) break;
      if (line.compare(0, 8, "choices=") == 0) { std::istringstream is(line.substr(8)); uint64_t x; while (is >> x) ch.push_back(x); }
    }
    for (auto& t : T) if (tn == t.name) {
      Outcome o; if (bycase && ch.empty()) { Child c = spawn(t, nullptr, cs, 0, &before); o = finish(c, nullptr); } else o = attempt(t, ch);
      printf("%s\n%s\n%s\n", o.sample.c_str(), o.failed ? ("FAILS [" + o.label + "] ").c_str() : o.discarded ? "DISCARDED" : "PASSES", o.msg.c_str());
      cleanup();
      return o.failed ? 1 : 0;
    }
    fprintf(stderr, "no target %s\n", tn.c_str()); cleanup(); return 2;
  }
  if (a.count("trace")) { // run one case by index, in this process
    for (auto& t : T) { Gen g(case_seed(seed, t.name, atol(a["trace"].c_str()))); g.sampling = true; Outcome o = run_here(t, g); printf("%s: %s\n%s [%s] %s\n", t.name, g.sample.c_str(), o.failed ? "FAIL" : "ok", o.label.c_str(), o.msg.c_str()); for (auto& l : g.labels) printf("  %s=%llu\n", l.first.c_str(), (unsigned long long)l.second); }
    cleanup(); return 0;
  }

  std::vector<Known> known;
  if (a.count("known")) {
    std::ifstream f(a["known"]); std::string line, pre = "known: property=" + prop + " ";
    while (std::getline(f, line)) if (line.compare(0, pre.size(), pre) == 0) {
      std::string r = line.substr(pre.size()); if (r.compare(0, 6, "label=")) continue;
      auto sp = r.find(' '); known.push_back({r.substr(6, sp - 6), sp == std::string::npos ? "" : r.substr(sp + 1)});
    }
  }
  auto is_known = [&](std::string const& l) { for (auto& k : known) if (k.label == l) return true; return false; };

  Shared* S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  double t0 = now(), deadline = t0 + budget;
  std::vector<pid_t> wp((size_t)jobs); std::vector<int> wfd((size_t)jobs);
  auto count = [&](Target const& t) { double c = (tier == "thorough" ? (double)t.thorough : (double)t.quick) * scale; return (long)std::max(c, 1.0); };
  constexpr long rounds = 50;
  auto worker = [&](int w, int fd, int skip_t, long skip_i) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    // every worker keeps to one core: the ranks of a simulated machine never run at the same time
    cpu_set_t all, one; CPU_ZERO(&all);
    if (!sched_getaffinity(0, sizeof all, &all)) {
      int n = CPU_COUNT(&all), k = n ? w % n : 0;
      for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &all) && k-- == 0) { CPU_ZERO(&one); CPU_SET(c, &one); if (!getenv("PBT_NOPIN")) sched_setaffinity(0, sizeof one, &one); break; }
    }
    int e = open((g_tmp + "/w" + std::to_string(w)).c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600); dup2(e, 2); dup2(e, 1);
    rlimit nc{0, 0}; setrlimit(RLIMIT_CORE, &nc);
    signal(SIGVTALRM, SIG_DFL);
    std::map<std::string, uint64_t> labels; std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples; uint64_t nontriv = 0, disc = 0, cases = 0; uint64_t rng = seed * 77 + (uint64_t)w;
    std::map<std::string, uint64_t> knownhits; bool capped = false; int lost = 0;
    std::map<std::string, uint64_t> per;
    for (long r = 0; r < rounds && !S->stop; r++)
      for (size_t ti = 0; ti < T.size() && !S->stop; ti++) {
        long n = count(T[ti]);
        long lo = n * r / rounds, hi = n * (r + 1) / rounds;
        for (long i = lo; i < hi && !S->stop; i++) {
          if (i % jobs != w) continue;
          if (skip_t >= 0) { if ((int)ti == skip_t && i == skip_i) skip_t = -1; continue; }
          if (now() > deadline) { capped = true; break; }
          S->w[w].target = (int)ti; S->w[w].idx = i; S->w[w].busy = 1;
          uint64_t cs = case_seed(seed, T[ti].name, i);
          Gen g(cs);
          bool want = samples.size() < 4 || (rng = rng * 6364136223846793005ull + 1) >> 54 == 0;
          g.sampling = want;
          Outcome o;
          if (T[ti].mode == InProc) {
            itimerval tv{}; tv.it_value.tv_sec = g_cpu; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
            o = run_here(T[ti], g);
            tv.it_value.tv_sec = 0; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
          } else o = run_here(T[ti], g);
          S->w[w].busy = 0; S->w[w].cases++; cases++; per[T[ti].name]++;
          if (o.discarded) { disc++; continue; }
          for (auto& l : g.labels) labels[std::string(T[ti].name) + ":" + l.first] += l.second;
          if (g.nontriv) { nontriv++; uint64_t h = 1469598103934665603ull ^ ti; for (auto c : g.rec) h = (h ^ c) * 1099511628211ull + (h >> 29); distinct.insert(h); }
          if (want && g.nontriv && !g.sample.empty()) { std::string s = std::string(T[ti].name) + "#" + std::to_string(i) + ": " + g.sample.substr(0, 1200); if (samples.size() < 4) samples.push_back(s); else samples[(rng >> 33) % 4] = s; }
          if (o.failed) {
            if (is_known(o.label)) { knownhits[o.label]++; continue; }
            Child c = spawn(T[ti], nullptr, cs, (size_t)i); Outcome again = finish(c, nullptr);
            if (again.failed) S->stop = 1;
            wrs(fd, "F"); wrs(fd, std::to_string(ti)); wrs(fd, std::to_string(i)); wrs(fd, o.label); wrs(fd, o.msg);
            if (!again.failed && ++lost >= 20) S->stop = 1;
            if (again.failed) break;
          }
        }
      }
    std::ostringstream js;
    wrs(fd, "S"); wrs(fd, std::to_string(cases)); wrs(fd, std::to_string(nontriv)); wrs(fd, std::to_string(disc)); wrs(fd, capped ? "1" : "0");
    std::string d; for (auto h : distinct) d.append((char const*)&h, 8); wrs(fd, d);
    wrs(fd, std::to_string(labels.size())); for (auto& l : labels) { wrs(fd, l.first); wrs(fd, std::to_string(l.second)); }
    wrs(fd, std::to_string(samples.size())); for (auto& s : samples) wrs(fd, s);
    wrs(fd, std::to_string(knownhits.size())); for (auto& l : knownhits) { wrs(fd, l.first); wrs(fd, std::to_string(l.second)); }
    wrs(fd, std::to_string(per.size())); for (auto& l : per) { wrs(fd, l.first); wrs(fd, std::to_string(l.second)); }
    _exit(0);
  };
  fflush(nullptr);
  auto launch = [&](int w, int skip_t, long skip_i) {
    int p[2]; if (pipe2(p, O_CLOEXEC)) { perror("pipe"); exit(3); }
    pid_t q = fork();
    if (q < 0) { perror("fork"); exit(3); }
    if (!q) { close(p[0]); worker(w, p[1], skip_t, skip_i); _exit(0); }
    close(p[1]); wp[(size_t)w] = q; wfd[(size_t)w] = p[0];
  };
  for (int w = 0; w < jobs; w++) launch(w, -1, -1);
  std::vector<Found> found; uint64_t lostcases = 0; int deaths = 0;
  // collect
  std::vector<std::string> buf((size_t)jobs);
  std::vector<pollfd> pf; for (int w = 0; w < jobs; w++) pf.push_back({wfd[(size_t)w], POLLIN, 0});
  int open_n = jobs; double grace = 0;
  while (open_n) {
    poll(pf.data(), pf.size(), 500);
    if (S->stop && grace == 0) grace = now() + 20;
    for (int w = 0; w < jobs; w++) {
      if (pf[(size_t)w].fd < 0) continue;
      if (pf[(size_t)w].revents & (POLLIN | POLLHUP)) {
        char b[65536]; ssize_t k = read(pf[(size_t)w].fd, b, sizeof b);
        if (k > 0) buf[(size_t)w].append(b, (size_t)k); else { close(pf[(size_t)w].fd); pf[(size_t)w].fd = -1; open_n--; int st; waitpid(wp[(size_t)w], &st, 0); 
          if (st && S->w[w].busy && !(grace && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) { // died inside a case
            Found f; f.w = w; f.t = (size_t)S->w[w].target.load(); f.i = S->w[w].idx; f.seed = case_seed(seed, T[f.t].name, f.i); f.o.label = "crash"; found.push_back(f);
            lostcases += S->w[w].cases;
            Child c2 = spawn(T[f.t], nullptr, f.seed, 0); Outcome again = finish(c2, nullptr);
            if (again.failed || ++deaths >= 20) S->stop = 1; // else the search goes on after that case
            if (!S->stop) { S->w[w].busy = 0; S->w[w].cases = 0; launch(w, (int)f.t, f.i); open_n++; pf[(size_t)w] = {wfd[(size_t)w], POLLIN, 0}; }
          } else if (st) S->stop = 1; }
      }
    }
    if (grace && now() > grace) for (int w = 0; w < jobs; w++) if (pf[(size_t)w].fd >= 0 && wp[(size_t)w] > 0) kill(wp[(size_t)w], SIGKILL);
  }
  uint64_t cases = lostcases, nontriv = 0, disc = 0; bool capped = false; std::unordered_set<uint64_t> distinct; std::map<std::string, uint64_t> labels, knownhits, per; std::vector<std::string> samples;
  for (int w = 0; w < jobs; w++) {
    auto& B = buf[(size_t)w]; size_t p = 0;
    auto rs = [&]() -> std::string { if (p + 8 > B.size()) { p = B.size(); return ""; } uint64_t n; memcpy(&n, &B[p], 8); p += 8; std::string s = B.substr(p, n); p += n; return s; };
    auto ri = [&]() { return strtoull(rs().c_str(), nullptr, 10); };
    bool gotstats = false;
    while (p < B.size()) {
      std::string k = rs();
      if (k == "F") { Found f; f.w = w; f.t = ri(); f.i = (long)ri(); f.o.label = rs(); f.o.msg = rs(); f.seed = case_seed(seed, T[f.t].name, f.i); found.push_back(f); }
      else if (k == "S") {
        gotstats = true;
        cases += ri(); nontriv += ri(); disc += ri(); capped |= rs() == "1";
        std::string d = rs(); for (size_t j = 0; j + 8 <= d.size(); j += 8) { uint64_t h; memcpy(&h, &d[j], 8); distinct.insert(h); }
        for (uint64_t n = ri(); n; n--) { auto l = rs(); labels[l] += ri(); }
        for (uint64_t n = ri(); n; n--) samples.push_back(rs());
        for (uint64_t n = ri(); n; n--) { auto l = rs(); knownhits[l] += ri(); }
        for (uint64_t n = ri(); n; n--) { auto l = rs(); per[l] += ri(); }
      } else break;
    }
  }
  std::sort(found.begin(), found.end(), [&](Found const& x, Found const& y) { return std::make_pair(x.i, x.t) < std::make_pair(y.i, y.t); });
  int rc = 0; long tried = 0; std::string viol; int unreproduced = 0;
  for (auto& f : found) {
    Target& t = T[f.t];
    Child c = spawn(t, nullptr, f.seed, 0); Outcome o = finish(c, nullptr);
    if (!o.failed) { // does it fail after the cases that ran before it in the same process?
      Before all, before; bool done = false;
      if (t.mode == InProc) for (long r = 0; r < rounds && !done; r++) for (size_t ti = 0; ti < T.size() && !done; ti++) {
        long n = count(T[ti]), lo = n * r / rounds, hi = n * (r + 1) / rounds;
        for (long i = lo; i < hi; i++) { if (i % jobs != f.w) continue; if (ti == f.t && i == f.i) { done = true; break; } if (T[ti].mode == InProc) all.push_back({&T[ti], case_seed(seed, T[ti].name, i)}); }
      }
      auto with = [&](Before const& b) { Child cc = spawn(t, nullptr, f.seed, 0, &b); return finish(cc, nullptr); };
      Outcome q; bool hit = false;
      for (size_t k = 1; !hit && t.mode == InProc; k *= 4) { before.assign(all.end() - (long)std::min(k, all.size()), all.end()); q = with(before); if (q.failed) hit = true; if (k >= all.size()) break; }
      double t1 = now();
      if (hit) for (size_t chunk = std::max<size_t>(before.size() / 2, 1);; chunk = chunk / 2) { // drop cases that are not needed
        for (size_t at = 0; at < before.size() && now() - t1 < shrink_budget;) { Before less(before.begin(), before.begin() + (long)at); less.insert(less.end(), before.begin() + (long)std::min(at + chunk, before.size()), before.end()); tried++; Outcome z = with(less); if (z.failed) { before = less; q = z; } else at += chunk; }
        if (chunk <= 1) break;
      }
      int again = 0; for (int k = 0; hit && k < 3; k++) if (with(before).failed) again++;
      if (again < 3 || is_known(q.label)) { fprintf(stderr, "note: %s case %ld (%s) did not fail again in a fresh process\n", t.name, f.i, f.o.label.c_str()); unreproduced++; continue; }
      std::string path = get("replays", "/tmp") + "/" + prop + "-" + t.name + ".replay";
      std::ofstream rf(path); rf << "target=" << t.name << "\nseed=" << seed << "\ncase=" << f.i << "\nlabel=" << q.label << "\n";
      for (auto& b : before) rf << "before=" << b.first->name << " " << b.second << "\n";
      rf << "caseseed=" << f.seed << "\n--- what failed, after the cases listed before it in the same process ---\n" << q.msg << "\n--- input ---\n" << q.sample << "\n"; rf.close();
      printf("%s: %s\n(after %zu other cases in the same process)\n%s\n--- input ---\n%s\n", t.name, q.label.c_str(), before.size(), q.msg.substr(0, 4000).c_str(), q.sample.substr(0, 4000).c_str());
      printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
      rc = 1; viol = path; break;
    }
    if (is_known(o.label)) { knownhits[o.label]++; continue; }
    std::vector<uint64_t> best; Outcome cur = o;
    bool have = !o.rec.empty();
    if (have) {
      best = shrink(t, cur, jobs, shrink_budget, tried);
    }
    int again = 0;
    Outcome last = cur;
    for (int k = 0; k < 3; k++) {
      Outcome q;
      if (have) q = attempt(t, best); else { Child c2 = spawn(t, nullptr, f.seed, 0); q = finish(c2, nullptr); }
      if (q.failed) { again++; last = q; }
    }
    if (again < 3 && have && best != o.rec) { // the smaller input fails only sometimes: keep the one that was generated
      again = 0; best = o.rec; for (int k = 0; k < 3; k++) { Outcome q = attempt(t, best); if (q.failed) { again++; last = q; } }
    }
    if (again < 3) { fprintf(stderr, "note: %s case %ld failed only %d of 3 replays\n", t.name, f.i, again); unreproduced++; continue; }
    std::string dir = get("replays", "/tmp"); std::string path = dir + "/" + prop + "-" + t.name + ".replay";
    std::ofstream rf(path);
    rf << "target=" << t.name << "\nseed=" << seed << "\ncase=" << f.i << "\nlabel=" << last.label << "\n";
    if (have) { rf << "choices="; for (auto x : best) rf << x << ' '; rf << "\n"; } else rf << "caseseed=" << f.seed << "\n";
    rf << "shrink_attempts=" << tried << "\n--- what failed ---\n" << last.msg << "\n--- input ---\n" << last.sample << "\n";
    rf.close();
    printf("%s: %s\n%s\n--- minimal input ---\n%s\n", t.name, last.label.c_str(), last.msg.substr(0, 4000).c_str(), last.sample.substr(0, 4000).c_str());
    printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
    rc = 1; viol = path; break;
  }
  for (auto& k : known) printf("KNOWN-FINDING: property=%s %s (%llu generated cases met it)\n", prop.c_str(), k.what.c_str(), (unsigned long long)knownhits[k.label]);
  double wall = now() - t0;
  if (!out.empty()) {
    std::ofstream o(out + ".tmp");
    o << "{\n \"property\": \"" << prop << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
      << "  \"evaluations\": " << cases << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"nontrivial\": " << nontriv << ",\n  \"discarded\": " << disc
      << ",\n  \"time_capped\": " << (capped ? "true" : "false") << ",\n  \"unreproduced\": " << unreproduced << ",\n  \"rule\": \"" << esc(pbt_rule) << "\",\n  \"cases_per_target\": {";
    bool first = true; for (auto& l : per) { o << (first ? "" : ", ") << '"' << esc(l.first) << "\": " << l.second; first = false; }
    o << "},\n  \"classes\": {"; first = true; for (auto& l : labels) { o << (first ? "" : ", ") << '"' << esc(l.first) << "\": " << l.second; first = false; }
    o << "},\n  \"samples\": ["; first = true; size_t ns = 0; for (auto& s : samples) { if (ns++ >= 12) break; o << (first ? "" : ",\n   ") << '"' << esc(s) << '"'; first = false; }
    o << "]\n },\n \"wall_s\": " << wall << ",\n \"violations\": " << (rc ? 1 : 0) << "\n}\n";
    o.close(); rename((out + ".tmp").c_str(), out.c_str());
  }
  fprintf(stderr, "%s: %llu cases (%zu distinct non-trivial, %llu discarded) in %.1f s%s\n", prop.c_str(), (unsigned long long)cases, distinct.size(), (unsigned long long)disc, wall, capped ? " [time cap]" : "");
  cleanup();
  return rc;
}

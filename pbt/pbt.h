// Property-based testing engine: every generated case is a recorded sequence of
// bounded choices; a failing sequence is shrunk, replayed and saved.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <utility>
#include <algorithm>
#include <stdexcept>

namespace pbt {

struct Fail { std::string label, msg; };
struct Discard { std::string why; };

class Gen {
public:
  Gen(uint64_t seed) : rng_(seed), replay_(false) {}
  Gen(std::vector<uint64_t> const& c) : rng_(0), replay_(true), in_(c) {}

  // 0..max inclusive; 0 is the simplest value
  uint64_t draw(uint64_t max);
  // lo is the simplest value; a boundary now and then
  int64_t range(int64_t lo, int64_t hi);
  uint64_t u64();                      // any 64-bit pattern, biased to interesting ones
  uint64_t bits(int n);                // any n-bit pattern, biased to interesting ones
  bool chance(unsigned num, unsigned den);  // false is simplest
  bool coin() { return draw(1); }
  size_t weighted(std::vector<unsigned> const& w);
  template <class T> T const& pick(std::vector<T> const& v) { return v[draw(v.size() - 1)]; }
  size_t size(size_t max);             // small sizes likelier, full range reachable
  double real(double lo, double hi);
  std::vector<int> perm(int n);
  std::string text(size_t max, std::string const& alphabet);
  uint64_t seed() { return draw(UINT64_MAX); }

  void label(std::string const& l) { labels[l]++; }
  void nontrivial(bool b = true) { nontriv = nontriv || b; }
  // text of the case, kept for samples and replay files
  bool sampling = false;
  template <class... A> void note(A const&... a) {
    if (!sampling) return;
    std::ostringstream o; (void)std::initializer_list<int>{(o << a, 0)...};
    if (sample.size() < 6000) sample += o.str();
    if (live) live->text(sample);
  }
  // where choices and text survive a crash of the process
  struct Live {
    uint64_t n; uint64_t c[1 << 19]; size_t len; char s[8192];
    void text(std::string const& x) { len = std::min(x.size(), sizeof s); std::copy(x.begin(), x.begin() + (long)len, s); }
  };
  Live* live = nullptr;

  std::map<std::string, uint64_t> labels;
  bool nontriv = false;
  std::string sample;
  std::vector<uint64_t> rec;
private:
  uint64_t next();
  uint64_t keep(uint64_t v) { if (live && live->n < (1 << 19)) live->c[live->n++] = v; rec.push_back(v); return v; }
  uint64_t rng_; bool replay_; std::vector<uint64_t> in_; size_t pos_ = 0;
};

// splitmix stream for bulk data whose individual bytes need not shrink
struct Stream {
  uint64_t s;
  explicit Stream(uint64_t seed) : s(seed) {}
  uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  double real() { return (double)(next() >> 11) * 0x1.0p-53; }
};

template <class... A> std::string cat(A const&... a) {
  std::ostringstream o; o.precision(17); (void)std::initializer_list<int>{(o << a, 0)...}; return o.str();
}

[[noreturn]] inline void fail(std::string const& label, std::string const& msg) { throw Fail{label, msg}; }
#define PBT_CHECK(cond, label, ...) do { if (!(cond)) ::pbt::fail(label, ::pbt::cat(__VA_ARGS__)); } while (0)

enum Mode { InProc, Isolated };  // Isolated: each case in its own process (or runs a simulated machine)

struct Target {
  char const* name; void (*fn)(Gen&); long quick, thorough; Mode mode;
};
std::vector<Target>& targets();
struct Reg { Reg(Target t) { targets().push_back(t); } };
#define PBT_TARGET(NAME, MODE, QUICK, THOROUGH) \
  static void prop_##NAME(::pbt::Gen& g); \
  static ::pbt::Reg reg_##NAME({#NAME, prop_##NAME, QUICK, THOROUGH, ::pbt::MODE}); \
  static void prop_##NAME(::pbt::Gen& g)

} // namespace pbt

#define PBT_RULE(text) extern char const* const pbt_rule; char const* const pbt_rule = text

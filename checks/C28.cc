// variant: san
// sources: vt/vrt/collection/balance/read_lb.cc vt/vrt/collection/balance/lb_type.cc vt/utils/file_spec/spec.cc
// C28: specification files are read as written
#include "common/standalone.h"
#include "common/scratch.h"
#include <vt/vrt/collection/balance/read_lb.h>
#include <vt/vrt/collection/balance/lb_type.h>
#include <fstream>
#include <sstream>
#include <functional>
#include <tuple>
#include <vt/objgroup/proxy/proxy_objgroup.h>
#include <vt/collective/reduce/operators/default_msg.h>
#define private public
#include <vt/utils/file_spec/spec.h>
#undef private
PBT_RULE("A case is a specification file, written in a random layout (leading, trailing and repeated blanks and tabs, blank lines between entries, with or without a final newline): an LB configuration of up to 12 exact, modulo and bare entries with parameters, or a trace/LB-data specification of up to 12 exact and modulo entries with offsets. The answers for every phase of a range, and for phases near every boundary, are compared with a direct evaluation of the documented rules; malformed files must be refused. Non-trivial: two or more entries that apply to a common phase.");
using namespace vt; using namespace vt::vrt::collection::balance; using utils::file_spec::FileSpec; using utils::file_spec::FileSpecType;
namespace vt { arguments::AppConfig* theConfig() { return &debug::config(); } }
namespace {
std::string blank(pbt::Gen& g, bool some) { std::string s; size_t n = g.chance(1, 3) ? g.draw(3) : 0; if (some && !n) return " "; for (size_t i = 0; i < n; i++) s += g.chance(1, 3) ? '\t' : ' '; return s; }
std::string eol(pbt::Gen& g, bool last) { std::string s = blank(g, false); if (last && g.coin()) return s; s += "\n"; if (g.chance(1, 5)) s += std::string(1 + g.draw(2), '\n'); return s; }
std::string write(std::string const& name, std::string const& text) { auto f = standalone::scratch() + "/" + name; std::ofstream(f) << text; return f; }
struct Entry { bool mod; int64_t idx; std::string name; std::map<std::string, std::string> params; };
int64_t phase_index(pbt::Gen& g, bool mod) { int64_t i = g.chance(1, 6) ? (int64_t)g.draw(2000000) : g.chance(1, 3) ? (int64_t)g.draw(120) : (int64_t)g.draw(12); return mod && i == 0 ? 1 : i; }
std::string params(pbt::Gen& g, std::map<std::string, std::string>& m, std::function<std::string()> sep) {
  static std::vector<std::string> const keys {"c", "min", "max", "auto", "strategy", "knowledge_x", "i2"}; std::string s; size_t n = g.draw(g.chance(1, 6) ? 40 : 4);
  for (size_t i = 0; i < n; i++) {
    std::string k = n > 4 ? "k" + std::to_string(g.draw(60)) : g.pick(keys), v; if (m.count(k)) continue;
    switch (g.draw(4)) { case 0: v = std::to_string(g.range(-9, 200000)); break; case 1: v = pbt::cat((double)g.range(-4000, 4000) / 8); break; case 2: v = g.pick(std::vector<std::string>{"true", "false", "t", "f", "1", "0"}); break; case 3: v = "s" + g.text(6, "abzAZ09_./:,-"); break; default: v = ""; }
    m[k] = v; s += (s.empty() ? "" : sep()) + k + "=" + v;
  }
  return s;
}
void parameters(ConfigEntry const& e, std::map<std::string, std::string> const& want, char const* where) {
  PBT_CHECK(e.getParams() == want, "parameters", where, ": the parameters differ from those written (", e.getParams().size(), " against ", want.size(), ")");
  for (auto k : {"c", "min", "auto", "missing"}) {
    auto i = want.find(k); std::string v = i == want.end() ? "" : i->second; char* end = nullptr;
    double d = std::strtod(v.c_str(), &end); bool num = !v.empty() && end != v.c_str(); PBT_CHECK(e.getOrDefault<double>(k, 7.5) == (num ? d : 7.5), "parameters", where, ": ", k, "=", v, " as a number is ", e.getOrDefault<double>(k, 7.5));
    long l = std::strtol(v.c_str(), &end, 10); bool in = !v.empty() && end != v.c_str(); PBT_CHECK(e.getOrDefault<int32_t>(k, -77) == (in ? l : -77), "parameters", where, ": ", k, "=", v, " as an integer is ", e.getOrDefault<int32_t>(k, -77));
    for (bool def : {false, true}) { bool b = v == "1" || v == "true" || v == "t" ? true : v == "0" || v == "false" || v == "f" ? false : def; PBT_CHECK(e.getOrDefault<bool>(k, def) == b, "parameters", where, ": ", k, "=", v, " as a flag is ", !b); }
    PBT_CHECK(e.getOrDefault<std::string>(k, "dflt") == (v.empty() ? "dflt" : v), "parameters", where, ": ", k, "=", v, " as text is ", e.getOrDefault<std::string>(k, "dflt"));
  }
}
}
PBT_TARGET(lb_config, InProc, 15000, 400000) {
  std::vector<Entry> want; std::set<std::pair<bool, int64_t>> used; std::string text; std::vector<std::string> lines; size_t n = 1 + g.size(11);
  std::vector<std::string> lbs; for (auto& e : get_lb_names()) lbs.push_back(e.second); std::sort(lbs.begin(), lbs.end());
  static std::map<std::string, int> types; for (auto& e : get_lb_names()) types[e.second] = (int)e.first;
  for (size_t i = 0; i < n; i++) {
    Entry e; int form = (int)g.draw(8); e.mod = form < 4; e.idx = form == 0 ? 1 : phase_index(g, e.mod); e.name = g.pick(lbs); if (!used.insert({e.mod, e.idx}).second) continue;
    auto sep = [&] { return blank(g, true); }; std::string l = blank(g, false);
    if (form == 0) { if (g.coin()) l += "%" + blank(g, false); } else if (e.mod) l += "%" + blank(g, false) + std::to_string(e.idx) + blank(g, true); else l += std::to_string(e.idx) + blank(g, true);
    l += e.name; auto p = params(g, e.params, sep); if (!p.empty()) l += sep() + p; lines.push_back(l); want.push_back(e);
  }
  for (size_t i = 0; i < lines.size(); i++) text += lines[i] + eol(g, i + 1 == lines.size()); g.note(text);
  auto file = write("lb", text); ReadLBConfig::clear();
  PBT_CHECK(ReadLBConfig::numEntries() == 0 && ReadLBConfig::toString() == "[No LB Config open]" && !ReadLBConfig::hasOfflineLB() && ReadLBConfig::getLB(3) == LBType::NoLB, "clear", "a cleared configuration still has entries");
  PBT_CHECK(!ReadLBConfig::openConfig(""), "open", "an empty name opens a configuration");
  PBT_CHECK(ReadLBConfig::openConfig(file), "open", "the file is not opened"); if (g.chance(1, 4)) PBT_CHECK(ReadLBConfig::openConfig(file), "open", "opening the same file again fails");
  PBT_CHECK(ReadLBConfig::numEntries() == (ConfigIndex)want.size(), "entries", ReadLBConfig::numEntries(), " entries of ", want.size());
  bool offline = false; for (auto& e : want) offline |= e.name == "OfflineLB"; PBT_CHECK(ReadLBConfig::hasOfflineLB() == offline, "offline", "hasOfflineLB() is ", !offline);
  auto expected = [&](int64_t ph) -> Entry const* { for (auto& e : want) if (!e.mod && e.idx == ph) return &e; for (auto& e : want) if (e.mod && ph % e.idx == 0) return &e; return nullptr; };
  std::set<int64_t> phases; for (int64_t p = 0; p < 60; p++) phases.insert(p); for (auto& e : want) for (int64_t d = -1; d <= 1; d++) for (int64_t k : {1, 2, 7}) if (e.idx * k + d >= 0) phases.insert(e.idx * k + d);
  for (int i = 0; i < 5; i++) phases.insert((int64_t)g.draw(1u << 30)); bool overlap = false;
  for (auto ph : phases) {
    auto w = expected(ph); auto got = ReadLBConfig::entry(ph); int c = 0; for (auto& e : want) c += e.mod ? ph % e.idx == 0 : e.idx == ph; overlap |= c > 1;
    PBT_CHECK(!got == !w, "applies", "phase ", ph, ": ", got ? "an entry applies that should not: " + got->getName() : "no entry applies, expected " + w->name);
    PBT_CHECK(ReadLBConfig::getLB(ph) == (w ? (LBType)types[w->name] : LBType::NoLB), "balancer", "phase ", ph, " runs balancer number ", (int)ReadLBConfig::getLB(ph), " and should run ", w ? w->name : "none");
    if (w) { PBT_CHECK(got->getName() == w->name && got->getIdx() == w->idx && got->getLB() == (LBType)types[w->name], "entry", "phase ", ph, " uses ", got->getIdx(), " ", got->getName(), " and should use ", w->mod ? "%" : "", w->idx, " ", w->name); parameters(*got, w->params, "entry"); }
  }
  if (overlap) g.nontrivial();
  auto mods = ReadLBConfig::getModEntries(), exact = ReadLBConfig::getExactEntries(); size_t nm = 0, ne = 0;
  for (auto& e : want) { auto& m = e.mod ? mods : exact; (e.mod ? nm : ne)++; auto i = m.find(e.idx); PBT_CHECK(i != m.end() && i->second.getName() == e.name, "listed", e.idx, " ", e.name, " is not listed"); parameters(i->second, e.params, "listed"); }
  PBT_CHECK(nm == mods.size() && ne == exact.size(), "listed", "more entries are listed than were written");
  // the printed form
  int64_t most = exact.empty() ? 0 : exact.rbegin()->first;
  if (most < 5000) {
    auto s = ReadLBConfig::toString(); std::string plain; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\x1b') { while (i < s.size() && s[i] != 'm') i++; } else plain += s[i]; }
    for (auto& e : want) {
      std::string l = e.mod ? pbt::cat("Run `", e.name, "` every ", e.idx, " phases") : pbt::cat("Run `", e.name, "` on phase ", e.idx);
      if (!e.params.empty()) { l += " with arguments `"; bool first = true; for (auto& [k, v] : e.params) { l += (first ? "" : " ") + k + "=" + v; first = false; } l += "`"; }
      if (e.mod) { std::string x; for (int64_t k = 1; k * e.idx <= most; k++) { auto w = expected(k * e.idx); if (w != &e) x += (x.empty() ? "" : ", ") + std::to_string(k * e.idx); } if (!x.empty()) l += " excluding phases " + x; }
      PBT_CHECK(plain.find(l + "\n") != std::string::npos, "printed", "'", l, "' is not in\n", plain);
    }
  }
  ReadLBConfig::clear();
}
// what is not a configuration is refused
PBT_TARGET(lb_errors, InProc, 2000, 40000) {
  std::string good = "3 GreedyLB\n", text; size_t at = g.draw(2); std::string bad;
  switch (g.draw(4)) { case 0: bad = "4 Greedy"; break; case 1: bad = "4 GreedyLB x"; break; case 2: bad = "3 RotateLB"; break; case 3: bad = "%7 RotateLB\n% 7 RotateLB"; break; default: bad = "5"; }
  text = at == 0 ? bad + "\n" + good : at == 1 ? good + bad : good + bad + "\n%2 RotateLB min=1\n"; g.note(text); g.nontrivial(); auto file = write("bad", text);
  ReadLBConfig::clear(); standalone::expect_abort = true; bool refused = false; try { ReadLBConfig::openConfig(file); } catch (standalone::Abort&) { refused = true; } standalone::expect_abort = false; ReadLBConfig::clear();
  PBT_CHECK(refused, "accepted", "the file is accepted");
  standalone::expect_abort = true; refused = false; try { ReadLBConfig::openConfig(standalone::scratch() + "/absent"); } catch (standalone::Abort&) { refused = true; } standalone::expect_abort = false; ReadLBConfig::clear(); PBT_CHECK(refused, "accepted", "a file that is absent is accepted");
}
// the arguments given on the command line
PBT_TARGET(lb_arguments, InProc, 4000, 100000) {
  std::map<std::string, std::string> want; auto sep = [&] { return blank(g, true); }; auto s = blank(g, false); auto p = params(g, want, sep); s += p; if (!p.empty()) s += blank(g, false); if (want.size() > 1) g.nontrivial(); g.note("'" + s + "'");
  auto e = ReadLBConfig::makeConfigFromParams(s); parameters(e, want, "arguments");
  std::vector<std::string> allowed; for (auto& [k, v] : want) allowed.push_back(k); allowed.push_back("other"); e.checkAllowedKeys(allowed);
  if (!want.empty()) { auto drop = g.draw(want.size() - 1); allowed.erase(allowed.begin() + (long)drop); standalone::expect_abort = true; bool refused = false; try { e.checkAllowedKeys(allowed); } catch (standalone::Abort&) { refused = true; } standalone::expect_abort = false; PBT_CHECK(refused, "accepted", "a key that is not allowed is accepted"); }
}
PBT_TARGET(file_spec, InProc, 15000, 400000) {
  struct Line { bool mod; int64_t idx, neg, pos; }; std::vector<Line> want; std::set<std::pair<bool, int64_t>> used; std::string text; std::vector<std::string> lines; size_t n = 1 + g.size(11);
  for (size_t i = 0; i < n; i++) {
    Line e; e.mod = g.coin(); e.idx = phase_index(g, e.mod); if (!used.insert({e.mod, e.idx}).second) continue; int form = (int)g.draw(4); int64_t reach = g.chance(1, 8) ? 300 : 5;
    e.neg = form == 0 ? 0 : -(int64_t)g.draw((uint64_t)reach); e.pos = form <= 1 ? 0 : (int64_t)g.draw((uint64_t)reach);
    std::string l = blank(g, false); if (e.mod) l += "%" + blank(g, false); l += std::to_string(e.idx); if (form > 0) { l += blank(g, true) + (e.neg == 0 && g.chance(1, 4) ? "-0" : std::to_string(e.neg)); } if (form > 1) l += blank(g, true) + std::to_string(e.pos);
    lines.push_back(l); want.push_back(e);
  }
  for (size_t i = 0; i < lines.size(); i++) text += lines[i] + eol(g, i + 1 == lines.size()); g.note(text);
  auto& c = vt::debug::config(); bool trace = g.coin(); c.vt_trace_spec = trace; c.vt_lb_spec = !trace; auto file = write("spec", text), other = write("other", "1 0 0\n"); c.vt_trace_spec_file = trace ? file : other; c.vt_lb_spec_file = trace ? other : file;
  alignas(FileSpec) static unsigned char mem[sizeof(FileSpec)]; FileSpec& f = *new (mem) FileSpec; struct End { FileSpec& f; ~End() { f.~FileSpec(); } } end{f}; f.type_ = trace ? FileSpecType::TRACE : FileSpecType::LB;
  if (g.chance(1, 6)) { c.vt_trace_spec = !trace; c.vt_lb_spec = trace; PBT_CHECK(!f.hasSpec(), "has", "a specification that is not enabled is reported"); c.vt_trace_spec = trace; c.vt_lb_spec = !trace; }
  PBT_CHECK(f.hasSpec(), "has", "no specification is reported"); PBT_CHECK(!f.specReceived(), "has", "received before it is read"); f.parse(); PBT_CHECK(f.specReceived(), "has", "not received after it is read");
  FileSpec remote; remote.type_ = f.type_; FileSpec::SpecMsg msg{f.spec_mod_, f.spec_exact_, 0}; remote.transferSpec(&msg); PBT_CHECK(remote.specReceived(), "has", "not received");
  std::set<int64_t> phases; for (int64_t p = 0; p < 80; p++) phases.insert(p); for (auto& e : want) for (int64_t k : {1, 2, 5}) for (int64_t o : {e.neg, e.pos, int64_t(0)}) for (int64_t d = -1; d <= 1; d++) if (e.idx * k + o + d >= 0) phases.insert(e.idx * k + o + d);
  bool overlap = false;
  for (auto ph : phases) {
    int on = 0; for (auto& e : want) { if (!e.mod) on += ph >= e.idx + e.neg && ph <= e.idx + e.pos; else { int64_t below = ph % e.idx, above = e.idx - below; on += below <= e.pos || above <= -e.neg; } }
    overlap |= on > 1; PBT_CHECK(f.checkEnabled(ph) == (on > 0), "enabled", "phase ", ph, " is ", on ? "disabled" : "enabled"); PBT_CHECK(remote.checkEnabled(ph) == (on > 0), "enabled", "phase ", ph, " is ", on ? "disabled" : "enabled", " on the rank that received the specification");
  }
  if (overlap) g.nontrivial();
}
PBT_TARGET(file_spec_errors, InProc, 1500, 20000) {
  std::string bad; switch (g.draw(3)) { case 0: bad = "4 0 1\n4 -1 1\n"; break; case 1: bad = "%4 0 1\n6 0 0\n%4\n"; break; case 2: bad = "4 3 3\n"; break; default: bad = "9 1\n"; }
  std::string text = (g.coin() ? "100 -2 2\n" : "") + bad + (g.coin() ? "%100 -2 2\n" : ""); g.note(text); g.nontrivial(); auto& c = vt::debug::config(); c.vt_trace_spec = true; c.vt_trace_spec_file = write("badspec", text);
  alignas(FileSpec) static unsigned char mem[sizeof(FileSpec)]; FileSpec& f = *new (mem) FileSpec; struct End { FileSpec& f; ~End() { f.~FileSpec(); } } end{f}; f.type_ = FileSpecType::TRACE;
  auto refused = [&](auto act) { standalone::expect_abort = true; bool r = false; try { act(); } catch (standalone::Abort&) { r = true; } standalone::expect_abort = false; return r; };
  PBT_CHECK(refused([&] { f.parse(); }), "accepted", "the file is accepted");
  c.vt_trace_spec_file = standalone::scratch() + "/absent"; PBT_CHECK(refused([&] { f.hasSpec(); }), "accepted", "an absent file is accepted"); c.vt_trace_spec_file = ""; PBT_CHECK(refused([&] { f.hasSpec(); }), "accepted", "no file is accepted");
}

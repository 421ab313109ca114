// variant: san
// sources: vt/runtime/component/diagnostic_enum_format.cc vt/utils/memory/memory_units.cc vt/utils/memory/memory_usage.cc vt/utils/demangle/demangle.cc
// C31: numbers, durations, sizes and names are rendered faithfully
#include "common/standalone.h"
#include "common/context_stub.h"
#include <vt/timing/timing_type.h>
#include <vt/utils/memory/memory_units.h>
#include <vt/utils/memory/memory_usage.h>
#include <vt/utils/demangle/demangle.h>
#include <vt/runtime/component/diagnostic_value_format.h>
#include <checkpoint/checkpoint.h>
#include INCLUDE_FMT_FORMAT
PBT_RULE("A case is a number of any magnitude (1e-280 to 1e280, integers up to 2^64, powers of the unit's base and their neighbours) formatted as a time, a size, or a diagnostic value in every unit, whose text is read back and compared with the number to the digits shown; a type or function name built from known parts (namespaces, template arguments, nested names, reference prefixes) taken apart again; or arithmetic on times compared with the same on seconds. Non-trivial: a scaled unit is chosen, or a name has template arguments or two or more namespaces.");
using namespace vt; using LD = long double;
namespace {
double anyReal(pbt::Gen& g, int span) {
  double v; switch (g.draw(4)) {
    case 0: v = (double)g.range(1, 999999) * std::pow(10., (double)g.range(-span, span)); break;
    case 1: v = std::pow(10., (double)g.range(-span, span)); break;
    case 2: v = std::ldexp(1. + (double)g.draw(1 << 20) / (1 << 20), (int)g.range(-span * 3, span * 3)); break;
    case 3: v = std::pow(g.coin() ? 1000. : 1024., (double)g.range(-span / 3, span / 3)) * (double)g.range(1, 4); break;
    default: v = (double)g.draw(100000) / 64; }
  if (g.chance(1, 4)) v = std::nextafter(v, g.coin() ? INFINITY : 0); if (g.chance(1, 6)) v = -v; return v;
}
// the decimals shown, and the value of the number in front of them
LD shown(std::string const& text, LD& half, size_t& end) {
  size_t i = 0; if (text[i] == '-') i++; auto digits = i; while (i < text.size() && isdigit((unsigned char)text[i])) i++; PBT_CHECK(i > digits, "number", "no number in \"", text, "\"");
  int decimals = 0; if (i < text.size() && text[i] == '.') { i++; while (i < text.size() && isdigit((unsigned char)text[i])) i++, decimals++; }
  end = i; half = 0.5L * powl(10.L, -decimals); return strtold(text.substr(0, i).c_str(), nullptr);
}
} // namespace

PBT_TARGET(times, InProc, 200000, 4000000) {
  double v = g.chance(1, 20) ? 0. : anyReal(g, g.chance(1, 3) ? 280 : 27); if (fabs(v) > 1e280) v = 1; TimeType t{v}; auto text = g.coin() ? std::string(format_as(t)) : fmt::format("{}", t);
  g.note(pbt::cat(v, " seconds: ", text)); LD half; size_t end; LD m = shown(text, half, end); PBT_CHECK(text.substr(end, 1) == "e", "exponent", "no exponent in \"", text, "\"");
  char* rest; long e = strtol(text.c_str() + end + 1, &rest, 10); PBT_CHECK(std::string(rest) == " s", "unit", "the unit of \"", text, "\" is not seconds"); PBT_CHECK(e % 3 == 0, "exponent", "the exponent of \"", text, "\" is not a multiple of three");
  LD scale = powl(10.L, e); PBT_CHECK(fabsl(m * scale - v) <= half * scale * (1 + 1e-9L) + fabsl((LD)v) * 1e-13L, "value", v, " seconds are shown as ", text);
  if (v != 0) PBT_CHECK((fabsl(m) >= 0.9999L && fabsl(m) <= 1000 && half * 2 <= 1e-4L * fabsl(m) * 10), "digits", v, " seconds are shown as ", text); if (e) g.nontrivial();
}

PBT_TARGET(arithmetic, InProc, 100000, 2000000) {
  double x = anyReal(g, 9), y = anyReal(g, 9); TimeType a{x}, b{y}; int const ops = 1 + (int)g.draw(8); g.note(pbt::cat(ops, " operations starting from ", x)); if (ops > 2) g.nontrivial();
  auto same = [](double p, double q) { return p == q || (p != p && q != q) || fabs(p - q) <= 1e-12 * fabs(q); };
  for (int k = 0; k < ops; k++) {
    y = anyReal(g, 6); b = TimeType{y}; auto op = g.draw(10);
    switch (op) {
      case 0: a += b; x += y; break; case 1: a -= b; x -= y; break; case 2: a *= y; x *= y; break; case 3: a /= y; x /= y; break;
      case 4: a = a + b; x = x + y; break; case 5: a = a - b; x = x - y; break; case 6: a = g.coin() ? a * b : g.coin() ? a * y : y * a; x = x * y; break; case 7: a = g.coin() ? a / b : a / y; x = x / y; break;
      case 8: a = y / a; x = y / x; break; case 9: a = sqrt(TimeType{fabs(x)}); x = std::sqrt(fabs(x)); break;
      default: { auto buf = checkpoint::serialize(a); TimeType c; checkpoint::deserializeInPlace<TimeType>(buf->getBuffer(), &c); a = c; } }
    PBT_CHECK(same(a.seconds(), x) && same((double)a, x), "value", "operation ", op, " gives ", a.seconds(), " seconds instead of ", x); PBT_CHECK(same(a.milliseconds(), x * 1e3) && same(a.microseconds(), x * 1e6), "unit", x, " seconds are ", a.milliseconds(), " ms and ", a.microseconds(), " us");
    x = a.seconds(); PBT_CHECK((a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y) && (a == b) == (x == y) && (a != b) == (x != y), "order", "comparing ", x, " with ", y, " seconds"); TimeType c = a; PBT_CHECK(!(x == x) || (c == a && c <= a && !(c < a)), "order", x, " compared with itself"); if (!std::isfinite(x)) return;
  }
  PBT_CHECK(std::numeric_limits<TimeType>::max().seconds() == std::numeric_limits<double>::max() && std::numeric_limits<TimeType>::lowest().seconds() == std::numeric_limits<double>::lowest(), "limits", "the limits of time");
}

PBT_TARGET(sizes, InProc, 200000, 4000000) {
  using namespace util::memory; static char const* const units[] = {"B", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB", "ZiB", "YiB"};
  uint64_t bytes = g.coin() ? g.u64() >> g.draw(63) : (uint64_t)1 << g.draw(63); if (g.chance(1, 4)) bytes += (uint64_t)g.range(-2, 2); auto best = getBestMemoryUnit(bytes); auto& name = std::get<0>(best); double v = std::get<1>(best); g.note(pbt::cat(bytes, " bytes: ", v, " ", name));
  int k = -1; for (int i = 0; i < 9; i++) if (name == units[i]) k = i; PBT_CHECK(k >= 0, "unit", "unknown unit ", name); if (k) g.nontrivial();
  PBT_CHECK(std::ldexp(v, 10 * k) == (double)bytes, "value", bytes, " bytes are shown as ", v, " ", name); PBT_CHECK((v < 1024 || k == 8) && (v >= 1 || k == 0), "best", v, " ", name, " is not the best unit for ", bytes, " bytes");
  for (int i = 0; i < 9; i++) { auto u = (MemoryUnitEnum)i; PBT_CHECK(getMemoryUnitName(u) == units[i], "unit", "unit ", i, " is called ", getMemoryUnitName(u)); PBT_CHECK(getUnitFromString(units[i]) == u, "unit", units[i], " read as unit ", (int)getUnitFromString(units[i])); }
  if ((double)bytes < 1.8e19) { char text[64]; snprintf(text, sizeof text, "%.17g %s", v, name.c_str()); MemoryUsage* m = nullptr; alignas(16) static char blank[sizeof(MemoryUsage)]; m = reinterpret_cast<MemoryUsage*>(blank); auto back = m->convertBytesFromString(text); PBT_CHECK(back == (size_t)(double)bytes, "parse", "\"", text, "\" is read as ", back, " bytes"); 
    int e = (int)g.draw(6); uint64_t q = g.draw(e == 6 ? 7 : 1000); std::string plain = pbt::cat(q, " ", units[e]); PBT_CHECK(m->convertBytesFromString(plain) == q << (10 * e), "parse", "\"", plain, "\" is read as ", m->convertBytesFromString(plain), " bytes"); std::string half = pbt::cat(q, ".5 ", units[e]); auto wanted = ((q * 2 + 1) << (10 * e)) / 2; PBT_CHECK(m->convertBytesFromString(half) == wanted, "parse", "\"", half, "\" is read as ", m->convertBytesFromString(half), " bytes"); }
}

namespace {
template <typename U> void showDiagnostic(pbt::Gen& g, U v, std::string const& spec) {
  using namespace runtime::component; static char const* const sizes[] = {"B", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB", "ZiB", "YiB"}; static char const* const counts[] = {"", "K", "M", "B", "t", "q", "Q"}; static char const* const times[] = {"sec", "ms", "μs", "ns"};
  auto kind = g.draw(3); bool align = g.coin(); DiagnosticUnit unit = kind == 0 ? DiagnosticUnit::Bytes : kind == 1 ? DiagnosticUnit::Units : kind == 2 ? DiagnosticUnit::Seconds : DiagnosticUnit::UnitsPerSecond;
  auto text = detail::DiagnosticFormatter::getValueWithUnits(v, unit, spec, align); g.note(pbt::cat("unit ", kind, " of ", +v, ": \"", text, "\"")); LD half; size_t end; LD m = shown(text, half, end); if (std::is_integral<U>::value && half == 0.5L) half = 0; auto rest = text.substr(end);
  if (kind == 3) { PBT_CHECK(rest.empty(), "unit", "\"", text, "\" for a rate"); PBT_CHECK(fabsl(m - (LD)v) <= half * (1 + 1e-9L) + fabsl((LD)v) * 1e-13L, "value", +v, " is shown as \"", text, "\""); return; }
  PBT_CHECK(rest.substr(0, 1) == " ", "unit", "no blank in \"", text, "\""); rest.erase(0, 1);
  if (align) { size_t shownlen = rest == "μs" || rest == "μs " ? rest.size() - 1 : rest.size(); PBT_CHECK(shownlen >= 3, "align", "\"", text, "\" is not aligned"); while (!rest.empty() && rest.back() == ' ') rest.pop_back(); }
  LD scale = 0; int step = -1; if (kind == 0) { for (int i = 0; i < 9; i++) if (rest == sizes[i]) step = i, scale = powl(1024.L, i); } else if (kind == 1) { for (int i = 0; i < 7; i++) if (rest == counts[i]) step = i, scale = powl(1000.L, i); } else for (int i = 0; i < 4; i++) if (rest == times[i]) step = i, scale = powl(1000.L, -i);
  PBT_CHECK(step >= 0, "unit", "unknown unit in \"", text, "\""); if (step) g.nontrivial();
  PBT_CHECK(fabsl(m * scale - (LD)v) <= half * scale * (1 + 1e-9L) + fabsl((LD)v) * 1e-13L, "value", +v, " is shown as \"", text, "\""); 
  // a unit is chosen so that a digit is left before the decimal point, and not too many
  LD base = kind == 0 ? 1024 : 1000; if (kind != 2) { PBT_CHECK(step == 0 || fabsl((LD)v) / scale > 0.9999L, "scale", +v, " is shown as \"", text, "\""); PBT_CHECK((LD)v / scale <= base * 1.0001L || step == (kind == 0 ? 8 : 6), "scale", +v, " is shown as \"", text, "\""); }
  else { PBT_CHECK(step == 0 || fabsl((LD)v) / scale < 1000.001L, "scale", +v, " is shown as \"", text, "\""); PBT_CHECK(step == 3 || fabsl((LD)v) / scale > 0.9999L, "scale", +v, " is shown as \"", text, "\""); }
}
} // namespace
PBT_TARGET(diagnostics, InProc, 200000, 4000000) {
  switch (g.draw(3)) {
    case 0: { uint64_t v = g.u64() >> g.draw(63); if (g.chance(1, 3)) { v = 1; auto b = g.coin() ? 1000u : 1024u; for (uint64_t k = g.draw(6); k; k--) v *= b; v += (uint64_t)g.range(-1, 1); } showDiagnostic<int64_t>(g, (int64_t)(v >> 1), "{}"); break; }
    case 1: showDiagnostic<uint64_t>(g, g.u64() >> g.draw(63), "{}"); break;
    case 2: showDiagnostic<int>(g, (int)g.range(0, 2147483647) >> g.draw(30), "{}"); break;
    default: { double v = g.chance(1, 15) ? 0. : anyReal(g, 24); showDiagnostic<double>(g, v, g.coin() ? "{:.1f}" : "{:.3f}"); } }
}

namespace sample { struct A {}; template <typename T> struct B { struct C {}; static void fn(T) {} }; namespace deep { template <typename... T> void handler(T...) {} void plain(A*) {} enum E { one }; template <int N> void numbered() {} } }
namespace {
template <typename T> char const* prettyType() { return __PRETTY_FUNCTION__; }
template <typename F, F PF_VALUE_NAME> char const* prettyValue() { return __PRETTY_FUNCTION__; }
std::string identifier(pbt::Gen& g) { static std::vector<std::string> const names{"a", "vt", "MyCol", "handler_1", "x9", "std", "operator()", "T", "_Z", "avoid", "void_t"}; return g.coin() ? g.pick(names) : "n" + g.text(8, "abcXYZ_019"); }
std::string typeName(pbt::Gen& g, int depth);
std::string templateArgs(pbt::Gen& g, int depth) { std::string s = "<"; auto n = g.draw(3); for (size_t i = 0; i < n; i++) s += (i ? ", " : "") + (g.chance(1, 4) ? std::to_string(g.range(-5, 99)) : typeName(g, depth - 1)); return s + ">"; }
std::string component(pbt::Gen& g, int depth) { auto s = identifier(g); if (depth > 0 && g.chance(2, 5)) s += templateArgs(g, depth); return s; }
std::string typeName(pbt::Gen& g, int depth) { std::string s = component(g, depth); for (auto n = g.draw(2); n; n--) s += "::" + component(g, depth); if (g.chance(1, 5)) s += " *"; return s; }
} // namespace
PBT_TARGET(names, InProc, 200000, 4000000) {
  using TE = util::demangle::TemplateExtract; using DU = util::demangle::DemanglerUtils;
  std::string ns; auto n = g.draw(3); for (size_t i = 0; i < n; i++) ns += (i ? "::" : "") + component(g, 3); auto bare = component(g, 3); auto full = n ? ns + "::" + bare : bare; std::string prefix = g.pick(std::vector<std::string>{"", "", "&", "::", "&::"}); auto name = prefix + full; g.note(name); if (n > 1 || full.find('<') != std::string::npos) g.nontrivial();
  PBT_CHECK(TE::getNamespace(name) == ns, "namespace", "the namespace of ", name, " is said to be ", TE::getNamespace(name)); PBT_CHECK(TE::getBarename(name) == bare, "barename", "the bare name of ", name, " is said to be ", TE::getBarename(name));
  std::string args; for (auto k = g.draw(3); k; k--) args += (args.empty() ? "" : ", ") + typeName(g, 2); std::string lead = g.coin() ? "void (" : "void("; PBT_CHECK(TE::getVoidFuncStrArgs(lead + args + ")") == args, "arguments", "the arguments of ", lead, args, ") are said to be ", TE::getVoidFuncStrArgs(lead + args + ")"));
  for (auto& other : {typeName(g, 2), "int (" + args + ")", "void (" + args + ") const", "a" + lead + args + ")", "void [" + args + "]"}) if (!(other.rfind("void", 0) == 0 && other.back() == ')')) PBT_CHECK(TE::getVoidFuncStrArgs(other) == other, "arguments", other, " became ", TE::getVoidFuncStrArgs(other));
  // the compiler's name of a function instantiated with a type or value
  auto type = typeName(g, 2); std::string close = "]"; PBT_CHECK(TE::singlePfType("static const char *vt::f() [T = " + type + close) == type, "type", "the type in [T = ", type, "] is said to be ", TE::singlePfType("static const char *vt::f() [T = " + type + close)); PBT_CHECK(TE::singlePfType("const char* vt::f() [with T = " + type + close) == type, "type", type);
  auto value = prefix.substr(0, prefix.find(':')) + full; auto pf = "static const char *vt::f() [T = " + type + ", PF_VALUE_NAME = " + value + close; PBT_CHECK(TE::lastNamedPfType(pf, "PF_VALUE_NAME") == value, "value", "the value in ", pf, " is said to be ", TE::lastNamedPfType(pf, "PF_VALUE_NAME")); PBT_CHECK(TE::lastNamedPfType(pf, "ANOTHER").empty() && TE::singlePfType("vt::f()").empty(), "value", "a parameter that is not there");
  // splitting, joining and removing blanks
  std::vector<std::string> parts; for (auto k = g.draw(5); k; k--) parts.push_back(g.text(6, "ab :<>")); char d = g.pick(std::vector<char>{',', ';', '|'}); auto joined = DU::join(std::string(1, d), parts); size_t length = parts.empty() ? 0 : parts.size() - 1; for (auto& p : parts) length += p.size(); PBT_CHECK(joined.size() == length, "join", "joining ", parts.size(), " parts gives \"", joined, "\"");
  if (!parts.empty()) { auto wanted = parts; if (wanted.back().empty()) wanted.pop_back(); auto split = DU::splitString(joined, d); PBT_CHECK(split == wanted, "split", "splitting \"", joined, "\" gives ", split.size(), " parts instead of ", wanted.size()); }
  std::string packed; for (char c : joined) if (c != ' ') packed += c; PBT_CHECK(DU::removeSpaces(joined) == packed, "blanks", "\"", joined, "\" without blanks is said to be \"", DU::removeSpaces(joined), "\""); auto wide = DU::join(" :: ", parts); std::string again; for (size_t i = 0; i < parts.size(); i++) again += (i ? " :: " : "") + parts[i]; PBT_CHECK(wide == again, "join", wide, " instead of ", again);
}
namespace { bool sameArgs(std::string const& s) { return util::demangle::DemanglerUtils::removeSpaces(s) == "sample::A*,sample::B<int>&"; } }
PBT_TARGET(instances, InProc, 500, 2000) {
  using TE = util::demangle::TemplateExtract; struct Row { std::string got, ns, bare; };
  std::vector<Row> rows{{TE::lastNamedPfType(prettyValue<void (*)(sample::A*), &sample::deep::plain>(), "PF_VALUE_NAME"), "sample::deep", "plain"}, {TE::lastNamedPfType(prettyValue<void (*)(int, sample::B<int>::C), &sample::deep::handler<int, sample::B<int>::C>>(), "PF_VALUE_NAME"), "sample::deep", "handler"}, {TE::lastNamedPfType(prettyValue<void (*)(), &sample::deep::numbered<-7>>(), "PF_VALUE_NAME"), "sample::deep", "numbered"}, {TE::lastNamedPfType(prettyValue<void (*)(sample::A), &sample::B<sample::A>::fn>(), "PF_VALUE_NAME"), "sample::B<sample::A>", "fn"}, {TE::singlePfType(prettyType<sample::B<sample::B<sample::A>>::C>()), "sample::B<sample::B<sample::A>>", "C"}, {TE::singlePfType(prettyType<sample::A>()), "sample", "A"}, {TE::singlePfType(prettyType<int>()), "", "int"}};
  auto& r = rows[g.draw(rows.size() - 1)]; g.note(r.got); g.nontrivial(); auto bare = TE::getBarename(r.got); PBT_CHECK(util::demangle::DemanglerUtils::removeSpaces(TE::getNamespace(r.got)) == r.ns, "namespace", r.got, " is said to be in ", TE::getNamespace(r.got)); PBT_CHECK(bare.substr(0, bare.find('<')) == r.bare, "barename", r.got, " is said to be called ", bare);
  auto f = TE::singlePfType(prettyType<void(sample::A*, sample::B<int>&)>()); PBT_CHECK(sameArgs(TE::getVoidFuncStrArgs(f)), "arguments", "the arguments of ", f, " are said to be ", TE::getVoidFuncStrArgs(f));
}

// variant: san
// sources: vt/utils/compress/compressor.cc vt/utils/json/decompression_input_container.cc vt/utils/json/json_reader.cc
// C24: streamed JSON and compression round-trip
#include "common/standalone.h"
#include <vt/utils/json/json_appender.h>
#include <vt/utils/json/json_reader.h>
#include <vt/utils/json/input_iterator.h>
#include <vt/utils/compress/compressor.h>
#include <vt/utils/compress/decompressor.h>
#include <fstream>
#include <unistd.h>
PBT_RULE("A case draws a byte stream or a JSON document (metadata and up to 40 array elements, some staged), compression quality, window, buffer and chunk sizes, and how the data is cut into writes and reads; what is read back is compared byte for byte or as JSON with what was written. Sizes are biased to land on, just below and just above chunk boundaries. Non-trivial: the data spans more than one write or chunk.");
using Json = nlohmann::json; namespace compress = vt::util::compress;
namespace {
std::string bytes(pbt::Gen& g, size_t n) {
  pbt::Stream s(g.seed()); std::string b(n, 0); int kind = (int)g.draw(2);
  for (size_t i = 0; i < n; i++) b[i] = kind == 0 ? (char)('a' + s.below(3)) : kind == 1 ? (char)s.next() : (char)("{\"load\":12,}"[(i + s.below(2)) % 12]);
  return b;
}
size_t len(pbt::Gen& g) {
  switch (g.draw(4)) { case 0: return g.draw(20); case 1: return g.draw(300); case 2: return g.draw(5000); case 3: return (size_t)g.range(65530, 65542); default: return g.draw(200000); }
}
// a chunk size such that n is on, or next to, a multiple of it
size_t chunk(pbt::Gen& g, size_t n) {
  switch (g.draw(4)) {
    case 0: return 1 + g.draw(8);
    case 1: return 1 << 16;
    case 2: return std::max<size_t>(1, n / (1 + g.draw(4)));
    case 3: return std::max<size_t>(1, (n - (n > 0)) / (1 + g.draw(4)));
    default: return 1 + g.draw(n + 10);
  }
}
std::string pack(pbt::Gen& g, std::string const& b) {
  int q = (int)g.range(0, b.size() > 20000 ? 6 : 11), w = (int)g.range(10, 24);
  size_t buf = g.coin() ? 1 << 20 : 1 + g.draw(300);
  g.note("compressed with quality ", q, ", window ", w, ", buffer ", buf, "; ");
  std::stringstream o; compress::Compressor c(q, w, buf);
  size_t at = 0; int pieces = 0;
  while (at < b.size()) {
    size_t m = g.chance(1, 4) ? b.size() - at : std::min(b.size() - at, (size_t)(g.chance(1, 8) ? 0 : 1 + g.draw(b.size() / 8 + 3)));
    PBT_CHECK(c.write(o, (uint8_t const*)b.data() + at, m), "write", "compressing failed"); at += m; pieces++;
  }
  PBT_CHECK(c.finish(o), "finish", "finishing failed"); g.nontrivial(pieces > 1);
  return o.str();
}
void same(std::string const& got, std::string const& want, char const* label) {
  if (got == want) return;
  size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
  pbt::fail(label, pbt::cat(got.size(), " bytes read for ", want.size(), " written; first difference at byte ", i));
}
Json value(pbt::Gen& g, int depth) {
  switch (g.draw(depth > 0 ? 9 : 7)) {
    case 0: return (int64_t)g.range(-3, 100);
    case 1: return (int64_t)g.u64();
    case 2: return g.u64();
    case 3: { double d; uint64_t u = g.u64(); std::memcpy(&d, &u, 8); return std::isfinite(d) ? Json(d) : Json(0.1); }
    case 4: return g.real(-10, 10);
    case 5: { std::string s; size_t n = g.size(30); static char const* parts[] = {"a", "\"", "\\", "\n", "\t", "{", "}", "]", ",", "é", "€", "\xf0\x9f\x98\x80", "/", "\x01", "\x7f", " "};
              for (size_t i = 0; i < n; i++) s += parts[g.draw(15)]; return s; }
    case 6: return g.coin();
    case 7: return nullptr;
    case 8: { Json a = Json::array(); size_t n = g.size(5); for (size_t i = 0; i < n; i++) a.push_back(value(g, depth - 1)); return a; }
    default: { Json o = Json::object(); size_t n = g.size(5); for (size_t i = 0; i < n; i++) o[g.text(4, "ab\"_id")] = value(g, depth - 1); return o; }
  }
}
struct Scratch { std::string p = pbt::cat("/tmp/c24-", getpid(), ".json"); ~Scratch() { unlink(p.c_str()); } };
} // namespace
PBT_TARGET(bytes, InProc, 5000, 120000) {
  std::string b = bytes(g, len(g)); g.note(b.size(), " bytes "); std::string z = pack(g, b);
  size_t in = chunk(g, z.size()); g.note("read with input buffer ", in); g.label(b.empty() ? "empty" : "bytes");
  compress::Decompressor<std::istringstream> d(std::istringstream(z), in); std::string got;
  // pieces no larger than what is left, then a read that must find the end
  size_t reads = 0;
  while (true) {
    size_t m = g.chance(1, 6) ? b.size() + 1 : 1 + g.draw(b.size() / 6 + 2); std::unique_ptr<uint8_t[]> o(new uint8_t[m]);
    size_t k = d.read(o.get(), m); PBT_CHECK(k <= m, "read size", k, " bytes read, asked for ", m);
    got.append((char*)o.get(), k); reads++;
    PBT_CHECK(k == m || d.done(), "short read", "only ", k, " of ", m, " bytes read before the end");
    PBT_CHECK(got.size() <= b.size(), "bytes", "more bytes read than written");
    if (k < m) break;
  }
  g.nontrivial(reads > 2); same(got, b, "bytes");
  PBT_CHECK(d.done(), "done", "everything was read, but the decompressor is not done");
}
PBT_TARGET(container, InProc, 3000, 80000) {
  std::string b = bytes(g, 1 + len(g) / 4); std::string z = pack(g, b); size_t c = chunk(g, b.size());
  g.note(b.size(), " bytes, chunk ", c); g.label(b.size() % c == 1 % c ? "one byte in the last chunk" : b.size() % c == 0 ? "full last chunk" : "partial last chunk"); g.nontrivial(c < b.size());
  vt::util::json::DecompressionInputContainer dc(vt::util::json::DecompressionInputContainer::AnyStreamTag{}, std::istringstream(z), c);
  std::string got; using std::begin; using std::end;
  for (auto it = begin(dc), e = end(dc); it != e; ++it) { got += *it; if (got.size() > b.size()) break; }
  same(got, b, "container");
}
namespace {
template <class S> using App = vt::util::json::Appender<S>;
struct Plan { std::string name; nlohmann::json meta; struct Step { int op; nlohmann::json v; }; std::vector<Step> steps; nlohmann::json want; };
Plan plan(pbt::Gen& g) {
  Plan p; p.name = "a" + g.text(6, "bcd_"); p.meta = g.coin() ? value(g, 2) : nlohmann::json{{"type", "LBDatafile"}, {"rank", 3}};
  nlohmann::json arr = nlohmann::json::array(), staged; bool st = false; size_t n = g.size(40);
  for (size_t i = 0; i < n; i++) {
    int op = (int)g.weighted({6, 2, 1}); nlohmann::json v;
    if (op == 0) { v = value(g, 3); arr.push_back(v); }
    else if (op == 1) { v = nlohmann::json::object(); size_t k = g.size(4); for (size_t j = 0; j < k; j++) v[g.text(2, "xy")] = value(g, 1);
      if (!st) staged = nullptr; st = true; for (auto& kv : v.items()) staged[kv.key()] = kv.value(); }
    else if (st) { arr.push_back(staged); st = false; }
    p.steps.push_back({op, v});
  }
  p.want["metadata"] = p.meta; p.want[p.name] = arr; return p;
}
template <class S> void run(App<S>& a, Plan const& p) {
  for (auto& s : p.steps) { if (s.op == 0) a.addElm(s.v); else if (s.op == 1) a.stageObject(s.v); else a.commitStaged(); }
}
// text of the document, to learn its length
std::string text(Plan const& p) { App<std::stringstream> a(p.name, p.meta, std::stringstream{}, false); run(a, p); return a.finish().str(); }
} // namespace
PBT_TARGET(documents, InProc, 3000, 80000) {
  Plan p = plan(g); std::string t = text(p);
  g.note("document ", t.substr(0, 400), t.size() > 400 ? "..." : "", "; ");
  nlohmann::json back = nlohmann::json::parse(t, nullptr, false);
  PBT_CHECK(!back.is_discarded(), "invalid JSON", "written text is not JSON: ", t.substr(0, 300));
  PBT_CHECK(back == p.want, "document", "reads back as ", back.dump().substr(0, 500), " instead of ", p.want.dump().substr(0, 500));
  // land on a boundary of the reader's 64 KiB chunks now and then
  bool file = g.chance(1, 3);
  if (g.chance(1, 4)) {
    size_t target = 65536 * (1 + g.draw(1)) + (size_t)g.range(0, 2) - 1 + (g.chance(1, 4) ? g.draw(40) : 0);
    if (t.size() + 3 < target) { std::string s(target - t.size() - (p.want[p.name].empty() ? 2 : 3), 'x'); p.steps.push_back({0, s}); p.want[p.name].push_back(s); t = text(p); g.note("padded to ", t.size(), "; ");
      g.label(t.size() % 65536 == 1 ? "64 KiB + 1" : "near 64 KiB"); file = file || g.coin(); }
  }
  bool comp = g.coin(); g.label(comp ? "compressed" : "plain"); g.nontrivial(!p.steps.empty());
  nlohmann::json got;
  if (file) {
    Scratch f; g.note("through a file, ", comp ? "compressed" : "plain"); g.label("file");
    { App<std::ofstream> a(p.name, p.meta, f.p, comp); run(a, p); if (g.coin()) a.finish(); }
    vt::util::json::Reader r(f.p);
    PBT_CHECK(r.isCompressed() == comp, "compression detected", "a ", comp ? "compressed" : "plain", " file is taken for ", comp ? "plain" : "compressed");
    try { got = *r.readFile(); } catch (nlohmann::json::exception const& e) { pbt::fail("unreadable", pbt::cat("a document of ", t.size(), " bytes cannot be read back: ", e.what())); }
  } else if (comp) {
    App<std::stringstream> a(p.name, p.meta, std::stringstream{}, true); run(a, p); std::string z = a.finish().str();
    size_t c = chunk(g, t.size()); g.note("compressed, chunk ", c);
    vt::util::json::DecompressionInputContainer dc(vt::util::json::DecompressionInputContainer::AnyStreamTag{}, std::istringstream(z), c);
    try { got = nlohmann::json::parse(dc); } catch (nlohmann::json::exception const& e) { pbt::fail("unreadable", pbt::cat("a document of ", t.size(), " bytes, read in chunks of ", c, ", cannot be read back: ", e.what())); }
  } else got = back, got = nlohmann::json::parse(t);
  PBT_CHECK(got == p.want, "document", "reads back as ", got.dump().substr(0, 500), " instead of ", p.want.dump().substr(0, 500));
}
// damage must not pass for data
PBT_TARGET(truncated, InProc, 2000, 40000) {
  std::string b = bytes(g, 1 + len(g) / 4); std::string z = pack(g, b); size_t cut = g.draw(z.size() - 1); bool extra = g.chance(1, 3);
  std::string damaged = extra ? z + bytes(g, 1 + g.draw(50)) : z.substr(0, cut); g.note(b.size(), " bytes, ", extra ? "bytes appended" : pbt::cat("cut to ", cut, " of ", z.size())); g.nontrivial(); g.label(extra ? "trailing bytes" : "truncated");
  standalone::expect_abort = true; bool aborted = false;
  auto* d = new compress::Decompressor<std::istringstream>(std::istringstream(damaged), 1 + g.draw(100)); std::string got; std::unique_ptr<uint8_t[]> o(new uint8_t[b.size() + 1]);
  // not destroyed when aborted: its destructor insists on having finished
  try { size_t k = d->read(o.get(), b.size() + 1); got.append((char*)o.get(), k); } catch (standalone::Abort const&) { aborted = true; }
  standalone::expect_abort = false;
  PBT_CHECK(aborted, "damage unnoticed", got.size(), " bytes were read from a damaged stream of ", b.size(), " without complaint");
}

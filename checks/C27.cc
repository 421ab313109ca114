// variant: san
// sources: vt/configs/arguments/args.cc vt/utils/demangle/demangle.cc
// C27: command-line and file configuration has exactly the stated effect
#include "common/standalone.h"
#include "common/context_stub.h"
#include <vt/configs/arguments/args.h>
#include <vt/configs/arguments/argv_container.h>
#include <vt/configs/debug/debug_masterconfig.h>
#include <variant>
#include <fstream>
#include <filesystem>
#include <unistd.h>
PBT_RULE("A case is a command line: up to 14 options of every type in any order and spelling, separated by application arguments with the mode switches, optionally a YAML file and an ini file giving further options, parsed into a fresh configuration. Every field of the configuration is compared with the defaults plus exactly what was given, in the documented precedence, and the arguments left over with the application's own. Round trips write the configuration out and read it back. Non-trivial: at least two options.");
using namespace vt; using arguments::AppConfig; using arguments::ArgConfig;
namespace {
using Member = std::variant<bool AppConfig::*, int32_t AppConfig::*, int64_t AppConfig::*, double AppConfig::*, std::size_t AppConfig::*, std::string AppConfig::*>;
enum What { Plain, File, Level };
struct Opt { char const* name; Member m; char const* section = nullptr; char const* label = nullptr; What what = Plain; };
#define A(x) &AppConfig::x
std::vector<Opt> const& options() {
  static std::vector<Opt> v = {
    {"vt_color", A(vt_color), "Output Control", "Color"}, {"vt_no_color", A(vt_no_color), "Output Control", "No Color"}, {"vt_quiet", A(vt_quiet), "Output Control", "Quiet"},
    {"vt_no_SIGINT", A(vt_no_sigint), "Signal Handling", "Disable SIGINT"}, {"vt_no_SIGSEGV", A(vt_no_sigsegv), "Signal Handling", "Disable SIGSEGV"}, {"vt_no_SIGBUS", A(vt_no_sigbus), "Signal Handling", "Disable SIGBUS"}, {"vt_no_terminate", A(vt_no_terminate), "Signal Handling", "Disable Terminate Signal"},
    {"vt_memory_reporters", A(vt_memory_reporters), "Memory Usage Reporting", "Memory Reporters"}, {"vt_print_memory_each_phase", A(vt_print_memory_each_phase), "Memory Usage Reporting", "Print Memory Each Phase"}, {"vt_print_memory_node", A(vt_print_memory_node), "Memory Usage Reporting", "Print Memory On Node"},
    {"vt_allow_memory_report_with_ps", A(vt_allow_memory_report_with_ps), "Memory Usage Reporting", "Allow Memory Report With ps"}, {"vt_print_memory_at_threshold", A(vt_print_memory_at_threshold)}, {"vt_print_memory_threshold", A(vt_print_memory_threshold)}, {"vt_print_memory_sched_poll", A(vt_print_memory_sched_poll), "Memory Usage Reporting", "Print Memory Scheduler Poll"}, {"vt_print_memory_footprint", A(vt_print_memory_footprint), "Memory Usage Reporting", "Print Memory Footprint"},
    {"vt_no_warn_stack", A(vt_no_warn_stack), "Dump Stack Backtrace", "Enable Stack Output on Warning"}, {"vt_no_assert_stack", A(vt_no_assert_stack), "Dump Stack Backtrace", "Enable Stack Output on Assert"}, {"vt_no_abort_stack", A(vt_no_abort_stack), "Dump Stack Backtrace", "Enable Stack Output on Abort"}, {"vt_no_stack", A(vt_no_stack), "Dump Stack Backtrace", "Enable Stack Output"},
    {"vt_stack_file", A(vt_stack_file), "Dump Stack Backtrace", "File"}, {"vt_stack_dir", A(vt_stack_dir), "Dump Stack Backtrace", "Directory"}, {"vt_stack_mod", A(vt_stack_mod), "Dump Stack Backtrace", "Output Rank Mod"},
    {"vt_trace", A(vt_trace), "Tracing Configuration", "Enabled"}, {"vt_trace_file", A(vt_trace_file), "Tracing Configuration", "File"}, {"vt_trace_dir", A(vt_trace_dir), "Tracing Configuration", "Directory"}, {"vt_trace_mod", A(vt_trace_mod), "Tracing Configuration", "Output Rank Mod"}, {"vt_trace_flush_size", A(vt_trace_flush_size), "Tracing Configuration", "Flush Size"}, {"vt_trace_gzip_finish_flush", A(vt_trace_gzip_finish_flush), "Tracing Configuration", "GZip Finish Flush"},
    {"vt_trace_sys_all", A(vt_trace_sys_all), "Tracing Configuration", "Include All System Events"}, {"vt_trace_sys_term", A(vt_trace_sys_term), "Tracing Configuration", "Include Termination Events"}, {"vt_trace_sys_location", A(vt_trace_sys_location), "Tracing Configuration", "Include Location Events"}, {"vt_trace_sys_collection", A(vt_trace_sys_collection), "Tracing Configuration", "Include Collection Events"}, {"vt_trace_sys_serial_msg", A(vt_trace_sys_serial_msg), "Tracing Configuration", "Include Message Serialization Events"},
    {"vt_trace_spec", A(vt_trace_spec), "Tracing Configuration", "Specification Enabled"}, {"vt_trace_spec_file", A(vt_trace_spec_file), "Tracing Configuration", "Spec File", File}, {"vt_trace_memory_usage", A(vt_trace_memory_usage), "Tracing Configuration", "Memory Usage"}, {"vt_trace_event_polling", A(vt_trace_event_polling), "Tracing Configuration", "Event Polling"}, {"vt_trace_irecv_polling", A(vt_trace_irecv_polling), "Tracing Configuration", "IRecv Polling"},
    {"vt_debug_level", A(vt_debug_level), "Debug Print Configuration", "Level", Level}, {"vt_debug_all", A(vt_debug_all), "Debug Print Configuration", "Enable All"}, {"vt_debug_none", A(vt_debug_none), "Debug Print Configuration", "Disable All"},
    {"vt_debug_print_flush", A(vt_debug_print_flush), "Debug Print Configuration", "Debug Print Flush"}, {"vt_debug_replay", A(vt_debug_replay), "Debug Print Configuration", "Debug Replay"},
    {"vt_lb", A(vt_lb), "Load Balancing", "Enabled"}, {"vt_lb_quiet", A(vt_lb_quiet), "Load Balancing", "Quiet"}, {"vt_lb_file_name", A(vt_lb_file_name), "Load Balancing", "File", File}, {"vt_lb_show_config", A(vt_lb_show_config), "Load Balancing", "Show Configuration"}, {"vt_lb_name", A(vt_lb_name), "Load Balancing", "Name"}, {"vt_lb_args", A(vt_lb_args), "Load Balancing", "Arguments"}, {"vt_lb_interval", A(vt_lb_interval), "Load Balancing", "Interval"},
    {"vt_lb_keep_last_elm", A(vt_lb_keep_last_elm), "Load Balancing", "Keep Last Element"}, {"vt_lb_data", A(vt_lb_data), "Load Balancing/LB Data Output", "Enabled"}, {"vt_lb_data_compress", A(vt_lb_data_compress), "Load Balancing/LB Data Input", "Enable Compression"}, {"vt_lb_data_in", A(vt_lb_data_in), "Load Balancing/LB Data Input", "Enabled"}, {"vt_lb_data_dir", A(vt_lb_data_dir), "Load Balancing/LB Data Output", "Directory"}, {"vt_lb_data_file", A(vt_lb_data_file), "Load Balancing/LB Data Output", "File"}, {"vt_lb_data_dir_in", A(vt_lb_data_dir_in), "Load Balancing/LB Data Input", "Directory"}, {"vt_lb_data_file_in", A(vt_lb_data_file_in), "Load Balancing/LB Data Input", "File"},
    {"vt_lb_statistics", A(vt_lb_statistics), "Load Balancing/LB Statistics", "Enabled"}, {"vt_lb_statistics_compress", A(vt_lb_statistics_compress), "Load Balancing/LB Statistics", "Enable Compression"}, {"vt_lb_statistics_file", A(vt_lb_statistics_file), "Load Balancing/LB Statistics", "File"}, {"vt_lb_statistics_dir", A(vt_lb_statistics_dir), "Load Balancing/LB Statistics", "Directory"}, {"vt_lb_statistics_freq", A(vt_lb_statistics_freq), "Load Balancing/LB Statistics", "Frequency"},
    {"vt_lb_self_migration", A(vt_lb_self_migration), "Load Balancing", "Enable Self Migration"}, {"vt_lb_spec", A(vt_lb_spec), "Load Balancing", "Enable Specification"}, {"vt_lb_spec_file", A(vt_lb_spec_file), "Load Balancing", "Specification File", File}, {"vt_lb_run_lb_first_phase", A(vt_lb_run_lb_first_phase)},
    {"vt_diag_enable", A(vt_diag_enable), "Diagnostics", "Enabled"}, {"vt_diag_print_summary", A(vt_diag_print_summary), "Diagnostics", "Enable Print Summary"}, {"vt_diag_summary_file", A(vt_diag_summary_file), "Diagnostics", "Summary File"}, {"vt_diag_summary_csv_file", A(vt_diag_summary_csv_file), "Diagnostics", "Summary CSV File"}, {"vt_diag_csv_base_units", A(vt_diag_csv_base_units), "Diagnostics", "Use CSV Base Units"},
    {"vt_no_detect_hang", A(vt_no_detect_hang), "Termination", "No Detect Hangs"}, {"vt_term_rooted_use_ds", A(vt_term_rooted_use_ds), "Termination", "Use DS for Rooted"}, {"vt_term_rooted_use_wave", A(vt_term_rooted_use_wave), "Termination", "Use Wave for Rooted"}, {"vt_epoch_graph_on_hang", A(vt_epoch_graph_on_hang), "Termination", "Output Epoch Graph on Hang"}, {"vt_epoch_graph_terse", A(vt_epoch_graph_terse), "Termination", "Terse Epoch Graph Output"}, {"vt_print_no_progress", A(vt_print_no_progress), "Termination", "Print No Progress"}, {"vt_hang_freq", A(vt_hang_freq), "Termination", "Hang Check Frequency"},
    {"vt_pause", A(vt_pause), "Launch", "Pause"},
    {"vt_user_1", A(vt_user_1)}, {"vt_user_2", A(vt_user_2)}, {"vt_user_3", A(vt_user_3)}, {"vt_user_int_1", A(vt_user_int_1)}, {"vt_user_int_2", A(vt_user_int_2)}, {"vt_user_int_3", A(vt_user_int_3)}, {"vt_user_str_1", A(vt_user_str_1)}, {"vt_user_str_2", A(vt_user_str_2)}, {"vt_user_str_3", A(vt_user_str_3)},
    {"vt_sched_num_progress", A(vt_sched_num_progress), "Scheduler Configuration", "Num Progress Times"}, {"vt_sched_progress_han", A(vt_sched_progress_han), "Scheduler Configuration", "Progress Handlers"}, {"vt_sched_progress_sec", A(vt_sched_progress_sec), "Scheduler Configuration", "Progress Seconds"},
    {"vt_max_mpi_send_size", A(vt_max_mpi_send_size), "Runtime", "Max MPI Send Size"}, {"vt_no_assert_fail", A(vt_no_assert_fail), "Runtime", "Disable Assert Failure"}, {"vt_throw_on_abort", A(vt_throw_on_abort), "Runtime", "Throw on Abort"},
    {"vt_tv", A(vt_tv), "Visualization", "Enabled"}, {"vt_tv_config_file", A(vt_tv_config_file), "Visualization", "Configuration File"},
#if (vt_feature_fcontext != 0)
    {"vt_ult_disable", A(vt_ult_disable)}, {"vt_ult_stack_size", A(vt_ult_stack_size)},
#endif
  };
#define D(x) v.push_back({"vt_debug_" #x, A(vt_debug_##x), "Debug Print Configuration/Enable", #x});
  if (v.size() < 110) { D(gen) D(runtime) D(active) D(term) D(termds) D(barrier) D(event) D(pipe) D(pool) D(reduce) D(rdma) D(rdma_channel) D(rdma_state) D(handler) D(hierlb) D(temperedlb) D(temperedwmin) D(scatter) D(serial_msg) D(trace) D(location) D(lb) D(vrt) D(vrt_coll) D(worker) D(group) D(broadcast) D(objgroup) D(phase) D(context) D(epoch) }
  return v;
}
std::string show(AppConfig const& c, Member const& m) {
  return std::visit([&](auto p) -> std::string { auto const& x = c.*p; using T = std::decay_t<decltype(x)>;
    if constexpr (std::is_same<T, std::string>::value) return "'" + x + "'"; else if constexpr (std::is_same<T, bool>::value) return x ? "true" : "false"; else if constexpr (std::is_same<T, double>::value) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; } else return std::to_string(x); }, m);
}
void same(AppConfig const& got, AppConfig const& want, char const* label, std::string const& how) {
  for (auto& o : options()) { auto a = show(got, o.m), b = show(want, o.m); PBT_CHECK(a == b, label, how, ": ", o.name, " is ", a, ", should be ", b); }
  PBT_CHECK(got.vt_trace_mpi == want.vt_trace_mpi && got.vt_trace_pmpi == want.vt_trace_pmpi, label, how, ": tracing of MPI is ", got.vt_trace_mpi, "/", got.vt_trace_pmpi, ", should be ", want.vt_trace_mpi, "/", want.vt_trace_pmpi);
  PBT_CHECK(got.vt_debug_param == want.vt_debug_param && got.vt_auto_color == want.vt_auto_color && got.vt_help_lb_args == want.vt_help_lb_args, label, how, ": a field without an option changed");
  PBT_CHECK(got.vt_output_config == want.vt_output_config && got.vt_output_config_file == want.vt_output_config_file, label, how, ": output of the configuration is ", got.vt_output_config, " to ", got.vt_output_config_file);
  PBT_CHECK(got.colorize_output == !want.vt_no_color, label, how, ": colour output is ", got.colorize_output);
  using config::ModeEnum; auto l = want.vt_debug_level;
  auto lv = static_cast<uint64_t>(ModeEnum::terse); if (l == "normal" || l == "1" || l == "verbose" || l == "2") lv |= static_cast<uint64_t>(ModeEnum::normal); if (l == "verbose" || l == "2") lv |= static_cast<uint64_t>(ModeEnum::verbose);
  PBT_CHECK(got.vt_debug_level_val == lv, label, how, ": debug level ", l, " is stored as ", got.vt_debug_level_val);
}
std::string const& scratch() {
  struct Dir { std::string path; Dir() { char t[] = "/tmp/c27.XXXXXX"; if (!mkdtemp(t)) ::abort(); path = t; for (char c : {'a', 'b', 'c'}) std::ofstream(path + "/" + c) << "x"; } ~Dir() { std::error_code e; std::filesystem::remove_all(path, e); } };
  static Dir d; return d.path;
}
// gives member m of c a generated value and returns how it is spelled
std::string give(pbt::Gen& g, AppConfig& c, Opt const& o, std::string const& alphabet) {
  return std::visit([&](auto p) -> std::string { auto& x = c.*p; using T = std::decay_t<decltype(x)>;
    if constexpr (std::is_same<T, std::string>::value) {
      if (o.what == File) x = scratch() + "/" + (char)('a' + g.draw(2));
      else if (o.what == Level) { static char const* l[] = {"terse", "normal", "verbose", "0", "1", "2"}; x = l[g.draw(5)]; }
      else x = g.text(8, alphabet);
      return x;
    } else if constexpr (std::is_same<T, bool>::value) { x = g.coin(); return x ? "true" : "false"; }
    else if constexpr (std::is_same<T, double>::value) { x = g.chance(1, 2) ? (double)g.range(0, 100) : g.real(0, 10); char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }
    else if constexpr (std::is_same<T, std::size_t>::value) { x = (std::size_t)(g.chance(1, 3) ? g.u64() : g.draw(1000)); return std::to_string(x); }
    else if constexpr (std::is_same<T, int64_t>::value) { x = g.chance(1, 3) ? (int64_t)g.u64() : g.range(-10, 100); return std::to_string(x); }
    else { x = g.chance(1, 3) ? (int32_t)g.bits(32) : (int32_t)g.range(-10, 100); return std::to_string(x); }
  }, o.m);
}
bool flag(Opt const& o) {
  // these two booleans are options that take a value
  return std::holds_alternative<bool AppConfig::*>(o.m) && std::string(o.name) != "vt_epoch_graph_on_hang" && std::string(o.name) != "vt_print_no_progress";
}
std::vector<size_t> some(pbt::Gen& g, size_t most) { std::set<size_t> s; size_t n = g.size(most); for (size_t i = 0; i < n; i++) s.insert(g.draw(options().size() - 1)); return {s.begin(), s.end()}; }
struct Run { std::vector<std::string> store; std::vector<char*> ptr; int argc = 0; char** argv = nullptr; ArgConfig cfg; int code = 0; std::string msg; };
std::unique_ptr<Run> parse(std::vector<std::string> const& args, AppConfig const* base = nullptr) {
  auto r = std::make_unique<Run>(); r->store = args; for (auto& s : r->store) r->ptr.push_back(s.data()); r->ptr.push_back(nullptr); r->argc = (int)args.size(); r->argv = r->ptr.data();
  std::tie(r->code, r->msg) = r->cfg.parse(r->argc, r->argv, base); return r;
}
std::string yquote(std::string const& s) { std::string o = "'"; for (char c : s) { o += c; if (c == '\'') o += c; } return o + "'"; }
std::string yaml_value(Opt const& o, std::string const& v) { return std::holds_alternative<std::string AppConfig::*>(o.m) ? yquote(v) : v; }
std::string yaml_text(std::map<std::string, std::vector<std::pair<std::string, std::string>>> const& sections, std::vector<std::string> const& debug) {
  std::map<std::string, std::string> top;
  for (auto& [s, kv] : sections) { auto slash = s.find('/'); if (slash != std::string::npos) continue; auto& t = top[s]; for (auto& [k, v] : kv) t += "  " + k + ": " + v + "\n"; }
  for (auto& [s, kv] : sections) { auto slash = s.find('/'); if (slash == std::string::npos) continue; auto& t = top[s.substr(0, slash)]; t += "  " + s.substr(slash + 1) + ":\n"; for (auto& [k, v] : kv) t += "    " + k + ": " + v + "\n"; }
  if (!debug.empty()) { auto& t = top["Debug Print Configuration"]; t += "  Enable:\n"; for (auto& d : debug) t += "    - " + d + "\n"; }
  std::string out; for (auto& [s, t] : top) out += s + ":\n" + t; return out.empty() ? "{}\n" : out;
}
std::string const words = "abZ9_/.%=, :x-";
} // namespace
PBT_TARGET(command_line, InProc, 2500, 60000) {
  AppConfig want; if (g.chance(1, 4)) { auto s = some(g, 6); for (auto i : s) give(g, want, options()[i], words); }
  bool based = g.chance(1, 2); AppConfig base; if (based) base = want; else want = AppConfig{};
  std::string yaml, ini; bool use_yaml = g.chance(1, 3), use_ini = g.chance(1, 3); size_t given = 0;
  auto onlyone = [](Opt const& o, std::set<std::string>& used) { std::string n = o.name; if (n == "vt_lb_name") n = "vt_lb_file_name"; return used.insert(n).second; };
  if (use_yaml) {
    std::map<std::string, std::vector<std::pair<std::string, std::string>>> sec; std::vector<std::string> dbg;
    // kinds of printing not listed, and the memory threshold if not named, are off
    for (auto& o : options()) if (o.section && std::string(o.section) == "Debug Print Configuration/Enable") want.*std::get<bool AppConfig::*>(o.m) = false;
    want.vt_print_memory_at_threshold = false; want.vt_trace_mpi = want.vt_trace_pmpi = false;
    for (auto i : some(g, 10)) { auto& o = options()[i]; if (!o.section) continue; auto v = give(g, want, o, words); given++;
      if (std::string(o.section) == "Debug Print Configuration/Enable") { if (v == "true") dbg.push_back(o.label); } else sec[o.section].push_back({o.label, yaml_value(o, v)}); }
    if (g.chance(1, 5)) { Opt t{"", A(vt_print_memory_threshold)}; sec["Memory Usage Reporting"].push_back({"Print Memory Threshold", yquote(give(g, want, t, words))}); want.vt_print_memory_at_threshold = true; }
    if (g.chance(1, 4)) { int k = (int)g.draw(3); want.vt_trace_mpi = k & 1; want.vt_trace_pmpi = k & 2; sec["Tracing Configuration"].push_back({"MPI Type Events", k == 0 ? "''" : k == 1 ? "internal" : k == 2 ? "external" : "internal external"}); }
    if (g.chance(1, 4)) { int nb = 0, ni = 0, ns = 0; size_t n = g.size(6); for (size_t i = 0; i < n; i++) { std::string key = pbt::cat("user key ", i);
      switch (g.draw(2)) { case 0: if (nb < 3) { bool v = g.coin(); sec["User Options"].push_back({key, v ? "true" : "false"}); (nb == 0 ? want.vt_user_1 : nb == 1 ? want.vt_user_2 : want.vt_user_3) = v; nb++; } break;
        case 1: if (ni < 3) { int v = (int)g.range(-50, 5000); sec["User Options"].push_back({key, std::to_string(v)}); (ni == 0 ? want.vt_user_int_1 : ni == 1 ? want.vt_user_int_2 : want.vt_user_int_3) = v; ni++; } break;
        default: if (ns < 3) { std::string v = "s" + g.text(4, "abc "); sec["User Options"].push_back({key, yquote(v)}); (ns == 0 ? want.vt_user_str_1 : ns == 1 ? want.vt_user_str_2 : want.vt_user_str_3) = v; ns++; } break; } } }
    yaml = scratch() + "/in.yaml"; std::ofstream(yaml) << yaml_text(sec, dbg);
  }
  std::set<std::string> used;
  if (use_ini) {
    std::ostringstream t; for (auto i : some(g, 8)) { auto& o = options()[i]; if (!onlyone(o, used)) continue; auto v = give(g, want, o, words); given++; t << o.name << "=" << (std::holds_alternative<std::string AppConfig::*>(o.m) ? "\"" + v + "\"" : v) << "\n"; }
    ini = scratch() + "/in.ini"; std::ofstream(ini) << t.str();
  }
  // the options on the command line, each as the words it takes
  std::vector<std::vector<std::string>> vt; bool trace_mpi = false;
  for (auto i : some(g, 14)) {
    auto& o = options()[i]; std::string n = o.name; bool lb = n == "vt_lb_name" || n == "vt_lb_file_name"; if (lb && used.count("vt_lb_file_name") && use_ini) continue; if (!onlyone(o, used) && lb) continue;
    auto v = give(g, want, o, words); given++;
    if (flag(o)) { if (n == "vt_diag_enable" && v == "false") vt.push_back({"--vt_diag_disable"}); else if (v == "true" && g.chance(3, 4)) vt.push_back({"--" + n}); else vt.push_back({"--" + n + "=" + (g.coin() ? v : v == "true" ? "1" : "0")}); }
    else if (!v.empty() && (v[0] == '-' || g.coin())) vt.push_back({"--" + n + "=" + v});
    else vt.push_back({"--" + n, v});
  }
  if (g.chance(1, 6)) { int k = 1 + (int)g.draw(2); want.vt_trace_mpi = k & 1; want.vt_trace_pmpi = k & 2; trace_mpi = true; if (k & 1) vt.push_back({"--vt_trace_mpi=internal"}); if (k & 2) vt.push_back({"--vt_trace_mpi=external"}); }
  (void)trace_mpi;
  if (use_yaml) vt.push_back({"--vt_input_config_yaml=" + yaml});
  if (use_ini) { if (g.coin()) vt.push_back({"--vt_input_config=" + ini}); else vt.push_back({"--vt_input_config", ini}); }
  // in any order, between arguments of the application
  auto order = g.perm((int)vt.size()); std::vector<std::string> args{"./dir/prog name"}, app; int mode = 0; // 0 before the first vt argument, 1 in vt arguments, 2 after --
  auto word = [&] { static char const* w[] = {"in.dat", "-x", "--verbose", "", "17", "--help", "a b", "-vt_quiet", "--vtx", "=", "x--vt_quiet"}; return std::string(w[g.draw(10)]); };
  auto apparg = [&] { if (mode == 1) { args.push_back("--"); mode = 2; } auto w = mode == 2 && g.chance(1, 6) ? std::string("--vt_quiet") : word(); args.push_back(w); app.push_back(w); };
  for (auto i : order) {
    while (g.chance(1, 6)) apparg();
    if (mode == 2 || (mode == 0 && g.chance(1, 4))) { args.push_back("--vt_args"); mode = 1; } else if (mode == 0) mode = 1; else if (g.chance(1, 12)) args.push_back("--vt_args");
    for (auto& w : vt[(size_t)i]) args.push_back(w);
  }
  while (g.chance(1, 3)) apparg();
  if (given >= 2) g.nontrivial();
  { std::string n; for (auto& a : args) n += (n.empty() ? "" : " ") + (a.find(' ') != std::string::npos || a.empty() ? yquote(a) : a); g.note(n); if (use_yaml) { std::ifstream f(yaml); std::stringstream s; s << f.rdbuf(); g.note("yaml: " + s.str()); } if (use_ini) { std::ifstream f(ini); std::stringstream s; s << f.rdbuf(); g.note("ini: " + s.str()); } }
  auto r = parse(args, based ? &base : nullptr);
  PBT_CHECK(r->code == -1, "rejected", "a valid command line is rejected (", r->code, "): ", r->msg.substr(0, 300));
  same(r->cfg.config_, want, "effect", "after parsing");
  PBT_CHECK(r->cfg.config_.vt_input_config_yaml == yaml, "effect", "the YAML file is ", r->cfg.config_.vt_input_config_yaml);
  PBT_CHECK(r->cfg.config_.prog_name == "prog name" && std::string(r->cfg.config_.argv_prog_name) == args[0], "program", "the program is called ", r->cfg.config_.prog_name);
  std::vector<std::string> left; for (int i = 0; i < r->argc; i++) left.push_back(r->argv[i]);
  app.insert(app.begin(), args[0]); auto join = [](std::vector<std::string> const& v) { std::string s; for (auto& x : v) s += yquote(x) + " "; return s; };
  PBT_CHECK(left == app && r->argv[r->argc] == nullptr, "leftover", "the program gets ", join(left), " and should get ", join(app));
  PBT_CHECK(r->cfg.config_.passthru_args.size() + 1 == app.size(), "leftover", r->cfg.config_.passthru_args.size(), " pass-through arguments recorded");
}
// what the runtime does not know, or cannot be a value of the option, is an error
PBT_TARGET(errors, InProc, 600, 10000) {
  std::vector<std::string> args{"prog"}; int kind = (int)g.draw(4); std::string bad; int expect = 1;
  for (auto i : some(g, 4)) { auto& o = options()[i]; if (o.what != Plain || std::string(o.name) == "vt_lb_name") continue; AppConfig c; auto v = give(g, c, o, "abc"); if (v.empty()) continue; args.push_back(std::string("--") + o.name + "=" + v); }
  switch (kind) {
    case 0: bad = "--vt_" + g.text(5, "abc") + "_unknown"; break;
    case 1: { static char const* n[] = {"vt_lb_interval", "vt_stack_mod", "vt_hang_freq", "vt_max_mpi_send_size", "vt_user_int_2", "vt_sched_progress_sec"}; bad = std::string("--") + n[g.draw(5)] + "=" + (g.coin() ? "abc" : "12x"); break; }
    case 2: bad = "--vt_lb_file_name=" + scratch() + "/absent"; break;
    case 3: bad = "--vt_help"; expect = 0; break;
    default: bad = "--vt_args stray"; break;
  }
  if (kind == 4) { args.push_back("--vt_args"); args.push_back("stray"); } else if (args.size() == 1) args.push_back(bad); else args.insert(args.begin() + 1 + (long)g.draw(args.size() - 1), bad);
  g.note(pbt::cat(bad, " among ", args.size() - 1)); if (args.size() > 3) g.nontrivial();
  if (kind == 1) for (size_t i = 1; i + 1 <= args.size(); i++) { auto eq = bad.find('='); for (size_t j = 1; j < args.size(); j++) if (args[j] != bad && args[j].compare(0, eq, bad, 0, eq) == 0) throw pbt::Discard{}; }
  auto r = parse(args);
  if (expect) PBT_CHECK(r->code > 0, "accepted", "'", bad, "' is accepted (", r->code, ")"); else PBT_CHECK(r->code == 0 && r->msg.find("--vt_lb_name") != std::string::npos, "help", "--vt_help returns ", r->code);
}
// writing the configuration out and reading it back
PBT_TARGET(written, InProc, 1200, 30000) {
  AppConfig want; std::vector<std::string> args{"prog"}; std::set<std::string> used; bool yaml = g.coin();
  std::string user; std::string const chars = !yaml ? std::string("abZ9_/.%=-") : g.chance(1, 3) ? words + "#;\"'\\[]{}&*" : words;
  if (yaml && g.chance(1, 3)) { // names for the user options come from a file
    int nb = 0, ni = 0, ns = 0; size_t n = 1 + g.size(6);
    for (size_t i = 0; i < n; i++) { std::string key = pbt::cat("my key ", i);
      switch (g.draw(2)) { case 0: if (nb < 3) { bool v = g.coin(); user += "  " + key + ": " + (v ? "true" : "false") + "\n"; (nb == 0 ? want.vt_user_1 : nb == 1 ? want.vt_user_2 : want.vt_user_3) = v; nb++; } break;
        case 1: if (ni < 3) { int v = (int)g.range(-50, 5000); user += pbt::cat("  ", key, ": ", v, "\n"); (ni == 0 ? want.vt_user_int_1 : ni == 1 ? want.vt_user_int_2 : want.vt_user_int_3) = v; ni++; } break;
        default: if (ns < 3) { std::string v = "s" + g.text(4, "abc "); user += "  " + key + ": '" + v + "'\n"; (ns == 0 ? want.vt_user_str_1 : ns == 1 ? want.vt_user_str_2 : want.vt_user_str_3) = v; ns++; } break; } }
    if (!user.empty()) { std::ofstream(scratch() + "/user.yaml") << "User Options:\n" << user; args.push_back("--vt_input_config_yaml=" + scratch() + "/user.yaml"); }
  }
  size_t given = 0;
  for (auto i : some(g, 14)) {
    auto& o = options()[i]; std::string n = o.name; if (n == "vt_lb_name") n = "vt_lb_file_name"; if (!used.insert(n).second) continue;
    if (!user.empty() && n.find("vt_user") == 0) continue;
    auto v = give(g, want, o, chars); given++;
    if (yaml && n.find("vt_user_str") == 0) { v = "s" + v; want.*std::get<std::string AppConfig::*>(o.m) = v; } /* the file gives these their type */ if (v.empty()) { args.push_back(std::string("--") + o.name); args.push_back(v); } else args.push_back(std::string("--") + o.name + "=" + v);
  }
  if (g.chance(1, 4)) { int k = 1 + (int)g.draw(2); want.vt_trace_mpi = k & 1; want.vt_trace_pmpi = k & 2; if (k & 1) args.push_back("--vt_trace_mpi=internal"); if (k & 2) args.push_back("--vt_trace_mpi=external"); }
  static char const* ynames[] = {"o.yaml", "out.yml", "yaml"}; static char const* inames[] = {"o.ini", "c", "out.toml", "vt_config.ini"};
  want.vt_output_config = true; want.vt_output_config_file = yaml ? ynames[g.draw(2)] : inames[g.draw(3)];
  args.push_back("--vt_output_config"); if (want.vt_output_config_file != "vt_config.ini") args.push_back("--vt_output_config_file=" + want.vt_output_config_file);
  { std::string n; for (auto& a : args) n += a + " "; g.note(n + (user.empty() ? "" : "\n" + user)); } if (given >= 2) g.nontrivial();
  auto r = parse(args); PBT_CHECK(r->code == -1, "rejected", "a valid command line is rejected (", r->code, "): ", r->msg.substr(0, 300)); same(r->cfg.config_, want, "effect", "after parsing");
  auto text = r->cfg.config_.vt_output_config_str; PBT_CHECK(!text.empty(), "written", "nothing is written");
  // the ini form also lists options that were not given, which ini_defaults judges; here only those given are read back
  if (!yaml) { std::istringstream in(text); std::string kept; for (std::string l; std::getline(in, l);) { auto eq = l.find('='); if (eq == std::string::npos || l[0] == '#') continue; auto n = l.substr(0, eq); for (auto& a : args) if (a == "--" + n || a.compare(0, n.size() + 3, "--" + n + "=") == 0) { kept += l + "\n"; break; } } text = kept; }
  auto file = scratch() + (yaml ? "/back.yaml" : "/back.ini"); { std::ofstream(file) << text; }
  auto b = parse({"prog", (yaml ? "--vt_input_config_yaml=" : "--vt_input_config=") + file});
  PBT_CHECK(b->code == -1, "written-rejected", "the written configuration is rejected (", b->code, "): ", b->msg.substr(0, 300), "\n", text);
  same(b->cfg.config_, want, yaml ? "yaml-round-trip" : "ini-round-trip", "read back from what was written");
}
// the ini form of a configuration lists every option
PBT_TARGET(ini_defaults, InProc, 40, 40) {
  AppConfig want; want.vt_lb_interval = (int32_t)g.range(1, 9); want.vt_output_config = true; g.nontrivial(); g.note(pbt::cat("interval ", want.vt_lb_interval));
  auto r = parse({"prog", "--vt_output_config", pbt::cat("--vt_lb_interval=", want.vt_lb_interval)}); PBT_CHECK(r->code == -1, "rejected", r->msg);
  auto file = scratch() + "/defaults.ini"; { std::ofstream(file) << r->cfg.config_.vt_output_config_str; }
  auto b = parse({"prog", "--vt_input_config=" + file});
  PBT_CHECK(b->code == -1, "ini-defaults", "the written configuration is rejected: ", b->msg.substr(0, 200)); same(b->cfg.config_, want, "ini-defaults", "read back from the ini form");
}
// the names of data files
PBT_TARGET(file_names, InProc, 1500, 30000) {
  AppConfig c; int me = (int)g.draw(1200); standalone::rank(me, 1300); auto rank = std::to_string(me);
  auto name = [&] { std::string s = g.text(3, "ab."); if (g.coin()) s += "%p"; s += g.text(4, "ab."); if (g.chance(1, 4)) s += ".br"; return s; };
  auto with = [&](std::string s) { auto p = s.find("%p"); if (p == std::string::npos) return s + rank; return s.substr(0, p) + rank + s.substr(p + 2); };
  auto br = [](std::string s) { return s.size() >= 3 && s.compare(s.size() - 3, 3, ".br") == 0 ? s : s + ".br"; };
  c.vt_lb_data_file = name(); c.vt_lb_data_file_in = name(); c.vt_lb_data_dir = g.text(4, "ab/"); c.vt_lb_data_dir_in = g.text(4, "ab/"); c.vt_lb_data_compress = g.coin();
  c.vt_lb_statistics_file = g.text(4, "ab.") + (g.chance(1, 4) ? ".br" : ""); c.vt_lb_statistics_dir = g.chance(1, 2) ? "" : g.text(3, "ab"); c.vt_lb_statistics_compress = g.coin();
  g.nontrivial(); g.note(c.vt_lb_data_file + " " + c.vt_lb_data_file_in + " " + c.vt_lb_statistics_file);
  std::string o = with(c.vt_lb_data_file); if (c.vt_lb_data_compress) o = br(o);
  PBT_CHECK(c.getLBDataFileOut() == c.vt_lb_data_dir + "/" + o, "out-name", "data of rank ", me, " goes to ", c.getLBDataFileOut(), ", should go to ", c.vt_lb_data_dir, "/", o);
  PBT_CHECK(c.getLBDataFileIn() == c.vt_lb_data_dir_in + "/" + with(c.vt_lb_data_file_in), "in-name", "data of rank ", me, " comes from ", c.getLBDataFileIn());
  std::string s = c.vt_lb_statistics_file; if (!c.vt_lb_statistics_dir.empty()) s = c.vt_lb_statistics_dir + "/" + s; if (c.vt_lb_statistics_compress) s = br(s);
  PBT_CHECK(c.getLBStatisticsFile() == s, "statistics-name", "statistics go to ", c.getLBStatisticsFile(), ", should go to ", s);
}

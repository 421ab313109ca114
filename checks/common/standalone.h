// Checks of code that needs no running vt: the few runtime services that assertions and
// debug output refer to are replaced here, and a failed assertion fails the case.
#pragma once
#include <cstring>
#include <vt/config.h>
#include <vt/configs/arguments/app_config.h>
#include <vt/collective/basic.h>
#include "pbt.h"

// set while an assertion or abort of the code under test is the required answer
namespace standalone { inline bool expect_abort = false; struct Abort { std::string msg; }; }

namespace vt {
void output(std::string const& str, int32_t const, bool, bool, bool, bool abort) {
  if (!abort && str.find("Assertion failed") == std::string::npos) return;
  if (standalone::expect_abort) throw standalone::Abort{str};
  pbt::fail("assertion", "the code under test aborted: " + str);
}
void abort(std::string const str, int32_t const) {
  if (standalone::expect_abort) throw standalone::Abort{str};
  pbt::fail("assertion", "the code under test aborted: " + str);
}
namespace debug {
inline arguments::AppConfig& config() { static arguments::AppConfig c; return c; }
arguments::AppConfig const* preConfig() { return &config(); }
arguments::AppConfig* preConfigRef() { return &config(); }
NodeType preNode() { return 0; }
NodeType preNodes() { return 1; }
std::string stringizeMessage(std::string const& msg, std::string const& reason, std::string const& cond,
    std::string const& file, int const line, std::string const& func, ErrorCodeType) {
  return msg + " " + reason + " " + cond + " at " + file + ":" + std::to_string(line) + " in " + func;
}
}} // namespace vt::debug

// What assertions and debug output of vt refer to, for a demonstration that needs no running vt.
#pragma once
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <vt/config.h>
#include <vt/configs/arguments/app_config.h>
#include <vt/collective/basic.h>
namespace vt {
void output(std::string const& str, int32_t const, bool, bool, bool, bool abort) { if (abort || str.find("Assertion failed") != std::string::npos) { fprintf(stderr, "%s\n", str.c_str()); exit(3); } }
void abort(std::string const str, int32_t const) { fprintf(stderr, "%s\n", str.c_str()); exit(3); }
namespace debug {
inline arguments::AppConfig& config() { static arguments::AppConfig c; return c; }
arguments::AppConfig const* preConfig() { return &config(); }
arguments::AppConfig* preConfigRef() { return &config(); }
NodeType preNode() { return 0; }
NodeType preNodes() { return 1; }
std::string stringizeMessage(std::string const& msg, std::string const& reason, std::string const& cond, std::string const& file, int const line, std::string const& func, ErrorCodeType) { return msg + " " + reason + " " + cond + " " + file + ":" + std::to_string(line); }
}}
#define EXPECT(c) do { if (!(c)) { fprintf(stderr, "line %d: %s does not hold\n", __LINE__, #c); exit(1); } } while (0)

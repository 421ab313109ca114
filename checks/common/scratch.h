// A directory of this process's own, removed when it ends.
#pragma once
#include <cstdlib>
#include <filesystem>
#include <string>
#include <unistd.h>
namespace standalone {
inline std::string const& scratch() {
  struct Dir {
    std::string path; pid_t owner = getpid();
    Dir() { char t[] = "/tmp/vtcheck.XXXXXX"; if (!mkdtemp(t)) ::abort(); path = t; }
    ~Dir() { if (owner == getpid() && path.compare(0, 13, "/tmp/vtcheck.") == 0) { std::error_code e; std::filesystem::remove_all(path, e); } }
  };
  static Dir d; return d.path;
}
}

// Whether a path lies inside a root directory.
#include "Input_output.hpp"
#include "common.hpp"
using namespace vh;
namespace {
  void paths(json const &sc, Log &log) {
    for (auto const &q : sc["asks"]) {
      json files = json::array();
      for (auto const &f : q["files"]) {
        bool in = io::absolute_file_path_in_root(q["root"].get<std::string>(), f.get<std::string>());
        files.push_back({{"file", f}, {"accepted", in}});
      }
      log.ev("Ask", {{"root", q["root"]}, {"files", files}});
    }
  }
  Register r("paths", paths);
} // namespace

// The commands "schema make-full-factory" and "schema insert-key", called as
// from the command line on directories that users edit in between.
#include "common.hpp"
#include "fsops.hpp"
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
using namespace vh;
namespace fs = std::filesystem;
using ojson = nlohmann::ordered_json;
int grazer_main(int argc, char **argv);
namespace {
  std::string slurp(fs::path const &p) {
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
  }
  json shown(fs::path const &p) {
    json none = json::array();
    if (not fs::exists(p)) return {{"kind", "none"}, {"items", none}};
    ojson j = fs::is_regular_file(p) ? ojson::parse(slurp(p), nullptr, false) : ojson();
    if (not j.is_object()) return {{"kind", "other"}, {"items", none}, {"text", fs::is_regular_file(p) ? std::to_string(std::hash<std::string>()(slurp(p))) : "dir"}};
    json items = json::array();
    for (auto const &[k, v] : j.items()) items.push_back({k, v.is_string() ? v.get<std::string>() : v.dump()});
    return {{"kind", "object"}, {"items", items}};
  }
  void schemakeys(json const &sc, Log &log) {
    fs::path base = fs::path(getenv("VERIF_SCRATCH")) / ("sk." + std::to_string(getpid()));
    std::vector<std::string> kinds = sc["kinds"];
    auto here = fs::current_path();
    auto files = [&]() {
      json r = json::object();
      for (auto const &k : kinds) r[k] = shown(base / "problem" / (k + ".json"));
      return r;
    };
    auto have = [&]() {
      json r = json::array();
      for (auto const &k : kinds)
        if (fs::exists(base / "schemas" / (k + "_schema.json"))) r.push_back(k);
      return r;
    };
    // everything else; schemas: these files as well
    auto rest = [&](bool schemas) {
      json r = json::object();
      for (auto const &e : fs::recursive_directory_iterator(base)) {
        auto p = e.path().lexically_relative(base).string();
        bool skip = p == "problem" or p == "schemas";
        for (auto const &k : kinds) skip |= p == "problem/" + k + ".json" or (not schemas and p == "schemas/" + k + "_schema.json");
        if (not skip) r[p] = e.is_directory() ? "dir" : std::to_string(std::hash<std::string>()(slurp(e.path())));
      }
      return r;
    };
    auto put = [&](fs::path const &p, json const &c) {
      if (c.is_null()) fs::remove_all(p);
      else if (c == "dir") fs::create_directories(p);
      else {
        fs::create_directories(p.parent_path());
        std::ofstream(p, std::ios::binary) << c.get<std::string>();
      }
    };
    auto call = [&](std::string const &op, std::string const &where, std::vector<fsops::Fault> const &faults, bool strange, bool readable) {
      bool insert = op == "insert";
      json e = {{"before", files()}, {"rest", rest(insert)}, {"have", have()}, {"strange", strange}, {"readable", readable}, {"home", not fs::exists(base / "problem") or fs::is_directory(base / "problem")}};
      fs::path arg = base;
      if (where == "relative") {
        fs::current_path(base.parent_path());
        arg = base.filename();
      } else if (where == "dot") {
        fs::current_path(base);
        arg = ".";
      } else if (where == "slash")
        arg = base.string() + "/";
      std::string a = "grazer", b = "schema", c = insert ? "insert-key" : "make-full-factory", d = arg.string();
      char *argv[] = {a.data(), b.data(), c.data(), d.data(), nullptr};
      std::ostringstream said;
      fsops::Plan plan;
      plan.dir = base.string();
      plan.faults = faults;
      auto *o1 = std::cout.rdbuf(said.rdbuf()), *o2 = std::cerr.rdbuf(said.rdbuf());
      if (not faults.empty()) fsops::arm(&plan);
      e["status"] = grazer_main(4, argv);
      fsops::arm(nullptr);
      std::cout.rdbuf(o1);
      std::cerr.rdbuf(o2);
      fs::current_path(here);
      e["faults"] = plan.failed;
      e["after"] = files();
      e["rest_after"] = rest(insert);
      e["have_after"] = have();
      bool sound = true;
      for (auto const &k : e["have_after"]) sound &= json::parse(slurp(base / "schemas" / (k.get<std::string>() + "_schema.json")), nullptr, false).is_object();
      e["sound"] = sound;
      log.ev(insert ? "Insert" : "Generate", e);
      return plan.failed;
    };
    // the directory after the first n steps
    auto steps = [&](size_t n, bool quiet) {
      fs::remove_all(base);
      fs::create_directories(base);
      for (size_t k = 0; k < n; ++k) {
        auto const &s = sc["steps"][k];
        if (s["op"] == "put") {
          for (auto const &[p, c] : s["files"].items()) put(base / p, c);
          continue;
        }
        if (quiet) {
          std::string a = "grazer", b = "schema", c = s["op"] == "insert" ? "insert-key" : "make-full-factory", d = base.string();
          char *argv[] = {a.data(), b.data(), c.data(), d.data(), nullptr};
          std::ostringstream said;
          auto *o1 = std::cout.rdbuf(said.rdbuf()), *o2 = std::cerr.rdbuf(said.rdbuf());
          grazer_main(4, argv);
          std::cout.rdbuf(o1);
          std::cerr.rdbuf(o2);
        } else {
          log.ev("Given", {{"files", files()}, {"have", have()}, {"strange", s["strange"]}});
          call(s["op"], s["where"], {}, s["strange"], s["readable"]);
        }
      }
    };
    steps(sc["steps"].size(), false);
    if (sc.value("with_faults", false))
      for (size_t n = 0; n < sc["steps"].size(); ++n) {
        auto const &s = sc["steps"][n];
        if (s["op"] == "put" or not s.value("hurt", false)) continue;
        for (bool full : {false, true})
          for (int at = 0; at < 100; ++at) {
            steps(n, true);
            log.ev("Given", {{"files", files()}, {"have", have()}, {"strange", s["strange"]}});
            if (not call(s["op"], "absolute", {{at, full}}, s["strange"], s["readable"])) break;
          }
      }
    fs::remove_all(base);
  }
  Register r("schemakeys", schemakeys);
} // namespace

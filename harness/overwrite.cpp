// Overwriting JSON files while operations on the disk fail.
#include "Aux_json.hpp"
#include "common.hpp"
#include "fsops.hpp"
#include "schema_key_insertion.hpp"
#include <filesystem>
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace vh;
namespace fs = std::filesystem;
namespace {
  using Disk = std::map<std::string, std::string>;
  std::string slurp(fs::path const &p) {
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
  }
  Disk look(fs::path const &d) {
    Disk r;
    for (auto const &e : fs::directory_iterator(d)) r[e.path().filename().string()] = e.is_regular_file() ? slurp(e.path()) : "<dir>";
    return r;
  }
  struct Target {
    std::string name;
    bool had;
    std::string old;
    nlohmann::ordered_json wanted;
    bool possible;
  };
  json shown(Disk const &d, Disk const &first, Target const &t, std::vector<Target> const &all) {
    json r = json::object();
    for (auto const &[n, c] : d) {
      bool other_target = false;
      for (auto const &x : all) other_target |= x.name == n && n != t.name;
      if (other_target) continue;
      std::string k = "part";
      if (n != t.name && first.count(n)) k = first.at(n) == c ? "other" : t.had && c == t.old ? "old" : "part";
      else if (t.had && c == t.old) k = "old";
      else if (t.possible && nlohmann::ordered_json::accept(c) && nlohmann::ordered_json::parse(c) == t.wanted) k = "new";
      r[n == t.name ? "file" : n == "file" ? "the other file" : n] = k;
    }
    return r;
  }
  void overwrite(json const &sc, Log &log) {
    fs::path base = fs::path(getenv("VERIF_SCRATCH")) / ("ow." + std::to_string(getpid()));
    bool keys = sc["mode"] == "keys";
    auto dir = base / (keys ? "problem" : "dir");
    auto run = [&](std::vector<fsops::Fault> const &faults) -> bool {
      fs::remove_all(base);
      fs::create_directories(dir);
      for (auto const &[n, c] : sc["files"].items()) {
        std::ofstream f(dir / n, std::ios::binary);
        f << c.get<std::string>();
      }
      std::vector<Target> targets;
      auto target = [&](std::string const &n, nlohmann::ordered_json w, bool possible) {
        bool had = sc["files"].contains(n);
        targets.push_back({n, had, had ? sc["files"][n].get<std::string>() : "", w, possible});
      };
      bool possible = true;
      if (keys) {
        fs::create_directories(base / "schemas");
        for (auto const &t : sc["types"]) {
          auto type = t.get<std::string>();
          std::ofstream f(base / "schemas" / (type + "_schema.json"));
          f << "{}";
          nlohmann::ordered_json w;
          w["$schema"] = "../schemas/" + type + "_schema.json";
          if (sc["files"].contains(type + ".json")) {
            auto old = nlohmann::ordered_json::parse(sc["files"][type + ".json"].get<std::string>());
            for (auto const &[k, v] : old.items()) w[k] = v;
          }
          target(type + ".json", w, true);
        }
      } else {
        nlohmann::ordered_json w = nlohmann::ordered_json::parse(sc["new"].get<std::string>());
        possible = !sc.value("impossible", false);
        if (!possible) w["text"] = "\xff\xfe"; // cannot be written as JSON
        target(sc["target"], w, possible);
      }
      auto first = look(dir);
      std::vector<std::pair<std::string, Disk>> seen;
      fsops::Plan p;
      p.dir = base.string();
      p.faults = faults;
      p.after = [&](std::string const &op, std::string const &, int e) { seen.push_back({op + (e ? " fails" : ""), look(dir)}); };
      auto here = fs::current_path();
      fs::path arg = keys ? base : dir / targets[0].name;
      if (sc["where"] == "relative") {
        fs::current_path(base);
        arg = fs::relative(arg, base);
      } else if (sc["where"] == "bare") {
        fs::current_path(keys ? base : dir);
        arg = keys ? fs::path(".") : fs::path(targets[0].name);
      }
      fsops::arm(&p);
      bool ok = attempt([&]() {
        if (keys) Aux::schema::insert_schema_key_into_data_jsons(arg);
        else aux_json::overwrite_json(arg, targets[0].wanted);
      });
      fsops::arm(nullptr);
      fs::current_path(here);
      auto last = look(dir);
      // a full disk is one failure, however many operations it makes fail
      int failures = possible ? 0 : 1;
      for (auto const &f : faults) failures += f.full ? (p.failed > 0) : (p.count > f.at);
      for (auto const &t : targets) {
        log.ev("Start", {{"disk", shown(first, first, t, targets)}});
        for (auto const &[op, d] : seen) log.ev("Op", {{"op", op}, {"disk", shown(d, first, t, targets)}});
        log.ev("End", {{"ok", ok}, {"faults", failures}, {"disk", shown(last, first, t, targets)}});
      }
      fs::remove_all(base);
      return failures - (possible ? 0 : 1) == static_cast<int>(faults.size());
    };
    run({});
    for (bool full : {false, true})
      for (int k = 0; k < 200 && run({{k, full}}); ++k)
        ;
    for (auto const &f : sc["pairs"]) run({{f[0].get<int>(), f[2].get<bool>()}, {f[1].get<int>(), false}});
  }
  Register r("overwrite", overwrite);
} // namespace

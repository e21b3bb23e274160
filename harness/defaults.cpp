// Components made from data and defaults, and the schemas generated for data files.
#include "Componentfactory.hpp"
#include "Edge.hpp"
#include "Full_factory.hpp"
#include "InterpolatingVector.hpp"
#include "Net.hpp"
#include "Netfactory.hpp"
#include "Networkproblem.hpp"
#include "Node.hpp"
#include "common.hpp"
#include "schema_generation.hpp"
#include <filesystem>
#include <fstream>
#include <memory>
#include <nlohmann/json-schema.hpp>
#include <sstream>
#include <unistd.h>
using namespace vh;
namespace fs = std::filesystem;
using Eigen::VectorXd;
namespace {
  using Factory = Model::Componentfactory::Full_factory;
  // a JSON value with its kind
  json tagged(json const &j) {
    if (j.is_object()) {
      json m = json::object();
      for (auto const &[k, v] : j.items()) m[k] = tagged(v);
      return {{"k", "object"}, {"m", m}};
    }
    if (j.is_array()) {
      json e = json::array();
      for (auto const &v : j) e.push_back(tagged(v));
      return {{"k", "array"}, {"e", e}};
    }
    if (j.is_number()) return {{"k", "number"}, {"v", F(j.get<double>())}};
    if (j.is_string()) return {{"k", "string"}, {"v", j}};
    if (j.is_boolean()) return {{"k", "bool"}, {"v", j.get<bool>() ? "true" : "false"}};
    return {{"k", "null"}};
  }
  bool make(Factory const &f, std::string const &cls, std::string const &type, json &entry, json const &around) {
    return attempt([&]() {
      if (cls == "node") {
        auto n = f.node_type_map.at(type)->make_instance(entry);
      } else {
        Factory plain(json::object());
        std::vector<std::unique_ptr<Network::Node>> nodes;
        for (auto const &[t, entries] : around.items())
          for (auto e : entries) nodes.push_back(plain.node_type_map.at(t)->make_instance(e));
        auto x = f.edge_type_map.at(type)->make_instance(entry, nodes);
      }
    });
  }
  bool allows(json const &schema, json const &data) {
    return attempt([&]() {
      nlohmann::json_schema::json_validator v;
      v.set_root_schema(schema);
      struct H : nlohmann::json_schema::error_handler {
        void error(json::json_pointer const &, json const &, std::string const &m) override { throw std::runtime_error(m); }
      } h;
      v.validate(data, h);
    });
  }
  // the equations of a network at some arbitrary point
  json equations(json const &b, int seed) {
    json pj = b["problem"];
    Factory factory(b["defaults"]);
    Model::Networkproblem p(Model::build_net(pj, factory));
    p.init(0, 0, 0);
    auto n = p.get_state_afterindex();
    unsigned x = static_cast<unsigned>(seed);
    auto next = [&]() { return static_cast<double>((x = x * 1103515245u + 12345u) >> 8 & 0xffff) / 65536.0; };
    VectorXd last(n), neu(n), ctl(p.get_control_afterindex()), r = VectorXd::Zero(n);
    for (auto v : {&last, &neu, &ctl})
      for (auto &y : *v) y = 20 + 30 * next();
    p.prepare_timestep(1000, 2000, last, ctl);
    p.evaluate(r, 1000, 2000, last, neu, ctl);
    return FV(r);
  }
  struct Dir {
    fs::path d = fs::path(getenv("VERIF_SCRATCH")) / ("schemas." + std::to_string(getpid()));
    Dir() {
      std::error_code c;
      fs::remove_all(d, c);
      fs::create_directories(d / "problem");
    }
    ~Dir() {
      std::error_code c;
      fs::remove_all(d, c);
    }
    json list() const {
      json a = json::array();
      if (fs::is_directory(d / "schemas"))
        for (auto const &f : fs::directory_iterator(d / "schemas")) a.push_back(f.path().filename().string());
      return a;
    }
    std::string content() const {
      std::map<std::string, std::string> all;
      for (auto const &f : fs::recursive_directory_iterator(d)) {
        std::ostringstream o;
        if (f.is_regular_file()) o << std::ifstream(f.path()).rdbuf();
        all[f.path().string()] = o.str();
      }
      return json(all).dump();
    }
    json load(std::string const &name) const {
      std::ifstream i(d / "schemas" / (name + "_schema.json"));
      return json::parse(i);
    }
  };
  void defaults(json const &sc, Log &log) {
    std::unique_ptr<Factory> factory;
    Dir dir;
    json schemas = json::object();
    for (auto const &op : sc["ops"]) {
      std::string kind = op["op"];
      json e;
      if (kind == "Factory") {
        factory = std::make_unique<Factory>(op["defaults"]);
        log.ev("Factory", {{"defaults", tagged(op["defaults"])}});
      } else if (kind == "Make") {
        json entry = op["entry"];
        e = {{"cls", op["cls"]}, {"type", op["type"]}, {"entry", tagged(entry)}};
        e["ok"] = make(*factory, op["cls"], op["type"], entry, sc["around"]);
        e["after"] = tagged(entry);
        log.ev("Make", e);
      } else if (kind == "Twin") {
        std::string msg;
        e["full"] = e["filled"] = json::array();
        e["ok"] = attempt(
            [&]() {
              e["full"] = equations(op["full"], op["seed"]);
              e["filled"] = equations(op["filled"], op["seed"]);
            },
            &msg);
        e["message"] = msg;
        log.ev("Twin", e);
      } else if (kind == "Generate") {
        fs::remove(dir.d / "problem" / "problem_data.json");
        if (op.contains("problem_data")) std::ofstream(dir.d / "problem" / "problem_data.json") << op["problem_data"].dump();
        std::error_code c;
        fs::remove_all(dir.d / "schemas", c);
        if (op.contains("present")) {
          fs::create_directories(dir.d / "schemas");
          for (auto const &[name, what] : op["present"].items())
            if (what == "directory")
              fs::create_directories(dir.d / "schemas" / name);
            else
              std::ofstream(dir.d / "schemas" / name) << what.get<std::string>();
        }
        e["before"] = dir.list();
        e["schemas"] = json::array();
        for (auto n : {"topology", "boundary", "initial", "control", "problem_data"}) e["schemas"].push_back(std::string(n) + "_schema.json");
        e["known"] = e["schemas"];
        e["defaults"] = tagged(op["defaults"]);
        auto was = dir.content();
        std::string msg;
        e["ok"] = attempt([&]() { Aux::schema::make_full_factory_schemas(dir.d); }, &msg);
        e["message"] = msg;
        e["after"] = dir.list();
        e["untouched"] = was == dir.content();
        log.ev("Generate", e);
        if (!e["ok"].get<bool>()) continue;
        factory = std::make_unique<Factory>(op["defaults"]);
        for (std::string n : {"topology", "boundary", "initial", "control", "problem_data"}) schemas[n] = dir.load(n);
        for (std::string n : {"topology", "boundary", "initial", "control"}) {
          json t = {{"file", n}, {"nodes", json::array()}, {"edges", json::array()}};
          // a type is listed when the schema takes an empty list of it
          for (auto const &[cls, types] : op["types"].items())
            for (std::string const &type : types) {
              json data = {{"nodes", json::object()}, {"connections", json::object()}};
              data[cls == "node" ? "nodes" : "connections"][type] = json::array();
              if (allows(schemas[n], data)) t[cls == "node" ? "nodes" : "edges"].push_back(type);
            }
          log.ev("Types", t);
        }
      } else if (kind == "Judge") {
        std::string file = op["file"], cls = op["cls"], type = op["type"];
        std::string group = cls == "node" ? "nodes" : "connections";
        json entry = op["entry"];
        json data = {{"nodes", json::object()}, {"connections", json::object()}};
        data[group][type] = json::array({entry});
        e = {{"file", file}, {"cls", cls}, {"type", type}, {"entry", tagged(entry)}, {"accepted", allows(schemas[file], data)}};
        if (file == "topology") {
          json whole = entry;
          if (whole.is_object() && op.contains("boundary")) whole["boundary_values"] = op["boundary"];
          e["grazer"] = make(*factory, cls, type, whole, sc["around"]);
        } else if (file == "boundary") {
          json whole = op["topology"];
          whole["boundary_values"] = entry;
          e["grazer"] = make(*factory, cls, type, whole, sc["around"]);
        } else {
          json pj = sc["problem"]["problem"], all = sc[file];
          Factory plain(sc["problem"]["defaults"]);
          Model::Networkproblem p(Model::build_net(pj, plain));
          p.init(0, 0, 0);
          for (auto &o : all[group][type])
            if (o["id"] == op["id"]) o = entry;
          std::string msg;
          e["grazer"] = attempt(
              [&]() {
                if (file == "initial") {
                  VectorXd x = VectorXd::Zero(p.get_state_afterindex());
                  p.set_initial_values(x, all);
                } else {
                  Aux::InterpolatingVector c(Aux::make_from_start_number_end(0.0, 1.0, 2), p.get_control_afterindex());
                  p.set_initial_controls(c, all);
                }
              },
              &msg);
          e["message"] = msg;
        }
        log.ev("Judge", e);
      } else if (kind == "Outer") {
        log.ev("Outer", {{"file", op["file"]}, {"fine", op["fine"]}, {"accepted", allows(schemas[op["file"].get<std::string>()], op["data"])}});
      }
    }
  }
  Register r1("defaults", defaults);
} // namespace

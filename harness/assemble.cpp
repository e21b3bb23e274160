// Topology and boundary files merged into one description, and the graph built from it.
#include "Componentfactory.hpp"
#include "Edge.hpp"
#include "Full_factory.hpp"
#include "Net.hpp"
#include "Netfactory.hpp"
#include "Node.hpp"
#include "common.hpp"
#include <cxxabi.h>
#include <filesystem>
#include <fstream>
#include <typeinfo>
#include <unistd.h>
using namespace vh;
namespace {
  using Nodes = std::vector<std::unique_ptr<Network::Node>>;
  using Edges = std::vector<std::unique_ptr<Network::Edge>>;
  std::string idof(json const &c) { return c.contains("id") ? c["id"].get<std::string>() : "<none>"; }
  template <typename T>
  std::string kind(T const &x) {
    int st = 0;
    std::unique_ptr<char, void (*)(void *)> n(abi::__cxa_demangle(typeid(x).name(), nullptr, nullptr, &st), std::free);
    std::string s = st == 0 ? n.get() : "?";
    auto k = s.rfind("::");
    return k == std::string::npos ? s : s.substr(k + 2);
  }
  // ids of listed edges; one that is not among the edges there are may not exist any more
  template <typename ES>
  json ids(std::vector<Network::Edge *> const &es, ES const &all) {
    json a = json::array();
    for (auto *e : es) {
      bool there = false;
      for (auto const &x : all) there = there || &*x == e;
      a.push_back(there ? e->get_id() : "<stray>");
    }
    return a;
  }
  template <typename NS, typename ES>
  void listing(json &e, NS const &nodes, ES const &edges) {
    e["nodes"] = e["edges"] = json::array();
    for (auto const &n : nodes)
      e["nodes"].push_back({{"id", n->get_id()}, {"type", kind(*n)}, {"starts", ids(n->get_starting_edges(), edges)}, {"ends", ids(n->get_ending_edges(), edges)}});
    for (auto const &x : edges)
      e["edges"].push_back({{"id", x->get_id()}, {"type", kind(*x)}, {"from", x->get_starting_node()->get_id()}, {"to", x->get_ending_node()->get_id()}});
  }
  void lookups(json &e, Network::Net &net, json const &probes, bool wide) {
    listing(e, net.get_nodes(), net.get_edges());
    e["valid"] = net.get_valid_node_ids();
    e["found"] = e["between"] = json::array();
    for (auto const &p : probes) {
      auto i = p.get<std::string>();
      auto *n = net.get_node_by_id(i);
      auto *x = net.get_edge_by_id(i);
      bool known = false; // is it one of the nodes handed out?
      for (auto *m : net.get_nodes()) known = known || m == n;
      e["found"].push_back({{"id", i}, {"node", n ? n->get_id() : "<none>"}, {"known", n ? known && net.exists_node(n) == n : true}, {"edge", x ? x->get_id() : "<none>"}});
      if (!wide) continue;
      for (auto const &q : probes) {
        auto j = q.get<std::string>();
        auto *y = net.get_edge_by_node_ids(i, j);
        e["between"].push_back({{"a", i}, {"b", j}, {"edge", y ? y->get_id() : "<none>"}, {"any", net.exists_edge_between(i, j)}});
      }
    }
  }
  json flat(json const &file) {
    json a = json::array();
    for (auto cls : {"nodes", "connections"})
      if (file.contains(cls))
        for (auto const &[type, list] : file[cls].items())
          for (auto const &c : list)
            a.push_back({{"cls", cls}, {"type", type}, {"id", idof(c)}, {"tag", c.value("tag", -1)}, {"from", c.value("from", "")}, {"to", c.value("to", "")}});
    return a;
  }
  // the problem as grazer gets it: objects or names of files
  json problem(json const &b, int number) {
    json p = b["problem"];
    auto how = b.value("how", "inline");
    if (how == "inline") return p;
    auto dir = std::filesystem::path(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/nonexistent") / ("merge." + std::to_string(getpid()) + "." + std::to_string(number));
    std::filesystem::create_directories(dir);
    for (auto k : {"topology_json", "boundary_json"}) {
      std::ofstream(dir / (std::string(k) + ".json")) << p[k].dump(1);
      p[k] = how == "absolute" ? (dir / (std::string(k) + ".json")).string() : std::string(k) + ".json";
    }
    p["GRAZER_file_directory"] = dir.string();
    return p;
  }
  void assemble(json const &sc, Log &log) {
    int number = 0;
    for (auto const &b : sc["builds"]) {
      json pj = problem(b, number++), merged;
      json const &top = b["problem"]["topology_json"], &bnd = b["problem"]["boundary_json"];
      json e;
      e["top"] = flat(top);
      e["bnd"] = flat(bnd);
      std::string msg;
      e["ok"] = attempt([&]() { merged = Model::build_full_networkproblem_json(pj); }, &msg);
      e["msg"] = msg.substr(0, 200);
      e["out"] = json::array();
      if (e["ok"].get<bool>())
        for (auto const &f : flat(merged)) {
          json o = f;
          // the entry and the boundary values as they were given?
          json given, values;
          bool has = false;
          for (auto const &c : merged[f["cls"].get<std::string>()][f["type"].get<std::string>()])
            if (idof(c) == f["id"]) given = c;
          has = given.contains("boundary_values");
          if (has) values = given["boundary_values"];
          given.erase("boundary_values");
          bool intact = false, whole = !has;
          for (auto const &c : top[f["cls"].get<std::string>()][f["type"].get<std::string>()]) intact = intact || c == given;
          if (has)
            for (auto cls : {"nodes", "connections"})
              if (bnd.contains(cls))
                for (auto const &[t, l] : bnd[cls].items())
                  for (auto const &c : l) whole = whole || c == values;
          o["btag"] = has ? values.value("tag", -2) : -1;
          o["intact"] = intact && whole;
          e["out"].push_back(o);
        }
      log.ev("Merge", e);
      if (!sc.value("graph", false)) continue;

      Model::Componentfactory::Full_factory factory(b.value("defaults", json::object()));
      {
        json p = problem(b, number++), g;
        std::unique_ptr<Network::Net> net;
        g["top"] = e["top"];
        g["bnd"] = e["bnd"];
        g["ok"] = attempt([&]() { net = Model::build_net(p, factory); }, &msg);
        g["msg"] = msg.substr(0, 200);
        if (net) lookups(g, *net, sc["probes"], true);
        log.ev("Graph", g);
      }
      if (!e["ok"].get<bool>() || sc["ops"].empty()) continue;
      Nodes nodes;
      Edges edges;
      {
        json g;
        g["top"] = e["top"];
        g["bnd"] = e["bnd"];
        g["ok"] = attempt([&]() {
          nodes = Model::build_node_vector(merged["nodes"], factory.node_type_map);
          edges = Model::build_edge_vector(merged["connections"], nodes, factory.edge_type_map);
        }, &msg);
        g["msg"] = msg.substr(0, 200);
        if (g["ok"].get<bool>()) listing(g, nodes, edges);
        log.ev("Parts", g);
        if (!g["ok"].get<bool>()) continue;
      }
      for (auto const &o : sc["ops"]) {
        json c = o;
        auto name = o["op"].get<std::string>();
        if (name == "net") {
          Nodes keep, rest;
          for (auto &n : nodes) (o["drop"].get<std::string>() == n->get_id() ? rest : keep).push_back(std::move(n));
          c["keep"] = json::array();
          for (auto const &n : keep) c["keep"].push_back(n->get_id());
          std::unique_ptr<Network::Net> net;
          c["ok"] = attempt([&]() { net = std::make_unique<Network::Net>(std::move(keep), std::move(edges)); }, &msg);
          if (net) lookups(c, *net, sc["probes"], false);
          log.ev("Net", c);
          break;
        }
        if (name == "join") { // one more edge, like one of those there are
          json more;
          for (auto const &[t, l] : merged["connections"].items())
            for (auto const &y : l)
              if (idof(y) == o["like"]) {
                json z = y;
                z["id"] = o["a"], z["from"] = o["b"], z["to"] = o["c"];
                more[t] = json::array({z});
              }
          if (more.is_null()) continue;
          c["ok"] = attempt([&]() {
            for (auto &y : Model::build_edge_vector(more, nodes, factory.edge_type_map)) edges.push_back(std::move(y));
          }, &msg);
          c["msg"] = msg.substr(0, 200);
          listing(c, nodes, edges);
          log.ev("Join", c);
          continue;
        }
        Network::Node *n = nullptr;
        Network::Edge *x = nullptr;
        for (auto const &m : nodes)
          if (m->get_id() == o["a"].get<std::string>()) n = m.get();
        for (auto const &y : edges)
          if (y->get_id() == o["b"].get<std::string>()) x = y.get();
        if (!n || !x) continue;
        if (name == "start") c["ret"] = n->attach_starting_edge(x);
        if (name == "end") c["ret"] = n->attach_ending_edge(x);
        if (name == "remove") c["ret"] = n->remove_edge(x);
        listing(c, nodes, edges);
        log.ev("Change", c);
      }
    }
  }
  Register r("assemble", assemble);
} // namespace

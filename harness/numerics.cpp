#include "mock.hpp"
#include "ControlStateCache.hpp"
#include "Newtonsolver.hpp"
#include "Timedata.hpp"
#include "Timeevolver.hpp"
#include "helpers.hpp"
#include <filesystem>
#include <fstream>
#include <memory>
#include <unistd.h>
using namespace vh;
namespace fs = std::filesystem;
namespace {
  fs::path scratch() {
    auto e = getenv("VERIF_SCRATCH");
    fs::path p = fs::path(e ? e : "/tmp") / ("scratch." + std::to_string(getpid()));
    fs::create_directories(p);
    return p;
  }
  // ---------------------------------------------------------------- grids
  void describe(json &e, std::vector<double> const &p) {
    e["n"] = p.size();
    e["first"] = F(p.empty() ? NAN : p.front());
    e["last"] = F(p.empty() ? NAN : p.back());
    double lo = INFINITY, hi = -INFINITY;
    for (size_t i = 1; i < p.size(); ++i) {
      lo = std::min(lo, p[i] - p[i - 1]);
      hi = std::max(hi, p[i] - p[i - 1]);
    }
    e["mingap"] = F(lo);
    e["maxgap"] = F(hi);
    e["pts"] = p.size() <= 40 ? FV(p) : json::array();
  }
  std::vector<double> points(Aux::InterpolatingVector_Base const &v) {
    std::vector<double> p;
    for (Eigen::Index i = 0; i != v.size(); ++i) p.push_back(v.interpolation_point_at_index(i));
    return p;
  }
  void grid(json const &sc, Log &log) {
    std::string mode = sc["mode"];
    json e = {{"mode", mode}};
    for (auto k : {"start", "end", "delta"}) e[k] = F(D(sc[k]));
    e["number"] = sc["number"];
    e["cs"] = sc.value("cs", "none");
    e["cdelta"] = F(sc.contains("cdelta") ? D(sc["cdelta"]) : 0.0);
    double s = D(sc["start"]), t = D(sc["end"]), d = D(sc["delta"]);
    int n = sc["number"];
    describe(e, {});
    bool mapped = sc.value("mapped", false);
    auto make = [&](Aux::Interpolation_data data) {
      if (mapped) {
        std::vector<double> mem(data.number_of_entries);
        Aux::MappedInterpolatingVector v(data, 1, mem.data(), Eigen::Index(mem.size()));
        describe(e, points(v));
      } else {
        describe(e, points(Aux::InterpolatingVector(data, 1)));
      }
    };
    e["ok"] = attempt([&]() {
      if (mode == "sde")
        make(Aux::make_from_start_delta_end(s, d, t));
      else if (mode == "sne")
        make(Aux::make_from_start_number_end(s, t, n));
      else if (mode == "sdn")
        make(Aux::make_from_start_delta_number(s, d, n));
      else { // "sim", "control": as the program does it
        Model::Timedata td(json{{"start_time", s}, {"end_time", t}, {"desired_delta_t", d}});
        if (mode == "sim") {
          if (td.get_starttime() != s or td.get_endtime() != t) throw std::logic_error("times");
          make(Aux::make_from_start_number_end(td.get_starttime(), td.get_endtime(), td.get_number_of_time_points()));
          e["reported"] = td.get_number_of_time_points();
        } else {
          json all = json::object();
          std::string cs = sc["cs"];
          if (cs != "none") {
            all["control_settings"] = json::object();
            if (cs == "delta" or cs == "both") all["control_settings"]["desired_delta_t"] = D(sc["cdelta"]);
            if (cs == "number" or cs == "both") all["control_settings"]["number_of_steps"] = n;
          }
          auto dir = scratch();
          { std::ofstream o(dir / "control.json"); o << json{{"value", 2.5}}; }
          MockData P;
          P.m = sc.value("m", 1);
          Mock_OptimizableObject problem(P);
          problem.claim();
          Aux::InterpolatingVector controls;
          setup_controls(controls, problem, td, all, dir);
          fs::remove_all(dir);
          describe(e, points(controls));
          e["m"] = P.m;
          e["vals"] = controls.get_total_number_of_values();
          bool all_set = true;
          for (Eigen::Index i = 0; i != controls.get_allvalues().size(); ++i)
            all_set = all_set and controls.get_allvalues()[i] == 2.5;
          e["set"] = all_set;
        }
      }
    });
    log.ev("Grid", e);
  }
  Register r1("grid", grid);

  // --------------------------------------------------------------- solver
  void newton(json const &sc, Log &log) {
    Solver::Newtonsolver solver(D(sc["tol"]), sc["maxit"].get<int>());
    log.ev("Solver", {{"tol", F(D(sc["tol"]))}, {"maxit", sc["maxit"]}});
    bool first = true;
    long lastn = -1;
    for (auto const &c : sc["solves"]) {
      MockData P(c["P"]);
      MockLog ml;
      Mock_OptimizableObject problem(P, &ml);
      problem.claim();
      Eigen::VectorXd x = V(c["x"]), l = V(c["l"]), u = V(c["u"]);
      // the structure of the Jacobian may only be reused for the same structure
      bool newjac = c["newjac"].get<bool>() or first or lastn != c["structure"].get<long>();
      json e = {{"P", tla(c["P"])}, {"x0", FV(x)}, {"l", FV(l)}, {"u", FV(u)}, {"tl", F(D(c["tl"]))}, {"tn", F(D(c["tn"]))},
                {"newjac", newjac}, {"full", c["full"]}};
      e["threw"] = false;
      e["kind"] = "none";
      e["success"] = false;
      e["residual"] = "0";
      e["iterations"] = 0;
      std::string what;
      try {
        auto s = solver.solve(x, problem, newjac, c["full"], D(c["tl"]), D(c["tn"]), l, u);
        e["success"] = s.success;
        e["residual"] = F(s.residual);
        e["iterations"] = s.used_iterations;
      } catch (Solver::SolverNumericalProblem const &) {
        e["threw"] = true;
        e["kind"] = "numerical";
      } catch (...) {
        e["threw"] = true;
        e["kind"] = "other";
      }
      e["x"] = FV(x);
      e["evals"] = ml.evaluations;
      log.ev("Solve", e);
      // a problem solved from the start leaves the Jacobian as it was
      if (newjac and ml.evaluations < 2 and not e["threw"].get<bool>())
        first = true;
      else {
        first = false;
        lastn = c["structure"].get<long>();
      }
    }
  }
  Register r2("newton", newton);

  // --------------------------------------------------------- time stepping
  Aux::InterpolatingVector series(json const &pts, Eigen::Index w, json const &vals) {
    if (w == 0) return Aux::InterpolatingVector();
    Aux::InterpolatingVector c(V(pts), w);
    c.set_values_in_bulk(V(vals));
    return c;
  }
  void evolve(json const &sc, Log &log) {
    MockData P(sc["P"]);
    json set = {{"tolerance", D(sc["tol"])}, {"maximal_number_of_newton_iterations", sc["maxit"]}, {"retries", sc["retries"]},
                {"use_simplified_newton", sc["simplified"]}};
    auto ev = Model::Timeevolver::make_pointer_instance(set);
    for (auto const &run : sc["runs"]) {
      MockLog ml;
      ml.log = &log;
      for (auto const &s : run["script"]) ml.script.push_back(s);
      Mock_OptimizableObject problem(P, &ml);
      problem.claim();
      auto c = series(run["cpts"], P.m, run["cvals"]);
      Aux::InterpolatingVector saved(V(run["pts"]), P.n);
      log.ev("Begin", {{"P", tla(sc["P"])}, {"tol", F(D(sc["tol"]))}, {"maxit", sc["maxit"]}, {"retries", sc["retries"]},
                       {"simplified", sc["simplified"]}, {"pts", tla(run["pts"])}, {"init", FV(V(run["init"]))},
                       {"cpts", tla(run["cpts"])}, {"cvals", FV(V(run["cvals"]))}, {"script", run["script"]}});
      Eigen::VectorXd init = V(run["init"]);
      bool ok = attempt([&]() { ev->simulate(init, c, problem, saved); });
      json st = json::array();
      if (ok)
        for (Eigen::Index i = 0; i != saved.size(); ++i) st.push_back(FV(Eigen::VectorXd(saved.vector_at_index(i))));
      log.ev("End", {{"ok", ok}, {"states", st}, {"pts", FV(points(saved))}});
    }
  }
  Register r3("evolve", evolve);

  // ----------------------------------------------------------------- cache
  void cache(json const &sc, Log &log) {
    MockData P(sc["P"]);
    json set = {{"tolerance", D(sc["tol"])}, {"maximal_number_of_newton_iterations", 20}, {"retries", 0}, {"use_simplified_newton", false}};
    Optimization::ControlStateCache cache(Model::Timeevolver::make_pointer_instance(set));
    MockLog ml;
    Mock_OptimizableObject problem(P, &ml);
    problem.claim();
    log.ev("Start", {{"P", tla(sc["P"])}, {"tol", F(D(sc["tol"]))}});
    for (auto const &op : sc["ops"]) {
      auto c = series(op["cpts"], P.m, op["cvals"]);
      Eigen::VectorXd pts = V(op["pts"]), init = V(op["init"]);
      ml.simulations = 0;
      ml.first_time = pts[0];
      json e = {{"op", op["op"]}, {"key", op["key"]}, {"cpts", tla(op["cpts"])}, {"cvals", FV(V(op["cvals"]))}, {"pts", FV(pts)}, {"init", FV(init)}};
      Aux::InterpolatingVector_Base const *s = nullptr;
      bool ok = false;
      e["threw"] = not attempt([&]() {
        if (op["op"] == "Refresh") {
          ok = cache.refresh_cache(problem, c, pts, init);
          s = &cache.get_cached_states();
        } else if (op["op"] == "Check") {
          s = cache.check_and_supply_states(problem, c, pts, init);
          ok = s != nullptr;
          if (not ok) s = &cache.get_cached_states();
        } else { // Get
          s = &cache.get_cached_states();
          ok = true;
        }
      });
      e["ok"] = ok;
      e["simulations"] = ml.simulations;
      e["held"] = json::array(); // what the cache holds now
      e["heldpts"] = json::array();
      if (s) {
        e["heldpts"] = FV(points(*s));
        for (Eigen::Index i = 0; i != s->size(); ++i) e["held"].push_back(FV(Eigen::VectorXd(s->vector_at_index(i))));
      }
      log.ev("Cache", e);
    }
  }
  Register r4("cache", cache);
} // namespace

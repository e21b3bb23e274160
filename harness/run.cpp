// The program itself: whole problem directories, run as from the command line,
// and what grazer's parts compute from the same data.
#include "fsops.hpp"
#include "net.hpp"
#include <Eigen/Dense>
#include <Timedata.hpp>
#include <filesystem>
#include <fstream>
#include <sys/wait.h>
#include <unistd.h>
using namespace vh;
namespace fs = std::filesystem;
int grazer_main(int argc, char **argv);
namespace {
  std::string content(fs::path const &p) {
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
  }
  std::string digest(std::string const &t) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : t) h = (h ^ c) * 1099511628211ull;
    return std::to_string(t.size()) + ":" + std::to_string(h);
  }
  json tree(fs::path const &d) {
    json r = json::object();
    if (fs::is_directory(d))
      for (auto const &e : fs::recursive_directory_iterator(d, fs::directory_options::follow_directory_symlink))
        r[e.path().lexically_relative(d).string()] = e.is_directory() ? "dir" : digest(content(e.path()));
    return r;
  }
  std::string first_part(std::string const &p) { return fs::path(p).begin()->string(); }
  void replace(std::string &t, std::string const &a, std::string const &b) {
    for (size_t k = 0; (k = t.find(a, k)) != std::string::npos; k += b.size()) t.replace(k, a.size(), b);
  }
  // null removes, "dir" creates a directory, "=..." is a file's content
  void edit(fs::path const &base, json const &files) {
    for (auto const &[n, c] : files.items()) {
      if (c.is_null()) {
        fs::remove_all(base / n);
        continue;
      }
      auto s = c.get<std::string>();
      if (s == "dir") {
        fs::create_directories(base / n);
        continue;
      }
      s = s.substr(1);
      replace(s, "@DIR@", base.string());
      fs::create_directories((base / n).parent_path());
      std::ofstream(base / n, std::ios::binary) << s;
    }
  }
  int grazer(fs::path const &dir) {
    std::string a = "grazer", b = "run", c = dir.string();
    char *argv[] = {a.data(), b.data(), c.data(), nullptr};
    return grazer_main(3, argv);
  }
  // what is printed after a label, up to the next blank
  std::string printed(std::string const &all, std::string const &label) {
    auto k = all.rfind(label);
    if (k == std::string::npos) return "";
    std::istringstream s(all.substr(k + label.size()));
    std::string w;
    s >> w;
    return w;
  }
  // the result files of one output directory
  json results(fs::path const &d, json &raw_controls) {
    json r = {{"name", d.filename().string()}, {"tree", tree(d)}};
    for (std::string w : {"states", "controls"}) {
      auto f = d / (w + ".json");
      r[w + "_there"] = fs::exists(f);
      r[w] = json::array();
      bool ok = false;
      if (fs::is_regular_file(f)) {
        json j = json::parse(content(f), nullptr, false);
        ok = not j.is_discarded() and (j.is_object() or j.is_null());
        if (ok and j.is_object()) {
          ok = attempt([&]() { r[w] = listing(j); });
          if (w == "controls") raw_controls = j;
        }
      }
      r[w + "_sound"] = ok;
    }
    return r;
  }
  Eigen::VectorXd points(Aux::InterpolatingVector const &v) { return v.get_interpolation_points(); }
  Aux::InterpolatingVector on(Aux::Interpolation_data const &d, Index w) { return Aux::InterpolatingVector(d, w); }

  // What the parts of grazer yield for the data: times, values read, states.
  // controls: saved controls of an optimization (or nothing)
  json replica(json const &sc, json const &run, json const *controls, bool optimize) {
    json e;
    for (auto k : {"times", "ctimes", "init", "states", "cvals", "cat", "res", "cons", "costs", "pens"}) e[k] = json::array();
    e["built"] = e["grids"] = e["read"] = e["simulated"] = false;
    e["why"] = "";
    auto const &S = run["set"];
    std::string why;
    std::ostringstream quiet;
    struct Redirect {
      std::streambuf *old;
      Redirect(std::ostream &o) : old(std::cout.rdbuf(o.rdbuf())) {}
      ~Redirect() { std::cout.rdbuf(old); }
    } redirect(quiet);
    attempt(
        [&]() {
          Net n(sc["build"]);
          e["built"] = true;
          double start = D(S["start"]), end = D(S["end"]);
          json set = run["newton"];
          set["start_time"] = start, set["end_time"] = end, set["desired_delta_t"] = D(S["delta"]);
          Model::Timedata td(set);
          auto grid = Aux::make_from_start_number_end(start, end, td.get_number_of_time_points());
          auto cgrid = grid;
          auto cs = S["cs"].get<std::string>();
          if (n.nc > 0) {
            if (cs == "delta") cgrid = Aux::make_from_start_delta_end(start, D(S["cdelta"]), end);
            if (cs == "number") cgrid = Aux::make_from_start_number_end(start, end, S["cnumber"].get<int>());
          }
          auto saved = on(grid, n.ns);
          auto ctl = on(cgrid, n.nc);
          if (n.nc == 0) ctl = Aux::InterpolatingVector();
          auto t = points(saved);
          e["grids"] = true;
          e["times"] = FV(t);
          e["ctimes"] = n.nc ? FV(points(ctl)) : json::array();
          VectorXd init(n.ns);
          n.p->set_initial_values(init, run["initial"]);
          if (n.nc > 0) n.p->set_initial_controls(ctl, controls ? *controls : run["control"]);
          e["read"] = true;
          e["init"] = FV(init);
          if (n.nc > 0) e["cvals"] = FV(VectorXd(ctl.get_allvalues()));
          auto at = [&](double x) { return n.nc ? VectorXd(ctl(x)) : VectorXd(0); };
          for (Index k = 0; k != t.size(); ++k) e["cat"].push_back(FV(at(t[k])));
          auto ev = Model::Timeevolver::make_pointer_instance(set);
          Net twin(sc["build"]);
          ev->simulate(init, ctl, *twin.p, saved);
          e["simulated"] = true;
          VectorXd last;
          for (Index k = 0; k != t.size(); ++k) {
            VectorXd x = saved.vector_at_index(k), u = at(t[k]);
            e["states"].push_back(FV(x));
            double res = 0;
            if (k > 0) {
              n.p->prepare_timestep(t[k - 1], t[k], last, u);
              VectorXd r(n.ns);
              n.p->evaluate(r, t[k - 1], t[k], last, x, u);
              res = r.norm();
            }
            e["res"].push_back(F(res));
            VectorXd q = VectorXd::Zero(n.nq);
            if (n.nq and optimize) n.p->evaluate_constraint(q, t[k], x, u);
            e["cons"].push_back(FV(q));
            e["costs"].push_back(F(optimize ? n.p->evaluate_cost(t[k], x, u) : 0));
            e["pens"].push_back(F(optimize ? n.p->evaluate_penalty(t[k], x, u) : 0));
            last = x;
          }
        },
        &why);
    e["why"] = why.substr(0, 200);
    return e;
  }

  void once(json const &sc, json const &run, fs::path const &base, fs::path const &arg, Log &log, std::vector<fsops::Fault> const &faults, int read_fault, int *failed = nullptr) {
    auto rest = [&](json const &t, json const &old) {
      json r = json::object();
      for (auto const &[p, c] : t.items()) {
        if (p == "output") continue;
        auto q = fs::path(p);
        if (first_part(p) == "output") {
          auto it = q.begin();
          auto top = *it / *++it;
          if (not old.contains(top.string())) continue; // something new
        }
        r[p] = c;
      }
      return r;
    };
    json e, before = tree(base);
    std::ostringstream said;
    json status = json::array();
    fsops::Plan plan;
    plan.dir = base.string();
    plan.faults = faults;
    plan.read_fault = read_fault;
    plan.sleepless = false;
    int many = run.value("parallel", 1);
    if (many == 1) {
      auto *old = std::cout.rdbuf(said.rdbuf());
      if (not faults.empty() or read_fault >= 0) fsops::arm(&plan);
      status.push_back(grazer(arg));
      fsops::arm(nullptr);
      std::cout.rdbuf(old);
    } else {
      std::vector<pid_t> ps;
      int go[2];
      if (pipe(go)) return;
      fflush(nullptr);
      for (int k = 0; k < many; ++k) {
        pid_t p = fork();
        if (p == 0) {
          ::close(go[1]);
          char c;
          (void)!read(go[0], &c, 1); // all start when the pipe is closed
          int r = grazer(arg);
          _exit(r);
        }
        ps.push_back(p);
      }
      ::close(go[0]);
      ::close(go[1]);
      for (auto p : ps) {
        int st;
        waitpid(p, &st, 0);
        status.push_back(WIFEXITED(st) ? WEXITSTATUS(st) : 999);
      }
    }
    json after = tree(base);
    e["status"] = status;
    e["faults"] = plan.failed;
    if (failed) *failed = plan.failed;
    e["said"] = said.str().size() < 400 ? said.str() : said.str().substr(said.str().size() - 400);
    e["gave_up"] = said.str().find("FAILED TO FIND AN OPTIMUM") != std::string::npos;
    e["before"] = rest(before, before);
    e["after"] = rest(after, before);
    e["problem"] = tree(base / "problem");
    e["news"] = json::array();
    json raw;
    if (fs::is_directory(base / "output"))
      for (auto const &d : fs::directory_iterator(base / "output"))
        if (not before.contains("output/" + d.path().filename().string())) e["news"].push_back(results(d.path(), raw));
    e["printed"] = json::object();
    e["printed"]["cost"] = printed(said.str(), "\nCost:");
    e["printed"]["penalty"] = printed(said.str(), "\nPenalty:");
    e["printed"]["objective"] = printed(said.str(), "\nOverall objective:");
    e["printed"]["lower"] = printed(said.str(), "Maximum lower constraint violation:");
    e["printed"]["upper"] = printed(said.str(), "Maximum upper constraint violation:");
    bool optimize = run["set"]["optimize"];
    json first = replica(sc, run, nullptr, optimize);
    e["given"] = tla(run["given"]);
    e["set"] = tla(run["set"]);
    e["broken"] = run["broken"];
    e["plain"] = first["simulated"]; // the given controls can be simulated
    e["rep"] = optimize and raw.is_object() ? replica(sc, run, &raw, true) : first;
    e["ctimes"] = first["ctimes"];
    log.ev("Run", e);
  }
  void run(json const &sc, Log &log) {
    auto base = fs::path(getenv("VERIF_SCRATCH")) / ("run." + std::to_string(getpid()));
    fs::remove_all(base);
    fs::create_directories(base);
    {
      std::unique_ptr<Net> n;
      std::string what;
      bool ok = attempt([&]() { n = std::make_unique<Net>(sc["build"]); }, &what);
      json e = ok ? n->describe() : json{{"comps", json::array()}};
      e["ok"] = ok;
      e["msg"] = what.substr(0, 200);
      e["given"] = tla(sc["comps"]);
      log.ev("Net", e);
    }
    auto here = fs::current_path();
    for (auto const &r : sc["runs"]) {
      edit(base, r["files"]);
      fs::path arg = base;
      if (r.value("where", "absolute") == "relative") {
        fs::current_path(base.parent_path());
        arg = base.filename();
      }
      if (r.value("where", "absolute") == "dot") {
        fs::current_path(base);
        arg = ".";
      }
      if (r.value("refer", false)) { // schemas and references to them, before the run
        json e = {{"status", json::array()}};
        std::ostringstream said;
        auto *old = std::cout.rdbuf(said.rdbuf());
        for (std::string c : {"make-full-factory", "insert-key"}) {
          std::string a = "grazer", b = "schema", d = arg.string();
          char *argv[] = {a.data(), b.data(), c.data(), d.data(), nullptr};
          e["status"].push_back(grazer_main(4, argv));
        }
        std::cout.rdbuf(old);
        e["said"] = said.str().size() < 400 ? said.str() : said.str().substr(said.str().size() - 400);
        log.ev("Refer", e);
      }
      once(sc, r, base, arg, log, {}, -1);
      for (auto const &f : r.value("faults", json::array())) {
        int failed = 0;
        if (f["how"] == "read")
          once(sc, r, base, arg, log, {}, f["at"], &failed);
        else
          once(sc, r, base, arg, log, {{f["at"].get<int>(), f["how"] == "full"}}, -1, &failed);
        if (not failed) break;
      }
      fs::current_path(here);
    }
    fs::remove_all(base);
  }
  Register r("run", run);
} // namespace

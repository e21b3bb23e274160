// Output locations: runs that start at the same time, and the files put there.
#include "Input_output.hpp"
#include "common.hpp"
#include "fsops.hpp"
#include <condition_variable>
#include <filesystem>
#include <fstream>
#include <mutex>
#include <sstream>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace vh;
namespace fs = std::filesystem;
namespace {
  std::string text(fs::path const &p) {
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
  }
  // entries below d: "dir", "empty" or "=" and the content
  json tree(fs::path const &d) {
    json r = json::object();
    if (fs::exists(d))
      for (auto const &e : fs::recursive_directory_iterator(d, fs::directory_options::follow_directory_symlink)) {
        auto c = e.is_directory() ? std::string("dir") : text(e.path());
        r[e.path().lexically_relative(d).string()] = e.is_directory() ? "dir" : c.empty() ? "empty" : "=" + c;
      }
    return r;
  }
  void plant(fs::path const &d, json const &t) {
    for (auto const &[n, c] : t.items()) {
      auto s = c.get<std::string>();
      if (s == "dir") {
        fs::create_directories(d / n);
        continue;
      }
      fs::create_directories((d / n).parent_path());
      if (s.rfind("->", 0) == 0) {
        fs::create_symlink(s.substr(2), d / n);
        continue;
      }
      std::ofstream f(d / n, std::ios::binary);
      if (s != "empty") f << s.substr(1);
    }
  }
  fs::path scratch(char const *n) { return fs::path(getenv("VERIF_SCRATCH")) / (std::string(n) + "." + std::to_string(getpid())); }

  // ------- several runs, one step at a time in a given order -------
  struct Race {
    std::mutex m;
    std::condition_variable cv;
    int turn = -1;
    std::vector<bool> alive;
    json schedule;
    size_t pos = 0;
    std::vector<std::vector<std::string>> names;
    std::vector<size_t> used;
    std::function<void(std::string const &)> rival;
    Log *log = nullptr;
    bool endless = false;
    std::vector<bool> creating;
    // with m locked: whose turn it is next
    void next(int me) {
      while (pos < schedule.size()) {
        auto const &s = schedule[pos++];
        if (s.is_string()) {
          rival(s.get<std::string>());
          continue;
        }
        int r = s.get<int>();
        if (alive[static_cast<size_t>(r)]) {
          turn = r;
          cv.notify_all();
          return;
        }
      }
      int n = static_cast<int>(alive.size());
      for (int k = 1; k <= n; ++k) {
        int r = (me + k) % n;
        if (alive[static_cast<size_t>(r)]) {
          turn = r;
          cv.notify_all();
          return;
        }
      }
      turn = -2;
      cv.notify_all();
    }
    void yield(int me) {
      std::unique_lock<std::mutex> l(m);
      next(me);
      cv.wait(l, [&] { return turn == me; });
    }
  };
  Race *race = nullptr;
  thread_local int self = -1;
  std::string make_name() {
    auto me = static_cast<size_t>(self);
    auto const &l = race->names[me];
    auto k = race->used[me]++;
    auto n = l[k % l.size()];
    if (k > 2000) {
      race->endless = true;
      throw std::runtime_error("endless");
    }
    race->log->ev("Generate", {{"r", "r" + std::to_string(self)}, {"n", n}});
    return n;
  }
  fs::path make_path(fs::path const &p) { return p.parent_path() / make_name(); }

  void compete(json const &sc, Log &log) {
    auto base = scratch("race");
    fs::remove_all(base);
    auto outer = base / "out";
    fs::create_directories(outer);
    plant(outer, sc["before"]);
    if (sc["what"] == "output") fs::create_directories(outer / "output");
    auto place = sc["what"] == "output" ? outer / "output" : outer;
    if (sc["what"] == "output") plant(place, sc["inside"]);
    Race R;
    race = &R;
    R.log = &log;
    R.schedule = sc["schedule"];
    auto n = sc["names"].size();
    R.alive.assign(n, true);
    R.used.assign(n, 0);
    R.creating.assign(n, false);
    for (auto const &l : sc["names"]) R.names.push_back(l.get<std::vector<std::string>>());
    R.rival = [&](std::string const &x) {
      struct Quiet {
        int was = self;
        Quiet() { self = -1; }
        ~Quiet() { self = was; }
      } quiet;
      if (fs::exists(place / x)) return;
      if (sc["what"] == "directory" || sc["rivals"] == "dir")
        fs::create_directory(place / x);
      else
        std::ofstream(place / x) << "rival";
      log.ev("Rival", {{"n", x}});
    };
    auto first = tree(place);
    json names = json::array(), runs = json::array();
    for (auto const &[k, v] : first.items())
      if (k.find('/') == std::string::npos) names.push_back(k);
    for (size_t k = 0; k < n; ++k) runs.push_back("r" + std::to_string(k));
    log.ev("Runs", {{"runs", runs}, {"before", names}});
    fsops::Plan p;
    p.dir = outer.string();
    if (sc.contains("fault")) p.faults = {{sc["fault"].get<int>(), false}};
    p.sleepless = sc["what"] != "output";
    p.concerns = [] { return self >= 0; };
    std::vector<std::string> missing(n);
    p.before = [&](std::string const &op, std::string const &path, bool) {
      R.yield(self);
      missing[static_cast<size_t>(self)] = fs::exists(fs::symlink_status(path)) ? "" : path;
    };
    p.after = [&](std::string const &op, std::string const &path, int e) {
      auto r = "r" + std::to_string(self);
      bool makes = op == "mkdir" || op == "create" || op == "open" || op == "rename" || op == "link" || op == "symlink";
      bool here = fs::path(path).parent_path() == place;
      bool fresh = missing[static_cast<size_t>(self)] == path;
      bool occupied = e == EEXIST && !(op == "mkdir" && !fs::is_directory(path));
      if (e && !occupied) log.ev("Hurt", {{"r", r}});
      if (!e && makes && here) log.ev("Made", {{"r", r}, {"n", fs::path(path).filename().string()}, {"fresh", fresh}});
      if (!e && (op == "remove" || op == "rename") && here) log.ev("Touched", {{"r", r}, {"op", op}, {"path", path}});
    };
    std::vector<std::thread> ts;
    fsops::arm(&p);
    for (size_t k = 0; k < n; ++k)
      ts.emplace_back([&, k]() {
        self = static_cast<int>(k);
        {
          std::unique_lock<std::mutex> l(R.m);
          R.cv.wait(l, [&] { return R.turn == self; });
        }
        auto r = "r" + std::to_string(k);
        log.ev("Begin", {{"r", r}});
        fs::path got;
        std::string what;
        bool ok = attempt(
            [&]() {
              if (sc["what"] == "directory") got = io::unique_output_directory(outer, make_name);
              else if (sc["what"] == "file") got = io::create_new_output_file(outer / "base.json", make_path);
              else got = io::prepare_output_file(outer);
            },
            &what);
        self = -1;
        auto rel = ok ? fs::relative(got, place).string() : std::string();
        self = static_cast<int>(k);
        log.ev("Done", {{"r", r}, {"ok", ok}, {"n", rel}, {"what", what.substr(0, 80)}});
        std::unique_lock<std::mutex> l(R.m);
        R.alive[k] = false;
        R.next(self);
      });
    {
      std::unique_lock<std::mutex> l(R.m);
      R.next(0);
    }
    for (auto &t : ts) t.join();
    fsops::arm(nullptr);
    log.ev("End", {{"before", first}, {"after", tree(place)}, {"endless", R.endless}});
    race = nullptr;
    fs::remove_all(base);
  }

  // ------- real processes and the real clock -------
  void processes(json const &sc, Log &log) {
    auto base = scratch("procs");
    fs::remove_all(base);
    fs::create_directories(base / "out");
    fs::create_directories(base / "answers");
    int n = sc["processes"];
    std::vector<pid_t> ps;
    fflush(nullptr);
    int go[2];
    if (pipe(go)) return;
    for (int k = 0; k < n; ++k) {
      pid_t p = fork();
      if (p == 0) {
        ::close(go[1]);
        char c;
        (void)!read(go[0], &c, 1); // all start when the pipe is closed
        std::ofstream a(base / "answers" / std::to_string(k));
        for (int i = 0; i < sc["each"].get<int>(); ++i) {
          fs::path got;
          if (attempt([&]() { got = sc["what"] == "directory" ? io::unique_output_directory(base / "out") : io::prepare_output_file(base / "out"); }))
            a << fs::relative(got, base / "out").string() << "\n" << std::flush;
        }
        a.close();
        _exit(0);
      }
      ps.push_back(p);
    }
    ::close(go[0]);
    ::close(go[1]);
    bool fine = true;
    for (auto p : ps) {
      int st;
      waitpid(p, &st, 0);
      fine &= WIFEXITED(st) && WEXITSTATUS(st) == 0;
    }
    json got = json::array(), there = json::array();
    for (int k = 0; k < n; ++k) {
      std::ifstream a(base / "answers" / std::to_string(k));
      for (std::string l; std::getline(a, l);) got.push_back(l);
    }
    auto place = sc["what"] == "directory" ? base / "out" : base / "out" / "output";
    if (fs::exists(place))
      for (auto const &e : fs::directory_iterator(place)) there.push_back(fs::relative(e.path(), base / "out").string());
    log.ev("Processes", {{"fine", fine}, {"got", got}, {"there", there}});
    fs::remove_all(base);
  }

  // ------- filling an output directory -------
  void fill(json const &sc, Log &log) {
    auto base = scratch("fill");
    auto run = [&](std::vector<fsops::Fault> const &faults, int read_fault) {
      fs::remove_all(base);
      fs::create_directories(base / "src");
      fs::create_directories(base / "out");
      plant(base / "src", sc["problem"]);
      plant(base / "out", sc["before"]);
      auto src = tree(base / "src"), before = tree(base / "out");
      fsops::Plan p;
      p.dir = base.string();
      p.faults = faults;
      p.read_fault = read_fault;
      auto names = sc["names"].get<std::vector<std::string>>();
      fsops::arm(&p);
      bool ok = attempt([&]() {
        if (sc.value("default", false)) io::prepare_output_directory(base / "out", base / "src");
        else io::prepare_output_directory(base / "out", base / "src", names);
      });
      fsops::arm(nullptr);
      log.ev("Fill", {{"ok", ok}, {"faults", p.failed}, {"source", src}, {"source_after", tree(base / "src")}, {"names", names}, {"before", before}, {"after", tree(base / "out")}});
      fs::remove_all(base);
      return p.failed > 0;
    };
    run({}, -1);
    if (sc.value("with_faults", true)) {
      for (int k = 0; k < 300 && run({{k, false}}, -1); ++k)
        ;
      for (int k = 0; k < 300 && run({{k, true}}, -1); k += 2)
        ;
      for (int k = 0; k < 300 && run({}, k); ++k)
        ;
    }
  }
  Register r1("race", compete), r2("processes", processes), r3("fill", fill);
} // namespace

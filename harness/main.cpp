// driver SCENARIOS TRACE: runs every scenario (one JSON object per line) in a
// child process and collects the events; a child that dies becomes an event.
#include "common.hpp"
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vh {
  std::map<std::string, Handler> &handlers() {
    static std::map<std::string, Handler> h;
    return h;
  }
  json tla(json const &j) {
    if (j.is_number_float()) return F(j.get<double>());
    if (j.is_null()) return "null";
    if (j.is_array()) {
      json a = json::array();
      for (auto const &x : j) a.push_back(tla(x));
      return a;
    }
    if (j.is_object()) {
      json o = json::object();
      for (auto const &[k, v] : j.items()) o[k] = tla(v);
      return o;
    }
    return j;
  }
  void Log::ev(std::string const &name, json e) {
    e["ev"] = name;
    e["s"] = scenario;
    auto t = e.dump() + "\n";
    fwrite(t.data(), 1, t.size(), f);
    fflush(f);
  }
  bool attempt(std::function<void()> const &f, std::string *what) {
    try {
      f();
      return true;
    } catch (std::exception const &e) {
      if (what) *what = e.what();
    } catch (char const *e) {
      if (what) *what = e;
    } catch (...) {
      if (what) *what = "unknown";
    }
    return false;
  }
} // namespace vh

// processor time first of all: other processes may keep this one waiting
static void limit(int seconds) {
  struct itimerval cpu{};
  cpu.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &cpu, nullptr);
  alarm(static_cast<unsigned>(std::max(seconds, std::min(6 * seconds, 150))));
}

int main(int argc, char **argv) {
  if (argc != 3) {
    std::cerr << "usage: driver SCENARIOS TRACE\n";
    return 2;
  }
  std::ifstream in(argv[1]);
  std::vector<std::string> lines;
  for (std::string l; std::getline(in, l);)
    if (!l.empty()) lines.push_back(l);
  { FILE *f = fopen(argv[2], "w"); fclose(f); }
  struct rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  size_t next = 0;
  while (next < lines.size()) {
    int p[2];
    if (pipe(p)) return 2;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      close(p[0]);
      FILE *f = fopen(argv[2], "a");
      if (!getenv("VERIF_SHOW")) {
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        dup2(nul, 2);
      }
      for (size_t i = next; i < lines.size(); ++i) {
        int idx = static_cast<int>(i);
        if (write(p[1], &idx, sizeof idx) != sizeof idx) _exit(2);
        auto sc = vh::json::parse(lines[i]);
        limit(sc.value("timeout", 20));
        vh::Log log(f, sc.value("sid", idx));
        std::string what;
        auto h = vh::handlers().find(sc["kind"].get<std::string>());
        if (h == vh::handlers().end()) _exit(2);
        if (!vh::attempt([&]() { h->second(sc, log); }, &what))
          log.ev("Escaped", {{"what", what.substr(0, 300)}});
        limit(0);
        if (sc.value("isolate", false)) { // no state shared with the next one
          int done = -1 - idx;
          if (write(p[1], &done, sizeof done) != sizeof done) _exit(2);
          fflush(f);
          _exit(0);
        }
      }
      fflush(f);
      _exit(0);
    }
    close(p[1]);
    int idx, last = -1;
    while (read(p[0], &idx, sizeof idx) == sizeof idx) last = idx;
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
      // a negative number -1-i says: stopped after scenario i on purpose
      next = last < 0 ? static_cast<size_t>(-last) : lines.size();
      continue;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 2) return 2;
    int i = last < 0 ? -1 - last : last;
    FILE *f = fopen(argv[2], "a");
    vh::json sc = vh::json::parse(lines[static_cast<size_t>(i)]);
    vh::Log log(f, sc.value("sid", i));
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM or WTERMSIG(st) == SIGPROF))
      log.ev("Timeout");
    else
      log.ev("Crash", {{"sig", WIFSIGNALED(st) ? WTERMSIG(st) : -1}});
    fclose(f);
    next = static_cast<size_t>(i) + 1;
  }
  return 0;
}

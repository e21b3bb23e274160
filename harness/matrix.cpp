// Sparse matrices and the handlers that fill them.
#include "Matrixhandler.hpp"
#include "common.hpp"
#include <memory>
#include <sys/wait.h>
#include <unistd.h>
using namespace vh;
namespace {
  // whether f can be run to its end: tried in a child process
  bool allowed(std::function<void()> const &f) {
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      bool ok = attempt(f);
      _exit(ok ? 0 : 1);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
  }
  void matrices(json const &sc, Log &log) {
    using namespace Aux;
    auto m = std::make_unique<Eigen::SparseMatrix<double>>();
    std::unique_ptr<Matrixhandler> h;
    auto show = [&](char const *name, json e) {
      json cells = json::array();
      for (Eigen::Index k = 0; k < m->outerSize(); ++k)
        for (Eigen::SparseMatrix<double>::InnerIterator it(*m, k); it; ++it)
          cells.push_back({{"at", {it.row(), it.col()}}, {"value", F(it.value())}});
      e["cells"] = cells;
      log.ev(name, e);
    };
    bool flip = false;
    for (auto const &o : sc["ops"]) {
      auto op = o["op"].get<std::string>();
      if (op == "empty") {
        h.reset();
        m = std::make_unique<Eigen::SparseMatrix<double>>(o["rows"].get<int>(), o["cols"].get<int>());
        show("Empty", {{"rows", o["rows"]}, {"cols", o["cols"]}});
      } else if (op == "build" || op == "refill") {
        bool t = o["flip"];
        auto open = [&]() {
          if (op == "build") {
            if (t) h = std::make_unique<Triplethandler<Transposed>>(*m);
            else h = std::make_unique<Triplethandler<Regular>>(*m);
          } else {
            if (t) h = std::make_unique<Coeffrefhandler<Transposed>>(*m);
            else h = std::make_unique<Coeffrefhandler<Regular>>(*m);
          }
        };
        bool ok = m->nonZeros() == 0 || op == "refill" || allowed(open);
        if (ok) {
          h.reset();
          open();
          flip = t;
        }
        show("Open", {{"kind", op}, {"flip", t}, {"ok", ok}});
      } else if (op == "add") {
        auto i = o["i"].get<int>(), j = o["j"].get<int>();
        auto r = flip ? j : i, c = flip ? i : j;
        bool in = r >= 0 && c >= 0 && r < m->rows() && c < m->cols();
        auto add = [&]() { h->add_to_coefficient(i, j, D(o["v"])); };
        bool ok = true;
        if (in)
          add();
        else
          ok = allowed([&]() {
            add();
            h->set_matrix();
          });
        show("Add", {{"i", i}, {"j", j}, {"v", F(D(o["v"]))}, {"ok", ok}});
      } else if (op == "set") {
        h->set_matrix();
        show("Set", json::object());
      }
    }
  }
  Register r("matrix", matrices);
} // namespace

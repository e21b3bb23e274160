#pragma once
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <cmath>
#include <cstdio>
#include <functional>
#include <map>
#include <nlohmann/json.hpp>
#include <string>
#include <vector>

// A scenario (one line of the input file) is handed to the handler of its
// "kind"; the handler drives grazer's code and writes one event per call.
namespace vh {
  using json = nlohmann::json;

  // doubles travel as strings, because TLC's integers are 32 bit wide.
  inline json F(double x) {
    if (std::isnan(x)) return "nan";
    if (std::isinf(x)) return x > 0 ? "inf" : "-inf";
    char b[64];
    std::snprintf(b, sizeof b, "%.17g", x);
    return std::string(b);
  }
  template <typename V>
  json FV(V const &v) {
    json a = json::array();
    for (Eigen::Index i = 0; i != v.size(); ++i) a.push_back(F(v[i]));
    return a;
  }
  inline json FV(std::vector<double> const &v) {
    json a = json::array();
    for (auto x : v) a.push_back(F(x));
    return a;
  }
  inline json FM(Eigen::MatrixXd const &m) {
    json a = json::array();
    for (Eigen::Index i = 0; i != m.rows(); ++i) {
      json r = json::array();
      for (Eigen::Index j = 0; j != m.cols(); ++j) r.push_back(F(m(i, j)));
      a.push_back(r);
    }
    return a;
  }
  inline double D(json const &j) {
    if (j.is_string()) {
      auto s = j.get<std::string>();
      if (s == "nan") return std::nan("");
      if (s == "inf") return INFINITY;
      if (s == "-inf") return -INFINITY;
      return std::stod(s);
    }
    return j.get<double>();
  }
  inline Eigen::VectorXd V(json const &j) {
    Eigen::VectorXd v(static_cast<Eigen::Index>(j.size()));
    for (size_t i = 0; i != j.size(); ++i) v[static_cast<Eigen::Index>(i)] = D(j[i]);
    return v;
  }
  inline std::vector<double> SV(json const &j) {
    std::vector<double> v;
    for (auto const &x : j) v.push_back(D(x));
    return v;
  }
  // floats of a scenario as strings, everything else unchanged:
  json tla(json const &j);

  class Log {
    FILE *f;
    int scenario;

  public:
    Log(FILE *_f, int _s) : f(_f), scenario(_s) {}
    void ev(std::string const &name, json e = json::object());
  };
  using Handler = std::function<void(json const &, Log &)>;
  std::map<std::string, Handler> &handlers();
  struct Register {
    Register(std::string const &kind, Handler h) { handlers()[kind] = h; }
  };
  // runs f; true if it returned, false if it threw (what: message)
  bool attempt(std::function<void()> const &f, std::string *what = nullptr);
} // namespace vh

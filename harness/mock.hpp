#pragma once
// A problem given by numbers (specs/MockProblem.tla states the same formulas),
// standing in for a network wherever any problem will do.
#include "InterpolatingVector.hpp"
#include "Matrixhandler.hpp"
#include "OptimizableObject.hpp"
#include "common.hpp"
#include <cmath>
#include <vector>

struct MockData {
  Eigen::Index n = 0, m = 0, q = 0;
  Eigen::MatrixXd S, A, B, C, D;
  Eigen::VectorXd a, p, b2, d, h, k, xl, xu, lu, cq, cr, cs, pq, pr, ps, ce, cf, cg, ch;
  double ct = 0, cm = 0, pt = 0;
  // evaluation gives NaN above this value of control 0; the derivative is
  // singular above that one
  double fail = INFINITY, sing = INFINITY;
  static Eigen::MatrixXd mat(vh::json const &j, Eigen::Index r, Eigen::Index c) {
    Eigen::MatrixXd x(r, c);
    for (Eigen::Index i = 0; i != r; ++i)
      for (Eigen::Index k = 0; k != c; ++k) x(i, k) = vh::D(j[size_t(i)][size_t(k)]);
    return x;
  }
  MockData() = default;
  explicit MockData(vh::json const &j) {
    n = j["n"], m = j["m"], q = j["q"];
    S = mat(j["S"], n, n), A = mat(j["A"], n, n), B = mat(j["B"], n, m);
    C = mat(j["C"], q, n), D = mat(j["D"], q, m);
    a = vh::V(j["a"]), p = vh::V(j["p"]), b2 = vh::V(j["b2"]), d = vh::V(j["d"]);
    xl = vh::V(j["xl"]), xu = vh::V(j["xu"]), lu = vh::V(j["lu"]);
    h = vh::V(j["h"]), k = vh::V(j["k"]), ch = vh::V(j["ch"]), pt = vh::D(j["pt"]);
    cq = vh::V(j["cq"]), cr = vh::V(j["cr"]), cs = vh::V(j["cs"]);
    pq = vh::V(j["pq"]), pr = vh::V(j["pr"]), ps = vh::V(j["ps"]);
    ce = vh::V(j["ce"]), cf = vh::V(j["cf"]), cg = vh::V(j["cg"]);
    ct = vh::D(j["ct"]), cm = vh::D(j["cm"]);
    if (j.contains("fail")) fail = vh::D(j["fail"]);
    if (j.contains("sing")) sing = vh::D(j["sing"]);
  }
};
// what one test run has seen
struct MockLog {
  vh::Log *log = nullptr;                // events "Prep" and "FirstEval"
  bool first_eval = false;               // next evaluation is the first one after a preparation
  std::vector<std::string> script;       // per preparation: "ok", "nan", "sing"
  std::string mode = "ok";
  int preparations = 0, evaluations = 0, jacobians = 0;
  long simulations = 0; // preparations of the first step
  double first_time = NAN;
};

class Mock_OptimizableObject final : public Model::OptimizableObject {
public:
  MockData P;
  MockLog *ml;
  using Vec = Eigen::Ref<Eigen::VectorXd const>;
  Mock_OptimizableObject(MockData _P, MockLog *_ml = nullptr) : P(std::move(_P)), ml(_ml) {}
  void claim() {
    set_state_indices(0);
    set_control_indices(0);
    set_constraint_indices(0);
  }
  void setup() final {}
  double u0(Vec const &u) const { return P.m > 0 ? u[0] : 0.0; }
  void evaluate(
      Eigen::Ref<Eigen::VectorXd> r, double tl, double tn, Vec const &l, Vec const &x, Vec const &u) const final {
    if (ml) {
      ++ml->evaluations;
      if (ml->first_eval and ml->log) {
        ml->log->ev("FirstEval", {{"tl", vh::F(tl)}, {"tn", vh::F(tn)}, {"l", vh::FV(l)}, {"x", vh::FV(x)}, {"u", vh::FV(u)}});
        ml->first_eval = false;
      }
    }
    for (Eigen::Index i = 0; i != P.n; ++i) {
      double v = P.S.row(i).dot(x) + P.a[i] * x[i] * x[i] * x[i] - P.A.row(i).dot(l) - P.p[i] * l[i] * l[i]
                 + (tn - tl) * (P.h[i] * x[i] + P.k[i] * l[i] - P.d[i]) + P.xl[i] * x[i] * l[i];
      if (P.m > 0) v -= P.B.row(i).dot(u) + P.b2[i] * u[0] * u[0] - (P.xu[i] * x[i] + P.lu[i] * l[i]) * u[0];
      r[i] = v;
    }
    if (u0(u) > P.fail or (ml and ml->mode == "nan")) r[P.n - 1] = NAN;
  }
  void prepare_timestep(double tl, double tn, Vec const &l, Vec const &u) final {
    if (ml) {
      auto k = size_t(ml->preparations++);
      ml->mode = k < ml->script.size() ? ml->script[k] : "ok";
      if (tl == ml->first_time) ++ml->simulations;
      if (ml->log) {
        ml->log->ev("Prep", {{"tl", vh::F(tl)}, {"tn", vh::F(tn)}, {"l", vh::FV(l)}, {"u", vh::FV(u)}});
        ml->first_eval = true;
      }
    }
  }
  void d_evaluate_d_new_state(
      Aux::Matrixhandler &h, double tl, double tn, Vec const &l, Vec const &x, Vec const &u) const final {
    if (ml) ++ml->jacobians;
    bool sing = u0(u) > P.sing or (ml and ml->mode == "sing");
    for (Eigen::Index i = 0; i != P.n; ++i)
      for (Eigen::Index k = 0; k != P.n; ++k) {
        bool there = P.S(i, k) != 0 or (i == k and (P.a[i] != 0 or P.h[i] != 0 or P.xl[i] != 0 or P.xu[i] != 0));
        if (not there) continue;
        double v = P.S(i, k);
        if (i == 0 and sing) v = 0;
        h.add_to_coefficient(i, k, v);
        if (i == k and P.h[i] != 0 and not(i == 0 and sing)) h.add_to_coefficient(i, k, P.h[i] * (tn - tl));
        if (i == k and not(i == 0 and sing)) h.add_to_coefficient(i, k, P.xl[i] * l[i] + P.xu[i] * u0(u));
        if (i == k and P.a[i] != 0) h.add_to_coefficient(i, k, i == 0 and sing ? 0.0 : 3 * P.a[i] * x[i] * x[i]);
      }
  }
  void d_evaluate_d_last_state(
      Aux::Matrixhandler &h, double tl, double tn, Vec const &l, Vec const &x, Vec const &u) const final {
    for (Eigen::Index i = 0; i != P.n; ++i)
      for (Eigen::Index k = 0; k != P.n; ++k) {
        if (P.A(i, k) != 0) h.add_to_coefficient(i, k, -P.A(i, k));
        if (i == k and P.k[i] != 0) h.add_to_coefficient(i, k, P.k[i] * (tn - tl));
        if (i == k and (P.xl[i] != 0 or P.lu[i] != 0)) h.add_to_coefficient(i, k, P.xl[i] * x[i] + P.lu[i] * u0(u));
        if (i == k and P.p[i] != 0) h.add_to_coefficient(i, k, -2 * P.p[i] * l[i]);
      }
  }
  void d_evaluate_d_control(
      Aux::Matrixhandler &h, double, double, Vec const &l, Vec const &x, Vec const &u) const final {
    for (Eigen::Index i = 0; i != P.n; ++i)
      for (Eigen::Index k = 0; k != P.m; ++k) {
        if (k == 0 and (P.xu[i] != 0 or P.lu[i] != 0)) h.add_to_coefficient(i, k, P.xu[i] * x[i] + P.lu[i] * l[i]);
        if (P.B(i, k) != 0) h.add_to_coefficient(i, k, -P.B(i, k));
        if (k == 0 and P.b2[i] != 0) h.add_to_coefficient(i, k, -2 * P.b2[i] * u[0]);
      }
  }
  // constraints
  void evaluate_constraint(Eigen::Ref<Eigen::VectorXd> g, double t, Vec const &x, Vec const &u) const final {
    for (Eigen::Index i = 0; i != P.q; ++i) {
      g[i] = P.C.row(i).dot(x) + P.ce[i] * x[0] * x[0] + P.cf[i] * t + P.ch[i] * t * x[0];
      if (P.m > 0) g[i] += P.D.row(i).dot(u) + P.cg[i] * u[0] * x[0];
    }
  }
  void d_evaluate_constraint_d_state(Aux::Matrixhandler &h, double t, Vec const &x, Vec const &u) const final {
    for (Eigen::Index i = 0; i != P.q; ++i)
      for (Eigen::Index k = 0; k != P.n; ++k) {
        if (P.C(i, k) != 0) h.add_to_coefficient(i, k, P.C(i, k));
        if (k == 0) h.add_to_coefficient(i, k, 2 * P.ce[i] * x[0] + P.ch[i] * t + (P.m > 0 ? P.cg[i] * u[0] : 0.0));
      }
  }
  void d_evaluate_constraint_d_control(Aux::Matrixhandler &h, double, Vec const &x, Vec const &) const final {
    for (Eigen::Index i = 0; i != P.q; ++i)
      for (Eigen::Index k = 0; k != P.m; ++k) h.add_to_coefficient(i, k, P.D(i, k) + (k == 0 ? P.cg[i] * x[0] : 0.0));
  }
  Eigen::Index set_constraint_indices(Eigen::Index next) final {
    constraint_startindex = next;
    return constraint_afterindex = next + P.q;
  }
  void set_constraint_lower_bounds(Aux::InterpolatingVector_Base &, nlohmann::json const &) const final {}
  void set_constraint_upper_bounds(Aux::InterpolatingVector_Base &, nlohmann::json const &) const final {}
  // cost
  double evaluate_cost(double t, Vec const &x, Vec const &u) const final {
    double c = (P.cq.array() * x.array() * x.array()).sum() + P.cr.dot(x) + P.ct * t * x[0];
    if (P.m > 0) c += (P.cs.array() * u.array() * u.array()).sum() + P.cm * x[0] * u[0];
    return c;
  }
  void d_evaluate_cost_d_state(Aux::Matrixhandler &h, double t, Vec const &x, Vec const &u) const final {
    for (Eigen::Index k = 0; k != P.n; ++k) {
      double v = 2 * P.cq[k] * x[k] + P.cr[k];
      if (k == 0) v += P.ct * t + (P.m > 0 ? P.cm * u[0] : 0.0);
      h.add_to_coefficient(0, k, v);
    }
  }
  void d_evaluate_cost_d_control(Aux::Matrixhandler &h, double, Vec const &x, Vec const &u) const final {
    for (Eigen::Index k = 0; k != P.m; ++k) h.add_to_coefficient(0, k, 2 * P.cs[k] * u[k] + (k == 0 ? P.cm * x[0] : 0.0));
  }
  double evaluate_penalty(double t, Vec const &x, Vec const &u) const final {
    double c = (P.pq.array() * x.array() * x.array()).sum() + P.pr.dot(x) + P.pt * t * x[0];
    if (P.m > 0) c += (P.ps.array() * u.array() * u.array()).sum();
    return c;
  }
  void d_evaluate_penalty_d_state(Aux::Matrixhandler &h, double t, Vec const &x, Vec const &) const final {
    for (Eigen::Index k = 0; k != P.n; ++k) h.add_to_coefficient(0, k, 2 * P.pq[k] * x[k] + P.pr[k] + (k == 0 ? P.pt * t : 0.0));
  }
  void d_evaluate_penalty_d_control(Aux::Matrixhandler &h, double, Vec const &, Vec const &u) const final {
    for (Eigen::Index k = 0; k != P.m; ++k) h.add_to_coefficient(0, k, 2 * P.ps[k] * u[k]);
  }
  // controls and states
  Eigen::Index set_control_indices(Eigen::Index next) final {
    control_startindex = next;
    return control_afterindex = next + P.m;
  }
  void set_initial_controls(Aux::InterpolatingVector_Base &c, nlohmann::json const &j) const final {
    if (not j.contains("value")) throw std::runtime_error("no value");
    for (Eigen::Index i = 0; i != c.size(); ++i)
      for (Eigen::Index k = 0; k != P.m; ++k) c.mut_timestep(i)[k] = j["value"].get<double>();
  }
  void set_lower_bounds(Aux::InterpolatingVector_Base &, nlohmann::json const &) const final {}
  void set_upper_bounds(Aux::InterpolatingVector_Base &, nlohmann::json const &) const final {}
  void save_controls_to_json(Aux::InterpolatingVector_Base const &, nlohmann::json &) const final {}
  Eigen::Index set_state_indices(Eigen::Index next) final {
    state_startindex = next;
    return state_afterindex = next + P.n;
  }
  void add_results_to_json(nlohmann::json &) final {}
  void json_save(double, Vec const &) final {}
  void set_initial_values(Eigen::Ref<Eigen::VectorXd>, nlohmann::json const &) const final {}

private:
  std::string componentclass() const final { return "Mock"; }
  std::string componenttype() const final { return "Mock"; }
  std::string id() const final { return "mock"; }
};

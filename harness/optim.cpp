#include "Adaptor.hpp"
#include "ControlStateCache.hpp"
#include "ImplicitOptimizer.hpp"
#include "Initialvalues.hpp"
#include "Timeevolver.hpp"
#include "Wrapper.hpp"
#include "mock.hpp"
#include <memory>
using namespace vh;
namespace {
  Eigen::VectorXd interpolate(Eigen::VectorXd const &pts, Eigen::Index w, Eigen::VectorXd const &v, double t) {
    auto n = pts.size();
    if (w == 0) return Eigen::VectorXd(0);
    if (t >= pts[n - 1]) return v.segment((n - 1) * w, w);
    if (t <= pts[0]) return v.segment(0, w);
    Eigen::Index i = 1;
    while (pts[i] < t) ++i;
    double l = (t - pts[i - 1]) / (pts[i] - pts[i - 1]);
    return (1 - l) * v.segment((i - 1) * w, w) + l * v.segment(i * w, w);
  }
  // The states by a plain Newton iteration of our own; empty if the problem fails.
  std::vector<Eigen::VectorXd> reference(
      MockData const &P, Eigen::VectorXd const &st, Eigen::VectorXd const &init, Eigen::VectorXd const &ct, Eigen::VectorXd const &u) {
    Mock_OptimizableObject problem(P);
    std::vector<Eigen::VectorXd> X = {init};
    for (Eigen::Index i = 1; i < st.size(); ++i) {
      auto v = interpolate(ct, P.m, u, st[i]);
      if (problem.u0(v) > P.fail) return {};
      Eigen::VectorXd x = X.back(), r(P.n);
      for (int k = 0; k != 60; ++k) {
        problem.evaluate(r, st[i - 1], st[i], X.back(), x, v);
        Eigen::MatrixXd J = P.S;
        for (Eigen::Index j = 0; j != P.n; ++j) J(j, j) += 3 * P.a[j] * x[j] * x[j];
        Eigen::VectorXd d = J.partialPivLu().solve(r);
        x -= d;
        if (d.norm() < 1e-15 * (1 + x.norm())) break;
      }
      X.push_back(x);
    }
    return X;
  }
  json rows(std::vector<Eigen::VectorXd> const &X) {
    json a = json::array();
    for (auto const &x : X) a.push_back(FV(x));
    return a;
  }
  // hands out reference states; fails when the problem does, or as often as told
  class Mockcache final : public Optimization::StateCache {
  public:
    MockData P;
    int fail_next = 0, failures = 0;
    Aux::InterpolatingVector held;
    explicit Mockcache(MockData p) : P(std::move(p)) {}
    bool refresh_cache(
        Model::Controlcomponent &, Aux::InterpolatingVector_Base const &controls, Eigen::Ref<Eigen::VectorXd const> const &st,
        Eigen::Ref<Eigen::VectorXd const> const &init) final {
      Eigen::VectorXd ct(controls.size());
      for (Eigen::Index i = 0; i != ct.size(); ++i) ct[i] = controls.interpolation_point_at_index(i);
      auto X = reference(P, st, init, ct, controls.get_allvalues());
      if (fail_next > 0 or X.empty()) {
        if (fail_next > 0) --fail_next;
        ++failures;
        return false;
      }
      held = Aux::InterpolatingVector(Eigen::VectorXd(st), P.n);
      for (Eigen::Index i = 0; i != held.size(); ++i) held.mut_timestep(i) = X[size_t(i)];
      return true;
    }
    Aux::InterpolatingVector_Base const &get_cached_states() final { return held; }
  };
  Aux::InterpolatingVector series(json const &j) {
    Aux::InterpolatingVector c(V(j["pts"]), j["w"].get<Eigen::Index>());
    if (c.get_total_number_of_values() > 0) c.set_values_in_bulk(V(j["vals"]));
    return c;
  }
  // plain arrays, never NULL, as a solver would pass them
  struct Buffer {
    std::vector<double> v;
    Eigen::Index n;
    explicit Buffer(Eigen::Index _n, double x = -777.0) : v(size_t(_n) + 1, x), n(_n) {}
    explicit Buffer(Eigen::VectorXd const &x) : v(x.data(), x.data() + x.size()), n(x.size()) { v.push_back(0); }
    Eigen::Map<Eigen::VectorXd> map() { return {v.data(), n}; }
  };
  void optim(json const &sc, Log &log) {
    MockData P(sc["P"]);
    Eigen::VectorXd st = V(sc["st"]), ct = V(sc["ct"]), gt = V(sc["gt"]), init = V(sc["init"]);
    json e;
    for (auto k : {"P", "st", "ct", "gt", "init", "ic", "lb", "ub", "clb", "cub", "cache"}) e[k] = tla(sc[k]);
    Mockcache *mc = nullptr;
    Optimization::ImplicitOptimizer *opt = nullptr;
    std::unique_ptr<Optimization::ImplicitOptimizer> owner;
    bool ok = attempt([&]() {
      auto problem = std::make_unique<Mock_OptimizableObject>(P);
      problem->claim();
      std::unique_ptr<Optimization::StateCache> cache;
      if (sc["cache"] == "mock") {
        auto c = std::make_unique<Mockcache>(P);
        mc = c.get();
        cache = std::move(c);
      } else {
        json set = {{"tolerance", 1e-11}, {"maximal_number_of_newton_iterations", 60}, {"retries", 0}, {"use_simplified_newton", false}};
        cache = std::make_unique<Optimization::ControlStateCache>(Model::Timeevolver::make_pointer_instance(set));
      }
      owner = std::make_unique<Optimization::ImplicitOptimizer>(
          std::move(problem), std::move(cache), st, ct, gt, init, series(sc["ic"]), series(sc["lb"]), series(sc["ub"]),
          series(sc["clb"]), series(sc["cub"]));
      opt = owner.get();
    });
    e["ok"] = ok;
    log.ev("Setup", e);
    if (not ok) return;
    std::string via = sc["via"];
    std::unique_ptr<Optimization::IpoptWrapper> wrap;
    if (via == "ipopt") {
      Optimization::IpoptAdaptor ad(std::move(owner));
      json o = {{"threw", false}, {"solved", false}};
      o["threw"] = not attempt([&]() {
        auto status = ad.optimize();
        o["solved"] = status == Ipopt::Solve_Succeeded;
        o["status"] = static_cast<int>(status);
      });
      Eigen::VectorXd x = ad.get_solution();
      o["x"] = FV(x);
      o["ref"] = x.size() == ct.size() * P.m ? rows(reference(P, st, init, ct, x)) : json::array();
      o["objective"] = F(ad.get_objective_value());
      o["cost"] = F(ad.get_cost_value());
      o["penalty"] = F(ad.get_penalty_value());
      log.ev("Optimized", o);
      return;
    }
    if (via == "tnlp") wrap = std::make_unique<Optimization::IpoptWrapper>(std::move(owner));
    Eigen::Index nu = ct.size() * P.m, ng = gt.size() * P.q;
    Eigen::VectorXd u;
    bool announced = false, fresh = false;
    std::vector<Ipopt::Index> ri, ci;
    auto nnz = [&]() { return opt->get_no_nnz_in_jacobian(); };
    auto structure = [&]() {
      auto z = nnz();
      ri.assign(size_t(z) + 1, -5), ci.assign(size_t(z) + 1, -5);
      if (wrap)
        return wrap->eval_jac_g(int(nu), nullptr, false, int(ng), int(z), ri.data(), ci.data(), nullptr);
      Eigen::Map<Eigen::VectorX<Ipopt::Index>> r(ri.data(), z), c(ci.data(), z);
      return opt->supply_constraint_jacobian_indices(r, c);
    };
    for (auto const &op : sc["ops"]) {
      std::string q = op["op"];
      if (q == "NewX") {
        Eigen::VectorXd nx = V(op["u"]);
        // an interior point solver announces a point with the first request
        if (not wrap)
          opt->new_x();
        else
          fresh = true;
        u = nx;
        announced = true;
        log.ev("NewX", {{"u", FV(u)}, {"ref", rows(reference(P, st, init, ct, u))}});
        continue;
      }
      if (q == "given") {
        std::string what = op["what"];
        json a = {{"what", what}, {"values", json::array()}};
        a["threw"] = not attempt([&]() {
          if (wrap) {
            Ipopt::Index n = -1, m = -1, z = -1, h = -1;
            Ipopt::TNLP::IndexStyleEnum style;
            if (not wrap->get_nlp_info(n, m, z, h, style)) throw std::runtime_error("info");
            if (style != Ipopt::TNLP::C_STYLE or z != nnz()) throw std::runtime_error("style");
            if (what == "sizes") a["values"] = {n, m};
            Buffer xl(n), xu(n), gl(m), gu(m), x(n);
            if (not wrap->get_bounds_info(n, xl.v.data(), xu.v.data(), m, gl.v.data(), gu.v.data())) throw std::runtime_error("bounds");
            if (not wrap->get_starting_point(n, true, x.v.data(), false, nullptr, nullptr, m, false, nullptr)) throw std::runtime_error("start");
            if (what == "init") a["values"] = FV(x.map());
            if (what == "lower") a["values"] = FV(xl.map());
            if (what == "upper") a["values"] = FV(xu.map());
            if (what == "clower") a["values"] = FV(gl.map());
            if (what == "cupper") a["values"] = FV(gu.map());
          } else {
            if (what == "sizes") a["values"] = {opt->get_total_no_controls(), opt->get_total_no_constraints()};
            if (what == "init") a["values"] = FV(opt->get_initial_controls());
            if (what == "lower") a["values"] = FV(opt->get_lower_bounds());
            if (what == "upper") a["values"] = FV(opt->get_upper_bounds());
            if (what == "clower") a["values"] = FV(opt->get_constraint_lower_bounds());
            if (what == "cupper") a["values"] = FV(opt->get_constraint_upper_bounds());
          }
        });
        log.ev("Given", a);
        continue;
      }
      if (q == "final") {
        if (not wrap) continue;
        Eigen::VectorXd x = V(op["u"]);
        auto ref = reference(P, st, init, ct, x);
        Buffer xb(x), zl(nu, 0), zu(nu, 0), lam(ng, 0), gb(ng, 0);
        double f = 0;
        json a = {{"x", FV(x)}, {"ref", rows(ref)}, {"failed", false}, {"objective", "0"}, {"cost", "0"}, {"penalty", "0"},
                  {"solution", json::array()}, {"constraints", json::array()}};
        // What Ipopt passes to finalize_solution are the values it was given
        // for this point; we take them from an optimizer of our own.
        if (not ref.empty()) {
          auto problem = std::make_unique<Mock_OptimizableObject>(P);
          Mock_OptimizableObject plain(P);
          for (Eigen::Index i = 1; i < st.size(); ++i) {
            double w = 0.5 * ((i + 1 < st.size() ? st[i + 1] : st[i]) - st[i - 1]);
            auto v = interpolate(ct, P.m, x, st[i]);
            f += w * (plain.evaluate_cost(st[i], ref[size_t(i)], v) + plain.evaluate_penalty(st[i], ref[size_t(i)], v));
            for (Eigen::Index k = 0; k != gt.size(); ++k)
              if (gt[k] == st[i]) {
                Eigen::VectorXd g(P.q);
                plain.evaluate_constraint(g, st[i], ref[size_t(i)], v);
                gb.map().segment(k * P.q, P.q) = g;
              }
          }
        }
        if (mc) mc->failures = 0, mc->fail_next = op.value("flaky", 0);
        a["threw"] = not attempt([&]() {
          auto status = op.value("success", true) ? Ipopt::SUCCESS : Ipopt::MAXITER_EXCEEDED;
          wrap->finalize_solution(
              status, int(nu), xb.v.data(), zl.v.data(), zu.v.data(), int(ng), gb.v.data(), lam.v.data(), f, nullptr, nullptr);
          a["solution"] = FV(wrap->get_best_solution());
          a["objective"] = F(wrap->get_best_objective_value());
          a["cost"] = F(wrap->get_best_cost_value());
          a["penalty"] = F(wrap->get_best_penalty_value());
          a["constraints"] = FV(wrap->get_best_constraints());
        });
        // derivatives may be singular while the states can be computed
        bool sing = false;
        for (Eigen::Index i = 1; i < st.size(); ++i) {
          auto v = interpolate(ct, P.m, x, st[i]);
          sing = sing or (P.m > 0 and v[0] > P.sing);
        }
        a["failed"] = (mc and mc->failures > 0) or (sing and not mc);
        log.ev("Final", a);
        announced = false;
        continue;
      }
      // a quantity
      if (not announced) continue;
      if (wrap and (q == "cost" or q == "pen")) q = "obj"; // not asked for by a solver
      if (mc) mc->failures = 0, mc->fail_next = op.value("flaky", 0);
      json a = {{"q", q}, {"u", FV(u)}, {"ok", false}, {"values", json::array()}};
      if (q == "jac") {
        if (not structure()) throw std::runtime_error("no structure");
        a["rows"] = json(std::vector<int>(ri.begin(), ri.end() - 1));
        a["cols"] = json(std::vector<int>(ci.begin(), ci.end() - 1));
      }
      bool r = false;
      double f = -777;
      Buffer ub(u), gr(nu), gg(ng), jv(nnz());
      bool nx = fresh;
      fresh = false;
      a["threw"] = not attempt([&]() {
        auto um = ub.map();
        if (q == "obj") r = wrap ? wrap->eval_f(int(nu), ub.v.data(), nx, f) : opt->evaluate_objective(um, f);
        if (q == "cost") r = opt->evaluate_cost(um, f);
        if (q == "pen") r = opt->evaluate_penalty(um, f);
        if (q == "cons")
          r = wrap ? wrap->eval_g(int(nu), ub.v.data(), nx, int(ng), gg.v.data()) : opt->evaluate_constraints(um, gg.map());
        if (q == "grad")
          r = wrap ? wrap->eval_grad_f(int(nu), ub.v.data(), nx, gr.v.data()) : opt->evaluate_objective_gradient(um, gr.map());
        if (q == "jac")
          r = wrap ? wrap->eval_jac_g(int(nu), ub.v.data(), nx, int(ng), int(nnz()), nullptr, nullptr, jv.v.data())
                   : opt->evaluate_constraint_jacobian(um, jv.map());
      });
      a["ok"] = r;
      a["simfailures"] = mc ? mc->failures : 0;
      if (r) {
        if (q == "obj" or q == "cost" or q == "pen") a["values"] = {F(f)};
        if (q == "cons") a["values"] = FV(gg.map());
        if (q == "grad") a["values"] = FV(gr.map());
        if (q == "jac") a["values"] = FV(jv.map());
      }
      log.ev("Ask", a);
    }
  }
  Register r("optim", optim);
} // namespace

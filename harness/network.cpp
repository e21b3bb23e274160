// Whole networks built from JSON: numbering, equations, derivatives, data and results.
#include "net.hpp"
using namespace vh;
using Eigen::Index;
using Eigen::VectorXd;
namespace {
  struct Args {
    double t0, t1;
    VectorXd last, neu, ctl;
    Args(Net const &n, json const &j) :
        t0(D(j["t0"])), t1(D(j["t1"])), last(n.vec(j["last"], 0)), neu(n.vec(j["new"], 0)), ctl(n.vec(j["control"], 1)) {}
    void to(json &e) const {
      e["t0"] = F(t0);
      e["t1"] = F(t1);
      e["last"] = FV(last);
      e["new"] = FV(neu);
      e["control"] = FV(ctl);
    }
  };
  bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
  void eval(Net &n, json const &j, Log &log) {
    Args a(n, j);
    json e;
    a.to(e);
    if (j.value("prepare", true)) n.p->prepare_timestep(a.t0, a.t1, a.last, a.ctl);
    e["full"] = json::array();
    for (double f : {0.0, 1.0, -3.75e9, 1e200}) e["full"].push_back(FV(n.F(a.t0, a.t1, a.last, a.neu, a.ctl, f)));
    e["rows"] = json::array();
    for (auto const &c : n.comps) {
      json rows = json::array();
      VectorXd r[2];
      double fill[2] = {-7.123e201, 3.25};
      for (int k = 0; k != 2; ++k) {
        r[k] = VectorXd::Constant(n.ns, fill[k]);
        if (c.eq) c.eq->evaluate(r[k], a.t0, a.t1, a.last, a.neu);
        if (c.ct) c.ct->evaluate(r[k], a.t0, a.t1, a.last, a.neu, a.ctl);
      }
      for (Index i = 0; i != n.ns; ++i)
        if (!(same(r[0][i], fill[0]) && same(r[1][i], fill[1]))) rows.push_back(i);
      e["rows"].push_back({{"id", c.id}, {"r", rows}});
    }
    e["cur"] = n.current();
    e["constraint"] = json::array();
    if (n.nq) {
      VectorXd c = VectorXd::Constant(n.nq, -5);
      n.p->evaluate_constraint(c, a.t1, a.neu, a.ctl);
      e["constraint"] = FV(c);
    }
    e["cost"] = F(n.p->evaluate_cost(a.t1, a.neu, a.ctl));
    e["penalty"] = F(n.p->evaluate_penalty(a.t1, a.neu, a.ctl));
    log.ev("Eval", e);
  }
  using Filler = std::function<void(Aux::Matrixhandler &, Args const &)>;
  using Value = std::function<VectorXd(Args const &)>;
  // one derivative: the matrix built anew, refilled, transposed, and samples of the function around the point
  json derivative(Net &, Args const &a, Args const &b, Index rows, Filler fill, VectorXd Args::*arg, Value f) {
    json e;
    Index cols = (a.*arg).size();
    using SM = Eigen::SparseMatrix<double>;
    auto dense = [](SM const &m) { return FM(Eigen::MatrixXd(m)); };
    SM fresh(rows, cols), re(rows, cols), tr(cols, rows), tre(cols, rows);
    { Aux::Triplethandler<> h(fresh); fill(h, a); h.set_matrix(); }
    { Aux::Triplethandler<> h(re); fill(h, b); h.set_matrix(); }
    auto nnz = re.nonZeros();
    { Aux::Coeffrefhandler<> h(re); fill(h, a); h.set_matrix(); }
    { Aux::Triplethandler<Aux::Transposed> h(tr); fill(h, a); h.set_matrix(); }
    { Aux::Triplethandler<Aux::Transposed> h(tre); fill(h, b); h.set_matrix(); }
    { Aux::Coeffrefhandler<Aux::Transposed> h(tre); fill(h, a); h.set_matrix(); }
    e["rows"] = rows;
    e["cols"] = cols;
    e["M"] = dense(fresh);
    e["refilled"] = dense(re);
    e["transposed"] = FM(Eigen::MatrixXd(tr).transpose());
    e["trefilled"] = FM(Eigen::MatrixXd(tre).transpose());
    e["nnz"] = {fresh.nonZeros(), nnz, re.nonZeros(), tr.nonZeros()};
    e["h"] = json::array();
    for (auto k : {"p2", "p1", "m1", "m2"}) e[k] = json::array();
    for (Index j = 0; j != cols; ++j) {
      Args x = a;
      double v = (a.*arg)[j];
      volatile double up = v + 2e-4 * std::max(std::abs(v), 1e-3);
      double h = up - v;
      e["h"].push_back(F(h));
      int k = 0;
      for (auto name : {"p2", "p1", "m1", "m2"}) {
        double s[4] = {2, 1, -1, -2};
        (x.*arg)[j] = v + s[k++] * h;
        e[name].push_back(FV(f(x)));
      }
    }
    return e;
  }
  void deriv(Net &n, json const &j, Log &log) {
    Args a(n, j), b(n, j["other"]);
    json e;
    n.p->prepare_timestep(a.t0, a.t1, a.last, a.ctl);
    auto &p = *n.p;
    auto one = [](double x) { VectorXd v(1); v[0] = x; return v; };
    Value f = [&](Args const &x) { return n.F(x.t0, x.t1, x.last, x.neu, x.ctl); };
    Value cost = [&](Args const &x) { return one(p.evaluate_cost(x.t1, x.neu, x.ctl)); };
    Value pen = [&](Args const &x) { return one(p.evaluate_penalty(x.t1, x.neu, x.ctl)); };
    Value con = [&](Args const &x) {
      VectorXd c = VectorXd::Zero(n.nq);
      p.evaluate_constraint(c, x.t1, x.neu, x.ctl);
      return c;
    };
    using H = Aux::Matrixhandler;
    e["d_new"] = derivative(n, a, b, n.ns, [&](H &h, Args const &x) { p.d_evaluate_d_new_state(h, x.t0, x.t1, x.last, x.neu, x.ctl); }, &Args::neu, f);
    e["d_last"] = derivative(n, a, b, n.ns, [&](H &h, Args const &x) { p.d_evaluate_d_last_state(h, x.t0, x.t1, x.last, x.neu, x.ctl); }, &Args::last, f);
    e["d_control"] = derivative(n, a, b, n.ns, [&](H &h, Args const &x) { p.d_evaluate_d_control(h, x.t0, x.t1, x.last, x.neu, x.ctl); }, &Args::ctl, f);
    e["cost_new"] = derivative(n, a, b, 1, [&](H &h, Args const &x) { p.d_evaluate_cost_d_state(h, x.t1, x.neu, x.ctl); }, &Args::neu, cost);
    e["cost_control"] = derivative(n, a, b, 1, [&](H &h, Args const &x) { p.d_evaluate_cost_d_control(h, x.t1, x.neu, x.ctl); }, &Args::ctl, cost);
    e["pen_new"] = derivative(n, a, b, 1, [&](H &h, Args const &x) { p.d_evaluate_penalty_d_state(h, x.t1, x.neu, x.ctl); }, &Args::neu, pen);
    e["pen_control"] = derivative(n, a, b, 1, [&](H &h, Args const &x) { p.d_evaluate_penalty_d_control(h, x.t1, x.neu, x.ctl); }, &Args::ctl, pen);
    if (n.nq) {
      e["con_new"] = derivative(n, a, b, n.nq, [&](H &h, Args const &x) { p.d_evaluate_constraint_d_state(h, x.t1, x.neu, x.ctl); }, &Args::neu, con);
      e["con_control"] = derivative(n, a, b, n.nq, [&](H &h, Args const &x) { p.d_evaluate_constraint_d_control(h, x.t1, x.neu, x.ctl); }, &Args::ctl, con);
    }
    json out = {{"parts", e}};
    a.to(out);
    log.ev("Deriv", out);
  }
  // simulate with the real time evolver
  void sim(Net &n, json const &j, Log &log) {
    auto t = SV(j["times"]);
    json e;
    VectorXd init = n.vec(j["init"], 0);
    auto ctl = series(t, n.nc);
    for (Index k = 0; k != static_cast<Index>(t.size()); ++k) ctl.mut_timestep(k) = n.vec(j["controls"][static_cast<size_t>(k)], 1);
    auto saved = series(t, n.ns);
    auto ev = Model::Timeevolver::make_pointer_instance(j["set"]);
    std::string what;
    e["ok"] = attempt([&]() { ev->simulate(init, ctl, *n.p, saved); }, &what);
    e["what"] = what.substr(0, 200);
    e["tol"] = F(j["set"]["tolerance"].get<double>());
    e["retries"] = j["set"]["retries"].get<int>() + 1;
    e["times"] = FV(t);
    e["states"] = json::array();
    e["controls"] = json::array();
    std::vector<VectorXd> st;
    for (Index k = 0; k != static_cast<Index>(t.size()); ++k) {
      st.push_back(saved(t[static_cast<size_t>(k)]));
      e["states"].push_back(FV(st.back()));
      e["controls"].push_back(FV(VectorXd(ctl(t[static_cast<size_t>(k)]))));
    }
    e["init"] = FV(init);
    log.ev("Sim", e);
  }
  // arbitrary states and what is reported for them
  void results(Net &n, json const &j, Log &log) {
    auto t = SV(j["times"]);
    std::vector<VectorXd> st;
    json e;
    e["times"] = FV(t);
    e["states"] = json::array();
    for (auto const &s : j["states"]) {
      st.push_back(n.vec(s, 0));
      e["states"].push_back(FV(st.back()));
    }
    e["cur"] = n.current();
    json out = save(n, t, st);
    e["out"] = listing(out);
    log.ev("Results", e);
  }
  // data files applied to vectors that hold something already
  void data(Net &n, json const &j, Log &log) {
    json e;
    auto what = j["what"].get<std::string>();
    std::string msg;
    std::ostringstream said;
    struct Redirect {
      std::streambuf *old;
      Redirect(std::ostream &o) : old(std::cout.rdbuf(o.rdbuf())) {}
      ~Redirect() { std::cout.rdbuf(old); }
    };
    if (what == "initial") {
      VectorXd v(n.ns);
      for (Index i = 0; i != n.ns; ++i) v[i] = -1000.5 - double(i);
      e["before"] = FV(v);
      Redirect r(said);
      e["ok"] = attempt([&]() { n.p->set_initial_values(v, j["json"]); }, &msg);
      e["after"] = FV(v);
    } else {
      bool constraint = what == "clower" || what == "cupper";
      auto s = series(SV(j["times"]), constraint ? n.nq : n.nc);
      VectorXd v(s.get_total_number_of_values());
      for (Index i = 0; i != v.size(); ++i) v[i] = -1000.5 - double(i);
      s.set_values_in_bulk(v);
      e["before"] = FV(v);
      Redirect r(said);
      e["ok"] = attempt([&]() {
        if (what == "control") n.p->set_initial_controls(s, j["json"]);
        if (what == "lower") n.p->set_lower_bounds(s, j["json"]);
        if (what == "upper") n.p->set_upper_bounds(s, j["json"]);
        if (what == "clower") n.p->set_constraint_lower_bounds(s, j["json"]);
        if (what == "cupper") n.p->set_constraint_upper_bounds(s, j["json"]);
      }, &msg);
      e["after"] = FV(VectorXd(s.get_allvalues()));
      e["times"] = FV(SV(j["times"]));
    }
    e["mentioned"] = json::array();
    for (auto const &id : j.value("unknown", json::array()))
      if (said.str().find(id.get<std::string>()) != std::string::npos) e["mentioned"].push_back(id);
    e["what"] = what;
    e["given"] = tla(j["given"]);
    e["msg"] = msg.substr(0, 300);
    log.ev("Data", e);
  }
  // controls saved and used as input again
  void readback(Net &n, json const &j, Log &log) {
    json e;
    auto t = SV(j["times"]);
    auto a = series(t, n.nc), b = series(t, n.nc);
    for (Index k = 0; k != static_cast<Index>(t.size()); ++k) a.mut_timestep(k) = n.vec(j["controls"][static_cast<size_t>(k)], 1);
    b.set_values_in_bulk(VectorXd::Constant(a.get_total_number_of_values(), -77.25));
    e["times"] = FV(t);
    e["values"] = FV(VectorXd(a.get_allvalues()));
    json out = json::object();
    e["saved"] = attempt([&]() { n.p->save_controls_to_json(a, out); });
    e["out"] = listing(out);
    e["reread"] = attempt([&]() { n.p->set_initial_controls(b, json::parse(out.dump(1, '\t'))); });
    e["again"] = FV(VectorXd(b.get_allvalues()));
    for (int k = 0; k != 2; ++k) {
      auto st = series(t, n.ns);
      st.set_values_in_bulk(VectorXd::Constant(st.get_total_number_of_values(), 0.0));
      bool ok = false;
      if (j.contains("set"))
        ok = attempt([&]() { Model::Timeevolver::make_pointer_instance(j["set"])->simulate(n.vec(j["init"], 0), k ? b : a, *n.p, st); });
      e[k ? "sim2" : "sim1"] = ok;
      e[k ? "states2" : "states1"] = FV(VectorXd(st.get_allvalues()));
    }
    log.ev("ReadBack", e);
  }
  void network(json const &sc, Log &log) {
    std::unique_ptr<Net> n;
    for (auto const &b : sc["builds"]) {
      std::string what;
      std::unique_ptr<Net> m;
      bool ok = attempt([&]() { m = std::make_unique<Net>(b); }, &what);
      json e = ok ? m->describe() : json::object();
      if (!ok) e["comps"] = json::array();
      e["ok"] = ok;
      e["msg"] = what.substr(0, 300);
      e["given"] = tla(sc["comps"]);
      e["offset"] = b.value("offset", std::vector<Index>{0, 0, 0});
      log.ev("Net", e);
      if (!ok) return;
      if (!n) n = std::move(m);
    }
    for (auto const &o : sc["ops"]) {
      auto name = o["op"].get<std::string>();
      if (name == "Eval") eval(*n, o, log);
      if (name == "Deriv") deriv(*n, o, log);
      if (name == "Sim") sim(*n, o, log);
      if (name == "Results") results(*n, o, log);
      if (name == "Data") data(*n, o, log);
      if (name == "ReadBack") readback(*n, o, log);
    }
  }
  Register r1("network", network);

  // stochastic nodes: with the seeds they report, the same network again and their samples from outside
  void stoch(json const &sc, Log &log) {
    auto first = std::make_unique<Net>(sc["build"]);
    json out = json::object();
    first->p->add_results_to_json(out);
    json again = sc["build"], e = first->describe(), seeds = json::object(), draws = json::object();
    e["given"] = tla(sc["comps"]);
    e["ok"] = true;
    e["missing"] = json::array();
    auto &entries = again["problem"]["boundary_json"]["nodes"];
    for (auto &[type, list] : entries.items()) {
      if (type != "StochasticPQnode") continue;
      for (auto &b : list) {
        std::string id = b["id"];
        json o;
        for (auto const &r : out["nodes"][type])
          if (r["id"] == id) o = r;
        if (o.is_null()) continue;
        if (!o.contains("seed")) {
          e["missing"].push_back(id);
          continue;
        }
        e["asked"][id] = b.contains("seed") ? b["seed"] : json::array();
        b["seed"] = seeds[id] = o["seed"];
        std::array<uint32_t, Aux::pcg_seed_count> used, seed = o["seed"].get<decltype(used)>();
        Aux::Normaldistribution dist(used, seed);
        draws[id] = json::array();
        for (int k = 0; k != sc["samples"]; ++k) draws[id].push_back(F(dist.get_sample(1.0)));
      }
    }
    // numbers above 2^31 are no integers of the specification
    auto words = [](json const &s) {
      json a = json::array();
      for (auto const &x : s) a.push_back(std::to_string(x.get<uint64_t>()));
      return a;
    };
    e["seeds"] = json::object();
    for (auto const &[id, s] : seeds.items()) e["seeds"][id] = words(s);
    for (auto &[id, s] : e["asked"].items()) s = words(s);
    e["draws"] = draws;
    log.ev("Stoch", e);
    auto second = std::make_unique<Net>(again);
    for (auto const &o : sc["ops"]) {
      auto name = o["op"].get<std::string>();
      if (name == "Prepare") {
        Args a(*first, o);
        json p;
        a.to(p);
        for (auto *n : {first.get(), second.get()}) n->p->prepare_timestep(a.t0, a.t1, a.last, a.ctl);
        p["cur"] = first->current();
        p["cur2"] = second->current();
        log.ev("Prepare", p);
      }
      if (name == "Eval") eval(*first, o, log);
      if (name == "Results") results(*first, o, log);
      if (name == "Sim") {
        sim(*first, o, log);
        sim(*second, o, log);
      }
    }
  }
  Register r3("stoch", stoch);

  // the balance law of the pipes on its own
  void law(json const &sc, Log &log) {
    using E = Model::Balancelaw::Isothermaleulerequation;
    E eq(sc["pipe"]);
    for (auto const &s : sc["states"]) {
      Eigen::Vector2d x(D(s[0]), D(s[1]));
      json e;
      e["L"] = "0";
      e["D"] = F(D(sc["D"]));
      e["k"] = F(D(sc["k"]));
      e["state"] = FV(VectorXd(x));
      e["flux"] = FV(VectorXd(eq.flux(x)));
      e["source"] = FV(VectorXd(eq.source(x)));
      e["p_qvol"] = FV(VectorXd(eq.p_qvol(x)));
      Eigen::Vector2d bar = eq.p_qvol_bar_from_p_qvol(eq.p_qvol(x));
      e["bar"] = FV(VectorXd(bar));
      e["back"] = FV(VectorXd(eq.state(eq.p_qvol_from_p_qvol_bar(bar))));
      e["smooth"] = sc.value("smooth", false);
      if (sc.value("smooth", false)) {
        e["dflux"] = FM(Eigen::MatrixXd(eq.dflux_dstate(x)));
        e["dsource"] = FM(Eigen::MatrixXd(eq.dsource_dstate(x)));
        e["h"] = json::array();
        for (auto k : {"p2", "p1", "m1", "m2"}) e[std::string("f") + k] = e[std::string("s") + k] = json::array();
        for (int j = 0; j != 2; ++j) {
          volatile double up = x[j] * (1 + 2e-4);
          double h = up - x[j];
          e["h"].push_back(F(h));
          double m[4] = {2, 1, -1, -2};
          int k = 0;
          for (auto name : {"p2", "p1", "m1", "m2"}) {
            Eigen::Vector2d y = x;
            y[j] += m[k++] * h;
            e[std::string("f") + name].push_back(FV(VectorXd(eq.flux(y))));
            e[std::string("s") + name].push_back(FV(VectorXd(eq.source(y))));
          }
        }
      }
      log.ev("Law", e);
    }
  }
  Register r2("law", law);
} // namespace

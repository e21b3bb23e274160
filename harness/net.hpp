// A network built from JSON, and what other handlers need to look at it.
#pragma once
#include "Balancelaw.hpp"
#include "Componentfactory.hpp"
#include "Constraintcomponent.hpp"
#include "Controlcomponent.hpp"
#include "Edge.hpp"
#include "Equationcomponent.hpp"
#include "Full_factory.hpp"
#include "Idobject.hpp"
#include "InterpolatingVector.hpp"
#include "Isothermaleulerequation.hpp"
#include "Matrixhandler.hpp"
#include "Net.hpp"
#include "Netfactory.hpp"
#include "Networkproblem.hpp"
#include "Node.hpp"
#include "Statecomponent.hpp"
#include "StochasticPQnode.hpp"
#include "Timeevolver.hpp"
#include "common.hpp"
#include <iostream>
#include <memory>
#include <sstream>
namespace {
  using namespace vh;
  using Eigen::Index;
  using Eigen::VectorXd;
  struct Comp {
    std::string id;
    Model::Statecomponent *st = nullptr;
    Model::Controlcomponent *ct = nullptr;
    Model::Constraintcomponent *cn = nullptr;
    Model::Equationcomponent *eq = nullptr;
    Model::Power::StochasticPQnode *sto = nullptr;
  };
  struct Net {
    std::unique_ptr<Model::Networkproblem> p;
    std::vector<Comp> comps;
    Index ns, nc, nq;
    Net(json const &b) {
      json pj = b["problem"];
      json defaults = b.value("defaults", json::object());
      Model::Componentfactory::Full_factory factory(defaults);
      auto net = Model::build_net(pj, factory);
      p = std::make_unique<Model::Networkproblem>(std::move(net));
      auto off = b.value("offset", std::vector<Index>{0, 0, 0});
      p->init(off[0], off[1], off[2]);
      for (auto *n : p->get_network().get_nodes()) add(const_cast<Network::Node *>(n));
      for (auto *n : p->get_network().get_edges()) add(const_cast<Network::Edge *>(n));
      ns = p->get_state_afterindex();
      nc = p->get_control_afterindex();
      nq = p->get_constraint_afterindex();
    }
    template <typename T>
    void add(T *x) {
      Comp c;
      c.id = x->get_id();
      c.st = dynamic_cast<Model::Statecomponent *>(x);
      c.ct = dynamic_cast<Model::Controlcomponent *>(x);
      c.cn = dynamic_cast<Model::Constraintcomponent *>(x);
      c.eq = dynamic_cast<Model::Equationcomponent *>(x);
      c.sto = dynamic_cast<Model::Power::StochasticPQnode *>(x);
      comps.push_back(c);
    }
    json describe() const {
      json e;
      e["comps"] = json::array();
      for (auto const &c : comps) {
        json o = {{"id", c.id}, {"s", json::array({-1, -1})}, {"c", json::array({-1, -1})}, {"q", json::array({-1, -1})}};
        if (c.st) o["s"] = {c.st->get_state_startindex(), c.st->get_state_afterindex()};
        if (c.ct) o["c"] = {c.ct->get_control_startindex(), c.ct->get_control_afterindex()};
        if (c.cn) o["q"] = {c.cn->get_constraint_startindex(), c.cn->get_constraint_afterindex()};
        e["comps"].push_back(o);
      }
      e["totals"] = json::array({json::array({p->get_state_startindex(), p->get_state_afterindex()}),
                                 json::array({p->get_control_startindex(), p->get_control_afterindex()}),
                                 json::array({p->get_constraint_startindex(), p->get_constraint_afterindex()})});
      return e;
    }
    // a vector from {"id": [values]}: which = 0 states, 1 controls
    VectorXd vec(json const &by, int which) const {
      VectorXd v = VectorXd::Zero(which == 0 ? ns : nc);
      for (auto const &c : comps) {
        if (!by.contains(c.id)) continue;
        Index a = -1, b = -1;
        if (which == 0 && c.st) a = c.st->get_state_startindex(), b = c.st->get_state_afterindex();
        if (which == 1 && c.ct) a = c.ct->get_control_startindex(), b = c.ct->get_control_afterindex();
        VectorXd w = V(by[c.id]);
        for (Index k = 0; k < w.size() && a + k < b; ++k) v[a + k] = w[k];
      }
      return v;
    }
    VectorXd F(double t0, double t1, VectorXd const &last, VectorXd const &neu, VectorXd const &ctl, double fill = 0) const {
      VectorXd r = VectorXd::Constant(ns, fill);
      p->evaluate(r, t0, t1, last, neu, ctl);
      return r;
    }
    json current() const {
      json o = json::object();
      for (auto const &c : comps)
        if (c.sto) o[c.id] = {F_(c.sto->get_current_P()), F_(c.sto->get_current_Q())};
      return o;
    }
    static json F_(double x) { return vh::F(x); }
  };
  [[maybe_unused]] Aux::InterpolatingVector series(std::vector<double> const &t, Index w) {
    VectorXd pts(static_cast<Index>(t.size()));
    for (size_t k = 0; k != t.size(); ++k) pts[static_cast<Index>(k)] = t[k];
    return Aux::InterpolatingVector(pts, w);
  }
  [[maybe_unused]] json listing(json const &out) {
    json l = json::array();
    for (auto const &[cls, byType] : out.items())
      for (auto const &[type, list] : byType.items())
        for (auto const &c : list) {
          json o = tla(c);
          o["cls"] = cls;
          o["type"] = type;
          l.push_back(o);
        }
    return l;
  }
  [[maybe_unused]] json save(Net &n, std::vector<double> const &times, std::vector<VectorXd> const &states) {
    for (size_t k = 0; k != times.size(); ++k) n.p->json_save(times[k], states[k]);
    json out = json::object();
    n.p->add_results_to_json(out);
    return tla(out);
  }
} // namespace

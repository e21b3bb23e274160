#include "common.hpp"
#include "InterpolatingVector.hpp"
#include "make_schema.hpp"
#include <memory>
using namespace vh;
namespace {
  using Aux::InterpolatingVector;
  using Base = Aux::InterpolatingVector_Base;
  struct Slot {
    std::string kind = "none";
    std::unique_ptr<Base> p;
  };
  void interp(json const &sc, Log &log) {
    std::vector<Slot> slots(4);
    std::vector<std::vector<double>> mem(3, std::vector<double>(6));
    for (size_t m = 1; m <= 2; ++m)
      for (size_t k = 0; k != 6; ++k) mem[m][k] = double(k + 1 + 10 * m);
    auto project = [&](json &e) {
      e["mem"] = json::array({FV(mem[1]), FV(mem[2])});
      e["objs"] = json::array();
      for (size_t s = 1; s <= 3; ++s) {
        json o = {{"kind", slots[s].kind}};
        if (slots[s].p) {
          Base const &b = *slots[s].p;
          o["w"] = b.get_inner_length();
          o["n"] = b.size();
          o["total"] = b.get_total_number_of_values();
          o["pts"] = FV(Eigen::VectorXd(b.get_interpolation_points()));
          o["vals"] = FV(Eigen::VectorXd(b.get_allvalues()));
        }
        e["objs"].push_back(o);
      }
    };
    json st;
    project(st);
    log.ev("Start", st);
    for (auto const &op : sc["ops"]) {
      auto name = op["op"].get<std::string>();
      auto si = op["slot"].get<size_t>();
      Slot &s = slots[si];
      json e = tla(op);
      if (e.contains("mem")) {
        e["mem0"] = e["mem"];
        e.erase("mem");
      }
      e["val"] = json::array();
      int variant = sc.value("variant", 0);
      auto pv = [&]() { return SV(op["pts"]); };
      Slot *src = op.contains("src") ? &slots[op["src"].get<size_t>()] : nullptr;
      bool ok = attempt([&]() {
        if (name == "NewOwn") {
          std::unique_ptr<InterpolatingVector> q;
          if (variant == 1)
            q = std::make_unique<InterpolatingVector>(V(op["pts"]), op["w"].get<int>());
          else
            q = std::make_unique<InterpolatingVector>(pv(), op["w"].get<int>());
          q->set_values_in_bulk(V(op["vals"]));
          s.p = std::move(q);
          s.kind = "own";
        } else if (name == "FromJson") {
          auto p = pv();
          auto v = SV(op["vals"]);
          auto w = op["w"].get<size_t>();
          json data = json::array();
          auto key = variant == 1 ? "x" : "time";
          for (size_t i = 0; i != p.size(); ++i) {
            data.push_back({{key, p[i]}, {"values", std::vector<double>(v.begin() + static_cast<long>(i * w), v.begin() + static_cast<long>((i + 1) * w))}});
          }
          json j = {{"id", "c"}, {"data", data}};
          auto schema = variant == 1 ? Aux::schema::make_initial_schema(std::nullopt, int(w), {})
                                     : Aux::schema::make_boundary_schema(int(w));
          s.p = std::make_unique<InterpolatingVector>(InterpolatingVector::construct_from_json(j, schema));
          s.kind = "own";
        } else if (name == "NewMap") {
          auto &m = mem[op["mem"].get<size_t>()];
          std::unique_ptr<Base> q;
          int n = op["n"], w = op["w"];
          if (op["mk"] == "map") {
            if (variant == 1)
              q = std::make_unique<Aux::MappedInterpolatingVector>(V(op["pts"]), w, m.data(), n);
            else
              q = std::make_unique<Aux::MappedInterpolatingVector>(pv(), w, m.data(), n);
          } else {
            if (variant == 1)
              q = std::make_unique<Aux::ConstMappedInterpolatingVector>(V(op["pts"]), w, m.data(), n);
            else
              q = std::make_unique<Aux::ConstMappedInterpolatingVector>(pv(), w, m.data(), n);
          }
          s.p = std::move(q);
          s.kind = op["mk"];
        } else if (name == "SetRow") {
          s.p->mut_timestep(op["i"].get<int>()) = V(op["row"]);
        } else if (name == "GetRow") {
          e["val"] = FV(Eigen::VectorXd(s.p->vector_at_index(op["i"].get<int>())));
          e["pt"] = F(s.p->interpolation_point_at_index(op["i"].get<int>()));
        } else if (name == "Bulk") {
          s.p->set_values_in_bulk(V(op["vals"]));
        } else if (name == "Zero") {
          s.p->setZero();
        } else if (name == "Push") {
          s.p->push_to_index(op["i"].get<int>(), D(op["t"]), V(op["row"]));
        } else if (name == "Eval") {
          e["val"] = FV((*s.p)(D(op["t"])));
        } else if (name == "Assign") {
          if (s.kind == "own") {
            auto &d = static_cast<InterpolatingVector &>(*s.p);
            if (variant == 1 and src->kind == "own") {
              d = static_cast<InterpolatingVector const &>(*src->p);
            } else {
              d = static_cast<Base const &>(*src->p);
            }
          } else {
            auto &d = static_cast<Aux::MappedInterpolatingVector &>(*s.p);
            if (variant == 1 and src->kind == "map")
              d = static_cast<Aux::MappedInterpolatingVector const &>(*src->p);
            else
              d = static_cast<Base const &>(*src->p);
          }
        } else if (name == "AssignBase") {
          static_cast<Base &>(*s.p) = static_cast<Base const &>(*src->p);
        } else if (name == "CopyNew") {
          if (variant == 1 and src->kind == "own")
            s.p = std::make_unique<InterpolatingVector>(static_cast<InterpolatingVector const &>(*src->p));
          else
            s.p = std::make_unique<InterpolatingVector>(static_cast<Base const &>(*src->p));
          s.kind = "own";
        } else if (name == "Move") {
          auto &from = static_cast<InterpolatingVector &>(*src->p);
          if (s.kind == "own")
            static_cast<InterpolatingVector &>(*s.p) = std::move(from);
          else
            s.p = std::make_unique<InterpolatingVector>(std::move(from));
          s.kind = "own";
          src->p.reset();
          src->kind = "none";
        } else if (name == "InterpolateFrom") {
          if (variant == 1 and s.kind == "own") {
            Eigen::VectorXd p = s.p->get_interpolation_points();
            static_cast<InterpolatingVector &>(*s.p) = InterpolatingVector::construct_and_interpolate_from(
                p, s.p->get_inner_length(), *src->p);
          } else {
            s.p->interpolate_from(*src->p);
          }
        } else if (name == "Equal") {
          e["val"] = (*s.p == *src->p);
          e["neg"] = not(*s.p != *src->p);
        } else if (name == "Remap") {
          static_cast<Aux::ConstMappedInterpolatingVector &>(*s.p).reset_values(
              mem[op["mem"].get<size_t>()].data(), op["n"].get<int>());
        }
      });
      e["ok"] = ok;
      project(e);
      log.ev("Op", e);
    }
  }
  Register r("interp", interp);
} // namespace

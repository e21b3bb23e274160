#include "ConstraintJacobian.hpp"
#include "common.hpp"
#include <memory>
using namespace vh;
namespace {
  using namespace Optimization;
  struct Slot {
    std::string kind = "none";
    std::unique_ptr<ConstraintJacobian_Base> p;
    bool null = false;
    int gts = 0;
  };
  void jac(json const &sc, Log &log) {
    std::vector<Slot> slots(4);
    std::vector<std::vector<double>> mem(3, std::vector<double>(sc.value("memsize", 60)));
    for (size_t m = 1; m <= 2; ++m)
      for (size_t k = 0; k != mem[m].size(); ++k) mem[m][k] = double(k + 1 + 100 * m);
    auto project = [&](json &e) {
      e["mem"] = json::array({FV(mem[1]), FV(mem[2])});
      e["objs"] = json::array();
      for (size_t s = 1; s <= 3; ++s) {
        json o = {{"kind", slots[s].kind}};
        if (slots[s].p) {
          ConstraintJacobian_Base const &b = *slots[s].p;
          Eigen::VectorX<Ipopt::Index> r(b.nonZeros()), c(b.nonZeros());
          r.setConstant(-7);
          c.setConstant(-7);
          b.supply_indices(r, c);
          o["idx"] = json::array();
          for (Eigen::Index k = 0; k != r.size(); ++k) o["idx"].push_back({r[k], c[k]});
          o["h"] = b.get_block_height();
          o["w"] = b.get_block_width();
          o["inner"] = {b.get_inner_height(), b.get_inner_width()};
          o["outer"] = {b.get_outer_height(), b.get_outer_width()};
          json vals = json::array(), dense = json::array(), blocks = json::array();
          o["readable"] = attempt([&]() {
            dense = FM(b.whole_matrix());
            vals = FV(Eigen::VectorXd(b.get_allvalues()));
            for (Eigen::Index j = 0; j != b.get_outer_width(); ++j) {
              Eigen::MatrixXd m = b.get_column_block(j);
              blocks.push_back({{"first", b.get_inner_rowstart(j)}, {"rows", FM(m)}});
            }
          });
          o["vals"] = vals;
          o["dense"] = dense;
          o["blocks"] = blocks;
        }
        e["objs"].push_back(o);
      }
    };
    json st;
    project(st);
    log.ev("Start", st);
    for (auto const &op : sc["ops"]) {
      auto name = op["op"].get<std::string>();
      if (name == "End") break;
      Slot &s = slots[op["slot"].get<size_t>()];
      json e = tla(op);
      e["val"] = false;
      e["neg"] = true;
      Slot *src = op.contains("src") ? &slots[op["src"].get<size_t>()] : nullptr;
      bool ok = attempt([&]() {
        if (name == "New") {
          auto h = op["h"].get<int>(), w = op["w"].get<int>();
          auto gt = V(op["gt"]), ct = V(op["ct"]);
          if (op["kind"] == "own") {
            auto q = std::make_unique<ConstraintJacobian>(h, w, gt, ct);
            q->setZero();
            s.p = std::move(q);
          } else {
            auto m = op["m"].get<size_t>();
            ConstraintJacobian probe(h, w, gt, ct);
            s.p = std::make_unique<MappedConstraintJacobian>(
                m ? mem[m].data() : nullptr, probe.nonZeros(), h, w, gt, ct);
          }
          s.kind = op["kind"];
        } else if (name == "Fill") {
          if (op["x"] == "0")
            s.p->setZero();
          else
            s.p->setOnes();
        } else if (name == "Block") {
          auto j = op["j"].get<Eigen::Index>() - 1;
          auto block = s.p->get_column_block(j);
          auto n = static_cast<Eigen::Index>(op["mat"].size());
          Eigen::MatrixXd m(n, s.p->get_block_width());
          for (Eigen::Index r = 0; r != n; ++r) m.row(r) = V(op["mat"][static_cast<size_t>(r)]).transpose();
          if (op["mode"] == "set")
            block.middleRows(op["r0"].get<Eigen::Index>(), n) = m;
          else
            block.middleRows(op["r0"].get<Eigen::Index>(), n) += m;
        } else if (name == "Assign") {
          if (s.kind == "own") {
            auto &d = static_cast<ConstraintJacobian &>(*s.p);
            if (src->kind == "own")
              d = static_cast<ConstraintJacobian const &>(*src->p);
            else
              d = static_cast<MappedConstraintJacobian const &>(*src->p);
          } else {
            auto &d = static_cast<MappedConstraintJacobian &>(*s.p);
            if (src->kind == "own")
              d = static_cast<ConstraintJacobian const &>(*src->p);
            else
              d = static_cast<MappedConstraintJacobian const &>(*src->p);
          }
        } else if (name == "CopyNew") {
          std::unique_ptr<ConstraintJacobian> q;
          if (src->kind == "own" and sc.value("variant", 0))
            q = std::make_unique<ConstraintJacobian>(static_cast<ConstraintJacobian const &>(*src->p));
          else
            q = std::make_unique<ConstraintJacobian>(static_cast<ConstraintJacobian_Base const &>(*src->p));
          s.p = std::move(q);
          s.kind = "own";
        } else if (name == "Equal") {
          e["val"] = (*s.p == *src->p);
          e["neg"] = (*s.p != *src->p);
        } else if (name == "Replace") {
          auto m = op["m"].get<size_t>();
          auto &d = static_cast<MappedConstraintJacobian &>(*s.p);
          d.replace_storage(m ? mem[m].data() : nullptr, d.nonZeros());
        }
      });
      e["ok"] = ok;
      project(e);
      log.ev("Op", e);
    }
  }
  Register r("jacobian", jac);
} // namespace

// Normal samples and the substeps of a mean-reverting walk.
#include "Normaldistribution.hpp"
#include "Stochastic.hpp"
#include "common.hpp"
using namespace vh;
namespace {
  using Seed = std::array<uint32_t, Aux::pcg_seed_count>;
  // hands out given standard normal samples and remembers what was asked for
  struct Scripted {
    std::vector<double> z;
    size_t next = 0;
    std::vector<double> asked;
    double get_sample(double sd) {
      asked.push_back(sd);
      return (next < z.size() ? z[next++] : 0.0) * sd;
    }
    double get_sample(double mean, double sd) { return mean + get_sample(sd); }
  };
  void walk(json const &sc, Log &log) {
    for (auto const &c : sc["calls"]) {
      double a = D(c["a"]), cut = D(c["c"]), v = D(c["v"]), theta = D(c["theta"]), mu = D(c["mu"]), dt = D(c["dt"]), sigma = D(c["sigma"]);
      int N = c["N"];
      json e = tla(c);
      for (auto const &k : {"a", "c", "v", "theta", "mu", "dt", "sigma"}) e[k] = F(D(c[k]));
      int n = -1;
      e["ok"] = attempt([&]() { n = Aux::compute_stable_number_of_oup_steps(a, theta, dt, N); });
      e["n"] = n;
      Scripted dist{SV(c["z"]), 0, {}};
      double r = 0;
      e["walked"] = attempt([&]() { r = Aux::euler_maruyama_oup(a, cut, v, theta, mu, dt, sigma, dist, N); });
      e["r"] = F(r);
      e["asked"] = FV(dist.asked);
      log.ev("Walk", e);
    }
  }
  Register r1("walk", walk);
  json words(Seed const &s) {
    json a = json::array();
    for (auto x : s) a.push_back(std::to_string(x));
    return a;
  }
  void samples(json const &sc, Log &log) {
    json e;
    Seed seed{}, used{}, used2{};
    bool given = sc["given"];
    auto n = sc["n"].get<int>();
    if (given) seed = sc["seed"].get<Seed>();
    auto make = [&]() { return given ? Aux::Normaldistribution(used, seed) : Aux::Normaldistribution(used); };
    auto A = make();
    e["given"] = given;
    e["seed"] = words(given ? seed : used);
    e["used"] = words(used);
    Aux::Normaldistribution B(used2, used);
    e["used2"] = words(used2);
    // another stream: some word of the seed differs, or another random seed
    Seed other = used, used3{};
    if (given) other[sc["word"].get<size_t>()] ^= sc["flip"].get<uint32_t>();
    auto C = given ? Aux::Normaldistribution(used3, other) : Aux::Normaldistribution(used3);
    e["z"] = e["c"] = json::array();
    for (int k = 0; k != n; ++k) e["z"].push_back(F(A.get_sample(1.0)));
    e["b"] = json::array();
    for (auto const &q : sc["asks"]) {
      double m = D(q[0]), sd = D(q[1]);
      e["b"].push_back({{"m", F(m)}, {"sd", F(sd)}, {"x", F(q[2].get<bool>() ? B.get_sample(m, sd) : B.get_sample(sd))}, {"centred", !q[2].get<bool>()}});
      e["c"].push_back(F(C.get_sample(1.0)));
    }
    log.ev("Samples", e);
    Seed u{};
    Aux::Truncatednormaldist T(u, used);
    Seed u2{};
    Aux::Truncatednormaldist full(u2, used); // the same stream, with everything said
    json t;
    t["used"] = words(u);
    t["seed"] = words(used);
    t["asks"] = json::array();
    for (auto const &q : sc["truncated"]) {
      double m = D(q[0]), sd = D(q[1]), lo = D(q[2]), hi = D(q[3]), x = 0;
      int how = q[4];
      bool ok = attempt([&]() {
        x = how == 0 ? T.get_sample(m, sd, lo, hi) : how == 1 ? T.get_sample(m, sd) : how == 2 ? T.get_sample(sd, lo, hi) : T.get_sample(sd);
      });
      double y = 0, c = how > 1 ? 0 : m;
      bool own = how == 0 || how == 2;
      bool ok2 = attempt([&]() { y = full.get_sample(c, sd, own ? lo : c - 2 * sd, own ? hi : c + 2 * sd); });
      t["asks"].push_back({{"ok2", ok2}, {"y", F(y)}, {"m", F(how > 1 ? 0 : m)}, {"sd", F(sd)}, {"lo", F(lo)}, {"hi", F(hi)}, {"own", how == 0 || how == 2}, {"ok", ok}, {"x", F(x)}});
    }
    log.ev("Truncated", t);
  }
  Register r2("samples", samples);
} // namespace

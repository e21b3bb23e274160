// Measurements converted to SI.
#include "common.hpp"
#include "unit_conversion.hpp"
using namespace vh;
namespace {
  void units(json const &sc, Log &log) {
    using namespace Aux::unit;
    std::map<std::string, Measure const *> m{{"length", &length}, {"area", &area}, {"volume", &volume}, {"pressure", &pressure},
                                             {"frequency", &frequency}, {"force", &force}, {"power", &power}, {"mass", &mass},
                                             {"volume_flux", &volume_flux}, {"temperature", &temperature}};
    for (auto const &c : sc["cases"]) {
      json e;
      double got = 0;
      e["measure"] = c["measure"];
      e["shape"] = c["shape"];
      e["value"] = c["json"].contains("value") && c["json"]["value"].is_number() ? F(c["json"]["value"].get<double>()) : json("<none>");
      e["unit"] = c["json"].contains("unit") && c["json"]["unit"].is_string() ? c["json"]["unit"] : json("<none>");
      e["ok"] = attempt([&]() { got = m.at(c["measure"])->parse_to_si(c["json"]); });
      e["got"] = F(got);
      log.ev("Convert", e);
    }
  }
  Register r("units", units);
} // namespace

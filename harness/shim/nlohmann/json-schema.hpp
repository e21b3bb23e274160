// A small stand-in for pboettch/json-schema-validator (an empty submodule in
// this sandbox): the part of draft 7 that grazer's schemas use, behind the
// interface that src/Auxillary/json_schema/schema_validation.cpp calls.
// Supported keywords: type, enum, const, required, properties,
// additionalProperties, items (single schema), minItems, maxItems, contains,
// minimum, maximum, exclusiveMinimum, exclusiveMaximum, pattern, allOf, anyOf,
// oneOf, not, default (ignored by validation, as in the original).
#pragma once
#include <cmath>
#include <nlohmann/json.hpp>
#include <regex>
#include <stdexcept>
#include <string>
namespace nlohmann::json_schema {
  class error_handler {
  public:
    virtual ~error_handler() {}
    virtual void error(
        const json::json_pointer &, const json &, const std::string &)
        = 0;
  };
  class json_validator {
    json root;
    static void check_schema(json const &s) {
      if (s.is_boolean()) { return; }
      if (!s.is_object()) {
        throw std::invalid_argument("schema is neither object nor boolean");
      }
      if (s.contains("$ref")) {
        throw std::invalid_argument("$ref is not supported");
      }
      if (s.contains("properties")) {
        if (!s["properties"].is_object()) {
          throw std::invalid_argument("properties is no object");
        }
        for (auto const &p : s["properties"]) { check_schema(p); }
      }
      for (auto const &k : {"items", "additionalProperties", "contains", "not"})
        if (s.contains(k)) { check_schema(s[k]); }
      for (auto const &k : {"allOf", "anyOf", "oneOf"})
        if (s.contains(k)) {
          for (auto const &p : s[k]) { check_schema(p); }
        }
      if (s.contains("required") && !s["required"].is_array()) {
        throw std::invalid_argument("required is no array");
      }
      if (s.contains("pattern")) {
        std::regex r(s["pattern"].get<std::string>(), std::regex::ECMAScript);
      }
    }
    static bool is_type(json const &d, std::string const &t) {
      if (t == "object") return d.is_object();
      if (t == "array") return d.is_array();
      if (t == "string") return d.is_string();
      if (t == "boolean") return d.is_boolean();
      if (t == "null") return d.is_null();
      if (t == "number") return d.is_number();
      if (t == "integer")
        return d.is_number_integer()
               || (d.is_number_float()
                   && std::floor(d.get<double>()) == d.get<double>());
      throw std::invalid_argument("unknown type " + t);
    }
    struct silent : error_handler {
      bool failed = false;
      void error(
          const json::json_pointer &, const json &,
          const std::string &) override {
        failed = true;
      }
    };
    static bool
    ok(json const &s, json const &d, json::json_pointer const &p) {
      silent h;
      check(s, d, p, h);
      return !h.failed;
    }
    static void check(
        json const &s, json const &d, json::json_pointer const &p,
        error_handler &h) {
      if (s.is_boolean()) {
        if (!s.get<bool>()) { h.error(p, d, "false schema"); }
        return;
      }
      if (s.contains("type")) {
        bool found = false;
        if (s["type"].is_array()) {
          for (auto const &t : s["type"])
            found = found || is_type(d, t.get<std::string>());
        } else {
          found = is_type(d, s["type"].get<std::string>());
        }
        if (!found) {
          h.error(p, d, "unexpected instance type");
          return;
        }
      }
      if (s.contains("enum")) {
        bool found = false;
        for (auto const &e : s["enum"]) found = found || e == d;
        if (!found) h.error(p, d, "not in enum");
      }
      if (s.contains("const") && s["const"] != d) h.error(p, d, "not const");
      for (auto const &sub : s.value("allOf", json::array())) {
        if (!ok(sub, d, p)) h.error(p, d, "at least one allOf failed");
      }
      if (s.contains("anyOf")) {
        bool found = false;
        for (auto const &sub : s["anyOf"]) found = found || ok(sub, d, p);
        if (!found) h.error(p, d, "no anyOf matched");
      }
      if (s.contains("oneOf")) {
        int n = 0;
        for (auto const &sub : s["oneOf"]) n += ok(sub, d, p) ? 1 : 0;
        if (n != 1) h.error(p, d, "not exactly one oneOf matched");
      }
      if (s.contains("not") && ok(s["not"], d, p)) h.error(p, d, "not failed");
      if (d.is_number()) {
        double x = d.get<double>();
        if (s.contains("minimum") && x < s["minimum"].get<double>())
          h.error(p, d, "below minimum");
        if (s.contains("maximum") && x > s["maximum"].get<double>())
          h.error(p, d, "above maximum");
        if (s.contains("exclusiveMinimum")
            && x <= s["exclusiveMinimum"].get<double>())
          h.error(p, d, "below exclusive minimum");
        if (s.contains("exclusiveMaximum")
            && x >= s["exclusiveMaximum"].get<double>())
          h.error(p, d, "above exclusive maximum");
      }
      if (d.is_string() && s.contains("pattern")) {
        std::regex r(s["pattern"].get<std::string>(), std::regex::ECMAScript);
        if (!std::regex_search(d.get<std::string>(), r))
          h.error(p, d, "pattern not matched");
      }
      if (d.is_array()) {
        if (s.contains("minItems") && d.size() < s["minItems"].get<size_t>())
          h.error(p, d, "too few items");
        if (s.contains("maxItems") && d.size() > s["maxItems"].get<size_t>())
          h.error(p, d, "too many items");
        if (s.contains("items"))
          for (size_t i = 0; i != d.size(); ++i)
            check(s["items"], d[i], p / i, h);
        if (s.contains("contains")) {
          bool found = false;
          for (auto const &e : d) found = found || ok(s["contains"], e, p);
          if (!found) h.error(p, d, "contains not fulfilled");
        }
      }
      if (d.is_object()) {
        for (auto const &r : s.value("required", json::array()))
          if (!d.contains(r.get<std::string>()))
            h.error(
                p, d,
                "required property '" + r.get<std::string>() + "' missing");
        auto props = s.value("properties", json::object());
        for (auto const &[k, v] : d.items()) {
          if (props.contains(k)) {
            check(props[k], v, p / k, h);
          } else if (s.contains("additionalProperties")) {
            check(s["additionalProperties"], v, p / k, h);
          }
        }
      }
    }

  public:
    void set_root_schema(json const &s) {
      check_schema(s);
      root = s;
    }
    json validate(json const &d, error_handler &h) const {
      check(root, d, json::json_pointer(""), h);
      return json::array();
    }
  };
} // namespace nlohmann::json_schema

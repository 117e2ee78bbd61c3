// Stand-in for pboettch/json-schema-validator (absent from this sandbox).
// Offers the part of its interface that grazer uses and implements the
// draft-07 keywords with the semantics of the specification.
#pragma once
#include <cmath>
#include <nlohmann/json.hpp>
#include <regex>
#include <stdexcept>
#include <string>

namespace nlohmann {
  namespace json_schema {

    class error_handler {
    public:
      virtual ~error_handler() = default;
      virtual void error(
          json::json_pointer const &ptr, json const &instance,
          std::string const &message)
          = 0;
    };

    class json_validator {
      json root;

      class counting : public error_handler {
      public:
        int errors = 0;
        void error(
            json::json_pointer const &, json const &,
            std::string const &) final {
          ++errors;
        }
      };

      static bool has_type(json const &v, std::string const &t) {
        if (t == "object")
          return v.is_object();
        if (t == "array")
          return v.is_array();
        if (t == "string")
          return v.is_string();
        if (t == "boolean")
          return v.is_boolean();
        if (t == "null")
          return v.is_null();
        if (t == "number")
          return v.is_number();
        if (t == "integer")
          return v.is_number_integer()
                 or (v.is_number_float()
                     and v.get<double>() == std::floor(v.get<double>()));
        throw std::invalid_argument("schema: unknown type " + t);
      }

      void check(
          json const &s, json const &v, json::json_pointer const &p,
          error_handler &e) const {
        if (s.is_boolean()) {
          if (not s.get<bool>())
            e.error(p, v, "instance invalid as per false-schema");
          return;
        }
        if (not s.is_object())
          throw std::invalid_argument(
              "invalid JSON-type for a schema for " + p.to_string());
        if (s.contains("$ref")) {
          auto ref = s.at("$ref").get<std::string>();
          if (ref.empty() or ref[0] != '#')
            throw std::invalid_argument("schema: only local refs supported");
          check(root.at(json::json_pointer(ref.substr(1))), v, p, e);
          return;
        }
        if (s.contains("type")) {
          auto const &t = s.at("type");
          bool ok = false;
          if (t.is_array()) {
            for (auto const &x : t)
              ok = ok or has_type(v, x.get<std::string>());
          } else
            ok = has_type(v, t.get<std::string>());
          if (not ok)
            e.error(p, v, "unexpected instance type");
        }
        if (s.contains("enum")) {
          bool ok = false;
          for (auto const &x : s.at("enum"))
            ok = ok or x == v;
          if (not ok)
            e.error(p, v, "instance not found in required enum");
        }
        if (s.contains("const") and s.at("const") != v)
          e.error(p, v, "instance not const");
        for (auto k : {"allOf", "anyOf", "oneOf"}) {
          if (not s.contains(k))
            continue;
          int good = 0, all = 0;
          for (auto const &sub : s.at(k)) {
            counting c;
            check(sub, v, p, c);
            ++all;
            good += c.errors == 0;
          }
          std::string key = k;
          if ((key == "allOf" and good != all) or (key == "anyOf" and good == 0)
              or (key == "oneOf" and good != 1))
            e.error(p, v, "combination " + key + " failed");
        }
        if (s.contains("not")) {
          counting c;
          check(s.at("not"), v, p, c);
          if (c.errors == 0)
            e.error(p, v, "the subschema has succeeded, but it is required to not validate");
        }
        if (v.is_number()) {
          double x = v.get<double>();
          if (s.contains("minimum") and x < s.at("minimum").get<double>())
            e.error(p, v, "instance is below minimum");
          if (s.contains("maximum") and x > s.at("maximum").get<double>())
            e.error(p, v, "instance exceeds maximum");
          if (s.contains("exclusiveMinimum")
              and x <= s.at("exclusiveMinimum").get<double>())
            e.error(p, v, "instance is below or equals exclusive minimum");
          if (s.contains("exclusiveMaximum")
              and x >= s.at("exclusiveMaximum").get<double>())
            e.error(p, v, "instance exceeds or equals exclusive maximum");
          if (s.contains("multipleOf")) {
            double m = s.at("multipleOf").get<double>();
            if (std::remainder(x, m) != 0)
              e.error(p, v, "instance is not a multiple");
          }
        }
        if (v.is_string()) {
          auto str = v.get<std::string>();
          if (s.contains("minLength")
              and str.size() < s.at("minLength").get<std::size_t>())
            e.error(p, v, "instance is too short");
          if (s.contains("maxLength")
              and str.size() > s.at("maxLength").get<std::size_t>())
            e.error(p, v, "instance is too long");
          if (s.contains("pattern")) {
            std::regex r(
                s.at("pattern").get<std::string>(), std::regex::ECMAScript);
            if (not std::regex_search(str, r))
              e.error(p, v, "instance does not match regex pattern");
          }
        }
        if (v.is_array()) {
          if (s.contains("minItems")
              and v.size() < s.at("minItems").get<std::size_t>())
            e.error(p, v, "array has too few items");
          if (s.contains("maxItems")
              and v.size() > s.at("maxItems").get<std::size_t>())
            e.error(p, v, "array has too many items");
          if (s.contains("uniqueItems") and s.at("uniqueItems").get<bool>()) {
            for (std::size_t i = 0; i < v.size(); ++i)
              for (std::size_t j = 0; j < i; ++j)
                if (v[i] == v[j])
                  e.error(p, v, "items have to be unique for this array");
          }
          if (s.contains("items")) {
            auto const &it = s.at("items");
            for (std::size_t i = 0; i < v.size(); ++i) {
              if (it.is_array()) {
                if (i < it.size())
                  check(it[i], v[i], p / i, e);
                else if (s.contains("additionalItems"))
                  check(s.at("additionalItems"), v[i], p / i, e);
              } else
                check(it, v[i], p / i, e);
            }
          }
          if (s.contains("contains")) {
            bool found = false;
            for (auto const &x : v) {
              counting c;
              check(s.at("contains"), x, p, c);
              found = found or c.errors == 0;
            }
            if (not found)
              e.error(p, v, "array does not contain required element as per 'contains'");
          }
        }
        if (v.is_object()) {
          if (s.contains("required"))
            for (auto const &r : s.at("required"))
              if (not v.contains(r.get<std::string>()))
                e.error(
                    p, v,
                    "required property '" + r.get<std::string>()
                        + "' not found in object");
          if (s.contains("minProperties")
              and v.size() < s.at("minProperties").get<std::size_t>())
            e.error(p, v, "too few properties");
          if (s.contains("maxProperties")
              and v.size() > s.at("maxProperties").get<std::size_t>())
            e.error(p, v, "too many properties");
          for (auto const &item : v.items()) {
            bool seen = false;
            if (s.contains("propertyNames"))
              check(s.at("propertyNames"), json(item.key()), p, e);
            if (s.contains("properties")
                and s.at("properties").contains(item.key())) {
              seen = true;
              check(
                  s.at("properties").at(item.key()), item.value(),
                  p / item.key(), e);
            }
            if (s.contains("patternProperties"))
              for (auto const &pp : s.at("patternProperties").items()) {
                std::regex r(pp.key(), std::regex::ECMAScript);
                if (std::regex_search(item.key(), r)) {
                  seen = true;
                  check(pp.value(), item.value(), p / item.key(), e);
                }
              }
            if (not seen and s.contains("additionalProperties")) {
              counting c;
              check(
                  s.at("additionalProperties"), item.value(), p / item.key(),
                  c);
              if (c.errors)
                e.error(
                    p, v,
                    "validation failed for additional property '" + item.key()
                        + "'");
            }
          }
        }
      }

    public:
      json_validator() = default;
      void set_root_schema(json const &schema) {
        if (not schema.is_object() and not schema.is_boolean())
          throw std::invalid_argument(
              "invalid JSON-type for a schema, expected: boolean or object");
        root = schema;
      }
      void validate(json const &instance, error_handler &err) const {
        check(root, instance, json::json_pointer(), err);
      }
    };
  } // namespace json_schema
} // namespace nlohmann

// Library level operations of grazer behind a line protocol.
#include "serve.hpp"

#include "Aux_json.hpp"
#include "Compressorstation.hpp"
#include "Controlcomponent.hpp"
#include "Exception.hpp"
#include "Input_output.hpp"
#include "InterpolatingVector.hpp"
#include "Isothermaleulerequation.hpp"
#include "Matrixhandler.hpp"
#include "Newtonsolver.hpp"
#include "Normaldistribution.hpp"
#include "Pipe.hpp"
#include "Source.hpp"
#include "Stochastic.hpp"
#include "Timedata.hpp"
#include "Vphinode.hpp"
#include "unit_conversion.hpp"

#include <array>
#include <cmath>
#include <ctime>
#include <limits>
#include <memory>
#include <sys/syscall.h>
#include <time.h>

using verif::json;

// ---------------------------------------------------------------- the clock
static bool fake_clock = false;
static long long fake_ns = 0;

extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
  if (fake_clock and id == CLOCK_REALTIME) {
    ts->tv_sec = fake_ns / 1000000000LL;
    ts->tv_nsec = fake_ns % 1000000000LL;
    return 0;
  }
  return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}

// ------------------------------------------------------------------ helpers
static double num(json const &j) {
  if (j.is_string()) {
    std::string s = j;
    if (s == "inf") {
      return std::numeric_limits<double>::infinity();
    }
    if (s == "-inf") {
      return -std::numeric_limits<double>::infinity();
    }
    return std::nan("");
  }
  return j.get<double>();
}

static json out(double x) {
  if (std::isnan(x)) {
    return "nan";
  }
  if (std::isinf(x)) {
    return x > 0 ? "inf" : "-inf";
  }
  return x;
}

static Eigen::VectorXd vec(json const &j) {
  Eigen::VectorXd v(static_cast<Eigen::Index>(j.size()));
  for (size_t i = 0; i != j.size(); ++i) {
    v[static_cast<Eigen::Index>(i)] = num(j[i]);
  }
  return v;
}

static json arr(Eigen::Ref<Eigen::VectorXd const> const &v) {
  json a = json::array();
  for (Eigen::Index i = 0; i != v.size(); ++i) {
    a.push_back(out(v[i]));
  }
  return a;
}

// ---------------------------------------------------------------------- C14
static json op_unit(json const &q) {
  using namespace Aux::unit;
  std::map<std::string, Measure const *> all
      = {{"length", &length},       {"area", &area},
         {"volume", &volume},       {"pressure", &pressure},
         {"frequency", &frequency}, {"force", &force},
         {"power", &power},         {"mass", &mass},
         {"volume_flux", &volume_flux}, {"temperature", &temperature}};
  return {{"v", out(all.at(q["measure"])->parse_to_si(q["q"]))}};
}

// ---------------------------------------------------------------------- C23
static void describe(
    Aux::InterpolatingVector_Base const &iv, json const &q, json &r,
    std::string const &name) {
  json d;
  d["size"] = iv.size();
  d["inner"] = iv.get_inner_length();
  d["points"] = arr(iv.get_interpolation_points());
  d["all"] = arr(iv.get_allvalues());
  d["values"] = json::array();
  for (auto const &t : q["queries"]) {
    try {
      d["values"].push_back(arr(iv(num(t))));
    } catch (std::exception const &e) {
      d["values"].push_back("error");
    }
  }
  d["at"] = json::array();
  for (Eigen::Index i = -1; i <= iv.size(); ++i) {
    try {
      d["at"].push_back(arr(iv.vector_at_index(i)));
    } catch (std::exception const &e) {
      d["at"].push_back("error");
    }
  }
  r[name] = d;
}

static json op_series(json const &q) {
  json r;
  std::string kind = q["kind"];
  Aux::InterpolatingVector iv;
  Eigen::VectorXd values;
  if (kind == "json") {
    json schema;
    std::string what = q["schema"];
    if (what == "initial") {
      schema = Model::Gas::Pipe::get_initial_schema();
    } else if (what == "control") {
      schema = Model::Gas::Compressorstation::get_control_schema();
    } else if (what == "boundary1") {
      schema = Model::Gas::Source::get_boundary_schema();
    } else {
      schema = Model::Power::Vphinode::get_boundary_schema();
    }
    iv = Aux::InterpolatingVector::construct_from_json(q["data"], schema);
    values = iv.get_allvalues();
  } else {
    Eigen::Index inner = q["inner"];
    values = vec(q["values"]);
    if (kind == "points") {
      std::vector<double> pts;
      for (auto const &p : q["points"]) {
        pts.push_back(num(p));
      }
      iv = Aux::InterpolatingVector(pts, inner);
    } else {
      Aux::Interpolation_data d;
      if (kind == "delta_number") {
        d = Aux::make_from_start_delta_number(q["a"], q["delta"], q["n"]);
      } else if (kind == "delta_end") {
        d = Aux::make_from_start_delta_end(q["a"], q["delta"], q["b"]);
      } else {
        d = Aux::make_from_start_number_end(q["a"], q["b"], q["n"]);
      }
      if (d.number_of_entries > 100000) {
        return {{"large", d.number_of_entries}};
      }
      iv = Aux::InterpolatingVector(d, inner);
    }
    // too few or too many values are topped up or cut unless a wrong number
    // is what is to be tried
    if (not q.value("exact", false)) {
      Eigen::VectorXd w(iv.size() * inner);
      for (Eigen::Index i = 0; i != w.size(); ++i) {
        w[i] = values.size() ? values[i % values.size()]
                                   + static_cast<double>(i / values.size())
                             : 0.0;
      }
      values = w;
    }
    if (q["fill"] == "bulk") {
      iv.set_values_in_bulk(values);
    } else {
      for (Eigen::Index i = 0; i != iv.size(); ++i) {
        iv.mut_timestep(i) = values.segment(i * inner, inner);
      }
    }
  }
  describe(iv, q, r, "plain");
  r["given"] = arr(values);
  // the other ways to hold the same series
  std::vector<double> pts(
      iv.get_interpolation_points().begin(),
      iv.get_interpolation_points().end());
  Eigen::VectorXd store = Eigen::VectorXd::Constant(values.size(), 7.25);
  Aux::MappedInterpolatingVector mapped(
      pts, iv.get_inner_length(), store.data(), store.size());
  mapped = iv;
  r["stored"] = arr(store);
  describe(mapped, q, r, "mapped");
  Aux::ConstMappedInterpolatingVector cm(
      pts, iv.get_inner_length(), values.data(), values.size());
  describe(cm, q, r, "constmapped");
  Aux::InterpolatingVector copy(iv);
  describe(copy, q, r, "copy");
  Aux::InterpolatingVector moved(std::move(copy));
  describe(moved, q, r, "moved");
  Aux::InterpolatingVector from_base(
      static_cast<Aux::InterpolatingVector_Base const &>(mapped));
  describe(from_base, q, r, "from_base");
  r["equal"] = json::array(
      {iv == mapped, iv == cm, iv == moved, iv == from_base, mapped == cm});
  if (iv.size() > 0 and iv.get_inner_length() > 0) {
    Eigen::Index i = q.value("touch", 0) % iv.size();
    from_base.mut_timestep(i)[0] += 1.0;
    r["unequal"] = json::array({iv != from_base, from_base != mapped});
    describe(iv, q, r, "after");
  }
  if (q.contains("resample")) {
    // points of the new grid lie inside the old one
    Eigen::VectorXd np = vec(q["resample"]);
    auto res = Aux::InterpolatingVector::construct_and_interpolate_from(
        np, iv.get_inner_length(), iv);
    r["resampled"] = arr(res.get_allvalues());
  }
  return r;
}

static json op_timedata(json const &q) {
  Model::Timedata t(q["settings"]);
  return {
      {"start", out(t.get_starttime())},
      {"end", out(t.get_endtime())},
      {"delta", out(t.get_delta_t())},
      {"points", t.get_number_of_time_points()}};
}

// ---------------------------------------------------------------------- C24
static json op_euler(json const &q) {
  using E = Model::Balancelaw::Isothermaleulerequation;
  double d = q["d"];
  double k = q["k"];
  E e(json{
      {"diameter", {{"value", d}, {"unit", "m"}}},
      {"roughness", {{"value", k}, {"unit", "m"}}}});
  json r = json::array();
  for (auto const &c : q["calls"]) {
    std::string f = c[0];
    auto a = [&](size_t i) { return num(c[i]); };
    json v;
    try {
      if (f == "p") {
        v = out(e.p(a(1)));
      } else if (f == "dp") {
        v = out(e.dp_drho(a(1)));
      } else if (f == "rho") {
        v = out(e.rho(a(1)));
      } else if (f == "Re") {
        v = out(E::Reynolds(a(1), d));
      } else if (f == "dRe") {
        v = out(E::dReynolds_dq(a(1), d));
      } else if (f == "coeff") {
        v = out(E::coeff_of_Reynolds(d));
      } else if (f == "lambda") {
        v = out(E::lambda_non_laminar(a(1), d, k));
      } else if (f == "dlambda") {
        v = out(E::dlambda_non_laminar_dRe(a(1), d, k));
      } else if (f == "exact") {
        v = out(E::exact_turbulent_lambda(a(1), d, k));
      } else if (f == "sj") {
        v = out(E::Swamee_Jain(a(1), d, k));
      } else if (f == "dsj") {
        v = out(E::dSwamee_Jain_dRe(a(1), d, k));
      } else if (f == "source") {
        v = arr(e.source(Eigen::Vector2d(a(1), a(2))));
      } else if (f == "dsource") {
        Eigen::Matrix2d m = e.dsource_dstate(Eigen::Vector2d(a(1), a(2)));
        v = {out(m(0, 0)), out(m(0, 1)), out(m(1, 0)), out(m(1, 1))};
      } else if (f == "flux") {
        v = arr(e.flux(Eigen::Vector2d(a(1), a(2))));
      } else if (f == "dflux") {
        Eigen::Matrix2d m = e.dflux_dstate(Eigen::Vector2d(a(1), a(2)));
        v = {out(m(0, 0)), out(m(0, 1)), out(m(1, 0)), out(m(1, 1))};
      } else if (f == "state") {
        v = arr(e.state(Eigen::Vector2d(a(1), a(2))));
      } else if (f == "p_qvol") {
        v = arr(e.p_qvol(Eigen::Vector2d(a(1), a(2))));
      } else if (f == "bar") {
        v = arr(e.p_qvol_bar_from_p_qvol(Eigen::Vector2d(a(1), a(2))));
      } else if (f == "unbar") {
        v = arr(e.p_qvol_from_p_qvol_bar(Eigen::Vector2d(a(1), a(2))));
      } else {
        v = "unknown";
      }
    } catch (std::exception const &ex) {
      v = "error";
    }
    r.push_back(v);
  }
  return {{"r", r}};
}

// ---------------------------------------------------------------------- C25
using Seed = std::array<uint32_t, Aux::pcg_seed_count>;

static Seed seed_of(json const &j) {
  Seed s;
  for (size_t i = 0; i != s.size(); ++i) {
    s[i] = j[i].get<uint32_t>();
  }
  return s;
}

static json op_samples(json const &q) {
  Seed used{};
  std::string form = q["form"];
  std::string kind = q["dist"];
  int n = q["n"];
  json r;
  json xs = json::array();
  double m = q["mean"], s = q["sigma"];
  if (kind == "normal") {
    Aux::Normaldistribution dist(used, seed_of(q["seed"]));
    for (int i = 0; i != n; ++i) {
      xs.push_back(out(
          form == "short" ? dist.get_sample(s) : dist.get_sample(m, s)));
    }
  } else {
    Aux::Truncatednormaldist dist(used, seed_of(q["seed"]));
    double lo = num(q["lo"]), hi = num(q["hi"]);
    for (int i = 0; i != n; ++i) {
      double x;
      try {
        if (form == "full") {
          x = dist.get_sample(m, s, lo, hi);
        } else if (form == "default") {
          x = dist.get_sample(m, s);
        } else if (form == "centred") {
          x = dist.get_sample(s, lo, hi);
        } else {
          x = dist.get_sample(s);
        }
      } catch (std::exception const &) {
        r["refused"] = true;
        break;
      }
      xs.push_back(out(x));
    }
  }
  r["x"] = xs;
  r["used"] = used;
  return r;
}

static json op_oup(json const &q) {
  json r = json::array();
  for (auto const &sd : q["seeds"]) {
    Seed used{};
    Aux::Normaldistribution dist(used, seed_of(sd));
    double x = q["x0"];
    json path = json::array();
    for (int i = 0; i != q["outer"].get<int>(); ++i) {
      x = Aux::euler_maruyama_oup(
          q["stability"].get<double>(), q["cut"].get<double>(), x,
          q["theta"].get<double>(), q["mu"].get<double>(),
          q["dt"].get<double>(), q["sigma"].get<double>(), dist,
          q["steps"].get<int>());
      path.push_back(out(x));
    }
    r.push_back(path);
  }
  return {
      {"paths", r},
      {"steps", Aux::compute_stable_number_of_oup_steps(
                    q["stability"], q["theta"], q["dt"], q["steps"])}};
}

// ---------------------------------------------------------------------- C27
static json op_path(json const &q) {
  return {{"in", io::absolute_file_path_in_root(
                     std::filesystem::path(q["root"].get<std::string>()),
                     std::filesystem::path(q["file"].get<std::string>()))}};
}

static json op_stamp(json const &q) {
  setenv("TZ", q.value("tz", "UTC").c_str(), 1);
  tzset();
  json r = json::array();
  for (auto const &t : q["ns"]) {
    fake_ns = t.get<long long>();
    fake_clock = true;
    std::string s;
    try {
      s = io::millisecond_datetime_timestamp();
    } catch (...) {
      fake_clock = false;
      throw;
    }
    fake_clock = false;
    r.push_back(s);
  }
  return {{"s", r}};
}

static json op_embed(json const &q) {
  json super = q["super"];
  aux_json::replace_entry_with_json_from_file(
      super, q["key"].get<std::string>());
  return {{"super", super}};
}

static int name_counter = 0;
static std::vector<std::string> name_list;
static std::string next_name() {
  auto i = static_cast<size_t>(name_counter++);
  return name_list[std::min(i, name_list.size() - 1)];
}
static json op_unique(json const &q) {
  name_counter = 0;
  name_list = q["names"].get<std::vector<std::string>>();
  json r;
  r["made"] = io::unique_output_directory(
                  std::filesystem::path(q["outer"].get<std::string>()),
                  next_name)
                  .string();
  return r;
}

// ---------------------------------------------------------------------- C18
template <class H>
static void
assemble(Eigen::SparseMatrix<double> &m, json const &ops, bool finish) {
  H h(m);
  for (auto const &o : ops) {
    h.add_to_coefficient(o[0], o[1], num(o[2]));
  }
  if (finish) {
    h.set_matrix();
  }
}

static json dense(Eigen::SparseMatrix<double> const &m) {
  json r = json::array();
  Eigen::MatrixXd d(m);
  for (Eigen::Index i = 0; i != d.rows(); ++i) {
    json row = json::array();
    for (Eigen::Index j = 0; j != d.cols(); ++j) {
      row.push_back(out(d(i, j)));
    }
    r.push_back(row);
  }
  return r;
}

static json op_assemble(json const &q) {
  Eigen::SparseMatrix<double> m(
      q["rows"].get<Eigen::Index>(), q["cols"].get<Eigen::Index>());
  json r = json::array();
  for (auto const &a : q["rounds"]) {
    bool tr = a["transposed"];
    if (a["kind"] == "triplets") {
      m.resize(m.rows(), m.cols());
      if (tr) {
        assemble<Aux::Triplethandler<Aux::Transposed>>(m, a["ops"], true);
      } else {
        assemble<Aux::Triplethandler<Aux::Regular>>(m, a["ops"], true);
      }
    } else {
      if (tr) {
        assemble<Aux::Coeffrefhandler<Aux::Transposed>>(
            m, a["ops"], a.value("finish", true));
      } else {
        assemble<Aux::Coeffrefhandler<Aux::Regular>>(
            m, a["ops"], a.value("finish", true));
      }
    }
    r.push_back({{"dense", dense(m)}, {"nnz", m.nonZeros()}});
  }
  return {{"r", r}};
}

// ---------------------------------------------------------------------- C10
// f_i(x) = c_i + sum of  a * g(x_j)  over the terms [i, j, g, a]
static double g(std::string const &name, double x) {
  if (name == "lin") {
    return x;
  }
  if (name == "sq") {
    return x * x;
  }
  if (name == "cub") {
    return x * x * x;
  }
  if (name == "sin") {
    return std::sin(x);
  }
  if (name == "exp") {
    return std::exp(x);
  }
  if (name == "log") {
    return std::log(x);
  }
  if (name == "sqrt") {
    return std::sqrt(x);
  }
  if (name == "atan") {
    return std::atan(x);
  }
  if (name == "inv") {
    return 1.0 / x;
  }
  return x > 0 ? x : 0.0; // ramp
}
static double dg(std::string const &name, double x) {
  if (name == "lin") {
    return 1.0;
  }
  if (name == "sq") {
    return 2 * x;
  }
  if (name == "cub") {
    return 3 * x * x;
  }
  if (name == "sin") {
    return std::cos(x);
  }
  if (name == "exp") {
    return std::exp(x);
  }
  if (name == "log") {
    return 1.0 / x;
  }
  if (name == "sqrt") {
    return 0.5 / std::sqrt(x);
  }
  if (name == "atan") {
    return 1.0 / (1.0 + x * x);
  }
  if (name == "inv") {
    return -1.0 / (x * x);
  }
  return x > 0 ? 1.0 : 0.0;
}

class System final : public Model::Controlcomponent {
public:
  struct Term {
    Eigen::Index row, col;
    std::string f;
    double a;
  };
  Eigen::VectorXd c;
  std::vector<Term> terms;
  mutable long evaluations{0};
  double wrong{1.0}; // factor on the Jacobian handed out
  // At other times, last states or controls than these the system is another.
  double t0{0}, t1{1};
  Eigen::VectorXd last, control;

  void setup() final {}
  void evaluate(
      Eigen::Ref<Eigen::VectorXd> root, double s0, double s1,
      Eigen::Ref<Eigen::VectorXd const> const &l,
      Eigen::Ref<Eigen::VectorXd const> const &x,
      Eigen::Ref<Eigen::VectorXd const> const &u) const final {
    ++evaluations;
    root = c;
    if (s0 != t0 or s1 != t1) {
      root.array() += 3.0 * (s0 - t0) + 2.0 * (s1 - t1);
    }
    if (l.size() != last.size() or u.size() != control.size()) {
      root.array() += 1e3;
    } else if (l != last or u != control) {
      root.array() += 1.0 + (l - last).sum() + (u - control).sum();
    }
    for (auto const &t : terms) {
      root[t.row] += t.a * g(t.f, x[t.col]);
    }
  }
  void d_evaluate_d_new_state(
      Aux::Matrixhandler &h, double, double,
      Eigen::Ref<Eigen::VectorXd const> const &,
      Eigen::Ref<Eigen::VectorXd const> const &x,
      Eigen::Ref<Eigen::VectorXd const> const &) const final {
    for (auto const &t : terms) {
      h.add_to_coefficient(t.row, t.col, wrong * t.a * dg(t.f, x[t.col]));
    }
  }
  void d_evaluate_d_last_state(
      Aux::Matrixhandler &, double, double,
      Eigen::Ref<Eigen::VectorXd const> const &,
      Eigen::Ref<Eigen::VectorXd const> const &,
      Eigen::Ref<Eigen::VectorXd const> const &) const final {}
  void d_evaluate_d_control(
      Aux::Matrixhandler &, double, double,
      Eigen::Ref<Eigen::VectorXd const> const &,
      Eigen::Ref<Eigen::VectorXd const> const &,
      Eigen::Ref<Eigen::VectorXd const> const &) const final {}
  Eigen::Index set_control_indices(Eigen::Index n) final { return n; }
  void set_initial_controls(
      Aux::InterpolatingVector_Base &, json const &) const final {}
  void set_lower_bounds(
      Aux::InterpolatingVector_Base &, json const &) const final {}
  void set_upper_bounds(
      Aux::InterpolatingVector_Base &, json const &) const final {}
  void save_controls_to_json(
      Aux::InterpolatingVector_Base const &, json &) const final {}

private:
  std::string componentclass() const final { return "none"; }
  std::string componenttype() const final { return "none"; }
  std::string id() const final { return "none"; }
};

static json op_newton(json const &q) {
  Solver::Newtonsolver solver(
      q["tolerance"].get<double>(), q["max_iterations"].get<int>());
  json r = json::array();
  for (auto const &s : q["solves"]) {
    System sys;
    sys.c = vec(s["c"]);
    sys.wrong = s.value("wrong", 1.0);
    for (auto const &t : s["terms"]) {
      sys.terms.push_back({t[0], t[1], t[2], num(t[3])});
    }
    Eigen::VectorXd x = vec(s["x0"]);
    sys.t0 = s.value("t0", 0.0);
    sys.t1 = s.value("t1", 1.0);
    sys.last = s.contains("last") ? vec(s["last"]) : x;
    sys.control = s.contains("control") ? vec(s["control"]) : Eigen::VectorXd();
    Eigen::VectorXd const last = sys.last, control = sys.control;
    double const t0 = sys.t0, t1 = sys.t1;
    json a;
    if (s.value("prepare", false)) {
      solver.evaluate_state_derivative_triplets(
          sys, t0, t1, last, x, control);
    }
    try {
      auto sol = solver.solve(
          x, sys, s["newjac"], s["full"], t0, t1, last, control);
      a = {{"success", sol.success},
           {"residual", out(sol.residual)},
           {"iterations", sol.used_iterations}};
    } catch (std::exception const &e) {
      a = {{"success", false}, {"thrown", true}};
    }
    Eigen::VectorXd f(x.size());
    sys.evaluate(f, t0, t1, last, x, control);
    a["true_residual"] = out(f.norm());
    a["x"] = arr(x);
    a["evaluations"] = sys.evaluations;
    r.push_back(a);
  }
  return {{"r", r}};
}

int main() {
  return verif::serve([](json const &q) -> json {
    std::string op = q["op"];
    if (op == "unit") {
      return op_unit(q);
    }
    if (op == "series") {
      return op_series(q);
    }
    if (op == "timedata") {
      return op_timedata(q);
    }
    if (op == "euler") {
      return op_euler(q);
    }
    if (op == "samples") {
      return op_samples(q);
    }
    if (op == "oup") {
      return op_oup(q);
    }
    if (op == "path") {
      return op_path(q);
    }
    if (op == "stamp") {
      return op_stamp(q);
    }
    if (op == "embed") {
      return op_embed(q);
    }
    if (op == "unique") {
      return op_unique(q);
    }
    if (op == "assemble") {
      return op_assemble(q);
    }
    if (op == "newton") {
      return op_newton(q);
    }
    throw std::runtime_error("unknown op " + op);
  });
}

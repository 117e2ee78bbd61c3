// Whole problems (networks and synthetic ones), their derivatives, and the
// implicit optimiser, behind a line protocol.
#include "serve.hpp"

#include "ConstraintJacobian.hpp"
#include "ControlStateCache.hpp"
#include "Costcomponent.hpp"
#include "Full_factory.hpp"
#include "ImplicitOptimizer.hpp"
#include "InterpolatingVector.hpp"
#include "Matrixhandler.hpp"
#include "Netfactory.hpp"
#include "Net.hpp"
#include "Networkproblem.hpp"
#include "Node.hpp"
#include "OptimizableObject.hpp"
#include "SimpleConstraintcomponent.hpp"
#include "Adaptor.hpp"
#include "Timeevolver.hpp"
#include "Wrapper.hpp"

#include <cmath>
#include <memory>
#include <set>

using verif::json;
using Vec = Eigen::VectorXd;
using Mat = Eigen::MatrixXd;
using Eigen::Index;
using CRef = Eigen::Ref<Vec const>;

static json outd(double x) {
  if (std::isnan(x)) {
    return "nan";
  }
  if (std::isinf(x)) {
    return x > 0 ? "inf" : "-inf";
  }
  return x;
}
static json arr(CRef const &v) {
  json a = json::array();
  for (Index i = 0; i != v.size(); ++i) {
    a.push_back(outd(v[i]));
  }
  return a;
}
static json mat(Mat const &m) {
  json a = json::array();
  for (Index i = 0; i != m.rows(); ++i) {
    a.push_back(arr(m.row(i).transpose()));
  }
  return a;
}
static Vec vec(json const &j) {
  Vec v(static_cast<Index>(j.size()));
  for (size_t i = 0; i != j.size(); ++i) {
    v[static_cast<Index>(i)] = j[i].get<double>();
  }
  return v;
}

// ------------------------------------------------- functions given as terms
// [coefficient, kind, i, j]; "n" new state, "l" last state, "u" control.
struct Term {
  double c;
  std::string kind;
  Index i, j;
};
using Fun = std::vector<Term>;

static Fun fun(json const &j) {
  Fun f;
  for (auto const &t : j) {
    f.push_back(
        {t[0].get<double>(), t[1].get<std::string>(), t[2].get<Index>(),
         t[3].get<Index>()});
  }
  return f;
}

static double value(
    Fun const &f, double t, CRef const &n, CRef const &l, CRef const &u) {
  double s = 0;
  for (auto const &m : f) {
    auto const &k = m.kind;
    double v = 0;
    if (k == "1") {
      v = 1;
    } else if (k == "t") {
      v = std::sin(t + double(m.i));
    } else if (k == "n") {
      v = n[m.i];
    } else if (k == "nt") {
      v = n[m.i] * std::cos(t);
    } else if (k == "l") {
      v = l[m.i];
    } else if (k == "u") {
      v = u[m.i];
    } else if (k == "nn") {
      v = n[m.i] * n[m.j];
    } else if (k == "uu") {
      v = u[m.i] * u[m.j];
    } else if (k == "nu") {
      v = n[m.i] * u[m.j];
    } else if (k == "nl") {
      v = n[m.i] * l[m.j];
    } else if (k == "lu") {
      v = l[m.i] * u[m.j];
    } else if (k == "sn") {
      v = std::sin(n[m.i]);
    } else if (k == "su") {
      v = std::sin(u[m.i]);
    } else if (k == "sl") {
      v = std::sin(l[m.i]);
    } else if (k == "pos") {
      double d = std::max(0.0, n[m.i] - double(m.j));
      v = d * d;
    } else {
      throw std::runtime_error("unknown term " + k);
    }
    s += m.c * v;
  }
  return s;
}

// part: 'n', 'l' or 'u'; calls add(index, derivative)
template <class F>
static void derive(
    Fun const &f, char part, double t, CRef const &n, CRef const &l,
    CRef const &u, F add) {
  for (auto const &m : f) {
    auto const &k = m.kind;
    double c = m.c;
    if (part == 'n') {
      if (k == "n") {
        add(m.i, c);
      } else if (k == "nt") {
        add(m.i, c * std::cos(t));
      } else if (k == "nn") {
        add(m.i, c * n[m.j]);
        add(m.j, c * n[m.i]);
      } else if (k == "nu") {
        add(m.i, c * u[m.j]);
      } else if (k == "nl") {
        add(m.i, c * l[m.j]);
      } else if (k == "sn") {
        add(m.i, c * std::cos(n[m.i]));
      } else if (k == "pos") {
        add(m.i, c * 2 * std::max(0.0, n[m.i] - double(m.j)));
      }
    } else if (part == 'l') {
      if (k == "l") {
        add(m.i, c);
      } else if (k == "nl") {
        add(m.j, c * n[m.i]);
      } else if (k == "lu") {
        add(m.i, c * u[m.j]);
      } else if (k == "sl") {
        add(m.i, c * std::cos(l[m.i]));
      }
    } else {
      if (k == "u") {
        add(m.i, c);
      } else if (k == "uu") {
        add(m.i, c * u[m.j]);
        add(m.j, c * u[m.i]);
      } else if (k == "nu") {
        add(m.j, c * n[m.i]);
      } else if (k == "lu") {
        add(m.j, c * l[m.i]);
      } else if (k == "su") {
        add(m.i, c * std::cos(u[m.i]));
      }
    }
  }
}

// ------------------------------------------------------------ the problems
// The name is the one that grazer's components have as a friend.
class Mock_OptimizableObject final : public Model::OptimizableObject {
public:
  std::unique_ptr<Model::Networkproblem> net; // or, if null:
  std::vector<Fun> equations;
  double fail_above = std::numeric_limits<double>::infinity();
  std::string fail_how;
  // The equation of this number is state * control: no derivatives where that
  // control is zero.
  Index product = -1, product_control = 0;
  Fun cost, penalty;
  std::vector<Fun> constraints;
  Index own_constraints = 0;
  long simulations = 0;

  void finish(Index states, Index controls) {
    Index k = 0;
    if (net) {
      states = net->get_number_of_states();
      controls = net->get_number_of_controls_per_timepoint();
      k = net->get_number_of_constraints_per_timepoint();
    }
    own_constraints = static_cast<Index>(constraints.size());
    Statecomponent::state_startindex = 0;
    Statecomponent::state_afterindex = states;
    Controlcomponent::control_startindex = 0;
    Controlcomponent::control_afterindex = controls;
    Constraintcomponent::constraint_startindex = 0;
    Constraintcomponent::constraint_afterindex = k + own_constraints;
  }
  Index net_constraints() const {
    return net ? net->get_number_of_constraints_per_timepoint() : 0;
  }

  // states
  void add_results_to_json(json &j) final {
    if (net) {
      net->add_results_to_json(j);
    }
  }
  void json_save(double t, CRef const &s) final {
    if (net) {
      net->json_save(t, s);
    }
  }
  void set_initial_values(Eigen::Ref<Vec> s, json const &j) const final {
    if (net) {
      net->set_initial_values(s, j);
    }
  }
  Index set_state_indices(Index n) final { return n; }

  // equations
  void evaluate(
      Eigen::Ref<Vec> root, double t0, double t1, CRef const &l, CRef const &n,
      CRef const &u) const final {
    if (u.size() > 0 and u.maxCoeff() > fail_above) {
      if (fail_how == "throw") {
        throw std::runtime_error("no such control");
      }
      root.setConstant(fail_how == "nan" ? std::nan("") : 1.0);
      return;
    }
    if (net) {
      net->evaluate(root, t0, t1, l, n, u);
      return;
    }
    for (size_t i = 0; i != equations.size(); ++i) {
      auto k = static_cast<Index>(i);
      root[k] = k == product
                    ? n[k] * u[product_control]
                    : n[k] - l[k] - (t1 - t0) * value(equations[i], t1, n, l, u);
    }
  }
  void prepare_timestep(
      double t0, double t1, CRef const &l, CRef const &u) final {
    ++simulations;
    if (net) {
      net->prepare_timestep(t0, t1, l, u);
    }
  }
  void d_evaluate_d_new_state(
      Aux::Matrixhandler &h, double t0, double t1, CRef const &l, CRef const &n,
      CRef const &u) const final {
    if (net) {
      net->d_evaluate_d_new_state(h, t0, t1, l, n, u);
      return;
    }
    for (size_t i = 0; i != equations.size(); ++i) {
      auto k = static_cast<Index>(i);
      if (k == product) {
        h.add_to_coefficient(k, k, u[product_control]);
        continue;
      }
      h.add_to_coefficient(k, k, 1.0);
      derive(equations[i], 'n', t1, n, l, u, [&](Index c, double v) {
        h.add_to_coefficient(k, c, -(t1 - t0) * v);
      });
    }
  }
  void d_evaluate_d_last_state(
      Aux::Matrixhandler &h, double t0, double t1, CRef const &l, CRef const &n,
      CRef const &u) const final {
    if (net) {
      net->d_evaluate_d_last_state(h, t0, t1, l, n, u);
      return;
    }
    for (size_t i = 0; i != equations.size(); ++i) {
      auto k = static_cast<Index>(i);
      if (k == product) {
        continue;
      }
      h.add_to_coefficient(k, k, -1.0);
      derive(equations[i], 'l', t1, n, l, u, [&](Index c, double v) {
        h.add_to_coefficient(k, c, -(t1 - t0) * v);
      });
    }
  }
  void d_evaluate_d_control(
      Aux::Matrixhandler &h, double t0, double t1, CRef const &l, CRef const &n,
      CRef const &u) const final {
    if (net) {
      net->d_evaluate_d_control(h, t0, t1, l, n, u);
      return;
    }
    for (size_t i = 0; i != equations.size(); ++i) {
      auto k = static_cast<Index>(i);
      if (k == product) {
        h.add_to_coefficient(k, product_control, n[k]);
        continue;
      }
      derive(equations[i], 'u', t1, n, l, u, [&](Index c, double v) {
        h.add_to_coefficient(k, c, -(t1 - t0) * v);
      });
    }
  }

  // controls
  Index set_control_indices(Index n) final { return n; }
  void setup() final {}
  void set_initial_controls(
      Aux::InterpolatingVector_Base &, json const &) const final {}
  void
  set_lower_bounds(Aux::InterpolatingVector_Base &, json const &) const final {
  }
  void
  set_upper_bounds(Aux::InterpolatingVector_Base &, json const &) const final {
  }
  void save_controls_to_json(
      Aux::InterpolatingVector_Base const &, json &) const final {}
  std::string componentclass() const final { return ""; }
  std::string componenttype() const final { return ""; }
  std::string id() const final { return ""; }

  // cost
  Vec const none;
  double evaluate_cost(double t, CRef const &n, CRef const &u) const final {
    return (net ? net->evaluate_cost(t, n, u) : 0.0)
           + value(cost, t, n, none, u);
  }
  void d_evaluate_cost_d_state(
      Aux::Matrixhandler &h, double t, CRef const &n,
      CRef const &u) const final {
    if (net) {
      net->d_evaluate_cost_d_state(h, t, n, u);
    }
    derive(cost, 'n', t, n, none, u, [&](Index c, double v) {
      h.add_to_coefficient(0, c, v);
    });
  }
  void d_evaluate_cost_d_control(
      Aux::Matrixhandler &h, double t, CRef const &n,
      CRef const &u) const final {
    if (net) {
      net->d_evaluate_cost_d_control(h, t, n, u);
    }
    derive(cost, 'u', t, n, none, u, [&](Index c, double v) {
      h.add_to_coefficient(0, c, v);
    });
  }
  double evaluate_penalty(double t, CRef const &n, CRef const &u) const final {
    return (net ? net->evaluate_penalty(t, n, u) : 0.0)
           + value(penalty, t, n, none, u);
  }
  void d_evaluate_penalty_d_state(
      Aux::Matrixhandler &h, double t, CRef const &n,
      CRef const &u) const final {
    if (net) {
      net->d_evaluate_penalty_d_state(h, t, n, u);
    }
    derive(penalty, 'n', t, n, none, u, [&](Index c, double v) {
      h.add_to_coefficient(0, c, v);
    });
  }
  void d_evaluate_penalty_d_control(
      Aux::Matrixhandler &h, double t, CRef const &n,
      CRef const &u) const final {
    if (net) {
      net->d_evaluate_penalty_d_control(h, t, n, u);
    }
    derive(penalty, 'u', t, n, none, u, [&](Index c, double v) {
      h.add_to_coefficient(0, c, v);
    });
  }

  // constraints
  void evaluate_constraint(
      Eigen::Ref<Vec> g, double t, CRef const &n, CRef const &u) const final {
    if (net) {
      net->evaluate_constraint(g, t, n, u);
    }
    for (size_t i = 0; i != constraints.size(); ++i) {
      g[net_constraints() + static_cast<Index>(i)]
          = value(constraints[i], t, n, none, u);
    }
  }
  void d_evaluate_constraint_d_state(
      Aux::Matrixhandler &h, double t, CRef const &n,
      CRef const &u) const final {
    if (net) {
      net->d_evaluate_constraint_d_state(h, t, n, u);
    }
    for (size_t i = 0; i != constraints.size(); ++i) {
      derive(constraints[i], 'n', t, n, none, u, [&](Index c, double v) {
        h.add_to_coefficient(net_constraints() + static_cast<Index>(i), c, v);
      });
    }
  }
  void d_evaluate_constraint_d_control(
      Aux::Matrixhandler &h, double t, CRef const &n,
      CRef const &u) const final {
    if (net) {
      net->d_evaluate_constraint_d_control(h, t, n, u);
    }
    for (size_t i = 0; i != constraints.size(); ++i) {
      derive(constraints[i], 'u', t, n, none, u, [&](Index c, double v) {
        h.add_to_coefficient(net_constraints() + static_cast<Index>(i), c, v);
      });
    }
  }
  Index set_constraint_indices(Index n) final { return n; }
  void set_constraint_lower_bounds(
      Aux::InterpolatingVector_Base &, json const &) const final {}
  void set_constraint_upper_bounds(
      Aux::InterpolatingVector_Base &, json const &) const final {}
};

// A component of a network with costs, penalties and constraints of its own.
class Extra final : public Network::Node,
                    public Model::Costcomponent,
                    public Model::SimpleConstraintcomponent {
public:
  static std::string get_type() { return "Extra"; }
  static json get_schema() { return Network::Idobject::get_schema(); }
  explicit Extra(json const &j) :
      Network::Node(j),
      Model::Costcomponent(
          j["cost_weight"].get<double>(), j["penalty_weight"].get<double>()),
      cost(fun(j["cost"])), penalty(fun(j["penalty"])) {
    for (auto const &e : j["constraints"]) {
      constraints.push_back(fun(e));
    }
  }
  Fun cost, penalty;
  std::vector<Fun> constraints;
  Vec const none;

  double evaluate_cost(double t, CRef const &n, CRef const &u) const final {
    return get_cost_weight() * value(cost, t, n, none, u);
  }
  void d_evaluate_cost_d_state(
      Aux::Matrixhandler &h, double t, CRef const &n,
      CRef const &u) const final {
    derive(cost, 'n', t, n, none, u, [&](Index c, double v) {
      h.add_to_coefficient(0, c, get_cost_weight() * v);
    });
  }
  void d_evaluate_cost_d_control(
      Aux::Matrixhandler &h, double t, CRef const &n,
      CRef const &u) const final {
    derive(cost, 'u', t, n, none, u, [&](Index c, double v) {
      h.add_to_coefficient(0, c, get_cost_weight() * v);
    });
  }
  double evaluate_penalty(double t, CRef const &n, CRef const &u) const final {
    return get_penalty_weight() * value(penalty, t, n, none, u);
  }
  void d_evaluate_penalty_d_state(
      Aux::Matrixhandler &h, double t, CRef const &n,
      CRef const &u) const final {
    derive(penalty, 'n', t, n, none, u, [&](Index c, double v) {
      h.add_to_coefficient(0, c, get_penalty_weight() * v);
    });
  }
  void d_evaluate_penalty_d_control(
      Aux::Matrixhandler &h, double t, CRef const &n,
      CRef const &u) const final {
    derive(penalty, 'u', t, n, none, u, [&](Index c, double v) {
      h.add_to_coefficient(0, c, get_penalty_weight() * v);
    });
  }
  void evaluate_constraint(
      Eigen::Ref<Vec> g, double t, CRef const &n, CRef const &u) const final {
    for (size_t i = 0; i != constraints.size(); ++i) {
      g[get_constraint_startindex() + static_cast<Index>(i)]
          = value(constraints[i], t, n, none, u);
    }
  }
  void d_evaluate_constraint_d_state(
      Aux::Matrixhandler &h, double t, CRef const &n,
      CRef const &u) const final {
    for (size_t i = 0; i != constraints.size(); ++i) {
      derive(constraints[i], 'n', t, n, none, u, [&](Index c, double v) {
        h.add_to_coefficient(
            get_constraint_startindex() + static_cast<Index>(i), c, v);
      });
    }
  }
  void d_evaluate_constraint_d_control(
      Aux::Matrixhandler &h, double t, CRef const &n,
      CRef const &u) const final {
    for (size_t i = 0; i != constraints.size(); ++i) {
      derive(constraints[i], 'u', t, n, none, u, [&](Index c, double v) {
        h.add_to_coefficient(
            get_constraint_startindex() + static_cast<Index>(i), c, v);
      });
    }
  }
  void set_constraint_lower_bounds(
      Aux::InterpolatingVector_Base &, json const &) const final {}
  void set_constraint_upper_bounds(
      Aux::InterpolatingVector_Base &, json const &) const final {}

private:
  Index needed_number_of_constraints_per_time_point() const final {
    return static_cast<Index>(constraints.size());
  }
};

static std::unique_ptr<Model::Networkproblem> make_net(json problem) {
  Model::Componentfactory::Full_factory factory(
      problem.value("defaults", json::object()));
  factory.add_node_type(
      std::make_unique<Model::Componentfactory::NodeType<Extra>>(
          json::object()));
  auto net = std::make_unique<Model::Networkproblem>(
      Model::build_net(problem, factory));
  net->init();
  return net;
}

static std::unique_ptr<Mock_OptimizableObject> make_problem(json const &q) {
  auto p = std::make_unique<Mock_OptimizableObject>();
  Index states = 0, controls = 0;
  if (q.contains("net")) {
    p->net = make_net(q["net"]);
  } else {
    for (auto const &e : q["equations"]) {
      p->equations.push_back(fun(e));
    }
    states = static_cast<Index>(p->equations.size());
    controls = q["controls"].get<Index>();
  }
  if (q.contains("product")) {
    p->product = q["product"][0];
    p->product_control = q["product"][1];
  }
  if (q.contains("fail_above")) {
    p->fail_above = q["fail_above"];
    p->fail_how = q["fail_how"];
  }
  p->cost = fun(q.value("cost", json::array()));
  p->penalty = fun(q.value("penalty", json::array()));
  for (auto const &e : q.value("constraints", json::array())) {
    p->constraints.push_back(fun(e));
  }
  p->finish(states, controls);
  return p;
}

// --------------------------------------------------------------- assembly
template <class F> static Mat triplets(Index r, Index c, bool tr, F f) {
  Eigen::SparseMatrix<double> m(tr ? c : r, tr ? r : c);
  if (tr) {
    Aux::Triplethandler<Aux::Transposed> h(m);
    f(h);
    h.set_matrix();
    return Mat(m).transpose();
  }
  Aux::Triplethandler h(m);
  f(h);
  h.set_matrix();
  return Mat(m);
}

// ---------------------------------------------- derivatives by differencing
// Central differences with Richardson extrapolation; err is what the last
// extrapolation changed.
template <class F>
static void differences(F f, Vec x, Index rows, double h0, Mat &d, Mat &err) {
  Index n = x.size();
  d.resize(rows, n);
  err.resize(rows, n);
  Vec up(rows), dn(rows);
  for (Index j = 0; j != n; ++j) {
    double x0 = x[j];
    double h = h0 * std::max(1.0, std::abs(x0));
    Vec t[3];
    for (int k = 0; k != 3; ++k) {
      x[j] = x0 + h;
      double a = x[j];
      up.setZero();
      f(x, up);
      x[j] = x0 - h;
      double b = x[j];
      dn.setZero();
      f(x, dn);
      t[k] = (up - dn) / (a - b);
      h /= 2;
    }
    // Rounding of the values: by luck it may not show in the quotients.  A step
    // this small leaves hardly anything else in the second differences.
    double const step = h0 * 1e-2 * std::max(1.0, std::abs(x0));
    Vec noise = Vec::Zero(rows), v[3];
    for (int k = 0; k != 6; ++k) {
      x[j] = x0 + (k - 2.5) * step;
      v[0] = v[1];
      v[1] = v[2];
      v[2] = Vec::Zero(rows);
      f(x, v[2]);
      if (k >= 2) {
        noise = noise.cwiseMax((v[2] - 2 * v[1] + v[0]).cwiseAbs());
      }
    }
    x[j] = x0;
    Vec r1 = (4 * t[1] - t[0]) / 3;
    Vec r2 = (4 * t[2] - t[1]) / 3;
    d.col(j) = r2;
    // h is half the last step by now
    err.col(j) = (r2 - r1).cwiseAbs() + 2 * noise / h;
  }
}

// The worst deviation of `m` from the difference quotients.
static json compare(Mat const &m, Mat const &d, Mat const &err, double abs) {
  json r;
  r["worst"] = 0.0;
  Index visible = 0;
  double worst = -1;
  for (Index i = 0; i != m.rows(); ++i) {
    for (Index j = 0; j != m.cols(); ++j) {
      if (m(i, j) != 0) {
        ++visible;
      }
      double allowed = 3 * err(i, j) + abs
                       + 1e-6 * std::max(std::abs(m(i, j)), std::abs(d(i, j)));
      double q = std::abs(m(i, j) - d(i, j)) / allowed;
      if (not(q <= worst)) {
        worst = std::isnan(q) ? 1e300 : q;
        r["worst"] = outd(worst);
        r["row"] = i;
        r["col"] = j;
        r["given"] = outd(m(i, j));
        r["true"] = outd(d(i, j));
        r["err"] = outd(err(i, j));
      }
    }
  }
  r["visible"] = visible;
  r["unclear"] = (err.array() > 1e-3 * d.array().abs() + abs).count();
  return r;
}

static json op_derivatives(json const &q) {
  auto p = make_problem(q);
  auto &prob = *p;
  Index n = prob.get_number_of_states();
  Index c = prob.get_number_of_controls_per_timepoint();
  Index k = prob.get_number_of_constraints_per_timepoint();
  json r;
  r["states"] = n;
  r["controls"] = c;
  r["constraints"] = k;
  Vec last(n), now(n);
  if (prob.net) {
    prob.net->set_initial_values(last, q["last"]);
    prob.net->set_initial_values(now, q["new"]);
  } else {
    last = vec(q["last"]);
    now = vec(q["new"]);
  }
  if (q.contains("scale")) {
    Vec s = vec(q["scale"]);
    for (Index i = 0; i != n; ++i) {
      now[i] *= s[i % s.size()];
    }
  }
  Vec u = vec(q["control"]);
  if (u.size() < c) {
    return {{"skip", "controls"}};
  }
  u.conservativeResize(c);
  double t0 = q["t0"], t1 = q["t1"];
  double h0 = q.value("h", 1e-4);
  prob.prepare_timestep(t0, t1, last, u);
  Vec f0 = Vec::Zero(n);
  prob.evaluate(f0, t0, t1, last, now, u);
  r["finite"] = f0.allFinite();
  if (not f0.allFinite()) {
    return r;
  }
  double abs = 1e-8 + 1e-10 * f0.cwiseAbs().maxCoeff() / h0 * 1e-2;
  bool tr = q.value("transposed", false);

  Mat d, e;
  auto fn = [&](Vec const &x, Vec &o) {
    prob.evaluate(o, t0, t1, last, x, u);
  };
  auto dn = [&](Aux::Matrixhandler &h) {
    prob.d_evaluate_d_new_state(h, t0, t1, last, now, u);
  };
  differences(fn, now, n, h0, d, e);
  Mat jn = triplets(n, n, tr, dn);
  r["new"] = compare(jn, d, e, abs);

  auto fl = [&](Vec const &x, Vec &o) { prob.evaluate(o, t0, t1, x, now, u); };
  auto dl = [&](Aux::Matrixhandler &h) {
    prob.d_evaluate_d_last_state(h, t0, t1, last, now, u);
  };
  differences(fl, last, n, h0, d, e);
  r["last"] = compare(triplets(n, n, tr, dl), d, e, abs);

  if (c > 0) {
    auto fc = [&](Vec const &x, Vec &o) {
      prob.evaluate(o, t0, t1, last, now, x);
    };
    auto dc = [&](Aux::Matrixhandler &h) {
      prob.d_evaluate_d_control(h, t0, t1, last, now, u);
    };
    differences(fc, u, n, h0, d, e);
    r["control"] = compare(triplets(n, c, tr, dc), d, e, abs);
  }
  auto scalar = [&](std::string const &name, auto f, auto dst, auto dct) {
    auto g = [&](Vec const &x, Vec &o) { o[0] = f(x, u); };
    differences(g, now, 1, h0, d, e);
    r[name + "/state"] = compare(
        triplets(1, n, tr, dst), d, e, 1e-8 + 1e-8 * std::abs(f(now, u)));
    if (c > 0) {
      auto g2 = [&](Vec const &x, Vec &o) { o[0] = f(now, x); };
      differences(g2, u, 1, h0, d, e);
      r[name + "/control"] = compare(
          triplets(1, c, tr, dct), d, e, 1e-8 + 1e-8 * std::abs(f(now, u)));
    }
    r[name] = outd(f(now, u));
  };
  scalar(
      "cost",
      [&](Vec const &x, Vec const &y) { return prob.evaluate_cost(t1, x, y); },
      [&](Aux::Matrixhandler &h) {
        prob.d_evaluate_cost_d_state(h, t1, now, u);
      },
      [&](Aux::Matrixhandler &h) {
        prob.d_evaluate_cost_d_control(h, t1, now, u);
      });
  scalar(
      "penalty",
      [&](Vec const &x, Vec const &y) {
        return prob.evaluate_penalty(t1, x, y);
      },
      [&](Aux::Matrixhandler &h) {
        prob.d_evaluate_penalty_d_state(h, t1, now, u);
      },
      [&](Aux::Matrixhandler &h) {
        prob.d_evaluate_penalty_d_control(h, t1, now, u);
      });
  if (k > 0) {
    auto g = [&](Vec const &x, Vec &o) {
      prob.evaluate_constraint(o, t1, x, u);
    };
    differences(g, now, k, h0, d, e);
    r["constraint/state"] = compare(
        triplets(
            k, n, tr,
            [&](Aux::Matrixhandler &h) {
              prob.d_evaluate_constraint_d_state(h, t1, now, u);
            }),
        d, e, 1e-7);
    Vec gv = Vec::Zero(k);
    prob.evaluate_constraint(gv, t1, now, u);
    r["constraint"] = arr(gv);
    if (c > 0) {
      auto g2 = [&](Vec const &x, Vec &o) {
        prob.evaluate_constraint(o, t1, now, x);
      };
      differences(g2, u, k, h0, d, e);
      r["constraint/control"] = compare(
          triplets(
              k, c, tr,
              [&](Aux::Matrixhandler &h) {
                prob.d_evaluate_constraint_d_control(h, t1, now, u);
              }),
          d, e, 1e-7);
    }
  }

  // Overwriting the coefficients of a matrix assembled at another state must
  // give the derivative at this one.
  Eigen::SparseMatrix<double> m(n, n);
  {
    Aux::Triplethandler h(m);
    prob.d_evaluate_d_new_state(h, t0, t1, now, last, u);
    h.set_matrix();
  }
  {
    Aux::Coeffrefhandler h(m);
    prob.d_evaluate_d_new_state(h, t0, t1, last, now, u);
    h.set_matrix();
  }
  r["reassembled"] = outd((Mat(m) - jn).cwiseAbs().maxCoeff());
  return r;
}

// ---------------------------------------------------------- the optimiser
struct Session {
  Mock_OptimizableObject *problem = nullptr;
  // owned by own, by the wrapper or by the adaptor
  Optimization::ImplicitOptimizer *opt = nullptr;
  std::unique_ptr<Optimization::ImplicitOptimizer> own;
  Ipopt::SmartPtr<Optimization::IpoptWrapper> wrapper;
  std::unique_ptr<Optimization::IpoptAdaptor> adaptor;
  Vec st, ct, gt, initial;
  Vec base; // added to every given trajectory
};

static std::unique_ptr<Session>
make_session(json const &q, std::string const &via = "") {
  auto s = std::make_unique<Session>();
  auto p = make_problem(q);
  s->problem = p.get();
  s->st = vec(q["state_times"]);
  s->ct = vec(q["control_times"]);
  s->gt = vec(q["constraint_times"]);
  Index n = p->get_number_of_states();
  Index c = p->get_number_of_controls_per_timepoint();
  Index k = p->get_number_of_constraints_per_timepoint();
  s->initial.resize(n);
  s->base = Vec::Zero(s->ct.size() * c);
  if (p->net) {
    p->net->set_initial_values(s->initial, q["initial"]);
    if (q.contains("control_json") and c > 0) {
      Aux::InterpolatingVector iv(s->ct, c);
      p->net->set_initial_controls(iv, q["control_json"]);
      s->base = iv.get_allvalues();
    }
  } else {
    s->initial = vec(q["initial"]);
  }
  auto constant = [](Vec const &t, Index w, double v) {
    Aux::InterpolatingVector iv(t, w);
    for (Index i = 0; i != t.size(); ++i) {
      iv.mut_timestep(i) = Vec::Constant(w, v);
    }
    return iv;
  };
  auto controls = constant(s->ct, c, q.value("initial_control", 0.0));
  auto evolver = Model::Timeevolver::make_pointer_instance(q["solver"]);
  auto cache
      = std::make_unique<Optimization::ControlStateCache>(std::move(evolver));
  auto lower = constant(s->ct, c, -1e3), upper = constant(s->ct, c, 1e3);
  auto g_lower = constant(s->gt, k, -1e3), g_upper = constant(s->gt, k, 1e3);
  if (q.contains("bounds")) {
    auto const &b = q["bounds"];
    auto series = [&](std::string const &grid, std::string const &name, Index w) {
      Aux::InterpolatingVector iv(vec(b[grid]), w);
      for (Index i = 0; i != iv.size(); ++i) {
        iv.mut_timestep(i) = vec(b[name][size_t(i)]);
      }
      return iv;
    };
    controls = series("control_grid", "initial", c);
    lower = series("control_grid", "lower", c);
    upper = series("control_grid", "upper", c);
    g_lower = series("constraint_grid", "constraint_lower", k);
    g_upper = series("constraint_grid", "constraint_upper", k);
  }
  s->own = std::make_unique<Optimization::ImplicitOptimizer>(
      std::move(p), std::move(cache), s->st, s->ct, s->gt, s->initial, controls,
      lower, upper, g_lower, g_upper);
  s->opt = s->own.get();
  if (via == "wrapper") {
    s->wrapper = new Optimization::IpoptWrapper(std::move(s->own));
  } else if (via == "adaptor") {
    s->adaptor
        = std::make_unique<Optimization::IpoptAdaptor>(std::move(s->own));
  }
  return s;
}

static json evaluate(Session &s, std::string const &what, Vec const &x) {
  auto &o = *s.opt;
  json r;
  if (what == "objective" or what == "cost" or what == "penalty") {
    double v = 0;
    bool ok = what == "objective" ? o.evaluate_objective(x, v)
              : what == "cost"    ? o.evaluate_cost(x, v)
                                  : o.evaluate_penalty(x, v);
    r["ok"] = ok;
    if (ok) {
      r["v"] = {outd(v)};
    }
  } else if (what == "gradient") {
    Vec g = Vec::Constant(o.get_total_no_controls(), 77.0);
    r["ok"] = o.evaluate_objective_gradient(x, g);
    if (r["ok"]) {
      r["v"] = arr(g);
    }
  } else if (what == "constraints") {
    Vec g = Vec::Constant(o.get_total_no_constraints(), 77.0);
    r["ok"] = o.evaluate_constraints(x, g);
    if (r["ok"]) {
      r["v"] = arr(g);
    }
  } else if (what == "jacobian" and o.get_no_nnz_in_jacobian() > 0) {
    Vec g = Vec::Constant(o.get_no_nnz_in_jacobian(), 77.0);
    r["ok"] = o.evaluate_constraint_jacobian(x, g);
    if (r["ok"]) {
      r["v"] = arr(g);
    }
  } else if (what == "states" or what == "jacobian") {
    // only after some evaluation of x
    double v = 0;
    r["ok"] = o.evaluate_objective(x, v);
    if (r["ok"]) {
      r["v"] = arr(o.get_current_full_state().get_allvalues());
    }
  } else {
    throw std::runtime_error("unknown quantity " + what);
  }
  return r;
}

// The same through the interface of the optimisation library, which has one
// buffer for the trajectory and says whether it changed.
static json evaluate_wrapped(
    Session &s, std::string const &what, Vec const &x, bool changed,
    std::vector<double> &buffer) {
  int nx = int(s.opt->get_total_no_controls());
  int ng = int(s.opt->get_total_no_constraints());
  int nnz = int(s.opt->get_no_nnz_in_jacobian());
  bool known = what == "objective" or what == "gradient"
               or what == "constraints" or (what == "jacobian" and nnz > 0);
  if (not known) {
    if (changed) {
      s.opt->new_x();
    }
    return evaluate(s, what, x);
  }
  buffer.assign(x.data(), x.data() + x.size());
  int size = what == "objective" ? 1 : what == "gradient" ? nx
             : what == "constraints" ? ng
                                     : nnz;
  Vec out = Vec::Constant(size + 2, 77.0);
  double *o = out.data() + 1;
  json r;
  auto &w = *s.wrapper;
  r["ok"] = what == "objective"   ? w.eval_f(nx, buffer.data(), changed, *o)
            : what == "gradient"  ? w.eval_grad_f(nx, buffer.data(), changed, o)
            : what == "constraints"
                ? w.eval_g(nx, buffer.data(), changed, ng, o)
                : w.eval_jac_g(
                    nx, buffer.data(), changed, ng, nnz, nullptr, nullptr, o);
  if (out[0] != 77.0 or out[size + 1] != 77.0) {
    r["outside"] = true;
  }
  if (Eigen::Map<Vec const>(buffer.data(), nx) != x) {
    r["outside"] = true;
  }
  if (r["ok"]) {
    r["v"] = arr(out.segment(1, size));
  }
  return r;
}

// A history of evaluations on one optimiser, and each of them on a new one.
static json op_history(json const &q) {
  json r;
  std::vector<Vec> xs;
  for (auto const &x : q["xs"]) {
    xs.push_back(vec(x));
  }
  std::string via = q.value("via", "");
  auto s = make_session(q, via);
  std::vector<double> buffer;
  Index nx = s->base.size();
  r["nx"] = nx;
  for (auto &x : xs) {
    if (x.size() < nx) {
      return {{"skip", "size"}};
    }
    x.conservativeResize(nx);
    x += s->base;
  }
  r["history"] = json::array();
  for (auto const &h : q["history"]) {
    auto const &x = xs.at(h[0].get<size_t>());
    if (via == "wrapper") {
      r["history"].push_back(evaluate_wrapped(*s, h[1], x, h[2], buffer));
      continue;
    }
    if (h[2].get<bool>()) {
      s->opt->new_x();
    }
    r["history"].push_back(evaluate(*s, h[1], x));
  }
  r["fresh"] = json::array();
  std::map<std::pair<size_t, std::string>, json> known;
  for (auto const &h : q["history"]) {
    auto key = std::make_pair(h[0].get<size_t>(), h[1].get<std::string>());
    if (not known.count(key)) {
      auto t = make_session(q);
      t->opt->new_x();
      known[key] = evaluate(*t, h[1], xs.at(h[0].get<size_t>()));
    }
    r["fresh"].push_back(known[key]);
  }
  return r;
}

// A history of requests to one cache of states, and each of them to a new one.
static json op_cache(json const &q) {
  auto s = make_session(q);
  Index c = s->problem->get_number_of_controls_per_timepoint();
  Index nx = s->base.size();
  std::vector<Vec> xs, grids, initials;
  for (auto const &x : q["xs"]) {
    Vec v = vec(x);
    if (v.size() < nx) {
      return {{"skip", "size"}};
    }
    v.conservativeResize(nx);
    xs.push_back(v + s->base);
  }
  for (auto const &g : q["grids"]) {
    grids.push_back(vec(g));
  }
  for (auto const &i : q["shifts"]) {
    initials.push_back(
        s->initial + Vec::Constant(s->initial.size(), i.get<double>()));
  }
  auto fresh = [&] {
    return std::make_unique<Optimization::ControlStateCache>(
        Model::Timeevolver::make_pointer_instance(q["solver"]));
  };
  auto ask = [&](Optimization::ControlStateCache &cache, json const &h) {
    Aux::InterpolatingVector controls(s->ct, c);
    auto const &x = xs.at(h[0].get<size_t>());
    for (Index i = 0; i != s->ct.size(); ++i) {
      controls.mut_timestep(i) = x.segment(i * c, c);
    }
    auto const &g = grids.at(h[1].get<size_t>());
    auto const &init = initials.at(h[2].get<size_t>());
    json r;
    Aux::InterpolatingVector_Base const *states = nullptr;
    if (h[3] == "refresh") {
      if (cache.refresh_cache(*s->problem, controls, g, init)) {
        states = &cache.get_cached_states();
      }
    } else {
      states = cache.check_and_supply_states(*s->problem, controls, g, init);
    }
    r["ok"] = states != nullptr;
    if (states) {
      r["v"] = arr(states->get_allvalues());
      r["times"] = arr(states->get_interpolation_points()) == arr(g);
    }
    return r;
  };
  json r;
  r["history"] = json::array();
  r["fresh"] = json::array();
  auto one = fresh();
  for (auto const &h : q["history"]) {
    r["history"].push_back(ask(*one, h));
    auto other = fresh();
    r["fresh"].push_back(ask(*other, h));
  }
  return r;
}

// What the optimisation library is told, and what it is told the result was.
static json op_interface(json const &q) {
  json r = op_history(q);
  if (r.contains("skip")) {
    return r;
  }
  auto s = make_session(q, "wrapper");
  auto &w = *s->wrapper;
  int n = -1, m = -1, nnz = -1, hess = -1;
  Ipopt::TNLP::IndexStyleEnum style = Ipopt::TNLP::FORTRAN_STYLE;
  r["info_ok"] = w.get_nlp_info(n, m, nnz, hess, style);
  r["info"] = {n, m, nnz, style == Ipopt::TNLP::C_STYLE};
  if (n < 0 or m < 0 or nnz < 0) {
    return r;
  }
  double const guard = 4711.0;
  bool outside = false;
  auto buffer = [&](int size) { return Vec(Vec::Constant(size + 2, guard)); };
  auto take = [&](Vec const &v) {
    outside = outside or v[0] != guard or v[v.size() - 1] != guard;
    return arr(v.segment(1, v.size() - 2));
  };
  Vec xl = buffer(n), xu = buffer(n), gl = buffer(m), gu = buffer(m),
      x0 = buffer(n);
  r["bounds_ok"] = w.get_bounds_info(
      n, xl.data() + 1, xu.data() + 1, m, gl.data() + 1, gu.data() + 1);
  r["lower"] = take(xl);
  r["upper"] = take(xu);
  r["constraint_lower"] = take(gl);
  r["constraint_upper"] = take(gu);
  r["start_ok"] = w.get_starting_point(
      n, true, x0.data() + 1, false, nullptr, nullptr, m, false, nullptr);
  r["start"] = take(x0);
  std::vector<int> rows(size_t(nnz) + 2, -4711), cols = rows;
  r["structure_ok"] = w.eval_jac_g(
      n, nullptr, false, m, nnz, rows.data() + 1, cols.data() + 1, nullptr);
  outside = outside or rows.front() != -4711 or rows.back() != -4711
            or cols.front() != -4711 or cols.back() != -4711;
  r["rows"] = std::vector<int>(rows.begin() + 1, rows.end() - 1);
  r["cols"] = std::vector<int>(cols.begin() + 1, cols.end() - 1);
  r["outside"] = outside;
  // The library may end anywhere after any evaluations.
  auto const &f = q["final"];
  auto pick = [&](size_t i) {
    Vec x = vec(q["xs"].at(i));
    x.conservativeResize(s->base.size());
    return Vec(x + s->base);
  };
  std::vector<double> buf;
  if (f["before"].get<int>() >= 0) {
    evaluate_wrapped(
        *s, f["what"], pick(f["before"].get<size_t>()), true, buf);
  }
  Vec x = pick(f["x"].get<size_t>());
  Vec g(m);
  for (Index i = 0; i != m; ++i) {
    g[i] = 0.5 * double(i) - 3;
  }
  w.finalize_solution(
      f["success"].get<bool>() ? Ipopt::SUCCESS : Ipopt::MAXITER_EXCEEDED, n,
      x.data(), nullptr, nullptr, m, g.data(), nullptr, f["objective"],
      nullptr, nullptr);
  r["best"] = {
      {"x", w.get_best_solution() == x},
      {"objective", outd(w.get_best_objective_value())},
      {"cost", outd(w.get_best_cost_value())},
      {"penalty", outd(w.get_best_penalty_value())},
      {"constraints", w.get_best_constraints() == g}};
  auto t = make_session(q);
  double cost = 0, penalty = 0;
  r["final_ok"] = t->opt->evaluate_cost(x, cost)
                  and t->opt->evaluate_penalty(x, penalty);
  r["final"] = {outd(cost), outd(penalty)};
  return r;
}

// An optimisation through the adaptor; bounds are around a given trajectory,
// which therefore is feasible.  All that is needed to judge the result comes
// from new optimisers.
static json op_optimum(json const &q0) {
  json q = q0;
  json r;
  auto t = make_session(q);
  Index c = t->problem->get_number_of_controls_per_timepoint();
  Index k = t->problem->get_number_of_constraints_per_timepoint();
  Index ng = t->opt->get_total_no_constraints(), nx = t->base.size();
  Vec x = vec(q["witness"]);
  if (x.size() < nx) {
    return {{"skip", "size"}};
  }
  x.conservativeResize(nx);
  double f = 0;
  Vec g(ng);
  if (not t->opt->evaluate_objective(x, f)
      or not t->opt->evaluate_constraints(x, g)) {
    return {{"skip", "witness"}};
  }
  r["witness_objective"] = outd(f);
  auto rows = [](Vec const &v, Index w, Index count) {
    json a = json::array();
    for (Index i = 0; i != count; ++i) {
      a.push_back(arr(v.segment(i * w, w)));
    }
    return a;
  };
  auto part = [&](std::string const &name, Index size) {
    Vec v = vec(q[name]);
    v.conservativeResize(size);
    return v;
  };
  Vec lower = x - part("below", nx), upper = x + part("above", nx);
  Vec glower = g, gupper = g;
  auto const &margins = q["margins"];
  for (Index i = 0; i != ng; ++i) {
    glower[i] -= margins[size_t(i)][0].get<double>();
    gupper[i] += margins[size_t(i)][1].get<double>();
  }
  Vec start = x + part("start", nx);
  json b;
  b["control_grid"] = q["control_times"];
  b["constraint_grid"] = q["constraint_times"];
  b["initial"] = rows(start, c, t->ct.size());
  b["lower"] = rows(lower, c, t->ct.size());
  b["upper"] = rows(upper, c, t->ct.size());
  b["constraint_lower"] = rows(glower, k, t->gt.size());
  b["constraint_upper"] = rows(gupper, k, t->gt.size());
  q["bounds"] = b;
  auto s = make_session(q, "adaptor");
  r["status"] = static_cast<int>(s->adaptor->optimize());
  Vec y = s->adaptor->get_solution();
  r["lower"] = arr(lower);
  r["upper"] = arr(upper);
  r["constraint_lower"] = arr(glower);
  r["constraint_upper"] = arr(gupper);
  r["x"] = arr(y);
  r["kept"] = {
      outd(s->adaptor->get_objective_value()),
      outd(s->adaptor->get_cost_value()),
      outd(s->adaptor->get_penalty_value())};
  if (y.size() != nx) {
    return r;
  }
  auto e = make_session(q);
  double cost = 0, penalty = 0;
  Vec grad(nx), jv(e->opt->get_no_nnz_in_jacobian());
  bool ok = e->opt->evaluate_cost(y, cost);
  ok = e->opt->evaluate_penalty(y, penalty) and ok;
  ok = e->opt->evaluate_constraints(y, g) and ok;
  r["evaluated"] = {outd(cost), outd(penalty)};
  r["constraints"] = arr(g);
  // The values are quadratic in the trajectory (costs) or linear, so central
  // differences are exact.
  double h = q["h"];
  Mat jac(ng, nx);
  for (Index i = 0; i != nx; ++i) {
    Vec v[2];
    for (int b2 = 0; b2 != 2; ++b2) {
      Vec z = y;
      z[i] += b2 ? -h : h;
      double o = 0;
      Vec gz(ng);
      e->opt->new_x();
      ok = e->opt->evaluate_objective(z, o) and ok;
      ok = e->opt->evaluate_constraints(z, gz) and ok;
      v[b2] = Vec(1 + ng);
      v[b2] << o, gz;
    }
    Vec d = (v[0] - v[1]) / (2 * h);
    grad[i] = d[0];
    jac.col(i) = d.tail(ng);
  }
  r["ok"] = ok;
  r["gradient"] = arr(grad);
  r["jacobian"] = mat(jac);
  return r;
}

// Weights with which the control values at ct make up the control at t.
static Vec weights(Vec const &ct, double t) {
  Vec w = Vec::Zero(ct.size());
  if (t >= ct[ct.size() - 1]) {
    w[ct.size() - 1] = 1;
    return w;
  }
  for (Index i = 0; i + 1 < ct.size(); ++i) {
    if (t <= ct[i + 1]) {
      double a = (t - ct[i]) / (ct[i + 1] - ct[i]);
      w[i] = 1 - a;
      w[i + 1] = a;
      return w;
    }
  }
  w[0] = 1;
  return w;
}

// Values and derivatives as the optimiser gives them, and the derivatives by
// carrying the sensitivities of the states forward in time (dense), and
// difference quotients of the values along given directions.
static json op_sensitivities(json const &q) {
  json r;
  auto s = make_session(q);
  auto &o = *s->opt;
  auto &p = *s->problem;
  Vec x = vec(q["x"]);
  Index n = p.get_number_of_states();
  Index c = p.get_number_of_controls_per_timepoint();
  Index k = p.get_number_of_constraints_per_timepoint();
  Index nx = o.get_total_no_controls(), ng = o.get_total_no_constraints();
  r["states"] = n;
  r["nx"] = nx;
  r["ng"] = ng;
  if (x.size() < nx) {
    return {{"skip", "size"}};
  }
  x.conservativeResize(nx);
  x += s->base;
  r["x"] = arr(x);
  o.new_x();
  double f = 0;
  if (not o.evaluate_objective(x, f)) {
    r["failed"] = true;
    return r;
  }
  r["objective"] = outd(f);
  double cost = 0, pen = 0;
  r["cost_ok"] = o.evaluate_cost(x, cost);
  r["pen_ok"] = o.evaluate_penalty(x, pen);
  r["cost"] = outd(cost);
  r["penalty"] = outd(pen);
  Vec g = Vec::Zero(ng);
  r["g_ok"] = o.evaluate_constraints(x, g);
  r["constraints"] = arr(g);
  Vec grad(nx);
  Vec jv(o.get_no_nnz_in_jacobian());
  if (q.value("jacobian_first", false) and ng > 0) {
    r["jac_ok"] = o.evaluate_constraint_jacobian(x, jv);
    r["grad_ok"] = o.evaluate_objective_gradient(x, grad);
  } else {
    r["grad_ok"] = o.evaluate_objective_gradient(x, grad);
    r["jac_ok"] = ng == 0 or o.evaluate_constraint_jacobian(x, jv);
  }
  Mat jac = Mat::Zero(ng, nx);
  r["indices_ok"] = true;
  std::set<std::pair<int, int>> seen;
  if (ng > 0) {
    Eigen::VectorX<Ipopt::Index> rows(jv.size()), cols(jv.size());
    o.supply_constraint_jacobian_indices(rows, cols);
    for (Index i = 0; i != jv.size(); ++i) {
      if (rows[i] < 0 or rows[i] >= ng or cols[i] < 0 or cols[i] >= nx
          or not seen.insert({rows[i], cols[i]}).second) {
        r["indices_ok"] = false;
      } else {
        jac(rows[i], cols[i]) += jv[i];
      }
    }
  }
  auto const &states = o.get_current_full_state();
  Mat all(n, s->st.size());
  for (Index i = 0; i != s->st.size(); ++i) {
    all.col(i) = states.vector_at_index(i);
  }
  r["all_states"] = q.value("want_states", false) ? mat(all) : json();
  r["initial_kept"] = all.col(0) == s->initial;

  // forward
  Mat S = Mat::Zero(n, nx);
  Vec fgrad = Vec::Zero(nx);
  Mat fjac = Mat::Zero(ng, nx);
  double fobj = 0, fcost = 0, fpen = 0;
  Vec fg = Vec::Zero(ng);
  Index gi = 0;
  double residual = 0;
  double mag = 1e-300;
  for (Index i = 1; i != s->st.size(); ++i) {
    double t0 = s->st[i - 1], t1 = s->st[i];
    Vec w = weights(s->ct, t1);
    Vec u = Vec::Zero(c);
    Mat W = Mat::Zero(c, nx);
    for (Index a = 0; a != s->ct.size(); ++a) {
      u += w[a] * x.segment(a * c, c);
      W.block(0, a * c, c, c) = w[a] * Mat::Identity(c, c);
    }
    Vec l = all.col(i - 1), m = all.col(i);
    p.prepare_timestep(t0, t1, l, u);
    Vec root = Vec::Zero(n);
    p.evaluate(root, t0, t1, l, m, u);
    residual = std::max(residual, root.norm());
    Mat En = triplets(n, n, false, [&](Aux::Matrixhandler &h) {
      p.d_evaluate_d_new_state(h, t0, t1, l, m, u);
    });
    Mat El = triplets(n, n, false, [&](Aux::Matrixhandler &h) {
      p.d_evaluate_d_last_state(h, t0, t1, l, m, u);
    });
    Mat Eu = triplets(n, c, false, [&](Aux::Matrixhandler &h) {
      p.d_evaluate_d_control(h, t0, t1, l, m, u);
    });
    S = -En.fullPivLu().solve(El * S + Eu * W);
    double weight = i + 1 == s->st.size()
                        ? 0.5 * (s->st[i] - s->st[i - 1])
                        : 0.5 * (s->st[i + 1] - s->st[i - 1]);
    fcost += weight * p.evaluate_cost(t1, m, u);
    fpen += weight * p.evaluate_penalty(t1, m, u);
    Mat fs = triplets(1, n, false, [&](Aux::Matrixhandler &h) {
      p.d_evaluate_cost_d_state(h, t1, m, u);
      p.d_evaluate_penalty_d_state(h, t1, m, u);
    });
    Mat fu = triplets(1, c, false, [&](Aux::Matrixhandler &h) {
      p.d_evaluate_cost_d_control(h, t1, m, u);
      p.d_evaluate_penalty_d_control(h, t1, m, u);
    });
    fgrad += weight * (fs * S + fu * W).transpose();
    mag = std::max(mag, weight * (fs.cwiseAbs() * S.cwiseAbs()).maxCoeff());
    if (k > 0 and gi < s->gt.size() and s->gt[gi] == t1) {
      Vec gv = Vec::Zero(k);
      p.evaluate_constraint(gv, t1, m, u);
      fg.segment(gi * k, k) = gv;
      Mat gs = triplets(k, n, false, [&](Aux::Matrixhandler &h) {
        p.d_evaluate_constraint_d_state(h, t1, m, u);
      });
      Mat gu = triplets(k, c, false, [&](Aux::Matrixhandler &h) {
        p.d_evaluate_constraint_d_control(h, t1, m, u);
      });
      fjac.middleRows(gi * k, k) = gs * S + gu * W;
      mag = std::max(mag, (gs.cwiseAbs() * S.cwiseAbs()).maxCoeff());
      ++gi;
    }
  }
  fobj = fcost + fpen;
  r["mag"] = outd(mag);
  r["residual"] = outd(residual);
  r["f_objective"] = outd(fobj);
  r["f_cost"] = outd(fcost);
  r["f_penalty"] = outd(fpen);
  r["f_constraints"] = arr(fg);
  auto worst = [&](Mat const &a, Mat const &b) {
    json w;
    w["worst"] = 0.0;
    double top = -1;
    double scale
        = std::max(a.cwiseAbs().maxCoeff(), b.cwiseAbs().maxCoeff());
    for (Index i = 0; i != a.rows(); ++i) {
      for (Index j = 0; j != a.cols(); ++j) {
        double d = std::abs(a(i, j) - b(i, j));
        if (not(d <= top)) {
          top = std::isnan(d) ? 1e300 : d;
          w = {{"worst", outd(top)}, {"row", i}, {"col", j},
               {"given", outd(a(i, j))}, {"true", outd(b(i, j))}};
        }
      }
    }
    w["scale"] = outd(scale);
    w["visible"] = (b.array() != 0).count();
    return w;
  };
  if (nx > 0) {
    r["gradient"] = worst(grad.transpose(), fgrad.transpose());
    if (ng > 0) {
      r["jacobian"] = worst(jac, fjac);
      Index outside = 0;
      for (Index i = 0; i != ng; ++i) {
        for (Index j = 0; j != nx; ++j) {
          if (fjac(i, j) != 0 and not seen.count({int(i), int(j)})) {
            ++outside;
          }
        }
      }
      r["outside"] = outside;
    }
  }
  // directions
  r["directions"] = json::array();
  for (auto const &dj : q.value("directions", json::array())) {
    Vec d = vec(dj).head(nx);
    if (d.norm() == 0) {
      continue;
    }
    d /= d.norm();
    double h = q.value("h", 1e-3);
    Vec t[3];
    bool ok = true;
    for (int a = 0; a != 3 and ok; ++a) {
      Vec v[2];
      for (int b = 0; b != 2; ++b) {
        Vec y = x + (b ? -h : h) * d;
        v[b] = Vec::Zero(1 + ng);
        o.new_x();
        double fv = 0;
        ok = ok and o.evaluate_objective(y, fv);
        v[b][0] = fv;
        Vec gv = Vec::Zero(ng);
        ok = ok and o.evaluate_constraints(y, gv);
        v[b].tail(ng) = gv;
      }
      if (ok) {
        t[a] = (v[0] - v[1]) / (2 * h);
      }
      h /= 2;
    }
    if (not ok) {
      continue;
    }
    Vec r1 = (4 * t[1] - t[0]) / 3, r2 = (4 * t[2] - t[1]) / 3;
    Vec mine(1 + ng);
    mine[0] = grad.dot(d);
    mine.tail(ng) = jac * d;
    r["directions"].push_back(
        {{"given", arr(mine)},
         {"true", arr(r2)},
         {"err", arr((r2 - r1).cwiseAbs())}});
  }
  return r;
}

// -------------------------------------------------- the Jacobian's storage
static json op_jacobian(json const &q) {
  using namespace Optimization;
  Index k = q["constraints"], c = q["controls"];
  Vec gt = vec(q["constraint_times"]), ct = vec(q["control_times"]);
  ConstraintJacobian own(k, c, gt, ct);
  json r;
  r["nnz"] = own.nonZeros();
  Index const nnz = own.nonZeros();
  Vec store = Vec::Constant(nnz, -1.0);
  MappedConstraintJacobian mapped(store.data(), nnz, k, c, gt, ct);
  auto describe = [&](ConstraintJacobian_Base &j, std::string const &name) {
    json d;
    Eigen::VectorX<Ipopt::Index> rows
        = Eigen::VectorX<Ipopt::Index>::Constant(nnz, -9),
        cols = rows;
    j.supply_indices(rows, cols);
    d["rows"] = std::vector<int>(rows.data(), rows.data() + nnz);
    d["cols"] = std::vector<int>(cols.data(), cols.data() + nnz);
    d["outer"] = {j.get_outer_height(), j.get_outer_width()};
    d["inner"] = {j.get_inner_height(), j.get_inner_width()};
    d["block"] = {j.get_block_height(), j.get_block_width(), j.get_block_size()};
    d["columns"] = json::array();
    for (Index i = 0; i != j.get_outer_width(); ++i) {
      d["columns"].push_back(
          {j.get_outer_col_height(i), j.get_inner_col_height(i),
           j.get_outer_rowstart(i), j.get_inner_rowstart(i),
           j.get_outer_colstart(i), j.get_inner_colstart(i),
           j.column_values_start(i), j.column_values_end(i),
           j.get_outer_column_offset(i), j.get_inner_column_offset(i)});
    }
    // write every entry through the blocks, a different value each
    j.setZero();
    double v = 1;
    for (Index i = 0; i != j.get_outer_width(); ++i) {
      auto b = j.get_column_block(i);
      d["block_shape"].push_back({b.rows(), b.cols()});
      for (Index a = 0; a != b.rows(); ++a) {
        for (Index e = 0; e != b.cols(); ++e) {
          b(a, e) = v++;
        }
      }
    }
    d["written"] = arr(j.get_allvalues());
    d["dense"] = mat(j.whole_matrix());
    auto const &cj = j;
    json rb = json::array();
    for (Index i = 0; i != j.get_outer_width(); ++i) {
      auto b = cj.get_column_block(i);
      for (Index a = 0; a != b.rows(); ++a) {
        for (Index e = 0; e != b.cols(); ++e) {
          rb.push_back(b(a, e));
        }
      }
    }
    d["read"] = rb;
    r[name] = d;
  };
  describe(own, "own");
  describe(mapped, "mapped");
  r["equal"] = own == mapped;
  // copies
  own.setOnes();
  r["ones"] = nnz == 0 or (own.get_allvalues().array() == 1.0).all();
  r["differ"] = nnz > 0 ? own != mapped : true;
  mapped = own;
  r["mapped_after"] = arr(store);
  for (Index i = 0; i != nnz; ++i) {
    store[i] = double(i) * 0.5;
  }
  own = mapped;
  r["own_after"] = arr(own.get_allvalues());
  ConstraintJacobian copy(own);
  r["copy"] = arr(copy.get_allvalues());
  ConstraintJacobian copy2(static_cast<ConstraintJacobian_Base &>(mapped));
  r["copy2"] = arr(copy2.get_allvalues());
  copy.setZero();
  r["own_kept"] = arr(own.get_allvalues());
  Vec other = Vec::Constant(nnz, 4.0);
  mapped.replace_storage(other.data(), nnz);
  r["replaced"] = arr(mapped.get_allvalues());
  mapped.setZero();
  r["other"] = arr(other);
  r["store_kept"] = arr(store);
  if (q.contains("other")) {
    // another structure, the values the same as far as there are as many
    auto const &z = q["other"];
    Index k2 = z["constraints"], c2 = z["controls"];
    Vec gt2 = vec(z["constraint_times"]), ct2 = vec(z["control_times"]);
    ConstraintJacobian second(k2, c2, gt2, ct2);
    Index const nnz2 = second.nonZeros();
    Vec store2 = Vec::Constant(nnz2, 1.0);
    MappedConstraintJacobian mapped2(store2.data(), nnz2, k2, c2, gt2, ct2);
    second.setOnes();
    Vec keep = Vec::Constant(nnz, 1.0);
    own.setOnes();
    mapped.replace_storage(keep.data(), nnz);
    json d;
    d["nnz"] = nnz2;
    Eigen::VectorX<Ipopt::Index> rows(nnz2), cols(nnz2);
    second.supply_indices(rows, cols);
    d["rows"] = std::vector<int>(rows.data(), rows.data() + nnz2);
    d["cols"] = std::vector<int>(cols.data(), cols.data() + nnz2);
    d["equal"] = {own == second, second == own, own == mapped2,
                  mapped == second, mapped2 == mapped};
    d["unequal"] = {own != second, second != own, own != mapped2,
                    mapped != second, mapped2 != mapped};
    for (Index i = 0; i != own.get_outer_width(); ++i) {
      own.get_column_block(i).setConstant(2.0);
    }
    keep.setConstant(3.0);
    json refused = json::array();
    auto refuses = [&](std::function<void()> const &f) {
      try {
        f();
        refused.push_back(false);
      } catch (std::exception const &) {
        refused.push_back(true);
      }
    };
    refuses([&] { second = own; });
    refuses([&] { mapped2 = own; });
    refuses([&] { second = mapped; });
    refuses([&] { mapped2 = mapped; });
    d["refused"] = refused;
    d["second"] = arr(second.get_allvalues());
    d["mapped2"] = arr(store2);
    r["second"] = d;
  }
  return r;
}

int main() {
  return verif::serve([](json const &q) -> json {
    std::string op = q["op"];
    if (op == "derivatives") {
      return op_derivatives(q);
    }
    if (op == "history") {
      return op_history(q);
    }
    if (op == "sensitivities") {
      return op_sensitivities(q);
    }
    if (op == "cache") {
      return op_cache(q);
    }
    if (op == "interface") {
      return op_interface(q);
    }
    if (op == "optimum") {
      return op_optimum(q);
    }
    if (op == "jacobian") {
      return op_jacobian(q);
    }
    throw std::runtime_error("unknown op " + op);
  });
}

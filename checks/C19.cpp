// C19: the stiff ODE solver
#include "fub/ode_solver/OdeSolver.hpp"
#include "fub/ode_solver/OdeSolverFactory.hpp"
#include "fub/ode_solver/RadauSolver.hpp"
#include "pbt.hpp"
#include <Eigen/Dense>
#include <functional>

using namespace fub;
namespace {
using Vec = std::vector<double>;
using Rhs = std::function<void(span<double>, span<const double>, double)>;
using Exact = std::function<Vec(double)>;

/// an initial value problem with a known solution
struct Problem {
  std::string kind;
  int n = 0;
  double t0 = 0, dt = 0;
  Vec y0;
  Rhs f, jac;
  Exact exact;
  std::string rates;
  double amplify = 1; // how much an error may grow
};

Eigen::MatrixXd Orthogonal(pbt::Case& c, int n, int k) {
  Eigen::MatrixXd Q = Eigen::MatrixXd::Identity(n, n);
  for (int r = 0; r < k; ++r) {
    Eigen::VectorXd v(n);
    for (int i = 0; i < n; ++i)
      v[i] = c.real(-1, 1);
    if (v.norm() < 0.1)
      continue;
    v.normalize();
    Q -= 2.0 * v * (v.transpose() * Q);
  }
  return Q;
}

void DrawInterval(pbt::Case& c, Problem& p, double longest) {
  p.dt = c.logreal(1e-5, longest);
  p.t0 = c.chance(1, 2) ? 0.0 : c.real(-10, 10);
  if (c.chance(1, 4))
    p.dt = -p.dt;
}

/// y' = A (y - phi) + phi' with normal A of any stiffness
Problem Linear(pbt::Case& c) {
  Problem p;
  p.kind = "linear";
  p.n = c.i(1, 10);
  const int n = p.n;
  DrawInterval(c, p, 100.0);
  const double sgn = p.dt < 0 ? -1 : 1;
  struct Block {
    int at;
    double a, b;
  };
  std::vector<Block> blocks;
  // cancellation spoils the difference quotients (and thereby the Newton iteration) of mixed very stiff systems
  const int mixed = c.i(0, 3);
  const double stiff = mixed ? 1e4 : 1e6;
  for (int i = 0; i < n;) {
    const bool pair = i + 1 < n && c.chance(1, 3);
    double a = c.chance(1, 6) ? 0.0 : -c.logreal(1e-3, stiff);
    if (c.chance(1, 8)) {
      a = c.real(0.0, 3.0) / std::abs(p.dt);
      p.amplify = std::max(p.amplify, 30.0);
    }
    // oscillations have to be resolved
    const double b = pair ? c.real(0.0, std::min(20.0, 20.0 / std::abs(p.dt))) : 0.0;
    blocks.push_back(Block{i, sgn * a, b});
    p.rates += pbt::fmt(sgn * a) + "+" + pbt::fmt(b) + "i ";
    i += pair ? 2 : 1;
    if (!pair)
      blocks.back().b = 0;
    else
      blocks.back().at = -(blocks.back().at + 1);
  }
  const Eigen::MatrixXd Q = Orthogonal(c, n, mixed);
  Eigen::MatrixXd A = Eigen::MatrixXd::Zero(n, n);
  for (const Block& b : blocks) {
    const bool pair = b.at < 0;
    const int i = pair ? -b.at - 1 : b.at;
    A(i, i) = b.a;
    if (pair) {
      A(i + 1, i + 1) = b.a;
      A(i, i + 1) = b.b;
      A(i + 1, i) = -b.b;
    }
  }
  const Eigen::MatrixXd M = Q * A * Q.transpose();
  const bool forced = c.boolean();
  Vec amp(n), om(n), ph(n);
  for (int i = 0; i < n; ++i) {
    amp[i] = forced ? c.real(-2, 2) : 0.0;
    om[i] = forced ? c.real(0.0, std::min(5.0, 10.0 / std::abs(p.dt))) : 0.0;
    ph[i] = forced ? c.real(0.0, 6.0) : 0.0;
  }
  auto phi = [=](double t) {
    Eigen::VectorXd r(n);
    for (int i = 0; i < n; ++i)
      r[i] = amp[i] * std::cos(om[i] * t + ph[i]);
    return r;
  };
  auto dphi = [=](double t) {
    Eigen::VectorXd r(n);
    for (int i = 0; i < n; ++i)
      r[i] = -amp[i] * om[i] * std::sin(om[i] * t + ph[i]);
    return r;
  };
  p.y0.resize(n);
  const bool on = c.chance(1, 4);
  for (int i = 0; i < n; ++i)
    p.y0[i] = on ? phi(p.t0)[i] : c.symmetric(10.0, 1e-3);
  p.f = [=](span<double> dy, span<const double> y, double t) {
    const Eigen::VectorXd ff = phi(t), df = dphi(t);
    for (int i = 0; i < n; ++i) {
      double s = df[i];
      for (int j = 0; j < n; ++j)
        s += M(i, j) * (y[j] - ff[j]);
      dy[i] = s;
    }
  };
  p.jac = [=](span<double> J, span<const double>, double) {
    for (int j = 0; j < n; ++j)
      for (int i = 0; i < n; ++i)
        J[j * n + i] = M(i, j);
  };
  const Vec y0 = p.y0;
  const double t0 = p.t0;
  p.exact = [=](double t) {
    Eigen::VectorXd z(n);
    for (int i = 0; i < n; ++i)
      z[i] = y0[i];
    z -= phi(t0);
    z = (Q.transpose() * z).eval();
    const double h = t - t0;
    for (const Block& b : blocks) {
      const bool pair = b.at < 0;
      const int i = pair ? -b.at - 1 : b.at;
      const double e = std::exp(b.a * h);
      if (pair) {
        const double x = z[i], y = z[i + 1];
        z[i] = e * (std::cos(b.b * h) * x + std::sin(b.b * h) * y);
        z[i + 1] = e * (std::cos(b.b * h) * y - std::sin(b.b * h) * x);
      } else
        z[i] *= e;
    }
    z = (Q * z + phi(t)).eval();
    return Vec(z.data(), z.data() + n);
  };
  return p;
}

/// independent scalar nonlinear equations
Problem Nonlinear(pbt::Case& c) {
  Problem p;
  p.kind = "nonlinear";
  p.n = c.i(1, 5);
  DrawInterval(c, p, 20.0);
  const int n = p.n;
  const double sgn = p.dt < 0 ? -1 : 1;
  std::vector<int> kind(n);
  Vec k(n);
  p.y0.resize(n);
  for (int i = 0; i < n; ++i) {
    kind[i] = c.i(0, 3);
    switch (kind[i]) {
    case 0: // logistic growth
      k[i] = sgn * c.logreal(1e-3, 30.0);
      p.y0[i] = c.logreal(1e-2, 3.0);
      p.amplify = 100.0;
      break;
    case 1: // recombination
      k[i] = sgn * c.logreal(1e-3, 1e4);
      p.y0[i] = c.logreal(1e-2, 10.0);
      break;
    case 2: // relaxation to a moving state with a nonlinear rate: y' = -k (z + z^3) + cos t, z = y - sin t
      k[i] = sgn * c.logreal(1e-3, 1e4);
      p.y0[i] = std::sin(p.t0) + c.symmetric(1.0, 1e-3);
      break;
    default: // quadrature
      k[i] = c.real(0.0, 5.0);
      p.y0[i] = c.real(-1, 1);
    }
  }
  p.f = [=](span<double> dy, span<const double> y, double t) {
    for (int i = 0; i < n; ++i) {
      const double z = y[i] - std::sin(t);
      dy[i] = kind[i] == 0   ? k[i] * y[i] * (1.0 - y[i])
              : kind[i] == 1 ? -k[i] * y[i] * y[i]
              : kind[i] == 2 ? -k[i] * (z + z * z * z) + std::cos(t)
                             : std::cos(k[i] * t);
    }
  };
  p.jac = [=](span<double> J, span<const double> y, double t) {
    for (int i = 0; i < n * n; ++i)
      J[i] = 0.0;
    for (int i = 0; i < n; ++i) {
      const double z = y[i] - std::sin(t);
      J[i * n + i] = kind[i] == 0   ? k[i] * (1.0 - 2.0 * y[i])
                     : kind[i] == 1 ? -2.0 * k[i] * y[i]
                     : kind[i] == 2 ? -k[i] * (1.0 + 3.0 * z * z)
                                    : 0.0;
    }
  };
  const Vec y0 = p.y0;
  const double t0 = p.t0;
  p.exact = [=](double t) {
    Vec y(n);
    const double h = t - t0;
    for (int i = 0; i < n; ++i) {
      const double z0 = y0[i] - std::sin(t0);
      switch (kind[i]) {
      case 0: {
        const double e = std::exp(-k[i] * h);
        y[i] = y0[i] / (y0[i] + (1.0 - y0[i]) * e);
        break;
      }
      case 1: y[i] = y0[i] / (1.0 + k[i] * y0[i] * h); break;
      case 2: {
        // z' = -k (z + z^3): z^2 / (1 + z^2) = z0^2 / (1 + z0^2) exp(-2 k h)
        const double w = z0 * z0 / (1.0 + z0 * z0) * std::exp(-2.0 * k[i] * h);
        y[i] = std::sin(t) + std::copysign(std::sqrt(w / (1.0 - w)), z0);
        break;
      }
      default:
        y[i] = y0[i] + (k[i] == 0 ? h : (std::sin(k[i] * t) - std::sin(k[i] * t0)) / k[i]);
      }
    }
    return y;
  };
  return p;
}

Problem DrawProblem(pbt::Case& c) { return c.chance(2, 3) ? Linear(c) : Nonlinear(c); }

struct Outcome {
  Vec y;
  std::vector<double> times;
  std::vector<Vec> states;
  long calls = 0, jacs = 0;
};

Outcome Solve(const OdeSolver& s, const Problem& p, double t0, double dt, const Vec& y0, bool with_feedback, bool with_jac) {
  Outcome o;
  o.y = y0;
  auto rhs = [&](span<double> dy, span<const double> y, double t) {
    if (++o.calls > 2000000)
      throw std::runtime_error("more than two million evaluations");
    p.f(dy, y, t);
  };
  auto fb = [&](span<const double> y, double t) {
    o.times.push_back(t);
    o.states.emplace_back(y.begin(), y.end());
  };
  auto jac = [&](span<double> J, span<const double> y, double t) {
    ++o.jacs;
    p.jac(J, y, t);
  };
  OdeSolver::system_type R(rhs);
  OdeSolver::feedback_type F(fb);
  OdeSolver::jacobian_type J(jac);
  span<double> y(o.y.data(), static_cast<std::ptrdiff_t>(o.y.size()));
  if (with_feedback && with_jac)
    s.Integrate(R, y, t0, dt, F, J);
  else if (with_feedback)
    s.Integrate(R, y, t0, dt, F);
  else if (with_jac)
    s.Integrate(R, y, t0, dt, J);
  else
    s.Integrate(R, y, t0, dt);
  return o;
}

struct Tol {
  double rtol = 1e-12, atol = 1e-13, h0 = 1e-6, thresh = 0.01;
};
Tol DrawTol(pbt::Case& c) {
  Tol t;
  if (c.chance(1, 2)) {
    t.rtol = c.logreal(1e-13, 1e-5);
    t.atol = t.rtol * c.logreal(1e-3, 1.0);
  }
  if (c.chance(1, 3))
    t.h0 = c.logreal(1e-9, 1e-2);
  if (c.chance(1, 3))
    t.thresh = c.logreal(1e-4, 0.1);
  return t;
}
void Set(RadauSolver& s, const Tol& t) {
  s.relative_tolerance = t.rtol;
  s.absolute_tolerance = t.atol;
  s.initial_time_step_size = t.h0;
  s.jacobian_threshhold = t.thresh;
}
/// RADAU transforms the tolerances: rtol' = 0.1 rtol^((s+1)/(2s)) with 3, 5 or 7 stages
double Allowed(const Tol& t, double ymax, double amplify) {
  const double r = 0.1 * std::pow(t.rtol, 4.0 / 7.0);
  return 300.0 * amplify * r * (t.atol / t.rtol + ymax) + 1e-11 * ymax * amplify;
}
void Note(pbt::Case& c, const Problem& p, const Tol& t) {
  c.note("kind", p.kind);
  c.note("n", p.n);
  c.note("t0", p.t0);
  c.note("dt", p.dt);
  c.note("y0", pbt::list(p.y0));
  c.note("tolerances", pbt::list(Vec{t.rtol, t.atol, t.h0, t.thresh}));
}
double Max(const Vec& v) {
  double m = 0;
  for (double x : v)
    m = std::max(m, std::abs(x));
  return m;
}

void Solutions(pbt::Case& c) {
  const Problem p = DrawProblem(c);
  const Tol tol = DrawTol(c);
  Note(c, p, tol);
  RadauSolver s;
  Set(s, tol);
  const bool jac = c.boolean();
  c.note("jac", jac);
  c.note("rates", p.rates);
  const Outcome plain = Solve(s, p, p.t0, p.dt, p.y0, false, jac);
  const Outcome seen = Solve(s, p, p.t0, p.dt, p.y0, true, jac);
  c.check(plain.y == seen.y, "the solution depends on whether a feedback is given");
  c.check(jac == (plain.jacs > 0), jac ? "the given Jacobian is not used" : "a Jacobian is called");
  // history
  const double end = p.t0 + p.dt;
  c.check(!seen.times.empty() && seen.times.front() == p.t0, "the history does not start at the initial time");
  c.check(seen.states.front() == p.y0, "the history does not start with the initial values");
  for (std::size_t k = 1; k < seen.times.size(); ++k)
    c.check((seen.times[k] - seen.times[k - 1]) * (p.dt > 0 ? 1 : -1) > 0,
            "the history goes from " + pbt::fmt(seen.times[k - 1]) + " to " + pbt::fmt(seen.times[k]));
  c.near(seen.times.back(), end, 1e-13 * (std::abs(end) + std::abs(p.t0)), "last time of the history");
  c.check(seen.states.back() == seen.y, "the history does not end with the solution");
  double ymax = Max(p.y0);
  for (const Vec& y : seen.states)
    ymax = std::max(ymax, Max(y));
  const double allowed = Allowed(tol, ymax, p.amplify);
  for (std::size_t k = 0; k < seen.times.size(); ++k) {
    const Vec want = p.exact(seen.times[k]);
    for (int i = 0; i < p.n; ++i)
      c.near(seen.states[k][i], want[i], allowed, "component " + std::to_string(i) + " at t = " + pbt::fmt(seen.times[k]));
  }
  // the other way to get a Jacobian
  const Outcome other = Solve(s, p, p.t0, p.dt, p.y0, c.boolean(), !jac);
  const Vec want = p.exact(end);
  for (int i = 0; i < p.n; ++i)
    c.near(other.y[i], want[i], allowed, std::string("component with") + (jac ? "out" : "") + " a Jacobian");
  // in two parts
  const double h = p.dt * c.real(0.05, 0.95);
  const Outcome a = Solve(s, p, p.t0, h, p.y0, false, jac);
  const Outcome b = Solve(s, p, p.t0 + h, end - (p.t0 + h), a.y, false, jac);
  for (int i = 0; i < p.n; ++i)
    c.near(b.y[i], want[i], 2 * allowed, "component after two parts");
  double change = 0;
  for (int i = 0; i < p.n; ++i)
    change = std::max(change, std::abs(want[i] - p.y0[i]));
  c.nontrivial(change > 10 * allowed);
  c.label(seen.times.size() < 4 ? "few steps" : seen.times.size() < 40 ? "some steps" : "many steps");
  c.label(p.kind + (p.dt < 0 ? " backwards" : ""));
}

/// a solver remembers nothing but its configuration
void Histories(pbt::Case& c) {
  struct Slot {
    std::unique_ptr<OdeSolver> s;
    Tol t;
  };
  std::vector<Slot> slots;
  std::vector<Problem> problems;
  const int np = c.i(1, 3);
  for (int i = 0; i < np; ++i)
    problems.push_back(DrawProblem(c));
  const auto fresh = [&](const Tol& t) {
    auto s = std::make_unique<RadauSolver>();
    Set(*s, t);
    return s;
  };
  std::string history;
  const int ops = c.i(2, 8);
  int solved = 0;
  for (int k = 0; k < ops; ++k) {
    const int op = slots.empty() ? c.i(0, 1) : c.i(0, 7);
    if (op == 0) {
      const Tol t = DrawTol(c);
      slots.push_back(Slot{fresh(t), t});
      history += "new ";
    } else if (op == 1) {
      slots.push_back(Slot{OdeSolverFactory::GetInstance().MakeSolver("RADAU", OdeSolverOptions{}), Tol{}});
      history += "factory ";
    } else {
      const std::size_t at = static_cast<std::size_t>(c.below(slots.size()));
      if (op == 2) {
        slots.push_back(Slot{slots[at].s->Clone(), slots[at].t});
        history += "clone" + std::to_string(at) + " ";
      } else if (op == 3) {
        const RadauSolver& r = dynamic_cast<const RadauSolver&>(*slots[at].s);
        auto copy = std::make_unique<RadauSolver>(r);
        const Tol t = slots[at].t;
        slots.push_back(Slot{std::move(copy), t});
        history += "copy" + std::to_string(at) + " ";
      } else if (op == 4) {
        const Tol t = DrawTol(c);
        Set(dynamic_cast<RadauSolver&>(*slots[at].s), t);
        slots[at].t = t;
        history += "configure" + std::to_string(at) + " ";
      } else {
        const Problem& p = problems[static_cast<std::size_t>(c.below(problems.size()))];
        const bool fb = c.boolean(), jac = c.boolean();
        const Outcome got = Solve(*slots[at].s, p, p.t0, p.dt, p.y0, fb, jac);
        const Outcome want = Solve(*fresh(slots[at].t), p, p.t0, p.dt, p.y0, fb, jac);
        history += "solve" + std::to_string(at) + " ";
        c.note("history", history);
        c.check(got.y == want.y && got.times == want.times, "a solver with a history gives " + pbt::list(got.y) + " and a new one " + pbt::list(want.y));
        c.check(got.calls == want.calls, "a solver with a history needs another number of evaluations");
        ++solved;
      }
    }
    for (const Slot& s : slots) {
      const RadauSolver& r = dynamic_cast<const RadauSolver&>(*s.s);
      c.check(r.relative_tolerance == s.t.rtol && r.absolute_tolerance == s.t.atol && r.initial_time_step_size == s.t.h0 &&
                  r.jacobian_threshhold == s.t.thresh,
              "a solver has another configuration than it was given: " + history);
    }
  }
  c.nontrivial(solved > 0 && slots.size() > 1);
}

/// problems without a solution are reported, and zero steps change nothing
void Errors(pbt::Case& c) {
  const Problem p = DrawProblem(c);
  Tol tol = DrawTol(c);
  RadauSolver s;
  const int what = c.i(0, 3);
  const bool jac = c.boolean();
  if (what == 0) {
    Set(s, tol);
    const Outcome o = Solve(s, p, p.t0, 0.0, p.y0, c.boolean(), jac);
    c.check(o.y == p.y0, "a zero step changes the state");
    c.label("zero step");
    c.nontrivial(true);
    return;
  }
  Problem q = p;
  if (what == 1) {
    (c.boolean() ? tol.rtol : tol.atol) = c.pick<double>({0.0, -1.0, -1e-6});
    c.label("bad tolerance");
  } else if (what == 2) {
    const double when = p.t0 + p.dt * c.real(0.0, 0.8);
    const double sg = p.dt > 0 ? 1 : -1;
    q.f = [=](span<double> dy, span<const double> y, double t) {
      p.f(dy, y, t);
      if ((t - when) * sg > 0)
        dy[0] = std::nan("");
    };
    c.label("NaN after some time");
  } else {
    q.f = [=](span<double> dy, span<const double> y, double t) {
      p.f(dy, y, t);
      dy[p.n - 1] = std::nan("");
    };
    c.label("NaN always");
  }
  Note(c, p, tol);
  Set(s, tol);
  bool thrown = false;
  try {
    Solve(s, q, q.t0, q.dt, q.y0, false, jac);
  } catch (radau_error::Exception&) {
    thrown = true;
  }
  c.check(thrown, "an integration without a solution succeeds");
  c.nontrivial(true);
  // and the solver can still be used
  Set(s, Tol{});
  RadauSolver n;
  const Outcome a = Solve(s, p, p.t0, p.dt, p.y0, false, jac), b = Solve(n, p, p.t0, p.dt, p.y0, false, jac);
  c.check(a.y == b.y, "a failed integration changes later ones");
}
} // namespace

PBT_PROP("known solutions", 6000, 120000) { Solutions(c); }
PBT_PROP("histories of solvers", 3000, 60000) { Histories(c); }
PBT_PROP("errors and zero steps", 3000, 60000) { Errors(c); }

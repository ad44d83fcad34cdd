// C10: the exact Riemann solver of the perfect gas
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/perfect_gas/ExactRiemannSolver.hpp"
#include "fub/equations/perfect_gas/GodunovMethod.hpp"
#include "fub/flux_method/GodunovMethod.hpp"
#include "patch.hpp"
#include "riemann.hpp"
namespace {
using namespace fub;
template <int R> PerfectGas<R> Equation(pbt::Case& c) {
  PerfectGas<R> eq;
  eq.gamma = c.below(3) == 0 ? 1.4 : (c.boolean() ? c.pick<double>({5.0 / 3.0, 1.28, 1.1, 2.0}) : c.real(1.1, 2.0));
  eq.gamma_minus_1_inv = 1.0 / (eq.gamma - 1.0);
  eq.gamma_array_ = Array1d::Constant(eq.gamma);
  eq.gamma_minus_1_inv_array_ = Array1d::Constant(eq.gamma_minus_1_inv);
  return eq;
}
using Tang = std::array<double, 2>; // velocities of the other axes
template <int R> fub::Complete<PerfectGas<R>> Make(const PerfectGas<R>& eq, const rp::W& w, const Tang& v, int dir) {
  fub::Complete<PerfectGas<R>> q{eq};
  double k = 0.5 * w.rho * w.u * w.u;
  q.density = w.rho;
  for (int d = 0, t = 0; d < R; ++d) {
    const double u = d == dir ? w.u : v[std::size_t(t++)];
    Array<double, R, 1> m{q.momentum};
    m[d] = w.rho * u;
    q.momentum = m;
    if (d != dir)
      k += 0.5 * w.rho * u * u;
  }
  q.energy = w.p / (eq.gamma - 1.0) + k;
  q.pressure = w.p;
  q.speed_of_sound = std::sqrt(eq.gamma * w.p / w.rho);
  return q;
}
struct Problem {
  rp::Gas s;
  Tang vL, vR;
  double r;    // admissible relative error of the star pressure
  double du;   // admissible error of a velocity
  double amax, umax;
  double Speed() const { return amax + umax; }
};
Problem Draw(pbt::Case& c, double g) {
  Problem p;
  p.s = rp::DrawGas(c, g, c.pick<double>({0.5, 2.0, 4.0}));
  p.amax = std::max(std::sqrt(g * p.s.L.p / p.s.L.rho), std::sqrt(g * p.s.R.p / p.s.R.rho));
  p.umax = std::max(std::abs(p.s.L.u), std::abs(p.s.R.u));
  for (Tang* t : {&p.vL, &p.vR})
    for (double& v : *t)
      v = c.boolean() ? 0.0 : p.amax * c.symmetric(2.0);
  // the solver stops if both sides agree in velocity up to 1e-7
  p.du = 4e-7 + 1e-11 * p.Speed();
  p.r = p.du / (p.s.Slope() * p.s.ps) + 1e-10;
  if (!(p.r < 1e-3))
    throw pbt::Discard{};
  auto kind = [&](const rp::W& w) { return p.s.ps == w.p ? "none" : (p.s.ps > w.p ? "shock" : "rarefaction"); };
  c.label(std::string(kind(p.s.L)) + "/" + kind(p.s.R));
  c.note("gamma", pbt::fmt(g));
  c.note("left (rho, u, p)", pbt::fmt(p.s.L.rho) + " " + pbt::fmt(p.s.L.u) + " " + pbt::fmt(p.s.L.p));
  c.note("right", pbt::fmt(p.s.R.rho) + " " + pbt::fmt(p.s.R.u) + " " + pbt::fmt(p.s.R.p));
  c.note("tangential velocities", pbt::list(p.vL) + " " + pbt::list(p.vR));
  c.note("p*, u*", pbt::fmt(p.s.ps) + " " + pbt::fmt(p.s.us));
  c.nontrivial(p.s.ps != p.s.L.p || p.s.ps != p.s.R.p);
  return p;
}
/// q has to be the state of the solution at speed xi (up to its accuracy)
template <int R> void Match(pbt::Case& c, const PerfectGas<R>& eq, const fub::Complete<PerfectGas<R>>& q, const Problem& p, double xi, int dir, const std::string& what) {
  const double delta = 4.0 * p.du + 1e-7 * p.Speed() + 2.0 * p.r * (p.amax + p.umax);
  const double rt = 20.0 * p.r + 1e-5 + 4.0 * delta / std::sqrt(eq.gamma * std::min({p.s.L.p / p.s.L.rho, p.s.R.p / p.s.R.rho, p.s.ps / p.s.StarDensity(-1), p.s.ps / p.s.StarDensity(1)}));
  if (rt > 0.02)
    throw pbt::Discard{};
  bool ok = false;
  std::string want;
  Array<double, R, 1> mom{q.momentum};
  for (double d : {0.0, -delta, delta}) {
    int side;
    const rp::W w = p.s.Sample(xi + d, side);
    const Tang& v = side < 0 ? p.vL : p.vR;
    bool good = std::abs(q.density - w.rho) <= rt * w.rho && std::abs(q.pressure - w.p) <= rt * w.p &&
                std::abs(mom[dir] / q.density - w.u) <= rt * (p.Speed());
    for (int e = 0, t = 0; e < R; ++e)
      if (e != dir) {
        good = good && std::abs(mom[e] / q.density - v[std::size_t(t)]) <= 1e-10 * p.amax;
        ++t;
      }
    ok = ok || good;
    if (d == 0.0)
      want = pbt::fmt(w.rho) + " " + pbt::fmt(w.u) + " " + pbt::fmt(w.p) + " tangential " + pbt::list(v);
  }
  c.checkf(ok, [&] {
    std::string m;
    for (int d = 0; d < R; ++d)
      m += " " + pbt::fmt(mom[d] / q.density);
    return what + " at x/t = " + pbt::fmt(xi) + ": density " + pbt::fmt(q.density) + " velocity" + m + " pressure " + pbt::fmt(q.pressure) + " instead of rho, u, p = " + want;
  });
  // the state itself is complete
  double k = 0;
  for (int d = 0; d < R; ++d)
    k += 0.5 * mom[d] * mom[d] / q.density;
  const double e = q.pressure / (eq.gamma - 1.0) + k;
  c.rel(q.energy, e, 1e-9, what + ": energy of the sampled state", 0);
  c.rel(q.speed_of_sound, std::sqrt(eq.gamma * q.pressure / q.density), 1e-9, what + ": speed of sound of the sampled state", 0);
}

template <int R> void Middle(pbt::Case& c) {
  auto eq = Equation<R>(c);
  ExactRiemannSolver<PerfectGas<R>> solver{eq};
  const int dir = c.i(0, R - 1);
  const Problem p = Draw(c, eq.gamma);
  c.note("dir", dir);
  const auto L = Make<R>(eq, p.s.L, p.vL, dir), Rr = Make<R>(eq, p.s.R, p.vR, dir);
  const auto m = solver.ComputeMiddleState(L, Rr, Direction(dir));
  c.checkf(std::abs(m[0] - p.s.ps) <= p.r * p.s.ps, [&] { return "star pressure " + pbt::fmt(m[0]) + " instead of " + pbt::fmt(p.s.ps); });
  c.checkf(std::abs(m[1] - p.s.us) <= p.du, [&] { return "star velocity " + pbt::fmt(m[1]) + " instead of " + pbt::fmt(p.s.us); });
  // wave signals: the heads of both waves
  const auto s = solver.ComputeSignals(L, Rr, Direction(dir));
  for (int i = 0; i < 2; ++i) {
    const double ref = p.s.Head(2 * i - 1);
    c.checkf(std::abs(s[std::size_t(i)] - ref) <= 2 * p.r * p.Speed() * (1.0 + std::sqrt(p.s.ps / std::min(p.s.L.p, p.s.R.p))) + 1e-9 * p.Speed(),
             [&] { return std::string(i ? "right" : "left") + " signal " + pbt::fmt(s[std::size_t(i)]) + " instead of " + pbt::fmt(ref); });
  }
  // mirrored data
  Problem q = p;
  std::swap(q.s.L, q.s.R);
  q.s.L.u *= -1.0;
  q.s.R.u *= -1.0;
  const auto n = solver.ComputeMiddleState(Make<R>(eq, q.s.L, p.vR, dir), Make<R>(eq, q.s.R, p.vL, dir), Direction(dir));
  c.checkf(std::abs(n[0] - m[0]) <= 2 * p.r * p.s.ps && std::abs(n[1] + m[1]) <= 2 * p.du, [&] { return "mirrored: " + pbt::list(n) + " but " + pbt::list(m); });
}

template <int R> void SampleAtInterface(pbt::Case& c) {
  auto eq = Equation<R>(c);
  ExactRiemannSolver<PerfectGas<R>> solver{eq};
  const int dir = c.i(0, R - 1);
  const Problem p = Draw(c, eq.gamma);
  c.note("dir", dir);
  const auto L = Make<R>(eq, p.s.L, p.vL, dir), Rr = Make<R>(eq, p.s.R, p.vR, dir);
  fub::Complete<PerfectGas<R>> q{eq};
  solver.SolveRiemannProblem(q, L, Rr, Direction(dir));
  Match<R>(c, eq, q, p, 0.0, dir, "solution");
  const double h = std::min(std::abs(p.s.Head(-1)), std::abs(p.s.Head(1)));
  c.label(p.s.Head(-1) > 0 || p.s.Head(1) < 0 ? "supersonic" : "subsonic");
  c.label(h < 0.3 * p.amax ? "near a head" : "far from a head");
  // a state of its own in every lane
  CompleteArray<PerfectGas<R>> la{eq}, ra{eq}, out{eq}, masked{eq};
  MaskArray mask;
  std::vector<Problem> ps;
  std::vector<Complete<PerfectGas<R>>> sol;
  for (int l = 0; l < kDefaultChunkSize; ++l) {
    Problem o = p;
    if (c.chance(1, 4))
      o.s = rp::DrawGas(c, eq.gamma, 1.0);
    else if (c.boolean()) { // another frame of reference
      const double shift = p.amax * c.symmetric(2.0);
      o.s.L.u += shift;
      o.s.R.u += shift;
      o.s.us += shift;
    }
    const auto a = Make<R>(eq, o.s.L, o.vL, dir), b = Make<R>(eq, o.s.R, o.vR, dir);
    tst::SetLane(la, l, tst::Comps(a));
    tst::SetLane(ra, l, tst::Comps(b));
    sol.push_back(q);
    solver.SolveRiemannProblem(sol.back(), a, b, Direction(dir));
    mask[l] = c.boolean();
  }
  solver.SolveRiemannProblem(out, la, ra, Direction(dir));
  for (int l = 0; l < kDefaultChunkSize; ++l)
    c.check(tst::GetLane(out, l) == tst::Comps(sol[std::size_t(l)]), "vectorised solution differs from the scalar one in lane " + std::to_string(l));
  // lanes without an interface may contain anything
  for (int l = 0; l < kDefaultChunkSize; ++l)
    if (!mask[l] && c.boolean()) {
      tst::SetLane(la, l, std::vector<double>(tst::Comps(q).size(), 0.0));
      tst::SetLane(ra, l, std::vector<double>(tst::Comps(q).size(), c.boolean() ? 0.0 : -1.0));
    }
  solver.SolveRiemannProblem(masked, la, ra, mask, Direction(dir));
  for (int l = 0; l < kDefaultChunkSize; ++l)
    if (mask[l])
      c.check(tst::GetLane(masked, l) == tst::Comps(sol[std::size_t(l)]), "masked solution differs from the scalar one in lane " + std::to_string(l));
    else
      for (double x : tst::GetLane(masked, l))
        c.check(x == 0.0, "the masked lane " + std::to_string(l) + " is not empty");
}

template <int R> void SampleAtSpeed(pbt::Case& c) {
  auto eq = Equation<R>(c);
  ExactRiemannSolver<PerfectGas<R>> solver{eq};
  const int dir = c.i(0, R - 1);
  const Problem p = Draw(c, eq.gamma);
  const auto L = Make<R>(eq, p.s.L, p.vL, dir), Rr = Make<R>(eq, p.s.R, p.vR, dir);
  const double lo = p.s.Head(-1), hi = p.s.Head(1);
  double xi = lo + (hi - lo) * c.real(-0.2, 1.2);
  if (c.chance(1, 3)) {
    const int side = c.boolean() ? 1 : -1;
    xi = p.s.Head(side) + (p.s.Tail(side) - p.s.Head(side)) * c.real(-0.2, 1.2);
  }
  const double dt = c.pick<double>({1.0, 1e-3, 0.37});
  fub::Complete<PerfectGas<R>> q{eq};
  c.note("dir", dir);
  c.note("x/t", pbt::fmt(xi));
  solver.SolveRiemannProblem(q, L, Rr, p.s.ps, p.s.us, Duration(dt), xi * dt, Direction(dir));
  Match<R>(c, eq, q, p, xi, dir, "sampled solution");
  int side;
  const rp::W w = p.s.Sample(xi, side);
  c.label((w.p != p.s.ps && w.p != p.s.L.p && w.p != p.s.R.p) ? "inside of a fan" : "constant region");
}

template <int R> void GodunovFlux(pbt::Case& c) {
  auto eq = Equation<R>(c);
  FluxMethod<Godunov<PerfectGas<R>>> fm{eq};
  const int dir = c.i(0, R - 1);
  const Problem p = Draw(c, eq.gamma);
  c.note("dir", dir);
  const auto L = Make<R>(eq, p.s.L, p.vL, dir), Rr = Make<R>(eq, p.s.R, p.vR, dir);
  Conservative<PerfectGas<R>> f{eq};
  std::array<fub::Complete<PerfectGas<R>>, 2> st{L, Rr};
  fm.ComputeNumericFlux(f, st, Duration(0.0), 1.0, Direction(dir));
  // fluxes are continuous across of stationary waves
  int side;
  const rp::W w = p.s.Sample(0.0, side);
  const Tang& v = side < 0 ? p.vL : p.vR;
  const double rmax = std::max({p.s.L.rho, p.s.R.rho, p.s.StarDensity(-1), p.s.StarDensity(1)});
  const double pmax = std::max({p.s.L.p, p.s.R.p, p.s.ps});
  const double vmax = p.Speed() + std::abs(p.vL[0]) + std::abs(p.vL[1]) + std::abs(p.vR[0]) + std::abs(p.vR[1]);
  const double tol = 1e-6 + 200 * p.r + 1e-6 / p.amax * 100;
  if (tol > 0.01)
    throw pbt::Discard{};
  const auto got = tst::Comps(f);
  std::vector<double> ref{w.rho * w.u};
  double k = 0.5 * w.rho * w.u * w.u;
  std::vector<double> scale{rmax * vmax};
  for (int d = 0, t = 0; d < R; ++d) {
    scale.push_back(rmax * vmax * vmax + pmax);
    if (d == dir)
      ref.push_back(w.rho * w.u * w.u + w.p);
    else {
      ref.push_back(w.rho * w.u * v[std::size_t(t)]);
      k += 0.5 * w.rho * v[std::size_t(t)] * v[std::size_t(t)];
      ++t;
    }
  }
  ref.push_back(w.u * (k + w.p / (eq.gamma - 1.0) + w.p));
  scale.push_back((rmax * vmax * vmax + pmax / (eq.gamma - 1.0)) * vmax);
  for (std::size_t i = 0; i < ref.size(); ++i)
    c.checkf(std::abs(got[i] - ref[i]) <= tol * scale[i], [&] { return "flux component " + std::to_string(i) + " is " + pbt::fmt(got[i]) + " instead of " + pbt::fmt(ref[i]); });
  // the stable time step is given by the heads of the waves
  const double dx = c.pick<double>({1.0, 0.01});
  const double dt = fm.ComputeStableDt(st, dx, Direction(dir));
  const double s = std::max(std::abs(p.s.Head(-1)), std::abs(p.s.Head(1)));
  c.rel(dt * s, dx, 1e-6 + 100 * p.r, "stable time step times fastest wave", 0);
}
template <int R> void Add() {
  const std::string n = "<" + std::to_string(R) + ">";
  auto add = [&](const std::string& what, long q, void (*f)(pbt::Case&)) { pbt::registry().push_back(pbt::Prop{what + n, q, 25 * q, f}); };
  add("middle state and signals", 20000, Middle<R>);
  add("solution at the interface", 8000, SampleAtInterface<R>);
  add("solution at any speed", 20000, SampleAtSpeed<R>);
  add("Godunov flux", 12000, GodunovFlux<R>);
}
pbt::Setup setup([] {
  Add<1>();
  Add<2>();
  Add<3>();
});
} // namespace

// C11: shallow water: physical flux, exact Riemann solutions, signal velocities
#include "fub/equations/ShallowWater.hpp"
#include "patch.hpp"
#include "riemann.hpp"
namespace {
using namespace fub;
using State = fub::Complete<ShallowWater>;
ShallowWater Equation(pbt::Case& c) {
  ShallowWater eq;
  eq.gravity_ = c.boolean() ? c.pick<double>({10.0, 9.81, 1.0}) : c.real(0.5, 20.0);
  return eq;
}
State Zero() {
  State q{};
  q.height = 0;
  q.momentum.setZero();
  return q;
}
CompleteArray<ShallowWater> Empty() {
  CompleteArray<ShallowWater> a{};
  a.height.setZero();
  a.momentum.setZero();
  return a;
}
State Make(double h, double u, double v, int dir) {
  State q{};
  q.height = h;
  q.momentum[dir] = h * u;
  q.momentum[1 - dir] = h * v;
  return q;
}
struct Problem {
  rp::Water s;
  double vL, vR, r, du, amax, umax;
  double Speed() const { return amax + umax; }
};
Problem Draw(pbt::Case& c, double g) {
  Problem p;
  p.s = rp::DrawWater(c, g, c.pick<double>({0.3, 1.0, 2.0}));
  p.amax = std::sqrt(g * std::max({p.s.L.rho, p.s.R.rho, p.s.hs}));
  p.umax = std::max({std::abs(p.s.L.u), std::abs(p.s.R.u), std::abs(p.s.us)});
  p.vL = p.amax * c.symmetric(2.0);
  p.vR = c.boolean() ? p.vL : p.amax * c.symmetric(2.0);
  p.du = 4e-7 + 1e-11 * p.Speed();
  p.r = p.du / (p.s.Slope() * p.s.hs) + 1e-10;
  if (!(p.r < 1e-3))
    throw pbt::Discard{};
  auto kind = [&](const rp::W& w) { return p.s.hs == w.rho ? "none" : (p.s.hs > w.rho ? "shock" : "rarefaction"); };
  c.label(std::string(kind(p.s.L)) + "/" + kind(p.s.R));
  c.note("gravity", pbt::fmt(g));
  c.note("left (h, u, v)", pbt::fmt(p.s.L.rho) + " " + pbt::fmt(p.s.L.u) + " " + pbt::fmt(p.vL));
  c.note("right", pbt::fmt(p.s.R.rho) + " " + pbt::fmt(p.s.R.u) + " " + pbt::fmt(p.vR));
  c.note("h*, u*", pbt::fmt(p.s.hs) + " " + pbt::fmt(p.s.us));
  c.nontrivial(p.s.hs != p.s.L.rho || p.s.hs != p.s.R.rho);
  return p;
}
double Delta(const Problem& p) { return 4.0 * p.du + 1e-7 * p.Speed() + 2.0 * p.r * p.Speed(); }
double Tol(const Problem& p) {
  return 20.0 * p.r + 1e-5 + 4.0 * Delta(p) / std::sqrt(p.s.g * std::min({p.s.L.rho, p.s.R.rho, p.s.hs}));
}
/// weak shocks: the solver may take either side of a jump that it cannot locate
bool Near(const Problem& p, const State& q, double xi, int dir) {
  const double rt = Tol(p);
  for (double d : {0.0, -Delta(p), Delta(p)}) {
    int side;
    const rp::W w = p.s.Sample(xi + d, side);
    const double v = side < 0 ? p.vL : p.vR;
    if (std::abs(q.height - w.rho) <= rt * w.rho && std::abs(q.momentum[dir] / q.height - w.u) <= rt * p.Speed() &&
        std::abs(q.momentum[1 - dir] / q.height - v) <= 1e-10 * p.amax)
      return true;
  }
  return false;
}

void Middle(pbt::Case& c) {
  ShallowWater eq = Equation(c);
  ExactRiemannSolver<ShallowWater> solver{eq};
  const int dir = c.i(0, 1);
  const Problem p = Draw(c, eq.gravity_);
  c.note("dir", dir);
  const State L = Make(p.s.L.rho, p.s.L.u, p.vL, dir), R = Make(p.s.R.rho, p.s.R.u, p.vR, dir);
  const State m = solver.ComputeMiddleState(L, R, Direction(dir));
  c.checkf(std::abs(m.height - p.s.hs) <= p.r * p.s.hs, [&] { return "middle height " + pbt::fmt(m.height) + " instead of " + pbt::fmt(p.s.hs); });
  c.checkf(std::abs(m.momentum[dir] / m.height - p.s.us) <= 2 * p.du, [&] { return "middle velocity " + pbt::fmt(m.momentum[dir] / m.height) + " instead of " + pbt::fmt(p.s.us); });
  const auto s = solver.ComputeSignals(L, R, Direction(dir));
  CompleteArray<ShallowWater> la = Empty(), ra = Empty();
  const int lane = c.i(0, kDefaultChunkSize - 1);
  tst::SetLane(la, lane, tst::Comps(L));
  tst::SetLane(ra, lane, tst::Comps(R));
  const auto sa = solver.ComputeSignals(la, ra, Direction(dir));
  for (int i = 0; i < 2; ++i) {
    const double ref = p.s.Head(2 * i - 1);
    const double tol = 4 * p.r * p.Speed() * (1.0 + p.s.hs / std::min(p.s.L.rho, p.s.R.rho)) + 1e-9 * p.Speed();
    c.checkf(std::abs(s[std::size_t(i)] - ref) <= tol, [&] { return std::string(i ? "right" : "left") + " signal " + pbt::fmt(s[std::size_t(i)]) + " instead of " + pbt::fmt(ref); });
    c.checkf(std::abs(sa[std::size_t(i)][lane] - ref) <= tol, [&] { return std::string(i ? "right" : "left") + " signal of lane " + std::to_string(lane) + ": " + pbt::fmt(sa[std::size_t(i)][lane]) + " instead of " + pbt::fmt(ref); });
  }
  // the signal velocities of the HLL method
  ShallowWaterSignalVelocities hll;
  const auto h = hll(eq, L, R, Direction(dir));
  for (int l = 0; l < kDefaultChunkSize; ++l) {
    tst::SetLane(la, l, tst::Comps(L));
    tst::SetLane(ra, l, tst::Comps(R));
  }
  const auto ha = hll(eq, la, ra, Direction(dir));
  const double cL = std::sqrt(eq.gravity_ * p.s.L.rho), cR = std::sqrt(eq.gravity_ * p.s.R.rho), e = 1e-12 * p.Speed();
  c.check(h[0] <= std::min(p.s.L.u - cL, p.s.R.u - cR) + e && h[1] >= std::max(p.s.L.u + cL, p.s.R.u + cR) - e,
          "HLL signals " + pbt::list(h) + " do not enclose the waves of both states");
  for (int i = 0; i < 2; ++i)
    c.rel(ha[std::size_t(i)][lane], h[std::size_t(i)], 1e-12, "vectorised HLL signal", p.Speed());
}

void AtInterface(pbt::Case& c) {
  ShallowWater eq = Equation(c);
  ExactRiemannSolver<ShallowWater> solver{eq};
  const int dir = c.i(0, 1);
  const Problem p = Draw(c, eq.gravity_);
  c.note("dir", dir);
  if (Tol(p) > 0.02)
    throw pbt::Discard{};
  const State L = Make(p.s.L.rho, p.s.L.u, p.vL, dir), R = Make(p.s.R.rho, p.s.R.u, p.vR, dir);
  State q{};
  solver.SolveRiemannProblem(q, L, R, Direction(dir));
  int side;
  const rp::W w = p.s.Sample(0.0, side);
  c.checkf(Near(p, q, 0.0, dir), [&] {
    return "solution (h, u, v) = " + pbt::fmt(q.height) + " " + pbt::fmt(q.momentum[dir] / q.height) + " " + pbt::fmt(q.momentum[1 - dir] / q.height) + " instead of " + pbt::fmt(w.rho) + " " +
           pbt::fmt(w.u) + " " + pbt::fmt(side < 0 ? p.vL : p.vR);
  });
  c.label(w.rho != p.s.hs && w.rho != p.s.L.rho && w.rho != p.s.R.rho ? "transonic" : "constant region");
  // lanes: this problem between others, some lanes are empty
  CompleteArray<ShallowWater> la = Empty(), ra = Empty(), sol = Empty();
  std::vector<std::vector<double>> ref;
  for (int l = 0; l < kDefaultChunkSize; ++l) {
    State a = Zero(), b = Zero(), x = Zero();
    const bool used = !c.chance(1, 4);
    if (used) {
      const double shift = p.amax * c.symmetric(2.0);
      a = Make(p.s.L.rho, p.s.L.u + shift, p.vL, dir);
      b = Make(p.s.R.rho, p.s.R.u + shift, p.vR, dir);
      solver.SolveRiemannProblem(x, a, b, Direction(dir));
    }
    tst::SetLane(la, l, tst::Comps(a));
    tst::SetLane(ra, l, tst::Comps(b));
    ref.push_back(used ? tst::Comps(x) : std::vector<double>{});
  }
  solver.SolveRiemannProblem(sol, la, ra, Direction(dir));
  for (int l = 0; l < kDefaultChunkSize; ++l)
    c.check(ref[std::size_t(l)].empty() || tst::GetLane(sol, l) == ref[std::size_t(l)], "vectorised solution differs from the scalar one in lane " + std::to_string(l));
}

void Fluxes(pbt::Case& c) {
  ShallowWater eq = Equation(c);
  const int dir = c.i(0, 1);
  const Problem p = Draw(c, eq.gravity_);
  c.note("dir", dir);
  const State L = Make(p.s.L.rho, p.s.L.u, p.vL, dir), R = Make(p.s.R.rho, p.s.R.u, p.vR, dir);
  auto phys = [&](double h, double u, double v) {
    std::vector<double> f(3);
    f[0] = h * u;
    f[std::size_t(1 + dir)] = h * u * u + 0.5 * eq.gravity_ * h * h;
    f[std::size_t(2 - dir)] = h * u * v;
    return f;
  };
  const double hmax = std::max({p.s.L.rho, p.s.R.rho, p.s.hs}), vmax = p.Speed() + std::abs(p.vL) + std::abs(p.vR);
  const std::vector<double> scale{hmax * vmax, hmax * vmax * vmax, hmax * vmax * vmax};
  auto cmp = [&](const std::vector<double>& got, const std::vector<double>& ref, double tol, const std::string& what) {
    for (std::size_t i = 0; i < 3; ++i)
      c.checkf(std::abs(got[i] - ref[i]) <= tol * scale[i], [&] { return what + ": component " + std::to_string(i) + " is " + pbt::fmt(got[i]) + " instead of " + pbt::fmt(ref[i]); });
  };
  Conservative<ShallowWater> f{};
  eq.Flux(f, L, Direction(dir));
  cmp(tst::Comps(f), phys(p.s.L.rho, p.s.L.u, p.vL), 1e-13, "physical flux");
  CompleteArray<ShallowWater> la{};
  ConservativeArray<ShallowWater> fa{};
  const int lane = c.i(0, kDefaultChunkSize - 1);
  for (int l = 0; l < kDefaultChunkSize; ++l)
    tst::SetLane(la, l, tst::Comps(l == lane ? L : R));
  eq.Flux(fa, la, Direction(dir));
  cmp(tst::GetLane(fa, lane), phys(p.s.L.rho, p.s.L.u, p.vL), 1e-13, "vectorised physical flux");
  // Godunov: the flux of the exact solution at the interface, continuous across of stationary waves
  const std::array<State, 2> st{L, R};
  FluxMethod<Godunov<ShallowWater>> god{eq};
  god.ComputeNumericFlux(f, st, Duration(0.0), 1.0, Direction(dir));
  int side;
  const rp::W w = p.s.Sample(0.0, side);
  const double tol = 1e-6 + 200 * p.r + 1e-4 / p.amax;
  if (tol < 0.01)
    cmp(tst::Comps(f), phys(w.rho, w.u, side < 0 ? p.vL : p.vR), tol, "Godunov flux");
  // HLL with the enclosing signals
  FluxMethod<Hll<ShallowWater, ShallowWaterSignalVelocities>> hll{eq, ShallowWaterSignalVelocities{}};
  hll.ComputeNumericFlux(f, st, Duration(0.0), 1.0, Direction(dir));
  const double cL = std::sqrt(eq.gravity_ * p.s.L.rho), cR = std::sqrt(eq.gravity_ * p.s.R.rho);
  const double sL = std::min({p.s.L.u - cL, p.s.R.u - cR, 0.0}), sR = std::max({p.s.L.u + cL, p.s.R.u + cR, 0.0});
  const auto fL = phys(p.s.L.rho, p.s.L.u, p.vL), fR = phys(p.s.R.rho, p.s.R.u, p.vR), qL = tst::Comps(L), qR = tst::Comps(R);
  std::vector<double> ref(3);
  for (std::size_t i = 0; i < 3; ++i)
    ref[i] = (sR * fL[i] - sL * fR[i] + sL * sR * (qR[i] - qL[i])) / (sR - sL);
  cmp(tst::Comps(f), ref, 1e-12, "HLL flux");
  if (p.s.L.u - cL >= 0 && p.s.R.u - cR >= 0)
    cmp(tst::Comps(f), fL, 1e-12, "HLL flux of a supercritical flow");
  // a first-order update with half of the stable time step keeps the water depth positive
  const double dt_god = god.ComputeStableDt(st, 1.0, Direction(dir));
  const double fast = std::max(std::abs(p.s.Head(-1)), std::abs(p.s.Head(1)));
  c.rel(dt_god * fast, 1.0, 1e-6 + 100 * p.r * (1.0 + p.s.hs / std::min(p.s.L.rho, p.s.R.rho)), "stable time step of the Godunov method times the fastest wave", 0);
  const double dt = 0.5 * hll.ComputeStableDt(st, 1.0, Direction(dir));
  c.check(p.s.R.rho + dt * (f.height - fR[0]) > 0 && p.s.L.rho + dt * (fL[0] - f.height) > 0, "the HLL update drains a cell");
}
PBT_PROP("middle state and signals", 40000, 1000000) { Middle(c); }
PBT_PROP("solution at the interface", 20000, 500000) { AtInterface(c); }
PBT_PROP("fluxes", 40000, 1000000) { Fluxes(c); }
} // namespace

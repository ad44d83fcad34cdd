// C32: states which realise a prescribed mass flow, and the state in front of
// a wave whose star state is known.
#include "pbt.hpp"
#include "fub/State.hpp"
#include "fub/CompleteFromCons.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/PerfectGasMix.hpp"
#include "fub/equations/RequireMassflow.hpp"
#include "fx_gas.hpp"
using namespace fub;
namespace {
using L = long double;
struct Curve { // the left wave curve, in extended precision
  L g, rho, u, p;
  L Rho(L s) const {
    const L r = s / p, q = (g - 1) / (g + 1);
    return r > 1 ? rho * (r + q) / (q * r + 1) : rho * std::pow(r, 1 / g);
  }
  L U(L s) const {
    const L a = std::sqrt(g * p / rho);
    if (s > p) {
      // mass flux through the shock: m^2 = (s - p) / (1/rho - 1/rho*)
      const L m = std::sqrt((s - p) / (1 / rho - 1 / Rho(s)));
      return u - (s - p) / m;
    }
    return u - 2 * a / (g - 1) * (std::pow(s / p, (g - 1) / (2 * g)) - 1);
  }
  L Flux(L s) const { return Rho(s) * U(s); }
};
template <typename Eq> struct Extra;
template <int R> struct Extra<PerfectGas<R>> {
  static double Gamma(const PerfectGas<R>& eq) { return eq.gamma; }
  template <typename A, typename B> static void Same(pbt::Case&, const PerfectGas<R>&, const A&, const B&) {}
};
template <int R> struct Extra<PerfectGasMix<R>> {
  static double Gamma(const PerfectGasMix<R>& eq) { return eq.gamma; }
  template <typename A, typename B> static void Same(pbt::Case& c, const PerfectGasMix<R>& eq, const A& a, const B& b) {
    for (int i = 0; i < eq.n_species; ++i)
      c.near(a.species[i] / a.density, b.species[i] / b.density, 1e-12, "the mass fraction of species " + std::to_string(i) + " changed");
    for (int i = 0; i < eq.n_passive_scalars; ++i)
      c.near(a.passive_scalars[i] / a.density, b.passive_scalars[i] / b.density, 5e-12, "the passive scalar " + std::to_string(i) + " changed");
  }
};
template <typename Eq, int R> void Forward(pbt::Case& c) {
  using T = fx::Tr<Eq>;
  Eq eq = T::Equation(c);
  const double g = Extra<Eq>::Gamma(eq);
  const int dir = c.i(0, R - 1);
  const auto w = T::Base(c, eq);
  Complete<Eq> q(eq);
  T::Make(eq, w, q);
  const double rho = w[0], p = w[std::size_t(R) + 1], u = w[std::size_t(dir) + 1], a = std::sqrt(g * p / rho);
  // the same state as seen by the code: pressure and speed of sound are stored
  const Curve k{g, rho, u, p};
  const double area = c.chance(1, 3) ? 1.0 : c.logreal(1e-3, 1e3);
  // what the star state should carry
  double target = 0.0, pstar = 0.0;
  const int kind = c.i(0, 4);
  switch (kind) {
  case 0: // given by the pressure behind a shock
    pstar = p * (1.0 + (c.boolean() ? 100.0 : 1.0) * c.unit());
    target = double(k.Flux(pstar));
    break;
  case 1: // behind a rarefaction
    pstar = p * c.real(0.1, 1.0);
    target = double(k.Flux(pstar));
    break;
  case 2: // what the state carries already
    target = rho * u;
    break;
  case 3:
    target = 0.0;
    break;
  default:
    target = rho * a * c.symmetric(3.0);
  }
  const double massflow = target * area;
  c.note("gamma", g);
  c.note("direction", dir);
  c.note("state (rho, u.., p, ..)", pbt::list(w));
  c.note("required mass flow", massflow);
  c.note("relative area", area);
  // the flow is delivered with certainty if one of the bisection's first
  // pressures is on the other side
  const L want = L(massflow) / area, here = k.Flux(p), slack = 1e-9L * rho * (a + std::abs(u));
  bool feasible = false, hopeless = false;
  if (here < want) {
    // the mass flow grows along the rarefaction until the flow is sonic there
    const L sonic = (2 + (g - 1) * u / a) / (g + 1);
    const L ps = sonic > 0 ? p * std::pow(sonic, 2 * L(g) / (g - 1)) : 0;
    const L best = u < a ? k.Flux(std::max(ps, p * std::pow(2.0L, -10))) : here;
    feasible = want < best - slack;
    hopeless = u < a && want > (ps > 0 ? std::max(best, k.Flux(ps)) : std::max(best, L(0))) + 1e-9L * rho * (a + std::abs(u));
  } else { // behind a shock of any strength
    feasible = k.Flux(p * std::pow(2.0L, 10)) < want - slack;
  }
  c.label(feasible ? "feasible" : hopeless ? "infeasible" : "boundary");
  RequireMassflow_SolveExactRiemannProblem solve{};
  Complete<Eq> out(eq);
  const bool alias = c.chance(1, 4);
  bool threw = false;
  if (c.chance(1, 4)) { // conserved quantities in and out
    Conservative<Eq> in(eq), res(eq);
    ForEachVariable([](auto& x, const auto& y) { x = y; }, in, q);
    Complete<Eq> full(eq), direct(eq);
    CompleteFromCons(eq, full, in);
    bool t1 = false, t2 = false;
    try {
      solve(eq, res, in, massflow, area, Direction(dir));
    } catch (const std::runtime_error&) {
      t1 = true;
    }
    try {
      solve(eq, direct, full, massflow, area, Direction(dir));
    } catch (const std::runtime_error&) {
      t2 = true;
    }
    c.check(t1 == t2, "conserved and complete states are not treated alike");
    if (!t1)
      ForEachVariable([&](const auto& x, const auto& y) {
        if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>)
          c.equal(x, y, "conserved quantity");
        else
          for (int i = 0; i < x.size(); ++i)
            c.equal(x[i], y[i], "conserved quantity");
      }, res, direct);
    c.label("conserved");
  }
  try {
    if (alias) {
      out = q;
      solve(eq, out, out, massflow, area, Direction(dir));
    } else {
      solve(eq, out, q, massflow, area, Direction(dir));
    }
  } catch (const std::runtime_error&) {
    threw = true;
  }
  c.nontrivial(!threw);
  if (threw) {
    c.label("rejected");
    c.check(!feasible, "the mass flow is attainable but was rejected");
    return;
  }
  c.check(!hopeless, "no state on the wave curve carries the required mass flow, but one was returned");
  const double ps = euler::Pressure(eq, out);
  c.label(ps > p ? "shock" : ps < p ? "rarefaction" : "no wave");
  c.check(out.density > 0 && ps > 0, "the returned state has no positive density and pressure");
  const double scale = rho * (a + std::abs(u)) + std::abs(target);
  const double us = out.momentum[dir] / out.density;
  c.near(out.momentum[dir] * area, massflow, 1e-9 * area * (scale + out.density * std::abs(us)), "the mass flow of the returned state");
  // it is behind a wave that runs into the given state
  c.rel(out.density, double(k.Rho(ps)), 1e-9, "the density is not the one behind the left wave", out.density);
  const double uscale = a + std::abs(u) + std::abs(us);
  c.near(us, double(k.U(ps)), 1e-9 * uscale, "the velocity is not the one behind the left wave");
  if (here < want - slack && u < a)
    c.check(ps <= p * (1 + 1e-9), "a larger mass flow needs a rarefaction");
  if (here > want + slack)
    c.check(ps >= p * (1 - 1e-9), "a smaller mass flow needs a shock");
  // solution nearest to the state: no other root in between
  const double as = std::sqrt(g * ps / out.density);
  if (here < want - slack && u < a)
    c.check(us <= as * (1 + 1e-6), "the state is beyond the sonic point");
  // the rest of the state
  for (int d = 0; d < R; ++d)
    if (d != dir)
      c.near(out.momentum[d] / out.density, w[std::size_t(d) + 1], 1e-12 * (std::abs(w[std::size_t(d) + 1]) + a), "the tangential velocity changed");
  double ek = 0;
  for (int d = 0; d < R; ++d)
    ek += 0.5 * out.momentum[d] * out.momentum[d] / out.density;
  c.near(out.energy, out.pressure / (g - 1) + ek, 1e-11 * (out.energy + ek), "the energy does not belong to the pressure");
  c.rel(out.speed_of_sound, std::sqrt(g * out.pressure / out.density), 1e-11, "the speed of sound is inconsistent", out.speed_of_sound);
  Extra<Eq>::Same(c, eq, out, q);
  // what it delivers, it delivers again
  if (c.boolean() && ps > 1e-3 * p && ps < 1e3 * p && us < 0.99 * as) {
    Complete<Eq> again(eq);
    const double have = out.momentum[dir] * area;
    solve(eq, again, out, have, area, Direction(dir));
    c.rel(again.density, out.density, 1e-6, "asking for the mass flow of a state changes the state: density", out.density);
    c.rel(euler::Pressure(eq, again), ps, 1e-6, "asking for the mass flow of a state changes the state: pressure", ps);
    c.label("repeated");
  }
}
template <typename Eq, int R> void Backward(pbt::Case& c) {
  using T = fx::Tr<Eq>;
  Eq eq = T::Equation(c);
  const double g = Extra<Eq>::Gamma(eq);
  const int dir = c.i(0, R - 1);
  const double rho = c.chance(1, 3) ? 1.0 : c.logreal(1e-2, 1e2), p = c.chance(1, 3) ? 1.0 : c.logreal(1e-2, 1e6);
  const double a = std::sqrt(g * p / rho), u = a * c.symmetric(3.0);
  const double r = c.chance(1, 6) ? 1.0 : c.boolean() ? 1.0 + 20.0 * c.unit() : c.real(0.05, 1.0);
  const Curve k{g, rho, u, p};
  const double ps = p * r, rs = double(k.Rho(ps)), us = r == 1.0 ? u : double(k.U(ps));
  c.note("gamma", g);
  c.note("left (rho, u, p)", pbt::list(std::vector<double>{rho, u, p}));
  c.note("star (rho, u, p)", pbt::list(std::vector<double>{rs, us, ps}));
  c.nontrivial(r != 1.0);
  c.label(r > 1 ? "shock" : "rarefaction");
  const auto w = T::Base(c, eq);
  Complete<Eq> q(eq);
  T::Make(eq, w, q);
  Primitive<Eq> left(eq);
  PrimFromComplete(eq, left, q);
  const Primitive<Eq> before = left;
  RequireMassflow_SolveExactRiemannProblem solve{};
  solve(eq, left, rs, us, ps, p, Direction(dir));
  c.rel(left.density, rho, 1e-10, "the density in front of the wave", rho);
  c.near(left.velocity[dir], u, 1e-10 * (a + std::abs(u) + std::abs(us)), "the velocity in front of the wave");
  c.rel(left.pressure, p, 1e-12, "the pressure in front of the wave", p);
  for (int d = 0; d < R; ++d)
    if (d != dir)
      c.equal(left.velocity[d], before.velocity[d], "the tangential velocity");
}
const pbt::Setup setup([] {
  auto add = [](std::string n, int q, int t, void (*f)(pbt::Case&)) { pbt::registry().push_back(pbt::Prop{n, q, t, f}); };
  add("mass flow, PerfectGas<1>", 4000, 1000000, Forward<PerfectGas<1>, 1>);
  add("mass flow, PerfectGas<2>", 4000, 1000000, Forward<PerfectGas<2>, 2>);
  add("mass flow, PerfectGas<3>", 4000, 1000000, Forward<PerfectGas<3>, 3>);
  add("mass flow, PerfectGasMix<1>", 4000, 1000000, Forward<PerfectGasMix<1>, 1>);
  add("mass flow, PerfectGasMix<2>", 4000, 1000000, Forward<PerfectGasMix<2>, 2>);
  add("state in front of a wave, PerfectGas<1>", 3000, 800000, Backward<PerfectGas<1>, 1>);
  add("state in front of a wave, PerfectGas<3>", 3000, 800000, Backward<PerfectGas<3>, 3>);
  add("state in front of a wave, PerfectGasMix<2>", 3000, 800000, Backward<PerfectGasMix<2>, 2>);
});
} // namespace

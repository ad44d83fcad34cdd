// shallow water, advection and Burgers' equation
#include "fx_impl.hpp"
#include "fub/equations/Advection.hpp"
#include "fub/equations/Burgers.hpp"
#include "fub/equations/ShallowWater.hpp"
namespace fx {
template <> struct Tr<ShallowWater> {
  using Eq = ShallowWater;
  static const char* Name() { return "ShallowWater"; }
  static Eq Equation(pbt::Case& c) {
    Eq eq;
    eq.gravity_ = c.pick<double>({10.0, 10.0, 9.81, 1.0});
    return eq;
  }
  static void Describe(const Eq& eq, Method& m) { m.gamma = eq.gravity_; }
  static std::vector<Comp> Comps(const Eq&) { return {{Mass, 0}, {Momentum, 0}, {Momentum, 1}}; }
  static std::vector<double> Base(pbt::Case& c, const Eq& eq) {
    const double h = c.chance(1, 3) ? 1.0 : c.logreal(1e-2, 1e2);
    const double a = std::sqrt(eq.gravity_ * h);
    return {h, a * c.symmetric(2.5), a * c.symmetric(2.5)};
  }
  static std::vector<double> Perturb(pbt::Case& c, const Eq& eq, const std::vector<double>& b, double amp) {
    auto w = b;
    const double a = std::sqrt(eq.gravity_ * b[0]) * std::exp(-amp);
    w[0] *= std::exp(amp * c.symmetric(1.0));
    w[1] += 0.3 * a * std::min(1.0, amp) * c.symmetric(1.0);
    w[2] += 0.3 * a * std::min(1.0, amp) * c.symmetric(1.0);
    return w;
  }
  static void Make(const Eq&, const std::vector<double>& w, fub::Complete<Eq>& q) {
    q.height = w[0];
    q.momentum[0] = w[0] * w[1];
    q.momentum[1] = w[0] * w[2];
  }
  static std::vector<double> Scale(const Eq& eq, const fub::Complete<Eq>& q) {
    const double s = std::sqrt((q.momentum * q.momentum).sum()) / q.height + std::sqrt(eq.gravity_ * q.height);
    return {q.height * s, q.height * s * s, q.height * s * s};
  }
  static std::array<double, 3> Speeds(const Eq& eq, const fub::Complete<Eq>& q, int dir) {
    return {std::abs(q.momentum[dir] / q.height), std::sqrt(eq.gravity_ * q.height), std::sqrt((q.momentum * q.momentum).sum()) / q.height};
  }
};
template <> struct Tr<Advection2d> {
  using Eq = Advection2d;
  static const char* Name() { return "Advection2d"; }
  static Eq Equation(pbt::Case& c) {
    double u = c.pick<double>({1.0, -1.0, 0.0, 0.25, -3.0}), v = c.symmetric(2.0);
    return Eq({u, v});
  }
  static void Describe(const Eq& eq, Method& m) { m.velocity = {eq.velocity[0], eq.velocity[1], 0.0}; }
  static std::vector<Comp> Comps(const Eq&) { return {{Mass, 0}}; }
  static std::vector<double> Base(pbt::Case& c, const Eq&) { return {c.chance(1, 4) ? 0.0 : c.symmetric(10.0)}; }
  static std::vector<double> Perturb(pbt::Case& c, const Eq&, const std::vector<double>& b, double amp) { return {b[0] + 5.0 * amp * c.symmetric(1.0)}; }
  static void Make(const Eq&, const std::vector<double>& w, fub::Complete<Eq>& q) { q.mass = w[0]; }
  static std::vector<double> Scale(const Eq& eq, const fub::Complete<Eq>& q) {
    return {(std::abs(eq.velocity[0]) + std::abs(eq.velocity[1])) * (1.0 + std::abs(q.mass)) + 1e-30};
  }
  static std::array<double, 3> Speeds(const Eq& eq, const fub::Complete<Eq>&, int dir) { return {std::abs(eq.velocity[std::size_t(dir)]), 1e-3, 1.0}; }
};
template <> struct Tr<Burgers1d> {
  using Eq = Burgers1d;
  static const char* Name() { return "Burgers1d"; }
  static Eq Equation(pbt::Case&) { return {}; }
  static void Describe(const Eq&, Method&) {}
  static std::vector<Comp> Comps(const Eq&) { return {{Mass, 0}}; }
  static std::vector<double> Base(pbt::Case& c, const Eq&) { return {c.chance(1, 4) ? 0.0 : c.symmetric(3.0)}; }
  static std::vector<double> Perturb(pbt::Case& c, const Eq&, const std::vector<double>& b, double amp) { return {b[0] + 2.0 * amp * c.symmetric(1.0)}; }
  static void Make(const Eq&, const std::vector<double>& w, fub::Complete<Eq>& q) { q.u = w[0]; }
  static std::vector<double> Scale(const Eq&, const fub::Complete<Eq>& q) { return {0.5 * q.u * q.u + 1e-12}; }
  static std::array<double, 3> Speeds(const Eq&, const fub::Complete<Eq>& q, int) { return {std::abs(q.u), 1e-3, std::abs(q.u)}; }
};
} // namespace fx
using namespace fub;
using SwHll = FluxMethod<Hll<ShallowWater, ShallowWaterSignalVelocities>>;
using SwMuscl = FluxMethod<MusclHancock<ShallowWater>>;
using SwMusclHll = FluxMethod<MusclHancock<ShallowWater, HllMethod<ShallowWater, ShallowWaterSignalVelocities>>>;
FX_METHOD("ShallowWater Hll", 1, ShallowWater, SwHll, true, false);
FX_METHOD("ShallowWater Godunov", 0.6, ShallowWater, FluxMethod<Godunov<ShallowWater>>, true, false, m.tol = 1e-5; m.exact_signals = true);
FX_METHOD("ShallowWater MusclHancock", 0.5, ShallowWater, SwMuscl, true, false, m.tol = 1e-5; m.exact_signals = true);
FX_METHOD("ShallowWater MusclHancock Hll", 0.5, ShallowWater, SwMusclHll, true, false);
FX_METHOD("Advection2d Godunov", 0.7, Advection2d, FluxMethod<Godunov<Advection2d>>, true, false);
FX_METHOD("Advection2d MusclHancock", 0.5, Advection2d, FluxMethod<MusclHancock<Advection2d>>, true, false);
FX_METHOD("Burgers1d Godunov", 0.7, Burgers1d, FluxMethod<Godunov<Burgers1d>>, true, false);
FX_METHOD("Burgers1d MusclHancock", 0.5, Burgers1d, FluxMethod<MusclHancock<Burgers1d>>, true, false);

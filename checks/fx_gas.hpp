// Gas dynamics: perfect gas and perfect gas mixtures.
#pragma once
#include "fx_impl.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/PerfectGasMix.hpp"
namespace fx {
inline double DrawGamma(pbt::Case& c) {
  switch (c.below(4)) {
  case 0:
    return 1.4;
  case 1:
    return c.pick<double>({5.0 / 3.0, 1.28, 1.1, 2.0});
  default:
    return c.real(1.1, 2.0);
  }
}
/// primitives: density, velocity components, pressure
inline std::vector<double> GasBase(pbt::Case& c, int R, double gamma, double Minv) {
  std::vector<double> w;
  w.push_back(c.chance(1, 3) ? 1.0 : c.logreal(1e-2, 1e2));
  const double p = c.chance(1, 3) ? 1.0 : c.logreal(1e-2, 1e6);
  const double a = std::sqrt(gamma * p / w[0]) * Minv;
  for (int d = 0; d < R; ++d)
    w.push_back(a * c.symmetric(d == 0 || c.boolean() ? 3.0 : 1.0));
  w.push_back(p);
  return w;
}
inline std::vector<double> GasPerturb(pbt::Case& c, int R, double gamma, double Minv, std::vector<double> w, double amp) {
  const double a = std::sqrt(gamma * w[std::size_t(R) + 1] / w[0]) * Minv * std::exp(-amp);
  w[0] *= std::exp(amp * c.symmetric(1.0));
  for (int d = 0; d < R; ++d)
    w[std::size_t(d) + 1] += 0.3 * a * std::min(1.0, amp) * c.symmetric(1.0);
  w[std::size_t(R) + 1] *= std::exp(amp * c.symmetric(1.0));
  return w;
}

template <int R> struct Tr<PerfectGas<R>> {
  using Eq = PerfectGas<R>;
  static const char* Name() { return "PerfectGas"; }
  static Eq Equation(pbt::Case& c) {
    Eq eq;
    eq.gamma = DrawGamma(c);
    eq.gamma_minus_1_inv = 1.0 / (eq.gamma - 1.0);
    eq.gamma_array_ = Array1d::Constant(eq.gamma);
    eq.gamma_minus_1_inv_array_ = Array1d::Constant(eq.gamma_minus_1_inv);
    return eq;
  }
  static void Describe(const Eq& eq, Method& m) { m.gamma = eq.gamma; }
  static std::vector<Comp> Comps(const Eq&) {
    std::vector<Comp> v{{Mass, 0}};
    for (int d = 0; d < R; ++d)
      v.push_back({Momentum, d});
    v.push_back({Energy, 0});
    return v;
  }
  static std::vector<double> Base(pbt::Case& c, const Eq& eq) { return GasBase(c, R, eq.gamma, 1.0); }
  static std::vector<double> Perturb(pbt::Case& c, const Eq& eq, const std::vector<double>& b, double amp) {
    return GasPerturb(c, R, eq.gamma, 1.0, b, amp);
  }
  static void Make(const Eq& eq, const std::vector<double>& w, fub::Complete<Eq>& q) {
    q.density = w[0];
    double ek = 0;
    for (int d = 0; d < R; ++d) {
      q.momentum[d] = w[0] * w[std::size_t(d) + 1];
      ek += 0.5 * w[0] * w[std::size_t(d) + 1] * w[std::size_t(d) + 1];
    }
    q.pressure = w[std::size_t(R) + 1];
    q.energy = q.pressure / (eq.gamma - 1.0) + ek;
    q.speed_of_sound = std::sqrt(eq.gamma * q.pressure / q.density);
  }
  static std::vector<double> Scale(const Eq&, const fub::Complete<Eq>& q) {
    const double s = std::sqrt((q.momentum * q.momentum).sum()) / q.density + q.speed_of_sound;
    std::vector<double> v{q.density * s};
    for (int d = 0; d < R; ++d)
      v.push_back(q.density * s * s);
    v.push_back((q.energy + q.pressure) * s);
    return v;
  }
  static std::array<double, 3> Speeds(const Eq&, const fub::Complete<Eq>& q, int dir) {
    return {std::abs(q.momentum[dir] / q.density), q.speed_of_sound, std::sqrt((q.momentum * q.momentum).sum()) / q.density};
  }
};

template <int R> struct Tr<PerfectGasMix<R>> {
  using Eq = PerfectGasMix<R>;
  static const char* Name() { return "PerfectGasMix"; }
  static Eq Equation(pbt::Case& c) {
    Eq eq;
    eq.SetConstants(c.pick<double>({287.4, 1.0, 100.0}), DrawGamma(c));
    eq.n_species = c.i(0, 3);
    eq.n_passive_scalars = c.i(0, 2);
    return eq;
  }
  static void Describe(const Eq& eq, Method& m) {
    m.gamma = eq.gamma;
    m.Msq = eq.Msq;
  }
  static std::vector<Comp> Comps(const Eq& eq) {
    std::vector<Comp> v{{Mass, 0}};
    for (int d = 0; d < R; ++d)
      v.push_back({Momentum, d});
    v.push_back({Energy, 0});
    for (int i = 0; i < eq.n_species; ++i)
      v.push_back({Species, i});
    for (int i = 0; i < eq.n_passive_scalars; ++i)
      v.push_back({Scalar, i});
    return v;
  }
  static std::vector<double> Base(pbt::Case& c, const Eq& eq) {
    auto w = GasBase(c, R, eq.gamma, 1.0 / std::sqrt(eq.Msq));
    for (int i = 0; i < eq.n_species; ++i)
      w.push_back(c.unit());
    for (int i = 0; i < eq.n_passive_scalars; ++i)
      w.push_back(c.symmetric(5.0));
    return w;
  }
  static std::vector<double> Perturb(pbt::Case& c, const Eq& eq, const std::vector<double>& b, double amp) {
    auto w = GasPerturb(c, R, eq.gamma, 1.0 / std::sqrt(eq.Msq), b, amp);
    if (amp > 0)
      for (int i = 0; i < eq.n_species + eq.n_passive_scalars; ++i)
        if (c.boolean())
          w[std::size_t(R + 2 + i)] = i < eq.n_species ? c.unit() : c.symmetric(5.0);
    return w;
  }
  static void Make(const Eq& eq, const std::vector<double>& w, fub::Complete<Eq>& q) {
    q.density = w[0];
    double ek = 0;
    for (int d = 0; d < R; ++d) {
      q.momentum[d] = w[0] * w[std::size_t(d) + 1];
      ek += 0.5 * w[0] * w[std::size_t(d) + 1] * w[std::size_t(d) + 1];
    }
    q.pressure = w[std::size_t(R) + 1];
    q.energy = q.pressure / (eq.gamma - 1.0) + eq.Msq * ek;
    q.speed_of_sound = std::sqrt(eq.gamma * q.pressure / q.density);
    for (int i = 0; i < eq.n_species; ++i)
      q.species[i] = w[0] * w[std::size_t(R + 2 + i)];
    for (int i = 0; i < eq.n_passive_scalars; ++i)
      q.passive_scalars[i] = w[0] * w[std::size_t(R + 2 + eq.n_species + i)];
  }
  static std::vector<double> Scale(const Eq& eq, const fub::Complete<Eq>& q) {
    const double s = std::sqrt((q.momentum * q.momentum).sum()) / q.density + q.speed_of_sound / std::sqrt(eq.Msq);
    std::vector<double> v{q.density * s};
    for (int d = 0; d < R; ++d)
      v.push_back(q.density * s * s);
    v.push_back((q.energy + q.pressure) * s);
    for (int i = 0; i < eq.n_species; ++i)
      v.push_back(q.density * s);
    for (int i = 0; i < eq.n_passive_scalars; ++i)
      v.push_back(5.0 * q.density * s);
    return v;
  }
  static std::array<double, 3> Speeds(const Eq& eq, const fub::Complete<Eq>& q, int dir) {
    return {std::abs(q.momentum[dir] / q.density), q.speed_of_sound / std::sqrt(eq.Msq), std::sqrt((q.momentum * q.momentum).sum()) / q.density};
  }
};
} // namespace fx

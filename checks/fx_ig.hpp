// the reacting ideal gas mixture
#pragma once
#include "fx_impl.hpp"
#include "fub/equations/IdealGasMix.hpp"
#include "fub/equations/ideal_gas_mix/FlameMasterReactor.hpp"
#include "fub/equations/ideal_gas_mix/mechanism/Burke2012.hpp"
namespace fx {
template <int R> struct Tr<IdealGasMix<R>> {
  using Eq = IdealGasMix<R>;
  static const char* Name() { return "IdealGasMix"; }
  static Eq Equation(pbt::Case&) {
    static const Burke2012 mech{};
    return Eq(FlameMasterReactor(mech));
  }
  static void Describe(const Eq&, Method&) {}
  static std::vector<Comp> Comps(const Eq& eq) {
    std::vector<Comp> v{{Mass, 0}};
    for (int d = 0; d < R; ++d)
      v.push_back({Momentum, d});
    v.push_back({Energy, 0});
    for (int i = 0; i < eq.GetReactor().GetNSpecies(); ++i)
      v.push_back({Species, i});
    return v;
  }
  // temperature, velocity, pressure, mass fractions
  static std::vector<double> Base(pbt::Case& c, const Eq& eq) {
    std::vector<double> w{c.chance(1, 3) ? 300.0 : c.real(250.0, 2800.0)};
    for (int d = 0; d < R; ++d)
      w.push_back(600.0 * c.symmetric(d == 0 || c.boolean() ? 3.0 : 1.0));
    w.push_back(c.chance(1, 3) ? 101325.0 : c.logreal(1e3, 5e6));
    Fractions(c, eq, w);
    return w;
  }
  static void Fractions(pbt::Case& c, const Eq& eq, std::vector<double>& w) {
    const int n = eq.GetReactor().GetNSpecies();
    double sum = 0;
    std::vector<double> y;
    for (int i = 0; i < n; ++i) {
      y.push_back(c.chance(1, 3) ? c.unit() : 0.0);
      sum += y.back();
    }
    if (sum < 1e-3) {
      y[std::size_t(n - 1)] = 1.0;
      sum = 0;
      for (double x : y)
        sum += x;
    }
    w.resize(std::size_t(R) + 2);
    for (int i = 0; i < n; ++i)
      w.push_back(y[std::size_t(i)] / sum);
  }
  static std::vector<double> Perturb(pbt::Case& c, const Eq& eq, const std::vector<double>& b, double amp) {
    auto w = b;
    w[0] = std::min(3000.0, std::max(220.0, w[0] * std::exp(0.5 * amp * c.symmetric(1.0))));
    for (int d = 0; d < R; ++d)
      w[std::size_t(d) + 1] += 100.0 * std::min(1.0, amp) * c.symmetric(1.0);
    w[std::size_t(R) + 1] *= std::exp(amp * c.symmetric(1.0));
    if (amp > 0.0 && c.boolean()) {
      auto v = w;
      Fractions(c, eq, v);
      // light species change the density of a mixture by large factors
      const double a = std::min(1.0, amp * amp);
      for (std::size_t i = std::size_t(R) + 2; i < w.size(); ++i)
        w[i] += a * (v[i] - w[i]);
    }
    return w;
  }
  static void Make(const Eq& eq_, const std::vector<double>& w, fub::Complete<Eq>& q) {
    Eq& eq = const_cast<Eq&>(eq_);
    FlameMasterReactor& r = eq.GetReactor();
    std::vector<double> y(w.begin() + R + 2, w.end());
    r.SetMassFractions(y);
    r.SetTemperature(w[0]);
    r.SetPressure(w[std::size_t(R) + 1]);
    Eigen::Array<double, R, 1> u;
    for (int d = 0; d < R; ++d)
      u[d] = w[std::size_t(d) + 1];
    eq.CompleteFromReactor(q, u);
  }
  static std::vector<double> Scale(const Eq& eq, const fub::Complete<Eq>& q) {
    const double u = std::sqrt((q.momentum * q.momentum).sum()) / q.density;
    const double s = u + q.speed_of_sound;
    std::vector<double> v{q.density * s};
    for (int d = 0; d < R; ++d)
      v.push_back(q.density * s * s);
    // the energy contains the (large) enthalpies of formation
    v.push_back((std::abs(q.energy) + q.density * 2e7 * 0.1 + q.pressure) * s);
    for (int i = 0; i < eq.GetReactor().GetNSpecies(); ++i)
      v.push_back(q.density * s);
    return v;
  }
  static std::array<double, 3> Speeds(const Eq&, const fub::Complete<Eq>& q, int dir) {
    return {std::abs(q.momentum[dir] / q.density), q.speed_of_sound, std::sqrt((q.momentum * q.momentum).sum()) / q.density};
  }
};
} // namespace fx

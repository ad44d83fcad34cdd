// reactors: generators and an independent model of the mixture
#pragma once
#include "fub/equations/ideal_gas_mix/FlameMasterReactor.hpp"
#include "fub/equations/ideal_gas_mix/mechanism/Burke2012.hpp"
#include "pbt.hpp"
#include <memory>
#include <numeric>

namespace rx {
using namespace fub;
using Vec = std::vector<double>;
inline constexpr int W = kDefaultChunkSize;

inline const Burke2012& Burke() {
  static const Burke2012 m{};
  return m;
}

/// A mechanism with known thermodynamics (cp_i = a_i + b_i T) and first-order reactions between isomers.
struct Synthetic : FlameMasterMechanism {
  int n{1};
  Vec a, b, h0, s0, M;
  std::vector<Vec> k; // k[i][j]: rate of j -> i
  double R{8314.462175};
  double Cp(int i, double T) const { return a[i] + b[i] * T; }
  double H(int i, double T) const { return h0[i] + a[i] * T + 0.5 * b[i] * T * T; }
  double S(int i, double T) const { return s0[i] + a[i] * std::log(T / 298.15) + b[i] * (T - 298.15); }
  void ComputeProductionRates(span<double> cdot, span<double>, span<double>, span<double> c, span<double>, double, double) const override {
    for (int i = 0; i < n; ++i)
      cdot[i] = 0.0;
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) {
        cdot[i] += k[i][j] * c[j];
        cdot[j] -= k[i][j] * c[j];
      }
  }
  void ComputeThermoData(span<double> h, span<double> cp, double T, span<double> s) const override {
    for (int i = 0; i < n; ++i) {
      h[i] = H(i, T);
      cp[i] = Cp(i, T);
      s[i] = S(i, T);
    }
  }
  void ComputeThermoData(ArrayXd& h, ArrayXd& cp, Array1d T) const override {
    for (int i = 0; i < n; ++i)
      for (int l = 0; l < W; ++l) {
        h(i, l) = H(i, T[l]);
        cp(i, l) = Cp(i, T[l]);
      }
  }
  std::unique_ptr<FlameMasterMechanism> Clone() const override { return std::make_unique<Synthetic>(*this); }
  int getNSpecies() const override { return n; }
  int getNReactions() const override { return n * n; }
  int getNThirdBodyReactions() const override { return 0; }
  std::vector<std::string> getSpeciesNames() const override {
    std::vector<std::string> v;
    for (int i = 0; i < n; ++i)
      v.push_back(std::string(1, char('A' + i)) + std::to_string(i * i));
    return v;
  }
  void getMolarMass(span<double> m) const override { std::copy(M.begin(), M.end(), m.begin()); }
  double getUniversalGasConstant() const override { return R; }
};
/// isomers: equal molar masses, random network
inline std::unique_ptr<Synthetic> DrawSynthetic(pbt::Case& c, bool isomers, bool reacting) {
  auto m = std::make_unique<Synthetic>();
  m->n = c.i(1, 6);
  if (c.chance(1, 4))
    m->R = 8.314462175;
  const double M0 = m->R / 8314.0 * c.real(2.0, 60.0);
  const double rate = reacting ? c.logreal(1.0, 1e7) : 0.0;
  for (int i = 0; i < m->n; ++i) {
    m->M.push_back(isomers ? M0 : M0 * c.logreal(0.1, 10.0));
    m->a.push_back(m->R / m->M.back() * c.real(2.5, 6.0));
    m->b.push_back(c.chance(1, 3) ? 0.0 : m->a.back() * 1e-3 * c.unit());
    m->h0.push_back(m->R / m->M.back() * (isomers ? 150.0 : 3000.0) * c.symmetric(1.0));
    m->s0.push_back(m->R / m->M.back() * (1.0 + 20.0 * c.unit()));
    m->k.emplace_back(std::size_t(m->n), 0.0);
  }
  for (int i = 0; i < m->n; ++i)
    for (int j = 0; j < m->n; ++j)
      if (i != j && reacting && c.boolean())
        m->k[i][j] = rate * c.logreal(1e-6, 1.0);
  return m;
}

/// atoms (H, O, N, He, Ar) of a species of Burke 2012, from its name
inline std::array<int, 5> Atoms(int i) {
  static const std::map<std::string, std::array<int, 5>> table{
      {"N2", {0, 0, 2, 0, 0}},  {"AR", {0, 0, 0, 0, 1}}, {"H", {1, 0, 0, 0, 0}},   {"O2", {0, 2, 0, 0, 0}},  {"O", {0, 1, 0, 0, 0}},  {"OH", {1, 1, 0, 0, 0}},
      {"H2", {2, 0, 0, 0, 0}},  {"H2O", {2, 1, 0, 0, 0}}, {"HE", {0, 0, 0, 1, 0}}, {"HO2", {1, 2, 0, 0, 0}}, {"H2O2", {2, 2, 0, 0, 0}}};
  return table.at(Burke().getSpeciesNames()[std::size_t(i)]);
}

/// independent model of one mixture
struct Model {
  const FlameMasterMechanism* mech;
  Vec M, Y;
  double R, T{300.0}, rho{1.0};
  explicit Model(const FlameMasterMechanism& m) : mech(&m), M(std::size_t(m.getNSpecies())), Y(M.size(), 0.0), R(m.getUniversalGasConstant()) {
    m.getMolarMass(M);
    Y[0] = 1.0;
  }
  int n() const { return int(M.size()); }
  struct Thermo {
    Vec h, cp, s;
  };
  Thermo At(double t) const {
    Thermo th{Vec(M.size(), 0.0), Vec(M.size(), 0.0), Vec(M.size(), 0.0)};
    mech->ComputeThermoData(th.h, th.cp, t, th.s);
    return th;
  }
  double Mean(const Vec& q) const {
    long double x = 0;
    for (std::size_t i = 0; i < Y.size(); ++i)
      x += (long double)(Y[i]) * q[i];
    return double(x);
  }
  double MeanAbs(const Vec& q) const {
    double x = 0;
    for (std::size_t i = 0; i < Y.size(); ++i)
      x += std::abs(Y[i] * q[i]);
    return x;
  }
  double Rs() const {
    long double x = 0;
    for (std::size_t i = 0; i < Y.size(); ++i)
      x += (long double)(Y[i]) / M[i];
    return double(x * R);
  }
  double MeanMolarMass() const { return R / Rs(); }
  double p() const { return rho * Rs() * T; }
  double cp() const { return Mean(At(T).cp); }
  double cv() const { return cp() - Rs(); }
  double h() const { return Mean(At(T).h); }
  double e() const { return h() - Rs() * T; }
  double e(double t) const { return Mean(At(t).h) - Rs() * t; }
  double escale() const { return MeanAbs(At(T).h) + Rs() * T; }
  double gamma() const { return cp() / cv(); }
  double a() const { return std::sqrt(gamma() * p() / rho); }
  void SetY(const Vec& y) {
    double s = 0;
    for (std::size_t i = 0; i < Y.size(); ++i)
      s += Y[i] = std::max(0.0, y[i]);
    for (double& x : Y)
      x /= s;
  }
  void SetX(const Vec& x) {
    Vec y;
    for (std::size_t i = 0; i < M.size(); ++i)
      y.push_back(std::max(0.0, x[i]) * M[i]);
    SetY(y);
  }
};

/// non-negative weights with a positive sum, normalised or not
inline Vec DrawFractions(pbt::Case& c, int n, bool normalised) {
  Vec y;
  double s = 0;
  for (int i = 0; i < n; ++i) {
    y.push_back(c.chance(1, 2) ? (c.chance(1, 6) ? c.logreal(1e-14, 1.0) : c.unit()) : 0.0);
    s += y.back();
  }
  if (s < 1e-3) {
    const std::size_t k = std::size_t(n - 1 - c.i(0, n - 1));
    s += 1.0;
    y[k] += 1.0;
  }
  if (normalised)
    for (double& x : y)
      x /= s;
  return y;
}
inline double DrawT(pbt::Case& c) { return c.chance(1, 6) ? c.pick<double>({300.0, 1000.0, 299.0, 298.15, 1000.5, 999.5}) : c.real(200.0, 3500.0); }
inline double DrawP(pbt::Case& c) { return c.chance(1, 4) ? 101325.0 : c.logreal(1e2, 1e7); }

/// every accessor of the scalar state against the model
inline void Compare(pbt::Case& c, FlameMasterReactor& r, const Model& m, double tol, double dT, const std::string& what) {
  const auto& cr = r;
  double sum = 0;
  c.check(cr.GetMassFractions().size() == m.n(), "number of mass fractions " + what);
  for (int i = 0; i < m.n(); ++i) {
    const double y = cr.GetMassFractions()[i];
    c.check(y >= 0.0 && y <= 1.0 + 1e-14, "mass fraction " + pbt::fmt(y) + " is not in [0, 1] " + what);
    c.near(y, m.Y[i], 1e-14 + tol, "mass fraction " + what);
    sum += y;
  }
  c.near(sum, 1.0, 1e-14 * m.n(), "sum of the mass fractions " + what);
  const double T = m.T;
  c.near(cr.GetTemperature(), T, dT + 1e-14 * T, "temperature " + what);
  c.rel(cr.GetDensity(), m.rho, 1e-13 + tol, "density " + what, 0);
  c.rel(cr.GetMeanMolarMass(), m.MeanMolarMass(), 1e-13 + 10 * tol, "mean molar mass " + what, 0);
  c.rel(cr.GetPressure(), m.p(), 1e-12 + 10 * tol + 2 * dT / T, "pressure " + what, 0);
  const auto th = m.At(T);
  const double cp = m.Mean(th.cp), cps = m.MeanAbs(th.cp);
  c.near(cr.GetCp(), cp, (1e-12 + 20 * tol + 10 * dT / T) * cps, "heat capacity at constant pressure " + what);
  c.near(cr.GetCv(), cp - m.Rs(), (1e-12 + 20 * tol + 10 * dT / T) * cps, "heat capacity at constant volume " + what);
  double scale = m.MeanAbs(th.h) + m.Rs() * T;
  for (double x : th.h)
    scale = std::max(scale, tol > 0 ? std::abs(x) : 0.0);
  c.near(cr.GetEnthalpy(), m.Mean(th.h), (4e-12 + 20 * tol) * (scale + cps * T) + 2 * cps * dT, "enthalpy " + what);
  c.near(cr.GetInternalEnergy(), m.Mean(th.h) - m.Rs() * T, (4e-12 + 20 * tol) * (scale + cps * T) + 2 * cps * dT, "internal energy " + what);
  for (int i = 0; i < m.n(); ++i) {
    c.near(cr.GetCps()[i], th.cp[i], (1e-12 + 10 * dT / T) * std::abs(th.cp[i]), "cp of a species " + what);
    c.near(r.GetEnthalpies()[i], th.h[i], 1e-12 * std::abs(th.h[i]) + 2 * dT * std::abs(th.cp[i]) + 1e-9, "enthalpy of a species " + what);
  }
  c.near(cr.MeanY(th.cp), cp, (1e-13 + 20 * tol) * cps, "mass average " + what);
  // molar average of the molar masses is the mean molar mass
  c.rel(cr.MeanX(m.M), m.MeanMolarMass(), 1e-12 + 10 * tol, "molar average " + what, 0);
  const auto x = r.GetMoleFractions();
  c.check(x.size() >= m.n(), "number of moles " + what);
  for (int i = 0; i < m.n(); ++i)
    c.near(x[i], m.rho * m.Y[i] / m.M[i], (1e-13 + 2 * tol) * (m.rho * m.Y[i] / m.M[i]) + tol * m.rho / m.M[i], "moles of a species " + what);
}
} // namespace rx

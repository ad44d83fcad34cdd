// Exact self-similar solutions of Riemann problems which are constructed from
// their waves: the left state and the pressure (height) behind each wave are
// chosen, the states in front of the waves follow from the jump conditions or
// the Riemann invariants.  No root finding is involved.
#pragma once
#include "pbt.hpp"
#include <array>
#include <cmath>
namespace rp {
struct W { // density (height), normal velocity, pressure
  double rho, u, p;
};
/// gamma law gas
struct Gas {
  double g;
  W L, R;
  double ps, us;
  static double F(double g, const W& w, double p) { // u* = uL - F(L), u* = uR + F(R)
    const double a = std::sqrt(g * w.p / w.rho);
    if (p > w.p)
      return (p - w.p) * std::sqrt(2.0 / ((g + 1.0) * w.rho) / (p + (g - 1.0) / (g + 1.0) * w.p));
    return 2.0 * a / (g - 1.0) * std::expm1(0.5 * (g - 1.0) / g * std::log(p / w.p));
  }
  static double DF(double g, const W& w, double p) {
    const double a = std::sqrt(g * w.p / w.rho);
    if (p > w.p) {
      const double A = 2.0 / ((g + 1.0) * w.rho), B = (g - 1.0) / (g + 1.0) * w.p;
      return std::sqrt(A / (B + p)) * (1.0 - 0.5 * (p - w.p) / (B + p));
    }
    return std::pow(p / w.p, -0.5 * (g + 1.0) / g) / (w.rho * a);
  }
  double Slope() const { return DF(g, L, ps) + DF(g, R, ps); }
  /// fastest speed of the wave on the given side (-1 left, +1 right)
  double Head(int side) const {
    const W& w = side < 0 ? L : R;
    const double a = std::sqrt(g * w.p / w.rho);
    if (ps > w.p)
      return w.u + side * a * std::sqrt((g + 1.0) / (2.0 * g) * ps / w.p + (g - 1.0) / (2.0 * g));
    return w.u + side * a;
  }
  double StarDensity(int side) const {
    const W& w = side < 0 ? L : R;
    const double r = ps / w.p, q = (g - 1.0) / (g + 1.0);
    return r > 1.0 ? w.rho * (r + q) / (q * r + 1.0) : w.rho * std::pow(r, 1.0 / g);
  }
  double Tail(int side) const {
    const W& w = side < 0 ? L : R;
    if (ps > w.p)
      return Head(side);
    return us + side * std::sqrt(g * ps / StarDensity(side));
  }
  /// the state at x/t = xi; side tells which side of the contact it is on
  W Sample(double xi, int& side) const {
    side = xi < us ? -1 : 1;
    const W& w = side < 0 ? L : R;
    const double s = side;
    if (s * xi >= s * Head(side))
      return w;
    if (s * xi <= s * Tail(side))
      return {StarDensity(side), us, ps};
    const double a = std::sqrt(g * w.p / w.rho);
    // u - s 2a/(g-1) and p/rho^g are constant across of the fan, u + s a = xi
    const double af = s * (g - 1.0) / (g + 1.0) * (xi - w.u) + 2.0 / (g + 1.0) * a;
    return {w.rho * std::pow(af / a, 2.0 / (g - 1.0)), xi - s * af, w.p * std::pow(af / a, 2.0 * g / (g - 1.0))};
  }
};
inline double Ratio(pbt::Case& c, double decades) {
  switch (c.below(4)) {
  case 0:
    return 1.0;
  case 1:
    return std::exp(0.1 * c.symmetric(1.0));
  default:
    return std::pow(10.0, decades * c.symmetric(1.0));
  }
}
/// speeds of sound are between .1 and 1e4 or so
inline Gas DrawGas(pbt::Case& c, double g, double decades = 3.0) {
  Gas s;
  s.g = g;
  s.L.rho = c.chance(1, 3) ? 1.0 : c.logreal(1e-2, 1e2);
  s.L.p = c.chance(1, 3) ? 1.0 : s.L.rho * c.logreal(1e-1, 1e6);
  const double r1 = Ratio(c, decades), r2 = Ratio(c, decades), r3 = Ratio(c, 0.5 * decades);
  s.ps = s.L.p * r1;
  s.R.p = s.ps * r2;
  s.R.rho = s.L.rho * r3;
  const double a = std::max(std::sqrt(g * s.L.p / s.L.rho), std::sqrt(g * s.R.p / s.R.rho));
  // the frame of reference moves the interface through the wave pattern
  s.L.u = 0.0;
  s.us = s.L.u - Gas::F(g, s.L, s.ps);
  s.R.u = s.us - Gas::F(g, s.R, s.ps);
  double shift = 0.0;
  switch (c.below(5)) {
  case 0:
    break;
  case 1:
    shift = a * c.symmetric(4.0);
    break;
  case 2: { // inside of the left wave or just besides of it
    const double h = s.Head(-1), t = s.Tail(-1);
    shift = -(h + (t - h) * c.real(-0.3, 1.3)) + 0.1 * a * (h == t) * c.symmetric(1.0);
    break;
  }
  case 3: {
    const double h = s.Head(1), t = s.Tail(1);
    shift = -(h + (t - h) * c.real(-0.3, 1.3)) + 0.1 * a * (h == t) * c.symmetric(1.0);
    break;
  }
  default: // between the waves
    shift = -(s.Tail(-1) + (s.Tail(1) - s.Tail(-1)) * c.unit());
  }
  s.L.u += shift;
  s.R.u += shift;
  s.us += shift;
  return s;
}
/// shallow water
struct Water {
  double g;
  W L, R; // p is not used
  double hs, us;
  static double F(double g, const W& w, double h) {
    if (h > w.rho)
      return (h - w.rho) * std::sqrt(0.5 * g * (1.0 / h + 1.0 / w.rho));
    return 2.0 * (std::sqrt(g * h) - std::sqrt(g * w.rho));
  }
  static double DF(double g, const W& w, double h) {
    if (h > w.rho) {
      const double q = std::sqrt(0.5 * g * (1.0 / h + 1.0 / w.rho));
      return q - 0.25 * g * (h - w.rho) / (h * h * q);
    }
    return std::sqrt(g / h);
  }
  double Slope() const { return DF(g, L, hs) + DF(g, R, hs); }
  double Head(int side) const {
    const W& w = side < 0 ? L : R;
    if (hs > w.rho)
      return w.u + side * std::sqrt(0.5 * g * hs * (hs + w.rho) / w.rho);
    return w.u + side * std::sqrt(g * w.rho);
  }
  double Tail(int side) const {
    const W& w = side < 0 ? L : R;
    return hs > w.rho ? Head(side) : us + side * std::sqrt(g * hs);
  }
  W Sample(double xi, int& side) const {
    side = xi < us ? -1 : 1;
    const W& w = side < 0 ? L : R;
    const double s = side;
    if (s * xi >= s * Head(side))
      return w;
    if (s * xi <= s * Tail(side))
      return {hs, us, 0.0};
    const double a = std::sqrt(g * w.rho);
    const double af = (s * (xi - w.u) + 2.0 * a) / 3.0;
    return {af * af / g, xi - s * af, 0.0};
  }
};
inline Water DrawWater(pbt::Case& c, double g, double decades = 2.0) {
  Water s;
  s.g = g;
  s.L.rho = c.chance(1, 3) ? 1.0 : c.logreal(1e-2, 1e2);
  s.hs = s.L.rho * Ratio(c, decades);
  s.R.rho = s.hs * Ratio(c, decades);
  s.L.p = s.R.p = 0.0;
  s.L.u = 0.0;
  s.us = -Water::F(g, s.L, s.hs);
  s.R.u = s.us - Water::F(g, s.R, s.hs);
  const double a = std::sqrt(g * std::max(s.L.rho, s.R.rho));
  double shift = 0.0;
  switch (c.below(5)) {
  case 0:
    break;
  case 1:
    shift = a * c.symmetric(4.0);
    break;
  case 2:
  case 3: {
    const int side = c.boolean() ? 1 : -1;
    const double h = s.Head(side), t = s.Tail(side);
    shift = -(h + (t - h) * c.real(-0.3, 1.3)) + 0.1 * a * (h == t) * c.symmetric(1.0);
    break;
  }
  default:
    shift = -(s.Tail(-1) + (s.Tail(1) - s.Tail(-1)) * c.unit());
  }
  s.L.u += shift;
  s.R.u += shift;
  s.us += shift;
  return s;
}
} // namespace rp

// C18: conservation laws of the reactor in time
#include "fub/ode_solver/RadauSolver.hpp"
#include "reactor.hpp"
using namespace rx;

namespace {
/// a reactor with a combustible or arbitrary mixture
Model DrawBurke(pbt::Case& c) {
  Model m(Burke());
  Vec x(11, 0.0);
  static const auto names = Burke().getSpeciesNames();
  const auto at = [&](const char* s) -> double& { return x[std::size_t(std::find(names.begin(), names.end(), s) - names.begin())]; };
  switch (c.i(0, 3)) {
  case 0: { // hydrogen and air
    at("H2") = 2 * c.logreal(0.2, 4.0);
    at("O2") = 1;
    at("N2") = c.chance(1, 4) ? 0.0 : 3.76;
    break;
  }
  case 1: { // with radicals
    at("H2") = 2 * c.logreal(0.2, 4.0);
    at("O2") = 1;
    at("N2") = 3.76 * c.unit();
    at("AR") = c.chance(1, 3) ? c.unit() : 0.0;
    at("HE") = c.chance(1, 3) ? c.unit() : 0.0;
    for (const char* s : {"H", "O", "OH", "HO2", "H2O2", "H2O"})
      if (c.boolean())
        at(s) = c.logreal(1e-8, 0.3);
    break;
  }
  default: {
    const Vec y = DrawFractions(c, 11, true);
    for (int i = 0; i < 11; ++i)
      x[i] = y[i] / m.M[i];
    // not more radicals than flames have: the thermodynamic data end at 5000 K
    for (const char* s : {"H", "O", "OH", "HO2", "H2O2"})
      at(s) *= 0.02;
  }
  }
  m.SetX(x);
  m.T = c.real(300.0, 2800.0);
  m.rho = c.logreal(1e4, 5e6) / (m.Rs() * m.T);
  return m;
}
void Load(FlameMasterReactor& r, const Model& m) {
  r.SetMassFractions(m.Y);
  r.SetDensity(m.rho);
  r.SetTemperature(m.T);
}
/// the state of a reactor
Model Read(const FlameMasterReactor& r, const FlameMasterMechanism& mech) {
  Model m(mech);
  for (int i = 0; i < m.n(); ++i)
    m.Y[i] = r.GetMassFractions()[i];
  m.T = r.GetTemperature();
  m.rho = r.GetDensity();
  return m;
}
/// the state with some more of every species
Model Seeded(const Model& m, double kmol) {
  Model n = m;
  double sum = 0;
  for (int i = 0; i < n.n(); ++i) {
    n.Y[i] += kmol * n.M[i] / n.rho;
    sum += n.Y[i];
  }
  for (double& y : n.Y)
    y /= sum;
  return n;
}
/// How far do errors of the size of the absolute tolerance (some 1e-9 kmol/m^3) grow within dt? Chain reactions amplify
/// them by orders of magnitude, even those which make a concentration negative.
double Sensitivity(const Model& m, double dt) {
  double worst = 0;
  try {
    Vec Y[2];
    for (int k = 0; k < 2; ++k) {
      FlameMasterReactor r(*m.mech);
      Load(r, k ? Seeded(m, 3e-9) : m);
      r.Advance(dt);
      Y[k] = Read(r, *m.mech).Y;
    }
    for (int i = 0; i < m.n(); ++i)
      worst = std::max(worst, std::abs(Y[1][i] - Y[0][i]));
  } catch (radau_error::Exception&) {
    worst = 1;
  }
  return worst;
}
/// what every time step has to keep
void Invariants(pbt::Case& c, FlameMasterReactor& r, const Model& before, double dt, bool burke, const std::string& what) {
  const Model m = Read(r, *before.mech);
  c.check(m.rho == before.rho, "density changes from " + pbt::fmt(before.rho) + " to " + pbt::fmt(m.rho) + what);
  double sum = 0;
  for (double y : m.Y) {
    c.check(std::isfinite(y) && (y >= -1e-6 || y >= -1e-6 - 10 * Sensitivity(before, dt)), "mass fraction " + pbt::fmt(y) + what);
    sum += y;
  }
  c.near(sum, 1.0, 1e-8, "sum of the mass fractions" + what);
  c.near(m.e(), before.e(), 2e-6 * (before.escale() + m.escale()), "internal energy" + what);
  if (burke) {
    for (int e = 0; e < 5; ++e) {
      double a = 0, b = 0;
      for (int i = 0; i < 11; ++i) {
        a += m.Y[i] / m.M[i] * Atoms(i)[e];
        b += before.Y[i] / before.M[i] * Atoms(i)[e];
      }
      c.near(a, b, 1e-8 * (b + 0.01), std::string("number of atoms of ") + "HONhA"[e] + what);
    }
    for (const int inert : {int(Burke2012::sN2), int(Burke2012::sAR), int(Burke2012::sHE)})
      c.near(m.Y[inert], before.Y[inert], 1e-9 * before.Y[inert] + 1e-15, "mass fraction of an inert species" + what);
  }
  // the accessors belong to the new state
  const auto th = m.At(m.T);
  c.near(r.GetCp(), m.Mean(th.cp), 1e-11 * m.MeanAbs(th.cp), "cp" + what);
  c.near(r.GetCv(), m.Mean(th.cp) - m.Rs(), 1e-11 * m.MeanAbs(th.cp), "cv" + what);
  c.near(r.GetEnthalpy(), m.h(), 1e-11 * (m.escale() + m.cp() * m.T), "enthalpy" + what);
  c.near(r.GetInternalEnergy(), m.e(), 1e-11 * (m.escale() + m.cp() * m.T), "internal energy of the accessor" + what);
  c.rel(r.GetPressure(), m.p(), 1e-12, "pressure" + what, 0);
  c.rel(r.GetMeanMolarMass(), m.MeanMolarMass(), 1e-12, "mean molar mass" + what, 0);
  const auto x = r.GetMoleFractions();
  for (int i = 0; i < m.n(); ++i)
    c.near(x[i], m.rho * m.Y[i] / m.M[i], 1e-13 * m.rho / m.M[i], "moles" + what);
}
/// Differences of states which are allowed: the solver's tolerance and a small shift of time
void Same(pbt::Case& c, const Model& a, const Model& b, double shift_T, const Vec& shift_Y, const std::string& what) {
  c.near(a.T, b.T, 1e-5 * b.T + shift_T, "temperature " + what);
  for (int i = 0; i < a.n(); ++i)
    c.near(a.Y[i], b.Y[i], 1e-5 + shift_Y[i], "mass fraction " + std::to_string(i) + " " + what);
}

void BurningBody(pbt::Case& c, const Model& m, double dt) {
  FlameMasterReactor r(Burke());
  Load(r, m);
  c.note("T", m.T);
  c.note("rho", m.rho);
  c.note("Y", pbt::list(m.Y));
  c.note("dt", dt);
  const FlameMasterReactor origin(r);
  // zero
  r.Advance(0.0);
  Invariants(c, r, m, dt, true, " after a zero step");
  const Model z = Read(r, Burke());
  c.check(z.T == m.T && z.Y == Read(origin, Burke()).Y, "a zero step changes the state");
  // history
  std::vector<double> times;
  std::vector<Vec> states;
  const auto note = [&](span<const double> y, double t, FlameMasterReactor* p) {
    times.push_back(t);
    states.emplace_back(y.begin(), y.end());
    c.check(p != nullptr, "the feedback gets no reactor");
  };
  const int how = c.i(0, 2);
  double tmax = 0;
  FlameMasterReactor other(origin);
  r.Advance(dt, note);
  if (how == 0)
    other.Advance(dt);
  else
    tmax = other.AdvanceAndFindMaxdT(dt);
  c.label(how == 0 ? "Advance" : "AdvanceAndFindMaxdT");
  Invariants(c, r, m, dt, true, " after a step");
  Invariants(c, other, m, dt, true, " after a step of a copy");
  const Model a = Read(r, Burke()), b = Read(other, Burke());
  c.check(a.T == b.T && a.Y == b.Y, "copies evolve differently: " + pbt::fmt(a.T) + " and " + pbt::fmt(b.T));
  c.check(!times.empty() && times.front() == 0.0, "the history does not start at zero");
  for (std::size_t k = 1; k < times.size(); ++k)
    c.check(times[k] > times[k - 1], "the history goes from " + pbt::fmt(times[k - 1]) + " to " + pbt::fmt(times[k]));
  c.rel(times.back(), dt, 1e-14, "last time of the history", 0);
  c.check(states.back()[0] == a.T, "the last temperature of the history is not the final one");
  c.near(states.front()[0], m.T, 1e-13 * m.T, "first temperature of the history");
  for (int i = 0; i < 11; ++i) {
    c.near(states.back()[std::size_t(i) + 1] * m.M[i] / m.rho, a.Y[i], 1e-14, "last mass fractions of the history");
    c.near(states.front()[std::size_t(i) + 1] * m.M[i] / m.rho, m.Y[i], 1e-14, "first mass fractions of the history");
  }
  if (how != 0) {
    double best = -1e300, at = -1;
    for (std::size_t k = 1; k < times.size(); ++k) {
      const double s = (states[k][0] - states[k - 1][0]) / (times[k] - times[k - 1]);
      if (s > best) {
        best = s;
        at = times[k];
      }
    }
    if (best > -9000)
      c.rel(tmax, at, 1e-12, "time of the largest temperature rate", 0);
  }
  c.nontrivial(std::abs(a.T - m.T) > 1.0);
  if (m.p() < 1e5) {
    c.label("low pressure");
    return;
  }
  c.label(std::abs(a.T - m.T) > 100.0 ? "burns" : std::abs(a.T - m.T) > 1 ? "reacts" : "frozen");
  // several steps: the largest rates close to the end tell how much a small shift in time may matter
  FlameMasterReactor steps(origin);
  const int k = c.i(2, 4);
  double t = 0;
  for (int i = 0; i < k; ++i) {
    const double d = i == k - 1 ? dt - t : (dt - t) * c.real(0.05, 0.9);
    steps.Advance(d);
    t += d;
    Invariants(c, steps, m, dt, true, " after several steps");
  }
  double sT = 0;
  Vec sY(11, 0.0);
  for (std::size_t j = 1; j < times.size(); ++j)
    if (times[j] > 0.9 * dt) {
      const double w = 0.02 * dt / (times[j] - times[j - 1]);
      sT = std::max(sT, std::min(1.0, w) * std::abs(states[j][0] - states[j - 1][0]));
      for (int i = 0; i < 11; ++i)
        sY[i] = std::max(sY[i], std::min(1.0, w) * std::abs(states[j][std::size_t(i) + 1] - states[j - 1][std::size_t(i) + 1]) * m.M[i] / m.rho);
    }
  Same(c, Read(steps, Burke()), a, 3 * sT, sY, "after several steps instead of one");
  // the original did not move
  const Model o = Read(origin, Burke());
  c.check(o.T == m.T && o.rho == m.rho, "advancing a copy changes the original");
}

/// The integrator may reject a state: in about one of 10^5 cases rounding makes a concentration negative, the quadratic
/// recombination rates then blow up, and the solver says so. Not reacting at all is something else: neighbours react.
void Burning(pbt::Case& c) {
  const Model m = DrawBurke(c);
  const double dt = c.logreal(1e-9, 1e-2);
  try {
    BurningBody(c, m, dt);
  } catch (radau_error::Exception& e) {
    int good = 0;
    for (int k = 1; k <= 4; ++k) {
      Model n = m;
      n = Seeded(n, 1e-8 * k * k);
      n.T *= 1.0 + (k % 2 ? 2e-3 : -2e-3) * k;
      FlameMasterReactor r(Burke());
      Load(r, n);
      try {
        r.Advance(dt);
        ++good;
      } catch (radau_error::Exception&) {
      }
    }
    // at low pressures the absolute tolerance (about 1e-9 kmol/m^3) admits such negative concentrations
    c.check(good >= 2 || m.p() < 1e5, std::string("neither this state nor its neighbours react: ") + e.what());
    c.label("rejected by the integrator");
    throw pbt::Discard{};
  }
}

/// rates of production
void Rates(pbt::Case& c) {
  Model m = DrawBurke(c);
  FlameMasterReactor r(Burke());
  // any order of the setters
  if (c.boolean()) {
    Load(r, m);
  } else {
    r.SetTemperature(m.T);
    r.SetDensity(2.0);
    r.SetMassFractions(m.Y);
    r.SetDensity(m.rho);
  }
  c.note("T", m.T);
  c.note("rho", m.rho);
  c.note("Y", pbt::list(m.Y));
  const auto s = r.GetProductionRates();
  const Vec w(s.begin(), s.end());
  double scale = 0, mass = 0;
  for (int i = 0; i < 11; ++i) {
    scale += std::abs(w[i]) * m.M[i];
    mass += w[i] * m.M[i];
  }
  double rates = 0;
  for (double x : r.GetReactionRates())
    rates += std::abs(x);
  c.nontrivial(scale > 0);
  c.near(mass, 0.0, 1e-12 * 36 * rates, "production of mass");
  for (int e = 0; e < 5; ++e) {
    double a = 0;
    for (int i = 0; i < 11; ++i)
      a += w[i] * Atoms(i)[e];
    c.near(a, 0.0, 1e-12 * rates, std::string("production of atoms of ") + "HONhA"[e]);
  }
  for (int i = 0; i < 11; ++i)
    if (m.Y[i] == 0.0)
      c.check(w[i] >= -1e-13 * rates, "a species which is not present is consumed: " + pbt::fmt(w[i]));
  // the same rates from a second reactor: no hidden state
  FlameMasterReactor r2(Burke());
  Load(r2, m);
  const auto s2 = r2.GetProductionRates();
  for (int i = 0; i < 11; ++i)
    c.near(s2[i], w[i], 1e-12 * rates, "production rates of a new reactor");
}

/// isomers with first-order reactions: exact solution
void Isomers(pbt::Case& c) {
  const auto mech = DrawSynthetic(c, true, true);
  Model m(*mech);
  m.SetY(DrawFractions(c, m.n(), true));
  m.T = c.real(500.0, 2000.0);
  m.rho = c.logreal(1e-2, 1e2);
  FlameMasterReactor r(*mech);
  Load(r, m);
  double kmax = 0;
  for (int i = 0; i < m.n(); ++i)
    for (int j = 0; j < m.n(); ++j)
      kmax = std::max(kmax, mech->k[i][j]);
  const int steps = c.i(1, 4);
  double t = 0;
  const double dt0 = c.logreal(1e-3, 1e3) / std::max(1.0, kmax);
  c.note("kmax", kmax);
  c.note("Y", pbt::list(m.Y));
  c.note("T", m.T);
  c.note("steps", steps);
  c.nontrivial(kmax > 0);
  for (int s = 0; s < steps; ++s) {
    const double dt = dt0 * c.real(0.1, 1.0);
    r.Advance(dt);
    t += dt;
  }
  // exp(A t) by scaling and squaring of a Taylor series
  const int n = m.n();
  Eigen::MatrixXd A = Eigen::MatrixXd::Zero(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      A(i, j) += mech->k[i][j];
      A(j, j) -= mech->k[i][j];
    }
  int sq = 0;
  double norm = A.cwiseAbs().sum() * t;
  while (norm > 0.5) {
    norm /= 2;
    ++sq;
  }
  A *= t * std::pow(0.5, sq);
  Eigen::MatrixXd E = Eigen::MatrixXd::Identity(n, n), P = E;
  for (int k = 1; k < 20; ++k) {
    P = P * A / k;
    E += P;
  }
  for (int k = 0; k < sq; ++k)
    E = E * E;
  Model want = m;
  for (int i = 0; i < n; ++i) {
    want.Y[i] = 0;
    for (int j = 0; j < n; ++j)
      want.Y[i] += E(i, j) * m.Y[j];
  }
  // temperature with the same energy
  double lo = 50.0, hi = 20000.0;
  const double target = m.e();
  for (int k = 0; k < 200; ++k) {
    const double mid = 0.5 * (lo + hi);
    (want.e(mid) < target ? lo : hi) = mid;
  }
  want.T = 0.5 * (lo + hi);
  if (want.T > 100.0) {
    for (int i = 0; i < n; ++i)
      c.near(r.GetMassFractions()[i], want.Y[i], 1e-7, "mass fraction of an isomer");
    c.rel(r.GetTemperature(), want.T, 1e-7, "temperature of the isomers", 0);
  }
  Invariants(c, r, m, t, false, " of isomers");
  c.label("squarings " + std::to_string(std::min(sq, 5)));
}
} // namespace
PBT_PROP("burning", 3000, 60000) { Burning(c); }
PBT_PROP("production rates", 20000, 300000) { Rates(c); }
PBT_PROP("isomers", 3000, 60000) { Isomers(c); }

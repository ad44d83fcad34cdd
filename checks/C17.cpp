// C17: thermodynamics and composition accessors of the reactor
#include "reactor.hpp"
using namespace rx;

namespace {
const FlameMasterMechanism& Mech(pbt::Case& c, std::unique_ptr<Synthetic>& own) {
  if (c.chance(1, 3)) {
    own = DrawSynthetic(c, false, false);
    c.label("synthetic mechanism");
    return *own;
  }
  c.label("Burke 2012");
  return Burke();
}
/// the entropy of an ideal mixture
double Entropy(const Model& m) {
  const auto th = m.At(m.T);
  double s = m.Mean(th.s) - m.Rs() * std::log(m.p() / 101325.0);
  for (int i = 0; i < m.n(); ++i) {
    const double x = m.Y[i] / m.M[i] * m.R / m.Rs();
    if (x > 0)
      s -= m.Rs() * x * std::log(x);
  }
  return s;
}
/// "A: 1, B: 2" in one of the accepted spellings
std::string Composition(pbt::Case& c, const FlameMasterReactor& r, const Vec& y) {
  std::string s;
  std::vector<int> order;
  for (int i = 0; i < int(y.size()); ++i)
    if (y[i] != 0.0 || c.chance(1, 8))
      order.push_back(i);
  if (order.size() > 1 && c.boolean())
    std::rotate(order.begin(), order.begin() + c.i(0, int(order.size()) - 1), order.end());
  const std::string sep = c.pick<std::string>({",", ", ", " ", " , "});
  const std::string colon = c.pick<std::string>({":", ": "});
  for (std::size_t k = 0; k < order.size(); ++k)
    s += (k ? sep : "") + r.GetSpeciesName(order[k]) + colon + pbt::fmt(y[order[k]]);
  return s;
}
std::string BadComposition(pbt::Case& c, const FlameMasterReactor& r) {
  const std::string a = r.GetSpeciesName(0), b = r.GetSpeciesName(r.GetNSpecies() - 1);
  switch (c.i(0, 10)) {
  case 0: return "";
  case 1: return a;
  case 2: return a + ":";
  case 3: return a + ":1," + b + ":";
  case 4: return a + ":1,XYZ:2";
  case 5: return "XYZ:2," + a + ":1";
  case 6: return a + ":abc";
  case 7: return a + ":1;" + b + ":2";
  case 8: return a + ":0";
  case 9: return a + ":1," + b;
  default: return a + "=1";
  }
}

/// jump of the energy at 1000 K
double Jump(const Model& m) { return 2 * std::abs(m.e(1000.0 + 1e-9) - m.e(1000.0)) + 1e-6 * m.cv(); }

/// any sequence of setters of the scalar state
void History(pbt::Case& c) {
  std::unique_ptr<Synthetic> own;
  const FlameMasterMechanism& mech = Mech(c, own);
  FlameMasterReactor r(mech);
  Model m(mech);
  m.T = 300.0;
  m.rho = 101325.0 / (m.Rs() * m.T);
  double dT = 0;
  Compare(c, r, m, 0, 0, "of a new reactor");
  const int steps = c.i(1, 8);
  std::string log;
  bool moved = false;
  for (int k = 0; k < steps; ++k) {
    std::string op;
    const int what = c.i(0, 12);
    bool keep_dT = true;
    switch (what) {
    case 0: {
      const double T = DrawT(c);
      r.SetTemperature(T);
      m.T = T;
      keep_dT = false;
      op = "SetTemperature(" + pbt::fmt(T) + ")";
      break;
    }
    case 1: {
      m.rho = c.logreal(1e-4, 1e3);
      r.SetDensity(m.rho);
      op = "SetDensity(" + pbt::fmt(m.rho) + ")";
      break;
    }
    case 2: {
      const double p = DrawP(c);
      r.SetPressure(p);
      m.T = r.GetTemperature();
      m.rho = p / (m.Rs() * m.T);
      keep_dT = false;
      c.rel(r.GetPressure(), p, 1e-13, "pressure after SetPressure", 0);
      op = "SetPressure(" + pbt::fmt(p) + ")";
      break;
    }
    case 3:
    case 4: {
      Vec y = DrawFractions(c, m.n(), c.boolean());
      const bool negative = c.chance(1, 4);
      if (negative)
        for (double& x : y)
          if (x == 0.0 && c.boolean())
            x = -c.unit();
      op = (what == 3 ? "SetMassFractions(" : "SetMoleFractions(") + pbt::list(y) + ")";
      if (what == 3) {
        r.SetMassFractions(y);
        m.SetY(y);
      } else {
        r.SetMoleFractions(y);
        m.SetX(y);
        double sum = 0;
        for (double x : y)
          sum += std::max(0.0, x);
        for (int i = 0; i < m.n(); ++i)
          c.near(r.GetMassFractions()[i] / m.M[i] * m.MeanMolarMass(), std::max(0.0, y[i]) / sum, 1e-13, "mole fraction");
      }
      break;
    }
    case 5:
    case 6: {
      Vec y = DrawFractions(c, m.n(), c.boolean());
      const std::string s = Composition(c, r, y);
      op = (what == 5 ? "SetMassFractions('" : "SetMoleFractions('") + s + "')";
      if (what == 5) {
        r.SetMassFractions(s);
        m.SetY(y);
      } else {
        r.SetMoleFractions(s);
        m.SetX(y);
      }
      break;
    }
    case 7: {
      const std::string s = BadComposition(c, r);
      op = "Set..Fractions('" + s + "')";
      bool thrown = false;
      try {
        if (c.boolean())
          r.SetMassFractions(s);
        else
          r.SetMoleFractions(s);
      } catch (const FlameMasterReactorException&) {
        thrown = true;
      }
      c.check(thrown, "the invalid composition '" + s + "' is accepted");
      break;
    }
    case 8:
    case 9: {
      // the energy of some temperature
      const double T = DrawT(c);
      Model t = m;
      t.T = T;
      const bool energy = what == 8;
      const double target = energy ? t.e() : t.h();
      const double tol = c.pick<double>({1e-6, 1e-3, 1e-8});
      op = (energy ? "SetInternalEnergy(" : "SetEnthalpy(") + pbt::fmt(target) + ", " + pbt::fmt(tol) + ") of T=" + pbt::fmt(T) + " from " + pbt::fmt(r.GetTemperature());
      if (energy)
        r.SetInternalEnergy(target, tol);
      else
        r.SetEnthalpy(target, tol);
      const double cv = energy ? t.cv() : t.cp();
      // the polynomials meet at 1000 K with a tiny jump, there are two temperatures with this energy
      const double seam = !own && std::abs(T - 1000.0) < 0.1 ? 0.1 : 0.0;
      const double eps = 2 * tol + (1e-11 * std::abs(target) + 1e-14 * t.escale()) / cv;
      c.near(energy ? r.GetInternalEnergy() : r.GetEnthalpy(), target, 1.5 * cv * eps + (seam > 0 ? Jump(t) : 0.0), "the energy just set: " + op);
      m.T = r.GetTemperature();
      c.near(m.T, T, eps + seam, "temperature after " + op);
      keep_dT = false;
      break;
    }
    case 10: {
      FlameMasterReactor copy(r);
      if (c.boolean()) {
        // the copy is independent
        r.SetTemperature(1234.0);
        r.SetDensity(3.0);
        Vec y(std::size_t(m.n()), 1.0);
        r.SetMassFractions(y);
        Compare(c, copy, m, 0, dT, "of a copy");
      }
      r = copy;
      copy.SetTemperature(777.0);
      copy.SetDensity(77.0);
      op = "copy";
      moved = true;
      break;
    }
    case 11: {
      FlameMasterReactor tmp(std::move(r));
      Compare(c, tmp, m, 0, dT, "of a moved reactor");
      r = std::move(tmp);
      op = "move";
      moved = true;
      break;
    }
    default: {
      const double f = c.logreal(0.05, 20.0), p0 = m.p(), T0 = m.T;
      if (T0 > 2500 || T0 < 300 || T0 * std::pow(f, m.Rs() / m.cp()) > 3400)
        break;
      const double p1 = p0 * f;
      const double du = r.SetPressureIsentropic(p1);
      op = "SetPressureIsentropic(" + pbt::fmt(p1) + ") from " + pbt::fmt(p0);
      m.T = r.GetTemperature();
      // quadrature of cp dT/T = R dp/p and du = -dp/(rho a) along the isentrope
      const int N = 400;
      double lhs = 0, u = 0;
      const double T1 = m.T;
      for (int i = 0; i < N; ++i) {
        const double w0 = std::log(T0) + (std::log(T1) - std::log(T0)) * (i + 0.5) / N;
        Model q = m;
        q.T = std::exp(w0);
        const double d = q.cp() * (std::log(T1) - std::log(T0)) / N;
        lhs += d;
        // dp/(rho a) = (R T dp/p)/a = T cp dT/T / a
        u -= q.T * d / std::sqrt(q.gamma() * q.Rs() * q.T);
      }
      c.rel(lhs, m.Rs() * std::log(f), 1e-5, "entropy after " + op, m.Rs());
      c.rel(du, u, 1e-4, "velocity increment of " + op, 1.0);
      m.rho = p1 / (m.Rs() * T1);
      c.rel(r.GetPressure(), p1, 1e-12, "pressure after " + op, 0);
      keep_dT = false;
      c.label("isentropic");
      break;
    }
    }
    log += op + "; ";
    c.note("history", log);
    if (!keep_dT)
      dT = 0;
    Compare(c, r, m, 0, dT, "after " + op);
    if (own) {
      const double s = Entropy(m);
      c.near(r.GetEntropy(), s, 1e-11 * (m.MeanAbs(m.At(m.T).s) + m.Rs() * (30 + std::abs(std::log(m.p())))) + m.Rs() * m.n() * 40 * 2.3e-16 / (m.rho * m.Rs() / m.R), "entropy after " + op);
    }
  }
  c.nontrivial(steps > 1);
  c.label(moved ? "copied or moved" : "same object");
}

/// vectorised setters, lane by lane
void Vectorised(pbt::Case& c) {
  std::unique_ptr<Synthetic> own;
  const FlameMasterMechanism& mech = Mech(c, own);
  FlameMasterReactor r(mech);
  std::vector<Model> m(W, Model{mech});
  for (auto& q : m)
    q.rho = 101325.0 / (q.Rs() * q.T);
  const int n = m[0].n();
  const int steps = c.i(1, 6);
  std::string log;
  c.nontrivial(steps > 1);
  MaskArray valid = MaskArray::Constant(true);
  const auto check = [&](const std::string& what) {
    const Array1d rho = r.GetDensityArray(), T = r.GetTemperatureArray(), p = r.GetPressureArray(), MM = r.GetMeanMolarMassArray(), cp = r.GetCpArray(),
                  cv = r.GetCvArray(), h = r.GetEnthalpyArray(), e = r.GetInternalEnergyArray();
    const ArrayXd& Y = r.GetMassFractionsArray();
    for (int l = 0; l < W; ++l) {
      if (!valid[l])
        continue;
      const Model& q = m[l];
      const std::string at = " in lane " + std::to_string(l) + " after " + what;
      double sum = 0;
      for (int i = 0; i < n; ++i) {
        c.check(Y(i, l) >= 0.0, "negative mass fraction" + at);
        c.near(Y(i, l), q.Y[i], 1e-14, "mass fraction" + at);
        sum += Y(i, l);
      }
      c.near(sum, 1.0, 1e-14 * n, "sum of the mass fractions" + at);
      c.rel(rho[l], q.rho, 1e-13, "density" + at, 0);
      c.rel(T[l], q.T, 1e-14, "temperature" + at, 0);
      c.rel(p[l], q.p(), 1e-12, "pressure" + at, 0);
      c.rel(MM[l], q.MeanMolarMass(), 1e-13, "mean molar mass" + at, 0);
      const auto th = q.At(q.T);
      const double cps = q.MeanAbs(th.cp);
      const double cseam = std::abs(q.T - 300.0) < 2e-6 ? 2e-8 * cps : 0.0;
      c.near(cp[l], q.Mean(th.cp), 1e-12 * cps + cseam, "cp" + at);
      c.near(cv[l], q.Mean(th.cp) - q.Rs(), 1e-12 * cps + cseam, "cv" + at);
      // the vectorised polynomials start 1e-6 K below 300 K
      const double seam = std::abs(q.T - 300.0) < 2e-6 ? 2e-6 * cps : 0.0;
      c.near(h[l], q.h(), 4e-12 * (q.escale() + cps * q.T) + seam, "enthalpy" + at);
      c.near(e[l], q.e(), 4e-12 * (q.escale() + cps * q.T) + seam, "internal energy" + at);
    }
  };
  check("construction");
  for (int k = 0; k < steps; ++k) {
    std::string op;
    Array1d x = Array1d::Zero();
    switch (c.i(0, 6)) {
    case 0:
      for (int l = 0; l < W; ++l)
        x[l] = m[l].T = DrawT(c);
      r.SetTemperatureArray(x);
      op = "SetTemperatureArray";
      break;
    case 1:
      for (int l = 0; l < W; ++l)
        x[l] = m[l].rho = c.logreal(1e-4, 1e3);
      r.SetDensityArray(x);
      op = "SetDensityArray";
      break;
    case 2:
      for (int l = 0; l < W; ++l) {
        x[l] = DrawP(c);
        m[l].rho = x[l] / (m[l].Rs() * m[l].T);
      }
      r.SetPressureArray(x);
      op = "SetPressureArray";
      break;
    case 3:
    case 4: {
      const bool masked = c.boolean();
      ArrayXd y(n, W);
      y.setZero();
      MaskArray mask = MaskArray::Constant(true);
      for (int l = 0; l < W; ++l) {
        if (masked && c.chance(1, 3)) {
          mask[l] = false;
          for (int i = 0; i < n; ++i)
            y(i, l) = c.pick<double>({0.0, -1.0, std::nan(""), 1e300});
          m[l].Y.assign(std::size_t(n), 0.0);
          m[l].Y[0] = 1.0;
          continue;
        }
        Vec v = DrawFractions(c, n, c.boolean());
        for (double& f : v)
          if (f == 0.0 && c.chance(1, 8))
            f = -c.unit();
        for (int i = 0; i < n; ++i)
          y(i, l) = v[i];
        m[l].SetY(v);
      }
      if (masked) {
        r.SetMassFractionsArray(y, mask);
        // nothing is known about the masked lanes
        valid = mask;
        check("masked SetMassFractionsArray");
        valid.setConstant(true);
        for (int l = 0; l < W; ++l)
          for (int i = 0; i < n; ++i)
            y(i, l) = m[l].Y[i];
        r.SetMassFractionsArray(y);
      } else
        r.SetMassFractionsArray(y);
      op = masked ? "SetMassFractionsArray with a mask" : "SetMassFractionsArray";
      break;
    }
    case 5: {
      const bool masked = c.boolean();
      MaskArray mask = MaskArray::Constant(true);
      std::vector<Model> t = m;
      const double tol = c.pick<double>({1e-6, 1e-3, 1e-8});
      for (int l = 0; l < W; ++l) {
        t[l].T = DrawT(c);
        x[l] = t[l].e();
        if (masked && c.chance(1, 3)) {
          mask[l] = false;
          x[l] = c.pick<double>({0.0, -1e9, std::nan(""), 1e300});
        }
      }
      op = masked ? "SetInternalEnergyArray with a mask" : "SetInternalEnergyArray";
      if (masked)
        r.SetInternalEnergyArray(x, mask, tol);
      else
        r.SetInternalEnergyArray(x, tol);
      for (int l = 0; l < W; ++l) {
        if (!mask[l])
          continue;
        const double eps = 2 * tol + (1e-11 * std::abs(x[l]) + 1e-14 * t[l].escale()) / t[l].cv() + (std::abs(t[l].T - 300.0) < 1e-3 ? 4e-6 : 0.0);
        const double seam = !own && std::abs(t[l].T - 1000.0) < 0.1 ? 0.1 : 0.0;
        c.near(r.GetInternalEnergyArray()[l], x[l], 1.5 * t[l].cv() * eps + (seam > 0 ? Jump(t[l]) : 0.0), "energy just set in lane " + std::to_string(l));
        c.near(r.GetTemperatureArray()[l], t[l].T, eps + seam, "temperature after " + op + " in lane " + std::to_string(l));
        m[l].T = r.GetTemperatureArray()[l];
      }
      if (masked) {
        // nothing is known about the masked lanes
        valid = mask;
        check(op);
        valid.setConstant(true);
        for (int l = 0; l < W; ++l) {
          if (!mask[l])
            m[l].T = DrawT(c);
          x[l] = m[l].T;
        }
        r.SetTemperatureArray(x);
      }
      break;
    }
    default: {
      FlameMasterReactor other(r);
      r.SetTemperatureArray(Array1d::Constant(1234.0));
      r.SetDensityArray(Array1d::Constant(12.0));
      if (c.boolean())
        r = other;
      else if (c.boolean())
        r = std::move(other);
      else {
        FlameMasterReactor third(std::move(other));
        r = std::move(third);
      }
      op = "copy";
    }
    }
    log += op + "; ";
    c.note("history", log);
    check(op);
  }
}

/// species data: cp is the derivative of h, both are continuous, vectorised data are the same
void Species(pbt::Case& c) {
  const Burke2012& b = Burke();
  const int n = b.getNSpecies();
  const double R = b.getUniversalGasConstant();
  Vec h(n), cp(n), s(n), hp(n), hm(n), t(n), M(n);
  b.getMolarMass(M);
  const double T = c.chance(1, 8) ? c.pick<double>({300.0, 1000.0}) : c.real(150.0, 4000.0);
  c.note("T", T);
  c.nontrivial(true);
  b.ComputeThermoData(h, cp, T, s);
  const double d = 0.01;
  b.ComputeThermoData(hp, t, T + d, s);
  b.ComputeThermoData(hm, t, T - d, s);
  for (int i = 0; i < n; ++i) {
    double m = 0;
    for (int e = 0; e < 5; ++e)
      m += Atoms(i)[e] * std::array<double, 5>{1.008, 15.999, 14.007, 4.0026, 39.948}[e];
    c.rel(M[i], m, 1e-3, "molar mass of " + b.getSpeciesNames()[i], 0);
    c.equal(FlameMasterReactor(b).GetSpeciesName(i), b.getSpeciesNames()[i], "name of a species");
  }
  const bool seam = std::abs(T - 1000) < 2 * d || std::abs(T - 300) < 2 * d;
  for (int i = 0; i < n; ++i) {
    const std::string sp = b.getSpeciesNames()[i];
    c.near((hp[i] - hm[i]) / (2 * d), cp[i], (seam ? 1.0 : 1e-5) * cp[i], "derivative of the enthalpy of " + sp + " at " + pbt::fmt(T));
    c.check(cp[i] * M[i] / R > 2.4 && cp[i] * M[i] / R < 20.0, "heat capacity " + pbt::fmt(cp[i] * M[i] / R) + " R of " + sp);
  }
  Array1d Ts;
  for (int l = 0; l < W; ++l)
    Ts[l] = l == 0 ? T : DrawT(c);
  ArrayXd ha(n, W), ca(n, W);
  ha.setZero();
  ca.setZero();
  b.ComputeThermoData(ha, ca, Ts);
  for (int l = 0; l < W; ++l) {
    b.ComputeThermoData(h, cp, Ts[l], s);
    for (int i = 0; i < n; ++i) {
      const std::string sp = b.getSpeciesNames()[i];
      c.near(ha(i, l), h[i], 1e-12 * (std::abs(h[i]) + cp[i] * Ts[l]), "vectorised enthalpy of " + sp + " at " + pbt::fmt(Ts[l]));
      c.near(ca(i, l), cp[i], 1e-12 * cp[i], "vectorised heat capacity of " + sp + " at " + pbt::fmt(Ts[l]));
    }
  }
  c.label(T < 300 ? "cold" : T < 1000 ? "low" : "high");
}
} // namespace
PBT_PROP("histories of setters", 40000, 1000000) { History(c); }
PBT_PROP("histories of vectorised setters", 25000, 500000) { Vectorised(c); }
PBT_PROP("species data", 20000, 300000) { Species(c); }

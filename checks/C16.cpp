// C16: complete states of the reacting ideal gas from conserved variables
#include "fub/CompleteFromCons.hpp"
#include "fub/equations/IdealGasMix.hpp"
#include "patch.hpp"
#include "reactor.hpp"
using namespace rx;

namespace {
struct Gas {
  std::unique_ptr<Synthetic> own;
  const FlameMasterMechanism* mech;
};
Gas DrawGas(pbt::Case& c) {
  Gas g;
  if (c.chance(1, 3)) {
    g.own = DrawSynthetic(c, false, false);
    g.mech = g.own.get();
    c.label("synthetic mechanism");
  } else {
    g.mech = &Burke();
    c.label("Burke 2012");
  }
  return g;
}
/// a state: composition, temperature, density and velocity
struct Prim {
  Model m;
  Vec u;
  double spread{1.0}; // factor of the species densities in the conserved variables
};
Prim Draw(pbt::Case& c, const FlameMasterMechanism& mech, int R) {
  Prim w{Model(mech), {}, 1.0};
  w.m.SetY(DrawFractions(c, w.m.n(), true));
  w.m.T = DrawT(c);
  w.m.rho = DrawP(c) / (w.m.Rs() * w.m.T);
  const double a = w.m.a();
  for (int d = 0; d < R; ++d)
    w.u.push_back(c.chance(1, 3) ? 0.0 : a * 5.0 * c.symmetric(1.0));
  if (c.chance(1, 4))
    w.spread = c.real(0.5, 2.0);
  return w;
}
double Kin(const Prim& w) {
  double k = 0;
  for (double v : w.u)
    k += 0.5 * v * v;
  return k;
}
/// density, momentum, energy, species
Vec Cons(pbt::Case& c, const Prim& w, bool exact) {
  Vec q{w.m.rho};
  for (double v : w.u)
    q.push_back(w.m.rho * v);
  q.push_back(w.m.rho * (w.m.e() + Kin(w)));
  for (double y : w.m.Y)
    q.push_back(!exact && y == 0.0 && c.chance(1, 8) ? -1e-12 * w.m.rho : (exact ? 1.0 : w.spread) * w.m.rho * y);
  return q;
}
/// density, momentum, energy, species, pressure, speed of sound, temperature, cp, gamma
Vec Complete_(const Prim& w) {
  Vec q{w.m.rho};
  for (double v : w.u)
    q.push_back(w.m.rho * v);
  q.push_back(w.m.rho * (w.m.e() + Kin(w)));
  for (double y : w.m.Y)
    q.push_back(w.m.rho * y);
  for (double x : {w.m.p(), w.m.a(), w.m.T, w.m.cp(), w.m.gamma()})
    q.push_back(x);
  return q;
}
/// tolerances if the temperature is known up to dT
Vec Tol(const Prim& w, double dT, bool seam) {
  const Model& m = w.m;
  const auto th = m.At(m.T);
  const double cps = m.MeanAbs(th.cp), r = dT / m.T;
  double es = m.escale() + cps * m.T + Kin(w);
  Vec t{1e-14 * m.rho};
  for (double v : w.u)
    t.push_back(1e-14 * m.rho * std::abs(v));
  double jump = seam ? 2 * std::abs(m.e(1000.0 + 1e-9) - m.e(1000.0)) : 0.0;
  t.push_back(m.rho * (4e-12 * es + 2 * cps * dT + jump));
  for (double y : m.Y)
    t.push_back(1e-14 * m.rho * (y + 1e-3) + 2e-12 * m.rho);
  t.push_back(m.p() * (1e-11 + 2 * r));
  t.push_back(m.a() * (1e-11 + 20 * r + (seam ? 1e-3 : 0.0)));
  t.push_back(m.T * 1e-14 + dT);
  t.push_back(cps * (1e-11 + 20 * r + (seam ? 2e-3 : 0.0)));
  t.push_back(m.gamma() * (1e-11 + 20 * r + (seam ? 1e-3 : 0.0)));
  return t;
}
bool Seam(const Prim& w) { return w.m.mech == &Burke() && std::abs(w.m.T - 1000.0) < 0.1; }
/// uncertainty of the temperature after the inversion of the energy
double DT(const Prim& w) {
  const double cv = w.m.cv();
  return 2.5e-6 + (1e-11 * std::abs(w.m.e()) + 1e-13 * (w.m.escale() + Kin(w))) / cv + (Seam(w) ? 0.1 : 0.0) + (std::abs(w.m.T - 300.0) < 1e-3 ? 4e-6 : 0.0) +
         1e-10 * w.m.T;
}
void Compare(pbt::Case& c, const Vec& got, const Vec& want, const Vec& tol, int R, const std::string& what) {
  c.check(got.size() == want.size(), "number of components");
  const int n = int(want.size()) - R - 7;
  for (std::size_t k = 0; k < want.size(); ++k) {
    const int i = int(k);
    const std::string name = i == 0         ? "density"
                             : i <= R       ? "momentum"
                             : i == R + 1   ? "energy"
                             : i < R + 2 + n ? "species " + std::to_string(i - R - 2)
                                            : std::array<std::string, 5>{"pressure", "speed of sound", "temperature", "cp", "gamma"}[std::size_t(i - R - 2 - n)];
    c.near(got[k], want[k], tol[k], name + " " + what);
  }
}
template <int R> Eigen::Array<double, R, 1> Velocity(const Prim& w) {
  Eigen::Array<double, R, 1> v;
  for (int d = 0; d < R; ++d)
    v[d] = w.u[std::size_t(d)];
  return v;
}
void Note(pbt::Case& c, const Prim& w) {
  c.note("T", w.m.T);
  c.note("rho", w.m.rho);
  c.note("Y", pbt::list(w.m.Y));
  c.note("u", pbt::list(w.u));
}

template <int R> void Scalar(pbt::Case& c) {
  const Gas g = DrawGas(c);
  IdealGasMix<R> eq{FlameMasterReactor(*g.mech)};
  const Prim w = Draw(c, *g.mech, R);
  Note(c, w);
  c.nontrivial(Kin(w) > 0);
  // history of the reactor must not matter
  if (c.boolean()) {
    const Prim x = Draw(c, *g.mech, R);
    eq.GetReactor().SetMassFractions(x.m.Y);
    eq.GetReactor().SetTemperature(x.m.T);
    eq.GetReactor().SetDensity(x.m.rho);
    c.label("used reactor");
  }
  // from the reactor
  const Vec want = Complete_(w);
  eq.GetReactor().SetDensity(w.m.rho);
  eq.GetReactor().SetMassFractions(w.m.Y);
  eq.GetReactor().SetTemperature(w.m.T);
  Complete<IdealGasMix<R>> q{eq}, q2{eq}, q3{eq};
  eq.CompleteFromReactor(q, Velocity<R>(w));
  Compare(c, tst::Comps(q), want, Tol(w, 0, false), R, "completed from the reactor");
  // back into the reactor
  if (c.boolean()) {
    eq.GetReactor().SetMassFractions("" + eq.GetReactor().GetSpeciesName(0) + ":1");
    eq.GetReactor().SetTemperature(555.0);
    eq.GetReactor().SetDensity(5.0);
  }
  eq.SetReactorStateFromComplete(q);
  eq.CompleteFromReactor(q2, Velocity<R>(w));
  Compare(c, tst::Comps(q2), tst::Comps(q), Tol(w, 0, false), R, "after a round trip through the reactor");
  Model m = w.m;
  rx::Compare(c, eq.GetReactor(), m, 1e-13, 0, "of the reactor set from a state");
  // from conserved variables
  Conservative<IdealGasMix<R>> cons{eq};
  const bool exact = w.spread == 1.0;
  tst::SetComps(cons, Cons(c, w, exact));
  const double dT = DT(w);
  if (exact && c.boolean()) {
    // in place
    q3 = q;
    q3.pressure = q3.temperature = q3.c_p = q3.gamma = q3.speed_of_sound = std::nan("");
    CompleteFromCons(eq, q3, q3);
    c.label("in place");
  } else
    CompleteFromCons(eq, q3, cons);
  Compare(c, tst::Comps(q3), want, Tol(w, dT, Seam(w)), R, "completed from conserved variables");
  for (int d = 0; d < R; ++d)
    c.near(IdealGasMix<R>::Velocity(cons)[d], w.u[std::size_t(d)], 1e-14 * std::abs(w.u[std::size_t(d)]), "velocity");
  // completing again changes nothing beyond the tolerance of the inversion
  CompleteFromCons(eq, q2, q3);
  Compare(c, tst::Comps(q2), tst::Comps(q3), Tol(w, 2 * dT, Seam(w)), R, "completed twice");
  c.label(w.m.T < 300 ? "cold" : w.m.T < 1000 ? "low" : "high");
}

template <int R> void Vectorised(pbt::Case& c) {
  const Gas g = DrawGas(c);
  using Eq = IdealGasMix<R>;
  Eq eq{FlameMasterReactor(*g.mech)};
  const int n = eq.GetReactor().GetNSpecies();
  std::vector<Prim> w;
  std::vector<Vec> want;
  CompleteArray<Eq> q{eq}, q2{eq};
  ConservativeArray<Eq> cons{eq};
  Array<double, R> vel;
  Array1d T, rho;
  ArrayXd Y(n, W);
  const int distinct = c.i(1, W);
  for (int l = 0; l < W; ++l) {
    w.push_back(l < distinct ? Draw(c, *g.mech, R) : w[std::size_t(l % distinct)]);
    want.push_back(Complete_(w.back()));
    T[l] = w.back().m.T;
    rho[l] = w.back().m.rho;
    for (int i = 0; i < n; ++i)
      Y(i, l) = w.back().m.Y[i];
    for (int d = 0; d < R; ++d)
      vel(d, l) = w.back().u[std::size_t(d)];
  }
  if (c.boolean()) {
    eq.GetReactor().SetTemperatureArray(T.reverse());
    eq.GetReactor().SetMassFractionsArray(Y.rowwise().reverse());
  }
  const bool from_reactor = c.boolean();
  if (from_reactor) {
    eq.GetReactor().SetDensityArray(rho);
    eq.GetReactor().SetMassFractionsArray(Y);
    eq.GetReactor().SetTemperatureArray(T);
    eq.CompleteFromReactor(q, vel);
    for (int l = 0; l < W; ++l)
      Compare(c, tst::GetLane(q, l), want[l], Tol(w[l], std::abs(T[l] - 300.0) < 1e-5 ? 2e-6 : 0, false), R, "from the reactor in lane " + std::to_string(l));
  }
  MaskArray mask = MaskArray::Constant(true);
  const bool masked = c.boolean();
  int valid = W;
  for (int l = 0; l < W; ++l) {
    if (masked && c.boolean()) {
      mask[l] = false;
      --valid;
      // garbage: admissible states which are forgotten, zeros, negative values, not a number
      const double bad = c.pick<double>({0.0, -1.0, std::nan(""), 1e300, HUGE_VAL});
      tst::SetLane(cons, l, Vec(std::size_t(n + R + 2), bad));
    } else
      tst::SetLane(cons, l, Cons(c, w[l], w[l].spread == 1.0));
  }
  c.nontrivial(valid > 0);
  c.label(!masked ? "not masked" : valid == 0 ? "no lane" : "masked");
  if (masked)
    CompleteFromCons(eq, q2, cons, mask);
  else
    CompleteFromCons(eq, q2, cons);
  for (int l = 0; l < W; ++l)
    if (mask[l])
      Compare(c, tst::GetLane(q2, l), want[l], Tol(w[l], DT(w[l]), Seam(w[l])), R, "from conserved variables in lane " + std::to_string(l));
    else
      for (double x : tst::GetLane(q2, l))
        c.check(x == 0.0, "a masked lane is not zero but " + pbt::fmt(x));
  const auto u = masked ? Eq::Velocity(cons, mask) : Eq::Velocity(cons);
  for (int l = 0; l < W; ++l)
    for (int d = 0; d < R; ++d)
      if (mask[l])
        c.near(u(d, l), w[l].u[std::size_t(d)], 1e-14 * std::abs(w[l].u[std::size_t(d)]), "vectorised velocity");
  if (from_reactor) {
    eq.GetReactor().SetDensityArray(rho);
    eq.GetReactor().SetMassFractionsArray(Y);
    eq.GetReactor().SetTemperatureArray(T);
    for (int l = 0; l < W; ++l)
      if (!mask[l])
        for (int d = 0; d < R; ++d)
          vel(d, l) = c.pick<double>({0.0, 1.0});
    eq.CompleteFromReactor(q, vel, mask);
    for (int l = 0; l < W; ++l)
      if (mask[l])
        Compare(c, tst::GetLane(q, l), want[l], Tol(w[l], std::abs(T[l] - 300.0) < 1e-5 ? 2e-6 : 0, false), R,
                "from the reactor with a mask in lane " + std::to_string(l));
  }
}

template <int R> void OnPatch(pbt::Case& c) {
  const Gas g = DrawGas(c);
  using Eq = IdealGasMix<R>;
  const Eq eq{FlameMasterReactor(*g.mech)};
  tst::Ix<R> lo, n;
  for (int r = 0; r < R; ++r) {
    lo[r] = c.i(-3, 3);
    n[r] = r == 0 ? c.i(1, 20) : c.i(1, 3);
  }
  const IndexBox<R> box = tst::MakeBox<R>(lo, n);
  tst::Patch<Conservative<Eq>> cons(eq, box);
  tst::Patch<Complete<Eq>> out(eq, box, -7.0);
  std::vector<Prim> proto;
  std::vector<Vec> want, in;
  const int k = c.i(1, 4);
  for (int i = 0; i < k; ++i) {
    proto.push_back(Draw(c, *g.mech, R));
    want.push_back(Complete_(proto.back()));
    in.push_back(Cons(c, proto.back(), proto.back().spread == 1.0));
  }
  std::vector<int> which;
  pbt::Rng rng{std::uint64_t(c.below(1u << 20)) + 1};
  tst::Each<R>(box, [&](auto i) {
    const int s = int(rng.next() % std::uint64_t(k));
    which.push_back(s);
    for (int m = 0; m < cons.ncomp; ++m)
      cons.at(m, i) = in[s][m];
  });
  IndexBox<R> part = box;
  for (int r = 0; r < R; ++r)
    if (c.chance(1, 4)) {
      part.lower[r] += c.below(unsigned(n[r]));
      part.upper[r] -= c.below(unsigned(part.upper[r] - part.lower[r]));
    }
  c.note("box", tst::BoxStr<R>(part));
  c.nontrivial(k > 1 && tst::BoxSize<R>(part) > 1);
  const int backend = c.i(0, 4);
  CompleteFromConsFn<Eq> fn{eq};
  const View<Complete<Eq>> ov = out.sub(part);
  const View<const Conservative<Eq>> cv = cons.csub(part);
  switch (backend) {
  case 0: fn.CompleteFromCons(execution::seq, ov, cv); break;
  case 1: fn.CompleteFromCons(execution::simd, ov, cv); break;
  case 2: fn.CompleteFromCons(execution::openmp, ov, cv); break;
  case 3: fn.CompleteFromCons(execution::openmp_simd, ov, cv); break;
  default: {
    Eq mine(eq);
    CompleteFromCons(mine, ov, cv);
    break;
  }
  }
  c.label("backend " + std::to_string(backend));
  std::size_t at = 0;
  tst::Each<R>(box, [&](auto i) {
    const int s = which[at++];
    Vec got;
    for (int m = 0; m < out.ncomp; ++m)
      got.push_back(out.at(m, i));
    if (tst::In<R>(part, i))
      Compare(c, got, want[s], Tol(proto[s], DT(proto[s]), Seam(proto[s])), R, "on a patch at " + pbt::list(i));
    else
      for (double x : got)
        c.check(x == -7.0, "CompleteFromCons writes to cell " + pbt::list(i) + " outside of the view");
  });
}
} // namespace
#define PROPS(R)                                                                                                                                                \
  PBT_PROP("scalar " #R "d", 8000, 200000) { Scalar<R>(c); }                                                                                                      \
  PBT_PROP("vectorised " #R "d", 4000, 80000) { Vectorised<R>(c); }                                                                                               \
  PBT_PROP("patch " #R "d", 2000, 40000) { OnPatch<R>(c); }
PROPS(1)
PROPS(2)
PROPS(3)

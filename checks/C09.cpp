// C09: perfect-gas states are thermodynamically consistent
#include "fx_gas.hpp"
namespace {
using namespace fub;
using Vec = std::vector<double>;
using LD = long double;

template <typename Eq> constexpr bool is_mix = false;
template <int R> constexpr bool is_mix<PerfectGasMix<R>> = true;

template <typename Eq> Eq MakeEq(pbt::Case& c) {
  Eq eq = fx::Tr<Eq>::Equation(c);
  if constexpr (is_mix<Eq>) {
    if (c.chance(1, 3)) {
      eq.Msq = c.logreal(1e-4, 1.0);
      eq.Msqinv = 1.0 / eq.Msq;
      c.label("low Mach scaling");
    }
  } else {
    eq.Rspec = c.pick<double>({287.058, 1.0, 4157.0});
  }
  c.note("gamma", eq.gamma);
  return eq;
}
template <typename Eq> double Msq(const Eq& eq) {
  if constexpr (is_mix<Eq>)
    return eq.Msq;
  else
    return 1.0;
}
template <typename Eq> double Rs(const Eq& eq) { // of the equation of state p = rho R T
  if constexpr (is_mix<Eq>)
    return 1.0;
  else
    return eq.Rspec;
}
/// primitives with speeds that are slow or fast
template <typename Eq> Vec Prim(pbt::Case& c, const Eq& eq) {
  constexpr int R = Eq::Rank();
  Vec w;
  w.push_back(c.chance(1, 4) ? 1.0 : c.logreal(1e-6, 1e6));
  const double p = c.chance(1, 4) ? 1.0 : c.logreal(1e-6, 1e8);
  const double a = std::sqrt(eq.gamma * p / w[0] / Msq(eq));
  const double fast = c.pick<double>({0.0, 0.1, 1.0, 30.0});
  for (int d = 0; d < R; ++d)
    w.push_back(a * fast * c.symmetric(1.0));
  w.push_back(p);
  if constexpr (is_mix<Eq>) {
    for (int i = 0; i < eq.n_species; ++i)
      w.push_back(c.unit());
    for (int i = 0; i < eq.n_passive_scalars; ++i)
      w.push_back(c.symmetric(5.0));
  }
  return w;
}
/// what a complete state has to be: mass, momentum, energy, species..., p, c
template <typename Eq> Vec Expect(const Eq& eq, const Vec& w) {
  constexpr int R = Eq::Rank();
  Vec r{w[0]};
  LD k = 0;
  for (int d = 0; d < R; ++d) {
    r.push_back(w[0] * w[d + 1]);
    k += LD(w[d + 1]) * w[d + 1];
  }
  const LD p = w[R + 1];
  r.push_back(double(p / (LD(eq.gamma) - 1) + LD(0.5) * Msq(eq) * w[0] * k));
  if constexpr (is_mix<Eq>)
    for (int i = 0; i < eq.n_species + eq.n_passive_scalars; ++i)
      r.push_back(w[0] * w[R + 2 + i]);
  r.push_back(double(p));
  r.push_back(double(std::sqrt(LD(eq.gamma) * p / w[0])));
  return r;
}
/// relative errors: the pressure is a difference of energies
template <typename Eq> Vec Tols(const Eq& eq, const Vec& want, bool from_cons) {
  constexpr int R = Eq::Rank();
  Vec t;
  double mom = 0;
  for (int d = 0; d < R; ++d)
    mom = std::max(mom, std::abs(want[1 + d]));
  for (std::size_t k = 0; k < want.size(); ++k)
    t.push_back(1e-13 * (k >= 1 && k <= std::size_t(R) ? mom : std::abs(want[k])) + 1e-300);
  if (from_cons) {
    const std::size_t ip = want.size() - 2;
    const double cond = want[R + 1] * (eq.gamma - 1) / want[ip];
    t[ip] = 1e-13 * (1 + cond) * want[ip];
    t[ip + 1] = 1e-13 * (1 + cond) * want[ip + 1];
  }
  return t;
}
void Compare(pbt::Case& c, const Vec& got, const Vec& want, const Vec& tol, const std::string& what) {
  c.check(got.size() == want.size(), what + ": number of components");
  for (std::size_t k = 0; k < want.size(); ++k)
    c.checkf(std::abs(got[k] - want[k]) <= tol[k], [&] {
      return what + ": component " + std::to_string(k) + " is " + pbt::fmt(got[k]) + " instead of " + pbt::fmt(want[k]) + " (whole state " + pbt::list(got) + ")";
    });
}
template <typename Eq> Primitive<Eq> ToPrim(const Eq& eq, const Vec& w) {
  Primitive<Eq> p{eq};
  tst::SetComps(p, w);
  return p;
}
Vec Cons(const Vec& complete) { return Vec(complete.begin(), complete.end() - 2); }

template <typename Eq> void Scalar(pbt::Case& c) {
  constexpr int R = Eq::Rank();
  const Eq eq = MakeEq<Eq>(c);
  const Vec w = Prim(c, eq);
  c.note("prim", pbt::list(w));
  const Vec want = Expect(eq, w);
  bool moving = false;
  for (int d = 0; d < R; ++d)
    moving = moving || w[1 + d] != 0;
  c.nontrivial(moving);
  const Primitive<Eq> prim = ToPrim(eq, w);
  Complete<Eq> q{eq};
  CompleteFromPrim(eq, q, prim);
  Compare(c, tst::Comps(q), want, Tols(eq, want, false), "CompleteFromPrim");
  Primitive<Eq> back{eq};
  PrimFromComplete(eq, back, q);
  {
    Vec t;
    for (std::size_t k = 0; k < w.size(); ++k)
      t.push_back(1e-13 * std::abs(w[k]) + 1e-300);
    Compare(c, tst::Comps(back), w, t, "PrimFromComplete");
  }
  // conserved variables only: the rest has to be derived
  Conservative<Eq> cons{eq};
  tst::SetComps(cons, Cons(want));
  Complete<Eq> q2{eq};
  tst::SetComps(q2, Vec(want.size(), c.pick<double>({0.0, -3.0, 1e30})));
  CompleteFromCons(eq, q2, cons);
  Compare(c, tst::Comps(q2), want, Tols(eq, want, true), "CompleteFromCons");
  for (std::size_t k = 0; k < want.size() - 2; ++k)
    c.check(tst::Comps(q2)[k] == want[k], "CompleteFromCons changes a conserved variable");
  Complete<Eq> q3 = q;
  q3.pressure = -1.0;
  q3.speed_of_sound = -1.0;
  CompleteFromCons(eq, q3, q3);
  Compare(c, tst::Comps(q3), want, Tols(eq, want, true), "CompleteFromCons in place");
  // accessors
  const double rho = w[0], p = w[R + 1];
  double u2 = 0;
  for (int d = 0; d < R; ++d)
    u2 += w[1 + d] * w[1 + d];
  const double umax = std::sqrt(u2);
  const auto v = eq.Velocity(q);
  const auto v2 = euler::Velocity(eq, q);
  const auto mom = euler::Momentum(eq, q);
  for (int d = 0; d < R; ++d) {
    c.near(v[d], w[1 + d], 1e-13 * umax, "velocity");
    c.near(v2[d], w[1 + d], 1e-13 * umax, "euler::Velocity");
    c.near(euler::Velocity(eq, q, d), w[1 + d], 1e-13 * umax, "euler::Velocity(d)");
    c.near(mom[d], rho * w[1 + d], 1e-13 * rho * umax, "euler::Momentum");
    c.near(euler::Momentum(eq, q, d), rho * w[1 + d], 1e-13 * rho * umax, "euler::Momentum(d)");
  }
  c.rel(euler::Density(eq, q), rho, 1e-15, "euler::Density", 0);
  c.rel(euler::Pressure(eq, q), p, 1e-15, "euler::Pressure", 0);
  c.rel(euler::SpeedOfSound(eq, q), std::sqrt(eq.gamma * p / rho), 1e-13, "euler::SpeedOfSound", 0);
  c.rel(euler::Energy(eq, q), want[R + 1], 1e-13, "euler::Energy", 0);
  c.rel(euler::Gamma(eq, q), eq.gamma, 1e-15, "euler::Gamma", 0);
  c.rel(eq.Temperature(q), p / (rho * Rs(eq)), 1e-13, "temperature", 0);
  c.near(eq.Machnumber(q), umax / std::sqrt(eq.gamma * p / rho), 1e-12 * umax / std::sqrt(eq.gamma * p / rho), "Mach number");
  if constexpr (is_mix<Eq>) {
    const double cond = 1 + want[R + 1] * (eq.gamma - 1) / p;
    c.rel(euler::Temperature(eq, q), p / rho, 1e-13, "euler::Temperature", 0);
    c.rel(euler::InternalEnergy(eq, q), p / rho / (eq.gamma - 1), 1e-12 * cond, "euler::InternalEnergy", 0);
    c.rel(euler::Pressure(eq, cons), p, 1e-12 * cond, "pressure of conserved variables", 0);
    c.rel(euler::TotalEnthalpy(eq, q), (want[R + 1] + p) / rho, 1e-13, "euler::TotalEnthalpy", 0);
    // a change of the velocity keeps density, pressure, temperature
    const Vec w2 = Prim(c, eq);
    Vec w3 = w;
    Array<double, R, 1> u;
    const double f = std::sqrt((p / rho) / (w2[R + 1] / w2[0]));
    for (int d = 0; d < R; ++d)
      u[d] = w3[1 + d] = w2[1 + d] * f;
    Complete<Eq> s = q;
    euler::SetVelocity(eq, s, u);
    const Vec want3 = Expect(eq, w3);
    Vec tol3 = Tols(eq, want3, false);
    tol3[R + 1] += 1e-13 * want[R + 1];
    Compare(c, tst::Comps(s), want3, tol3, "SetVelocity");
  }
}

template <typename Eq> void Vectorised(pbt::Case& c) {
  constexpr int R = Eq::Rank();
  constexpr int N = kDefaultChunkSize;
  const Eq eq = MakeEq<Eq>(c);
  std::vector<Vec> w, want;
  for (int l = 0; l < N; ++l) {
    w.push_back(Prim(c, eq));
    want.push_back(Expect(eq, w.back()));
  }
  c.note("lanes", pbt::list(w[0]) + " ...");
  PrimitiveArray<Eq> prim{eq};
  ConservativeArray<Eq> cons{eq};
  for (int l = 0; l < N; ++l) {
    tst::SetLane(prim, l, w[l]);
    tst::SetLane(cons, l, Cons(want[l]));
  }
  CompleteArray<Eq> q{eq};
  CompleteFromPrim(eq, q, prim);
  for (int l = 0; l < N; ++l)
    Compare(c, tst::GetLane(q, l), want[l], Tols(eq, want[l], false), "vectorised CompleteFromPrim, lane " + std::to_string(l));
  PrimitiveArray<Eq> back{eq};
  PrimFromComplete(eq, back, q);
  for (int l = 0; l < N; ++l) {
    Vec t;
    for (double x : w[l])
      t.push_back(1e-13 * std::abs(x) + 1e-300);
    Compare(c, tst::GetLane(back, l), w[l], t, "vectorised PrimFromComplete, lane " + std::to_string(l));
  }
  CompleteArray<Eq> q2{eq};
  CompleteFromCons(eq, q2, cons);
  for (int l = 0; l < N; ++l)
    Compare(c, tst::GetLane(q2, l), want[l], Tols(eq, want[l], true), "vectorised CompleteFromCons, lane " + std::to_string(l));
  CompleteArray<Eq> q3 = q;
  q3.pressure = Array1d::Constant(-1.0);
  q3.speed_of_sound = Array1d::Constant(-1.0);
  CompleteFromCons(eq, q3, q3);
  for (int l = 0; l < N; ++l)
    Compare(c, tst::GetLane(q3, l), want[l], Tols(eq, want[l], true), "vectorised CompleteFromCons in place, lane " + std::to_string(l));
  const Array1d T = eq.Temperature(q);
  const auto V = eq.Velocity(q);
  for (int l = 0; l < N; ++l) {
    c.rel(T[l], w[l][R + 1] / (w[l][0] * Rs(eq)), 1e-13, "vectorised temperature", 0);
    for (int d = 0; d < R; ++d)
      c.near(V(d, l), w[l][1 + d], 1e-13 * std::abs(w[l][1 + d]), "vectorised velocity");
  }
  // masked: invalid lanes hold garbage
  MaskArray mask;
  int valid = 0;
  const bool garbage_density = c.boolean();
  for (int l = 0; l < N; ++l) {
    mask[l] = c.boolean();
    valid += mask[l];
    if (!mask[l]) {
      const double g = c.pick<double>({0.0, 0.0, -1.0, std::nan(""), 1e300, HUGE_VAL});
      Vec bad(Cons(want[l]).size(), g), badp(w[l].size(), g);
      if (!garbage_density)
        bad[0] = badp[0] = 0.0;
      tst::SetLane(cons, l, bad);
      tst::SetLane(prim, l, badp);
    }
  }
  c.nontrivial(valid > 0);
  c.label(valid == N ? "all lanes" : valid == 0 ? "no lane" : "some lanes");
  CompleteArray<Eq> q4{eq};
  CompleteFromCons(eq, q4, cons, mask);
  for (int l = 0; l < N; ++l) {
    const std::string lane = ", lane " + std::to_string(l);
    const Vec got = tst::GetLane(q4, l);
    if (mask[l])
      Compare(c, got, want[l], Tols(eq, want[l], true), "masked CompleteFromCons" + lane);
    else
      for (double x : got)
        c.check(x == 0.0, "masked CompleteFromCons: an invalid lane is not zero but " + pbt::fmt(x));
  }
  if constexpr (!is_mix<Eq>) {
    const CompleteArray<Eq> q5 = eq.CompleteFromPrim(prim.density, prim.velocity, prim.pressure, mask);
    for (int l = 0; l < N; ++l) {
      const Vec got = tst::GetLane(q5, l);
      if (mask[l])
        Compare(c, got, want[l], Tols(eq, want[l], false), "masked CompleteFromPrim, lane " + std::to_string(l));
      else
        for (double x : got)
          c.check(x == 0.0, "masked CompleteFromPrim: an invalid lane is not zero but " + pbt::fmt(x));
    }
  }
}

/// a whole patch, every backend
template <typename Eq> void OnPatch(pbt::Case& c) {
  constexpr int R = Eq::Rank();
  const Eq eq = MakeEq<Eq>(c);
  tst::Ix<R> lo, n;
  for (int r = 0; r < R; ++r) {
    lo[r] = c.i(-3, 3);
    n[r] = r == 0 ? c.i(1, 20) : c.i(1, 3);
  }
  const IndexBox<R> box = tst::MakeBox<R>(lo, n);
  tst::Patch<Conservative<Eq>> cons(eq, box);
  tst::Patch<Complete<Eq>> out(eq, box, -7.0);
  std::vector<Vec> proto, want;
  const int k = c.i(1, 4);
  for (int i = 0; i < k; ++i) {
    proto.push_back(Prim(c, eq));
    want.push_back(Expect(eq, proto.back()));
  }
  std::vector<int> which;
  pbt::Rng rng{std::uint64_t(c.below(1u << 20)) + 1};
  tst::Each<R>(box, [&](auto i) {
    const int s = int(rng.next() % std::uint64_t(k));
    which.push_back(s);
    const Vec q = Cons(want[s]);
    for (int m = 0; m < cons.ncomp; ++m)
      cons.at(m, i) = q[m];
  });
  IndexBox<R> part = box;
  for (int r = 0; r < R; ++r)
    if (c.chance(1, 4)) {
      part.lower[r] += c.below(unsigned(n[r]));
      part.upper[r] -= c.below(unsigned(part.upper[r] - part.lower[r]));
    }
  c.note("box", tst::BoxStr<R>(part));
  c.nontrivial(k > 1 && tst::BoxSize<R>(part) > 1);
  const int backend = c.i(0, 4);
  CompleteFromConsFn<Eq> fn{eq};
  const View<Complete<Eq>> ov = out.sub(part);
  const View<const Conservative<Eq>> cv = cons.csub(part);
  switch (backend) {
  case 0: fn.CompleteFromCons(execution::seq, ov, cv); break;
  case 1: fn.CompleteFromCons(execution::simd, ov, cv); break;
  case 2: fn.CompleteFromCons(execution::openmp, ov, cv); break;
  case 3: fn.CompleteFromCons(execution::openmp_simd, ov, cv); break;
  default: CompleteFromCons(eq, ov, cv); break;
  }
  c.label("backend " + std::to_string(backend));
  std::size_t at = 0;
  tst::Each<R>(box, [&](auto i) {
    const Vec& ex = want[which[at++]];
    Vec got;
    for (int m = 0; m < out.ncomp; ++m)
      got.push_back(out.at(m, i));
    if (tst::In<R>(part, i))
      Compare(c, got, ex, Tols(eq, ex, true), "CompleteFromCons on a patch at " + pbt::list(i));
    else
      for (double x : got)
        c.check(x == -7.0, "CompleteFromCons writes to cell " + pbt::list(i) + " outside of the view");
  });
}

/// isentropic changes of state (mixtures)
template <int R> void Isentropic(pbt::Case& c) {
  using Eq = PerfectGasMix<R>;
  const Eq eq = MakeEq<Eq>(c);
  Vec w = Prim(c, eq);
  const double p = w[R + 1], rho = w[0];
  Complete<Eq> q{eq};
  CompleteFromPrim(eq, q, ToPrim(eq, w));
  const double ratio = c.chance(1, 8) ? 1.0 : c.logreal(1e-2, 1e2);
  const double pn = p * ratio;
  c.note("prim", pbt::list(w));
  c.note("ratio", ratio);
  c.nontrivial(ratio != 1.0);
  const bool alias = c.boolean();
  const bool expansion = c.boolean();
  Complete<Eq> r{eq};
  if (alias)
    r = q;
  const double eff = c.pick<double>({0.0, 0.5, 1.0});
  if (expansion)
    euler::IsentropicExpansionWithoutDissipation(eq, r, alias ? r : q, pn, eff);
  else
    euler::SetIsentropicPressure(eq, r, alias ? r : q, pn);
  c.label(expansion ? "expansion" : "isentropic pressure");
  Primitive<Eq> now{eq};
  PrimFromComplete(eq, now, r);
  const Vec v = tst::Comps(now);
  // the result is a consistent state
  const Vec want = Expect(eq, v);
  Vec tol = Tols(eq, want, false);
  double ke = 0;
  for (int d = 0; d < R; ++d)
    ke += 0.5 * rho * w[1 + d] * w[1 + d] * Msq(eq);
  tol[R + 1] += 1e-11 * (want[R + 1] + (expansion ? v[0] / rho * ke : 0.0));
  for (double& t : tol)
    t *= 100;
  Compare(c, tst::Comps(r), want, tol, "state after the isentropic change");
  c.rel(v[R + 1], pn, 1e-14, "pressure", 0);
  c.rel(v[0], rho * std::pow(ratio, 1.0 / eq.gamma), 1e-11, "density on the isentrope", 0);
  for (int i = 0; i < eq.n_species + eq.n_passive_scalars; ++i)
    c.near(v[R + 2 + i], w[R + 2 + i], 1e-11 * (std::abs(w[R + 2 + i]) + 1e-6), "concentration after the isentropic change");
  const double cp = eq.gamma / (eq.gamma - 1);
  double u2o = 0, u2n = 0;
  for (int d = 0; d < R; ++d) {
    u2o += w[1 + d] * w[1 + d];
    u2n += v[1 + d] * v[1 + d];
  }
  const double To = p / rho, Tn = v[R + 1] / v[0];
  const double scale = cp * (To + Tn) / Msq(eq) + u2o + u2n;
  if (expansion) {
    // conversion of enthalpy with the given efficiency
    c.near(u2n, u2o + 2 * eff * cp * std::abs(To - Tn) / Msq(eq), 1e-10 * scale, "square of the velocity after the expansion");
    c.check(ratio >= 1 - 1e-9 || v[1] >= 0, "an expansion accelerates the gas backwards");
    c.check(ratio <= 1 + 1e-9 || v[1] <= 0, "a compression accelerates the gas forwards");
  } else if (ratio < 1) {
    // stagnation enthalpy
    c.near(0.5 * u2n, 0.5 * u2o + cp * (To - Tn) / Msq(eq), 1e-10 * scale, "total enthalpy after the isentropic change");
    c.check(v[1] >= 0, "an expansion accelerates the gas backwards");
  }
}
/// derived constants
void Constants(pbt::Case& c) {
  PerfectGasMix<1> eq;
  const double R = c.logreal(0.1, 1e4), g = c.real(1.01, 3.0);
  c.note("gamma", g);
  c.nontrivial(true);
  eq.SetConstants(R, g);
  c.rel(eq.Rspec, R, 0, "Rspec", 0);
  c.rel(eq.gamma, g, 0, "gamma", 0);
  c.rel(eq.ooRspec, 1 / R, 1e-14, "1/Rspec", 0);
  c.rel(eq.gamma_inv, 1 / g, 1e-14, "1/gamma", 0);
  c.rel(eq.gamma_minus_one, g - 1, 1e-12, "gamma-1", 0);
  c.rel(eq.gamma_minus_one_inv, 1 / (g - 1), 1e-12, "1/(gamma-1)", 0);
  c.rel(eq.gamma_minus_one_over_gamma, (g - 1) / g, 1e-12, "(gamma-1)/gamma", 0);
  c.rel(eq.gamma_over_gamma_minus_one, g / (g - 1), 1e-12, "gamma/(gamma-1)", 0);
  c.rel(eq.heat_capacity_at_constant_pressure / eq.heat_capacity_at_constant_volume, g, 1e-12, "cp/cv", 0);
  c.rel(eq.heat_capacity_at_constant_pressure - eq.heat_capacity_at_constant_volume, 1, 1e-11, "cp-cv", 0);
  for (int l = 0; l < kDefaultChunkSize; ++l) {
    c.rel(eq.gamma_array_[l], g, 0, "gamma array", 0);
    c.rel(eq.gamma_minus_one_inv_array_[l], 1 / (g - 1), 1e-12, "1/(gamma-1) array", 0);
  }
  c.rel(eq.Msq, 1.0, 1e-12, "Msq of default references", 0);
}
#define FOR(EQ, N)                                                                                                                                             \
  PBT_PROP("scalar " #EQ "<" #N ">", 4000, 100000) { Scalar<EQ<N>>(c); }                                                                                        \
  PBT_PROP("vectorised " #EQ "<" #N ">", 2000, 40000) { Vectorised<EQ<N>>(c); }                                                                                 \
  PBT_PROP("patch " #EQ "<" #N ">", 1000, 20000) { OnPatch<EQ<N>>(c); }
FOR(PerfectGas, 1)
FOR(PerfectGas, 2)
FOR(PerfectGas, 3)
FOR(PerfectGasMix, 1)
FOR(PerfectGasMix, 2)
FOR(PerfectGasMix, 3)
PBT_PROP("isentropic PerfectGasMix<1>", 4000, 100000) { Isentropic<1>(c); }
PBT_PROP("isentropic PerfectGasMix<2>", 3000, 60000) { Isentropic<2>(c); }
PBT_PROP("isentropic PerfectGasMix<3>", 3000, 60000) { Isentropic<3>(c); }
PBT_PROP("constants", 500, 5000) { Constants(c); }
} // namespace

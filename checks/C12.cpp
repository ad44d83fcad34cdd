// C12: approximate Riemann fluxes upwind, bound and keep states admissible
#include "fx.hpp"
#include "fx_gas.hpp"
#include "fx_ig.hpp"
#include "riemann.hpp"
#include "fub/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp"
#include "fub/equations/perfect_gas/EinfeldtSignalVelocities.hpp"
#include "fub/equations/perfect_gas/HllemMethod.hpp"
#include "fub/equations/perfect_gas_mix/EinfeldtSignalVelocities.hpp"
#include "fub/equations/perfect_gas_mix/HllemMethod.hpp"
#include "fub/flux_method/HllMethod.hpp"
namespace {
using namespace fx;
using Vec = std::vector<double>;
std::string Show(const Vec& L, const Vec& R) { return pbt::list(L) + " | " + pbt::list(R); }

// ---- black box properties of all first-order methods -----------------------
double Internal(const Method& m, const Vec& q) { // total minus kinetic energy
  double e = 0, k = 0;
  for (std::size_t i = 0; i < m.comps.size(); ++i) {
    if (m.comps[i].kind == Energy)
      e = q[i];
    if (m.comps[i].kind == Momentum)
      k += 0.5 * q[i] * q[i] / q[0];
  }
  return e - k;
}
void OneSided(pbt::Case& c, Method& m) {
  const int dir = c.i(0, m.rank - 1);
  Field f = m.MakeField(c, c.pick<double>({0.05, 0.5, 1.5}));
  auto wL = m.Perturb(c, f), wR = m.Perturb(c, f);
  const double sgn = c.boolean() ? 1.0 : -1.0;
  auto qL = m.FromPrim(wL), qR = m.FromPrim(wR);
  const double a = std::max(m.Speeds(qL, dir)[1], m.Speeds(qR, dir)[1]);
  const double mach = c.real(1.0, 6.0);
  const std::size_t iu = std::size_t(dir) + 1;
  for (int d = 0; d < m.rank; ++d)
    if (d != dir && c.boolean())
      wL[std::size_t(d) + 1] = wR[std::size_t(d) + 1] = 0.0;
  const double du = wR[iu] - wL[iu];
  wL[iu] = sgn * mach * a;
  wR[iu] = wL[iu] + std::min(std::max(du, -0.5 * a), 0.5 * a);
  qL = m.FromPrim(wL);
  qR = m.FromPrim(wR);
  const auto vL = m.Speeds(qL, dir), vR = m.Speeds(qR, dir);
  const double tang2 = std::max(vL[2] * vL[2] - vL[0] * vL[0], vR[2] * vR[2] - vR[0] * vR[0]);
  const double amax = std::max(vL[1], vR[1]);
  const double umin = std::min(sgn * wL[iu], sgn * wR[iu]);
  // fastest backward signal any of the methods may assume (see C06)
  const double back = umin - std::sqrt(amax * amax + 0.5 * std::max(0.0, tang2) + 0.25 * du * du);
  const bool exact = m.exact_signals;
  c.note("states", Show(qL, qR));
  c.note("dir", dir);
  c.nontrivial(back > 0 && !exact);
  if (!(back > 0.0) || exact)
    return;
  const Backend b = m.seq && c.boolean() ? Seq : Simd;
  c.label(b == Seq ? "scalar" : "vectorised");
  const Vec got = m.Face(b, {qL, qR}, 0.0, 1.0, dir);
  const Vec& up = sgn > 0 ? qL : qR;
  const Vec ref = m.PhysFlux(up, dir);
  const Vec s1 = m.Scale(qL), s2 = m.Scale(qR);
  for (std::size_t k = 0; k < ref.size(); ++k)
    c.checkf(std::abs(got[k] - ref[k]) <= 1e-10 * std::max(s1[k], s2[k]),
             [&] { return "supersonic flow: flux component " + std::to_string(k) + " is " + pbt::fmt(got[k]) + " but the upwind flux is " + pbt::fmt(ref[k]); });
}

void Admissible(pbt::Case& c, Method& m) {
  const int dir = c.i(0, m.rank - 1);
  // the contact-resolving methods are not positively conservative for extreme data
  const bool hllem = m.name.find("Hllem") != std::string::npos;
  Field f = m.MakeField(c, hllem ? c.pick<double>({0.15, 0.3}) : c.pick<double>({0.15, 0.5, 1.5, 1.5}));
  std::vector<Vec> q;
  const std::size_t iu = std::size_t(dir) + 1;
  const double pull = c.pick<double>({0.0, 0.0, 1.0, -1.0}) * c.unit();
  const double a0 = m.Speeds(m.FromPrim(f.base), dir)[1];
  for (int k = 0; k < 3; ++k) {
    auto w = m.Perturb(c, f);
    // colliding or receding cells
    w[iu] += (m.exact_signals ? 0.2 : 2.0) * pull * double(k - 1) * a0;
    q.push_back(m.FromPrim(w));
  }
  if (m.exact_signals)
    for (int k = 0; k < 2; ++k) {
      const auto vL = m.Speeds(q[std::size_t(k)], dir), vR = m.Speeds(q[std::size_t(k) + 1], dir);
      const double du = q[std::size_t(k) + 1][iu] / q[std::size_t(k) + 1][0] - q[std::size_t(k)][iu] / q[std::size_t(k)][0];
      if (du > 0.5 * 2.0 * (vL[1] + vR[1]) / (m.family == "PerfectGas" ? m.gamma - 1.0 : 1.0))
        throw pbt::Discard{};
    }
  const Backend b = m.seq && c.boolean() ? Seq : Simd;
  const Backend bt = m.has_simd_dt ? b : Seq;
  const double dx = 0.7, cfl = c.pick<double>({0.1, 0.4, hllem ? 0.45 : 0.5});
  const double dt = cfl * std::min(m.FaceDt(bt, {q[0], q[1]}, dx, dir), m.FaceDt(bt, {q[1], q[2]}, dx, dir));
  const Vec fl = m.Face(b, {q[0], q[1]}, dt, dx, dir), fr = m.Face(b, {q[1], q[2]}, dt, dx, dir);
  Vec u = q[1];
  for (std::size_t k = 0; k < fl.size(); ++k)
    u[k] += dt / dx * (fl[k] - fr[k]);
  c.note("cells", pbt::list(q[0]) + " | " + pbt::list(q[1]) + " | " + pbt::list(q[2]));
  c.note("dir, dt/dx", pbt::fmt(dir) + " " + pbt::fmt(dt / dx));
  c.nontrivial(q[0] != q[1] || q[1] != q[2]);
  c.label(pull > 0 ? "receding" : (pull < 0 ? "colliding" : "random"));
  c.checkf(u[0] > 0, [&] { return "density after the update is " + pbt::fmt(u[0]); });
  if (m.family != "IdealGasMix" && m.family != "ShallowWater") {
    c.checkf(Internal(m, u) > 0, [&] { return "internal energy after the update is " + pbt::fmt(Internal(m, u)) + " (before " + pbt::fmt(Internal(m, q[1])) + ")"; });
  }
  for (std::size_t k = 0; k < fl.size(); ++k)
    if (m.comps[k].kind == Species && (m.name.find("Hllem") == std::string::npos || m.name.find("Larrouturou") != std::string::npos))
      c.checkf(u[k] >= -1e-12 * u[0], [&] { return "species density after the update is " + pbt::fmt(u[k]); });
}

void Steady(pbt::Case& c, Method& m) {
  const int dir = c.i(0, m.rank - 1);
  Field f = m.MakeField(c, c.pick<double>({0.5, 1.5}));
  auto wL = m.Perturb(c, f), wR = m.Perturb(c, f);
  const std::size_t iu = std::size_t(dir) + 1, ip = std::size_t(m.rank) + 1;
  wL[iu] = wR[iu] = 0.0;
  for (int d = 0; d < m.rank; ++d) // shear of any strength
    if (d != dir)
      wR[std::size_t(d) + 1] = c.pick<double>({1.0, -1.0, 0.3}) * wL[std::size_t(d) + 1];
  wR[ip] = wL[ip];
  const Vec qL = m.FromPrim(wL), qR = m.FromPrim(wR);
  const Backend b = m.seq && c.boolean() ? Seq : Simd;
  c.note("states", Show(qL, qR));
  c.note("dir", dir);
  c.label(b == Seq ? "scalar" : "vectorised");
  c.nontrivial(qL != qR);
  const Vec got = m.Face(b, {qL, qR}, 0.0, 1.0, dir), s1 = m.Scale(qL), s2 = m.Scale(qR);
  for (std::size_t k = 0; k < got.size(); ++k) {
    const double ref = m.comps[k].kind == Momentum && m.comps[k].d == dir ? wL[ip] : 0.0;
    c.checkf(std::abs(got[k] - ref) <= 1e-11 * std::max(s1[k], s2[k]), [&] { return "stationary contact: flux component " + std::to_string(k) + " is " + pbt::fmt(got[k]) + " instead of " + pbt::fmt(ref); });
  }
}

// ---- signal speeds and the HLL(EM) formulas --------------------------------
template <typename Eq> using Einf = EinfeldtSignalVelocities<Eq>;
template <typename Eq> fub::Complete<Eq> ToState(const Eq& eq, const Vec& w) {
  fub::Complete<Eq> q{eq};
  Tr<Eq>::Make(eq, w, q);
  return q;
}
template <typename Eq> void Signals(pbt::Case& c) {
  Eq eq = Tr<Eq>::Equation(c);
  const int dir = c.i(0, Eq::Rank() - 1);
  const Vec base = Tr<Eq>::Base(c, eq);
  const double amp = c.pick<double>({0.0, 0.1, 1.0, 2.0});
  std::vector<fub::Complete<Eq>> Ls, Rs;
  CompleteArray<Eq> la{eq}, ra{eq};
  MaskArray mask;
  for (int l = 0; l < kDefaultChunkSize; ++l) {
    Ls.push_back(ToState(eq, Tr<Eq>::Perturb(c, eq, base, amp)));
    auto w = Tr<Eq>::Perturb(c, eq, base, amp);
    w[std::size_t(dir) + 1] += c.pick<double>({0.0, 1.0, -1.0}) * c.unit() * 2.0 * Tr<Eq>::Speeds(eq, Ls.back(), dir)[1];
    Rs.push_back(ToState(eq, w));
    tst::SetLane(la, l, tst::Comps(Ls.back()));
    tst::SetLane(ra, l, tst::Comps(Rs.back()));
    mask[l] = c.chance(3, 4);
  }
  Einf<Eq> sig;
  const auto sa = sig(eq, la, ra, Direction(dir));
  const auto sm = sig(eq, la, ra, mask, Direction(dir));
  // the HLL flux and the HLL solution
  FluxMethod<Hll<Eq, Einf<Eq>>> hll(eq, Einf<Eq>{});
  c.nontrivial(amp > 0);
  for (int l = 0; l < kDefaultChunkSize; ++l) {
    const auto &L = Ls[std::size_t(l)], &R = Rs[std::size_t(l)];
    const auto s = sig(eq, L, R, Direction(dir));
    const auto vL = Tr<Eq>::Speeds(eq, L, dir), vR = Tr<Eq>::Speeds(eq, R, dir);
    const double uL = L.momentum[dir] / L.density, uR = R.momentum[dir] / R.density;
    const double e = 1e-12 * (vL[2] + vR[2] + vL[1] + vR[1]);
    const std::string at = " (lane " + std::to_string(l) + ", " + Show(tst::Comps(L), tst::Comps(R)) + ")";
    c.checkf(s[0] <= uL - vL[1] + e && s[1] >= uR + vR[1] - e && s[0] < s[1], [&] { return "signals " + pbt::list(s) + " do not enclose u - c = " + pbt::fmt(uL - vL[1]) + " and u + c = " + pbt::fmt(uR + vR[1]) + at; });
    const double tang2 = std::max(vL[2] * vL[2], vR[2] * vR[2]), amax = std::max(vL[1], vR[1]), du = uR - uL;
    const double slack = std::sqrt(amax * amax + 0.5 * tang2 + 0.25 * du * du) + e;
    c.checkf(s[0] >= std::min(uL, uR) - slack && s[1] <= std::max(uL, uR) + slack, [&] { return "signals " + pbt::list(s) + " are far outside of all waves" + at; });
    for (std::size_t i = 0; i < 2; ++i) {
      c.rel(sa[i][l], s[i], 1e-11, "vectorised signal" + at, vL[1] + vL[2]);
      if (mask[l])
        c.rel(sm[i][l], s[i], 1e-11, "masked signal" + at, vL[1] + vL[2]);
    }
    if (l > 1)
      continue;
    const std::array<fub::Complete<Eq>, 2> st{L, R};
    fub::Conservative<Eq> f{eq};
    hll.ComputeNumericFlux(f, st, Duration(0), 1.0, Direction(dir));
    fub::Conservative<Eq> fl{eq}, fr{eq};
    fub::Flux(eq, fl, L, Direction(dir));
    fub::Flux(eq, fr, R, Direction(dir));
    const double bL = std::min(s[0], 0.0), bR = std::max(s[1], 0.0);
    const Vec got = tst::Comps(f), FL = tst::Comps(fl), FR = tst::Comps(fr), qL = tst::Comps(L), qR = tst::Comps(R), sL = Tr<Eq>::Scale(eq, L), sR = Tr<Eq>::Scale(eq, R);
    for (std::size_t k = 0; k < got.size(); ++k) {
      const double ref = (bR * FL[k] - bL * FR[k] + bL * bR * (qR[k] - qL[k])) / (bR - bL);
      c.checkf(std::abs(got[k] - ref) <= 1e-11 * (sL[k] + sR[k]) * (1.0 + (bR - bL) / vL[1]), [&] { return "HLL flux component " + std::to_string(k) + " is " + pbt::fmt(got[k]) + " instead of " + pbt::fmt(ref) + at; });
    }
    fub::Complete<Eq> sol{eq};
    hll.SolveRiemannProblem(sol, L, R, Direction(dir));
    const Vec mid = tst::Comps(AsCons(sol));
    for (std::size_t k = 0; k < mid.size(); ++k) {
      const double ref = 0 < s[0] ? qL[k] : (s[1] < 0 ? qR[k] : (s[1] * qR[k] - s[0] * qL[k] + FL[k] - FR[k]) / (s[1] - s[0]));
      const double scale = (sL[k] + sR[k]) * (1.0 + (bR - bL) / vL[1]) / (s[1] - s[0]);
      c.checkf(std::abs(mid[k] - ref) <= (std::is_same_v<Eq, IdealGasMix<Eq::Rank()>> ? 1e-8 : 1e-11) * scale, [&] { return "HLL solution component " + std::to_string(k) + " is " + pbt::fmt(mid[k]) + " instead of " + pbt::fmt(ref) + at; });
    }
  }
}
/// a single shock of a perfect gas travels with the Roe speed
template <typename Eq> void Shock(pbt::Case& c) {
  Eq eq = Tr<Eq>::Equation(c);
  const int dir = c.i(0, Eq::Rank() - 1);
  const Vec base = Tr<Eq>::Base(c, eq);
  const std::size_t iu = std::size_t(dir) + 1, ip = std::size_t(Eq::Rank()) + 1;
  const double g = eq.gamma;
  const int side = c.boolean() ? 1 : -1;
  rp::Gas s;
  s.g = g;
  Vec wf = base, wb = base; // in front of and behind of the shock
  rp::W front{0, 0, 0};
  {
    const auto q = ToState(eq, wf);
    front = {q.density, wf[iu], wf[ip]};
  }
  s.ps = front.p * (1.0 + c.logreal(1e-3, 1e3));
  s.L = s.R = front;
  s.us = front.u + side * rp::Gas::F(g, front, s.ps);
  const double speed = s.Head(side);
  wb[0] = s.StarDensity(side) * (base[0] / front.rho);
  wb[iu] = s.us;
  wb[ip] = s.ps;
  const auto F = ToState(eq, wf), B = ToState(eq, wb);
  Einf<Eq> sig;
  const auto v = side < 0 ? sig(eq, F, B, Direction(dir)) : sig(eq, B, F, Direction(dir));
  const double e = 1e-10 * (std::abs(speed) + Tr<Eq>::Speeds(eq, F, dir)[2] + Tr<Eq>::Speeds(eq, B, dir)[1]);
  c.note("shock", "side " + std::to_string(side) + " speed " + pbt::fmt(speed) + " " + Show(tst::Comps(F), tst::Comps(B)));
  c.nontrivial(true);
  c.checkf(side > 0 ? v[1] >= speed - e : v[0] <= speed + e, [&] { return "signals " + pbt::list(v) + " do not enclose a shock with speed " + pbt::fmt(speed); });
}
/// upwind states for supersonic Riemann problems of the contact-resolving solver
template <typename Eq, bool Lar> void HllemSolution(pbt::Case& c) {
  Eq eq = Tr<Eq>::Equation(c);
  const int dir = c.i(0, Eq::Rank() - 1);
  const Vec base = Tr<Eq>::Base(c, eq);
  const double amp = c.pick<double>({0.1, 1.0});
  Vec wL = Tr<Eq>::Perturb(c, eq, base, amp), wR = Tr<Eq>::Perturb(c, eq, base, amp);
  const std::size_t iu = std::size_t(dir) + 1;
  const double sgn = c.boolean() ? 1.0 : -1.0;
  const bool uniform = c.chance(1, 4);
  auto L = ToState(eq, wL), R = ToState(eq, wR);
  const auto vL = Tr<Eq>::Speeds(eq, L, dir), vR = Tr<Eq>::Speeds(eq, R, dir);
  const double a = std::max(vL[1], vR[1]), tang = std::max(vL[2], vR[2]);
  if (uniform) {
    wR = wL;
  } else {
    const double du = std::min(0.5 * a, std::max(-0.5 * a, wR[iu] - wL[iu]));
    wL[iu] = sgn * (1.0 * a + 1.5 * tang + a * c.real(0.6, 5.0));
    wR[iu] = wL[iu] + du;
  }
  L = ToState(eq, wL);
  R = ToState(eq, wR);
  fub::perfect_gas::Hllem<Eq, Lar> hllem{eq};
  fub::Complete<Eq> sol{eq};
  hllem.SolveRiemannProblem(sol, L, R, Direction(dir));
  c.note("states", Show(tst::Comps(L), tst::Comps(R)));
  c.note("dir", dir);
  c.nontrivial(!uniform);
  const Vec got = tst::Comps(sol), ref = tst::Comps(sgn > 0 || uniform ? L : R);
  const Vec sc = Tr<Eq>::Scale(eq, sgn > 0 || uniform ? L : R);
  for (std::size_t k = 0; k < sc.size(); ++k)
    c.checkf(std::abs(got[k] - ref[k]) <= 1e-10 * sc[k] / (vL[1] + vL[2]) * 1e1,
             [&] { return std::string(uniform ? "uniform" : "supersonic") + ": component " + std::to_string(k) + " of the solution is " + pbt::fmt(got[k]) + " instead of " + pbt::fmt(ref[k]); });
}
template <typename Eq> void AddEq(double w) {
  const std::string n = std::string(Tr<Eq>::Name()) + "<" + std::to_string(Eq::Rank()) + ">";
  auto add = [&](const std::string& what, double q, void (*f)(pbt::Case&)) { pbt::registry().push_back(pbt::Prop{what + " " + n, long(w * q), long(20 * w * q), f}); };
  add("signals", 2000, Signals<Eq>);
  if constexpr (!std::is_same_v<Eq, IdealGasMix<Eq::Rank()>>) {
    add("single shock", 4000, Shock<Eq>);
    if constexpr (!std::is_same_v<Eq, PerfectGasMix<3>>) {
      add("HLLEM solution", 3000, HllemSolution<Eq, false>);
      add("HLLEM-Larrouturou solution", 3000, HllemSolution<Eq, true>);
    }
  }
}
pbt::Setup setup([] {
  const auto all = Registry();
  auto add = [](const std::string& what, const Entry& e, double q, double t, void (*body)(pbt::Case&, Method&)) {
    auto mk = e.make;
    const std::string n = e.name;
    pbt::registry().push_back(pbt::Prop{what + ": " + e.name, std::max<long>(20, long(q * e.weight)), std::max<long>(20, long(t * e.weight)), [mk, n, body](pbt::Case& c) {
                                          auto m = mk(c);
                                          m->name = n;
                                          body(c, *m);
                                        }});
  };
  auto has = [](const std::string& n, const char* s) { return n.find(s) != std::string::npos; };
  for (const Entry& e : all) {
    if (has(e.name, "Muscl") || has(e.name, "Advection") || has(e.name, "Burgers") || has(e.name, "Runge") || has(e.name, "Third"))
      continue;
    if (!has(e.name, "Godunov"))
      add("one-sided", e, 4000, 80000, OneSided);
    add("admissible update", e, 4000, 80000, Admissible);
    if (has(e.name, "Hllem") || (has(e.name, "Godunov") && !has(e.name, "Shallow")))
      add("steady contact", e, 3000, 60000, Steady);
  }
  AddEq<PerfectGas<1>>(1);
  AddEq<PerfectGas<2>>(1);
  AddEq<PerfectGas<3>>(1);
  AddEq<PerfectGasMix<1>>(1);
  AddEq<PerfectGasMix<2>>(1);
  AddEq<PerfectGasMix<3>>(1);
  AddEq<IdealGasMix<1>>(0.1);
  AddEq<IdealGasMix<2>>(0.1);
  AddEq<IdealGasMix<3>>(0.1);
});
} // namespace

// C13: slope limiting and reconstruction are bounded and exact for linear data
#include "fx.hpp"
#include "fx_gas.hpp"
#include "fub/equations/Burgers.hpp"
#include "fub/equations/ShallowWater.hpp"
#include "fub/flux_method/Gradient.hpp"
#include "fub/flux_method/MusclHancockMethod.hpp"
#include "fub/flux_method/MusclHancockMethod2.hpp"
#include "fub/flux_method/Reconstruct.hpp"
#include "fub/equations/perfect_gas/HllemMethod.hpp"
#include "fub/equations/perfect_gas_mix/HllemMethod.hpp"
namespace {
using namespace fub;
using Vec = std::vector<double>;
using Lim = double (*)(double, double);

double RefMinMod(double l, double r) { return l * r > 0 ? (std::abs(l) < std::abs(r) ? l : r) : 0.0; }
double RefVanLeer(double l, double r) { return l * r > 0 ? 2.0 / (1.0 / l + 1.0 / r) : 0.0; }
double RefCentral(double l, double r) { return 0.5 * l + 0.5 * r; }
double RefCentralMono(double l, double r) { return l * r > 0 ? 0.5 * l + 0.5 * r : 0.0; }
double RefZero(double, double) { return 0.0; }
/// of the primitive MUSCL-Hancock methods: 2 m d / (m + d) with m the smaller
/// one sided difference and d the central one
double RefPrim(double l, double r) {
  const double d = 0.5 * (l + r);
  if (!(l * r > 0))
    return 0.0;
  const double m = RefMinMod(l, r);
  return 2.0 * m * d / (m + d);
}

// ---------------------------------------------------------------- limiters
/// one sided differences with extrema, equal values, zeros and huge ratios
std::pair<double, double> DrawDiffs(pbt::Case& c) {
  const double s = c.chance(1, 2) ? 1.0 : c.logreal(1e-6, 1e6);
  const double l = s * c.symmetric(1.0);
  switch (c.below(6)) {
  case 0:
    return {l, l};
  case 1:
    return {l, 0.0};
  case 2:
    return {0.0, l};
  case 3:
    return {l, -l};
  case 4:
    return {l, l * c.logreal(1e-9, 1e9)};
  default:
    return {l, s * c.symmetric(1.0)};
  }
}
struct Slope {
  const char* name;
  Lim ref;
  bool monotone; // TVD region
  std::function<double(double, double)> scalar;
  std::function<Array1d(Array1d, Array1d)> array;
};
template <typename L> std::function<double(double, double)> CellScalar() {
  return [](double l, double r) {
    Conservative<Burgers1d> s;
    std::array<Complete<Burgers1d>, 3> q;
    q[0].u = -l;
    q[1].u = 0.0;
    q[2].u = r;
    L lim;
    lim.ComputeLimitedSlope(s, span<const Complete<Burgers1d>, 3>(q));
    return s.u;
  };
}
template <typename L> std::function<Array1d(Array1d, Array1d)> CellArray(bool masked) {
  return [masked](Array1d l, Array1d r) {
    ConservativeArray<Burgers1d> s;
    s.u = Array1d::Constant(99.0);
    std::array<CompleteArray<Burgers1d>, 3> q;
    q[0].u = -l;
    q[1].u = Array1d::Zero();
    q[2].u = r;
    L lim;
    if (masked)
      lim.ComputeLimitedSlope(s, span<const CompleteArray<Burgers1d>, 3>(q), MaskArray::Constant(true));
    else
      lim.ComputeLimitedSlope(s, span<const CompleteArray<Burgers1d>, 3>(q));
    return Array1d(s.u);
  };
}
template <typename L> Slope Central(const char* n, Lim ref, bool mono) {
  return {n, ref, mono, [](double l, double r) { return CentralDifferenceGradient<L>{}.ComputeGradient(l, r); },
          [](Array1d l, Array1d r) { return CentralDifferenceGradient<L>{}.ComputeGradient(l, r); }};
}
const std::vector<Slope>& Slopes() {
  static const std::vector<Slope> s{
      {"MinMod", RefMinMod, true, CellScalar<MinMod>(), CellArray<MinMod>(false)},
      {"MinMod masked", RefMinMod, true, CellScalar<MinMod>(), CellArray<MinMod>(true)},
      {"VanLeer", RefVanLeer, true, CellScalar<VanLeer>(), CellArray<VanLeer>(false)},
      {"VanLeer masked", RefVanLeer, true, CellScalar<VanLeer>(), CellArray<VanLeer>(true)},
      {"VanLeer function", RefVanLeer, true, [](double l, double r) { return VanLeer{}(l, r); }, [](Array1d l, Array1d r) { return VanLeer{}(l, r); }},
      {"NoLimiter", RefCentral, false, CellScalar<NoLimiter>(), CellArray<NoLimiter>(false)},
      {"NoLimiter masked", RefCentral, false, CellScalar<NoLimiter>(), CellArray<NoLimiter>(true)},
      {"NoGradient", RefZero, true, CellScalar<NoGradient>(), CellArray<NoGradient>(false)},
      {"NoGradient masked", RefZero, true, CellScalar<NoGradient>(), CellArray<NoGradient>(true)},
      Central<NoLimiter2>("CentralDifferenceGradient<NoLimiter2>", RefCentralMono, false),
      Central<UpwindLimiter>("CentralDifferenceGradient<UpwindLimiter>", RefZero, true),
      Central<MinModLimiter>("CentralDifferenceGradient<MinModLimiter>", RefMinMod, true),
      Central<VanLeerLimiter>("CentralDifferenceGradient<VanLeerLimiter>", RefVanLeer, true)};
  return s;
}
PBT_PROP("limited slopes lie in the TVD region", 6000, 200000) {
  pbt::Case& cc = c;
  const Slope& s = Slopes()[cc.below(Slopes().size())];
  cc.label(s.name);
  Array1d l, r;
  for (int i = 0; i < kDefaultChunkSize; ++i) {
    const auto [a, b] = DrawDiffs(cc);
    l[i] = a;
    r[i] = b;
  }
  cc.note("limiter", s.name);
  cc.note("left", pbt::list(Vec(l.data(), l.data() + kDefaultChunkSize)));
  cc.note("right", pbt::list(Vec(r.data(), r.data() + kDefaultChunkSize)));
  const Array1d v = s.array(l, r), w = s.array(r, l), neg = s.array(-l, -r);
  bool some = false;
  for (int i = 0; i < kDefaultChunkSize; ++i) {
    const double a = l[i], b = r[i], m = std::max(std::abs(a), std::abs(b));
    const std::string at = std::string(s.name) + "(" + pbt::fmt(a) + ", " + pbt::fmt(b) + ")";
    const double x = s.scalar(a, b);
    some = some || x != 0.0;
    // quotients loose digits relative to the larger difference only if the
    // smaller one decides
    const double tol = 1e-14 * m;
    cc.near(x, s.ref(a, b), tol, at);
    cc.near(v[i], s.ref(a, b), tol, "vectorised " + at);
    cc.near(w[i], v[i], tol, "symmetry of " + at);
    cc.near(neg[i], -v[i], tol, "oddness of " + at);
    cc.near(s.scalar(-a, -b), -x, tol, "oddness of the scalar " + at);
    if (s.monotone) {
      cc.check(a * b > 0.0 || (x == 0.0 && v[i] == 0.0), at + ": slope at an extremum");
      const double bound = 2.0 * std::min(std::abs(a), std::abs(b)) * (1.0 + 1e-12);
      cc.check(x * a >= 0.0 && std::abs(x) <= bound, at + " leaves the TVD region: " + pbt::fmt(x));
      cc.check(v[i] * a >= 0.0 && std::abs(v[i]) <= bound, "vectorised " + at + " leaves the TVD region: " + pbt::fmt(v[i]));
    }
    if (a == b && s.ref != RefZero)
      cc.near(v[i], a, 4e-16 * m, at + ": linear data");
  }
  cc.nontrivial(some);
}
template <typename L> void MaskedLimiter(pbt::Case& c, Lim ref) {
  ConservativeArray<Burgers1d> s;
  std::array<CompleteArray<Burgers1d>, 3> q;
  MaskArray mask;
  Array1d l, r;
  for (int i = 0; i < kDefaultChunkSize; ++i) {
    mask[i] = c.boolean();
    const auto [a, b] = DrawDiffs(c);
    l[i] = a;
    r[i] = b;
    q[1].u[i] = 0.0;
    q[0].u[i] = -a;
    q[2].u[i] = b;
    if (!mask[i])
      q[c.below(3)].u[i] = c.boolean() ? NAN : INFINITY;
  }
  L lim;
  lim.ComputeLimitedSlope(s, span<const CompleteArray<Burgers1d>, 3>(q), mask);
  c.nontrivial(mask.any() && !mask.all());
  for (int i = 0; i < kDefaultChunkSize; ++i)
    c.near(s.u[i], mask[i] ? ref(l[i], r[i]) : 0.0, 1e-14 * std::max(std::abs(l[i]), std::abs(r[i])), "lane " + std::to_string(i));
}
PBT_PROP("masked slopes are zero in masked lanes", 1500, 40000) {
  switch (c.below(4)) {
  case 0:
    return MaskedLimiter<MinMod>(c, RefMinMod);
  case 1:
    return MaskedLimiter<VanLeer>(c, RefVanLeer);
  case 2:
    return MaskedLimiter<NoLimiter>(c, RefCentral);
  default:
    return MaskedLimiter<NoGradient>(c, RefZero);
  }
}

// ------------------------------------------------- gradients, reconstructions
/// A dw/dx for the primitive variables [rho, u, p, tracers] in direction d
Vec Advect(int R, int d, const Vec& w, const Vec& dw, double c, double Msq) {
  Vec r(w.size());
  const double u = w[std::size_t(1 + d)], rho = w[0], du = dw[std::size_t(1 + d)];
  for (std::size_t i = 0; i < w.size(); ++i)
    r[i] = u * dw[i];
  r[0] += rho * du;
  r[std::size_t(1 + d)] += dw[std::size_t(R + 1)] / (rho * Msq);
  r[std::size_t(R + 1)] += rho * c * c * du;
  return r;
}
/// [minus, zero.., plus, tracers] of a difference of primitive variables
Vec ToChar(int R, int d, const Vec& w, const Vec& dw, double c, double Msq) {
  const double M = std::sqrt(Msq), rhoc = w[0] * c, du = dw[std::size_t(1 + d)], dp = dw[std::size_t(R + 1)];
  Vec k;
  k.push_back(dp - M * rhoc * du);
  k.push_back(dw[0] - dp / (c * c));
  for (int i = 1; i < R; ++i)
    k.push_back(dw[std::size_t(1 + (d + i) % R)]);
  k.push_back(dp + M * rhoc * du);
  k.insert(k.end(), dw.begin() + R + 2, dw.end());
  return k;
}
Vec FromChar(int R, int d, const Vec& w, const Vec& k, double c, double Msq) {
  Vec dw(w.size());
  const double M = std::sqrt(Msq), rhoc = w[0] * c;
  const double dp = 0.5 * (k[0] + k[std::size_t(R + 1)]);
  dw[std::size_t(R + 1)] = dp;
  dw[0] = k[1] + dp / (c * c);
  dw[std::size_t(1 + d)] = 0.5 * (k[std::size_t(R + 1)] - k[0]) / (M * rhoc);
  for (int i = 1; i < R; ++i)
    dw[std::size_t(1 + (d + i) % R)] = k[std::size_t(1 + i)];
  for (std::size_t i = std::size_t(R) + 2; i < w.size(); ++i)
    dw[i] = k[i];
  return dw;
}
/// limited characteristic differences evolved over half a step
Vec EvolveChar(int R, int d, const Vec& w, const Vec& k, double c, double Msq, int sign, double lambda) {
  const double u = w[std::size_t(1 + d)], cm = c / std::sqrt(Msq);
  Vec r(k.size());
  for (std::size_t i = 0; i < k.size(); ++i) {
    const double speed = i == 0 ? u - cm : i == std::size_t(R + 1) ? u + cm : u;
    r[i] = 0.5 * k[i] * (sign - lambda * speed);
  }
  return r;
}
Vec Map(const Vec& a, const Vec& b, Lim f) {
  Vec r;
  for (std::size_t i = 0; i < a.size(); ++i)
    r.push_back(f(a[i], b[i]));
  return r;
}
Vec Minus(const Vec& a, const Vec& b) {
  Vec r;
  for (std::size_t i = 0; i < a.size(); ++i)
    r.push_back(a[i] - b[i]);
  return r;
}
Vec Axpy(const Vec& a, double s, const Vec& b) {
  Vec r;
  for (std::size_t i = 0; i < a.size(); ++i)
    r.push_back(a[i] + s * b[i]);
  return r;
}
template <typename Eq> double MsqOf(const Eq& eq) {
  if constexpr (std::is_same_v<Eq, PerfectGas<Eq::Rank()>>)
    return 1.0;
  else
    return eq.Msq;
}
template <typename Eq> Eq DrawEq(pbt::Case& c) {
  Eq eq = fx::Tr<Eq>::Equation(c);
  if constexpr (!std::is_same_v<Eq, PerfectGas<Eq::Rank()>>) {
    eq.Msq = c.chance(1, 3) ? 1.0 : c.logreal(0.05, 2.0);
    eq.Msqinv = 1.0 / eq.Msq;
  }
  return eq;
}
Vec Head(const Vec& v, std::size_t n) { return Vec(v.begin(), v.begin() + long(n)); }
void Close(pbt::Case& c, const Vec& got, const Vec& want, const Vec& scale, double tol, const std::string& what) {
  c.check(got.size() == want.size(), what + ": number of components");
  for (std::size_t i = 0; i < got.size(); ++i)
    c.checkf(std::abs(got[i] - want[i]) <= tol * scale[i] || got[i] == want[i],
             [&] { return what + ": component " + std::to_string(i) + " is " + pbt::fmt(got[i]) + " and not " + pbt::fmt(want[i]) + " (scale " + pbt::fmt(scale[i]) + ")"; });
}
Vec AbsMax(const std::vector<Vec>& v, double floor) {
  Vec r(v[0].size(), floor);
  for (const Vec& x : v)
    for (std::size_t i = 0; i < x.size(); ++i)
      r[i] = std::max(r[i], std::abs(x[i]));
  return r;
}

enum Var { VCons, VPrim, VChar };
template <typename Eq, typename L, int V> struct GradType;
template <typename Eq, typename L> struct GradType<Eq, L, VCons> { using G = ConservativeGradient<Eq, CentralDifferenceGradient<L>>; using R = ConservativeReconstruction<Eq>; };
template <typename Eq, typename L> struct GradType<Eq, L, VPrim> { using G = PrimitiveGradient<Eq, CentralDifferenceGradient<L>>; using R = PrimitiveReconstruction<Eq>; };
template <typename Eq, typename L> struct GradType<Eq, L, VChar> { using G = CharacteristicsGradient<Eq, CentralDifferenceGradient<L>>; using R = CharacteristicsReconstruction<Eq>; };

/// one stencil of three cells in every lane
template <typename Eq> struct Lanes {
  std::vector<std::array<Vec, 3>> w;        // primitive variables
  std::vector<std::array<Complete<Eq>, 3>> q;
  std::array<CompleteArray<Eq>, 3> a;
};
template <typename Eq> Lanes<Eq> DrawLanes(pbt::Case& c, const Eq& eq, double amp, bool linear_cons, int stencil) {
  Lanes<Eq> r;
  for (int k = 0; k < 3; ++k)
    r.a[std::size_t(k)] = CompleteArray<Eq>{eq};
  for (int l = 0; l < kDefaultChunkSize; ++l) {
    const Vec base = fx::Tr<Eq>::Base(c, eq);
    std::array<Vec, 3> w;
    std::array<Complete<Eq>, 3> q{Complete<Eq>{eq}, Complete<Eq>{eq}, Complete<Eq>{eq}};
    for (int k = 0; k < 3; ++k) {
      w[std::size_t(k)] = stencil == 0 || k == 0 ? fx::Tr<Eq>::Perturb(c, eq, base, amp) : w[0];
      fx::Tr<Eq>::Make(eq, w[std::size_t(k)], q[std::size_t(k)]);
    }
    if (linear_cons) {
      // the middle cell holds the mean conserved values
      ForEachComponent([](double& m, double a, double b) { m = 0.5 * (a + b); }, AsCons(q[1]), AsCons(q[0]), AsCons(q[2]));
      Eq e = eq;
      CompleteFromCons(e, q[1], q[1]);
    }
    for (int k = 0; k < 3; ++k)
      tst::SetLane(r.a[std::size_t(k)], l, tst::Comps(q[std::size_t(k)]));
    r.w.push_back(w);
    r.q.push_back(q);
  }
  return r;
}
template <typename Eq, typename L, int V> void Gradients(pbt::Case& c, Lim ref) {
  constexpr int R = Eq::Rank();
  using G = typename GradType<Eq, L, V>::G;
  const Eq eq = DrawEq<Eq>(c);
  const double Msq = MsqOf(eq);
  const int d = c.i(0, R - 1);
  const double dx = c.logreal(1e-3, 1e2);
  const bool linear = V == VCons && c.chance(1, 4);
  const Lanes<Eq> s = DrawLanes(c, eq, c.pick<double>({0.0, 0.1, 0.5, 1.5}), linear, 0);
  G g = c.boolean() ? G(eq) : G(eq, CentralDifferenceGradient<L>{});
  typename G::GradientArray ga{eq};
  g.ComputeGradient(ga, span<const CompleteArray<Eq>, 3>(s.a), dx, Direction(d));
  c.label(V == VCons ? "conservative" : V == VPrim ? "primitive" : "characteristic");
  c.note("dx", dx);
  c.note("Msq", Msq);
  c.note("dir", d);
  bool some = false;
  for (int l = 0; l < kDefaultChunkSize; ++l) {
    const auto& q = s.q[std::size_t(l)];
    typename G::Gradient gs{eq};
    g.ComputeGradient(gs, span<const Complete<Eq>, 3>(q), dx, Direction(d));
    std::vector<Vec> x;
    for (int k = 0; k < 3; ++k) {
      Conservative<Eq> u{eq};
      u = AsCons(q[std::size_t(k)]);
      x.push_back(V == VCons ? tst::Comps(u) : s.w[std::size_t(l)][std::size_t(k)]);
    }
    Vec dl = Axpy(Vec(x[0].size(), 0.0), 1 / dx, Minus(x[1], x[0])), dr = Axpy(Vec(x[0].size(), 0.0), 1 / dx, Minus(x[2], x[1]));
    Vec scale = AbsMax(x, 1e-30);
    if (V == VChar) {
      const double cs = q[1].speed_of_sound;
      const Vec& w = x[1];
      dl = ToChar(R, d, w, dl, cs, Msq);
      dr = ToChar(R, d, w, dr, cs, Msq);
      Vec big(scale), k(scale.size());
      double umax = 0;
      for (int i = 0; i < R; ++i)
        umax = std::max(umax, scale[std::size_t(i + 1)]);
      const double acoustic = scale[std::size_t(R + 1)] + std::sqrt(Msq) * w[0] * cs * umax;
      k[0] = k[std::size_t(R + 1)] = acoustic;
      k[1] = scale[0] + scale[std::size_t(R + 1)] / (cs * cs);
      for (int i = 1; i < R; ++i)
        k[std::size_t(i + 1)] = umax;
      for (std::size_t i = std::size_t(R) + 2; i < k.size(); ++i)
        k[i] = scale[i];
      scale = k;
    }
    for (double& v : scale)
      v /= dx;
    const Vec want = Map(dl, dr, ref);
    Vec got = tst::Comps(gs), goa = tst::GetLane(ga, l);
    // the unlimited central slope jumps where a one-sided difference vanishes
    if (ref == RefCentralMono)
      for (std::size_t i = 0; i < got.size(); ++i)
        if (std::min(std::abs(dl[i]), std::abs(dr[i])) <= 1e-11 * scale[i])
          got[i] = goa[i] = want[i];
    for (double v : got)
      some = some || v != 0.0;
    Close(c, got, want, scale, 1e-11, "gradient");
    Close(c, goa, want, scale, 1e-11, "vectorised gradient, lane " + std::to_string(l));
    if (linear)
      Close(c, got, ref == RefZero ? Vec(dl.size(), 0.0) : dl, scale, 1e-11, "gradient of linear data");
  }
  c.nontrivial(some);
}
template <typename Eq, int V> void Reconstructs(pbt::Case& c) {
  constexpr int R = Eq::Rank();
  using T = GradType<Eq, MinModLimiter, V>;
  const Eq eq = DrawEq<Eq>(c);
  const double Msq = MsqOf(eq);
  const int d = c.i(0, R - 1);
  const double dx = c.logreal(1e-3, 1e2);
  const Lanes<Eq> s = DrawLanes(c, eq, 0.12, false, 0);
  const Side side = c.boolean() ? Side::Upper : Side::Lower;
  const int sign = side == Side::Upper ? 1 : -1;
  typename T::R rec(eq);
  // one step size for all lanes
  double smax = 0;
  for (const auto& q : s.q)
    smax = std::max(smax, std::abs(q[1].momentum[d] / q[1].density) + q[1].speed_of_sound / std::sqrt(Msq));
  const double lambda = c.chance(1, 5) ? 0.0 : c.real(0.0, 0.5) / smax, dt = lambda * dx;
  c.label(V == VCons ? "conservative" : V == VPrim ? "primitive" : "characteristic");
  c.note("dt/dx", lambda);
  c.note("dir", d);
  c.note("Msq", Msq);
  c.note("side", sign);
  typename T::R::GradientArray ga{eq};
  std::vector<Vec> grads, want;
  for (int l = 0; l < kDefaultChunkSize; ++l) {
    const auto& q = s.q[std::size_t(l)];
    const auto& w = s.w[std::size_t(l)];
    const double cs = q[1].speed_of_sound;
    Vec g;
    if (V == VCons) {
      Conservative<Eq> u0{eq}, u1{eq}, u2{eq};
      u0 = AsCons(q[0]);
      u1 = AsCons(q[1]);
      u2 = AsCons(q[2]);
      g = Map(Minus(tst::Comps(u1), tst::Comps(u0)), Minus(tst::Comps(u2), tst::Comps(u1)), RefMinMod);
      Eq e = eq;
      Complete<Eq> qs[2] = {Complete<Eq>{eq}, Complete<Eq>{eq}};
      Conservative<Eq> f[2] = {Conservative<Eq>{eq}, Conservative<Eq>{eq}};
      for (int k = 0; k < 2; ++k) {
        Conservative<Eq> u{eq};
        tst::SetComps(u, Axpy(tst::Comps(u1), k == 0 ? -0.5 : 0.5, g));
        CompleteFromCons(e, qs[k], u);
        Flux(e, f[k], qs[k], Direction(d));
      }
      Conservative<Eq> u{eq};
      tst::SetComps(u, Axpy(Axpy(tst::Comps(u1), 0.5 * sign, g), 0.5 * lambda, Minus(tst::Comps(f[0]), tst::Comps(f[1]))));
      Complete<Eq> r{eq};
      CompleteFromCons(e, r, u);
      want.push_back(tst::Comps(r));
    } else {
      Vec dl = Minus(w[1], w[0]), dr = Minus(w[2], w[1]), wr;
      if (V == VPrim) {
        g = Map(dl, dr, RefMinMod);
        wr = Axpy(Axpy(w[1], 0.5 * sign, g), -0.5 * lambda, Advect(R, d, w[1], g, cs, Msq));
      } else {
        g = Map(ToChar(R, d, w[1], dl, cs, Msq), ToChar(R, d, w[1], dr, cs, Msq), RefMinMod);
        wr = Axpy(w[1], 1.0, FromChar(R, d, w[1], EvolveChar(R, d, w[1], g, cs, Msq, sign, lambda), cs, Msq));
      }
      if (!(wr[0] > 0.05 * w[1][0]) || !(wr[std::size_t(R + 1)] > 0.05 * w[1][std::size_t(R + 1)]))
        throw pbt::Discard{};
      Complete<Eq> r{eq};
      fx::Tr<Eq>::Make(eq, wr, r);
      want.push_back(tst::Comps(r));
    }
    for (double& x : g)
      x /= dx;
    grads.push_back(g);
    tst::SetLane(ga, l, g);
  }
  CompleteArray<Eq> ra{eq};
  rec.Reconstruct(ra, s.a[1], ga, Duration(dt), dx, Direction(d), side);
  for (int l = 0; l < kDefaultChunkSize; ++l) {
    typename T::R::Gradient g{eq};
    tst::SetComps(g, grads[std::size_t(l)]);
    const auto& q = s.q[std::size_t(l)][1];
    Complete<Eq> r{eq};
    rec.Reconstruct(r, q, g, Duration(dt), dx, Direction(d), side);
    // momentum and energy mix contributions of all directions
    Vec scale = AbsMax({want[std::size_t(l)], tst::Comps(q)}, 1e-30);
    double mom = q.density * q.speed_of_sound / std::sqrt(Msq);
    for (int i = 0; i < R; ++i)
      mom = std::max(mom, scale[std::size_t(i + 1)]);
    for (int i = 0; i < R; ++i)
      scale[std::size_t(i + 1)] = mom;
    for (std::size_t i = std::size_t(R) + 2; i < scale.size(); ++i)
      scale[i] = std::max(scale[i], (i + 2 >= scale.size() ? 0.0 : 5.0) * q.density);
    if (V == VCons)
      // pressures from differences of energies
      scale[scale.size() - 2] = std::max(scale[scale.size() - 2], scale[std::size_t(R + 1)]);
    scale.back() *= 1.0 + scale[std::size_t(R + 1)] / q.pressure;
    Close(c, tst::Comps(r), want[std::size_t(l)], scale, 1e-11, "reconstructed state");
    Close(c, tst::GetLane(ra, l), want[std::size_t(l)], scale, 1e-11, "vectorised reconstruction, lane " + std::to_string(l));
    if constexpr (V == VPrim) {
      Complete<Eq> back{eq};
      rec.ReconstructInvers(back, r, g, Duration(dt), dx, Direction(d), side);
      Close(c, tst::Comps(back), tst::Comps(q), scale, 1e-8, "inverse of the reconstruction");
    }
    if constexpr (V == VCons) {
      Conservative<Eq> u{eq}, u0{eq};
      u0 = AsCons(q);
      rec.Reconstruct(u, u0, g, Duration(dt), dx, Direction(d), side);
      Close(c, tst::Comps(u), Head(want[std::size_t(l)], tst::Comps(u).size()), scale, 1e-11, "reconstructed conserved variables");
    }
  }
  c.nontrivial(lambda > 0);
}
template <typename Eq> void Grad(pbt::Case& c) {
  switch (c.below(12)) {
  case 0: return Gradients<Eq, NoLimiter2, VCons>(c, RefCentralMono);
  case 1: return Gradients<Eq, UpwindLimiter, VCons>(c, RefZero);
  case 2: return Gradients<Eq, MinModLimiter, VCons>(c, RefMinMod);
  case 3: return Gradients<Eq, VanLeerLimiter, VCons>(c, RefVanLeer);
  case 4: return Gradients<Eq, NoLimiter2, VPrim>(c, RefCentralMono);
  case 5: return Gradients<Eq, UpwindLimiter, VPrim>(c, RefZero);
  case 6: return Gradients<Eq, MinModLimiter, VPrim>(c, RefMinMod);
  case 7: return Gradients<Eq, VanLeerLimiter, VPrim>(c, RefVanLeer);
  case 8: return Gradients<Eq, NoLimiter2, VChar>(c, RefCentralMono);
  case 9: return Gradients<Eq, UpwindLimiter, VChar>(c, RefZero);
  case 10: return Gradients<Eq, MinModLimiter, VChar>(c, RefMinMod);
  default: return Gradients<Eq, VanLeerLimiter, VChar>(c, RefVanLeer);
  }
}
template <typename Eq> void Rec(pbt::Case& c) {
  switch (c.below(3)) {
  case 0: return Reconstructs<Eq, VCons>(c);
  case 1: return Reconstructs<Eq, VPrim>(c);
  default: return Reconstructs<Eq, VChar>(c);
  }
}
PBT_PROP("gradients of gas dynamics", 1500, 60000) {
  switch (c.below(3)) {
  case 0: return Grad<PerfectGasMix<1>>(c);
  case 1: return Grad<PerfectGasMix<2>>(c);
  default: return Grad<PerfectGasMix<3>>(c);
  }
}
PBT_PROP("half step reconstructions of gas dynamics", 1500, 60000) {
  switch (c.below(3)) {
  case 0: return Rec<PerfectGasMix<1>>(c);
  case 1: return Rec<PerfectGasMix<2>>(c);
  default: return Rec<PerfectGasMix<3>>(c);
  }
}

// --------------------------------------- gradients as arguments of the fluxes
template <typename M, typename FM> void GradientArguments(pbt::Case& c, Lim lim) {
  using Eq = PerfectGasMix<2>;
  const Eq eq = fx::Tr<Eq>::Equation(c);
  FM fm(eq);
  const Vec base = fx::Tr<Eq>::Base(c, eq);
  std::array<Complete<Eq>, 4> q{Complete<Eq>{eq}, Complete<Eq>{eq}, Complete<Eq>{eq}, Complete<Eq>{eq}};
  for (auto& s : q)
    fx::Tr<Eq>::Make(eq, fx::Tr<Eq>::Perturb(c, eq, base, 0.12), s);
  const double dx = c.logreal(1e-3, 1e2);
  const Direction dir = Direction(c.i(0, 1));
  const double dt = c.real(0.0, 0.4) * fm.ComputeStableDt(span<const Complete<Eq>, 4>(q), dx, dir);
  std::array<Conservative<Eq>, 2> g{Conservative<Eq>{eq}, Conservative<Eq>{eq}};
  for (std::size_t k = 0; k < 2; ++k)
    ForEachComponent([&](double& s, double a, double b, double e) { s = lim(b - a, e - b) / dx; }, g[k], AsCons(q[k]), AsCons(q[k + 1]), AsCons(q[k + 2]));
  Conservative<Eq> f{eq}, fg{eq};
  fm.ComputeNumericFlux(f, span<const Complete<Eq>, 4>(q), Duration(dt), dx, dir);
  const std::array<Complete<Eq>, 2> in{q[1], q[2]};
  fm.ComputeNumericFlux(fg, span<const Complete<Eq>, 2>(in), span<const Conservative<Eq>, 2>(g), Duration(dt), dx, dir);
  Close(c, tst::Comps(fg), tst::Comps(f), fx::Tr<Eq>::Scale(eq, q[1]), 1e-9, "flux from given gradients");
  c.nontrivial(dt > 0);
}
PBT_PROP("fluxes from given gradients", 600, 20000) {
  using Eq = PerfectGasMix<2>;
  using B = perfect_gas::HllemMethod<Eq, false>;
  if (c.boolean()) {
    using M = MusclHancock<Eq, B, MinMod>;
    return GradientArguments<M, M>(c, RefMinMod);
  }
  using M = MusclHancock2<Eq, ConservativeGradient<Eq, CentralDifferenceGradient<VanLeerLimiter>>, ConservativeReconstruction<Eq>, B>;
  return GradientArguments<M, M>(c, RefVanLeer);
}

// -------------------------------------------------- fluxes of all the methods
bool Has(const fx::Method& m, const char* s) { return m.name.find(s) != std::string::npos; }
std::string BaseName(const fx::Method& m) {
  const std::string eq = m.name.substr(0, m.name.find(' '));
  if (m.family == "PerfectGas")
    return eq + (Has(m, "Prim") || Has(m, "Char") ? " HllemLarrouturou" : " Godunov");
  if (m.family == "PerfectGasMix")
    return eq + m.name.substr(m.name.rfind(' '));
  if (m.family == "IdealGasMix")
    return eq + " Hll";
  return eq + (Has(m, " Hll") ? " Hll" : " Godunov");
}
Lim LimiterOf(const fx::Method& m) {
  if (Has(m, "Upwind"))
    return RefZero;
  if (Has(m, "NoLimiter"))
    return RefCentralMono;
  if (Has(m, "VanLeer") || Has(m, "MusclHancockChar"))
    return RefVanLeer;
  if (Has(m, "MusclHancockPrim"))
    return RefPrim;
  return RefMinMod;
}
/// R_specific of the pure species of the ideal gas
const Vec& SpeciesR(fx::Method& m, std::size_t n) {
  static Vec r;
  if (r.empty())
    for (std::size_t s = 0; s < n; ++s) {
      Vec w(std::size_t(m.rank) + 2 + n, 0.0);
      w[0] = 300.0;
      w[std::size_t(m.rank) + 1] = 1e5;
      w[std::size_t(m.rank) + 2 + s] = 1.0;
      r.push_back(1e5 / (300.0 * m.FromPrim(w)[0]));
    }
  return r;
}
/// the state at the interface after half a time step, from the limited slopes
/// in the cell with primitive variables w[1]
Vec Interface(fx::Method& m, const std::array<Vec, 3>& w, const std::array<Vec, 3>& q, int d, int sign, double lambda) {
  const int R = m.rank;
  const Lim lim = LimiterOf(m);
  const bool gas = m.family == "PerfectGas" || m.family == "PerfectGasMix", ideal = m.family == "IdealGasMix";
  const bool prim = (Has(m, "primitive") || Has(m, "MusclHancockPrim")), chr = Has(m, "characteristic") || Has(m, "MusclHancockChar");
  const double cs = m.Speeds(q[1], d)[1] * (gas ? std::sqrt(m.Msq) : 1.0);
  if (!prim && !chr) {
    const std::size_t n = std::size_t(m.ncons);
    const Vec u0 = Head(q[0], n), u1 = Head(q[1], n), u2 = Head(q[2], n);
    const Vec s = Map(Minus(u1, u0), Minus(u2, u1), lim);
    const Vec fl = m.PhysFlux(m.Complete(Axpy(u1, -0.5, s)), d), fr = m.PhysFlux(m.Complete(Axpy(u1, 0.5, s)), d);
    return m.Complete(Axpy(Axpy(u1, 0.5 * sign, s), 0.5 * lambda, Minus(fl, fr)));
  }
  if (gas && prim) {
    const Vec g = Map(Minus(w[1], w[0]), Minus(w[2], w[1]), lim);
    return m.FromPrim(Axpy(Axpy(w[1], 0.5 * sign, g), -0.5 * lambda, Advect(R, d, w[1], g, cs, m.Msq)));
  }
  if (gas && chr) {
    const Vec g = Map(ToChar(R, d, w[1], Minus(w[1], w[0]), cs, m.Msq), ToChar(R, d, w[1], Minus(w[2], w[1]), cs, m.Msq), lim);
    return m.FromPrim(Axpy(w[1], 1.0, FromChar(R, d, w[1], EvolveChar(R, d, w[1], g, cs, m.Msq, sign, lambda), cs, m.Msq)));
  }
  if (!ideal)
    throw std::logic_error("C13: unknown method " + m.name);
  const std::size_t ip = std::size_t(R) + 1, iY = ip + 1, n = w[1].size() - iY;
  const Vec& Rs = SpeciesR(m, n);
  auto Rmix = [&](const Vec& v) {
    double r = 0, sum = 0;
    for (std::size_t s = 0; s < n; ++s) {
      const double Y = std::max(0.0, v[iY + s]);
      r += Y * Rs[s];
      sum += Y;
    }
    return r / sum;
  };
  if (chr) {
    // [rho, u, p, Y] instead of [T, u, p, Y]
    std::array<Vec, 3> v = w;
    for (std::size_t k = 0; k < 3; ++k)
      v[k][0] = q[k][0];
    const Vec g = Map(ToChar(R, d, v[1], Minus(v[1], v[0]), cs, 1.0), ToChar(R, d, v[1], Minus(v[2], v[1]), cs, 1.0), lim);
    Vec r = Axpy(v[1], 1.0, FromChar(R, d, v[1], EvolveChar(R, d, v[1], g, cs, 1.0, sign, lambda), cs, 1.0));
    r[0] = r[ip] / (r[0] * Rmix(r));
    return m.FromPrim(r);
  }
  const Vec g = Map(Minus(w[1], w[0]), Minus(w[2], w[1]), lim);
  const double rho = q[1][0], T = w[1][0], u = w[1][std::size_t(d) + 1], p = w[1][ip], du = g[std::size_t(d) + 1];
  const double gamma = cs * cs * rho / p, cv = Rmix(w[1]) / (gamma - 1.0);
  // dw/dt: T and p by the first law, everything is carried with the flow
  Vec t(w[1].size());
  for (std::size_t i = 0; i < t.size(); ++i)
    t[i] = -u * g[i];
  t[0] -= p * du / (rho * cv);
  t[std::size_t(d) + 1] -= g[ip] / rho;
  t[ip] -= gamma * p * du;
  (void)T;
  return m.FromPrim(Axpy(Axpy(w[1], 0.5 * sign, g), 0.5 * lambda, t));
}
Vec MaxScale(fx::Method& m, const std::vector<Vec>& st) {
  Vec r(std::size_t(m.ncons), 0.0);
  for (const Vec& q : st) {
    const Vec s = m.Scale(q);
    for (std::size_t k = 0; k < r.size(); ++k)
      r[k] = std::max(r[k], s[k]);
  }
  return r;
}
void Predictor(pbt::Case& c, fx::Method& m) {
  const auto base = fx::MakeSibling(c, m, BaseName(m));
  const fx::Field f = m.MakeField(c, c.pick<double>({0.02, 0.1, 0.15}));
  const int dir = c.i(0, m.rank - 1);
  const fx::Backend b = m.seq && c.boolean() ? fx::Seq : fx::Simd;
  std::vector<Vec> w, st;
  for (int k = 0; k < 4; ++k) {
    w.push_back(m.Perturb(c, f));
    if (k > 0 && c.chance(1, 6))
      w.back() = w[w.size() - 2];
    st.push_back(m.FromPrim(w.back()));
  }
  const double dx = c.logreal(1e-2, 10.0);
  const double lambda = c.chance(1, 6) ? 0.0 : c.real(0.0, 0.5) * std::min(base->FaceDt(fx::Seq, {st[0], st[1]}, 1.0, dir), base->FaceDt(fx::Seq, {st[2], st[3]}, 1.0, dir));
  if (!std::isfinite(lambda) || lambda > 1e6)
    throw pbt::Discard{};
  c.note("stencil", pbt::list(w[0]) + " " + pbt::list(w[1]) + " " + pbt::list(w[2]) + " " + pbt::list(w[3]));
  c.note("dir", dir);
  c.note("dt/dx", lambda);
  c.note("dx", dx);
  c.label(b == fx::Seq ? "scalar" : "vectorised");
  c.nontrivial(lambda > 0 && st[1] != st[2]);
  const Vec l = Interface(m, {w[0], w[1], w[2]}, {st[0], st[1], st[2]}, dir, 1, lambda);
  const Vec r = Interface(m, {w[1], w[2], w[3]}, {st[1], st[2], st[3]}, dir, -1, lambda);
  const Vec flux = m.Face(b, st, lambda * dx, dx, dir);
  const Vec want = base->Face(base->seq ? fx::Seq : fx::Simd, {l, r}, lambda * dx, dx, dir);
  Close(c, flux, want, MaxScale(m, st), std::max(m.tol, m.family == "IdealGasMix" ? 2e-5 : 1e-9), "flux against the half step predictor");
}
void FirstOrder(pbt::Case& c, fx::Method& m) {
  const auto base = fx::MakeSibling(c, m, BaseName(m));
  const fx::Field f = m.MakeField(c, c.pick<double>({0.1, 0.15}));
  const int dir = c.i(0, m.rank - 1);
  const fx::Backend b = m.seq && c.boolean() ? fx::Seq : fx::Simd;
  const Vec l = m.State(c, f), r = m.State(c, f);
  const double lambda = c.real(0.0, 0.5) * base->FaceDt(fx::Seq, {l, r}, 1.0, dir);
  if (!std::isfinite(lambda) || lambda > 1e6)
    throw pbt::Discard{};
  c.note("states", pbt::list(l) + " | " + pbt::list(r));
  c.nontrivial(l != r);
  c.label(b == fx::Seq ? "scalar" : "vectorised");
  const Vec flux = m.Face(b, {l, l, r, r}, lambda, 1.0, dir);
  const Vec want = base->Face(base->seq ? fx::Seq : fx::Simd, {l, r}, lambda, 1.0, dir);
  Close(c, flux, want, MaxScale(m, {l, r}), std::max(m.tol, 1e-9), "flux without slopes");
}
/// covered neighbours of the outer cells: the slope vanishes there
void Covered(pbt::Case& c, fx::Method& m) {
  if (!m.masked)
    throw pbt::Discard{};
  const fx::Field f = m.MakeField(c, 0.12);
  const int dir = c.i(0, m.rank - 1);
  const std::size_t N = std::size_t(kDefaultChunkSize);
  std::vector<std::vector<Vec>> st(4);
  std::vector<Vec> vol(4, Vec(N, 1.0));
  Vec face(N, 1.0);
  std::vector<int> kind;
  double dt = 1e300;
  for (std::size_t l = 0; l < N; ++l) {
    std::vector<Vec> one;
    for (int k = 0; k < 4; ++k)
      one.push_back(m.State(c, f));
    kind.push_back(c.i(0, 3)); // bit 0: left cell is covered, bit 1: right cell is covered
    dt = std::min(dt, m.FaceDt(m.seq ? fx::Seq : fx::Simd, one, 1.0, dir));
    for (std::size_t k = 0; k < 4; ++k)
      st[k].push_back(one[k]);
    if (kind.back() & 1)
      vol[0][l] = 0.0;
    if (kind.back() & 2)
      vol[3][l] = 0.0;
  }
  const double lambda = c.real(0.0, 0.4) * dt;
  c.nontrivial(std::count(kind.begin(), kind.end(), 0) < long(N));
  const auto got = m.Masked(st, face, vol, lambda, 1.0, dir);
  for (std::size_t l = 0; l < N; ++l) {
    // a zero slope in a cell is what a repeated cell value gives
    std::vector<Vec> one{st[0][l], st[1][l], st[2][l], st[3][l]};
    if (kind[l] & 1)
      one[0] = one[1];
    if (kind[l] & 2)
      one[3] = one[2];
    const Vec want = m.Face(fx::Simd, one, lambda, 1.0, dir);
    Close(c, got[l], want, MaxScale(m, one), std::max(m.tol, 1e-9), "masked flux of lane " + std::to_string(l) + " (covered: " + std::to_string(kind[l]) + ")");
  }
}
bool Monotone(const fx::Method& m) { return m.family == "Advection2d" || m.family == "Burgers1d"; }

/// scalar conservation laws on a periodic grid: no new extrema
void History(pbt::Case& c, fx::Method& m) {
  const int dir = c.i(0, m.rank - 1);
  const int n = c.i(4, 20);
  const fx::Field f = m.MakeField(c, 1.0);
  std::vector<double> u;
  const int mode = c.i(0, 2);
  const double a = m.Perturb(c, f)[0], b = m.Perturb(c, f)[0];
  for (int i = 0; i < n; ++i)
    u.push_back(mode == 0 ? m.Perturb(c, f)[0] : mode == 1 ? (i < n / 2 ? a : b) : (i % 2 ? a : b));
  fx::Data s, fl;
  s.rank = fl.rank = m.rank;
  s.nc = fl.nc = 1;
  s.n[dir] = n + 4;
  s.lo[dir] = -2;
  fl.n[dir] = n + 1;
  s.alloc(0);
  fl.alloc(0);
  const fx::Backend be = c.boolean() ? fx::Seq : fx::Simd;
  const double cmax = m.family == "Burgers1d" ? 0.5 : 1.0;
  const double dx = c.logreal(0.01, 10.0);
  const int steps = c.i(1, 8);
  c.label(be == fx::Seq ? "scalar" : "vectorised");
  c.note("initial", pbt::list(u));
  c.note("dir", dir);
  double lo = *std::min_element(u.begin(), u.end()), hi = *std::max_element(u.begin(), u.end());
  c.nontrivial(hi > lo);
  double sum0 = 0, mag = 1e-300;
  for (double x : u) {
    sum0 += x;
    mag = std::max(mag, std::abs(x));
  }
  for (int t = 0; t < steps; ++t) {
    double tv = 0;
    for (int i = 0; i < n; ++i)
      tv += std::abs(u[std::size_t((i + 1) % n)] - u[std::size_t(i)]);
    for (int i = -2; i < n + 2; ++i) {
      std::array<fx::P, 3> j{0, 0, 0};
      j[std::size_t(dir)] = i;
      s.set(j, m.FromPrim({u[std::size_t((i + n) % n)]}));
    }
    double dt = m.StableDt(be, s, fx::Whole(s), dx, dir);
    if (!std::isfinite(dt) || dt > 1e6 * dx)
      dt = dx;
    dt *= cmax * (c.chance(1, 3) ? 1.0 : c.real(0.01, 1.0));
    m.Fluxes(be, fl, fx::Whole(fl), s, fx::Whole(s), dt, dx, dir);
    std::vector<double> v(u);
    double tv1 = 0, sum = 0;
    for (int i = 0; i < n; ++i) {
      std::array<fx::P, 3> j{0, 0, 0}, k{0, 0, 0};
      j[std::size_t(dir)] = i;
      k[std::size_t(dir)] = i + 1;
      v[std::size_t(i)] += dt / dx * (fl.at(0, j) - fl.at(0, k));
    }
    for (int i = 0; i < n; ++i) {
      tv1 += std::abs(v[std::size_t((i + 1) % n)] - v[std::size_t(i)]);
      sum += v[std::size_t(i)];
      c.checkf(v[std::size_t(i)] >= lo - 1e-11 * mag && v[std::size_t(i)] <= hi + 1e-11 * mag,
               [&] { return "step " + std::to_string(t) + " creates the value " + pbt::fmt(v[std::size_t(i)]) + " outside of [" + pbt::fmt(lo) + ", " + pbt::fmt(hi) + "] from " + pbt::list(u); });
    }
    c.checkf(tv1 <= tv + 1e-10 * n * mag, [&] { return "step " + std::to_string(t) + " increases the total variation from " + pbt::fmt(tv) + " to " + pbt::fmt(tv1) + " from " + pbt::list(u); });
    c.near(sum, sum0, 1e-11 * n * mag, "total after step " + std::to_string(t));
    u = v;
    lo = *std::min_element(u.begin(), u.end());
    hi = *std::max_element(u.begin(), u.end());
  }
}
pbt::Setup setup([] {
  auto add = [](const std::string& what, long q, long t, bool (*want)(const fx::Method&), void (*body)(pbt::Case&, fx::Method&)) {
    for (const fx::Entry& e : fx::Registry()) {
      const std::string name = e.name;
      if (name.find("Muscl") == std::string::npos)
        continue;
      const bool scalar_law = name.find("Advection") == 0 || name.find("Burgers") == 0;
      if (want == Monotone && !scalar_law)
        continue;
      const fx::Maker mk = e.make;
      pbt::registry().push_back(pbt::Prop{what + ": " + name, std::max<long>(20, long(double(q) * e.weight)), std::max<long>(20, long(double(t) * e.weight)), [mk, name, body](pbt::Case& c) {
                                            auto m = mk(c);
                                            m->name = name;
                                            body(c, *m);
                                          }});
    }
  };
  add("half step predictor", 1200, 40000, nullptr, Predictor);
  add("first order at vanishing slopes", 400, 10000, nullptr, FirstOrder);
  add("slopes next to covered cells", 200, 6000, nullptr, Covered);
  add("no new extrema", 1500, 60000, Monotone, History);
});
} // namespace

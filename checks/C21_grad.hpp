// C21: gradients on cut-cell patches
#pragma once
#include "cutpoly.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/cutcell_method/HGridReconstruction.hpp"

#include "fub/cutcell_method/MdGradients.hpp"

#include "fub/flux_method/Gradient.hpp"
namespace {
using namespace fub;
using cc::With;
using cp::V2;
using tst::Each;
using tst::Ix;
using tst::P;
using tst::Patch;
using Eq = PerfectGas<2>;
using Comp = Complete<Eq>;

template <typename G> void FromVars(const Eq& eq, Comp& q, const std::vector<double>& v) {
  if constexpr (std::is_same_v<G, Conservative<Eq>>) {
    Conservative<Eq> u(eq);
    u.density = v[0];
    u.momentum << v[1], v[2];
    u.energy = v[3];
    CompleteFromCons(eq, q, u);
  } else {
    Primitive<Eq> w(eq);
    w.density = v[0];
    w.velocity << v[1], v[2];
    w.pressure = v[3];
    CompleteFromPrim(eq, q, w);
  }
}
template <typename G> std::vector<double> Vars(const Eq& eq, const Comp& q) {
  if constexpr (std::is_same_v<G, Conservative<Eq>>) {
    return {q.density, q.momentum[0], q.momentum[1], q.energy};
  } else {
    Primitive<Eq> w(eq);
    PrimFromComplete(eq, w, q);
    return {w.density, w.velocity[0], w.velocity[1], w.pressure};
  }
}
/// what a one dimensional limiter returns for the slopes on both sides
double Slope(int limiter, double l, double r) {
  if (l * r <= 0)
    return 0;
  const double R = r / l;
  const double m = 0.5 * (l + r);
  if (limiter == 0)
    return m;
  if (limiter == 1)
    return 0;
  if (limiter == 2)
    return m * 2 * std::min(1.0, R) / (1 + R);
  return m * 4 * R / ((1 + R) * (1 + R));
}
template <template <typename...> class Method, typename Lim> void Gradients(pbt::Case& c, int limiter) {
  using GM = Method<Eq, CentralDifferenceGradient<Lim>>;
  using G = typename GM::Gradient;
  constexpr bool cons = std::is_same_v<G, Conservative<Eq>>;
  const Eq eq;
  // gradients on `inner`, states and geometry on one more layer
  Ix<2> lo{c.integer(-4, 4), c.integer(-4, 4)};
  const auto inner = tst::MakeBox<2>(lo, Ix<2>{1 + c.integer(0, 5), 1 + c.integer(0, 5)});
  const P halo = 1;
  const auto cells = cc::Gr<2>(cc::Gr<2>(inner, 0, halo, halo), 1, halo, halo);
  auto g = cp::Draw(c, cells);
  const double amin = 1e-3;
  for (double a : g->volume.v)
    if (a > 0 && a < amin)
      throw pbt::Discard{};
  for (int d = 0; d < 2; ++d)
    for (double b : g->face[d].v)
      if (b > 0 && b < 1e-3)
        throw pbt::Discard{};
  const V2 dx(c.chance(1, 3) ? 1.0 : c.logreal(1e-3, 1e2), c.chance(1, 3) ? 1.0 : c.logreal(1e-3, 1e2));
  // enough fluid neighbours
  bool cut = false;
  Each<2>(inner, [&](const Ix<2>& i) {
    if (g->volume(i) <= 0)
      return;
    const bool x0 = g->face[0](i) > 0, x1 = g->face[0](cc::Sh<2>(i, 0, 1)) > 0;
    const bool y0 = g->face[1](i) > 0, y1 = g->face[1](cc::Sh<2>(i, 1, 1)) > 0;
    if (!((x0 || x1) && (y0 || y1)))
      throw pbt::Discard{};
    if (x0 + x1 + y0 + y1 == 2 && !(g->volume(Ix<2>{i[0] + (x1 ? 1 : -1), i[1] + (y1 ? 1 : -1)}) > 0))
      throw pbt::Discard{};
    cut = cut || g->volume(i) < 1;
  });
  const int mode = c.i(0, 3); // linear, constant, arbitrary, nearly constant
  const auto X = [&](const Ix<2>& i) {
    V2 x;
    for (int k = 0; k < 2; ++k)
      x[k] = (double(i[k]) + 0.5 + g->volume_centroid(With<2>(i, k))) * dx[k];
    return x;
  };
  V2 mid;
  for (int k = 0; k < 2; ++k)
    mid[k] = 0.5 * double(cells.lower[k] + cells.upper[k]) * dx[k];
  std::vector<double> base{c.logreal(0.5, 10), c.symmetric(2, 1e-3), c.symmetric(2, 1e-3), c.logreal(cons ? 200 : 0.1, cons ? 1000 : 10)};
  std::vector<V2> slope;
  for (int k = 0; k < 4; ++k) {
    const double amp = k == 0 || k == 3 ? 0.05 * base[std::size_t(k)] : 0.3;
    V2 s(0, 0);
    for (int r = 0; r < 2; ++r)
      if (!c.chance(1, 5))
        s[r] = amp * c.symmetric(1, 1e-3) / dx[r];
    slope.push_back(s);
  }
  pbt::Rng rng{c.below(1 << 20)};
  Patch<Comp> states(eq, cells);
  std::vector<std::vector<double>> value(std::size_t(tst::BoxSize<2>(cells)));
  const cc::Arr<2> at(cells);
  Each<2>(cells, [&](const Ix<2>& i) {
    std::vector<double> v = base;
    for (std::size_t k = 0; k < 4; ++k) {
      if (mode == 0)
        v[k] += slope[k].dot(X(i) - mid);
      else if (mode >= 2) {
        const double r = double(rng.next() >> 11) * 0x1p-53 - 0.5;
        const double q = rng.next() % 4 == 0 ? 0.0 : r;
        v[k] += (mode == 2 ? 0.5 : 1e-5) * base[k] * q;
      }
    }
    if (mode == 0 && (v[0] < 0.2 * base[0] || v[3] < 0.2 * base[3]))
      throw pbt::Discard{};
    Comp q(eq);
    FromVars<G>(eq, q, v);
    if (g->volume(i) <= 0 && c.chance(1, 2)) { // nothing may be read from covered cells
      q.density = q.energy = q.pressure = q.speed_of_sound = std::nan("");
      q.momentum.setConstant(std::nan(""));
    }
    value[at.off(i)] = Vars<G>(eq, q);
    Store(states.sub(cells), q, i);
  });
  Patch<G> gx(eq, inner), gy(eq, inner), gz(eq, inner);
  G junk(eq);
  ForEachComponent([](double& x) { x = 3.25; }, junk);
  Each<2>(inner, [&](const Ix<2>& i) {
    Store(gx.sub(inner), junk, i);
    Store(gy.sub(inner), junk, i);
    Store(gz.sub(inner), junk, i);
  });
  const int md = c.i(0, 2);
  AnyLimiter<2> any = NoMdLimiter<2>{};
  if (md == 1)
    any = LinearOptimizationLimiter<2>{};
  if (md == 2)
    any = UpwindMdLimiter<2>{};
  MdGradients<GM> method(GM(eq), any);
  method.ComputeGradients(gx.sub(inner), gy.sub(inner), gz.sub(inner), states.csub(cells), g->data, dx);
  c.label(mode == 0 ? "linear" : (mode == 1 ? "constant" : "arbitrary"));
  c.label(md == 0 ? "unlimited" : (md == 1 ? "optimised" : "upwind"));
  c.note("variables", cons ? "conservative" : "primitive");
  c.note("limiter", limiter);
  c.note("cells", tst::BoxStr<2>(inner));
  c.note("volume fractions", pbt::list(g->volume.v));
  c.note("dx", pbt::list(std::array<double, 2>{dx[0], dx[1]}));
  const char* names[4] = {"density", cons ? "momentum x" : "velocity x", cons ? "momentum y" : "velocity y", cons ? "energy" : "pressure"};
  const auto get = [&](Patch<G>& p, const Ix<2>& i) {
    G s(eq);
    Load(s, p.csub(inner), i);
    std::vector<double> v;
    ForEachComponent([&](double x) { v.push_back(x); }, s);
    return v;
  };
  Each<2>(inner, [&](const Ix<2>& i) {
    const auto a = get(gx, i), b = get(gy, i), z = get(gz, i);
    const bool covered = g->volume(i) <= 0;
    bool regular = g->volume(i) == 1;
    for (int d = 0; d < 2; ++d)
      for (int s : {-1, 1})
        regular = regular && g->volume(cc::Sh<2>(i, d, s)) == 1;
    for (std::size_t k = 0; k < 4; ++k) {
      c.check(z[k] == 0, "slope in z");
      if (covered || md == 2) {
        c.checkf(a[k] == 0 && b[k] == 0, [&] { return "slope of " + std::string(names[k]) + " in " + (covered ? "the covered " : "") + "cell " + pbt::list(i) + " is not zero"; });
        continue;
      }
      double scale = 0;
      for (int y = -1; y <= 1; ++y)
        for (int x = -1; x <= 1; ++x) {
          const Ix<2> j{i[0] + x, i[1] + y};
          if (g->volume(j) > 0)
            scale = std::max(scale, std::abs(value[at.off(j)][k]));
        }
      // pressures follow from energies with a relative error
      const double acc = cons || k != 3 ? 1e-13 : 1e-12;
      const double tol = 1e5 * acc * std::max(scale, 1e-3);
      const auto say = [&](double got, double want, char axis) {
        return std::string("slope of ") + names[k] + " along " + axis + " in cell " + pbt::list(i) + " is " + pbt::fmt(got) + " instead of " + pbt::fmt(want);
      };
      if (mode == 1) {
        c.checkf(std::abs(a[k]) * dx[0] <= tol && std::abs(b[k]) * dx[1] <= tol, [&] { return say(a[k], 0, 'x') + ", along y " + pbt::fmt(b[k]); });
        continue;
      }
      const auto& M = value[at.off(i)];
      if (regular && md == 0) {
        const auto ref = [&](int d) {
          return Slope(limiter, M[k] - value[at.off(cc::Sh<2>(i, d, -1))][k], value[at.off(cc::Sh<2>(i, d, 1))][k] - M[k]) / dx[d];
        };
        const double t = 1e-9 * scale; // values with tiny jumps
        c.checkf(std::abs(a[k] - ref(0)) * dx[0] <= t, [&] { return say(a[k], ref(0), 'x'); });
        c.checkf(std::abs(b[k] - ref(1)) * dx[1] <= t, [&] { return say(b[k], ref(1), 'y'); });
      }
      const bool exact = mode == 0 && md == 0 && !(regular && limiter == 1);
      if (exact) {
        c.checkf(std::abs(a[k] - slope[k][0]) * dx[0] <= tol, [&] { return say(a[k], slope[k][0], 'x'); });
        c.checkf(std::abs(b[k] - slope[k][1]) * dx[1] <= tol, [&] { return say(b[k], slope[k][1], 'y'); });
      }
      if (md == 1) {
        const V2 n(-g->normal(With<2>(i, 0)), -g->normal(With<2>(i, 1)));
        const V2 xB(g->boundary_centroid(With<2>(i, 0)), g->boundary_centroid(With<2>(i, 1)));
        const V2 xI(g->volume_centroid(With<2>(i, 0)), g->volume_centroid(With<2>(i, 1)));
        for (int d = 0; d < 2; ++d)
          for (int s : {-1, 1}) {
            const Ix<2> j = cc::Sh<2>(i, d, s);
            if (g->volume(j) <= 0)
              continue;
            V2 xJ(g->volume_centroid(With<2>(j, 0)), g->volume_centroid(With<2>(j, 1)));
            xJ[d] += s;
            if (n.dot(xJ - xI) < n.dot(xB) + 1e-12)
              continue;
            const double r = M[k] + V2(a[k], b[k]).dot(X(j) - X(i));
            const double q = value[at.off(j)][k];
            const double eps = 1e-8 * scale;
            c.checkf(r >= std::min(M[k], q) - eps && r <= std::max(M[k], q) + eps, [&] {
              return std::string(names[k]) + " of cell " + pbt::list(i) + " reconstructed at neighbour " + pbt::list(j) + " is " + pbt::fmt(r) + ", not between " + pbt::fmt(M[k]) + " and " + pbt::fmt(q);
            });
          }
      }
    }
  });
  c.nontrivial(cut && mode != 1);
}
template <template <typename...> class Method> void AnyLim(pbt::Case& c) {
  const int l = c.pick<int>({0, 0, 2, 3});
  switch (l) {
  case 0:
    return Gradients<Method, NoLimiter2>(c, l);
  case 2:
    return Gradients<Method, MinModLimiter>(c, l);
  default:
    return Gradients<Method, VanLeerLimiter>(c, l);
  }
}
} // namespace

// C21: limiters of cut-cell gradients
#include "cutpoly.hpp"
#include "fub/cutcell_method/AnyMdLimiter.hpp"
namespace {
using namespace fub;
using cc::Arr;
using cc::With;
using cp::V2;
using tst::Each;
using tst::Ix;
struct Half {
  V2 a;
  double b; // a.l <= b
};
/// max |D|.l over the polygon of all half planes
double Optimum(const std::vector<Half>& h, const V2& w) {
  double best = 0; // l = 0 is always admissible
  for (std::size_t i = 0; i < h.size(); ++i)
    for (std::size_t j = i + 1; j < h.size(); ++j) {
      Eigen::Matrix2d m;
      m.row(0) = h[i].a.transpose();
      m.row(1) = h[j].a.transpose();
      const double det = m.determinant();
      if (std::abs(det) <= 1e-14 * h[i].a.norm() * h[j].a.norm())
        continue;
      const V2 r(h[i].b, h[j].b);
      const V2 x((r[0] * m(1, 1) - m(0, 1) * r[1]) / det, (m(0, 0) * r[1] - m(1, 0) * r[0]) / det);
      bool ok = true;
      for (const Half& k : h)
        ok = ok && k.a.dot(x) <= k.b + 1e-12 * (std::abs(k.b) + k.a.norm() * x.norm());
      if (ok)
        best = std::max(best, w.dot(x));
    }
  return best;
}
double DrawValue(pbt::Case& c, int mode) {
  switch (mode) {
  case 0:
    return c.symmetric(1.0, 1e-9);
  case 1:
    return double(c.i(-2, 2));
  case 2:
    return 1e5 + c.symmetric(1e3, 1e-3);
  default:
    return c.symmetric(1e-6, 1e-12);
  }
}
void Limit(pbt::Case& c) {
  const Ix<2> lo{c.integer(-3, 3), c.integer(-3, 3)};
  const auto cells = tst::MakeBox<2>(lo, Ix<2>{3, 3});
  const Ix<2> me{lo[0] + 1, lo[1] + 1};
  std::unique_ptr<cp::Map> g;
  if (c.chance(1, 4)) { // any fractions, centroids and normals
    g = std::make_unique<cp::Map>(cells);
    for (double& v : g->volume.v)
      v = c.chance(1, 4) ? 0.0 : (c.boolean() ? 1.0 : c.real(1e-6, 1));
    for (auto* a : {&g->volume_centroid, &g->boundary_centroid})
      for (double& v : a->v)
        v = c.real(-0.49, 0.49);
    Each<2>(cells, [&](const Ix<2>& i) {
      const double phi = c.chance(1, 4) ? double(c.i(0, 3)) * std::acos(0.0) : c.real(0, 6.3);
      g->normal(With<2>(i, 0)) = std::cos(phi);
      g->normal(With<2>(i, 1)) = std::sin(phi);
    });
    g->Connect();
    c.label("arbitrary");
  } else
    g = cp::Draw(c, cells);
  if (g->volume(me) <= 0)
    throw pbt::Discard{};
  const V2 dx(c.chance(1, 3) ? 1.0 : c.logreal(1e-4, 1e2), c.chance(1, 3) ? 1.0 : c.logreal(1e-4, 1e2));
  Arr<2> u(cells), gx(cells), gy(cells);
  const int mode = c.i(0, 3);
  const bool linear = c.chance(1, 4);
  const V2 slope(DrawValue(c, mode) / dx[0], DrawValue(c, mode) / dx[1]);
  const auto X = [&](const Ix<2>& i) -> V2 {
    V2 x = cc::Arr<2>().v.empty() ? V2(0, 0) : V2(0, 0);
    for (int k = 0; k < 2; ++k)
      x[k] = (double(i[k]) + 0.5 + g->volume_centroid(With<2>(i, k))) * dx[k];
    return x;
  };
  Each<2>(cells, [&](const Ix<2>& i) { u(i) = linear ? slope.dot(X(i) - X(me)) : DrawValue(c, mode); });
  V2 D = linear && c.boolean() ? slope : V2(DrawValue(c, mode) / dx[0], DrawValue(c, mode) / dx[1]);
  for (int k = 0; k < 2; ++k)
    if (c.chance(1, 8))
      D[k] = 0;
  for (double& v : gx.v)
    v = 77;
  for (double& v : gy.v)
    v = -55;
  gx(me) = D[0];
  gy(me) = D[1];
  c.note("volume fractions", pbt::list(g->volume.v));
  c.note("centroids", pbt::list(g->volume_centroid.v));
  c.note("wall", pbt::list(std::vector<double>{g->boundary_centroid(With<2>(me, 0)), g->boundary_centroid(With<2>(me, 1)), -g->normal(With<2>(me, 0)), -g->normal(With<2>(me, 1))}));
  c.note("dx", pbt::list(std::array<double, 2>{dx[0], dx[1]}));
  c.note("u", pbt::list(u.v));
  c.note("gradient", pbt::list(std::array<double, 2>{D[0], D[1]}));
  const std::array<StridedDataView<double, 2>, 2> grad{gx.sub(cells), gy.sub(cells)};
  const int which = c.i(0, 7);
  const bool erased = c.boolean();
  if (which == 0) {
    if (erased)
      AnyLimiter<2>(UpwindMdLimiter<2>{}).LimitGradientsAtIndex(grad, u.csub(cells), g->data, me, dx);
    else
      UpwindMdLimiter<2>{}.LimitGradientsAtIndex(grad, u.csub(cells), g->data, me, dx);
    c.check(gx(me) == 0 && gy(me) == 0, "the upwind limiter keeps a slope");
    return;
  }
  if (which == 1) {
    if (erased)
      AnyLimiter<2>(NoMdLimiter<2>{}).LimitGradientsAtIndex(grad, u.csub(cells), g->data, me, dx);
    else
      NoMdLimiter<2>{}.LimitGradientsAtIndex(grad, u.csub(cells), g->data, me, dx);
    c.check(gx(me) == D[0] && gy(me) == D[1], "no limiter changes a slope");
    return;
  }
  if (erased) {
    AnyLimiter<2> a{LinearOptimizationLimiter<2>{}};
    AnyLimiter<2> b(a);
    b.LimitGradientsAtIndex(grad, u.csub(cells), g->data, me, dx);
  } else
    LinearOptimizationLimiter<2>{}.LimitGradientsAtIndex(grad, u.csub(cells), g->data, me, dx);
  const V2 L(gx(me), gy(me));
  Each<2>(cells, [&](const Ix<2>& i) {
    if (i != me)
      c.check(gx(i) == 77 && gy(i) == -55, "the gradient of another cell was changed");
  });
  double scale = 0;
  Each<2>(cells, [&](const Ix<2>& i) { scale = std::max(scale, std::abs(u(i))); });
  V2 l(0, 0);
  for (int k = 0; k < 2; ++k) {
    c.checkf(std::abs(L[k]) <= std::abs(D[k]) * (1 + 1e-9) && L[k] * D[k] >= -1e-9 * D[k] * D[k],
             [&] { return "component " + pbt::str(k) + " was limited from " + pbt::fmt(D[k]) + " to " + pbt::fmt(L[k]); });
    l[k] = D[k] != 0 ? L[k] / D[k] : 0;
  }
  const V2 n(-g->normal(With<2>(me, 0)), -g->normal(With<2>(me, 1)));
  const V2 xB(g->boundary_centroid(With<2>(me, 0)), g->boundary_centroid(With<2>(me, 1)));
  const V2 xI(g->volume_centroid(With<2>(me, 0)), g->volume_centroid(With<2>(me, 1)));
  std::vector<Half> h{{V2(1, 0), 1}, {V2(0, 1), 1}, {V2(-1, 0), 0}, {V2(0, -1), 0}};
  int neighbours = 0;
  bool sharp = false;
  for (int d = 0; d < 2; ++d)
    for (int s : {-1, 1}) {
      const Ix<2> j = cc::Sh<2>(me, d, s);
      if (g->volume(j) <= 0)
        continue;
      V2 xJ(g->volume_centroid(With<2>(j, 0)), g->volume_centroid(With<2>(j, 1)));
      xJ[d] += s;
      const double side = n.dot(xJ - xI) - n.dot(xB);
      if (std::abs(side) < 1e-12) {
        sharp = true;
        continue;
      }
      if (side < 0)
        continue;
      ++neighbours;
      const V2 dist = X(j) - X(me);
      const double lo = std::min(u(me), u(j)), hi = std::max(u(me), u(j));
      const double r = u(me) + L.dot(dist);
      const double eps = 1e-9 * (scale + std::abs(D[0] * dx[0]) + std::abs(D[1] * dx[1]));
      c.checkf(r >= lo - eps && r <= hi + eps, [&] { return "the value " + pbt::fmt(r) + " at the centroid of neighbour " + pbt::list(j) + " is not between " + pbt::fmt(u(me)) + " and " + pbt::fmt(u(j)); });
      V2 a = dist.cwiseProduct(D);
      for (int k = 0; k < 2; ++k)
        if (std::abs(dist[k]) < 1e-9 * dx[k]) // aligned up to round-off
          a[k] = 0;
      h.push_back({a, hi - u(me)});
      h.push_back({-a, u(me) - lo});
    }
  // nothing more than necessary is cut off
  if (!sharp) {
    const V2 w = D.cwiseAbs();
    const double best = Optimum(h, w), got = w.dot(l);
    c.checkf(got >= best - 1e-6 * w.sum(), [&] { return "the limited slopes keep " + pbt::fmt(got) + " of the possible " + pbt::fmt(best) + " (limiter " + pbt::list(std::array<double, 2>{l[0], l[1]}) + ")"; });
  }
  c.nontrivial(neighbours > 0 && (l[0] < 1 || l[1] < 1) && D.norm() > 0);
}
PBT_PROP("limiters", 20000, 1000000) { Limit(c); }
} // namespace

// Exact geometry of cut cells below a piecewise linear interface.
#pragma once
#include "cutcell.hpp"
#include "fub/AMReX/FillCutCellData.hpp"
namespace cp {
using namespace fub;
using tst::Each;
using tst::Ix;
using tst::P;
using V2 = Eigen::Vector2d;
using Poly = std::vector<V2>;
/// the part of a convex polygon with n.x >= c
inline Poly Clip(const Poly& p, const V2& n, double c) {
  Poly q;
  for (std::size_t i = 0; i < p.size(); ++i) {
    const V2 a = p[i], b = p[(i + 1) % p.size()];
    const double fa = n.dot(a) - c, fb = n.dot(b) - c;
    if (fa >= 0)
      q.push_back(a);
    if ((fa > 0 && fb < 0) || (fa < 0 && fb > 0))
      q.push_back(a + (b - a) * (fa / (fa - fb)));
  }
  return q;
}
inline double Area(const Poly& p, V2* centroid = nullptr) {
  double s = 0;
  V2 m(0, 0);
  for (std::size_t i = 1; i + 1 < p.size(); ++i) {
    const V2 a = p[i] - p[0], b = p[i + 1] - p[0];
    const double t = 0.5 * (a[0] * b[1] - a[1] * b[0]);
    s += t;
    m += t * (p[0] + (a + b) / 3.0);
  }
  if (centroid)
    *centroid = s > 0 ? V2(m / s) : V2(0, 0);
  return s;
}
/// Fluid on one side of the graph of a piecewise linear function over the axis `along`. Lengths are measured in cells.
struct Interface {
  int along = 0;         // the graph is a function of this coordinate
  int up = 1;            // +1: fluid above the graph, -1: below
  P first = 0;           // index of the first knot
  std::vector<double> h; // heights of the knots, or of whole columns if stairs
  bool stairs = false;
  double Left(P col) const { return h[std::size_t(col - first)]; }
  double Right(P col) const { return stairs ? h[std::size_t(col - first)] : h[std::size_t(col - first) + 1]; }
  /// n.x >= c is fluid in the given column
  void Plane(P col, V2& n, double& c) const {
    const double a = Left(col), s = Right(col) - a;
    // y - a - s (x - col) >= 0
    n[1 - along] = up;
    n[along] = -s * up;
    c = (a - s * double(col)) * up;
    const double l = n.norm();
    n /= l;
    c /= l;
  }
};
struct Cell {
  double volume = 0;
  V2 centroid{0, 0}, wall{0, 0}, normal{0, 0}; // relative to the midpoint; normal points to the fluid
};
struct Map : cc::Geometry<2> {
  Interface f;
  using cc::Geometry<2>::Geometry;
  Poly FluidOf(const Ix<2>& i) const {
    const double x = double(i[0]), y = double(i[1]);
    const Poly unit{V2(x, y), V2(x + 1, y), V2(x + 1, y + 1), V2(x, y + 1)};
    V2 n;
    double c;
    f.Plane(i[f.along], n, c);
    return Clip(unit, n, c);
  }
  /// the open part of a face in absolute coordinates along the face, seen from the cell `from`
  std::array<double, 2> OpenFrom(const Ix<2>& face, int d, const Ix<2>& from) const {
    const int t = 1 - d;
    V2 n;
    double c;
    f.Plane(from[f.along], n, c);
    double lo = double(face[t]), hi = lo + 1;
    // n_d x_d + n_t s >= c
    const double r = c - n[d] * double(face[d]);
    if (n[t] > 0)
      lo = std::max(lo, r / n[t]);
    else if (n[t] < 0)
      hi = std::min(hi, r / n[t]);
    else if (r > 0)
      hi = lo;
    return {lo, std::max(lo, hi)};
  }
  std::array<double, 2> Open(const Ix<2>& face, int d) const {
    const Ix<2> l = cc::Sh<2>(face, d, -1);
    if (!HasFluid(l) || !HasFluid(face)) // walls on faces
      return {0, 0};
    const auto a = OpenFrom(face, d, l), b = OpenFrom(face, d, face);
    const double lo = std::max(a[0], b[0]);
    return {lo, std::max(lo, std::min(a[1], b[1]))};
  }
  bool HasFluid(const Ix<2>& i) const;
};
inline double Snap(double x) { return x < 1e-13 ? 0.0 : (x > 1 - 1e-13 ? 1.0 : x); }
inline bool Map::HasFluid(const Ix<2>& i) const {
  const Poly p = FluidOf(i);
  return p.size() >= 3 && Snap(Area(p)) > 0;
}
/// Fills all geometric data. Interface columns have to cover the cells plus one layer.
inline void Build(Map& g) {
  Each<2>(g.cells, [&](const Ix<2>& i) {
    const Poly p = g.FluidOf(i);
    V2 m;
    const double a = Snap(p.size() >= 3 ? Area(p, &m) : 0.0);
    g.volume(i) = a;
    const V2 mid(double(i[0]) + 0.5, double(i[1]) + 0.5);
    V2 n;
    double c;
    g.f.Plane(i[g.f.along], n, c);
    const bool partial = a > 0 && a < 1;
    for (int k = 0; k < 2; ++k) {
      g.volume_centroid(cc::With<2>(i, k)) = partial ? m[k] - mid[k] : 0.0;
      g.normal(cc::With<2>(i, k)) = partial ? -n[k] : 0.0;
      g.boundary_centroid(cc::With<2>(i, k)) = partial ? 0.0 : -1.0;
    }
    if (partial) {
      // the segment of the wall within the cell
      V2 lo(0, 0), hi(0, 0);
      bool first = true;
      for (const V2& v : p)
        if (std::abs(n.dot(v) - c) < 1e-12) {
          if (first)
            lo = hi = v;
          const V2 t(-n[1], n[0]);
          if (t.dot(v) < t.dot(lo))
            lo = v;
          if (t.dot(v) > t.dot(hi))
            hi = v;
          first = false;
        }
      const V2 w = 0.5 * (lo + hi) - mid;
      for (int k = 0; k < 2; ++k)
        g.boundary_centroid(cc::With<2>(i, k)) = w[k];
    }
  });
  for (int d = 0; d < 2; ++d) {
    Each<2>(g.face[d].box, [&](const Ix<2>& i) {
      const auto o = g.Open(i, d);
      g.face[d](i) = Snap(o[1] - o[0]);
    });
    const auto inner = cc::Gr<2>(g.face[d].box, d, -1, -1);
    if (tst::BoxSize<2>(inner) > 0)
      amrex::cutcell::FillCutCellData(g.us[d].sub(inner), g.sl[d].sub(inner), g.sr[d].sub(inner), g.ds[d].sub(inner), g.us_r[d].sub(inner),
                                      g.sl_r[d].sub(inner), g.sr_r[d].sub(inner), g.ds_r[d].sub(inner), g.face[d].cview(), Direction(d));
  }
  g.Connect();
}
/// A random interface through the given cells.
inline std::unique_ptr<Map> Draw(pbt::Case& c, const IndexBox<2>& cells) {
  auto g = std::make_unique<Map>(cells);
  Interface& f = g->f;
  f.along = c.i(0, 1);
  f.up = c.boolean() ? 1 : -1;
  const int kind = c.i(0, 3); // plane, wedge, irregular, stairs
  f.stairs = kind == 3;
  f.first = cells.lower[f.along] - 1;
  const P knots = cells.upper[f.along] - cells.lower[f.along] + 3;
  const double lo = double(cells.lower[1 - f.along]), hi = double(cells.upper[1 - f.along]);
  const double mid = c.real(lo - 1, hi + 1);
  const bool steep = c.chance(1, 4);
  double s = steep ? c.symmetric(8, 1e-3) : c.symmetric(1.2, 1e-6);
  if (c.chance(1, 10))
    s = 0;
  double s2 = kind == 1 ? c.symmetric(steep ? 8 : 1.2, 1e-6) : s;
  const P tip = c.integer(0, knots - 1);
  for (P k = 0; k < knots; ++k) {
    double y = mid + double(k - tip) * (k < tip ? s : s2);
    if (kind == 2)
      y += c.symmetric(0.7, 1e-6);
    if (kind == 3)
      y = std::floor(y);
    f.h.push_back(y);
  }
  Build(*g);
  c.label(std::array<const char*, 4>{"plane", "wedge", "irregular", "stairs"}[std::size_t(kind)]);
  return g;
}
} // namespace cp

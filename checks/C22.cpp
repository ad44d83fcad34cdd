// C22: signed distances of geometries
#include "pbt.hpp"
#include "fub/core/assert.hpp"
#include <Eigen/Dense>
#include <algorithm>
#include <array>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <limits>
#include <memory>
#include <string>
#include <vector>
#include "fub/geometry/Cone.hpp"
#include "fub/geometry/ExpandTube.hpp"
#include "fub/geometry/Halfspace.hpp"
#include "fub/geometry/Invert.hpp"
#include "fub/geometry/Polygon.hpp"
#include "fub/geometry/PolymorphicGeometry.hpp"
#include "fub/geometry/RotateAroundPoint.hpp"
#include "fub/geometry/RotateAxis.hpp"
#include "fub/geometry/Union.hpp"
#include <unistd.h>
namespace {
using namespace fub;
using A2 = std::array<double, 2>;
using A3 = std::array<double, 3>;
using V2 = Eigen::Vector2d;
using V3 = Eigen::Vector3d;
double Coord(pbt::Case& c, bool grid) { return grid ? double(c.i(-4, 4)) : c.symmetric(3, 1e-3); }
Polygon::Vector Vec(const std::vector<double>& v) {
  Polygon::Vector w;
  for (double x : v)
    w.push_back(x);
  return w;
}
struct Points {
  std::vector<double> x, y; // closed
};
Points DrawPolygon(pbt::Case& c) {
  Points p;
  const int n = c.i(3, c.chance(1, 4) ? 40 : 12);
  const int kind = c.i(0, 3);
  const double scale = c.chance(1, 4) ? c.logreal(1e-4, 1e4) : 1.0;
  if (kind == 0) { // arbitrary, may cross itself
    const bool grid = c.boolean();
    for (int i = 0; i < n; ++i) {
      p.x.push_back(Coord(c, grid));
      p.y.push_back(Coord(c, grid));
    }
    c.label("arbitrary");
  } else if (kind == 1) { // star shaped
    const double x0 = c.symmetric(2, 1e-3), y0 = c.symmetric(2, 1e-3);
    for (int i = 0; i < n; ++i) {
      const double phi = 6.283185307179586 * (i + 0.8 * c.unit()) / n, r = c.real(0.1, 2);
      p.x.push_back(x0 + r * std::cos(phi));
      p.y.push_back(y0 + r * std::sin(phi));
    }
    c.label("star");
  } else if (kind == 2) { // rectangle with extra points on its edges
    const double a = c.i(-3, 0), b = c.i(1, 3), e = c.i(-3, 0), f = c.i(1, 3);
    const double cx[5] = {a, b, b, a, a}, cy[5] = {e, e, f, f, e};
    for (int k = 0; k < 4; ++k) {
      const int m = c.i(1, 4);
      for (int i = 0; i < m; ++i) {
        p.x.push_back(cx[k] + (cx[k + 1] - cx[k]) * i / m);
        p.y.push_back(cy[k] + (cy[k + 1] - cy[k]) * i / m);
      }
    }
    c.label("rectangle");
  } else { // comb
    const int teeth = c.i(1, 8);
    for (int i = 0; i < teeth; ++i) {
      p.x.insert(p.x.end(), {double(i), i + 0.25, i + 0.5, i + 0.75});
      const double h = c.real(0.5, 2);
      p.y.insert(p.y.end(), {h, h, 0.25, 0.25});
    }
    p.x.insert(p.x.end(), {double(teeth), 0.0});
    p.y.insert(p.y.end(), {0.0, 0.0});
    c.label("comb");
  }
  if (c.boolean()) {
    std::reverse(p.x.begin(), p.x.end());
    std::reverse(p.y.begin(), p.y.end());
  }
  if (c.chance(1, 4)) { // repeated point
    const auto k = long(c.below(p.x.size()));
    p.x.insert(p.x.begin() + k, p.x[std::size_t(k)]);
    p.y.insert(p.y.begin() + k, p.y[std::size_t(k)]);
  }
  for (auto* v : {&p.x, &p.y}) {
    for (double& a : *v)
      a *= scale;
    v->push_back(v->front());
  }
  return p;
}
double Segment(const V2& a, const V2& b, const V2& p) {
  const V2 e = b - a, r = p - a;
  const double l2 = e.squaredNorm();
  if (l2 == 0)
    return r.norm();
  const double t = r.dot(e);
  if (t <= 0)
    return r.norm();
  if (t >= l2)
    return (p - b).norm();
  return std::abs(e[0] * r[1] - e[1] * r[0]) / std::sqrt(l2);
}
/// positive inside (even-odd rule)
double Reference(const Points& q, const V2& p) {
  double d = std::numeric_limits<double>::infinity();
  int crossings = 0;
  for (std::size_t i = 0; i + 1 < q.x.size(); ++i) {
    const V2 a(q.x[i], q.y[i]), b(q.x[i + 1], q.y[i + 1]);
    d = std::min(d, Segment(a, b, p));
    // ray upwards
    if ((a[0] <= p[0]) != (b[0] <= p[0])) {
      const double s = (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]);
      if ((b[0] > a[0]) == (s < 0))
        ++crossings;
    }
  }
  return crossings % 2 ? d : -d;
}
V2 DrawPoint(pbt::Case& c, const Points& q, double size) {
  const auto k = c.below(q.x.size());
  const V2 v(q.x[k], q.y[k]);
  switch (c.i(0, 4)) {
  case 0:
    return V2(c.symmetric(5, 1e-3) * size, c.symmetric(5, 1e-3) * size);
  case 1:
    return V2(v[0] + c.symmetric(1, 1e-6) * size, v[1]); // same height as a corner
  case 2:
    return V2(v[0], v[1] + c.symmetric(1, 1e-6) * size);
  case 3: {
    const V2 w(q.x[(k + 1) % q.x.size()], q.y[(k + 1) % q.x.size()]);
    return v + c.real(-0.2, 1.2) * (w - v) + V2(c.symmetric(0.1, 1e-7), c.symmetric(0.1, 1e-7)) * size;
  }
  default:
    return v + V2(c.symmetric(0.01, 1e-8), c.symmetric(0.01, 1e-8)) * size;
  }
}
double Size(const Points& q) {
  double s = 0;
  for (std::size_t i = 0; i < q.x.size(); ++i)
    s = std::max({s, std::abs(q.x[i]), std::abs(q.y[i])});
  return s;
}
void SameDistance(pbt::Case& c, double got, double want, double size, const std::string& what) {
  c.near(std::abs(got), std::abs(want), 1e-10 * size, what + " (magnitude)");
  if (std::abs(want) > 1e-10 * size)
    c.checkf((got > 0) == (want > 0), [&] { return what + " has the wrong sign: " + pbt::fmt(got) + " instead of " + pbt::fmt(want); });
}
Polygon Make(const Points& q) { return Polygon(Vec(q.x), Vec(q.y)); }

PBT_PROP("polygons", 30000, 1000000) {
  const Points q = DrawPolygon(c);
  const double size = std::max(Size(q), 1e-300);
  const V2 p = DrawPoint(c, q, size);
  c.note("xs", pbt::list(q.x));
  c.note("ys", pbt::list(q.y));
  c.note("point", pbt::list(A2{p[0], p[1]}));
  const double want = Reference(q, p), full = size + p.norm();
  const Polygon poly = Make(q);
  SameDistance(c, poly.ComputeDistanceTo(p[0], p[1]), want, full, "distance");
  c.check(poly.ComputeDistanceTo(A2{p[0], p[1]}) == poly.ComputeDistanceTo(p[0], p[1]), "overloads differ");
  c.check(poly.GetXs().size() == long(q.x.size()) && std::equal(q.x.begin(), q.x.end(), poly.GetXs().begin()), "xs changed");
  c.check(poly.GetYs().size() == long(q.y.size()) && std::equal(q.y.begin(), q.y.end(), poly.GetYs().begin()), "ys changed");
  c.nontrivial(want > 0);
}
PBT_PROP("inverted, rotated and type-erased geometries", 20000, 500000) {
  const Points q = DrawPolygon(c), q2 = DrawPolygon(c);
  const double size = std::max(Size(q), Size(q2));
  const V2 p = DrawPoint(c, q, Size(q));
  const A2 x{p[0], p[1]};
  const Polygon poly = Make(q), other = Make(q2);
  const double base = poly.ComputeDistanceTo(x);
  c.check(std::isfinite(base), "distance is finite");
  c.note("xs", pbt::list(q.x));
  c.note("ys", pbt::list(q.y));
  c.note("point", pbt::list(x));
  // inversion
  const Invert<Polygon> inv(poly);
  const double z = c.symmetric(2, 1e-3) * size;
  c.check(inv.ComputeDistanceTo(x) == -base, "inverted polygon");
  c.check(inv.ComputeDistanceTo(A3{x[0], x[1], z}) == -base, "inverted polygon, projected point");
  // rotation about a point
  const double angle = c.chance(1, 3) ? 1.5707963267948966 * c.i(-4, 4) : c.real(-7, 7);
  const V2 o(c.symmetric(2, 1e-3) * size, c.symmetric(2, 1e-3) * size);
  const V2 r = p - o;
  const V2 turned = o + V2(std::cos(angle) * r[0] - std::sin(angle) * r[1], std::sin(angle) * r[0] + std::cos(angle) * r[1]);
  const RotateAroundPoint<Polygon> rot(poly, angle, {o[0], o[1]});
  c.note("angle", angle);
  SameDistance(c, rot.ComputeDistanceTo({turned[0], turned[1]}), base, 10 * (size + p.norm() + o.norm()), "rotated polygon at the rotated point");
  const Invert<RotateAroundPoint<Polygon>> inv_rot(rot);
  c.check(inv_rot.ComputeDistanceTo(A2{turned[0], turned[1]}) == -rot.ComputeDistanceTo({turned[0], turned[1]}), "inverted rotated polygon");
  // rotation about the first axis
  const double phi = c.real(-4, 4), radius = std::abs(p[1]);
  const RotateAxis<Polygon> axis(poly);
  const double want = Reference(q, V2(p[0], radius));
  SameDistance(c, axis.ComputeDistanceTo({p[0], radius * std::cos(phi), radius * std::sin(phi)}), want, 10 * (size + p.norm()), "rotational solid");
  const Invert<RotateAxis<Polygon>> inv_axis(axis);
  const A3 y{p[0], radius * std::cos(phi), radius * std::sin(phi)};
  c.check(inv_axis.ComputeDistanceTo(y) == -axis.ComputeDistanceTo(y), "inverted rotational solid");
  c.check(inv_axis.ComputeDistanceTo(x) == -axis.ComputeDistanceTo({x[0], x[1], 0.0}), "inverted rotational solid in the plane");
  // type erasure
  PolymorphicGeometry<2> g1(poly), g2(rot), g3(inv), g4(g1);
  PolymorphicGeometry<3> s1(axis), s2(inv_axis), s3(inv);
  std::unique_ptr<Geometry<2>> clone = g2.Clone();
  c.check(g1.ComputeDistanceTo(x) == base && g4.ComputeDistanceTo(x) == base, "type-erased polygon");
  c.check(g2.ComputeDistanceTo(x) == rot.ComputeDistanceTo(x) && clone->ComputeDistanceTo(x) == rot.ComputeDistanceTo(x), "type-erased rotated polygon");
  c.check(g3.ComputeDistanceTo(x) == -base, "type-erased inverted polygon");
  c.check(s1.ComputeDistanceTo(y) == axis.ComputeDistanceTo(y) && s2.ComputeDistanceTo(y) == -axis.ComputeDistanceTo(y), "type-erased solids");
  c.check(s3.ComputeDistanceTo(A3{x[0], x[1], z}) == -base, "type-erased projection");
  c.check(&g1.Base() != &g4.Base() && g4.Base().ComputeDistanceTo(x) == base, "a copy shares its geometry");
  // union
  std::vector<PolymorphicGeometry<2>> all{g1, g2, PolymorphicGeometry<2>(other)};
  const PolymorphicUnion<2> u(all);
  const double best = std::max({base, rot.ComputeDistanceTo(x), other.ComputeDistanceTo(x)});
  c.check(u.ComputeDistanceTo(x) == best, "union of geometries");
  PolymorphicGeometry<2> erased(u);
  c.check(erased.ComputeDistanceTo(x) == best && u.Clone()->ComputeDistanceTo(x) == best && PolymorphicGeometry<2>(erased).ComputeDistanceTo(x) == best, "type-erased union");
  c.nontrivial(std::sin(2 * angle) != 0);
}
PBT_PROP("half spaces", 5000, 100000) {
  const double len = c.logreal(1e-3, 1e3);
  V3 n(c.symmetric(1, 1e-6), c.symmetric(1, 1e-6), c.symmetric(1, 1e-6));
  if (c.chance(1, 3))
    n = V3::Unit(c.i(0, 2)) * (c.boolean() ? 1 : -1);
  if (n.norm() < 1e-3)
    throw pbt::Discard{};
  n *= len;
  const double offset = c.symmetric(3, 1e-3);
  const Halfspace h(n, offset);
  const V3 u = n / n.norm();
  // a point at a known distance from the plane
  const double s = c.symmetric(3, 1e-6);
  V3 t = u.cross(V3(c.symmetric(1, 1e-3), c.symmetric(1, 1e-3), 1));
  t *= c.symmetric(5, 1e-3);
  const V3 x = offset * u + s * u + t;
  c.note("normal", pbt::list(A3{n[0], n[1], n[2]}));
  c.near(h(x), s, 1e-13 * 100, "distance to the plane");
  c.check(h(x) == h(x[0], x[1], x[2]), "overloads differ");
  c.nontrivial(std::abs(s) > 1e-3);
}
PBT_PROP("cones", 20000, 500000) {
  const A3 o{c.symmetric(2, 1e-3), c.symmetric(2, 1e-3), c.symmetric(2, 1e-3)};
  const double R = c.logreal(0.1, 10), h = c.logreal(0.1, 10);
  const bool in = c.boolean();
  const ConeIF cone(o, R, h, in);
  // meridional coordinates
  double l = c.real(-1.5, 2.5) * h, r = c.real(0, 2.5) * R;
  if (c.chance(1, 6))
    r = 0;
  if (c.chance(1, 8))
    l = c.pick<double>({0.0, h});
  const double phi = c.real(-4, 4);
  const A3 x{o[0] + l, o[1] + r * std::cos(phi), o[2] + r * std::sin(phi)};
  // triangle (0, 0), (0, R), (h, 0) in the half plane r >= 0; the axis is no boundary
  const V2 p(l, r), rim(0, R), apex(h, 0), foot(0, 0);
  const double d = std::min(Segment(foot, rim, p), Segment(rim, apex, p));
  const bool inside = l >= 0 && r / R + l / h <= 1;
  const double want = (inside ? -d : d) * (in ? 1 : -1);
  c.note("base", pbt::list(o));
  c.note("radius", R);
  c.note("height", h);
  c.note("axial, radial", pbt::list(A2{l, r}));
  const double size = R + h + std::abs(l) + r + 6;
  SameDistance(c, cone.ComputeDistanceTo(x), want, size, "distance to the cone");
  c.label(inside ? "inside" : (l < 0 ? "behind the base" : (l > h ? "beyond the apex" : "beside")));
  c.nontrivial(d > 1e-6);
}
// -- tubes
struct Tube {
  Eigen::Matrix<double, 3, Eigen::Dynamic> p;
  double radius;
};
/// A tube that begins upwards and ends downwards, as its open ends require.
Tube DrawTube(pbt::Case& c) {
  Tube t;
  const int n = c.i(1, 6);
  std::vector<V2> v{V2(c.symmetric(2, 1e-3), c.symmetric(2, 1e-3))};
  double phi = 1.5707963267948966;
  v.push_back(v.back() + c.real(1, 3) * V2(0, 1));
  const double turn = c.boolean() ? 1 : -1;
  for (int i = 0; i < n; ++i) {
    phi -= turn * 3.141592653589793 / (n + 1);
    v.push_back(v.back() + c.real(1, 3) * V2(std::cos(phi), std::sin(phi)));
  }
  v.push_back(v.back() + c.real(1, 3) * V2(0, -1));
  t.radius = c.real(0.05, 0.3);
  t.p.resize(3, long(v.size()));
  for (std::size_t i = 0; i < v.size(); ++i)
    t.p.col(long(i)) << v[i][0], v[i][1], 0.0;
  return t;
}
PBT_PROP("expanded tubes", 15000, 300000) {
  const Tube t = DrawTube(c);
  const ExpandTube tube(t.p, t.radius);
  const long segs = t.p.cols() - 1;
  std::vector<V3> dir;
  for (long i = 0; i < segs; ++i)
    dir.push_back((t.p.col(i + 1) - t.p.col(i)).normalized());
  // planes between the segments
  std::vector<V3> normal{dir.front()};
  for (long i = 1; i < segs; ++i)
    normal.push_back((dir[std::size_t(i - 1)] + dir[std::size_t(i)]).normalized());
  normal.push_back(dir.back());
  const long s = c.i(0, int(segs) - 1);
  const double lambda = c.real(-0.2, 1.2), off = c.real(0, 2) * t.radius, phi = c.real(-4, 4);
  const V3 d = dir[std::size_t(s)], e1(-d[1], d[0], 0), e2(0, 0, 1);
  const V3 x = t.p.col(s) + lambda * (t.p.col(s + 1) - t.p.col(s)) + off * (std::cos(phi) * e1 + std::sin(phi) * e2);
  bool inside = false, sharp = false;
  double others = std::numeric_limits<double>::infinity(), ends = 0;
  for (long i = 0; i < segs; ++i) {
    const auto k = std::size_t(i);
    const double lo = normal[k].dot(x - t.p.col(i)), hi = normal[k + 1].dot(t.p.col(i + 1) - x);
    const V3 r = x - t.p.col(i);
    const double rad = (r - r.dot(dir[k]) * dir[k]).norm();
    const double margin = std::min({lo, hi, t.radius - rad});
    if (std::abs(margin) < 1e-9)
      sharp = true;
    inside = inside || margin > 0;
    if (i == s)
      ends = std::min(lo, hi);
    else
      others = std::min(others, std::max({-lo, -hi, rad - t.radius})); // lower bound of the distance to the segment
  }
  if (sharp)
    throw pbt::Discard{};
  std::vector<double> flat(t.p.data(), t.p.data() + t.p.size());
  c.note("points", pbt::list(flat));
  c.note("radius", t.radius);
  c.note("x", pbt::list(A3{x[0], x[1], x[2]}));
  const double got = tube(x);
  c.check(got == tube(x[0], x[1], x[2]), "overloads differ");
  c.checkf((got > 0) == inside, [&] { return std::string("a point ") + (inside ? "inside" : "outside") + " has the distance " + pbt::fmt(got); });
  // next to the wall of one segment only: the true distance
  const double w = t.radius - off;
  if (ends > std::abs(w) && others > std::abs(w)) {
    c.near(got, w, 1e-12 * 100, "distance to the wall of the tube");
    c.label("magnitude");
  }
  c.label(inside ? "inside" : "outside");
  c.nontrivial(segs > 2);
}
PBT_PROP("tube files", 1500, 20000) {
  const int n = c.i(0, 12);
  std::vector<A2> want;
  std::string text;
  for (int i = 0; i < n; ++i) {
    const A2 p{c.symmetric(5, 1e-6), c.symmetric(5, 1e-6)};
    const int kind = c.i(0, 7);
    if (kind == 6) {
      text += "\n";
    } else if (kind == 7) {
      text += c.pick<std::string>({"# points", "x y", "  ", "1.0 none"}) + "\n";
    } else {
      char b[128];
      std::snprintf(b, sizeof b, "%s%.17g%s%.17g%s", c.boolean() ? " " : "", p[0], c.boolean() ? " " : "\t", p[1], c.boolean() ? "" : " 0.0");
      text += std::string(b) + "\n";
      want.push_back(p);
    }
  }
  const bool cut = c.boolean() && !text.empty();
  if (cut)
    text.pop_back(); // no newline at the end of the file
  const std::string dir = "/tmp/c22." + std::to_string(getpid());
  std::filesystem::create_directories(dir);
  const std::string name = dir + "/points.txt";
  {
    std::ofstream out(name);
    out << text;
  }
  c.note("file", text);
  const auto got = ReadPointsFromFile(name);
  std::filesystem::remove_all(dir);
  c.checkf(got.cols() == long(want.size()), [&] { return pbt::str(got.cols()) + " points of " + pbt::str(want.size()) + " were read"; });
  for (std::size_t i = 0; i < want.size(); ++i) {
    c.check(got(0, long(i)) == want[i][0] && got(1, long(i)) == want[i][1], "point " + pbt::str(i) + " differs");
    c.check(got(2, long(i)) == 0, "third coordinate");
  }
  bool thrown = false;
  try {
    (void)ReadPointsFromFile("/nonexistent-dir/points.txt");
  } catch (const std::exception&) {
    thrown = true;
  }
  c.check(thrown, "a missing file is not reported");
  c.nontrivial(want.size() > 1);
}
} // namespace

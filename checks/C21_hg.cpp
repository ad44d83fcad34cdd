// C21: reconstruction on h-grids
#include "cutpoly.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/cutcell_method/HGridReconstruction.hpp"
namespace {
using namespace fub;
using cc::With;
using cp::V2;
using tst::Each;
using tst::Ix;
using tst::P;
using tst::Patch;
using Eq = PerfectGas<2>;
using Comp = Complete<Eq>;
using Grad = Conservative<Eq>;

struct Field {
  std::vector<double> base;
  std::vector<V2> slope;
  V2 mid;
  std::vector<double> at(const V2& x) const {
    std::vector<double> v = base;
    for (std::size_t k = 0; k < 4; ++k)
      v[k] += slope[k].dot(x - mid);
    return v;
  }
};
void Set(Grad& u, const std::vector<double>& v) {
  u.density = v[0];
  u.momentum << v[1], v[2];
  u.energy = v[3];
}
std::vector<double> Get(const Grad& u) { return {u.density, u.momentum[0], u.momentum[1], u.energy}; }
struct Scene {
  Eq eq;
  IndexBox<2> cells;
  std::unique_ptr<cp::Map> g;
  V2 dx;
  Field f;
  std::unique_ptr<Patch<Comp>> states;
  std::unique_ptr<Patch<Grad>> gx, gy, gz;
  explicit Scene(pbt::Case& c) {
    const Ix<2> lo{c.integer(-4, 4), c.integer(-4, 4)};
    cells = tst::MakeBox<2>(lo, Ix<2>{5, 5});
    g = cp::Draw(c, cells);
    dx = V2(c.chance(1, 3) ? 1.0 : c.logreal(1e-3, 1e2), c.chance(1, 3) ? 1.0 : c.logreal(1e-3, 1e2));
    for (int k = 0; k < 2; ++k)
      f.mid[k] = 0.5 * double(cells.lower[k] + cells.upper[k]) * dx[k];
    f.base = {c.logreal(0.5, 10), c.symmetric(2, 1e-3), c.symmetric(2, 1e-3), c.logreal(200, 1000)};
    for (std::size_t k = 0; k < 4; ++k) {
      const double amp = k == 0 || k == 3 ? 0.05 * f.base[k] : 0.3;
      f.slope.push_back(V2(amp * c.symmetric(1, 1e-3) / dx[0], amp * c.symmetric(1, 1e-3) / dx[1]));
    }
    states = std::make_unique<Patch<Comp>>(eq, cells);
    gx = std::make_unique<Patch<Grad>>(eq, cells);
    gy = std::make_unique<Patch<Grad>>(eq, cells);
    gz = std::make_unique<Patch<Grad>>(eq, cells);
    Each<2>(cells, [&](const Ix<2>& i) {
      Comp q(eq);
      Grad u(eq), sx(eq), sy(eq);
      const V2 x = X(i);
      Set(u, f.at(x));
      CompleteFromCons(eq, q, u);
      Set(sx, {f.slope[0][0], f.slope[1][0], f.slope[2][0], f.slope[3][0]});
      Set(sy, {f.slope[0][1], f.slope[1][1], f.slope[2][1], f.slope[3][1]});
      Store(states->sub(cells), q, i);
      Store(gx->sub(cells), sx, i);
      Store(gy->sub(cells), sy, i);
    });
    c.note("cells", tst::BoxStr<2>(cells));
    c.note("volume fractions", pbt::list(g->volume.v));
    c.note("dx", pbt::list(std::array<double, 2>{dx[0], dx[1]}));
  }
  V2 X(const Ix<2>& i) const {
    V2 x;
    for (int k = 0; k < 2; ++k)
      x[k] = (double(i[k]) + 0.5 + g->volume_centroid(With<2>(i, k))) * dx[k];
    return x;
  }
  V2 Wall(const Ix<2>& i) const {
    V2 x;
    for (int k = 0; k < 2; ++k)
      x[k] = (double(i[k]) + 0.5 + g->boundary_centroid(With<2>(i, k))) * dx[k];
    return x;
  }
  void Same(pbt::Case& c, const Comp& q, const V2& x, const std::string& what) const {
    const auto want = f.at(x);
    const std::vector<double> got{q.density, q.momentum[0], q.momentum[1], q.energy};
    for (std::size_t k = 0; k < 4; ++k)
      c.near(got[k], want[k], 1e-9 * std::max(1.0, std::abs(f.base[k])), what + ", component " + pbt::str(k));
    Comp r(eq);
    CompleteFromCons(eq, r, AsCons(q));
    c.rel(q.pressure, r.pressure, 1e-12, what + ", pressure", 1e-12);
    c.rel(q.speed_of_sound, r.speed_of_sound, 1e-12, what + ", speed of sound", 1e-12);
  }
  void SameSlope(pbt::Case& c, const Grad& s, int d, const std::string& what) const {
    const auto got = Get(s);
    for (std::size_t k = 0; k < 4; ++k)
      c.near(got[k] * dx[d], f.slope[k][d] * dx[d], 1e-9 * std::max(1.0, std::abs(f.base[k])), what + ", component " + pbt::str(k));
  }
};
/// the interval of the open face that is not behind the walls of its neighbours
std::array<double, 2> Unshielded(const cp::Map& g, const Ix<2>& face, int d) {
  const int t = 1 - d;
  auto o = g.Open(face, d);
  for (const Ix<2>& i : {cc::Sh<2>(face, d, -1), face}) {
    // what passes through both faces of the cell
    const Ix<2> other = i == face ? cc::Sh<2>(face, d, 1) : i;
    const auto r = g.OpenFrom(other, d, i);
    (void)t;
    o[0] = std::max(o[0], r[0]);
    o[1] = std::min(o[1], r[1]);
  }
  o[1] = std::max(o[0], o[1]);
  return o;
}
void Regular(pbt::Case& c) {
  Scene s(c);
  const int d = c.i(0, 1), t = 1 - d;
  Ix<2> face{s.cells.lower[0] + 2, s.cells.lower[1] + 2};
  const Ix<2> iL = cc::Sh<2>(face, d, -1);
  const double us = s.g->us[d](face);
  if (s.g->volume(iL) <= 0 || s.g->volume(face) <= 0 || us < 1e-9)
    throw pbt::Discard{};
  const auto o = Unshielded(*s.g, face, d);
  c.near(us, o[1] - o[0], 1e-12, "unshielded fraction of the harness geometry");
  const V2 x = GetAbsoluteUnshieldedCentroid(s.g->data, face, s.dx, Direction(d));
  c.note("direction", d);
  c.note("face fractions", pbt::list(std::array<double, 3>{s.g->face[d](iL), s.g->face[d](face), s.g->face[d](cc::Sh<2>(face, d, 1))}));
  c.note("unshielded part", pbt::list(o));
  c.near(x[d], double(face[d]) * s.dx[d], 1e-12 * s.dx[d] * 10, "position of the face");
  c.near(x[t], 0.5 * (o[0] + o[1]) * s.dx[t], 1e-10 * s.dx[t], "centroid of the unshielded part of the face");
  HGridReconstruction<Eq, Grad> h(s.eq);
  std::array<Comp, 2> q{Comp(s.eq), Comp(s.eq)};
  std::array<Grad, 2> dq{Grad(s.eq), Grad(s.eq)};
  h.ReconstructRegularStencil(q, dq, s.states->csub(s.cells), s.gx->csub(s.cells), s.gy->csub(s.cells), s.gz->csub(s.cells), s.g->data, face, Duration(0.1), s.dx, Direction(d));
  const V2 e = 0.5 * s.dx[d] * V2::Unit(d);
  const V2 m = [&] {
    V2 y;
    y[d] = double(face[d]) * s.dx[d];
    y[t] = 0.5 * (o[0] + o[1]) * s.dx[t];
    return y;
  }();
  s.Same(c, q[0], m - e, "left regular state");
  s.Same(c, q[1], m + e, "right regular state");
  s.SameSlope(c, dq[0], d, "left regular slope");
  s.SameSlope(c, dq[1], d, "right regular slope");
  c.nontrivial(us < 1);
  c.label(s.g->face[d](face) < 1 ? "partly closed" : "open");
}
void Shielded(pbt::Case& c) {
  Scene s(c);
  const int d = c.i(0, 1);
  const Ix<2> cell{s.cells.lower[0] + 2, s.cells.lower[1] + 2};
  const Ix<2> fR = cc::Sh<2>(cell, d, 1);
  const double a = s.g->volume(cell), bl = s.g->face[d](cell), br = s.g->face[d](fR);
  if (!(a > 1e-6 && a < 1) || std::abs(bl - br) < 1e-9)
    throw pbt::Discard{};
  const bool right = bl > br; // the wall shields the left face from the right
  const Ix<2> next = cc::Sh<2>(cell, d, right ? -1 : 1);
  const double single = right ? s.g->sr[d](cell) : s.g->sl[d](fR);
  const double twice = right ? s.g->ds[d](cell) : s.g->ds[d](fR);
  if (s.g->volume(next) <= 0)
    throw pbt::Discard{};
  const double alpha = right ? 0.5 + s.g->boundary_centroid(With<2>(cell, d)) : 0.5 - s.g->boundary_centroid(With<2>(cell, d));
  const V2 xB = s.Wall(cell), e = s.dx[d] * V2::Unit(d) * (right ? -1.0 : 1.0);
  c.note("direction", d);
  c.note("alpha", alpha);
  const auto st = s.states->csub(s.cells);
  const auto gx = s.gx->csub(s.cells), gy = s.gy->csub(s.cells), gz = s.gz->csub(s.cells);
  if (single > 0) {
    // midpoint between the wall and the face, midpoint of the h-wide cell behind it
    const V2 in = right ? GetAbsoluteSinglyShieldedFromRightVolumeCentroid(s.g->data, cell, Side::Upper, Direction(d), s.dx)
                        : GetAbsoluteSinglyShieldedFromLeftVolumeCentroid(s.g->data, fR, Side::Lower, Direction(d), s.dx);
    const V2 out = right ? GetAbsoluteSinglyShieldedFromRightVolumeCentroid(s.g->data, cell, Side::Lower, Direction(d), s.dx)
                         : GetAbsoluteSinglyShieldedFromLeftVolumeCentroid(s.g->data, fR, Side::Upper, Direction(d), s.dx);
    for (int k = 0; k < 2; ++k) {
      c.near(in[k], (xB + 0.5 * alpha * e)[k], 1e-11 * s.dx[k] * 10, "centroid of the shielded part");
      c.near(out[k], (xB + (alpha + 0.5) * e)[k], 1e-11 * s.dx[k] * 10, "centroid behind the shielded part");
    }
    Comp q(s.eq);
    Grad dq(s.eq);
    HGridIntegration<Eq, Grad> h(s.eq);
    const bool done = h.IntegrateInteriorCellState(q, dq, st, gx, gy, gz, s.g->data, cell, s.dx, Direction(d));
    c.check(done == (twice < single), "interior state missing");
    if (done) {
      // the cell of width h that touches the wall
      s.Same(c, q, xB + 0.5 * e, "interior state next to the wall");
      s.SameSlope(c, dq, d, "slope of the interior state next to the wall");
      c.label("interior");
    }
  }
  HGridReconstruction<Eq, Grad> h(s.eq);
  std::array<Comp, 2> q{Comp(s.eq), Comp(s.eq)}, eb{Comp(s.eq), Comp(s.eq)};
  std::array<Grad, 2> dq{Grad(s.eq), Grad(s.eq)}, deb{Grad(s.eq), Grad(s.eq)};
  // linear continuation across the wall
  Grad u(s.eq);
  for (int k = 0; k < 2; ++k) {
    Set(u, s.f.at(xB + (k == 0 ? -0.5 : 0.5) * s.dx[d] * V2::Unit(d)));
    CompleteFromCons(s.eq, eb[std::size_t(k)], u);
    Set(deb[std::size_t(k)], {s.f.slope[0][d], s.f.slope[1][d], s.f.slope[2][d], s.f.slope[3][d]});
  }
  h.ReconstructSinglyShieldedStencil(q, dq, eb, deb, st, gx, gy, gz, s.g->data, cell, Duration(0.1), s.dx, Direction(d));
  // the stencil of h-cells around the shielded part of the face
  const V2 far = xB + (alpha + 0.5) * e, near = xB + (alpha - 0.5) * e;
  s.Same(c, q[right ? 0 : 1], far, "h-cell behind the shielded face");
  s.Same(c, q[right ? 1 : 0], near, "h-cell between shielded face and wall");
  s.SameSlope(c, dq[0], d, "left shielded slope");
  s.SameSlope(c, dq[1], d, "right shielded slope");
  c.nontrivial(alpha > 0.01 && alpha < 0.99);
}
/// the state of the h-cell behind the wall is the mirror image of the fluid
void Boundary(pbt::Case& c) {
  Scene s(c);
  const int d = c.i(0, 1);
  const Ix<2> cell{s.cells.lower[0] + 2, s.cells.lower[1] + 2};
  const Ix<2> fR = cc::Sh<2>(cell, d, 1);
  const double a = s.g->volume(cell), bl = s.g->face[d](cell), br = s.g->face[d](fR);
  if (!(a > 1e-6 && a < 1) || std::abs(bl - br) < 1e-9)
    throw pbt::Discard{};
  std::vector<Ix<2>> fluid;
  Each<2>(s.cells, [&](const Ix<2>& i) {
    if (s.g->volume(i) > 0)
      fluid.push_back(i);
  });
  const auto box = With<2>(s.cells, 45);
  cc::Arr<3> points(box);
  const int n = c.i(1, 9);
  for (int k = 0; k < n; ++k) {
    const Ix<2> i = fluid[c.below(fluid.size())];
    points(With<2>(cell, 5 * k)) = c.real(0.01, 1) * s.dx[0] * s.dx[1];
    for (int r = 0; r < 2; ++r) {
      points(With<2>(cell, 5 * k + 1 + r)) = (double(i[r]) + c.real(0.05, 0.95)) * s.dx[r];
      std::memcpy(&points(With<2>(cell, 5 * k + 3 + r)), &i[r], sizeof(double));
    }
  }
  s.g->data.hgrid_integration_points[d] = points.cview();
  const V2 nrm(-s.g->normal(With<2>(cell, 0)), -s.g->normal(With<2>(cell, 1)));
  const V2 xB = s.Wall(cell), ed = V2::Unit(d);
  const double sign = nrm[d] > 0 ? 1 : -1;
  const auto mirror = [&](const V2& v) -> V2 { return v - 2 * nrm.dot(v) * nrm; };
  const V2 image = xB + mirror(V2(-sign * 0.5 * s.dx[d] * ed));
  // the distance to the image may be long in terms of the cell width across
  const double far = 1 + std::abs(image[0] - xB[0]) / s.dx[0] + std::abs(image[1] - xB[1]) / s.dx[1];
  if (far > 6)
    throw pbt::Discard{};
  HGridReconstruction<Eq, Grad> h(s.eq);
  std::array<Comp, 2> q{Comp(s.eq), Comp(s.eq)};
  std::array<Grad, 2> dq{Grad(s.eq), Grad(s.eq)};
  h.ReconstructEmbeddedBoundaryStencil(q, dq, s.states->csub(s.cells), s.gx->csub(s.cells), s.gy->csub(s.cells), s.gz->csub(s.cells), s.g->data, cell, Duration(0.1), s.dx, Direction(d));
  const std::size_t wall = bl < br ? 0 : 1;
  auto want = s.f.at(image);
  std::vector<double> slope;
  for (std::size_t k = 0; k < 4; ++k)
    slope.push_back(s.f.slope[k].dot(mirror(ed)));
  const auto turn = [&](std::vector<double>& v) {
    const V2 m = mirror(V2(v[1], v[2]));
    v[1] = m[0];
    v[2] = m[1];
  };
  turn(want);
  turn(slope);
  const std::vector<double> got{q[wall].density, q[wall].momentum[0], q[wall].momentum[1], q[wall].energy};
  const auto ds = Get(dq[wall]);
  c.note("direction", d);
  c.note("normal", pbt::list(std::array<double, 2>{nrm[0], nrm[1]}));
  for (std::size_t k = 0; k < 4; ++k) {
    c.near(got[k], want[k], 1e-9 * std::max(1.0, std::abs(s.f.base[k])), "mirrored state, component " + pbt::str(k));
    c.near(ds[k] * s.dx[d], slope[k] * s.dx[d], 1e-9 * std::max(1.0, std::abs(s.f.base[k])), "slope of the mirrored state, component " + pbt::str(k));
  }
  c.nontrivial(n > 1);
}
PBT_PROP("h-grid states behind walls", 12000, 300000) { Boundary(c); }
PBT_PROP("regular h-grid states", 12000, 300000) { Regular(c); }
PBT_PROP("shielded h-grid states", 12000, 300000) { Shielded(c); }
} // namespace

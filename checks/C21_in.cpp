// C21: integrals over cells of the h-grid
#include "cutpoly.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/cutcell_method/HGridReconstruction.hpp"
namespace {
using namespace fub;
using cc::With;
using cp::V2;
using tst::Each;
using tst::Ix;
using tst::P;
using tst::Patch;
using Eq = PerfectGas<2>;
using Comp = Complete<Eq>;
template <typename Grad> std::vector<double> Get(const Grad& u) {
  std::vector<double> v;
  ForEachComponent([&](double x) { v.push_back(x); }, u);
  return v;
}
template <typename Grad> std::vector<double> Vars(Eq& eq, const Comp& q) {
  Grad u(eq);
  StateFromComplete(eq, u, q);
  return Get(u);
}
template <typename Grad> void Integrate(pbt::Case& c) {
  Eq eq;
  const Ix<2> lo{c.integer(-4, 4), c.integer(-4, 4)};
  const auto cells = tst::MakeBox<2>(lo, Ix<2>{1 + c.integer(0, 3), 1 + c.integer(0, 3)});
  const V2 dx(c.logreal(1e-3, 1e2), c.logreal(1e-3, 1e2));
  cp::Map g(cells);
  g.f.along = 0;
  pbt::Rng rng{c.below(1 << 20)};
  const auto uni = [&] { return double(rng.next() >> 11) * 0x1p-53; };
  for (double& a : g.volume.v)
    a = uni() < 0.1 ? 0.0 : (uni() < 0.3 ? 1.0 : 1e-3 + 0.99 * uni());
  for (double& a : g.volume_centroid.v)
    a = 0.9 * (uni() - 0.5);
  g.Connect();
  Patch<Comp> states(eq, cells);
  Patch<Grad> gx(eq, cells), gy(eq, cells), gz(eq, cells);
  Each<2>(cells, [&](const Ix<2>& i) {
    Comp q(eq);
    Primitive<Eq> w(eq);
    w.density = 0.5 + uni();
    w.velocity << uni() - 0.5, uni() - 0.5;
    w.pressure = 1 + uni();
    CompleteFromPrim(eq, q, w);
    Store(states.sub(cells), q, i);
    for (auto* s : {&gx, &gy}) {
      Grad d(eq);
      ForEachComponent([&](double& x) { x = 0.1 * (uni() - 0.5) / dx[s == &gx ? 0 : 1]; }, d);
      Store(s->sub(cells), d, i);
    }
  });
  HGridIntegrationPoints<2> pts;
  const int n = c.i(0, 9);
  bool ok = n > 0;
  std::vector<double> want, wx, wy;
  double total = 0;
  for (int k = 0; k < n; ++k)
    pts.volume[std::size_t(k)] = c.logreal(1e-3, 1) * dx[0] * dx[1], total += pts.volume[std::size_t(k)];
  std::vector<Ix<2>> used;
  for (int k = 0; k < n; ++k) {
    const auto K = std::size_t(k);
    Ix<2> i;
    for (int d = 0; d < 2; ++d)
      i[d] = c.integer(cells.lower[d], cells.upper[d] - 1);
    if (c.chance(1, 40))
      i[0] = cells.upper[0];
    pts.index[K] = i;
    for (int d = 0; d < 2; ++d)
      pts.xM[K][d] = (double(i[d]) + 0.5 + 0.9 * (uni() - 0.5)) * dx[d];
    if (!tst::In<2>(cells, i) || g.volume(i) <= 0) {
      ok = false;
      continue;
    }
    used.push_back(i);
    Comp q(eq);
    Grad a(eq), b(eq);
    Load(q, states.csub(cells), i);
    Load(a, gx.csub(cells), i);
    Load(b, gy.csub(cells), i);
    const auto v = Vars<Grad>(eq, q), va = Get(a), vb = Get(b);
    want.resize(v.size());
    wx.resize(v.size());
    wy.resize(v.size());
    V2 xc;
    for (int d = 0; d < 2; ++d)
      xc[d] = (double(i[d]) + 0.5 + g.volume_centroid(With<2>(i, d))) * dx[d];
    const V2 r = pts.xM[K] - xc;
    for (std::size_t m = 0; m < v.size(); ++m) {
      want[m] += pts.volume[K] / total * (v[m] + va[m] * r[0] + vb[m] * r[1]);
      wx[m] += pts.volume[K] / total * va[m];
      wy[m] += pts.volume[K] / total * vb[m];
    }
  }
  c.note("cells", tst::BoxStr<2>(cells));
  c.note("points", n);
  HGridIntegration<Eq, Grad> h(eq);
  Comp q(eq);
  Grad a(eq), b(eq), z(eq);
  const bool done = h.IntegrateCellState(q, a, b, z, states.csub(cells), gx.csub(cells), gy.csub(cells), gz.csub(cells), g.data, pts, dx);
  c.check(done == ok, "an integral without a fluid cell is reported");
  if (!ok)
    return;
  const auto v = Vars<Grad>(eq, q), va = Get(a), vb = Get(b), vz = Get(z);
  for (std::size_t m = 0; m < v.size(); ++m) {
    c.near(v[m], want[m], 1e-11 * 10, "integral of component " + pbt::str(m));
    c.near(va[m] * dx[0], wx[m] * dx[0], 1e-12, "slope along x of component " + pbt::str(m));
    c.near(vb[m] * dx[1], wy[m] * dx[1], 1e-12, "slope along y of component " + pbt::str(m));
    c.near(vz[m], 0, 0, "slope along z of component " + pbt::str(m));
  }
  // the centroid of the points is the weighted mean
  V2 m(0, 0);
  for (int k = 0; k < n; ++k)
    m += pts.volume[std::size_t(k)] / total * pts.xM[std::size_t(k)];
  const V2 got = Centroid(pts);
  for (int d = 0; d < 2; ++d)
    c.near(got[d], m[d], 1e-12 * 10 * dx[d], "centroid of the integration points");
  c.nontrivial(n > 1);
}
PBT_PROP("integrals of conserved variables", 3000, 50000) { Integrate<Conservative<Eq>>(c); }
PBT_PROP("integrals of primitive variables", 3000, 50000) { Integrate<Primitive<Eq>>(c); }
} // namespace

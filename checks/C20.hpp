// C20: cut-cell stabilised fluxes
#pragma once
#include "cutcell.hpp"
#include "fub/AMReX/FillCutCellData.hpp"
#include "fub/cutcell_method/KbnStabilisation.hpp"
#include "fub/cutcell_method/MyStabilisation.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/perfect_gas/EinfeldtSignalVelocities.hpp"
#include "fub/equations/perfect_gas/ExactRiemannSolver.hpp"
#include "fub/equations/perfect_gas/GodunovMethod.hpp"
#include "fub/equations/perfect_gas/HllemMethod.hpp"
#include "fub/flux_method/HllMethod.hpp"
#include "riemann.hpp"
namespace {
using namespace fub;
using cc::Arr;
using cc::Geometry;
using cc::Gr;
using cc::Sh;
using cc::With;
using tst::Each;
using tst::In;
using tst::Ix;
using tst::P;

template <int R> IndexBox<R> DrawBox(pbt::Case& c, P nx, P n) {
  Ix<R> lo, e;
  for (int r = 0; r < R; ++r) {
    lo[r] = c.integer(-5, 5);
    e[r] = 1 + P(c.below(uint64_t(r == 0 ? nx : n)));
  }
  return tst::MakeBox<R>(lo, e);
}
/// the box grown by up to two cells in all directions
template <int R> IndexBox<R> Around(pbt::Case& c, IndexBox<R> b) {
  for (int r = 0; r < R; ++r) {
    b.lower[r] -= c.integer(0, 2);
    b.upper[r] += c.integer(0, 2);
  }
  return b;
}
template <int N> void FillRandom(pbt::Rng& rng, Arr<N>& a, double lo, double hi) {
  for (double& x : a.v)
    x = lo + (hi - lo) * (double(rng.next() >> 11) * 0x1p-53);
}
double Beta(pbt::Rng& rng, int mode) {
  const double u = double(rng.next() >> 11) * 0x1p-53;
  switch (mode) {
  case 0:
    return 1.0;
  case 1:
    return u < 0.3 ? 0.0 : (u < 0.6 ? 1.0 : double(rng.next() >> 11) * 0x1p-53);
  case 2:
    return u < 0.1 ? 1e-12 * u : u;
  default:
    return 0.25 * double(rng.next() % 5);
  }
}
struct Split {
  double us, l, r, d;
};
/// the parts of a face which are not shadowed by the body in its neighbours
Split Ref(double bl, double bm, double br) {
  Split s{};
  const double open = std::min({bl, bm, br}); // passes through both cells
  s.us = open;
  // shadowed by the left cell: [bl, bm], by the right cell: [br, bm]
  const double from_left = bm - std::min(bl, bm), from_right = bm - std::min(br, bm);
  s.d = std::min(from_left, from_right);
  s.l = from_left - s.d;
  s.r = from_right - s.d;
  return s;
}
template <int R> void DrawFaces(pbt::Case& c, pbt::Rng& rng, Arr<R>& beta) {
  const int mode = c.i(0, 3);
  for (double& x : beta.v)
    x = Beta(rng, mode);
}
template <int R> void FillCase(pbt::Case& c) {
  const int dir = c.i(0, R - 1);
  const auto faces = DrawBox<R>(c, 13, 3);
  const auto outer = Around<R>(c, faces);
  pbt::Rng rng{c.below(1 << 20)};
  Arr<R> beta(Gr<R>(Around<R>(c, faces), dir, 1, 1));
  DrawFaces<R>(c, rng, beta);
  std::array<Arr<R>, 8> out;
  for (auto& o : out)
    o = Arr<R>(outer, -7.0);
  amrex::cutcell::FillCutCellData(out[0].sub(faces), out[1].sub(faces), out[2].sub(faces), out[3].sub(faces), out[4].sub(faces), out[5].sub(faces),
                                  out[6].sub(faces), out[7].sub(faces), beta.cview(), Direction(dir));
  bool cut = false;
  Each<R>(outer, [&](const Ix<R>& i) {
    if (!In<R>(faces, i)) {
      for (auto& o : out)
        c.check(o(i) == -7.0, "a value outside of the faces was written");
      return;
    }
    const double bm = beta(i);
    const Split s = Ref(beta(Sh<R>(i, dir, -1)), bm, beta(Sh<R>(i, dir, 1)));
    const double q = bm > 0 ? bm : 1.0;
    const double ref[8] = {s.us, s.l, s.r, s.d, s.us / q, s.l / q, s.r / q, s.d / q};
    const char* what[8] = {"unshielded", "shielded left", "shielded right", "doubly shielded", "relative unshielded", "relative shielded left", "relative shielded right", "relative doubly shielded"};
    for (int k = 0; k < 8; ++k)
      c.checkf(std::abs(out[std::size_t(k)](i) - ref[k]) <= (k < 4 ? 1e-15 : 1e-15 / q), [&] {
        return std::string(what[k]) + " fraction of face " + pbt::list(i) + " is " + pbt::fmt(out[std::size_t(k)](i)) + " instead of " + pbt::fmt(ref[k]);
      });
    c.near(out[0](i) + out[1](i) + out[2](i) + out[3](i), bm, 1e-15, "sum of the parts of a face");
    for (int k = 0; k < 8; ++k)
      c.check(out[std::size_t(k)](i) >= 0 && out[std::size_t(k)](i) <= 1.0 + 1e-12, "a fraction is outside of [0, 1]");
    cut = cut || s.l + s.r + s.d > 0;
  });
  c.note("faces", tst::BoxStr<R>(faces));
  c.note("direction", dir);
  c.nontrivial(cut);
}

/// geometry with faces, relative fractions and boundary centroids
template <int R> std::unique_ptr<Geometry<R>> DrawGeometry(pbt::Case& c, pbt::Rng& rng, const IndexBox<R>& cells) {
  auto g = std::make_unique<Geometry<R>>(cells);
  const int mode = c.i(0, 3);
  const bool wide = c.chance(1, 4); // centroids outside of the cell
  for (int d = 0; d < R; ++d) {
    for (double& x : g->face[d].v)
      x = Beta(rng, mode);
    const auto inner = Gr<R>(g->face[d].box, d, -1, -1);
    if (tst::BoxSize<R>(inner) > 0)
      amrex::cutcell::FillCutCellData(g->us[d].sub(inner), g->sl[d].sub(inner), g->sr[d].sub(inner), g->ds[d].sub(inner), g->us_r[d].sub(inner),
                                      g->sl_r[d].sub(inner), g->sr_r[d].sub(inner), g->ds_r[d].sub(inner), g->face[d].cview(), Direction(d));
  }
  FillRandom(rng, g->boundary_centroid, wide ? -1.2 : -0.5, wide ? 1.2 : 0.5);
  FillRandom(rng, g->volume, 0.0, 1.0);
  g->Connect();
  return g;
}
double Clamp01(double x) { return x < 0 ? 0 : (x > 1 ? 1 : x); }

template <int R> void Stable(pbt::Case& c) {
  const int dir = c.i(0, R - 1);
  const bool my = c.chance(1, 4);
  const auto faces = DrawBox<R>(c, 13, 3);
  // one more face on both sides is needed for the fractions
  auto cells = Around<R>(c, Gr<R>(faces, dir, 2, 1));
  pbt::Rng rng{c.below(1 << 20)};
  auto g = DrawGeometry<R>(c, rng, cells);
  // some data with relative fractions which are not derived from faces
  if (c.chance(1, 3)) {
    for (auto* a : {&g->us_r, &g->sl_r, &g->sr_r})
      FillRandom(rng, (*a)[dir], 0.0, 1.0);
    c.label("free fractions");
  }
  Arr<R> st(Around<R>(c, faces), -7.0), sl(Around<R>(c, faces), -7.0), sr(Around<R>(c, faces), -7.0), f(Around<R>(c, faces)), b(cells);
  const bool equal = c.chance(1, 5);
  const double v = c.symmetric(1e3);
  const double amp = c.pick<double>({1.0, 1e5, 1e-3});
  for (auto* a : {&f, &b})
    FillRandom(rng, *a, equal ? v : -amp, equal ? v : amp);
  if (my)
    for (auto* a : {&sl, &sr})
      FillRandom(rng, *a, -amp, amp);
  const auto sl0 = sl.v, sr0 = sr.v;
  const auto f0 = f.v, b0 = b.v;
  const Duration dt{c.real(0.0, 1.0)};
  const double dx = c.logreal(1e-3, 1.0);
  if (my)
    MyStab_ComputeStableFluxComponents(st.sub(faces), sl.sub(faces), sr.sub(faces), f.csub(faces), b.csub(b.box), g->data, dt, dx, Direction(dir));
  else
    ComputeStableFluxComponents(st.sub(faces), sl.sub(faces), sr.sub(faces), f.csub(faces), b.csub(b.box), g->data, dt, dx, Direction(dir));
  c.note("method", my ? "MyStab" : "KBN");
  c.note("faces", tst::BoxStr<R>(faces));
  c.note("direction", dir);
  c.check(f.v == f0 && b.v == b0, "the given fluxes changed");
  bool cut = false;
  for (auto* a : {&st, &sl, &sr})
    Each<R>(a->box, [&](const Ix<R>& i) {
      if (!In<R>(faces, i) && !(my && a != &st))
        c.check((*a)(i) == -7.0, "a flux outside of the faces was written");
    });
  if (my)
    c.check(sl.v == sl0 && sr.v == sr0, "the shielded fluxes changed");
  Each<R>(faces, [&](const Ix<R>& i) {
    const Ix<R> left = Sh<R>(i, dir, -1);
    double l = 0, r = 0;
    if (my) {
      l = sl(i);
      r = sr(i);
    } else {
      const double dl = Clamp01(0.5 - g->boundary_centroid(With<R>(left, dir))), dr = Clamp01(0.5 + g->boundary_centroid(With<R>(i, dir)));
      l = b(left) + dl * (f(i) - b(left));
      r = b(i) + dr * (f(i) - b(i));
      const double s = 1e-14 * (std::abs(f(i)) + std::abs(b(i)) + std::abs(b(left)));
      c.checkf(std::abs(sl(i) - l) <= s, [&] { return "left shielded flux of face " + pbt::list(i) + " is " + pbt::fmt(sl(i)) + " instead of " + pbt::fmt(l); });
      c.checkf(std::abs(sr(i) - r) <= s, [&] { return "right shielded flux of face " + pbt::list(i) + " is " + pbt::fmt(sr(i)) + " instead of " + pbt::fmt(r); });
    }
    const double u_r = g->us_r[dir](i), l_r = g->sl_r[dir](i), r_r = g->sr_r[dir](i);
    const double ref = u_r * f(i) + l_r * l + r_r * r;
    c.checkf(std::abs(st(i) - ref) <= 1e-14 * (std::abs(f(i)) + std::abs(b(i)) + std::abs(b(left)) + std::abs(l) + std::abs(r)),
             [&] { return "stabilised flux of face " + pbt::list(i) + " is " + pbt::fmt(st(i)) + " instead of " + pbt::fmt(ref); });
    if (u_r == 1 && l_r == 0 && r_r == 0)
      c.check(st(i) == f(i), "the flux of an unshielded face changed");
    if (equal && !my && g->ds_r[dir](i) == 0 && std::abs(u_r + l_r + r_r - 1) < 1e-12)
      c.near(st(i), v, 1e-10 * std::abs(v) + 1e-300, "stabilised flux of equal fluxes");
    cut = cut || l_r > 0 || r_r > 0;
  });
  c.nontrivial(cut && !equal);
}

// ---------------------------------------------------------------------------
template <int R> PerfectGas<R> Equation(pbt::Case& c) {
  PerfectGas<R> eq;
  eq.gamma = c.pick<double>({1.4, 5.0 / 3.0, 1.2});
  eq.gamma_minus_1_inv = 1.0 / (eq.gamma - 1.0);
  eq.gamma_array_ = Array1d::Constant(eq.gamma);
  eq.gamma_minus_1_inv_array_ = Array1d::Constant(eq.gamma_minus_1_inv);
  return eq;
}
template <int R> using Prim = std::array<double, R + 2>; // density, velocity, pressure
template <int R> std::vector<double> Cons(double g, const Prim<R>& w, bool complete) {
  std::vector<double> v{w[0]};
  double k = 0;
  for (int d = 0; d < R; ++d) {
    v.push_back(w[0] * w[std::size_t(d) + 1]);
    k += 0.5 * w[0] * w[std::size_t(d) + 1] * w[std::size_t(d) + 1];
  }
  v.push_back(w[R + 1] / (g - 1.0) + k);
  if (complete) {
    v.push_back(w[R + 1]);
    v.push_back(std::sqrt(g * w[R + 1] / w[0]));
  }
  return v;
}
template <int R> Prim<R> DrawPrim(pbt::Case& c, double mach) {
  Prim<R> w;
  w[0] = c.logreal(0.1, 10.0);
  w[R + 1] = w[0] * c.logreal(0.1, 10.0);
  const double a = std::sqrt(1.4 * w[R + 1] / w[0]);
  for (int d = 0; d < R; ++d)
    w[std::size_t(d) + 1] = c.chance(1, 4) ? 0.0 : a * c.symmetric(mach);
  return w;
}
template <int R> using Vec = Eigen::Matrix<double, R, 1>;
template <int R> Vec<R> DrawNormal(pbt::Case& c) {
  Vec<R> n = Vec<R>::Zero();
  switch (c.below(4)) {
  case 0:
    n[c.i(0, R - 1)] = c.boolean() ? 1.0 : -1.0;
    return n;
  case 1: // nearly aligned with an axis
    n[c.i(0, R - 1)] = c.boolean() ? 1.0 : -1.0;
    n[c.i(0, R - 1)] += c.pick<double>({1e-9, -1e-9, 1e-7, 1e-5, -1e-4, 1e-17});
    return n.normalized();
  default:
    do
      for (int d = 0; d < R; ++d)
        n[d] = c.real(-1.0, 1.0);
    while (n.norm() < 0.1);
    return n.normalized();
  }
}
/// state at the wall: the normal velocity vanishes
template <int R> struct Wall {
  double p, rho_fluid, slope;
  Prim<R> state;
};
template <int R> double StarPressure(double g, const rp::W& L, const rp::W& R_) {
  // bisection of the velocity difference, which is monotone in the pressure
  double lo = 1e-9 * std::min(L.p, R_.p), hi = 1e6 * std::max(L.p, R_.p);
  auto f = [&](double p) { return rp::Gas::F(g, L, p) + rp::Gas::F(g, R_, p) + R_.u - L.u; };
  if (f(lo) > 0)
    throw pbt::Discard{};
  for (int k = 0; k < 200 && hi - lo > 1e-16 * hi; ++k) {
    const double m = std::sqrt(lo) * std::sqrt(hi);
    (f(m) > 0 ? hi : lo) = m;
  }
  return hi;
}

template <int R> void Boundary(pbt::Case& c) {
  using Eq = PerfectGas<R>;
  using FM = FluxMethod<Hll<Eq, EinfeldtSignalVelocities<Eq>>>;
  const Eq eq = Equation<R>(c);
  const double g = eq.gamma;
  KbnCutCellMethod<FM> m{FM{eq, EinfeldtSignalVelocities<Eq>{}}};
  const auto cells = DrawBox<R>(c, 4, 3);
  Geometry<R> geo(Around<R>(c, cells));
  pbt::Rng rng{c.below(1 << 20)};
  const int mode = c.i(1, 3);
  for (int d = 0; d < R; ++d)
    for (double& x : geo.face[d].v)
      x = Beta(rng, rng.next() % 2 ? 0 : mode);
  for (double& x : geo.volume.v)
    x = rng.next() % 3 == 0 ? 1.0 : Beta(rng, mode);
  std::vector<Vec<R>> pool;
  std::vector<Prim<R>> states_pool;
  for (int k = 0; k < 3; ++k) {
    pool.push_back(DrawNormal<R>(c));
    states_pool.push_back(DrawPrim<R>(c, 1.5));
  }
  geo.Connect();
  tst::Patch<fub::Complete<Eq>> s(eq, Around<R>(c, cells), 0.0), ref(eq, cells, -7.0), mirror(eq, cells, 0.0);
  const int nc = s.ncomp;
  std::vector<Prim<R>> w(std::size_t(s.cells)), wm(std::size_t(s.cells));
  auto fill = [&](bool boost) {
    Each<R>(s.box, [&](const Ix<R>& i) {
      Prim<R> q = states_pool[rng.next() % states_pool.size()];
      if (boost)
        q[R + 1] *= 1.5;
      w[std::size_t(s.off(i))] = q;
      const auto v = Cons<R>(g, q, true);
      for (int k = 0; k < nc; ++k)
        s.at(k, i) = v[std::size_t(k)];
    });
  };
  fill(false);
  Each<R>(geo.cells, [&](const Ix<R>& i) {
    const auto& n = pool[rng.next() % pool.size()];
    for (int d = 0; d < R; ++d)
      geo.normal(With<R>(i, d)) = -n[d];
  });
  auto normal = [&](const Ix<R>& i) {
    Vec<R> n;
    for (int d = 0; d < R; ++d)
      n[d] = -geo.normal(With<R>(i, d));
    return n;
  };
  auto speed = [&](const Prim<R>& q) {
    double k = 0;
    for (int d = 0; d < R; ++d)
      k += q[std::size_t(d) + 1] * q[std::size_t(d) + 1];
    return std::sqrt(k) + std::sqrt(g * q[R + 1] / q[0]);
  };
  // the exact solver stops at velocity differences of 1e-7
  const double tol = 2e-6;
  auto wall = [&](const Prim<R>& q, const Vec<R>& n) {
    Wall<R> r{};
    double un = 0;
    for (int d = 0; d < R; ++d)
      un += q[std::size_t(d) + 1] * n[d];
    const rp::W right{q[0], un, q[R + 1]}, left{q[0], -un, q[R + 1]};
    r.p = StarPressure<R>(g, left, right);
    rp::Gas gas{g, left, right, r.p, 0.0};
    r.rho_fluid = gas.StarDensity(1);
    r.state[0] = r.rho_fluid;
    for (int d = 0; d < R; ++d)
      r.state[std::size_t(d) + 1] = q[std::size_t(d) + 1] - un * n[d];
    r.state[R + 1] = r.p;
    return r;
  };
  c.note("normals", [&] {
    std::string t;
    for (auto& n : pool)
      t += pbt::list(std::vector<double>(n.data(), n.data() + R)) + " ";
    return t;
  }());
  c.note("cells", tst::BoxStr<R>(cells));
  m.PreAdvanceHierarchy(ref.sub(cells), s.csub(cells), geo.data);
  bool any = false;
  // reference states: no flow through the wall, tangential flow as before
  Each<R>(cells, [&](const Ix<R>& i) {
    if (!geo.Cut(i)) {
      for (int k = 0; k < nc; ++k)
        c.check(ref.at(k, i) == -7.0, "a reference state of a cell which is not cut was written");
      return;
    }
    any = true;
    const Prim<R>& q = w[std::size_t(s.off(i))];
    const Wall<R> r = wall(q, normal(i));
    const auto v = Cons<R>(g, r.state, true);
    const double a = speed(q) + speed(r.state), rho = std::max(q[0], r.rho_fluid);
    for (int k = 0; k < nc; ++k) {
      const double scale = k == 0 ? rho : (k <= R ? rho * a : (k <= R + 2 ? rho * a * a : a));
      c.near(ref.at(k, i), v[std::size_t(k)], tol * scale, "component " + std::to_string(k) + " of the reference state of cell " + pbt::list(i));
    }
    // zero normal velocity
    double un = 0, ut2 = 0;
    for (int d = 0; d < R; ++d)
      un += ref.at(1 + d, i) * normal(i)[d];
    c.near(un, 0.0, tol * rho * a, "momentum normal to the wall");
    (void)ut2;
  });
  // mirror states for masked cells
  std::vector<int> mask_data(std::size_t(s.cells), 0);
  std::vector<int> masks(std::size_t(tst::BoxSize<R>(cells)), 0);
  Each<R>(cells, [&](const Ix<R>& i) {
    masks[std::size_t(ref.off(i))] = rng.next() % 3 == 0;
    Prim<R> q = states_pool[rng.next() % states_pool.size()];
    for (int d = 0; d < R; ++d)
      q[std::size_t(d) + 1] *= 0.5;
    wm[std::size_t(ref.off(i))] = q;
    const auto v = Cons<R>(g, q, true);
    for (int k = 0; k < nc; ++k)
      mirror.at(k, i) = v[std::size_t(k)];
  });
  const bool changed = c.boolean();
  if (changed)
    fill(true);
  Ix<R> e;
  for (int r = 0; r < R; ++r)
    e[r] = cells.upper[r] - cells.lower[r];
  PatchDataView<int, R> mview(mdspan<int, R>(masks.data(), e), cells.lower);
  const auto whole = ref.data;
  for (int dir = 0; dir < R; ++dir) {
    tst::Patch<fub::Conservative<Eq>> fb(eq, cells, -7.0);
    m.ComputeBoundaryFluxes(fb.sub(cells), s.csub(cells), ref.csub(cells), mirror.csub(cells), mview.Subview(cells), geo.data, Duration{1e-3}, 0.1, Direction(dir));
    Each<R>(cells, [&](const Ix<R>& i) {
      if (!geo.Cut(i)) {
        for (int k = 0; k < R + 2; ++k)
          c.check(fb.at(k, i) == -7.0, "a boundary flux of a cell which is not cut was written");
        return;
      }
      const Vec<R> n = normal(i);
      const Prim<R>& q = w[std::size_t(s.off(i))];
      Prim<R> rs;
      rs[0] = ref.at(0, i);
      for (int d = 0; d < R; ++d)
        rs[std::size_t(d) + 1] = ref.at(1 + d, i) / rs[0];
      rs[R + 1] = ref.at(R + 2, i);
      const double u = rs[std::size_t(dir) + 1];
      // flux of the reference state with the pressure of the current one
      double p = 0;
      double size = speed(q) + speed(rs);
      if (masks[std::size_t(ref.off(i))]) {
        const Prim<R>& qm = wm[std::size_t(ref.off(i))];
        double un = 0;
        for (int d = 0; d < R; ++d)
          un += q[std::size_t(d) + 1] * n[d];
        const rp::W left{qm[0], qm[1], qm[R + 1]}, right{q[0], un, q[R + 1]};
        rp::Gas gas{g, left, right, StarPressure<R>(g, left, right), 0.0};
        gas.us = left.u - rp::Gas::F(g, left, gas.ps);
        int side = 0;
        p = gas.Sample(0.0, side).p;
        // the solution has jumps in the pressure at shocks
        for (int sd : {-1, 1})
          if ((sd < 0 ? gas.ps > left.p : gas.ps > right.p) && std::abs(gas.Head(sd)) < 1e-5 * size)
            return;
        size += speed(qm);
      } else
        p = wall(q, n).p;
      const double rho = std::max(rs[0], q[0]);
      std::vector<double> f{rs[0] * u};
      for (int d = 0; d < R; ++d)
        f.push_back(rs[0] * u * rs[std::size_t(d) + 1] + (d == dir ? p : 0.0));
      const double E = ref.at(R + 1, i);
      f.push_back(u * (E + rs[R + 1]));
      const double ps = std::max({p, rs[R + 1], q[R + 1]});
      for (int k = 0; k < R + 2; ++k) {
        const double scale = k == 0 ? rho * size : (k <= R ? rho * size * size + ps : size * (E + ps));
        c.checkf(std::abs(fb.at(k, i) - f[std::size_t(k)]) <= (k == 1 + dir ? tol : 1e-12) * scale, [&] {
          return "component " + std::to_string(k) + " of the boundary flux of cell " + pbt::list(i) + " in direction " + std::to_string(dir) + " is " + pbt::fmt(fb.at(k, i)) + " instead of " + pbt::fmt(f[std::size_t(k)]);
        });
      }
    });
  }
  c.check(ref.data == whole, "the reference states changed");
  // the wall of an unchanged state only feels pressure
  c.label(changed ? "changed" : "unchanged");
  c.nontrivial(any);
}

template <typename Eq, typename FM> void Regular(pbt::Case& c, const Eq& eq, const FM& fm0, double tol) {
  constexpr int R = Eq::Rank();
  constexpr int W = FM::GetStencilWidth();
  KbnCutCellMethod<FM> m{fm0};
  FM fm = fm0;
  const double g = eq.gamma;
  const int dir = c.i(0, R - 1);
  const auto faces = DrawBox<R>(c, 19, 3);
  const auto cells = Gr<R>(faces, dir, W, W - 1);
  pbt::Rng rng{c.below(1 << 20)};
  Geometry<R> geo(Around<R>(c, cells));
  const int mode = c.i(0, 3);
  for (int d = 0; d < R; ++d)
    for (double& x : geo.face[d].v)
      x = Beta(rng, mode);
  // cells with an open face are not covered
  Each<R>(geo.cells, [&](const Ix<R>& i) {
    bool open = false;
    for (int d = 0; d < R; ++d)
      open = open || geo.face[d](i) > 0 || geo.face[d](Sh<R>(i, d, 1)) > 0;
    geo.volume(i) = open ? (rng.next() % 2 ? 1.0 : 0.1 + 0.8 * (double(rng.next() >> 11) * 0x1p-53)) : 0.0;
  });
  geo.Connect();
  tst::Patch<fub::Complete<Eq>> s(eq, Around<R>(c, cells), 0.0);
  std::vector<Prim<R>> pool;
  for (int k = 0; k < 4; ++k)
    pool.push_back(DrawPrim<R>(c, 0.8));
  Each<R>(s.box, [&](const Ix<R>& i) {
    if (In<R>(geo.cells, i) && geo.volume(i) <= 0)
      return; // covered: zeros
    const auto v = Cons<R>(g, pool[rng.next() % pool.size()], true);
    for (int k = 0; k < s.ncomp; ++k)
      s.at(k, i) = v[std::size_t(k)];
  });
  tst::Patch<fub::Conservative<Eq>> f(eq, Around<R>(c, faces), -7.0);
  const double dx = c.logreal(1e-3, 1.0);
  const Duration dt{0.01 * dx};
  c.note("faces", tst::BoxStr<R>(faces));
  c.note("direction", dir);
  m.ComputeRegularFluxes(f.sub(faces), s.csub(s.box), geo.data, dt, dx, Direction(dir));
  double ref_dt = std::numeric_limits<double>::infinity();
  bool mixed = false, open = false;
  Each<R>(f.box, [&](const Ix<R>& i) {
    if (!In<R>(faces, i)) {
      for (int k = 0; k < R + 2; ++k)
        c.check(f.at(k, i) == -7.0, "a flux outside of the faces was written");
      return;
    }
    if (!(geo.face[dir](i) > 0)) {
      mixed = true;
      return;
    }
    std::array<fub::Complete<Eq>, 2 * W> st;
    for (int k = 0; k < 2 * W; ++k) {
      st[std::size_t(k)] = fub::Complete<Eq>(eq);
      const Ix<R> j = Sh<R>(i, dir, k - W);
      if (!(geo.volume(j) > 0))
        return;
      std::vector<double> v;
      for (int q = 0; q < s.ncomp; ++q)
        v.push_back(s.at(q, j));
      tst::SetComps(st[std::size_t(k)], v);
    }
    open = true;
    fub::Conservative<Eq> nf(eq);
    fm.ComputeNumericFlux(nf, st, dt, dx, Direction(dir));
    ref_dt = std::min(ref_dt, fm.ComputeStableDt(st, dx, Direction(dir)));
    const auto v = tst::Comps(nf);
    double size = 0, rho = 0;
    for (auto& q : st) {
      size = std::max(size, std::sqrt((q.momentum * q.momentum).sum()) / q.density + q.speed_of_sound);
      rho = std::max(rho, q.density);
    }
    for (int k = 0; k < R + 2; ++k)
      c.near(f.at(k, i), v[std::size_t(k)], tol * rho * std::pow(size, k == 0 ? 1 : (k <= R ? 2 : 3)), "component " + std::to_string(k) + " of the flux of face " + pbt::list(i));
  });
  const double got = m.ComputeStableDt(s.csub(cells), geo.data, dx, Direction(dir));
  if (std::isfinite(ref_dt))
    c.rel(got, ref_dt, std::max(tol, 1e-9), "stable time step", 0.0);
  else
    c.check(got == ref_dt || !open, "time step without open faces is " + pbt::fmt(got));
  // the stabilised fluxes of all components
  c.nontrivial(open && mixed);
}
template <int R> void Hlls(pbt::Case& c) {
  using Eq = PerfectGas<R>;
  const Eq eq = Equation<R>(c);
  if (c.boolean()) {
    using FM = FluxMethod<Hll<Eq, EinfeldtSignalVelocities<Eq>>>;
    Regular(c, eq, FM{eq, EinfeldtSignalVelocities<Eq>{}}, 1e-10);
  } else {
    using FM = FluxMethod<perfect_gas::Hllem<Eq>>;
    Regular(c, eq, FM{eq}, 1e-10);
  }
}

/// all components of a conserved state are treated alike
template <int R> void Components(pbt::Case& c) {
  using Eq = PerfectGas<R>;
  using FM = FluxMethod<Hll<Eq, EinfeldtSignalVelocities<Eq>>>;
  const Eq eq = Equation<R>(c);
  KbnCutCellMethod<FM> m{FM{eq, EinfeldtSignalVelocities<Eq>{}}};
  const int dir = c.i(0, R - 1);
  const auto faces = DrawBox<R>(c, 11, 3);
  auto cells = Around<R>(c, Gr<R>(faces, dir, 2, 1));
  pbt::Rng rng{c.below(1 << 20)};
  auto g = DrawGeometry<R>(c, rng, cells);
  using PC = tst::Patch<fub::Conservative<Eq>>;
  PC st(eq, Around<R>(c, faces), -7.0), sl(eq, Around<R>(c, faces), -7.0), sr(eq, Around<R>(c, faces), -7.0), ds(eq, faces, -7.0), f(eq, Around<R>(c, faces), 0.0), b(eq, cells, 0.0);
  tst::Patch<fub::Complete<Eq>> s(eq, cells, 0.0);
  for (auto* p : {&f, &b})
    for (double& x : p->data)
      x = 2.0 * (double(rng.next() >> 11) * 0x1p-53) - 1.0;
  m.ComputeCutCellFluxes(st.sub(faces), sl.sub(faces), sr.sub(faces), ds.sub(faces), b.sub(cells), f.csub(faces), s.csub(cells), g->data, Duration{0.1}, 0.1, Direction(dir));
  c.note("faces", tst::BoxStr<R>(faces));
  c.note("direction", dir);
  bool cut = false;
  for (int k = 0; k < R + 2; ++k)
    Each<R>(faces, [&](const Ix<R>& i) {
      const Ix<R> left = Sh<R>(i, dir, -1);
      const double dl = Clamp01(0.5 - g->boundary_centroid(With<R>(left, dir))), dr = Clamp01(0.5 + g->boundary_centroid(With<R>(i, dir)));
      const double l = b.at(k, left) + dl * (f.at(k, i) - b.at(k, left)), r = b.at(k, i) + dr * (f.at(k, i) - b.at(k, i));
      const Split p = Ref(g->face[dir](left), g->face[dir](i), g->face[dir](Sh<R>(i, dir, 1)));
      const double q = g->face[dir](i) > 0 ? g->face[dir](i) : 1.0;
      const double ref = (p.us * f.at(k, i) + p.l * l + p.r * r) / q;
      c.near(st.at(k, i), ref, 1e-14 + 1e-15 / q, "component " + std::to_string(k) + " of the stabilised flux of face " + pbt::list(i));
      c.near(sl.at(k, i), l, 1e-14, "left shielded flux");
      c.near(sr.at(k, i), r, 1e-14, "right shielded flux");
      cut = cut || p.l + p.r > 0;
    });
  c.nontrivial(cut);
}
} // namespace

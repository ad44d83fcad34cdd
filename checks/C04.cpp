// C04: the conservative update is exact flux differencing on every backend.
#include "guarded.hpp"
#include "patch.hpp"
#include "fub/HyperbolicPatchIntegrator.hpp"
using namespace tst;

template <int R> struct Buf {
  IndexBox<R> box;
  Guarded d;
  Buf(const IndexBox<R>& b, bool at_end) : box(b), d(static_cast<std::size_t>(BoxSize<R>(b)), at_end) {}
  void Set(const std::vector<double>& v) { std::copy(v.begin(), v.end(), d.begin()); }
  std::vector<double> Get() { return {d.begin(), d.end()}; }
  P off(const Ix<R>& i) const {
    P o = 0, s = 1;
    for (int r = 0; r < R; ++r) {
      o += (i[r] - box.lower[r]) * s;
      s *= box.upper[r] - box.lower[r];
    }
    return o;
  }
  double& at(const Ix<R>& i) { return d[static_cast<std::size_t>(off(i))]; }
  PatchDataView<double, R> view() {
    Ix<R> e;
    for (int r = 0; r < R; ++r)
      e[r] = box.upper[r] - box.lower[r];
    return PatchDataView<double, R>(mdspan<double, R>(d.data(), e), box.lower);
  }
};
template <int R> IndexBox<R> Enlarge(pbt::Case& c, IndexBox<R> b, int m) {
  for (int r = 0; r < R - 1; ++r) {
    b.lower[r] -= c.i(0, m);
    b.upper[r] += c.i(0, m);
  }
  return b;
}
// R counts the component dimension
template <int R> void Update(pbt::Case& c) {
  constexpr int SR = R - 1;
  IndexBox<R> cells;
  for (int r = 0; r < SR; ++r) {
    cells.lower[r] = c.i(0, 8) - 4;
    cells.upper[r] = cells.lower[r] + (r == 0 ? c.i(1, 21) : c.i(1, SR == 3 ? 4 : 6));
  }
  const int ncomp = c.i(1, 4);
  cells.lower[SR] = 0;
  cells.upper[SR] = ncomp;
  const int d = c.i(0, SR - 1);
  const Direction dir = Direction(d);
  IndexBox<R> faces = cells;
  faces.upper[d] += 1;
  c.note("cells", BoxStr<R>(cells));
  c.note("dir", d);
  const bool tight = c.boolean();
  const bool at_end = !c.chance(1, 4);
  const int margin = tight ? 0 : 2;
  c.note("no guard cells", tight);
  Buf<R> prev(Enlarge<R>(c, cells, margin), at_end), flux(Enlarge<R>(c, faces, margin), at_end);
  const bool inplace = c.chance(1, 4);
  const bool dyadic = c.boolean();
  c.note("in place", inplace);
  double dt, dx;
  if (dyadic) {
    dt = std::ldexp(1.0, c.i(-6, 2));
    dx = std::ldexp(1.0, c.i(-6, 2));
  } else {
    dt = c.logreal(1e-7, 10);
    dx = c.logreal(1e-6, 10);
  }
  c.note("dt", dt);
  c.note("dx", dx);
  // values by hashing the position with one drawn seed (keeps the choice sequence short)
  pbt::Rng rng{c.below(1u << 20)};
  const double scale = dyadic ? 1.0 : c.logreal(1e-8, 1e8), fscale = dyadic ? 1.0 : c.logreal(1e-8, 1e8);
  auto val = [&](double s) {
    std::int64_t k = static_cast<std::int64_t>(rng.next() % 2001) - 1000;
    return dyadic ? double(k) : s * (double(k) + double(rng.next() % 1000) / 1000.0);
  };
  for (double& x : prev.d)
    x = val(scale);
  for (double& x : flux.d)
    x = val(fscale);
  const std::vector<double> prev0 = prev.Get(), flux0 = flux.Get();
  IndexBox<R> nextbox = Enlarge<R>(c, cells, margin);
  std::vector<double> canvas(static_cast<std::size_t>(BoxSize<R>(nextbox)));
  for (std::size_t i = 0; i < canvas.size(); ++i)
    canvas[i] = -1e30 - double(i);
  auto backend = [&](auto tag, const char* name) {
    prev.Set(prev0);
    flux.Set(flux0);
    Buf<R> next(nextbox, at_end);
    next.Set(canvas);
    Buf<R>& target = inplace ? prev : next;
    const std::vector<double> before = target.Get();
    StridedDataView<const double, R> pv = prev.view().Subview(cells), fv = flux.view().Subview(flux.box);
    if (c.boolean())
      fv = flux.view().Subview(faces);
    StridedDataView<double, R> nv = target.view().Subview(cells);
    HyperbolicPatchIntegrator<decltype(tag)> integrator(tag);
    integrator.UpdateConservatively(nv, pv, fv, Duration(dt), dx, dir);
    c.check(flux.Get() == flux0, std::string(name) + ": fluxes changed");
    if (!inplace)
      c.check(prev.Get() == prev0, std::string(name) + ": previous data changed");
    Buf<R> p0(prev.box, at_end);
    p0.Set(prev0);
    Each<R>(target.box, [&](const Ix<R>& i) {
      double got = target.at(i);
      if (!In<R>(cells, i)) {
        if (!(got == before[static_cast<std::size_t>(target.off(i))]))
          c.fail(std::string(name) + ": cell " + pbt::list(i) + " outside of the updated region changed");
        return;
      }
      Ix<R> fr = i;
      fr[d] += 1;
      const double u = p0.at(i), fl = flux.at(i), f2 = flux.at(fr);
      const long double want = (long double)u + (long double)dt / dx * ((long double)fl - f2);
      const double tol = dyadic ? 0.0 : 8e-16 * (std::abs(u) + dt / dx * (std::abs(fl) + std::abs(f2)));
      if (!(std::abs((double)(got - want)) <= tol))
        c.fail(std::string(name) + ": cell " + pbt::list(i) + " is " + pbt::fmt(got) + ", expected " + pbt::fmt((double)want));
    });
    // the change of the total is the net flux through the outer faces
    for (int k = 0; k < ncomp; ++k) {
      long double change = 0, net = 0, mag = 0;
      Each<R>(cells, [&](const Ix<R>& i) {
        if (i[SR] != k)
          return;
        change += (long double)target.at(i) - p0.at(i);
        mag += std::abs(p0.at(i)) + dt / dx * std::abs(flux.at(i));
        if (i[d] == cells.lower[d])
          net += flux.at(i);
        if (i[d] == cells.upper[d] - 1) {
          Ix<R> fr = i;
          fr[d] += 1;
          net -= flux.at(fr);
          mag += dt / dx * std::abs(flux.at(fr));
        }
      });
      net *= (long double)dt / dx;
      if (!(std::abs((double)(change - net)) <= (dyadic ? 0.0 : 4e-15 * (double)mag)))
        c.fail(std::string(name) + ": component " + std::to_string(k) + " changes by " + pbt::fmt((double)change) + " but the net flux is " + pbt::fmt((double)net));
    }
  };
  backend(execution::seq, "sequential");
  backend(execution::simd, "simd");
  backend(execution::openmp, "openmp");
  backend(execution::openmp_simd, "openmp_simd");
  c.nontrivial(BoxSize<R>(cells) > 1);
  P w = cells.upper[0] - cells.lower[0];
  c.label(w % 8 == 0 ? "full chunks" : w < 8 ? "short rows" : "remainder");
}
PBT_PROP("update 1d", 60000, 600000) { Update<2>(c); }
PBT_PROP("update 2d", 30000, 300000) { Update<3>(c); }
PBT_PROP("update 3d", 12000, 120000) { Update<4>(c); }

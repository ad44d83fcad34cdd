// C14: scalar conservation laws: exact fluxes, maximum principle, conservation
#include "fx.hpp"
#include "fx_impl.hpp"
#include "fub/equations/Advection.hpp"
#include "fub/equations/Burgers.hpp"
#include <cmath>
namespace {
using namespace fx;
using Vec = std::vector<double>;
bool Scalar(const Method& m) { return m.family == "Advection2d" || m.family == "Burgers1d"; }
double Wave(const Method& m, double q, int dir) { return m.family == "Burgers1d" ? q : m.velocity[std::size_t(dir)]; }
/// Godunov's flux: the extremum of f between both values
double Exact(const Method& m, double l, double r, int dir) {
  if (m.family == "Advection2d")
    return m.velocity[std::size_t(dir)] > 0 ? m.velocity[std::size_t(dir)] * l : m.velocity[std::size_t(dir)] * r;
  const double fl = 0.5 * l * l, fr = 0.5 * r * r;
  if (l <= r)
    return l <= 0 && 0 <= r ? 0.0 : std::min(fl, fr);
  return std::max(fl, fr);
}
double Value(pbt::Case& c, const std::vector<double>& pool) {
  switch (c.below(4)) {
  case 0:
    return c.pick<double>({0.0, 1.0, -1.0, 2.0});
  case 1:
    return c.symmetric(3.0);
  default:
    return pool[c.below(pool.size())];
  }
}
void Fill(pbt::Case& c, Data& s) {
  std::vector<double> pool{0.0};
  for (int i = 0; i < 3; ++i)
    pool.push_back(c.symmetric(3.0));
  if (c.chance(1, 3)) // opposite values collide with speed zero
    pool.push_back(-pool.back());
  const double shift = c.pick<double>({0.0, 0.0, 5.0, -5.0});
  for (double& x : s.v)
    x = Value(c, pool) + shift;
}

void Flux(pbt::Case& c, Method& m) {
  const int dir = c.i(0, m.rank - 1);
  Data s, f;
  fx::Box faces, view;
  MakePatch(c, m, s, f, faces, view, dir);
  Fill(c, s);
  const Backend b = c.pick<Backend>({Seq, Simd, Default, OpenMp, OpenMpSimd});
  const double dx = c.pick<double>({1.0, 0.1});
  m.Fluxes(b, f, faces, s, view, 0.3 * dx / 10.0, dx, dir);
  c.note("velocity", pbt::list(m.velocity));
  c.note("dir, backend", pbt::fmt(dir) + " " + pbt::fmt(int(b)));
  bool jump = false;
  Each(faces, [&](std::array<P, 3> i) {
    auto j = i;
    j[dir] -= 1;
    const double l = s.at(0, j), r = s.at(0, i), ref = Exact(m, l, r, dir), got = f.at(0, i);
    jump = jump || l != r;
    if (m.family == "Burgers1d")
      c.label(l > r ? "shock" : (l < 0 && r > 0 ? "transonic fan" : "fan"));
    if (m.width == 1)
      c.checkf(std::abs(got - ref) <= 1e-13 * (std::abs(ref) + 1e-3), [&] { return "flux " + pbt::fmt(got) + " between " + pbt::fmt(l) + " and " + pbt::fmt(r) + " instead of " + pbt::fmt(ref); });
  });
  c.nontrivial(jump);
  fx::Box cells = faces;
  cells.first[dir] -= m.width;
  cells.second[dir] += m.width - 1;
  const double dt = m.StableDt(b, s, cells, dx, dir);
  double ref = std::numeric_limits<double>::infinity();
  Each(faces, [&](std::array<P, 3> i) {
    auto j = i;
    j[dir] -= 1;
    const double l = s.at(0, j), r = s.at(0, i);
    const double w = m.family == "Burgers1d" && r < l ? std::abs(0.5 * (l + r)) : std::max(std::abs(Wave(m, l, dir)), std::abs(Wave(m, r, dir)));
    ref = std::min(ref, dx / w);
  });
  if (std::isfinite(ref))
    c.rel(dt, ref, 1e-12, "stable time step", 0);
  else
    c.check(dt == ref, "stable time step without waves is " + pbt::fmt(dt));
}

void Exchange(Data& s, const fx::Box& inner, int width, int rank) {
  Each(Whole(s), [&](std::array<P, 3> i) {
    auto j = i;
    bool ghost = false;
    for (int r = 0; r < rank; ++r) {
      const P n = inner.second[r] - inner.first[r];
      while (j[r] < inner.first[r])
        j[r] += n, ghost = true;
      while (j[r] >= inner.second[r])
        j[r] -= n, ghost = true;
    }
    if (ghost)
      s.at(0, i) = s.at(0, j);
  });
  (void)width;
}

void History(pbt::Case& c, Method& m) {
  Data s;
  s.rank = m.rank;
  s.nc = 1;
  fx::Box inner{{0, 0, 0}, {1, 1, 1}};
  for (int r = 0; r < m.rank; ++r) {
    inner.first[r] = c.integer(-2, 2);
    inner.second[r] = inner.first[r] + 1 + P(c.below(r == 0 ? 14 : 5));
    s.lo[r] = inner.first[r] - m.width;
    s.n[r] = inner.second[r] - inner.first[r] + 2 * m.width;
  }
  s.alloc(0);
  Fill(c, s);
  const int steps = 1 + int(c.below(6));
  const double dx = c.pick<double>({1.0, 0.125});
  const bool tvd = m.width == 1 || m.family == "Advection2d"; // proven maximum principle
  double sum0 = 0, abs0 = 0;
  Each(inner, [&](std::array<P, 3> i) {
    sum0 += s.at(0, i);
    abs0 += std::abs(s.at(0, i));
  });
  c.note("velocity", pbt::list(m.velocity));
  c.note("cells", Str(inner));
  c.note("steps", steps);
  c.nontrivial(inner.second[0] - inner.first[0] > 2);
  std::string hist;
  for (int n = 0; n < steps; ++n) {
    const int dir = c.i(0, m.rank - 1);
    const Backend b = c.pick<Backend>({Seq, Simd, OpenMp, OpenMpSimd});
    Exchange(s, inner, m.width, m.rank);
    fx::Box cells = inner;
    cells.first[dir] -= m.width;
    cells.second[dir] += m.width;
    double cfl = c.pick<double>({1.0, 0.9, 0.5, 0.1});
    double dt = cfl * m.StableDt(b, s, cells, dx, dir);
    if (!std::isfinite(dt))
      dt = dx;
    Data f;
    f.rank = m.rank;
    f.nc = 1;
    f.lo = inner.first;
    fx::Box faces = inner;
    faces.second[dir] += 1;
    for (int r = 0; r < 3; ++r)
      f.n[r] = faces.second[r] - faces.first[r];
    f.alloc(0);
    m.Fluxes(b, f, faces, s, cells, dt, dx, dir);
    const Data old = s;
    hist += " " + std::to_string(dir) + "/" + std::to_string(int(b)) + "/" + pbt::fmt(cfl);
    double big = 0;
    Each(Whole(old), [&](std::array<P, 3> i) { big = std::max(big, std::abs(old.at(0, i))); });
    Each(inner, [&](std::array<P, 3> i) {
      auto j = i, k = i;
      j[dir] += 1;
      k[dir] -= 1;
      s.at(0, i) += dt / dx * (f.at(0, i) - f.at(0, j));
      const double lo = std::min({old.at(0, k), old.at(0, i), old.at(0, j)}), hi = std::max({old.at(0, k), old.at(0, i), old.at(0, j)});
      if (tvd)
        c.checkf(s.at(0, i) >= lo - 1e-12 * (1 + big) && s.at(0, i) <= hi + 1e-12 * (1 + big), [&] {
          c.note("history (direction/backend/CFL)", hist);
          return "step " + std::to_string(n) + ": cell " + pbt::list(i) + " becomes " + pbt::fmt(s.at(0, i)) + " outside of [" + pbt::fmt(lo) + ", " + pbt::fmt(hi) + "]";
        });
      if (m.family == "Advection2d" && m.width == 1) {
        const double nu = m.velocity[std::size_t(dir)] * dt / dx;
        const double up = nu > 0 ? old.at(0, k) : old.at(0, j);
        const double ref = old.at(0, i) + std::abs(nu) * (up - old.at(0, i));
        c.checkf(std::abs(s.at(0, i) - ref) <= 1e-12 * (1 + big), [&] { return "upwind transport: cell " + pbt::list(i) + " becomes " + pbt::fmt(s.at(0, i)) + " instead of " + pbt::fmt(ref); });
      }
    });
    double sum = 0;
    Each(inner, [&](std::array<P, 3> i) { sum += s.at(0, i); });
    c.checkf(std::abs(sum - sum0) <= 1e-11 * (1 + abs0 + big * double((inner.second[0] - inner.first[0]) * (inner.second[1] - inner.first[1]))), [&] {
      c.note("history (direction/backend/CFL)", hist);
      return "step " + std::to_string(n) + ": the total changes from " + pbt::fmt(sum0) + " to " + pbt::fmt(sum);
    });
  }
}
/// the Riemann solvers themselves, lane by lane
void Solver(pbt::Case& c) {
  using namespace fub;
  const auto val = [&] { return c.chance(1, 3) ? c.pick<double>({0.0, 1.0, -1.0}) : c.symmetric(2.0); };
  ExactRiemannSolver<Burgers1d> bs{Burgers1d{}};
  Advection2d adv{{val(), val()}};
  ExactRiemannSolver<Advection2d> as{adv};
  const int dir = c.i(0, 1);
  fub::Complete<Burgers1d> bl, br, bx;
  fub::Complete<Advection2d> al, ar, ax;
  CompleteArray<Burgers1d> bla, bra, bxa;
  CompleteArray<Advection2d> ala, ara, axa;
  std::vector<double> L, R;
  for (int l = 0; l < kDefaultChunkSize; ++l) {
    L.push_back(val());
    R.push_back(c.chance(1, 6) ? -L.back() : val());
    bla.u[l] = ala.mass[l] = L.back();
    bra.u[l] = ara.mass[l] = R.back();
  }
  c.note("left, right", pbt::list(L) + " " + pbt::list(R));
  c.nontrivial(true);
  bs.SolveRiemannProblem(bxa, bla, bra, Direction::X);
  as.SolveRiemannProblem(axa, ala, ara, Direction(dir));
  const auto bsig = bs.ComputeSignals(bla, bra, Direction::X);
  const auto asig = as.ComputeSignals(ala, ara, Direction(dir));
  for (int l = 0; l < kDefaultChunkSize; ++l) {
    bl.u = al.mass = L[std::size_t(l)];
    br.u = ar.mass = R[std::size_t(l)];
    bs.SolveRiemannProblem(bx, bl, br, Direction::X);
    as.SolveRiemannProblem(ax, al, ar, Direction(dir));
    const double v = adv.velocity[std::size_t(dir)];
    const double f = bl.u <= br.u ? (bl.u <= 0 && 0 <= br.u ? 0.0 : 0.5 * std::min(bl.u * bl.u, br.u * br.u)) : 0.5 * std::max(bl.u * bl.u, br.u * br.u);
    for (double u : {bx.u, bxa.u[l]}) {
      c.near(0.5 * u * u, f, 1e-14, "flux of the Burgers solution, lane " + std::to_string(l));
      c.check(u >= std::min(bl.u, br.u) && u <= std::max(bl.u, br.u), "the Burgers solution " + pbt::fmt(u) + " is not between its states");
    }
    for (double q : {ax.mass, axa.mass[l]})
      c.check(v == 0.0 || q == (v > 0 ? al.mass : ar.mass), "advection takes the wrong side: " + pbt::fmt(q) + " lane " + std::to_string(l));
    c.near(asig[0][l], v, 0, "signal of the advection");
    c.near(as.ComputeSignals(al, ar, Direction(dir))[0], v, 0, "signal of the advection");
    const double s = br.u < bl.u ? std::abs(0.5 * (bl.u + br.u)) : std::max(std::abs(bl.u), std::abs(br.u));
    c.near(std::abs(bsig[0][l]), s, 1e-14, "signal of Burgers' equation");
    c.near(std::abs(bs.ComputeSignals(bl, br, Direction::X)[0]), s, 1e-14, "signal of Burgers' equation");
  }
}
PBT_PROP("Riemann solvers", 20000, 400000) { Solver(c); }
pbt::Setup setup([] {
  const auto all = Registry();
  for (const Entry& e : all) {
    if (e.name.find("Advection") == std::string::npos && e.name.find("Burgers") == std::string::npos)
      continue;
    auto mk = e.make;
    for (auto& [what, body, n] : {std::make_tuple(std::string("fluxes"), &Flux, 20000L), std::make_tuple(std::string("histories"), &History, 20000L)}) {
      auto bd = body;
      pbt::registry().push_back(pbt::Prop{what + ": " + e.name, n, 20 * n, [mk, bd](pbt::Case& c) {
                                            auto m = mk(c);
                                            bd(c, *m);
                                          }});
    }
  }
});
} // namespace

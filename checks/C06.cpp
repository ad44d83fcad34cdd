// C06: the stable time step bounds all waves of all faces of a patch
#include "fx.hpp"
#include <cmath>
namespace {
using namespace fx;
/// signed normal velocity
double NormalU(const Method& m, const std::vector<double>& q, int dir) {
  if (m.family == "Advection2d")
    return m.velocity[std::size_t(dir)];
  if (m.family == "Burgers1d")
    return q[0];
  for (int k = 0; k < m.ncons; ++k)
    if (m.comps[std::size_t(k)].kind == Momentum && m.comps[std::size_t(k)].d == dir)
      return q[std::size_t(k)] / q[0];
  throw std::logic_error("no momentum");
}
bool Gas(const Method& m) { return m.family != "Advection2d" && m.family != "Burgers1d"; }

void Cfl(pbt::Case& c, Method& m) {
  const int dir = c.i(0, m.rank - 1);
  Data s, f;
  Box faces, view;
  MakePatch(c, m, s, f, faces, view, dir);
  Field fd = FillStates(c, m, s, c.pick<double>({0.0, 1e-3, 0.15, 0.5, 1.5}));
  // one cell of the stencils may be much faster than all others
  Box cells = faces;
  cells.first[dir] -= m.width;
  cells.second[dir] += m.width - 1;
  const bool planted = Gas(m) ? c.chance(2, 3) : c.boolean();
  std::array<P, 3> where = cells.first;
  for (int r = 0; r < 3; ++r)
    where[r] += P(c.below(uint64_t(cells.second[r] - cells.first[r])));
  if (planted) {
    const double up = c.pick<double>({3.0, 5.0, -4.0, 0.0});
    double a = 1.0;
    if (Gas(m)) {
      a = m.Speeds(m.FromPrim(fd.base), dir)[1];
      if (m.exact_signals) { // the exact solvers are not made for vacuum
        Each(cells, [&](std::array<P, 3> i) { a = std::min(a, m.Speeds(s.get(i), dir)[1]); });
        a *= 0.5;
      }
    }
    auto w = fd.base;
    if (m.family == "Burgers1d")
      w[0] += up;
    else if (Gas(m))
      w[std::size_t(dir) + 1] += a * up;
    s.set(where, m.FromPrim(w));
  }
  if (m.exact_signals) // no vacuum (and not nearly one) between two states
    Each(faces, [&](std::array<P, 3> i) {
      auto j = i;
      j[dir] -= 1;
      const auto L = s.get(j), R = s.get(i);
      const double du = NormalU(m, R, dir) - NormalU(m, L, dir);
      if (getenv("DBG")) fprintf(stderr,"L %g %g %g R %g %g %g gamma %g du %g lim %g\n",L[0],L[1],L[2],R[0],R[1],R[2],m.gamma,du,2.0 * (m.Speeds(L, dir)[1] + m.Speeds(R, dir)[1]) / (m.family == "PerfectGas" ? m.gamma - 1.0 : 1.0));
      if (du >= 0.9 * 2.0 * (m.Speeds(L, dir)[1] + m.Speeds(R, dir)[1]) / (m.family == "PerfectGas" ? m.gamma - 1.0 : 1.0))
        throw pbt::Discard{};
    });
  const double dx = c.pick<double>({1.0, 0.5, 0.01, 3.0, 1e-4});
  Backend b = m.seq ? (m.has_simd_dt ? c.pick<Backend>({Seq, Simd, Default, OpenMp, OpenMpSimd}) : c.pick<Backend>({Seq, Default, OpenMp})) : c.pick<Backend>({Simd, OpenMpSimd});
  const bool vec = b == Simd || b == OpenMpSimd;
  const double dt = m.StableDt(b, s, cells, dx, dir);
  c.note("faces", Str(faces));
  c.note("dir", dir);
  c.note("backend", int(b));
  c.note("fast cell", planted ? pbt::list(where) : std::string("none"));
  c.label(vec ? "vectorised" : "scalar");
  c.nontrivial((cells.second[0] - cells.first[0]) * (cells.second[1] - cells.first[1]) > 2 * m.width);
  c.check(dt > 0 && !std::isnan(dt), "time step " + pbt::fmt(dt) + " is not positive");
  const double rt = 10 * m.tol;
  // (1) minimum over the faces and (2) lower bound of every face's speed
  double best = std::numeric_limits<double>::infinity();
  Each(faces, [&](std::array<P, 3> i) {
    std::vector<std::vector<double>> st;
    for (int k = 0; k < 2 * m.width; ++k) {
      auto j = i;
      j[dir] += k - m.width;
      st.push_back(s.get(j));
    }
    const double one = m.FaceDt(vec ? Simd : Seq, st, dx, dir);
    best = std::min(best, one);
    const auto &L = st[std::size_t(m.width - 1)], &R = st[std::size_t(m.width)];
    const double uL = NormalU(m, L, dir), uR = NormalU(m, R, dir);
    double low = 0, high = std::numeric_limits<double>::infinity();
    if (Gas(m)) {
      const auto vL = m.Speeds(L, dir), vR = m.Speeds(R, dir);
      // the fastest waves of the Riemann problem are at least as fast as the
      // outer acoustic waves of its states
      low = std::max(-(uL - vL[1]), uR + vR[1]);
      const double tang = std::max(vL[2], vR[2]);
      const double amax = std::max(vL[1], vR[1]);
      const double du = uR - uL;
      // the Roe averaged speed of sound may contain the kinetic energies
      high = std::max(std::abs(uL), std::abs(uR)) + std::sqrt(amax * amax + 0.5 * tang * tang + 0.25 * du * du);
    } else if (m.family == "Burgers1d") {
      low = high = uR < uL ? std::abs(0.5 * (uL + uR)) : std::max(std::abs(uL), std::abs(uR));
    } else
      low = high = std::abs(uL);
    if (low > 0)
      c.checkf(one * low <= dx * (1.0 + rt), [&] { return "time step " + pbt::fmt(one) + " of face " + pbt::list(i) + " exceeds dx/" + pbt::fmt(low); });
    const bool exact_riemann = m.exact_signals;
    if (!exact_riemann && high > 0 && std::isfinite(high))
      c.checkf(one * high >= dx * (1.0 - rt), [&] { return "time step " + pbt::fmt(one) + " of face " + pbt::list(i) + " is needlessly smaller than dx/" + pbt::fmt(high); });
    if (L == R) {
      const auto v = m.Speeds(L, dir);
      if (Gas(m)) {
        const double speed = std::abs(uL) + v[1], slack = std::abs(uL) + std::sqrt(v[1] * v[1] + 0.5 * (v[2] * v[2] - uL * uL > 0 ? v[2] * v[2] - uL * uL : 0.0));
        c.checkf(one * speed <= dx * (1 + rt) && one * slack >= dx * (1 - rt),
                 [&] { return "uniform states: time step " + pbt::fmt(one) + " but |u|+c = " + pbt::fmt(speed) + " dx = " + pbt::fmt(dx); });
      }
    }
  });
  if (std::isfinite(best))
    c.rel(dt, best, rt, "time step of the patch vs minimum over its faces", 0);
  else
    c.check(dt == best, "time step " + pbt::fmt(dt) + " but no face has a wave");
  // (3) every cell between two faces of the patch
  if (Gas(m))
    Each(faces, [&](std::array<P, 3> i) {
      if (i[dir] + 1 >= faces.second[dir])
        return;
      auto q = s.get(i);
      const auto v = m.Speeds(q, dir);
      c.checkf(dt * (v[0] + v[1]) <= dx * (1 + rt), [&] { return "cell " + pbt::list(i) + ": dt (|u|+c) = " + pbt::fmt(dt * (v[0] + v[1])) + " > dx = " + pbt::fmt(dx); });
    });
  // (4) linear in the mesh width
  const double dt2 = m.StableDt(b, s, cells, 4.0 * dx, dir);
  if (std::isfinite(dt))
    c.rel(dt2, 4.0 * dt, 1e-9, "time step for four times the mesh width", 0);
  // (5) a part of the patch is not more restrictive
  Box part = cells;
  for (int r = 0; r < m.rank; ++r) {
    const P n = part.second[r] - part.first[r], need = r == dir ? 2 * m.width : 1;
    const P a = P(c.below(uint64_t(n - need + 1)));
    const P e = P(c.below(uint64_t(n - need - a + 1)));
    part.first[r] += a;
    part.second[r] -= e;
  }
  const double dtp = m.StableDt(b, s, part, dx, dir);
  c.checkf(dtp >= dt * (1.0 - rt), [&] { return "the part " + Str(part) + " allows " + pbt::fmt(dtp) + " but the patch " + pbt::fmt(dt); });
}
pbt::Setup setup([] { ForAllMethods("stable time step", 3000, 60000, Cfl); });
} // namespace

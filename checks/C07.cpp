// C07: fluxes of uniform stencils are the physical flux
#include "fx.hpp"
#include <cmath>
namespace {
using namespace fx;
bool IsGas(const Method& m) { return m.family == "PerfectGas" || m.family == "PerfectGasMix" || m.family == "IdealGasMix"; }

/// the textbook flux of the conserved variables q
std::vector<double> Textbook(const Method& m, const std::vector<double>& q, double p, int dir) {
  std::vector<double> f(static_cast<std::size_t>(m.ncons));
  if (m.family == "Advection2d") {
    f[0] = m.velocity[std::size_t(dir)] * q[0];
    return f;
  }
  if (m.family == "Burgers1d") {
    f[0] = 0.5 * q[0] * q[0];
    return f;
  }
  double u = 0;
  for (int k = 0; k < m.ncons; ++k)
    if (m.comps[std::size_t(k)].kind == Momentum && m.comps[std::size_t(k)].d == dir)
      u = q[std::size_t(k)] / q[0];
  for (std::size_t k = 0; k < f.size(); ++k) {
    f[k] = u * q[k];
    if (m.comps[k].kind == Momentum && m.comps[k].d == dir)
      f[k] += p;
    if (m.comps[k].kind == Energy)
      f[k] += u * p;
  }
  return f;
}
double Pressure(const Method& m, const std::vector<double>& prim) {
  if (IsGas(m))
    return prim[std::size_t(m.rank) + 1];
  if (m.family == "ShallowWater")
    return 0.5 * m.gamma * prim[0] * prim[0];
  return 0;
}
double Tol(const Method& m) { return m.family == "IdealGasMix" ? 1e-9 : 1e-11; }

void Compare(pbt::Case& c, Method& m, const std::vector<double>& got, const std::vector<double>& ref, const std::vector<double>& scale, const std::string& what) {
  for (std::size_t k = 0; k < ref.size(); ++k)
    c.checkf(std::abs(got[k] - ref[k]) <= Tol(m) * scale[k], [&] {
      return what + ": component " + std::to_string(k) + " is " + pbt::fmt(got[k]) + " but the physical flux is " + pbt::fmt(ref[k]) + " (scale " + pbt::fmt(scale[k]) + ")";
    });
}

void Physical(pbt::Case& c, Method& m) {
  const int dir = c.i(0, m.rank - 1);
  Field f = m.MakeField(c, c.pick<double>({0.0, 0.3, 1.5}));
  const auto prim = m.Perturb(c, f);
  const auto q = m.FromPrim(prim);
  const auto ref = Textbook(m, q, Pressure(m, prim), dir);
  const auto scale = m.Scale(q);
  c.note("state", pbt::list(q));
  c.note("dir", dir);
  bool moving = false;
  for (double x : ref)
    moving = moving || x != 0.0;
  c.nontrivial(moving);
  Compare(c, m, m.PhysFlux(q, dir), ref, scale, "physical flux (scalar)");
  const int lane = c.i(0, 7);
  Compare(c, m, m.PhysFluxSimd(q, dir, lane), ref, scale, "physical flux (vectorised, lane " + std::to_string(lane) + ")");
}

void Uniform(pbt::Case& c, Method& m) {
  const int dir = c.i(0, m.rank - 1);
  Data s, f;
  Box faces, view;
  MakePatch(c, m, s, f, faces, view, dir);
  Field fd = m.MakeField(c, c.pick<double>({0.0, 0.3, 1.5}));
  const auto prim = m.Perturb(c, fd);
  const auto q = m.FromPrim(prim);
  Each(Whole(s), [&](std::array<P, 3> i) { s.set(i, q); });
  const auto v = m.Speeds(q, dir);
  const double dx = c.pick<double>({1.0, 0.01, 7.0});
  const double speed = v[0] + v[1];
  const double dt = speed > 0 ? dx / speed * c.pick<double>({0.0, 0.1, 0.5, 1.0}) : dx;
  const Backend b = m.seq ? c.pick<Backend>({Seq, Simd, Default, OpenMp, OpenMpSimd}) : c.pick<Backend>({Simd, OpenMpSimd});
  const auto ref = Textbook(m, q, Pressure(m, prim), dir);
  const auto scale = m.Scale(q);
  c.note("state", pbt::list(q));
  c.note("faces", Str(faces));
  c.note("dir", dir);
  c.note("backend", int(b));
  c.note("dt/dx", dt / dx);
  c.label(b == Simd || b == OpenMpSimd ? "vectorised" : "scalar");
  bool moving = false;
  for (double x : ref)
    moving = moving || x != 0.0;
  c.nontrivial(moving);
  m.Fluxes(b, f, faces, s, view, dt, dx, dir);
  Each(faces, [&](std::array<P, 3> i) { Compare(c, m, f.get(i), ref, scale, "face " + pbt::list(i)); });
  if (m.masked && c.chance(1, 4)) {
    // all lanes of a chunk with open faces carry their own uniform state
    c.label("masked");
    std::vector<std::vector<double>> states;
    std::vector<std::vector<double>> prims;
    for (int l = 0; l < 8; ++l) {
      prims.push_back(m.Perturb(c, fd));
      states.push_back(m.FromPrim(prims.back()));
    }
    std::vector<std::vector<std::vector<double>>> st(std::size_t(2 * m.width), states);
    std::vector<double> face(8, 1.0);
    std::vector<std::vector<double>> vol(std::size_t(2 * m.width), std::vector<double>(8, 1.0));
    for (int l = 0; l < 8; ++l)
      face[std::size_t(l)] = c.pick<double>({1.0, 0.25, 0.0});
    auto r = m.Masked(st, face, vol, 0.3 * dt, dx, dir);
    for (int l = 0; l < 8; ++l)
      if (face[std::size_t(l)] > 0)
        Compare(c, m, r[std::size_t(l)], Textbook(m, states[std::size_t(l)], Pressure(m, prims[std::size_t(l)]), dir), m.Scale(states[std::size_t(l)]), "masked flux of lane " + std::to_string(l));
  }
}
pbt::Setup setup([] {
  ForAllMethods("uniform stencil", 3000, 60000, Uniform);
  ForAllMethods("physical flux", 1500, 30000, Physical);
});
} // namespace

// C08: mirrored and permuted stencils yield mirrored and permuted fluxes
#include "fx.hpp"
#include <cmath>
namespace {
using namespace fx;
using Vec = std::vector<double>;
struct Stencil {
  std::vector<Vec> prim, full;
  Vec scale;
  double smax{1e-300};
  bool uniform{true};
};
Stencil Draw(pbt::Case& c, Method& m, int dir) {
  Stencil s;
  Field f = m.MakeField(c, c.pick<double>({0.0, 1e-3, 0.05, 0.15, 0.5, 1.5}));
  s.scale.assign(std::size_t(m.ncons), 0.0);
  const int mode = c.i(0, 2);
  const int jump = c.i(1, 2 * m.width - 1);
  Vec a, b;
  for (int k = 0; k < 2 * m.width; ++k) {
    Vec w;
    if (mode == 0) // two constant states
      w = k < jump ? (a.empty() ? a = m.Perturb(c, f) : a) : (b.empty() ? b = m.Perturb(c, f) : b);
    else
      w = m.Perturb(c, f);
    s.prim.push_back(w);
    s.full.push_back(m.FromPrim(w));
    const auto sc = m.Scale(s.full.back());
    for (int i = 0; i < m.ncons; ++i)
      s.scale[std::size_t(i)] = std::max(s.scale[std::size_t(i)], sc[std::size_t(i)]);
    for (int d = 0; d < m.rank; ++d) {
      const auto v = m.Speeds(s.full.back(), d);
      s.smax = std::max(s.smax, v[0] + v[1]);
    }
    s.uniform = s.uniform && s.full.back() == s.full.front();
  }
  (void)dir;
  return s;
}
bool Gas(const Method& m) { return m.family != "Advection2d" && m.family != "Burgers1d"; }
int U(const Method& m, int d) { return Gas(m) ? d + 1 : 0; }

void NoVacuum(Method& m, const Stencil& s, int dir) {
  if (!m.exact_signals)
    return;
  for (std::size_t k = 1; k < s.full.size(); ++k) {
    const double du = s.prim[k][std::size_t(U(m, dir))] - s.prim[k - 1][std::size_t(U(m, dir))];
    const double a = m.Speeds(s.full[k], dir)[1] + m.Speeds(s.full[k - 1], dir)[1];
    if (du >= 0.5 * 2.0 * a / (m.family == "PerfectGas" ? m.gamma - 1.0 : 1.0))
      throw pbt::Discard{};
  }
}
std::string Show(const std::vector<Vec>& v) {
  std::string s;
  for (const auto& q : v)
    s += " " + pbt::list(q);
  return s;
}

void Mirror(pbt::Case& c, Method& m) {
  if (m.family == "Advection2d")
    throw pbt::Discard{};
  const int dir = c.i(0, m.rank - 1);
  const Stencil s = Draw(c, m, dir);
  NoVacuum(m, s, dir);
  std::vector<Vec> mir;
  for (auto it = s.prim.rbegin(); it != s.prim.rend(); ++it) {
    Vec w = *it;
    w[std::size_t(U(m, dir))] *= -1.0;
    mir.push_back(m.FromPrim(w));
  }
  const Backend b = m.seq && c.boolean() ? Seq : Simd;
  const double dx = c.pick<double>({1.0, 0.01});
  const double dt = c.pick<double>({0.0, 0.1, 0.4}) * dx / s.smax;
  c.note("stencil", Show(s.full));
  c.note("mirrored", Show(mir));
  c.note("dir, backend", pbt::fmt(dir) + " " + pbt::fmt(int(b)));
  c.note("dt, dx", pbt::fmt(dt) + " " + pbt::fmt(dx));
  c.label(b == Seq ? "scalar" : "vectorised");
  c.nontrivial(!s.uniform);
  const Vec f = m.Face(b, s.full, dt, dx, dir), g = m.Face(b, mir, dt, dx, dir);
  for (std::size_t k = 0; k < f.size(); ++k) {
    const bool normal = (m.comps[k].kind == Momentum && m.comps[k].d == dir) || !Gas(m);
    const double ref = normal ? f[k] : -f[k];
    c.checkf(std::isfinite(f[k]) && std::abs(g[k] - ref) <= m.tol * s.scale[k], [&] {
      return "component " + std::to_string(k) + ": flux " + pbt::fmt(f[k]) + ", flux of the mirrored stencil " + pbt::fmt(g[k]) + " (scale " + pbt::fmt(s.scale[k]) + ")";
    });
  }
  if (b == Seq || m.has_simd_dt) {
    const double t = m.FaceDt(b, s.full, dx, dir), u = m.FaceDt(b, mir, dx, dir);
    if (std::isfinite(t) && std::isfinite(u))
      c.rel(u, t, 10 * m.tol, "stable time step of the mirrored stencil", 0);
    else
      c.check(t == u, "stable time step " + pbt::fmt(t) + " mirrored " + pbt::fmt(u));
  }
}

void Permute(pbt::Case& c, Method& m) {
  if (m.rank < 2 || !Gas(m))
    throw pbt::Discard{};
  // a permutation of the axes: component d of the velocity moves to perm[d]
  std::array<int, 3> perm{0, 1, 2};
  for (int i = m.rank - 1; i > 0; --i)
    std::swap(perm[std::size_t(i)], perm[std::size_t(c.i(0, i))]);
  const int dir = c.i(0, m.rank - 1), to = perm[std::size_t(dir)];
  const Stencil s = Draw(c, m, dir);
  NoVacuum(m, s, dir);
  std::vector<Vec> per;
  for (const auto& p : s.prim) {
    Vec w = p;
    for (int d = 0; d < m.rank; ++d)
      w[std::size_t(perm[std::size_t(d)] + 1)] = p[std::size_t(d + 1)];
    per.push_back(m.FromPrim(w));
  }
  const Backend b = m.seq && c.boolean() ? Seq : Simd;
  const double dx = c.pick<double>({1.0, 0.01});
  const double dt = c.pick<double>({0.0, 0.1, 0.4}) * dx / s.smax;
  c.note("stencil", Show(s.full));
  c.note("permutation", pbt::list(perm));
  c.note("dir, backend", pbt::fmt(dir) + " " + pbt::fmt(int(b)));
  c.note("dt, dx", pbt::fmt(dt) + " " + pbt::fmt(dx));
  c.label(b == Seq ? "scalar" : "vectorised");
  c.nontrivial(perm != std::array<int, 3>{0, 1, 2});
  const Vec f = m.Face(b, s.full, dt, dx, dir), g = m.Face(b, per, dt, dx, to);
  std::vector<int> where(f.size());
  for (std::size_t k = 0; k < f.size(); ++k) {
    where[k] = int(k);
    if (m.comps[k].kind == Momentum)
      for (std::size_t j = 0; j < f.size(); ++j)
        if (m.comps[j].kind == Momentum && m.comps[j].d == perm[std::size_t(m.comps[k].d)])
          where[k] = int(j);
  }
  for (std::size_t k = 0; k < f.size(); ++k)
    c.checkf(std::isfinite(f[k]) && std::abs(g[std::size_t(where[k])] - f[k]) <= m.tol * s.scale[k], [&] {
      return "component " + std::to_string(k) + ": flux " + pbt::fmt(f[k]) + ", along the permuted axis " + pbt::fmt(g[std::size_t(where[k])]) + " (scale " + pbt::fmt(s.scale[k]) + ")";
    });
  if (b == Seq || m.has_simd_dt)
    c.rel(m.FaceDt(b, per, dx, to), m.FaceDt(b, s.full, dx, dir), 10 * m.tol, "stable time step along the permuted axis", 0);
}
pbt::Setup setup([] {
  const auto all = Registry();
  auto add = [](const std::string& what, const Entry& e, double q, double t, void (*body)(pbt::Case&, Method&)) {
    auto mk = e.make;
    pbt::registry().push_back(pbt::Prop{what + ": " + e.name, std::max<long>(20, long(q * e.weight)), std::max<long>(20, long(t * e.weight)), [mk, body](pbt::Case& c) {
                                          auto m = mk(c);
                                          body(c, *m);
                                        }});
  };
  for (const Entry& e : all) {
    if (e.name.find("Advection") == std::string::npos) {
      add("mirror", e, 3000, 60000, Mirror);
      if (e.name.find("<1>") == std::string::npos && e.name.find("1d") == std::string::npos)
        add("permute", e, 3000, 60000, Permute);
    }
  }
});
} // namespace

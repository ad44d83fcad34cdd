// C31: properties of complete solver runs
#include "C31.hpp"
#include "riemann.hpp"
#include <boost/log/core.hpp>
namespace {
using namespace sr;

struct Problem {
  Setup s;
  RunConfig k;
  Data q;
  std::vector<std::vector<double>> states;
};
std::vector<double> Mirrored(const fx::Method& m, std::vector<double> q, int d) {
  for (std::size_t k = 0; k < m.comps.size(); ++k)
    if (m.comps[k].kind == fx::Momentum && m.comps[k].d == d)
      q[k] = -q[k];
  return q;
}
Backend DrawBackend(pbt::Case& c, const fx::Method& m) {
  const Backend b = c.pick<Backend>({fx::Seq, fx::Simd, fx::OpenMp, fx::OpenMpSimd, fx::Default});
  if (m.seq)
    return b;
  return b == fx::OpenMpSimd ? b : fx::Simd;
}
const char* Name(Backend b) {
  static const char* n[] = {"seq", "simd", "default", "openmp", "openmp_simd"};
  return n[b];
}
// Random cells or two constant states. Second-order schemes are not positive
// for any data: the variation is small compared with the internal energy.
// Flow off a wall would leave a vacuum behind.
void Fill(pbt::Case& c, fx::Method& m, Data& q, double amp, const std::array<Bc, 3>& bc) {
  fx::Field f = m.MakeField(c, amp);
  for (int d = 0; d < m.rank; ++d)
    if (bc[d] == Wall) {
      const auto v = m.Speeds(m.FromPrim(f.base), d);
      const double most = (m.first_order ? 0.8 : 0.2) * v[1];
      if (std::abs(v[0]) > most)
        f.base[std::size_t(1 + d)] *= most / std::abs(v[0]);
    }
  if (!m.first_order) {
    double mach = 0;
    const auto base = m.FromPrim(f.base);
    for (int d = 0; d < m.rank; ++d) {
      const auto v = m.Speeds(base, d);
      mach = std::max(mach, v[2] / std::max(v[1], 1e-300));
    }
    f.amp /= 1 + (std::isfinite(mach) ? std::min(mach * mach, 1e4) : 0);
  }
  std::vector<std::vector<double>> st;
  const int k = 1 + int(c.below(6));
  for (int i = 0; i < k; ++i)
    st.push_back(m.State(c, f));
  const bool jump = c.chance(1, 3);
  pbt::Rng rng{static_cast<uint64_t>(c.below(1 << 20))};
  const P at = c.integer(0, q.n[0]);
  fx::Each(fx::Whole(q), [&](I3 i) { q.set(i, st[jump ? (i[0] < at ? 0 : st.size() - 1) : rng.next() % st.size()]); });
}
// small grids, sometimes with fewer cells than ghost cells
Problem Draw(pbt::Case& c, fx::Method& m, double amp, const std::array<Bc, 3>& bc, bool uniform = false) {

  Problem p;
  p.s.method = &m;
  p.s.rank = m.rank;
  p.s.bc = bc;
  p.s.backend = DrawBackend(c, m);
  const P big = m.rank == 1 ? 24 : m.rank == 2 ? 9 : 5;
  for (int d = 0; d < m.rank; ++d) {
    p.s.n[d] = c.chance(1, 8) ? c.integer(1, 3) : c.integer(3, big);
    p.s.dx[d] = c.chance(1, 2) ? 1.0 : c.logreal(1e-1, 1e1);
  }
  p.k.split = int(c.below(3));
  p.k.subcycle = c.boolean();
  p.k.cfl = m.first_order ? c.pick<double>({0.5, 0.3, 0.45}) : c.pick<double>({0.4, 0.5, 0.2});
  p.k.max_cycles = c.i(1, m.rank == 1 ? 12 : m.rank == 2 ? 6 : 3);
  if (m.width > 2) { // the unlimited third-order scheme lives on physical viscosity
    p.k.max_cycles = std::min(p.k.max_cycles, 3L);
    p.k.cfl = 0.2;
  }
  p.q.rank = m.rank;
  p.q.nc = m.ncomp;
  p.q.n = p.s.n;
  p.q.alloc(0);
  if (uniform) {
    fx::Field f = m.MakeField(c, 0.0);
    const auto q = m.FromPrim(f.base);
    p.states.push_back(q);
    fx::Each(fx::Whole(p.q), [&](I3 i) { p.q.set(i, q); });
  } else
    Fill(c, m, p.q, amp, bc);
  c.note("cells", pbt::list(p.s.n));
  c.note("backend", Name(p.s.backend));
  c.note("split", p.k.split);
  c.note("cycles", p.k.max_cycles);
  return p;
}
double Amp(const fx::Method& m) { return m.first_order ? 0.25 : 0.08; }
bool Different(const Data& q) {
  for (int k = 0; k < q.nc; ++k)
    for (P j = 1; j < q.cells(); ++j)
      if (q.v[std::size_t(k * q.cells() + j)] != q.v[std::size_t(k * q.cells())])
        return true;
  return false;
}
// largest size of each conserved quantity and its flux
std::vector<double> Sizes(fx::Method& m, const Data& q) {
  std::vector<double> s(std::size_t(m.ncons), 0.0);
  double mom = 0, kin = 0;
  fx::Each(fx::Whole(q), [&](I3 i) {
    const auto x = q.get(i);
    for (int k = 0; k < m.ncons; ++k)
      s[std::size_t(k)] = std::max(s[std::size_t(k)], std::abs(x[std::size_t(k)]));
    double sp = 0;
    for (int d = 0; d < m.rank; ++d) {
      const auto v = m.Speeds(x, d);
      sp = std::max(sp, std::abs(v[0]) + v[1]);
    }
    mom = std::max(mom, std::abs(x[0]) * sp);
    kin = std::max(kin, 3 * std::abs(x[0]) * sp * sp);
  });
  for (int k = 0; k < m.ncons; ++k) {
    if (m.comps[std::size_t(k)].kind == fx::Momentum)
      s[std::size_t(k)] = std::max(s[std::size_t(k)], mom);
    if (m.comps[std::size_t(k)].kind == fx::Energy)
      s[std::size_t(k)] = std::max(s[std::size_t(k)], kin);
    if (m.comps[std::size_t(k)].kind == fx::Species || m.comps[std::size_t(k)].kind == fx::Scalar)
      s[std::size_t(k)] = std::max(s[std::size_t(k)], 1e-3 * s[0]);
  }
  return s;
}
// may two evaluations of the same flux differ by more than rounding errors?
double Noise(const fx::Method& m) { return m.tol; }

std::vector<long double> Totals(const fx::Method& m, const Data& q) {
  std::vector<long double> t(std::size_t(m.ncons), 0);
  fx::Each(fx::Whole(q), [&](I3 i) {
    for (int k = 0; k < m.ncons; ++k)
      t[std::size_t(k)] += q.at(k, i);
  });
  return t;
}
void Admissible(pbt::Case& c, fx::Method& m, const Data& q) {
  fx::Each(fx::Whole(q), [&](I3 i) {
    const auto x = q.get(i);
    for (double v : x)
      c.checkf(std::isfinite(v), [&] { return "cell " + pbt::list(i) + " is not finite: " + pbt::list(x); });
    bool gas = false;
    for (int k = 0; k < m.ncons; ++k) {
      if (m.comps[std::size_t(k)].kind == fx::Mass && m.ncons > 1)
        c.checkf(x[std::size_t(k)] > 0, [&] { return "cell " + pbt::list(i) + " has no mass: " + pbt::list(x); });
      gas = gas || m.comps[std::size_t(k)].kind == fx::Energy;
    }
    if (gas) {
      const auto v = m.Speeds(x, 0);
      c.checkf(v[1] > 0, [&] { return "cell " + pbt::list(i) + " has no pressure: " + pbt::list(x); });
      // what is published belongs together
      const auto y = m.Complete(std::vector<double>(x.begin(), x.begin() + m.ncons));
      for (std::size_t k = std::size_t(m.ncons); k < x.size(); ++k)
        c.checkf(std::abs(x[k] - y[k]) <= 1e-6 * std::max(std::abs(x[k]), std::abs(y[k])), [&] {
          return "cell " + pbt::list(i) + " is published with component " + std::to_string(k) + " = " + pbt::fmt(x[k]) + " but its conserved variables mean " + pbt::fmt(y[k]);
        });
    }
  });
}

void Conservation(pbt::Case& c, fx::Method& m, bool walls) {
  std::array<Bc, 3> bc{Periodic, Periodic, Periodic};
  if (walls) {
    for (int d = 0; d < m.rank; ++d)
      bc[d] = c.boolean() ? Wall : Periodic;
    bc[c.below(uint64_t(m.rank))] = Wall;
  }
  const bool closed = walls;
  Problem p = Draw(c, m, Amp(m), bc);
  const auto t0 = Totals(m, p.q);
  const auto size = Sizes(m, p.q);
  // vectorised and sequential evaluations of periodic images may sit in different lanes
  const bool exact = p.s.backend == fx::Seq || p.s.backend == fx::OpenMp || p.s.backend == fx::Default;
  long outputs = 0;
  const double N = double(p.q.cells());
  p.k.each = [&](const Grid& g) {
    ++outputs;
    Admissible(c, m, g.data);
    const auto t = Totals(m, g.data);
    for (int k = 0; k < m.ncons; ++k) {
      const auto& kind = m.comps[std::size_t(k)];
      if (closed && kind.kind == fx::Momentum && p.s.bc[kind.d] == Wall)
        continue;
      // the temperature of a reacting mixture is found by iteration
      const bool iterated = m.family == "IdealGasMix" && kind.kind == fx::Energy;
      const double tol = (exact && !closed && !iterated ? 1e-13 : 0.1 * Noise(m)) * double(g.cycles + 1) * 3 * size[std::size_t(k)] * N;
      c.near(double(t[std::size_t(k)]), double(t0[std::size_t(k)]), tol, "total of component " + std::to_string(k) + " after " + std::to_string(g.cycles) + " steps");
    }
  };
  const Result_ r = Run(p.s, p.q, p.k);
  if (m.ncons > 1)
    c.equal(long(r.cycles), p.k.max_cycles, "number of steps");
  c.check(m.ncons == 1 || outputs >= p.k.max_cycles, "number of outputs");
  c.nontrivial(Different(p.q) && r.time > 0);
}

void Uniform(pbt::Case& c, fx::Method& m) {
  std::array<Bc, 3> bc{Periodic, Periodic, Periodic};
  for (int d = 0; d < m.rank; ++d)
    bc[d] = c.boolean() ? Periodic : Open;
  Problem p = Draw(c, m, 0.0, bc, true);
  const auto q0 = p.states[0];
  const auto size = Sizes(m, p.q);
  p.k.max_cycles *= 2;
  const Result_ r = Run(p.s, p.q, p.k);
  const auto e = m.Speeds(q0, 0);
  // differences of kinetic and total energy
  const double mach = 1 + std::pow(e[2] / std::max(1e-300, e[1]), 2);
  fx::Each(fx::Whole(r.data), [&](I3 i) {
    for (int k = 0; k < m.ncons; ++k)
      c.near(r.data.at(k, i), q0[std::size_t(k)], 0.01 * Noise(m) * mach * double(r.cycles) * size[std::size_t(k)], "uniform flow, component " + std::to_string(k) + " of cell " + pbt::list(i));
  });
  c.nontrivial(r.time > 0 && e[2] > 0);
}

// runs of the same problem seen from somewhere else
void Symmetry(pbt::Case& c, fx::Method& m) {
  std::array<Bc, 3> bc{Periodic, Periodic, Periodic};
  for (int e = 0; e < m.rank; ++e)
    bc[e] = m.width > 2 ? Periodic : c.pick<Bc>({Periodic, Wall, Open});
  Problem p = Draw(c, m, Amp(m) * 0.5, bc);
  const int d = int(c.below(uint64_t(m.rank)));
  const bool shift = p.s.bc[d] == Periodic && c.boolean();
  const P k = shift ? c.integer(0, p.s.n[d] - 1) : 0;
  const bool other = !shift && c.chance(1, 3); // another back-end instead of another view
  c.label(shift ? "shifted" : other ? "other back-end" : "mirrored");
  auto image = [&](I3 i) {
    if (shift)
      i[d] = (i[d] + k) % p.s.n[d];
    else if (!other)
      i[d] = p.s.n[d] - 1 - i[d];
    return i;
  };
  bool gas = false; // only momentum changes under mirroring
  gas = m.ncons > 1;
  if (!gas && !shift && !other)
    throw pbt::Discard{};
  Problem q = p;
  fx::Each(fx::Whole(p.q), [&](I3 i) { q.q.set(image(i), shift || other ? p.q.get(i) : Mirrored(m, p.q.get(i), d)); });
  if (other)
    q.s.backend = DrawBackend(c, m);
  const auto size = Sizes(m, p.q);
  const Result_ a = Run(p.s, p.q, p.k), b = Run(q.s, q.q, q.k);
  c.equal(long(a.cycles), long(b.cycles), "number of steps");
  const double tol = std::max(1e-10, 3 * Noise(m)) * double(a.cycles);
  c.rel(a.time, b.time, tol, "time reached");
  double mach = 1;
  fx::Each(fx::Whole(p.q), [&](I3 i) {
    const auto e = m.Speeds(p.q.get(i), 0);
    mach = std::max(mach, 1 + std::pow(e[2] / std::max(1e-300, e[1]), 2));
  });
  fx::Each(fx::Whole(a.data), [&](I3 i) {
    auto x = a.data.get(i), y = b.data.get(image(i));
    if (!shift && !other)
      y = Mirrored(m, y, d);
    for (int n = 0; n < m.ncons; ++n)
      c.near(x[std::size_t(n)], y[std::size_t(n)], tol * mach * size[std::size_t(n)], "component " + std::to_string(n) + " of cell " + pbt::list(i));
  });
  c.nontrivial(Different(p.q) && a.time > 0);
}

// data which vary in one direction only stay so and follow the same course as
// data that vary in another direction
void Plane(pbt::Case& c, fx::Method& m) {
  if (m.rank == 1)
    throw pbt::Discard{};
  const int d = int(c.below(uint64_t(m.rank)));
  std::array<Bc, 3> bc{Periodic, Periodic, Periodic};
  for (int e = 0; e < m.rank; ++e)
    bc[e] = e == d ? c.pick<Bc>({Periodic, Wall, Open}) : c.pick<Bc>({Periodic, Open});
  Problem p = Draw(c, m, Amp(m) * 0.5, bc);
  fx::Each(fx::Whole(p.q), [&](I3 i) {
    I3 j{0, 0, 0};
    j[d] = i[d];
    p.q.set(i, p.q.get(j));
  });
  const auto size = Sizes(m, p.q);
  const Result_ a = Run(p.s, p.q, p.k);
  const double tol = std::max(1e-10, 3 * Noise(m)) * double(a.cycles);
  double mach = 1;
  fx::Each(fx::Whole(p.q), [&](I3 i) {
    const auto e = m.Speeds(p.q.get(i), 0);
    mach = std::max(mach, 1 + std::pow(e[2] / std::max(1e-300, e[1]), 2));
  });
  auto compare = [&](const std::vector<double>& x, const std::vector<double>& y, const std::string& what) {
    for (int n = 0; n < m.ncons; ++n)
      c.near(x[std::size_t(n)], y[std::size_t(n)], tol * mach * size[std::size_t(n)], what + ", component " + std::to_string(n));
  };
  fx::Each(fx::Whole(a.data), [&](I3 i) {
    I3 j{0, 0, 0};
    j[d] = i[d];
    compare(a.data.get(i), a.data.get(j), "cell " + pbt::list(i) + " differs from its plane");
  });
  c.nontrivial(Different(p.q) && a.time > 0);
  // the same problem along another axis
  bool vec = true;
  for (const auto& x : m.comps)
    vec = vec && x.kind != fx::Scalar;
  if (m.velocity[0] != 0 || m.velocity[1] != 0 || p.k.split != 0 || !vec)
    return;
  const int e = (d + 1 + int(c.below(uint64_t(m.rank - 1)))) % m.rank;
  Problem q = p;
  std::swap(q.s.n[d], q.s.n[e]);
  std::swap(q.s.dx[d], q.s.dx[e]);
  std::swap(q.s.bc[d], q.s.bc[e]);
  q.q.n = q.s.n;
  auto swapped = [&](std::vector<double> x) {
    int md = -1, me = -1;
    for (std::size_t n = 0; n < m.comps.size(); ++n)
      if (m.comps[n].kind == fx::Momentum) {
        md = m.comps[n].d == d ? int(n) : md;
        me = m.comps[n].d == e ? int(n) : me;
      }
    if (md >= 0 && me >= 0)
      std::swap(x[std::size_t(md)], x[std::size_t(me)]);
    return x;
  };
  fx::Each(fx::Whole(p.q), [&](I3 i) {
    I3 j = i;
    std::swap(j[d], j[e]);
    q.q.set(j, swapped(p.q.get(i)));
  });
  const Result_ b = Run(q.s, q.q, q.k);
  c.rel(a.time, b.time, tol, "time reached along another axis");
  fx::Each(fx::Whole(a.data), [&](I3 i) {
    I3 j = i;
    std::swap(j[d], j[e]);
    compare(a.data.get(i), swapped(b.data.get(j)), "cell " + pbt::list(i) + " depends on the axis");
  });
}

// the wave system of a Riemann problem
void Convergence(pbt::Case& c, fx::Method& m) {
  if (m.rank != 1 || m.gamma == 0 || m.ncons != 3 || m.name.find("RungeKutta") != std::string::npos)
    throw pbt::Discard{};
  const rp::Gas g = rp::DrawGas(c, m.gamma, m.first_order ? 0.6 : 0.25);
  double smax = 0;
  for (int side : {-1, 1})
    smax = std::max({smax, std::abs(g.Head(side)), std::abs(g.Tail(side))});
  const double rmin = std::min({g.L.rho, g.R.rho, g.StarDensity(-1), g.StarDensity(1)}), rmax = std::max({g.L.rho, g.R.rho, g.StarDensity(-1), g.StarDensity(1)});
  if (rmax < 1.05 * rmin)
    throw pbt::Discard{};
  const double T = 0.35 / smax;
  auto error = [&](P n) {
    Setup s;
    s.method = &m;
    s.rank = 1;
    s.n[0] = n;
    s.dx[0] = 1.0 / double(n);
    s.bc[0] = Open;
    s.backend = m.seq ? fx::Seq : fx::Simd;
    Data q;
    q.rank = 1;
    q.nc = m.ncomp;
    q.n = s.n;
    q.alloc(0);
    const auto L = m.FromPrim({g.L.rho, g.L.u, g.L.p}), R = m.FromPrim({g.R.rho, g.R.u, g.R.p});
    fx::Each(fx::Whole(q), [&](I3 i) { q.set(i, 2 * i[0] < n ? L : R); });
    RunConfig k;
    k.cfl = 0.5;
    k.max_cycles = -1;
    k.final_time = T;
    const Result_ r = Run(s, q, k);
    c.near(r.time, T, 1e-12 * T, "final time");
    double e = 0;
    fx::Each(fx::Whole(r.data), [&](I3 i) {
      // average of the exact solution over the cell
      double w = 0;
      for (int j = 0; j < 8; ++j) {
        int side;
        w += g.Sample(((double(i[0]) + (j + 0.5) / 8) / double(n) - 0.5) / T, side).rho / 8;
      }
      e += std::abs(r.data.at(0, i) - w) / double(n);
    });
    return e / (rmax - rmin);
  };
  const double e1 = error(40), e2 = error(160);
  c.note("error with 40 cells", e1);
  c.note("error with 160 cells", e2);
  if (getenv("C31_SHOW"))
    std::printf("%-40s %.4f %.4f %.3f\n", m.name.c_str(), e1, e2, e2 / e1);
  c.check(e2 <= 0.75 * e1 + 0.01, "the error does not decrease with the cell width");
  c.check(e2 <= 0.1, "the solution is far from the exact one");
  c.nontrivial(true);
}

pbt::Setup setup([] {
  boost::log::core::get()->set_logging_enabled(false);
  auto add = [](const char* what, double quick, double thorough, std::function<bool(const std::string&)> applies, void (*f)(pbt::Case&, fx::Method&)) {
    for (const fx::Entry& e : fx::Registry())
      if (applies(e.name))
        pbt::registry().push_back(pbt::Prop{std::string(what) + ": " + e.name, std::max<long>(20, long(quick * e.weight)), std::max<long>(20, long(thorough * e.weight)), [e, f](pbt::Case& c) {
                                              auto m = e.make(c);
                                              m->name = e.name;
                                              f(c, *m);
                                            }});
  };
  auto has = [](const std::string& n, const char* x) { return n.find(x) != std::string::npos; };
  auto all = [](const std::string&) { return true; };
  auto scalar = [=](const std::string& n) { return has(n, "Advection") || has(n, "Burgers"); };
  add("periodic box", 300, 3000, all, [](pbt::Case& c, fx::Method& m) { Conservation(c, m, false); });
  add("walls", 250, 2000, [=](const std::string& n) { return !scalar(n) && !has(n, "RungeKutta"); }, [](pbt::Case& c, fx::Method& m) { Conservation(c, m, true); });
  add("uniform flow", 150, 1500, all, &Uniform);
  add("symmetry", 250, 2500, all, &Symmetry);
  add("plane data", 150, 1500, [=](const std::string& n) { return !has(n, "<1>") && !has(n, "Burgers"); }, &Plane);
  add("Riemann problem", 80, 1000, [=](const std::string& n) { return has(n, "PerfectGas<1>") && !has(n, "RungeKutta"); }, &Convergence);
});
} // namespace

// C30: rotations and reflections of states, and reflecting boundaries.
#include "patch.hpp"
#include "fx_gas.hpp"
#include "fx_ig.hpp"
#include "fub/boundary_condition/ReflectiveBoundary.hpp"
using namespace tst;
namespace {
template <int R> using Vec = Eigen::Matrix<double, R, 1>;
template <int R> using Mat = Eigen::Matrix<double, R, R>;
template <typename... A> std::string Fmt(const char* f, A... a) {
  char b[256];
  std::snprintf(b, sizeof b, f, a...);
  return b;
}
const double eps = std::numeric_limits<double>::epsilon();

template <int R> Vec<R> DrawUnit(pbt::Case& c) {
  Vec<R> v = Vec<R>::Zero();
  switch (R == 1 ? 0 : c.below(4)) {
  case 0: // an axis, either side
    v[int(c.below(R))] = c.boolean() ? 1.0 : -1.0;
    return v;
  case 1: // exactly representable pythagorean normals
    v[0] = c.boolean() ? 0.6 : -0.6;
    v[R - 1] = c.boolean() ? 0.8 : -0.8;
    return v;
  default:
    for (int d = 0; d < R; ++d)
      v[d] = c.symmetric(1.0);
    if (v.norm() < 1e-3)
      v[0] = 1.0;
    v /= v.norm();
    return v;
  }
}
template <int R> Mat<R> DrawRotation(pbt::Case& c) {
  Mat<R> m = Mat<R>::Identity();
  if (c.chance(1, 3)) { // quarter turns are exact
    const int n = int(c.below(4)), a = int(c.below(R)), b = (a + 1) % R;
    const double s[] = {0, 1, 0, -1}, k[] = {1, 0, -1, 0};
    m(a, a) = m(b, b) = k[n];
    m(a, b) = -s[n];
    m(b, a) = s[n];
    return m;
  }
  for (int k = 0; k < (R == 2 ? 1 : 2); ++k) {
    const double phi = c.real(-M_PI, M_PI);
    const int a = int(c.below(R)), b = (a + 1) % R;
    Mat<R> g = Mat<R>::Identity();
    g(a, a) = g(b, b) = std::cos(phi);
    g(a, b) = -std::sin(phi);
    g(b, a) = std::sin(phi);
    m = g * m;
  }
  return m;
}
/// any numbers, the functions do not know about thermodynamics
template <typename S> std::vector<double> Garbage(pbt::Case& c, S& q) {
  std::vector<double> v = Comps(q);
  pbt::Rng rng{c.below(1u << 20)};
  for (double& x : v)
    x = (double(rng.next() % 2000001) - 1e6) * std::pow(10.0, double(rng.next() % 9) - 8.0) * 1e-2;
  const int R = S::Equation::Rank();
  for (int d = 0; d < R; ++d)
    v[std::size_t(1 + d)] = 1e3 * c.symmetric(1.0);
  SetComps(q, v);
  return v;
}
std::vector<double> Mapped(const std::vector<double>& v, const std::function<double(int, const double*)>& row, int R) {
  std::vector<double> w = v;
  for (int d = 0; d < R; ++d)
    w[std::size_t(1 + d)] = row(d, &v[1]);
  return w;
}
double MomNorm(const std::vector<double>& v, int R) {
  double s = 0;
  for (int d = 0; d < R; ++d)
    s = std::hypot(s, v[std::size_t(1 + d)]);
  return s;
}
void Same(pbt::Case& c, const std::vector<double>& got, const std::vector<double>& want, int R, const char* what) {
  c.check(got.size() == want.size(), "number of components");
  const double tol = 16 * eps * MomNorm(want, R);
  for (std::size_t i = 0; i < want.size(); ++i) {
    if (int(i) >= 1 && int(i) <= R)
      c.near(got[i], want[i], tol, Fmt("%s: momentum component %d", what, int(i) - 1));
    else
      c.checkf(got[i] == want[i], [&] { return Fmt("%s: component %d is %.17g, expected %.17g", what, int(i), got[i], want[i]); });
  }
}

template <typename S> void ReflectProp(pbt::Case& c) {
  using Eq = typename S::Equation;
  constexpr int R = Eq::Rank();
  const Eq eq = fx::Tr<Eq>::Equation(c);
  S q(eq), r(eq);
  const auto v = Garbage(c, q);
  const Vec<R> n = DrawUnit<R>(c);
  auto want = Mapped(v, [&](int d, const double* m) {
    double dot = 0;
    for (int k = 0; k < R; ++k)
      dot += m[k] * n[k];
    return m[d] - 2 * dot * n[d];
  }, R);
  const bool alias = c.boolean();
  c.note("normal", pbt::list(std::vector<double>(n.data(), n.data() + R)));
  c.note("aliased", alias ? "yes" : "no");
  double dot = 0;
  for (int k = 0; k < R; ++k)
    dot += v[std::size_t(1 + k)] * n[k];
  c.nontrivial(std::abs(dot) > 1e-3);
  if (alias)
    r = q, Reflect(r, r, n, eq);
  else
    Garbage(c, r), Reflect(r, q, n, eq);
  Same(c, Comps(r), want, R, "reflected");
  if (!alias)
    c.check(Comps(q) == v, "the source has changed");
  // the other sign of the normal describes the same plane
  S o(eq);
  Reflect(o, q, Vec<R>(-n), eq);
  Same(c, Comps(o), want, R, "reflected at the opposite normal");
  Reflect(r, r, n, eq);
  Same(c, Comps(r), v, R, "reflected twice");
}

template <typename S> void RotateProp(pbt::Case& c) {
  using Eq = typename S::Equation;
  constexpr int R = Eq::Rank();
  const Eq eq = fx::Tr<Eq>::Equation(c);
  S q(eq), r(eq);
  const auto v = Garbage(c, q);
  const Mat<R> m = DrawRotation<R>(c);
  auto want = Mapped(v, [&](int d, const double* u) {
    double s = 0;
    for (int k = 0; k < R; ++k)
      s += m(d, k) * u[k];
    return s;
  }, R);
  const bool alias = c.boolean();
  c.note("aliased", alias ? "yes" : "no");
  c.nontrivial(!m.isIdentity(1e-3) && MomNorm(v, R) > 1e-3);
  if (alias)
    r = q, Rotate(r, r, m, eq);
  else
    Garbage(c, r), Rotate(r, q, m, eq);
  Same(c, Comps(r), want, R, "rotated");
  if (!alias)
    c.check(Comps(q) == v, "the source has changed");
  Rotate(r, r, Mat<R>(m.transpose()), eq);
  Same(c, Comps(r), v, R, "there and back");
}

/// the flux through a rotated face is the rotated flux, and the thermodynamic
/// completion does not see the orientation
template <int R, template <int> class E> void Covariance(pbt::Case& c) {
  using Eq = E<R>;
  using T = fx::Tr<Eq>;
  Eq eq = T::Equation(c);
  const auto w = T::Base(c, eq);
  Complete<Eq> q(eq);
  T::Make(eq, w, q);
  const Vec<R> a = UnitVector<R>(Direction(c.below(R)));
  Vec<R> b = DrawUnit<R>(c);
  const Mat<R> rot = MakeRotation(a, b);
  int da = 0;
  for (int d = 0; d < R; ++d)
    if (a[d] == 1.0)
      da = d;
  c.note("direction", da);
  c.note("normal", pbt::list(std::vector<double>(b.data(), b.data() + R)));
  // f = flux of q in direction b = rot (flux of rot^T q in direction a)
  Complete<Eq> qr(eq);
  Rotate(qr, q, Mat<R>(rot.transpose()), eq);
  Conservative<Eq> fr(eq), f(eq), fd(eq);
  eq.Flux(fr, qr, Direction(da));
  Rotate(f, fr, rot, eq);
  const auto got = Comps(f);
  std::vector<double> want(got.size(), 0.0), scale(got.size(), 1e-300);
  for (int d = 0; d < R; ++d) {
    eq.Flux(fd, q, Direction(d));
    const auto x = Comps(fd);
    for (std::size_t i = 0; i < x.size(); ++i) {
      want[i] += b[d] * x[i];
      scale[i] += std::abs(x[i]);
    }
  }
  double ms = 0;
  for (int d = 0; d < R; ++d)
    ms = std::max(ms, scale[std::size_t(1 + d)]);
  // velocities of any size cancel in the mass flux
  const auto qc = Comps(q);
  const double u = MomNorm(qc, R) / qc[0];
  c.nontrivial(u > 0);
  for (std::size_t i = 0; i < got.size(); ++i) {
    const double s = (int(i) >= 1 && int(i) <= R) ? ms : scale[i];
    c.near(got[i], want[i], 64 * eps * s, Fmt("flux component %d", int(i)));
  }
  // completing and rotating commute
  Conservative<Eq> cons(eq);
  {
    auto v = Comps(q);
    auto k = Comps(cons);
    v.resize(k.size());
    // the conserved variables come first in a complete state
    SetComps(cons, v);
  }
  Rotate(cons, cons, rot, eq);
  Complete<Eq> q1(eq), q2(eq), q3(eq);
  CompleteFromCons(eq, q1, cons);
  CompleteFromCons(eq, q2, AsCons(q));
  Rotate(q3, q2, rot, eq);
  const auto x = Comps(q1), y = Comps(q3);
  // pressures come from the difference of total and kinetic energy
  const double loss = (std::abs(q.energy) + 0.5 * q.density * u * u) / q.pressure;
  for (std::size_t i = 0; i < x.size(); ++i) {
    if (int(i) >= 1 && int(i) <= R)
      c.near(x[i], y[i], 64 * eps * MomNorm(y, R), "completed momentum");
    else
      c.near(x[i], y[i], std::min(1.0, 1e-12 * (10 + loss)) * std::abs(y[i]), Fmt("completed component %d", int(i)));
  }
}

template <int R> void RotationMatrix(pbt::Case& c) {
  const Vec<R> a = DrawUnit<R>(c);
  Vec<R> b;
  const int mode = int(c.below(4));
  if (mode == 0)
    b = a;
  else if (mode == 1)
    b = -a;
  else if (mode == 2) { // nearly the same or nearly opposite
    b = (c.boolean() ? 1.0 : -1.0) * a;
    const int d = int(c.below(R));
    b[d] += c.logreal(1e-12, 1e-1) * (c.boolean() ? 1 : -1);
    if (b.norm() < 0.1)
      throw pbt::Discard{};
    b /= b.norm();
  } else
    b = DrawUnit<R>(c);
  c.note("a", pbt::list(std::vector<double>(a.data(), a.data() + R)));
  c.note("b", pbt::list(std::vector<double>(b.data(), b.data() + R)));
  c.nontrivial(a != b);
  const Mat<R> m = MakeRotation(a, b);
  const Vec<R> got = m * a;
  // nearly opposite directions leave the axis in the rounding errors
  const double sine = (a + b).norm();
  const double tol = R == 2 ? 16 * eps : 64 * eps * std::max(1.0, 1.0 / std::max(sine, 1e-16));
  const double lim = std::min(tol, 1e-3);
  for (int d = 0; d < R; ++d)
    c.near(got[d], b[d], lim, Fmt("rotated vector, component %d", d));
  const Mat<R> id = m * m.transpose();
  for (int i = 0; i < R; ++i)
    for (int j = 0; j < R; ++j)
      c.near(id(i, j), i == j ? 1.0 : 0.0, lim, Fmt("orthogonality %d,%d", i, j));
  if (!(R == 3 && a == -b))
    c.near(m.determinant(), 1.0, 4 * lim, "determinant");
  // and back
  const Vec<R> back = MakeRotation(b, a) * b;
  for (int d = 0; d < R; ++d)
    c.near(back[d], a[d], lim, "back");
}

template <typename Eq> void Wall(pbt::Case& c) {
  constexpr int R = Eq::Rank();
  const Eq eq = fx::Tr<Eq>::Equation(c);
  const int dir = int(c.below(R)), side = int(c.below(2));
  const P width = c.integer(1, 5);
  Ix<R> lo, n;
  for (int r = 0; r < R; ++r) {
    lo[r] = c.integer(-9, 9);
    n[r] = c.integer(1, 4) + 2;
  }
  // ghost cells next to at least as many interior cells; a margin elsewhere
  const P inner = width + c.integer(0, 3), outer = c.integer(0, 2);
  n[dir] = width + inner + outer;
  Patch<Complete<Eq>> p(eq, MakeBox<R>(lo, n));
  pbt::Rng rng{c.below(1u << 24)};
  for (double& x : p.data)
    x = (double(rng.next() % 2000001) - 1e6) * 1e-3;
  IndexBox<R> fill = p.box;
  if (side == 0) {
    fill.lower[dir] = p.box.lower[dir] + outer;
    fill.upper[dir] = fill.lower[dir] + width;
  } else {
    fill.upper[dir] = p.box.upper[dir] - outer;
    fill.lower[dir] = fill.upper[dir] - width;
  }
  for (int r = 0; r < R; ++r)
    if (r != dir) {
      fill.lower[r] += c.integer(0, 1);
      fill.upper[r] -= c.integer(0, 1);
    }
  c.note("box", BoxStr<R>(p.box));
  c.note("fill", BoxStr<R>(fill));
  c.note("dir", dir);
  c.note("side", side);
  c.nontrivial(true);
  const std::vector<double> before = p.data;
  auto old = [&](int k, const Ix<R>& i) { return before[std::size_t(k * p.cells + p.off(i))]; };
  ReflectiveBoundary<Eq> bc(eq);
  // the whole patch or just what is needed of it
  IndexBox<R> part = p.box;
  if (c.boolean()) {
    part = fill;
    if (side == 0)
      part.upper[dir] += width;
    else
      part.lower[dir] -= width;
  }
  if (c.boolean()) { // objects are reusable
    Patch<Complete<Eq>> other(eq, p.box, 3.0);
    bc.FillBoundary(other.sub(other.box), fill, Direction(dir), side);
  }
  bc.FillBoundary(p.sub(part), fill, Direction(dir), side);
  Each<R>(p.box, [&](const Ix<R>& i) {
    Ix<R> src = i;
    const bool ghost = In<R>(fill, i);
    if (ghost) // mirror at the face between ghost cells and interior
      src[dir] = side == 0 ? 2 * fill.upper[dir] - 1 - i[dir] : 2 * fill.lower[dir] - 1 - i[dir];
    for (int k = 0; k < p.ncomp; ++k) {
      const double want = (ghost && k == 1 + dir) ? -old(k, src) : old(k, src);
      c.checkf(p.at(k, i) == want, [&] {
        return Fmt("component %d at %s is %.17g, expected %.17g from %s", k, pbt::list(i).c_str(), p.at(k, i), want, pbt::list(src).c_str());
      });
    }
    if (ghost) {
      c.check(ReflectIndex(Index<R>(i), fill, Direction(dir), side) == Index<R>(src), "ReflectIndex");
    }
  });
}

pbt::Setup s([] {
  auto add = [](const std::string& n, long q, void (*f)(pbt::Case&)) { pbt::registry().push_back(pbt::Prop{n, q, q * 15, f}); };
#define REFL(E, R)                                                                                                                                   \
  add("reflect complete " #E "<" #R ">", 3000, &ReflectProp<Complete<E<R>>>);                                                                        \
  add("reflecting wall " #E "<" #R ">", R == 3 ? 800 : 2500, &Wall<E<R>>);
#define REFLC(E, R) add("reflect conservative " #E "<" #R ">", 3000, &ReflectProp<Conservative<E<R>>>);
#define REFLP(E, R) add("reflect primitive " #E "<" #R ">", 3000, &ReflectProp<Primitive<E<R>>>);
#define ROT(E, R)                                                                                                                                    \
  add("rotate complete " #E "<" #R ">", 3000, &RotateProp<Complete<E<R>>>);                                                                          \
  add("rotate conservative " #E "<" #R ">", 3000, &RotateProp<Conservative<E<R>>>);                                                                  \
  add("rotated flux and completion " #E "<" #R ">", 4000, &Covariance<R, E>);
  REFL(PerfectGas, 1) REFL(PerfectGas, 2) REFL(PerfectGas, 3)
  REFL(PerfectGasMix, 1) REFL(PerfectGasMix, 2) REFL(PerfectGasMix, 3)
  REFL(IdealGasMix, 1) REFL(IdealGasMix, 2) REFL(IdealGasMix, 3)
  REFLC(PerfectGas, 1) REFLC(PerfectGas, 2) REFLC(PerfectGas, 3)
  REFLC(PerfectGasMix, 1) REFLC(PerfectGasMix, 2) REFLC(PerfectGasMix, 3)
  REFLP(PerfectGas, 1) REFLP(PerfectGas, 2) REFLP(PerfectGas, 3)
  ROT(PerfectGas, 2) ROT(PerfectGas, 3) ROT(PerfectGasMix, 2) ROT(PerfectGasMix, 3) ROT(IdealGasMix, 2) ROT(IdealGasMix, 3)
  add("rotation matrix 2d", 8000, &RotationMatrix<2>);
  add("rotation matrix 3d", 8000, &RotationMatrix<3>);
});
} // namespace

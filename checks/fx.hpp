// A uniform face for all numerical flux methods of the library: patches in,
// face fluxes out.  The properties (C05..C08, C11, C12, C14, C15) are written
// against this interface, the instantiations live in fx_*.cpp.
#pragma once
#include "pbt.hpp"
#include <array>
#include <memory>
#include <string>
#include <vector>

namespace fx {
using P = std::ptrdiff_t;
enum Kind { Mass, Momentum, Energy, Species, Scalar };
struct Comp {
  Kind kind;
  int d; // direction of a momentum component or index of a species
};
/// a box of cells or faces with component-major data
struct Data {
  int rank{1}, nc{1};
  std::array<P, 3> lo{0, 0, 0}, n{1, 1, 1};
  std::vector<double> v;
  P cells() const { return n[0] * n[1] * n[2]; }
  P off(std::array<P, 3> i) const { return (i[0] - lo[0]) + n[0] * ((i[1] - lo[1]) + n[1] * (i[2] - lo[2])); }
  double& at(int c, std::array<P, 3> i) { return v[static_cast<std::size_t>(c * cells() + off(i))]; }
  double at(int c, std::array<P, 3> i) const { return v[static_cast<std::size_t>(c * cells() + off(i))]; }
  void alloc(double x) { v.assign(static_cast<std::size_t>(nc * cells()), x); }
  std::vector<double> get(std::array<P, 3> i) const {
    std::vector<double> r(static_cast<std::size_t>(nc));
    for (int c = 0; c < nc; ++c)
      r[c] = at(c, i);
    return r;
  }
  void set(std::array<P, 3> i, const std::vector<double>& x) {
    for (int c = 0; c < nc; ++c)
      at(c, i) = x[c];
  }
};
using Box = std::pair<std::array<P, 3>, std::array<P, 3>>; // lower, upper
template <typename F> void Each(const Box& b, F f) {
  std::array<P, 3> i;
  for (i[2] = b.first[2]; i[2] < b.second[2]; ++i[2])
    for (i[1] = b.first[1]; i[1] < b.second[1]; ++i[1])
      for (i[0] = b.first[0]; i[0] < b.second[0]; ++i[0])
        f(i);
}
inline Box Whole(const Data& d) {
  Box b{d.lo, d.lo};
  for (int r = 0; r < 3; ++r)
    b.second[r] += d.n[r];
  return b;
}
inline bool In(const Box& b, std::array<P, 3> i) {
  for (int r = 0; r < 3; ++r)
    if (i[r] < b.first[r] || i[r] >= b.second[r])
      return false;
  return true;
}
inline std::string Str(const Box& b) { return pbt::list(b.first) + ".." + pbt::list(b.second); }

enum Backend { Seq, Simd, Default, OpenMp, OpenMpSimd };

/// a family of states around one base state
struct Field {
  std::vector<double> base; // the primitives of the equation's traits
  double amp{0};
};

struct Method {
  virtual ~Method() = default;
  std::string name, family;
  int rank{1}, width{1}, ncomp{1}, ncons{1};
  std::vector<Comp> comps; // of the conserved variables
  bool seq{true}, masked{true}, first_order{true};
  double tol{1e-9};     // expected agreement of two evaluations
  double max_amp{1.5};  // admissible variation between neighbouring cells
  double gamma{0};      // heat capacity ratio or gravity, if constant
  double Msq{1};
  std::array<double, 3> velocity{0, 0, 0}; // of linear advection
  virtual const void* EquationPtr() const = 0;
  virtual Field MakeField(pbt::Case& c, double amp) = 0;
  virtual std::vector<double> State(pbt::Case& c, const Field& f) = 0; // complete
  virtual std::vector<double> FromPrim(const std::vector<double>& prim) = 0;
  virtual std::vector<double> Perturb(pbt::Case& c, const Field& f) = 0; // primitives
  virtual std::vector<double> Complete(const std::vector<double>& cons) = 0;
  virtual std::vector<double> PhysFlux(const std::vector<double>& complete, int dir) = 0;
  /// the physical flux of the vectorised equation (the state in all lanes)
  virtual std::vector<double> PhysFluxSimd(const std::vector<double>& complete, int dir, int lane) = 0;
  /// typical size of every flux component for this state
  virtual std::vector<double> Scale(const std::vector<double>& complete) = 0;
  /// |u_d|, the sound speed, and the norm of the velocity of a state
  virtual std::array<double, 3> Speeds(const std::vector<double>& complete, int dir) = 0;
  virtual void Fluxes(Backend b, Data& flux, const Box& faces, const Data& states, const Box& view, double dt, double dx, int dir) = 0;
  /// complete all states of a box from their conserved part
  virtual void CompletePatch(Backend b, Data& states, const Box& box) = 0;
  virtual double StableDt(Backend b, const Data& states, const Box& view, double dx, int dir) = 0;
  /// one masked evaluation over kDefaultChunkSize lanes; stencil[cell][comp][lane]
  virtual std::vector<std::vector<double>> Masked(const std::vector<std::vector<std::vector<double>>>& stencil, const std::vector<double>& face,
                                                  const std::vector<std::vector<double>>& vol, double dt, double dx, int dir) = 0;
  virtual std::vector<double> MaskedDt(const std::vector<std::vector<std::vector<double>>>& stencil, const std::vector<double>& face,
                                       const std::vector<std::vector<double>>& vol, double dx, int dir) = 0;
  bool has_masked_dt{true}, has_simd_dt{true};
  bool exact_signals{false};  // time steps from the exact Riemann solution
  /// the flux of one face from a stencil of complete states
  std::vector<double> Face(Backend b, const std::vector<std::vector<double>>& stencil, double dt, double dx, int dir) {
    Data s, f;
    s.rank = f.rank = rank;
    s.nc = ncomp;
    f.nc = ncons;
    s.n[dir] = 2 * width;
    s.lo[dir] = -width;
    s.alloc(0);
    f.alloc(0);
    for (int k = 0; k < 2 * width; ++k) {
      std::array<P, 3> i{0, 0, 0};
      i[dir] = k - width;
      s.set(i, stencil[k]);
    }
    Fluxes(b, f, Whole(f), s, Whole(s), dt, dx, dir);
    return f.get({0, 0, 0});
  }
  double FaceDt(Backend b, const std::vector<std::vector<double>>& stencil, double dx, int dir) {
    Data s;
    s.rank = rank;
    s.nc = ncomp;
    s.n[dir] = 2 * width;
    s.lo[dir] = -width;
    s.alloc(0);
    for (int k = 0; k < 2 * width; ++k) {
      std::array<P, 3> i{0, 0, 0};
      i[dir] = k - width;
      s.set(i, stencil[k]);
    }
    return StableDt(b, s, Whole(s), dx, dir);
  }
};
using Maker = std::function<std::unique_ptr<Method>(pbt::Case&)>;
struct Entry {
  std::string name;
  double weight; // relative number of cases
  Maker make;
};
inline std::vector<Entry>& Registry() {
  static std::vector<Entry> r;
  return r;
}
struct Reg {
  Reg(std::string n, double w, Maker m) { Registry().push_back({std::move(n), w, std::move(m)}); }
};

/// makers copy this equation instead of drawing one, if it is set
inline const void*& EquationOverride() {
  static const void* p = nullptr;
  return p;
}
/// another method of the same equation with the same parameters
inline std::unique_ptr<Method> MakeSibling(pbt::Case& c, const Method& m, const std::string& name) {
  for (const Entry& e : Registry())
    if (e.name == name) {
      EquationOverride() = m.EquationPtr();
      auto r = e.make(c);
      EquationOverride() = nullptr;
      r->name = name;
      return r;
    }
  throw std::logic_error("fx: no method " + name);
}

/// register one property per method; called from a pbt::Setup
template <typename F> void ForAllMethods(const std::string& what, double quick, double thorough, F body) {
  for (const Entry& e : Registry()) {
    Maker mk = e.make;
    pbt::registry().push_back(pbt::Prop{what + ": " + e.name, std::max<long>(20, long(quick * e.weight)), std::max<long>(20, long(thorough * e.weight)),
                                        [mk, body, name = e.name](pbt::Case& c) {
                                          auto m = mk(c);
                                          m->name = name;
                                          body(c, *m);
                                        }});
  }
}

/// a state field on a patch: smooth or jumping data around a base state
inline Field FillStates(pbt::Case& c, Method& m, Data& s, double amp, int pool = 6) {
  Field f = m.MakeField(c, amp);
  std::vector<std::vector<double>> st;
  const int k = 1 + static_cast<int>(c.below(static_cast<uint64_t>(pool)));
  for (int i = 0; i < k; ++i)
    st.push_back(m.State(c, f));
  const int mode = static_cast<int>(c.below(3));
  pbt::Rng rng{static_cast<uint64_t>(c.below(1 << 20))};
  const P jump = c.integer(0, s.n[0]);
  P cell = 0;
  Each(Whole(s), [&](std::array<P, 3> i) {
    std::size_t w;
    if (mode == 0)
      w = rng.next() % st.size();
    else if (mode == 1)
      w = (i[0] - s.lo[0] < jump) ? 0 : st.size() - 1;
    else
      w = static_cast<std::size_t>(cell) % st.size();
    s.set(i, st[w]);
    ++cell;
  });
  return f;
}
/// a box of faces, the cells their stencils need (view) and buffers around of both
inline void MakePatch(pbt::Case& c, Method& m, Data& s, Data& f, Box& faces, Box& view, int dir) {
  s.rank = f.rank = m.rank;
  s.nc = m.ncomp;
  f.nc = m.ncons;
  for (int r = 0; r < m.rank; ++r) {
    faces.first[r] = c.integer(-3, 3);
    const P len = r == 0 ? (c.chance(1, 3) ? 1 + P(c.below(4)) : 1 + P(c.below(20))) : 1 + P(c.below(3));
    faces.second[r] = faces.first[r] + len;
  }
  for (int r = m.rank; r < 3; ++r) {
    faces.first[r] = 0;
    faces.second[r] = 1;
  }
  view = faces;
  view.first[dir] -= m.width;
  view.second[dir] += m.width - 1;
  // cells around of the stencil which may be visible or not
  Box buf = view;
  for (int r = 0; r < m.rank; ++r) {
    buf.first[r] -= P(c.below(3));
    buf.second[r] += P(c.below(3));
  }
  s.lo = buf.first;
  for (int r = 0; r < 3; ++r)
    s.n[r] = buf.second[r] - buf.first[r];
  if (c.boolean())
    view = buf;
  Box fb = faces;
  for (int r = 0; r < m.rank; ++r) {
    fb.first[r] -= P(c.below(2));
    fb.second[r] += P(c.below(2));
  }
  f.lo = fb.first;
  for (int r = 0; r < 3; ++r)
    f.n[r] = fb.second[r] - fb.first[r];
  s.alloc(0);
  f.alloc(-12345.0);
}
inline double SumScale(Method& m, const Data& s, std::vector<double>& scale) {
  scale.assign(static_cast<std::size_t>(m.ncons), 0.0);
  double smax = 0;
  Each(Whole(s), [&](std::array<P, 3> i) {
    auto q = s.get(i);
    auto k = m.Scale(q);
    for (int a = 0; a < m.ncons; ++a)
      scale[a] = std::max(scale[a], k[a]);
    for (int d = 0; d < m.rank; ++d) {
      auto v = m.Speeds(q, d);
      smax = std::max(smax, v[0] + v[1]);
    }
  });
  return smax;
}
} // namespace fx

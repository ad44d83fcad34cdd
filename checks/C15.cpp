// C15: perfect-gas mixtures transport species and scalars with the gas
#include "fx.hpp"
#include "fx_gas.hpp"
namespace {
using namespace fub;
using Vec = std::vector<double>;
bool Tracer(const fx::Comp& k) { return k.kind == fx::Species || k.kind == fx::Scalar; }
bool IsHll(const fx::Method& m) { return m.name.find("Hllem") == std::string::npos; }
bool IsLarrouturou(const fx::Method& m) { return m.name.find("Larrouturou") != std::string::npos; }
double Mag(const Vec& q, const fx::Method& m) {
  double x = 1;
  for (std::size_t k = 0; k < m.comps.size(); ++k)
    if (Tracer(m.comps[k]))
      x = std::max(x, std::abs(q[k] / q[0]));
  return x;
}

/// equal concentrations in the whole stencil
void Equal(pbt::Case& c, fx::Method& m) {
  fx::Field f = m.MakeField(c, c.pick<double>({0.1, 0.5, 1.5}));
  const int dir = c.i(0, m.rank - 1);
  std::vector<Vec> st;
  const Vec w0 = m.Perturb(c, f);
  const std::size_t first = std::size_t(m.rank) + 2;
  for (int k = 0; k < 2 * m.width; ++k) {
    Vec w = m.Perturb(c, f);
    for (std::size_t i = first; i < w.size(); ++i)
      w[i] = w0[i];
    st.push_back(m.FromPrim(w));
  }
  const fx::Backend b = m.seq && c.boolean() ? fx::Seq : fx::Simd;
  const double dx = 1.0;
  const double dt = m.first_order ? 0.0 : c.real(0.0, 0.5) * m.FaceDt(b, st, dx, dir);
  c.note("stencil", pbt::list(st[0]) + " ... " + pbt::list(st.back()));
  c.note("dir", dir);
  c.nontrivial(w0.size() > first && st[0] != st.back());
  c.label(b == fx::Seq ? "scalar" : "vectorised");
  const Vec flux = m.Face(b, st, dt, dx, dir);
  Vec scale(flux.size(), 0.0);
  for (const Vec& s : st) {
    const Vec x = m.Scale(s);
    for (std::size_t k = 0; k < x.size(); ++k)
      scale[k] = std::max(scale[k], x[k]);
  }
  for (std::size_t k = 0; k < m.comps.size(); ++k)
    if (Tracer(m.comps[k])) {
      const double Y = st[0][k] / st[0][0];
      c.near(flux[k], flux[0] * Y, std::max(m.tol, 1e-9) * scale[k], "flux of tracer " + std::to_string(k) + " with concentration " + pbt::fmt(Y) + " everywhere");
    }
}
/// upwinding by the mass flux
void Upwind(pbt::Case& c, fx::Method& m) {
  if (!(m.first_order && IsLarrouturou(m)))
    throw pbt::Discard{};
  fx::Field f = m.MakeField(c, c.pick<double>({0.1, 0.5, 1.5}));
  const int dir = c.i(0, m.rank - 1);
  const std::vector<Vec> st{m.State(c, f), m.State(c, f)};
  const fx::Backend b = m.seq && c.boolean() ? fx::Seq : fx::Simd;
  const Vec flux = m.Face(b, st, 0.0, 1.0, dir);
  c.note("states", pbt::list(st[0]) + " | " + pbt::list(st[1]));
  c.note("dir", dir);
  c.label(flux[0] > 0 ? "to the right" : flux[0] < 0 ? "to the left" : "at rest");
  const Vec s0 = m.Scale(st[0]), s1 = m.Scale(st[1]);
  bool differ = false;
  for (std::size_t k = 0; k < m.comps.size(); ++k)
    if (Tracer(m.comps[k])) {
      const Vec& up = flux[0] > 0 ? st[0] : st[1];
      differ = differ || st[0][k] / st[0][0] != st[1][k] / st[1][0];
      c.near(flux[k], flux[0] * up[k] / up[0], 1e-12 * std::max(s0[k], s1[k]), "flux of tracer " + std::to_string(k) + " carried by the mass flux " + pbt::fmt(flux[0]));
    }
  c.nontrivial(differ && flux[0] != 0);
}
/// bounds of the concentrations after an update
void Bounded(pbt::Case& c, fx::Method& m) {
  if (!m.first_order || !(IsHll(m) || IsLarrouturou(m)))
    throw pbt::Discard{};
  fx::Field f = m.MakeField(c, IsHll(m) ? c.pick<double>({0.15, 0.5, 1.5}) : c.pick<double>({0.15, 0.3}));
  const int dir = c.i(0, m.rank - 1);
  const int n = c.i(1, 6);
  std::vector<Vec> q;
  for (int k = 0; k < n + 2; ++k)
    q.push_back(m.State(c, f));
  const fx::Backend b = m.seq && c.boolean() ? fx::Seq : fx::Simd;
  double dt = HUGE_VAL;
  std::vector<Vec> flux;
  for (int k = 0; k <= n; ++k) {
    dt = std::min(dt, m.FaceDt(b, {q[k], q[k + 1]}, 1.0, dir));
    flux.push_back(m.Face(b, {q[k], q[k + 1]}, 0.0, 1.0, dir));
  }
  const double cfl = c.pick<double>({0.45, 0.45, 0.2});
  const double lambda = cfl * dt;
  c.note("states", pbt::list(q[0]) + " | " + pbt::list(q[1]) + " | ...");
  c.note("cfl", cfl);
  bool differ = false;
  for (int k = 1; k <= n; ++k) {
    const double rho = q[k][0] - lambda * (flux[k][0] - flux[k - 1][0]);
    c.checkf(rho > 0, [&] { return "density of cell " + std::to_string(k) + " becomes " + pbt::fmt(rho); });
    for (std::size_t i = 0; i < m.comps.size(); ++i)
      if (Tracer(m.comps[i])) {
        const double x = (q[k][i] - lambda * (flux[k][i] - flux[k - 1][i])) / rho;
        double lo = HUGE_VAL, hi = -HUGE_VAL;
        for (int j = k - 1; j <= k + 1; ++j) {
          lo = std::min(lo, q[j][i] / q[j][0]);
          hi = std::max(hi, q[j][i] / q[j][0]);
        }
        differ = differ || hi > lo;
        const double tol = 1e-11 * Mag(q[k], m) * (1 + q[k][0] / rho + (q[k - 1][0] + q[k + 1][0]) / rho);
        c.checkf(x >= lo - tol && x <= hi + tol, [&] {
          return "concentration " + std::to_string(i) + " of cell " + std::to_string(k) + " becomes " + pbt::fmt(x) + ", outside of [" + pbt::fmt(lo) + ", " + pbt::fmt(hi) + "]";
        });
      }
  }
  c.nontrivial(differ);
}
/// the species of the reacting gas sum up to the mass flux
void SumOfSpecies(pbt::Case& c, fx::Method& m) {
  fx::Field f = m.MakeField(c, c.pick<double>({0.1, 0.5}));
  const int dir = c.i(0, m.rank - 1);
  const std::vector<Vec> st{m.State(c, f), m.State(c, f)};
  const fx::Backend b = m.seq && c.boolean() ? fx::Seq : fx::Simd;
  const Vec flux = m.Face(b, st, 0.0, 1.0, dir);
  c.note("states", pbt::list(st[0]) + " | " + pbt::list(st[1]));
  double sum = 0;
  for (std::size_t k = 0; k < m.comps.size(); ++k)
    if (m.comps[k].kind == fx::Species)
      sum += flux[k];
  c.nontrivial(st[0] != st[1]);
  c.near(sum, flux[0], 1e-10 * std::max(m.Scale(st[0])[0], m.Scale(st[1])[0]), "sum of the species fluxes against the mass flux");
}

// ---- conversions of the equation -------------------------------------------
template <int R> struct MixCase {
  PerfectGasMix<R> eq;
  Vec w;
};
template <int R> MixCase<R> Draw(pbt::Case& c) {
  using T = fx::Tr<PerfectGasMix<R>>;
  MixCase<R> m{T::Equation(c), {}};
  if (c.chance(1, 3)) {
    m.eq.Msq = c.logreal(1e-3, 1.0);
    m.eq.Msqinv = 1.0 / m.eq.Msq;
    c.label("low Mach scaling");
  }
  m.eq.n_species = c.i(0, 5);
  m.eq.n_passive_scalars = c.i(0, 4);
  m.w = T::Base(c, m.eq);
  c.note("species", m.eq.n_species);
  c.note("scalars", m.eq.n_passive_scalars);
  return m;
}
template <int R> void Compare(pbt::Case& c, const PerfectGasMix<R>& eq, const Vec& got, const Vec& w, const std::string& what) {
  Complete<PerfectGasMix<R>> want{eq};
  fx::Tr<PerfectGasMix<R>>::Make(eq, w, want);
  const Vec x = tst::Comps(want);
  double mom = 0;
  for (int d = 0; d < R; ++d)
    mom += std::abs(x[1 + d]);
  const double cond = 1 + x[R + 1] * (eq.gamma - 1) / w[R + 1];
  for (std::size_t k = 0; k < x.size(); ++k)
    c.near(got[k], x[k], 1e-12 * (k >= x.size() - 2 ? cond : 1.0) * (std::abs(x[k]) + (k >= 1 && k <= R ? mom : 0)) + 1e-300, what + ", component " + std::to_string(k));
}
template <int R> void Conversions(pbt::Case& c) {
  using Eq = PerfectGasMix<R>;
  constexpr int N = kDefaultChunkSize;
  auto m = Draw<R>(c);
  const Eq& eq = m.eq;
  std::vector<Vec> w{m.w};
  for (int l = 1; l < N; ++l)
    w.push_back(fx::Tr<Eq>::Perturb(c, eq, m.w, l < 3 ? 1.0 : 0.0));
  c.note("prim", pbt::list(w[0]));
  c.nontrivial(eq.n_species + eq.n_passive_scalars > 0);
  CompleteArray<Eq> qa{eq}, qb{eq}, qc{eq};
  ConservativeArray<Eq> ca{eq};
  PrimitiveArray<Eq> pa{eq}, pb{eq};
  for (int l = 0; l < N; ++l) {
    Primitive<Eq> p{eq}, back{eq};
    tst::SetComps(p, w[l]);
    Complete<Eq> q{eq}, q2{eq};
    CompleteFromPrim(eq, q, p);
    Compare<R>(c, eq, tst::Comps(q), w[l], "CompleteFromPrim");
    Conservative<Eq> cons{eq};
    tst::SetComps(cons, tst::Comps(AsCons(q)));
    CompleteFromCons(eq, q2, cons);
    Compare<R>(c, eq, tst::Comps(q2), w[l], "CompleteFromCons");
    const Vec kept = tst::Comps(q2), was = tst::Comps(cons);
    for (std::size_t k = 0; k < was.size(); ++k)
      c.check(kept[k] == was[k], "CompleteFromCons changes conserved component " + std::to_string(k));
    PrimFromComplete(eq, back, q2);
    const Vec b = tst::Comps(back);
    const double cond = 1 + q.energy * (eq.gamma - 1) / q.pressure;
    for (std::size_t k = 0; k < b.size(); ++k)
      c.near(b[k], w[l][k], 1e-12 * cond * std::abs(w[l][k]) + 1e-300, "primitive variables after conversion forth and back, component " + std::to_string(k));
    tst::SetLane(pa, l, w[l]);
    tst::SetLane(ca, l, was);
  }
  CompleteFromPrim(eq, qa, pa);
  CompleteFromCons(eq, qb, ca);
  MaskArray mask;
  for (int l = 0; l < N; ++l) {
    mask[l] = c.boolean();
    if (!mask[l])
      tst::SetLane(ca, l, Vec(tst::GetLane(ca, l).size(), c.pick<double>({0.0, std::nan(""), -1.0})));
  }
  CompleteFromCons(eq, qc, ca, mask);
  PrimFromComplete(eq, pb, qa);
  for (int l = 0; l < N; ++l) {
    Compare<R>(c, eq, tst::GetLane(qa, l), w[l], "vectorised CompleteFromPrim");
    Compare<R>(c, eq, tst::GetLane(qb, l), w[l], "vectorised CompleteFromCons");
    if (mask[l])
      Compare<R>(c, eq, tst::GetLane(qc, l), w[l], "masked CompleteFromCons");
    else
      for (double x : tst::GetLane(qc, l))
        c.check(x == 0.0, "an invalid lane is not zero after a masked CompleteFromCons");
    const Vec b = tst::GetLane(pb, l);
    for (std::size_t k = 0; k < b.size(); ++k)
      c.near(b[k], w[l][k], 1e-12 * std::abs(w[l][k]) + 1e-300, "vectorised PrimFromComplete, component " + std::to_string(k));
  }
  // species accessors
  Complete<Eq> q{eq};
  Primitive<Eq> p{eq};
  tst::SetComps(p, w[0]);
  CompleteFromPrim(eq, q, p);
  for (int i = 0; i < eq.n_species; ++i) {
    c.rel(euler::Species(eq, q, i), w[0][0] * w[0][R + 2 + i], 1e-13, "euler::Species(i)", 1e-300);
    c.rel(euler::Species(eq, q)[i], w[0][0] * w[0][R + 2 + i], 1e-13, "euler::Species", 1e-300);
    c.rel(euler::Species(eq, p)[i], w[0][R + 2 + i], 0.0, "euler::Species of primitive variables", 1e-300);
    for (int l = 0; l < N; ++l)
      c.rel(euler::Species(eq, qa, i)[l], w[l][0] * w[l][R + 2 + i], 1e-13, "euler::Species(i) of vector lanes", 1e-300);
  }
}
/// kinetic states: density, temperature, composition of n + 1 species
template <int R> void Kinetic(pbt::Case& c) {
  using Eq = PerfectGasMix<R>;
  constexpr int N = kDefaultChunkSize;
  auto m = Draw<R>(c);
  const Eq& eq = m.eq;
  KineticStateArray<Eq> ka{eq}, kb{eq};
  CompleteArray<Eq> qa{eq};
  Array<double, R> ua = Array<double, R>::Zero();
  std::vector<Complete<Eq>> q;
  c.nontrivial(eq.n_species > 0);
  for (int l = 0; l < N; ++l) {
    Vec w = l ? fx::Tr<Eq>::Perturb(c, eq, m.w, 1.0) : m.w;
    // a composition; the last entry belongs to the species that is not stored
    Vec X(std::size_t(eq.n_species) + 1);
    double sum = 0;
    for (double& x : X)
      sum += x = c.chance(1, 5) ? 0.0 : c.unit();
    if (sum == 0)
      sum = X.back() = 1.0;
    const double norm = c.boolean() ? sum : 1.0; // need not be normalised
    for (double& x : X)
      x /= norm;
    sum /= norm;
    const double rho = w[0], p = w[R + 1];
    KineticState<Eq> k{eq};
    Vec kv{rho, p / rho};
    kv.insert(kv.end(), X.begin(), X.end());
    for (int i = 0; i < eq.n_passive_scalars; ++i)
      kv.push_back(w[R + 2 + eq.n_species + i]);
    tst::SetComps(k, kv);
    tst::SetLane(ka, l, kv);
    for (int i = 0; i < eq.n_species; ++i)
      w[R + 2 + i] = X[i] / sum;
    Array<double, R, 1> u;
    const bool rest = c.chance(1, 4);
    for (int d = 0; d < R; ++d) {
      if (rest)
        w[1 + d] = 0;
      u[d] = w[1 + d];
      ua(d, l) = w[1 + d];
    }
    Complete<Eq> s{eq};
    if (rest && c.boolean())
      euler::CompleteFromKineticState(eq, s, k);
    else
      euler::CompleteFromKineticState(eq, s, k, u);
    if (l == 0)
      c.note("kinetic state", pbt::list(kv));
    Compare<R>(c, eq, tst::Comps(s), w, "CompleteFromKineticState");
    c.rel(euler::Pressure(eq, k), p, 1e-13, "pressure of a kinetic state", 0);
    c.rel(euler::InternalEnergy(eq, k), p / rho / (eq.gamma - 1), 1e-12, "internal energy of a kinetic state", 0);
    KineticState<Eq> back{eq};
    euler::KineticStateFromComplete(eq, back, s);
    Vec want = kv;
    for (std::size_t i = 0; i < X.size(); ++i)
      want[2 + i] = X[i] / sum;
    const Vec got = tst::Comps(back);
    for (std::size_t i = 0; i < want.size(); ++i)
      c.near(got[i], want[i], 1e-12 * (std::abs(want[i]) + (i >= 2 ? 1 : 0)), "KineticStateFromComplete, component " + std::to_string(i));
    q.push_back(s);
  }
  euler::CompleteFromKineticState(eq, qa, ka, ua);
  for (int l = 0; l < N; ++l) {
    const Vec a = tst::GetLane(qa, l), b = tst::Comps(q[l]);
    for (std::size_t i = 0; i < a.size(); ++i)
      c.near(a[i], b[i], 1e-12 * std::abs(b[i]) + 1e-300, "vectorised CompleteFromKineticState, component " + std::to_string(i));
  }
  euler::KineticStateFromComplete(eq, kb, qa);
  for (int l = 0; l < N; ++l) {
    KineticState<Eq> one{eq};
    euler::KineticStateFromComplete(eq, one, q[l]);
    const Vec a = tst::GetLane(kb, l), b = tst::Comps(one);
    for (std::size_t i = 0; i < a.size(); ++i)
      c.near(a[i], b[i], 1e-12 * (std::abs(b[i]) + 1), "vectorised KineticStateFromComplete, component " + std::to_string(i));
  }
}
/// species outside of [0, 1] are clipped and normalised, scalar and vectorised alike
template <int R> void KineticClip(pbt::Case& c) {
  using Eq = PerfectGasMix<R>;
  constexpr int N = kDefaultChunkSize;
  auto m = Draw<R>(c);
  const Eq& eq = m.eq;
  CompleteArray<Eq> qa{eq};
  std::vector<Complete<Eq>> q;
  bool outside = false;
  for (int l = 0; l < N; ++l) {
    Complete<Eq> s{eq};
    Vec w = m.w;
    for (int i = 0; i < eq.n_species; ++i) {
      w[R + 2 + i] = c.symmetric(1.5);
      outside = outside || w[R + 2 + i] < 0 || w[R + 2 + i] > 1;
    }
    fx::Tr<Eq>::Make(eq, w, s);
    q.push_back(s);
    tst::SetLane(qa, l, tst::Comps(s));
  }
  c.nontrivial(outside);
  KineticStateArray<Eq> ka{eq};
  euler::KineticStateFromComplete(eq, ka, qa);
  for (int l = 0; l < N; ++l) {
    KineticState<Eq> k{eq};
    euler::KineticStateFromComplete(eq, k, q[l]);
    const Vec a = tst::GetLane(ka, l), b = tst::Comps(k);
    double sum = 0;
    for (int i = 0; i <= eq.n_species; ++i) {
      sum += b[2 + i];
      c.check(b[2 + i] >= 0, "a negative mole fraction " + pbt::fmt(b[2 + i]));
    }
    c.near(sum, 1.0, 1e-12, "sum of the mole fractions");
    for (std::size_t i = 0; i < a.size(); ++i)
      c.near(a[i], b[i], 1e-12 * (std::abs(b[i]) + 1), "vectorised kinetic state, component " + std::to_string(i));
  }
}
#define FOR(R)                                                                                                                                                 \
  PBT_PROP("conversions rank " #R, 1500, 40000) { Conversions<R>(c); }                                                                                          \
  PBT_PROP("kinetic states rank " #R, 1000, 30000) { Kinetic<R>(c); }                                                                                           \
  PBT_PROP("clipping rank " #R, 500, 10000) { KineticClip<R>(c); }
FOR(1)
FOR(2)
FOR(3)

pbt::Setup setup([] {
  for (const auto& e : fx::Registry()) {
    const bool mix = e.name.find("PerfectGasMix") == 0, ideal = e.name.find("IdealGasMix") == 0;
    auto add = [&](const std::string& what, double q, double t, void (*body)(pbt::Case&, fx::Method&)) {
      auto make = e.make;
      const std::string name = e.name;
      pbt::registry().push_back(pbt::Prop{what + ": " + name, int(q), int(t), [make, name, body](pbt::Case& c) {
                                            auto m = make(c);
                                            m->name = name;
                                            body(c, *m);
                                          }});
    };
    const bool first = e.name.find("Muscl") == std::string::npos;
    const bool lar = e.name.find("Larrouturou") != std::string::npos, hllem = e.name.find("Hllem") != std::string::npos;
    if (mix) {
      add("equal concentrations", 1500, 40000, Equal);
      if (first && lar)
        add("upwind", 1500, 40000, Upwind);
      if (first && (lar || !hllem))
        add("bounds", 1500, 40000, Bounded);
    }
    if (ideal) {
      add("equal concentrations", 150, 2000, Equal);
      if (first) {
        add("sum of species", 200, 4000, SumOfSpecies);
        add("bounds", 150, 3000, Bounded);
      }
    }
  }
});
} // namespace

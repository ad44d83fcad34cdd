// Implementation of fx::Method for the equations of the library.
#pragma once
#include "fx.hpp"
#include "patch.hpp"
#include "fub/flux_method/FluxMethod.hpp"

namespace fx {
using namespace fub;
template <typename Eq> struct Tr;

template <typename Eq> std::vector<std::vector<double>> ArrLanes(const fub::ConservativeArray<Eq>& a) {
  std::vector<std::vector<double>> r;
  for (int l = 0; l < kDefaultChunkSize; ++l)
    r.push_back(tst::GetLane(a, l));
  return r;
}

template <typename Eq, typename FM, bool HasSeq, bool HasMasked> struct Impl : Method {
  static constexpr int R = Eq::Rank();
  using CompleteT = fub::Complete<Eq>;
  using ConsT = fub::Conservative<Eq>;
  Eq eq;
  FM fm;
  template <typename MakeFm> Impl(const Eq& e, MakeFm mk) : eq(e), fm(mk(eq)) {
    rank = R;
    width = FM::GetStencilWidth();
    seq = HasSeq;
    masked = HasMasked;
    first_order = width == 1;
    if (!first_order)
      max_amp = 0.15;
    comps = Tr<Eq>::Comps(eq);
    ncons = int(comps.size());
    ncomp = int(tst::Comps(CompleteT{eq}).size());
    family = Tr<Eq>::Name();
  }
  const void* EquationPtr() const override { return &eq; }
  Field MakeField(pbt::Case& c, double amp) override { return Field{Tr<Eq>::Base(c, eq), std::min(amp, max_amp)}; }
  std::vector<double> Perturb(pbt::Case& c, const Field& f) override { return Tr<Eq>::Perturb(c, eq, f.base, f.amp); }
  std::vector<double> FromPrim(const std::vector<double>& prim) override {
    CompleteT q{eq};
    Tr<Eq>::Make(eq, prim, q);
    return tst::Comps(q);
  }
  std::vector<double> State(pbt::Case& c, const Field& f) override { return FromPrim(Perturb(c, f)); }
  std::vector<double> Complete(const std::vector<double>& cons) override {
    ConsT q{eq};
    tst::SetComps(q, cons);
    CompleteT r{eq};
    if constexpr (std::is_same_v<typename Eq::ConservativeDepths, typename Eq::CompleteDepths>)
      tst::SetComps(r, cons);
    else
      CompleteFromCons(eq, r, q);
    return tst::Comps(r);
  }
  std::vector<double> PhysFlux(const std::vector<double>& q, int dir) override {
    CompleteT s{eq};
    tst::SetComps(s, q);
    ConsT f{eq};
    fub::Flux(eq, f, s, Direction(dir));
    return tst::Comps(f);
  }
  std::vector<double> PhysFluxSimd(const std::vector<double>& q, int dir, int lane) override {
    CompleteArray<Eq> s{eq};
    for (int l = 0; l < kDefaultChunkSize; ++l)
      tst::SetLane(s, l, q);
    ConservativeArray<Eq> f{eq};
    fub::Flux(eq, f, s, Direction(dir));
    return tst::GetLane(f, lane);
  }
  std::vector<double> Scale(const std::vector<double>& q) override {
    CompleteT s{eq};
    tst::SetComps(s, q);
    return Tr<Eq>::Scale(eq, s);
  }
  std::array<double, 3> Speeds(const std::vector<double>& q, int dir) override {
    CompleteT s{eq};
    tst::SetComps(s, q);
    return Tr<Eq>::Speeds(eq, s, dir);
  }
  static IndexBox<R> ToBox(const Box& b) {
    IndexBox<R> r;
    for (int i = 0; i < R; ++i) {
      r.lower[i] = b.first[i];
      r.upper[i] = b.second[i];
    }
    return r;
  }
  void Fluxes(Backend b, Data& flux, const Box& faces, const Data& states, const Box& view, double dt, double dx, int dir) override {
    tst::Patch<CompleteT> s(eq, ToBox(Whole(states)));
    s.data = states.v;
    tst::Patch<ConsT> f(eq, ToBox(Whole(flux)));
    f.data = flux.v;
    // the views refer to the buffers: rebuild them after the assignment
    Rebind(s);
    Rebind(f);
    const View<ConsT> fv = f.sub(ToBox(faces));
    const View<const CompleteT> sv = s.csub(ToBox(view));
    const Direction d = Direction(dir);
    if constexpr (HasSeq) {
      if (b == Seq)
        fm.ComputeNumericFluxes(execution::seq, fv, sv, Duration(dt), dx, d);
      if (b == Default)
        fm.ComputeNumericFluxes(fv, sv, Duration(dt), dx, d);
      if (b == OpenMp)
        fm.ComputeNumericFluxes(execution::openmp, fv, sv, Duration(dt), dx, d);
    }
    if (b == Simd)
      fm.ComputeNumericFluxes(execution::simd, fv, sv, Duration(dt), dx, d);
    if (b == OpenMpSimd)
      fm.ComputeNumericFluxes(execution::openmp_simd, fv, sv, Duration(dt), dx, d);
    flux.v = f.data;
  }
  void CompletePatch(Backend b, Data& states, const Box& box) override {
    if constexpr (!std::is_same_v<typename Eq::ConservativeDepths, typename Eq::CompleteDepths>) {
      tst::Patch<CompleteT> s(eq, ToBox(Whole(states)));
      s.data = states.v;
      Rebind(s);
      const View<CompleteT> sv = s.sub(ToBox(box));
      const View<const ConsT> cv = AsConst(AsCons(sv));
      CompleteFromConsFn<Eq> fn{eq};
      if (b == Simd || b == OpenMpSimd)
        fn.CompleteFromCons(execution::simd, sv, cv);
      else
        fn.CompleteFromCons(execution::seq, sv, cv);
      states.v = s.data;
    }
  }
  template <typename Pt> void Rebind(Pt& p) {
    // data was assigned with equal size, so the storage did not move
    if (p.data.size() != static_cast<std::size_t>(p.ncomp * p.cells))
      throw std::logic_error("fx: size of the buffer");
  }
  double StableDt(Backend b, const Data& states, const Box& view, double dx, int dir) override {
    tst::Patch<CompleteT> s(eq, ToBox(Whole(states)));
    std::copy(states.v.begin(), states.v.end(), s.data.begin());
    const View<const CompleteT> sv = s.csub(ToBox(view));
    const Direction d = Direction(dir);
    if constexpr (HasSeq) {
      if (b == Seq)
        return fm.ComputeStableDt(execution::seq, sv, dx, d);
      if (b == Default)
        return fm.ComputeStableDt(sv, dx, d);
      if (b == OpenMp)
        return fm.ComputeStableDt(execution::openmp, sv, dx, d);
    }
    if (b == Simd)
      return fm.ComputeStableDt(execution::simd, sv, dx, d);
    return fm.ComputeStableDt(execution::openmp_simd, sv, dx, d);
  }
  static constexpr std::size_t N = static_cast<std::size_t>(2 * FM::GetStencilWidth());
  std::vector<std::vector<double>> Masked(const std::vector<std::vector<std::vector<double>>>& stencil, const std::vector<double>& face,
                                          const std::vector<std::vector<double>>& vol, double dt, double dx, int dir) override {
    if constexpr (HasMasked) {
      std::array<CompleteArray<Eq>, N> st;
      std::array<Array1d, N> vf;
      Array1d ff;
      for (std::size_t k = 0; k < N; ++k) {
        st[k] = CompleteArray<Eq>{eq};
        for (int l = 0; l < kDefaultChunkSize; ++l) {
          tst::SetLane(st[k], l, stencil[k][static_cast<std::size_t>(l)]);
          vf[k][l] = vol[k][static_cast<std::size_t>(l)];
        }
      }
      for (int l = 0; l < kDefaultChunkSize; ++l)
        ff[l] = face[static_cast<std::size_t>(l)];
      ConservativeArray<Eq> f{eq};
      ForEachComponent([](auto&& x) { x = Array1d::Constant(777.0); }, f);
      fm.ComputeNumericFlux(f, ff, st, vf, Duration(dt), dx, Direction(dir));
      return ArrLanes<Eq>(f);
    }
    return {};
  }
  std::vector<double> MaskedDt(const std::vector<std::vector<std::vector<double>>>& stencil, const std::vector<double>& face,
                               const std::vector<std::vector<double>>& vol, double dx, int dir) override {
    if constexpr (HasMasked) {
      std::array<CompleteArray<Eq>, N> st;
      std::array<Array1d, N> vf;
      Array1d ff;
      for (std::size_t k = 0; k < N; ++k) {
        st[k] = CompleteArray<Eq>{eq};
        for (int l = 0; l < kDefaultChunkSize; ++l) {
          tst::SetLane(st[k], l, stencil[k][static_cast<std::size_t>(l)]);
          vf[k][l] = vol[k][static_cast<std::size_t>(l)];
        }
      }
      for (int l = 0; l < kDefaultChunkSize; ++l)
        ff[l] = face[static_cast<std::size_t>(l)];
      const Array1d r = fm.ComputeStableDt(st, ff, vf, dx, Direction(dir));
      return std::vector<double>(r.data(), r.data() + kDefaultChunkSize);
    }
    return {};
  }
};

/// FX(name, weight, equation, flux method, sequential?, masked?, tweak of the method description)
template <typename Eq, typename FM, bool S, bool M, typename T> Maker MakeMaker(T tweak) {
  return [tweak](pbt::Case& c) -> std::unique_ptr<Method> {
    Eq eq = EquationOverride() ? *static_cast<const Eq*>(EquationOverride()) : Tr<Eq>::Equation(c);
    auto p = std::make_unique<Impl<Eq, FM, S, M>>(eq, [](const Eq& e) { return FM(e); });
    Tr<Eq>::Describe(eq, *p);
    tweak(*p);
    return p;
  };
}
#define FX_CAT2(a, b) a##b
#define FX_CAT(a, b) FX_CAT2(a, b)
} // namespace fx
#define FX_METHOD(name, weight, EQ, FM, S, M, ...)                                                                                                    \
  static fx::Reg FX_CAT(fx_reg_, __COUNTER__)(name, weight, fx::MakeMaker<EQ, FM, S, M>([](fx::Method & m) { (void)m; __VA_ARGS__; }))

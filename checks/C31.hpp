// C31: complete solver runs on one level with the library's flux methods.
#pragma once
#include "fx.hpp"
#include "fakempi.hpp"
#include "fub/core/type_traits.hpp"
#include "fub/ext/outcome.hpp"
#include "fub/HyperbolicMethod.hpp"
#include "fub/HyperbolicPatchIntegrator.hpp"
#include "fub/RunSimulation.hpp"
#include "fub/TimeStepError.hpp"
#include "fub/output/AsOutput.hpp"
#include "fub/output/MultipleOutputs.hpp"
#include "fub/solver/DimensionalSplitLevelIntegrator.hpp"
#include "fub/solver/NoSubcycleSolver.hpp"
#include "fub/solver/SubcycleFineFirstSolver.hpp"
#include "fub/split_method/StrangSplitting.hpp"
#include "fub/split_method/StrangSplittingLumped.hpp"

namespace sr {
using namespace fub;
using fx::Backend;
using fx::Box;
using fx::Data;
using fx::P;
using I3 = std::array<P, 3>;
enum Bc { Periodic, Wall, Open };

struct Setup {
  int rank{1};
  I3 n{1, 1, 1};
  std::array<double, 3> dx{1, 1, 1};
  std::array<Bc, 3> bc{Periodic, Periodic, Periodic};
  Backend backend{fx::Seq};
  fx::Method* method{nullptr};
};

struct Grid {
  Data data;
  Duration time{};
  std::ptrdiff_t cycles{0};
  Duration GetTimePoint() const { return time; }
  std::ptrdiff_t GetCycles() const { return cycles; }
};

class Ctx {
public:
  struct Options {
    int regrid_frequency{1};
  };
  struct Ratio {
    int max() const { return 1; }
  };
  Setup setup;
  Options options;
  Data scratch, flux;
  Box valid;      // where the scratch data are meaningful
  Box flux_valid; // faces
  int dir_of_flux{-1};
  std::vector<double> steps;
  long queries{0};

  Ctx(const Setup& s, const Data& init, HyperbolicMethod<Ctx> m)
      : setup(s), method_(std::move(m)), registry_(std::make_shared<CounterRegistry>()), grid_(std::make_shared<Grid>()) {
    grid_->data = init;
    gcw_ = 2 * method_.flux_method.GetStencilWidth();
    scratch.rank = s.rank;
    scratch.nc = init.nc;
    for (int d = 0; d < s.rank; ++d) {
      scratch.lo[d] = -gcw_;
      scratch.n[d] = s.n[d] + 2 * gcw_;
    }
    scratch.alloc(std::numeric_limits<double>::quiet_NaN());
    CopyDataToScratch(0);
  }
  Ctx(const Ctx& o)
      : setup(o.setup), options(o.options), scratch(o.scratch), flux(o.flux), valid(o.valid), flux_valid(o.flux_valid), dir_of_flux(o.dir_of_flux), steps(o.steps),
        queries(o.queries), method_(o.method_), registry_(o.registry_), grid_(std::make_shared<Grid>(*o.grid_)), gcw_(o.gcw_), time_(o.time_), cycles_(o.cycles_) {}
  Ctx& operator=(const Ctx& o) {
    Ctx c(o);
    return *this = std::move(c);
  }
  Ctx(Ctx&&) = default;
  Ctx& operator=(Ctx&&) = default;

  const std::shared_ptr<Grid>& GetGriddingAlgorithm() const { return grid_; }
  const std::shared_ptr<CounterRegistry>& GetCounterRegistry() const { return registry_; }
  MPI_Comm GetMpiCommunicator() const { return MPI_COMM_WORLD; }
  const Options& GetOptions() const { return options; }
  std::ptrdiff_t GetCycles(int = 0) const { return cycles_; }
  Duration GetTimePoint(int = 0) const { return time_; }
  bool LevelExists(int level) const { return level == 0; }
  Ratio GetRatioToCoarserLevel(int) const { return {}; }
  void ResetHierarchyConfiguration() {}
  void PreAdvanceHierarchy() { method_.flux_method.PreAdvanceHierarchy(*this); }
  void PostAdvanceHierarchy(Duration) {
    grid_->time = time_;
    grid_->cycles = cycles_;
  }
  int PreAdvanceLevel(int, Duration, std::pair<int, int>) { return 1; }
  Result<void, TimeStepTooLarge> PostAdvanceLevel(int, Duration dt, std::pair<int, int>) {
    time_ += dt;
    cycles_ += 1;
    steps.push_back(dt.count());
    return boost::outcome_v2::success();
  }
  Box Domain() const {
    Box b{I3{0, 0, 0}, I3{1, 1, 1}};
    for (int d = 0; d < setup.rank; ++d)
      b.second[d] = setup.n[d];
    return b;
  }
  void CopyDataToScratch(int) {
    fx::Each(Domain(), [&](I3 i) { scratch.set(i, grid_->data.get(i)); });
    FillGhostLayerSingleLevel(0);
  }
  void CopyScratchToData(int) {
    fx::Each(Domain(), [&](I3 i) { grid_->data.set(i, scratch.get(i)); });
  }
  void FillGhostLayerSingleLevel(int) {
    valid = Domain();
    for (int d = 0; d < setup.rank; ++d)
      FillDirection(d);
  }
  void FillGhostLayerTwoLevels(int, int) { throw std::logic_error("there is only one level"); }
  void ApplyBoundaryCondition(int, Direction dir) {
    if (setup.bc[int(dir)] != Periodic)
      FillDirection(int(dir));
  }
  void PreSplitStep(int level, Duration dt, Direction dir, std::pair<int, int> k) { method_.flux_method.PreSplitStep(*this, level, dt, dir, k); }
  Duration ComputeStableDt(int level, Direction dir) {
    if (++queries > 20000)
      throw std::runtime_error("the run does not come to an end");
    return method_.flux_method.ComputeStableDt(*this, level, dir);
  }
  void ComputeNumericFluxes(int level, Duration dt, Direction dir) { method_.flux_method.ComputeNumericFluxes(*this, level, dt, dir); }
  void UpdateConservatively(int level, Duration dt, Direction dir) { method_.time_integrator.UpdateConservatively(*this, level, dt, dir); }
  void CompleteFromCons(int level, Duration dt) { method_.reconstruction.CompleteFromCons(*this, level, dt); }
  void AccumulateCoarseFineFluxes(int, double, Direction) {}
  void ResetCoarseFineFluxes(int, int) { throw std::logic_error("there is only one level"); }
  void ApplyFluxCorrection(int, int, Duration) { throw std::logic_error("there is only one level"); }
  void CoarsenConservatively(int, int) { throw std::logic_error("there is only one level"); }

private:
  HyperbolicMethod<Ctx> method_;
  std::shared_ptr<CounterRegistry> registry_;
  std::shared_ptr<Grid> grid_;
  P gcw_{1};
  Duration time_{};
  std::ptrdiff_t cycles_{0};

  // fills the ghost cells in one direction for everything that is valid in the
  // other directions
  void FillDirection(int d) {
    const P n = setup.n[d];
    valid.first[d] = -gcw_;
    valid.second[d] = n + gcw_;
    const fx::Method& m = *setup.method;
    fx::Each(valid, [&](I3 i) {
      if (i[d] >= 0 && i[d] < n)
        return;
      I3 j = i;
      double sign = 1.0;
      switch (setup.bc[d]) {
      case Periodic:
        j[d] = ((i[d] % n) + n) % n;
        break;
      case Wall: {
        // unfold repeated reflections of a narrow box
        const P k = ((i[d] % (2 * n)) + 2 * n) % (2 * n);
        j[d] = k < n ? k : 2 * n - 1 - k;
        sign = k < n ? 1.0 : -1.0;
        break;
      }
      case Open:
        j[d] = std::min(n - 1, std::max<P>(0, i[d]));
        break;
      }
      auto q = scratch.get(j);
      for (std::size_t k = 0; k < m.comps.size(); ++k)
        if (m.comps[k].kind == fx::Momentum && m.comps[k].d == d)
          q[k] *= sign;
      scratch.set(i, q);
    });
  }
};

/// the strategies, as an application provides them
struct Flux {
  int calls{0};
  Duration ComputeStableDt(Ctx& x, int, Direction dir) {
    const int d = int(dir);
    Box b = x.Domain();
    b.first[d] -= x.setup.method->width;
    b.second[d] += x.setup.method->width;
    Backend k = x.setup.backend;
    if (!x.setup.method->has_simd_dt && (k == fx::Simd || k == fx::OpenMpSimd))
      k = fx::Seq;
    return Duration(x.setup.method->StableDt(k, x.scratch, b, x.setup.dx[d], d));
  }
  void ComputeNumericFluxes(Ctx& x, int, Duration dt, Direction dir) {
    const int d = int(dir), w = x.setup.method->width;
    Box faces = x.valid;
    faces.first[d] += w;
    faces.second[d] += 1 - w;
    if (faces.first[d] > 0 || faces.second[d] < x.setup.n[d] + 1)
      throw std::logic_error("more steps in a direction than ghost cells are left");
    for (int e = 0; e < x.setup.rank; ++e)
      if (x.valid.first[e] > 0 || x.valid.second[e] < x.setup.n[e])
        throw std::logic_error("incomplete data");
    Data f;
    f.rank = x.setup.rank;
    f.nc = x.setup.method->ncons;
    f.lo = faces.first;
    for (int e = 0; e < 3; ++e)
      f.n[e] = faces.second[e] - faces.first[e];
    f.alloc(std::numeric_limits<double>::quiet_NaN());
    Box view = x.valid;
    x.setup.method->Fluxes(x.setup.backend, f, faces, x.scratch, view, dt.count(), x.setup.dx[d], d);
    x.flux = std::move(f);
    x.flux_valid = faces;
    x.dir_of_flux = d;
  }
  int GetStencilWidth() const { return width; }
  int width{1};
};
struct Update {
  template <int R> static PatchDataView<double, R + 1> View(Data& d) {
    std::array<P, std::size_t(R + 1)> e, o;
    for (int r = 0; r < R; ++r) {
      e[r] = d.n[r];
      o[r] = d.lo[r];
    }
    e[R] = d.nc;
    o[R] = 0;
    return PatchDataView<double, R + 1>(mdspan<double, R + 1>(d.v.data(), e), o);
  }
  template <int R, typename Tag> static void Run(Ctx& x, Duration dt, int d, Tag tag) {
    IndexBox<R + 1> cells, faces;
    for (int r = 0; r < R; ++r) {
      faces.lower[r] = x.flux_valid.first[r];
      faces.upper[r] = x.flux_valid.second[r];
    }
    faces.lower[R] = 0;
    faces.upper[R] = x.setup.method->ncons;
    cells = faces;
    cells.upper[d] -= 1;
    HyperbolicPatchIntegrator<Tag> integrator(tag);
    auto s = View<R>(x.scratch), f = View<R>(x.flux);
    integrator.UpdateConservatively(s.Subview(cells), s.Subview(cells), f.Subview(faces), dt, x.setup.dx[d], Direction(d));
    for (int r = 0; r < R; ++r) {
      x.valid.first[r] = cells.lower[r];
      x.valid.second[r] = cells.upper[r];
    }
  }
  template <typename Tag> static void ByRank(Ctx& x, Duration dt, int d, Tag tag) {
    if (x.setup.rank == 1)
      Run<1>(x, dt, d, tag);
    else if (x.setup.rank == 2)
      Run<2>(x, dt, d, tag);
    else
      Run<3>(x, dt, d, tag);
  }
  void UpdateConservatively(Ctx& x, int, Duration dt, Direction dir) {
    const int d = int(dir);
    if (x.dir_of_flux != d)
      throw std::logic_error("an update without fluxes");
    x.dir_of_flux = -1;
    switch (x.setup.backend) {
    case fx::Simd:
      return ByRank(x, dt, d, execution::simd);
    case fx::OpenMp:
      return ByRank(x, dt, d, execution::openmp);
    case fx::OpenMpSimd:
      return ByRank(x, dt, d, execution::openmp_simd);
    default:
      return ByRank(x, dt, d, execution::seq);
    }
  }
};
struct Complete {
  void CompleteFromCons(Ctx& x, int, Duration) { x.setup.method->CompletePatch(x.setup.backend, x.scratch, x.valid); }
};

struct Result_ {
  Data data;
  double time{0};
  std::ptrdiff_t cycles{0};
  std::vector<double> steps;
};
struct RunConfig {
  int split{0};    // Godunov, Strang, lumped Strang
  bool subcycle{false};
  double cfl{0.5};
  long max_cycles{5};
  double final_time{1e300};
  std::function<void(const Grid&)> each;
};
template <int R, typename Split> Result_ RunWith(const Setup& s, const Data& init, const RunConfig& k) {
  Flux f;
  f.width = s.method->width;
  Ctx ctx(s, init, HyperbolicMethod<Ctx>{f, Update{}, Complete{}});
  using Level = DimensionalSplitLevelIntegrator<R, Ctx, Split>;
  auto go = [&](auto solver) {
    RunOptions o;
    o.cfl = k.cfl;
    o.max_cycles = k.max_cycles;
    o.final_time = Duration(k.final_time);
    o.smallest_time_step_size = Duration(1e-18);
    MultipleOutputs<Grid> out;
    if (k.each)
      out.AddOutput(MakeOutput<Grid>({1}, {}, [&](const Grid& g) { k.each(g); }));
    RunSimulation(solver, o, std::chrono::steady_clock::now(), out);
    Result_ r;
    r.data = solver.GetContext().GetGriddingAlgorithm()->data;
    r.time = solver.GetContext().GetTimePoint().count();
    r.cycles = solver.GetContext().GetCycles();
    r.steps = solver.GetContext().steps;
    return r;
  };
  if (k.subcycle)
    return go(SubcycleFineFirstSolver<Level>{Level(int_constant<R>{}, std::move(ctx))});
  return go(NoSubcycleSolver<Level>{Level(int_constant<R>{}, std::move(ctx))});
}
template <int R> Result_ RunRank(const Setup& s, const Data& init, const RunConfig& k) {
  if (k.split == 0)
    return RunWith<R, GodunovSplitting>(s, init, k);
  if (k.split == 1)
    return RunWith<R, StrangSplitting>(s, init, k);
  return RunWith<R, StrangSplittingLumped>(s, init, k);
}
Result_ Run1(const Setup& s, const Data& init, const RunConfig& k);
Result_ Run2(const Setup& s, const Data& init, const RunConfig& k);
Result_ Run3(const Setup& s, const Data& init, const RunConfig& k);
inline Result_ Run(const Setup& s, const Data& init, const RunConfig& k) { return s.rank == 1 ? Run1(s, init, k) : s.rank == 2 ? Run2(s, init, k) : Run3(s, init, k); }
} // namespace sr

// A small adaptive-mesh context with the interface the level integrators and
// subcycling solvers of the library expect. It solves u_t + div(a u) = 0 with
// upwind fluxes on nested boxes, keeps flux registers, and has a derived
// variable w = 2 u that the fluxes read (so forgotten completions show).
#pragma once
#include "fub/Direction.hpp"
#include "fub/Duration.hpp"
#include "fub/TimeStepError.hpp"
#include "fub/counter/CounterRegistry.hpp"
#include "fub/ext/outcome.hpp"

#include <algorithm>
#include <array>
#include <cmath>
#include <functional>
#include <limits>
#include <memory>
#include <mpi.h>
#include <string>
#include <vector>

namespace amr {
using fub::Direction;
using fub::Duration;
using I3 = std::array<int, 3>;

struct Ratio {
  I3 r{1, 1, 1};
  int max() const { return std::max({r[0], r[1], r[2]}); }
};

struct Box { // [lo, hi)
  I3 lo{0, 0, 0}, hi{1, 1, 1};
  bool contains(const I3& i) const {
    for (int d = 0; d < 3; ++d)
      if (i[d] < lo[d] || i[d] >= hi[d])
        return false;
    return true;
  }
  bool operator==(const Box& b) const { return lo == b.lo && hi == b.hi; }
  std::size_t size() const {
    std::size_t n = 1;
    for (int d = 0; d < 3; ++d)
      n *= static_cast<std::size_t>(std::max(0, hi[d] - lo[d]));
    return n;
  }
};
template <class F> void ForEach(const Box& b, F f) {
  for (int k = b.lo[2]; k < b.hi[2]; ++k)
    for (int j = b.lo[1]; j < b.hi[1]; ++j)
      for (int i = b.lo[0]; i < b.hi[0]; ++i)
        f(I3{i, j, k});
}

struct Field {
  Box box;
  std::vector<double> v;
  Field() = default;
  explicit Field(const Box& b, double x = 0) : box(b), v(b.size(), x) {}
  std::size_t at(const I3& i) const {
    const std::size_t n0 = static_cast<std::size_t>(box.hi[0] - box.lo[0]), n1 = static_cast<std::size_t>(box.hi[1] - box.lo[1]);
    if (!box.contains(i))
      throw std::out_of_range("cell outside of a field");
    return (static_cast<std::size_t>(i[2] - box.lo[2]) * n1 + static_cast<std::size_t>(i[1] - box.lo[1])) * n0 + static_cast<std::size_t>(i[0] - box.lo[0]);
  }
  double& operator()(const I3& i) { return v[at(i)]; }
  double operator()(const I3& i) const { return v[at(i)]; }
};
struct Two { // conservative and derived variable
  Field u, w;
  Two() = default;
  explicit Two(const Box& b, double x = 0) : u(b, x), w(b, 2 * x) {}
};

inline int FloorDiv(int a, int b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }

struct Config {
  int rank{1};
  int gcw{4};
  std::array<bool, 3> periodic{true, true, true};
  std::array<double, 3> a{1, 1, 1};
  Box domain;               // of level 0
  std::vector<Ratio> ratio; // ratio[l] to level l-1, ratio[0] unused
  Box DomainOf(int level) const {
    Box b = domain;
    for (int l = 1; l <= level; ++l)
      for (int d = 0; d < 3; ++d) {
        b.lo[d] *= ratio[l].r[d];
        b.hi[d] *= ratio[l].r[d];
      }
    return b;
  }
  double Dx(int level, int d) const {
    double x = 1.0;
    for (int l = 1; l <= level; ++l)
      x /= ratio[l].r[d];
    return x;
  }
  double Volume(int level) const {
    double v = 1;
    for (int d = 0; d < rank; ++d)
      v *= Dx(level, d);
    return v;
  }
};

struct Call {
  std::string what;
  int level{-1};
  int dir{-1};
  double dt{0};
  int sub{0};
};

// Data published by the solver: what outputs and backups see.
struct Grid {
  std::vector<Two> data;
  std::vector<Duration> time;
  std::vector<std::ptrdiff_t> cycles;
  Duration GetTimePoint() const { return time.at(0); }
  std::ptrdiff_t GetCycles() const { return cycles.at(0); }
};

class Context {
public:
  struct Options {
    int regrid_frequency{1};
  };

  Config cfg;
  std::vector<Call> log;
  Options options;
  bool logging{true};
  // Called at every query of a stable time step; default: no restriction.
  std::function<double(int, int)> stable;
  // Called at the end of a level step; may ask for a smaller step.
  std::function<fub::Result<void, fub::TimeStepTooLarge>(int, Duration)> post;
  // Called before a level step; returns new boxes for the finer levels.
  std::function<bool(int, std::vector<Box>&)> regrid;
  // Called before a coarse step; true: all levels are moved in memory.
  std::function<bool()> redistribute;
  bool failed{false};
  int calls_after_failure{0};
  int max_levels{4};

  explicit Context(Config c, const std::vector<Box>& boxes, const std::function<double(int, const I3&)>& init)
      : cfg(std::move(c)), registry_(std::make_shared<fub::CounterRegistry>()), grid_(std::make_shared<Grid>()) {
    for (std::size_t l = 0; l < boxes.size(); ++l) {
      Two t(boxes[l]);
      ForEach(boxes[l], [&](const I3& i) {
        t.u(i) = init(static_cast<int>(l), i);
        t.w(i) = 2 * t.u(i);
      });
      grid_->data.push_back(t);
      grid_->time.push_back(Duration(0));
      grid_->cycles.push_back(0);
    }
    for (int l = static_cast<int>(boxes.size()) - 1; l > 0; --l)
      Average(l, grid_->data[l], grid_->data[l - 1], true);
    MakeLevels(0);
    FillAll();
  }
  Context(const Context& o)
      : cfg(o.cfg), log(o.log), options(o.options), logging(o.logging), stable(o.stable), post(o.post), regrid(o.regrid), redistribute(o.redistribute), failed(o.failed),
        calls_after_failure(o.calls_after_failure), max_levels(o.max_levels), registry_(o.registry_), grid_(std::make_shared<Grid>(*o.grid_)),
        levels_(o.levels_) {}
  Context& operator=(const Context& o) {
    Context c(o);
    return *this = std::move(c);
  }
  Context(Context&&) = default;
  Context& operator=(Context&&) = default;

  const std::shared_ptr<Grid>& GetGriddingAlgorithm() const { return grid_; }
  const std::shared_ptr<fub::CounterRegistry>& GetCounterRegistry() const { return registry_; }
  MPI_Comm GetMpiCommunicator() const { return MPI_COMM_WORLD; }
  const Options& GetOptions() const { return options; }
  std::ptrdiff_t GetCycles(int level = 0) const { return levels_.at(level).cycles; }
  Duration GetTimePoint(int level = 0) const { return levels_.at(level).time; }
  bool LevelExists(int level) const { return level >= 0 && level < static_cast<int>(levels_.size()); }
  Ratio GetRatioToCoarserLevel(int level) const { return cfg.ratio.at(level); }
  void ResetHierarchyConfiguration() { FillAll(); }
  const Two& Scratch(int level) const { return levels_.at(level).scratch; }
  Two& Scratch(int level) { return levels_.at(level).scratch; }
  const Box& BoxOf(int level) const { return grid_->data.at(level).u.box; }

  void PreAdvanceHierarchy() { Log("PreAdvanceHierarchy"); }
  void PostAdvanceHierarchy(Duration dt) {
    Log("PostAdvanceHierarchy", -1, -1, dt.count());
    for (std::size_t l = 0; l < grid_->data.size(); ++l) {
      grid_->time[l] = levels_[0].time;
      grid_->cycles[l] = levels_[l].cycles;
    }
  }
  int PreAdvanceLevel(int level, Duration dt, std::pair<int, int> sub) {
    Log("PreAdvanceLevel", level, -1, dt.count(), sub.first);
    if (level == 0 && redistribute && redistribute()) {
      Log("Redistribute", 0);
      const std::vector<Level> old = levels_;
      MakeLevels(0);
      for (std::size_t l = 0; l < levels_.size(); ++l) {
        levels_[l].time = old[l].time;
        levels_[l].regridded = old[l].time;
        levels_[l].cycles = old[l].cycles;
      }
      return 0;
    }
    if (!regrid || sub.first != 0)
      return max_levels + 1;
    if (levels_[level].regridded == levels_[level].time)
      return max_levels + 1;
    std::vector<Box> boxes;
    for (const Two& t : grid_->data)
      boxes.push_back(t.u.box);
    const std::vector<Box> old = boxes;
    if (!regrid(level, boxes))
      return max_levels + 1;
    for (Level& l : levels_)
      l.regridded = levels_[level].time;
    const std::size_t common = std::min(old.size(), boxes.size());
    std::size_t first = static_cast<std::size_t>(level) + 1;
    while (first < common && old[first] == boxes[first])
      ++first;
    if (first == old.size() && first == boxes.size())
      return max_levels + 1;
    Log("Regrid", static_cast<int>(first));
    const Grid before = *grid_;
    const std::vector<Level> before_levels = levels_;
    grid_->data.resize(first);
    grid_->time.resize(first);
    grid_->cycles.resize(first);
    levels_.resize(first);
    for (std::size_t l = first; l < boxes.size(); ++l) {
      Two t(boxes[l]);
      ForEach(boxes[l], [&](const I3& i) {
        if (l < before.data.size() && before.data[l].u.box.contains(i)) {
          t.u(i) = before.data[l].u(i);
        } else {
          I3 ci = i;
          for (int d = 0; d < 3; ++d)
            ci[d] = FloorDiv(i[d], cfg.ratio[l].r[d]);
          t.u(i) = grid_->data[l - 1].u(ci);
        }
        t.w(i) = 2 * t.u(i);
      });
      grid_->data.push_back(t);
      grid_->time.push_back(levels_[level].time);
      grid_->cycles.push_back(l < before_levels.size() ? before_levels[l].cycles : 0);
    }
    MakeLevels(static_cast<int>(first));
    for (std::size_t l = first; l < levels_.size(); ++l) {
      levels_[l].time = levels_[level].time;
      levels_[l].regridded = levels_[level].time;
      levels_[l].cycles = grid_->cycles[l];
    }
    return static_cast<int>(first);
  }
  fub::Result<void, fub::TimeStepTooLarge> PostAdvanceLevel(int level, Duration dt, std::pair<int, int> sub) {
    Log("PostAdvanceLevel", level, -1, dt.count(), sub.first);
    levels_[level].time += dt;
    levels_[level].cycles += 1;
    grid_->time[level] = levels_[level].time;
    grid_->cycles[level] = levels_[level].cycles;
    if (post) {
      auto r = post(level, dt);
      if (!r)
        failed = true;
      return r;
    }
    return boost::outcome_v2::success();
  }
  void CopyDataToScratch(int level) {
    Log("CopyDataToScratch", level);
    Level& l = levels_[level];
    ForEach(BoxOf(level), [&](const I3& i) {
      l.scratch.u(i) = grid_->data[level].u(i);
      l.scratch.w(i) = grid_->data[level].w(i);
    });
    Fill(level);
  }
  void CopyScratchToData(int level) {
    Log("CopyScratchToData", level);
    Two& t = grid_->data[level];
    ForEach(BoxOf(level), [&](const I3& i) {
      t.u(i) = levels_[level].scratch.u(i);
      t.w(i) = levels_[level].scratch.w(i);
    });
  }
  void FillGhostLayerSingleLevel(int level) {
    Log("FillGhostLayer", level);
    if (level != 0)
      throw std::logic_error("a single-level ghost fill of a refined level");
    Fill(0);
  }
  void FillGhostLayerTwoLevels(int level, int coarse) {
    Log("FillGhostLayer", level);
    if (coarse != level - 1 || level < 1)
      throw std::logic_error("a two-level ghost fill between levels that are not adjacent");
    Fill(level);
  }
  void ApplyBoundaryCondition(int level, Direction dir) {
    const int d = static_cast<int>(dir);
    Log("ApplyBoundaryCondition", level, d);
    if (cfg.periodic[d])
      return;
    const Box dom = cfg.DomainOf(level);
    Two& s = levels_[level].scratch;
    ForEach(s.u.box, [&](const I3& i) {
      if (i[d] >= dom.lo[d] && i[d] < dom.hi[d])
        return;
      I3 j = i;
      j[d] = Mirror(i[d], dom.lo[d], dom.hi[d]);
      s.u(i) = s.u(j);
      s.w(i) = s.w(j);
    });
  }
  void PreSplitStep(int level, Duration dt, Direction dir, std::pair<int, int>) { Log("PreSplitStep", level, static_cast<int>(dir), dt.count()); }
  Duration ComputeStableDt(int level, Direction dir) {
    Log("ComputeStableDt", level, static_cast<int>(dir));
    if (stable)
      return Duration(stable(level, static_cast<int>(dir)));
    return Duration(1e300);
  }
  void ComputeNumericFluxes(int level, Duration dt, Direction dir) {
    const int d = static_cast<int>(dir);
    Log("ComputeNumericFluxes", level, d, dt.count());
    Level& l = levels_[level];
    Field f(FaceBox(l.scratch.u.box, d));
    ForEach(f.box, [&](const I3& i) {
      I3 left = i;
      left[d] -= 1;
      // fluxes read the derived variable
      f(i) = cfg.a[d] * 0.5 * (cfg.a[d] > 0 ? l.scratch.w(left) : l.scratch.w(i));
    });
    l.flux[d] = std::move(f);
  }
  void UpdateConservatively(int level, Duration dt, Direction dir) {
    const int d = static_cast<int>(dir);
    Log("UpdateConservatively", level, d, dt.count());
    Level& l = levels_[level];
    const double lambda = dt.count() / cfg.Dx(level, d);
    Box inner = l.scratch.u.box;
    inner.lo[d] += 1;
    inner.hi[d] -= 1;
    const Field& f = l.flux[d];
    ForEach(inner, [&](const I3& i) {
      I3 r = i;
      r[d] += 1;
      l.scratch.u(i) += lambda * (f(i) - f(r));
    });
  }
  void CompleteFromCons(int level, Duration dt) {
    Log("CompleteFromCons", level, -1, dt.count());
    Two& s = levels_[level].scratch;
    for (std::size_t i = 0; i < s.u.v.size(); ++i)
      s.w.v[i] = 2 * s.u.v[i];
  }
  void AccumulateCoarseFineFluxes(int level, double scale, Direction dir) {
    const int d = static_cast<int>(dir);
    Log("AccumulateCoarseFineFluxes", level, d, scale);
    auto add = [&](Field reg[2], const Box& coarse_box, const I3& ratio, double weight) {
      // coarse_box: the fine box in coarse cells; ratio: of the flux's level
      for (int side = 0; side < 2; ++side) {
        const int face = (side ? coarse_box.hi[d] : coarse_box.lo[d]) * ratio[d];
        Field& r = reg[side];
        ForEach(r.box, [&](const I3& ci) {
          Box sub;
          for (int e = 0; e < 3; ++e) {
            sub.lo[e] = ci[e] * ratio[e];
            sub.hi[e] = sub.lo[e] + ratio[e];
          }
          sub.lo[d] = face;
          sub.hi[d] = face + 1;
          double s = 0;
          ForEach(sub, [&](const I3& fi) { s += levels_[level].flux[d](fi); });
          r(ci) += weight * s;
        });
      }
    };
    const double area = cfg.Volume(level) / cfg.Dx(level, d);
    if (level > 0)
      add(levels_[level].reg[d].data(), Coarse(level), cfg.ratio[level].r, area * scale);
    if (LevelExists(level + 1))
      add(levels_[level + 1].reg[d].data(), Coarse(level + 1), I3{1, 1, 1}, -area * scale);
  }
  void ResetCoarseFineFluxes(int fine, int coarse) {
    Log("ResetCoarseFineFluxes", fine);
    if (coarse != fine - 1)
      throw std::logic_error("flux registers between levels that are not adjacent");
    MakeRegisters(fine);
  }
  void ApplyFluxCorrection(int fine, int coarse, Duration dt) {
    Log("ApplyFluxCorrection", fine, -1, dt.count());
    if (coarse != fine - 1)
      throw std::logic_error("flux correction between levels that are not adjacent");
    const Box cb = Coarse(fine), dom = cfg.DomainOf(coarse);
    Two& s = levels_[coarse].scratch;
    for (int d = 0; d < cfg.rank; ++d)
      for (int side = 0; side < 2; ++side) {
        const Field& r = levels_[fine].reg[d][side];
        ForEach(r.box, [&](const I3& ci) {
          I3 out = ci;
          out[d] = side ? cb.hi[d] : cb.lo[d] - 1;
          if (out[d] < dom.lo[d] || out[d] >= dom.hi[d]) {
            if (!cfg.periodic[d])
              return;
            out[d] += out[d] < dom.lo[d] ? dom.hi[d] - dom.lo[d] : dom.lo[d] - dom.hi[d];
          }
          if (cb.contains(out))
            return;
          s.u(out) += (side ? 1 : -1) * r(ci) / cfg.Volume(coarse);
        });
      }
  }
  void CoarsenConservatively(int fine, int coarse) {
    Log("CoarsenConservatively", fine);
    if (coarse != fine - 1)
      throw std::logic_error("coarsening between levels that are not adjacent");
    Average(fine, levels_[fine].scratch, levels_[coarse].scratch, false);
  }

  // Sum over the composite grid.
  double Mass() const {
    double m = 0;
    for (int l = 0; LevelExists(l); ++l) {
      const bool finer = LevelExists(l + 1);
      const Box cb = finer ? Coarse(l + 1) : Box();
      ForEach(BoxOf(l), [&](const I3& i) {
        if (!finer || !cb.contains(i))
          m += grid_->data[l].u(i) * cfg.Volume(l);
      });
    }
    return m;
  }
  Box Coarse(int fine) const {
    Box b = BoxOf(fine);
    for (int d = 0; d < 3; ++d) {
      b.lo[d] = FloorDiv(b.lo[d], cfg.ratio[fine].r[d]);
      b.hi[d] = FloorDiv(b.hi[d], cfg.ratio[fine].r[d]);
    }
    return b;
  }
  void Average(int fine_level, const Two& fine, Two& coarse, bool both) const {
    const Ratio& r = cfg.ratio[fine_level];
    const Box cb = Coarse(fine_level);
    const double n = r.r[0] * r.r[1] * r.r[2];
    ForEach(cb, [&](const I3& ci) {
      Box sub;
      for (int e = 0; e < 3; ++e) {
        sub.lo[e] = ci[e] * r.r[e];
        sub.hi[e] = sub.lo[e] + r.r[e];
      }
      double s = 0;
      ForEach(sub, [&](const I3& i) { s += fine.u(i); });
      coarse.u(ci) = s / n;
      if (both)
        coarse.w(ci) = 2 * coarse.u(ci);
    });
  }
  static int Mirror(int i, int lo, int hi) {
    if (i < lo)
      return std::min(2 * lo - 1 - i, hi - 1);
    if (i >= hi)
      return std::max(2 * hi - 1 - i, lo);
    return i;
  }

private:
  struct Level {
    Two scratch;
    std::array<Field, 3> flux;
    std::array<std::array<Field, 2>, 3> reg;
    Duration time{};
    Duration regridded{-1};
    std::ptrdiff_t cycles{0};
  };
  std::shared_ptr<fub::CounterRegistry> registry_;
  std::shared_ptr<Grid> grid_;
  std::vector<Level> levels_;

  void Log(const char* what, int level = -1, int dir = -1, double dt = 0, int sub = 0) {
    if (failed)
      ++calls_after_failure;
    if (logging)
      log.push_back({what, level, dir, dt, sub});
  }
  static Box FaceBox(Box b, int d) {
    b.lo[d] += 1;
    return b;
  }
  void MakeRegisters(int fine) {
    const Box cb = Coarse(fine);
    for (int d = 0; d < cfg.rank; ++d)
      for (int side = 0; side < 2; ++side) {
        Box b = cb;
        b.lo[d] = side ? cb.hi[d] : cb.lo[d];
        b.hi[d] = b.lo[d] + 1;
        levels_[fine].reg[d][side] = Field(b, 0.0);
      }
  }
  // (Re)creates the scratch space of levels >= first; ghost cells are NaN until
  // somebody fills them, flux registers until somebody resets them.
  void MakeLevels(int first) {
    levels_.resize(static_cast<std::size_t>(first));
    for (std::size_t l = static_cast<std::size_t>(first); l < grid_->data.size(); ++l) {
      Level n;
      Box b = grid_->data[l].u.box;
      for (int d = 0; d < cfg.rank; ++d) {
        b.lo[d] -= cfg.gcw;
        b.hi[d] += cfg.gcw;
      }
      n.scratch = Two(b, std::numeric_limits<double>::quiet_NaN());
      ForEach(grid_->data[l].u.box, [&](const I3& i) {
        n.scratch.u(i) = grid_->data[l].u(i);
        n.scratch.w(i) = grid_->data[l].w(i);
      });
      n.time = grid_->time[l];
      n.cycles = grid_->cycles[l];
      levels_.push_back(n);
      if (l > 0) {
        MakeRegisters(static_cast<int>(l));
        for (auto& r : levels_.back().reg)
          for (auto& f : r)
            std::fill(f.v.begin(), f.v.end(), std::numeric_limits<double>::quiet_NaN());
      }
    }
  }
  void FillAll() {
    for (int l = 0; LevelExists(l); ++l)
      Fill(l);
  }
  void Fill(int level) {
    const Box dom = cfg.DomainOf(level), own = BoxOf(level);
    Two& s = levels_[level].scratch;
    ForEach(s.u.box, [&](const I3& i) {
      if (own.contains(i))
        return;
      I3 j = i;
      for (int d = 0; d < cfg.rank; ++d) {
        const int n = dom.hi[d] - dom.lo[d];
        if (cfg.periodic[d])
          j[d] = dom.lo[d] + ((i[d] - dom.lo[d]) % n + n) % n;
        else
          j[d] = Mirror(i[d], dom.lo[d], dom.hi[d]);
      }
      if (own.contains(j)) {
        s.u(i) = s.u(j);
        s.w(i) = s.w(j);
        return;
      }
      for (int d = 0; d < cfg.rank; ++d)
        j[d] = FloorDiv(j[d], cfg.ratio[level].r[d]);
      const Two& c = levels_[level - 1].scratch;
      s.u(i) = c.u(j);
      s.w(i) = c.w(j);
    });
  }
};
} // namespace amr

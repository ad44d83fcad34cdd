// C25: the run driver with subcycling and non-subcycling solvers on refined grids
#include "C24.hpp"
#include "fub/core/type_traits.hpp"
#include "fub/ext/outcome.hpp"
#include "fub/RunSimulation.hpp"
#include "fub/output/AsOutput.hpp"
#include "fub/output/MultipleOutputs.hpp"

namespace {
using namespace hi;

template <int R, bool Subcycle> void Run(pbt::Case& c) {
  fakempi::world() = {};
  Grids g = DrawGrids(c, R, false);
  for (bool& p : g.cfg.periodic)
    p = true;
  pbt::Rng rng{static_cast<std::uint64_t>(c.below(1u << 30))};
  Context ctx(g.cfg, g.boxes, [&](int, const I3&) { return 1.0 + static_cast<double>(rng.next() % 1000) / 1000.0; });
  ctx.logging = false;
  const double step = MaxStep(g, Subcycle);
  const int trouble = c.pick<int>({0, 12, 4});
  int small = 0, queries = 0;
  ctx.stable = [&](int l, int d) {
    if (++queries > 4000)
      throw std::runtime_error("the run does not come to an end");
    double x = g.cfg.Dx(l, d) / std::abs(g.cfg.a[d]);
    if (trouble && c.chance(1, trouble)) {
      x *= c.pick<double>({0.7, 0.5, 0.75});
      ++small;
    }
    return x;
  };
  const double mass = ctx.Mass();
  using Level = DimensionalSplitLevelIntegrator<R, Context, GodunovSplitting>;
  using Solver = std::conditional_t<Subcycle, SubcycleFineFirstSolver<Level>, NoSubcycleSolver<Level>>;
  Solver solver{Level(int_constant<R>{}, std::move(ctx))};
  RunOptions opt;
  opt.cfl = c.pick<double>({0.9, 1.0, 0.6});
  opt.final_time = Duration(step * c.pick<double>({2.0, 4.0, 5.5}));
  const double interval = step * c.pick<double>({0.37, 1.0, 0.75, 2.3});
  const std::ptrdiff_t frequency = c.i(0, 3);
  c.note("interval", interval);
  c.note("frequency", static_cast<long>(frequency));
  c.note("final", opt.final_time.count());
  struct Shot {
    double t;
    std::ptrdiff_t cycle;
    double mass;
  };
  std::vector<Shot> by_interval, by_frequency;
  auto measure = [&](const amr::Grid& grid) {
    for (std::size_t l = 0; l < grid.data.size(); ++l)
      for (std::size_t i = 0; i < grid.data[l].u.v.size(); ++i) {
        c.check(std::isfinite(grid.data[l].u.v[i]), "an output sees an undefined cell");
        c.check(grid.data[l].w.v[i] == 2 * grid.data[l].u.v[i], "an output sees an incomplete cell");
      }
    double m = 0;
    for (double x : grid.data[0].u.v)
      m += x * g.cfg.Volume(0);
    return Shot{grid.GetTimePoint().count(), grid.GetCycles(), m};
  };
  auto a = MakeOutput<amr::Grid>({}, {Duration(interval)}, [&](const amr::Grid& grid) { by_interval.push_back(measure(grid)); });
  auto b = MakeOutput<amr::Grid>({frequency}, {}, [&](const amr::Grid& grid) { by_frequency.push_back(measure(grid)); });
  MultipleOutputs<amr::Grid> out;
  out.AddOutput(std::move(a));
  out.AddOutput(std::move(b));
  RunSimulation(solver, opt, std::chrono::steady_clock::now(), out);
  const Context& end = solver.GetContext();
  const double T = opt.final_time.count();
  c.check(end.GetTimePoint().count() + opt.smallest_time_step_size.count() >= T, "the run ends before the final time");
  c.near(end.GetTimePoint().count(), T, 1e-12 * std::max(1.0, T), "time at the end of the run");
  for (int l = 0; end.LevelExists(l); ++l)
    c.near(end.GetTimePoint(l).count(), T, 1e-12 * std::max(1.0, T), "time of level " + std::to_string(l) + " at the end of the run");
  c.near(end.Mass(), mass, 1e-11 * mass, "mass at the end of the run");
  // one output for each multiple of the interval
  std::size_t want = 0;
  const double tol = 1e-11;
  for (int k = 1; k * interval < T + tol; ++k) {
    if (std::abs(k * interval - T) < tol) // decided by rounding, at most one
      break;
    ++want;
    c.checkf(by_interval.size() >= want, [&] { return "no output at " + pbt::fmt(k * interval); });
    c.near(by_interval[want - 1].t, k * interval, tol, "time of the output at multiple " + std::to_string(k) + " of the interval");
  }
  c.check(by_interval.size() <= want + 1, "more outputs than multiples of the interval");
  if (by_interval.size() == want + 1)
    c.near(by_interval.back().t, T, 1e-12 * std::max(1.0, T), "time of the last output");
  std::ptrdiff_t cycle = 0;
  for (const Shot& s : by_frequency) {
    cycle += frequency;
    c.equal(s.cycle, cycle, "cycle of an output");
  }
  if (frequency > 0)
    c.check(cycle + frequency > end.GetCycles(), "outputs at a frequency stop before the run");
  else
    c.check(by_frequency.empty(), "an output without frequency or interval is written");
  for (const Shot& s : by_interval)
    c.near(s.mass, mass, 1e-11 * mass, "mass seen by an output");
  c.label("levels " + std::to_string(g.boxes.size()) + (small ? " troubled" : ""));
  c.nontrivial(small > 0 && g.boxes.size() > 1);
}
PBT_PROP("subcycled runs 1D", 1500, 30000) { Run<1, true>(c); }
PBT_PROP("runs with equal steps 1D", 1500, 30000) { Run<1, false>(c); }
PBT_PROP("subcycled runs 2D", 200, 6000) { Run<2, true>(c); }
PBT_PROP("runs with equal steps 2D", 200, 6000) { Run<2, false>(c); }
} // namespace

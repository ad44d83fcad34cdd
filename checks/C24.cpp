// C24: hierarchy integration: the results of whole coarse steps
#include "C24.hpp"

namespace {
using namespace hi;

template <int R, class Split, bool Subcycle> struct Types {
  using Level = DimensionalSplitLevelIntegrator<R, Context, Split>;
  using Solver = std::conditional_t<Subcycle, SubcycleFineFirstSolver<Level>, NoSubcycleSolver<Level>>;
};

// Sweeps of the finest level with a fresh boundary condition before each.
struct Reference {
  amr::Config cfg;
  int level;
  amr::Field u;
  void Sweep(int d, double dt) {
    const amr::Box dom = u.box;
    const int n = dom.hi[d] - dom.lo[d];
    auto at = [&](I3 i) {
      if (i[d] < dom.lo[d] || i[d] >= dom.hi[d])
        i[d] = cfg.periodic[d] ? dom.lo[d] + ((i[d] - dom.lo[d]) % n + n) % n : Context::Mirror(i[d], dom.lo[d], dom.hi[d]);
      return u(i);
    };
    const double lambda = dt / cfg.Dx(level, d);
    amr::Field next = u;
    amr::ForEach(dom, [&](const I3& i) {
      I3 l = i, r = i;
      l[d] -= 1;
      r[d] += 1;
      const double fl = cfg.a[d] * (cfg.a[d] > 0 ? at(l) : at(i)), fr = cfg.a[d] * (cfg.a[d] > 0 ? at(i) : at(r));
      next(i) += lambda * (fl - fr);
    });
    u = next;
  }
  template <int R, class Split> void Step(const Split& split, double dt, int cycle, std::pair<int, int> sub) {
    std::apply(
        [&](auto... dirs) {
          auto op = [&](Direction dir) {
            return [this, dir](Duration t) -> Result<void, TimeStepTooLarge> {
              Sweep(static_cast<int>(dir), t.count());
              return boost::outcome_v2::success();
            };
          };
          (void)split.Advance(Duration(dt), op(dirs)...);
        },
        MakeSplitDirections<R>(cycle, sub));
  }
  template <int R, class Split> void Recurse(const Grids& g, const Split& split, int l, double dt, int cycle, std::pair<int, int> sub, bool subcycle) {
    if (l == level)
      return Step<R>(split, dt, cycle, sub);
    const int r = subcycle ? g.cfg.ratio[l + 1].max() : 1;
    for (int k = 0; k < r; ++k)
      Recurse<R>(g, split, l + 1, dt / r, cycle, {k, r}, subcycle);
  }
};

template <int R, class Split, bool Subcycle> void Steps(pbt::Case& c) {
  fakempi::world() = {};
  const bool covering = c.chance(1, 3);
  Grids g = DrawGrids(c, R, covering);
  const bool constant = c.chance(1, 4);
  const bool regrid = !covering && c.chance(1, 3);
  const int cycles = c.i(1, 3);
  c.note("constant", constant);
  pbt::Rng rng{static_cast<std::uint64_t>(c.below(1u << 30))};
  Context ctx(g.cfg, g.boxes, [&](int, const I3&) { return constant ? 1.5 : 1.0 + static_cast<double>(rng.next() % 1000) / 1000.0; });
  int regrids = 0;
  const int levels0 = static_cast<int>(g.boxes.size());
  using T = Types<R, Split, Subcycle>;
  typename T::Solver solver{typename T::Level(int_constant<R>{}, std::move(ctx), Split())};
  Context& ctxr = solver.GetContext();
  if (c.chance(1, 4))
    ctxr.redistribute = [&] { return c.chance(1, 2); };
  if (regrid) {
    // finer levels are replaced by other nested boxes now and then
    ctxr.regrid = [&](int level, std::vector<amr::Box>& boxes) {
      if (!c.chance(1, 2))
        return false;
      const int keep = level + 1;
      const int want = c.i(keep, 3);
      boxes.resize(static_cast<std::size_t>(std::min<int>(keep, static_cast<int>(boxes.size()))));
      for (int l = keep; l < want; ++l) {
        const amr::Box& p = boxes.back();
        const amr::Box dom = g.cfg.DomainOf(l - 1);
        for (int d = 0; d < R; ++d)
          if (!(p.lo[d] == dom.lo[d] && p.hi[d] == dom.hi[d]) && p.hi[d] - p.lo[d] < 3)
            return true;
        boxes.push_back(DrawChild(c, g.cfg, p, l, false));
      }
      ++regrids;
      return true;
    };
  }
  Reference ref{g.cfg, levels0 - 1, ctxr.GetGriddingAlgorithm()->data.back().u};
  double t = 0;
  const double limit = [&] { // levels may appear
    Grids h = g;
    while (regrid && h.boxes.size() < 3)
      h.boxes.push_back(h.boxes.back());
    return MaxStep(h, Subcycle);
  }();
  for (int cycle = 0; cycle < cycles; ++cycle) {
    const double dt = limit * c.pick<double>({0.5, 1.0, 0.25, 0.8});
    c.note("dt" + std::to_string(cycle), dt);
    ctxr.log.clear();
    solver.PreAdvanceHierarchy();
    const double mass = ctxr.Mass();
    const auto r = solver.AdvanceHierarchy(Duration(dt));
    c.check(bool(r), "a step fails although every level allows it");
    solver.PostAdvanceHierarchy(Duration(dt));
    t += dt;
    bool all_periodic = true;
    for (int d = 0; d < R; ++d)
      all_periodic = all_periodic && g.cfg.periodic[d];
    if (all_periodic)
      c.near(ctxr.Mass(), mass, 1e-12 * (std::abs(mass) + 1), "mass on the composite grid after cycle " + std::to_string(cycle));
    const amr::Grid& grid = *ctxr.GetGriddingAlgorithm();
    int total = 1;
    for (int l = 0; ctxr.LevelExists(l); ++l) {
      if (Subcycle && l > 0)
        total *= g.cfg.ratio[l].max();
      const std::string on = " on level " + std::to_string(l);
      c.near(ctxr.GetTimePoint(l).count(), t, 1e-12 * t, "time point" + on);
      c.near(grid.time[l].count(), t, 1e-12 * t, "published time point" + on);
      const amr::Two& data = grid.data[l];
      amr::ForEach(data.u.box, [&](const I3& i) {
        c.checkf(std::isfinite(data.u(i)), [&] { return "a cell is not finite" + on; });
        c.checkf(data.w(i) == 2 * data.u(i), [&] { return "a published cell is not completed from its conservative variables" + on; });
        c.checkf(data.u(i) == ctxr.Scratch(l).u(i), [&] { return "the published data differ from the integrated data" + on; });
        if (constant)
          c.near(data.u(i), 1.5, 1e-12, "constant state" + on);
      });
      if (l > 0) {
        amr::Two avg = grid.data[l - 1];
        ctxr.Average(l, data, avg, false);
        amr::ForEach(ctxr.Coarse(l), [&](const I3& i) { c.near(grid.data[l - 1].u(i), avg.u(i), 1e-13, "average of the fine cells" + on); });
      }
      // every direction and every level covers exactly dt
      double sum[3] = {0, 0, 0}, acc[3] = {0, 0, 0}, pre[3] = {0, 0, 0}, post = 0;
      int posts = 0;
      for (const amr::Call& k : ctxr.log) {
        if (k.level != l)
          continue;
        if (k.what == "UpdateConservatively")
          sum[k.dir] += k.dt;
        if (k.what == "AccumulateCoarseFineFluxes")
          acc[k.dir] += k.dt;
        if (k.what == "PreSplitStep")
          pre[k.dir] += k.dt;
        if (k.what == "PostAdvanceLevel") {
          post += k.dt;
          posts += 1;
        }
      }
      if (regrids == 0) {
        c.near(post, dt, 1e-12 * dt, "time covered by level steps" + on);
        c.equal(posts, total, "number of level steps" + on);
        for (int d = 0; d < R; ++d) {
          const std::string dir = std::string(" in direction ") + "XYZ"[d] + on;
          c.near(sum[d], dt, 1e-12 * dt, "time covered by updates" + dir);
          c.near(acc[d], dt, 1e-12 * dt, "time covered by accumulated fluxes" + dir);
          c.near(pre[d], dt, 1e-12 * dt, "time covered by prepared split steps" + dir);
        }
      }
    }
    if (covering) {
      ref.Recurse<R>(g, Split(), 0, dt, cycle, {0, 1}, Subcycle);
      const amr::Field& u = grid.data.back().u;
      amr::ForEach(u.box, [&](const I3& i) {
        c.near(u(i), ref.u(i), 1e-12, "cell " + std::to_string(i[0]) + "," + std::to_string(i[1]) + "," + std::to_string(i[2]) +
                                           " of the finest level compared with sweeps of a single grid, cycle " + std::to_string(cycle));
      });
    }
  }
  c.label("levels " + std::to_string(levels0) + (covering ? " covering" : "") + (regrids ? " regridded" : ""));
  c.nontrivial(!constant && (levels0 > 1 || R > 1));
}

template <int R, class Split> void Add(const char* split, int q, int t) {
  const std::string name = std::to_string(R) + "D " + split;
  pbt::registry().push_back(pbt::Prop{"subcycled steps " + name, q, t, [](pbt::Case& c) { Steps<R, Split, true>(c); }});
  pbt::registry().push_back(pbt::Prop{"equal steps " + name, q, t, [](pbt::Case& c) { Steps<R, Split, false>(c); }});
}
pbt::Setup setup([] {
  Add<1, GodunovSplitting>("Godunov", 2500, 40000);
  Add<2, GodunovSplitting>("Godunov", 1500, 20000);
  Add<2, StrangSplitting>("Strang", 1000, 20000);
  Add<2, StrangSplittingLumped>("lumped Strang", 1000, 20000);
  Add<3, GodunovSplitting>("Godunov", 150, 3000);
  Add<3, StrangSplitting>("Strang", 150, 3000);
  hi::RegisterErrors();
  hi::RegisterSources();
});
} // namespace

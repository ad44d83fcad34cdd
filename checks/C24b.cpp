// C24: hierarchy integration: errors, stable steps and source terms
#include "C24.hpp"

namespace {
using namespace hi;

template <int R, class Split> void StableStep(pbt::Case& c) {
  fakempi::world() = {};
  Grids g = DrawGrids(c, R, false);
  Context ctx(g.cfg, g.boxes, [](int, const I3&) { return 1.0; });
  const int levels = static_cast<int>(g.boxes.size());
  std::vector<std::array<double, 3>> table(levels);
  for (auto& row : table)
    for (double& x : row)
      x = c.chance(1, 8) ? std::numeric_limits<double>::infinity() : c.logreal(1e-8, 1e3);
  ctx.stable = [&](int l, int d) { return table.at(l).at(d); };
  const int ranks = c.i(0, 2);
  for (int i = 0; i < ranks; ++i)
    fakempi::world().others.push_back(c.logreal(1e-8, 1e4));
  double sub = std::numeric_limits<double>::max(), equal = sub;
  for (int l = 0; l < levels; ++l)
    for (int d = 0; d < R; ++d) {
      sub = std::min(sub, g.TotalRatio(l) * table[l][d]);
      equal = std::min(equal, table[l][d]);
    }
  for (double o : fakempi::world().others) {
    sub = std::min(sub, o);
    equal = std::min(equal, o);
  }
  using Level = DimensionalSplitLevelIntegrator<R, Context, Split>;
  Level level(ctx);
  SubcycleFineFirstSolver<Level> a{level};
  NoSubcycleSolver<Level> b{level};
  const double big = std::numeric_limits<double>::max();
  c.rel(std::min(a.ComputeStableDt().count(), big), std::min(sub, big), 1e-13, "stable step of a subcycled hierarchy");
  c.rel(std::min(b.ComputeStableDt().count(), big), std::min(equal, big), 1e-13, "stable step of a hierarchy with equal steps");
  for (int l = 0; l < levels; ++l)
    for (int k = 0; k <= l; ++k)
      c.equal(a.GetTotalRefineRatio(l, k), g.TotalRatio(l) / g.TotalRatio(k), "total refinement ratio");
  fakempi::world() = {};
  c.label("levels " + std::to_string(levels));
  c.nontrivial(levels > 1 || ranks > 0);
}

template <int R, class Split, bool Subcycle> void Errors(pbt::Case& c) {
  fakempi::world() = {};
  Grids g = DrawGrids(c, R, false);
  Context ctx(g.cfg, g.boxes, [](int l, const I3& i) { return 1.0 + 0.1 * l + 0.01 * i[0] + 0.02 * i[1]; });
  const double dt = MaxStep(g, Subcycle) * 0.5;
  using Level = DimensionalSplitLevelIntegrator<R, Context, Split>;
  using Solver = std::conditional_t<Subcycle, SubcycleFineFirstSolver<Level>, NoSubcycleSolver<Level>>;
  // how many times levels are asked for their stable step in a good cycle
  int queries = 0, posts = 0;
  {
    Solver s{Level(ctx)};
    (void)s.AdvanceHierarchy(Duration(dt));
    for (const amr::Call& k : s.GetContext().log) {
      queries += k.what == "ComputeStableDt";
      posts += k.what == "PostAdvanceLevel";
    }
  }
  const bool in_post = c.chance(1, 3);
  const int at = c.i(0, (in_post ? posts : queries) - 1);
  const bool from_other_rank = !in_post && c.chance(1, 4);
  const double factor = c.pick<double>({0.5, 0.99, 0.01, 1e-6, 0.0});
  c.note("fails in", in_post ? "PostAdvanceLevel" : "ComputeStableDt");
  c.note("at call", at);
  c.note("factor", factor);
  int count = 0, fail_level = -1, fail_sub = 0;
  double small = 0;
  auto step_of = [&](int l) { return Subcycle ? dt / g.TotalRatio(l) : dt; };
  ctx.log.clear();
  if (!in_post) {
    ctx.stable = [&](int l, int) {
      if (count++ != at)
        return count - 1 > at ? 0.0 : 1e300;
      fail_level = l;
      small = step_of(l) * factor * (R == 1 ? 1.0 : 0.25);
      if (from_other_rank) {
        fakempi::world().others = {small};
        return 1e300;
      }
      return small;
    };
  } else {
    ctx.post = [&](int l, Duration) -> Result<void, TimeStepTooLarge> {
      if (count++ != at)
        return boost::outcome_v2::success();
      fail_level = l;
      small = step_of(l) * factor;
      return TimeStepTooLarge{Duration(small), l};
    };
  }
  const std::vector<amr::Two> before = ctx.GetGriddingAlgorithm()->data;
  Solver solver{Level(ctx)};
  const auto r = solver.AdvanceHierarchy(Duration(dt));
  fakempi::world() = {};
  const Context& after = solver.GetContext();
  c.note("calls", ShowLog(after.log));
  c.check(!r, "the hierarchy step succeeds although a level found its step too large");
  const TimeStepTooLarge e = r.error();
  if (Subcycle) {
    c.equal(e.level, 0, "level of the rescaled error");
    c.near(e.dt.count(), small * g.TotalRatio(fail_level), 1e-14 * dt, "largest stable step, rescaled to the coarsest level");
  } else {
    c.equal(e.level, fail_level, "level of the error");
    c.check(e.dt.count() == small, "the largest stable step of the error is not returned unchanged");
  }
  // nothing happens behind the failing query, coarser levels publish nothing
  c.equal(after.log.empty() ? std::string() : after.log.back().what, std::string(in_post ? "PostAdvanceLevel" : "ComputeStableDt"),
          "last call of the failing step");
  std::vector<int> published(g.boxes.size(), 0), posted(g.boxes.size(), 0);
  for (const amr::Call& k : after.log) {
    published[std::max(0, k.level)] += k.what == "CopyScratchToData";
    posted[std::max(0, k.level)] += k.what == "PostAdvanceLevel";
  }
  for (int l = 0; l <= fail_level; ++l)
    c.equal(published[l], posted[l], "number of times level " + std::to_string(l) + " was published without having completed its step");
  for (int l = 0; l < fail_level; ++l) {
    bool same = true;
    const amr::Two& now = after.GetGriddingAlgorithm()->data[l];
    same = now.u.v == before[l].u.v;
    // a level coarser than the failing one has not completed any step yet
    if (l == 0)
      c.check(same, "the coarsest level is published although a finer level failed");
  }
  if (!in_post && fail_level == 0)
    c.check(after.GetGriddingAlgorithm()->data[0].u.v == before[0].u.v, "the coarsest level is published although it failed");
  (void)fail_sub;
  c.label(std::string(in_post ? "after" : "in") + " a step of level " + std::to_string(fail_level) + (from_other_rank ? ", other rank" : ""));
  c.nontrivial(at > 0);
}

// A source term u_t = k u. It multiplies the scratch data of its level.
struct Source {
  static constexpr int Rank = 1;
  double k{0};
  double stable{1e300};
  std::vector<std::string>* hooks{nullptr};
  int fail_at{-1};
  std::shared_ptr<int> count = std::make_shared<int>(0);
  void PreAdvanceHierarchy() { hooks->push_back("pre hierarchy"); }
  void PostAdvanceHierarchy(Duration dt) { hooks->push_back("post hierarchy " + pbt::fmt(dt.count())); }
  void PreAdvanceLevel(int l, Duration dt, std::pair<int, int> s) {
    hooks->push_back("pre level " + std::to_string(l) + " " + pbt::fmt(dt.count()) + " " + std::to_string(s.first));
  }
  Result<void, TimeStepTooLarge> PostAdvanceLevel(int l, Duration dt, std::pair<int, int> s) {
    hooks->push_back("post level " + std::to_string(l) + " " + pbt::fmt(dt.count()) + " " + std::to_string(s.first));
    return boost::outcome_v2::success();
  }
  Duration ComputeStableDt(const Context&, int l) { return Duration(stable * (l + 1)); }
  Result<void, TimeStepTooLarge> AdvanceLevel(Context& ctx, int level, Duration dt) {
    if (ctx.failed)
      ++ctx.calls_after_failure;
    if ((*count)++ == fail_at) {
      ctx.failed = true;
      return TimeStepTooLarge{Duration(dt.count() * 0.25), level};
    }
    amr::Two& s = ctx.Scratch(level);
    const double f = std::exp(k * dt.count());
    for (std::size_t i = 0; i < s.u.v.size(); ++i) {
      s.u.v[i] *= f;
      s.w.v[i] = 2 * s.u.v[i];
    }
    ctx.log.push_back({"Source", level, -1, dt.count(), 0});
    return boost::outcome_v2::success();
  }
};
// the same without the optional members
struct PlainSource {
  static constexpr int Rank = 1;
  double k{0};
  double stable{1e300};
  Duration ComputeStableDt(int l) { return Duration(stable * (l + 1)); }
  Result<void, TimeStepTooLarge> AdvanceLevel(Context& ctx, int level, Duration dt) {
    Source s;
    s.k = k;
    return s.AdvanceLevel(ctx, level, dt);
  }
};

template <int R, class Split, class Outer, class Src, bool Subcycle> void Sources(pbt::Case& c) {
  fakempi::world() = {};
  Grids g = DrawGrids(c, R, true);
  for (bool& p : g.cfg.periodic)
    p = true;
  g.cfg.gcw = 8;
  const int levels = static_cast<int>(g.boxes.size());
  Context ctx(g.cfg, g.boxes, [](int l, const I3& i) { return 1.0 + 0.1 * l + 0.01 * i[0] + 0.02 * i[1]; });
  const double limit = MaxStep(g, Subcycle);
  Src src;
  src.k = c.symmetric(3, 1e-2) / std::max(limit, 1e-3);
  src.stable = c.logreal(1e-6, 1e3);
  std::vector<std::string> hooks;
  constexpr bool full = std::is_same_v<Src, Source>;
  if constexpr (full) {
    src.hooks = &hooks;
    src.fail_at = c.chance(1, 4) ? c.i(0, 6) : -1;
  }
  c.note("rate", src.k);
  using Level = DimensionalSplitLevelIntegrator<R, Context, Split>;
  using Combined = SplitSystemSourceLevelIntegrator<Level, Src, Outer>;
  using Solver = std::conditional_t<Subcycle, SubcycleFineFirstSolver<Combined>, NoSubcycleSolver<Combined>>;
  const double flow = c.logreal(1e-6, 1e3);
  Combined level{Level(ctx), src};
  Context& cref = level.GetContext();
  cref.stable = [flow](int l, int) { return flow * (l + 1); };
  for (int l = 0; l < levels; ++l)
    c.rel(level.ComputeStableDt(l).count(), std::min(flow, src.stable) * (l + 1), 1e-13, "stable step of system and source");
  Solver probe{level};
  double want = 1e300;
  for (int l = 0; l < levels; ++l)
    want = std::min(want, (Subcycle ? g.TotalRatio(l) : 1) * std::min(flow, src.stable) * (l + 1));
  c.rel(probe.ComputeStableDt().count(), want, 1e-13, "stable step of a hierarchy with source term");
  cref.stable = nullptr;
  Solver solver{level};
  Context& now = solver.GetContext();
  now.log.clear();
  hooks.clear();
  const double dt = limit * 0.5;
  const double mass = now.Mass();
  solver.PreAdvanceHierarchy();
  const auto r = solver.AdvanceHierarchy(Duration(dt));
  c.note("calls", ShowLog(now.log));
  if (!r) {
    bool reached = false;
    if constexpr (full)
      reached = src.fail_at >= 0 && *src.count > src.fail_at;
    c.check(reached, "the step fails although neither system nor source does");
    c.equal(now.calls_after_failure, 0, "number of calls after the source term failed");
    int failing = levels - 1; // fine levels come first, the source term as well
    for (const amr::Call& k : now.log)
      if (k.what == "PreAdvanceLevel" || k.what == "ResetCoarseFineFluxes")
        (void)failing;
    c.check(Subcycle ? r.error().level == 0 : r.error().level >= 0, "level of the error of a source term");
    c.label("source failed");
    c.nontrivial(true);
    return;
  }
  solver.PostAdvanceHierarchy(Duration(dt));
  if constexpr (full)
    c.check(src.fail_at < 0 || *src.count <= src.fail_at, "an error of the source term is lost");
  // everything is linear and periodic: mass grows exactly with the rate
  c.rel(now.Mass(), mass * std::exp(src.k * dt), 1e-12, "mass after one step with source term");
  for (int l = 0; l < levels; ++l) {
    double s = 0, sum[3] = {0, 0, 0};
    for (const amr::Call& k : now.log) {
      if (k.level == l && k.what == "Source")
        s += k.dt;
      if (k.level == l && k.what == "UpdateConservatively")
        sum[k.dir] += k.dt;
    }
    c.near(s, dt, 1e-12 * dt, "time covered by the source term on level " + std::to_string(l));
    for (int d = 0; d < R; ++d)
      c.near(sum[d], dt, 1e-12 * dt, "time covered by direction " + std::to_string(d) + " on level " + std::to_string(l));
  }
  // the finest level: source and system alternate as the splitting says
  std::vector<std::string> order;
  for (const amr::Call& k : now.log)
    if (k.level == levels - 1) {
      if (k.what == "Source")
        order.push_back("S");
      if (k.what == "UpdateConservatively" && (order.empty() || order.back() != "F"))
        order.push_back("F");
      if (k.what == "PostAdvanceLevel")
        break;
    }
  std::string o;
  for (const std::string& x : order)
    o += x;
  c.equal(o, std::string(std::is_same_v<Outer, GodunovSplitting> ? "SF" : "SFS"), "order of source term (S) and flow (F)");
  if constexpr (full) {
    int pre = 0, post = 0;
    for (const std::string& h : hooks) {
      pre += h.rfind("pre level", 0) == 0;
      post += h.rfind("post level", 0) == 0;
    }
    int steps = 0, total = 1;
    for (int l = 0; l < levels; ++l) {
      if (l > 0 && Subcycle)
        total *= g.cfg.ratio[l].max();
      steps += total;
    }
    c.equal(pre, steps, "number of level steps announced to the source term");
    c.equal(post, steps, "number of finished level steps announced to the source term");
    c.equal(hooks.front(), std::string("pre hierarchy"), "first announcement to the source term");
    c.equal(hooks.back(), "post hierarchy " + pbt::fmt(dt), "last announcement to the source term");
  }
  int hierarchy = 0;
  for (const amr::Call& k : now.log)
    hierarchy += k.what == "PostAdvanceHierarchy";
  c.equal(hierarchy, 1, "number of times the system is told about the end of a step");
  c.label("levels " + std::to_string(levels));
  c.nontrivial(src.k != 0);
}
template <int R, class Split> void AddErrors(const char* split, int q, int t) {
  const std::string name = std::to_string(R) + "D " + split;
  pbt::registry().push_back(pbt::Prop{"stable steps " + name, q, t, [](pbt::Case& c) { StableStep<R, Split>(c); }});
  pbt::registry().push_back(pbt::Prop{"errors of subcycled steps " + name, q, t, [](pbt::Case& c) { Errors<R, Split, true>(c); }});
  pbt::registry().push_back(pbt::Prop{"errors of equal steps " + name, q, t, [](pbt::Case& c) { Errors<R, Split, false>(c); }});
}
template <int R, class Outer, class Src> void AddSources(const char* name, int q, int t) {
  pbt::registry().push_back(pbt::Prop{std::string("subcycled source terms ") + name, q, t, [](pbt::Case& c) { Sources<R, GodunovSplitting, Outer, Src, true>(c); }});
  pbt::registry().push_back(pbt::Prop{std::string("source terms with equal steps ") + name, q, t, [](pbt::Case& c) { Sources<R, GodunovSplitting, Outer, Src, false>(c); }});
}
} // namespace

namespace hi {
void RegisterErrors() {
  AddErrors<1, GodunovSplitting>("Godunov", 1000, 20000);
  AddErrors<2, GodunovSplitting>("Godunov", 600, 10000);
  AddErrors<2, StrangSplitting>("Strang", 600, 10000);
  AddErrors<3, StrangSplitting>("Strang", 100, 2000);
}
void RegisterSources() {
  AddSources<1, StrangSplitting, Source>("1D Strang", 800, 10000);
  AddSources<2, StrangSplitting, Source>("2D Strang", 400, 8000);
  AddSources<2, StrangSplittingLumped, PlainSource>("2D lumped", 400, 8000);
  AddSources<1, GodunovSplitting, Source>("1D Godunov", 800, 10000);
}
} // namespace hi

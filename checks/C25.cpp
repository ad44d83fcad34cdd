// C25: the run driver, with a scripted solver
#include "../lib/pbt.hpp"
#include "pyembed.hpp"

#include "fub/core/type_traits.hpp"
#include "fub/ext/outcome.hpp"
#include "fub/RunSimulation.hpp"
#include "fub/TimeStepError.hpp"
#include "fub/output/AsOutput.hpp"
#include "fub/output/MultipleOutputs.hpp"

#include <cstdio>
#include <set>

namespace {
using namespace fub;

struct MockGrid {
  Duration time{};
  std::ptrdiff_t cycles{0};
  bool dirty{false}; // a failed step leaves nonsense behind
  std::vector<double> steps;
  Duration GetTimePoint() const { return time; }
  std::ptrdiff_t GetCycles() const { return cycles; }
};
struct Event {
  enum Kind { Pre, Stable, Advance, Failed, Post, Next, Out } kind;
  double t;
  std::ptrdiff_t cycle;
  double x;  // dt, stable step, next output time
  double err;
  bool dirty;
};
struct Script {
  std::function<double()> stable;
  std::function<std::optional<double>(double)> fails; // dt -> error dt
  std::vector<Event> trace;
  int attempts{0};
};
struct Mock {
  std::shared_ptr<Script> script;
  std::shared_ptr<MockGrid> grid = std::make_shared<MockGrid>();
  std::shared_ptr<CounterRegistry> counters = std::make_shared<CounterRegistry>();
  Mock() = default;
  Mock(const Mock& o) : script(o.script), grid(std::make_shared<MockGrid>(*o.grid)), counters(o.counters) {}
  Mock& operator=(const Mock& o) {
    script = o.script;
    grid = std::make_shared<MockGrid>(*o.grid);
    counters = o.counters;
    return *this;
  }
  const std::shared_ptr<MockGrid>& GetGriddingAlgorithm() const { return grid; }
  const std::shared_ptr<CounterRegistry>& GetCounterRegistry() const { return counters; }
  Duration GetTimePoint() const { return grid->time; }
  std::ptrdiff_t GetCycles() const { return grid->cycles; }
  void Add(Event::Kind k, double x, double err = 0) { script->trace.push_back({k, grid->time.count(), grid->cycles, x, err, grid->dirty}); }
  void PreAdvanceHierarchy() { Add(Event::Pre, 0); }
  void PostAdvanceHierarchy(Duration dt) { Add(Event::Post, dt.count()); }
  Duration ComputeStableDt() {
    const double s = script->stable();
    Add(Event::Stable, s);
    return Duration(s);
  }
  Result<void, TimeStepTooLarge> AdvanceHierarchy(Duration dt) {
    if (++script->attempts > 1000)
      throw std::runtime_error("the run does not come to an end");
    if (auto e = script->fails(dt.count())) {
      Add(Event::Failed, dt.count(), *e);
      grid->dirty = true;
      if (script->attempts % 2) { // some levels may have moved already
        grid->time += 0.5 * dt;
        grid->cycles += 1;
      }
      return TimeStepTooLarge{Duration(*e), 0};
    }
    Add(Event::Advance, dt.count());
    grid->time += dt;
    grid->cycles += 1;
    grid->steps.push_back(dt.count());
    return boost::outcome_v2::success();
  }
};

// What the output wants, independent of how often it is asked.
struct Wish {
  std::vector<double> times; // sorted, exactly these are asked for
  std::ptrdiff_t frequency{0};
  bool Shall(double t, std::ptrdiff_t cycle) const {
    if (frequency > 0 && cycle % frequency == 0)
      return true;
    for (double x : times)
      if (std::abs(x - t) <= 1e-13 * std::max(1.0, std::abs(x)))
        return true;
    return false;
  }
  double Next(double t) const {
    for (double x : times)
      if (x > t && std::abs(x - t) > 1e-13 * std::max(1.0, std::abs(x)))
        return x;
    return std::numeric_limits<double>::max();
  }
};
struct MockOutput : BasicOutput<MockGrid> {
  Wish wish;
  std::shared_ptr<Script> script;
  bool filters{false};
  Duration NextOutputTime(Duration t) override {
    const double n = wish.Next(t.count());
    script->trace.push_back({Event::Next, t.count(), -1, n, 0, false});
    return Duration(n);
  }
  bool ShallOutputNow(const MockGrid& g) override { return wish.Shall(g.time.count(), g.cycles); }
  void operator()(const MockGrid& g) override {
    if (filters && !ShallOutputNow(g))
      return;
    script->trace.push_back({Event::Out, g.time.count(), g.cycles, 0, 0, g.dirty});
  }
};

PBT_PROP("histories of a run", 12000, 300000) {
  auto script = std::make_shared<Script>();
  Mock solver;
  solver.script = script;
  RunOptions opt;
  const double t0 = c.chance(1, 3) ? c.real(0, 5) : 0.0;
  const double length = c.pick<double>({1.0, 10.0, 1e-3, 0.1, 0.0, -1.0});
  opt.final_time = Duration(t0 + length);
  solver.grid->time = Duration(t0);
  solver.grid->cycles = c.chance(1, 3) ? c.i(0, 100) : 0;
  opt.max_cycles = c.chance(1, 3) ? static_cast<std::ptrdiff_t>(solver.grid->cycles) + c.i(0, 12) : -1;
  opt.cfl = c.pick<double>({0.8, 1.0, 0.5, 0.9});
  opt.do_backup = c.chance(5, 6) ? 1 : 0;
  const double scale = std::max(std::abs(length), 1e-6);
  const int failing = c.pick<int>({0, 8, 3, 2});
  int in_row = 0;
  script->stable = [&] { return c.chance(1, 12) ? 1e6 : scale * c.pick<double>({0.2, 0.1, 0.05, 0.37, 1.5}); };
  script->fails = [&](double dt) -> std::optional<double> {
    if (failing == 0 || in_row >= 4 || !c.chance(1, failing)) {
      in_row = 0;
      return {};
    }
    ++in_row;
    return dt * c.pick<double>({0.5, 0.9, 0.999, 0.25, 1.1}) + 2e-12;
  };
  MockOutput out;
  out.script = script;
  out.filters = c.boolean();
  out.wish.frequency = c.chance(1, 2) ? c.i(1, 5) : 0;
  {
    const int n = c.i(0, 5);
    for (int i = 0; i < n; ++i)
      out.wish.times.push_back(t0 + scale * (c.chance(1, 6) ? c.i(0, 4) * 0.25 : c.real(-0.1, 1.2)));
    std::sort(out.wish.times.begin(), out.wish.times.end());
    // neighbouring wishes that a step could not separate are one
    std::vector<double> w;
    for (double x : out.wish.times)
      if (w.empty() || x - w.back() > 1e-9)
        w.push_back(x);
    out.wish.times = w;
  }
  c.note("t0", t0);
  c.note("final", opt.final_time.count());
  c.note("max_cycles", static_cast<long>(opt.max_cycles));
  c.note("cycle0", static_cast<long>(solver.grid->cycles));
  c.note("backup", opt.do_backup);
  c.note("output times", pbt::list(out.wish.times));
  c.note("output frequency", static_cast<long>(out.wish.frequency));
  const std::ptrdiff_t cycle0 = solver.grid->cycles;
  RunSimulation(solver, opt, std::chrono::steady_clock::now(), out);
  std::string s;
  for (const Event& e : script->trace) {
    static const char* n[] = {"pre", "stable", "advance", "FAILED", "post", "next", "output"};
    s += std::string(n[e.kind]) + "(t=" + pbt::fmt(e.t) + " " + pbt::fmt(e.x) + ") ";
    if (s.size() > 1500)
      break;
  }
  c.note("trace", s);
  // replay the trace against the rules
  double t = t0, last_stable = -1, last_err = -1, next = -1;
  std::ptrdiff_t cycle = cycle0;
  bool pre = false, await_post = false, aborted = false, may_output = false, got_output = false;
  double dt_done = 0;
  int failures = 0, outputs = 0, steps = 0;
  const double eps = opt.smallest_time_step_size.count(), final_time = opt.final_time.count();
  auto finished = [&] { return !(t + eps < final_time) || (opt.max_cycles >= 0 && cycle >= opt.max_cycles); };
  auto leave = [&] { // before leaving a state
    if (may_output && out.wish.Shall(t, cycle))
      c.check(got_output, "an output was asked for at a state the run went past");
  };
  bool retry = false;
  for (const Event& e : script->trace) {
    c.check(!aborted, "the run goes on after a failed step without backup");
    if (e.kind != Event::Next) {
      c.check(!e.dirty, "the state of a failed step is used");
      if (e.kind != Event::Post)
        c.check(!await_post, "a successful step is not completed by PostAdvanceHierarchy before the run goes on");
      c.checkf(e.t == t && e.cycle == cycle, [&] {
        return "the run uses the state at time " + pbt::fmt(e.t) + ", cycle " + std::to_string(e.cycle) + " instead of time " + pbt::fmt(t) + ", cycle " + std::to_string(cycle);
      });
    }
    switch (e.kind) {
    case Event::Next:
      next = e.x;
      c.check(e.t == t, "the next output time is asked for another time");
      break;
    case Event::Pre:
      pre = true;
      break;
    case Event::Stable:
      last_stable = e.x;
      break;
    case Event::Advance:
    case Event::Failed: {
      c.check(!finished(), "a step is taken although the final time or the cycle limit is reached");
      c.check(pre, "a step starts without PreAdvanceHierarchy");
      c.check(next >= 0, "the output is never asked for its next time");
      const double stable = retry ? last_err : last_stable;
      c.check(stable > 0, "a step starts without an estimate of its stable size");
      const double dt = std::min({final_time - t, next - t, opt.cfl * stable});
      c.check(e.x > 0, "a step does not advance time");
      c.check(e.x <= final_time - t, "a step goes past the final time");
      c.check(e.x <= next - t, "a step goes past an output time");
      c.checkf(e.x <= opt.cfl * stable * (1 + 1e-14), [&] {
        return "a step of " + pbt::fmt(e.x) + " exceeds the CFL fraction " + pbt::fmt(opt.cfl * stable) + (retry ? " of the estimate of the failed step" : " of the stable step");
      });
      c.checkf(e.x >= dt * (1 - 1e-9), [&] { return "a step of " + pbt::fmt(e.x) + " is smaller than needed: " + pbt::fmt(dt); });
      pre = false;
      next = -1;
      if (e.kind == Event::Failed) {
        ++failures;
        retry = true;
        last_err = e.err;
        aborted = !opt.do_backup;
      } else {
        leave();
        retry = false;
        await_post = true;
        dt_done = e.x;
        t = (Duration(t) + Duration(e.x)).count();
        cycle += 1;
        steps += 1;
        may_output = true;
        got_output = false;
        last_stable = -1;
      }
      break;
    }
    case Event::Post:
      c.check(await_post && e.x == dt_done, "PostAdvanceHierarchy is called with another step size or without a step");
      await_post = false;
      break;
    case Event::Out:
      c.check(may_output, "an output is written before any step");
      c.check(!got_output, "a state is written twice");
      c.check(out.wish.Shall(t, cycle) || finished(), "an output is written without being asked for");
      c.check(!retry, "an output is written between a failed step and its retry");
      got_output = true;
      ++outputs;
      break;
    }
  }
  c.check(!await_post, "the last step is not completed by PostAdvanceHierarchy");
  if (!aborted) {
    leave();
    c.check(finished(), "the run ends before the final time and the cycle limit");
    c.check(!solver.grid->dirty && solver.grid->time.count() == t && solver.grid->cycles == cycle, "the solver is left in another state than the last completed one");
  }
  double sum = t0;
  for (double x : solver.grid->steps)
    sum += x;
  if (!aborted)
    c.near(sum, solver.grid->time.count(), 1e-12 * std::max(1.0, sum), "simulated time compared with the sum of the completed steps");
  c.label(aborted ? "aborted" : failures ? "recovered" : "smooth");
  c.nontrivial(steps > 1 && (failures > 0 || outputs > 0));
}

PBT_PROP("the report of a step", 3000, 50000) {
  using namespace std::chrono;
  const double final_time = c.logreal(1e-6, 1e3), t = final_time * c.unit();
  const double dt = c.logreal(1e-12, 1e2);
  const long cycle = c.integer(0, 200000);
  const long long wall = c.integer(0, 400000000000000LL); // up to 4 days
  const long long diff = c.integer(0, 1000000000000LL);
  c.note("wall time [ns]", static_cast<long>(wall));
  c.note("t", t);
  c.note("final", final_time);
  const std::string s = FormatTimeStepLine(cycle, duration<double>(t), duration<double>(dt), duration<double>(final_time),
                                           duration_cast<steady_clock::duration>(nanoseconds(wall)), duration_cast<steady_clock::duration>(nanoseconds(diff)));
  c.note("line", s);
  int percent = -1;
  long cyc = -1;
  double sdt = -1, sec = -1, d = -1;
  int h = -1, m = -1;
  const int n = std::sscanf(s.c_str(), "[%d%%] %ld: dt = %lfs wall-time: %dh:%dm:%lfs (+%lfs)", &percent, &cyc, &sdt, &h, &m, &sec, &d);
  c.equal(n, 7, "fields of the line");
  c.check(std::abs(percent - t / final_time * 100) <= 1.0, "progress");
  c.equal(cyc, cycle, "cycle");
  c.rel(sdt, dt, 1e-6, "time step");
  c.check(m >= 0 && m < 60 && sec >= 0 && sec <= 60, "minutes and seconds are in their range");
  c.near(3600.0 * h + 60.0 * m + sec, static_cast<double>(wall) * 1e-9, 2e-6, "wall time");
  c.near(d, static_cast<double>(diff) * 1e-9, 1e-6 * (1 + static_cast<double>(diff) * 1e-9), "wall time of the step");
  c.nontrivial(h > 0 && m > 0);
}

pbt::Setup setup([] { pyembed::Start(); });
} // namespace

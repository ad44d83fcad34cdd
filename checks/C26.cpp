// C26: output schedules
#include "../lib/pbt.hpp"
#include "pyembed.hpp"

#include <fmt/format.h>

#include "fub/core/type_traits.hpp"
#include "fub/output/AsOutput.hpp"
#include "fub/output/MultipleOutputs.hpp"
#include "fub/output/OutputFactory.hpp"

#include <pybind11/stl.h>

namespace {
using namespace fub;
struct Grid {
  Duration time{};
  std::ptrdiff_t cycles{0};
  Duration GetTimePoint() const { return time; }
  std::ptrdiff_t GetCycles() const { return cycles; }
};
Grid At(double t, std::ptrdiff_t c) { return Grid{Duration(t), c}; }

struct Schedule {
  std::vector<std::ptrdiff_t> freq;
  std::vector<double> interval;
  double tol{1e-12};
};
long double Distance(double t, double interval) { // to the nearest multiple, exact
  const long double r = std::remainder(static_cast<long double>(t), static_cast<long double>(interval));
  return std::abs(r);
}
// 1: fires, 0: does not, -1: a matter of rounding
int Fires(const Schedule& s, double t, std::ptrdiff_t cycle) {
  if (t == 0)
    return 1;
  for (auto f : s.freq)
    if (f > 0 && cycle % f == 0)
      return 1;
  int unsure = 0;
  for (double i : s.interval) {
    if (!(i > 0))
      continue;
    const long double d = Distance(t, i), lim = 2 * s.tol, slack = 0.01 * s.tol + 4e-16 * (std::abs(t) + i);
    if (d < lim - slack)
      return 1;
    if (d < lim + slack)
      unsure = 1;
  }
  return unsure ? -1 : 0;
}
struct Bounds {
  long double lo, hi;
};
// the earliest multiple of any interval that is not this time itself
Bounds Next(const Schedule& s, double t) {
  Bounds b{std::numeric_limits<double>::max(), std::numeric_limits<double>::max()};
  for (double i : s.interval) {
    if (!(i > 0))
      continue;
    const long double I = i, slack = 3.01L * s.tol + 8e-16L * (std::abs(t) + i);
    const long double k = std::floor(static_cast<long double>(t) / I);
    long double best_lo = 0, best_hi = 0;
    // a time that already counts as a multiple is not followed by this multiple
    if (Distance(t, i) < 1.98L * s.tol - 8e-16L * (std::abs(t) + i)) {
      const long double x = (std::round(static_cast<long double>(t) / I) + 1) * I;
      b.lo = std::min(b.lo, x - slack);
      b.hi = std::min(b.hi, x + slack);
      continue;
    }
    for (long double m = std::max(0.0L, k - 1);; m += 1) {
      const long double x = m * I;
      if (x > t + slack) { // certainly the next one at the latest
        best_hi = x + slack;
        if (best_lo == 0)
          best_lo = x - slack;
        break;
      }
      if (x > t - slack && best_lo == 0) // perhaps already passed
        best_lo = x - slack;
    }
    b.lo = std::min(b.lo, best_lo);
    b.hi = std::min(b.hi, best_hi);
  }
  return b;
}
Schedule Draw(pbt::Case& c) {
  Schedule s;
  const int nf = c.i(0, 3), ni = c.i(0, 3);
  for (int i = 0; i < nf; ++i)
    s.freq.push_back(c.chance(1, 8) ? 0 : c.chance(1, 3) ? 1 : c.i(1, 50));
  s.tol = c.chance(1, 2) ? 1e-12 : c.logreal(1e-12, 1e-8);
  for (int i = 0; i < ni; ++i)
    s.interval.push_back(c.chance(1, 10) ? 0.0 : c.chance(1, 2) ? c.pick<double>({0.1, 0.3, 1e-4, 0.01, 1.0, 0.25, 2e-5, 1e-6, 1.0 / 3, 0.7}) : c.logreal(1e-6, 10));
  c.note("frequencies", pbt::list(s.freq));
  c.note("intervals", pbt::list(s.interval));
  c.note("tolerance", s.tol);
  return s;
}
std::vector<Duration> Durations(const std::vector<double>& v) {
  std::vector<Duration> r;
  for (double x : v)
    r.push_back(Duration(x));
  return r;
}
double DrawTime(pbt::Case& c, const Schedule& s) {
  std::vector<double> I;
  for (double i : s.interval)
    if (i > 0)
      I.push_back(i);
  switch (I.empty() ? 3 : c.i(0, 4)) {
  case 0: // a multiple, as products, sums or decimal fractions round it
    return c.i(0, 1000) * c.among(I);
  case 1: {
    const double i = c.among(I);
    double t = 0;
    for (int k = c.i(0, 60); k > 0; --k)
      t += i;
    return t;
  }
  case 2:
    return std::abs(c.i(1, 1000) * c.among(I) + (c.boolean() ? c.symmetric(10, 0.01) : c.symmetric(2, 0.01)) * s.tol);
  case 3:
    return c.real(0, 20);
  default:
    return c.chance(1, 3) ? 0.0 : c.among(I) * c.real(0, 5);
  }
}
struct Recorder : OutputAtFrequencyOrInterval<Grid> {
  using OutputAtFrequencyOrInterval<Grid>::OutputAtFrequencyOrInterval;
  std::vector<Grid>* seen{nullptr};
  Recorder(const ProgramOptions& o, std::vector<Grid>* s) : OutputAtFrequencyOrInterval<Grid>(o), seen(s) {}
  void operator()(const Grid& g) override {
    if (seen)
      seen->push_back(g);
  }
};
ProgramOptions Options(const Schedule& s) {
  ProgramOptions o;
  o["frequencies"] = pybind11::cast(s.freq);
  o["intervals"] = pybind11::cast(s.interval);
  o["smallest_time_step_size"] = pybind11::cast(s.tol);
  return o;
}
void Compare(pbt::Case& c, BasicOutput<Grid>& out, const Schedule& s, double t, std::ptrdiff_t cycle) {
  const int want = Fires(s, t, cycle);
  if (want >= 0)
    c.checkf(out.ShallOutputNow(At(t, cycle)) == (want == 1), [&] {
      return std::string(want ? "no output" : "an output") + " at time " + pbt::fmt(t) + ", cycle " + std::to_string(cycle);
    });
  const double next = out.NextOutputTime(Duration(t)).count();
  const Bounds b = Next(s, t);
  c.checkf(next > t, [&] { return "the next output time " + pbt::fmt(next) + " is not behind the current time " + pbt::fmt(t); });
  c.checkf(next >= static_cast<double>(b.lo), [&] { return "the next output time " + pbt::fmt(next) + " is not a multiple of an interval, expected " + pbt::fmt(static_cast<double>(b.lo)); });
  c.checkf(next <= static_cast<double>(b.hi), [&] { return "the next output time " + pbt::fmt(next) + " skips an output at " + pbt::fmt(static_cast<double>(b.hi)); });
  // whoever stops there gets an output
  if (next < 1e300)
    c.check(out.ShallOutputNow(At(next, 1)) || Fires(s, next, 1) != 1, "no output at the next output time");
  if (next < 1e300 && Fires(s, next, 1) == 0)
    c.fail("the next output time " + pbt::fmt(next) + " is no time of an output");
}

PBT_PROP("a single schedule", 30000, 1000000) {
  const Schedule s = Draw(c);
  const double t = DrawTime(c, s);
  const std::ptrdiff_t cycle = c.i(0, 200);
  c.note("time", t);
  c.note("cycle", static_cast<long>(cycle));
  if (s.tol < 256 * 2.3e-16 * t)
    throw pbt::Discard{};
  for (double i : s.interval)
    if (i > 0 && i < 16 * s.tol)
      throw pbt::Discard{};
  std::unique_ptr<BasicOutput<Grid>> out;
  switch (c.i(0, 3)) {
  case 0:
    out = std::make_unique<Recorder>(Options(s), nullptr);
    break;
  case 1:
    out = std::make_unique<AnyOutput<Grid>>(Options(s), [](const Grid&) {});
    break;
  case 2: {
    auto fn = [](const Grid&) {};
    out = std::make_unique<AsOutput<Grid, decltype(fn)>>(Options(s), fn);
    break;
  }
  default: {
    auto r = std::make_unique<Recorder>(s.freq, Durations(s.interval), Duration(s.tol));
    out = std::move(r);
  }
  }
  Compare(c, *out, s, t, cycle);
  const int f = Fires(s, t, cycle);
  c.label(f == 1 ? "fires" : f == 0 ? "silent" : "unsure");
  c.nontrivial(f >= 0 && !s.interval.empty());
}

// Walks through time as a run does and counts the outputs.
PBT_PROP("walks hit every output time once", 4000, 100000) {
  Schedule s = Draw(c);
  s.tol = 1e-12;
  for (double& i : s.interval)
    if (i > 0)
      i = std::max(i, 1e-3);
  if (s.interval.empty())
    s.interval.push_back(0.1);
  const double smallest = [&] {
    double m = 1e300;
    for (double i : s.interval)
      if (i > 0)
        m = std::min(m, i);
    return m;
  }();
  if (smallest > 1e299)
    throw pbt::Discard{};
  const double end = smallest * c.i(1, 25) * c.pick<double>({1.0, 1.0, 1.37});
  c.note("walked intervals", pbt::list(s.interval));
  c.note("end", end);
  std::vector<Grid> seen;
  MultipleOutputs<Grid> all;
  const bool separate = c.boolean();
  if (separate) { // one member for each interval, all write the same list
    for (double i : s.interval) {
      auto fn = [&seen](const Grid& g) { seen.push_back(g); };
      all.AddOutput(MakeOutput<Grid>({}, {Duration(i)}, fn));
    }
  } else {
    auto fn = [&seen](const Grid& g) { seen.push_back(g); };
    all.AddOutput(MakeOutput<Grid>({}, Durations(s.interval), fn));
  }
  Grid g;
  int stops = 0;
  const double pace = smallest * c.pick<double>({0.11, 0.35, 2.0, 0.9});
  while (g.time.count() < end) {
    const double next = all.NextOutputTime(g.time).count();
    const double to_next = (Duration(next) - g.time).count(), to_end = end - g.time.count();
    const double dt = std::min({to_next, to_end, pace * c.pick<double>({1.0, 0.5})});
    stops += dt == to_next;
    g.time += Duration(dt);
    ++g.cycles;
    if (all.ShallOutputNow(g))
      all(g);
    if (g.cycles > 20000)
      c.fail("the walk does not come to an end");
  }
  // every member writes each of its multiples once
  std::size_t at = 0;
  std::vector<double> want;
  if (separate) {
    for (double i : s.interval)
      if (i > 0)
        for (int k = 1; k * i < end - 1e-11; ++k)
          want.push_back(k * i);
  } else {
    for (double i : s.interval)
      if (i > 0)
        for (int k = 1; k * i < end - 1e-11; ++k) {
          bool dup = false;
          for (double w : want)
            dup = dup || std::abs(w - k * i) < 1e-11;
          if (!dup)
            want.push_back(k * i);
        }
  }
  std::sort(want.begin(), want.end());
  std::vector<double> got;
  for (const Grid& x : seen)
    if (x.time.count() < end - 1e-11)
      got.push_back(x.time.count());
  c.note("outputs", pbt::list(got));
  c.note("expected", pbt::list(want));
  c.equal(got.size(), want.size(), "number of outputs");
  for (; at < want.size(); ++at)
    c.near(got[at], want[at], 1e-11, "time of output " + std::to_string(at));
  // the end itself is an output exactly if it is a multiple
  int last = Fires(s, g.time.count(), 1 << 20);
  s.freq.clear();
  last = Fires(s, g.time.count(), g.cycles);
  if (last == 1)
    c.check(seen.size() > got.size(), "no output at the end although it is a multiple of an interval");
  if (last == 0)
    c.equal(seen.size(), got.size(), "outputs at the end although it is no multiple of an interval");
  c.label(std::to_string(s.interval.size()) + " intervals");
  c.nontrivial(want.size() > 1 && stops > 1);
}

PBT_PROP("combinations of outputs", 4000, 100000) {
  const int n = c.i(0, 5);
  const bool from_options = c.chance(2, 3);
  std::vector<Schedule> members;
  std::vector<std::vector<Grid>> seen(static_cast<std::size_t>(n));
  MultipleOutputs<Grid> all;
  std::vector<int> type;
  Schedule def; // what members without own schedule inherit
  if (from_options) {
    def = Draw(c);
    def.tol = 1e-12;
    OutputFactory<Grid> factory;
    for (int i = 0; i < n; ++i) {
      auto* where = &seen[static_cast<std::size_t>(i)];
      c.check(factory.RegisterOutput<Recorder>("Type" + std::to_string(i), where), "registering a new output type fails");
      c.check(factory.Contains("Type" + std::to_string(i)), "a registered output type is not found");
    }
    c.check(!factory.Contains("Unknown"), "an unknown output type is found");
    if (n > 0)
      c.check(!factory.RegisterOutput<Recorder>("Type0", &seen[0]), "an output type is registered twice");
    ProgramOptions o;
    o["frequencies"] = pybind11::cast(def.freq);
    o["intervals"] = pybind11::cast(def.interval);
    pybind11::list outputs;
    for (int i = 0; i < n; ++i) {
      pybind11::dict d;
      const int kind = c.i(0, 5);
      type.push_back(kind);
      Schedule s = def;
      if (kind == 0) {
        d["type"] = "Unknown";
      } else if (kind == 1) {
        // no type at all: is skipped
      } else {
        d["type"] = "Type" + std::to_string(i);
        if (kind >= 4) {
          s = Draw(c);
          d["frequencies"] = pybind11::cast(s.freq);
          d["intervals"] = pybind11::cast(s.interval);
          d["smallest_time_step_size"] = pybind11::cast(s.tol);
        }
        if (kind == 3) { // overrides one of the two
          s.freq = {c.i(1, 7)};
          d["frequencies"] = pybind11::cast(s.freq);
        }
      }
      members.push_back(s);
      outputs.append(d);
    }
    o["outputs"] = outputs;
    all = MultipleOutputs<Grid>(factory, o);
  } else {
    for (int i = 0; i < n; ++i) {
      members.push_back(Draw(c));
      type.push_back(2);
      auto* where = &seen[static_cast<std::size_t>(i)];
      auto r = std::make_unique<Recorder>(members.back().freq, Durations(members.back().interval), Duration(members.back().tol));
      r->seen = where;
      if (c.chance(1, 6)) {
        all.AddOutput(std::unique_ptr<Recorder>());
        all.AddOutput(std::move(r));
      } else {
        all.AddOutput(std::move(r));
      }
    }
  }
  for (const Schedule& s : members)
    for (double i : s.interval)
      if (i > 0 && i < 16 * s.tol)
        throw pbt::Discard{};
  int fired = 0, silent = 0;
  for (int k = 0; k < 8; ++k) {
    const Schedule& from = members.empty() ? def : c.among(members);
    const double t = DrawTime(c, from);
    bool precise = true;
    for (const Schedule& s : members)
      precise = precise && s.tol >= 256 * 2.3e-16 * t;
    if (!precise)
      continue;
    const std::ptrdiff_t cycle = c.i(0, 60);
    int want_any = 0;
    for (auto& v : seen)
      v.clear();
    const Grid g = At(t, cycle);
    all(g);
    Bounds b{std::numeric_limits<double>::max(), std::numeric_limits<double>::max()};
    for (int i = 0; i < n; ++i) {
      const bool exists = type[static_cast<std::size_t>(i)] > 1;
      const int want = exists ? Fires(members[static_cast<std::size_t>(i)], t, cycle) : 0;
      if (want >= 0)
        c.checkf(static_cast<int>(seen[static_cast<std::size_t>(i)].size()) == want, [&] {
          return "member " + std::to_string(i) + " runs " + std::to_string(seen[static_cast<std::size_t>(i)].size()) + " times instead of " + std::to_string(want) + " at time " + pbt::fmt(t) + ", cycle " + std::to_string(cycle);
        });
      want_any = want == 1 ? 1 : want < 0 && want_any == 0 ? -1 : want_any;
      if (exists) {
        const Bounds m = Next(members[static_cast<std::size_t>(i)], t);
        b.lo = std::min(b.lo, m.lo);
        b.hi = std::min(b.hi, m.hi);
      }
    }
    if (want_any >= 0)
      c.checkf(all.ShallOutputNow(g) == (want_any == 1), [&] { return "the combination asks wrongly at time " + pbt::fmt(t) + ", cycle " + std::to_string(cycle); });
    const double next = all.NextOutputTime(Duration(t)).count();
    c.checkf(next >= static_cast<double>(b.lo) && next <= static_cast<double>(b.hi), [&] {
      return "the next time of the combination is " + pbt::fmt(next) + " instead of " + pbt::fmt(static_cast<double>(b.lo)) + " .. " + pbt::fmt(static_cast<double>(b.hi)) + " at time " + pbt::fmt(t);
    });
    fired += want_any == 1;
    silent += want_any == 0;
  }
  c.label(std::to_string(n) + " members" + (from_options ? " from options" : ""));
  c.nontrivial(n > 1 && fired > 0 && silent > 0);
}
pbt::Setup setup([] { pyembed::Start(); });
} // namespace

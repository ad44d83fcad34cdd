// C28: counters and timers
#include "../lib/pbt.hpp"
#include "fakempi.hpp"

#include "fub/counter/CounterRegistry.hpp"

#include <cmath>
#include <map>
#include <numeric>
#include <set>
#include <sstream>

namespace {
using namespace fub;

struct Stats {
  long long sum{0}, min{0}, max{0};
  unsigned long count{0};
  double mean{0}, variance{0}, scale{1};
};
Stats Of(const std::vector<long long>& v) {
  Stats s;
  s.count = v.size();
  if (v.empty())
    return s;
  s.min = *std::min_element(v.begin(), v.end());
  s.max = *std::max_element(v.begin(), v.end());
  long double sum = 0, sq = 0;
  for (long long x : v) {
    s.sum += x;
    sum += x;
    s.scale = std::max(s.scale, std::abs(static_cast<double>(x)));
  }
  const long double m = sum / v.size();
  for (long long x : v)
    sq += (x - m) * (x - m);
  s.mean = static_cast<double>(m);
  s.variance = static_cast<double>(sq / v.size());
  return s;
}
long long DrawNumber(pbt::Case& c) {
  switch (c.i(0, 4)) {
  case 0:
    return c.i(-5, 5);
  case 1:
    return static_cast<long long>(c.integer(0, 10000000000LL));
  case 2:
    return static_cast<long long>(c.integer(-1000000, 1000000));
  case 3:
    return 1000000000000LL + c.i(-3, 3);
  default:
    return c.i(0, 1000);
  }
}
void Compare(pbt::Case& c, const Counter& k, const std::vector<long long>& v) {
  const Stats s = Of(v);
  c.equal(k.get_count(), s.count, "count");
  c.equal(k.get_value(), s.sum, "sum");
  c.equal(k.get_min(), s.min, "minimum");
  c.equal(k.get_max(), s.max, "maximum");
  c.near(k.get_mean(), s.mean, 1e-14 * s.scale, "mean");
  const double tol = 1e-12 * (s.variance + 1e-3 * s.scale * std::sqrt(s.variance)) + 1e-26 * s.scale * s.scale;
  c.near(k.get_variance(), s.variance, tol, "variance");
  c.near(k.get_stddev() * k.get_stddev(), s.variance, 4 * tol + 1e-15 * s.variance, "squared standard deviation");
  c.check(k.get_variance() >= 0 && k.get_stddev() >= 0, "negative spread");
}

PBT_PROP("histories of a registry", 6000, 150000) {
  CounterRegistry reg;
  std::map<std::string, std::vector<long long>> model;
  std::map<std::string, Counter*> where;
  static const std::vector<std::string> names{"a", "b", "", "Solver::Advance", "Solver::Advance ", "solver::advance", "x y", "ä", "c1", "c2", "c3", "c4"};
  int resets = 0, adds = 0;
  std::string log;
  for (int n = c.i(0, 60); n > 0; --n) {
    const std::string name = c.chance(1, 12) ? "n" + std::to_string(c.i(0, 200)) : c.among(names);
    Counter* k = reg.get(name);
    c.check(k != nullptr, "no counter");
    c.checkf(k->get_name() == name, [&] { return "counter '" + name + "' is called '" + k->get_name() + "'"; });
    auto [it, fresh] = where.emplace(name, k);
    c.checkf(it->second == k, [&] { return "a second lookup of '" + name + "' yields another counter"; });
    auto& v = model[name];
    log += name;
    switch (c.i(0, 9)) {
    case 0:
      k->reset();
      v.clear();
      ++resets;
      log += ": reset; ";
      break;
    case 1: { // through the earlier pointer
      const auto x = DrawNumber(c);
      it->second->add(x);
      v.push_back(x);
      log += "+" + std::to_string(x) + "; ";
      break;
    }
    case 2: { // a copy is independent
      Counter copy = *k;
      copy.add(17);
      copy.reset();
      log += ": copy; ";
      break;
    }
    default:
      for (int r = c.i(1, 3); r > 0; --r) {
        const auto x = DrawNumber(c);
        k->add(x);
        v.push_back(x);
        ++adds;
        log += "+" + std::to_string(x) + "; ";
      }
    }
    if (c.chance(1, 4))
      Compare(c, *k, v);
  }
  c.note("history", log);
  for (auto& [name, v] : model)
    Compare(c, *reg.get(name), v);
  // gathering lists every counter once
  const auto list = reg.gather_statistics();
  const auto map = reg.gather_statistics_map();
  c.equal(list.size(), model.size(), "number of gathered counters");
  c.equal(map.size(), model.size(), "number of counters gathered by name");
  std::set<std::string> seen;
  auto one = [&](const CounterResult& r) {
    auto it = model.find(r.name);
    c.checkf(it != model.end(), [&] { return "a counter '" + r.name + "' is gathered that nobody asked for"; });
    const Stats s = Of(it->second);
    c.equal(r.count, s.count, "gathered count");
    c.equal(r.min, s.min, "gathered minimum");
    c.equal(r.max, s.max, "gathered maximum");
    c.near(r.mean, s.mean, 1e-14 * s.scale, "gathered mean");
  };
  for (auto& r : list) {
    c.checkf(seen.insert(r.name).second, [&] { return "counter '" + r.name + "' is gathered twice"; });
    one(r);
  }
  for (auto& [name, r] : map) {
    c.equal(r.name, name, "key of a gathered counter");
    one(r);
  }
  for (auto& [name, v] : model)
    Compare(c, *reg.get(name), v); // gathering changes nothing
  c.label(std::to_string(model.size() / 4 * 4) + "+ counters");
  c.nontrivial(model.size() > 1 && adds > 5 && resets > 0);
}

// The same counters on several ranks, created in any order
PBT_PROP("gathering over ranks", 1500, 30000) {
  const int ranks = c.i(1, 5), n = c.i(1, 6);
  std::vector<std::string> names;
  for (int i = 0; i < n; ++i)
    names.push_back((c.boolean() ? "counter" : "Timer::") + std::to_string(c.i(0, 30) * 10 + i));
  std::vector<std::vector<std::vector<long long>>> values(static_cast<std::size_t>(ranks));
  std::vector<std::vector<std::size_t>> order(static_cast<std::size_t>(ranks));
  bool shuffled = false;
  for (int r = 0; r < ranks; ++r) {
    auto& o = order[static_cast<std::size_t>(r)];
    o.resize(static_cast<std::size_t>(n));
    std::iota(o.begin(), o.end(), 0);
    for (int i = n - 1; i > 0; --i)
      if (c.boolean()) {
        std::swap(o[static_cast<std::size_t>(i)], o[static_cast<std::size_t>(c.i(0, i))]);
        shuffled = true;
      }
    for (int i = 0; i < n; ++i) {
      std::vector<long long> v;
      for (int k = c.i(1, 5); k > 0; --k)
        v.push_back(DrawNumber(c));
      values[static_cast<std::size_t>(r)].push_back(v);
      c.note("rank " + std::to_string(r) + " " + names[static_cast<std::size_t>(i)], pbt::list(v));
    }
  }
  const int root = c.i(0, ranks - 1); // of a single counter
  const std::size_t single = static_cast<std::size_t>(c.i(0, n - 1));
  const bool by_map = c.boolean();
  std::vector<std::vector<CounterResult>> got(static_cast<std::size_t>(ranks));
  std::vector<std::optional<CounterResult>> one(static_cast<std::size_t>(ranks));
  fakempi::Run(ranks, [&](int r) {
    const auto R = static_cast<std::size_t>(r);
    CounterRegistry reg;
    for (std::size_t i : order[R])
      for (long long x : values[R][i])
        reg.get(names[i])->add(x);
    if (by_map) {
      for (auto& [k, v] : reg.gather_statistics_map())
        got[R].push_back(v);
    } else
      got[R] = reg.gather_statistics();
    one[R] = reg.get(names[single])->gather_statistics(MPI_COMM_WORLD, root);
  });
  auto judge = [&](const CounterResult& g, int at) {
    std::size_t i = 0;
    while (i < names.size() && names[i] != g.name)
      ++i;
    c.checkf(i < names.size(), [&] { return "unknown counter '" + g.name + "'"; });
    long long lo = std::numeric_limits<long long>::max(), hi = std::numeric_limits<long long>::min();
    long double sum = 0, sq = 0;
    double scale = 1;
    for (auto& v : values) {
      const Stats s = Of(v[i]);
      lo = std::min(lo, s.min);
      hi = std::max(hi, s.max);
      sum += s.mean;
      scale = std::max(scale, s.scale);
    }
    const long double mean = sum / ranks;
    for (auto& v : values)
      sq += (Of(v[i]).mean - mean) * (Of(v[i]).mean - mean);
    const double var = static_cast<double>(sq / ranks);
    c.equal(g.min, lo, "minimum over all ranks of " + g.name);
    c.equal(g.max, hi, "maximum over all ranks of " + g.name);
    c.near(g.mean, static_cast<double>(mean), 1e-13 * scale, "mean over all ranks of " + g.name);
    c.near(g.variance, var, 1e-12 * scale * (std::sqrt(var) + 1e-12 * scale), "variance of the means of the ranks of " + g.name);
    c.near(g.stddev * g.stddev, var, 4e-12 * scale * (std::sqrt(var) + 1e-12 * scale), "spread of the means of the ranks of " + g.name);
    c.equal(g.count, static_cast<unsigned long>(values[static_cast<std::size_t>(at)][i].size()), "count on the root of " + g.name);
  };
  std::set<std::string> distinct(names.begin(), names.end());
  if (distinct.size() != names.size())
    throw pbt::Discard{};
  c.equal(got[0].size(), names.size(), "number of gathered counters");
  std::set<std::string> seen;
  for (auto& g : got[0]) {
    c.check(seen.insert(g.name).second, "a counter is gathered twice");
    judge(g, 0);
  }
  for (int r = 0; r < ranks; ++r) {
    if (r > 0)
      c.check(got[static_cast<std::size_t>(r)].empty(), "another rank than the root gets results");
    c.check(one[static_cast<std::size_t>(r)].has_value() == (r == root), "not exactly the root gets the result");
  }
  judge(*one[static_cast<std::size_t>(root)], root);
  c.label(std::to_string(ranks) + " ranks");
  c.nontrivial(ranks > 1 && n > 1 && shuffled);
}

using Clock = std::chrono::steady_clock;
void Spend(pbt::Case& c) {
  const auto until = Clock::now() + std::chrono::nanoseconds(c.i(0, 3) == 0 ? c.i(0, 20000) : 0);
  while (Clock::now() < until) {
  }
}
struct Window { // when something happened: between these two
  Clock::time_point before, after;
};
PBT_PROP("histories of timers", 6000, 100000) {
  CounterRegistry reg;
  const int counters = c.i(1, 3), slots = c.i(1, 4);
  struct Running {
    int counter;
    Window start;
  };
  std::vector<std::unique_ptr<Timer>> timer(static_cast<std::size_t>(slots));
  std::vector<std::optional<Running>> model(static_cast<std::size_t>(slots));
  struct Expected {
    long long lo, hi;
  };
  std::vector<std::vector<Expected>> done(static_cast<std::size_t>(counters));
  auto name = [](int i) { return "t" + std::to_string(i); };
  for (int i = 0; i < counters; ++i)
    reg.get(name(i));
  std::string log;
  auto finish = [&](std::size_t s, Window stop) {
    if (!model[s])
      return;
    auto ns = [](Clock::duration d) { return static_cast<long long>(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()); };
    done[static_cast<std::size_t>(model[s]->counter)].push_back({ns(stop.before - model[s]->start.after), ns(stop.after - model[s]->start.before)});
    model[s].reset();
  };
  auto counts = [&] {
    for (int i = 0; i < counters; ++i)
      c.checkf(reg.get(name(i))->get_count() == done[static_cast<std::size_t>(i)].size(), [&] {
        return "counter " + name(i) + " has " + std::to_string(reg.get(name(i))->get_count()) + " measurements, but " + std::to_string(done[static_cast<std::size_t>(i)].size()) + " timers have ended; " + log;
      });
  };
  int moves = 0, ended = 0;
  for (int n = c.i(1, 25); n > 0; --n) {
    const auto s = static_cast<std::size_t>(c.i(0, slots - 1)), o = static_cast<std::size_t>(c.i(0, slots - 1));
    const int k = c.i(0, counters - 1);
    Window w;
    Spend(c);
    switch (c.i(0, 6)) {
    case 0: // start
    case 1: {
      log += "start " + std::to_string(s) + "; ";
      w.before = Clock::now();
      timer[s].reset(); // ends the old one first
      w.after = Clock::now();
      finish(s, w);
      w.before = Clock::now();
      timer[s] = c.boolean() ? std::make_unique<Timer>(reg.get_timer(name(k))) : std::make_unique<Timer>(*reg.get(name(k)));
      w.after = Clock::now();
      model[s] = Running{k, w};
      c.check(timer[s]->get_name() == name(k), "a timer has another name than its counter");
      break;
    }
    case 2: // end
      log += "end " + std::to_string(s) + "; ";
      w.before = Clock::now();
      timer[s].reset();
      w.after = Clock::now();
      ended += model[s].has_value();
      finish(s, w);
      break;
    case 3: // move construction, maybe onto nothing
      if (!timer[o] || s == o)
        break;
      log += "move " + std::to_string(o) + " into new " + std::to_string(s) + "; ";
      w.before = Clock::now();
      {
        auto fresh = std::make_unique<Timer>(std::move(*timer[o]));
        timer[s] = std::move(fresh);
      }
      w.after = Clock::now();
      finish(s, w);
      model[s] = model[o];
      model[o].reset();
      if (c.boolean())
        timer[o].reset(); // an empty timer contributes nothing
      ++moves;
      break;
    case 4: // move assignment
    case 5:
      if (!timer[o] || !timer[s] || s == o)
        break;
      log += "assign " + std::to_string(o) + " to " + std::to_string(s) + "; ";
      w.before = Clock::now();
      *timer[s] = std::move(*timer[o]);
      w.after = Clock::now();
      finish(s, w);
      model[s] = model[o];
      model[o].reset();
      ++moves;
      break;
    default: // restart, or stop by an empty timer
      if (!timer[s])
        break;
      w.before = Clock::now();
      if (c.boolean()) {
        log += "stop " + std::to_string(s) + "; ";
        *timer[s] = Timer();
        w.after = Clock::now();
        finish(s, w);
      } else {
        log += "restart " + std::to_string(s) + "; ";
        *timer[s] = reg.get_timer(name(k));
        w.after = Clock::now();
        finish(s, w);
        model[s] = Running{k, w};
      }
      ++moves;
    }
    counts();
  }
  Window w;
  w.before = Clock::now();
  try { // the rest ends by an exception
    auto rest = std::move(timer);
    throw 1;
  } catch (int) {
  }
  w.after = Clock::now();
  for (std::size_t s = 0; s < model.size(); ++s)
    finish(s, w);
  counts();
  c.note("history", log);
  for (int i = 0; i < counters; ++i) {
    // the measurements one by one are not visible, their sum and extremes are
    Counter& k = *reg.get(name(i));
    auto& d = done[static_cast<std::size_t>(i)];
    if (d.empty())
      continue;
    long long lo = 0, hi = 0, min_lo = d[0].lo, min_hi = d[0].hi, max_lo = d[0].lo, max_hi = d[0].hi;
    for (auto& e : d) {
      lo += e.lo;
      hi += e.hi;
      min_lo = std::min(min_lo, e.lo);
      min_hi = std::min(min_hi, e.hi);
      max_lo = std::max(max_lo, e.lo);
      max_hi = std::max(max_hi, e.hi);
    }
    auto in = [&](long long x, long long a, long long b, const char* what) {
      c.checkf(x >= a && x <= b, [&] { return std::string(what) + " of the measured times is " + std::to_string(x) + " ns instead of " + std::to_string(a) + " .. " + std::to_string(b) + "; " + log; });
    };
    c.check(k.get_min() >= 0, "a negative time is measured");
    in(k.get_value(), lo, hi, "sum");
    in(k.get_min(), std::max(0LL, min_lo), min_hi, "smallest");
    in(k.get_max(), max_lo, max_hi, "largest");
  }
  c.label(std::to_string(moves / 3 * 3) + "+ moves");
  c.nontrivial(moves > 0 && ended > 0);
}

template <typename D> long long In(long long ns) { return static_cast<long long>(std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns)).count()); }
template <typename D> void Table(pbt::Case& c, const std::vector<CounterResult>& all, bool map, long long reference) {
  std::string text;
  if (map) {
    std::map<std::string, CounterResult> m;
    for (auto& r : all)
      m.emplace(r.name, r);
    text = reference == -1 ? print_statistics<D>(m) : print_statistics<D>(m, reference);
  } else
    text = reference == -1 ? print_statistics<D>(all) : print_statistics<D>(all, reference);
  c.note("table", text);
  std::istringstream in(text);
  std::string line;
  std::vector<std::vector<std::string>> rows;
  while (std::getline(in, line)) {
    std::istringstream words(line);
    std::vector<std::string> w;
    for (std::string x; words >> x;)
      w.push_back(x);
    rows.push_back(w);
  }
  c.check(rows.size() >= 3, "the table has too few lines");
  if (all.empty()) {
    c.check(text.find("not contain any counters") != std::string::npos, "an empty table says nothing");
    return;
  }
  c.equal(rows.size(), all.size() + 3, "lines of the table");
  c.check(text.find(std::string("[") + DurationName<D>::name + "]") != std::string::npos, "the table does not name its unit");
  std::set<std::string> seen;
  double last_total = 1e300;
  for (std::size_t i = 2; i + 1 < rows.size(); ++i) {
    const auto& w = rows[i];
    c.check(w.size() == 7, "a row of the table does not have seven columns");
    const CounterResult* r = nullptr;
    for (auto& x : all)
      if (x.name == w[0])
        r = &x;
    c.check(r != nullptr && seen.insert(w[0]).second, "a counter appears twice or is unknown");
    c.equal(w[1], std::to_string(r->count), "calls in the table");
    c.equal(w[2], std::to_string(In<D>(r->min)), "minimum in the table");
    c.equal(w[3], std::to_string(In<D>(r->max)), "maximum in the table");
    c.equal(w[4], std::to_string(In<D>(std::llround(r->mean))), "average in the table");
    c.equal(w[5], std::to_string(In<D>(std::llround(r->stddev))), "standard deviation in the table");
    const double total = static_cast<double>(r->count) * r->mean;
    const double want = reference == -1 ? static_cast<double>(In<D>(std::llround(total))) : total / static_cast<double>(reference) * 100;
    c.near(std::strtod(w[6].c_str(), nullptr), want, 0.051 * std::abs(want) + 1e-300, "last column of the table");
    if (!map) {
      c.check(total <= last_total, "the table is not sorted by the totals");
      last_total = total;
    }
  }
}
PBT_PROP("printed tables", 3000, 50000) {
  std::vector<CounterResult> all;
  for (int n = c.i(0, 6); n > 0; --n) {
    CounterRegistry reg;
    Counter& k = *reg.get(c.pick<std::string>({"Solver", "A", "Solver::AdvanceLevel::Something::Long", "x"}) + std::to_string(n));
    for (int m = c.i(1, 5); m > 0; --m)
      k.add(static_cast<long long>(c.logreal(1, 1e12)));
    all.push_back(*k.gather_statistics());
    if (c.boolean()) {
      all.back().stddev = c.logreal(1, 1e9);
      all.back().variance = all.back().stddev * all.back().stddev;
    }
  }
  const long long reference = c.boolean() ? -1 : static_cast<long long>(c.logreal(1e3, 1e14));
  const bool map = c.boolean();
  switch (c.i(0, 3)) {
  case 0:
    Table<std::chrono::nanoseconds>(c, all, map, reference);
    break;
  case 1:
    Table<std::chrono::microseconds>(c, all, map, reference);
    break;
  case 2:
    Table<std::chrono::milliseconds>(c, all, map, reference);
    break;
  default:
    Table<std::chrono::seconds>(c, all, map, reference);
  }
  c.label(map ? "map" : "list");
  c.nontrivial(all.size() > 1);
}
} // namespace

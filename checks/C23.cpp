// C23: operator splitting applies every operator for exactly the full step
#include "../lib/pbt.hpp"

#include "fub/split_method/GodunovSplitting.hpp"
#include "fub/split_method/SplittingMethod.hpp"
#include "fub/split_method/StrangSplitting.hpp"
#include "fub/split_method/StrangSplittingLumped.hpp"

#include <Eigen/Dense>
#include <functional>
#include <memory>
#include <set>

namespace {
using namespace fub;
using Op = std::function<Result<void, TimeStepTooLarge>(Duration)>;

enum Kind { kGodunov, kStrang, kLumped };
const char* const kNames[] = {"Godunov", "Strang", "lumped Strang"};

struct Chosen {
  Kind kind;
  bool any;
  std::unique_ptr<SplittingMethod> method;
};

std::unique_ptr<SplittingMethod> Create(Kind k, int erased) {
  std::unique_ptr<SplittingMethod> m;
  switch (k) {
  case kGodunov:
    m = std::make_unique<GodunovSplitting>();
    break;
  case kStrang:
    m = std::make_unique<StrangSplitting>();
    break;
  default:
    m = std::make_unique<StrangSplittingLumped>();
  }
  if (erased == 0)
    return m;
  auto make = [&](auto proto) -> std::unique_ptr<SplittingMethod> {
    if (erased == 1)
      return std::make_unique<AnySplitMethod>(proto);
    if (erased == 2) { // assigned over another method
      auto a = k == kGodunov ? std::make_unique<AnySplitMethod>(StrangSplitting())
                             : std::make_unique<AnySplitMethod>(GodunovSplitting());
      *a = proto;
      return a;
    }
    AnySplitMethod b(proto); // copied
    AnySplitMethod c(b);
    auto a = std::make_unique<AnySplitMethod>(GodunovSplitting());
    *a = c;
    return a;
  };
  switch (k) {
  case kGodunov:
    return make(GodunovSplitting());
  case kStrang:
    return make(StrangSplitting());
  default:
    return make(StrangSplittingLumped());
  }
}

Chosen Draw(pbt::Case& c) {
  const Kind k = static_cast<Kind>(c.below(3));
  const int erased = c.i(0, 3);
  c.note("method", std::string(kNames[k]));
  c.note("type-erased", erased);
  return {k, erased != 0, Create(k, erased)};
}

// Runs the method with one functor per operator, through whichever entry the
// number of operators has (two and three also through the recursive entry).
Result<void, TimeStepTooLarge> Run(const SplittingMethod& m, Duration dt, std::vector<Op>& f, bool recursive) {
  auto one = [&](std::size_t i) { return [&f, i](Duration d) { return f[i](d); }; };
  switch (f.size()) {
  case 1:
    return m.Advance(dt, one(0));
  case 2:
    return recursive ? m.AdvanceRecursively(dt, one(0), one(1)) : m.Advance(dt, one(0), one(1));
  case 3:
    return recursive ? m.AdvanceRecursively(dt, one(0), one(1), one(2)) : m.Advance(dt, one(0), one(1), one(2));
  case 4: {
    auto a = one(0), b = one(1), e = one(2), g = one(3);
    return m.AdvanceRecursively(dt, a, b, e, SplittingMethod::AdvanceFunction(g));
  }
  default: {
    auto a = one(0), b = one(1), e = one(2), g = one(3), h = one(4);
    return m.AdvanceRecursively(dt, a, b, e, SplittingMethod::AdvanceFunction(g), SplittingMethod::AdvanceFunction(h));
  }
  }
}

struct Call {
  int op;
  double dt;
};
std::string Show(const std::vector<Call>& v) {
  std::string s;
  for (const Call& x : v)
    s += "a" + std::to_string(x.op + 1) + "(" + pbt::fmt(x.dt) + ") ";
  return s;
}
// merges consecutive calls of one operator
std::vector<Call> Merge(const std::vector<Call>& v) {
  std::vector<Call> r;
  for (const Call& x : v) {
    if (!r.empty() && r.back().op == x.op)
      r.back().dt += x.dt;
    else
      r.push_back(x);
  }
  return r;
}
double DrawStep(pbt::Case& c) {
  switch (c.i(0, 5)) {
  case 0:
    return 1.0;
  case 1:
    return 0.0;
  case 2:
    return c.logreal(1e-300, 1e300);
  case 3:
    return -c.logreal(1e-6, 1e3);
  default:
    return c.logreal(1e-9, 1e3);
  }
}

PBT_PROP("sequences of operators", 20000, 400000) {
  const int n = c.i(1, 5);
  const bool recursive = c.boolean();
  const double dt = DrawStep(c);
  c.note("operators", n);
  c.note("dt", dt);
  c.note("recursive", recursive);
  Chosen m = Draw(c);
  std::vector<Call> calls;
  std::vector<Op> ops;
  for (int i = 0; i < n; ++i)
    ops.push_back([&calls, i](Duration d) -> Result<void, TimeStepTooLarge> {
      calls.push_back({i, d.count()});
      return boost::outcome_v2::success();
    });
  const auto r = Run(*m.method, Duration(dt), ops, recursive);
  c.checkf(bool(r), [&] { return std::string("the splitting reports an error although no operator failed"); });
  c.note("calls", Show(calls));
  const double tol = 1e-13 * std::abs(dt);
  for (int i = 0; i < n; ++i) {
    double sum = 0;
    for (const Call& x : calls)
      if (x.op == i) {
        sum += x.dt;
        c.check(dt == 0 ? x.dt == 0 : (x.dt != 0 && (x.dt > 0) == (dt > 0)), "an operator moves in the wrong direction of time or not at all");
      }
    c.near(sum, dt, tol, "time covered by operator " + std::to_string(i + 1));
  }
  const std::vector<Call> merged = Merge(calls);
  if (m.kind == kGodunov) {
    c.equal(static_cast<int>(merged.size()), n, "number of operator steps of a Godunov splitting");
    for (int i = 0; i < n; ++i)
      c.equal(merged[i].op, i, "operator " + std::to_string(i + 1) + " in the sequence");
  } else {
    for (std::size_t i = 0; i < merged.size(); ++i) {
      const Call &a = merged[i], &b = merged[merged.size() - 1 - i];
      c.check(a.op == b.op && std::abs(a.dt - b.dt) <= tol, "a symmetric splitting is not symmetric");
    }
    if (n > 1) {
      c.equal(merged.front().op, 0, "first operator");
      c.near(merged.front().dt, 0.5 * dt, tol, "first half step");
    }
    int last = -1; // operators appear in the given order
    std::set<int> seen;
    for (const Call& x : merged)
      if (seen.insert(x.op).second) {
        c.equal(x.op, last + 1, "order in which operators are used first");
        last = x.op;
      }
    if (n == 2) {
      c.equal(static_cast<int>(merged.size()), 3, "steps of a symmetric splitting of two operators");
      // a1(dt/2) a2(dt/2) a2(dt/2) a1(dt/2), lumped: a1(dt/2) a2(dt) a1(dt/2)
      c.equal(static_cast<int>(calls.size()), m.kind == kStrang ? 4 : 3, "documented number of calls");
      if (m.kind == kStrang)
        c.near(calls[1].dt, calls[2].dt, tol, "documented half steps of the second operator");
    }
  }
  c.label(std::string(kNames[m.kind]) + "/" + std::to_string(n));
  c.nontrivial(n > 1 && dt != 0);
}

PBT_PROP("the first error stops the sequence", 20000, 400000) {
  const int n = c.i(1, 5);
  const bool recursive = c.boolean();
  const double dt = DrawStep(c);
  const int fail_at = c.i(0, 20);
  const double err_dt = c.chance(1, 4) ? 0.0 : c.symmetric(1e3, 1e-9);
  const int err_level = c.i(-1, 5);
  const bool throws = c.chance(1, 5);
  c.note("operators", n);
  c.note("dt", dt);
  c.note("fails at call", fail_at);
  c.note("throws", throws);
  Chosen m = Draw(c);
  int count = 0;
  std::vector<Call> calls, reference;
  std::vector<Op> ops, good;
  for (int i = 0; i < n; ++i) {
    good.push_back([&reference, i](Duration d) -> Result<void, TimeStepTooLarge> {
      reference.push_back({i, d.count()});
      return boost::outcome_v2::success();
    });
    ops.push_back([&, i](Duration d) -> Result<void, TimeStepTooLarge> {
      calls.push_back({i, d.count()});
      if (count++ == fail_at) {
        if (throws)
          throw std::domain_error("operator failed");
        return TimeStepTooLarge{Duration(err_dt), err_level};
      }
      // a later failure would carry something else
      if (count > fail_at)
        return TimeStepTooLarge{Duration(err_dt + 1), err_level + 1};
      return boost::outcome_v2::success();
    });
  }
  (void)Run(*m.method, Duration(dt), good, recursive);
  bool thrown = false, failed = false;
  TimeStepTooLarge err{};
  try {
    const auto r = Run(*m.method, Duration(dt), ops, recursive);
    failed = !r;
    if (failed)
      err = r.error();
  } catch (const std::domain_error&) {
    thrown = true;
  }
  c.note("calls", Show(calls));
  const bool reached = fail_at < static_cast<int>(reference.size());
  c.equal(failed, reached && !throws, "an error is reported");
  c.equal(thrown, reached && throws, "an exception is passed on");
  const std::size_t want = reached ? static_cast<std::size_t>(fail_at) + 1 : reference.size();
  c.equal(calls.size(), want, "number of operator calls up to the error");
  for (std::size_t i = 0; i < want; ++i)
    c.check(calls[i].op == reference[i].op && calls[i].dt == reference[i].dt, "the calls before an error differ from those of a successful step");
  if (failed) {
    c.check(err.dt.count() == err_dt && err.level == err_level, "the error is not returned unchanged");
    c.label("failed in call " + std::to_string(fail_at));
  }
  c.nontrivial(reached && n > 1);
}

using Mat = Eigen::Matrix3d;
Mat Exp(const Mat& a) { // |a| small: Taylor series with scaling
  int s = 0;
  Mat b = a;
  while (b.norm() > 0.1) {
    b *= 0.5;
    ++s;
  }
  Mat r = Mat::Identity(), t = Mat::Identity();
  for (int k = 1; k < 16; ++k) {
    t = t * b / k;
    r += t;
  }
  for (; s > 0; --s)
    r = (r * r).eval();
  return r;
}

PBT_PROP("composed linear flows", 10000, 200000) {
  const int n = c.i(1, 5);
  const bool recursive = c.boolean();
  const bool commuting = c.chance(1, 3);
  Chosen m = Draw(c);
  Mat base;
  for (int i = 0; i < 9; ++i)
    base(i / 3, i % 3) = c.symmetric(1, 1e-3);
  std::vector<Mat> a(n);
  double norm = 0;
  for (Mat& x : a) {
    if (commuting) {
      x = c.real(-1, 1) * base + c.real(-1, 1) * base * base + c.real(-1, 1) * Mat::Identity();
    } else {
      for (int i = 0; i < 9; ++i)
        x(i / 3, i % 3) = c.symmetric(1, 1e-3);
    }
    norm += x.norm();
  }
  const double s = commuting ? c.logreal(1e-3, 1.0) : c.logreal(1e-3, 0.3);
  const double dt = norm > 0 ? s / norm : s;
  c.note("operators", n);
  c.note("commuting", commuting);
  c.note("|A| dt", s);
  Mat y = Mat::Identity();
  std::vector<Op> ops;
  for (int i = 0; i < n; ++i)
    ops.push_back([&y, &a, i](Duration d) -> Result<void, TimeStepTooLarge> {
      y = (Exp(a[i] * d.count()) * y).eval();
      return boost::outcome_v2::success();
    });
  c.check(bool(Run(*m.method, Duration(dt), ops, recursive)), "failure");
  Mat sum = Mat::Zero();
  for (const Mat& x : a)
    sum += x;
  const double err = (y - Exp(sum * dt)).norm();
  // Both sides have Taylor coefficients bounded by those of e^s, so they can
  // only differ by twice the tail of e^s behind the order of the method.
  double bound = std::expm1(s) - s;
  if (m.kind != kGodunov)
    bound = s < 1e-2 ? s * s * s / 6 * (1 + s) : bound - 0.5 * s * s;
  bound = 2 * 1.01 * bound;
  if (commuting || n == 1)
    bound = 0;
  c.checkf(err <= bound + 1e-13, [&] {
    return "composed flow differs from the exact flow by " + pbt::fmt(err) + ", more than " + pbt::fmt(bound) + " allowed for its order";
  });
  if (n == 2 && !commuting) {
    const Mat comm = a[0] * a[1] - a[1] * a[0];
    c.label(comm.norm() > 0.1 ? "clearly non-commuting" : "nearly commuting");
    c.nontrivial(comm.norm() > 0.1);
  } else {
    c.nontrivial(n > 1);
  }
}

template <int Rank> void Directions(pbt::Case& c, int cycle, std::pair<int, int> sub) {
  const auto d = MakeSplitDirections<Rank>(cycle, sub);
  std::set<int> all;
  for (Direction x : d) {
    c.check(static_cast<int>(x) >= 0 && static_cast<int>(x) < Rank, "a split direction is not a direction of the grid");
    all.insert(static_cast<int>(x));
  }
  c.equal(static_cast<int>(all.size()), Rank, "number of different split directions");
  auto reversed = [&](const auto& a, const auto& b) {
    for (int i = 0; i < Rank; ++i)
      if (a[i] != b[Rank - 1 - i])
        return false;
    return true;
  };
  c.check(reversed(d, MakeSplitDirections<Rank>(cycle + 1, sub)), "the directions are not reversed in the next cycle");
  c.check(reversed(d, MakeSplitDirections<Rank>(cycle, {sub.first + 1, sub.second})), "the directions are not reversed in the next subcycle");
  const auto first = MakeSplitDirections<Rank>(0, {0, 1});
  for (int i = 0; i < Rank; ++i)
    c.equal(static_cast<int>(first[i]), i, "directions of the first cycle");
}
PBT_PROP("split directions", 3000, 50000) {
  const int cycle = c.i(0, 100000);
  const int of = c.i(1, 8);
  const std::pair<int, int> sub{c.i(0, of - 1), of};
  c.note("cycle", cycle);
  c.note("subcycle", sub.first);
  Directions<1>(c, cycle, sub);
  Directions<2>(c, cycle, sub);
  Directions<3>(c, cycle, sub);
  c.nontrivial(cycle > 0 && sub.first > 0);
}
} // namespace

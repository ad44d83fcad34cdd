// A small choice-sequence property-based-testing engine.
//
// Every random decision of a case is drawn through `Case`; the drawn bounded
// integers form the *choice sequence*, which is the unit of shrinking and of
// replay: re-running a property body on the same sequence reproduces the case
// exactly.  All draws shrink towards 0 = "simplest value".
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/time.h>
#include <unistd.h>

namespace pbt {

struct Failure {
  std::string msg;
};
/// Thrown by a harness to skip a case that is outside of the domain. Counted.
struct Discard {};

inline std::string fmt(double x) {
  char b[40];
  std::snprintf(b, sizeof b, "%.17g", x);
  return b;
}
template <typename T> std::string str(const T& x) {
  if constexpr (std::is_floating_point_v<T>) {
    return fmt(x);
  } else {
    std::ostringstream o;
    o << x;
    return o.str();
  }
}
template <typename C> std::string list(const C& c) {
  std::string s = "[";
  bool first = true;
  for (auto&& x : c) {
    if (!first)
      s += ", ";
    first = false;
    s += str(x);
  }
  return s + "]";
}

struct Rng {
  uint64_t s;
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
};

class Case {
public:
  std::vector<uint64_t> ch;
  std::size_t pos{0};
  bool replay{false};
  bool verbose{false};
  Rng rng{0};
  std::string desc;
  std::vector<std::string> labels;
  bool nontriv{false};
  const std::set<std::string>* known_keys{nullptr};
  std::map<std::string, std::string> known_hits;

  /// uniform in [0, n), 0 is simplest
  uint64_t below(uint64_t n) {
    if (n <= 1)
      return 0;
    uint64_t v;
    if (replay) {
      v = pos < ch.size() ? ch[pos] : 0;
      if (v >= n)
        v = n - 1;
      if (pos < ch.size())
        ch[pos] = v;
      else
        ch.push_back(v);
    } else {
      v = rng.next() % n;
      ch.push_back(v);
    }
    ++pos;
    return v;
  }
  int64_t integer(int64_t lo, int64_t hi) {
    return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1));
  }
  int i(int lo, int hi) { return static_cast<int>(integer(lo, hi)); }
  /// true with probability num/den, shrinks to false
  bool chance(int num, int den) {
    return below(static_cast<uint64_t>(den)) >= static_cast<uint64_t>(den - num);
  }
  bool boolean() { return below(2) == 1; }
  double unit() {
    return static_cast<double>(below(1ull << 53)) / 9007199254740992.0;
  }
  /// a real in [lo, hi]; round grid values (including the ends) are likely.
  double real(double lo, double hi) {
    switch (below(6)) {
    case 0:
      return lo + (hi - lo) * static_cast<double>(below(9)) / 8.0;
    case 1:
      return lo + (hi - lo) * static_cast<double>(below(65)) / 64.0;
    default:
      return lo + (hi - lo) * unit();
    }
  }
  /// log-uniform positive real
  double logreal(double lo, double hi) {
    return std::exp(real(std::log(lo), std::log(hi)));
  }
  /// a real in [-m, m], zero likely, magnitudes spread over decades
  double symmetric(double m, double tiny = 1e-3) {
    switch (below(5)) {
    case 0:
      return 0.0;
    case 1:
      return (boolean() ? -1 : 1) * m * static_cast<double>(below(9)) / 8.0;
    case 2:
      return (boolean() ? -1 : 1) * logreal(m * tiny, m);
    default:
      return m * (2.0 * unit() - 1.0);
    }
  }
  template <typename T> T pick(std::initializer_list<T> xs) {
    return *(xs.begin() + below(xs.size()));
  }
  template <typename C> const typename C::value_type& among(const C& xs) {
    return *(xs.begin() + static_cast<std::ptrdiff_t>(below(xs.size())));
  }

  template <typename T> void note(const std::string& k, const T& v) {
    if (desc.size() > 6000)
      return;
    if (!desc.empty())
      desc += "; ";
    desc += k + "=";
    if constexpr (std::is_convertible_v<const T&, std::string>)
      desc += std::string(v);
    else
      desc += str(v);
  }
  void label(const std::string& l) { labels.push_back(l); }
  void nontrivial(bool b = true) { nontriv = nontriv || b; }

  [[noreturn]] void fail(const std::string& m) { throw Failure{m}; }
  void check(bool b, const std::string& m) {
    if (!b)
      fail(m);
  }
  template <typename F> void checkf(bool b, F f) {
    if (!b)
      fail(f());
  }
  /// a failure with a listed identity: suppressed iff listed as known
  void known(const std::string& key, const std::string& m) {
    if (known_keys && known_keys->count(key)) {
      known_hits.emplace(key, m);
      return;
    }
    fail(m + " [finding key " + key + "]");
  }
  /// |a-b| <= tol; NaN never passes
  void near(double a, double b, double tol, const std::string& what) {
    if (!(std::abs(a - b) <= tol))
      fail(what + ": " + fmt(a) + " vs " + fmt(b) + " (|diff| " +
           fmt(std::abs(a - b)) + " > tol " + fmt(tol) + ")");
  }
  void rel(double a, double b, double rtol, const std::string& what,
           double scale = 0.0) {
    near(a, b, rtol * std::max({std::abs(a), std::abs(b), scale}), what);
  }
  void eq(double a, double b, const std::string& what) {
    if (!(a == b))
      fail(what + ": " + fmt(a) + " != " + fmt(b));
  }
  template <typename A, typename B>
  void equal(const A& a, const B& b, const std::string& what) {
    if (!(a == b))
      fail(what + ": " + str(a) + " != " + str(b));
  }
};

using Body = std::function<void(Case&)>;
struct Prop {
  std::string name;
  long quick;
  long thorough;
  Body body;
};
inline std::vector<Prop>& registry() {
  static std::vector<Prop> r;
  return r;
}
struct Register {
  Register(const char* name, long q, long t, Body b) {
    registry().push_back(Prop{name, q, t, std::move(b)});
  }
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_PROP_(fn, name, q, t)                                              \
  static void fn(pbt::Case& c);                                                \
  static pbt::Register PBT_CAT(fn, _reg)(name, q, t, fn);                      \
  static void fn(pbt::Case& c)
/// PBT_PROP(name, quick case count, thorough case count) { body uses c }
#define PBT_PROP(name, q, t)                                                   \
  PBT_PROP_(PBT_CAT(pbt_prop_, __COUNTER__), name, q, t)

int run_main(int argc, char** argv);

/// optional per-process set up
inline std::function<void()>& setup_hook() {
  static std::function<void()> f;
  return f;
}
struct Setup {
  explicit Setup(std::function<void()> f) { setup_hook() = std::move(f); }
};

} // namespace pbt

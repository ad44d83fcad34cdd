// C33: type-erased strategies are independent values.
#include "pbt.hpp"
#include "fub/core/type_traits.hpp"
#include "fub/ext/outcome.hpp"
#include "fub/Meta.hpp"
#include "fub/AnyBoundaryCondition.hpp"
#include "fub/AnyInitialData.hpp"
#include "fub/AnyTaggingMethod.hpp"
#include "fub/HyperbolicMethod.hpp"
#include "fub/TimeStepError.hpp"
#include "fub/core/function_ref.hpp"
#include "fub/cutcell_method/AnyMdLimiter.hpp"
#include "fub/geometry/PolymorphicGeometry.hpp"
#include "fub/ode_solver/OdeSolver.hpp"
#include "fub/split_method/SplittingMethod.hpp"
#include <functional>
#include <optional>

// a grid which only has an identity
struct FakeGrid {
  int id{0};
};
struct FakeLevel {
  int id{0};
};
namespace fub {
template <> struct GridTraits<FakeGrid> {
  using PatchLevel = FakeLevel;
  using TagDataHandle = int*;
  using DataReference = FakeLevel&;
};
} // namespace fub

using namespace fub;
namespace {
struct Ctx {
  int id{0};
};
using Rec = std::vector<double>;
std::vector<Rec> g_log;
int g_live = 0; // strategies which exist
template <typename T> double Id(const T& x) { return double(reinterpret_cast<std::intptr_t>(&x) & 0xffffffff); }

/// the state of a strategy: copies count on their own
struct State {
  int kind, key;
  mutable int count{0};
  State(int k, int n) : kind(k), key(n) { ++g_live; }
  State(const State& o) : kind(o.kind), key(o.key), count(o.count) { ++g_live; }
  State(State&& o) noexcept : kind(o.kind), key(o.key), count(o.count) {
    o.key = -1;
    ++g_live;
  }
  State& operator=(const State& o) = default;
  ~State() {
    key = -7;
    --g_live;
  }
  void Log(double what, Rec args) const {
    Rec r{double(kind), double(key), double(count++), what};
    r.insert(r.end(), args.begin(), args.end());
    g_log.push_back(r);
  }
  double Answer(double what) const { return 1000.0 * key + 10.0 * what + kind; }
};

// Each trait has the erased type, the strategies (two kinds), and the calls
struct InitialData {
  using Any = AnyInitialData<FakeGrid>;
  static constexpr bool has_empty = true, has_assign = true, move_copies = false;
  template <int K> struct S : State {
    S(int key) : State(K, key) {}
    void InitializeData(FakeLevel& l, const FakeGrid& g, int level, Duration t) { Log(1, {Id(l), Id(g), double(level), t.count()}); }
  };
  static bool Optional(int, int) { return false; }
  static const int calls = 1;
  static Rec Call(pbt::Case& c, Any& a, int, double& res, double&) {
    static FakeLevel l[3];
    static FakeGrid g[3];
    const int i = c.i(0, 2), j = c.i(0, 2), n = c.i(-1, 5);
    const double t = c.symmetric(10.0);
    a.InitializeData(l[i], g[j], n, Duration(t));
    res = 0;
    return {1, Id(l[i]), Id(g[j]), double(n), t};
  }
};
struct Boundary {
  using Any = AnyBoundaryCondition<FakeGrid>;
  static constexpr bool has_empty = true, has_assign = true, move_copies = false;
  template <int K> struct S : State {
    S(int key) : State(K, key) {}
    void FillBoundary(FakeLevel& l, const FakeGrid& g, int level) { Log(1, {Id(l), Id(g), double(level)}); }
    void FillBoundary(FakeLevel& l, const FakeGrid& g, int level, Direction d) { Log(2, {Id(l), Id(g), double(level), double(int(d))}); }
    template <int Q = K, typename = std::enable_if_t<Q == 0>> void PreAdvanceHierarchy(const FakeGrid& g) { Log(3, {Id(g)}); }
  };
  static bool Optional(int kind, int what) { return kind != 0 && what == 2; } // nothing happens
  static const int calls = 4;
  static Rec Call(pbt::Case& c, Any& a, int what, double& res, double& want) {
    static FakeLevel l[3];
    static FakeGrid g[3];
    const int i = c.i(0, 2), j = c.i(0, 2), n = c.i(-1, 5);
    const Direction d = Direction(c.i(0, 2));
    res = 0;
    switch (what) {
    case 0:
      a.FillBoundary(l[i], g[j], n);
      return {1, Id(l[i]), Id(g[j]), double(n)};
    case 1:
      a.FillBoundary(l[i], g[j], n, d);
      return {2, Id(l[i]), Id(g[j]), double(n), double(int(d))};
    case 2:
      a.PreAdvanceHierarchy(g[j]);
      return {3, Id(g[j])};
    default: // see through to the strategy
      if (auto* p = a.template Cast<S<0>>())
        res = 1.0 + p->State::Answer(0);
      if (auto* p = a.template Cast<S<1>>()) {
        c.check(res == 0, "one boundary condition has two types");
        res = 1.0 + p->State::Answer(0);
      }
      c.check(a.template Cast<int>() == nullptr, "a cast to a foreign type succeeded");
      want = 1;
      return {};
    }
  }
};
struct Tagging {
  using Any = AnyTaggingMethod<FakeGrid>;
  static constexpr bool has_empty = true, has_assign = true, move_copies = false;
  template <int K> struct S : State {
    S(int key) : State(K, key) {}
    void TagCellsForRefinement(int* tags, FakeGrid& g, int level, Duration t) { Log(1, {Id(*tags), Id(g), double(level), t.count()}); }
  };
  static bool Optional(int, int) { return false; }
  static const int calls = 1;
  static Rec Call(pbt::Case& c, Any& a, int, double& res, double&) {
    static int tags[3];
    static FakeGrid g[3];
    const int i = c.i(0, 2), j = c.i(0, 2), n = c.i(-1, 5);
    const double t = c.symmetric(10.0);
    a.TagCellsForRefinement(tags + i, g[j], n, Duration(t));
    res = 0;
    return {1, Id(tags[i]), Id(g[j]), double(n), t};
  }
};
struct FluxMethod_ {
  using Any = AnyFluxMethod<Ctx>;
  static constexpr bool has_empty = false, has_assign = true, move_copies = false;
  template <int K> struct S : State {
    S(int key) : State(K, key) {}
    Duration ComputeStableDt(Ctx& x, int level, Direction d) {
      Log(1, {Id(x), double(level), double(int(d))});
      return Duration(Answer(1));
    }
    void ComputeNumericFluxes(Ctx& x, int level, Duration dt, Direction d) { Log(2, {Id(x), double(level), dt.count(), double(int(d))}); }
    int GetStencilWidth() const {
      Log(3, {});
      return int(Answer(3));
    }
    template <int Q = K, typename = std::enable_if_t<Q == 0>> void PreAdvanceHierarchy(Ctx& x) { Log(4, {Id(x)}); }
    template <int Q = K, typename = std::enable_if_t<Q == 0>>
    void PreSplitStep(Ctx& x, int level, Duration dt, Direction d, std::pair<int, int> s) {
      Log(5, {Id(x), double(level), dt.count(), double(int(d)), double(s.first), double(s.second)});
    }
  };
  static bool Optional(int kind, int what) { return kind != 0 && (what == 3 || what == 4); }
  static const int calls = 6;
  static Rec Call(pbt::Case& c, Any& a, int what, double& res, double& want) {
    static Ctx x[3];
    const int i = c.i(0, 2), n = c.i(-1, 5);
    const Direction d = Direction(c.i(0, 2));
    const double t = c.symmetric(10.0);
    const std::pair<int, int> s{c.i(0, 3), c.i(0, 3)};
    res = want = 0;
    switch (what) {
    case 0:
      res = a.ComputeStableDt(x[i], n, d).count();
      want = 1;
      return {1, Id(x[i]), double(n), double(int(d))};
    case 1:
      a.ComputeNumericFluxes(x[i], n, Duration(t), d);
      return {2, Id(x[i]), double(n), t, double(int(d))};
    case 2:
      res = a.GetStencilWidth();
      want = 3;
      return {3};
    case 3:
      a.PreAdvanceHierarchy(x[i]);
      return {4, Id(x[i])};
    case 4:
      a.PreSplitStep(x[i], n, Duration(t), d, s);
      return {5, Id(x[i]), double(n), t, double(int(d)), double(s.first), double(s.second)};
    default: {
      int hits = 0;
      try {
        res = AnyCast<S<0>>(a).State::Answer(0) + 1.0;
        ++hits;
      } catch (const std::runtime_error&) {
      }
      try {
        res = AnyCast<S<1>>(a).State::Answer(0) + 1.0;
        ++hits;
      } catch (const std::runtime_error&) {
      }
      c.check(hits == 1, "a flux method cannot be cast to exactly one type");
      want = 1;
      return {};
    }
    }
  }
};
struct TimeIntegrator_ {
  using Any = AnyTimeIntegrator<Ctx>;
  static constexpr bool has_empty = false, has_assign = true, move_copies = false;
  template <int K> struct S : State {
    S(int key) : State(K, key) {}
    void UpdateConservatively(Ctx& x, int level, Duration dt, Direction d) { Log(1, {Id(x), double(level), dt.count(), double(int(d))}); }
  };
  static bool Optional(int, int) { return false; }
  static const int calls = 2;
  static Rec Call(pbt::Case& c, Any& a, int what, double& res, double& want) {
    static Ctx x[3];
    const int i = c.i(0, 2), n = c.i(-1, 5);
    const Direction d = Direction(c.i(0, 2));
    const double t = c.symmetric(10.0);
    res = want = 0;
    if (what == 0) {
      a.UpdateConservatively(x[i], n, Duration(t), d);
      return {1, Id(x[i]), double(n), t, double(int(d))};
    }
    int hits = 0;
    try {
      res = AnyCast<S<0>>(a).State::Answer(0) + 1.0;
      ++hits;
    } catch (const std::runtime_error&) {
    }
    try {
      res = AnyCast<S<1>>(a).State::Answer(0) + 1.0;
      ++hits;
    } catch (const std::runtime_error&) {
    }
    c.check(hits == 1, "a time integrator cannot be cast to exactly one type");
    want = 1;
    return {};
  }
};
struct Reconstruction_ {
  using Any = AnyReconstruction<Ctx>;
  static constexpr bool has_empty = false, has_assign = true, move_copies = false;
  template <int K> struct S : State {
    S(int key) : State(K, key) {}
    void CompleteFromCons(Ctx& x, int level, Duration dt) { Log(1, {Id(x), double(level), dt.count()}); }
  };
  static bool Optional(int, int) { return false; }
  static const int calls = 1;
  static Rec Call(pbt::Case& c, Any& a, int, double& res, double&) {
    static Ctx x[3];
    const int i = c.i(0, 2), n = c.i(-1, 5);
    const double t = c.symmetric(10.0);
    a.CompleteFromCons(x[i], n, Duration(t));
    res = 0;
    return {1, Id(x[i]), double(n), t};
  }
};
struct MdLimiter {
  using Any = AnyLimiter<2>;
  static constexpr bool has_empty = true, has_assign = true, move_copies = false;
  template <int K> struct S : State {
    S(int key) : State(K, key) {}
    void LimitGradientsAtIndex(const std::array<StridedDataView<double, 2>, 2>& g, StridedDataView<const double, 2> u, const CutCellData<2>& geom,
                               const Index<2>& i, const Coordinates<2>& dx) const {
      Log(1, {Id(g[0](0, 0)), Id(g[1](0, 0)), Id(u(0, 0)), Id(geom), double(i[0]), double(i[1]), dx[0], dx[1]});
    }
  };
  static bool Optional(int, int) { return false; }
  static const int calls = 1;
  static Rec Call(pbt::Case& c, Any& a, int, double& res, double&) {
    static double data[3];
    static CutCellData<2> geom[2];
    auto view = [](double* p) {
      return StridedDataView<double, 2>(mdspan<double, 2, layout_stride>(p, layout_stride::mapping<dynamic_extents<2>>(
                                                                               dynamic_extents<2>(1, 1), std::array<std::ptrdiff_t, 2>{1, 1})),
                                        std::array<std::ptrdiff_t, 2>{0, 0});
    };
    auto cview = [](const double* p) {
      return StridedDataView<const double, 2>(
          mdspan<const double, 2, layout_stride>(p, layout_stride::mapping<dynamic_extents<2>>(dynamic_extents<2>(1, 1), std::array<std::ptrdiff_t, 2>{1, 1})),
          std::array<std::ptrdiff_t, 2>{0, 0});
    };
    const int i = c.i(0, 2), j = c.i(0, 2), k = c.i(0, 2), q = c.i(0, 1);
    const Index<2> at{c.i(-5, 5), c.i(-5, 5)};
    const Coordinates<2> dx(c.unit(), c.unit());
    const Any& ca = a;
    ca.LimitGradientsAtIndex({view(data + i), view(data + j)}, cview(data + k), geom[q], at, dx);
    res = 0;
    return {1, Id(data[i]), Id(data[j]), Id(data[k]), Id(geom[q]), double(at[0]), double(at[1]), dx[0], dx[1]};
  }
};
struct Splitting {
  using Any = AnySplitMethod;
  static constexpr bool has_empty = false, has_assign = true, move_copies = false;
  template <int K> struct S : State, SplittingMethod {
    S(int key) : State(K, key) {}
    using SplittingMethod::Advance;
    Result<void, TimeStepTooLarge> Advance(Duration dt, AdvanceFunction f, AdvanceFunction g) const override {
      Log(1, {dt.count()});
      auto r = f(Duration(2.0 * dt.count()));
      if (!r)
        return r;
      return g(Duration(3.0 * dt.count()));
    }
  };
  static bool Optional(int, int) { return false; }
  static const int calls = 1;
  static Rec Call(pbt::Case& c, Any& a, int, double& res, double&) {
    const double t = c.symmetric(10.0);
    const int fails = c.i(0, 2); // which operator asks for a smaller step
    double got[2] = {-1, -1};
    SplittingMethod& base = a;
    auto r = base.Advance(
        Duration(t),
        [&](Duration d) -> Result<void, TimeStepTooLarge> {
          got[0] = d.count();
          if (fails == 1)
            return TimeStepTooLarge{Duration(0.25), 7};
          return boost::outcome_v2::success();
        },
        [&](Duration d) -> Result<void, TimeStepTooLarge> {
          got[1] = d.count();
          if (fails == 2)
            return TimeStepTooLarge{Duration(0.5), 8};
          return boost::outcome_v2::success();
        });
    c.equal(got[0], 2.0 * t, "step of the first operator");
    c.equal(got[1], fails == 1 ? -1.0 : 3.0 * t, "step of the second operator");
    c.equal(bool(r), fails == 0, "result of the splitting");
    if (!r && fails)
      c.check(r.error().level == 6 + fails && r.error().dt.count() == 0.25 * fails, "the error of an operator changed");
    res = 0;
    return {1, t};
  }
};
struct Geom {
  using Any = PolymorphicGeometry<2>;
  static constexpr bool has_empty = false, has_assign = std::is_copy_assignable_v<PolymorphicGeometry<2>>, move_copies = true;
  template <int K> struct S;
  static bool Optional(int, int) { return false; }
  static const int calls = 3;
  static Rec Call(pbt::Case& c, Any& a, int what, double& res, double& want) {
    const std::array<double, 2> x{c.symmetric(3.0), c.symmetric(3.0)};
    want = 1;
    if (what == 0) {
      res = a.ComputeDistanceTo(x);
    } else if (what == 1) {
      res = a.Base().ComputeDistanceTo(x);
    } else { // a clone counts on its own
      const std::unique_ptr<Geometry<2>> clone = a.Clone();
      const double r1 = clone->ComputeDistanceTo(x);
      g_log.pop_back();
      res = a.ComputeDistanceTo(x);
      c.equal(r1, res, "the distance of a clone");
    }
    return {1, x[0], x[1]};
  }
};
template <> struct Geom::S<0> : State { // does not know of the interface
  S(int key) : State(0, key) {}
  double ComputeDistanceTo(const std::array<double, 2>& x) const {
    Log(1, {x[0], x[1]});
    return Answer(1);
  }
};
template <> struct Geom::S<1> : State, Geometry<2> {
  S(int key) : State(1, key) {}
  double ComputeDistanceTo(const std::array<double, 2>& x) const override {
    Log(1, {x[0], x[1]});
    return Answer(1);
  }
  std::unique_ptr<Geometry<2>> Clone() const override { return std::make_unique<S<1>>(*this); }
};

template <typename Trait> void Histories(pbt::Case& c) {
  using Any = typename Trait::Any;
  struct Model {
    bool full{false};
    bool moved{false};
    int kind{0}, key{0}, count{0};
  };
  constexpr int N = 4;
  g_log.clear();
  const int live0 = g_live;
  std::string history;
  int checked = 0, copies = 0;
  {
    std::optional<Any> slot[N];
    std::optional<Model> model[N];
    int next = 1;
    auto live = [&] {
      int n = 0;
      for (auto& m : model)
        n += m && m->full;
      return n;
    };
    const auto from = [&](int kind, int key, auto put) {
      // from a temporary, or from an object that lives on and goes its own way
      auto make = [&](auto tag) {
        using St = typename decltype(tag)::type;
        if (c.boolean()) {
          put(St(key));
        } else {
          St st(key);
          put(st);
          st.key = 4242;
          st.count = 77;
        }
      };
      struct A { using type = typename Trait::template S<0>; };
      struct B { using type = typename Trait::template S<1>; };
      if (kind == 0)
        make(A{});
      else
        make(B{});
    };
    for (int i = 0; i < 2; ++i) { // there is something to begin with
      const int kind = c.i(0, 1), key = next++;
      from(kind, key, [&](auto&& st) { slot[i].emplace(std::forward<decltype(st)>(st)); });
      model[i] = Model{true, false, kind, key, 0};
    }
    const int steps = c.i(1, 24);
    for (int s = 0; s < steps; ++s) {
      const int i = c.i(0, N - 1), j = c.i(0, N - 1), op = c.i(0, 9);
      switch (op) {
      case 0: { // construct from a strategy
        const int kind = c.i(0, 1), key = next++;
        from(kind, key, [&](auto&& st) {
          slot[i].reset();
          slot[i].emplace(std::forward<decltype(st)>(st));
        });
        model[i] = Model{true, false, kind, key, 0};
        history += "new(" + std::to_string(i) + ") ";
        break;
      }
      case 1: // construct an empty one
        if constexpr (Trait::has_empty) {
          slot[i].reset();
          slot[i].emplace();
          model[i] = Model{};
          history += "empty(" + std::to_string(i) + ") ";
        }
        break;
      case 2: // copy construct
        if (i != j && slot[j] && !(model[j]->moved && !Trait::has_empty)) {
          slot[i].reset();
          const Any& from = *slot[j];
          slot[i].emplace(from);
          model[i] = model[j];
          history += "copy(" + std::to_string(i) + "<-" + std::to_string(j) + ") ";
          ++copies;
        }
        break;
      case 3: // move construct
        if (i != j && slot[j] && !(model[j]->moved && !Trait::has_empty)) {
          slot[i].reset();
          slot[i].emplace(std::move(*slot[j]));
          model[i] = model[j];
          if (!Trait::move_copies) {
            model[j] = Model{};
            model[j]->moved = true;
          }
          history += "move(" + std::to_string(i) + "<-" + std::to_string(j) + ") ";
        }
        break;
      case 4: // copy assign, also to itself
        if constexpr (Trait::has_assign) {
          if (slot[i] && slot[j] && !(model[j]->moved && !Trait::has_empty)) {
            *slot[i] = static_cast<const Any&>(*slot[j]);
            model[i] = model[j];
            history += "assign(" + std::to_string(i) + "<-" + std::to_string(j) + ") ";
            ++copies;
          }
        }
        break;
      case 5: // move assign
        if constexpr (Trait::has_assign) {
          if (i != j && slot[i] && slot[j] && !(model[j]->moved && !Trait::has_empty)) {
            *slot[i] = std::move(*slot[j]);
            model[i] = model[j];
            if (!Trait::move_copies) {
              model[j] = Model{};
              model[j]->moved = true;
            }
            history += "moveassign(" + std::to_string(i) + "<-" + std::to_string(j) + ") ";
          }
        }
        break;
      case 6: // assign a strategy
        if constexpr (Trait::has_assign) {
          if (slot[i]) {
            const int kind = c.i(0, 1), key = next++;
            from(kind, key, [&](auto&& st) { *slot[i] = std::forward<decltype(st)>(st); });
            model[i] = Model{true, false, kind, key, 0};
            history += "put(" + std::to_string(i) + ") ";
          }
        }
        break;
      case 7:
        if (c.chance(1, 2)) {
          slot[i].reset();
          model[i].reset();
          history += "drop(" + std::to_string(i) + ") ";
          break;
        }
        [[fallthrough]];
      default: // call
        if (slot[i] && (model[i]->full || Trait::has_empty)) {
          g_log.clear();
          const int what = c.i(0, Trait::calls - 1);
          double res = 0, want = 0;
          const Rec args = Trait::Call(c, *slot[i], what, res, want);
          history += "call(" + std::to_string(i) + ") ";
          c.note("history", history);
          Model& m = *model[i];
          if (!m.full) {
            c.check(g_log.empty(), "an empty object called something");
            c.equal(res, 0.0, "the result of an empty object");
          } else if (args.empty()) { // no call is forwarded
            c.equal(res, 1000.0 * m.key + m.kind + 1.0, "the strategy behind the object");
          } else if (Trait::Optional(m.kind, what)) {
            c.check(g_log.empty(), "a call the strategy does not have");
          } else {
            c.check(g_log.size() == 1, "the call was not forwarded exactly once");
            const Rec& r = g_log[0];
            Rec e{double(m.kind), double(m.key), double(m.count)};
            e.insert(e.end(), args.begin(), args.end());
            c.checkf(r == e, [&] { return "forwarded call (kind, key, count, call, arguments): got " + pbt::list(r) + ", expected " + pbt::list(e); });
            m.count++;
            if (want != 0)
              c.equal(res, 1000.0 * m.key + 10.0 * want + m.kind, "the result of the call");
            ++checked;
          }
        }
      }
      c.note("history", history);
      c.equal(g_live - live0, live(), "the number of strategies which are alive");
    }
  }
  c.equal(g_live, live0, "strategies are left behind");
  c.nontrivial(checked > 0 && copies > 0);
  c.label(checked == 0 ? "no call" : copies == 0 ? "no copy" : "copies and calls");
}

// function_ref --------------------------------------------------------------
struct MoveOnly {
  int v;
  explicit MoveOnly(int x) : v(x) {}
  MoveOnly(MoveOnly&& o) noexcept : v(o.v) { o.v = -1; }
};
int Plain(int x) { return x * 3 + 1; }
int g_arg_copies = 0;
struct Arg {
  int v;
  explicit Arg(int x) : v(x) {}
  Arg(const Arg& o) : v(o.v) { ++g_arg_copies; }
};
PBT_PROP("function_ref", 6000, 200000) {
  const int n = c.i(1, 12);
  int state = 0;
  auto mut = [state](int x) mutable { return ++state + 100 * x; };
  const auto imm = [&](int x) { return 7 * x + state; };
  int expected = 0;
  using F = function_ref<int(int)>;
  std::vector<F> refs{F(mut), F(imm), F(Plain)};
  std::vector<int> target{0, 1, 2};
  for (int s = 0; s < n; ++s) {
    const int k = c.i(0, int(refs.size()) - 1);
    switch (c.below(4)) {
    case 0: { // a copy refers to the same callable
      F copy = refs[std::size_t(k)];
      refs.push_back(copy);
      target.push_back(target[std::size_t(k)]);
      break;
    }
    case 1: {
      const int j = c.i(0, int(refs.size()) - 1);
      refs[std::size_t(j)] = refs[std::size_t(k)];
      target[std::size_t(j)] = target[std::size_t(k)];
      break;
    }
    default: {
      const int x = c.i(-1000, 1000);
      const int got = refs[std::size_t(k)](x);
      const int t = target[std::size_t(k)];
      const int want = t == 0 ? ++expected + 100 * x : t == 1 ? 7 * x + state : 3 * x + 1;
      c.equal(got, want, "the result of a call");
      c.nontrivial(true);
    }
    }
    if (c.chance(1, 4))
      ++state;
  }
  // references, move-only and returned objects
  int cell = c.i(-9, 9);
  const int before = cell;
  auto inc = [](int& r, MoveOnly m, const Arg& a) -> int& {
    r += m.v + a.v;
    return r;
  };
  function_ref<int&(int&, MoveOnly, const Arg&)> g(inc);
  const int v = c.i(-50, 50), w = c.i(-50, 50);
  const Arg a(w);
  g_arg_copies = 0;
  int& back = g(cell, MoveOnly(v), a);
  c.check(&back == &cell, "a returned reference refers to something else");
  c.equal(cell, before + v + w, "an argument passed by reference");
  c.equal(g_arg_copies, 0, "copies of an argument passed by reference");
  auto thrower = [](int x) -> int {
    if (x > 0)
      throw std::runtime_error("x");
    return x;
  };
  F h(thrower);
  const int x = c.i(-3, 3);
  bool threw = false;
  try {
    c.equal(h(x), x, "result");
  } catch (const std::runtime_error&) {
    threw = true;
  }
  c.equal(threw, x > 0, "an exception passes through");
}

// OdeSolver -------------------------------------------------------------------
struct Ode : State, OdeSolver {
  Ode(int key) : State(0, key) {}

private:
  void integrate(system_type system, span<double> y, double t, double dt, feedback_type* feedback, jacobian_type* jacobian) const override {
    std::vector<double> out(std::size_t(y.size()), 0.0);
    Log(1, {Id(y[0]), double(y.size()), t, dt, double(feedback != nullptr), double(jacobian != nullptr)});
    system(out, y, t);
    if (feedback)
      (*feedback)(out, t + dt);
    if (jacobian)
      (*jacobian)(out, y, dt);
    for (std::ptrdiff_t i = 0; i < y.size(); ++i)
      y[i] += key + dt * out[std::size_t(i)];
  }
  std::unique_ptr<OdeSolver> clone() const override { return std::make_unique<Ode>(*this); }
};
PBT_PROP("OdeSolver", 6000, 200000) {
  g_log.clear();
  const int live0 = g_live;
  {
    std::vector<std::unique_ptr<OdeSolver>> solvers;
    std::vector<std::array<int, 2>> model; // key, count
    solvers.push_back(std::make_unique<Ode>(1));
    model.push_back({1, 0});
    int calls = 0;
    const int n = c.i(1, 12);
    for (int s = 0; s < n; ++s) {
      const std::size_t k = std::size_t(c.i(0, int(solvers.size()) - 1));
      switch (c.below(5)) {
      case 0:
        solvers.push_back(solvers[k]->Clone());
        model.push_back(model[k]);
        break;
      case 1:
        if (solvers.size() > 1) {
          solvers.erase(solvers.begin() + std::ptrdiff_t(k));
          model.erase(model.begin() + std::ptrdiff_t(k));
        }
        break;
      default: {
        std::vector<double> y(std::size_t(c.i(1, 4))), y0;
        for (double& v : y)
          v = c.symmetric(5.0);
        y0 = y;
        const double t = c.symmetric(3.0), dt = c.unit();
        int rhs = 0, fed = 0, jac = 0;
        auto system = [&](span<double> d, span<const double> at, double time) {
          ++rhs;
          c.equal(time, t, "time of the right hand side");
          for (std::ptrdiff_t i = 0; i < d.size(); ++i)
            d[i] = 2.0 * at[i];
        };
        auto feedback = [&](span<const double> f, double time) {
          ++fed;
          c.check(std::size_t(f.size()) == y.size() && time == t + dt, "arguments of the feedback");
        };
        auto jacobian = [&](span<double> j, span<const double> at, double h) {
          ++jac;
          c.check(std::size_t(j.size()) == y.size() && at.data() == y.data() && h == dt, "arguments of the jacobian");
        };
        const bool f = c.boolean(), j = c.boolean();
        g_log.clear();
        const OdeSolver& solver = *solvers[k];
        if (f && j)
          solver.Integrate(system, y, t, dt, feedback, jacobian);
        else if (f)
          solver.Integrate(system, y, t, dt, OdeSolver::feedback_type(feedback));
        else if (j)
          solver.Integrate(system, y, t, dt, OdeSolver::jacobian_type(jacobian));
        else
          solver.Integrate(system, y, t, dt);
        c.equal(rhs, 1, "evaluations of the right hand side");
        c.equal(fed, int(f), "calls of the feedback");
        c.equal(jac, int(j), "calls of the jacobian");
        c.check(g_log.size() == 1, "the integration was not forwarded once");
        const Rec want{0, double(model[k][0]), double(model[k][1]++), 1, Id(y[0]), double(y.size()), t, dt, double(f), double(j)};
        c.checkf(g_log[0] == want, [&] { return "forwarded integration: got " + pbt::list(g_log[0]) + ", expected " + pbt::list(want); });
        for (std::size_t i = 0; i < y.size(); ++i)
          c.equal(y[i], y0[i] + (model[k][0] + dt * (2.0 * y0[i])), "the integrated value");
        ++calls;
      }
      }
      c.equal(g_live - live0, int(solvers.size()), "the number of solvers alive");
    }
    c.nontrivial(calls > 0 && solvers.size() > 1);
  }
  c.equal(g_live, live0, "solvers are left behind");
}
// the collection of the three strategies of a level integrator
PBT_PROP("HyperbolicMethod", 4000, 100000) {
  g_log.clear();
  const int live0 = g_live;
  {
    using M = HyperbolicMethod<Ctx>;
    std::vector<M> methods;
    std::vector<std::array<int, 4>> model; // key and three counts
    methods.push_back(M{FluxMethod_::S<0>(1), TimeIntegrator_::S<1>(1), Reconstruction_::S<0>(1)});
    model.push_back({1, 0, 0, 0});
    Ctx ctx;
    int calls = 0;
    const int n = c.i(2, 16);
    for (int s = 0; s < n; ++s) {
      const std::size_t k = std::size_t(c.i(0, int(methods.size()) - 1)), j = std::size_t(c.i(0, int(methods.size()) - 1));
      switch (c.below(6)) {
      case 0:
        methods.push_back(M(methods[k]));
        model.push_back(model[k]);
        break;
      case 1:
        methods[j] = methods[k];
        model[j] = model[k];
        break;
      case 2:
        methods.push_back(M{FluxMethod_::S<1>(s + 2), TimeIntegrator_::S<0>(s + 2), Reconstruction_::S<1>(s + 2)});
        model.push_back({s + 2, 0, 0, 0});
        break;
      default: {
        const int what = c.i(0, 2);
        g_log.clear();
        if (what == 0)
          methods[k].flux_method.ComputeNumericFluxes(ctx, 2, Duration(0.5), Direction::Y);
        else if (what == 1)
          methods[k].time_integrator.UpdateConservatively(ctx, 2, Duration(0.5), Direction::Y);
        else
          methods[k].reconstruction.CompleteFromCons(ctx, 2, Duration(0.5));
        c.check(g_log.size() == 1, "the call was not forwarded exactly once");
        c.equal(g_log[0][1], double(model[k][0]), "the strategy that was called");
        c.equal(g_log[0][2], double(model[k][std::size_t(what) + 1]++), "the number of calls before");
        ++calls;
      }
      }
      c.equal(g_live - live0, 3 * int(methods.size()), "the number of strategies alive");
    }
    c.nontrivial(calls > 0 && methods.size() > 1);
  }
  c.equal(g_live, live0, "strategies are left behind");
}
const pbt::Setup setup([] {
  auto add = [](std::string n, void (*f)(pbt::Case&)) { pbt::registry().push_back(pbt::Prop{n, 5000, 200000, f}); };
  add("AnyInitialData", Histories<InitialData>);
  add("AnyBoundaryCondition", Histories<Boundary>);
  add("AnyTaggingMethod", Histories<Tagging>);
  add("AnyFluxMethod", Histories<FluxMethod_>);
  add("AnyTimeIntegrator", Histories<TimeIntegrator_>);
  add("AnyReconstruction", Histories<Reconstruction_>);
  add("AnyMdLimiter", Histories<MdLimiter>);
  add("AnySplitMethod", Histories<Splitting>);
  add("PolymorphicGeometry", Histories<Geom>);
});
} // namespace

// Patch data owned by a harness: one contiguous buffer with one component
// after the other (as the grid back-ends provide it) and the library's view.
#pragma once
#include "pbt.hpp"
#include "fub/CompleteFromCons.hpp"
#include "fub/Equation.hpp"
#include "fub/ForEach.hpp"
#include "fub/State.hpp"
#include "fub/StateArray.hpp"
#include "fub/StateRow.hpp"

namespace tst {
using namespace fub;
using P = std::ptrdiff_t;
template <int R> using Ix = std::array<P, static_cast<std::size_t>(R)>;

template <int R> std::string BoxStr(const IndexBox<R>& b) { return "{" + pbt::list(b.lower) + "," + pbt::list(b.upper) + "}"; }
template <int R> P BoxSize(const IndexBox<R>& b) {
  P n = 1;
  for (int r = 0; r < R; ++r)
    n *= std::max<P>(0, b.upper[r] - b.lower[r]);
  return n;
}
/// visit all indices of a box (our own loop, not the library's)
template <int R, typename F> void Each(const IndexBox<R>& b, F f) {
  if (BoxSize<R>(b) == 0)
    return;
  Ix<R> i = b.lower;
  while (true) {
    f(i);
    int r = 0;
    while (r < R && ++i[r] >= b.upper[r]) {
      i[r] = b.lower[r];
      ++r;
    }
    if (r == R)
      return;
  }
}
template <int R> bool In(const IndexBox<R>& b, const Ix<R>& i) {
  for (int r = 0; r < R; ++r)
    if (i[r] < b.lower[r] || i[r] >= b.upper[r])
      return false;
  return true;
}
template <int R> IndexBox<R> MakeBox(const Ix<R>& lo, const Ix<R>& n) {
  IndexBox<R> b;
  b.lower = lo;
  for (int r = 0; r < R; ++r)
    b.upper[r] = lo[r] + n[r];
  return b;
}

template <typename S> struct Patch {
  using Eq = typename S::Equation;
  static constexpr int R = Eq::Rank();
  IndexBox<R> box;
  P cells;
  int ncomp{0};
  std::vector<double> data;
  BasicView<S> view;
  std::vector<std::pair<int, int>> vars; // first component, depth (-1: scalar)
  Patch(const Eq& eq, const IndexBox<R>& b, double fill = 0.0) : box(b), cells(BoxSize<R>(b)) {
    auto depths = ::fub::Depths(eq, Type<S>{});
    using D = decltype(depths);
    ForEachVariable(
        [&](const auto& d) {
          if constexpr (std::is_same_v<std::decay_t<decltype(d)>, ScalarDepth>) {
            vars.emplace_back(ncomp, -1);
            ncomp += 1;
          } else {
            vars.emplace_back(ncomp, int(d));
            ncomp += int(d);
          }
        },
        depths);
    data.assign(static_cast<std::size_t>(ncomp) * cells, fill);
    Ix<R> e;
    for (int r = 0; r < R; ++r)
      e[r] = box.upper[r] - box.lower[r];
    std::size_t v = 0;
    ForEachVariable(
        overloaded{[&](PatchDataView<double, R>& p) {
                     p = PatchDataView<double, R>(mdspan<double, R>(data.data() + vars[v].first * cells, e), box.lower);
                     ++v;
                   },
                   [&](PatchDataView<double, R + 1>& p) {
                     Ix<R + 1> e1, o1;
                     for (int r = 0; r < R; ++r) {
                       e1[r] = e[r];
                       o1[r] = box.lower[r];
                     }
                     e1[R] = vars[v].second;
                     o1[R] = 0;
                     p = PatchDataView<double, R + 1>(mdspan<double, R + 1>(data.data() + vars[v].first * cells, e1), o1);
                     ++v;
                   }},
        view);
  }
  Patch(const Patch&) = delete;
  P off(const Ix<R>& i) const {
    P o = 0, s = 1;
    for (int r = 0; r < R; ++r) {
      o += (i[r] - box.lower[r]) * s;
      s *= box.upper[r] - box.lower[r];
    }
    return o;
  }
  double& at(int comp, const Ix<R>& i) { return data[static_cast<std::size_t>(comp * cells + off(i))]; }
  double at(int comp, const Ix<R>& i) const { return data[static_cast<std::size_t>(comp * cells + off(i))]; }
  BasicView<const S> cview() const { return AsConst(view); }
  View<S> sub(const IndexBox<R>& b) const { return Subview(view, b); }
  View<const S> csub(const IndexBox<R>& b) const { return AsConst(sub(b)); }
};

/// all components of a scalar state in their order of storage
template <typename S> std::vector<double> Comps(const S& s) {
  std::vector<double> v;
  ForEachVariable(overloaded{[&](const double& x) { v.push_back(x); },
                             [&](const auto& xs) {
                               for (int i = 0; i < int(xs.size()); ++i)
                                 v.push_back(xs[i]);
                             }},
                  s);
  return v;
}
template <typename S> void SetComps(S& s, const std::vector<double>& v) {
  std::size_t k = 0;
  ForEachVariable(overloaded{[&](double& x) { x = v[k++]; },
                             [&](auto& xs) {
                               for (int i = 0; i < int(xs.size()); ++i)
                                 xs[i] = v[k++];
                             }},
                  s);
}
/// components x lanes of an array state
template <typename A> std::vector<std::vector<double>> Lanes(const A& a) {
  std::vector<std::vector<double>> v;
  ForEachVariable(
      [&](const auto& xs) {
        for (int i = 0; i < int(xs.rows()) && xs.cols() == kDefaultChunkSize; ++i) {
          std::vector<double> row;
          for (int l = 0; l < kDefaultChunkSize; ++l)
            row.push_back(xs(i, l));
          v.push_back(row);
        }
      },
      a);
  return v;
}
template <typename A> void SetLane(A& a, int lane, const std::vector<double>& v) {
  std::size_t k = 0;
  ForEachVariable(
      [&](auto& xs) {
        for (int i = 0; i < int(xs.rows()); ++i)
          xs(i, lane) = v[k++];
      },
      a);
}
template <typename A> std::vector<double> GetLane(const A& a, int lane) {
  std::vector<double> v;
  ForEachVariable(
      [&](const auto& xs) {
        for (int i = 0; i < int(xs.rows()); ++i)
          v.push_back(xs(i, lane));
      },
      a);
  return v;
}
} // namespace tst

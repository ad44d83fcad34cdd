// C03: loads and stores of states move exactly the addressed values.
#pragma once
#include "patch.hpp"
#include "fub/equations/Advection.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/PerfectGasMix.hpp"
#include "fub/equations/ShallowWater.hpp"

namespace c03 {
using namespace tst;
constexpr int N = kDefaultChunkSize;
template <typename S> struct ArrOf;
template <typename E> struct ArrOf<Complete<E>> { using type = CompleteArray<E>; };
template <typename E> struct ArrOf<Conservative<E>> { using type = ConservativeArray<E>; };

template <typename Eq> Eq MakeEq(pbt::Case& c) {
  if constexpr (std::is_same_v<Eq, Advection2d>) {
    return Eq({1.0, 1.0});
  } else if constexpr (std::is_same_v<Eq, PerfectGasMix<Eq::Rank()>>) {
    Eq e{};
    e.n_species = c.i(0, 3);
    e.n_passive_scalars = c.i(0, 2);
    c.note("species", e.n_species);
    c.note("passive", e.n_passive_scalars);
    return e;
  } else {
    return Eq{};
  }
}
template <typename S> void Fill(Patch<S>& p) {
  for (std::size_t i = 0; i < p.data.size(); ++i)
    p.data[i] = 1.0 + double(i) + 0.25 * double(i % 3);
}
inline void Same(pbt::Case& c, const std::vector<double>& got, const std::vector<double>& want, P cells, const char* what) {
  for (std::size_t i = 0; i < want.size(); ++i)
    if (!(got[i] == want[i]))
      c.fail(std::string(what) + ": component " + std::to_string(P(i) / cells) + " offset " + std::to_string(P(i) % cells) + " is " +
             pbt::fmt(got[i]) + ", expected " + pbt::fmt(want[i]));
}

template <typename S> void Run(pbt::Case& c) {
  using Eq = typename S::Equation;
  using A = typename ArrOf<S>::type;
  constexpr int R = Eq::Rank();
  Eq eq = MakeEq<Eq>(c);
  Ix<R> lo, ext;
  for (int r = 0; r < R; ++r) {
    lo[r] = c.i(0, 6) - 3;
    ext[r] = r == 0 ? c.i(1, 22) : c.i(1, R == 3 ? 3 : 4);
  }
  const IndexBox<R> box = MakeBox<R>(lo, ext);
  IndexBox<R> sub = box;
  for (int r = 0; r < R; ++r) {
    sub.lower[r] += c.integer(0, std::min<P>(2, ext[r] - 1));
    sub.upper[r] -= c.integer(0, std::min<P>(2, sub.upper[r] - sub.lower[r] - 1));
  }
  c.note("box", BoxStr<R>(box));
  c.note("sub box", BoxStr<R>(sub));
  Patch<S> p(eq, box);
  Fill(p);
  std::vector<double> model = p.data;
  const int nc = p.ncomp;
  // a cell inside of the sub box with room for `size` cells
  auto pick = [&](P size) {
    Ix<R> i;
    for (int r = 0; r < R; ++r)
      i[r] = c.integer(sub.lower[r], sub.upper[r] - (r == 0 ? size : 1));
    c.note("cell", pbt::list(i));
    return i;
  };
  const P width = sub.upper[0] - sub.lower[0];
  auto want = [&](Ix<R> i, int comp) { return model[static_cast<std::size_t>(comp * p.cells + p.off(i))]; };
  double fresh = -1.0;
  const bool strided = c.boolean();
  c.note("strided view", strided);
  auto laneCheck = [&](const A& a, const Ix<R>& i, int n) {
    auto v = Lanes(a);
    c.equal(static_cast<int>(v.size()), nc, "number of components");
    for (int k = 0; k < nc; ++k)
      for (int l = 0; l < n; ++l) {
        Ix<R> j = i;
        j[0] += l;
        if (!(v[k][l] == want(j, k)))
          c.fail("loaded lane " + std::to_string(l) + " of component " + std::to_string(k) + " is " + pbt::fmt(v[k][l]) + ", expected " + pbt::fmt(want(j, k)));
      }
  };
  auto freshArray = [&](A& a) {
    for (int l = 0; l < N; ++l) {
      std::vector<double> v;
      for (int k = 0; k < nc; ++k)
        v.push_back(fresh -= 1.0);
      SetLane(a, l, v);
    }
  };
  auto storeModel = [&](const A& a, const Ix<R>& i, int n) {
    auto v = Lanes(a);
    for (int k = 0; k < nc; ++k)
      for (int l = 0; l < n; ++l) {
        Ix<R> j = i;
        j[0] += l;
        model[static_cast<std::size_t>(k * p.cells + p.off(j))] = v[k][l];
      }
  };
  View<S> sv = p.sub(sub);
  View<const S> csv = p.csub(sub);
  auto ptrAt = [&](const Ix<R>& i) {
    ViewPointer<S> q = strided ? Begin(sv) : Begin(p.view);
    const Ix<R> o = strided ? sub.lower : box.lower;
    Ix<R> e = p.box.upper;
    P n = 0, s = 1;
    for (int r = 0; r < R; ++r) {
      n += (i[r] - o[r]) * s;
      s *= box.upper[r] - box.lower[r];
    }
    (void)e;
    Advance(q, n);
    return q;
  };
  const int steps = c.i(1, 6);
  for (int k = 0; k < steps; ++k) {
    switch (c.i(0, 8)) {
    case 0: { // scalar load
      Ix<R> i = pick(1);
      S s(eq);
      c.note("op", "load");
      switch (c.i(0, 3)) {
      case 0: Load(s, AsConst(p.view), i); break;
      case 1: Load(s, csv, i); break;
      case 2: Load(s, p.view, i); break;
      default: { ViewPointer<const S> q = AsConst(ptrAt(i)); Load(s, q); }
      }
      auto v = Comps(s);
      c.equal(static_cast<int>(v.size()), nc, "number of components");
      for (int m = 0; m < nc; ++m)
        c.eq(v[m], want(i, m), "loaded component " + std::to_string(m));
      c.nontrivial(BoxSize<R>(box) > 1);
      break;
    }
    case 1: { // scalar store
      Ix<R> i = pick(1);
      c.note("op", "store");
      S s(eq);
      std::vector<double> v;
      for (int m = 0; m < nc; ++m)
        v.push_back(fresh -= 1.0);
      SetComps(s, v);
      if (strided)
        Store(sv, s, i);
      else
        Store(p.view, s, i);
      for (int m = 0; m < nc; ++m)
        model[static_cast<std::size_t>(m * p.cells + p.off(i))] = v[m];
      c.nontrivial(BoxSize<R>(box) > 1);
      break;
    }
    case 2: // chunk load through a view
      if (width >= N) {
        Ix<R> i = pick(N);
        c.note("op", "chunk load");
        A a(eq);
        if (strided)
          Load(a, csv, i);
        else
          Load(a, AsConst(p.view), i);
        laneCheck(a, i, N);
        c.label("chunk load");
        c.nontrivial();
      }
      break;
    case 3: { // partial load through a view, 0 < n < N
      int n = static_cast<int>(c.integer(1, std::min<P>(width, N - 1)));
      Ix<R> i = pick(n);
      c.note("op", "partial load " + std::to_string(n));
      A a(eq);
      if constexpr (std::is_same_v<S, Complete<Eq>>) {
        if (strided)
          LoadN(a, csv, n, i);
        else
          LoadN(a, AsConst(p.view), n, i);
      } else {
        LoadN(a, AsConst(ptrAt(i)), n);
      }
      laneCheck(a, i, n);
      c.label("partial load");
      c.nontrivial(n > 1);
      break;
    }
    case 4: // chunk store through a view
      if (width >= N) {
        Ix<R> i = pick(N);
        c.note("op", "chunk store");
        A a(eq);
        freshArray(a);
        if (strided)
          Store(sv, a, i);
        else
          Store(p.view, a, i);
        storeModel(a, i, N);
        c.label("chunk store");
        c.nontrivial();
      }
      break;
    case 5: { // pointer loads
      int n = static_cast<int>(c.integer(1, std::min<P>(width, N)));
      Ix<R> i = pick(n);
      A a(eq);
      if (n == N) {
        c.note("op", "pointer load");
        Load(a, AsConst(ptrAt(i)));
      } else {
        c.note("op", "pointer partial load " + std::to_string(n));
        auto before = Lanes(a);
        LoadN(a, AsConst(ptrAt(i)), n);
        auto after = Lanes(a);
        for (int m = 0; m < nc; ++m)
          for (int l = n; l < N; ++l)
            c.eq(after[m][l], before[m][l], "lane behind the loaded ones");
      }
      laneCheck(a, i, n);
      c.nontrivial(n > 1);
      c.label("pointer load");
      break;
    }
    case 6: { // pointer stores
      int n = static_cast<int>(c.integer(0, std::min<P>(width, N)));
      Ix<R> i = pick(std::max(n, 1));
      A a(eq);
      freshArray(a);
      if (n == N && c.boolean()) {
        c.note("op", "pointer store");
        Store(ptrAt(i), a);
      } else {
        c.note("op", "pointer partial store " + std::to_string(n));
        StoreN(ptrAt(i), a, n);
      }
      storeModel(a, i, n);
      c.nontrivial(n > 0);
      c.label("pointer store");
      break;
    }
    case 7: { // iterate rows of two views at once
      c.note("op", "rows");
      int rows = 0;
      Ix<R> i = sub.lower;
      double add = fresh -= 1.0;
      Patch<S> other(eq, sub, 7.0);
      ForEachRow(std::tuple{sv, View<const S>(AsConst(Subview(other.view, sub)))}, [&](const Row<S>& row, const Row<const S>& orow) {
        ViewPointer<S> b = Begin(row);
        ViewPointer<S> e = End(row);
        c.equal(P(get<0>(e) - get<0>(b)), width, "row length");
        ViewPointer<const S> ob = Begin(orow);
        c.check(get<0>(ob) == other.data.data() + other.off(i), "row of the second view");
        c.check(get<0>(b) == p.data.data() + p.off(i), "row starts at a wrong cell");
        for (P x = 0; x < width; ++x) {
          S s(eq);
          Load(s, AsConst(b));
          auto v = Comps(s);
          Ix<R> j = i;
          j[0] += x;
          for (int m = 0; m < nc; ++m)
            c.eq(v[m], want(j, m), "row element");
          Advance(b, 1);
        }
        ++rows;
        int r = 1;
        while (r < R && ++i[r] >= sub.upper[r]) {
          i[r] = sub.lower[r];
          ++r;
        }
      });
      (void)add;
      P nrows = 1;
      for (int r = 1; r < R; ++r)
        nrows *= sub.upper[r] - sub.lower[r];
      c.equal(P(rows), nrows, "number of rows");
      c.label("rows");
      c.nontrivial(nrows > 1 || R == 1);
      break;
    }
    default: { // state algebra and iteration
      c.note("op", "state algebra");
      S s(eq), t(eq);
      for (double x : Comps(s))
        c.eq(x, 0.0, "freshly constructed state");
      std::vector<double> v, w;
      for (int m = 0; m < nc; ++m) {
        v.push_back(c.i(-9, 9));
        w.push_back(c.i(-9, 9) + 0.5);
      }
      SetComps(s, v);
      SetComps(t, w);
      S u = s;
      u += t;
      auto z = Comps(u);
      for (int m = 0; m < nc; ++m)
        c.eq(z[m], v[m] + w[m], "state +=");
      c.check(Comps(s) == v && Comps(t) == w, "operands changed");
      S x(eq);
      S& ref = (x = s);
      c.check(&ref == &x && Comps(x) == v, "state assignment");
      int seen = 0;
      ForEachComponent([&](double& a, const double& b) { c.eq(b, w[seen], "component order"); a = -b; ++seen; }, x, t);
      c.equal(seen, nc, "components visited");
      for (int m = 0; m < nc; ++m)
        c.eq(Comps(x)[m], -w[m], "component written");
      S buf(eq);
      std::vector<double> raw = v;
      CopyFromBuffer(buf, span<const double>(raw));
      c.check(Comps(buf) == v, "CopyFromBuffer");
      if constexpr (std::is_same_v<S, Conservative<Eq>>) {
        std::vector<double> out(static_cast<std::size_t>(nc), 99.0);
        CopyToBuffer(span<double>(out), t);
        c.check(out == w, "CopyToBuffer");
      } else {
        c.check(!AnyNaN(s), "AnyNaN of a clean state");
        auto vn = v;
        vn[c.below(nc)] = std::numeric_limits<double>::quiet_NaN();
        SetComps(u, vn);
        c.check(AnyNaN(u), "AnyNaN misses a component");
        // conservative part of a complete state
        Conservative<Eq> con(eq);
        int ncons = static_cast<int>(Comps(con).size());
        Conservative<Eq> view_of = AsCons(s);
        auto vc = Comps(view_of);
        for (int m = 0; m < ncons; ++m)
          c.eq(vc[m], v[m], "AsCons");
        IndexMapping<Eq> map(eq);
        int next = 0;
        ForEachVariable(overloaded{[&](int i) { c.equal(i, next++, "index mapping"); },
                                   [&](const auto& is) {
                                     for (int i : is)
                                       c.equal(i, next++, "index mapping");
                                   }},
                        map);
        c.equal(next, nc, "size of the index mapping");
      }
      A a(eq);
      for (auto& row : Lanes(a))
        for (double d : row)
          c.eq(d, 0.0, "freshly constructed array");
      freshArray(a);
      int lane = c.i(0, N - 1);
      S q(eq);
      Load(q, a, lane);
      c.check(Comps(q) == GetLane(a, lane), "load of a lane");
      int cnt = 0;
      auto ln = Lanes(a);
      ForEachComponent(
          [&](auto&& row) {
            for (int l = 0; l < N; ++l)
              c.eq(row(l), ln[cnt][l], "array component");
            ++cnt;
          },
          a);
      c.equal(cnt, nc, "array components visited");
      // view components: every component of every variable exactly once, in order
      int vc = 0;
      Ix<R> at = pick(1);
      ForEachComponent(
          [&](const auto& pdv) {
            c.check(&pdv(at) == p.data.data() + vc * p.cells + p.off(at), "view component addresses a wrong cell");
            ++vc;
          },
          p.view);
      c.equal(vc, nc, "view components visited");
      vc = 0;
      ForEachComponent(
          [&](const auto& pdv) {
            c.check(&pdv(at) == p.data.data() + vc * p.cells + p.off(at), "sub view component addresses a wrong cell");
            for (int r = 0; r < R; ++r)
              c.check(pdv.Box().lower[r] == sub.lower[r] && pdv.Box().upper[r] == sub.upper[r], "sub view component box");
            ++vc;
          },
          sv);
      c.equal(vc, nc, "sub view components visited");
      auto names = VarNames<S, std::vector<std::string>>(eq);
      c.label("algebra");
      c.nontrivial();
    }
    }
    Same(c, p.data, model, p.cells, "patch data");
  }
  // views of views
  BasicView<S> b2;
  BasicView<S>& r2 = (b2 = p.view);
  c.check(&r2 == &b2 && get<0>(b2).Span().data() == p.data.data(), "view assignment");
  auto cons = AsCons(p.view);
  int k = 0;
  ForEachComponent([&](const auto& pdv) { c.check(&pdv(box.lower) == p.data.data() + k * p.cells, "AsCons(view)"); ++k; }, cons);
  int d = c.i(0, R - 1);
  P a = c.integer(0, std::min<P>(1, (box.upper[d] - box.lower[d]) / 2)), b = c.integer(0, (box.upper[d] - box.lower[d] - a) / 2);
  View<S> shr = Shrink(p.view, Direction(d), {a, b});
  IndexBox<R> want_box = box;
  want_box.lower[d] += a;
  want_box.upper[d] -= b;
  k = 0;
  ForEachComponent(
      [&](const auto& pdv) {
        for (int r = 0; r < R; ++r)
          c.check(pdv.Box().lower[r] == want_box.lower[r] && pdv.Box().upper[r] == want_box.upper[r], "box of a shrinked view");
        if (BoxSize<R>(want_box) > 0)
          c.check(&pdv(want_box.lower) == p.data.data() + k * p.cells + p.off(want_box.lower), "shrinked view");
        ++k;
      },
      shr);
}
} // namespace c03

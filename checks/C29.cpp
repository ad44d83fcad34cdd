// C29: refinement tagging
#include "patch.hpp"

#include "fub/equations/PerfectGas.hpp"
#include "fub/tagging_method/GradientDetector.hpp"
#include "fub/tagging_method/TagBuffer.hpp"
#include "fub/tagging_method/TagCutCells.hpp"

namespace {
using namespace fub;
using tst::Ix;
using tst::P;

// A view of a box inside of a larger buffer
template <typename T, int R> struct Tags {
  IndexBox<R> outer, box;
  std::vector<T> data;
  std::vector<T> before;
  PatchDataView<T, R, layout_stride> view;
  Tags(const IndexBox<R>& o, const IndexBox<R>& b) : outer(o), box(b), data(static_cast<std::size_t>(tst::BoxSize<R>(o))) {
    Ix<R> e;
    for (int r = 0; r < R; ++r)
      e[r] = o.upper[r] - o.lower[r];
    PatchDataView<T, R> all(mdspan<T, R>(data.data(), e), o.lower);
    view = all.Subview(b);
  }
  std::size_t off(const Ix<R>& i) const {
    P k = 0, s = 1;
    for (int r = 0; r < R; ++r) {
      k += (i[r] - outer.lower[r]) * s;
      s *= outer.upper[r] - outer.lower[r];
    }
    return static_cast<std::size_t>(k);
  }
  T& at(const Ix<R>& i) { return data[off(i)]; }
  T old(const Ix<R>& i) const { return before[off(i)]; }
};
template <int R> IndexBox<R> DrawBox(pbt::Case& c, int lo, int hi) {
  Ix<R> l, n;
  for (int r = 0; r < R; ++r) {
    l[r] = c.i(-6, 6);
    n[r] = c.i(lo, hi);
  }
  return tst::MakeBox<R>(l, n);
}
template <int R> IndexBox<R> GrowBox(pbt::Case& c, IndexBox<R> b, int most) {
  for (int r = 0; r < R; ++r) {
    b.lower[r] -= c.i(0, most);
    b.upper[r] += c.i(0, most);
  }
  return b;
}
template <int R> IndexBox<R> ShrinkBox(pbt::Case& c, IndexBox<R> b) {
  for (int r = 0; r < R; ++r) {
    const P n = b.upper[r] - b.lower[r];
    const P a = c.chance(1, 2) ? 0 : c.i(0, static_cast<int>(n - 1));
    const P z = c.chance(1, 2) ? 0 : c.i(0, static_cast<int>(n - 1 - a));
    b.lower[r] += a;
    b.upper[r] -= z;
  }
  return b;
}
template <typename T, int R> void FillTags(pbt::Case& c, Tags<T, R>& t, int mode) {
  for (auto& x : t.data)
    x = mode == 0 ? T(0) : mode == 1 ? T(c.chance(1, 12)) : T(c.chance(1, 6) ? c.i(1, 3) : 0);
  t.before = t.data;
}
template <typename T, int R> std::string Show(const Tags<T, R>& t, const std::vector<T>& d) {
  std::string s;
  tst::Each<R>(t.box, [&](const Ix<R>& i) {
    if (R > 1 && i[0] == t.box.lower[0])
      s += "|";
    s += static_cast<char>('0' + static_cast<int>(d[t.off(i)]));
  });
  return s;
}
// judges the tags after a call; want: 1 tagged, 0 not, -1 a matter of rounding
template <typename T, int R, typename F> int Judge(pbt::Case& c, Tags<T, R>& t, F want) {
  int tagged = 0;
  c.note("tags before", Show(t, t.before));
  c.note("tags after", Show(t, t.data));
  tst::Each<R>(t.outer, [&](const Ix<R>& i) {
    if (!tst::In<R>(t.box, i)) {
      c.checkf(t.at(i) == t.old(i), [&] { return "tag " + pbt::list(i) + " outside of the tags' box is written"; });
      return;
    }
    if (t.old(i) != 0) {
      c.checkf(t.at(i) != 0, [&] { return "the tag of cell " + pbt::list(i) + " is removed"; });
      return;
    }
    const int w = want(i);
    if (w >= 0)
      c.checkf((t.at(i) != 0) == (w == 1), [&] { return std::string("cell ") + pbt::list(i) + (w ? " is not tagged" : " is tagged"); });
    tagged += w == 1;
  });
  return tagged;
}

template <int R> void Buffer(pbt::Case& c) {
  const IndexBox<R> box = DrawBox<R>(c, 1, R == 1 ? 20 : R == 2 ? 9 : 6);
  Tags<char, R> t(GrowBox<R>(c, box, 2), box);
  FillTags(c, t, c.i(1, 2));
  if (c.chance(1, 6)) // a single one
    for (auto& x : t.data)
      x = 0;
  if (c.chance(1, 2)) {
    Ix<R> i;
    for (int r = 0; r < R; ++r)
      i[r] = box.lower[r] + c.i(0, static_cast<int>(box.upper[r] - box.lower[r]) - 1);
    t.at(i) = 1;
  }
  t.before = t.data;
  const int width = c.i(0, 4);
  c.note("box", tst::BoxStr<R>(box));
  c.note("width", width);
  TagBuffer(width).TagCellsForRefinement(t.view);
  int tags = 0;
  const int added = Judge(c, t, [&](const Ix<R>& i) {
    bool near = false;
    tst::Each<R>(box, [&](const Ix<R>& j) {
      if (t.old(j) != 0) {
        P d = 0;
        for (int r = 0; r < R; ++r)
          d = std::max<P>(d, std::abs(i[r] - j[r]));
        near = near || d <= width;
      }
    });
    return near ? 1 : 0;
  });
  tst::Each<R>(box, [&](const Ix<R>& j) { tags += t.old(j) != 0; });
  c.label("rank " + std::to_string(R));
  c.nontrivial(added > 0 && tags + added < tst::BoxSize<R>(box));
}
PBT_PROP("buffer 1d", 3000, 60000) { Buffer<1>(c); }
PBT_PROP("buffer 2d", 3000, 60000) { Buffer<2>(c); }
PBT_PROP("buffer 3d", 1500, 30000) { Buffer<3>(c); }

template <int R> void CutCells(pbt::Case& c) {
  const IndexBox<R> box = DrawBox<R>(c, 1, 7);
  Tags<char, R> t(GrowBox<R>(c, box, 2), box);
  FillTags(c, t, c.i(0, 2));
  // the fractions may cover more or less than the tags
  const IndexBox<R> vbox = c.boolean() ? GrowBox<R>(c, box, 2) : GrowBox<R>(c, ShrinkBox<R>(c, box), 1);
  const IndexBox<R> vouter = GrowBox<R>(c, vbox, 1);
  Tags<double, R> v(vouter, vbox);
  int cut = 0;
  for (auto& x : v.data) {
    x = c.chance(1, 3) ? 0.0 : c.chance(1, 2) ? 1.0 : c.pick<double>({0.5, 1e-300, std::nextafter(1.0, 0.0), 5e-324, 0.999, 1e-14, c.unit()});
    cut += x > 0 && x < 1;
  }
  v.before = v.data;
  PatchDataView<const double, R, layout_stride> cv = v.view;
  TagCutCells().TagCellsForRefinement(t.view, cv);
  c.note("tag box", tst::BoxStr<R>(box));
  c.note("volume box", tst::BoxStr<R>(vbox));
  const int added = Judge(c, t, [&](const Ix<R>& i) {
    if (!tst::In<R>(vbox, i))
      return 0;
    const double a = v.old(i);
    return a > 0 && a < 1 ? 1 : 0;
  });
  c.label("rank " + std::to_string(R));
  c.nontrivial(added > 0);
}
PBT_PROP("cut cells 1d", 2000, 40000) { CutCells<1>(c); }
PBT_PROP("cut cells 2d", 2000, 40000) { CutCells<2>(c); }
PBT_PROP("cut cells 3d", 1500, 30000) { CutCells<3>(c); }

struct Field {
  bool exact{false}; // small integers and dyadic tolerances: no rounding at all
};
template <int R> Field FillStates(pbt::Case& c, tst::Patch<Complete<PerfectGas<R>>>& p) {
  Field f;
  f.exact = c.boolean();
  const int style = c.i(0, 3);
  const double base = c.logreal(1e-3, 1e5), noise = c.logreal(1e-6, 1);
  for (auto& x : p.data) {
    if (f.exact)
      x = style == 0 ? c.i(-4, 4) : style == 1 ? (c.chance(1, 8) ? c.i(1, 8) : 4) : style == 2 ? c.i(0, 2) : c.i(1, 8);
    else
      x = style == 0 ? c.real(-1, 1) : style == 1 ? base * (1 + (c.chance(1, 4) ? noise * c.unit() : 0.0)) : style == 2 ? (c.boolean() ? 0.0 : c.unit()) : c.logreal(1e-5, 1e5);
  }
  return f;
}
double DrawTolerance(pbt::Case& c, const Field& f) {
  if (f.exact)
    return c.pick<double>({0.5, 0.25, 0.125, 0.0, 0.75, 1.0});
  return c.chance(1, 6) ? 0.0 : c.logreal(1e-6, 1);
}
int Jump(double a, double b, double tol, const Field& f) {
  if (a == b)
    return 0;
  const long double q = std::abs(static_cast<long double>(a) - b) / (std::abs(static_cast<long double>(a)) + std::abs(static_cast<long double>(b)));
  if (!f.exact && std::abs(q - tol) < 1e-14 * std::max(1.0, tol))
    return -1;
  if (!f.exact && tol == 0)
    return q > 1e-300 ? 1 : -1;
  return q > tol ? 1 : 0;
}
struct Density {
  template <typename S> auto operator()(const S& s) const { return s.density; }
};
struct Pressure {
  template <typename S> auto operator()(const S& s) const { return s.pressure; }
};
// only for scalar states
template <int R> double MomentumOf(const Complete<PerfectGas<R>>& s) { return s.momentum[0]; }

// components of a complete perfect gas state in their order of storage
template <int R> constexpr int kDensity = 0;
template <int R> constexpr int kMomentum = 1;
template <int R> constexpr int kEnergy = 1 + R;
template <int R> constexpr int kPressure = 2 + R;

struct Condition {
  int comp;
  double tol;
};
template <int R>
int WantJump(const tst::Patch<Complete<PerfectGas<R>>>& p, const IndexBox<R>& sbox, const std::vector<Condition>& conds, const Field& f, const Ix<R>& i,
             const Tags<double, R>* volumes) {
  int unsure = 0;
  for (int d = 0; d < R; ++d) {
    Ix<R> l = i, r = i;
    --l[d];
    ++r[d];
    if (!tst::In<R>(sbox, l) || !tst::In<R>(sbox, r))
      continue;
    if (volumes && !(volumes->old(l) > 0 && volumes->old(i) > 0 && volumes->old(r) > 0))
      continue;
    for (const Condition& k : conds)
      for (const Ix<R>& o : {l, r}) {
        const int j = Jump(p.at(k.comp, i), p.at(k.comp, o), k.tol, f);
        if (j == 1)
          return 1;
        unsure = unsure || j < 0;
      }
  }
  return unsure ? -1 : 0;
}
enum class Kind { scalar, embedded, volumes, array };
template <int R, int TR> Ix<TR> Embed(const Ix<R>& i) {
  Ix<TR> j{};
  for (int r = 0; r < R; ++r)
    j[r] = i[r];
  return j;
}
template <int R, int TR, typename T> void Gradients(pbt::Case& c, Kind kind) {
  PerfectGas<R> eq;
  const int most = kind == Kind::array ? (R == 1 ? 40 : R == 2 ? 20 : 12) : R == 1 ? 20 : R == 2 ? 8 : 5;
  IndexBox<R> sbox, tbox;
  if (kind == Kind::array) { // needs one more cell on each side
    tbox = DrawBox<R>(c, 1, R == 1 ? most : 4);
    tbox.upper[0] = tbox.lower[0] + c.i(1, most);
    sbox = tbox;
    const int more = c.boolean() ? 0 : 1;
    for (int r = 0; r < R; ++r) {
      sbox.lower[r] -= 1 + more;
      sbox.upper[r] += 1 + more;
    }
  } else {
    sbox = DrawBox<R>(c, 2, most);
    tbox = c.boolean() ? ShrinkBox<R>(c, sbox) : GrowBox<R>(c, ShrinkBox<R>(c, sbox), 2);
  }
  IndexBox<TR> tb, ob;
  if constexpr (TR == R)
    tb = tbox;
  else {
    for (int r = 0; r < R; ++r) {
      tb.lower[r] = tbox.lower[r];
      tb.upper[r] = tbox.upper[r];
    }
    for (int r = R; r < TR; ++r) {
      tb.lower[r] = -c.i(0, 2);
      tb.upper[r] = 1 + c.i(0, 2);
    }
  }
  ob = GrowBox<TR>(c, tb, 2);
  Tags<T, TR> t(ob, tb);
  FillTags(c, t, c.i(0, 2));
  tst::Patch<Complete<PerfectGas<R>>> p(eq, GrowBox<R>(c, sbox, 1)); // the view is only a part
  const Field f = FillStates<R>(c, p);
  const auto data = p.data;
  const double tol1 = DrawTolerance(c, f), tol2 = DrawTolerance(c, f);
  const int which = c.i(0, 2);
  c.note("states box", tst::BoxStr<R>(sbox));
  c.note("tags box", tst::BoxStr<TR>(tb));
  c.note("tolerances", pbt::fmt(tol1) + " " + pbt::fmt(tol2));
  c.note("conditions", which);
  std::vector<Condition> conds;
  std::unique_ptr<Tags<double, R>> vol;
  if (kind == Kind::volumes) {
    vol = std::make_unique<Tags<double, R>>(GrowBox<R>(c, sbox, 1), sbox);
    for (auto& x : vol->data)
      x = c.chance(1, 5) ? 0.0 : c.chance(1, 2) ? 1.0 : c.pick<double>({1e-10, 0.5, 1.0});
    vol->before = vol->data;
  }
  auto run = [&](auto& detector) {
    using D = std::decay_t<decltype(detector)>;
    if constexpr (TR == R && std::is_same_v<T, char>) {
      if constexpr (!D::is_array_based) {
        if (kind == Kind::volumes) {
          PatchDataView<const double, R, layout_stride> cv = vol->view;
          detector.TagCellsForRefinement(t.view, p.csub(sbox), cv);
          return;
        }
      }
      detector.TagCellsForRefinement(t.view, p.csub(sbox));
    } else if constexpr (!D::is_array_based)
      detector.TagCellsForRefinement(t.view, p.csub(sbox));
  };
  bool is_array = false;
  if (kind == Kind::array) {
    if (which == 0) {
      GradientDetector d(eq, std::pair{Density(), tol1});
      is_array = decltype(d)::is_array_based;
      run(d);
      conds = {{kDensity<R>, tol1}};
    } else if (which == 1) {
      GradientDetector d(eq, std::pair{Pressure(), tol1}, std::pair{Density(), tol2});
      is_array = decltype(d)::is_array_based;
      run(d);
      conds = {{kPressure<R>, tol1}, {kDensity<R>, tol2}};
    } else {
      GradientDetector d(eq, std::pair{Pressure(), tol1});
      is_array = decltype(d)::is_array_based;
      for (int n = 0; n < 2; ++n) // twice is as good as once
        run(d);
      conds = {{kPressure<R>, tol1}};
    }
    c.check(is_array, "the detector does not work on arrays");
  } else {
    if (which == 0) {
      GradientDetector d(eq, std::pair{&Complete<PerfectGas<R>>::density, tol1});
      run(d);
      conds = {{kDensity<R>, tol1}};
    } else if (which == 1) {
      GradientDetector d(eq, std::pair{&Complete<PerfectGas<R>>::pressure, tol1}, std::pair{&Complete<PerfectGas<R>>::density, tol2});
      run(d);
      conds = {{kPressure<R>, tol1}, {kDensity<R>, tol2}};
    } else {
      GradientDetector d(eq, std::pair{&MomentumOf<R>, tol1}, std::pair{&Complete<PerfectGas<R>>::energy, tol2});
      run(d);
      conds = {{kMomentum<R>, tol1}, {kEnergy<R>, tol2}};
    }
  }
  c.check(p.data == data, "the states are changed");
  int no = 0;
  const int added = Judge(c, t, [&](const Ix<TR>& i) {
    for (int r = R; r < TR; ++r)
      if (i[r] != 0)
        return 0;
    Ix<R> j;
    for (int r = 0; r < R; ++r)
      j[r] = i[r];
    if (!tst::In<R>(sbox, j))
      return 0;
    const int w = WantJump<R>(p, sbox, conds, f, j, vol.get());
    no += w == 0;
    return w;
  });
  c.label(std::string("rank ") + std::to_string(R) + (f.exact ? " exact" : ""));
  c.nontrivial(added > 0 && no > 0);
}
PBT_PROP("gradients 1d", 2000, 50000) { Gradients<1, 1, char>(c, Kind::scalar); }
PBT_PROP("gradients 2d", 2000, 50000) { Gradients<2, 2, char>(c, Kind::scalar); }
PBT_PROP("gradients 3d", 1000, 20000) { Gradients<3, 3, char>(c, Kind::scalar); }
PBT_PROP("gradients 2d with integer tags", 1000, 20000) { Gradients<2, 2, int>(c, Kind::scalar); }
PBT_PROP("gradients of tubes in 2d tags", 1000, 20000) { Gradients<1, 2, char>(c, Kind::embedded); }
PBT_PROP("gradients of planes in 3d tags", 1000, 20000) { Gradients<2, 3, char>(c, Kind::embedded); }
PBT_PROP("gradients of tubes in 3d tags", 1000, 20000) { Gradients<1, 3, int>(c, Kind::embedded); }
PBT_PROP("gradients next to cut cells 1d", 1000, 20000) { Gradients<1, 1, char>(c, Kind::volumes); }
PBT_PROP("gradients next to cut cells 2d", 2000, 40000) { Gradients<2, 2, char>(c, Kind::volumes); }
PBT_PROP("gradients next to cut cells 3d", 1000, 20000) { Gradients<3, 3, char>(c, Kind::volumes); }
PBT_PROP("gradients in chunks 1d", 2000, 40000) { Gradients<1, 1, char>(c, Kind::array); }
PBT_PROP("gradients in chunks 2d", 2000, 40000) { Gradients<2, 2, char>(c, Kind::array); }
PBT_PROP("gradients in chunks 3d", 1000, 20000) { Gradients<3, 3, char>(c, Kind::array); }
} // namespace

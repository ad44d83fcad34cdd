#include "C02.hpp"
// ----------------------------------------------------------------- patch views
template <int R> std::string BoxStr(const IndexBox<R>& b) { return "{" + pbt::list(b.lower) + "," + pbt::list(b.upper) + "}"; }
template <int R> void PatchViews(pbt::Case& c) {
  Ix<R> e, org;
  for (int r = 0; r < R; ++r) {
    e[r] = c.i(1, R >= 4 ? 3 : 5);
    org[r] = c.i(0, 10) - 5;
  }
  c.note("extents", pbt::list(e));
  c.note("origin", pbt::list(org));
  P n = Prod<R>(e);
  std::vector<int> v(static_cast<std::size_t>(n) + 1);
  int* base = v.data();
  PatchDataView<int, R> pdv(mdspan<int, R>(base, e), org);
  auto off = [&](const Ix<R>& g) { P o = 0, s = 1; for (int r = 0; r < R; ++r) { o += (g[r] - org[r]) * s; s *= e[r]; } return o; };
  auto b = pdv.Box();
  for (int r = 0; r < R; ++r)
    c.check(b.lower[r] == org[r] && b.upper[r] == org[r] + e[r] && pdv.Extent(r) == e[r], "Box()");
  c.equal(pdv.Rank(), R, "Rank");
  c.check(pdv.Origin() == org, "Origin");
  c.equal(pdv.Span().size(), n, "Span().size()");
  Odometer<R>(e, [&](Ix<R> i) {
    for (int r = 0; r < R; ++r)
      i[r] += org[r];
    c.check(&pdv(i) == base + off(i), "patch element " + pbt::list(i));
    std::apply([&](auto... is) { c.check(&pdv(is...) == base + off(i), "patch variadic access"); }, i);
    if constexpr (R >= 2) {
      Ix<R - 1> h;
      for (int r = 0; r < R - 1; ++r)
        h[r] = i[r];
      c.check(&pdv(h, static_cast<int>(i[R - 1])) == base + off(i), "patch (index, component) access");
    }
  });
  PatchDataView<const int, R> cpdv = pdv;
  c.check(cpdv.Box() == b && cpdv.Origin() == org, "const patch view");
  // nested sub views
  IndexBox<R> cur = b;
  PatchDataView<int, R, layout_stride> sub = pdv.Subview(b);
  int depth = c.i(1, 3);
  for (int k = 0; k < depth; ++k) {
    for (int r = 0; r < R; ++r) {
      P w = cur.upper[r] - cur.lower[r];
      P lo = cur.lower[r] + (w ? c.integer(0, std::min<P>(w, 1)) : 0);
      P hi = c.chance(1, 12) ? lo : cur.upper[r] - c.integer(0, std::max<P>(0, std::min<P>(2, cur.upper[r] - lo - 1)));
      cur.lower[r] = lo;
      cur.upper[r] = hi;
    }
    c.note("sub", BoxStr<R>(cur));
    sub = k == 0 ? pdv.Subview(cur) : sub.Subview(cur);
    c.check(sub.Box() == cur, "Subview has box " + BoxStr<R>(sub.Box()) + " instead of " + BoxStr<R>(cur));
    Ix<R> ce;
    for (int r = 0; r < R; ++r)
      ce[r] = cur.upper[r] - cur.lower[r];
    P last = -1;
    Odometer<R>(ce, [&](Ix<R> i) {
      for (int r = 0; r < R; ++r)
        i[r] += cur.lower[r];
      c.check(&sub(i) == base + off(i), "sub view element " + pbt::list(i));
      last = off(i);
    });
    if (Prod<R>(ce) == 0) {
      c.label("empty sub view");
    } else {
      c.nontrivial();
      c.check(sub.Span().data() == base + off(cur.lower), "sub view span start");
      c.equal(sub.Span().data() + sub.Span().size() - base, last + 1, "sub view span end");
    }
  }
  // slices along the last dimension
  if constexpr (R >= 2) {
    P comp = c.integer(0, e[R - 1] - 1);
    auto sl = SliceLast(pdv, static_cast<int>(comp));
    auto sl2 = SliceLast(pdv.Subview(b), static_cast<int>(comp));
    Ix<R - 1> he;
    for (int r = 0; r < R - 1; ++r)
      he[r] = e[r];
    for (int r = 0; r < R - 1; ++r) {
      c.equal(sl.Extent(r), e[r], "SliceLast extent");
      c.equal(sl.Origin()[r], org[r], "SliceLast origin");
      c.equal(sl2.Extent(r), e[r], "strided SliceLast extent");
      c.equal(sl2.Origin()[r], org[r], "strided SliceLast origin");
    }
    Odometer<R - 1>(he, [&](Ix<R - 1> i) {
      Ix<R> g;
      for (int r = 0; r < R - 1; ++r)
        g[r] = (i[r] += org[r]);
      g[R - 1] = org[R - 1] + comp;
      c.check(&sl(i) == base + off(g) && &sl2(i) == base + off(g), "SliceLast element");
    });
  }
}
PBT_PROP("patch views 1d", 15000*3, 100000*3) { PatchViews<1>(c); }
PBT_PROP("patch views 2d", 15000*3, 150000*3) { PatchViews<2>(c); }
PBT_PROP("patch views 3d", 10000*3, 100000*3) { PatchViews<3>(c); }
PBT_PROP("patch views 4d", 5000*3, 50000*3) { PatchViews<4>(c); }

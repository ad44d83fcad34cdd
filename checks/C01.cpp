// C01: index boxes are sets; index loops enumerate them.
#include "pbt.hpp"
#include "fub/ForEach.hpp"
#include "fub/PatchDataView.hpp"
#include "fub/boundary_condition/ReflectiveBoundary.hpp"

using namespace fub;
template <int R> using Set = std::set<Index<R>>;

template <int R> Set<R> Cells(const IndexBox<R>& b) {
  // independent enumeration: odometer
  Set<R> s;
  for (int r = 0; r < R; ++r)
    if (b.lower[r] >= b.upper[r])
      return s;
  Index<R> i = b.lower;
  while (true) {
    s.insert(i);
    int r = 0;
    while (r < R && ++i[r] >= b.upper[r]) {
      i[r] = b.lower[r];
      ++r;
    }
    if (r == R)
      return s;
  }
}
template <int R> std::string Str(const Index<R>& i) { return pbt::list(i); }
template <int R> std::string Str(const IndexBox<R>& b) {
  return "{" + pbt::list(b.lower) + "," + pbt::list(b.upper) + "}";
}
template <int R> IndexBox<R> GenBox(pbt::Case& c, int maxe = R >= 4 ? 3 : 5) {
  IndexBox<R> b;
  for (int r = 0; r < R; ++r) {
    b.lower[r] = c.i(0, 14) - 7;
    b.upper[r] = b.lower[r] + (c.chance(1, 12) ? 0 : c.i(1, maxe));
  }
  return b;
}
template <int R> IndexBox<R> GenNear(pbt::Case& c, const IndexBox<R>& a) {
  IndexBox<R> b;
  for (int r = 0; r < R; ++r) {
    b.lower[r] = a.lower[r] + c.pick<int>({0, 1, -1, 2, -2, 3, -4});
    b.upper[r] = c.boolean() ? std::max(b.lower[r], a.upper[r] + c.i(0, 2) - 1)
                             : b.lower[r] + c.i(0, 5);
  }
  return b;
}
template <int R> bool Empty(const IndexBox<R>& b) {
  for (int r = 0; r < R; ++r)
    if (b.lower[r] >= b.upper[r])
      return true;
  return false;
}
template <int R> void BoxAlgebra(pbt::Case& c) {
  auto a = GenBox<R>(c), b = GenNear<R>(c, a);
  c.note("a", Str<R>(a));
  c.note("b", Str<R>(b));
  auto A = Cells<R>(a), B = Cells<R>(b);
  // intersection
  Set<R> AB;
  for (auto& i : A)
    if (B.count(i))
      AB.insert(i);
  auto ab = Intersect(a, b);
  c.check(Cells<R>(ab) == AB, "Intersect(a,b) is not the set intersection: " + Str<R>(ab));
  for (int r = 0; r < R; ++r)
    c.check(ab.lower[r] <= ab.upper[r], "Intersect yields an inverted box " + Str<R>(ab));
  auto ba = Intersect(b, a);
  c.check(Cells<R>(ba) == AB, "Intersect is not commutative as a set");
  c.check(Cells<R>(Intersect(a, a)) == A, "Intersect(a,a) != a");
  c.nontrivial(!AB.empty());
  if (AB.empty())
    c.label("empty intersection");
  // containment of a box
  if (!B.empty()) {
    bool sub = std::includes(A.begin(), A.end(), B.begin(), B.end());
    c.equal(Contains(a, b), sub, "Contains(a,b)");
    if (sub)
      c.label("b inside a");
  }
  if (!A.empty()) {
    // an inner box constructed by shrinking
    IndexBox<R> in = a;
    for (int r = 0; r < R; ++r) {
      auto n = in.upper[r] - in.lower[r];
      in.lower[r] += c.integer(0, n - 1);
      in.upper[r] = in.lower[r] + c.integer(1, in.upper[r] - in.lower[r]);
    }
    c.check(Contains(a, in), "Contains(a, " + Str<R>(in) + ") is false");
    if (in != a) {
      c.check(!Contains(in, a), "Contains(" + Str<R>(in) + ", a) is true");
      c.check(in != a && !(in == a), "box comparison");
    }
  }
  c.check(a == a && !(a != a), "a == a");
  if (A != B)
    c.check(a != b && !(a == b), "different boxes compare equal");
  // containment of an index
  Index<R> i;
  for (int r = 0; r < R; ++r)
    i[r] = a.lower[r] - 1 + c.integer(0, a.upper[r] - a.lower[r] + 1);
  c.note("i", Str<R>(i));
  c.equal(Contains(a, i), A.count(i) == 1, "Contains(a,i)");
  // grow / shrink in a direction
  int d = c.i(0, R - 1);
  std::array<std::ptrdiff_t, 2> w{c.i(0, 3), c.i(0, 3)};
  auto g = Grow(a, Direction(d), w);
  c.note("dir", d);
  c.note("w", pbt::list(w));
  {
    Set<R> G;
    if (!A.empty()) {
      for (auto k : A) {
        for (std::ptrdiff_t s = -w[0]; s <= w[1]; ++s) {
          auto k2 = k;
          k2[d] += s;
          G.insert(k2);
        }
      }
      c.check(Cells<R>(g) == G, "Grow " + Str<R>(g));
    }
    c.check(Shrink(g, Direction(d), w) == a, "Shrink(Grow(a)) != a");
    auto s = Shrink(a, Direction(d), w);
    c.check(Grow(s, Direction(d), w) == a, "Grow(Shrink(a)) != a");
    Set<R> S;
    for (auto k : A) {
      auto l = k, u = k;
      l[d] -= w[0];
      u[d] += w[1];
      if (A.count(l) && A.count(u))
        S.insert(k);
    }
    c.check(Cells<R>(s) == S, "Shrink " + Str<R>(s));
  }
  // shifts of an index
  std::ptrdiff_t n = c.i(0, 8) - 4;
  auto e = i;
  e[d] += n;
  c.check(Shift(i, Direction(d), n) == e, "Shift");
  c.check(Shift(Shift(i, Direction(d), n), Direction(d), -n) == i, "Shift back");
  int k = c.i(1, 3);
  // faces: the face left of a cell has the cell's index, the right one is +1
  auto lc = LeftTo(i, Direction(d), k), rc = RightTo(i, Direction(d), k);
  auto el = i, er = i;
  el[d] -= k;
  er[d] += k - 1;
  c.check(lc == el && rc == er, "LeftTo/RightTo: cells next to a face");
  // neighbourhood
  int width = c.i(0, 2);
  auto nb = Neighborhood<R>(i, width);
  auto NB = Cells<R>(nb);
  std::size_t cnt = 1;
  for (int r = 0; r < R; ++r)
    cnt *= static_cast<std::size_t>(2 * width + 1);
  c.equal(NB.size(), cnt, "Neighborhood size");
  for (auto& x : NB)
    for (int r = 0; r < R; ++r)
      c.check(std::abs(x[r] - i[r]) <= width, "Neighborhood distance");
  // embedding / projection
  if constexpr (R < 4) {
    std::array<std::ptrdiff_t, 2> lim{c.i(0, 4) - 2, 0};
    lim[1] = lim[0] + c.i(0, 3);
    auto em = Embed<R + 1>(a, lim);
    for (int r = 0; r < R; ++r)
      c.check(em.lower[r] == a.lower[r] && em.upper[r] == a.upper[r], "Embed");
    c.check(em.lower[R] == lim[0] && em.upper[R] == lim[1], "Embed limits");
    c.check(Project<R>(em) == a, "Project(Embed(a)) != a");
    auto ei = EmbedIndex(i, Direction(d));
    for (int r = 0; r < R; ++r)
      c.equal(ei[r], i[r], "EmbedIndex");
    c.equal(ei[R], std::ptrdiff_t(d), "EmbedIndex component");
  }
}
PBT_PROP("box algebra 1d", 200000, 1500000) { BoxAlgebra<1>(c); }
PBT_PROP("box algebra 2d", 150000, 1000000) { BoxAlgebra<2>(c); }
PBT_PROP("box algebra 3d", 60000, 500000) { BoxAlgebra<3>(c); }
PBT_PROP("box algebra 4d", 8000, 100000) { BoxAlgebra<4>(c); }

template <int R> bool LessColMajor(const Index<R>& a, const Index<R>& b) {
  for (int r = R - 1; r >= 0; --r)
    if (a[r] != b[r])
      return a[r] < b[r];
  return false;
}
template <int R> void CheckVisit(pbt::Case& c, const std::vector<Index<R>>& v, const Set<R>& want, const char* what) {
  Set<R> got(v.begin(), v.end());
  c.check(got.size() == v.size(), std::string(what) + ": an index was visited twice");
  if (got != want) {
    std::string s;
    for (auto& i : want)
      if (!got.count(i))
        s += " missing " + Str<R>(i);
    for (auto& i : got)
      if (!want.count(i))
        s += " extra " + Str<R>(i);
    c.fail(std::string(what) + ": wrong index set:" + s.substr(0, 300));
  }
  for (std::size_t k = 1; k < v.size(); ++k)
    c.check(LessColMajor<R>(v[k - 1], v[k]), std::string(what) + ": not column-major");
}
template <int R> void Loops(pbt::Case& c) {
  IndexBox<R> b = GenBox<R>(c);
  if (c.chance(1, 10)) { // inverted boxes denote the empty set as well
    int r = c.i(0, R - 1);
    b.upper[r] = b.lower[r] - c.i(1, 3);
    c.label("inverted");
  }
  c.note("box", Str<R>(b));
  auto want = Cells<R>(b);
  c.nontrivial(want.size() > 1);
  if (want.empty())
    c.label("empty");
  std::vector<Index<R>> v;
  ForEachIndex(b, [&](auto... is) { v.push_back(Index<R>{is...}); });
  CheckVisit<R>(c, v, want, "ForEachIndex(box)");
  // mapping loops
  std::array<std::ptrdiff_t, R> e;
  IndexBox<R> z;
  for (int r = 0; r < R; ++r) {
    e[r] = c.i(0, 4);
    z.lower[r] = 0;
    z.upper[r] = e[r];
  }
  c.note("extents", pbt::list(e));
  dynamic_extents<R> ext(e);
  layout_left::mapping<dynamic_extents<R>> ml(ext);
  v.clear();
  std::vector<std::ptrdiff_t> lin;
  ForEachIndex(ml, [&](auto... is) {
    v.push_back(Index<R>{static_cast<std::ptrdiff_t>(is)...});
    lin.push_back(ml(is...));
  });
  CheckVisit<R>(c, v, Cells<R>(z), "ForEachIndex(layout_left)");
  for (std::size_t k = 0; k < lin.size(); ++k)
    c.check(lin[k] == static_cast<std::ptrdiff_t>(k), "layout_left loop is not memory order");
  // strictly increasing strides (the documented precondition)
  std::array<std::ptrdiff_t, R> st;
  std::ptrdiff_t s = c.i(1, 2);
  for (int r = 0; r < R; ++r) {
    st[r] = s;
    s = s * std::max<std::ptrdiff_t>(e[r], 1) + c.i(r == R - 1 ? 0 : 1, 3);
  }
  layout_stride::mapping<dynamic_extents<R>> ms(ext, st);
  v.clear();
  ForEachIndex(ms, [&](auto... is) { v.push_back(Index<R>{static_cast<std::ptrdiff_t>(is)...}); });
  CheckVisit<R>(c, v, Cells<R>(z), "ForEachIndex(layout_stride)");
}
PBT_PROP("index loops 1d", 40000, 400000) { Loops<1>(c); }
PBT_PROP("index loops 2d", 40000, 400000) { Loops<2>(c); }
PBT_PROP("index loops 3d", 30000, 300000) { Loops<3>(c); }
PBT_PROP("index loops 4d", 20000, 200000) { Loops<4>(c); }

// loop functions thread their function object through by value
PBT_PROP("loop returns the function object", 2000, 10000) {
  IndexBox<2> b = GenBox<2>(c);
  struct F {
    long n = 0;
    void operator()(std::ptrdiff_t, std::ptrdiff_t) { ++n; }
  };
  F f = ForEachIndex(b, F{});
  c.equal(f.n, static_cast<long>(Cells<2>(b).size()), "call count of returned function");
  c.nontrivial(f.n > 0);
  c.note("box", Str<2>(b));
}

template <int R> void Mirror(pbt::Case& c) {
  IndexBox<R> b = GenBox<R>(c);
  int d = c.i(0, R - 1), side = c.i(0, 1);
  if (b.upper[d] == b.lower[d])
    b.upper[d] += 1;
  c.note("fill box", Str<R>(b));
  c.note("dir", d);
  c.note("side", side);
  bool any = false;
  auto n = b.upper[d] - b.lower[d];
  // the wall is the face next to the interior; the mirror image of the ghost
  // cells is the slab of the same width on the other side of it.
  IndexBox<R> interior = b;
  if (side == 0) {
    interior.lower[d] = b.upper[d];
    interior.upper[d] = b.upper[d] + n;
  } else {
    interior.upper[d] = b.lower[d];
    interior.lower[d] = b.lower[d] - n;
  }
  Set<R> img;
  for (auto& i : Cells<R>(b)) {
    any = true;
    Index<R> s = ReflectIndex(i, b, Direction(d), side);
    img.insert(s);
    // mid point of i and s is the wall
    std::ptrdiff_t wall2 = side == 0 ? 2 * b.upper[d] : 2 * b.lower[d];
    c.check((i[d] + s[d] + 1) == wall2, "image of " + Str<R>(i) + " is " + Str<R>(s));
    for (int r = 0; r < R; ++r)
      if (r != d)
        c.check(i[r] == s[r], "tangential index changed");
  }
  c.check(img == Cells<R>(interior), "images do not cover the mirrored slab");
  c.nontrivial(any);
}
PBT_PROP("mirror index 1d", 15000, 100000) { Mirror<1>(c); }
PBT_PROP("mirror index 2d", 15000, 100000) { Mirror<2>(c); }
PBT_PROP("mirror index 3d", 10000, 60000) { Mirror<3>(c); }

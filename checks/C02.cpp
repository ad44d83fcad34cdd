#include "C02.hpp"
// ----------------------------------------------------------------- 1d spans
// history of sub-views on a span, against an (offset, size) model
PBT_PROP("span subviews", 60000*3, 600000*3) {
  P n = c.i(0, 12);
  std::vector<int> v(static_cast<std::size_t>(n) + 1);
  span<int> s(v.data(), n);
  P off = 0, len = n;
  c.note("n", n);
  int steps = c.i(1, 4);
  for (int k = 0; k < steps; ++k) {
    switch (c.i(0, 4)) {
    case 0: {
      P cnt = c.integer(0, len);
      c.note("first", cnt);
      s = s.first(cnt);
      len = cnt;
      break;
    }
    case 1: {
      P cnt = c.integer(0, len);
      c.note("last", cnt);
      s = s.last(cnt);
      off += len - cnt;
      len = cnt;
      c.label("last");
      break;
    }
    case 2: {
      P o = c.integer(0, len);
      c.note("subspan", o);
      s = s.subspan(o);
      off += o;
      len -= o;
      break;
    }
    case 3: {
      P o = c.integer(0, len), cnt = c.integer(0, len - o);
      c.note("subspan", std::to_string(o) + "," + std::to_string(cnt));
      s = s.subspan(o, cnt);
      off += o;
      len = cnt;
      break;
    }
    default:
      if (len >= 3) {
        switch (c.i(0, 3)) {
        case 0: { span<int, 3> t = s.template first<3>(); s = t; len = 3; break; }
        case 1: { span<int, 3> t = s.template last<3>(); s = t; off += len - 3; len = 3; break; }
        case 2: { span<int, 2> t = s.template subspan<1, 2>(); s = t; off += 1; len = 2; break; }
        default: { auto t = s.template subspan<2>(); s = span<int>(t.data(), t.size()); off += 2; len -= 2; }
        }
        c.note("static sub", k);
        c.label("static");
      }
    }
    c.equal(s.size(), len, "span size");
    c.check(s.data() == v.data() + off, "span starts at offset " + std::to_string(s.data() - v.data()) +
                                            " instead of " + std::to_string(off));
    c.equal(s.empty(), len == 0, "span empty()");
    c.equal(s.end() - s.begin(), len, "end - begin");
    c.equal(s.rend() - s.rbegin(), len, "rend - rbegin");
    c.equal(static_cast<P>(s.size_bytes()), len * P(sizeof(int)), "size_bytes");
    for (P i = 0; i < len; ++i) {
      c.check(&s[i] == v.data() + off + i && &s(i) == &s[i], "span element address");
      c.check(&*(s.begin() + i) == &s[i] && &*(s.cbegin() + i) == &s[i], "iterator");
      c.check(&*(s.rbegin() + i) == &s[len - 1 - i], "reverse iterator");
    }
  }
  c.nontrivial(n > 1);
}
template <P N> void StaticSpan(pbt::Case& c) {
  std::array<int, N> a{};
  span<int, N> s(a);
  c.equal(s.size(), N, "size");
  c.check(!s.empty(), "empty");
  P cnt = c.integer(0, N), o = c.integer(0, N), k = c.integer(0, N - o);
  c.note("N", N);
  c.note("count/offset/count", std::to_string(cnt) + "/" + std::to_string(o) + "/" + std::to_string(k));
  auto f = s.first(cnt);
  c.check(f.data() == a.data() && f.size() == cnt, "static first(n)");
  auto l = s.last(cnt);
  c.check(l.data() == a.data() + (N - cnt) && l.size() == cnt, "static last(n)");
  auto u = s.subspan(o, k);
  c.check(u.data() == a.data() + o && u.size() == k, "static subspan(o,n)");
  auto u2 = s.subspan(o);
  c.check(u2.data() == a.data() + o && u2.size() == N - o, "static subspan(o)");
  auto tf = s.template first<N - 1>();
  c.check(tf.data() == a.data() && tf.size() == N - 1, "first<N-1>");
  auto tl = s.template last<N - 1>();
  c.check(tl.data() == a.data() + 1 && tl.size() == N - 1, "last<N-1>");
  auto ts = s.template subspan<1>();
  c.check(ts.data() == a.data() + 1 && ts.size() == N - 1, "subspan<1>");
  auto ts2 = s.template subspan<1, N - 2>();
  c.check(ts2.data() == a.data() + 1 && ts2.size() == N - 2, "subspan<1,N-2>");
  for (P i = 0; i < N; ++i)
    c.check(&s[i] == &a[static_cast<std::size_t>(i)] && &s(i) == &s[i] && &*(s.rbegin() + i) == &s[N - 1 - i], "element");
  c.equal(s.end() - s.begin(), N, "distance");
  span<const int> cs = s;
  c.check(cs.data() == s.data() && cs.size() == N, "conversion to const");
  c.nontrivial(cnt > 0 || o > 0);
}
PBT_PROP("span static extents", 20000*3, 100000*3) {
  switch (c.i(0, 2)) {
  case 0: StaticSpan<3>(c); break;
  case 1: StaticSpan<5>(c); break;
  default: StaticSpan<8>(c);
  }
}

template <int R> void Layouts(pbt::Case& c) {
  Ix<R> e = GenExt<R>(c, R == 4 ? 3 : 5);
  c.note("extents", pbt::list(e));
  P n = Prod<R>(e);
  std::vector<int> v(static_cast<std::size_t>(n) + 1);
  c.nontrivial(n > 1);
  if (n == 0)
    c.label("empty");
  auto left = [&](const Ix<R>& i) { P o = 0, s = 1; for (int r = 0; r < R; ++r) { o += i[r] * s; s *= e[r]; } return o; };
  auto right = [&](const Ix<R>& i) { P o = 0, s = 1; for (int r = R - 1; r >= 0; --r) { o += i[r] * s; s *= e[r]; } return o; };
  mdspan<int, R, layout_left> ml(v.data(), e);
  CheckView<R>(c, ml, v.data(), e, left, n, "layout_left");
  c.check(ml.is_contiguous() && ml.is_unique() && ml.is_strided(), "layout_left observers");
  mdspan<int, R, layout_right> mr(v.data(), e);
  CheckView<R>(c, mr, v.data(), e, right, n, "layout_right");
  // general strides: a permuted, padded arrangement
  Ix<R> st;
  std::array<int, R> perm;
  std::iota(perm.begin(), perm.end(), 0);
  for (int r = R - 1; r > 0; --r)
    std::swap(perm[r], perm[c.i(0, r)]);
  P s = c.i(1, 2);
  for (int k = 0; k < R; ++k) {
    st[perm[k]] = s;
    s = s * std::max<P>(e[perm[k]], 1) + c.i(0, 2);
  }
  std::vector<int> w(static_cast<std::size_t>(s) + 1);
  c.note("strides", pbt::list(st));
  layout_stride::mapping<dynamic_extents<R>> map(dynamic_extents<R>(e), st);
  mdspan<int, R, layout_stride> ms(w.data(), map);
  CheckView<R>(c, ms, w.data(), e, [&](const Ix<R>& i) { P o = 0; for (int r = 0; r < R; ++r) o += i[r] * st[r]; return o; }, s, "layout_stride");
  // conversion of a left mapping into a strided one keeps the mapping
  mdspan<int, R, layout_stride> cs(v.data(), layout_stride::mapping<dynamic_extents<R>>(ml.mapping()));
  CheckView<R>(c, cs, v.data(), e, left, n, "strided copy of layout_left");
  mdspan<const int, R, layout_left> cl(ml);
  CheckView<R>(c, cl, v.data(), e, left, n, "const view");
  Ix<R> f = GenExt<R>(c, 3);
  c.equal(dynamic_extents<R>(e) == dynamic_extents<R>(f), e == f, "extents comparison");
  c.equal(dynamic_extents<R>(e) != dynamic_extents<R>(f), e != f, "extents comparison");
}
PBT_PROP("layouts 1d", 15000, 100000) { Layouts<1>(c); }
PBT_PROP("layouts 2d", 20000, 200000) { Layouts<2>(c); }
PBT_PROP("layouts 3d", 12000, 120000) { Layouts<3>(c); }
PBT_PROP("layouts 4d", 6000, 60000) { Layouts<4>(c); }

PBT_PROP("static and mixed extents", 20000, 100000) {
  P a = c.i(0, 4), b = c.i(0, 4);
  std::vector<int> v(400);
  c.note("a,b", std::to_string(a) + "," + std::to_string(b));
  c.nontrivial(a * b > 1);
  {
    basic_mdspan<int, extents<3, dynamic_extent>> m(v.data(), a);
    CheckView<2>(c, m, v.data(), {3, a}, [&](const Ix<2>& i) { return i[0] * a + i[1]; }, 400, "<3,*>");
    c.equal(m.static_extent(0), P(3), "static_extent");
    c.equal(m.rank_dynamic(), 1, "rank_dynamic");
  }
  {
    basic_mdspan<int, extents<dynamic_extent, 2, dynamic_extent>, layout_left> m(v.data(), a, b);
    CheckView<3>(c, m, v.data(), {a, 2, b}, [&](const Ix<3>& i) { return i[0] + a * (i[1] + 2 * i[2]); }, 400, "<*,2,*>");
    c.equal(m.rank_dynamic(), 2, "rank_dynamic");
  }
  {
    static_mdspan<int, 2, 3, 4> m(v.data());
    CheckView<3>(c, m, v.data(), {2, 3, 4}, [&](const Ix<3>& i) { return (i[0] * 3 + i[1]) * 4 + i[2]; }, 400, "<2,3,4>");
  }
  {
    basic_mdspan<int, extents<dynamic_extent, dynamic_extent, 3>> m(v.data(), a, b);
    CheckView<3>(c, m, v.data(), {a, b, 3}, [&](const Ix<3>& i) { return (i[0] * b + i[1]) * 3 + i[2]; }, 400, "<*,*,3>");
    extents<dynamic_extent, dynamic_extent, 3> e(a, b);
    dynamic_extents<3> d(a, b, 3), d2(a, b, 4);
    c.check(e == d && !(e != d) && e != d2, "mixed extents comparison");
  }
}


// every pattern of static and dynamic extents up to rank four
template <int R, int Mask, std::size_t... I> auto PatternExtents(std::index_sequence<I...>)
    -> extents<((Mask >> I) & 1 ? dynamic_extent : std::ptrdiff_t(2 + (I * 2 + R) % 3))...>;
template <int R, int Mask> using Pattern = decltype(PatternExtents<R, Mask>(std::make_index_sequence<R>()));

template <int R, int Mask> void MixedPattern(pbt::Case& c) {
  using E = Pattern<R, Mask>;
  constexpr int D = __builtin_popcount(Mask);
  Ix<R> e;
  std::array<P, D> dyn{};
  for (int r = 0, d = 0; r < R; ++r) {
    e[r] = E::static_extent(static_cast<std::size_t>(r));
    if ((Mask >> r) & 1) {
      c.equal(e[r], P(dynamic_extent), "static_extent of a dynamic extent");
      e[r] = c.i(0, 4);
      dyn[static_cast<std::size_t>(d++)] = e[r];
    }
  }
  c.note("extents", pbt::list(e));
  c.note("dynamic pattern", Mask);
  c.nontrivial(D >= 1 && D < R && Prod<R>(e) > 1);
  c.equal(int(E::rank()), R, "rank");
  c.equal(int(E::rank_dynamic()), D, "rank_dynamic");
  E x(dyn);
  for (int r = 0; r < R; ++r)
    c.equal(P(x.extent(static_cast<std::size_t>(r))), e[r], "extent");
  c.check(x == dynamic_extents<R>(e), "mixed extents equal the dynamic extents of the same values");
  P n = Prod<R>(e);
  std::vector<int> v(static_cast<std::size_t>(n) + 1);
  basic_mdspan<int, E, layout_left> ml(v.data(), dyn);
  CheckView<R>(c, ml, v.data(), e, [&](const Ix<R>& i) { P o = 0, s = 1; for (int r = 0; r < R; ++r) { o += i[r] * s; s *= e[r]; } return o; }, n, "mixed layout_left");
  basic_mdspan<int, E, layout_right> mr(v.data(), dyn);
  CheckView<R>(c, mr, v.data(), e, [&](const Ix<R>& i) { P o = 0, s = 1; for (int r = R - 1; r >= 0; --r) { o += i[r] * s; s *= e[r]; } return o; }, n, "mixed layout_right");
}
template <int R, std::size_t... M> void AnyPattern(pbt::Case& c, std::index_sequence<M...>) {
  using F = void (*)(pbt::Case&);
  static constexpr F fs[] = {&MixedPattern<R, int(M) + 1>...};
  fs[c.i(0, int(sizeof...(M)) - 1)](c);
}
PBT_PROP("patterns of static extents", 20000, 200000) {
  switch (c.i(1, 4)) {
  case 1: AnyPattern<1>(c, std::make_index_sequence<1>()); break;
  case 2: AnyPattern<2>(c, std::make_index_sequence<3>()); break;
  case 3: AnyPattern<3>(c, std::make_index_sequence<7>()); break;
  default: AnyPattern<4>(c, std::make_index_sequence<15>());
  }
}

#pragma once
#include "C02.hpp"
// ----------------------------------------------------------------- slicing
// recursively choose a slice specifier per dimension
template <int R, int K, typename MD, typename... S>
void SliceRec(pbt::Case& c, const MD& md, const int* base, P storage, const Ix<R>& e, Ix<R> org,
              std::vector<int> kept, std::vector<P> ext, std::string txt, S... s) {
  if constexpr (K == R) {
    constexpr std::size_t SR = SliceRank_<S...>;
    if constexpr (SR >= 1) {
      c.note("slice", txt);
      auto sub = subspan(md, s...);
      Ix<static_cast<int>(SR)> want;
      for (std::size_t r = 0; r < SR; ++r)
        want[r] = ext[r];
      for (std::size_t r = 0; r < SR; ++r)
        if (sub.extent(r) != want[r])
          c.fail("slice extent " + std::to_string(r) + " is " + std::to_string(sub.extent(r)) + " instead of " + std::to_string(want[r]));
      if (Prod<static_cast<int>(SR)>(want) == 0)
        c.label("empty slice");
      c.nontrivial(SR < R || want != Ix<static_cast<int>(SR)>{});
      CheckView<static_cast<int>(SR)>(
          c, sub, base, want,
          [&](const Ix<static_cast<int>(SR)>& i) {
            Ix<R> full = org;
            for (std::size_t r = 0; r < SR; ++r)
              full[kept[r]] += i[r];
            return &md(full) - base;
          },
          storage, "subspan");
    }
  } else {
    switch (c.i(0, 2)) {
    case 0: {
      P n = e[K];
      kept.push_back(K);
      ext.push_back(n);
      SliceRec<R, K + 1>(c, md, base, storage, e, org, kept, ext, txt + " all", s..., all);
      break;
    }
    case 1: {
      P lo = c.integer(0, e[K]);
      P hi = lo + c.integer(0, e[K] - lo);
      org[K] = lo;
      kept.push_back(K);
      ext.push_back(hi - lo);
      SliceRec<R, K + 1>(c, md, base, storage, e, org, kept, ext, txt + " " + std::to_string(lo) + ":" + std::to_string(hi), s...,
                         std::pair<P, P>(lo, hi));
      break;
    }
    default: {
      P i = c.integer(0, std::max<P>(e[K] - 1, 0));
      org[K] = i;
      SliceRec<R, K + 1>(c, md, base, storage, e, org, kept, ext, txt + " " + std::to_string(i), s..., i);
    }
    }
  }
}
template <int R, typename L> void Slices(pbt::Case& c) {
  Ix<R> e;
  for (int r = 0; r < R; ++r)
    e[r] = c.i(1, R == 4 ? 3 : 5);
  P n = Prod<R>(e);
  std::vector<int> v(static_cast<std::size_t>(n) + 1);
  c.note("extents", pbt::list(e));
  mdspan<int, R, L> md(v.data(), e);
  SliceRec<R, 0>(c, md, v.data(), n, e, Ix<R>{}, {}, {}, "");
}

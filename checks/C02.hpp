#pragma once
// C02: spans, mdspans and patch views alias exactly the elements they denote.
#include "pbt.hpp"
#include "fub/PatchDataView.hpp"
#include "fub/core/mdspan.hpp"
#include "fub/core/span.hpp"
#include <numeric>

using namespace fub;
using P = std::ptrdiff_t;
template <int R> using Ix = std::array<P, static_cast<std::size_t>(R)>;

template <int R, typename F> void Odometer(const Ix<R>& e, F f) {
  for (P x : e)
    if (x <= 0)
      return;
  Ix<R> i{};
  while (true) {
    f(i);
    int r = 0;
    while (r < R && ++i[r] >= e[r])
      i[r++] = 0;
    if (r == R)
      return;
  }
}

// ----------------------------------------------------------------- mappings
template <int R, typename MD, typename Model>
void CheckView(pbt::Case& c, const MD& md, const int* base, const Ix<R>& e, Model model, P storage, const char* what) {
  c.equal(static_cast<int>(md.rank()), R, std::string(what) + " rank");
  P size = 1;
  for (int r = 0; r < R; ++r) {
    c.equal(md.extent(r), e[r], std::string(what) + " extent " + std::to_string(r));
    size *= e[r];
  }
  c.equal(md.size(), size, std::string(what) + " size()");
  std::set<P> seen;
  P last = -1;
  Odometer<R>(e, [&](const Ix<R>& i) {
    P want = model(i);
    P got = &md(i) - base;
    if (got != want)
      c.fail(std::string(what) + ": element " + pbt::list(i) + " is at offset " + std::to_string(got) + ", expected " + std::to_string(want));
    c.check(got >= 0 && got < storage, std::string(what) + ": element outside of the storage");
    c.check(seen.insert(got).second, std::string(what) + ": two indices share an element");
    last = std::max(last, got);
    std::apply([&](auto... is) { c.check(&md(is...) == base + want, std::string(what) + ": variadic access differs"); }, i);
    for (int r = 0; r < R; ++r)
      if (i[r] + 1 < e[r]) {
        auto j = i;
        ++j[r];
        c.equal(&md(j) - &md(i), md.stride(r), std::string(what) + " stride " + std::to_string(r));
      }
  });
  // the codomain span starts at the first element and ends with the last one
  auto sp = md.get_span();
  if (size == 0)
    c.equal(sp.size(), P(0), std::string(what) + ": span of an empty view");
  else
    c.equal(sp.data() - base + sp.size(), last + 1, std::string(what) + ": end of the codomain span");
}
template <int R> Ix<R> GenExt(pbt::Case& c, int maxe) {
  Ix<R> e;
  for (int r = 0; r < R; ++r)
    e[r] = c.chance(1, 10) ? 0 : c.i(1, maxe);
  return e;
}
template <int R> P Prod(const Ix<R>& e) {
  P p = 1;
  for (P x : e)
    p *= x;
  return p;
}

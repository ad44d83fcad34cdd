#include "C02_slices.hpp"
PBT_PROP("slices of slices 3d", 12000*3, 120000*3) {
  Ix<3> e{c.i(1, 5), c.i(1, 5), c.i(1, 5)};
  std::vector<int> v(static_cast<std::size_t>(Prod<3>(e)) + 1);
  mdspan<int, 3, layout_left> md(v.data(), e);
  std::array<std::pair<P, P>, 3> p;
  Ix<3> f;
  for (int r = 0; r < 3; ++r) {
    p[r].first = c.integer(0, e[r] - 1);
    p[r].second = p[r].first + c.integer(1, e[r] - p[r].first);
    f[r] = p[r].second - p[r].first;
  }
  c.note("extents", pbt::list(e));
  c.note("inner", pbt::list(f));
  auto sub = subspan(md, p[0], p[1], p[2]);
  SliceRec<3, 0>(c, sub, v.data(), Prod<3>(e), f, Ix<3>{}, {}, {}, "");
}


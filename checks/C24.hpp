// C24: hierarchy integration, shared between its translation units
#pragma once
#include "../lib/pbt.hpp"
#include "fakempi.hpp"
#include "miniamr.hpp"

#include "fub/solver/DimensionalSplitLevelIntegrator.hpp"
#include "fub/solver/NoSubcycleSolver.hpp"
#include "fub/solver/SplitSystemSourceLevelIntegrator.hpp"
#include "fub/solver/SubcycleFineFirstSolver.hpp"
#include "fub/split_method/StrangSplitting.hpp"
#include "fub/split_method/StrangSplittingLumped.hpp"

namespace hi {
using namespace fub;
using amr::Box;
using amr::Context;
using amr::I3;

struct Grids {
  amr::Config cfg;
  std::vector<Box> boxes;
  bool covering{true}; // every level covers the domain
  int TotalRatio(int level) const {
    int r = 1;
    for (int l = 1; l <= level; ++l)
      r *= cfg.ratio[l].max();
    return r;
  }
};

inline Box DrawChild(pbt::Case& c, const amr::Config& cfg, const Box& parent, int level, bool covering) {
  // in cells of the parent level; spans a whole dimension only if the parent does
  const Box dom = cfg.DomainOf(level - 1);
  Box b;
  for (int d = 0; d < cfg.rank; ++d) {
    const bool whole = parent.lo[d] == dom.lo[d] && parent.hi[d] == dom.hi[d];
    const int n = parent.hi[d] - parent.lo[d];
    if (covering || n < 3 || (whole && c.chance(1, 4))) {
      b.lo[d] = parent.lo[d];
      b.hi[d] = parent.hi[d];
      continue;
    }
    const int w = std::min(n - 2, c.i(1, 3));
    b.lo[d] = parent.lo[d] + 1 + c.i(0, n - 2 - w);
    b.hi[d] = b.lo[d] + w;
  }
  Box f = b;
  for (int d = 0; d < 3; ++d) {
    f.lo[d] *= cfg.ratio[level].r[d];
    f.hi[d] *= cfg.ratio[level].r[d];
  }
  return f;
}

inline Grids DrawGrids(pbt::Case& c, int rank, bool covering) {
  Grids g;
  g.covering = covering;
  g.cfg.rank = rank;
  g.cfg.gcw = 6;
  const int max_cells[] = {0, 10, 6, 4};
  for (int d = 0; d < rank; ++d) {
    g.cfg.domain.lo[d] = c.chance(1, 4) ? c.i(-5, 5) : 0;
    g.cfg.domain.hi[d] = g.cfg.domain.lo[d] + c.i(1, max_cells[rank]);
    g.cfg.periodic[d] = c.chance(3, 4);
    g.cfg.a[d] = (c.boolean() ? 1 : -1) * c.pick<double>({1.0, 0.5, 2.0, 0.3});
  }
  const int levels = c.i(1, rank == 3 ? 2 : 3);
  g.cfg.ratio.resize(4);
  for (int l = 1; l < 4; ++l)
    for (int d = 0; d < rank; ++d)
      g.cfg.ratio[l].r[d] = d == 0 || c.chance(1, 5) ? (rank == 3 ? 2 : c.pick<int>({2, 2, 3, 4})) : g.cfg.ratio[l].r[0];
  g.boxes.push_back(g.cfg.domain);
  for (int l = 1; l < levels; ++l) {
    const Box& p = g.boxes.back();
    if (!covering) {
      // a level must be able to keep a distance from its parent's border
      bool fits = true;
      for (int d = 0; d < rank; ++d) {
        const Box dom = g.cfg.DomainOf(l - 1);
        const bool whole = p.lo[d] == dom.lo[d] && p.hi[d] == dom.hi[d];
        fits = fits && (whole || p.hi[d] - p.lo[d] >= 3);
      }
      if (!fits)
        break;
    }
    g.boxes.push_back(DrawChild(c, g.cfg, p, l, covering));
  }
  std::string s;
  for (const Box& b : g.boxes) {
    s += "[";
    for (int d = 0; d < rank; ++d)
      s += std::to_string(b.lo[d]) + ":" + std::to_string(b.hi[d]) + " ";
    s += "] ";
  }
  c.note("boxes", s);
  std::string p;
  for (int d = 0; d < rank; ++d)
    p += g.cfg.periodic[d] ? "p" : "-";
  c.note("periodic", p);
  return g;
}
// largest coarse step that keeps |a| dt/dx <= 1 on all levels
inline double MaxStep(const Grids& g, bool subcycle) {
  double dt = 1e300;
  for (std::size_t l = 0; l < g.boxes.size(); ++l)
    for (int d = 0; d < g.cfg.rank; ++d)
      dt = std::min(dt, (subcycle ? g.TotalRatio(static_cast<int>(l)) : 1) * g.cfg.Dx(static_cast<int>(l), d) / std::abs(g.cfg.a[d]));
  return dt;
}
inline std::string ShowLog(const std::vector<amr::Call>& log) {
  std::string s;
  for (const amr::Call& k : log) {
    s += k.what + "(" + std::to_string(k.level);
    if (k.dir >= 0)
      s += std::string(",") + "XYZ"[k.dir];
    if (k.dt != 0)
      s += "," + pbt::fmt(k.dt);
    s += ") ";
    if (s.size() > 3000)
      return s + "...";
  }
  return s;
}
struct Entry {
  const char* name;
  void (*body)(pbt::Case&);
  int quick, thorough;
};
void RegisterErrors(); // C24b.cpp
void RegisterSources();
} // namespace hi

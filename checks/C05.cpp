// C05: the vectorised and the scalar evaluation of fluxes and time steps agree
#include "fx.hpp"
#include <cmath>
namespace {
using namespace fx;
std::string Where(const std::string& what, int comp, std::array<P, 3> i) { return what + " component " + std::to_string(comp) + " at face " + pbt::list(i); }

void Agree(pbt::Case& c, Method& m) {
  const int dir = c.i(0, m.rank - 1);
  Data s, f;
  Box faces, view;
  MakePatch(c, m, s, f, faces, view, dir);
  Field nf = FillStates(c, m, s, c.pick<double>({0.0, 1e-3, 0.05, 0.15, 0.5, 1.5}));
  std::vector<double> scale;
  const double smax = SumScale(m, s, scale);
  bool uniform = true;
  Each(Whole(s), [&](std::array<P, 3> i) { uniform = uniform && s.get(i) == s.get(s.lo); });
  const double dx = c.pick<double>({1.0, 0.01, 0.5});
  const double dt = c.pick<double>({0.0, 0.1, 0.4}) * dx / smax;
  c.note("faces", Str(faces));
  c.note("cells", Str(Whole(s)));
  c.note("dir", dir);
  if (s.cells() <= 16) {
    std::string all;
    Each(Whole(s), [&](std::array<P, 3> i) { all += " " + pbt::list(s.get(i)); });
    c.note("states", all);
  }
  c.note("dt, dx", pbt::fmt(dt) + ", " + pbt::fmt(dx));
  c.nontrivial((faces.second[0] - faces.first[0]) > 1);
  c.label((faces.second[0] - faces.first[0]) % 8 == 0 ? "full chunks" : "remainder");
  const double tol = m.tol;
  Data simd = f, ref = f;
  m.Fluxes(Simd, simd, faces, s, view, dt, dx, dir);
  if (m.seq) {
    m.Fluxes(Seq, ref, faces, s, view, dt, dx, dir);
    Data o = f;
    m.Fluxes(Default, o, faces, s, view, dt, dx, dir);
    c.check(o.v == ref.v, "the default backend differs from the sequential one");
    o = f;
    m.Fluxes(OpenMp, o, faces, s, view, dt, dx, dir);
    c.check(o.v == ref.v, "the OpenMP backend differs from the sequential one");
  }
  if (!m.seq) {
    // one vectorised call per face replaces the scalar evaluation
    ref = f;
    Each(faces, [&](std::array<P, 3> i) {
      std::vector<std::vector<double>> st;
      for (int k = 0; k < 2 * m.width; ++k) {
        auto j = i;
        j[dir] += k - m.width;
        st.push_back(s.get(j));
      }
      ref.set(i, m.Face(Simd, st, dt, dx, dir));
    });
  }
  Data os = f;
  m.Fluxes(OpenMpSimd, os, faces, s, view, dt, dx, dir);
  Each(Whole(f), [&](std::array<P, 3> i) {
    for (int k = 0; k < m.ncons; ++k) {
      if (!In(faces, i)) {
        c.checkf(ref.at(k, i) == -12345.0 && simd.at(k, i) == -12345.0, [&] { return Where("a face outside of the requested box was written:", k, i); });
        continue;
      }
      c.checkf(std::isfinite(ref.at(k, i)), [&] { return Where("the scalar flux is not finite:", k, i); });
      c.checkf(std::abs(ref.at(k, i) - simd.at(k, i)) <= tol * scale[k], [&] {
        return Where("scalar flux " + pbt::fmt(ref.at(k, i)) + " vectorised flux " + pbt::fmt(simd.at(k, i)) + " scale " + pbt::fmt(scale[k]) + ":", k, i);
      });
      c.checkf(std::abs(os.at(k, i) - simd.at(k, i)) <= tol * scale[k], [&] { return Where("OpenMP+SIMD backend differs:", k, i); });
    }
  });
  // time step on the cells of the stencils
  Box cells = faces;
  cells.first[dir] -= m.width;
  cells.second[dir] += m.width - 1;
  if (m.has_simd_dt) {
  const double dt_simd = m.StableDt(Simd, s, cells, dx, dir);
  double dt_ref = std::numeric_limits<double>::infinity();
  if (m.seq) {
    dt_ref = m.StableDt(Seq, s, cells, dx, dir);
    c.check(m.StableDt(Default, s, cells, dx, dir) == dt_ref, "default backend: stable time step");
    c.check(m.StableDt(OpenMp, s, cells, dx, dir) == dt_ref, "OpenMP backend: stable time step");
  } else {
    Each(faces, [&](std::array<P, 3> i) {
      std::vector<std::vector<double>> st;
      for (int k = 0; k < 2 * m.width; ++k) {
        auto j = i;
        j[dir] += k - m.width;
        st.push_back(s.get(j));
      }
      dt_ref = std::min(dt_ref, m.FaceDt(Simd, st, dx, dir));
    });
  }
  if (std::isfinite(dt_ref)) {
    c.rel(dt_simd, dt_ref, 10 * tol, "stable time step: vectorised vs scalar", 0);
    c.rel(m.StableDt(OpenMpSimd, s, cells, dx, dir), dt_simd, tol, "stable time step: OpenMP+SIMD vs SIMD", 0);
  } else
    c.check(!std::isnan(dt_ref) && dt_simd == dt_ref, "stable time step: vectorised " + pbt::fmt(dt_simd) + " vs scalar " + pbt::fmt(dt_ref));
  }

  // locality: another state in one cell changes only the faces that see it
  std::array<P, 3> cell;
  for (int r = 0; r < 3; ++r)
    cell[r] = s.lo[r] + P(c.below(uint64_t(s.n[r])));
  Data t = s;
  nf.amp = std::min(m.max_amp, 0.5);
  t.set(cell, m.State(c, nf));
  std::vector<double> scale2;
  SumScale(m, t, scale2);
  Backend b = m.seq && c.boolean() ? Seq : Simd;
  Data g = f;
  bool bad = false;
  // the new state may be far away: only require the other faces to stay
  m.Fluxes(b, g, faces, t, view, 0.0, dx, dir);
  Data h = f;
  m.Fluxes(b, h, faces, s, view, 0.0, dx, dir);
  Each(faces, [&](std::array<P, 3> i) {
    std::array<P, 3> d = cell;
    for (int r = 0; r < 3; ++r)
      d[r] = cell[r] - i[r];
    bool sees = d[dir] >= -m.width && d[dir] < m.width;
    for (int r = 0; r < 3; ++r)
      sees = sees && (r == dir || d[r] == 0);
    if (sees)
      return;
    for (int k = 0; k < m.ncons; ++k)
      if (!(std::abs(g.at(k, i) - h.at(k, i)) <= tol * scale[k])) {
        c.fail(Where("changing cell " + pbt::list(cell) + " changes the flux", k, i) + " from " + pbt::fmt(h.at(k, i)) + " to " + pbt::fmt(g.at(k, i)));
        bad = true;
      }
  });
  (void)bad;
}

/// lanes with a covered face are ignored, all others get the scalar flux
void MaskedAgree(pbt::Case& c, Method& m) {
  const int dir = c.i(0, m.rank - 1);
  const int L = 8, N = 2 * m.width;
  Field f = m.MakeField(c, c.pick<double>({0.0, 0.05, 0.15, 0.5, 1.5}));
  std::vector<std::vector<std::vector<double>>> st(static_cast<std::size_t>(N), std::vector<std::vector<double>>(L));
  std::vector<double> face(L), nan_state(static_cast<std::size_t>(m.ncomp), 0.0);
  std::vector<std::vector<double>> vol(static_cast<std::size_t>(N), std::vector<double>(L, 1.0));
  std::vector<double> scale(static_cast<std::size_t>(m.ncons), 0.0);
  double smax = 1e-300;
  int valid = 0, outer = 0;
  std::vector<int> full(L, 1);
  std::vector<std::vector<std::vector<double>>> alt;
  for (int l = 0; l < L; ++l) {
    face[l] = c.pick<double>({0.0, 1.0, 1.0, 0.3});
    valid += face[l] > 0;
    for (int k = 0; k < N; ++k) {
      st[k][l] = m.State(c, f);
      auto sc = m.Scale(st[k][l]);
      for (int a = 0; a < m.ncons; ++a)
        scale[a] = std::max(scale[a], sc[a]);
      auto v = m.Speeds(st[k][l], dir);
      smax = std::max(smax, v[0] + v[1]);
    }
    for (int k = 0; k < N; ++k) {
      const bool inner = k == m.width - 1 || k == m.width;
      if (face[l] > 0 && inner)
        vol[k][l] = c.pick<double>({1.0, 0.5});
      else if (c.chance(1, 4))
        vol[k][l] = 0.0;
      if (face[l] > 0 && vol[k][l] == 0.0) {
        full[l] = 0;
        ++outer;
      }
    }
  }
  alt = st;
  // what stands in covered cells must not matter
  for (int l = 0; l < L; ++l)
    for (int k = 0; k < N; ++k)
      if (vol[k][l] == 0.0)
        alt[k][l] = c.boolean() ? nan_state : m.State(c, f);
  c.nontrivial(valid > 0 && valid < L);
  c.label(outer ? "covered neighbour cells" : "no covered neighbour cells");
  const double dx = 0.5, dt = 0.3 * dx / smax;
  c.note("dir", dir);
  c.note("face fractions", pbt::list(face));
  auto r = m.Masked(st, face, vol, dt, dx, dir);
  auto r2 = m.Masked(alt, face, vol, dt, dx, dir);
  for (int l = 0; l < L; ++l) {
    for (int k = 0; k < m.ncons; ++k) {
      const std::string at = " lane " + std::to_string(l) + " component " + std::to_string(k);
      if (face[l] > 0) {
        c.check(std::isfinite(r[l][k]), "masked flux not finite in" + at);
        c.checkf(std::abs(r[l][k] - r2[l][k]) <= m.tol * scale[k],
                 [&] { return "masked flux depends on covered cells: " + pbt::fmt(r[l][k]) + " vs " + pbt::fmt(r2[l][k]) + at; });
      } else {
        c.checkf(r[l][k] == 0.0, [&] { return "the masked flux of a covered face is " + pbt::fmt(r[l][k]) + at; });
      }
    }
    if (face[l] > 0 && full[l]) {
      std::vector<std::vector<double>> one;
      for (int k = 0; k < N; ++k)
        one.push_back(st[k][l]);
      auto ref = m.Face(m.seq ? Seq : Simd, one, dt, dx, dir);
      for (int k = 0; k < m.ncons; ++k)
        c.checkf(std::abs(ref[k] - r[l][k]) <= m.tol * scale[k], [&] {
          std::string all;
          for (auto& q : one)
            all += " " + pbt::list(q);
          c.note("stencil", all);
          return "masked flux " + pbt::fmt(r[l][k]) + " scalar flux " + pbt::fmt(ref[k]) + " lane " + std::to_string(l) + " component " + std::to_string(k);
        });
    }
  }
  if (m.has_masked_dt) {
    auto d = m.MaskedDt(alt, face, vol, dx, dir);
    for (int l = 0; l < L; ++l) {
      if (face[l] <= 0) {
        c.checkf(d[l] > 1e100, [&] { return "a covered face restricts the time step to " + pbt::fmt(d[l]) + " in lane " + std::to_string(l); });
        continue;
      }
      std::vector<std::vector<double>> one;
      for (int k = 0; k < N; ++k)
        one.push_back(st[k][l]);
      c.rel(d[l], m.FaceDt(m.seq ? Seq : Simd, one, dx, dir), 10 * m.tol, "masked stable time step, lane " + std::to_string(l), 0);
    }
  }
}
pbt::Setup setup([] {
  ForAllMethods("backends agree", 3000, 60000, Agree);
  auto all = Registry();
  for (auto& e : all) {
    auto mk = e.make;
    // methods without a masked evaluation are skipped by their description
    pbt::registry().push_back(pbt::Prop{"masked lanes: " + e.name, std::max<long>(20, long(1500 * e.weight)), std::max<long>(20, long(30000 * e.weight)), [mk](pbt::Case& c) {
                                          auto m = mk(c);
                                          if (!m->masked)
                                            throw pbt::Discard{};
                                          MaskedAgree(c, *m);
                                        }});
  }
});
} // namespace

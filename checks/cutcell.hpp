// Cut-cell data owned by a harness.
#pragma once
#include "fub/CutCellData.hpp"
#include "patch.hpp"
namespace cc {
using namespace fub;
using tst::Each;
using tst::In;
using tst::Ix;
using tst::MakeBox;
using P = std::ptrdiff_t;
/// one scalar array on a box
template <int R> struct Arr {
  IndexBox<R> box;
  std::vector<double> v;
  Arr() = default;
  explicit Arr(const IndexBox<R>& b, double x = 0.0) : box(b), v(std::size_t(tst::BoxSize<R>(b)), x) {}
  std::size_t off(const Ix<R>& i) const {
    P o = 0, s = 1;
    for (int r = 0; r < R; ++r) {
      o += (i[r] - box.lower[r]) * s;
      s *= box.upper[r] - box.lower[r];
    }
    return std::size_t(o);
  }
  double& operator()(const Ix<R>& i) { return v[off(i)]; }
  double operator()(const Ix<R>& i) const { return v[off(i)]; }
  PatchDataView<double, R> view() {
    Ix<R> e;
    for (int r = 0; r < R; ++r)
      e[r] = box.upper[r] - box.lower[r];
    return PatchDataView<double, R>(mdspan<double, R>(v.data(), e), box.lower);
  }
  PatchDataView<const double, R> cview() {
    Ix<R> e;
    for (int r = 0; r < R; ++r)
      e[r] = box.upper[r] - box.lower[r];
    return PatchDataView<const double, R>(mdspan<const double, R>(v.data(), e), box.lower);
  }
  PatchDataView<double, R, layout_stride> sub(const IndexBox<R>& b) { return view().Subview(b); }
  PatchDataView<const double, R, layout_stride> csub(const IndexBox<R>& b) { return cview().Subview(b); }
};
template <int R> Ix<R + 1> With(const Ix<R>& i, int k) {
  Ix<R + 1> j;
  for (int r = 0; r < R; ++r)
    j[r] = i[r];
  j[R] = k;
  return j;
}
template <int R> IndexBox<R + 1> With(const IndexBox<R>& b, int n) {
  IndexBox<R + 1> j;
  for (int r = 0; r < R; ++r) {
    j.lower[r] = b.lower[r];
    j.upper[r] = b.upper[r];
  }
  j.lower[R] = 0;
  j.upper[R] = n;
  return j;
}
template <int R> Ix<R> Sh(Ix<R> i, int dir, P n) {
  i[dir] += n;
  return i;
}
template <int R> IndexBox<R> Gr(IndexBox<R> b, int dir, P lo, P hi) {
  b.lower[dir] -= lo;
  b.upper[dir] += hi;
  return b;
}

template <int R> struct Geometry {
  IndexBox<R> cells;
  Arr<R> volume;
  Arr<R + 1> volume_centroid, boundary_centroid, normal;
  std::array<Arr<R>, R> face;                                // face fractions
  std::array<Arr<R>, R> us, sl, sr, ds, us_r, sl_r, sr_r, ds_r; // on faces
  CutCellData<R> data;
  explicit Geometry(const IndexBox<R>& b)
      : cells(b), volume(b, 1.0), volume_centroid(With<R>(b, R)), boundary_centroid(With<R>(b, R)), normal(With<R>(b, R)) {
    for (int d = 0; d < R; ++d) {
      const auto f = Gr<R>(b, d, 0, 1);
      face[d] = Arr<R>(f, 1.0);
      for (auto* a : {&us, &us_r})
        (*a)[d] = Arr<R>(f, 1.0);
      for (auto* a : {&sl, &sr, &ds, &sl_r, &sr_r, &ds_r})
        (*a)[d] = Arr<R>(f, 0.0);
    }
  }
  Geometry(const Geometry&) = delete;
  void Connect() {
    data.volume_fractions = volume.cview();
    data.volume_centeroid = volume_centroid.cview();
    data.boundary_centeroids = boundary_centroid.cview();
    data.boundary_normals = normal.cview();
    for (std::size_t d = 0; d < R; ++d) {
      data.face_fractions[d] = face[d].cview();
      data.unshielded_fractions[d] = us[d].cview();
      data.shielded_left_fractions[d] = sl[d].cview();
      data.shielded_right_fractions[d] = sr[d].cview();
      data.doubly_shielded_fractions[d] = ds[d].cview();
      data.unshielded_fractions_rel[d] = us_r[d].cview();
      data.shielded_left_fractions_rel[d] = sl_r[d].cview();
      data.shielded_right_fractions_rel[d] = sr_r[d].cview();
      data.doubly_shielded_fractions_rel[d] = ds_r[d].cview();
    }
  }
  bool Cut(const Ix<R>& i) const {
    const double a = volume(i);
    if (a <= 0)
      return false;
    if (a < 1)
      return true;
    for (int d = 0; d < R; ++d)
      if (face[d](i) < 1 || face[d](Sh<R>(i, d, 1)) < 1)
        return true;
    return false;
  }
};
} // namespace cc

#include "C20.hpp"
namespace {
PBT_PROP("split of faces, 2d", 6000, 200000) { FillCase<2>(c); }
PBT_PROP("split of faces, 3d", 3000, 100000) { FillCase<3>(c); }
PBT_PROP("stabilised fluxes, 2d", 8000, 300000) { Stable<2>(c); }
PBT_PROP("stabilised fluxes, 3d", 4000, 150000) { Stable<3>(c); }
} // namespace

#include "C20.hpp"
namespace {
PBT_PROP("all components, 2d", 3000, 100000) { Components<2>(c); }
PBT_PROP("all components, 3d", 1500, 50000) { Components<3>(c); }
PBT_PROP("embedded boundary fluxes, 2d", 2500, 80000) { Boundary<2>(c); }
} // namespace

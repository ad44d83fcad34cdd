#include "C20.hpp"
namespace {
PBT_PROP("embedded boundary fluxes, 3d", 2500, 80000) { Boundary<3>(c); }
} // namespace

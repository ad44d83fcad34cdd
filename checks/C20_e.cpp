#include "C20.hpp"
namespace {
PBT_PROP("regular fluxes and time step, 3d", 1500, 50000) { Hlls<3>(c); }
} // namespace

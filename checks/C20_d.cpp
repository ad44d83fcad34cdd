#include "C20.hpp"
namespace {
PBT_PROP("regular fluxes and time step, 2d", 2500, 80000) { Hlls<2>(c); }
} // namespace

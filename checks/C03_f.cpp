#include "C03.hpp"
PBT_PROP("Advection2d complete", 8000*2, 100000) { c03::Run<fub::Complete<fub::Advection2d>>(c); }
PBT_PROP("ShallowWater complete", 8000*2, 100000) { c03::Run<fub::Complete<fub::ShallowWater>>(c); }

#include "C02_slices.hpp"
PBT_PROP("slices 3d left", 20000*3, 200000*3) { Slices<3, layout_left>(c); }

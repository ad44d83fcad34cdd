#include "C02_slices.hpp"
PBT_PROP("slices 1d", 10000*3, 50000*3) { Slices<1, layout_left>(c); }
PBT_PROP("slices 2d left", 20000*3, 200000*3) { Slices<2, layout_left>(c); }
PBT_PROP("slices 2d right", 20000*3, 200000*3) { Slices<2, layout_right>(c); }

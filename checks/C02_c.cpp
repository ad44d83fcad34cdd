#include "C02_slices.hpp"
PBT_PROP("slices 4d left", 10000*3, 100000*3) { Slices<4, layout_left>(c); }

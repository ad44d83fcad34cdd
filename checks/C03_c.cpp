#include "C03.hpp"
PBT_PROP("PerfectGas<3> complete", 10000*2, 150000) { c03::Run<fub::Complete<fub::PerfectGas<3>>>(c); }
PBT_PROP("PerfectGas<3> conservative", 8000*2, 100000) { c03::Run<fub::Conservative<fub::PerfectGas<3>>>(c); }

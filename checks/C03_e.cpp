#include "C03.hpp"
PBT_PROP("PerfectGasMix<1> complete", 10000*2, 150000) { c03::Run<fub::Complete<fub::PerfectGasMix<1>>>(c); }
PBT_PROP("PerfectGasMix<1> conservative", 8000*2, 100000) { c03::Run<fub::Conservative<fub::PerfectGasMix<1>>>(c); }

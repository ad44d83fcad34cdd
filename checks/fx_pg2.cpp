// higher-order flux methods of the perfect gas
#include "fx_gas.hpp"
#include "fub/equations/perfect_gas/EinfeldtSignalVelocities.hpp"
#include "fub/equations/perfect_gas/GodunovMethod.hpp"
#include "fub/equations/perfect_gas/MusclHancockCharactersticMethod.hpp"
#include "fub/equations/perfect_gas/MusclHancockMethod.hpp"
#include "fub/equations/perfect_gas/MusclHancockPrimMethod.hpp"
#include "fub/equations/perfect_gas/ThirdOrderRungeKuttaMethod.hpp"
#include "fub/flux_method/HllMethod.hpp"
using namespace fub;
template <int R> using Muscl = FluxMethod<MusclHancock<PerfectGas<R>>>;
template <int R> using Prim = FluxMethod<perfect_gas::MusclHancockPrim<R>>;
template <int R> using Char = FluxMethod<perfect_gas::MusclHancockCharacteristic<R>>;
#define PG(R)                                                                                                                                          \
  FX_METHOD("PerfectGas<" #R "> MusclHancock", 0.4, PerfectGas<R>, Muscl<R>, true, true, m.tol = 1e-5; m.exact_signals = true; m.has_simd_dt = m.has_masked_dt = false);                                                \
  FX_METHOD("PerfectGas<" #R "> MusclHancockPrim", 0.6, PerfectGas<R>, Prim<R>, false, true);                                                          \
  FX_METHOD("PerfectGas<" #R "> MusclHancockCharacteristic", 0.6, PerfectGas<R>, Char<R>, true, true)
PG(1);
PG(2);
PG(3);
using Rk3 = FluxMethod<perfect_gas::ThirdOrderRungeKutta<1>>;
FX_METHOD("PerfectGas<1> ThirdOrderRungeKutta", 0.4, PerfectGas<1>, Rk3, true, false, m.max_amp = 0.02);

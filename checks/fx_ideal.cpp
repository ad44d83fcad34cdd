// flux methods of the reacting ideal gas mixture
#include "fx_ig.hpp"
#include "fub/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp"
#include "fub/equations/ideal_gas_mix/HlleMethod.hpp"
#include "fub/equations/ideal_gas_mix/MusclHancockCharactersticMethod.hpp"
#include "fub/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp"
using namespace fub;
template <int R> using HllM = FluxMethod<Hll<IdealGasMix<R>, EinfeldtSignalVelocities<IdealGasMix<R>>>>;
#define IG(R)                                                                                                                                          \
  FX_METHOD("IdealGasMix<" #R "> Hll", 0.3, IdealGasMix<R>, HllM<R>, true, true, m.tol = 1e-8);                                                        \
  FX_METHOD("IdealGasMix<" #R "> MusclHancockPrimitive", 0.15, IdealGasMix<R>, ideal_gas::MusclHancockPrimMethod<R>, true, true, m.tol = 1e-6);         \
  FX_METHOD("IdealGasMix<" #R "> MusclHancockCharacteristic", 0.15, IdealGasMix<R>, FluxMethod<ideal_gas::MusclHancockCharacteristic<R>>, true, true, m.tol = 1e-6)
IG(1);
IG(2);
IG(3);

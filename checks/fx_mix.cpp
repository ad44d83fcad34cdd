// perfect gas mixtures
#include "fx_gas.hpp"
#include "fub/equations/perfect_gas_mix/EinfeldtSignalVelocities.hpp"
#include "fub/equations/perfect_gas_mix/HllemMethod.hpp"
#include "fub/flux_method/HllMethod.hpp"
#include "fub/flux_method/MusclHancockMethod2.hpp"
using namespace fub;
template <int R> using Eq = PerfectGasMix<R>;
template <int R> using HllM = HllMethod<Eq<R>, EinfeldtSignalVelocities<Eq<R>>>;
template <int R> using HllemM = perfect_gas::HllemMethod<Eq<R>, false>;
template <int R> using HllemLar = perfect_gas::HllemMethod<Eq<R>, true>;
#define MIX(R)                                                                                                                                         \
  FX_METHOD("PerfectGasMix<" #R "> Hll", 1, Eq<R>, HllM<R>, true, true);                                                                               \
  FX_METHOD("PerfectGasMix<" #R "> Hllem", 1, Eq<R>, HllemM<R>, true, true);                                                                           \
  FX_METHOD("PerfectGasMix<" #R "> HllemLarrouturou", 1, Eq<R>, HllemLar<R>, true, true)
MIX(1);
MIX(2);

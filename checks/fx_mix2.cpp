// second-order methods of perfect gas mixtures (the combinations of the flux method factory)
#include "fx_gas.hpp"
#include "fub/equations/perfect_gas_mix/EinfeldtSignalVelocities.hpp"
#include "fub/equations/perfect_gas_mix/HllemMethod.hpp"
#include "fub/flux_method/HllMethod.hpp"
#include "fub/flux_method/MusclHancockMethod2.hpp"
using namespace fub;
template <int R> using Eq = PerfectGasMix<R>;
template <int R> using HllM = HllMethod<Eq<R>, EinfeldtSignalVelocities<Eq<R>>>;
template <int R> using HllemM = perfect_gas::HllemMethod<Eq<R>, false>;
template <int R> using HllemLar = perfect_gas::HllemMethod<Eq<R>, true>;
template <int R, typename L, typename B>
using Cons2 = FluxMethod<MusclHancock2<Eq<R>, ConservativeGradient<Eq<R>, CentralDifferenceGradient<L>>, ConservativeReconstruction<Eq<R>>, B>>;
template <int R, typename L, typename B>
using Prim2 = FluxMethod<MusclHancock2<Eq<R>, PrimitiveGradient<Eq<R>, CentralDifferenceGradient<L>>, PrimitiveReconstruction<Eq<R>>, B>>;
template <int R, typename L, typename B>
using Char2 = FluxMethod<MusclHancock2<Eq<R>, CharacteristicsGradient<Eq<R>, CentralDifferenceGradient<L>>, CharacteristicsReconstruction<Eq<R>>, B>>;
using C1 = Cons2<1, VanLeerLimiter, HllemLar<1>>;
using P1 = Prim2<1, MinModLimiter, HllemM<1>>;
using H1 = Char2<1, MinModLimiter, HllemLar<1>>;
using U1 = Char2<1, UpwindLimiter, HllM<1>>;
FX_METHOD("PerfectGasMix<1> MusclHancock2 conservative VanLeer HllemLarrouturou", 0.5, Eq<1>, C1, true, true);
FX_METHOD("PerfectGasMix<1> MusclHancock2 primitive MinMod Hllem", 0.5, Eq<1>, P1, true, true);
FX_METHOD("PerfectGasMix<1> MusclHancock2 characteristic MinMod HllemLarrouturou", 0.5, Eq<1>, H1, true, true);
FX_METHOD("PerfectGasMix<1> MusclHancock2 characteristic Upwind Hll", 0.5, Eq<1>, U1, true, true);

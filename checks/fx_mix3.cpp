// second-order methods of perfect gas mixtures (the combinations of the flux method factory)
#include "fx_gas.hpp"
#include "fub/equations/perfect_gas_mix/EinfeldtSignalVelocities.hpp"
#include "fub/equations/perfect_gas_mix/HllemMethod.hpp"
#include "fub/flux_method/HllMethod.hpp"
#include "fub/flux_method/MusclHancockMethod2.hpp"
using namespace fub;
template <int R> using Eq = PerfectGasMix<R>;
template <int R> using HllM = HllMethod<Eq<R>, EinfeldtSignalVelocities<Eq<R>>>;
template <int R> using HllemM = perfect_gas::HllemMethod<Eq<R>, false>;
template <int R> using HllemLar = perfect_gas::HllemMethod<Eq<R>, true>;
template <int R, typename L, typename B>
using Cons2 = FluxMethod<MusclHancock2<Eq<R>, ConservativeGradient<Eq<R>, CentralDifferenceGradient<L>>, ConservativeReconstruction<Eq<R>>, B>>;
template <int R, typename L, typename B>
using Prim2 = FluxMethod<MusclHancock2<Eq<R>, PrimitiveGradient<Eq<R>, CentralDifferenceGradient<L>>, PrimitiveReconstruction<Eq<R>>, B>>;
template <int R, typename L, typename B>
using Char2 = FluxMethod<MusclHancock2<Eq<R>, CharacteristicsGradient<Eq<R>, CentralDifferenceGradient<L>>, CharacteristicsReconstruction<Eq<R>>, B>>;
using P2 = Prim2<2, VanLeerLimiter, HllemM<2>>;
using C2 = Cons2<2, MinModLimiter, HllM<2>>;
using H2 = Char2<2, VanLeerLimiter, HllemLar<2>>;
FX_METHOD("PerfectGasMix<2> MusclHancock2 primitive VanLeer Hllem", 0.5, Eq<2>, P2, true, true);
FX_METHOD("PerfectGasMix<2> MusclHancock2 conservative MinMod Hll", 0.5, Eq<2>, C2, true, true);
FX_METHOD("PerfectGasMix<2> MusclHancock2 characteristic VanLeer HllemLarrouturou", 0.5, Eq<2>, H2, true, true);

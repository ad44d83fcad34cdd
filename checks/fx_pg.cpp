// first-order flux methods of the perfect gas
#include "fx_gas.hpp"
#include "fub/equations/perfect_gas/EinfeldtSignalVelocities.hpp"
#include "fub/equations/perfect_gas/GodunovMethod.hpp"
#include "fub/equations/perfect_gas/HllemMethod.hpp"
#include "fub/flux_method/GodunovMethod.hpp"
#include "fub/flux_method/HllMethod.hpp"
using namespace fub;
template <int R> using Einf = EinfeldtSignalVelocities<PerfectGas<R>>;
template <int R> using HllM = FluxMethod<Hll<PerfectGas<R>, Einf<R>>>;
template <int R> using God = FluxMethod<Godunov<PerfectGas<R>>>;
template <int R> using HllemM = perfect_gas::HllemMethod<PerfectGas<R>, false>;
template <int R> using HllemLar = perfect_gas::HllemMethod<PerfectGas<R>, true>;
#define PG(R)                                                                                                                                          \
  FX_METHOD("PerfectGas<" #R "> Godunov", 0.5, PerfectGas<R>, God<R>, true, true, m.tol = 1e-5; m.exact_signals = true; m.has_simd_dt = false);                                                  \
  FX_METHOD("PerfectGas<" #R "> Hll", 1, PerfectGas<R>, HllM<R>, true, true);                                                                          \
  FX_METHOD("PerfectGas<" #R "> Hllem", 1, PerfectGas<R>, HllemM<R>, true, true);                                                                      \
  FX_METHOD("PerfectGas<" #R "> HllemLarrouturou", 1, PerfectGas<R>, HllemLar<R>, true, true)
PG(1);
PG(2);
PG(3);

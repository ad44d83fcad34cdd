#include "C21_grad.hpp"
namespace {
PBT_PROP("gradients of conserved variables", 12000, 400000) { AnyLim<ConservativeGradient>(c); }
} // namespace

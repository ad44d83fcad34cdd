#include "C21_grad.hpp"
namespace {
PBT_PROP("gradients of primitive variables", 12000, 400000) { AnyLim<PrimitiveGradient>(c); }
} // namespace

// GCC builtins, no BMI2
#include "H04_std.inc"
#undef __BMI2__
#define libcommute libcommute_gcc
#include "libcommute/loperator/bit_ops.hpp"
#define PBT_IMPL h04_gcc
#include "H04_impl.inc"

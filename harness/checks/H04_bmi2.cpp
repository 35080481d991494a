// PBT flags: -mbmi2
#include "H04_std.inc"
#include <immintrin.h>
#define libcommute libcommute_bmi2
#include "libcommute/loperator/bit_ops.hpp"
#define PBT_IMPL h04_bmi2
#include "H04_impl.inc"

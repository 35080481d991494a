// The header as a compiler other than GCC and Clang sees it
#include "H04_std.inc"
#undef __GNUC__
#undef __clang__
#undef __BMI2__
#define libcommute libcommute_portable
#include "libcommute/loperator/bit_ops.hpp"
#define PBT_IMPL h04_portable
#include "H04_impl.inc"

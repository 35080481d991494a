// PBT configs: san rel
// PBT cxx-rel: g++
// PBT flags: -std=c++14 -UNDEBUG -DLIBCOMMUTE_BOSON_MAX_NUM_PRECOMPUTED_SQRT=2 -DLIBCOMMUTE_SPIN_MAX_NUM_PRECOMPUTED_SQRT=3 -Dlibcommute=libcommute_x01_gcc14
#define X01_NS x01_gcc14
#include "X01_body.inc"

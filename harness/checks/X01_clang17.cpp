// PBT configs: rel
// PBT cxx-rel: clang++
// PBT flags: -std=c++17 -UNDEBUG -O2 -Dlibcommute=libcommute_x01_clang17
#define X01_NS x01_clang17
#include "X01_body.inc"

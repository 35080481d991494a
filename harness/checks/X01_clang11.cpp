// PBT configs: rel
// PBT cxx-rel: clang++
// PBT flags: -std=c++11 -O1 -Dlibcommute=libcommute_x01_clang11
#define X01_NS x01_clang11
#include "X01_body.inc"

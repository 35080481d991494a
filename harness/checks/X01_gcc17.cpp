// PBT configs: san rel
// PBT cxx-rel: g++
// PBT flags: -std=c++17 -Dlibcommute=libcommute_x01_gcc17
#define X01_NS x01_gcc17
#include "X01_body.inc"

// PBT configs: san rel
// PBT cxx-rel: g++
// PBT flags: -std=c++11 -Dlibcommute=libcommute_x01_gcc11
#define X01_NS x01_gcc11
#include "X01_body.inc"

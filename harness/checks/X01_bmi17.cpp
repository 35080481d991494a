// PBT configs: rel
// PBT cxx-rel: g++
// PBT flags: -std=c++17 -mbmi2 -O3 -Dlibcommute=libcommute_x01_bmi17
#define X01_NS x01_bmi17
#include "X01_body.inc"

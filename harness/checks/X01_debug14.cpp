// PBT configs: rel
// PBT cxx-rel: g++
// PBT flags: -std=c++14 -O1 -UNDEBUG -D_GLIBCXX_DEBUG -Dlibcommute=libcommute_x01_debug14
#define X01_NS x01_debug14
#include "X01_body.inc"
